------------------------------ MODULE Cmdline ------------------------------
(* The command lines of the two tools.  The words are taken one by one; what *)
(* is done is decided when they are all taken, or earlier.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* Words.  After "end" (--) every word is a path: one that is spelled like   *)
(* an option names an odd file.                                              *)
Paths == {"good", "bad", "raw", "dir", "missing"}
Options == {"quiet", "help", "version", "unknown"}
Named(w) == IF w \in Options THEN "odd" ELSE IF w \in Paths THEN w ELSE "missing"
Words == Options \cup {"end"} \cup Paths

VARIABLES tool, args,      \* the command
          at,              \* words taken so far
          quiet,           \* how often the quiet option was given
          path,            \* the path, "" if none yet
          ended,           \* "--" was seen
          act              \* "" while words are taken, then what is done
lvars == <<tool, args, at, quiet, path, ended, act>>

LineInit == at = 0 /\ quiet = 0 /\ path = "" /\ ended = FALSE /\ act = ""

Word == args[at + 1]
Take == at' = at + 1 /\ UNCHANGED <<tool, args>>
TakePath(p) ==
  /\ IF path = "" THEN path' = p /\ act' = "" ELSE act' = "refuse" /\ UNCHANGED path
  /\ UNCHANGED <<quiet, ended>> /\ Take

DumpWord ==
  /\ tool = "dump" /\ act = "" /\ at < Len(args)
  /\ \/ Word \in Paths /\ TakePath(Word)
     \/ ended /\ Word \notin Paths /\ TakePath(Named(Word))
     \/ ~ ended /\ Word = "end" /\ ended' = TRUE /\ UNCHANGED <<quiet, path, act>> /\ Take
     \/ ~ ended /\ Word = "quiet" /\ quiet' = quiet + 1 /\ UNCHANGED <<path, ended, act>> /\ Take
     \/ ~ ended /\ Word \in {"help", "version"} /\ act' = Word /\ UNCHANGED <<quiet, path, ended>> /\ Take
     \/ ~ ended /\ Word = "unknown" /\ act' = "refuse" /\ UNCHANGED <<quiet, path, ended>> /\ Take
DumpEnd ==
  /\ tool = "dump" /\ act = "" /\ at = Len(args)
  /\ act' = IF quiet > 1 THEN "refuse" ELSE IF path = "" THEN "nothing"
            ELSE IF path = "missing" THEN "fail" ELSE "report"
  /\ UNCHANGED <<tool, args, at, quiet, path, ended>>

(* elm-parser-check takes its first word, whatever it is.                    *)
CheckEnd ==
  /\ tool = "check" /\ act = ""
  /\ IF args = <<>> THEN act' = "usage" /\ UNCHANGED path
     ELSE /\ path' = Named(args[1])
          /\ act' = IF path' \in {"good", "bad", "odd"} THEN "report" ELSE "fail"
  /\ UNCHANGED <<tool, args, at, quiet, ended>>

LineNext == DumpWord \/ DumpEnd \/ CheckEnd

(* What is printed: the reports on the good file, the bad one, one that is   *)
(* not text, or a directory with one of each, sorted; and how it ends.       *)
Printed ==
  CASE act = "report" /\ tool = "check" -> IF path \in {"good", "odd"} THEN <<"list">> ELSE <<"error">>
    [] act = "report" /\ quiet = 0 ->
         (CASE path = "good" -> <<"tree good">>
            [] path = "odd" -> <<"tree odd">>
            [] path \in {"bad", "raw"} -> <<"error">>
            [] path = "dir" -> <<"error", "error", "tree good">>)
    [] act = "report" /\ quiet > 0 ->
         (CASE path = "good" -> <<"good ok">>
            [] path = "odd" -> <<"odd ok">>
            [] path = "bad" -> <<"bad fail">>
            [] path = "raw" -> <<"raw fail">>
            [] path = "dir" -> <<"bad fail", "good ok", "raw fail">>)
    [] act \in {"help", "version", "usage"} -> <<act>>
    [] OTHER -> <<>>
Status == IF act \in {"refuse", "fail", "usage"} THEN "fail" ELSE "ok"

(* ------------------------------------------------------------- properties *)
Reports == {"tree good", "tree odd", "odd ok", "error", "good ok", "bad fail", "raw fail", "list"}
Range(s) == {s[k] : k \in 1..Len(s)}
(* Where the options stand plays no part: the command is its path and whether it is quiet. *)
Before == {k \in 1..Len(args) : \A j \in 1..k : args[j] # "end"}      \* words before "--"
OrderFree ==
  act = "report" /\ tool = "dump" =>
    /\ {args[k] : k \in {j \in 1..Len(args) : args[j] \in Paths}} = {path} \ {"odd"}
    /\ quiet = Cardinality({k \in Before : args[k] = "quiet"})
    /\ quiet < 2
(* What is refused or fails reports nothing, and says so in its status.      *)
NothingOnFailure == act # "" /\ Status = "fail" => Range(Printed) \cap Reports = {}
NoSilentSuccess == act # "" /\ Status = "ok" /\ Printed = <<>> => path = "" /\ tool = "dump"
=============================================================================
