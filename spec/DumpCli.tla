------------------------------ MODULE DumpCli ------------------------------
(* elm-parser-dump: given a file it reports on it; given a directory it      *)
(* walks it, in no particular order, and reports on every .elm file once.    *)
(* Reading one file is ElmFile.                                              *)
EXTENDS ElmFile, FiniteSets

VARIABLES cmd,     \* the command: [quiet, dir, files]
          left,    \* files still to be reported
          open,    \* the file being read, 0 if none
          said     \* what was printed so far
cvars == <<cmd, left, open, said>>
dcvars == <<fvars, cvars>>

(* A file is [name |-> characters of its last component, dir |-> it is a     *)
(* directory (or leads to one), readable |-> its content is UTF-8 text that  *)
(* can be read, src, cps |-> that text].                                     *)
tElm == <<".", "e", "l", "m">>
ElmExtension(name) ==
  LET n == Len(name) IN n > 4 /\ \A k \in 1..4 : name[n - 4 + k] = tElm[k]
Wanted(f) == IF cmd.dir THEN ~ f.dir /\ ElmExtension(f.name) ELSE TRUE

CliInit ==
  /\ left = {k \in 1..Len(cmd.files) : Wanted(cmd.files[k])}
  /\ open = 0 /\ said = <<>>
  /\ src = <<>> /\ cps = <<>> /\ pos = 1 /\ phase = "walk" /\ out = <<>> /\ spans = <<>>

Open(k) ==
  /\ phase = "walk" /\ k \in left
  /\ open' = k
  /\ src' = cmd.files[k].src /\ cps' = cmd.files[k].cps
  /\ pos' = 1 /\ out' = <<>> /\ spans' = <<>>
  /\ phase' = IF cmd.files[k].readable THEN "stmt" ELSE "reject"
  /\ UNCHANGED <<cmd, left, said>>

ReadOn == open # 0 /\ phase \in {"stmt", "tail"} /\ FileNext /\ UNCHANGED cvars

(* One report: quietly, whether the file parsed; else its tree or an error.  *)
What == IF cmd.quiet THEN IF phase = "accept" THEN "ok" ELSE "fail"
        ELSE IF phase = "accept" THEN "tree" ELSE "error"
Shown == IF What = "tree" THEN out ELSE <<>>
Report ==
  /\ open # 0 /\ phase \in {"accept", "reject"}
  /\ said' = Append(said, [f |-> open, what |-> What, tree |-> Shown])
  /\ left' = left \ {open}
  /\ open' = 0 /\ phase' = "walk"
  /\ UNCHANGED <<src, cps, pos, out, spans, cmd>>

CliNext == (\E k \in left : Open(k)) \/ ReadOn \/ Report
Finished == phase = "walk" /\ left = {}

(* ------------------------------------------------------------- properties *)
Once == Cardinality({said[k].f : k \in 1..Len(said)}) = Len(said)
OnlyWanted == \A k \in 1..Len(said) : Wanted(cmd.files[said[k].f])
AllReported == Finished => {said[k].f : k \in 1..Len(said)}
                           = {k \in 1..Len(cmd.files) : Wanted(cmd.files[k])}
=============================================================================
