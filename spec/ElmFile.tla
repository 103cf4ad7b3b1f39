------------------------------- MODULE ElmFile -------------------------------
(* Reading one file: a state machine over the text, one action per top-level *)
(* statement.  `out` is the tree so far, `spans` where each statement lay.   *)
EXTENDS ElmGrammar

VARIABLES pos,     \* next unread character
          phase,   \* "stmt" -> "tail" -> "accept" | "reject"
          out,     \* statements read so far
          spans    \* <<from, to>> of each of them

fvars == <<src, cps, pos, phase, out, spans>>

FileInit == pos = 1 /\ phase = "stmt" /\ out = <<>> /\ spans = <<>>

(* The white space before a statement; between two statements there has to   *)
(* be some.                                                                  *)
Start == White0(pos)
MayStart == out = <<>> \/ Start > pos

Attempt == IF MayStart THEN Statement(Start) ELSE F

ReadStatement(r) ==               \* r: what Attempt found
  /\ r.p # 0
  /\ out' = Append(out, r.v)
  /\ spans' = Append(spans, <<Start, r.p>>)
  /\ pos' = r.p
  /\ UNCHANGED <<src, cps, phase>>
NoMoreStatements(r) ==
  /\ r.p = 0
  /\ phase' = IF out = <<>> THEN "reject" ELSE "tail"
  /\ UNCHANGED <<src, cps, pos, out, spans>>
Accept == phase = "tail" /\ White0(pos) > Len(src) /\ phase' = "accept" /\ UNCHANGED <<src, cps, pos, out, spans>>
Reject == phase = "tail" /\ White0(pos) <= Len(src) /\ phase' = "reject" /\ UNCHANGED <<src, cps, pos, out, spans>>

(* Where reading got stuck: after the last complete statement and the white  *)
(* space that follows it.                                                    *)
Stuck == White0(pos)
Rest == Len(src) - Stuck + 1

FileNext ==
  \/ phase = "stmt" /\ \E r \in {Attempt} : ReadStatement(r) \/ NoMoreStatements(r)
  \/ Accept
  \/ Reject

(* ------------------------------------------------ properties of the machine *)
(* Nothing is dropped: an accepted text is its statements, in order, and the *)
(* white space between them.                                                 *)
OnlyWhite(i, j) == \A k \in i..(j - 1) : src[k] \in White
Covered ==
  phase = "accept" =>
    /\ Len(spans) = Len(out) /\ Len(out) > 0
    /\ \A k \in 1..Len(spans) : spans[k][1] < spans[k][2]
    /\ OnlyWhite(1, spans[1][1])
    /\ \A k \in 1..(Len(spans) - 1) :
          /\ spans[k][2] < spans[k + 1][1]
          /\ OnlyWhite(spans[k][2], spans[k + 1][1])
    /\ OnlyWhite(spans[Len(spans)][2], Len(src) + 1)

(* A rejected text has a first thing that could not be read; what is before  *)
(* it is complete statements and white space.                                *)
PointsAtRest ==
  phase = "reject" /\ out # <<>> =>
    /\ Rest > 0
    /\ spans[Len(spans)][2] <= Stuck
    /\ OnlyWhite(spans[Len(spans)][2], Stuck)

Progress == [][pos' >= pos /\ (out' # out => pos' > pos)]_fvars

(* Names in the tree are never reserved words; operators never reserved.     *)
RECURSIVE NamesOk(_)
NamesOk(n) ==
  /\ n.k \in {"Variable", "Access", "FunctionDefinition", "FunctionSignature", "FunctionExport"} =>
       \A q \in {n.c[k] : k \in 1..Len(n.c)} : q.k = "Str" => q.s \notin (Keyword \cup ReservedOp)
  /\ n.k = "Variable" => \A q \in {n.c[1].c[k] : k \in 1..Len(n.c[1].c)} :
                             q.s \notin ((Keyword \ {"as"}) \cup ReservedOp)
  /\ \A k \in 1..Len(n.c) : NamesOk(n.c[k])
ReservedApart == phase = "accept" => \A k \in 1..Len(out) : NamesOk(out[k])
=============================================================================
