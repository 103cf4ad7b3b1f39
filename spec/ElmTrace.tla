------------------------------ MODULE ElmTrace ------------------------------
(* Trace validation of the file parser.  Each line of the trace file is one  *)
(* run of the real code:                                                     *)
(*   {"id": n, "src": [chars], "cps": [code points],                         *)
(*    "outcome": "accept" | "reject", "tree": [statement nodes],             *)
(*    "rest": characters the error report quotes as unread, -1 if unknown}   *)
(* A run is a behaviour of ElmFile whose statements are the logged ones and  *)
(* which ends in the logged verdict.  A run that is not is reported.         *)
EXTENDS ElmFile, Json, IOUtils, TLCExt

Traces == ndJsonDeserialize(IOEnv.ELM_TRACE)

VARIABLES t        \* the run being validated

tvars == <<fvars, t>>

Log == Traces[t]

TraceInit ==
  /\ t \in 1..Len(Traces)
  /\ src = Traces[t].src
  /\ cps = Traces[t].cps
  /\ FileInit

(* The next statement of the specification is the next one logged.  A run    *)
(* that ended in rejection logs none: they are then inferred.                *)
(* A deep subtree is logged apart, as the node "@" that tells where.         *)
RECURSIVE Same(_, _)
Same(a, b) == IF b.k = "@" /\ Log.parts # <<>> THEN Same(a, Log.parts[atoi(b.s)])
              ELSE /\ a.k = b.k /\ a.s = b.s /\ Len(a.c) = Len(b.c)
                   /\ \A k \in 1..Len(a.c) : Same(a.c[k], b.c[k])
Agrees(r) == Log.outcome = "accept" =>
  /\ Len(out) < Len(Log.tree)
  /\ LET logged == Log.tree[Len(out) + 1] IN
     IF Log.parts = <<>> THEN r.v = logged ELSE Same(r.v, logged)
AtRest == Log.outcome = "reject" /\ Log.rest # -1 => Log.rest = Rest
Ends == IF White0(pos) > Len(src) THEN "accept" ELSE "reject"

TStatement(r) == Agrees(r) /\ ReadStatement(r)
TNoMore(r) ==
  /\ IF out = <<>> THEN Log.outcome = "reject" /\ AtRest
     ELSE Log.outcome = "accept" => Len(out) = Len(Log.tree)
  /\ NoMoreStatements(r)
TEnd == Log.outcome = Ends /\ AtRest /\ (Accept \/ Reject)

(* No step of the specification explains the run's next event.               *)
Diverge(what) ==
  /\ phase' = "diverged"
  /\ PrintT(<<"DIVERGED", Log.id, Len(out), pos, what>>)
  /\ UNCHANGED <<src, cps, pos, out, spans>>

(* The parser gives a verdict; a run that ended any other way is none of the *)
(* specification's.                                                          *)
Verdict == {"accept", "reject"}

TraceNext ==
  /\ \/ phase = "stmt" /\ Log.outcome \notin Verdict /\ Diverge(Log.outcome)
     \/ phase = "stmt" /\ Log.outcome \in Verdict /\ \E r \in {Attempt} :
          \/ TStatement(r)
          \/ TNoMore(r)
          \/ r.p # 0 /\ ~ Agrees(r) /\ Diverge("statement")
          \/ /\ r.p = 0
             /\ IF out = <<>> THEN Log.outcome = "accept"
                ELSE Log.outcome = "accept" /\ Len(out) # Len(Log.tree)
             /\ Diverge("end of statements")
          \/ r.p = 0 /\ out = <<>> /\ ~ AtRest /\ Diverge("place of the error")
     \/ phase = "tail" /\ TEnd
     \/ phase = "tail" /\ Log.outcome # Ends /\ Diverge("verdict")
     \/ phase = "tail" /\ Log.outcome = Ends /\ ~ AtRest /\ Diverge("place of the error")
  /\ UNCHANGED t

TraceSpec == TraceInit /\ [][TraceNext]_tvars

(* Every run is decided: counted where it ends (one worker).                 *)
Done == phase \in {"accept", "reject"}
ASSUME TLCSet(1, 0)
CountDone == Done => TLCSet(1, TLCGet(1) + 1)
AllDecided == PrintT(<<"ENDED", TLCGet(1)>>)

(* A run decides its text, and what was read of it where we are.             *)
View == <<t, pos, phase, Len(out)>>

NoDivergence == phase # "diverged"
=============================================================================
