----------------------------- MODULE CheckTrace -----------------------------
(* Trace validation of elm-parser-check: each line of the trace file is one  *)
(* real run, the text of its file and what it printed.                       *)
EXTENDS CheckCli, Json, IOUtils, TLCExt

Runs == ndJsonDeserialize(IOEnv.ELM_TRACE)
VARIABLES t
ktvars == <<kvars, t>>
Log == Runs[t]

KTInit == t \in 1..Len(Runs) /\ src = Runs[t].src /\ cps = Runs[t].cps /\ CheckInit

Diverge(what) ==
  /\ told' = <<"diverged">>
  /\ PrintT(<<"DIVERGED", Log.id, Len(out), pos, what>>)
  /\ UNCHANGED fvars
Logged == IF Log.told = "list" THEN <<"list", Log.names>> ELSE <<Log.told>>
AtRest == Log.told = "error" /\ Log.rest # -1 => Log.rest = Rest
Verdicts == {"list", "error"}
KTNext ==
  /\ \/ told = <<>> /\ Log.told \notin Verdicts /\ Diverge(Log.told)
     \/ Log.told \in Verdicts /\ ReadOn
     \/ told = <<>> /\ phase \in {"accept", "reject"} /\ Log.told \in Verdicts
        /\ IF Logged = (IF phase = "accept" THEN <<"list", Imported(out, 1)>> ELSE <<"error">>)
              /\ AtRest
           THEN Tell ELSE Diverge("printed")
  /\ UNCHANGED t
KTSpec == KTInit /\ [][KTNext]_ktvars

(* A run decides its text, and what was read of it where we are.             *)
View == <<t, pos, phase, Len(out), told = <<>>>>

ASSUME TLCSet(1, 0)
CountDone == told # <<>> /\ told[1] # "diverged" => TLCSet(1, TLCGet(1) + 1)
AllDecided == PrintT(<<"ENDED", TLCGet(1)>>)
=============================================================================
