----------------------------- MODULE DumpTrace -----------------------------
(* Trace validation of elm-parser-dump.  Each line of the trace file is one  *)
(* real run: the command, the files it was given and, in the order printed,  *)
(* its reports: which file each is about, and what it says.                  *)
EXTENDS DumpCli, Json, IOUtils, TLCExt

Runs == ndJsonDeserialize(IOEnv.ELM_TRACE)
VARIABLES t
dtvars == <<dcvars, t>>
Log == Runs[t]

DTInit == /\ t \in 1..Len(Runs)
          /\ cmd = [quiet |-> Runs[t].quiet, dir |-> Runs[t].dir, files |-> Runs[t].files]
          /\ CliInit

RECURSIVE Same(_, _, _)
Same(a, b, parts) ==
  IF b.k = "@" /\ parts # <<>> THEN Same(a, parts[atoi(b.s)], parts)
  ELSE /\ a.k = b.k /\ a.s = b.s /\ Len(a.c) = Len(b.c)
       /\ \A k \in 1..Len(a.c) : Same(a.c[k], b.c[k], parts)

More == Len(said) < Len(Log.said)
Next_ == Log.said[Len(said) + 1]
Agrees == /\ Next_.what = What
          /\ Len(Next_.tree) = Len(Shown)
          /\ \A k \in 1..Len(Shown) : Same(Shown[k], Next_.tree[k], Next_.parts)

Diverge(what) ==
  /\ phase' = "diverged"
  /\ PrintT(<<"DIVERGED", Log.id, Len(said), IF More THEN Next_.f ELSE 0, what>>)
  /\ UNCHANGED <<src, cps, pos, out, spans, cvars>>

DTNext ==
  /\ \/ /\ phase = "walk" /\ Log.ended # "ok" /\ Diverge(Log.ended)
     \/ /\ phase = "walk" /\ Log.ended = "ok"
        /\ IF More THEN IF Next_.f \in left THEN Open(Next_.f) ELSE Diverge("not to be reported")
           ELSE /\ left # {} /\ Diverge("not reported")
     \/ ReadOn
     \/ /\ open # 0 /\ phase \in {"accept", "reject"}
        /\ IF Agrees THEN Report ELSE Diverge("report")
     \/ /\ phase = "walk" /\ Log.ended = "ok" /\ ~ More /\ left = {}
        /\ phase' = "finished" /\ UNCHANGED <<src, cps, pos, out, spans, cvars>>
  /\ UNCHANGED t
DTSpec == DTInit /\ [][DTNext]_dtvars

(* A run decides its files; the rest is where in it we are.                  *)
View == <<t, phase, open, pos, Len(out), Len(said), Cardinality(left)>>

ASSUME TLCSet(1, 0)
CountDone == phase = "finished" => TLCSet(1, TLCGet(1) + 1)
AllDecided == PrintT(<<"ENDED", TLCGet(1)>>)
=============================================================================
