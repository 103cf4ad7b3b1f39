------------------------------ MODULE CmdTrace ------------------------------
(* Trace validation of command lines: each line of the trace file is one run *)
(* of a tool: its words, what it printed (sorted) and how it ended.          *)
EXTENDS Cmdline, Json, IOUtils, TLCExt

Runs == ndJsonDeserialize(IOEnv.ELM_TRACE)
VARIABLES t, phase
cmdvars == <<lvars, t, phase>>
Log == Runs[t]

CTInit == t \in 1..Len(Runs) /\ tool = Runs[t].tool /\ args = Runs[t].args /\ LineInit /\ phase = "line"
Agrees == Log.out = Printed /\ Log.status = Status
CTNext ==
  /\ \/ act = "" /\ LineNext /\ UNCHANGED phase
     \/ act # "" /\ phase = "line" /\ Agrees /\ phase' = "done" /\ UNCHANGED lvars
     \/ act # "" /\ phase = "line" /\ ~ Agrees /\ phase' = "diverged" /\ UNCHANGED lvars
        /\ PrintT(<<"DIVERGED", Log.id, at, 0, act>>)
  /\ UNCHANGED t
CTSpec == CTInit /\ [][CTNext]_cmdvars

ASSUME TLCSet(1, 0)
CountDone == phase = "done" => TLCSet(1, TLCGet(1) + 1)
AllDecided == PrintT(<<"ENDED", TLCGet(1)>>)
=============================================================================
