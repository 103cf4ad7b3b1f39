------------------------------ MODULE CmdModel ------------------------------
(* Every command line of up to MaxWords words.                               *)
EXTENDS Cmdline
CONSTANT MaxWords
CModelInit == /\ tool \in {"dump", "check"}
              /\ args \in UNION {[1..n -> Words] : n \in 0..MaxWords}
              /\ LineInit
CModelSpec == CModelInit /\ [][LineNext]_lvars /\ WF_lvars(LineNext)
Decided == <>(act # "")
=============================================================================
