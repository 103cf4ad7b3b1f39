---------------------------- MODULE SessionTrace ----------------------------
(* The parser as a service: asked about a text, it answers with a verdict    *)
(* (and a tree).  The answer is a function of the text alone: asked again,   *)
(* in another process, after other texts, it is the same.                    *)
(* Each line of the trace file is the history of one text: every answer it   *)
(* was given.                                                                *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, TLCExt

Runs == ndJsonDeserialize(IOEnv.ELM_TRACE)
Verdict == {"accept", "reject"}
None == [outcome |-> "none", tree |-> ""]

VARIABLES t, asked, answer, phase
svars == <<t, asked, answer, phase>>
Log == Runs[t]

SInit == t \in 1..Len(Runs) /\ asked = 0 /\ answer = None /\ phase = "asking"

(* The service: any verdict the first time, the same ever after.             *)
Answer(a) ==
  /\ a.outcome \in Verdict
  /\ answer \in {None, a}
  /\ answer' = a /\ asked' = asked + 1

SNext ==
  /\ phase = "asking"
  /\ IF asked = Len(Log.answers)
     THEN phase' = "done" /\ UNCHANGED <<asked, answer>>
     ELSE LET a == Log.answers[asked + 1]
              logged == [outcome |-> a.outcome, tree |-> a.tree] IN
          \/ Answer(logged) /\ UNCHANGED phase
          \/ /\ ~ (a.outcome \in Verdict /\ answer \in {None, logged})
             /\ phase' = "diverged"
             /\ PrintT(<<"DIVERGED", Log.id, asked, 0,
                         IF a.outcome \in Verdict THEN "another answer" ELSE a.outcome>>)
             /\ UNCHANGED <<asked, answer>>
  /\ UNCHANGED t
SSpec == SInit /\ [][SNext]_svars

OneAnswer == asked > 0 => answer.outcome \in Verdict
ASSUME TLCSet(1, 0)
CountDone == phase = "done" => TLCSet(1, TLCGet(1) + 1)
AllDecided == PrintT(<<"ENDED", TLCGet(1)>>)
=============================================================================
