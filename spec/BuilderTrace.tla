---------------------------- MODULE BuilderTrace ----------------------------
(* Validates executions recorded from the real code: one JSON document per  *)
(* line, each [id, ev] with ev the sequence of events of one XPipe.         *)
EXTENDS Builder, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l, st
vars == <<tid, l, st>>

Init == /\ tid \in 1..Len(Traces)
        /\ l = 0
        /\ st = Init0

Next == /\ l < Len(Traces[tid].ev)
        /\ st.bad = ""
        /\ l' = l + 1
        /\ st' = Step(st, Traces[tid].ev[l + 1])
        /\ IF st'.bad = "" THEN TRUE
           ELSE PrintT("REJECT " \o ToJson([id |-> Traces[tid].id, n |-> tid, ev |-> l + 1, why |-> st'.bad]))
        /\ UNCHANGED tid

Spec == Init /\ [][Next]_vars

View == <<tid, l>>
=============================================================================
