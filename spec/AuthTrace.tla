------------------------------ MODULE AuthTrace ------------------------------
(* Validates recorded authentications, one per event.                       *)

EXTENDS Auth, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l, bad
vars == <<tid, l, bad>>

Init == tid \in 1..Len(Traces) /\ l = 0 /\ bad = ""
Next == /\ l < Len(Traces[tid].ev)
        /\ bad = ""
        /\ l' = l + 1
        /\ bad' = JudgeAuth(Traces[tid].ev[l + 1])
        /\ IF bad' = "" THEN TRUE
           ELSE PrintT("REJECT " \o ToJson([id |-> Traces[tid].id, n |-> tid, ev |-> l + 1, why |-> bad']))
        /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
View == <<tid, l>>
=============================================================================
