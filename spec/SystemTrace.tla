----------------------------- MODULE SystemTrace -----------------------------
(* Validates recorded histories of units of work against the server model.  *)
EXTENDS System, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l, st
vars == <<tid, l, st>>

Init == tid \in 1..Len(Traces) /\ l = 0 /\ st = State0(Traces[tid].units, Traces[tid].quiet, Traces[tid].calm)
Next == /\ l < Len(Traces[tid].ev)
        /\ Complaint(st) = ""
        /\ l' = l + 1
        /\ st' = Post(st, Traces[tid].ev[l + 1])
        /\ IF Complaint(st') = "" THEN TRUE
           ELSE IF st'.why = "DISAGREE" THEN Assert(FALSE, <<"the driver's server is not the specified one", Traces[tid].id, l + 1>>)
           ELSE PrintT("REJECT " \o ToJson([id |-> Traces[tid].id, n |-> tid, ev |-> l + 1,
                  why |-> Complaint(st') \o ": " \o ToJson(Traces[tid].ev[l + 1])]))
        /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
View == <<tid, l>>
=============================================================================
