---------------------------- MODULE ConnectorTrace ----------------------------
(* Judges recorded connection attempts, for one of the two properties.       *)
EXTENDS Connector, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Prop == IOEnv.PROP

VARIABLES tid, l, st
vars == <<tid, l, st>>

Why(s) == IF Prop = "C13" THEN s.b13 ELSE s.b14
Init == tid \in 1..Len(Traces) /\ l = 0 /\ st = State0(Traces[tid].cfg)
Next == /\ l < Len(Traces[tid].ev)
        /\ l' = l + 1
        /\ st' = TLCEval(Step(st, Traces[tid].cfg, Traces[tid].ev[l + 1]))
        /\ IF Why(st') = Why(st) THEN TRUE
           ELSE PrintT("REJECT " \o ToJson([id |-> Traces[tid].id, n |-> tid, ev |-> l + 1, why |-> Why(st')]))
        /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
View == <<tid, l>>
=============================================================================
