----------------------------- MODULE CodecTrace -----------------------------
(* Validates what was recorded from the real encoders against Codec.tla.    *)
EXTENDS Codec, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l, bad
vars == <<tid, l, bad>>

Init == /\ tid \in 1..Len(Traces)
        /\ l = 0
        /\ bad = ""

Next == /\ l < Len(Traces[tid].ev)
        /\ bad = ""
        /\ l' = l + 1
        /\ LET e == Traces[tid].ev[l + 1] v == Verdict(e) IN
           bad' = IF v = "" THEN "" ELSE e.f \o ": " \o v
        /\ IF bad' = "" THEN TRUE
           ELSE PrintT("REJECT " \o ToJson([id |-> Traces[tid].id, n |-> tid, ev |-> l + 1, why |-> bad']))
        /\ UNCHANGED tid

Spec == Init /\ [][Next]_vars
View == <<tid, l>>
=============================================================================
