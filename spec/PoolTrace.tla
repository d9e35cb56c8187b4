------------------------------ MODULE PoolTrace ------------------------------
(* Validates recorded pool histories: some hidden behaviour of the pool has *)
(* to explain each of them.                                                 *)
EXTENDS Pool, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l, cfgs
vars == <<tid, l, cfgs>>

Init == tid \in 1..Len(Traces) /\ l = 0 /\ cfgs = {Config0(Traces[tid].size)}
Next == /\ l < Len(Traces[tid].ev)
        /\ cfgs # {}
        /\ l' = l + 1
        /\ cfgs' = PostAll(cfgs, Traces[tid].ev[l + 1])
        /\ IF cfgs' # {} THEN TRUE
           ELSE PrintT("REJECT " \o ToJson([id |-> Traces[tid].id, n |-> tid, ev |-> l + 1,
                  why |-> "the pool may not do this here: " \o ToJson(Traces[tid].ev[l + 1])]))
        /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
View == <<tid, l>>
=============================================================================
