----------------------------- MODULE TwinCases ------------------------------
(* Units of work built side by side. Every unit is a behaviour of the       *)
(* builder's specification, which has no state outside the unit, so what    *)
(* each of them is recorded to do must be a behaviour of Builder.tla on its *)
(* own, whatever the others do and however the goroutines building them are *)
(* interleaved.  PROGS: behaviours, each a line of JSON in a string.        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
CONSTANTS What, Deep, Kind, Seed, Every, Mode, Bound

P == ndJsonDeserialize(IOEnv.PROGS)
N == Len(P)
Mix(k, i) == (k * 7919 + i * 104729 + (k * i) * 31 + Seed * 1299709 + (k \div 3) * 17) % 1000003

RECURSIVE Join(_)
Join(s) == IF Len(s) = 1 THEN P[s[1]] ELSE P[s[1]] \o "," \o Join(Tail(s))
Doc(progs, share, mode, bound, seed) ==
    "{\"kind\":\"" \o Kind \o "\",\"progs\":[" \o Join(progs) \o "],\"share\":" \o (IF share THEN "true" ELSE "false") \o ",\"mode\":\"" \o mode
    \o "\",\"bound\":" \o ToString(bound) \o ",\"seed\":" \o ToString(seed) \o "}"

Ks == {k \in 1..N : (k + Seed) % Every = 0}
Other(k, i) == 1 + (Mix(k, i) % N)

(* the same unit twice, with the same values *)
Same == {Doc(<<k, k>>, TRUE, Mode, Bound, Seed) : k \in Ks}
(* a unit and its counterpart *)
Duo == {Doc(<<k, k + 1>>, FALSE, Mode, Bound, Seed) : k \in {i \in 1..N : i % 2 = 1 /\ ((i \div 2) + Seed) % Every = 0}}
(* a unit and another one *)
Pairs == {Doc(<<k, Other(k, 1)>>, (k % 2) = 0, Mode, Bound, Seed) : k \in Ks}
(* Mode "spread": Bound single preemptions, evenly spread; "dfs": all schedules with up to Bound preemptions *)
(* more of them, at random *)
Crowd == {Doc(<<k, Other(k, 1), k, Other(k, 2)>>, (k % 2) = 0, "random", Bound, k) : k \in Ks}
(* really at the same time *)
Free == {Doc([i \in 1..8 |-> IF i % 2 = 0 THEN k ELSE Other(k, i \div 4)], (k % 3) # 0, "free", Bound, k) : k \in Ks}

Family == CASE What = "same" -> Same [] What = "duo" -> Duo [] What = "pairs" -> Pairs [] What = "crowd" -> Crowd [] OTHER -> Free

ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Family))
ASSUME PrintT(<<"CASES", Cardinality(Family)>>)
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
