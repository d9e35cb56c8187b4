----------------------------- MODULE NamesCases -----------------------------
(* Every collation constant, every error constant, and the names of numbers *)
(* that are collations and of numbers that are not.                         *)
EXTENDS Names, Json, IOUtils, SequencesExt

CONSTANTS What, Deep

Trace(e) == [ev |-> <<e>>]
Numbers == (0..(IF Deep THEN 70000 ELSE 2500)) \cup {2^k + d : k \in 12..30, d \in {-1, 0, 1, 33, 45, 63}}
NameEvs == {Trace([k |-> "name", id |-> i]) : i \in Numbers}
CollationEvs == {Trace([k |-> "collation", const |-> c.const]) : c \in Collations}
ErrorEvs == {Trace([k |-> "error", const |-> c.const, sent |-> b]) : c \in Codes, b \in BOOLEAN}
All == CASE What = "names" -> NameEvs [] What = "collations" -> CollationEvs [] What = "errors" -> ErrorEvs

ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(All))
ASSUME PrintT(<<"CASES", Cardinality(All)>>)
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
