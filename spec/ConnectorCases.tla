---------------------------- MODULE ConnectorCases ----------------------------
(* One connector used again and again, one after the other ("seq") and by     *)
(* several at once ("par"), against servers of all kinds.                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
CONSTANTS What, Deep

Accts == {"usual", "nopw", "long", "odd"}
Configs == [net : {"tcp", "tcp4", "tcp6", "unix"}, tls : {"none", "server", "mutual", "insecure"}, mech : {"MYSQL41", "SHA256_MEMORY", "PLAIN"}, acct : Accts]
Auths == {<<"ok">>, <<"cont20", "ok">>, <<"cont200", "nok">>, <<"cont20", "deny", "ok">>, <<"cont20", "deny", "deny">>, <<"deny", "err">>, <<"err">>, <<"cont20", "eof">>}
Before(c) == IF c.net # "unix" /\ c.tls # "none" THEN {<<"ok", "good">>} ELSE {<<>>}
Fails(c) == IF c.net # "unix" /\ c.tls # "none" THEN {<<"err">>, <<"ok", "leave">>} \cup (IF c.tls = "insecure" THEN {} ELSE {<<"inject", "ca">>, <<"ok", "name">>}) ELSE {}
Scripts(c) == {p \o a : p \in Before(c), a \in Auths} \cup Fails(c)
Case(c, how, s) == [cfg |-> c, dl |-> FALSE, how |-> how, scripts |-> s]

Family ==
    IF What = "seq"
    THEN UNION {{Case(c, "seq", <<s, t, s>>) : s \in Scripts(c), t \in Scripts(c)} : c \in {x \in Configs : Deep \/ (x.acct \in {"usual"} /\ (x.net = "tcp4" \/ x.tls # "insecure"))}}
    ELSE IF What = "long"
    THEN UNION {LET all == SetToSeq(Scripts(c)) IN {Case(c, "seq", [i \in 1..(IF Deep THEN 120 ELSE 40) |-> all[1 + ((i * k + i \div Len(all)) % Len(all))]]) : k \in {1, 3}} : c \in {x \in Configs : x.net \in {"tcp", "unix"} /\ x.acct \in {"usual", "odd"} /\ x.tls # "insecure"}}
         (* the same again and again, then all *)
         \cup UNION {{Case(c, "seq", [i \in 1..(IF Deep THEN 150 ELSE 36) |-> s] \o SetToSeq(Scripts(c))) : s \in Scripts(c)} : c \in {x \in Configs : x.net \in {"tcp", "unix"} /\ x.acct = "usual" /\ x.tls \in {"none", "server"}}}
    ELSE IF What = "tls" (* other ways of saying which server is the right one *)
    THEN UNION {{Case(c, how, [i \in 1..(IF how = "par" THEN 4 ELSE 2) |-> <<"ok", x>> \o a]) : x \in {"good", "ca", "name", "old", "tls12"}, a \in {<<"ok">>, <<"cont20", "ok">>, <<"cont20", "deny", "ok">>, <<"cont20", "err">>, <<"deny", "deny">>}, how \in {"seq", "par"}}
                : c \in [net : {"tcp"}, tls : {"server", "mutual", "insecure", "vconn", "vpeer", "never", "min13", "getcert"}, mech : {"MYSQL41", "SHA256_MEMORY", "PLAIN"}, acct : {"usual"}]}
         \cup UNION {{Case(c, "seq", <<<<"ok", x, "cont20", "ok">>, <<"ok", y, "cont20", "ok">>, <<"ok", x, "cont20", "deny", "ok">>, <<"ok", y, "deny", "ok">>>>) : x, y \in {"good", "ca", "name", "old", "tls12"}}
                : c \in [net : {"tcp4", "tcp6"}, tls : {"server", "mutual", "vconn", "vpeer", "never", "min13", "getcert"}, mech : {"MYSQL41"}, acct : {"usual"}]}
    ELSE UNION {{Case(c, "par", [i \in 1..n |-> s]) : s \in Scripts(c), n \in IF Deep THEN {2, 4, 8} ELSE {4}} : c \in Configs}

ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Family))
ASSUME PrintT(<<"CASES", Cardinality(Family)>>)
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
