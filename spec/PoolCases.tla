------------------------------ MODULE PoolCases ------------------------------
(***************************************************************************)
(* Pool programs: a pool of some size is filled with some idle connections, *)
(* then operations race each other (the driver goes through all their      *)
(* interleavings with a bounded number of preemptions), then the pool is   *)
(* probed for what it has kept.                                            *)
(*   share  successful units of work only                                  *)
(*   fail   dial, transport and server failures, contexts that are done    *)
(*   seq    the same one after the other, longer                           *)
(*   scale  large pools, long histories, many responses                    *)
(*   close  with one or two Closes                                         *)
(*   walk   larger ones of each kind, for random schedules                 *)
(*   free   larger ones for uncontrolled ones                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

CONSTANTS What, Deep, Kind, Seed

S(dial, use, ctx) == [k |-> "send", dial |-> dial, use |-> use, ctx |-> ctx, s |-> 0]
Op(k, s) == [k |-> k, dial |-> "", use |-> "", ctx |-> "", s |-> s]
OK == S("ok", "ok", "live")
NONE == S("ok", "none", "live")
Close == Op("close", 0)
CloseD == [Close EXCEPT !.ctx = "done"]
Cancel(s) == Op("cancel", s)
Rep(x, n) == [i \in 1..n |-> x]
Ph(how, ops) == IF ops = <<>> THEN <<>> ELSE <<[how |-> how, ops |-> ops]>>
Prog(size, phases, mode, bound, seed) == [size |-> size, phases |-> phases, mode |-> mode, bound |-> bound, seed |-> seed]

(* multisets of n operations, as sequences *)
Bags(ops, n) == {q \in [1..n -> 1..Len(ops)] : \A i \in 1..(n - 1) : q[i] <= q[i + 1]}
Of(ops, q) == [i \in DOMAIN q |-> ops[q[i]]]
Words(ops, n) == {Of(ops, q) : q \in [1..n -> 1..Len(ops)]}

Oks == <<OK, NONE, OK, S("ok", "ok", "use")>>
Bad == <<OK, S("ok", "err", "live"), S("ok", "resp", "live"), S("fail", "ok", "live"), S("ok", "ok", "done")>>
AllBad == <<OK, NONE, S("ok", "err", "live"), S("ok", "errx", "live"), S("ok", "errr", "live"), S("ok", "eof", "live"),
            S("ok", "resp", "live"), S("ok", "resp1", "live"), S("fail", "ok", "live"), S("ok", "ok", "done"), S("fail", "ok", "done")>>
(* the context becomes done while the connection is in use, or while it is dialled *)
Mid == <<S("ok", "ok", "use"), S("ok", "err", "use"), S("ok", "errr", "use"), S("ok", "ctx", "use"), S("ok", "ctx", "live"), S("ok", "resp", "use"),
         S("ok", "ok", "dial"), S("ok", "err", "dial"), S("ok", "resp", "dial"), S("fail", "ok", "dial")>>
All == AllBad \o Mid
(* other errors, with and without responses, and other responses that are errors *)
Odd == {S("ok", u, "live") : u \in {"err:canceled", "err:deadline", "err:timeout", "err:closed", "err:eof", "err:pipe", "err:reset", "err:empty", "err:fatal", "err:pool", "err:temp", "err:value",
                                    "errr:canceled", "errr:timeout", "errr:eof", "errr:empty", "errn:canceled", "errn:timeout", "errx:canceled",
                                    "resp:empty", "resp:value", "resp:canceled", "resp:fatal", "resp:zero", "resp:code0", "resp:notice", "resp:wrapped", "resp:dup", "resp:eof"}}

Share ==
    {Prog(size, Ph("hold", Rep(OK, fill)) \o Ph("race", race) \o Ph("hold", Rep(OK, size + 1)), "dfs", 2, 0)
       : size \in 0..2, fill \in 0..3, race \in {<<OK, OK>>, <<OK, NONE>>}}
    \cup {Prog(size, Ph("hold", Rep(OK, fill)) \o Ph("race", Rep(OK, 3)) \o Ph("hold", Rep(OK, size + 1)), "dfs", IF Deep THEN 2 ELSE 1, 0)
       : size \in 0..3, fill \in 0..4}
    \cup {Prog(size, Ph("hold", Rep(OK, fill)) \o Ph("race", Rep(OK, 4)) \o Ph("hold", Rep(OK, size + 1)), "dfs", IF Deep THEN 1 ELSE 0, 0)
       : size \in 1..3, fill \in 0..3}
    \cup {Prog(size, Ph("hold", Rep(OK, fill)) \o Ph(how, <<m, OK>>) \o Ph("hold", Rep(OK, size + 1)), "dfs", 1, 0)
       : size \in 0..2, fill \in 0..2, how \in {"race", "seq"}, m \in {S("ok", "ok", "use"), S("ok", "ok", "dial"), S("ok", "none", "use")}}
    \cup IF ~Deep THEN {} ELSE
    {Prog(size, Ph("hold", Rep(OK, fill)) \o Ph("race", <<OK, OK>>) \o Ph("hold", Rep(OK, size + 1)), "dfs", 4, 0)
       : size \in 0..2, fill \in 0..2}

Fail ==
    {Prog(size, Ph("hold", Rep(OK, fill)) \o Ph("race", Of(AllBad, q)) \o Ph("hold", Rep(OK, size + 1)), "dfs", IF Deep THEN 2 ELSE 1, 0)
       : size \in 0..2, fill \in 0..(IF Deep THEN 2 ELSE 1), q \in Bags(AllBad, 2)}
    \cup {Prog(size, Ph("hold", Rep(OK, fill)) \o Ph("race", <<m, OK>>) \o Ph("hold", Rep(OK, size + 1)), "dfs", 1, 0)
       : size \in 0..2, fill \in 0..1, m \in {Mid[i] : i \in 1..Len(Mid)}}
    \cup {Prog(size, Ph("hold", Rep(OK, fill)) \o Ph("race", <<m, OK>>) \o Ph("hold", Rep(OK, size + 1)), "dfs", 0, 0)
       : size \in 0..2, fill \in 0..1, m \in Odd}
    \cup {Prog(1, Ph("seq", <<[m EXCEPT !.ctx = c], OK>>) \o Ph("hold", Rep(OK, 2)), "dfs", 0, 0) : m \in Odd, c \in {"use", "dial"}}
    \cup {Prog(size, Ph("hold", Rep(OK, fill)) \o Ph("race", <<Bad[i], OK, Cancel(fill + 1)>>) \o Ph("hold", Rep(OK, size + 1)), "dfs", 1, 0)
       : size \in 0..2, fill \in 0..1, i \in 1..4}
    \cup IF ~Deep THEN {} ELSE
    {Prog(size, Ph("hold", Rep(OK, fill)) \o Ph("race", Of(Bad, q)) \o Ph("hold", Rep(OK, size + 1)), "dfs", 1, 0)
       : size \in 0..2, fill \in 0..2, q \in Bags(Bad, 3)}

SeqFam ==
    {Prog(size, Ph("seq", q) \o Ph("hold", Rep(OK, size + 1)), "dfs", 0, 0) : size \in 0..2, q \in Words(All, 2)}
    \cup {Prog(size, Ph("hold", q) \o Ph("hold", Rep(OK, size + 1)), "dfs", 0, 0) : size \in 1..3, q \in Words(Bad, IF Deep THEN 4 ELSE 3)}
    \cup {Prog(size, Ph("hold", Rep(OK, 3)) \o Ph("seq", q) \o Ph("hold", Rep(OK, size + 1)), "dfs", 0, 0) : size \in 1..3, q \in Words(Bad, IF Deep THEN 4 ELSE 3)}

After == Ph("seq", <<OK, S("ok", "ok", "done"), Close, OK>>)
Many == {S("ok", "resp@" \o ToString(k) \o "/" \o ToString(n), "live") : k \in {1, 2, 15, 16, 17, 32, 33, 64, 65, 128, 256, 300}, n \in {16, 17, 33, 66, 129, 257, 300}}
Scale ==
    CASE Kind = "share" ->
        {Prog(size, Ph("hold", Rep(OK, size + 2)) \o Ph("seq", Rep(OK, 5)) \o Ph("hold", Rep(OK, size + 1)) \o Ph("hold", Rep(OK, (size \div 2) + 1)), "dfs", 0, 0)
           : size \in {4, 5, 7, 8, 9, 16, 17, 33} \cup (IF Deep THEN {10, 20, 31, 32, 64, 65, 100, 128, 129} ELSE {64})}
        \cup {Prog(size, Ph("hold", Rep(OK, size)) \o Ph("seq", Rep(S("ok", "ok@" \o ToString(n), "live"), 120)) \o Ph("hold", Rep(OK, size + 1)), "dfs", 0, 0) : size \in {1, 3}, n \in {1, 17, 300}}
      [] Kind = "fail" ->
        {Prog(2, Ph("hold", <<OK, OK>>) \o Ph("seq", <<m, OK>>) \o Ph("hold", Rep(OK, 3)), "dfs", 0, 0) : m \in Many}
        \cup {Prog(size, Ph("hold", Rep(OK, size)) \o Ph("hold", [i \in 1..(size + 2) |-> AllBad[1 + (((i + o) * 7) % Len(AllBad))]]) \o Ph("hold", Rep(OK, size + 1)), "dfs", 0, 0)
           : size \in {5, 9, 17, 33}, o \in 0..3}
        \cup {Prog(2, Ph("hold", <<OK, OK>>) \o Ph("seq", [i \in 1..150 |-> AllBad[1 + (((i + o) * 7) % Len(AllBad))]]) \o Ph("hold", Rep(OK, 3)), "dfs", 0, 0) : o \in 0..2}
        \cup {Prog(size, Ph("hold", Rep(OK, size)) \o Ph("seq", [i \in 1..270 |-> IF i % j = 0 THEN AllBad[1 + (((i + size) * 7) % Len(AllBad))] ELSE OK]) \o Ph("hold", Rep(OK, size + 1)), "dfs", 0, 0) : size \in {0, 1, 3}, j \in {9, 300}}
      [] OTHER ->
        {Prog(size, Ph("hold", Rep(OK, size)) \o Ph("seq", [i \in 1..n |-> IF i % j = 0 THEN AllBad[1 + (((i + size) * 7) % Len(AllBad))] ELSE OK]) \o Ph("race", <<OK, Close>>) \o After, "dfs", 0, 0) : size \in {1, 3}, j \in {2, 9, 300}, n \in {30, 130, 270}}
        \cup {Prog(size, Ph("hold", Rep(OK, size)) \o Ph("hold", <<OK>>) \o Ph("seq", <<cl>>) \o After, "dfs", 0, 0) : size \in {5, 9, 17, 33, 64}, cl \in {Close, CloseD}}
        \cup {Prog(size, Ph("hold", Rep(OK, size)) \o Ph("race", <<OK, Close>>) \o After, "dfs", 1, 0) : size \in {5, 9}}

Closing ==
    {Prog(size, Ph("hold", Rep(OK, fill)) \o Ph("race", <<s, Close>>) \o After, "dfs", IF Deep THEN 3 ELSE 2, 0)
       : size \in 0..2, fill \in 0..2, s \in {All[i] : i \in IF Deep THEN 1..Len(All) ELSE {1, 2, 3, 7, 9, 10, 12, 13, 17, 18}}}
    \cup {Prog(size, Ph("hold", Rep(OK, fill)) \o Ph("race", race) \o After, "dfs", IF Deep THEN 2 ELSE 1, 0)
       : size \in 0..2, fill \in 0..2, race \in {<<OK, OK, Close>>, <<OK, Close, Close>>, <<OK, CloseD>>, <<OK, Close, CloseD>>, <<OK, S("ok", "err", "live"), Close>>, <<OK, S("ok", "resp", "live"), Close>>}}
    \cup {Prog(size, Ph("hold", Rep(OK, fill)) \o Ph("race", <<Close, Close>>) \o After, "dfs", IF Deep THEN 3 ELSE 2, 0)
       : size \in 0..2, fill \in 0..2}
    \cup {Prog(size, Ph("hold", Rep(OK, fill)) \o Ph("seq", Rep(cl, n)) \o After, "dfs", 0, 0) : size \in 0..3, fill \in 0..4, n \in 0..3, cl \in {Close, CloseD}}
    \cup {Prog(size, Ph("hold", Rep(OK, fill)) \o Ph("race", <<OK, Close, Cancel(fill + 1)>>) \o After, "dfs", 1, 0)
       : size \in 0..1, fill \in 0..1}

(* k-th of many larger programs; the numbers only have to vary *)
Mix(k, i) == (k * 7919 + i * 104729 + (k * i) * 31 + Seed * 1299709 + (k \div 3) * 17) % 1000003
Pick(ops, k, i) == ops[1 + (Mix(k, i) % Len(ops))]
Ops == CASE Kind = "share" -> Oks [] Kind = "fail" -> All \o <<OK, OK, OK, OK>> [] OTHER -> All \o <<OK, OK, OK, OK, Close>>
Tail1(size) == IF Kind = "close" THEN After ELSE Ph("hold", Rep(OK, size + 1))
Walk(n, mode, runs, len) ==
    {LET size == Mix(k, 99) % 4
         fill == Mix(k, 98) % 4
         race == [i \in 1..(3 + (Mix(k, 97) % len)) |-> Pick(Ops, k, i)]
         last == IF Kind = "close" THEN <<Close>> ELSE <<>>
     IN Prog(size, Ph("hold", Rep(OK, fill)) \o Ph("race", race \o last) \o Tail1(size), mode, runs, k) : k \in 1..n}

Family ==
    CASE What = "share" -> Share [] What = "fail" -> Fail [] What = "seq" -> SeqFam [] What = "close" -> Closing [] What = "scale" -> Scale
      [] What = "walk" -> Walk(IF Deep THEN 200 ELSE 12, "random", IF Deep THEN 60 ELSE 25, 3)
      [] OTHER -> Walk(IF Deep THEN 100 ELSE 8, "free", IF Deep THEN 60 ELSE 20, 3)

ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Family))
ASSUME PrintT(<<"CASES", Cardinality(Family)>>)
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
