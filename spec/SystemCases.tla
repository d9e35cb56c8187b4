----------------------------- MODULE SystemCases -----------------------------
(***************************************************************************)
(* Programs of units of work: phases of units that run one after the other *)
(* ("seq"), hold a connection each before the first goes on ("hold") or    *)
(* race each other, over a pool of some size, with faults at messages of   *)
(* some of them:                                                           *)
(*   err, fatal   the server fails the message                             *)
(*   cut          the connection is lost before the server has handled it  *)
(*   lost, half   it is lost after that, with the answer or half of it     *)
(*   mute, late   no answer from there on (the connection is lost, or the  *)
(*                deadline passes), but the server goes on                 *)
(*   wcut         the message is the first not to be delivered             *)
(* pace says whether the server works ahead of the client's reading, late  *)
(* what becomes of the messages it has when the client goes away.          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

CONSTANTS What, Deep, Seed

Width(s) == IF s = "insertrow" THEN 2 ELSE 1
Count(q, P(_)) == Cardinality({i \in 1..Len(q) : P(q[i])})
Unit(kind, iso, ctx, stmts) ==
    [kind |-> kind, iso |-> iso, ctx |-> ctx, stmts |-> stmts, n |-> Len(stmts),
     pre |-> Count(stmts, LAMBDA s : s = "exec"), w |-> [i \in 1..Len(stmts) |-> Width(stmts[i])],
     post |-> FALSE, pipe |-> 0, done |-> FALSE, chat |-> "none", pace |-> "lazy", late |-> "drop", fault |-> <<>>]
With(u, at, do) == [u EXCEPT !.fault = Append(@, [at |-> at, do |-> do])]
Full(stmts) == Unit("full", 0, "empty", stmts)
Sum(q) == LET RECURSIVE S(_)
              S(i) == IF i = 0 THEN 0 ELSE q[i] + S(i - 1)
          IN S(Len(q))
Size(u) == Sum(u.w) + u.pre + (IF u.iso \in 1..4 THEN 1 ELSE 0) + 4 + (IF u.post THEN u.pre ELSE 0) \* messages of a full one

A == Full(<<"stmt", "insert">>)
B == Full(<<"exec", "update", "exec">>)
C == [Unit("full", 4, "copy", <<"insertrow", "delete">>) EXCEPT !.chat = "notices"]
D == [Full(<<"stmta", "insertf", "updatef", "exec">>) EXCEPT !.post = TRUE, !.chat = "big"]
E == [Full(<<"stmt">>) EXCEPT !.chat = "bytes"]
Shapes == {A, B, C, D, E}

Dos == {"err", "fatal", "cut", "lost", "half", "mute", "late", "wcut"}
Ways == {<<"eager", "drop">>, <<"lazy", "drop">>, <<"lazy", "now">>, <<"lazy", "end">>}
Way(u, w) == [u EXCEPT !.pace = w[1], !.late = w[2]]

UnitOp(k) == [k |-> "unit", u |-> k]
Other(k) == [k |-> k, u |-> 0]
(* phases are written with the units in place; they are numbered here *)
RECURSIVE Flat(_)
Flat(phs) == IF phs = <<>> THEN <<>>
             ELSE SelectSeq(Head(phs)[2], LAMBDA x : "kind" \in DOMAIN x) \o Flat(Tail(phs))
RECURSIVE Number(_, _)
Number(phs, k) ==
    IF phs = <<>> THEN <<>>
    ELSE LET xs == Head(phs)[2]
             Before(i) == Cardinality({j \in 1..i : "kind" \in DOMAIN xs[j]})
             ops == [i \in 1..Len(xs) |-> IF "kind" \in DOMAIN xs[i] THEN UnitOp(k + Before(i)) ELSE xs[i]]
         IN <<[how |-> Head(phs)[1], ops |-> ops]>> \o Number(Tail(phs), k + Before(Len(xs)))
Prog(size, quiet, phs, mode, bound, seed) ==
    LET p == SelectSeq(phs, LAMBDA x : x[2] # <<>>)
        us == Flat(p)
        calm == /\ \A i \in 1..Len(us) : us[i].kind # "open"
                /\ \A i \in 1..Len(p) : \A j \in 1..Len(p[i][2]) : "kind" \in DOMAIN p[i][2][j]
    IN [size |-> size, quiet |-> quiet, calm |-> calm, units |-> Flat(p), phases |-> Number(p, 0), mode |-> mode, bound |-> bound, seed |-> seed]
Seqs(size, quiet, us) == Prog(size, quiet, <<<<"seq", us>>>>, "dfs", 0, 0)

(* one fault anywhere in a unit, with units before and after it *)
Faults ==
    UNION {{Seqs(size, quiet, <<before, Way(With(u, at, do), w), A, E>>) : at \in 1..Size(u)}
           : u \in Shapes, do \in Dos, w \in Ways, before \in {A}, size \in {1}, quiet \in {TRUE, FALSE}}
    \cup UNION {{Seqs(size, FALSE, <<Way(With(u, at, do), w), B, A>>) : at \in 1..Size(u)}
           : u \in {A, B}, do \in Dos, w \in Ways, size \in {0, 2}}
    \cup UNION {{Seqs(1, FALSE, <<Way(With(u, at, do), <<"lazy", "end">>), C>>) : at \in 1..Size(u)}
           : u \in {[Unit("full", iso, ctx, <<"insert", "exec">>) EXCEPT !.post = p] : iso \in 0..5, ctx \in {"empty", "copy"}, p \in {TRUE, FALSE}},
             do \in {"err", "fatal", "lost", "wcut"}}

(* units of many statements *)
Big(n) == Full([i \in 1..n |-> IF i % 3 = 0 THEN "stmt" ELSE IF i % 3 = 1 THEN "insert" ELSE "update"])
Many ==
    UNION {{Seqs(1, FALSE, <<A, Way(With(Big(n), at, do), w), A, E>>) : at \in {3, 4, 9, 15, 16, 17, 18, 19, 33, 64, 65, 66, 129, 256, 257, n, n + 1, n + 2, n + 3, n + 4} \cap (1..(n + 4))}
           : n \in {11, 12, 13, 14, 20, 40, 70} \cup (IF Deep THEN {130, 260, 300} ELSE {260}), do \in {"err", "fatal", "lost", "mute", "wcut"}, w \in {<<"lazy", "end">>}}
    \cup {Seqs(1, quiet, <<Big(n), E, Big(n)>>) : n \in {12, 13, 30, 100}, quiet \in {TRUE, FALSE}}
    (* many units, one after the other *)
    \cup {Seqs(size, TRUE, [i \in 1..n |-> IF i % 4 = 0 THEN B ELSE A]) : size \in 0..1, n \in {40}}
    \cup {Seqs(size, FALSE, [i \in 1..n |-> IF i % 6 = 0 THEN With(B, 1 + ((i * 5) % 9), "err") ELSE A]) : size \in {1, 3}, n \in {40}}
    \cup {Seqs(1, FALSE, [i \in 1..n |-> IF i < n - 1 /\ i % j = 0 THEN With(A, 1 + (i % 6), IF i % 5 = 0 THEN "lost" ELSE "err") ELSE A]) : j \in 1..3, n \in {130}}
    (* and in a large pool *)
    \cup {Prog(size, FALSE, <<<<"hold", [i \in 1..(size + 1) |-> IF i % 3 = 0 THEN With(B, 6, "err") ELSE A]>>, <<"hold", [i \in 1..size |-> A]>>>>, "dfs", 0, 0) : size \in {5, 9, 17}}

(* two faults, in one unit or in two *)
Two ==
    {Seqs(1, quiet, <<With(With(A, i, d), j, e), A, A>>) : i \in 1..6, j \in 1..6, d \in {"err", "mute"}, e \in Dos, quiet \in {TRUE, FALSE}}
    \cup {Seqs(size, FALSE, <<Way(With(A, i, d), w), Way(With(B, j, e), w), C, A>>)
            : i \in 1..6, j \in {1, 3, 5, 7, 8}, d \in Dos, e \in (IF Deep THEN Dos ELSE {"err", "late"}), w \in {<<"lazy", "end">>, <<"eager", "drop">>},
              size \in IF Deep THEN {0, 1, 2} ELSE {1}}

(* units that are not transactional, or cannot be built, next to those that are *)
Bare == [Unit("bare", 0, "empty", <<"stmt", "insert">>) EXCEPT !.pipe = 1]
TxOnly == Unit("tx", 2, "empty", <<"insert", "stmt", "exec">>)
OpenEnded == Unit("open", 0, "empty", <<"stmt">>)
BadOnes == {[Unit("bad", iso, "empty", q) EXCEPT !.pipe = 1] : iso \in {0, 3}, q \in {<<"stmt", "refused">>, <<"refused", "insert">>, <<"exec", "gaveup">>, <<"stmt", "insert", "gaveup">>}}
P1(u) == [u EXCEPT !.pipe = 1]
Others ==
    UNION {{Seqs(size, FALSE, <<o, P1(B), P1(A)>>), Seqs(size, FALSE, <<P1(A), o, P1(B), C>>), Seqs(size, FALSE, <<P1(With(A, 4, "err")), o, P1(A)>>),
            Seqs(size, FALSE, <<o, o, With(B, 6, "err"), o, P1(A)>>)}
           : o \in BadOnes \cup {Bare, TxOnly, OpenEnded, With(Bare, 2, "err"), With(TxOnly, 4, "err"), With(TxOnly, 6, "err"), With(OpenEnded, 2, "err"), With(OpenEnded, 2, "lost"),
                                 [A EXCEPT !.done = TRUE]}, size \in 0..2}
    \cup {Prog(size, FALSE, <<<<"hold", <<A, B>>>>, <<"seq", <<Other(k), u, A, Other(k), C, B>>>>>>, "dfs", 0, 0)
            : k \in {"kill", "killw", "close"}, size \in 0..2, u \in {With(B, 5, "err"), With(B, 8, "lost"), B}}
    \cup {Prog(size, FALSE, <<<<"hold", <<A, With(B, 5, "err"), x>>>>, <<"hold", <<A, C, E>>>>>>, "dfs", 0, 0)
            : size \in 0..3, x \in {A, With(A, 3, "err"), With(A, 5, "err"), With(A, 5, "late"), TxOnly, With(TxOnly, 4, "err")}}
    \cup {Seqs(size, FALSE, <<Unit("full", 0, ctx, <<s, t>>), Unit("full", 0, ctx, <<s, t>>)>>)
            : size \in {1}, ctx \in {"empty", "copy"}, s \in {"insert", "insertf", "insertrow", "update", "updatef", "delete", "stmt", "stmta", "exec"}, t \in {"stmt", "exec", "insertrow"}}

F(u, at, do, w) == Way(With(u, at, do), w)
Lazy == <<"lazy", "end">>
Racers == {A, E, F(A, 4, "err", Lazy), F(A, 5, "err", Lazy), F(A, 2, "fatal", Lazy), F(A, 6, "lost", Lazy), F(A, 4, "mute", Lazy), F(A, 3, "late", <<"lazy", "now">>), F(A, 4, "wcut", Lazy), Bare, TxOnly}
Race ==
    {Prog(size, FALSE, <<<<"hold", SubSeq(<<A, A>>, 1, fill)>>, <<"race", <<u, v>>>>, <<"hold", <<A, C>>>>>>, "dfs", 1, 0)
       : size \in 0..2, fill \in 0..2, u \in Racers, v \in {A}}
    \cup {Prog(size, FALSE, <<<<"hold", SubSeq(<<A, A>>, 1, fill)>>, <<"race", <<u, E>>>>, <<"hold", <<A, C>>>>>>, "dfs", IF Deep THEN 3 ELSE 2, 0)
       : size \in {1}, fill \in 0..1, u \in {A, F(A, 4, "err", Lazy)}}
    \cup {Prog(size, FALSE, <<<<"hold", SubSeq(<<A, A>>, 1, fill)>>, <<"race", <<u, v, Other(k)>>>>, <<"hold", <<A, C>>>>>>, "dfs", 1, 0)
       : size \in {1, 2}, fill \in {0, 2}, k \in {"close", "kill", "killw"}, u \in {A, F(A, 4, "err", Lazy)}, v \in {E}}
    \cup IF ~Deep THEN {} ELSE
    {Prog(size, FALSE, <<<<"hold", SubSeq(<<A, A>>, 1, fill)>>, <<"race", <<u, v>>>>, <<"hold", <<A, C>>>>>>, "dfs", 2, 0)
       : size \in 0..2, fill \in 0..2, u \in Racers, v \in Racers}

(* k-th of many larger programs; the numbers only have to vary *)
Mix(k, i) == (k * 7919 + i * 104729 + (k * i) * 31 + Seed * 1299709 + (k \div 3) * 17) % 1000003
Pick(q, k, i) == q[1 + (Mix(k, i) % Len(q))]
ShapeQ == SetToSeq(Shapes)
DoQ == SetToSeq(Dos)
WayQ == SetToSeq(Ways)
SomeUnit(k, i) ==
    LET u == Pick(ShapeQ \o <<Bare, TxOnly>>, k, i)
        v == [u EXCEPT !.pipe = 0, !.iso = IF u.kind = "bare" THEN 0 ELSE Mix(k, i + 50) % 6]
        at == 1 + (Mix(k, i + 100) % Size(v))
    IN Way(IF Mix(k, i + 150) % 2 = 0 THEN v ELSE With(v, at, Pick(DoQ, k, i + 200)), Pick(WayQ, k, i + 250))
SomeOp(k, i) == IF Mix(k, i + 300) % 9 = 0 THEN Other(Pick(<<"kill", "killw", "close">>, k, i + 350)) ELSE SomeUnit(k, i)
Walk(n, mode, runs, len) ==
    {LET q == [i \in 1..(3 + (Mix(k, 97) % len)) |-> SomeOp(k, i)]
     IN Prog(Mix(k, 99) % 4, Mix(k, 96) % 2 = 0, <<<<"hold", [i \in 1..(Mix(k, 98) % 3) |-> SomeUnit(k, 400 + i)]>>, <<IF mode = "dfs" THEN "seq" ELSE "race", q>>, <<"hold", <<A, C>>>>>>, mode, runs, k) : k \in 1..n}

Family ==
    CASE What = "faults" -> Faults [] What = "two" -> Two [] What = "others" -> Others [] What = "race" -> Race [] What = "many" -> Many
      [] What = "long" -> Walk(IF Deep THEN 4000 ELSE 300, "dfs", 0, 12)
      [] What = "walk" -> Walk(IF Deep THEN 400 ELSE 20, "random", IF Deep THEN 60 ELSE 25, 3)
      [] OTHER -> Walk(IF Deep THEN 200 ELSE 10, "free", IF Deep THEN 60 ELSE 20, 3)

ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Family))
ASSUME PrintT(<<"CASES", Cardinality(Family)>>)
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
