------------------------------- MODULE Cases -------------------------------
(***************************************************************************)
(* Systematic behaviours of the builder: for each property the complete    *)
(* product of a few finite sets, written out for replay on the real code.  *)
(*   What      which family                                                *)
(*   Deep      FALSE: the quick sets, TRUE: larger ones                    *)
(***************************************************************************)
EXTENDS Values, Json, IOUtils, SequencesExt

CONSTANTS What, Deep

Call(op) == [e |-> "call", op |-> op, tgt |-> "cur", pan |-> FALSE, called |-> 0]
Open(op) == [e |-> "open", op |-> op, tgt |-> "cur", pan |-> FALSE, called |-> 0, entered |-> TRUE]
CloseEv(ret) == [e |-> "close", op |-> "close", tgt |-> "cur", pan |-> FALSE, called |-> 0, ret |-> ret]
SendEv  == [e |-> "send", op |-> "send", tgt |-> "cur", pan |-> FALSE, called |-> 1, serr |-> ""]
ResetEv == [e |-> "reset", op |-> "reset", tgt |-> "cur", pan |-> FALSE, called |-> 0]

StmtC(s, a)      == Call("stmt") @@ [stmt |-> s, args |-> a]
PrepC(id, s)     == Call("prep") @@ [id |-> id, stmt |-> s]
ExecC(id, a)     == Call("exec") @@ [id |-> id, args |-> a]
DeallocC(id)     == Call("dealloc") @@ [id |-> id]
InsC(n, c, r)    == Call("ins") @@ [name |-> n, cols |-> c, rows |-> r]
InsRowC(n, c, r, h) == Call("insrow") @@ [name |-> n, cols |-> c, row |-> r, h |-> h]
UpdC(n, c, s)    == Call("upd") @@ [name |-> n, crit |-> c, set |-> s]
DelC(n, c)       == Call("del") @@ [name |-> n, crit |-> c]
RowC(r)          == Call("row") @@ [row |-> r]
SetC(n, v)       == Call("set") @@ [name |-> n, v |-> v]
InsF(n, c, body) == <<Open("insf") @@ [name |-> n, cols |-> c]>> \o body \o <<CloseEv("")>>
UpdF(n, c, body) == <<Open("updf") @@ [name |-> n, crit |-> c]>> \o body \o <<CloseEv("")>>
TxS(lv, body, ret)   == <<Open("tx") @@ [level |-> lv]>> \o body \o <<CloseEv(ret)>>
ExpS(ctx, body, ret) == <<Open("expect") @@ [ctx |-> ctx]>> \o body \o <<CloseEv(ret)>>
Pair(n, v)       == [name |-> n, v |-> v]
Prog(cap, ev)    == [cap |-> cap, ev |-> ev]

A == <<97>>
B == <<98>>
I(n)  == [go |-> "int", neg |-> FALSE, m |-> IntToLimbs(n)]
S(n)  == [go |-> "string", v |-> Str(n)]
T     == [go |-> "bool", x |-> TRUE]
H(i)  == [go |-> "h", i |-> i]

-----------------------------------------------------------------------------
(* C02: a value in every place a value can stand, between neighbours *)
ArgPlaces(v)  == <<StmtC(A, <<v>>), StmtC(A, <<I(5), v, S(1)>>), ExecC(<<7>>, <<v, v>>)>>
ExprPlaces(v) ==
    <<InsC(A, <<A, B>>, <<<<v, I(1)>>, <<T, v>>>>), InsRowC(A, <<A>>, <<v>>, 1)>>
    \o InsF(A, <<A, B>>, <<RowC(<<v, v>>)>>)
    \o <<UpdC(A, <<Op("Eq", <<Col(A), v>>)>>, <<Pair(B, v)>>)>>
    \o UpdF(A, <<Op("In", <<v, v>>)>>, <<SetC(A, v), SetC(B, Op("Concat", <<v, T>>))>>)
    \o <<DelC(A, <<Op("Not", <<v>>)>>)>>
Tail0 == <<DeallocC(<<9>>), SendEv>>

Scalars0 == Bools \cup AllInts \cup Doubles \cup Floats \cup Times \cup Durations \cup Nils
            \cup StringsOf(ShortLens \cup EdgeLens1) \cup BytesOf(ShortLens \cup EdgeLens1)
            \cup WrappedOf({0, 1, 2} \cup 108..128) \cup CollatedOf({0, 1, 2} \cup 112..127)
            \cup {[go |-> "string", v |-> <<c>>] : c \in {0, 1, 127, 128, 192, 255}}
            \cup {[go |-> "bytes", isnil |-> FALSE, v |-> <<c, 0>>] : c \in {1, 127, 128, 255}}
            \cup Bytes8
Medium0 == StringsOf(EdgeLens2) \cup BytesOf(EdgeLens2)
           \cup (IF Deep THEN WrappedOf(EdgeLens2) \cup {[go |-> "String", v |-> Str(n), coll |-> c] : n \in EdgeLens2, c \in {<<8>>, <<0, 2>>}}
                 ELSE WrappedOf(16366..16376) \cup {[go |-> "String", v |-> Str(n), coll |-> <<0, 2>>] : n \in 16366..16376})
Large0 == IF Deep THEN StringsOf(EdgeLens3) \cup BytesOf(EdgeLens3) \cup WrappedOf({2097138, 2097139, 2097140, 2097141, 2097142})
          ELSE StringsOf({2097135, 2097139, 2097142, 2097147, 2097151, 2097152})
PtrTargets == Bools \cup Times \cup Durations \cup Doubles \cup Floats
              \cup {[go |-> t, neg |-> TRUE, m |-> <<1>>] : t \in SignedTypes} \cup {[go |-> t, m |-> <<100, 1>>] : t \in UnsignedTypes}
              \cup StringsOf({0, 1, 20, 120}) \cup BytesOf({0, 1, 20, 120}) \cup WrappedOf({0, 5, 120}) \cup CollatedOf({0, 5})
              \cup {[go |-> "bytes", isnil |-> TRUE, v |-> <<>>]}

Texts7(t) == <<[go |-> "string", v |-> t], [go |-> "bytes", isnil |-> FALSE, v |-> t], [go |-> "XML", isnil |-> FALSE, v |-> t], [go |-> "JSONString", v |-> t],
               [go |-> "String", v |-> t, coll |-> <<8>>], [go |-> "Geometry", isnil |-> FALSE, v |-> t], [go |-> "XMLString", v |-> t]>>
ValueCases ==
    {Prog(0, ArgPlaces(v) \o ExprPlaces(v) \o Tail0) : v \in Scalars0}
    \cup {Prog(64, ArgPlaces(v) \o <<InsRowC(A, <<A>>, <<v>>, 1), DelC(A, <<Op("Eq", <<v, v>>)>>)>> \o Tail0) : v \in Medium0}
    \cup {Prog(64, <<StmtC(A, <<v, T>>), InsC(A, <<A>>, <<<<v>>>>)>> \o Tail0) : v \in Large0}
    \cup {Prog(0, ArgPlaces(v) \o Tail0) : v \in Ptrs(PtrTargets) \cup NilPtrs}
    (* whatever the text says *)
    \cup {Prog(0, <<StmtC(A, [i \in 1..7 |-> Texts7(t)[i]]), ExecC(<<1>>, [i \in 1..7 |-> [go |-> "ptr", v |-> Texts7(t)[i]]]),
                    InsRowC(A, [i \in 1..7 |-> B], Texts7(t), 1), DelC(A, <<Op("In", <<Col(A)>> \o Texts7(t))>>)>> \o Tail0) : t \in Contents}
    (* pointers to pointers *)
    \cup {Prog(0, ArgPlaces(v) \o Tail0) : v \in PtrChains(PtrTargets, {2, 3}) \cup PtrChains(NilPtrs, {1, 2})}

-----------------------------------------------------------------------------
(* C01: one of everything, every buffer size; names and texts of all lengths *)
EverythingT(s) ==
    <<StmtC(s, <<I(1), S(2)>>), StmtC(s, <<>>), PrepC(<<1>>, s), ExecC(<<1>>, <<I(300)>>), InsC(s, <<s, B, s>>, <<<<I(1), S(4), Col(s)>>>>), InsRowC(s, <<B, s>>, <<T, T>>, 1),
      UpdC(s, <<Op("Eq", <<Col(s), H(1)>>)>>, <<Pair(s, T)>>), DelC(s, <<Col(s)>>), DelC(s, <<>>)>>
    \o InsF(s, <<s>>, <<RowC(<<I(2)>>)>>) \o UpdF(s, <<>>, <<SetC(s, I(3)), SetC(B, T)>>) \o TxS(0, <<StmtC(s, <<>>)>>, "")
Everything(n) ==
    <<StmtC(Str(n), <<I(1), S(2), T>>), PrepC(<<1>>, Str(n)), ExecC(<<1>>, <<S(3), I(300)>>), DeallocC(<<1>>),
      InsC(Str(n), <<Str(n), B>>, <<<<I(1), S(4)>>, <<T, Col(Str(n))>>>>),
      InsRowC(Str(n), <<Str(n)>>, <<S(n)>>, 1),
      UpdC(Str(n), <<Op("Eq", <<Col(Str(n)), H(1)>>)>>, <<Pair(Str(n), S(n))>>),
      DelC(Str(n), <<Op("Lt", <<Col(Str(n)), I(7)>>)>>), DelC(Str(n), <<>>)>>
    \o InsF(Str(n), <<A, Str(n)>>, <<RowC(<<I(2), S(n)>>), RowC(<<>>)>>)
    \o UpdF(Str(n), <<>>, <<SetC(Str(n), I(3)), SetC(B, S(n))>>)
    \o TxS(2, ExpS(0, <<StmtC(Str(n), <<>>)>>, ""), "")
(* errors that mean something elsewhere *)
OddErrs == {"eof", "ueof", "canc", "dead", "norows", "skip", "nilp", "empty", "closed", "tmp", "pclosed", "val", "mysql", "fatal"}
Caps == IF Deep THEN 0..900 ELSE 0..220
NameLens == 0..20 \cup 112..130 \cup (IF Deep THEN EdgeLens1 \cup EdgeLens2 ELSE {16370, 16371, 16372, 16374, 16375, 16376, 16377, 16378, 16379, 16380, 16381, 16382, 16383, 16384})
Ids == {Pow2(k) : k \in 0..31} \cup {Pow2m1(k) : k \in 1..32} \cup {<<>>}
CallCases ==
    {Prog(c, Everything(3) \o <<SendEv>>) : c \in Caps}
    \cup {Prog(c, Everything(n) \o <<SendEv, ResetEv>> \o Everything(1) \o <<SendEv>>) : n \in NameLens, c \in {0, 300}}
    \cup {Prog(16, <<PrepC(id, A), ExecC(id, <<I(1)>>), DeallocC(id), SendEv>>) : id \in Ids}
    (* sent again, and added to after it has been sent *)
    \cup {Prog(c, <<StmtC(Str(n), <<>>), SendEv, [SendEv EXCEPT !.serr = e], StmtC(B, <<I(1)>>), SendEv, ResetEv, StmtC(A, <<T>>), SendEv, InsC(A, <<A>>, <<<<S(n)>>>>), SendEv,
                    InsRowC(A, <<B>>, <<T>>, 1), SendEv, ResetEv, ResetEv, SendEv, DeallocC(<<1>>), SendEv>>)
             : n \in {0, 1, 1000, 5000, 16384, 40000, 70000, 140000, 1100000, 2200000}, c \in {0, 300}, e \in {"", "s2"}}
    \cup {Prog(0, <<StmtC(A, <<T>>), [SendEv EXCEPT !.serr = x], SendEv, [SendEv EXCEPT !.serr = x], InsC(A, <<A>>, <<<<T>>>>), SendEv, ResetEv, StmtC(B, <<>>), [SendEv EXCEPT !.serr = x], ResetEv, StmtC(B, <<>>), SendEv>>)
             : x \in OddErrs}
    (* many units of work, one after the other; half of them in a buffer that the others leave large *)
    \cup {Prog(c, FlattenSeq([i \in 1..n |-> (IF i % 7 = 0 THEN <<>> ELSE IF i % 3 = k THEN InsF(Dec(i, 4), <<B>>, <<RowC(<<I(i)>>), RowC(<<S(i)>>)>>) ELSE <<StmtC(Dec(i, 4), <<S(i % 50)>>)>>)
                                                 \o (IF i % 5 = k THEN <<ResetEv>> ELSE <<SendEv, ResetEv>>)]))
             : n \in {70} \cup (IF Deep THEN {300, 1100} ELSE {270}), c \in {0, 300}, k \in 0..2}
    (* whatever the texts and names say *)
    \cup {Prog(0, EverythingT(t) \o <<SendEv>>) : t \in Contents}
    (* numbers of columns, rows and arguments *)
    \cup {Prog(8, <<StmtC(A, [i \in 1..n |-> I(i)]), ExecC(<<3>>, [i \in 1..n |-> S(i % 9)]),
                    InsC(A, [i \in 1..n |-> Str(i % 7)], <<[i \in 1..n |-> I(i)], [i \in 1..n |-> T]>>),
                    InsC(A, <<B>>, [i \in 1..n |-> <<I(i)>>]),
                    UpdC(A, <<>>, [i \in 1..n |-> Pair(Dec(i, 4), I(i))])>>
                    \o InsF(A, <<B>>, [i \in 1..n |-> RowC(<<S(i % 11)>>)])
                    \o UpdF(A, <<>>, [i \in 1..n |-> SetC(Dec(i, 1), T)]) \o <<SendEv>>)
             : n \in (0..16 \cup {30, 42, 43, 60}) \cup (IF Deep THEN {127, 128, 129, 255, 256, 257, 300, 700} ELSE {128, 260})}
    (* rows that are not as wide as the list of columns, which InsertRow and InsertF do not check *)
    \cup {Prog(0, <<InsRowC(A, [i \in 1..n |-> Str(i)], [i \in 1..m |-> I(i)], 1)>>
                   \o InsF(A, [i \in 1..n |-> Str(i)], <<RowC([i \in 1..m |-> I(i)]), RowC(<<T>>)>>) \o Tail0) : n \in 0..3, m \in 0..4}
    (* many calls *)
    \cup {Prog(c, [i \in 1..n |-> IF i % 5 = 0 THEN InsC(A, <<B>>, <<<<I(i)>>>>) ELSE IF i % 5 = 1 THEN PrepC(IntToLimbs(i), Dec(i, 4))
                                   ELSE IF i % 5 = 2 THEN DelC(A, <<Op("Eq", <<Col(B), I(i)>>)>>) ELSE StmtC(Dec(i, 4), <<I(i)>>)] \o <<SendEv>>)
             : n \in IF Deep THEN {100, 300, 1000, 3000} ELSE {300, 1100}, c \in {0, 4096}}
    (* size of a row, around the sizes at which its length field grows *)
    \cup {Prog(c, <<InsC(A, <<A, B>>, <<<<S(n), I(1)>>, <<I(1), S(n)>>>>), InsRowC(A, <<A>>, <<S(n)>>, 1)>>
                  \o InsF(A, <<A>>, <<RowC(<<S(n)>>), RowC(<<>>), RowC(<<T>>), RowC(<<S(n), T>>)>>)
                  \o UpdF(A, <<>>, <<SetC(A, S(n))>>) \o Tail0)
             : n \in EdgeLens1 \cup (IF Deep THEN EdgeLens2 \cup {2097130, 2097134, 2097139, 2097141} ELSE 16360..16380), c \in {0, 100, 16384}}
    (* everything beyond 64 KiB and 2 MiB, where lengths take a fourth byte *)
    \cup {Prog(0, <<StmtC(Str(n), <<T>>), PrepC(<<5>>, Str(n)), InsC(A, <<A, B>>, <<<<S(n), I(1)>>, <<I(1), T>>>>), InsRowC(A, <<A>>, <<S(n), T>>, 1)>>
                  \o InsF(A, <<A>>, <<RowC(<<T>>), RowC(<<I(1), S(n)>>), RowC(<<T>>)>>)
                  \o UpdF(A, <<Op("Eq", <<Col(A), S(n)>>)>>, <<SetC(A, I(1)), SetC(B, S(n))>>) \o Tail0)
             : n \in {65520, 65536, 70000, 2097130, 2097152, 2100000}}
    \cup {Prog(c, <<InsC(Str(n), <<Str(n), B>>, <<<<T, T>>>>), UpdC(Str(n), <<Col(Str(n))>>, <<Pair(Str(n), T)>>), DelC(Str(n), <<>>)>> \o Tail0)
             : n \in {65534, 65536, 2097150, 2097152}, c \in {0, 5000}}

-----------------------------------------------------------------------------
(* C03 *)
Leaves == {I(1), S(3), Col(A), [go |-> "nil"], [go |-> "pos", m |-> <<0, 1>>], [go |-> "var", name |-> B]}
OpOf(c, x, y) ==
    CASE c \in Nullary -> Op(c, <<>>)
      [] c \in Unary -> Op(c, <<x>>)
      [] c \in Binary -> Op(c, <<x, y>>)
      [] c \in Ternary -> Op(c, <<x, y, x>>)
      [] c \in Variadic -> Op(c, <<x, y, y>>)
      [] OTHER -> DateOp(c, x, y, "HOUR_MINUTE")
AllOps == DOMAIN Operator \cup DOMAIN Function
(* an expression as criterion, assigned and inserted value *)
ExprProg(cap, e) == Prog(cap, <<DelC(A, <<e>>), InsC(A, <<A, B>>, <<<<e, T>>, <<T, e>>>>)>>
                              \o UpdF(A, <<e>>, <<SetC(A, e), SetC(B, I(1))>>) \o Tail0)
RECURSIVE NestL(_, _), NestR(_, _)
NestL(c, d) == IF d = 0 THEN Col(A) ELSE Op(c, <<NestL(c, d - 1), I(d)>>)
NestR(c, d) == IF d = 0 THEN Col(A) ELSE Op(c, <<I(d), NestR(c, d - 1)>>)
RECURSIVE Chain(_)
Chain(d) == IF d = 0 THEN I(0) ELSE Op("Not", <<Chain(d - 1)>>)
Hosts == {"Not", "And", "Between", "In", "Concat", "DateAdd"}
Special == {[go |-> "nil"], [go |-> "bytes", isnil |-> TRUE, v |-> <<>>], I(0), I(1), T, [go |-> "bool", x |-> FALSE], S(0), S(1), [go |-> "bytes", isnil |-> FALSE, v |-> <<>>], Op("Default", <<>>),
            Op("Not", <<Col(A)>>), Op("Minus", <<I(1)>>), [go |-> "int", neg |-> TRUE, m |-> <<1>>], Op("Concat", <<>>), Op("InV", <<Col(A)>>)}
ExprCases ==
    {ExprProg(0, OpOf(c, x, y)) : c \in AllOps, x \in {I(1), S(3), Col(A)}, y \in {Col(B), T}}
    \cup {ExprProg(0, OpOf("Eq", x, y)) : x \in Leaves, y \in Leaves}
    \cup {ExprProg(0, OpOf("Concat", x, y)) : x \in Leaves, y \in Leaves}
    (* operands that are equal, or one of the others', or have a meaning of their own for some operator *)
    \cup {ExprProg(0, OpOf(c, x, x)) : c \in AllOps, x \in Special}
    \cup {ExprProg(0, OpOf(c, Col(A), x)) : c \in AllOps, x \in Special}
    \cup {ExprProg(0, OpOf(c, x, Col(A))) : c \in AllOps, x \in Special}
    \cup {Prog(0, <<DelC(A, <<Op(o, <<Col(t), [go |-> "string", v |-> t], [go |-> "var", name |-> t]>>)>>), UpdC(A, <<Col(t)>>, <<Pair(A, Col(t))>>)>> \o Tail0) : o \in {"Concat", "InV"}, t \in Contents}
    \cup {ExprProg(0, DateOp(c, Col(A), I(3), u)) : c \in Dates, u \in DateUnits}
    (* every combinator below and beside every kind of combinator *)
    \cup {ExprProg(9, OpOf(h, OpOf(c, I(1), Col(B)), S(1))) : h \in IF Deep THEN AllOps ELSE Hosts, c \in AllOps}
    \cup {ExprProg(9, OpOf(h, S(1), OpOf(c, I(1), Col(B)))) : h \in IF Deep THEN AllOps ELSE {"Or", "NotIn"}, c \in AllOps}
    (* number of operands *)
    \cup {ExprProg(0, Op(c, <<Col(A)>> \o [i \in 1..n |-> I(i)])) : c \in Variadic, n \in 0..8 \cup (IF Deep THEN {20, 40, 100, 127, 128, 129, 200} ELSE {14, 15, 16, 17, 130, 260})}
    \cup {ExprProg(0, Op("Concat", <<>>))}
    \cup {Prog(0, <<DelC(A, <<Op(o, <<S(n), Col(B)>>)>>), UpdC(A, <<>>, <<Pair(A, Op("Not", <<Op(o, <<T, S(n)>>)>>))>>)>> \o Tail0)
             : o \in {"Eq", "Concat", "InV"}, n \in {65536, 2097120, 2097140, 2097152}}
    (* size of the operands, around the sizes at which a length field grows *)
    \cup {Prog(c, <<DelC(A, <<OpOf(o, S(n), Col(A))>>), InsC(A, <<A>>, <<<<OpOf(o, Col(A), S(n))>>>>),
                    UpdC(A, <<>>, <<Pair(A, OpOf(o, S(n), S(n)))>>)>> \o Tail0)
             : o \in {"Not", "Eq", "Between", "Concat", "InV", "DateSub"}, n \in 92..130, c \in {0, 128}}
    \cup {Prog(200, <<DelC(A, <<OpOf(o, S(n), Col(A))>>), UpdC(A, <<>>, <<Pair(A, OpOf(o, T, S(n)))>>)>> \o Tail0)
             : o \in {"Not", "Eq", "Concat"}, n \in IF Deep THEN 16345..16386 ELSE 16350..16378}
    \cup {Prog(0, <<DelC(A, <<Col(Str(n))>>), DelC(A, <<Op("Not", <<Col(Str(n))>>)>>), DelC(A, <<Op("Eq", <<[go |-> "var", name |-> Str(n)], I(n)>>)>>)>> \o Tail0)
             : n \in ShortLens \cup 110..130 \cup EdgeLens2}
    (* placeholders *)
    \cup {Prog(0, <<DelC(A, <<Op("Eq", <<Col(A), [go |-> "pos", m |-> m]>>)>>)>> \o Tail0) : m \in Ids}
    (* depth *)
    \cup {Prog(0, <<DelC(A, <<NestL("And", d)>>), DelC(A, <<NestR("Or", d)>>), InsC(A, <<A>>, <<<<Chain(d)>>>>)>> \o Tail0)
             : d \in 1..12 \cup (IF Deep THEN {20, 30, 40, 60, 100, 130} ELSE {24, 70})}

-----------------------------------------------------------------------------
(* C04: every fault in every position, alone and inside scopes, and after it *)
Fault(x, how) == [go |-> "fail", x |-> x, how |-> how]
Unsup(t) == [go |-> "unsup", t |-> t]
FaultVals == {Fault("s1", h) : h \in {"keep", "nil", "part"}} \cup {[go |-> "unsup", t |-> t] : t \in {"struct", "chan", "func", "map", "complex", "slice"}}
Around(f) == {f, Op("Eq", <<Col(A), f>>), Op("Concat", <<S(2), Op("Not", <<Op("InV", <<T, f, T>>)>>), I(1)>>)}
BadCalls(f) ==
    {<<StmtC(A, <<f>>)>>, <<StmtC(A, <<I(1), f, T>>)>>, <<ExecC(<<3>>, <<T, f>>)>>, <<StmtC(A, <<[go |-> "ptr", v |-> f]>>)>>}
    \cup UNION {{<<InsC(A, <<A, B>>, <<<<I(1), T>>, <<T, e>>>>)>>, <<InsC(A, <<A, B>>, <<<<e, T>>>>)>>, <<InsRowC(A, <<A, B>>, <<T, e>>, 1)>>,
                 <<UpdC(A, <<Col(A)>>, <<Pair(A, T), Pair(B, e)>>)>>, InsF(A, <<A>>, <<RowC(<<I(1)>>), RowC(<<e>>), RowC(<<T>>)>>),
                 UpdF(A, <<>>, <<SetC(A, T), SetC(B, e), SetC(A, I(2))>>)} : e \in Around(f)}
    \cup UNION {{<<UpdC(A, <<Op("Or", <<e, T>>)>>, <<Pair(A, T)>>)>>, <<DelC(A, <<Op("Or", <<T, e>>)>>)>>,
                 UpdF(A, <<Op("Or", <<e, T>>)>>, <<SetC(A, T)>>)} : e \in Around(f)}
OddFaults == UNION {{TxS(0, <<StmtC(A, <<>>)>>, x), TxS(3, <<>>, x), ExpS(1, <<StmtC(A, <<T>>)>>, x), <<StmtC(A, <<Fault(x, "keep")>>)>>, <<ExecC(<<1>>, <<T, Fault(x, "nil")>>)>>,
                     <<InsC(A, <<A, B>>, <<<<T, Fault(x, "keep")>>>>)>>, <<InsRowC(A, <<A>>, <<Fault(x, "part")>>, 1)>>, <<UpdC(A, <<Op("Eq", <<Col(A), Fault(x, "keep")>>)>>, <<Pair(A, T)>>)>>,
                     <<UpdC(A, <<>>, <<Pair(A, Fault(x, "keep"))>>)>>, <<DelC(A, <<Op("Not", <<Fault(x, "nil")>>)>>)>>,
                     InsF(A, <<B>>, <<RowC(<<T>>), RowC(<<Fault(x, "keep")>>)>>), UpdF(A, <<>>, <<SetC(B, Fault(x, "keep"))>>),
                     <<Open("insf") @@ [name |-> A, cols |-> <<B>>], RowC(<<T>>), CloseEv(x)>>, <<Open("updf") @@ [name |-> A, crit |-> <<>>], SetC(B, T), CloseEv(x)>>,
                     TxS(0, ExpS(1, <<StmtC(A, <<>>)>>, x), "s2"), ExpS(0, TxS(2, <<StmtC(A, <<>>)>>, x), "")} : x \in OddErrs}
OtherFaults == OddFaults \cup {<<InsC(A, <<A, B>>, <<<<T>>>>)>>, <<InsC(A, <<A, B>>, <<<<T, T>>, <<T, T, T>>>>)>>, <<InsC(A, <<A>>, <<<<>>>>)>>,
                <<InsC(A, <<>>, <<<<T>>>>)>>,
                TxS(6, <<StmtC(A, <<>>)>>, ""), TxS(1000, <<>>, ""),
                TxS(0, <<StmtC(A, <<>>)>>, "s1"), TxS(5, <<>>, "s1"), ExpS(1, <<StmtC(A, <<T>>)>>, "s1"), ExpS(0, <<>>, "s1"),
                <<Open("insf") @@ [name |-> A, cols |-> <<B>>], RowC(<<T>>), CloseEv("s1")>>,
                <<Open("updf") @@ [name |-> A, crit |-> <<>>], SetC(B, T), CloseEv("s1")>>,
                TxS(0, ExpS(1, TxS(3, <<StmtC(A, <<>>)>>, "s1"), ""), ""),
                TxS(0, ExpS(1, <<StmtC(A, <<>>)>>, "s1"), "s2")}
(* late faults: a row, a value, a call after many others, and after much *)
LateFaults(f) ==
    {<<StmtC(A, [i \in 1..n |-> IF i = n THEN f ELSE I(i)])>> : n \in {17, 260}}
    \cup {<<InsC(A, <<A>>, [i \in 1..n |-> <<IF i = n THEN f ELSE I(i)>>])>> : n \in {17, 260}}
    \cup {<<InsC(A, <<A>>, [i \in 1..n |-> IF i = n THEN <<>> ELSE <<I(i)>>])>> : n \in {17, 260}}
    \cup {<<StmtC(Str(n), <<>>), DelC(A, <<Op("In", <<Col(A), S(n), f>>)>>)>> : n \in {16384, 70000}}
    \cup {InsF(A, <<A>>, [i \in 1..n |-> RowC(<<IF i = n - 1 THEN f ELSE I(i)>>)]) : n \in {18, 260}}
    \cup {UpdF(A, <<>>, [i \in 1..n |-> SetC(B, IF i = n - 1 THEN f ELSE I(i))]) : n \in {18, 260}}
AfterFault == <<StmtC(B, <<I(1)>>), InsRowC(A, <<A>>, <<T>>, 2), SendEv>>
              \o TxS(1, <<StmtC(B, <<Fault("s3", "keep")>>), StmtC(B, <<Unsup("complex")>>), InsC(A, <<A, B, A, B>>, <<<<T>>>>), DeallocC(<<1>>)>>, "s4")
              \o InsF(A, <<A>>, <<RowC(<<T>>)>>) \o UpdF(A, <<Col(A)>>, <<SetC(A, T)>>)
              \o <<UpdC(A, <<>>, <<Pair(A, T)>>), DelC(A, <<>>), PrepC(<<1>>, A), SendEv, ResetEv,
                   StmtC(A, <<T>>), DelC(B, <<Col(A)>>), SendEv, StmtC(A, <<Unsup("map")>>), SendEv, ResetEv, InsC(A, <<A, B, A, B, A>>, <<<<T>>>>), SendEv>>
(* many units of work one after the other, some of which fail *)
ManyFailing(n, j, k) ==
    FlattenSeq([i \in 1..n |-> <<StmtC(B, <<I(i)>>)>>
                  \o (IF i % j # k THEN <<>> ELSE CASE i % 4 = 0 -> <<StmtC(A, <<Fault("s1", "keep")>>)>> [] i % 4 = 1 -> <<InsC(A, <<A, B>>, <<<<T>>>>)>>
                                                     [] i % 4 = 2 -> TxS(0, <<StmtC(A, <<>>)>>, "s2") [] OTHER -> <<DelC(A, <<Op("Not", <<Unsup("map")>>)>>)>>)
                  \o <<SendEv, ResetEv>>])
    \o <<StmtC(A, <<T>>), SendEv>>
FaultCases ==
    LET all == UNION {BadCalls(f) : f \in FaultVals} \cup OtherFaults \cup UNION {LateFaults(f) : f \in {Fault("s1", "keep"), Fault("s1", "nil"), [go |-> "unsup", t |-> "struct"]}}
        sets == {<<b, c>> : b \in all, c \in {0, 500}}
    IN {Prog(p[2], p[1] \o AfterFault) : p \in sets}
       \cup UNION {{Prog(c, ManyFailing(n, j, k)) : c \in {0, 100000}, k \in 0..(j - 1), n \in IF Deep THEN {140, 530} ELSE {140}} : j \in 1..3}
       \cup {Prog(p[2], <<StmtC(A, <<T>>)>> \o p[1] \o AfterFault) : p \in sets}
       \cup {Prog(0, TxS(0, b \o <<StmtC(B, <<>>)>>, "") \o AfterFault) : b \in all}
       \cup {Prog(0, ExpS(0, TxS(4, <<StmtC(A, <<>>)>> \o b, "s2"), "") \o AfterFault) : b \in all}

-----------------------------------------------------------------------------
(* C06: handles *)
Sizes == {<<S(a), S(b)>> : a \in 0..12, b \in 0..2}
HandleUses(i, j) ==
    <<InsC(A, <<A, B>>, <<<<H(i), H(j)>>>>), UpdC(A, <<Op("Eq", <<Col(A), H(i)>>)>>, <<Pair(B, H(j))>>), DelC(A, <<Op("Gt", <<H(j), H(i)>>)>>),
      DelC(A, <<H(i)>>)>>
    \o InsF(A, <<A>>, <<RowC(<<H(i)>>), RowC(<<Op("Add", <<H(j), I(1)>>)>>)>>) \o UpdF(A, <<H(j)>>, <<SetC(A, H(i))>>)
HandleCases ==
    {Prog(0, <<InsRowC(A, <<A, B>>, s, 1), InsRowC(A, <<A, B>>, t, 2)>> \o HandleUses(1, 2) \o <<SendEv>>) : s \in Sizes, t \in {<<S(0), S(0)>>, <<S(1), S(4)>>}}
    \cup {Prog(c, <<InsRowC(Str(n), <<A>>, <<I(1)>>, 1)>> \o HandleUses(1, 1) \o <<InsRowC(Str(m), <<A>>, <<H(1)>>, 2)>> \o HandleUses(2, 1) \o <<SendEv>>)
             : n \in 0..6, m \in 0..6, c \in {0, 64}}
    (* names and values with meanings *)
    \cup {Prog(0, <<InsRowC(w, <<w, A>>, <<[go |-> "string", v |-> w], I(1)>>, 1), InsRowC(A, <<w>>, <<H(1)>>, 2)>> \o HandleUses(1, 2) \o <<SendEv>>) : w \in Words}
    (* many rows; the k-th handle is the k-th row's *)
    \cup {Prog(0, [i \in 1..n |-> InsRowC(A, <<A>>, <<IF i = 1 THEN I(0) ELSE H(i - 1)>>, i)] \o HandleUses(n, 1) \o <<SendEv>>) : n \in {3, 5, 9, 10, 11, 30} \cup (IF Deep THEN {99, 101, 200, 300, 1030} ELSE {300})}
    (* two rows some way apart, by every distance near a round one *)
    \cup {Prog(0, <<InsRowC(A, <<A>>, <<I(1)>>, 1), StmtC(Str(d - k), <<>>), InsRowC(A, <<A>>, <<I(1)>>, 2), DelC(A, <<Op("Eq", <<H(1), H(2)>>)>>), SendEv>>)
             : d \in {256, 1000, 1024, 4096, 10000, 65536} \cup (IF Deep THEN {512, 2048, 8192, 16384, 32768, 100000, 131072, 1000000, 1048576} ELSE {}), k \in 40..130}
    (* across scopes, and a second unit of work after Reset *)
    \cup {Prog(c, <<InsRowC(A, <<A>>, <<T>>, 1)>> \o TxS(l, <<InsRowC(A, <<A>>, <<H(1)>>, 2)>> \o ExpS(1, <<InsRowC(B, <<A>>, <<H(2)>>, 3)>> \o HandleUses(1, 3), ""), "")
                     \o HandleUses(2, 3) \o <<SendEv, ResetEv, StmtC(A, <<>>), InsRowC(A, <<A>>, <<T>>, 4), InsRowC(A, <<A>>, <<H(4)>>, 5)>> \o HandleUses(4, 5) \o <<SendEv>>)
             : l \in 0..5, c \in {0, 1000}}
    (* large units of work: the offset has many digits *)
    \cup {Prog(0, <<StmtC(Str(n), <<>>), InsRowC(A, <<A>>, <<T>>, 1), InsRowC(A, <<A>>, <<S(n)>>, 2)>> \o HandleUses(1, 2) \o <<SendEv>>)
             : n \in {0, 7, 60, 70, 80, 90, 900, 9900, 99900, 999900}}

-----------------------------------------------------------------------------
(* C05: scopes nested in one another, with every isolation level and context *)
RECURSIVE Nest(_, _, _)
Nest(d, kinds, body) == IF d = 0 THEN body
                        ELSE IF kinds[d] <= 5 THEN <<StmtC(A, <<I(d)>>)>> \o TxS(kinds[d], Nest(d - 1, kinds, body), "") \o <<StmtC(B, <<I(d)>>)>>
                        ELSE <<StmtC(A, <<I(d)>>)>> \o ExpS(kinds[d] - 6, Nest(d - 1, kinds, body), "") \o <<StmtC(B, <<I(d)>>)>>
ScopeCases ==
    {Prog(c, Nest(3, <<k1, k2, k3>>, <<StmtC(B, <<>>)>>) \o <<SendEv>>) : k1 \in 0..7, k2 \in 0..7, k3 \in 0..7, c \in IF Deep THEN {0, 17, 400} ELSE {0}}
    \cup {Prog(0, Nest(d, [i \in 1..d |-> (i * 5) % 8], <<>>) \o <<SendEv>>) : d \in {1, 2, 5, 8, 16, 40, 130} \cup (IF Deep THEN {32, 64, 257, 300} ELSE {})}
    (* statements that look like the scope's own *)
    \cup {Prog(0, TxS(l, b, "") \o ExpS(c, b \o TxS(l, b \o b, "") \o b, "") \o <<SendEv>>) : l \in 0..5, c \in 0..1,
              b \in {<<StmtC(Canon(Ascii(w)), a)>> : w \in {"COMMIT", "commit", "COMMIT ", "ROLLBACK", "START TRANSACTION", "BEGIN", "SET TRANSACTION ISOLATION LEVEL READ COMMITTED", "START TRANSACTION WITH CONSISTENT SNAPSHOT", ""}, a \in {<<>>, <<T>>}}
                    \cup {TxS(l2, <<>>, "") : l2 \in 0..5} \cup {ExpS(c2, <<>>, "") : c2 \in 0..1} \cup {<<DeallocC(<<>>)>>}}
    (* many in a row, and around much *)
    \cup {Prog(0, FlattenSeq([i \in 1..n |-> Nest(2, <<(i * 3) % 8, (i * 5) % 8>>, <<StmtC(B, <<>>)>>)]) \o <<SendEv>>) : n \in {20, 90}}
    \cup {Prog(0, FlattenSeq([i \in 1..n |-> IF (i + k) % 9 = 0 THEN <<StmtC(B, <<I(i)>>)>> ELSE IF k > 7 \/ i % 2 = 0 THEN Nest(1, <<(i + k) % 8>>, <<>>) ELSE Nest(1, <<k>>, <<StmtC(Dec(i, 4), <<>>)>>)]) \o <<SendEv>>)
             : n \in {140} \cup (IF Deep THEN {530} ELSE {}), k \in 0..9}
    \cup {Prog(0, FlattenSeq([i \in 1..n |-> IF k <= 5 THEN TxS(k, b, "") ELSE ExpS(k - 6, b, "")]) \o <<SendEv>>) : n \in {140}, k \in 0..7, b \in {<<>>, <<StmtC(B, <<>>)>>}}
    (* after much *)
    \cup {Prog(0, <<StmtC(Str(n), <<>>)>> \o Nest(2, <<k, l>>, <<StmtC(B, <<>>)>>) \o <<SendEv>>) : k \in 0..7, l \in 0..7, n \in {16384, 70000}}
    \cup {Prog(0, <<StmtC(Str(n), <<>>)>> \o Nest(2, <<k, (k + 5) % 8>>, <<StmtC(B, <<>>)>>) \o <<SendEv>>) : k \in 0..7, n \in {1100000, 2200000}}
    \cup {Prog(0, Nest(3, <<k, 7, 6>>, <<StmtC(Str(n), <<>>), StmtC(B, <<>>)>>) \o <<SendEv>>) : k \in 0..7, n \in {16384, 70000, 2097152}}

-----------------------------------------------------------------------------
(* C17: pairs of small units of work that do the same thing with different things *)
ValuePairs ==
    <<<<[go |-> "bool", x |-> TRUE], [go |-> "bool", x |-> FALSE]>>, <<CHOOSE t \in Times : t.off = 330, CHOOSE t \in Times : t.off = -720>>,
     <<Dur(FALSE, Secs(61)), Dur(TRUE, Secs(360000))>>, <<CHOOSE d \in Doubles : TRUE, CHOOSE d \in Doubles : d # CHOOSE c \in Doubles : TRUE>>,
     <<CHOOSE d \in Floats : TRUE, CHOOSE d \in Floats : d # CHOOSE c \in Floats : TRUE>>>>
    \o SetToSeq({<<[go |-> t, neg |-> TRUE, m |-> <<1>>], [go |-> t, neg |-> FALSE, m |-> <<100>>]>> : t \in SignedTypes})
    \o SetToSeq({<<[go |-> t, m |-> <<1>>], [go |-> t, m |-> <<100, 1>>]>> : t \in UnsignedTypes})
    \o SetToSeq({<<[go |-> "string", v |-> <<97, 98>>], [go |-> "string", v |-> w]>> : w \in {<<99, 100>>, Str(5), Str(200)}})
    \o SetToSeq({<<[go |-> t, isnil |-> FALSE, v |-> <<97, 98>>], [go |-> t, isnil |-> FALSE, v |-> w]>> : t \in {"bytes", "XML", "JSON", "Geometry"}, w \in {<<99, 100>>, Str(200)}})
    \o SetToSeq({<<[go |-> t, v |-> <<97, 98>>], [go |-> t, v |-> w]>> : t \in {"XMLString", "JSONString"}, w \in {<<99, 100>>, Str(200)}})
    \o SetToSeq({<<[go |-> "String", v |-> <<97, 98>>, coll |-> <<8>>], [go |-> "String", v |-> <<99, 100>>, coll |-> <<0, 2>>]>>})
ExprPairs ==
    <<<<Col(A), Col(Str(9))>>, <<[go |-> "pos", m |-> <<0, 1>>], [go |-> "pos", m |-> <<3>>]>>, <<[go |-> "var", name |-> A], [go |-> "var", name |-> Str(9)]>>>>
    \o SetToSeq({<<OpOf(c, I(1), Col(A)), OpOf(c, S(9), Col(B))>> : c \in AllOps})
    \o SetToSeq({<<Op(c, <<Col(A), I(1), I(2)>>), Op(c, <<Col(B), I(3), I(4), I(5)>>)>> : c \in Variadic})
CallPairs ==
    <<<<<<StmtC(A, <<>>)>>, <<StmtC(Str(200), <<I(1)>>)>>>>, <<<<PrepC(<<1>>, A)>>, <<PrepC(<<2, 1>>, Str(200))>>>>,
     <<<<ExecC(<<1>>, <<I(1)>>)>>, <<ExecC(<<2, 1>>, <<S(3)>>)>>>>, <<<<DeallocC(<<1>>)>>, <<DeallocC(<<2, 1>>)>>>>,
     <<<<InsC(A, <<A>>, <<<<I(1)>>>>)>>, <<InsC(Str(9), <<B, A>>, <<<<I(2), I(3)>>, <<T, T>>>>)>>>>,
     <<<<InsRowC(A, <<A>>, <<I(1)>>, 1), DelC(A, <<Op("Eq", <<Col(A), H(1)>>)>>)>>, <<InsRowC(Str(9), <<B>>, <<S(40)>>, 1), DelC(B, <<Op("Eq", <<Col(B), H(1)>>)>>)>>>>,
     <<<<UpdC(A, <<Col(A)>>, <<Pair(A, I(1))>>)>>, <<UpdC(Str(9), <<Col(B)>>, <<Pair(B, I(2))>>)>>>>,
     <<<<DelC(A, <<Col(A)>>)>>, <<DelC(Str(9), <<Col(B)>>)>>>>, <<<<DelC(A, <<>>)>>, <<DelC(A, <<Col(B)>>)>>>>,
     <<InsF(A, <<A>>, <<RowC(<<I(1)>>), RowC(<<I(2)>>)>>), InsF(Str(9), <<B>>, <<RowC(<<T>>)>>)>>,
     <<UpdF(A, <<>>, <<SetC(A, I(1)), SetC(B, I(2))>>), UpdF(Str(9), <<Col(B)>>, <<SetC(B, T)>>)>>>>
    \o SetToSeq({<<TxS(l, <<StmtC(A, <<>>)>>, ""), TxS(m, <<StmtC(B, <<>>)>>, "")>> : l \in 0..5, m \in 0..5})
    \o SetToSeq({<<ExpS(l, <<StmtC(A, <<>>)>>, ""), ExpS(1 - l, <<StmtC(B, <<>>)>>, "")>> : l \in 0..1})
    \o SetToSeq({<<<<StmtC(A, <<Fault("s1", h)>>)>>, <<StmtC(B, <<T>>)>>>> : h \in {"keep", "nil", "part"}})
    \o SetToSeq({<<<<StmtC(A, <<Unsup("struct")>>)>>, <<StmtC(A, <<Unsup(t)>>)>>>> : t \in {"chan", "map", "slice"}})
    \o SetToSeq({<<<<InsC(A, <<A>>, <<<<Unsup("struct")>>>>)>>, <<InsC(A, <<A>>, <<<<Unsup(t)>>>>)>>>> : t \in {"chan", "map", "slice"}})
    \o SetToSeq({<<<<InsC(A, <<A>>, <<<<I(1), I(2)>>>>)>>, <<InsC(A, <<A, B, A>>, <<<<I(1)>>>>)>>>>})
    \o SetToSeq({<<TxS(0, <<StmtC(A, <<>>)>>, "s1"), TxS(0, <<StmtC(B, <<>>)>>, "")>>})
Duet(p) == <<Prog(0, p[1] \o <<SendEv>>), Prog(0, p[2] \o <<SendEv>>)>>
InExpr(v) == <<InsC(A, <<A>>, <<<<v>>>>), UpdC(A, <<Op("Eq", <<Col(A), v>>)>>, <<Pair(A, v)>>)>>
Each(s, F(_)) == [i \in 1..Len(s) |-> Duet(F(s[i]))]
TwinPairs == Each(CallPairs, LAMBDA p : p)
             \o Each(ValuePairs, LAMBDA p : <<<<StmtC(A, <<p[1]>>)>>, <<StmtC(A, <<p[2]>>)>>>>)
             \o Each(ValuePairs, LAMBDA p : <<<<StmtC(A, <<[go |-> "ptr", v |-> p[1]]>>)>>, <<StmtC(A, <<[go |-> "ptr", v |-> p[2]]>>)>>>>)
             \o Each(ValuePairs \o ExprPairs, LAMBDA p : <<InExpr(p[1]), InExpr(p[2])>>)
TwinUnits == LET s == TwinPairs IN [i \in 1..(2 * Len(s)) |-> s[(i + 1) \div 2][2 - (i % 2)]]

-----------------------------------------------------------------------------
Family == CASE What = "values"  -> ValueCases
            [] What = "calls"   -> CallCases
            [] What = "exprs"   -> ExprCases
            [] What = "faults"  -> FaultCases
            [] What = "scopes"  -> ScopeCases
            [] What = "handles" -> HandleCases

ASSUME ndJsonSerialize(IOEnv.OUT, IF What = "twins" THEN TwinUnits ELSE SetToSeq(Family))

VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
