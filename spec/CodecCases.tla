----------------------------- MODULE CodecCases -----------------------------
(* Behaviours of a caller of the encoders: buffers of every size, handed to *)
(* one encoder after another.                                               *)
EXTENDS Values, Json, IOUtils, SequencesExt
CONSTANTS What, Deep

F(f) == [f |-> f, pan |-> FALSE]
Oct(t, f, n, ct) == IF f = "anybytes" \/ f = "exprbytes" THEN F(f) @@ [tag |-> t, v |-> Str(n), ct |-> ct, isnil |-> FALSE]
                    ELSE F(f) @@ [tag |-> t, v |-> Str(n), ct |-> ct]
NilBytes(t, f, ct) == F(f) @@ [tag |-> t, v |-> <<>>, ct |-> ct, isnil |-> TRUE]
Text(t, f, n, coll) == F(f) @@ [tag |-> t, v |-> Str(n), coll |-> coll]
OpE(t, n, args, how) == F("exprop") @@ [tag |-> t, name |-> Str(n), args |-> args, how |-> how]
FnE(t, n, args, how) == F("exprfn") @@ [tag |-> t, name |-> Str(n), args |-> args, how |-> how]
ColE(t, n) == F("col") @@ [tag |-> t, name |-> Str(n)]
VarE(t, n) == F("var") @@ [tag |-> t, name |-> Str(n)]
PosE(t, m) == F("pos") @@ [tag |-> t, m |-> m]
RowE(r) == F("row") @@ [row |-> r]
SetE(n, v) == F("set") @@ [name |-> Str(n), v |-> v]
DurE(d) == F("dur") @@ [neg |-> d.neg, ns |-> d.ns]
ResetE(k) == F("reset") @@ [keep |-> k]
StmtE(n, a) == F("stmt") @@ [stmt |-> Str(n), args |-> a]
PrepE(id, n) == F("prep") @@ [id |-> id, stmt |-> Str(n)]
ExecE(id, a) == F("exec") @@ [id |-> id, args |-> a]
DeallocE(id) == F("dealloc") @@ [id |-> id]
InsE(n, c, r) == F("ins") @@ [name |-> Str(n), cols |-> c, rows |-> r]
UpdE(n, c, s) == F("upd") @@ [name |-> Str(n), crit |-> c, set |-> s]
DelE(n, c) == F("del") @@ [name |-> Str(n), crit |-> c]
NoErr(x) == [c |-> "noerror", x |-> x, v |-> <<>>]
Fld(n) == [c |-> "field", x |-> FALSE, v |-> Str(n)]
OpenE(ctx, cs) == F("eopen") @@ [ctx |-> ctx, conds |-> cs]
CloseE == F("eclose")
CapE(n, x) == F("cap") @@ [name |-> Str(n), x |-> x]
StartE(m, d) == F("astart") @@ [mech |-> Str(m), data |-> Str(d)]
ContE(d) == F("acont") @@ [data |-> Str(d)]
ForE(n) == F("forappend") @@ [n |-> n]
AllocE(n) == F("alloc") @@ [n |-> n]
InsertE(pos, n) == F("insert") @@ [pos |-> pos, n |-> n]    \* pos: bytes from the end

Prog(cap, len, ev) == [cap |-> cap, len |-> len, ev |-> ev]

I(n) == [go |-> "int", neg |-> FALSE, m |-> IntToLimbs(n)]
S(n) == [go |-> "string", v |-> Str(n)]
T    == [go |-> "bool", x |-> TRUE]
A    == <<97>>
Fault(x, how) == [go |-> "fail", x |-> x, how |-> how]
P(n, v) == [name |-> Str(n), v |-> v]

(* one of each, with texts of n bytes *)
Each(n, t) ==
    <<ResetE(FALSE), StmtE(n, <<I(1), S(n)>>), Oct(t, "anybytes", n, 2), PrepE(<<1>>, n), Oct(t, "anybytesstring", n, 0), ResetE(TRUE),
      ExecE(<<3, 1>>, <<S(n), T>>), Text(t, "anystring", n, <<51, 2>>), DeallocE(<<0, 1>>), Oct(t, "exprbytes", n, 0), NilBytes(t, "anybytes", 1), NilBytes(t, "exprbytes", 0),
      InsE(n, <<A, Str(n)>>, <<<<I(1), S(n)>>, <<>>, <<T>>>>), Oct(t, "exprbytesstring", n, 3), Text(t, "exprstring", n, <<>>),
      UpdE(n, <<Op("Eq", <<Col(A), S(n)>>)>>, <<P(n, S(n)), P(1, Col(Str(n)))>>), OpE(t, n, <<S(n), Col(A)>>, ""), DelE(n, <<Col(Str(n))>>), FnE(t, n, <<>>, "V"),
      OpenE(0, <<NoErr(TRUE), Fld(n)>>), OpE(t, n, <<>>, "V"), OpenE(1, <<Fld(n), Fld(n + 1), NoErr(FALSE)>>), CloseE, OpenE(1, <<>>), FnE(t, n, <<S(n), T, Op("Not", <<I(n)>>)>>, ""),
      DelE(n, <<>>), ColE(t, n), VarE(t, n), PosE(t, IntToLimbs(n)), RowE(<<S(n), T>>), RowE(<<>>), SetE(n, S(n)), DurE(Dur(n > 0, Secs(n * 37))), CapE(n, TRUE), CapE(1, FALSE),
      StartE(n, n), StartE(n, 0), ContE(n), ContE(0), UpdE(n, <<>>, <<>>), InsE(n, <<>>, <<>>)>>

(* one of each that takes a text, whatever it says *)
EachT(w, t) ==
    LET v == [go |-> "string", v |-> w] IN
    <<F("stmt") @@ [stmt |-> w, args |-> <<v>>], F("anybytes") @@ [tag |-> t, v |-> w, ct |-> 2, isnil |-> FALSE], F("prep") @@ [id |-> <<1>>, stmt |-> w], F("anybytesstring") @@ [tag |-> t, v |-> w, ct |-> 0],
      F("anystring") @@ [tag |-> t, v |-> w, coll |-> <<51, 2>>], F("exprbytes") @@ [tag |-> t, v |-> w, ct |-> 0, isnil |-> FALSE], F("ins") @@ [name |-> w, cols |-> <<A, w>>, rows |-> <<<<I(1), v>>>>],
      F("exprbytesstring") @@ [tag |-> t, v |-> w, ct |-> 3], F("exprstring") @@ [tag |-> t, v |-> w, coll |-> <<>>], F("upd") @@ [name |-> w, crit |-> <<Op("Eq", <<Col(w), v>>)>>, set |-> <<[name |-> w, v |-> v]>>],
      F("exprop") @@ [tag |-> t, name |-> w, args |-> <<v, Col(w)>>, how |-> ""], F("del") @@ [name |-> w, crit |-> <<Col(w)>>], F("exprfn") @@ [tag |-> t, name |-> w, args |-> <<v>>, how |-> "V"],
      F("eopen") @@ [ctx |-> 0, conds |-> <<[c |-> "field", x |-> FALSE, v |-> w], NoErr(TRUE), [c |-> "field", x |-> FALSE, v |-> w]>>], F("col") @@ [tag |-> t, name |-> w], F("var") @@ [tag |-> t, name |-> w],
      F("set") @@ [name |-> w, v |-> v], F("astart") @@ [mech |-> w, data |-> w], F("acont") @@ [data |-> w]>>
      \o (IF \A i \in 1..Len(w) : w[i] < 128 THEN <<F("cap") @@ [name |-> w, x |-> TRUE], F("cap") @@ [name |-> w, x |-> FALSE]>> ELSE <<>>)
(* many of everything *)
EachN(n) ==
    LET s == [i \in 1..n |-> IF i % 3 = 0 THEN T ELSE IF i % 3 = 1 THEN I(i) ELSE S(i % 30)] IN
    <<StmtE(3, s), ExecE(<<3>>, s), InsE(2, [i \in 1..n |-> Str(i % 40)], <<s, <<>>, s>>), InsE(2, <<A>>, [i \in 1..n |-> <<I(i)>>]), UpdE(2, <<>>, [i \in 1..n |-> P(i % 40, I(i))]), RowE(s),
      OpE(1, 2, s, ""), OpE(1, 2, s, "V"), FnE(1, 2, s, "V"), FnE(1, 6, s, ""), OpenE(1, [i \in 1..n |-> IF i % 3 = 0 THEN NoErr(TRUE) ELSE Fld(i % 140)]), CloseE>>
Lens == ShortLens \cup 90..130 \cup (IF Deep THEN EdgeLens2 \cup EdgeLens1 \cup {2097130, 2097137, 2097141, 2097145, 2097150, 2097152} ELSE 16352..16386)
Encoders ==
    {Prog(c, 0, Each(3, 1)) : c \in IF Deep THEN 0..1500 ELSE 0..260}
    \cup {Prog(c, c, Each(2, 15)) : c \in 0..40}
    \cup {Prog(c, 7, Each(n, 2)) : n \in Lens, c \in {7, 20000}}
    \cup {Prog(0, 0, Each(5, t)) : t \in 1..15}
    \cup {Prog(9, 4, EachT(w, 2)) : w \in Contents}
    \cup {Prog(c, 4, EachN(n)) : c \in {4, 5000}, n \in {13, 64, 127, 128, 260}}
    \cup {Prog(c, 3, Each(n, 3)) : c \in {3, 100000}, n \in {65535, 65536, 70000}}
    \cup {Prog(5, 3, Each(n, 3)) : n \in {2097110, 2097130, 2097152}}
    \cup {Prog(n, n, Each(3, 3)) : n \in {4096, 65536}}

(* every value under every operator parameter, argument, row and assignment *)
Vals1 == Bools \cup Times \cup Durations \cup Nils \cup Doubles \cup Floats \cup AllInts
         \cup StringsOf({0, 1, 5, 120}) \cup BytesOf({0, 1, 5, 120}) \cup WrappedOf({0, 5, 120}) \cup CollatedOf({0, 5})
Values1 == {Prog(c, c, <<StmtE(1, <<v, T, v>>), OpE(3, 2, <<v, v>>, ""), FnE(4, 2, <<T, v>>, "V"), RowE(<<v, T>>), SetE(1, v), ExecE(<<1>>, <<v>>)>>)
              : v \in Vals1, c \in IF Deep THEN {0, 1, 9} ELSE {3}}
           \cup {Prog(0, 0, <<DurE(d)>>) : d \in Durations}
           \cup {Prog(c, 0, <<PosE(1, m), PrepE(m, 1), ExecE(m, <<>>), DeallocE(m)>>) : m \in {Pow2(k) : k \in 0..31} \cup {Pow2m1(k) : k \in 1..32}, c \in {0, 8, 100}}
           \cup {Prog(0, 0, <<Oct(1, f, n, ct)>>) : f \in {"anybytes", "anybytesstring", "exprbytes", "exprbytesstring"}, n \in {0, 1} \cup 110..125, ct \in 0..3}
           \cup {Prog(0, 0, <<Text(1, f, n, cl)>>) : f \in {"anystring", "exprstring"}, n \in {0, 1} \cup 110..125, cl \in Collations}
           \cup {Prog(c, 0, <<OpE(1, a, [i \in 1..k |-> I(i)], h), FnE(1, b, [i \in 1..k |-> S(i % 5)], h)>>)
                   : a \in {0, 1, 2}, b \in {0, 1}, k \in 0..12 \cup {40, 41, 42, 43, 44, 45}, h \in {"", "V"}, c \in {0, 200}}

(* faults, in every place, with what the buffer held before them *)
BadVals == {Fault("s1", h) : h \in {"keep", "nil", "part"}} \cup {[go |-> "unsup", t |-> t] : t \in {"struct", "chan", "func", "map", "complex", "slice"}}
Faulty(v) == <<StmtE(1, <<I(1), v>>), ExecE(<<1>>, <<v, T>>), RowE(<<T, v>>), SetE(1, v), InsE(1, <<A>>, <<<<I(1)>>, <<v>>>>), OpE(1, 1, <<T, v>>, "V"), FnE(1, 1, <<v, T>>, ""),
               UpdE(1, <<Op("Eq", <<Col(A), v>>)>>, <<P(1, T)>>), UpdE(1, <<>>, <<P(1, T), P(1, v)>>), DelE(1, <<Op("Not", <<v>>)>>), CloseE>>
Faults1 == {Prog(c, l, Faulty(v)) : v \in BadVals, l \in {0, 5}, c \in {5, 40, 500}}
           \cup {Prog(c, 5, <<RowE(<<Op("Concat", <<S(2), Op("Not", <<Op("InV", <<T, v, T>>)>>)>>)>>), CloseE>>) : v \in BadVals, c \in {5, 500}}

(* the helpers of package slice *)
Slices == {Prog(c, l, <<InsertE(p, n)>>) : c \in {l2 \in 0..24 : l2 % 3 = 0}, l \in 0..12, p \in 0..6, n \in 0..9}
          \cup {Prog(c, l, <<ForE(n), AllocE(n), ForE(n + 1)>>) : c \in 0..16, l \in 0..8, n \in 0..9}
          \cup {Prog(c, l, <<ForE(n), InsertE(p, n), AllocE(n)>>) : c \in {600, 1200}, l \in {500, 600}, n \in {0, 1, 100, 600}, p \in {0, 1, 250}}
Legal(s) == {p \in s : p.len <= p.cap /\ \A i \in 1..Len(p.ev) : p.ev[i].f = "insert" => p.ev[i].pos <= p.len}

(* random sequences *)
RandEv(z_) ==
    LET k == Pick(1..26) n == RandLen(0) t == Pick(1..15) m == Pick(0..3)
        vs == TLCEval([i \in 1..m |-> RandExpr(Pick(0..2), {})])
        as == TLCEval([i \in 1..m |-> RandArg(0)])
    IN CASE k = 1 -> ResetE(Pick(BOOLEAN))
         [] k = 2 -> StmtE(n, as)
         [] k = 3 -> PrepE(RandMag(32), n)
         [] k = 4 -> ExecE(RandMag(32), as)
         [] k = 5 -> DeallocE(RandMag(32))
         [] k = 6 -> InsE(n, TLCEval([i \in 1..m |-> RandName(0)]), <<vs, vs>>)
         [] k = 7 -> UpdE(n, RandCrit(1, {}), TLCEval([i \in 1..m |-> P(RandLen(0), vs[i])]))
         [] k = 8 -> DelE(n, RandCrit(2, {}))
         [] k = 9 -> OpenE(Pick({0, 1}), TLCEval([i \in 1..m |-> IF Pick(BOOLEAN) THEN NoErr(Pick(BOOLEAN)) ELSE Fld(RandLen(0))]))
         [] k = 10 -> CloseE
         [] k = 11 -> CapE(n, Pick(BOOLEAN))
         [] k = 12 -> StartE(Pick(0..20), n)
         [] k = 13 -> ContE(n)
         [] k = 14 -> Oct(t, Pick({"anybytes", "anybytesstring", "exprbytes", "exprbytesstring"}), n, Pick(0..3))
         [] k = 15 -> Text(t, Pick({"anystring", "exprstring"}), n, Pick(Collations))
         [] k \in 16..18 -> OpE(t, Pick(0..20), vs, Pick({"", "V"}))
         [] k \in 19..20 -> FnE(t, n, vs, Pick({"", "V"}))
         [] k = 21 -> ColE(t, n)
         [] k = 22 -> VarE(t, n)
         [] k = 23 -> PosE(t, RandMag(32))
         [] k = 24 -> RowE(vs)
         [] k = 25 -> SetE(n, RandExpr(Pick(0..3), {}))
         [] OTHER -> DurE(RandDur(0))
Random == [i \in 1..(IF Deep THEN 6000 ELSE 600) |->
              LET l == Pick(0..40) IN Prog(l + Pick({0, 1, 2, 3, 5, 8, 13, 30, 60, 120, 250, 500, 1000, 20000}), l, TLCEval([j \in 1..Pick(1..12) |-> RandEv(0)]))]

Docs == CASE What = "encoders" -> SetToSeq(Encoders)
          [] What = "values" -> SetToSeq(Values1)
          [] What = "faults" -> SetToSeq(Legal(Faults1))
          [] What = "slices" -> SetToSeq(Legal(Slices))
          [] OTHER -> TLCEval(Random)
ASSUME ndJsonSerialize(IOEnv.OUT, Docs)
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
