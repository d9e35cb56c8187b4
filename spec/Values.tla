------------------------------- MODULE Values -------------------------------
(* Values, names and expressions from which behaviours are generated.       *)
(* The sets below are enumerated; the Rand* operators draw from far larger  *)
(* sets (used under TLC's simulation mode, so seeded).                      *)
EXTENDS Builder

Pick(S) == RandomElement(S)
PickSeq(l) == l[RandomElement(1..Len(l))]

(* 2^k and 2^k - 1 in base 128 *)
Pow2(k)   == TLCEval([i \in 1..(k \div 7) |-> 0] \o <<2 ^ (k % 7)>>)
Pow2m1(k) == TLCEval([i \in 1..(k \div 7) |-> 127] \o (IF k % 7 = 0 THEN <<>> ELSE <<2 ^ (k % 7) - 1>>))

Mags(w) == {<<>>} \cup {Pow2(k) : k \in 0..(w - 1)} \cup {Pow2m1(k) : k \in 1..w}
           \cup {Inc(Pow2(k)) : k \in 1..(w - 1)}

Width == [int |-> 64, int8 |-> 8, int16 |-> 16, int32 |-> 32, int64 |-> 64,
          uint |-> 64, uint8 |-> 8, uint16 |-> 16, uint32 |-> 32, uint64 |-> 64]

Signed(t)   == {[go |-> t, neg |-> FALSE, m |-> m] : m \in Mags(Width[t] - 1)}
               \cup {[go |-> t, neg |-> TRUE, m |-> m] : m \in (Mags(Width[t] - 1) \ {<<>>}) \cup {Pow2(Width[t] - 1)}}
Unsigned(t) == {[go |-> t, m |-> m] : m \in Mags(Width[t])}
AllInts     == UNION {Signed(t) : t \in SignedTypes} \cup UNION {Unsigned(t) : t \in UnsignedTypes}
(* every value of the 8 bit types *)
Bytes8      == {[go |-> "uint8", m |-> IntToLimbs(n)] : n \in 0..255}
               \cup {[go |-> "int8", neg |-> FALSE, m |-> IntToLimbs(n)] : n \in 0..127}
               \cup {[go |-> "int8", neg |-> TRUE, m |-> IntToLimbs(n)] : n \in 1..128}

RandMag(w) == LET r == Pick(0..w) IN
              TLCEval(TrimZ([i \in 1..(r \div 7) |-> Pick(0..127)] \o (IF r % 7 = 0 THEN <<>> ELSE <<Pick(0..(2 ^ (r % 7) - 1))>>)))
RandSigned(t) == LET m == RandMag(Width[t] - 1) IN [go |-> t, neg |-> m # <<>> /\ Pick(BOOLEAN), m |-> m]
RandUnsigned(t) == [go |-> t, m |-> RandMag(Width[t])]

Bools == {[go |-> "bool", x |-> TRUE], [go |-> "bool", x |-> FALSE]}

(* IEEE bit patterns, least significant byte first *)
Doubles == {[go |-> "float64", b |-> Canon(b)] : b \in {
    <<0,0,0,0,0,0,0,0>>, <<0,0,0,0,0,0,0,128>>, <<0,0,0,0,0,0,240,63>>, <<0,0,0,0,0,0,240,191>>,
    <<255,255,255,255,255,255,239,127>>, <<1,0,0,0,0,0,0,0>>, <<0,0,0,0,0,0,240,127>>, <<0,0,0,0,0,0,240,255>>,
    <<1,0,0,0,0,0,248,127>>, <<24,45,68,84,251,33,9,64>>, <<1,2,3,4,5,6,7,8>>, <<128,129,130,131,132,133,134,135>>}}
Floats == {[go |-> "float32", b |-> b] : b \in {
    <<0,0,0,0>>, <<0,0,0,128>>, <<0,0,128,63>>, <<0,0,128,191>>, <<255,255,127,127>>, <<1,0,0,0>>,
    <<0,0,128,127>>, <<0,0,128,255>>, <<1,2,3,4>>, <<219,15,73,64>>, <<128,129,130,131>>}}
RandDouble(z_) == [go |-> "float64", b |-> Canon([i \in 1..7 |-> Pick(0..255)] \o <<Pick(0..126)>>)]
RandFloat(z_)  == [go |-> "float32", b |-> TLCEval([i \in 1..3 |-> Pick(0..255)] \o <<Pick(0..126)>>)]

(* strings: distinct ends, so that no shift or truncation goes unnoticed *)
Str(n) == CASE n = 0 -> <<>>
            [] n = 1 -> <<1>>
            [] OTHER -> <<1>> \o Run(97, n - 2) \o <<2>>
RandBytes(n) == Canon(TLCEval([i \in 1..n |-> Pick(0..255)]))
RandText(n)  == Canon(TLCEval([i \in 1..n |-> Pick(97..122)]))

(* contents: every byte at the beginning, in the middle and at the end, and words that mean something to somebody *)
Words == {Canon(Ascii(w)) : w \in {" ", "a b", " a", "a ", "A", "Ab", "aB", "a.b", "a.b.c", ".", "`a`", "`", "'", "''", "a'b", "\"a\"", "\\", "a\\'", "%", "%s", "%d%v", "?", "a?", "a,b", "(a)", "*",
            "a;b", ";", "--", "-- a", "/* a */", "#", "@a", "@@a", "@id$1", "$", "$.a", "a->b", "a->'$.b'", "a->>'$.b'", ":a", "NULL", "null", "nil", "true", "TRUE", "false", "0", "1", "-1", "007", "1e3", "0x41", "1.50",
            "COMMIT", "commit", "ROLLBACK", "BEGIN", "START TRANSACTION", "SET autocommit=1", "SELECT 1", "select 1", "SELECT ?", "INSERT INTO t VALUES (1)", "SET @id$1 = LAST_INSERT_ID()", "DEFAULT", "default", "id", "_id",
            "{}", "[]", "{\"a\":[1,2]}", "<a/>", "2020-01-02", "2020-01-02 03:04:05", "12:34:56", "a=b", "a&b", "a|b", "~", "^"}}
         \cup {<<195, 169>>, <<226, 130, 172>>, <<240, 159, 152, 128>>, <<239, 187, 191, 97>>, <<192, 128>>, <<237, 160, 128>>, <<97, 195>>, <<0, 0>>, <<97, 0, 0, 98>>, <<10>>, <<13, 10>>, <<9, 97>>, <<97, 10>>, <<101, 204, 129>>, <<197, 191>>}
Contents == Words \cup {<<c>> : c \in 0..255} \cup {<<97, c, 66>> : c \in 0..255} \cup {<<c, 97>> : c \in 0..96 \cup 98..255} \cup {<<97, c>> : c \in 0..96 \cup 98..255}

(* lengths at which some enclosing length field grows by a byte *)
ShortLens == 0..24
EdgeLens1 == 100..130
EdgeLens2 == 16355..16386
EdgeLens3 == 2097124..2097154
RandLen(z_) == LET k == Pick(1..10) IN
           CASE k <= 5 -> Pick(0..12)
             [] k <= 8 -> Pick(90..130)
             [] k = 9 -> Pick(0..600)
             [] OTHER -> Pick(16340..16390)
RandName(z_) == IF Pick(1..4) = 1 THEN Str(RandLen(0)) ELSE RandText(Pick(0..9))
RandContent(z_) == IF Pick(1..3) = 1 THEN Str(RandLen(0)) ELSE RandBytes(Pick(0..12))

StringsOf(lens) == {[go |-> "string", v |-> Str(n)] : n \in lens}
BytesOf(lens)   == {[go |-> "bytes", isnil |-> FALSE, v |-> Str(n)] : n \in lens}
WrappedOf(lens) == {[go |-> t, isnil |-> FALSE, v |-> Str(n)] : t \in {"XML", "JSON", "Geometry"}, n \in lens}
                   \cup {[go |-> t, v |-> Str(n)] : t \in {"XMLString", "JSONString"}, n \in lens}
Collations == {<<>>, <<8>>, <<33>>, <<63>>, <<127>>, <<0, 1>>, <<127, 1>>, <<0, 2>>, <<51, 2>>}
CollatedOf(lens) == {[go |-> "String", v |-> Str(n), coll |-> c] : n \in lens, c \in Collations}

Nils == {[go |-> "nil"], [go |-> "bytes", isnil |-> TRUE, v |-> <<>>]}
        \cup {[go |-> t, isnil |-> TRUE, v |-> <<>>] : t \in {"XML", "JSON", "Geometry"}}

(* times: wall clock and zone offset in minutes *)
Time(y, mo, d, h, mi, s, ns, off) ==
    [go |-> "time", y |-> y, mo |-> mo, d |-> d, h |-> h, mi |-> mi, s |-> s, ns |-> ns, off |-> off]
Times == {Time(1, 1, 1, 0, 0, 0, 0, 0), Time(999, 12, 31, 23, 59, 59, 999999999, 0), Time(1000, 1, 1, 0, 0, 0, 1, 0),
          Time(1970, 1, 1, 0, 0, 0, 0, 0), Time(2000, 2, 29, 12, 34, 56, 123456789, 330), Time(2024, 10, 27, 1, 30, 0, 100000000, -720),
          Time(9999, 12, 31, 23, 59, 59, 999999999, 840), Time(2019, 6, 30, 23, 59, 59, 10, 60)}
RandTime(z_) == Time(Pick(1..9999), Pick(1..12), Pick(1..28), Pick(0..23), Pick(0..59), Pick(0..59), Pick(0..999999999), Pick(-720..840))

(* durations: sign and decimal digits of the nanoseconds *)
Dur(neg, d) == [go |-> "dur", neg |-> neg, ns |-> d]
Zeros(n) == [i \in 1..n |-> 0]
Secs(n) == TLCEval(TrimLead([i \in 1..Len(Dec(n, 1)) |-> Dec(n, 1)[i] - 48] \o Zeros(9)))
MaxDur == <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>
MinDur == <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,8>>
DurSecs == {0, 1, 9, 10, 59, 60, 61, 599, 600, 3599, 3600, 3661, 35999, 36000, 86399, 86400, 359999, 360000, 3020399, 3600000, 86400000}
Durations == {Dur(FALSE, Secs(n)) : n \in DurSecs} \cup {Dur(TRUE, Secs(n)) : n \in DurSecs \ {0}}
             \cup {Dur(FALSE, MaxDur), Dur(TRUE, MaxDur), Dur(TRUE, MinDur), Dur(FALSE, <<1>>), Dur(FALSE, <<9,9,9,9,9,9,9,9,9>>)}
RandDur(z_) == Dur(Pick(BOOLEAN), Secs(Pick(1..1000000000)))

Ptrs(S) == {[go |-> "ptr", v |-> v] : v \in S}
(* n pointers one after the other *)
PtrChains(S, ns) == {[go |-> "ptrs", n |-> n, v |-> v] : v \in S, n \in ns}
PtrTypes == {"int", "int8", "uint64", "string", "bool", "float64", "time", "dur", "bytes", "String", "JSON", "XMLString"}
NilPtrs == {[go |-> "nilptr", t |-> t] : t \in PtrTypes}

RandScalar(z_) == LET k == Pick(1..14) IN
    CASE k = 1 -> [go |-> "nil"]
      [] k = 2 -> [go |-> "bool", x |-> Pick(BOOLEAN)]
      [] k \in 3..5 -> RandSigned(Pick(SignedTypes))
      [] k \in 6..7 -> RandUnsigned(Pick(UnsignedTypes))
      [] k = 8 -> [go |-> "string", v |-> RandContent(0)]
      [] k = 9 -> [go |-> "bytes", isnil |-> FALSE, v |-> RandContent(0)]
      [] k = 10 -> LET t == Pick({"XML", "JSON", "Geometry"}) IN [go |-> t, isnil |-> FALSE, v |-> RandContent(0)]
      [] k = 11 -> LET t == Pick({"XMLString", "JSONString"}) IN [go |-> t, v |-> RandContent(0)]
      [] k = 12 -> [go |-> "String", v |-> RandContent(0), coll |-> Pick(Collations)]
      [] k = 13 -> IF Pick(BOOLEAN) THEN RandDouble(0) ELSE RandFloat(0)
      [] OTHER -> IF Pick(BOOLEAN) THEN RandTime(0) ELSE RandDur(0)
RandArg(z_) == LET k == Pick(1..12) IN
    CASE k = 1 -> LET v == RandScalar(0) IN IF v.go = "nil" THEN v ELSE [go |-> "ptr", v |-> v]
      [] k = 2 -> Pick(NilPtrs)
      [] OTHER -> RandScalar(0)

-----------------------------------------------------------------------------
(* expressions *)
Nullary == {"Default", "RowCount", "LastInsertID"}
Unary   == {"Not", "Plus", "Minus"}
Binary  == {"And", "Or", "Xor", "Eq", "Neq", "Lte", "Lt", "Gt", "Gte", "BitAnd", "BitOr", "BitXor", "LeftShift",
            "RightShift", "Add", "Sub", "Mul", "Div", "IntDiv", "Mod", "Is", "IsNot", "Regexp", "NotRegexp",
            "Like", "NotLike", "ContIn", "NotContIn", "Overlaps", "NotOverlaps"}
Ternary == {"Between", "NotBetween"}
Variadic == {"In", "InV", "NotIn", "NotInV", "Concat"}      \* In and NotIn need a first operand
Dates   == {"DateAdd", "DateSub"}

Op(c, args) == [go |-> "op", c |-> c, args |-> args]
DateOp(c, a, b, u) == [go |-> "op", c |-> c, args |-> <<a, b>>, unit |-> u]
Col(n) == [go |-> "col", name |-> n]

MinArgs(c) == IF c = "Concat" THEN 0 ELSE 1

RECURSIVE RandExpr(_, _)
RandOperands(n, d, hs) == TLCEval([i \in 1..n |-> RandExpr(d, hs)])
RandExpr(d, hs) ==
    LET k == Pick(1..12) IN
    IF d = 0 \/ k <= 2
    THEN (CASE k <= 3 -> Col(RandName(0))
            [] k = 4 /\ hs # {} -> [go |-> "h", i |-> Pick(hs)]
            [] k = 5 -> [go |-> "pos", m |-> RandMag(32)]
            [] k = 6 -> [go |-> "var", name |-> RandName(0)]
            [] OTHER -> RandScalar(0))
    ELSE CASE k = 3 -> Op(Pick(Nullary), <<>>)
           [] k = 4 -> Op(Pick(Unary), RandOperands(1, d - 1, hs))
           [] k \in 5..8 -> Op(Pick(Binary), RandOperands(2, d - 1, hs))
           [] k = 9 -> Op(Pick(Ternary), RandOperands(3, d - 1, hs))
           [] k \in 10..11 -> LET c == Pick(Variadic) n == Pick(MinArgs(c)..5) IN Op(c, RandOperands(n, d - 1, hs))
           [] OTHER -> LET a == RandOperands(2, d - 1, hs) IN DateOp(Pick(Dates), a[1], a[2], Pick(DateUnits))
(* a criterion must be an expression, not a plain value *)
RandCrit(d, hs) ==
    LET k == Pick(1..6) IN
    CASE k = 1 -> <<>>
      [] k = 2 -> <<Col(RandName(0))>>
      [] OTHER -> <<Op(Pick(Binary), RandOperands(2, d, hs))>>
=============================================================================
