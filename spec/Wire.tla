-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* Byte strings, protobuf and the X Protocol message grammar, as far as    *)
(* xtorm uses them.  This module says what a byte string *means*; it does  *)
(* not say how it must be spelled, so any encoder whose output denotes the *)
(* same messages satisfies it.                                             *)
(*                                                                         *)
(* A byte string is a sequence of tokens: b \in 0..255 is one byte, and    *)
(* n*256+b with n >= 8 is a maximal run of n bytes b.  That lets TLC       *)
(* handle strings of millions of bytes.                                    *)
(*                                                                         *)
(* TLC integers are 32 bit, so varints are kept as their base-128 limbs,   *)
(* least significant first, without leading (most significant) zero limbs. *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

MinRun == 8

TokLen(t)  == IF t < 256 THEN 1 ELSE t \div 256
TokByte(t) == t % 256

Run(b, n) == IF n >= MinRun THEN <<n * 256 + b>> ELSE [i \in 1..n |-> b]

RECURSIVE SumLen(_, _)
SumLen(s, k) == IF k > Len(s) THEN 0 ELSE TokLen(s[k]) + SumLen(s, k + 1)
ByteLen(s) == IF \A i \in 1..Len(s) : s[i] < 256 THEN Len(s) ELSE SumLen(s, 1)

(* run-length encode a sequence of plain bytes *)
RECURSIVE RunAt(_, _, _)
RunAt(s, k, n) == IF k + n <= Len(s) /\ s[k + n] = s[k] THEN RunAt(s, k, n + 1) ELSE n
RECURSIVE CanonFrom(_, _)
CanonFrom(s, k) ==
    IF k > Len(s) THEN <<>>
    ELSE LET n == RunAt(s, k, 1) IN Run(s[k], n) \o CanonFrom(s, k + n)
Canon(s) == CanonFrom(s, 1)

(* expand a token string into plain bytes; only for short strings *)
RECURSIVE Expand(_)
Expand(s) == IF s = <<>> THEN <<>>
             ELSE [i \in 1..TokLen(Head(s)) |-> TokByte(Head(s))] \o Expand(Tail(s))

-----------------------------------------------------------------------------
(* ASCII text *)
Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CharCode == [c \in {SubSeq(Printable, i, i) : i \in 1..95} |->
                31 + CHOOSE i \in 1..95 : SubSeq(Printable, i, i) = c]
Ascii(str) == [i \in 1..Len(str) |-> CharCode[SubSeq(str, i, i)]]

(* digits of a natural number, at least w of them *)
RECURSIVE Dec(_, _)
Dec(n, w) == IF n = 0 /\ w <= 0 THEN <<>> ELSE Append(Dec(n \div 10, w - 1), 48 + (n % 10))

-----------------------------------------------------------------------------
(* For parsing, a byte string carries the set of positions of its runs:      *)
(* [t |-> tokens, r |-> {i : t[i] is a run}].                                *)
Str0(t) == [t |-> t, r |-> {i \in 1..Len(t) : t[i] >= 256}]

(* A cursor <<k, o>> stands before byte o (0-based) of token k. *)
Start == <<1, 0>>
AtEnd(s, c) == c[1] > Len(s.t)
ByteAt(s, c) == TokByte(s.t[c[1]])
Next1(s, c) == IF c[2] + 1 >= TokLen(s.t[c[1]]) THEN <<c[1] + 1, 0>> ELSE <<c[1], c[2] + 1>>

(* take n bytes: [ok, v, c] *)
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Min2(a, b) == IF a <= b THEN a ELSE b
RECURSIVE TakeRuns(_, _, _, _)
TakeRuns(s, c, n, acc) ==
    IF n = 0 THEN [ok |-> TRUE, v |-> Str0(acc), c |-> c]
    ELSE IF AtEnd(s, c) THEN [ok |-> FALSE, v |-> Str0(<<>>), c |-> c]
    ELSE LET k == c[1] t == s.t[k] IN
         IF t >= 256
         THEN LET avail == TokLen(t) - c[2] m == Min2(avail, n) IN
              TakeRuns(s, IF m = avail THEN <<k + 1, 0>> ELSE <<k, c[2] + m>>, n - m, acc \o Run(TokByte(t), m))
         ELSE LET q == Least({x \in s.r : x > k} \cup {Len(s.t) + 1})
                  m == Min2(q - k, n)
              IN TakeRuns(s, <<k + m, 0>>, n - m, acc \o SubSeq(s.t, k, k + m - 1))
Take(s, c, n) ==
    LET hi == c[1] + n - 1 IN
    IF c[2] = 0 /\ hi <= Len(s.t) /\ (s.r = {} \/ \A q \in s.r : q < c[1] \/ q > hi)
    THEN [ok |-> TRUE, v |-> [t |-> SubSeq(s.t, c[1], hi), r |-> {}], c |-> <<hi + 1, 0>>]
    ELSE TakeRuns(s, c, n, <<>>)

-----------------------------------------------------------------------------
(* varints *)
RECURSIVE TrimZ(_)
TrimZ(l) == IF l # <<>> /\ l[Len(l)] = 0 THEN TrimZ(SubSeq(l, 1, Len(l) - 1)) ELSE l

RECURSIVE VarintFrom(_, _, _)
VarintFrom(s, c, acc) ==
    IF AtEnd(s, c) THEN [ok |-> FALSE, v |-> <<>>, c |-> c]
    ELSE LET b == ByteAt(s, c) IN
         IF b < 128
         THEN [ok |-> Len(acc) < 9 \/ (Len(acc) = 9 /\ b <= 1), v |-> TrimZ(Append(acc, b)), c |-> Next1(s, c)]
         ELSE IF Len(acc) >= 9 THEN [ok |-> FALSE, v |-> <<>>, c |-> c]
         ELSE VarintFrom(s, Next1(s, c), Append(acc, b - 128))
Varint(s, c) == VarintFrom(s, c, <<>>)

Small(l) == Len(l) <= 4     \* fits TLC's integers
RECURSIVE LimbsToInt(_)
LimbsToInt(l) == IF l = <<>> THEN 0 ELSE Head(l) + 128 * LimbsToInt(Tail(l))
RECURSIVE IntToLimbs(_)
IntToLimbs(n) == IF n = 0 THEN <<>> ELSE <<n % 128>> \o IntToLimbs(n \div 128)

(* zigzag: u even is u/2, u odd is -(u+1)/2 *)
RECURSIVE HalfFrom(_, _)
HalfFrom(l, k) ==
    IF k > Len(l) THEN <<>>
    ELSE <<(l[k] \div 2) + (IF k < Len(l) /\ l[k + 1] % 2 = 1 THEN 64 ELSE 0)>> \o HalfFrom(l, k + 1)
Half(l) == TrimZ(HalfFrom(l, 1))
RECURSIVE IncFrom(_, _)
IncFrom(l, k) ==
    IF k > Len(l) THEN Append(l, 1)
    ELSE IF l[k] < 127 THEN [l EXCEPT ![k] = @ + 1]
    ELSE IncFrom([l EXCEPT ![k] = 0], k + 1)
Inc(l) == IncFrom(l, 1)
Zigzag(u) == IF u = <<>> \/ u[1] % 2 = 0 THEN [neg |-> FALSE, m |-> Half(u)]
             ELSE [neg |-> TRUE, m |-> Inc(Half(u))]

-----------------------------------------------------------------------------
(* protobuf fields: a sequence of [f, w, v]; v is limbs for varints and a  *)
(* byte string (with its runs) otherwise.  [f |-> 0, ...] marks a malformed message.       *)
BadField(why) == [f |-> 0, w |-> 3, v |-> <<>>]

(* No message consists of equal bytes: a parser that finds field after field *)
(* in one run (m so far) reads a text as if it were fields.                  *)
RECURSIVE FieldsFrom(_, _, _, _)
FieldsFrom(s, c, acc, m) ==
    IF AtEnd(s, c) THEN acc
    ELSE IF m > 40 THEN Append(acc, BadField("text"))
    ELSE LET k == Varint(s, c) IN
    IF ~k.ok \/ ~Small(k.v) THEN Append(acc, BadField("key"))
    ELSE LET key == LimbsToInt(k.v)
             f == key \div 8
             w == key % 8
         IN IF f = 0 THEN Append(acc, BadField("field 0"))
            ELSE IF w = 0 THEN LET x == Varint(s, k.c) IN
                 IF x.ok THEN FieldsFrom(s, x.c, Append(acc, [f |-> f, w |-> w, v |-> x.v]), IF x.c[1] = c[1] THEN m + 1 ELSE 0)
                 ELSE Append(acc, BadField("varint"))
            ELSE IF w = 2 THEN LET n == Varint(s, k.c) IN
                 IF ~n.ok \/ ~Small(n.v) THEN Append(acc, BadField("length"))
                 ELSE LET x == Take(s, n.c, LimbsToInt(n.v)) IN
                      IF x.ok THEN FieldsFrom(s, x.c, Append(acc, [f |-> f, w |-> w, v |-> x.v]), IF x.c[1] = c[1] THEN m + 1 ELSE 0)
                      ELSE Append(acc, BadField("truncated"))
            ELSE IF w \in {1, 5} THEN LET x == Take(s, k.c, IF w = 1 THEN 8 ELSE 4) IN
                 IF x.ok THEN FieldsFrom(s, x.c, Append(acc, [f |-> f, w |-> w, v |-> x.v]), IF x.c[1] = c[1] THEN m + 1 ELSE 0)
                 ELSE Append(acc, BadField("truncated"))
            ELSE Append(acc, BadField("wire type"))
Fields(s) == TLCEval(FieldsFrom(s, Start, <<>>, 0))

Get(fs, f)  == SelectSeq(fs, LAMBDA x : x.f = f)
Has(fs, f)  == \E i \in 1..Len(fs) : fs[i].f = f
Val(fs, f)  == fs[CHOOSE i \in 1..Len(fs) : fs[i].f = f].v
Vals(fs, f) == LET g == Get(fs, f) IN TLCEval([i \in 1..Len(g) |-> g[i].v])
NumOr(fs, f, d) == IF ~Has(fs, f) THEN d
                   ELSE IF \E i \in 1..Len(fs) : fs[i].f = f /\ fs[i].w # 0 THEN -1
                   ELSE IF Small(Val(fs, f)) THEN LimbsToInt(Val(fs, f)) ELSE -1
BytesOr(fs, f, d) == IF Has(fs, f) THEN Val(fs, f).t ELSE d
LimbsOr(fs, f, d) == IF Has(fs, f) THEN Val(fs, f) ELSE d

(* schema: sequence of <<field, wire type, multiplicity>> with multiplicity *)
(* "1" (required), "?" (optional), "*" (repeated); no other fields.         *)
Conforms(fs, schema) ==
    /\ \A i \in 1..Len(fs) : \E j \in 1..Len(schema) : fs[i].f = schema[j][1] /\ fs[i].w = schema[j][2]
    /\ \A j \in 1..Len(schema) :
          LET n == Len(Get(fs, schema[j][1])) IN
          CASE schema[j][3] = "1" -> n = 1
            [] schema[j][3] = "?" -> n <= 1
            [] OTHER -> TRUE

Bad(why) == [k |-> "bad", why |-> why]

-----------------------------------------------------------------------------
(* Mysqlx.Datatypes.Scalar *)
ScalarTypes == [sint |-> 1, uint |-> 2, null |-> 3, octets |-> 4, double |-> 5, float |-> 6, bool |-> 7, string |-> 8]

ScalarOctets(s) ==
    LET fs == Fields(s) IN
    IF Conforms(fs, <<<<1, 2, "1">>, <<2, 0, "?">>>>)
    THEN [k |-> "oct", v |-> Val(fs, 1).t, ct |-> NumOr(fs, 2, 0)]
    ELSE Bad("octets")
ScalarString(s) ==
    LET fs == Fields(s) IN
    IF Conforms(fs, <<<<1, 2, "1">>, <<2, 0, "?">>>>)
    THEN [k |-> "str", v |-> Val(fs, 1).t, coll |-> LimbsOr(fs, 2, <<>>)]
    ELSE Bad("string")

DecScalar(s) ==
    LET fs == Fields(s)
        t  == IF fs # <<>> THEN NumOr(fs, 1, -1) ELSE -1
        only(f, w) == Conforms(fs, <<<<1, 0, "1">>, <<f, w, "1">>>>)
    IN CASE t = 3 /\ Conforms(fs, <<<<1, 0, "1">>>>) -> [k |-> "null"]
         [] t = 1 /\ only(2, 0) -> LET z == Zigzag(Val(fs, 2)) IN [k |-> "sint", neg |-> z.neg, m |-> z.m]
         [] t = 2 /\ only(3, 0) -> [k |-> "uint", m |-> Val(fs, 3)]
         [] t = 4 /\ only(5, 2) -> ScalarOctets(Val(fs, 5))
         [] t = 5 /\ only(6, 1) -> [k |-> "dbl", b |-> Val(fs, 6).t]
         [] t = 6 /\ only(7, 5) -> [k |-> "flt", b |-> Val(fs, 7).t]
         [] t = 7 /\ only(8, 0) -> [k |-> "bool", x |-> Val(fs, 8) # <<>>]
         [] t = 8 /\ only(9, 2) -> ScalarString(Val(fs, 9))
         [] OTHER -> Bad("scalar")

(* Mysqlx.Datatypes.Any; only scalars are ever sent *)
DecAny(s) ==
    LET fs == Fields(s) IN
    IF Conforms(fs, <<<<1, 0, "1">>, <<2, 2, "1">>>>) /\ NumOr(fs, 1, -1) = 1
    THEN DecScalar(Val(fs, 2))
    ELSE Bad("any")

DecAnys(l) == TLCEval([i \in 1..Len(l) |-> DecAny(l[i])])

(* Mysqlx.Expr *)
DecColumn(s) ==      \* ColumnIdentifier
    LET fs == Fields(s) IN
    IF Conforms(fs, <<<<2, 2, "1">>>>) THEN [k |-> "col", name |-> Val(fs, 2).t] ELSE Bad("column identifier")

RECURSIVE DecExpr(_)
DecParams(l) == TLCEval([i \in 1..Len(l) |-> DecExpr(l[i])])
DecOperator(s) ==
    LET fs == Fields(s) IN
    IF Conforms(fs, <<<<1, 2, "1">>, <<2, 2, "*">>>>)
    THEN [k |-> "op", name |-> Val(fs, 1).t, args |-> DecParams(Vals(fs, 2))]
    ELSE Bad("operator")
DecCall(s) ==
    LET fs == Fields(s) IN
    IF Conforms(fs, <<<<1, 2, "1">>, <<2, 2, "*">>>>)
    THEN LET id == Fields(Val(fs, 1)) IN
         IF Conforms(id, <<<<1, 2, "1">>>>)
         THEN [k |-> "fn", name |-> Val(id, 1).t, args |-> DecParams(Vals(fs, 2))]
         ELSE Bad("function identifier")
    ELSE Bad("function call")
DecExpr(s) ==
    LET fs == Fields(s)
        t  == IF fs # <<>> THEN NumOr(fs, 1, -1) ELSE -1
        only(f, w) == Conforms(fs, <<<<1, 0, "1">>, <<f, w, "1">>>>)
    IN CASE t = 1 /\ only(2, 2) -> DecColumn(Val(fs, 2))
         [] t = 2 /\ only(4, 2) -> DecScalar(Val(fs, 4))
         [] t = 3 /\ only(3, 2) -> [k |-> "var", name |-> Val(fs, 3).t]
         [] t = 4 /\ only(5, 2) -> DecCall(Val(fs, 5))
         [] t = 5 /\ only(6, 2) -> DecOperator(Val(fs, 6))
         [] t = 6 /\ only(7, 0) -> [k |-> "pos", m |-> Val(fs, 7)]
         [] OTHER -> Bad("expr")

-----------------------------------------------------------------------------
(* client messages *)
CollectionName(s) ==
    LET fs == Fields(s) IN
    IF Conforms(fs, <<<<1, 2, "1">>>>) THEN [ok |-> TRUE, v |-> Val(fs, 1).t] ELSE [ok |-> FALSE, v |-> <<>>]

DecStmt(p) ==
    LET fs == Fields(p) IN
    IF Conforms(fs, <<<<1, 2, "1">>, <<2, 2, "*">>>>)
    THEN [k |-> "stmt", stmt |-> Val(fs, 1).t, args |-> DecAnys(Vals(fs, 2))]
    ELSE Bad("StmtExecute")

DecPrepare(p) ==
    LET fs == Fields(p) IN
    IF ~Conforms(fs, <<<<1, 0, "1">>, <<2, 2, "1">>>>) THEN Bad("Prepare")
    ELSE LET one == Fields(Val(fs, 2)) IN
    IF ~(Conforms(one, <<<<1, 0, "1">>, <<6, 2, "1">>>>) /\ NumOr(one, 1, -1) = 5) THEN Bad("Prepare.OneOfMessage")
    ELSE LET st == DecStmt(Val(one, 6)) IN
         IF st.k = "bad" THEN st
         ELSE IF st.args # <<>> THEN Bad("Prepare with arguments")
         ELSE [k |-> "prep", id |-> Val(fs, 1), stmt |-> st.stmt]

DecExecute(p) ==
    LET fs == Fields(p) IN
    IF Conforms(fs, <<<<1, 0, "1">>, <<2, 2, "*">>>>)
    THEN [k |-> "exec", id |-> Val(fs, 1), args |-> DecAnys(Vals(fs, 2))]
    ELSE Bad("Execute")

DecDealloc(p) ==
    LET fs == Fields(p) IN
    IF Conforms(fs, <<<<1, 0, "1">>>>) THEN [k |-> "dealloc", id |-> Val(fs, 1)] ELSE Bad("Deallocate")

DecProjection(s) ==  \* Mysqlx.Crud.Column
    LET fs == Fields(s) IN
    IF Conforms(fs, <<<<1, 2, "1">>>>) THEN [ok |-> TRUE, v |-> Val(fs, 1).t] ELSE [ok |-> FALSE, v |-> <<>>]

DecRow(s) ==
    LET fs == Fields(s) IN
    IF Conforms(fs, <<<<1, 2, "*">>>>) THEN DecParams(Vals(fs, 1)) ELSE <<Bad("TypedRow")>>

DecInsert(p) ==
    LET fs == Fields(p) IN
    IF ~(Conforms(fs, <<<<1, 2, "1">>, <<2, 0, "1">>, <<3, 2, "*">>, <<4, 2, "*">>>>) /\ NumOr(fs, 2, -1) = 2)
    THEN Bad("Insert")
    ELSE LET t == CollectionName(Val(fs, 1))
             pr == Vals(fs, 3)
             cs == TLCEval([i \in 1..Len(pr) |-> DecProjection(pr[i])])
             rs == Vals(fs, 4)
         IN IF ~t.ok \/ \E i \in 1..Len(cs) : ~cs[i].ok THEN Bad("Insert names")
            ELSE [k |-> "ins", name |-> t.v, cols |-> TLCEval([i \in 1..Len(cs) |-> cs[i].v]),
                  rows |-> TLCEval([i \in 1..Len(rs) |-> DecRow(rs[i])])]

DecOptExpr(fs, f) == IF Has(fs, f) THEN <<DecExpr(Val(fs, f))>> ELSE <<>>

DecSet(s) ==   \* UpdateOperation SET
    LET fs == Fields(s) IN
    IF ~(Conforms(fs, <<<<1, 2, "1">>, <<2, 0, "1">>, <<3, 2, "1">>>>) /\ NumOr(fs, 2, -1) = 1)
    THEN [col |-> Bad("UpdateOperation"), val |-> Bad("UpdateOperation")]
    ELSE [col |-> DecColumn(Val(fs, 1)), val |-> DecExpr(Val(fs, 3))]

DecSets(l) == TLCEval([i \in 1..Len(l) |-> DecSet(l[i])])

DecUpdate(p) ==
    LET fs == Fields(p) IN
    IF ~(Conforms(fs, <<<<2, 2, "1">>, <<3, 0, "1">>, <<4, 2, "?">>, <<7, 2, "*">>>>) /\ NumOr(fs, 3, -1) = 2)
    THEN Bad("Update")
    ELSE LET t == CollectionName(Val(fs, 2)) IN
         IF ~t.ok THEN Bad("Update name")
         ELSE [k |-> "upd", name |-> t.v, crit |-> DecOptExpr(fs, 4),
               set |-> DecSets(Vals(fs, 7))]

DecDelete(p) ==   \* the data model may be left out
    LET fs == Fields(p) IN
    IF ~(Conforms(fs, <<<<1, 2, "1">>, <<2, 0, "?">>, <<3, 2, "?">>>>) /\ NumOr(fs, 2, 2) = 2)
    THEN Bad("Delete")
    ELSE LET t == CollectionName(Val(fs, 1)) IN
         IF ~t.ok THEN Bad("Delete name")
         ELSE [k |-> "del", name |-> t.v, crit |-> DecOptExpr(fs, 3)]

DecCond(s) ==
    LET fs == Fields(s) IN
    IF Conforms(fs, <<<<1, 0, "1">>, <<2, 2, "?">>, <<3, 0, "?">>>>) /\ NumOr(fs, 3, 0) = 0
    THEN [key |-> NumOr(fs, 1, -1), v |-> BytesOr(fs, 2, <<>>)]
    ELSE [key |-> -1, v |-> <<>>]
DecExpectOpen(p) ==
    LET fs == Fields(p) IN
    IF Conforms(fs, <<<<1, 0, "?">>, <<2, 2, "*">>>>)
    THEN [k |-> "eopen", op |-> NumOr(fs, 1, 0), conds |-> LET l == Vals(fs, 2) IN TLCEval([i \in 1..Len(l) |-> DecCond(l[i])])]
    ELSE Bad("Expect.Open")

DecAuthStart(p) ==
    LET fs == Fields(p) IN
    IF Conforms(fs, <<<<1, 2, "1">>, <<2, 2, "?">>>>)
    THEN [k |-> "astart", mech |-> Val(fs, 1).t, data |-> BytesOr(fs, 2, <<>>)] ELSE Bad("AuthenticateStart")
DecAuthContinue(p) ==
    LET fs == Fields(p) IN
    IF Conforms(fs, <<<<1, 2, "1">>>>) THEN [k |-> "acont", data |-> Val(fs, 1).t] ELSE Bad("AuthenticateContinue")

DecCapSet(p) ==
    LET fs == Fields(p) IN
    IF ~Conforms(fs, <<<<1, 2, "1">>>>) THEN Bad("CapabilitiesSet")
    ELSE LET cs == Fields(Val(fs, 1)) IN
    IF ~Conforms(cs, <<<<1, 2, "*">>>>) THEN Bad("Capabilities")
    ELSE LET one(s) == LET f == Fields(s) IN
                       IF Conforms(f, <<<<1, 2, "1">>, <<2, 2, "1">>>>)
                       THEN [name |-> Val(f, 1).t, val |-> DecAny(Val(f, 2))]
                       ELSE [name |-> <<>>, val |-> Bad("Capability")]
         IN [k |-> "cap", caps |-> [i \in 1..Len(Vals(cs, 1)) |-> one(Vals(cs, 1)[i])]]

DecReset(p) ==
    LET fs == Fields(p) IN
    IF Conforms(fs, <<<<1, 0, "?">>>>) THEN [k |-> "reset", keep |-> NumOr(fs, 1, 0) # 0] ELSE Bad("Reset")

DecClient(type, p) ==
    CASE type = 12 -> DecStmt(p)
      [] type = 40 -> DecPrepare(p)
      [] type = 41 -> DecExecute(p)
      [] type = 42 -> DecDealloc(p)
      [] type = 18 -> DecInsert(p)
      [] type = 19 -> DecUpdate(p)
      [] type = 20 -> DecDelete(p)
      [] type = 24 -> DecExpectOpen(p)
      [] type = 25 -> IF p.t = <<>> THEN [k |-> "eclose"] ELSE Bad("Expect.Close")
      [] type = 2  -> DecCapSet(p)
      [] type = 4  -> DecAuthStart(p)
      [] type = 5  -> DecAuthContinue(p)
      [] type = 6  -> DecReset(p)
      [] OTHER -> Bad("message type")

(* frames: 4 byte little endian length (of type + payload), type, payload *)
RECURSIVE FramesFrom(_, _, _)
FramesFrom(s, c, acc) ==
    IF AtEnd(s, c) THEN acc
    ELSE LET h == Take(s, c, 5) IN
    IF ~h.ok THEN Append(acc, Bad("truncated header"))
    ELSE LET b == Expand(h.v.t)
             n == b[1] + 256 * b[2] + 65536 * b[3]
         IN IF b[4] # 0 \/ n = 0 THEN Append(acc, Bad("frame length"))
            ELSE LET p == Take(s, h.c, n - 1) IN
                 IF ~p.ok THEN Append(acc, Bad("truncated frame"))
                 ELSE FramesFrom(s, p.c, Append(acc, TLCEval(DecClient(b[5], p.v))))
Frames(t) == TLCEval(FramesFrom(TLCEval(Str0(t)), Start, <<>>))
=============================================================================
