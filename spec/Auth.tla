-------------------------------- MODULE Auth --------------------------------
(***************************************************************************)
(* The authentication messages of each mechanism.  The hash functions are  *)
(* uninterpreted: a recorded execution carries a table of hashes, computed *)
(* by an independent implementation, in which the specification looks up   *)
(* exactly the inputs it needs.  How they are combined is specified here.  *)
(***************************************************************************)
EXTENDS Wire

(* hash of a byte string (tokens), as plain bytes; <<>> if it is not there *)
Hash(table, alg, in) ==
    LET rows == {i \in 1..Len(table) : table[i].alg = alg /\ table[i].in = in}
    IN IF rows = {} THEN <<>> ELSE table[CHOOSE i \in rows : TRUE].out

(* concatenation of byte strings, back in token form *)
RECURSIVE SufAt(_, _), PreAt(_, _)
SufAt(a, i) == IF i > 1 /\ TokByte(a[i - 1]) = TokByte(a[Len(a)]) THEN SufAt(a, i - 1) ELSE i
PreAt(b, j) == IF j < Len(b) /\ TokByte(b[j + 1]) = TokByte(b[1]) THEN PreAt(b, j + 1) ELSE j
Join(a, b) ==
    IF a = <<>> THEN b ELSE IF b = <<>> THEN a
    ELSE IF TokByte(a[Len(a)]) # TokByte(b[1]) THEN a \o b
    ELSE LET i == SufAt(a, Len(a)) j == PreAt(b, 1) IN
         SubSeq(a, 1, i - 1)
         \o Run(TokByte(b[1]), SumLen(SubSeq(a, i, Len(a)), 1) + SumLen(SubSeq(b, 1, j), 1))
         \o SubSeq(b, j + 1, Len(b))
Cat(a, b) == TLCEval(Join(TLCEval(a), TLCEval(b)))

RECURSIVE XorBits(_, _, _)
XorBits(a, b, w) == IF w = 0 THEN 0 ELSE ((a + b) % 2) + 2 * XorBits(a \div 2, b \div 2, w - 1)
Xor(a, b) == [i \in 1..Len(a) |-> XorBits(a[i], b[i], 8)]

HexUpper(n) == IF n < 10 THEN 48 + n ELSE 55 + n
Hex(b) == [i \in 1..(2 * Len(b)) |-> LET x == b[(i + 1) \div 2] IN HexUpper(IF i % 2 = 1 THEN x \div 16 ELSE x % 16)]
Upper(s) == [i \in 1..Len(s) |-> IF s[i] \in 97..102 THEN s[i] - 32 ELSE s[i]]

Account(c) == Cat(Cat(c.db, <<0>>), Cat(c.user, <<0>>))

(* what the last part of the authentication data has to be *)
Proof(c, chal, table) ==
    IF c.mech = "MYSQL41"
    THEN IF c.pw = <<>> THEN <<>>
         ELSE LET h1 == Hash(table, "sha1", c.pw)
                  h2 == Hash(table, "sha1", Canon(h1))
                  h3 == Hash(table, "sha1", Cat(chal, Canon(h2)))
              IN <<42>> \o Hex(Xor(h1, h3))
    ELSE LET h1 == Hash(table, "sha256", c.pw)
             h2 == Hash(table, "sha256", Canon(h1))
             h3 == Hash(table, "sha256", Cat(Canon(h2), chal))
         IN Hex(Xor(h1, h3))

IsStart(m, mech) == m.k = "astart" /\ m.mech = Canon(Ascii(mech))
(* the first message *)
StartOk(m, c) ==
    /\ IsStart(m, c.mech)
    /\ m.data = (IF c.mech = "PLAIN" THEN Cat(Account(c), c.pw) ELSE <<>>)
(* the second message *)
ContinueOk(m, c, chal, table) ==
    /\ m.k = "acont"
    /\ LET a == Account(c)
           d == TLCEval(Str0(m.data))
           x == TLCEval(Take(d, Start, ByteLen(a)))
           y == TLCEval(Take(d, x.c, ByteLen(m.data) - ByteLen(a)))
           p == TLCEval(Proof(c, chal, table))
       IN /\ x.ok
          /\ x.v.t = a
          /\ y.ok
          /\ ByteLen(y.v.t) = Len(p)
          /\ Upper(Expand(y.v.t)) = p

JudgeAuth(ev) ==
    LET s == Frames(ev.start) d == Frames(ev.cont) IN
    IF ev.pan THEN "panic"
    ELSE IF ev.err # "" THEN "authentication failed: " \o ev.err
    ELSE IF Len(s) # 1 THEN "the first write is not one message"
    ELSE IF ~StartOk(s[1], ev) THEN "the first message is wrong"
    ELSE IF ev.mech = "PLAIN" THEN (IF ev.cont # <<>> THEN "more than one message" ELSE "")
    ELSE IF Len(d) # 1 THEN "the second write is not one message"
    ELSE IF ~ContinueOk(d[1], ev, ev.chal, ev.h) THEN "the authentication data is wrong"
    ELSE ""
=============================================================================
