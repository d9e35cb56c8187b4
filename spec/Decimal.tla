------------------------------- MODULE Decimal -------------------------------
(***************************************************************************)
(* What a MySQL DECIMAL in X Protocol form denotes: a scale byte, packed   *)
(* decimal digits, a sign nibble (B and D are negative; A, C, E and F are  *)
(* not), and a padding nibble if that leaves half a byte.                  *)
(* A number is [neg, digits, exp]: digits (most significant first) times   *)
(* 10^exp, normalised: no leading or trailing zeros.                       *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, TLC

RECURSIVE TrimL(_), TrimR(_, _)
TrimL(d) == IF d # <<>> /\ d[1] = 0 THEN TrimL(Tail(d)) ELSE d
TrimR(d, e) == IF d # <<>> /\ d[Len(d)] = 0 THEN TrimR(SubSeq(d, 1, Len(d) - 1), e + 1) ELSE <<d, e>>
Norm(neg, d, e) ==
    LET x == TrimR(TrimL(d), e)
    IN IF x[1] = <<>> THEN [neg |-> FALSE, digits |-> <<>>, exp |-> 0]
       ELSE [neg |-> neg, digits |-> x[1], exp |-> x[2]]

NaN == [neg |-> FALSE, digits |-> <<-1>>, exp |-> 0]

(* the packed form *)
Nibbles(b) == [i \in 1..(2 * (Len(b) - 1)) |-> IF i % 2 = 1 THEN b[1 + ((i + 1) \div 2)] \div 16 ELSE b[1 + (i \div 2)] % 16]
Packed(b) ==
    LET n == Nibbles(b)
        s == CHOOSE i \in 1..Len(n) : n[i] > 9 /\ \A j \in 1..(i - 1) : n[j] <= 9
    IN Norm(n[s] \in {11, 13}, SubSeq(n, 1, s - 1), -b[1])

(* a text: [-]digits[.digits], at least one digit *)
Digit(c) == c - 48
IsDigits(s) == \A i \in 1..Len(s) : s[i] \in 48..57
Digits(s) == [i \in 1..Len(s) |-> Digit(s[i])]
Text(s) ==
    LET neg  == s # <<>> /\ s[1] = 45
        t    == IF neg THEN Tail(s) ELSE s
        dots == {i \in 1..Len(t) : t[i] = 46}
        dot  == IF dots = {} THEN Len(t) + 1 ELSE CHOOSE i \in dots : \A j \in dots : i <= j
        int  == SubSeq(t, 1, dot - 1)
        frac == SubSeq(t, dot + 1, Len(t))
    IN IF ~IsDigits(int) \/ ~IsDigits(frac) \/ int \o frac = <<>> THEN NaN
       ELSE Norm(neg, Digits(int) \o Digits(frac), -Len(frac))

(* big-endian bytes to decimal digits, least significant first while computing *)
RECURSIVE MulAdd(_, _, _)
MulAdd(d, k, c) ==
    IF k > Len(d) THEN (IF c = 0 THEN d ELSE MulAdd(Append(d, c % 10), k + 1, c \div 10))
    ELSE LET x == d[k] * 256 + c IN MulAdd([d EXCEPT ![k] = x % 10], k + 1, x \div 10)
RECURSIVE ToDec(_, _, _)
ToDec(b, k, d) == IF k > Len(b) THEN d ELSE ToDec(b, k + 1, MulAdd(d, 1, b[k]))
Rev(d) == [i \in 1..Len(d) |-> d[Len(d) + 1 - i]]
Composed(neg, coef, exp) == Norm(neg, Rev(ToDec(coef, 1, <<>>)), exp)

Judge(ev) ==
    IF ev.pan THEN "panic"
    ELSE LET want == Packed(ev.d) IN
    IF Text(ev.text) # want THEN "String denotes another number"
    ELSE IF ev.form # 0 THEN "form is not finite"
    ELSE IF Composed(ev.neg, ev.coef, ev.exp) # want THEN "Decompose denotes another number"
    ELSE ""
=============================================================================
