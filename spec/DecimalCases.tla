---------------------------- MODULE DecimalCases ----------------------------
(* Packed decimals: every digit count, scale and sign; all numbers of few   *)
(* digits; digit patterns around the limbs of a 256 bit integer.            *)
EXTENDS Decimal, Json, IOUtils, SequencesExt, FiniteSets

CONSTANTS What, Deep

Pack(scale, d, sign, pad) ==
    LET n == d \o <<sign>> \o (IF Len(d) % 2 = 0 THEN <<pad>> ELSE <<>>)
    IN <<scale>> \o [i \in 1..(Len(n) \div 2) |-> 16 * n[2 * i - 1] + n[2 * i]]
Ev(b, cap, len) == [d |-> b, cap |-> cap, len |-> len]
Rep(x, n) == [i \in 1..n |-> x]
Patterns(n) == {Rep(9, n), Rep(0, n), <<1>> \o Rep(0, n - 1), Rep(0, n - 1) \o <<1>>, [i \in 1..n |-> i % 10], [i \in 1..n |-> (7 * i * i + 3) % 10], <<8>> \o Rep(3, n - 1)}
Signs == 10..15
Scales(n) == {0, 1, 2, n - 1, n, n + 1, n + 7, 30} \cup (IF Deep THEN (0..30) \cup {31, 64, 65, 77, 80, 100, 200, 255} ELSE {64, 77, 78, 100, 127, 128, 200, 255})

Trace(l) == [ev |-> l]
Many(S) == {Trace(<<e>>) : e \in S}

Shapes == UNION {{Trace(<<Ev(Pack(s, d, sg, 0), 0, 0), Ev(Pack(s, d, sg, 5), 64, 0), Ev(Pack(s, d, sg, 15), 40, 7)>>) : d \in IF Deep THEN Patterns(n) ELSE {Rep(9, n), Rep(0, n - 1) \o <<1>>, [i \in 1..n |-> (7 * i * i + 3) % 10]}, s \in {x \in Scales(n) : x >= 0}, sg \in IF Deep THEN Signs ELSE IF n < 4 \/ n \in {17, 38, 39, 64, 65} THEN Signs ELSE {12, 13}} : n \in 1..65}
Small == {Trace([k \in 1..16 |-> LET v == 16 * i + k - 1 IN
             Ev(Pack(s, <<(v \div 1000) % 10, (v \div 100) % 10, (v \div 10) % 10, v % 10>>, sg, 0), 32, 0)]) : i \in 0..624, s \in {0, 2, 4, 6}, sg \in {12, 13}}
         \cup UNION {{Trace([k \in 1..10 |-> Ev(Pack(s, <<a, b, k - 1>>, sg, 0), 0, 0)]) : a \in 0..9, b \in 0..9, s \in 0..5, sg \in {12, 13}}}
         \cup UNION {{Trace([k \in 1..10 |-> Ev(Pack(s, <<k - 1>>, sg, 0), 1, 1)]) : s \in 0..5, sg \in Signs}}
(* powers of two and their neighbours, in decimal *)
RECURSIVE Dbl(_, _, _), Pows(_, _)
Dbl(d, k, c) == IF k > Len(d) THEN (IF c = 0 THEN d ELSE Append(d, c)) ELSE LET x == 2 * d[k] + c IN Dbl([d EXCEPT ![k] = x % 10], k + 1, x \div 10)
Pows(d, n) == IF n = 0 THEN {d} ELSE {d} \cup Pows(Dbl(d, 1, 0), n - 1)
RECURSIVE Dec1(_, _)
Dec1(d, k) == IF d[k] > 0 THEN [d EXCEPT ![k] = @ - 1] ELSE Dec1([d EXCEPT ![k] = 9], k + 1)
Around == {Rev(p) : p \in Pows(<<1>>, 215)} \cup {Rev(Dec1(p, 1)) : p \in Pows(<<1>>, 215)}
PatternCases == {Trace(<<Ev(Pack(s, d, sg, 0), c, 0)>>) : d \in Around, s \in {0, 5} \cup (IF Deep THEN 1..30 ELSE {}), sg \in {12, 13}, c \in {0, 32}}

Family == CASE What = "shapes" -> Shapes [] What = "small" -> Small [] OTHER -> PatternCases
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Family))
ASSUME PrintT(<<"CASES", Cardinality(Family)>>)
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
