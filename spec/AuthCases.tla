------------------------------ MODULE AuthCases ------------------------------
(* Accounts and challenges of all lengths around every size that matters to *)
(* the encoding (length bytes, hash sizes, scratch buffer).                 *)
EXTENDS Values, Json, IOUtils, SequencesExt

CONSTANTS What, Deep

(* long ones end in a run *)
Cut(n) == IF n > 300 THEN 150 ELSE n
Mixed(n, k) == TLCEval([i \in 1..Cut(n) |-> (i * 37 + k * 101 + (i * i) \div 7) % 256] \o Run(k, n - Cut(n)))
Letters(n, k) == TLCEval([i \in 1..Cut(n) |-> 97 + ((i + k) % 26)] \o Run(64, n - Cut(n)))
Same(n, b) == Run(b, n)

Case(db, user, pw, chal, via, cap) ==
    [mech |-> What, db |-> db, user |-> user, pw |-> pw, chal |-> chal, via |-> via, cap |-> cap]
Ways == {<<"conn", 0>>} \cup {<<"direct", c>> : c \in IF Deep THEN {0, 1, 4, 5, 8, 41, 64, 90, 127, 128, 129, 200, 256, 512, 1024, 8192} ELSE {0, 60, 128, 4096}}
One(db, user, pw, chal) == [ev |-> SetToSeq({Case(db, user, pw, chal, w[1], w[2]) : w \in Ways})]

Lens == IF Deep THEN (0..130) \cup {190, 200, 254, 255, 256, 300, 1000, 3000, 16300, 16384, 17000} ELSE {0, 1, 2, 7, 16, 19, 20, 21, 22, 31, 32, 33, 41, 55, 60, 61, 62, 63, 64, 65, 83, 84, 85, 86, 100, 119, 120, 121, 123, 124, 125, 126, 127, 128, 129, 200, 255, 256, 1000, 3000, 16384, 65535, 65536, 70000, 2097152}
Few  == {0, 1, 20, 64, 127, 128, 200}
N20  == Mixed(20, 3)

Family ==
    (* each part through all lengths *)
         {One(Letters(n, 1), Letters(3, 2), Letters(6, 3), N20) : n \in Lens}
    \cup {One(Letters(4, 1), Letters(n, 2), Letters(6, 3), N20) : n \in Lens}
    \cup {One(Letters(4, 1), Letters(3, 2), Mixed(n, 3), N20) : n \in Lens}
    \cup {One(Letters(4, 1), Letters(3, 2), Letters(6, 3), Mixed(n, 5)) : n \in Lens}
    \cup {One(<<>>, <<>>, Mixed(n, 3), Mixed(n, 8)) : n \in Lens}
    \cup {One(<<>>, Letters(n, 4), <<>>, N20) : n \in Lens}
    (* all of them together *)
    \cup {One(Letters(a, 1), Letters(b, 2), Mixed(c, 4), Mixed(d, 5)) : a, b \in Few, c \in Few, d \in (IF Deep THEN Few ELSE {0, 20, 200})}
    (* whatever the texts say *)
    \cup {One(t, t, t, N20) : t \in Contents}
    \cup {One(t, Letters(3, 2), Letters(6, 3), N20) : t \in Words}
    \cup {One(Letters(4, 1), Letters(3, 2), Letters(6, 3), t) : t \in Contents}
    (* what stands first or last in a challenge, a password, a name *)
    \cup {One(Letters(4, 1), Letters(3, 2), Letters(6, 3), e) : e \in UNION {{Letters(n, k) \o <<b>>, <<b>> \o Letters(n, k), <<b>> \o Letters(n, k) \o <<b>>} : n \in {1, 7, 8, 18, 19, 20, 21, 31, 32, 40}, k \in {1}, b \in {0, 10, 32, 42, 255}}}
    \cup UNION {{One(Letters(4, 1), Letters(3, 2), e, N20), One(Letters(4, 1), e, Letters(6, 3), N20), One(e, Letters(4, 1), Letters(6, 3), N20)}
                  : e \in UNION {{Letters(n, 1) \o <<b>>, <<b>> \o Letters(n, 1)} : n \in {1, 7, 20}, b \in {0, 9, 10, 13, 32, 47, 64, 92, 255}}}
    (* contents: zero bytes, repeated bytes, bytes that are not text *)
    \cup {One(Same(3, 120), Same(n, b), Same(n, b), Same(20, b)) : n \in {1, 8, 20, 64}, b \in {0, 1, 42, 127, 128, 255}}
    \cup {One(Letters(4, k), Mixed(9, k), Mixed(12, 2 * k), Mixed(20, 3 * k)) : k \in 1..(IF Deep THEN 400 ELSE 40)}

ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Family))
ASSUME PrintT(<<"CASES", Cardinality(Family)>>)
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
