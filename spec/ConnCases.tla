------------------------------ MODULE ConnCases ------------------------------
(* Systematic exchanges: message sizes around the reader's buffer sizes,    *)
(* fragmentations, a fault at every byte, deadlines over successive Sends.  *)
EXTENDS Conn, Json, IOUtils, SequencesExt, FiniteSets

CONSTANTS What, Deep

Msg(t, n) == [t |-> t, n |-> n]
ErrM(sev, code, state, text) == [t |-> 1, sev |-> sev, code |-> code, state |-> state, msg |-> text]
Txt(n) == IF n = 0 THEN "" ELSE "#" \o ToString(n)     \* the driver expands #n to a text of n bytes
Ok == Msg(0, 0)
Done == Msg(17, 0)
Send(msgs, dl, srv, frag) == [msgs |-> msgs, dl |-> dl, srv |-> srv, frag |-> frag, wfail |-> -1]
M(n) == [i \in 1..n |-> [ct |-> 12, n |-> i]]
Trace(l) == [ev |-> l]

Frags == {<<1>>, <<1000000>>, <<4096>>, <<5>>, <<4095, 2>>, <<3, 4096, 9>>}
Sizes == (4080..4106) \cup {0, 1, 2, 126, 127, 128, 255, 256, 257, 2047, 8183, 8187, 8188, 8191, 8192, 8193, 65534, 65535, 65536, 70000}
         \cup (IF Deep THEN (4000..4200) \cup (8180..8200) \cup {200000, 1000000} ELSE {})
Kinds == {0, 11, 12, 13, 14, 17}

(* notices as servers send them: a warning of each level, a variable or the state of the session or the group changed *)
Notice(ty, scope, payload) == [t |-> 11, raw |-> <<8, ty, 16, scope, 26, Len(payload)>> \o payload]
Warning(level) == <<8, level, 16, 210, 8, 26, 3, 100, 117, 112>>
Notices == {Notice(1, s, Warning(l)) : s \in 1..2, l \in 1..3} \cup {Notice(2, 2, <<10, 1, 97, 18, 4, 8, 1, 16, 2>>)}
           \cup {Notice(3, 2, <<8, p, 18, 4, 8, 2, 24, 7>>) : p \in 1..12} \cup {Notice(4, 1, <<8, 1, 18, 1, 97>>), Notice(5, 1, <<>>), [t |-> 11, raw |-> <<8, 1>>], [t |-> 11, raw |-> <<>>], Notice(99, 1, <<1>>)}
Results == <<<<Msg(12, 6), Msg(12, 7), Msg(13, 20), Msg(13, 4), Msg(14, 0)>>, <<Msg(12, 6), Msg(13, 9), Msg(16, 0), Msg(12, 3), Msg(13, 2), Msg(14, 0)>>,
             <<Msg(12, 6), Msg(13, 9), Msg(18, 0), Msg(12, 3), Msg(13, 2), Msg(14, 0)>>, <<Msg(12, 6), Msg(13, 9), Msg(15, 0)>>, <<Msg(12, 0), Msg(14, 0)>>, <<Msg(15, 3)>>, <<Msg(16, 3)>>, <<Msg(18, 3)>>>>
Cts == {12, 18, 19, 20, 24, 25, 40, 41, 42}
NoSev == [t |-> 1, sev |-> 0, code |-> 1062, state |-> "23000", msg |-> "dup", nosev |-> TRUE]
Mixes == {<<Ok, Ok, Done>>, <<Done, ErrM(0, 1062, "23000", "dup"), Ok>>, <<ErrM(0, 1, "HY000", "a"), ErrM(0, 2, "HY000", "b"), ErrM(0, 3, "HY000", "c")>>, <<Done, ErrM(1, 1, "HY000", "a")>>, <<NoSev, Done, NoSev>>}

(* one message of each size and kind among others, then a second exchange *)
SizeCases ==
    {Trace(<<Send(M(2), 0, <<Msg(11, 3)>> \o (IF k \in Accepted THEN <<Msg(k, n)>> ELSE <<Msg(k, n), Done>>) \o <<ErrM(0, 1062, "23000", "dup")>>, f),
             Send(M(1), 0, <<Msg(13, 12), Ok>>, f)>>) : k \in Kinds, n \in Sizes, f \in (IF Deep THEN Frags ELSE {<<1000000>>, <<4096>>, <<3, 4096, 9>>})}
    \cup {Trace(<<Send(M(3), 0, <<Ok, ErrM(0, 1064, "42000", Txt(n)), Ok>>, f), Send(M(2), 0, <<Msg(11, 4), ErrM(0, 5000, "HY000", "x"), Done>>, f)>>) : n \in Sizes, f \in Frags}
    \cup {Trace(<<Send(M(3), 0, <<Ok, ErrM(1, 1064, "42000", Txt(n))>>, f)>>) : n \in Sizes, f \in {<<1000000>>, <<5>>}}
    (* every kind of message sent and received *)
    \cup {Trace(<<Send(<<[ct |-> a, n |-> 4], [ct |-> b, n |-> 2], [ct |-> a, n |-> 0]>>, 0, m, <<1000000>>), Send(M(1), 0, <<Ok>>, <<3>>)>>) : a \in Cts, b \in Cts, m \in Mixes}
    \cup {Trace(<<Send(<<[ct |-> a, n |-> 4], [ct |-> 12, n |-> 3]>>, 0, Results[i] \o <<w>> \o Results[j] \o <<Done>>, <<11>>), Send(M(1), 0, <<Ok>>, <<3>>)>>)
             : a \in {12, 41, 24}, i \in 1..Len(Results), j \in 1..Len(Results), w \in {Ok, Done, ErrM(0, 7, "HY000", "a")}}
    \cup {Trace(<<Send(<<[ct |-> a, n |-> 4], [ct |-> 12, n |-> 3]>>, 0, <<x, Ok, x, y, ErrM(0, 7, "HY000", "a")>>, <<1000000>>), Send(M(1), 0, <<y, Ok>>, <<3>>)>>) : a \in {12, 18}, x \in Notices, y \in Notices}
    (* messages that only packages below the builder make *)
    \cup {Trace(<<Send(<<[ct |-> 12, n |-> 4], [ct |-> a, n |-> 2], [ct |-> 12, n |-> 0], [ct |-> a, n |-> 0]>>, 0, <<Done>> \o p \o <<Msg(k, n)>> \o p \o <<ErrM(0, 7, "HY000", "a")>> \o p \o <<Msg(k, 0)>>, f), Send(M(1), 0, p \o <<Ok>>, <<3>>)>>)
              : a \in {2, 3, 6, 7}, k \in {0, 17}, n \in {0, 1, 3, 40, 5000}, p \in {<<>>, <<Msg(11, 4)>>, <<Msg(13, 5000)>>}, f \in {<<5>>, <<1000000>>}}
    (* two large messages of different sizes, which may share a buffer *)
    \cup {Trace(<<Send(M(2), 0, <<Msg(13, a), Msg(13, b), ErrM(0, 7, "ABCDE", Txt(c)), Msg(13, c), Ok>>, f)>>)
             : a \in {10, 4096, 5000, 9000}, b \in {4100, 5000, 70000}, c \in {3, 4200, 6000}, f \in {<<1>>, <<1000000>>, <<4096>>}}
    (* sizes of the client's messages, which are walked to count the answers *)
    \cup {Trace(<<Send(<<[ct |-> 12, n |-> a], [ct |-> 41, n |-> b], [ct |-> 25, n |-> 0]>>, 0, <<Done, ErrM(0, 9, "HY000", "e"), Ok>>, <<1000000>>)>>)
             : a \in {0, 1, 250, 254, 255, 256, 65534, 65535, 65536, 70000}, b \in {0, 255, 65536}}
    (* large units of work *)
    \cup {Trace(<<Send([i \in 1..k |-> [ct |-> 12, n |-> n]], 0, [i \in 1..k |-> IF i = 2 THEN ErrM(0, 9, "HY000", "e") ELSE Done], <<1000000>>), Send(M(1), 0, <<Ok>>, <<1000000>>)>>)
             : k \in {1, 2, 5}, n \in {4090, 8190, 16380, 32763, 131071, 1048576} \cup (IF Deep THEN {5000000, 16777210, 16777216} ELSE {3000000})}
    (* many messages *)
    \cup {Trace(<<Send(M(n), 0, [i \in 1..n |-> IF i % 3 = 0 THEN ErrM(0, i, "HY000", "e") ELSE Ok], f), Send(M(1), 0, <<Ok>>, f)>>)
             : n \in {0, 1, 15, 16, 17, 33, 100} \cup (IF Deep THEN {1000, 3000} ELSE {260}), f \in {<<1>>, <<1000000>>, <<4096>>}}
    \cup {Trace(<<Send([i \in 1..n |-> [ct |-> 12, n |-> i % 7]], 0, [i \in 1..n |-> IF i % 100 = 0 THEN ErrM(0, i, "HY000", "e") ELSE Ok], <<1000000>>), Send(M(1), 0, <<Ok>>, <<9>>)>>) : n \in {5000}}
    (* many Sends on one connection *)
    \cup {Trace([i \in 1..n |-> Send(M(1 + (i % 3)), 0, <<Msg(11, i % 50)>> \o [j \in 1..(1 + (i % 3)) |-> IF (i + j) % 4 = 0 THEN ErrM(0, 1000 + i, "HY000", Txt(i)) ELSE Ok], <<1 + (i % 60)>>)]) : n \in {20, 300}}
    (* with notices after the last answer, part of which have been received with it *)
    \cup {Trace([i \in 1..n |-> Send(M(1 + (i % 3)), 0, [j \in 1..(1 + (i % 3)) |-> IF (i + j) % 4 = 0 THEN ErrM(0, 1000 + i, "HY000", Txt(i)) ELSE Ok] \o <<Msg(11, 40 + (i % 7))>> \o (IF i % 4 = 0 THEN <<Msg(11, 3)>> ELSE <<>>), f)])
             : n \in {20, 300}, f \in {<<16>>, <<23>>, <<1000000>>, <<1>>, <<4096>>}}
    (* messages of the server and of the client that are very large *)
    \cup {Trace(<<Send(M(2), 0, (IF k \in Accepted THEN <<Msg(k, n)>> ELSE <<Msg(k, n), Done>>) \o <<ErrM(0, 1062, "23000", "dup")>>, <<100000000>>), Send(M(1), 0, <<Msg(13, 12), Ok>>, <<9>>)>>)
             : k \in {0, 11, 13}, n \in {1048576, 16777214, 16777216, 17000000}}
    \cup {Trace(<<Send(M(2), 0, <<ErrM(0, 1064, "42000", Txt(n)), Ok>>, <<100000000>>)>>) : n \in {1048576, 16777216}}
    \cup {Trace(<<Send(<<[ct |-> 12, n |-> 3], [ct |-> 41, n |-> n], [ct |-> 12, n |-> 1]>>, 0, <<Done, ErrM(0, 9, "HY000", "e"), Ok>>, <<1000000>>)>>) : n \in {16777214, 16777215, 16777216}}
    (* error fields *)
    \cup {Trace(<<Send(M(1), 0, <<ErrM(0, c, s, t)>>, <<2>>)>>) : c \in {0, 1, 127, 128, 1045, 65535, 65536, 2147483647}, s \in {"", "HY000", "4", "42S022X"}, t \in {"", "t", "100%", "a: %s %d", "Zeile\n2"}}
    \cup {Trace(<<Send(M(2), 0, <<ErrM(0, c, s, t), ErrM(0, c, s, t)>>, <<1000000>>), Send(M(1), 0, <<ErrM(1, c, s, t)>>, <<7>>)>>) : c \in {1, 1062, 1213, 5000, 70000}, s \in {"HY000", " HY00 ", "hy000", "00000", "40001"},
              t \in {" t", "t ", "t\n", "\nt", "\tt\t", " ", "\n", ".", "t.", "Error: t", "ERROR 1062 (23000): Duplicate entry 'a' for key 'b'", "'t'", "\"t\"", "[HY000] t", "TTT", "ttt", "t  t", "ünïcödé", "null", "<nil>", "t: t: t"}}

(* a fault after every byte *)
Stream == <<Msg(11, 7), Ok, Msg(12, 5), Msg(13, 11), Msg(14, 0), Done, ErrM(0, 1062, "23000", "dup"), Msg(17, 2)>>
Widths == <<12, 5, 30, 16, 5, 5, 40, 7>>     \* at least as many bytes as the message has
CutAt(l, i, m) == SubSeq(l, 1, i - 1) \o <<m>> \o SubSeq(l, i, Len(l))
Rep1(x, n) == [i \in 1..n |-> x]
CutCases ==
    UNION {{Trace(<<Send(M(4), 0, CutAt(Stream, i, [t |-> -3, k |-> k, off |-> o]), f)>>)
              : o \in 0..(Widths[i] - 1), k \in {"eof", "rst", "eofn"}, f \in {<<1>>, <<1000000>>}} : i \in 1..Len(Stream)}
    \cup UNION {{Trace(<<Send(M(4), d, CutAt(Stream, i, [t |-> -2, time |-> 5, off |-> o]), f), Send(M(1), 0, <<Ok>>, f)>>)
              : o \in 0..(Widths[i] - 1), d \in {0, 3, 9}, f \in {<<1000000>>}} : i \in 1..Len(Stream)}
    (* inside a large message *)
    \cup {Trace(<<Send(M(1), 0, <<Msg(13, n), [t |-> -3, k |-> k, off |-> o], Msg(13, m), Ok>>, f)>>)
              : n \in {10, 5000}, m \in {4000, 4096, 9000}, o \in {0, 1, 4, 5, 6, 100, 3999}, k \in {"eof", "rst", "eofn"}, f \in {<<1000000>>, <<777>>}}
    \cup {Trace(<<Send(M(1), 0, <<Msg(11, 4), [t |-> -3, k |-> k, off |-> o], Msg(a, m)>>, f)>>)
              : a \in {0, 17, 12, 11}, m \in {100, 4091, 4096, 9000}, o \in {0, 1, 4, 5, 6, 99, 4000, 4095, 8999}, k \in {"eof", "rst", "eofn"}, f \in {<<1000000>>, <<777>>}}
    \cup {Trace(<<Send(M(j), 0, pre \o <<[t |-> -3, k |-> k, off |-> o], Msg(a, m)>>, f)>>)
              : j \in 2..5, pre \in {Rep1(Ok, 1), Rep1(Done, 2), <<Ok, ErrM(0, 3, "HY000", "e")>>, <<Done, Msg(11, 4), Ok, Ok>>}, a \in {0, 13}, m \in {4091, 4096, 4097, 9000}, o \in {0, 3, 5, 100, 4095, 8999},
                k \in {"eof", "rst", "eofn"}, f \in {<<1000000>>}}
    \cup {Trace(<<Send(M(j + 1), 0, Rep1(Ok, j) \o <<[t |-> -3, k |-> "eof", off |-> o], ErrM(0, 1, "HY000", Txt(n))>>, <<1000000>>)>>)
              : j \in {1, 2, 15, 16, 17}, n \in {100, 5000}, o \in {0, 3, 5, 9, 90}}
    \cup {Trace(<<Send(M(1), 0, <<[t |-> -3, k |-> k, off |-> o], ErrM(0, 1, "HY000", Txt(n))>>, <<1000000>>)>>)
              : n \in {100, 5000}, o \in {0, 3, 5, 9, 90}, k \in {"eof", "rst"}}
    (* protocol violations, first, in the middle and last *)
    \cup {Trace(<<Send(M(3), 0, SubSeq(<<Ok, Done, Ok>>, 1, i) \o <<Msg(11, 3), b>>, f)>>)
              : i \in 0..2, f \in {<<1>>, <<1000000>>},
                b \in {[t |-> -1], Msg(3, 0), Msg(3, 20), Msg(3, 5000)} \cup {[t |-> 1, raw |-> x] : x \in {<<>>, <<8>>, <<8, 255>>, <<16, 1>>, <<26, 200, 1, 65>>, <<26, 1, 65, 34, 1, 65>>}}}
    (* large units of work and all that was said about writing *)
    \cup {Trace(<<Send(<<[ct |-> 12, n |-> n], [ct |-> 12, n |-> 3]>>, d, <<Done, Ok>>, <<1000000>>)>>)
              : n \in {4090, 32763, 70000, 131071, 1048576, 4000000}, d \in {0, 5}}
    \cup {Trace(<<[Send(<<[ct |-> 12, n |-> n], [ct |-> 12, n |-> 3]>>, 0, <<Done, Ok>>, <<1000000>>) EXCEPT !.wfail = w]>>)
              : n \in {5000, 70000, 1048576}, w \in {0, 1, 4096, 5001, 65536, 70000}}
    (* the write fails, after none, some or nearly all of its bytes *)
    \cup {Trace(<<[Send(M(2), d, <<Ok, Ok>>, <<1>>) EXCEPT !.wfail = w]>>) : w \in {0, 1, 5, 12}, d \in {0, 5}}
    \cup {Trace(<<Send(M(1), 0, <<Ok>>, <<1>>), [Send(M(2), 0, <<Ok, Ok>>, <<1>>) EXCEPT !.wfail = w]>>) : w \in {0, 1, 5, 12}}

(* deadlines: exchanges with and without, answers late by any amount *)
Late(t, l) == <<[t |-> -2, time |-> t, off |-> 0]>> \o l
DeadlineCases ==
    {Trace(<<Send(M(1), a, <<Ok>>, <<9>>), Send(M(1), b, Late(t, <<Ok>>), <<9>>), Send(M(2), c, Late(t + u, <<ErrM(0, 3, "HY000", "e"), Msg(11, 4), Ok>>), <<9>>)>>)
        : a \in {0, 2, 4, 6}, b \in {0, 2, 4, 6}, c \in {0, 2, 4, 6, 9}, t \in {1, 3, 5}, u \in {0, 2, 3}}
    (* after many others *)
    \cup UNION {{Trace([i \in 1..(n + 1) |-> Send(M(1), IF i > n THEN 6 * i + 1 ELSE IF i % 2 = k THEN 6 * i + 4 ELSE 0, Late(6 * i + 3, <<Ok>>), <<9>>)]),
                  Trace([i \in 1..n |-> Send(M(1), IF i % j = k THEN 6 * i + 4 ELSE 0, Late(6 * i + 3, <<Ok>>), <<9>>)])} : n \in (1..70) \cup {100, 127, 128, 255, 256}, k \in 0..1, j \in 2..3}
    (* large units of work, many messages, large answers, and late in the middle of them *)
    \cup {Trace(<<Send(<<[ct |-> ct, n |-> n], [ct |-> 12, n |-> 3]>>, a, Late(t, <<Done>>) \o Late(t + u, <<Ok>>), <<1000000>>), Send(M(1), b, Late(6, <<Ok>>), <<9>>)>>)
        : ct \in {12, 18}, n \in {5000, 40000, 65531, 70000, 1048576}, a \in {0, 2, 4, 6}, b \in {0, 5, 9}, t \in {1, 3}, u \in {0, 2}}
    \cup {Trace(<<Send(M(j), a, Rep1(Ok, j - 1) \o Late(t, <<Msg(13, n), Ok>>), <<1000000>>), Send(M(1), b, Late(6, <<Ok>>), <<9>>)>>)
        : j \in {1, 2, 17, 40, 300}, n \in {10, 5000, 70000}, a \in {0, 2, 4}, b \in {0, 5, 9}, t \in {1, 3}}
    \cup {Trace(<<Send(M(2), a, <<Ok, [t |-> -2, time |-> t, off |-> o], Msg(13, n), Ok>>, <<1000000>>), Send(M(1), b, Late(6, <<Ok>>), <<9>>)>>)
        : o \in {1, 5, 6, 4000}, n \in {4096, 5000, 70000}, a \in {0, 2, 4}, b \in {0, 5, 9}, t \in {1, 3}}

(* pairs of connections used at the same time *)
BigErr(n, c) == ErrM(0, c, "HY000", Txt(n))
Streams ==
    <<<<Ok>>, <<Done, BigErr(20, 1062)>>, <<BigErr(5000, 7)>>, <<BigErr(4500, 8), Ok>>, <<Msg(13, 5000), BigErr(4200, 9)>>, <<Msg(12, 6), Msg(13, 9000), Done>>,
      <<BigErr(30, 1064), Msg(11, 4), BigErr(40, 1065)>>, <<ErrM(1, 1045, "28000", Txt(4300))>>, <<Msg(3, 20)>>, <<[t |-> -3, k |-> "eof", off |-> 3], Ok>>, <<Msg(12, 4500), Msg(14, 0), BigErr(6000, 10)>>>>
Need(srv) == Cardinality({i \in 1..Len(srv) : srv[i].t \in {0, 1, 17}}) + (IF srv[Len(srv)].t = 3 THEN 1 ELSE 0)
Twin(srv) == Trace(<<Send(M(Need(srv)), 0, srv, <<4096>>)>>)
TwinSeq == LET n == Len(Streams) IN
    [i \in 1..(2 * n * n) |-> LET p == (i + 1) \div 2 IN Twin(IF i % 2 = 1 THEN Streams[1 + ((p - 1) \div n)] ELSE Streams[1 + ((p - 1) % n)])]

(* a trace ends with the first exchange that fails *)
RECURSIVE Prefix(_, _)
Prefix(l, k) == IF k > Len(l) THEN l
                ELSE IF Exchange(Len(l[k].msgs), l[k].dl, l[k].srv).err # "" THEN SubSeq(l, 1, k)
                ELSE Prefix(l, k + 1)

Family == LET F == CASE What = "sizes" -> SizeCases [] What = "cuts" -> CutCases [] OTHER -> DeadlineCases
          IN {Trace(Prefix(x.ev, 1)) : x \in F}

ASSUME ndJsonSerialize(IOEnv.OUT, IF What = "twins" THEN TwinSeq ELSE SetToSeq(Family))
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
