------------------------------ MODULE ConnEnum ------------------------------
(***************************************************************************)
(* The exchange as a transition system: client and server take turns on    *)
(* one connection.  TLC checks the contract on every behaviour within the  *)
(* bounds and writes each complete one out for replay on the real code.    *)
(*   MaxSends, MaxMsgs   exchanges, and client messages in each            *)
(*   MaxSrv              server items in each exchange                     *)
(***************************************************************************)
EXTENDS Conn, FiniteSets, Json, CSV, IOUtils

CONSTANTS MaxSends, MaxMsgs, MaxSrv, Letters

VARIABLES hist,    \* finished exchanges
          cur,     \* the exchange going on: [msgs, dl, srv] or [idle]
          r,       \* reader of the exchange going on
          asked,   \* ghost: answers the server has given, in order, in this exchange
          out      \* written out
vars == <<hist, cur, r, asked, out>>

Msg(t, n) == [t |-> t, n |-> n]
ErrM(sev, code) == [t |-> 1, sev |-> sev, code |-> code, state |-> "HY000", msg |-> "no"]
Item(x) ==
    CASE x = "ok"     -> Msg(0, 0)
      [] x = "stmt"   -> Msg(17, 0)
      [] x = "err"    -> ErrM(0, 1000 + Len(cur.srv))
      [] x = "fatal"  -> ErrM(1, 1045)
      [] x = "notice" -> Msg(11, 9)
      [] x = "row"    -> Msg(13, 30)
      [] x = "big"    -> Msg(13, 5000)
      [] x = "meta"   -> Msg(12, 6)
      [] x = "done"   -> Msg(14, 0)
      [] x = "auth"   -> Msg(3, 20)
      [] x = "short"  -> [t |-> -1]
      [] x = "baderr" -> [t |-> 1, raw |-> <<8, 255>>]
      [] x = "eof"    -> [t |-> -3, k |-> "eof", off |-> 0]
      [] x = "rst"    -> [t |-> -3, k |-> "rst", off |-> 3]
      [] x = "late"   -> [t |-> -2, time |-> 10 * Len(hist) + 5, off |-> 2]
      [] OTHER        -> [t |-> -2, time |-> 10 * Len(hist) + 2, off |-> 0]

Idle == [msgs |-> <<>>, dl |-> -1, srv |-> <<>>, frag |-> <<>>]
Frags == <<<<1>>, <<100000>>, <<4096>>, <<7, 3>>, <<5, 4095>>>>
Types == <<12, 18, 24, 20, 41>>

Init == hist = <<>> /\ cur = Idle /\ r = Reader0(0, 0) /\ asked = <<>> /\ out = FALSE

Begin == /\ cur = Idle /\ ~out /\ Len(hist) < MaxSends
         /\ Len(hist) > 0 => hist[Len(hist)].err = ""
         /\ \E n \in (IF Len(hist) = 0 THEN 0 ELSE 1)..MaxMsgs, dl \in {0, 10 * Len(hist) + 4} :
              /\ cur' = [msgs |-> [i \in 1..n |-> [ct |-> Types[1 + ((i + Len(hist)) % 5)], n |-> 3 * i]], dl |-> dl, srv |-> <<>>,
                         frag |-> Frags[1 + ((n + dl + Len(hist)) % 5)]]
              /\ r' = Reader0(n, dl)
         /\ asked' = <<>>
         /\ UNCHANGED <<hist, out>>

Serve == /\ cur # Idle /\ Len(cur.srv) < MaxSrv
         /\ \E x \in Letters :
              LET m == Item(x) IN
              /\ Finished(r) => x = "notice" /\ r.err = "" /\ (Len(cur.srv) > 0 => cur.srv[Len(cur.srv)].t # 11)
              /\ cur' = [cur EXCEPT !.srv = Append(@, m)]
              /\ r' = Consume(r, m)
              /\ asked' = IF ~Finished(r) /\ (m.t \in Accepted \/ (m.t = 1 /\ "raw" \notin DOMAIN m)) THEN Append(asked, Answer(m)) ELSE asked
         /\ UNCHANGED <<hist, out>>

End == /\ cur # Idle /\ Finished(r)
       /\ hist' = Append(hist, cur @@ [err |-> r.err, got |-> r.got])
       /\ cur' = Idle
       /\ UNCHANGED <<r, asked, out>>

Write == /\ cur = Idle /\ hist # <<>> /\ ~out
         /\ Len(hist) = MaxSends \/ hist[Len(hist)].err # ""
         /\ CSVWrite("%1$s", <<ToJson([ev |-> [i \in 1..Len(hist) |->
                [msgs |-> hist[i].msgs, dl |-> hist[i].dl, srv |-> hist[i].srv, frag |-> hist[i].frag, wfail |-> -1]]])>>, IOEnv.OUT)
         /\ out' = TRUE
         /\ UNCHANGED <<hist, cur, r, asked>>

Next == Begin \/ Serve \/ End \/ Write
Spec == Init /\ [][Next]_vars

(* one answer per message, in order, none invented or lost *)
Correspond == cur # Idle => r.got = asked
Count == \A i \in 1..Len(hist) : hist[i].err = "" => Len(hist[i].got) = Len(hist[i].msgs)
(* nothing after a fault is used *)
Stops == \A i \in 1..Len(hist) : hist[i].err # "" => i = Len(hist)
(* only a deadline of this very exchange can end it *)
OwnDeadline == \A i \in 1..Len(hist) : hist[i].err = "deadline" => hist[i].dl # 0
=============================================================================
