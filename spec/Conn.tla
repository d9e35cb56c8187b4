-------------------------------- MODULE Conn --------------------------------
(***************************************************************************)
(* The contract of a connection's Send: one exchange with the server.      *)
(*                                                                         *)
(* A unit of work is a sequence of client messages [ct, n] (type, payload  *)
(* size).  What the server side of the network does during the exchange is *)
(* a sequence of items, in order:                                          *)
(*   [t |-> 0, n]    OK               [t |-> 17, n]  statement executed    *)
(*   [t |-> 11 .. 16, 18, n]          notice, metadata, row, fetch marker  *)
(*   [t |-> 1, sev, code, state, msg] error: severity 0 is ERROR, 1 FATAL  *)
(*   [t |-> 1, raw]  an error message that cannot be decoded               *)
(*   [t |-> 3, n]    authentication continue, outside authentication       *)
(*   [t |-> -1]      a message of length zero, shorter than its header     *)
(*   [t |-> -2, time, off]  nothing arrives until that time; before that,  *)
(*                   off bytes of the next message do                      *)
(*   [t |-> -3, k, off]     the stream ends ("eof") or fails ("rst") after *)
(*                   off bytes of the next message                         *)
(* A deadline is 0 (none) or a time.                                       *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, TLC

Accepted == {0, 4, 17}
Passing  == {11, 12, 13, 14, 15, 16, 18}

(* the reader: answers so far, and how the exchange went wrong *)
Reader0(need, dl) == [need |-> need, dl |-> dl, got |-> <<>>, err |-> "", by |-> [t |-> -9]]
Finished(r) == r.err # "" \/ Len(r.got) = r.need

Answer(m) == IF m.t = 1 THEN [k |-> "err", sev |-> m.sev, code |-> m.code, state |-> m.state, msg |-> m.msg]
             ELSE [k |-> "ok"]

Consume(r, m) ==
    IF Finished(r) THEN r
    ELSE CASE m.t \in Accepted -> [r EXCEPT !.got = Append(@, Answer(m))]
           [] m.t \in Passing -> r
           [] m.t = 1 /\ "raw" \notin DOMAIN m ->
                IF m.sev = 1 THEN [r EXCEPT !.got = Append(@, Answer(m)), !.err = "fatal", !.by = m]
                ELSE [r EXCEPT !.got = Append(@, Answer(m))]
           [] m.t = -2 -> IF r.dl # 0 /\ r.dl <= m.time THEN [r EXCEPT !.err = "deadline"] ELSE r
           [] m.t = -3 -> [r EXCEPT !.err = "stream"]
           [] OTHER -> [r EXCEPT !.err = "protocol"]

RECURSIVE ConsumeAll(_, _, _)
ConsumeAll(r, srv, k) == IF k > Len(srv) THEN r ELSE ConsumeAll(Consume(r, srv[k]), srv, k + 1)

(* the whole exchange; a stream that stops short of the last answer fails *)
Exchange(need, dl, srv) ==
    LET r == ConsumeAll(Reader0(need, dl), srv, 1)
    IN IF Finished(r) THEN r ELSE [r EXCEPT !.err = "stream"]

Min(a, b) == IF a <= b THEN a ELSE b

(* "" or what is wrong with an observed Send *)
JudgeSend(ev) ==
    LET r == Exchange(Len(ev.msgs), ev.dl, ev.srv)
        n == Min(Len(ev.resp), Len(r.got))
        wrong == {i \in 1..n : ev.resp[i] # r.got[i]}
    IN IF ev.pan THEN "Send panicked"
       ELSE IF ~ev.unmodified THEN "Send modified the unit of work"
       ELSE IF ev.writes > 1 THEN "the unit of work was written in several pieces or more than once"
       ELSE IF ev.wfail
            THEN (IF ~ev.err THEN "a failed write was not reported" ELSE "")
       ELSE IF ~ev.same THEN "what was written is not the unit of work"
       ELSE IF wrong # {} THEN "response " \o ToString(CHOOSE i \in wrong : \A j \in wrong : i <= j) \o " is not the server's answer"
       ELSE IF r.err # ""
            THEN IF ~ev.err THEN "fault not reported: " \o r.err
                 ELSE IF r.err = "fatal" /\ ev.errv # Answer(r.by) THEN "the fatal error is not Send's error"
                 ELSE ""
       ELSE IF ev.err THEN "Send failed: " \o ev.errtext
       ELSE IF Len(ev.resp) # ev.count \/ Len(ev.resp) # Len(ev.msgs) THEN "number of responses: " \o ToString(Len(ev.resp))
       ELSE IF ev.idle > 0 THEN "Send read beyond its last response"
       ELSE ""
=============================================================================
