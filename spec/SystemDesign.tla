---------------------------- MODULE SystemDesign ----------------------------
(***************************************************************************)
(* Units of work sent through a pool of connections to the server, each    *)
(* built as the README says: an expectation of no error around a           *)
(* transaction.  The server works through what it was sent at its own      *)
(* pace, also after the client has gone away; any statement may fail, any  *)
(* session may end, and any part of a unit or of its answers may be lost.  *)
(*                                                                         *)
(* Each safeguard can be left out; TLC then finds the history in which it  *)
(* is missed:                                                              *)
(*   Expect    the expectation block                                       *)
(*   Tx        the transaction                                             *)
(*   Discard   the pool closes a connection whose unit of work failed      *)
(*   NoRetry   a unit of work whose connection was lost is not sent again  *)
(*   Own       a connection is used by one unit of work at a time          *)
(***************************************************************************)
EXTENDS System

CONSTANTS Units,   \* how many
          N,       \* effects of each
          Size,    \* of the pool
          Faults,  \* subset of {"err", "fatal", "cut", "write", "timeout"}
          MaxFaults,
          Quiet, Expect, Tx, Discard, NoRetry, Own

VARIABLES st, pc, conn, resp, idle, q, out, open, faults, tries
vars == <<st, pc, conn, resp, idle, q, out, open, faults, tries>>

U == 1..Units
C == DOMAIN st.sess
Unit == [kind |-> "full", iso |-> 0, n |-> N, pre |-> 0, w |-> [i \in 1..N |-> 1], fault |-> <<>>, done |-> FALSE]
M(k, u, i) == [k |-> k, u |-> u, i |-> i, id |-> 0, op |-> "empty", cond |-> "1", do |-> "ok"]
Msgs(u) == (IF Expect THEN <<M("open", 0, 0)>> ELSE <<M("set", 0, 0)>>)
           \o (IF Tx THEN <<M("start", 0, 0)>> ELSE <<M("set", 0, 0)>>)
           \o [i \in 1..N |-> M("eff", u, i)]
           \o (IF Tx THEN <<M("commit", 0, 0)>> ELSE <<M("set", 0, 0)>>)
           \o (IF Expect THEN <<M("close", 0, 0)>> ELSE <<M("set", 0, 0)>>)

Init == /\ st = State0([u \in U |-> Unit], Quiet, Faults = {})
        /\ pc = [u \in U |-> "start"] /\ conn = [u \in U |-> 0] /\ resp = [u \in U |-> <<>>]
        /\ idle = <<>> /\ q = <<>> /\ out = <<>> /\ open = <<>> /\ faults = 0 /\ tries = [u \in U |-> 0]

Goto(u, l) == pc' = [pc EXCEPT ![u] = l]
Fault(f) == f \in Faults /\ faults < MaxFaults /\ faults' = faults + 1

Get(u) ==
    /\ pc[u] = "start" /\ Goto(u, "write") /\ resp' = [resp EXCEPT ![u] = <<>>]
    /\ IF idle # <<>>
       THEN /\ conn' = [conn EXCEPT ![u] = Head(idle)]
            /\ idle' = IF Own THEN Tail(idle) ELSE idle
            /\ UNCHANGED <<st, q, out, open>>
       ELSE /\ st' = Post(st, [e |-> "session"])
            /\ conn' = [conn EXCEPT ![u] = Len(st'.sess)]
            /\ q' = Append(q, <<>>) /\ out' = Append(out, <<>>) /\ open' = Append(open, TRUE)
            /\ UNCHANGED idle
    /\ UNCHANGED <<faults, tries>>
Write(u) ==
    /\ pc[u] = "write"
    /\ \/ q' = [q EXCEPT ![conn[u]] = @ \o Msgs(u)] /\ Goto(u, "read") /\ UNCHANGED faults
       \/ /\ Fault("write")
          /\ \E k \in 0..Len(Msgs(u)) : q' = [q EXCEPT ![conn[u]] = @ \o SubSeq(Msgs(u), 1, k)]
          /\ Goto(u, "fail")
    /\ UNCHANGED <<st, conn, resp, idle, out, open, tries>>

Serve(c) ==
    /\ st.sess[c].live /\ q[c] # <<>>
    /\ \E d \in {"ok", "err", "fatal"} :
         /\ IF d = "ok" THEN UNCHANGED faults ELSE Fault(d)
         /\ LET m == [Head(q[c]) EXCEPT !.do = d]
                r == Handle(st.sess[c], m, Quiet).r
            IN /\ st' = Post(st, [e |-> "msg", c |-> c, m |-> m, r |-> r])
               /\ out' = [out EXCEPT ![c] = Append(@, r)]
    /\ q' = [q EXCEPT ![c] = Tail(@)]
    /\ UNCHANGED <<pc, conn, resp, idle, open, tries>>
Cut(c) ==
    /\ st.sess[c].live /\ Fault("cut")
    /\ st' = Post(st, [e |-> "end", c |-> c])
    /\ \E k \in 0..Len(out[c]) : out' = [out EXCEPT ![c] = SubSeq(@, 1, k)]
    /\ UNCHANGED <<pc, conn, resp, idle, q, open, tries>>
Gone(c) == \* the client has closed its end
    /\ st.sess[c].live /\ ~open[c] /\ q[c] = <<>>
    /\ st' = Post(st, [e |-> "end", c |-> c])
    /\ UNCHANGED <<pc, conn, resp, idle, q, out, open, faults, tries>>

Read(u) ==
    /\ pc[u] = "read" /\ out[conn[u]] # <<>>
    /\ LET r == Head(out[conn[u]])
       IN /\ resp' = [resp EXCEPT ![u] = Append(@, r)]
          /\ out' = [out EXCEPT ![conn[u]] = Tail(@)]
          /\ Goto(u, IF r = "fatal" THEN "fail"
                     ELSE IF Len(resp'[u]) < Len(Msgs(u)) THEN "read"
                     ELSE IF Discard /\ (\E i \in 1..Len(resp'[u]) : resp'[u][i] # "ok") THEN "discard" ELSE "put")
    /\ UNCHANGED <<st, conn, idle, q, open, faults, tries>>
ReadEnd(u) ==
    /\ pc[u] = "read" /\ out[conn[u]] = <<>>
    /\ IF st.sess[conn[u]].live THEN Fault("timeout") ELSE UNCHANGED faults
    /\ Goto(u, "fail")
    /\ UNCHANGED <<st, conn, resp, idle, q, out, open, tries>>
Drop(c) == open' = [open EXCEPT ![c] = FALSE]
FailU(u) ==
    /\ pc[u] = "fail" /\ Drop(conn[u])
    /\ IF ~NoRetry /\ tries[u] = 0 THEN Goto(u, "start") /\ tries' = [tries EXCEPT ![u] = 1]
       ELSE Goto(u, "reterr") /\ UNCHANGED tries
    /\ UNCHANGED <<st, conn, resp, idle, q, out, faults>>
DiscardU(u) == /\ pc[u] = "discard" /\ Drop(conn[u]) /\ Goto(u, "ret")
               /\ UNCHANGED <<st, conn, resp, idle, q, out, faults, tries>>
PutU(u) == /\ pc[u] = "put" /\ Goto(u, "ret")
           /\ IF Len(idle) < Size THEN idle' = Append(idle, conn[u]) /\ UNCHANGED open
              ELSE Drop(conn[u]) /\ UNCHANGED idle
           /\ UNCHANGED <<st, conn, resp, q, out, faults, tries>>
Ret(u) == /\ pc[u] \in {"ret", "reterr"} /\ Goto(u, "done")
          /\ st' = Post(st, [e |-> "ret", u |-> u, err |-> pc[u] = "reterr", resp |-> resp[u]])
          /\ UNCHANGED <<conn, resp, idle, q, out, open, faults, tries>>

Next == \/ \E u \in U : Get(u) \/ Write(u) \/ Read(u) \/ ReadEnd(u) \/ FailU(u) \/ DiscardU(u) \/ PutU(u) \/ Ret(u)
        \/ \E c \in C : Serve(c) \/ Cut(c) \/ Gone(c)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Meets == Complaint(st) = ""
(* an idle connection's session, if it still lives, is as good as new *)
Clean == \A i \in 1..Len(idle) : LET s == st.sess[idle[i]] IN s.live => ~s.tx /\ s.blocks = <<>>
Finishes == <>(\A u \in U : pc[u] = "done")
=============================================================================
