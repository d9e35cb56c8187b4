------------------------------- MODULE PoolImpl -------------------------------
(***************************************************************************)
(* The pool as it is built: a bounded channel of idle connections, a lock  *)
(* and a flag, with every atomic step of Send and Close spelt out, in      *)
(* front of a connector and connections that may fail at any time.  The    *)
(* contract (Pool) watches every step: cfgs are the configurations of the  *)
(* contract that explain what has been visible so far, so that the design  *)
(* meets the contract iff cfgs never becomes empty.                        *)
(*                                                                         *)
(* Each safeguard can be left out; TLC then finds the history in which it  *)
(* is missed:                                                              *)
(*   Lock      the lock around the flag and the sends on the channel       *)
(*   Check     the flag is looked at before a connection is kept           *)
(*   Discard   a connection whose unit of work failed is closed            *)
(*   Bounded   the channel is only filled up to its size                   *)
(*   Once      a second Close does not close the channel again             *)
(***************************************************************************)
EXTENDS Pool

CONSTANTS Sends, Closes, Size, Conns, Faults, Lock, Check, Discard, Bounded, Once

VARIABLES
    pc,     \* per Send and Close: the next step
    conn,   \* per Send and Close: the connection it holds
    bad,    \* per Send: its unit of work failed
    dn,     \* Sends whose context is done
    ch,     \* the channel
    chopen, \* it has not been closed
    flag,   \* the closed flag
    owner,  \* who holds the lock, 0: nobody
    dialled,\* connections dialled
    cfgs    \* the contract's view
vars == <<pc, conn, bad, dn, ch, chopen, flag, owner, dialled, cfgs>>
impl == <<pc, conn, bad, dn, ch, chopen, flag, owner, dialled>>

Procs == Sends \cup Closes
Saw(ev) == cfgs' = PostAll(cfgs, ev)
Goto(p, l) == pc' = [pc EXCEPT ![p] = l]
Keep(v) == UNCHANGED v

Init == /\ pc = [p \in Procs |-> "start"]
        /\ conn = [p \in Procs |-> 0]
        /\ bad = [s \in Sends |-> FALSE]
        /\ dn = {} /\ ch = <<>> /\ chopen = TRUE /\ flag = FALSE /\ owner = 0 /\ dialled = 0
        /\ cfgs = {Config0(Size)}

-----------------------------------------------------------------------------
Call(s) == /\ pc[s] = "start" /\ Goto(s, "select")
           /\ Saw([e |-> "call", s |-> s, done |-> s \in dn])
           /\ UNCHANGED <<conn, bad, dn, ch, chopen, flag, owner, dialled>>
Cancel(s) == /\ "ctx" \in Faults /\ s \notin dn /\ dn' = dn \cup {s}
             /\ IF pc[s] = "start" THEN UNCHANGED cfgs ELSE Saw([e |-> "cancel", s |-> s])
             /\ UNCHANGED <<pc, conn, bad, ch, chopen, flag, owner, dialled>>
Select(s) ==
    /\ pc[s] = "select"
    /\ UNCHANGED <<bad, dn, chopen, flag, owner, dialled, cfgs>>
    /\ \/ ch # <<>> /\ ch' = Tail(ch) /\ conn' = [conn EXCEPT ![s] = Head(ch)] /\ Goto(s, "use")
       \/ ch = <<>> /\ ~chopen /\ Goto(s, "retclosed") /\ UNCHANGED <<ch, conn>>
       \/ s \in dn /\ Goto(s, "retctx") /\ UNCHANGED <<ch, conn>>
       \/ ch = <<>> /\ chopen /\ s \notin dn /\ Goto(s, "dial") /\ UNCHANGED <<ch, conn>>
Dial(s) == /\ pc[s] = "dial" /\ Goto(s, "dialling") /\ Saw([e |-> "dial", s |-> s])
           /\ UNCHANGED <<conn, bad, dn, ch, chopen, flag, owner, dialled>>
Dialled(s) ==
    /\ pc[s] = "dialling"
    /\ \/ /\ dialled < Conns /\ dialled' = dialled + 1 /\ conn' = [conn EXCEPT ![s] = dialled'] /\ Goto(s, "use")
          /\ Saw([e |-> "dialled", s |-> s, c |-> dialled'])
       \/ /\ "dial" \in Faults /\ Goto(s, "retdial") /\ Saw([e |-> "dialfail", s |-> s]) /\ UNCHANGED <<conn, dialled>>
    /\ UNCHANGED <<bad, dn, ch, chopen, flag, owner>>
Use(s) == /\ pc[s] = "use" /\ Goto(s, "using") /\ Saw([e |-> "use", s |-> s, c |-> conn[s], own |-> TRUE])
          /\ UNCHANGED <<conn, bad, dn, ch, chopen, flag, owner, dialled>>
Used(s) ==
    /\ pc[s] = "using"
    /\ \E r \in {"ok"} \cup (Faults \cap {"err", "resp"}) :
         /\ Saw([e |-> "used", s |-> s, c |-> conn[s], r |-> r])
         /\ bad' = [bad EXCEPT ![s] = r # "ok"]
         /\ Goto(s, IF r = "ok" \/ ~Discard THEN (IF Lock THEN "lock" ELSE "check") ELSE "discard")
    /\ UNCHANGED <<conn, dn, ch, chopen, flag, owner, dialled>>
LockP(p, l) == pc[p] = "lock" /\ owner = 0 /\ owner' = p /\ Goto(p, l)
PutLock(s) == LockP(s, "check") /\ UNCHANGED <<conn, bad, dn, ch, chopen, flag, dialled, cfgs>>
PutCheck(s) == /\ pc[s] = "check" /\ Goto(s, IF Check /\ flag THEN "unlock" ELSE "put")
               /\ UNCHANGED <<conn, bad, dn, ch, chopen, flag, owner, dialled, cfgs>>
PutSend(s) ==
    /\ pc[s] = "put"
    /\ IF ~chopen THEN Goto(s, "panic") /\ Saw([e |-> "panic"]) /\ UNCHANGED <<ch, conn>>
       ELSE IF Len(ch) < Size \/ ~Bounded
            THEN /\ ch' = Append(ch, conn[s]) /\ conn' = [conn EXCEPT ![s] = 0] /\ Goto(s, "unlock") /\ UNCHANGED cfgs
            ELSE Goto(s, "unlock") /\ UNCHANGED <<ch, conn, cfgs>>
    /\ UNCHANGED <<bad, dn, chopen, flag, owner, dialled>>
PutUnlock(s) == /\ pc[s] = "unlock" /\ Goto(s, IF conn[s] = 0 THEN "retown" ELSE "discard")
                /\ owner' = IF Lock THEN 0 ELSE owner
                /\ UNCHANGED <<conn, bad, dn, ch, chopen, flag, dialled, cfgs>>
DiscardC(s) == /\ pc[s] = "discard" /\ Goto(s, "retown") /\ Saw([e |-> "close", c |-> conn[s]])
               /\ conn' = [conn EXCEPT ![s] = 0]
               /\ UNCHANGED <<bad, dn, ch, chopen, flag, owner, dialled>>
Ret(s) == \E l \in {"own", "dial", "closed", "ctx"} :
            /\ pc[s] = "ret" \o l /\ Goto(s, "done")
            /\ Saw([e |-> "ret", s |-> s, r |-> IF l = "dial" THEN "dialerr" ELSE l])
            /\ UNCHANGED <<conn, bad, dn, ch, chopen, flag, owner, dialled>>

PCall(k) == /\ pc[k] = "start" /\ Goto(k, IF Lock THEN "lock" ELSE "mark") /\ Saw([e |-> "pclose", k |-> k])
            /\ UNCHANGED <<conn, bad, dn, ch, chopen, flag, owner, dialled>>
PLock(k) == LockP(k, "mark") /\ UNCHANGED <<conn, bad, dn, ch, chopen, flag, dialled, cfgs>>
PMark(k) == /\ pc[k] = "mark"
            /\ IF flag /\ Once THEN Goto(k, "drain") /\ UNCHANGED flag ELSE Goto(k, "closech") /\ flag' = TRUE
            /\ UNCHANGED <<conn, bad, dn, ch, chopen, owner, dialled, cfgs>>
PCloseCh(k) == /\ pc[k] = "closech"
               /\ IF chopen THEN chopen' = FALSE /\ Goto(k, "drain") /\ UNCHANGED cfgs
                  ELSE Goto(k, "panic") /\ Saw([e |-> "panic"]) /\ UNCHANGED chopen
               /\ UNCHANGED <<conn, bad, dn, ch, flag, owner, dialled>>
PDrain(k) == /\ pc[k] = "drain"
             /\ IF ch = <<>>
                THEN ~chopen /\ Goto(k, "unlock") /\ UNCHANGED <<ch, conn, cfgs>>
                ELSE ch' = Tail(ch) /\ conn' = [conn EXCEPT ![k] = Head(ch)] /\ Goto(k, "drop") /\ UNCHANGED cfgs
             /\ UNCHANGED <<bad, dn, chopen, flag, owner, dialled>>
PDrop(k) == /\ pc[k] = "drop" /\ Goto(k, "drain") /\ conn' = [conn EXCEPT ![k] = 0]
            /\ Saw([e |-> "close", c |-> conn[k]])
            /\ UNCHANGED <<bad, dn, ch, chopen, flag, owner, dialled>>
PUnlock(k) == /\ pc[k] = "unlock" /\ Goto(k, "done") /\ owner' = (IF Lock THEN 0 ELSE owner)
              /\ Saw([e |-> "pclosed", k |-> k])
              /\ UNCHANGED <<conn, bad, dn, ch, chopen, flag, dialled>>
End == /\ \A p \in Procs : pc[p] = "done" /\ cfgs # {} /\ UNCHANGED impl
       /\ Saw([e |-> "end"]) /\ cfgs' = {} \* the contract does not allow the end here

Next == \/ \E s \in Sends : \/ Call(s) \/ Cancel(s) \/ Select(s) \/ Dial(s) \/ Dialled(s) \/ Use(s) \/ Used(s)
                            \/ PutLock(s) \/ PutCheck(s) \/ PutSend(s) \/ PutUnlock(s) \/ DiscardC(s) \/ Ret(s)
        \/ \E k \in Closes : PCall(k) \/ PLock(k) \/ PMark(k) \/ PCloseCh(k) \/ PDrain(k) \/ PDrop(k) \/ PUnlock(k)
        \/ End
Fair == WF_vars(Next)
Spec == Init /\ [][Next]_vars /\ Fair

Meets == cfgs # {}
Exclusive == \A s, t \in Procs : s # t /\ conn[s] # 0 => conn[s] # conn[t]
Disjoint == \A s \in Procs : conn[s] # 0 => \A i \in 1..Len(ch) : ch[i] # conn[s]
Bound == Len(ch) <= Size
Finishes == <>(\A p \in Procs : pc[p] = "done")
=============================================================================
