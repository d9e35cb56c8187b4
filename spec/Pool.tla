-------------------------------- MODULE Pool --------------------------------
(***************************************************************************)
(* The contract of a connection pool, as a relation between what can be    *)
(* seen from outside (calls of Send and Close, what the pool does to its   *)
(* connector and its connections, results) and a small hidden state.       *)
(*                                                                         *)
(* A configuration is one possible hidden state:                           *)
(*   size    how many connections may be kept idle                         *)
(*   idle    connections kept, the longest idle first (after the pool has  *)
(*           been closed: those that a Close has still to close)           *)
(*   closed  no connection may be dialled or kept any more                 *)
(*   closing calls of Close that have not returned                         *)
(*   final   some call of Close has returned                               *)
(*   send    per Send: where it is, and its connection                     *)
(*   doomed  connections that are done for and have still to be closed     *)
(*   gone    closed connections                                            *)
(*                                                                         *)
(* A Send is "called", "dial" (has decided to dial), "dialling", "failed"  *)
(* (dialling failed), "have" (holds an unused connection), "using", "used" *)
(* (successfully; the connection has still to be released), "res" (has its *)
(* result), "done".                                                        *)
(*                                                                         *)
(* Events:                                                                 *)
(*   [e |-> "call", s, done]      Send s; done: its context is done already *)
(*   [e |-> "cancel", s]          its context becomes done                 *)
(*   [e |-> "dial", s]            the connector is asked for a connection  *)
(*   [e |-> "dialled", s, c]      and returns it                           *)
(*   [e |-> "dialfail", s]        or fails                                 *)
(*   [e |-> "use", s, c, own]     Send of connection c is called; own: with*)
(*                                exactly the bytes and context of Send s  *)
(*   [e |-> "used", s, c, r]      it returns: "ok", "err" (an error) or    *)
(*                                "resp" (an error among the responses)    *)
(*   [e |-> "close", c]           Close of connection c is called          *)
(*   [e |-> "ret", s, r]          Send s returns: "own" (the result of the *)
(*                                use, unchanged), "dialerr", "closed"     *)
(*                                (ErrPoolClosed), "ctx" (the context's    *)
(*                                error) or something else                 *)
(*   [e |-> "pclose", k], [e |-> "pclosed", k]   the pool's Close          *)
(*   [e |-> "end"]                nothing is going on any more             *)
(*   [e |-> "panic"], [e |-> "hang"]                                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Config0(size) == [size |-> size, idle |-> <<>>, closed |-> FALSE, closing |-> {}, final |-> FALSE, send |-> <<>>, doomed |-> {}, gone |-> {}]

St(cfg, s) == IF s \in DOMAIN cfg.send THEN cfg.send[s].st ELSE "none"
SetSt(cfg, s, st) == [cfg EXCEPT !.send[s].st = st]
SetConn(cfg, s, st, c) == [cfg EXCEPT !.send[s].st = st, !.send[s].c = c]
Doom(cfg, c) == [cfg EXCEPT !.doomed = @ \cup {c}]
Range(q) == {q[i] : i \in 1..Len(q)}
Held(cfg) == {cfg.send[s].c : s \in {x \in DOMAIN cfg.send : cfg.send[x].st \in {"have", "using", "used"}}}

-----------------------------------------------------------------------------
(* hidden steps: the set of configurations one step away *)
Without(q, c) == SelectSeq(q, LAMBDA x : x # c)
Take(cfg, s) == \* the longest idle connection is taken; while the pool is being closed, any of those left
    LET from == IF cfg.idle = <<>> \/ cfg.send[s].late THEN {} ELSE IF cfg.closed THEN Range(cfg.idle) ELSE {Head(cfg.idle)}
    IN {SetConn([cfg EXCEPT !.idle = Without(@, c)], s, "have", c) : c \in from}
GoDial(cfg, s) == \* none is idle
    IF cfg.idle # <<>> \/ cfg.closed \/ cfg.send[s].done THEN {} ELSE {SetSt(cfg, s, "dial")}
Put(cfg, s) ==
    LET c == cfg.send[s].c d == SetSt(cfg, s, "res") IN
    IF ~cfg.closed /\ Len(cfg.idle) < cfg.size THEN {[d EXCEPT !.idle = Append(@, c)]} ELSE {Doom(d, c)}
Mark(cfg) == IF cfg.closing # {} /\ ~cfg.closed THEN {[cfg EXCEPT !.closed = TRUE]} ELSE {}

Hidden(cfg) ==
    UNION {Take(cfg, s) \cup GoDial(cfg, s) : s \in {x \in DOMAIN cfg.send : cfg.send[x].st = "called"}}
    \cup UNION {Put(cfg, s) : s \in {x \in DOMAIN cfg.send : cfg.send[x].st = "used"}}
    \cup Mark(cfg)

RECURSIVE Closure(_, _)
Closure(S, new) == IF new = {} THEN S ELSE LET n == UNION {Hidden(c) : c \in new} \ S IN Closure(S \cup n, n)

-----------------------------------------------------------------------------
(* the configurations an event may lead to *)
Post(cfg, ev) ==
    CASE ev.e = "call" ->
            {[cfg EXCEPT !.send = (ev.s :> [st |-> "called", c |-> 0, done |-> ev.done, late |-> cfg.final]) @@ @]}
      [] ev.e = "cancel" -> {[cfg EXCEPT !.send[ev.s].done = TRUE]}
      [] ev.e = "dial" -> IF St(cfg, ev.s) = "dial" THEN {SetSt(cfg, ev.s, "dialling")} ELSE {}
      [] ev.e = "dialled" -> IF St(cfg, ev.s) = "dialling" THEN {SetConn(cfg, ev.s, "have", ev.c)} ELSE {}
      [] ev.e = "dialfail" -> IF St(cfg, ev.s) = "dialling" THEN {SetSt(cfg, ev.s, "failed")} ELSE {}
      [] ev.e = "use" ->
            IF St(cfg, ev.s) = "have" /\ cfg.send[ev.s].c = ev.c /\ ev.own THEN {SetSt(cfg, ev.s, "using")} ELSE {}
      [] ev.e = "used" ->
            IF ev.r = "ok" THEN {SetSt(cfg, ev.s, "used")} ELSE {Doom(SetSt(cfg, ev.s, "res"), ev.c)}
      [] ev.e = "close" ->
            IF ev.c \in cfg.doomed THEN {[cfg EXCEPT !.doomed = @ \ {ev.c}, !.gone = @ \cup {ev.c}]}
            ELSE IF cfg.closed /\ ev.c \in Range(cfg.idle) THEN {[cfg EXCEPT !.idle = Without(@, ev.c), !.gone = @ \cup {ev.c}]}
            ELSE {}
      [] ev.e = "ret" ->
            IF \/ ev.r = "own" /\ St(cfg, ev.s) = "res"
               \/ ev.r = "dialerr" /\ St(cfg, ev.s) = "failed"
               \/ ev.r = "closed" /\ St(cfg, ev.s) = "called" /\ cfg.closed
               \/ ev.r = "ctx" /\ St(cfg, ev.s) = "called" /\ cfg.send[ev.s].done
            THEN {SetSt(cfg, ev.s, "done")} ELSE {}
      [] ev.e = "pclose" -> {[cfg EXCEPT !.closing = @ \cup {ev.k}]}
      [] ev.e = "pclosed" ->
            \* of several Closes, another one may still be at closing the idle connections
            IF cfg.closed /\ (cfg.idle = <<>> \/ cfg.closing # {ev.k}) THEN {[cfg EXCEPT !.closing = @ \ {ev.k}, !.final = TRUE]} ELSE {}
      [] ev.e = "end" ->
            IF cfg.doomed = {} /\ (cfg.closed => cfg.idle = <<>>) /\ \A s \in DOMAIN cfg.send : cfg.send[s].st = "done" THEN {cfg} ELSE {}
      [] OTHER -> {}

(* all configurations that explain the events so far *)
PostAll(S, ev) == LET n == TLCEval(UNION {Post(c, ev) : c \in Closure(S, S)}) IN n
=============================================================================
