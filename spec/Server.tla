------------------------------- MODULE Server -------------------------------
(***************************************************************************)
(* A session of a MySQL server on the X protocol, as far as transactions   *)
(* are concerned: what each message does to it, what it commits and how it *)
(* is answered.                                                            *)
(*                                                                         *)
(*   START TRANSACTION commits a transaction that is still open            *)
(*   outside a transaction every statement commits itself                  *)
(*   in an expectation block with the no-error condition the first error   *)
(*   makes every later message up to the block's close fail                *)
(*   the end of a session rolls its transaction back                       *)
(*   preparing a statement replaces one with the same number               *)
(*                                                                         *)
(* A message is [k, u, i, id, op, cond, do]: its kind, for an effect (and  *)
(* the prepared statement that has it) whose unit of work it is of and the *)
(* how manieth there, the statement number, for an expectation the context *)
(* and the no-error condition, and whether the server fails it of its own  *)
(* accord ("ok", "err" or "fatal").                                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Session0 == [live |-> TRUE, tx |-> FALSE, work |-> <<>>, blocks |-> <<>>, prep |-> {}]

Top(s) == s.blocks[Len(s.blocks)]
Failed(s) == s.blocks # <<>> /\ Top(s).failed
Fail(s) == IF s.blocks # <<>> /\ Top(s).noerr
           THEN [s EXCEPT !.blocks[Len(s.blocks)].failed = TRUE] ELSE s
Ended == [Session0 EXCEPT !.live = FALSE]

(* the outcome of a message: the session afterwards, the effects committed  *)
(* by it, and the answer                                                    *)
Out(s, c, r) == [s |-> s, c |-> c, r |-> r]

Effect(s, e) == IF s.tx THEN Out([s EXCEPT !.work = Append(@, e)], <<>>, "ok") ELSE Out(s, <<e>>, "ok")
Known(s, id) == {p \in s.prep : p.id = id}

Exec(s, m) ==
    CASE m.k = "start" -> Out([s EXCEPT !.tx = TRUE, !.work = <<>>], s.work, "ok")
      [] m.k = "commit" -> Out([s EXCEPT !.tx = FALSE, !.work = <<>>], s.work, "ok")
      [] m.k = "rollback" -> Out([s EXCEPT !.tx = FALSE, !.work = <<>>], <<>>, "ok")
      [] m.k = "iso" -> IF s.tx THEN Out(s, <<>>, "err") ELSE Out(s, <<>>, "ok")
      [] m.k = "set" -> Out(s, <<>>, "ok")
      [] m.k = "eff" -> Effect(s, <<m.u, m.i>>)
      [] m.k = "prep" -> Out([s EXCEPT !.prep = (@ \ Known(s, m.id)) \cup {[id |-> m.id, u |-> m.u, i |-> m.i]}], <<>>, "ok")
      [] m.k = "exec" -> IF Known(s, m.id) = {} THEN Out(s, <<>>, "err")
                         ELSE LET p == CHOOSE p \in Known(s, m.id) : TRUE IN Effect(s, <<p.u, p.i>>)
      [] m.k = "dealloc" -> IF Known(s, m.id) = {} THEN Out(s, <<>>, "err") ELSE Out([s EXCEPT !.prep = @ \ Known(s, m.id)], <<>>, "ok")
      [] OTHER -> Out(s, <<>>, "err")

Open(s, m) ==
    LET copy == m.op = "copy" /\ s.blocks # <<>>
        bad == m.do = "err" \/ m.cond = "bad" \/ (copy /\ Top(s).failed)
        noerr == IF m.cond = "1" THEN TRUE ELSE IF m.cond = "0" THEN FALSE ELSE copy /\ Top(s).noerr
    IN Out([s EXCEPT !.blocks = Append(@, [noerr |-> noerr, failed |-> bad])], <<>>, IF bad THEN "err" ELSE "ok")

(* quiet: closing a block that has failed is not an error *)
Close(s, m, quiet) ==
    IF s.blocks = <<>> THEN Out(s, <<>>, "err")
    ELSE Out([s EXCEPT !.blocks = SubSeq(@, 1, Len(@) - 1)], <<>>, IF m.do = "err" \/ (Failed(s) /\ ~quiet) THEN "err" ELSE "ok")

Handle(s, m, quiet) ==
    IF ~s.live THEN Out(s, <<>>, "none")
    ELSE IF m.do = "fatal" THEN Out(Ended, <<>>, "fatal")
    ELSE IF m.k = "open" THEN Open(s, m)
    ELSE IF m.k = "close" THEN Close(s, m, quiet)
    ELSE IF Failed(s) THEN Out(s, <<>>, "err")
    ELSE IF m.do = "err" THEN Out(Fail(s), <<>>, "err")
    ELSE LET o == Exec(s, m) IN IF o.r = "ok" THEN o ELSE Out(Fail(s), <<>>, "err")
=============================================================================
