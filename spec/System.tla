------------------------------- MODULE System -------------------------------
(***************************************************************************)
(* Units of work against a transactional server: what has been committed,  *)
(* what the callers have been told, and what the one has to do with the    *)
(* other.                                                                  *)
(*                                                                         *)
(* A unit of work is [kind, iso, n, pre, w, ...]: n effects; pre messages    *)
(* before START TRANSACTION and its isolation level, not counting the      *)
(* opening of the expectation; w, how many messages each effect takes.     *)
(*   full   one Tx inside ExpectFailOnError                                *)
(*   bare   statements on their own                                        *)
(*   tx     a Tx without an expectation                                    *)
(*   open   a transaction started by hand and not finished                 *)
(*   bad    a full one with a value that cannot be sent                    *)
(* calm: no session is killed, the pool is not closed, and no unit leaves a *)
(* transaction open, so that one without faults of its own must succeed.   *)
(***************************************************************************)
EXTENDS Server, TLC

Sum(q) == LET RECURSIVE S(_)
              S(i) == IF i = 0 THEN 0 ELSE q[i] + S(i - 1)
          IN S(Len(q))

(* where the COMMIT of a full unit stands *)
CommitPos(u) == 1 + u.pre + (IF u.iso \in 1..4 THEN 1 ELSE 0) + 1 + Sum(u.w) + 1

State0(units, quiet, calm) ==
    [units |-> units, quiet |-> quiet, calm |-> calm, sess |-> <<>>,
     done |-> [u \in DOMAIN units |-> [i \in 1..units[u].n |-> 0]],
     told |-> [u \in DOMAIN units |-> "nothing"], why |-> ""]

(* commit some effects; one of nobody is the code's own invention *)
RECURSIVE Commit(_, _)
Commit(st, es) ==
    IF es = <<>> THEN st
    ELSE LET e == Head(es)
         IN IF e[1] \in DOMAIN st.units /\ e[2] \in 1..st.units[e[1]].n
            THEN Commit([st EXCEPT !.done[e[1]][e[2]] = @ + 1], Tail(es))
            ELSE [st EXCEPT !.why = "an effect of no unit of work was committed"]

None(st, u) == \A i \in 1..st.units[u].n : st.done[u][i] = 0
All(st, u) == \A i \in 1..st.units[u].n : st.done[u][i] = 1

(* what Send's results amount to *)
Told(st, u, ev) ==
    LET k == st.units[u].kind
        errs == {i \in 1..Len(ev.resp) : ev.resp[i] # "ok"}
    IN CASE k = "bad" -> "no"
         [] k \in {"tx", "open"} -> "nothing"
         [] ~ev.err /\ errs = {} -> "yes"
         [] k = "full" /\ (\E i \in errs : i <= CommitPos(st.units[u])) -> "no"
         [] k = "full" /\ Len(ev.resp) > CommitPos(st.units[u]) -> "yes" \* the COMMIT's own answer was good
         [] OTHER -> "nothing"

Complaint(st) ==
    IF st.why # "" THEN st.why
    ELSE LET us == DOMAIN st.units
             Is(u, t) == st.told[u] = t
         IN CASE \E u \in us : \E i \in 1..st.units[u].n : st.done[u][i] > 1 -> "a statement took effect twice"
              [] \E u \in us : st.units[u].kind \in {"full", "bad"} /\ ~None(st, u) /\ ~All(st, u) -> "only some of the statements of a transactional unit of work are committed"
              [] \E u \in us : Is(u, "yes") /\ ~All(st, u) -> "Send reported success but the unit of work is not committed"
              [] \E u \in us : Is(u, "no") /\ ~None(st, u) -> "Send reported failure but the unit of work is committed"
              [] OTHER -> ""

(* nothing has gone wrong that could have made this unit fail *)
Fine(st, u) == st.calm /\ st.units[u].kind \in {"full", "bare"} /\ st.units[u].fault = <<>> /\ ~st.units[u].done

(* what is observed *)
Post(st, ev) ==
    CASE ev.e = "session" -> [st EXCEPT !.sess = Append(@, Session0)]
      [] ev.e = "msg" -> LET o == Handle(st.sess[ev.c], ev.m, st.quiet)
                         IN IF o.r # ev.r THEN [st EXCEPT !.why = "DISAGREE"]
                            ELSE Commit([st EXCEPT !.sess[ev.c] = o.s], o.c)
      [] ev.e = "end" -> [st EXCEPT !.sess[ev.c] = Ended]
      [] ev.e = "ret" -> [st EXCEPT !.told[ev.u] = Told(st, ev.u, ev),
                                    !.why = IF st.units[ev.u].kind = "bad" /\ ~ev.err THEN "a unit of work that could not be built was sent"
                                             ELSE IF Fine(st, ev.u) /\ Told(st, ev.u, ev) # "yes" THEN "a unit of work failed although nothing went wrong" ELSE @]
      [] ev.e = "panic" -> [st EXCEPT !.why = "panic: " \o ev.what]
      [] ev.e = "hang" -> [st EXCEPT !.why = "a Send or Close never returns"]
      [] OTHER -> st \* call, pclose, pclosed, fin
=============================================================================
