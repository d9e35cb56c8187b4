----------------------------- MODULE BuilderGen -----------------------------
(***************************************************************************)
(* Behaviours of a caller of xtorm, drawn from the Builder specification.  *)
(* The state is the specification's own (st) plus the calls made so far.   *)
(* Every call is applied to st with the outcome the contract demands, so   *)
(* the invariants below check the contract itself; finished behaviours are *)
(* written out and replayed on the real code.                              *)
(*                                                                         *)
(* CONSTANTS                                                               *)
(*   MaxLen    calls per behaviour                                         *)
(*   MaxDepth  nesting of scopes                                           *)
(*   Profile   weights, see Ops                                            *)
(***************************************************************************)
EXTENDS Values, Json, CSV, IOUtils

CONSTANTS MaxLen, MaxDepth, Profile

VARIABLES st,      \* state of the contract
          prog,    \* events so far
          hs,      \* handles returned in the current unit of work
          nh,      \* number of handles so far
          ncl,     \* number of scopes closed so far
          cap,     \* initial capacity of the buffer
          phase    \* "run", "done"
vars == <<st, prog, hs, nh, ncl, cap, phase>>

Depth == Len(st.stack)
TopOp == IF Depth = 0 THEN "root" ELSE Top(st).op
InBuilder == TopOp \in {"root", "tx", "expect"}

Times_(n, x) == [i \in 1..n |-> x]

(* kinds of steps, weighted *)
Ops ==
    LET body == <<"stmt", "prep", "exec", "dealloc", "ins", "insrow", "upd", "del", "insf", "updf">> IN
    CASE Profile = "calls"  -> body \o body \o <<"stmt", "ins", "tx", "expect", "close", "close", "close", "send", "reset">>
      [] Profile = "faults" -> body \o <<"badstmt", "badexec", "badins", "badinsrow", "badupd", "baddel", "badupdf", "badtx",
                                         "badrow", "badset", "tx", "expect", "close", "close", "badclose",
                                         "send", "send", "send", "reset">>
      [] Profile = "scopes" -> <<"stmt", "ins", "del", "insf", "updf", "tx", "tx", "expect", "expect", "close", "close", "close",
                                 "outer", "outer", "stale", "stale", "send", "reset", "badclose">>
      [] Profile = "handles" -> Times_(8, "insrow") \o <<"stmt", "ins", "upd", "del", "updf", "insf", "tx", "expect",
                                 "close", "close", "send", "reset", "useh", "useh", "useh", "useh">>
      [] Profile = "exprs"  -> <<"ins", "insrow", "upd", "del", "del", "insf", "updf", "tx", "close", "close", "send">>
      [] OTHER -> body

(* a level of nesting of expressions *)
ED(z_) == IF Profile = "exprs" THEN Pick(0..5) ELSE Pick(0..2)
RandRow(n) == TLCEval([i \in 1..n |-> RandExpr(ED(0), hs)])
RandCols(n) == TLCEval([i \in 1..n |-> RandName(0)])
RandId(z_) == RandMag(32)
RandArgs(z_) == LET n == Pick(0..4) IN TLCEval([i \in 1..n |-> RandArg(0)])

(* distinct names for a map *)
RandSet(n) == TLCEval([i \in 1..n |-> [name |-> <<96 + i>> \o RandName(0), v |-> RandExpr(ED(0), hs)]])

BadVal(z_) == LET k == Pick(1..5) IN
          CASE k <= 2 -> [go |-> "unsup", t |-> Pick({"struct", "chan", "func", "map", "complex", "slice"})]
            [] OTHER -> [go |-> "fail", x |-> Pick({"s1", "s2", "s3", "s4"}), how |-> Pick({"keep", "nil", "part"})]
(* faults arbitrarily deep in an expression *)
RECURSIVE BadExpr(_)
BadExpr(d) == IF d = 0 THEN BadVal(0)
              ELSE Op(Pick({"Concat", "InV"}), <<RandScalar(0), BadExpr(d - 1), RandScalar(0)>>)
BadArg(z_) == LET k == Pick(1..3) IN IF k = 1 THEN [go |-> "ptr", v |-> [go |-> "unsup", t |-> "struct"]] ELSE BadVal(0)
Ins(l, k, x) == SubSeq(l, 1, k) \o <<x>> \o SubSeq(l, k + 1, Len(l))
PutBad(l, x) == Ins(l, Pick(0..Len(l)), x)

Call(op) == [e |-> "call", op |-> op, tgt |-> "cur", pan |-> FALSE, called |-> 0]

PlainCall(op) ==
    CASE op = "stmt"    -> Call("stmt") @@ [stmt |-> RandName(0), args |-> RandArgs(0)]
      [] op = "prep"    -> Call("prep") @@ [id |-> RandId(0), stmt |-> RandName(0)]
      [] op = "exec"    -> Call("exec") @@ [id |-> RandId(0), args |-> RandArgs(0)]
      [] op = "dealloc" -> Call("dealloc") @@ [id |-> RandId(0)]
      [] op = "ins"     -> LET n == Pick(0..3) r == Pick(0..3) IN
                           Call("ins") @@ [name |-> RandName(0), cols |-> RandCols(n), rows |-> TLCEval([i \in 1..r |-> RandRow(n)])]
      [] op = "insrow"  -> LET n == Pick(0..3) IN
                           Call("insrow") @@ [name |-> RandName(0), cols |-> RandCols(n), row |-> RandRow(n), h |-> nh + 1]
      [] op = "upd"     -> Call("upd") @@ [name |-> RandName(0), crit |-> RandCrit(ED(0), hs), set |-> RandSet(Pick(0..3))]
      [] op = "useh"    -> IF hs = {} THEN Call("dealloc") @@ [id |-> <<>>]
                           ELSE Call("upd") @@ [name |-> RandName(0), crit |-> <<Op("Eq", <<Col(<<97>>), [go |-> "h", i |-> Pick(hs)]>>)>>,
                                                set |-> <<[name |-> <<98>>, v |-> [go |-> "h", i |-> Pick(hs)]]>>]
      [] op = "del"     -> Call("del") @@ [name |-> RandName(0), crit |-> RandCrit(ED(0), hs)]
      [] op = "row"     -> Call("row") @@ [row |-> RandRow(Pick(0..3))]
      [] op = "set"     -> Call("set") @@ [name |-> RandName(0), v |-> RandExpr(ED(0), hs)]
      [] op = "badstmt" -> Call("stmt") @@ [stmt |-> RandName(0), args |-> PutBad(RandArgs(0), BadArg(0))]
      [] op = "badexec" -> Call("exec") @@ [id |-> RandId(0), args |-> PutBad(RandArgs(0), BadArg(0))]
      [] op = "badins"  -> IF Pick(BOOLEAN)
                           THEN Call("ins") @@ [name |-> RandName(0), cols |-> RandCols(2),
                                                rows |-> PutBad(<<RandRow(2), RandRow(2)>>, RandRow(Pick({0, 1, 3})))]
                           ELSE Call("ins") @@ [name |-> RandName(0), cols |-> RandCols(3),
                                                rows |-> PutBad(<<RandRow(3)>>, PutBad(RandRow(2), BadExpr(Pick(0..3))))]
      [] op = "badinsrow" -> Call("insrow") @@ [name |-> RandName(0), cols |-> RandCols(3), row |-> PutBad(RandRow(2), BadExpr(Pick(0..2))), h |-> nh + 1]
      [] op = "badupd"  -> IF Pick(BOOLEAN)
                           THEN Call("upd") @@ [name |-> RandName(0), crit |-> RandCrit(1, hs),
                                                set |-> RandSet(2) \o <<[name |-> <<120>>, v |-> BadExpr(Pick(0..2))]>>]
                           ELSE Call("upd") @@ [name |-> RandName(0), crit |-> <<Op("Or", <<BadExpr(Pick(0..2)), RandScalar(0)>>)>>, set |-> RandSet(2)]
      [] op = "baddel"  -> Call("del") @@ [name |-> RandName(0), crit |-> <<Op("Or", <<RandScalar(0), BadExpr(Pick(0..2))>>)>>]
      [] op = "badrow"  -> Call("row") @@ [row |-> PutBad(RandRow(2), BadExpr(Pick(0..2)))]
      [] op = "badset"  -> Call("set") @@ [name |-> RandName(0), v |-> BadExpr(Pick(0..2))]
      [] OTHER -> Call("dealloc") @@ [id |-> <<>>]

Open(op) == [e |-> "open", op |-> op, tgt |-> "cur", pan |-> FALSE, called |-> 0, entered |-> TRUE]
OpenCall(op) ==
    CASE op = "tx"     -> Open("tx") @@ [level |-> Pick(0..5)]
      [] op = "badtx"  -> Open("tx") @@ [level |-> Pick({6, 7, 100})]
      [] op = "expect" -> Open("expect") @@ [ctx |-> Pick({0, 1})]
      [] op = "insf"   -> Open("insf") @@ [name |-> RandName(0), cols |-> RandCols(Pick(0..3))]
      [] op = "updf"   -> Open("updf") @@ [name |-> RandName(0), crit |-> RandCrit(1, hs)]
      [] OTHER         -> Open("updf") @@ [name |-> RandName(0), crit |-> <<Op("Or", <<BadExpr(1), RandScalar(0)>>)>>]

Close(ret) == [e |-> "close", op |-> "close", tgt |-> "cur", pan |-> FALSE, called |-> 0, ret |-> ret]

(* use of another builder than the current one; lvl: 0 is the XPipe itself  *)
OuterCall(z_) == LET k == Pick({"stmt", "ins", "insf", "updf", "tx", "expect", "send", "reset", "del", "upd", "insrow", "prep", "exec", "dealloc"})
                 (* inside InsertF/UpdateF the enclosing builder is the one at Depth-1 as well *)
                 lvl == Pick(0..(Depth - 1))
             IN [e |-> "outer", op |-> k, tgt |-> "outer", pan |-> TRUE, called |-> 0, lvl |-> lvl]
StaleCall(z_) == [e |-> "stale", op |-> Pick({"stmt", "ins", "tx", "del", "insf"}), tgt |-> "stale", pan |-> FALSE, called |-> 0, j |-> Pick(1..ncl)]

SendEv(z_)  == [e |-> "send", op |-> "send", tgt |-> "cur", pan |-> FALSE, called |-> 1, serr |-> Pick({"", "", "snd"})]
ResetEv == [e |-> "reset", op |-> "reset", tgt |-> "cur", pan |-> FALSE, called |-> 0]

(* what is allowed here *)
Usable(op) ==
    CASE op = "close" \/ op = "badclose" -> Depth > 0
      [] op \in {"tx", "expect", "insf", "updf", "badtx", "badupdf"} -> InBuilder /\ Depth < MaxDepth
      [] op \in {"send", "reset"} -> Depth = 0
      [] op = "outer" -> Depth > 0
      [] op = "stale" -> ncl > 0
      [] op = "row" \/ op = "badrow" -> TopOp = "insf"
      [] op = "set" \/ op = "badset" -> TopOp = "updf"
      [] OTHER -> InBuilder

EvOf(op) ==
    CASE op \in {"tx", "expect", "insf", "updf", "badtx", "badupdf"} -> OpenCall(op)
      [] op = "close" -> Close("")
      [] op = "badclose" -> Close(Pick({"s1", "s2", "s3", "s4"}))
      [] op = "outer" -> OuterCall(0)
      [] op = "stale" -> StaleCall(0)
      [] op = "send" -> SendEv(0)
      [] op = "reset" -> ResetEv
      [] OTHER -> PlainCall(op)

(* in an InsertF or UpdateF callback only rows, assignments, outer uses and the return are possible *)
Menu == IF TopOp = "insf" THEN (IF Profile = "faults" THEN <<"row", "row", "badrow", "close", "close", "badclose">>
                                ELSE IF Profile = "scopes" THEN <<"row", "outer", "stale", "close", "close", "badclose">>
                                ELSE <<"row", "row", "row", "close">>)
        ELSE IF TopOp = "updf" THEN (IF Profile = "faults" THEN <<"set", "set", "badset", "close", "close", "badclose">>
                                     ELSE IF Profile = "scopes" THEN <<"set", "outer", "stale", "close", "close", "badclose">>
                                     ELSE <<"set", "set", "set", "close">>)
        ELSE Ops

(* the contract's own outcome of an event, for stepping st *)
Ideal(ev) ==
    IF ev.e = "open" THEN [ev EXCEPT !.entered = (st.errs = {} /\ (ev.op = "tx" => ev.level \in 0..5))]
    ELSE ev

IdealStep(ev) == IF ev.e = "send" \/ ev.tgt # "cur" THEN st ELSE Step(st, ev)

Opens(ev) == ev.e = "open" /\ ev.entered

Init == /\ st = Init0
        /\ prog = <<>>
        /\ hs = {}
        /\ nh = 0
        /\ ncl = 0
        /\ cap = Pick({0, 1, 2, 3, 5, 8, 13, 17, 24, 33, 40, 64, 100, 128, 250, 256, 512, 1000, 1024, 4096, 40000})
        /\ phase = "run"

Do(ev) ==
    LET s1 == IdealStep(ev) IN
    /\ st' = s1
    /\ prog' = Append(prog, ev)
    /\ nh' = IF ev.e = "call" /\ ev.op = "insrow" THEN nh + 1 ELSE nh
    /\ hs' = IF ev.e = "reset" THEN {}
             ELSE IF ev.e = "call" /\ ev.op = "insrow" /\ s1.errs = {} THEN hs \cup {nh + 1} ELSE hs
    /\ ncl' = IF ev.e = "close" THEN ncl + 1 ELSE ncl
    /\ UNCHANGED <<cap, phase>>

Gen == /\ phase = "run"
       /\ Len(prog) < MaxLen
       /\ \E op \in {PickSeq(Menu)} :
             IF Usable(op) THEN \E ev \in {Ideal(EvOf(op))} : Do(ev)
             ELSE \E ev \in {IF InBuilder THEN Ideal(PlainCall("stmt")) ELSE Close("")} : Do(ev)

(* close what is open, send, and hand the behaviour out *)
Finish == /\ phase = "run"
          /\ Len(prog) >= MaxLen
          /\ LET closes == [i \in 1..Depth |-> Close("")]
                 all == prog \o closes \o <<SendEv(0), SendEv(0)>>
             IN CSVWrite("%1$s", <<ToJson([cap |-> cap, ev |-> all])>>, IOEnv.OUT)
          /\ phase' = "done"
          /\ UNCHANGED <<st, prog, hs, nh, ncl, cap>>

Next == Gen \/ Finish
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* the contract is consistent: brackets balance and nothing is contradictory *)
Brackets(it) == CASE it.op = "sql" /\ it.stmt \in {StartBytes, SnapshotBytes} -> "("
                  [] it.op = "sql" /\ it.stmt = CommitBytes -> ")"
                  [] it.op = "eopen" -> "["
                  [] it.op = "eclose" -> "]"
                  [] OTHER -> ""
RECURSIVE Reduce(_, _, _)
Reduce(l, k, open) ==        \* <<unclosed openings, ok>>
    IF k > Len(l) THEN <<open, TRUE>>
    ELSE LET b == Brackets(l[k]) IN
         CASE b \in {"(", "["} -> Reduce(l, k + 1, Append(open, b))
           [] b = ")" -> IF open # <<>> /\ open[Len(open)] = "(" THEN Reduce(l, k + 1, SubSeq(open, 1, Len(open) - 1)) ELSE <<open, FALSE>>
           [] b = "]" -> IF open # <<>> /\ open[Len(open)] = "[" THEN Reduce(l, k + 1, SubSeq(open, 1, Len(open) - 1)) ELSE <<open, FALSE>>
           [] OTHER -> Reduce(l, k + 1, open)

Consistent == st.bad = ""
Balanced ==
    LET r == Reduce(st.out, 1, <<>>)
        want == SelectSeq([i \in 1..Depth |-> CASE st.stack[i].op = "tx" -> "(" [] st.stack[i].op = "expect" -> "[" [] OTHER -> ""],
                          LAMBDA x : x # "")
    IN st.errs = {} => (r[2] /\ r[1] = want)
=============================================================================
