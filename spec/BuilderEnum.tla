----------------------------- MODULE BuilderEnum -----------------------------
(***************************************************************************)
(* Every short behaviour of a caller, exhaustively: all sequences of at    *)
(* most MaxLen letters of a small alphabet that covers each way to add to  *)
(* a unit of work, open and close each kind of scope, fail, misuse an      *)
(* enclosing or stale builder, send and start again.  TLC explores the     *)
(* contract over all of them (invariants), and each maximal one, with its  *)
(* scopes closed and two final Sends, is written out for replay.           *)
(***************************************************************************)
EXTENDS Builder, Json, CSV, IOUtils

CONSTANTS MaxLen, Alphabet     \* Alphabet: "scopes", "faults" or "units"

VARIABLES st, prog, nh, ncl
vars == <<st, prog, nh, ncl>>

Depth == Len(st.stack)
TopOp == IF Depth = 0 THEN "root" ELSE Top(st).op
InBuilder == TopOp \in {"root", "tx", "expect"}

A == <<97>>
B == <<98>>
One == [go |-> "int", neg |-> FALSE, m |-> <<1>>]
Unsup == [go |-> "unsup", t |-> "struct"]
FailV(s) == [go |-> "fail", x |-> s, how |-> "part"]

Call(op)  == [e |-> "call", op |-> op, tgt |-> "cur", pan |-> FALSE, called |-> 0]
Open(op)  == [e |-> "open", op |-> op, tgt |-> "cur", pan |-> FALSE, called |-> 0, entered |-> TRUE]
CloseEv(ret) == [e |-> "close", op |-> "close", tgt |-> "cur", pan |-> FALSE, called |-> 0, ret |-> ret]
SendEv    == [e |-> "send", op |-> "send", tgt |-> "cur", pan |-> FALSE, called |-> 1, serr |-> ""]
ResetEv   == [e |-> "reset", op |-> "reset", tgt |-> "cur", pan |-> FALSE, called |-> 0]
OuterEv(op, lvl) == [e |-> "outer", op |-> op, tgt |-> "outer", pan |-> TRUE, called |-> 0, lvl |-> lvl]
StaleEv(op, j)   == [e |-> "stale", op |-> op, tgt |-> "stale", pan |-> FALSE, called |-> 0, j |-> j]

Num == [go |-> "int", neg |-> FALSE, m |-> IntToLimbs(Len(prog) + 1)]   \* tells the steps apart

Letters ==
    CASE Alphabet = "scopes" -> {"stmt", "tx", "expect", "insf", "updf", "row", "set", "close", "badclose", "outer", "stale", "send", "reset"}
      [] Alphabet = "faults" -> {"stmt", "badstmt", "badins", "badupd", "baddel", "badtx", "badupdf", "tx", "insf", "updf",
                                 "row", "set", "badrow", "badset", "close", "badclose", "send", "reset"}
      [] OTHER -> {"stmt", "prep", "exec", "ins", "insrow", "upd", "del", "insf", "updf", "row", "set", "tx", "close", "send", "reset"}

Evs(x) ==
    CASE x = "stmt" -> IF InBuilder THEN {Call("stmt") @@ [stmt |-> A, args |-> <<Num>>]} ELSE {}
      [] x = "prep" -> IF InBuilder THEN {Call("prep") @@ [id |-> Num.m, stmt |-> A]} ELSE {}
      [] x = "exec" -> IF InBuilder THEN {Call("exec") @@ [id |-> Num.m, args |-> <<One>>]} ELSE {}
      [] x = "ins"  -> IF InBuilder THEN {Call("ins") @@ [name |-> A, cols |-> <<A>>, rows |-> <<<<Num>>>>]} ELSE {}
      [] x = "insrow" -> IF InBuilder THEN {Call("insrow") @@ [name |-> A, cols |-> <<A>>, row |-> <<Num>>, h |-> nh + 1]} ELSE {}
      [] x = "upd"  -> IF InBuilder THEN {Call("upd") @@ [name |-> A, crit |-> <<>>, set |-> <<[name |-> B, v |-> Num]>>]} ELSE {}
      [] x = "del"  -> IF InBuilder THEN {Call("del") @@ [name |-> A, crit |-> <<[go |-> "col", name |-> B]>>]} ELSE {}
      [] x = "badstmt" -> IF InBuilder THEN {Call("stmt") @@ [stmt |-> A, args |-> <<Num, Unsup>>]} ELSE {}
      [] x = "badins"  -> IF InBuilder THEN {Call("ins") @@ [name |-> A, cols |-> <<A>>, rows |-> <<<<FailV("s1")>>>>],
                                             Call("ins") @@ [name |-> A, cols |-> <<A, B>>, rows |-> <<<<Num>>>>]} ELSE {}
      [] x = "badupd"  -> IF InBuilder THEN {Call("upd") @@ [name |-> A, crit |-> <<>>, set |-> <<[name |-> B, v |-> FailV("s2")]>>]} ELSE {}
      [] x = "baddel"  -> IF InBuilder THEN {Call("del") @@ [name |-> A, crit |-> <<[go |-> "op", c |-> "Not", args |-> <<FailV("s3")>>]>>]} ELSE {}
      [] x = "badtx"   -> IF InBuilder THEN {Open("tx") @@ [level |-> 6]} ELSE {}
      [] x = "badupdf" -> IF InBuilder THEN {Open("updf") @@ [name |-> A, crit |-> <<[go |-> "op", c |-> "Not", args |-> <<FailV("s4")>>]>>]} ELSE {}
      [] x = "tx"   -> IF InBuilder THEN {Open("tx") @@ [level |-> 5 - Depth]} ELSE {}
      [] x = "expect" -> IF InBuilder THEN {Open("expect") @@ [ctx |-> Depth % 2]} ELSE {}
      [] x = "insf" -> IF InBuilder THEN {Open("insf") @@ [name |-> A, cols |-> <<A, B>>]} ELSE {}
      [] x = "updf" -> IF InBuilder THEN {Open("updf") @@ [name |-> A, crit |-> <<>>]} ELSE {}
      [] x = "row"  -> IF TopOp = "insf" THEN {Call("row") @@ [row |-> <<Num>>]} ELSE {}
      [] x = "set"  -> IF TopOp = "updf" THEN {Call("set") @@ [name |-> B, v |-> Num]} ELSE {}
      [] x = "badrow" -> IF TopOp = "insf" THEN {Call("row") @@ [row |-> <<Num, FailV("s2")>>]} ELSE {}
      [] x = "badset" -> IF TopOp = "updf" THEN {Call("set") @@ [name |-> B, v |-> Unsup]} ELSE {}
      [] x = "close"    -> IF Depth > 0 THEN {CloseEv("")} ELSE {}
      [] x = "badclose" -> IF Depth > 0 THEN {CloseEv("s4")} ELSE {}
      [] x = "send"  -> IF Depth = 0 THEN {SendEv} ELSE {}
      [] x = "reset" -> IF Depth = 0 THEN {ResetEv} ELSE {}
      [] x = "outer" -> {OuterEv(k, Depth - 1) : k \in IF Depth > 0 THEN {"stmt", "insf", "tx"} ELSE {}}
                        \cup {OuterEv(k, 0) : k \in IF Depth > 0 THEN {"send", "reset"} ELSE {}}
      [] x = "stale" -> IF ncl > 0 THEN {StaleEv("stmt", ncl), StaleEv("tx", ncl)} ELSE {}
      [] OTHER -> {}

(* the outcome the contract demands *)
Ideal(ev) ==
    IF ev.e = "open" THEN [ev EXCEPT !.entered = (st.errs = {} /\ (ev.op = "tx" => ev.level \in 0..5))]
    ELSE ev
IdealStep(ev) == IF ev.e = "send" \/ ev.tgt # "cur" THEN st ELSE Step(st, ev)

Init == st = Init0 /\ prog = <<>> /\ nh = 0 /\ ncl = 0

Next ==
    /\ Len(prog) < MaxLen
    /\ \E x \in Letters : \E ev0 \in Evs(x) : LET ev == Ideal(ev0) IN
        /\ st' = IdealStep(ev)
        /\ prog' = Append(prog, ev)
        /\ nh' = IF ev.op = "insrow" THEN nh + 1 ELSE nh
        /\ ncl' = IF ev.e = "close" THEN ncl + 1 ELSE ncl
        /\ IF Len(prog) + 1 = MaxLen
           THEN LET closes == [i \in 1..Len(st'.stack) |-> CloseEv("")] IN
                CSVWrite("%1$s", <<ToJson([cap |-> IF Len(prog) % 2 = 0 THEN 0 ELSE 200,
                                           ev |-> prog' \o closes \o <<SendEv, SendEv>>])>>, IOEnv.OUT)
           ELSE TRUE
Spec == Init /\ [][Next]_vars

(* the contract is consistent *)
Consistent == st.bad = ""
(* brackets of the messages so far match the scopes that are open *)
RECURSIVE Reduce(_, _, _)
Reduce(l, k, open) ==
    IF k > Len(l) THEN <<open, TRUE>>
    ELSE LET it == l[k]
             up == CASE it.op = "eopen" -> "expect" [] it.op = "sql" /\ it.stmt \in {StartBytes, SnapshotBytes} -> "tx" [] OTHER -> ""
             dn == CASE it.op = "eclose" -> "expect" [] it.op = "sql" /\ it.stmt = CommitBytes -> "tx" [] OTHER -> ""
         IN IF up # "" THEN Reduce(l, k + 1, Append(open, up))
            ELSE IF dn # "" THEN (IF open # <<>> /\ open[Len(open)] = dn THEN Reduce(l, k + 1, SubSeq(open, 1, Len(open) - 1)) ELSE <<open, FALSE>>)
            ELSE Reduce(l, k + 1, open)
Balanced ==
    LET r == Reduce(st.out, 1, <<>>)
        want == SelectSeq([i \in 1..Depth |-> st.stack[i].op], LAMBDA x : x \in {"tx", "expect"})
    IN st.errs = {} => (r[2] /\ r[1] = want)
(* a failure is never forgotten or replaced while the unit of work lasts *)
Sticky == [][(st.errs # {} /\ st'.errs # st.errs) => (prog'[Len(prog')].e = "reset" /\ st'.errs = {})]_vars
(* a scope that failed contributes nothing further *)
Frozen == [][(st.errs # {} /\ prog'[Len(prog')].e # "reset") => st'.out = st.out]_vars
=============================================================================
