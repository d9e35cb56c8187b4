------------------------------- MODULE Builder -------------------------------
(***************************************************************************)
(* The contract of xtorm's XPipe / Builder: what a caller does to it       *)
(* (events) and what a Sender must then be handed.                         *)
(*                                                                         *)
(* State of one XPipe                                                      *)
(*   stack  scopes whose callbacks are running, innermost last             *)
(*   out    operations that make up the unit of work so far, in order      *)
(*   errs   {} while building succeeded; otherwise the error classes one   *)
(*          of which every Send must report (a single call may contain     *)
(*          several faults, and which it meets first is not fixed)         *)
(*   bad    "" while every observation agreed with the contract            *)
(*                                                                         *)
(* Step(st, ev) is the transition function; an event carries what the      *)
(* caller did and what was observed.                                       *)
(*                                                                         *)
(* A value is a record with field go: "nil", "bool", "int".."uint64",      *)
(* "float32", "float64", "string", "bytes", "time", "dur", "String",       *)
(* "XML", "XMLString", "JSON", "JSONString", "Geometry", "ptr", "nilptr",  *)
(* and for expressions "col", "op" (a combinator of expr.go), "h" (an      *)
(* InsertRow handle), "enc" (an encoder supplied by the caller).           *)
(* "unsup" is a value of a type that is not supported, "fail" an encoder   *)
(* that returns the caller's error number x.                               *)
(***************************************************************************)
EXTENDS Wire

-----------------------------------------------------------------------------
(* what a Go value denotes on the wire: a protocol scalar *)

OctetsOf(b, ct) == [k |-> "oct", v |-> b, ct |-> ct]

(* long division of a decimal digit sequence by a small number *)
RECURSIVE DivStep(_, _, _, _)
DivStep(d, k, n, acc) ==      \* acc = <<quotient digits, remainder>>
    IF k > Len(d) THEN acc
    ELSE LET x == acc[2] * 10 + d[k] IN DivStep(d, k + 1, n, <<Append(acc[1], x \div n), x % n>>)
DivMod(d, n) == DivStep(d, 1, n, <<<<>>, 0>>)
RECURSIVE TrimLead(_)
TrimLead(d) == IF Len(d) > 1 /\ d[1] = 0 THEN TrimLead(Tail(d)) ELSE d
DigitsAscii(d) == [i \in 1..Len(d) |-> 48 + d[i]]

(* a duration, given by its sign and the decimal digits of its nanoseconds, *)
(* is [-]H:MM:SS with the fraction of a second dropped                      *)
DurationText(neg, ns) ==
    LET pad  == [i \in 1..10 |-> 0] \o ns
        secs == SubSeq(pad, 1, Len(pad) - 9)
        m    == DivMod(secs, 60)
        h    == DivMod(m[1], 60)
    IN (IF neg THEN <<45>> ELSE <<>>) \o DigitsAscii(TrimLead(h[1])) \o <<58>>
       \o Dec(h[2], 2) \o <<58>> \o Dec(m[2], 2)

(* YYYY-MM-DD hh:mm:ss.nnnnnnnnn, the wall clock of the time as given *)
TimeText(t) ==
    Dec(t.y, 4) \o <<45>> \o Dec(t.mo, 2) \o <<45>> \o Dec(t.d, 2) \o <<32>>
    \o Dec(t.h, 2) \o <<58>> \o Dec(t.mi, 2) \o <<58>> \o Dec(t.s, 2) \o <<46>> \o Dec(t.ns, 9)

SignedTypes   == {"int", "int8", "int16", "int32", "int64"}
UnsignedTypes == {"uint", "uint8", "uint16", "uint32", "uint64"}
ContentType == [Geometry |-> 1, JSON |-> 2, XML |-> 3, JSONString |-> 2, XMLString |-> 3]

RECURSIVE Scalar(_)
Scalar(v) ==
    CASE v.go = "nil"  -> [k |-> "null"]
      [] v.go = "nilptr" -> [k |-> "null"]
      [] v.go \in {"ptr", "ptrs"} -> Scalar(v.v)
      [] v.go = "bool" -> [k |-> "bool", x |-> v.x]
      [] v.go \in SignedTypes   -> [k |-> "sint", neg |-> v.neg, m |-> v.m]
      [] v.go \in UnsignedTypes -> [k |-> "uint", m |-> v.m]
      [] v.go = "float64" -> [k |-> "dbl", b |-> v.b]
      [] v.go = "float32" -> [k |-> "flt", b |-> v.b]
      [] v.go = "string"  -> [k |-> "str", v |-> v.v, coll |-> <<>>]
      [] v.go = "String"  -> [k |-> "str", v |-> v.v, coll |-> v.coll]
      [] v.go = "bytes"   -> IF v.isnil THEN [k |-> "null"] ELSE OctetsOf(v.v, 0)
      [] v.go \in {"XML", "JSON", "Geometry"} -> IF v.isnil THEN [k |-> "null"] ELSE OctetsOf(v.v, ContentType[v.go])
      [] v.go \in {"XMLString", "JSONString"} -> OctetsOf(v.v, ContentType[v.go])
      [] v.go = "time" -> OctetsOf(Canon(TimeText(v)), 0)
      [] v.go = "dur"  -> OctetsOf(Canon(DurationText(v.neg, v.ns)), 0)
      [] OTHER -> Bad("not a scalar")

-----------------------------------------------------------------------------
Scalars(l) == TLCEval([i \in 1..Len(l) |-> Scalar(l[i])])

(* the combinators of expr.go, as X Protocol operators and functions *)

Operator ==
    [Default |-> "default", Not |-> "!", Plus |-> "sign_plus", Minus |-> "sign_minus",
     And |-> "&&", Or |-> "||", Xor |-> "xor",
     Eq |-> "==", Neq |-> "!=", Lte |-> "<=", Lt |-> "<", Gt |-> ">", Gte |-> ">=",
     BitAnd |-> "&", BitOr |-> "|", BitXor |-> "^", LeftShift |-> "<<", RightShift |-> ">>",
     Add |-> "+", Sub |-> "-", Mul |-> "*", Div |-> "/", IntDiv |-> "div", Mod |-> "%",
     Is |-> "is", IsNot |-> "is_not", Regexp |-> "regexp", NotRegexp |-> "not_regexp",
     Like |-> "like", NotLike |-> "not_like", ContIn |-> "cont_in", NotContIn |-> "not_cont_in",
     Overlaps |-> "overlaps", NotOverlaps |-> "not_overlaps",
     Between |-> "between", NotBetween |-> "not_between",
     In |-> "in", InV |-> "in", NotIn |-> "not_in", NotInV |-> "not_in",
     DateAdd |-> "date_add", DateSub |-> "date_sub"]
Function == [Concat |-> "CONCAT", RowCount |-> "ROW_COUNT", LastInsertID |-> "LAST_INSERT_ID"]
OperatorBytes == [c \in DOMAIN Operator |-> Ascii(Operator[c])]
FunctionBytes == [c \in DOMAIN Function |-> Ascii(Function[c])]

(* the units of DateAdd and DateSub travel as octets *)
DateUnits == {"MICROSECOND", "SECOND", "MINUTE", "HOUR", "DAY", "WEEK", "MONTH", "QUARTER", "YEAR",
              "SECOND_MICROSECOND", "MINUTE_MICROSECOND", "MINUTE_SECOND", "HOUR_MICROSECOND",
              "HOUR_SECOND", "HOUR_MINUTE", "DAY_MICROSECOND", "DAY_SECOND", "DAY_MINUTE", "DAY_HOUR"}
UnitBytes == [u \in DateUnits |-> Ascii(u)]

(* value -> expression; bind gives the variable name of each handle *)
RECURSIVE Expr(_, _)
Exprs(l, bind) == TLCEval([i \in 1..Len(l) |-> Expr(l[i], bind)])
Expr(v, bind) ==
    CASE v.go = "col" -> [k |-> "col", name |-> v.name]
      [] v.go = "h"   -> IF v.i \in DOMAIN bind THEN [k |-> "var", name |-> bind[v.i]] ELSE Bad("unbound handle")
      [] v.go = "var" -> [k |-> "var", name |-> v.name]
      [] v.go = "pos" -> [k |-> "pos", m |-> v.m]
      [] v.go = "op"  ->
            IF v.c \in DOMAIN Operator
            THEN [k |-> "op", name |-> OperatorBytes[v.c],
                  args |-> Exprs(v.args, bind) \o
                           (IF v.c \in {"DateAdd", "DateSub"} THEN <<OctetsOf(UnitBytes[v.unit], 0)>> ELSE <<>>)]
            ELSE [k |-> "fn", name |-> FunctionBytes[v.c], args |-> Exprs(v.args, bind)]
      [] OTHER -> Scalar(v)

(* the faults contained in a value: in an argument, in an expression *)
RECURSIVE ExprFaults(_)
ExprFaults(v) ==
    CASE v.go = "unsup" -> {"lib"}
      [] v.go = "fail"  -> {v.x}
      [] v.go \in {"ptr", "ptrs", "nilptr"} -> {"lib"}           \* expressions do not take pointers
      [] v.go = "op"    -> UNION {ExprFaults(v.args[i]) : i \in 1..Len(v.args)}
      [] OTHER -> {}
RECURSIVE ArgFaults(_)
ArgFaults(v) ==
    CASE v.go = "unsup" -> {"lib"}
      [] v.go = "fail"  -> {v.x}
      [] v.go \in {"ptr", "ptrs"} -> ArgFaults(v.v)
      [] v.go \in {"col", "op", "h", "var", "pos"} -> {"lib"}
      [] OTHER -> {}

SeqFaults(l) == UNION {ExprFaults(l[i]) : i \in 1..Len(l)}

(* A pointer given where an expression is expected is refused today; a      *)
(* builder that dereferences it would be just as right.  Events with such   *)
(* values are not generated.                                                *)

Faults(ev) ==
    CASE ev.op \in {"stmt", "exec"} -> UNION {ArgFaults(ev.args[i]) : i \in 1..Len(ev.args)}
      [] ev.op = "ins" -> UNION {SeqFaults(ev.rows[i]) : i \in 1..Len(ev.rows)}
                          \cup (IF \E i \in 1..Len(ev.rows) : Len(ev.rows[i]) # Len(ev.cols) THEN {"lib"} ELSE {})
      [] ev.op = "insrow" -> SeqFaults(ev.row)
      [] ev.op = "row" -> SeqFaults(ev.row)
      [] ev.op = "set" -> ExprFaults(ev.v)
      [] ev.op = "upd" -> SeqFaults(ev.crit) \cup UNION {ExprFaults(ev.set[i].v) : i \in 1..Len(ev.set)}
      [] ev.op \in {"del", "updf"} -> SeqFaults(ev.crit)
      [] ev.op = "tx" -> IF ev.level \in 0..5 THEN {} ELSE {"lib"}
      [] OTHER -> {}

-----------------------------------------------------------------------------
(* the messages an operation stands for *)

IsolationStmt ==
    <<"SET TRANSACTION ISOLATION LEVEL READ UNCOMMITTED", "SET TRANSACTION ISOLATION LEVEL READ COMMITTED",
      "SET TRANSACTION ISOLATION LEVEL REPEATABLE READ", "SET TRANSACTION ISOLATION LEVEL SERIALIZABLE">>
IsolationBytes == [i \in 1..4 |-> Ascii(IsolationStmt[i])]
StartBytes     == Ascii("START TRANSACTION")
SnapshotBytes  == Ascii("START TRANSACTION WITH CONSISTENT SNAPSHOT")
CommitBytes    == Ascii("COMMIT")

SqlFrame(b) == [k |-> "stmt", stmt |-> b, args |-> <<>>]

TxOpen(level) ==
    (IF level \in 1..4 THEN <<SqlFrame(IsolationBytes[level])>> ELSE <<>>)
    \o <<SqlFrame(IF level = 5 THEN SnapshotBytes ELSE StartBytes)>>

Pairs(set, bind) == TLCEval([i \in 1..Len(set) |-> [col |-> [k |-> "col", name |-> set[i].name], val |-> Expr(set[i].v, bind)]])

(* The statement after an InsertRow: SET <variable> = LAST_INSERT_ID().  The *)
(* variable is the builder's choice; VarOf gives it, or <<>>.                *)
SetBytes  == Ascii("SET ")
LastBytes == Ascii(" = LAST_INSERT_ID()")
VarOf(fr) ==
    IF fr.k # "stmt" THEN <<>>
    ELSE LET s == fr.stmt n == Len(s) IN
         IF /\ fr.args = <<>>
            /\ n > Len(SetBytes) + Len(LastBytes) + 1
            /\ SubSeq(s, 1, Len(SetBytes)) = SetBytes
            /\ SubSeq(s, n - Len(LastBytes) + 1, n) = LastBytes
            /\ s[Len(SetBytes) + 1] = 64                       \* '@'
         THEN SubSeq(s, Len(SetBytes) + 1, n - Len(LastBytes))
         ELSE <<>>

(* out is a sequence of items [op |-> ..]; each is one message *)
Matches(fr, it, bind) ==
    CASE it.op = "stmt"    -> fr = [k |-> "stmt", stmt |-> it.stmt, args |-> Scalars(it.args)]
      [] it.op = "sql"     -> fr = SqlFrame(it.stmt)
      [] it.op = "prep"    -> fr = [k |-> "prep", id |-> it.id, stmt |-> it.stmt]
      [] it.op = "exec"    -> fr = [k |-> "exec", id |-> it.id, args |-> Scalars(it.args)]
      [] it.op = "dealloc" -> fr = [k |-> "dealloc", id |-> it.id]
      [] it.op = "ins"     -> fr = [k |-> "ins", name |-> it.name, cols |-> it.cols,
                                    rows |-> TLCEval([i \in 1..Len(it.rows) |-> Exprs(it.rows[i], bind)])]
      [] it.op = "setvar"  -> VarOf(fr) # <<>>
      [] it.op = "upd"     -> (* assignments come from a map: any order *)
            /\ fr.k = "upd" /\ fr.name = it.name /\ fr.crit = Exprs(it.crit, bind)
            /\ Len(fr.set) = Len(it.set)
            /\ LET p == Pairs(it.set, bind) IN {fr.set[i] : i \in 1..Len(fr.set)} = {p[i] : i \in 1..Len(p)}
      [] it.op = "updf"    -> fr = [k |-> "upd", name |-> it.name, crit |-> Exprs(it.crit, bind), set |-> Pairs(it.set, bind)]
      [] it.op = "del"     -> fr = [k |-> "del", name |-> it.name, crit |-> Exprs(it.crit, bind)]
      [] it.op = "eopen"   -> fr = [k |-> "eopen", op |-> it.ctx, conds |-> <<[key |-> 1, v |-> <<49>>]>>]
      [] it.op = "eclose"  -> fr = [k |-> "eclose"]
      [] OTHER -> FALSE

(* "" if the frames are what out stands for, else the first difference *)
Explain(frames, out) ==
    LET n == Len(out)
        m == Len(frames)
        vars == {i \in 1..n : out[i].op = "setvar"}
        bind == [h \in {out[i].h : i \in vars} |->
                    LET i == CHOOSE j \in vars : out[j].h = h
                    IN IF i <= m THEN VarOf(frames[i]) ELSE <<>>]
        diff == {i \in 1..n : i > m \/ ~Matches(frames[i], out[i], bind)}
    IN IF \E g, h \in DOMAIN bind : g # h /\ bind[g] = bind[h] /\ bind[g] # <<>>
       THEN "two InsertRow handles share a variable"
       ELSE IF diff # {}
       THEN LET i == CHOOSE j \in diff : \A x \in diff : j <= x
            IN "message " \o ToString(i) \o " is not the " \o out[i].op \o " the caller asked for"
               \o (IF i <= m /\ frames[i].k = "bad" THEN " (malformed " \o frames[i].why \o ")" ELSE "")
       ELSE IF m > n THEN "more messages than operations"
       ELSE ""

-----------------------------------------------------------------------------
(* the transition function *)

Init0 == [stack |-> <<>>, out |-> <<>>, errs |-> {}, said |-> "", bad |-> ""]

Fail(st, why) == [st EXCEPT !.bad = why]

Emit(st, items) == IF st.errs # {} THEN st ELSE [st EXCEPT !.out = @ \o items]

(* an operation that is one or more messages *)
Items(ev) ==
    CASE ev.op = "insrow" -> <<[op |-> "ins", name |-> ev.name, cols |-> ev.cols, rows |-> <<ev.row>>],
                               [op |-> "setvar", h |-> ev.h]>>
      [] OTHER -> <<ev>>

Top(st) == st.stack[Len(st.stack)]

StepCall(st, ev) ==
    IF ev.pan THEN Fail(st, "a building step panicked: " \o ev.op)
    ELSE IF st.errs # {} THEN st
    ELSE LET f == Faults(ev) IN
    IF f # {} THEN [st EXCEPT !.errs = f]
    ELSE IF ev.op = "row" THEN [st EXCEPT !.stack[Len(st.stack)].rows = Append(@, ev.row)]
    ELSE IF ev.op = "set" THEN [st EXCEPT !.stack[Len(st.stack)].set = Append(@, [name |-> ev.name, v |-> ev.v])]
    ELSE Emit(st, Items(ev))

OpenItems(ev) ==
    CASE ev.op = "tx" -> LET l == TxOpen(ev.level) IN [i \in 1..Len(l) |-> [op |-> "sql", stmt |-> l[i].stmt]]
      [] ev.op = "expect" -> <<[op |-> "eopen", ctx |-> ev.ctx]>>
      [] OTHER -> <<>>

Scope(ev) == [op |-> ev.op, rows |-> <<>>, set |-> <<>>, ev |-> ev]

StepOpen(st, ev) ==
    LET f  == IF st.errs = {} THEN Faults(ev) ELSE {}
        s1 == IF f # {} THEN [st EXCEPT !.errs = f] ELSE st
        s2 == IF s1.errs = {} THEN Emit(s1, OpenItems(ev)) ELSE s1
    IN IF ev.pan THEN Fail(st, "panic: " \o ev.op)
       ELSE IF ev.entered THEN [s2 EXCEPT !.stack = Append(@, Scope(ev))]
       ELSE IF s2.errs = {} THEN Fail(st, "callback not run: " \o ev.op)
       ELSE s2

CloseItems(sc) ==
    CASE sc.op = "tx"     -> <<[op |-> "sql", stmt |-> CommitBytes]>>
      [] sc.op = "expect" -> <<[op |-> "eclose"]>>
      [] sc.op = "insf"   -> <<[op |-> "ins", name |-> sc.ev.name, cols |-> sc.ev.cols, rows |-> sc.rows]>>
      [] OTHER            -> <<[op |-> "updf", name |-> sc.ev.name, crit |-> sc.ev.crit, set |-> sc.set]>>

StepClose(st, ev) ==
    LET sc == Top(st)
        s1 == [st EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)]
        s2 == IF s1.errs = {} /\ ev.ret # "" THEN [s1 EXCEPT !.errs = {ev.ret}] ELSE s1
    IN Emit(s2, CloseItems(sc))

StepSend(st, ev) ==
    IF ev.pan THEN Fail(st, "Send panicked")
    ELSE IF st.errs # {}
    THEN IF ev.called # 0 THEN Fail(st, "a unit of work that failed to build was sent")
         ELSE IF ev.err \notin st.errs THEN Fail(st, "Send did not report the first failure but: " \o ev.err)
         ELSE IF "errtext" \notin DOMAIN ev THEN st
         ELSE IF st.said \notin {"", ev.errtext} THEN Fail(st, "Send reported another failure: first " \o st.said \o ", then " \o ev.errtext)
         ELSE IF "alone" \in DOMAIN ev /\ ev.alone \notin {"", ev.errtext} THEN Fail(st, "Send reported: " \o ev.errtext \o ", but alone: " \o ev.alone)
         ELSE [st EXCEPT !.said = ev.errtext]
    ELSE IF ev.called # 1 THEN Fail(st, "Send handed the sender " \o ToString(ev.called) \o " byte strings; error: " \o ev.err)
    ELSE IF ev.err # ev.serr \/ ~ev.same THEN Fail(st, "Send did not return the sender's result")
    ELSE LET why == Explain(Frames(ev.bytes), st.out) IN
         IF why = "" THEN st ELSE Fail(st, why)

Step(st, ev) ==
    IF st.bad # "" THEN st
    ELSE IF "changed" \in DOMAIN ev /\ ev.changed # "" THEN Fail(st, "an error that Send returned earlier has changed: " \o ev.changed)
    ELSE IF "mod" \in DOMAIN ev /\ ev.mod THEN Fail(st, "the caller's arguments were modified: " \o ev.op)
    ELSE IF ev.tgt = "outer"
    THEN IF ev.pan /\ ev.called = 0 THEN st ELSE Fail(st, "use of an enclosing builder did not panic: " \o ev.op)
    ELSE IF ev.tgt = "stale" THEN (IF ev.called = 0 THEN st ELSE Fail(st, "stale builder sent something"))
    ELSE CASE ev.e = "call"   -> StepCall(st, ev)
           [] ev.e = "open"   -> StepOpen(st, ev)
           [] ev.e = "close"  -> StepClose(st, ev)
           [] ev.e = "closed" -> IF ev.pan THEN Fail(st, "panic when a callback returned: " \o ev.op)
                              ELSE IF ev.n # 1 THEN Fail(st, "callback run more than once: " \o ev.op) ELSE st
           [] ev.e = "send"   -> StepSend(st, ev)
           [] ev.e = "reset"  -> IF ev.pan THEN Fail(st, "Reset panicked") ELSE [Init0 EXCEPT !.bad = st.bad]
           [] OTHER -> Fail(st, "unknown event")
=============================================================================
