------------------------------- MODULE Codec --------------------------------
(***************************************************************************)
(* The contract of the encoders of package xproto (and of the helpers of   *)
(* package slice): a caller keeps a buffer and hands it to one encoder     *)
(* after another.  Whatever the buffer held stays as it was, and what is   *)
(* added is one message, or one field under the caller's tag, that means   *)
(* what the caller asked for.  An encoder that is given something it       *)
(* cannot encode says so, and still leaves what the buffer held alone.     *)
(*                                                                         *)
(* An event is a call: f and the arguments, and what was observed:         *)
(*   pan   it panicked                                                     *)
(*   err   class of the error returned, "" for none                        *)
(*   kept  what the buffer held before is unchanged, in the old slice and  *)
(*         (unless the encoder failed) at the start of the new one         *)
(*   new   what follows it in the new one                                  *)
(* The authentication messages stand alone: they use the spare room of the *)
(* buffer, and new is all of the result.                                   *)
(***************************************************************************)
EXTENDS Builder

Messages == {"reset", "stmt", "prep", "exec", "dealloc", "ins", "upd", "del", "eopen", "eclose", "cap", "astart", "acont"}
AnyFields == {"anybytes", "anybytesstring", "anystring"}
ExprFields == {"exprbytes", "exprbytesstring", "exprstring", "exprop", "exprfn", "col", "pos", "var"}

CodecFaults(ev) ==
    CASE ev.f \in {"stmt", "exec"} -> UNION {ArgFaults(ev.args[i]) : i \in 1..Len(ev.args)}
      [] ev.f = "ins" -> UNION {SeqFaults(ev.rows[i]) : i \in 1..Len(ev.rows)}
      [] ev.f = "upd" -> SeqFaults(ev.crit) \cup UNION {ExprFaults(ev.set[i].v) : i \in 1..Len(ev.set)}
      [] ev.f = "del" -> SeqFaults(ev.crit)
      [] ev.f \in {"exprop", "exprfn"} -> SeqFaults(ev.args)
      [] ev.f = "row" -> SeqFaults(ev.row)
      [] ev.f = "set" -> ExprFaults(ev.v)
      [] OTHER -> {}

NoBind == [x \in {} |-> <<>>]

WantMessage(ev) ==
    CASE ev.f = "reset" -> [k |-> "reset", keep |-> ev.keep]
      [] ev.f = "stmt" -> [k |-> "stmt", stmt |-> ev.stmt, args |-> Scalars(ev.args)]
      [] ev.f = "prep" -> [k |-> "prep", id |-> ev.id, stmt |-> ev.stmt]
      [] ev.f = "exec" -> [k |-> "exec", id |-> ev.id, args |-> Scalars(ev.args)]
      [] ev.f = "dealloc" -> [k |-> "dealloc", id |-> ev.id]
      [] ev.f = "ins" -> [k |-> "ins", name |-> ev.name, cols |-> ev.cols, rows |-> TLCEval([i \in 1..Len(ev.rows) |-> Exprs(ev.rows[i], NoBind)])]
      [] ev.f = "upd" -> [k |-> "upd", name |-> ev.name, crit |-> Exprs(ev.crit, NoBind), set |-> Pairs(ev.set, NoBind)]
      [] ev.f = "del" -> [k |-> "del", name |-> ev.name, crit |-> Exprs(ev.crit, NoBind)]
      [] ev.f = "eopen" -> [k |-> "eopen", op |-> ev.ctx,
                            conds |-> TLCEval([i \in 1..Len(ev.conds) |->
                                IF ev.conds[i].c = "noerror" THEN [key |-> 1, v |-> <<IF ev.conds[i].x THEN 49 ELSE 48>>]
                                ELSE [key |-> 2, v |-> ev.conds[i].v]])]
      [] ev.f = "eclose" -> [k |-> "eclose"]
      [] ev.f = "cap" -> [k |-> "cap", caps |-> <<[name |-> ev.name, val |-> [k |-> "bool", x |-> ev.x]]>>]
      [] ev.f = "astart" -> [k |-> "astart", mech |-> ev.mech, data |-> ev.data]
      [] OTHER -> [k |-> "acont", data |-> ev.data]

OctetsOrNull(ev) == IF ev.isnil THEN [k |-> "null"] ELSE OctetsOf(ev.v, ev.ct)

WantField(ev) ==
    CASE ev.f \in {"anybytes", "exprbytes"} -> OctetsOrNull(ev)
      [] ev.f \in {"anybytesstring", "exprbytesstring"} -> OctetsOf(ev.v, ev.ct)
      [] ev.f \in {"anystring", "exprstring"} -> [k |-> "str", v |-> ev.v, coll |-> ev.coll]
      [] ev.f = "exprop" -> [k |-> "op", name |-> ev.name, args |-> Exprs(ev.args, NoBind)]
      [] ev.f = "exprfn" -> [k |-> "fn", name |-> ev.name, args |-> Exprs(ev.args, NoBind)]
      [] ev.f = "col" -> [k |-> "col", name |-> ev.name]
      [] ev.f = "pos" -> [k |-> "pos", m |-> ev.m]
      [] OTHER -> [k |-> "var", name |-> ev.name]

(* exactly one field, with this number, and its content *)
OneField(t, f) ==
    LET fs == Fields(Str0(t)) IN
    IF Len(fs) = 1 /\ fs[1].f = f /\ fs[1].w = 2 THEN <<fs[1].v>> ELSE <<>>

Content(ev) ==
    CASE ev.f \in Messages ->
           LET fr == Frames(ev.new) IN
           IF fr = <<WantMessage(ev)>> THEN ""
           ELSE IF Len(fr) = 1 /\ fr[1].k = "bad" THEN "malformed " \o fr[1].why
           ELSE "not the message asked for"
      [] ev.f \in AnyFields \cup ExprFields ->
           LET v == OneField(ev.new, ev.tag) IN
           IF v = <<>> THEN "not one field under the caller's tag"
           ELSE IF (IF ev.f \in AnyFields THEN DecAny(v[1]) ELSE DecExpr(v[1])) = WantField(ev) THEN ""
           ELSE "not the value asked for"
      [] ev.f = "row" ->
           LET v == OneField(ev.new, 4) IN
           IF v = <<>> THEN "not one row" ELSE IF DecRow(v[1]) = Exprs(ev.row, NoBind) THEN "" ELSE "not the row asked for"
      [] ev.f = "set" ->
           LET v == OneField(ev.new, 7) IN
           IF v = <<>> THEN "not one assignment"
           ELSE IF DecSet(v[1]) = Pairs(<<[name |-> ev.name, v |-> ev.v]>>, NoBind)[1] THEN "" ELSE "not the assignment asked for"
      [] ev.f = "dur" -> IF ev.new = Canon(DurationText(ev.neg, ev.ns)) THEN "" ELSE "not the duration asked for"
      (* slice.ForAppend: n more bytes, which are the second result *)
      [] ev.f = "forappend" -> IF ByteLen(ev.new) = ev.n /\ ev.tail THEN "" ELSE "not room for n bytes"
      (* slice.Allocate: n bytes of its own *)
      [] ev.f = "alloc" -> IF ev.room = ev.n /\ ev.tail THEN "" ELSE "not n bytes of its own"
      (* slice.Insert: what was before and behind the position is before and behind n bytes; kept and new say so *)
      [] ev.f = "insert" -> IF ByteLen(ev.new) = ev.n /\ ev.tail THEN "" ELSE "what was behind the position is lost"
      [] OTHER -> "unknown encoder"

Verdict(ev) ==
    IF ev.pan THEN "panic"
    ELSE IF ~ev.kept THEN "what the buffer held has changed"
    ELSE LET f == CodecFaults(ev) IN
         IF f # {} THEN (IF ev.err \in f THEN "" ELSE "the fault was not reported")
         ELSE IF ev.err # "" THEN "an error out of nothing"
         ELSE IF ev.mod THEN "the caller's arguments were modified"
         ELSE Content(ev)
=============================================================================
