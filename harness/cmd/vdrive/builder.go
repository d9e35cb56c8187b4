package main

import (
	"context"
	"fmt"

	"github.com/renthraysk/xtorm"
	"github.com/renthraysk/xtorm/netx"
	"github.com/renthraysk/xtorm/xproto"
)

func init() { commands["builder"] = builderMain }

// sink is the Sender a unit of work is handed to.
type sink struct {
	calls [][]byte
	resp  []netx.Response
	err   error
}

func (s *sink) Send(ctx context.Context, b []byte) ([]netx.Response, error) {
	s.calls = append(s.calls, append([]byte(nil), b...))
	return s.resp, s.err
}

// replay executes one program on the real builder.
type replay struct {
	valuer
	ev    []obj
	pos   int
	log   []obj
	x     *xtorm.XPipe
	stack []any // builders and handles in use: stack[0] is the XPipe's
	stale []any
	said  []spoken // errors that Send has returned
	alone []string // their texts when the program runs alone
}

type spoken struct {
	err  error
	text string
}

// guard runs f and reports whether it panicked.
func guard(f func()) (panicked bool, what any) {
	defer func() {
		if r := recover(); r != nil {
			panicked, what = true, r
		}
	}()
	f()
	return
}

func clone(e obj) obj {
	c := obj{}
	for k, v := range e {
		c[k] = v
	}
	return c
}

func (r *replay) record(e obj, pan bool, what any) obj {
	c := clone(e)
	c["pan"] = pan
	if pan {
		c["panic"] = fmt.Sprint(what)
	}
	r.log = append(r.log, c)
	return c
}

// body executes events until the one that closes the current scope, which it
// returns.
func (r *replay) body() obj {
	for r.pos < len(r.ev) {
		e := r.ev[r.pos]
		r.pos++
		switch e["e"] {
		case "close":
			return e
		case "open":
			r.open(e)
		case "call":
			pan, what := guard(r.call(r.stack[len(r.stack)-1], e))
			mod := r.scribble()
			r.record(e, pan, what)["mod"] = mod
		case "outer":
			s := &sink{}
			pan, what := guard(func() { r.misuse(r.stack[num(e["lvl"])], e["op"].(string), s) })
			r.record(e, pan, what)["called"] = len(s.calls)
		case "stale":
			j := num(e["j"]) - 1
			if j >= len(r.stale) {
				continue // that scope was never entered
			}
			s := &sink{}
			pan, what := guard(func() { r.misuse(r.stale[j], e["op"].(string), s) })
			r.record(e, pan, what)["called"] = len(s.calls)
		case "send":
			s := &sink{resp: []netx.Response{new(int)}}
			if k := e["serr"].(string); k != "" {
				s.err = sentinels[k]
			}
			var resp []netx.Response
			var err error
			pan, what := guard(func() { resp, err = r.x.Send(context.Background(), s) })
			c := r.record(e, pan, what)
			for _, q := range r.said {
				if t := q.err.Error(); t != q.text {
					c["changed"] = q.text + ", now: " + t
				}
			}
			c["called"] = len(s.calls)
			c["err"] = errClass(err)
			c["same"] = len(resp) == 1 && resp[0] == s.resp[0]
			if len(s.calls) > 0 {
				c["bytes"] = tokens(s.calls[0])
			} else {
				c["bytes"] = []int{}
			}
			if err != nil {
				c["errtext"] = err.Error()
				r.said = append(r.said, spoken{err, err.Error()})
				if n := len(r.said) - 1; n < len(r.alone) {
					c["alone"] = r.alone[n]
				}
			}
		case "reset":
			pan, what := guard(func() { r.x.Reset() })
			r.record(e, pan, what)
		default:
			panic("unknown event")
		}
	}
	return nil
}

// skip passes over the body of a callback that was not run.
func (r *replay) skip() {
	for depth := 1; depth > 0 && r.pos < len(r.ev); r.pos++ {
		switch r.ev[r.pos]["e"] {
		case "open":
			if r.ev[r.pos]["entered"] != false {
				depth++
			}
		case "close":
			depth--
		}
	}
}

func (r *replay) open(e obj) {
	b := r.stack[len(r.stack)-1].(*xtorm.Builder)
	entered := 0
	run := func(h any) error {
		if entered++; entered > 1 {
			return nil
		}
		mod := r.scribble() // the call's own arguments have been used by now
		c := r.record(e, false, nil)
		c["mod"] = mod
		c["entered"] = true
		if e["entered"] == false {
			// The contract does not ask for this callback to be run (building has
			// failed already) and the behaviour has no body for it.
			r.stack = append(r.stack, h)
			r.stack = r.stack[:len(r.stack)-1]
			r.log = append(r.log, obj{"e": "close", "op": "close", "tgt": "cur", "pan": false, "called": 0, "ret": ""})
			return nil
		}
		r.stack = append(r.stack, h)
		cl := r.body()
		r.stack = r.stack[:len(r.stack)-1]
		r.stale = append(r.stale, h)
		if cl == nil {
			cl = obj{"e": "close", "op": "close", "tgt": "cur", "pan": false, "called": 0, "ret": ""}
		}
		r.record(cl, false, nil)
		if k := cl["ret"].(string); k != "" {
			return sentinels[k]
		}
		return nil
	}
	var name string
	var cols []string
	var crit xproto.AppendExprFunc
	switch e["op"] {
	case "insf":
		name, cols = str(e["name"]), r.strings(e["cols"])
	case "updf":
		name, crit = str(e["name"]), r.crit(e["crit"])
	}
	pan, what := guard(func() {
		switch e["op"] {
		case "tx":
			b.Tx(xtorm.IsolationLevel(num(e["level"])), func(b *xtorm.Builder) error { return run(b) })
		case "expect":
			ctx := xtorm.OpenExpectCtxCopyPrev
			if num(e["ctx"]) == 1 {
				ctx = xtorm.OpenExpectCtxEmpty
			}
			b.ExpectFailOnError(ctx, func(b *xtorm.Builder) error { return run(b) })
		case "insf":
			b.InsertF(name, cols, func(i *xtorm.Insert) error { return run(i) })
		case "updf":
			b.UpdateF(name, crit, func(u *xtorm.Update) error { return run(u) })
		}
	})
	mod := r.scribble()
	if entered == 0 {
		c := r.record(e, pan, what)
		c["entered"], c["mod"] = false, mod
		if e["entered"] != false {
			r.skip()
		}
		return
	}
	c := r.record(obj{"e": "closed", "op": e["op"], "tgt": "cur", "called": 0}, pan, what)
	c["n"] = entered
}

// call prepares the arguments of a call and returns the call.
func (r *replay) call(target any, e obj) func() {
	switch op := e["op"].(string); op {
	case "row":
		i, row := target.(*xtorm.Insert), r.list(e["row"])
		if r.pos%2 == 1 {
			return func() { i.RowV(row...) }
		}
		return func() { i.Row(row) }
	case "set":
		u, name, v := target.(*xtorm.Update), str(e["name"]), r.value(e["v"].(obj))
		return func() { u.Set(name, v) }
	default:
		b := target.(*xtorm.Builder)
		switch op {
		case "stmt":
			stmt, args := str(e["stmt"]), r.list(e["args"])
			return func() { b.StmtExecute(stmt, args...) }
		case "prep":
			id, stmt := uint32(limbsToBig(e["id"]).Uint64()), str(e["stmt"])
			return func() { b.Prepare(id, stmt) }
		case "exec":
			id, args := uint32(limbsToBig(e["id"]).Uint64()), r.list(e["args"])
			return func() { b.Execute(id, args...) }
		case "dealloc":
			id := uint32(limbsToBig(e["id"]).Uint64())
			return func() { b.Deallocate(id) }
		case "ins":
			name, cols, rows := str(e["name"]), r.strings(e["cols"]), r.rows(e["rows"])
			return func() { b.Insert(name, cols, rows) }
		case "insrow":
			h, name, cols, row := num(e["h"]), str(e["name"]), r.strings(e["cols"]), r.list(e["row"])
			return func() { r.handles[h] = b.InsertRow(name, cols, row) }
		case "upd":
			name, crit, set := str(e["name"]), r.crit(e["crit"]), r.set(e["set"])
			return func() { b.Update(name, crit, set) }
		case "del":
			name, crit := str(e["name"]), r.crit(e["crit"])
			return func() { b.Delete(name, crit) }
		}
		panic("unknown call " + op)
	}
}

// misuse uses a builder or handle that must not be used any more, or not now.
func (r *replay) misuse(target any, op string, s *sink) {
	switch t := target.(type) {
	case *xtorm.Insert:
		t.RowV("misused", 1)
	case *xtorm.Update:
		t.Set("misused", 1)
	case *xtorm.Builder:
		switch op {
		case "stmt":
			t.StmtExecute("misused", 1)
		case "prep":
			t.Prepare(99, "misused")
		case "exec":
			t.Execute(99, "misused")
		case "dealloc":
			t.Deallocate(99)
		case "ins":
			t.Insert("misused", []string{"a"}, [][]interface{}{{1}})
		case "insrow":
			t.InsertRow("misused", []string{"a"}, []interface{}{1})
		case "upd":
			t.Update("misused", nil, map[string]interface{}{"a": 1})
		case "del":
			t.Delete("misused", nil)
		case "tx":
			t.Tx(xtorm.IsolationLevelDefault, func(b *xtorm.Builder) error { return nil })
		case "expect":
			t.ExpectFailOnError(xtorm.OpenExpectCtxEmpty, func(b *xtorm.Builder) error { return nil })
		case "insf":
			t.InsertF("misused", []string{"a"}, func(i *xtorm.Insert) error { i.RowV(1); return nil })
		case "updf":
			t.UpdateF("misused", nil, func(u *xtorm.Update) error { u.Set("a", 1); return nil })
		case "send":
			r.x.Send(context.Background(), s)
		case "reset":
			r.x.Reset()
		default:
			panic("unknown misuse " + op)
		}
	}
}

func replayBuilder(cap int, ev []obj) []obj { return replayShared(cap, ev, nil, nil) }

func replayShared(cap int, ev []obj, shared *sharedValues, alone []string) []obj {
	r := &replay{ev: ev, x: xtorm.New(cap), alone: alone}
	r.shared = shared
	r.handles = map[int]xproto.AppendExprFunc{}
	r.stack = []any{&r.x.Builder}
	r.body()
	return r.log
}

func builderMain(args []string) error {
	return replayAll(args, func(p program) []obj { return replayBuilder(p.Cap, p.Ev) })
}
