package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/big"
	"time"

	"github.com/renthraysk/xtorm/collation"
	"github.com/renthraysk/xtorm/slice"
	"github.com/renthraysk/xtorm/xproto"
)

func init() { commands["codec"] = codecMain }

type codecProg struct {
	Cap int   `json:"cap"`
	Len int   `json:"len"`
	Ev  []obj `json:"ev"`
}

func filled(n, cap int) []byte {
	if cap < n {
		cap = n
	}
	b := make([]byte, cap)
	for i := range b {
		b[i] = byte(i*7 + 11)
	}
	return b[:n]
}

func digits(x any) *big.Int {
	z := new(big.Int)
	for _, d := range x.([]any) {
		z.Mul(z, big.NewInt(10))
		z.Add(z, big.NewInt(int64(num(d))))
	}
	return z
}

func patch(p []byte, at int) []byte {
	binary.LittleEndian.PutUint32(p[at:], uint32(len(p)-at-4))
	return p
}

// encode prepares an encoder's arguments and returns the call.
func (v *valuer) encode(e obj) func(p []byte) ([]byte, error) {
	ok := func(f func(p []byte) []byte) func(p []byte) ([]byte, error) {
		return func(p []byte) ([]byte, error) { return f(p), nil }
	}
	var tag uint8
	if t, has := e["tag"]; has {
		tag = uint8(num(t))
	}
	id := func(k string) uint32 { return uint32(limbsToBig(e[k]).Uint64()) }
	octets := func() []byte { return v.bytes(obj{"isnil": e["isnil"], "v": e["v"]}) }
	switch e["f"] {
	case "reset":
		keep := e["keep"].(bool)
		return ok(func(p []byte) []byte { return xproto.Reset(p, keep) })
	case "stmt":
		s, a := str(e["stmt"]), v.list(e["args"])
		return func(p []byte) ([]byte, error) { return xproto.StmtExecute(p, s, a) }
	case "prep":
		n, s := id("id"), str(e["stmt"])
		return ok(func(p []byte) []byte { return xproto.Prepare(p, n, s) })
	case "exec":
		n, a := id("id"), v.list(e["args"])
		return func(p []byte) ([]byte, error) { return xproto.Execute(p, n, a) }
	case "dealloc":
		n := id("id")
		return ok(func(p []byte) []byte { return xproto.Deallocate(p, n) })
	case "ins":
		name, cols, rows := str(e["name"]), v.strings(e["cols"]), v.rows(e["rows"])
		return func(p []byte) ([]byte, error) {
			at := len(p)
			p = xproto.Insert(p, name, cols)
			for _, r := range rows {
				var err error
				if p, err = xproto.AppendInsertRow(p, r); err != nil {
					return p, err
				}
			}
			return patch(p, at), nil
		}
	case "upd":
		name, crit := str(e["name"]), v.crit(e["crit"])
		var names []string
		var vals []interface{}
		for _, x := range e["set"].([]any) {
			names = append(names, str(x.(obj)["name"]))
			vals = append(vals, v.value(x.(obj)["v"].(obj)))
		}
		return func(p []byte) ([]byte, error) {
			at := len(p)
			p, err := xproto.Update(p, name, crit)
			if err != nil {
				return p, err
			}
			for i := range names {
				if p, err = xproto.AppendUpdateSet(p, names[i], vals[i]); err != nil {
					return p, err
				}
			}
			return patch(p, at), nil
		}
	case "del":
		name, crit := str(e["name"]), v.crit(e["crit"])
		return func(p []byte) ([]byte, error) { return xproto.Delete(p, name, crit) }
	case "eopen":
		op := xproto.OpenExpectCtxCopyPrev
		if num(e["ctx"]) == 1 {
			op = xproto.OpenExpectCtxEmpty
		}
		var conds []xproto.OpenCondition
		fields := map[string]xproto.OpenCondition{} // one condition may serve again
		for _, x := range e["conds"].([]any) {
			if c := x.(obj); c["c"] == "noerror" {
				conds = append(conds, xproto.OpenConditionExpectNoError(c["x"].(bool)))
			} else {
				f := str(c["v"])
				if fields[f] == nil {
					fields[f] = xproto.OpenConditionExpectFieldExists(f)
				}
				conds = append(conds, fields[f])
			}
		}
		return ok(func(p []byte) []byte { return xproto.ExpectOpen(p, op, conds...) })
	case "eclose":
		return ok(xproto.ExpectClose)
	case "cap":
		name, x := str(e["name"]), e["x"].(bool)
		return func(p []byte) ([]byte, error) { return xproto.CapabilitySet(name, x) }
	case "astart":
		mech, data := str(e["mech"]), untokens(e["data"])
		v.slices = append(v.slices, keep(data))
		return ok(func(p []byte) []byte { return xproto.AuthenticateStart(p, mech, data) })
	case "acont":
		data := untokens(e["data"])
		v.slices = append(v.slices, keep(data))
		return ok(func(p []byte) []byte { return xproto.AuthenticateContinue(p, data) })
	case "anybytes":
		b, ct := octets(), xproto.ContentType(num(e["ct"]))
		return ok(func(p []byte) []byte { return xproto.AppendAnyBytes(p, tag, b, ct) })
	case "exprbytes":
		b, ct := octets(), xproto.ContentType(num(e["ct"]))
		return ok(func(p []byte) []byte { return xproto.AppendExprBytes(p, tag, b, ct) })
	case "anybytesstring":
		s, ct := str(e["v"]), xproto.ContentType(num(e["ct"]))
		return ok(func(p []byte) []byte { return xproto.AppendAnyBytesString(p, tag, s, ct) })
	case "exprbytesstring":
		s, ct := str(e["v"]), xproto.ContentType(num(e["ct"]))
		return ok(func(p []byte) []byte { return xproto.AppendExprBytesString(p, tag, s, ct) })
	case "anystring":
		s, c := str(e["v"]), collation.Collation(id("coll"))
		return ok(func(p []byte) []byte { return xproto.AppendAnyString(p, tag, s, c) })
	case "exprstring":
		s, c := str(e["v"]), collation.Collation(id("coll"))
		return ok(func(p []byte) []byte { return xproto.AppendExprString(p, tag, s, c) })
	case "exprop":
		name, a := str(e["name"]), v.list(e["args"])
		if e["how"] == "V" {
			return func(p []byte) ([]byte, error) { return xproto.AppendExprOperatorV(p, tag, name, a...) }
		}
		return func(p []byte) ([]byte, error) { return xproto.AppendExprOperator(p, tag, name, a) }
	case "exprfn":
		name, a := str(e["name"]), v.list(e["args"])
		if e["how"] == "V" {
			return func(p []byte) ([]byte, error) { return xproto.AppendExprFunctionCallV(p, tag, name, a...) }
		}
		return func(p []byte) ([]byte, error) { return xproto.AppendExprFunctionCall(p, tag, name, a) }
	case "col":
		name := str(e["name"])
		return func(p []byte) ([]byte, error) { return xproto.AppendExprColumn(p, tag, name) }
	case "var":
		name := str(e["name"])
		return func(p []byte) ([]byte, error) { return xproto.AppendExprVariable(p, tag, name) }
	case "pos":
		n := id("m")
		return func(p []byte) ([]byte, error) { return xproto.AppendExprPlaceholder(p, tag, n) }
	case "row":
		row := v.list(e["row"])
		return func(p []byte) ([]byte, error) { return xproto.AppendInsertRow(p, row) }
	case "set":
		name, x := str(e["name"]), v.value(e["v"].(obj))
		return func(p []byte) ([]byte, error) { return xproto.AppendUpdateSet(p, name, x) }
	case "dur":
		z := digits(e["ns"])
		if e["neg"] == true {
			z.Neg(z)
		}
		d := time.Duration(z.Int64())
		return ok(func(p []byte) []byte { return xproto.AppendDuration(p, d) })
	}
	panic("unknown encoder")
}

func replayCodec(b codecProg) []obj {
	var v valuer
	var log []obj
	buf := filled(b.Len, b.Cap)
	for _, e := range b.Ev {
		was := append([]byte(nil), buf...)
		switch e["f"] {
		case "forappend", "alloc", "insert":
			c := clone(e)
			log = append(log, c)
			buf = sliceCall(c, buf, was)
			continue
		}
		call := v.encode(e)
		alone := e["f"] == "cap" || e["f"] == "astart" || e["f"] == "acont"
		one := func(buf []byte) (c obj, new, full []byte) {
			var out []byte
			var err error
			c = clone(e)
			pan, what := guard(func() { out, err = call(buf) })
			c["pan"] = pan
			if pan {
				c["panic"] = fmt.Sprint(what)
			}
			c["err"] = errClass(err)
			full = out
			kept := bytes.Equal(buf, was)
			switch {
			case pan || err != nil:
				out, full = nil, nil
			case !alone && !bytes.HasPrefix(out, was):
				kept, out, full = false, nil, nil
			case !alone:
				out = out[len(was):]
			}
			c["kept"] = kept
			c["new"] = tokens(out)
			return c, out, full
		}
		// What was made of the same arguments before, and has been overwritten
		// since, is of no consequence.
		c0, new, full0 := one(append(make([]byte, 0, len(was)+64), was...))
		first := append([]byte(nil), new...)
		for i := range full0 {
			full0[i] ^= 0x5A
		}
		c, new, full := one(buf)
		c["mod"] = v.scribble()
		c0["mod"] = c["mod"]
		if c0["pan"] != c["pan"] || c0["err"] != c["err"] || c0["kept"] != c["kept"] || !bytes.Equal(first, new) {
			log = append(log, c0)
		}
		log = append(log, c)
		kept := c["kept"] == true
		// a result is what the next encoder is given, with whatever is behind it
		if full != nil && !alone && kept {
			if buf = full; len(buf) > 1<<20 {
				buf = filled(b.Len, b.Cap)
			}
		}
	}
	return log
}

// sliceCall calls a helper of package slice, and records what became of the buffer.
func sliceCall(c obj, buf, was []byte) []byte {
	n := num(c["n"])
	c["err"], c["mod"], c["tail"], c["kept"], c["new"], c["room"] = "", false, false, false, []int{}, 0
	next := buf
	pan, what := guard(func() {
		switch c["f"] {
		case "forappend":
			head, tail := slice.ForAppend(buf, n)
			for i := range tail {
				tail[i] = byte(0x40 + i)
			}
			c["kept"] = bytes.HasPrefix(head, was) && bytes.Equal(buf, was)
			rest := head[min(len(was), len(head)):]
			same := len(rest) == len(tail)
			for i := range rest {
				same = same && i < len(tail) && rest[i] == byte(0x40+i)
			}
			c["tail"], c["new"] = same, tokens(rest)
			next = head
		case "alloc":
			head, own := slice.Allocate(buf, n)
			for i := range own {
				own[i] = byte(0x80 + i)
			}
			// what is appended to the first result does not disturb the second
			_ = append(head, 1, 2, 3, 4)
			same := true
			for i := range own {
				same = same && own[i] == byte(0x80+i)
			}
			c["kept"], c["tail"], c["room"] = bytes.Equal(buf, was), same, len(own)
		case "insert":
			pos := len(buf) - num(c["pos"])
			out := slice.Insert(buf, pos, n)
			c["kept"] = len(out) >= pos && bytes.Equal(out[:pos], was[:pos])
			if len(out) >= pos+n {
				c["new"] = tokens(out[pos : pos+n])
				c["tail"] = bytes.Equal(out[pos+n:], was[pos:])
			}
			next = out
		}
	})
	c["pan"] = pan
	if pan {
		c["panic"] = fmt.Sprint(what)
		next = was
	}
	return next
}

func codecMain(args []string) error {
	out, err := create(args[1])
	if err != nil {
		return err
	}
	n := 0
	err = eachLine(args[0], func(line []byte) error {
		n++
		progress(out, n)
		var b codecProg
		if err := json.Unmarshal(line, &b); err != nil {
			return err
		}
		defer watchdog().Stop()
		return out.put(obj{"id": n, "ev": replayCodec(b)})
	})
	if err != nil {
		return err
	}
	return out.Close()
}
