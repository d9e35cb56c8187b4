package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/golang/protobuf/proto"
	"github.com/renthraysk/xtorm"
	"github.com/renthraysk/xtorm/netx"
	"github.com/renthraysk/xtorm/netx/connection"
	"github.com/renthraysk/xtorm/netx/pool"
	"github.com/renthraysk/xtorm/netx/pool/fifoch"
	"github.com/renthraysk/xtorm/protobuf/mysqlx"
	"github.com/renthraysk/xtorm/protobuf/mysqlx_crud"
	"github.com/renthraysk/xtorm/protobuf/mysqlx_expect"
	"github.com/renthraysk/xtorm/protobuf/mysqlx_prepare"
	"github.com/renthraysk/xtorm/protobuf/mysqlx_sql"
)

func init() { commands["system"] = systemMain }

// A program of units of work, see SystemCases.tla.
type sysProgram struct {
	Size   int             `json:"size"`
	Quiet  bool            `json:"quiet"` // closing a failed expectation block is not an error
	Calm   bool            `json:"calm"`
	Units  json.RawMessage `json:"units"`
	units  []sysUnit
	Phases []struct {
		How string  `json:"how"`
		Ops []sysOp `json:"ops"`
	} `json:"phases"`
	Mode  string `json:"mode"`
	Bound int    `json:"bound"`
	Seed  int64  `json:"seed"`
	Sched []int  `json:"sched"`
}

type sysOp struct {
	K string `json:"k"` // unit, close, kill
	U int    `json:"u"`
}

type sysUnit struct {
	Kind  string   `json:"kind"`
	Iso   int      `json:"iso"`
	Ctx   string   `json:"ctx"`
	Stmts []string `json:"stmts"`
	Post  bool     `json:"post"` // deallocate what was prepared
	Pipe  int      `json:"pipe"` // shared XPipe, 0: its own
	Done  bool     `json:"done"` // its context is done
	Chat  string   `json:"chat"` // none, notices, big, bytes
	Pace  string   `json:"pace"` // eager, lazy
	Late  string   `json:"late"` // what the server does with what it has received when the client is gone: drop, now, end
	Fault []struct {
		At int    `json:"at"`
		Do string `json:"do"`
	} `json:"fault"`
}

// ---- the server

type sysBlock struct{ noerr, failed bool }

type effect struct{ u, i int }

type sysConn struct {
	r       *sysRun
	c       int
	in      []byte
	out     []byte
	u       *sysUnit // whose messages are being handled
	idx     int
	begins  []begin // units whose bytes begin at an offset of all received
	got     int     // bytes handled
	closed  bool    // by the client
	live    bool    // the session
	mute    string  // no answers any more: how that looks to the client
	wreset  bool    // writes fail
	tx      bool
	blocks  []sysBlock
	prep    map[uint32]effect
	pending bool // handle the rest at the end
	total   int
}

type begin struct {
	at int
	u  *sysUnit
}

type sysRun struct {
	mu    sync.Mutex
	b     *sysProgram
	ev    []obj
	conns []*sysConn
	bufs  [][]byte // of the units, as handed to Send
	tries []int
	pipes map[int]*xtorm.XPipe
	ths   map[int]*thread
	dead  bool
}

func (r *sysRun) log(e obj) {
	if !r.dead {
		r.ev = append(r.ev, e)
	}
}

type sysConnector struct{ r *sysRun }

func (f sysConnector) New(ctx context.Context) (netx.Conn, error) {
	yield()
	r := f.r
	r.mu.Lock()
	defer r.mu.Unlock()
	c := &sysConn{r: r, c: len(r.conns) + 1, live: true, prep: map[uint32]effect{}}
	r.conns = append(r.conns, c)
	r.log(obj{"e": "session"})
	return connection.New(c), nil
}

func (c *sysConn) LocalAddr() net.Addr              { return nil }
func (c *sysConn) RemoteAddr() net.Addr             { return nil }
func (c *sysConn) SetDeadline(time.Time) error      { return nil }
func (c *sysConn) SetReadDeadline(time.Time) error  { return nil }
func (c *sysConn) SetWriteDeadline(time.Time) error { return nil }

func (c *sysConn) end() {
	if c.live {
		c.live = false
		c.r.log(obj{"e": "end", "c": c.c})
	}
}

func (c *sysConn) Close() error {
	yield()
	c.r.mu.Lock()
	defer c.r.mu.Unlock()
	if c.closed {
		return net.ErrClosed
	}
	c.closed = true
	if !c.live {
		return nil
	}
	late := "drop"
	if c.u != nil {
		late = c.u.Late
	}
	switch late {
	case "now":
		c.rest()
		c.end()
	case "end":
		c.pending = true
	default:
		c.end()
	}
	return nil
}

// rest handles everything received.
func (c *sysConn) rest() {
	for c.live && c.handle() {
	}
}

func (c *sysConn) Write(b []byte) (int, error) {
	yield()
	r := c.r
	r.mu.Lock()
	defer r.mu.Unlock()
	if c.closed {
		return 0, net.ErrClosed
	}
	if c.wreset {
		return 0, errors.New("connection reset by peer")
	}
	if !c.live {
		return len(b), nil // nobody is listening, but that shows later
	}
	n := len(b)
	for i, ub := range r.bufs {
		if len(b) > 0 && ub != nil && bytes.HasPrefix(ub, b) {
			u := &r.b.units[i]
			r.tries[i]++
			if r.tries[i] > 1 { // sent again: nothing happens to it this time
				v := *u
				v.Fault = nil
				u = &v
			}
			c.begins = append(c.begins, begin{c.total, u})
			if c.u == nil {
				c.u = u
			}
			if t := r.ths[i+1]; t != nil {
				t.used = true
			}
			for _, f := range u.Fault {
				if f.Do == "wcut" {
					n = 0
					for k := 1; k < f.At && n+4 <= len(b); k++ {
						n += 4 + int(binary.LittleEndian.Uint32(b[n:]))
					}
					if n+2 < len(b) {
						n += 2
					} else {
						n = len(b) - 1
					}
				}
			}
			if u.Pace == "eager" {
				defer c.rest()
			}
			break
		}
	}
	c.in = append(c.in, b[:n]...)
	c.total += n
	if n < len(b) {
		c.mute, c.wreset = "eof", true
		return n, errors.New("broken pipe")
	}
	return n, nil
}

func (c *sysConn) Read(p []byte) (int, error) {
	first := true
	for {
		c.r.mu.Lock()
		if c.closed {
			c.r.mu.Unlock()
			return 0, net.ErrClosed
		}
		if len(c.out) > 0 {
			n := len(p)
			if c.u != nil && c.u.Chat == "bytes" && n > 1 {
				n = 1
			}
			n = copy(p[:n], c.out)
			c.out = c.out[n:]
			c.r.mu.Unlock()
			return n, nil
		}
		if c.mute == "eof" || (c.mute == "" && !c.live) {
			c.r.mu.Unlock()
			return 0, io.EOF
		}
		if c.mute == "late" {
			c.r.mu.Unlock()
			return 0, os.ErrDeadlineExceeded
		}
		if first {
			first = false
			c.r.mu.Unlock()
			yield()
			continue
		}
		if !c.handle() && len(c.out) == 0 && c.live && c.mute == "" {
			c.r.mu.Unlock()
			return 0, os.ErrDeadlineExceeded // nothing left to answer
		}
		c.r.mu.Unlock()
	}
}

var effectName = regexp.MustCompile(`u(\d+)e(\d+)`)

func effectOf(s string) (effect, bool) {
	m := effectName.FindStringSubmatch(s)
	if m == nil {
		return effect{}, false
	}
	u, _ := strconv.Atoi(m[1])
	i, _ := strconv.Atoi(m[2])
	return effect{u, i}, true
}

// decode says what a message asks for, in the terms of Server.tla.
func decode(t byte, p []byte) obj {
	m := obj{"k": "bad", "u": 0, "i": 0, "id": 0, "op": "", "cond": "", "do": "ok"}
	eff := func(k, name string) {
		if e, ok := effectOf(name); ok {
			m["k"], m["u"], m["i"] = k, e.u, e.i
		}
	}
	sql := func(s string) {
		w := strings.ToUpper(strings.Join(strings.Fields(s), " "))
		w = strings.TrimSuffix(w, ";")
		switch {
		case w == "START TRANSACTION", w == "BEGIN", w == "START TRANSACTION WITH CONSISTENT SNAPSHOT":
			m["k"] = "start"
		case w == "COMMIT":
			m["k"] = "commit"
		case w == "ROLLBACK":
			m["k"] = "rollback"
		case strings.HasPrefix(w, "SET TRANSACTION"):
			m["k"] = "iso"
		case strings.HasPrefix(w, "SET "):
			m["k"] = "set"
		default:
			eff("eff", s)
		}
	}
	switch mysqlx.ClientMessages_Type(t) {
	case mysqlx.ClientMessages_SQL_STMT_EXECUTE:
		var x mysqlx_sql.StmtExecute
		if proto.Unmarshal(p, &x) == nil {
			sql(string(x.GetStmt()))
		}
	case mysqlx.ClientMessages_CRUD_INSERT:
		var x mysqlx_crud.Insert
		if proto.Unmarshal(p, &x) == nil && len(x.GetRow()) > 0 {
			eff("eff", x.GetCollection().GetName())
		}
	case mysqlx.ClientMessages_CRUD_UPDATE:
		var x mysqlx_crud.Update
		if proto.Unmarshal(p, &x) == nil && len(x.GetOperation()) > 0 {
			eff("eff", x.GetCollection().GetName())
		}
	case mysqlx.ClientMessages_CRUD_DELETE:
		var x mysqlx_crud.Delete
		if proto.Unmarshal(p, &x) == nil {
			eff("eff", x.GetCollection().GetName())
		}
	case mysqlx.ClientMessages_PREPARE_PREPARE:
		var x mysqlx_prepare.Prepare
		if proto.Unmarshal(p, &x) == nil {
			eff("prep", string(x.GetStmt().GetStmtExecute().GetStmt()))
			m["id"] = int(x.GetStmtId())
		}
	case mysqlx.ClientMessages_PREPARE_EXECUTE:
		var x mysqlx_prepare.Execute
		if proto.Unmarshal(p, &x) == nil {
			m["k"], m["id"] = "exec", int(x.GetStmtId())
		}
	case mysqlx.ClientMessages_PREPARE_DEALLOCATE:
		var x mysqlx_prepare.Deallocate
		if proto.Unmarshal(p, &x) == nil {
			m["k"], m["id"] = "dealloc", int(x.GetStmtId())
		}
	case mysqlx.ClientMessages_EXPECT_OPEN:
		var x mysqlx_expect.Open
		m["k"], m["op"], m["cond"] = "open", "copy", "none"
		if proto.Unmarshal(p, &x) != nil {
			m["cond"] = "bad"
			break
		}
		if x.GetOp() == mysqlx_expect.Open_EXPECT_CTX_EMPTY {
			m["op"] = "empty"
		}
		for _, c := range x.GetCond() {
			switch {
			case c.GetConditionKey() == uint32(mysqlx_expect.Open_Condition_EXPECT_FIELD_EXIST):
			case c.GetConditionKey() != uint32(mysqlx_expect.Open_Condition_EXPECT_NO_ERROR):
				m["cond"] = "bad"
			case c.GetOp() == mysqlx_expect.Open_Condition_EXPECT_OP_UNSET:
				m["cond"] = "0"
			case string(c.GetConditionValue()) == "1", len(c.GetConditionValue()) == 0:
				m["cond"] = "1"
			case string(c.GetConditionValue()) == "0":
				m["cond"] = "0"
			default:
				m["cond"] = "bad"
			}
		}
	case mysqlx.ClientMessages_EXPECT_CLOSE:
		m["k"] = "close"
	}
	return m
}

// handle takes the next message received: false if there is none.
func (c *sysConn) handle() bool {
	if !c.live || len(c.in) < 5 {
		return false
	}
	n := int(binary.LittleEndian.Uint32(c.in))
	if n < 1 || n > 1<<24 { // not a message at all
		c.end()
		return false
	}
	if len(c.in) < 4+n {
		return false
	}
	for len(c.begins) > 0 && c.begins[0].at <= c.got {
		c.u, c.idx = c.begins[0].u, 0
		c.begins = c.begins[1:]
	}
	c.idx++
	m := decode(c.in[4], c.in[5:4+n])
	fault := ""
	if c.u != nil {
		for _, f := range c.u.Fault {
			if f.At == c.idx {
				fault = f.Do
			}
		}
	}
	if fault == "cut" {
		c.end()
		return false
	}
	c.in = c.in[4+n:]
	c.got += 4 + n
	if fault == "err" || fault == "fatal" {
		m["do"] = fault
	}
	res := c.apply(m)
	c.r.log(obj{"e": "msg", "c": c.c, "m": m, "r": res})
	switch fault {
	case "mute":
		c.mute = "eof"
	case "late":
		c.mute = "late"
	}
	if c.mute == "" {
		a := c.answer(m, res)
		switch fault {
		case "lost":
			a = nil
		case "half":
			a = a[:len(a)/2]
		}
		c.out = append(c.out, a...)
	}
	if res == "fatal" || fault == "lost" || fault == "half" {
		if res == "fatal" {
			c.live = false // by itself
		}
		c.end()
	}
	return true
}

// apply is Handle of Server.tla without what is committed, which is left to TLC.
func (c *sysConn) apply(m obj) string {
	top := len(c.blocks) - 1
	failed := top >= 0 && c.blocks[top].failed
	do := m["do"].(string)
	id := uint32(m["id"].(int))
	if do == "fatal" {
		return do
	}
	bad := do == "err"
	switch m["k"] {
	case "open":
		cp := m["op"] == "copy" && top >= 0
		bad = bad || m["cond"] == "bad" || cp && failed
		noerr := m["cond"] == "1" || m["cond"] != "0" && cp && c.blocks[top].noerr
		c.blocks = append(c.blocks, sysBlock{noerr, bad})
		return answerOf(bad)
	case "close":
		if top < 0 {
			return "err"
		}
		c.blocks = c.blocks[:top]
		return answerOf(bad || failed && !c.r.b.Quiet)
	}
	if failed {
		return "err"
	}
	if !bad {
		switch m["k"] {
		case "start":
			c.tx = true
		case "commit", "rollback":
			c.tx = false
		case "iso":
			bad = c.tx
		case "set", "eff":
		case "prep":
			c.prep[id] = effect{m["u"].(int), m["i"].(int)}
		case "exec", "dealloc":
			_, ok := c.prep[id]
			bad = !ok
			if m["k"] == "dealloc" {
				delete(c.prep, id)
			}
		default:
			bad = true
		}
	}
	if bad && top >= 0 && c.blocks[top].noerr {
		c.blocks[top].failed = true
	}
	return answerOf(bad)
}

func answerOf(bad bool) string {
	if bad {
		return "err"
	}
	return "ok"
}

func (c *sysConn) answer(m obj, res string) (b []byte) {
	chat := "none"
	if c.u != nil {
		chat = c.u.Chat
	}
	if chat == "notices" || chat == "big" {
		n := 9
		if chat == "big" {
			n = 5000
		}
		b = append(b, frame(byte(mysqlx.ServerMessages_NOTICE), filler(n))...)
		if m["k"] == "eff" || m["k"] == "exec" {
			b = append(b, frame(byte(mysqlx.ServerMessages_RESULTSET_ROW), filler(n))...)
			b = append(b, frame(byte(mysqlx.ServerMessages_RESULTSET_FETCH_DONE), nil)...)
		}
	}
	if res != "ok" {
		e := obj{"t": 1.0, "sev": 0.0, "code": 5159.0, "state": "HY000", "msg": "Expectation failed: no_error"}
		if m["do"] != "ok" {
			e["code"], e["msg"] = 1062.0, "Duplicate entry"
		}
		if res == "fatal" {
			e["sev"], e["code"], e["msg"] = 1.0, 1053.0, "Server shutdown in progress"
		}
		if chat == "big" {
			e["msg"] = "#6000"
		}
		return append(b, serverMessage(e)...)
	}
	switch m["k"] {
	case "open", "close", "prep", "dealloc":
		return append(b, frame(byte(mysqlx.ServerMessages_OK), nil)...)
	}
	return append(b, frame(byte(mysqlx.ServerMessages_SQL_STMT_EXECUTE_OK), nil)...)
}

// ---- the client

func (u *sysUnit) build(b *xtorm.Builder, id int) {
	name := func(i int) string { return fmt.Sprintf("u%de%d", id, i) }
	body := func(b *xtorm.Builder) error {
		for k, s := range u.Stmts {
			i := k + 1
			switch s {
			case "insert":
				b.Insert(name(i), []string{"a", "b"}, [][]interface{}{{int64(id), "x"}, {uint64(7), nil}})
			case "insertf":
				b.InsertF(name(i), []string{"a"}, func(in *xtorm.Insert) error { in.RowV(int64(i)); in.Row([]interface{}{true}); return nil })
			case "insertrow":
				b.InsertRow(name(i), []string{"a"}, []interface{}{int64(id)})
			case "update":
				b.Update(name(i), nil, map[string]interface{}{"a": int64(1)})
			case "updatef":
				b.UpdateF(name(i), nil, func(up *xtorm.Update) error { up.Set("a", "v"); up.Set("b", int64(2)); return nil })
			case "delete":
				b.Delete(name(i), nil)
			case "stmt":
				b.StmtExecute("INSERT INTO " + name(i) + " VALUES (1)")
			case "stmta":
				b.StmtExecute("INSERT INTO "+name(i)+" VALUES (?, ?)", int64(id), strings.Repeat("y", 300))
			case "exec":
				b.Execute(uint32(i), int64(id))
			case "refused":
				b.StmtExecute("INSERT INTO "+name(i)+" VALUES (?)", struct{}{})
			case "gaveup":
				return errors.New("the application gave up")
			default:
				panic("vdrive: " + s)
			}
		}
		return nil
	}
	prep := func(b *xtorm.Builder) {
		for k, s := range u.Stmts {
			if s == "exec" {
				b.Prepare(uint32(k+1), "INSERT INTO "+name(k+1)+" VALUES (?)")
			}
		}
	}
	post := func(b *xtorm.Builder) {
		for k, s := range u.Stmts {
			if s == "exec" && u.Post {
				b.Deallocate(uint32(k + 1))
			}
		}
	}
	switch u.Kind {
	case "full", "bad":
		op := xtorm.OpenExpectCtxEmpty
		if u.Ctx == "copy" {
			op = xtorm.OpenExpectCtxCopyPrev
		}
		b.ExpectFailOnError(op, func(b *xtorm.Builder) error {
			prep(b)
			b.Tx(xtorm.IsolationLevel(u.Iso), body)
			post(b)
			return nil
		})
	case "tx":
		prep(b)
		b.Tx(xtorm.IsolationLevel(u.Iso), body)
		post(b)
	case "bare":
		prep(b)
		body(b)
		post(b)
	case "open":
		prep(b)
		b.StmtExecute("START TRANSACTION")
		body(b)
	default:
		panic("vdrive: " + u.Kind)
	}
}

// spy notes what a unit of work looks like before it goes to the pool.
type spy struct {
	r *sysRun
	u int
	p pool.Pool
}

func (s spy) Send(ctx context.Context, b []byte) ([]netx.Response, error) {
	s.r.mu.Lock()
	s.r.bufs[s.u-1] = append([]byte{}, b...)
	s.r.mu.Unlock()
	return s.p.Send(ctx, b)
}

func (r *sysRun) do(p pool.Pool, o sysOp) {
	defer func() {
		if x := recover(); x != nil {
			r.mu.Lock()
			r.log(obj{"e": "panic", "what": fmt.Sprint(x)})
			r.mu.Unlock()
		}
	}()
	switch o.K {
	case "unit":
		u := &r.b.units[o.U-1]
		r.mu.Lock()
		r.log(obj{"e": "call", "u": o.U})
		x := r.pipes[u.Pipe]
		if x == nil {
			x = xtorm.New(64)
			if u.Pipe > 0 {
				r.pipes[u.Pipe] = x
			}
		} else {
			x.Reset()
		}
		r.mu.Unlock()
		u.build(&x.Builder, o.U)
		ctx := newCtx(o.U)
		if u.Done {
			close(ctx.done)
		}
		resp, err := x.Send(ctx, spy{r, o.U, p})
		rs := make([]string, len(resp))
		for i, q := range resp {
			rs[i] = "ok"
			if _, bad := q.(error); bad {
				rs[i] = "err"
			}
		}
		r.mu.Lock()
		r.log(obj{"e": "ret", "u": o.U, "err": err != nil, "resp": rs})
		r.mu.Unlock()
	case "close":
		p.Close(context.Background())
	case "kill", "killw": // the server drops the sessions that have nothing to do
		r.mu.Lock()
		for _, c := range r.conns {
			if len(c.in) == 0 && !c.closed {
				c.end()
				c.wreset = o.K == "killw"
			}
		}
		r.mu.Unlock()
	default:
		panic("vdrive: " + o.K)
	}
}

func runSystem(b *sysProgram, ch chooser) (ev []obj, picks []int, hang bool) {
	r := &sysRun{b: b, bufs: make([][]byte, len(b.units)), tries: make([]int, len(b.units)), pipes: map[int]*xtorm.XPipe{}, ths: map[int]*thread{}}
	s := newSched()
	s.free = b.Mode == "free"
	theSched = s
	p := pool.Pool(fifoch.New(sysConnector{r}, b.Size))
	ok := true
	for _, ph := range b.Phases {
		if s.free {
			ok = together(len(ph.Ops), func(i int) { r.do(p, ph.Ops[i]) })
			if !ok {
				break
			}
			continue
		}
		var ts []*thread
		for i, o := range ph.Ops {
			o := o
			t := s.add(i+1, func(t *thread) { r.do(p, o) })
			ts = append(ts, t)
			if o.K == "unit" {
				r.ths[o.U] = t
			}
		}
		switch ph.How {
		case "race":
			ok = s.race(ts, ch, &picks, hangLimit)
		case "hold":
			for _, t := range ts {
				ok = ok && s.solo(t, true, hangLimit)
			}
			fallthrough
		case "seq":
			for _, t := range ts {
				ok = ok && s.solo(t, false, hangLimit)
			}
		default:
			panic("vdrive: " + ph.How)
		}
		if !ok {
			break
		}
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	if !ok {
		r.log(obj{"e": "hang"})
	}
	for _, c := range r.conns {
		if c.pending {
			c.rest()
		}
		c.end()
	}
	r.log(obj{"e": "fin"})
	r.dead = true
	return r.ev, picks, !ok
}

func together(n int, f func(i int)) bool {
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-start
			f(i)
		}(i)
	}
	close(start)
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
		return true
	case <-time.After(hangLimit):
		return false
	}
}

func systemMain(args []string) error {
	out, err := create(args[1])
	if err != nil {
		return err
	}
	limit := 1 << 30
	if len(args) > 2 {
		limit, _ = strconv.Atoi(args[2])
	}
	n, runs, capped, histories := 0, 0, 0, 0
	stop := errors.New("stop")
	err = eachLine(args[0], func(line []byte) error {
		n++
		progress(out, n)
		var b sysProgram
		if err := json.Unmarshal(line, &b); err != nil {
			return err
		}
		if err := json.Unmarshal(b.Units, &b.units); err != nil {
			return err
		}
		seen := map[[32]byte]bool{}
		one := func(ch chooser) (bool, error) {
			runs++
			defer watchdog().Stop()
			ev, picks, hang := runSystem(&b, ch)
			j, err := json.Marshal(ev)
			if err != nil {
				return false, err
			}
			h := sha256.Sum256(j)
			if !seen[h] {
				seen[h] = true
				histories++
				if err := out.put(obj{"id": n, "units": b.Units, "quiet": b.Quiet, "calm": b.Calm, "ev": json.RawMessage(j), "sched": append([]int{}, picks...)}); err != nil {
					return false, err
				}
			}
			return hang, nil
		}
		return explore(b.Mode, b.Bound, b.Seed, b.Sched, limit, &capped, stop, one)
	})
	if err == stop {
		err = nil
	}
	if err != nil {
		return err
	}
	fmt.Printf("STATS {\"programs\": %d, \"executions\": %d, \"capped\": %d, \"histories\": %d}\n", n, runs, capped, histories)
	return out.Close()
}
