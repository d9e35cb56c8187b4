package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/renthraysk/xtorm/netx"
	"github.com/renthraysk/xtorm/netx/connection"
	"github.com/renthraysk/xtorm/netx/pool"
	"github.com/renthraysk/xtorm/netx/pool/fifoch"
	"github.com/renthraysk/xtorm/protobuf/mysqlx"
)

func init() { commands["pool"] = poolMain }

// A pool program. Its phases run one after the other: "seq" runs the operations
// one after the other, "hold" lets every one of them get hold of a connection
// before the first goes on, "race" interleaves them.
type poolProgram struct {
	Size   int `json:"size"`
	Phases []struct {
		How string   `json:"how"`
		Ops []poolOp `json:"ops"`
	} `json:"phases"`
	Mode  string `json:"mode"`  // dfs, random or free
	Bound int    `json:"bound"` // dfs: preemptions; otherwise: executions
	Seed  int64  `json:"seed"`
	Sched []int  `json:"sched"` // this schedule only
}

type poolOp struct {
	K    string `json:"k"`    // send, close, cancel
	Dial string `json:"dial"` // ok, fail
	Use  string `json:"use"`  // ok, none, err, errx, errr, eof, ctx, resp, resp1
	Ctx  string `json:"ctx"`  // live, done, or done while: use, dial
	S    int    `json:"s"`    // cancel: which send, counting operations from 1
}

type poolRun struct {
	mu    sync.Mutex
	ev    []obj
	ops   []*opState
	conns int
	dead  bool // the history is over

	behind atomic.Int32 // calls of Close in progress
}

type opState struct {
	poolOp
	id   int
	ctx  *poolCtx
	buf  []byte
	resp []netx.Response
	err  error // of the use
	derr error // of the dial
	used bool
	t    *thread
}

func (r *poolRun) log(e obj) {
	if !r.dead {
		r.ev = append(r.ev, e)
	}
}

func (r *poolRun) put(e obj) {
	r.mu.Lock()
	r.log(e)
	r.mu.Unlock()
}

// expire makes the context of a Send done if this is the time for it.
func (r *poolRun) expire(o *opState, when string) {
	if o.Ctx == when {
		r.log(obj{"e": "cancel", "s": o.id})
		o.ctx.cancel()
	}
}

// background holds up a goroutine the scheduler does not know: one that was
// started by the code under test and may be late.
func (r *poolRun) background() {
	r.behind.Add(1)
	if s := theSched; !s.free && s.self() == nil {
		time.Sleep(time.Millisecond)
	}
}

// settle waits for such goroutines.
func (r *poolRun) settle(free bool) {
	if !slowIdentity {
		return // there are none
	}
	for i := 0; i < 50; i++ {
		runtime.Gosched()
	}
	if free {
		time.Sleep(5 * time.Millisecond)
	}
	for t0 := time.Now(); r.behind.Load() > 0 && time.Since(t0) < 5*time.Second; {
		time.Sleep(200 * time.Microsecond)
	}
}

type sendKey struct{}

type poolCtx struct {
	id   int
	nodl bool // it has no deadline
	done chan struct{}
	mu   sync.Mutex
	err  error
}

func (c *poolCtx) Deadline() (time.Time, bool) {
	if c.nodl {
		return time.Time{}, false
	}
	return vtime(c.id), true
}

// is says whether ctx is this one, or one that ends exactly when this one does.
func (c *poolCtx) is(ctx context.Context) bool {
	d, ok := ctx.Deadline()
	e, has := c.Deadline()
	if ok != has || !d.Equal(e) || ctx.Done() == nil {
		return false
	}
	for i := 0; c.Err() != nil && ctx.Err() == nil; i++ {
		if i == 500 {
			return false
		}
		time.Sleep(time.Millisecond) // it may take a goroutine to pass it on
	}
	return true
}
func (c *poolCtx) Done() <-chan struct{} { return c.done }
func (c *poolCtx) Err() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.err
}
func (c *poolCtx) Value(k any) any {
	if k == (sendKey{}) {
		return c.id
	}
	return nil
}
func (c *poolCtx) cancel() {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.err == nil {
		c.err = fmt.Errorf("context of send %d is done", c.id)
		close(c.done)
	}
}

func (r *poolRun) byCtx(ctx context.Context) *opState {
	if ctx == nil {
		return nil
	}
	if id, ok := ctx.Value(sendKey{}).(int); ok {
		return r.ops[id-1]
	}
	return nil
}

type poolConnector struct{ r *poolRun }

func (f poolConnector) New(ctx context.Context) (netx.Conn, error) {
	r := f.r
	yield()
	r.mu.Lock()
	o := r.byCtx(ctx)
	if o == nil || !o.ctx.is(ctx) {
		r.log(obj{"e": "dial", "s": 0})
		r.mu.Unlock()
		return nil, errors.New("dialled with a context of nobody")
	}
	r.log(obj{"e": "dial", "s": o.id})
	r.mu.Unlock()
	yield()
	r.mu.Lock()
	defer r.mu.Unlock()
	r.expire(o, "dial")
	if !o.ctx.is(ctx) {
		r.log(obj{"e": "dialled", "s": 0, "c": 0})
		return nil, errors.New("dialled with another context")
	}
	if o.Dial == "fail" {
		r.log(obj{"e": "dialfail", "s": o.id})
		o.derr = fmt.Errorf("dial %d failed", o.id)
		return nil, o.derr
	}
	r.conns++
	r.log(obj{"e": "dialled", "s": o.id, "c": r.conns})
	return &poolConn{r: r, c: r.conns}, nil
}

type poolConn struct {
	r *poolRun
	c int
}

func (f *poolConn) IsSecure() bool { return false }

func (f *poolConn) Close() error {
	f.r.background()
	defer f.r.behind.Add(-1)
	yield()
	f.r.put(obj{"e": "close", "c": f.c})
	return nil
}

func (f *poolConn) Send(ctx context.Context, wt []byte) ([]netx.Response, error) {
	r := f.r
	yield()
	r.mu.Lock()
	var o *opState
	for _, x := range r.ops {
		if x.K == "send" && bytes.HasPrefix(wt, x.buf[:4]) {
			o = x
		}
	}
	if o == nil {
		r.log(obj{"e": "use", "s": 0, "c": f.c, "own": false})
		r.mu.Unlock()
		return nil, errors.New("bytes of nobody")
	}
	own := bytes.Equal(wt, o.buf) && r.byCtx(ctx) == o && !o.used && o.ctx.is(ctx)
	r.log(obj{"e": "use", "s": o.id, "c": f.c, "own": own})
	o.used = true
	if o.t != nil {
		o.t.used = true
	}
	r.mu.Unlock()
	yield()
	r.mu.Lock()
	defer r.mu.Unlock()
	r.expire(o, "use")
	say := func(what string) netx.Response { return what + strconv.Itoa(o.id) }
	xerr := &connection.MySqlXError{Severity: mysqlx.Error_ERROR, Code: 1062, SqlState: "23000", Msg: "send " + strconv.Itoa(o.id)}
	res := "err"
	use := o.Use
	var at, of int
	if n, _ := fmt.Sscanf(use, "resp@%d/%d", &at, &of); n == 2 { // the at-th of some responses is an error
		use = "many"
	} else if n, _ := fmt.Sscanf(use, "ok@%d", &of); n == 1 {
		use = "many"
	}
	switch use {
	case "many":
		for i := 1; i <= of; i++ {
			switch {
			case i == at || i == of && at > of:
				o.resp = append(o.resp, xerr)
			case i%2 == 0:
				o.resp = append(o.resp, nil)
			default:
				o.resp = append(o.resp, say("r"))
			}
		}
		res = "ok"
		if at > 0 {
			res = "resp"
		}
	case "ok":
		o.resp, res = []netx.Response{say("one"), nil, say("two")}, "ok"
	case "none":
		res = "ok"
	case "resp":
		o.resp, res = []netx.Response{say("one"), xerr}, "resp"
	case "resp1":
		o.resp, res = []netx.Response{xerr, say("one"), say("two")}, "resp"
	case "err":
		o.err = fmt.Errorf("send %d failed", o.id)
	case "errx":
		o.err = xerr
	case "ctx":
		o.err = context.DeadlineExceeded
	case "eof":
		o.err = io.ErrUnexpectedEOF
	case "errr":
		o.resp, o.err = []netx.Response{say("one")}, fmt.Errorf("send %d failed", o.id)
	default:
		k := strings.IndexByte(use, ':')
		if k < 0 {
			panic("vdrive: " + o.Use)
		}
		e := oddErr(use[k+1:], xerr)
		switch use[:k] {
		case "err":
			o.err = e
		case "errr":
			o.resp, o.err = []netx.Response{say("one")}, e
		case "errn":
			o.resp, o.err = []netx.Response{nil, nil}, e
		case "errx":
			o.resp, o.err = []netx.Response{say("one"), e}, e
		case "resp":
			o.resp, res = []netx.Response{say("one"), e, nil}, "resp"
		default:
			panic("vdrive: " + o.Use)
		}
	}
	r.log(obj{"e": "used", "s": o.id, "c": f.c, "r": res})
	return o.resp, o.err
}

// valueError is an error that is not a pointer.
type valueError struct{ N int }

func (v valueError) Error() string   { return "value" }
func (v valueError) Timeout() bool   { return v.N == 1 }
func (v valueError) Temporary() bool { return true }

func oddErr(k string, x *connection.MySqlXError) error {
	switch k {
	case "canceled":
		return context.Canceled
	case "deadline":
		return context.DeadlineExceeded
	case "timeout":
		return &net.OpError{Op: "read", Net: "tcp", Err: os.ErrDeadlineExceeded}
	case "closed":
		return &net.OpError{Op: "read", Net: "tcp", Err: net.ErrClosed}
	case "eof":
		return io.EOF
	case "pipe":
		return &net.OpError{Op: "write", Net: "tcp", Err: syscall.EPIPE}
	case "reset":
		return syscall.ECONNRESET
	case "empty":
		return errors.New("")
	case "fatal":
		x.Severity = mysqlx.Error_FATAL
		return x
	case "pool":
		return fmt.Errorf("another one: %w", pool.ErrPoolClosed)
	case "temp":
		return valueError{1}
	case "value":
		return valueError{}
	case "zero":
		return &connection.MySqlXError{}
	case "code0":
		x.Code = 0
		return x
	case "notice":
		x.Code, x.SqlState, x.Msg = 1305, "", ""
		return x
	case "dup":
		x.SqlState = "00000"
		return x
	case "wrapped":
		return fmt.Errorf("statement: %w", x)
	}
	panic("vdrive: " + k)
}

func sameResponses(a, b []netx.Response) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (r *poolRun) do(p pool.Pool, o *opState) {
	defer func() {
		if x := recover(); x != nil {
			r.put(obj{"e": "panic", "s": o.id, "what": fmt.Sprint(x)})
		}
	}()
	switch o.K {
	case "send":
		r.put(obj{"e": "call", "s": o.id, "done": o.ctx.Err() != nil})
		resp, err := p.Send(o.ctx, o.buf)
		r.mu.Lock()
		defer r.mu.Unlock()
		how := "other"
		switch {
		case o.used && err == o.err && sameResponses(resp, o.resp):
			how = "own"
		case o.used || resp != nil || err == nil:
		case errors.Is(err, pool.ErrPoolClosed):
			how = "closed"
		case o.ctx.Err() != nil && errors.Is(err, o.ctx.Err()):
			how = "ctx"
		case o.derr != nil && err == o.derr:
			how = "dialerr"
		}
		e := obj{"e": "ret", "s": o.id, "r": how}
		if how == "other" {
			e["what"] = fmt.Sprint(resp, err)
		}
		r.log(e)
	case "close":
		r.put(obj{"e": "pclose", "k": o.id})
		p.Close(o.ctx)
		r.put(obj{"e": "pclosed", "k": o.id})
	case "cancel":
		r.mu.Lock()
		defer r.mu.Unlock()
		r.log(obj{"e": "cancel", "s": o.S})
		r.ops[o.S-1].ctx.cancel()
	default:
		panic("vdrive: " + o.K)
	}
}

const hangLimit = 15 * time.Second

// runPool executes a program once: its history and the choices made.
func runPool(b *poolProgram, ch chooser) (ev []obj, picks []int, hang bool) {
	r := &poolRun{}
	s := newSched()
	if b.Mode == "free" {
		s.free = true
	}
	theSched = s
	n, total := 0, 0
	for i := range b.Phases {
		total += len(b.Phases[i].Ops)
	}
	for i := range b.Phases {
		for _, o := range b.Phases[i].Ops {
			n++
			st := &opState{poolOp: o, id: n, ctx: &poolCtx{id: n, nodl: (n+total+b.Size)%2 == 0, done: make(chan struct{})}}
			st.buf = append([]byte(fmt.Sprintf("%04d", n)), bytes.Repeat([]byte{byte(n)}, n*7)...)
			if o.Ctx == "done" {
				st.ctx.cancel()
			}
			r.ops = append(r.ops, st)
		}
	}
	p := pool.Pool(fifoch.New(poolConnector{r}, b.Size))
	n = 0
	ok := true
	for _, ph := range b.Phases {
		ops := r.ops[n : n+len(ph.Ops)]
		n += len(ph.Ops)
		if s.free {
			ok = runFree(r, p, ops)
			if !ok {
				break
			}
			continue
		}
		var ts []*thread
		for _, o := range ops {
			o := o
			o.t = s.add(o.id, func(t *thread) { r.do(p, o) })
			ts = append(ts, o.t)
		}
		switch ph.How {
		case "race":
			ok = s.race(ts, ch, &picks, hangLimit)
		case "hold":
			for _, t := range ts {
				ok = ok && s.solo(t, true, hangLimit)
			}
			fallthrough
		case "seq":
			for _, t := range ts {
				ok = ok && s.solo(t, false, hangLimit)
			}
		default:
			panic("vdrive: " + ph.How)
		}
		if !ok {
			break
		}
	}
	if ok {
		r.settle(s.free)
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	if ok {
		r.log(obj{"e": "end"})
	} else {
		r.log(obj{"e": "hang"})
	}
	r.dead = true
	return r.ev, picks, !ok
}

func runFree(r *poolRun, p pool.Pool, ops []*opState) bool {
	var wg sync.WaitGroup
	start := make(chan struct{})
	for _, o := range ops {
		o := o
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			r.do(p, o)
		}()
	}
	close(start)
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
		return true
	case <-time.After(hangLimit):
		return false
	}
}

func poolMain(args []string) error {
	out, err := create(args[1])
	if err != nil {
		return err
	}
	limit := 1 << 30
	if len(args) > 2 { // executions per program
		limit, _ = strconv.Atoi(args[2])
	}
	seen := map[[32]byte]bool{}
	n, runs, capped := 0, 0, 0
	stop := errors.New("stop")
	err = eachLine(args[0], func(line []byte) error {
		n++
		progress(out, n)
		var b poolProgram
		if err := json.Unmarshal(line, &b); err != nil {
			return err
		}
		one := func(ch chooser) (bool, error) {
			runs++
			ev, picks, hang := runPool(&b, ch)
			j, err := json.Marshal(ev)
			if err != nil {
				return false, err
			}
			h := sha256.Sum256(append([]byte{byte(b.Size)}, j...))
			if !seen[h] {
				seen[h] = true
				if err := out.put(obj{"id": n, "size": b.Size, "ev": json.RawMessage(j), "sched": append([]int{}, picks...)}); err != nil {
					return false, err
				}
			}
			return hang, nil
		}
		return explore(b.Mode, b.Bound, b.Seed, b.Sched, limit, &capped, stop, one)
	})
	if err == stop {
		err = nil
	}
	if err != nil {
		return err
	}
	fmt.Printf("STATS {\"programs\": %d, \"executions\": %d, \"capped\": %d, \"histories\": %d}\n", n, runs, capped, len(seen))
	return out.Close()
}
