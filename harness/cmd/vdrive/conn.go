package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/golang/protobuf/proto"
	"github.com/renthraysk/xtorm/netx"
	"github.com/renthraysk/xtorm/netx/connection"
	"github.com/renthraysk/xtorm/protobuf/mysqlx"
	"github.com/renthraysk/xtorm/protobuf/mysqlx_resultset"
)

func init() { commands["conn"] = connMain }

// Times of a behaviour are virtual: k stands for epoch + k milliseconds, far in
// the future, and the network moves the clock.
var epoch = time.Now().Add(1000 * time.Hour)

func vtime(k int) time.Time { return epoch.Add(time.Duration(k) * time.Millisecond) }

// vctx is a context whose deadline is on the virtual clock.
type vctx struct {
	dl   int // 0: none
	done chan struct{}
	once sync.Once
}

func newCtx(dl int) *vctx { return &vctx{dl: dl, done: make(chan struct{})} }

func (c *vctx) Deadline() (time.Time, bool) {
	if c.dl == 0 {
		return time.Time{}, false
	}
	return vtime(c.dl), true
}
func (c *vctx) Done() <-chan struct{} { return c.done }
func (c *vctx) Err() error {
	select {
	case <-c.done:
		return context.DeadlineExceeded
	default:
		return nil
	}
}
func (c *vctx) Value(any) any { return nil }

// text expands "#n" to a text of n bytes, and shorten is its inverse.
func text(s string) string {
	if n, err := strconv.Atoi(strings.TrimPrefix(s, "#")); err == nil && strings.HasPrefix(s, "#") {
		b := bytes.Repeat([]byte{'F'}, n)
		for i := range b {
			b[i] += byte(i % 19)
		}
		return string(b)
	}
	return s
}

func shortText(s string) string {
	if len(s) > 0 {
		if k := "#" + strconv.Itoa(len(s)); text(k) == s {
			return k
		}
	}
	return s
}

func frame(t byte, payload []byte) []byte {
	b := make([]byte, 5, 5+len(payload))
	binary.LittleEndian.PutUint32(b, uint32(1+len(payload)))
	b[4] = t
	return append(b, payload...)
}

func filler(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(1 + i%11) // looks like small headers if it is ever parsed
	}
	return b
}

// serverMessage encodes an item of a server stream.
func serverMessage(m obj) []byte {
	t := num(m["t"])
	switch t {
	case -1:
		return []byte{0, 0, 0, 0, 0}
	case 1:
		if raw, ok := m["raw"]; ok {
			return frame(1, untokens(raw))
		}
		sev := mysqlx.Error_Severity(num(m["sev"]))
		code := uint32(num(m["code"]))
		e := &mysqlx.Error{Severity: &sev, Code: &code,
			SqlState: proto.String(m["state"].(string)), Msg: proto.String(text(m["msg"].(string)))}
		if _, ok := m["nosev"]; ok { // which means ERROR
			e.Severity = nil
		}
		p, err := proto.Marshal(e)
		if err != nil {
			panic(err)
		}
		return frame(1, p)
	case 12:
		ty := mysqlx_resultset.ColumnMetaData_BYTES
		p, err := proto.Marshal(&mysqlx_resultset.ColumnMetaData{Type: &ty, Name: filler(num(m["n"]))})
		if err != nil {
			panic(err)
		}
		return frame(12, p)
	}
	if raw, ok := m["raw"]; ok {
		return frame(byte(t), untokens(raw))
	}
	return frame(byte(t), filler(num(m["n"])))
}

// script is what the network delivers: bytes, with events at some offsets.
type netEvent struct {
	at   int // offset in data
	kind string
	time int
}

type fakeConn struct {
	mu       sync.Mutex
	data     []byte
	off      int
	events   []netEvent
	frag     []int
	fragPos  int
	fragLeft int
	now      int // virtual time
	rdl, wdl time.Time
	failed   error
	ctx      *vctx
	writes   [][]byte
	wfail    int
	idle     int // reads with nothing left to deliver
	closed   bool
	changed  chan struct{}
}

var errReset = errors.New("connection reset by peer")
var errIdle = errors.New("nothing more would ever arrive")

// Deadlines may be off by what it takes to compute them.
func (c *fakeConn) expired(t time.Time) bool {
	return !t.IsZero() && !t.Add(-time.Millisecond/2).After(vtime(c.now))
}

func (c *fakeConn) Read(p []byte) (int, error) {
	yield()
	c.mu.Lock()
	defer c.mu.Unlock()
	for {
		if c.closed {
			return 0, net.ErrClosed
		}
		if c.failed != nil {
			return 0, c.failed
		}
		if c.expired(c.rdl) {
			return 0, os.ErrDeadlineExceeded
		}
		if len(c.events) > 0 && c.events[0].at == c.off {
			e := c.events[0]
			c.events = c.events[1:]
			switch e.kind {
			case "stall":
				if c.now < e.time {
					c.now = e.time
				}
				if !c.expired(c.rdl) && c.ctx.dl != 0 && c.ctx.dl <= c.now {
					// The deadline was not given to the connection; it may be
					// enforced by other means.
					c.ctx.once.Do(func() { close(c.ctx.done) })
					c.mu.Unlock()
					for i := 0; i < 300; i++ {
						time.Sleep(time.Millisecond)
						c.mu.Lock()
						stop := c.closed || c.expired(c.rdl)
						c.mu.Unlock()
						if stop {
							break
						}
					}
					c.mu.Lock()
					if c.expired(c.rdl) {
						return 0, os.ErrDeadlineExceeded
					}
				}
			case "eof", "eofn":
				c.failed = io.EOF
			case "rst":
				c.failed = errReset
			}
			continue
		}
		if len(p) == 0 {
			return 0, nil
		}
		n := len(c.data) - c.off
		if n == 0 {
			c.idle++
			return 0, errIdle
		}
		if len(c.events) > 0 && n > c.events[0].at-c.off {
			n = c.events[0].at - c.off
		}
		if c.fragLeft == 0 {
			c.fragLeft = c.frag[c.fragPos%len(c.frag)]
			c.fragPos++
		}
		n = min(n, len(p), c.fragLeft)
		copy(p, c.data[c.off:c.off+n])
		c.off += n
		c.fragLeft -= n
		if len(c.events) > 0 && c.events[0].at == c.off && c.events[0].kind == "eofn" {
			c.events = c.events[1:]
			c.failed = io.EOF
			return n, io.EOF // data together with the end of the stream
		}
		return n, nil
	}
}

func (c *fakeConn) Write(p []byte) (int, error) {
	yield()
	c.mu.Lock()
	defer c.mu.Unlock()
	c.writes = append(c.writes, append([]byte(nil), p...))
	if c.closed {
		return 0, net.ErrClosed
	}
	if c.expired(c.wdl) {
		return 0, os.ErrDeadlineExceeded
	}
	if c.wfail >= 0 {
		c.failed = errReset
		return min(c.wfail, len(p)), errReset
	}
	return len(p), nil
}

func (c *fakeConn) Close() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.closed = true
	return nil
}
func (c *fakeConn) LocalAddr() net.Addr  { return &net.TCPAddr{} }
func (c *fakeConn) RemoteAddr() net.Addr { return &net.TCPAddr{} }
func (c *fakeConn) SetDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.rdl, c.wdl = t, t
	return nil
}
func (c *fakeConn) SetReadDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.rdl = t
	return nil
}
func (c *fakeConn) SetWriteDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.wdl = t
	return nil
}

// load queues what the server side does during the next exchange.
func (c *fakeConn) load(srv []any) {
	c.data = append([]byte(nil), c.data[c.off:]...)
	c.off = 0
	for i, x := range srv {
		m := x.(obj)
		switch num(m["t"]) {
		case -2, -3:
			k := "stall"
			if num(m["t"]) == -3 {
				k = m["k"].(string)
			}
			at := num(m["off"])
			when := 0
			if k == "stall" {
				when = num(m["time"])
			}
			if i+1 < len(srv) {
				if next := srv[i+1].(obj); num(next["t"]) != -2 && num(next["t"]) != -3 {
					at = min(at, len(serverMessage(next))-1)
				} else {
					at = 0
				}
			} else if at > 0 {
				// the message this would have been part of
				c.events = append(c.events, netEvent{at: len(c.data) + min(at, 4), kind: k, time: when})
				c.data = append(c.data, frame(0, nil)...)
				continue
			}
			c.events = append(c.events, netEvent{at: len(c.data) + at, kind: k, time: when})
		default:
			c.data = append(c.data, serverMessage(m)...)
		}
	}
}

func errorRecord(e error) obj {
	var m *connection.MySqlXError
	if errors.As(e, &m) {
		return obj{"k": "err", "sev": int(m.Severity), "code": int(m.Code), "state": m.SqlState, "msg": shortText(m.Msg)}
	}
	return obj{"k": "none"}
}

func responseRecord(r netx.Response) obj {
	if r == nil {
		return obj{"k": "ok"}
	}
	if e, ok := r.(error); ok {
		return errorRecord(e)
	}
	return obj{"k": "other", "what": fmt.Sprintf("%T", r)}
}

func unit(msgs []any) []byte {
	var b []byte
	for _, x := range msgs {
		m := x.(obj)
		b = append(b, frame(byte(num(m["ct"])), filler(num(m["n"])))...)
	}
	return b
}

func replayConn(ev []obj) []obj {
	var log []obj
	var kept [][]netx.Response
	var errs []error
	f := &fakeConn{wfail: -1}
	conn := connection.New(f)
	for _, e := range ev {
		b := unit(e["msgs"].([]any))
		keep := append([]byte(nil), b...)
		f.frag = f.frag[:0]
		for _, x := range e["frag"].([]any) {
			f.frag = append(f.frag, num(x))
		}
		f.wfail = num(e["wfail"])
		f.writes = nil
		f.idle = 0
		f.load(e["srv"].([]any))
		f.ctx = newCtx(num(e["dl"]))
		var resp []netx.Response
		var err error
		pan, what := guard(func() { resp, err = conn.Send(f.ctx, b) })
		c := clone(e)
		c["pan"] = pan
		if pan {
			c["panic"] = fmt.Sprint(what)
		}
		c["wfail"] = f.wfail >= 0
		c["writes"] = len(f.writes)
		c["same"] = bytes.Equal(bytes.Join(f.writes, nil), keep)
		c["unmodified"] = bytes.Equal(b, keep)
		c["err"] = err != nil
		c["errtext"] = ""
		if err != nil {
			c["errtext"] = err.Error()
		}
		c["count"] = len(resp)
		c["idle"] = f.idle
		log = append(log, c)
		kept, errs = append(kept, resp), append(errs, err)
	}
	// what was returned stays as it was, whatever was done since
	for i, c := range log {
		rs := []obj{}
		for _, r := range kept[i] {
			rs = append(rs, responseRecord(r))
		}
		c["resp"] = rs
		c["errv"] = obj{"k": "none"}
		if errs[i] != nil {
			c["errv"] = errorRecord(errs[i])
		}
	}
	return log
}

func connMain(args []string) error {
	return replayAll(args, func(p program) []obj { return replayConn(p.Ev) })
}

type program struct {
	Cap int   `json:"cap"`
	Ev  []obj `json:"ev"`
}

// replayAll replays every behaviour of a file.
func replayAll(args []string, f func(p program) []obj) error {
	out, err := create(args[1])
	if err != nil {
		return err
	}
	n := 0
	err = eachLine(args[0], func(line []byte) error {
		var p program
		if err := json.Unmarshal(line, &p); err != nil {
			return err
		}
		n++
		progress(out, n)
		dog := watchdog()
		ev := f(p)
		dog.Stop()
		tidy()
		return out.put(obj{"id": n, "ev": ev})
	})
	if err != nil {
		return err
	}
	return out.Close()
}
