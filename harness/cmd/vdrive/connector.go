package main

import (
	"bufio"
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/big"
	"net"
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/golang/protobuf/proto"
	"github.com/renthraysk/xtorm/netx"
	"github.com/renthraysk/xtorm/netx/connection"
	"github.com/renthraysk/xtorm/netx/connector"
	"github.com/renthraysk/xtorm/protobuf/mysqlx"
)

func init() { commands["connector"] = connectorMain }

type connectorCase struct {
	Cfg struct {
		Net  string `json:"net"`
		TLS  string `json:"tls"`
		Mech string `json:"mech"`
		Acct string `json:"acct"`
	} `json:"cfg"`
	DL      bool       `json:"dl"`
	How     string     `json:"how"` // seq or par
	Scripts [][]string `json:"scripts"`
}

// ---- certificates

type pki struct {
	roots *x509.CertPool
	cert  map[string]tls.Certificate
}

func makePKI() (*pki, error) {
	p := &pki{roots: x509.NewCertPool(), cert: map[string]tls.Certificate{}}
	serial := int64(1)
	ca := func() (*x509.Certificate, *ecdsa.PrivateKey, error) {
		k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		if err != nil {
			return nil, nil, err
		}
		serial++
		t := &x509.Certificate{SerialNumber: big.NewInt(serial), Subject: pkix.Name{CommonName: "ca"}, NotBefore: time.Now().Add(-time.Hour),
			NotAfter: time.Now().Add(1000 * time.Hour), IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign}
		der, err := x509.CreateCertificate(rand.Reader, t, t, &k.PublicKey, k)
		if err != nil {
			return nil, nil, err
		}
		c, err := x509.ParseCertificate(der)
		return c, k, err
	}
	leaf := func(c *x509.Certificate, ck *ecdsa.PrivateKey, name string, until time.Time) (tls.Certificate, error) {
		k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		if err != nil {
			return tls.Certificate{}, err
		}
		serial++
		t := &x509.Certificate{SerialNumber: big.NewInt(serial), Subject: pkix.Name{CommonName: name}, DNSNames: []string{name}, NotBefore: time.Now().Add(-100 * time.Hour),
			NotAfter: until, KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth}}
		der, err := x509.CreateCertificate(rand.Reader, t, c, &k.PublicKey, ck)
		return tls.Certificate{Certificate: [][]byte{der}, PrivateKey: k}, err
	}
	c1, k1, err := ca()
	if err != nil {
		return nil, err
	}
	c2, k2, err := ca()
	if err != nil {
		return nil, err
	}
	p.roots.AddCert(c1)
	later := time.Now().Add(100 * time.Hour)
	for _, x := range []struct {
		what, name string
		c          *x509.Certificate
		k          *ecdsa.PrivateKey
		until      time.Time
	}{
		{"good", "db.example", c1, k1, later}, {"ca", "db.example", c2, k2, later}, {"name", "other.example", c1, k1, later},
		{"old", "db.example", c1, k1, time.Now().Add(-time.Hour)}, {"client", "client", c1, k1, later},
	} {
		if p.cert[x.what], err = leaf(x.c, x.k, x.name, x.until); err != nil {
			return nil, err
		}
	}
	return p, nil
}

// ---- the server

type scripted struct {
	script   []string
	idx      int // of the script
	id       int // of the behaviour
	cfg      obj
	pw       []byte
	mech     string
	tls      *tls.Config // with the right certificate
	pki      *pki
	barrier  *barrier
	mu       sync.Mutex
	ev       []obj
	raw      net.Conn
	rd       *bufio.Reader // of the channel in use
	w        io.Writer
	sec      bool
	chal     []byte
	accepted bool
	frag     bool // answers byte by byte
	ended    bool // the client has closed
	done     chan struct{}
}

func (s *scripted) log(e obj) {
	s.mu.Lock()
	s.ev = append(s.ev, e)
	s.mu.Unlock()
}

// barrier holds parallel connections together.
type barrier struct {
	mu   sync.Mutex
	n    int
	need int
	c    chan struct{}
}

func newBarrier(n int) *barrier { return &barrier{need: n, c: make(chan struct{})} }

func (b *barrier) wait() {
	if b == nil {
		return
	}
	b.mu.Lock()
	b.n++
	c := b.c
	if b.n%b.need == 0 {
		close(b.c)
		b.c = make(chan struct{})
	}
	b.mu.Unlock()
	select {
	case <-c:
	case <-time.After(2 * time.Second):
	}
}

type prefixed struct {
	net.Conn
	r io.Reader
}

func (p prefixed) Read(b []byte) (int, error) { return p.r.Read(b) }

// message reads a client message: nil at the end of the connection.
func (s *scripted) message() []byte {
	h, err := s.rd.Peek(5)
	if err != nil {
		if n := s.rd.Buffered(); n > 0 {
			s.log(obj{"e": "junk", "sec": s.sec})
		}
		return nil
	}
	n := binary.LittleEndian.Uint32(h)
	if n < 1 || n > 1<<20 {
		s.log(obj{"e": "junk", "sec": s.sec})
		return nil
	}
	b := make([]byte, 4+n)
	if _, err := io.ReadFull(s.rd, b); err != nil {
		s.log(obj{"e": "junk", "sec": s.sec})
		return nil
	}
	return b
}

func (s *scripted) received(b []byte) {
	h := []obj{}
	if b[4] == 5 {
		h = hashes(s.mech, s.pw, s.chal)
	}
	s.log(obj{"e": "rx", "sec": s.sec, "b": tokens(b), "pw": len(s.pw) > 0 && bytes.Contains(b, s.pw), "h": h})
}

// refusals that are not the one for which there is a fallback
var refusals = []struct {
	code  uint32
	state string
}{
	{5001, "HY000"}, {1698, "28000"}, {1044, "42000"}, {1251, "08004"}, {1130, "HY000"}, {3118, "HY000"}, {1862, "HY000"},
	{1046, "28000"}, {2061, "28000"}, {1524, "28000"}, {0, "28000"}, {1045 + 1<<16, "28000"}, {3159, "28000"}, {1049, "42000"},
}

func errorFrame(sev mysqlx.Error_Severity, code uint32, state, msg string) []byte {
	p, err := proto.Marshal(&mysqlx.Error{Severity: &sev, Code: &code, SqlState: &state, Msg: &msg})
	if err != nil {
		panic(err)
	}
	return frame(1, p)
}

func (s *scripted) halfClose() {
	switch c := s.raw.(type) {
	case *net.TCPConn:
		c.CloseWrite()
	case *net.UnixConn:
		c.CloseWrite()
	}
}

// run plays the script; afterwards it listens to the end.
func (s *scripted) run() {
	defer close(s.done)
	defer s.raw.Close()
	s.rd, s.w = bufio.NewReader(s.raw), s.raw
	starting := true
	for _, x := range s.script {
		switch x {
		case "good", "tls12", "ca", "name", "old", "leave", "trash", "plain", "mute":
			if !s.handshake(x) {
				s.drain()
				return
			}
			continue
		}
		b := s.message()
		if b == nil {
			s.ended = true
			return
		}
		s.received(b)
		if b[4] == 4 && starting {
			starting = false
			s.barrier.wait()
		}
		if !s.answer(x, b[4]) {
			s.drain()
			return
		}
	}
	s.drain()
}

// vary is a number that depends on where this is.
func (s *scripted) vary() int { return s.id*7/3 + s.idx + len(s.ev) }

// answer answers a message: false if that is the end of it.
func (s *scripted) answer(x string, ct byte) bool {
	ok := frame(4, nil)
	if ct == 2 {
		ok = frame(0, nil)
	}
	notice := frame(11, []byte{8, 3, 16, 2, 26, 4, 8, 11, 18, 0})
	n := len(s.ev)
	msg := fmt.Sprintf("%s %d", x, n)
	switch (s.id + n) % 11 { // the same for all that run at once
	case 3:
		msg = ""
	case 5:
		msg += strings.Repeat("x", 4100)
	case 7:
		msg += " \u00e9 'us'@'%' (using password: YES)"
	}
	why := refusals[s.vary()%len(refusals)]
	e := obj{"e": "tx", "x": "bad"}
	var out []byte
	switch x {
	case "ok", "nok":
		e["x"], out = "ok", ok
		if x == "nok" {
			out = append(append(append([]byte{}, notice...), notice...), ok...)
		}
		if ct == 4 || ct == 5 {
			s.accepted = true
			s.barrier.wait()
		}
	case "inject":
		e["x"], out = "inject", append(append([]byte{}, ok...), frame(4, nil)...)
	case "cont0", "cont20", "cont200":
		k := map[string]int{"cont0": 0, "cont20": 20, "cont200": 200}[x]
		if k == 200 {
			// ends in a run
			k = []int{200, 8, 19, 21, 127, 128, 255, 256, 300, 1000, 4090, 4096, 5000, 17000, 70000}[s.vary()%15]
		}
		s.chal = make([]byte, k)
		for i := range s.chal {
			s.chal[i] = byte(7 + i*13 + s.idx*57)
			if i >= 150 {
				s.chal[i] = 'z'
			}
		}
		e["x"], e["chal"], out = "cont", tokens(s.chal), authContinue(s.chal)
	case "badcont":
		out = frame(3, []byte{10, 200})
	case "acont":
		out = authContinue([]byte("01234567890123456789"))
	case "deny", "denyf":
		sev := mysqlx.Error_ERROR
		if x == "denyf" {
			sev = mysqlx.Error_FATAL
		}
		e["x"], e["fatal"], e["code"], e["msg"], out = "deny", x == "denyf", 1045, msg, errorFrame(sev, 1045, []string{"28000", "HY000", "00000"}[s.vary()%3], msg)
	case "err":
		e["x"], out = "err", errorFrame(mysqlx.Error_ERROR, why.code, why.state, msg)
	case "fatal":
		e["x"], out = "err", errorFrame(mysqlx.Error_FATAL, why.code, why.state, msg)
	case "part":
		out = ok[:len(ok)-1]
	case "badlen":
		out = []byte{0, 0, 0, 0, 4}
	case "baderr":
		out = frame(1, []byte{8, 255})
	case "eof":
		e["x"] = "eof"
	case "rst":
		e["x"] = "rst"
	case "stall":
		e["x"] = "stall"
	default:
		panic("vdrive: " + x)
	}
	switch e["x"] {
	case "cont", "deny", "err":
		if s.vary()%4 == 1 {
			// a few, many, or large ones
			all := bytes.Repeat(notice, []int{1, 2, 17, 300}[s.vary()/4%4])
			if s.vary()/16%2 == 1 {
				all = append(all, frame(11, append([]byte{8, 3, 16, 2, 26, 136, 39}, make([]byte, 5000)...))...)
			}
			out = append(all, out...)
		}
	}
	s.log(e)
	if x != "inject" && s.frag {
		for i := range out {
			if _, err := s.w.Write(out[i : i+1]); err != nil {
				return false
			}
		}
	} else if _, err := s.w.Write(out); err != nil {
		return false
	}
	switch x {
	case "part", "eof":
		s.halfClose()
		return false
	case "rst":
		if c, ok := s.raw.(*net.TCPConn); ok {
			c.SetLinger(0)
		}
		s.raw.Close()
		return false
	}
	return true
}

func (s *scripted) handshake(x string) bool {
	b, err := s.rd.Peek(1)
	if err != nil {
		s.ended = true
		return false
	}
	if b[0] != 0x16 {
		return false // drain() tells what it is
	}
	fail := func(sent []byte) bool {
		s.log(obj{"e": "tls", "cert": "none", "ok": false})
		// what comes next is TLS, answered or not
		s.w.Write(sent)
		if x != "mute" {
			s.halfClose()
		}
		io.Copy(io.Discard, s.rd)
		s.ended = true
		return false
	}
	switch x {
	case "leave":
		return fail(nil)
	case "trash":
		return fail(bytes.Repeat([]byte{0x5a}, 64))
	case "plain":
		return fail(bytes.Repeat(frame(4, nil), 4))
	case "mute":
		return fail(nil)
	}
	c := s.tls.Clone()
	c.Certificates = []tls.Certificate{s.pki.cert[x]}
	if x == "tls12" {
		c.Certificates[0], c.MaxVersion = s.pki.cert["good"], tls.VersionTLS12
	}
	t := tls.Server(prefixed{s.raw, s.rd}, c)
	err = t.Handshake()
	s.log(obj{"e": "tls", "cert": x, "ok": err == nil})
	if err != nil {
		io.Copy(io.Discard, s.rd)
		s.ended = true
		return false
	}
	s.rd, s.w, s.sec = bufio.NewReader(t), t, true
	return true
}

// drain notes what else the client says, and executes its statements once it is
// accepted, until it is gone.
func (s *scripted) drain() {
	for {
		b := s.message()
		if b == nil {
			break
		}
		if s.accepted && b[4] == 12 {
			s.w.Write(frame(17, nil))
			continue
		}
		s.received(b)
	}
	// not a message: is it the end?
	io.Copy(io.Discard, s.raw)
	s.ended = true
}

// ---- a behaviour

const connectorHang = 25 * time.Second

// once waiting was in vain a few times the rest is left out
var vain atomic.Int32

func runConnector(c *connectorCase, p *pki, dir string, id int) ([]obj, error) {
	cr := creds{user: "us", pw: "pass-word-17", db: "data"}
	switch c.Cfg.Acct {
	case "nopw":
		cr = creds{user: "u", pw: "", db: ""}
	case "odd":
		cr = creds{user: "Us.Er@Host \u00e9", pw: " Pa\tss'\xff\x80%\\ ", db: "Data-Base.\u00df `x` "}
	case "long":
		cr = creds{user: string(bytes.Repeat([]byte("name-"), 30)), pw: string(bytes.Repeat([]byte("Zx8!"), 50)), db: string(bytes.Repeat([]byte("base"), 20))}
	}
	network, address := c.Cfg.Net, ""
	var ln net.Listener
	var err error
	switch network {
	case "unix":
		address = filepath.Join(dir, fmt.Sprintf("%d.sock", id))
		ln, err = net.Listen("unix", address)
	default:
		if network == "down" {
			network = "tcp"
		}
		ln, err = nil, errors.New("")
		if network == "tcp6" {
			ln, err = net.Listen("tcp6", "[::1]:0")
		}
		if err != nil {
			if network == "tcp6" { // there is none here
				network = "tcp"
			}
			ln, err = net.Listen("tcp", "127.0.0.1:0")
		}
	}
	if err != nil {
		return nil, err
	}
	defer ln.Close()
	if address == "" {
		address = ln.Addr().String()
	}
	if c.Cfg.Net == "down" {
		ln.Close()
	}
	opts := []connector.Option{connector.WithUserPassword(cr.user, cr.pw)}
	if cr.db != "" || id%2 == 0 {
		opts = append(opts, connector.WithDatabase(cr.db))
	}
	if c.Cfg.Mech != "MYSQL41" || id%2 == 0 { // otherwise it is the one that is used by itself
		opts = append(opts, connector.WithAuthentication(mechanism(c.Cfg.Mech)))
	}
	srvTLS := &tls.Config{}
	if c.Cfg.TLS != "none" {
		t := &tls.Config{RootCAs: p.roots, ServerName: "db.example"}
		switch c.Cfg.TLS {
		case "noname":
			t.ServerName = ""
		case "insecure":
			t.InsecureSkipVerify = true
		case "mutual":
			t.Certificates = []tls.Certificate{p.cert["client"]}
			srvTLS.ClientAuth = tls.RequireAndVerifyClientCert
			srvTLS.ClientCAs = p.roots
		case "getcert":
			t.GetClientCertificate = func(*tls.CertificateRequestInfo) (*tls.Certificate, error) {
				c := p.cert["client"]
				return &c, nil
			}
			srvTLS.ClientAuth = tls.RequireAndVerifyClientCert
			srvTLS.ClientCAs = p.roots
		case "vconn":
			t.RootCAs, t.ServerName, t.InsecureSkipVerify = nil, "", true
			t.VerifyConnection = func(s tls.ConnectionState) error {
				_, err := s.PeerCertificates[0].Verify(x509.VerifyOptions{Roots: p.roots, DNSName: "db.example"})
				return err
			}
		case "vpeer":
			t.RootCAs, t.ServerName, t.InsecureSkipVerify = nil, "", true
			t.VerifyPeerCertificate = func(raw [][]byte, _ [][]*x509.Certificate) error {
				c, err := x509.ParseCertificate(raw[0])
				if err == nil {
					_, err = c.Verify(x509.VerifyOptions{Roots: p.roots, DNSName: "db.example"})
				}
				return err
			}
		case "never":
			t.VerifyConnection = func(tls.ConnectionState) error { return errors.New("not this one") }
		case "min13":
			t.MinVersion = tls.VersionTLS13
		}
		opts = append(opts, connector.WithTLSConfig(t))
	} else if id%3 == 0 {
		opts = append(opts, connector.WithTLSConfig(nil))
	}
	// in any order
	k := id / 2 % len(opts)
	opts = append(append([]connector.Option{}, opts[k:]...), opts[:k]...)
	if id%5 == 0 {
		// options may serve for more than one
		if _, err := connector.New("tcp", "127.0.0.1:1", opts...); err != nil {
			return nil, err
		}
	}
	cnn, err := connector.New(network, address, opts...)
	if err != nil {
		return nil, err
	}
	traces := make([]obj, len(c.Scripts))
	var wg sync.WaitGroup
	var bar *barrier
	if c.How == "par" {
		bar = newBarrier(len(c.Scripts))
	}
	// connections are matched with scripts in the order in which they arrive, so
	// parallel ones all have the same script
	servers := make(chan *scripted, len(c.Scripts))
	if c.Cfg.Net != "down" {
		go func() {
			for i := 0; ; i++ {
				raw, err := ln.Accept()
				if err != nil {
					return
				}
				var sc []string
				if i < len(c.Scripts) {
					sc = c.Scripts[i]
				}
				s := &scripted{script: sc, idx: i, id: id, pw: []byte(cr.pw), mech: c.Cfg.Mech, tls: srvTLS, pki: p, barrier: bar, raw: raw, frag: (id+i)%3 == 0, done: make(chan struct{})}
				go s.run()
				servers <- s
			}
		}()
	}
	// which of them get a deadline that passes as soon as they are connected
	brisk := func(i int) bool { return (id+i)%4 == 1 && (len(c.Scripts) <= 8 || i == len(c.Scripts)/2) }
	one := func(i int) {
		defer wg.Done()
		ctx := context.Context(context.Background())
		cancel := func() {}
		dl := c.DL
		const brief = 1500 * time.Millisecond
		switch {
		case c.DL:
			ctx, cancel = context.WithTimeout(ctx, 120*time.Millisecond)
		case (id+i)%4 == 0:
			ctx, cancel = context.WithTimeout(ctx, 10*time.Minute)
		case brisk(i):
			ctx, cancel = context.WithTimeout(ctx, brief)
		case (id+i)%4 == 2:
			ctx, cancel = context.WithCancel(ctx)
		}
		defer cancel()
		began := time.Now()
		var conn netx.Conn
		var cerr error
		what := ""
		ret := make(chan struct{})
		go func() {
			defer close(ret)
			defer func() {
				if x := recover(); x != nil {
					what = fmt.Sprint("panic: ", x)
				}
			}()
			conn, cerr = cnn.New(ctx)
		}()
		hang := false
		select {
		case <-ret:
			if brisk(i) && time.Since(began) > brief*9/10 {
				dl = true // it may have been in the way
			}
		case <-time.After(connectorHang):
			hang = true
			vain.Add(10)
		}
		use := false
		if !hang && what == "" && cerr == nil && conn != nil {
			// the context that served for connecting has no say any more
			if _, has := ctx.Deadline(); has && brisk(i) {
				<-ctx.Done()
				time.Sleep(10 * time.Millisecond)
			} else if (id+i)%4 != 3 {
				cancel()
				time.Sleep(5 * time.Millisecond)
			}
			uctx, ucancel := context.Background(), func() {}
			if id%2 == 0 {
				uctx, ucancel = context.WithTimeout(uctx, 10*time.Second)
			}
			guard := time.AfterFunc(10*time.Second, func() { conn.Close() })
			r, err := conn.Send(uctx, frame(12, []byte{10, 1, 'x'}))
			use = err == nil && len(r) == 1 && r[0] == nil
			ucancel()
			guard.Stop()
			if !use {
				vain.Add(1)
			}
			conn.Close()
		}
		var s *scripted
		if c.Cfg.Net != "down" {
			patience := 10 * time.Second
			if what != "" {
				patience = time.Second
				vain.Add(1)
			}
			select {
			case s = <-servers:
			case <-time.After(patience): // it never dialled, or its deadline had passed before
			}
		}
		eof := true
		var ev []obj
		if s != nil {
			select {
			case <-s.done:
			case <-time.After(5 * time.Second):
			}
			s.mu.Lock()
			ev = append(ev, s.ev...)
			s.mu.Unlock()
			select {
			case <-s.done:
				eof = s.ended
			default:
				eof = false
				vain.Add(1)
				s.raw.Close()
			}
		}
		switch {
		case hang:
			ev = append(ev, obj{"e": "hang"})
		case what != "":
			ev = append(ev, obj{"e": "panic", "what": what})
		default:
			e := obj{"e": "ret", "ok": cerr == nil, "conn": conn != nil, "code": 0, "msg": "", "eof": eof, "use": use, "what": ""}
			var m *connection.MySqlXError
			if errors.As(cerr, &m) {
				e["code"], e["msg"] = m.Code, m.Msg
			}
			if cerr != nil {
				e["what"] = cerr.Error()
			}
			ev = append(ev, e)
		}
		cfg := obj{"net": c.Cfg.Net, "tls": c.Cfg.TLS, "mech": c.Cfg.Mech, "dl": dl, "db": tokens([]byte(cr.db)), "user": tokens([]byte(cr.user)), "pw": tokens([]byte(cr.pw))}
		traces[i] = obj{"id": id, "cfg": cfg, "ev": ev}
	}
	for i := range c.Scripts {
		wg.Add(1)
		if c.How == "par" {
			go one(i)
		} else {
			one(i)
		}
	}
	wg.Wait()
	return traces, nil
}

func connectorMain(args []string) error {
	debug.SetGCPercent(-1) // a finalizer must not close what was left open
	debug.SetMemoryLimit(3 << 30)
	out, err := create(args[1])
	if err != nil {
		return err
	}
	p, err := makePKI()
	if err != nil {
		return err
	}
	dir, err := os.MkdirTemp("", "xt")
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	var all []*connectorCase
	err = eachLine(args[0], func(line []byte) error {
		c := new(connectorCase)
		if err := json.Unmarshal(line, c); err != nil {
			return err
		}
		all = append(all, c)
		return nil
	})
	if err != nil {
		return err
	}
	progress(out, 1)
	results := make([][]obj, len(all))
	errs := make([]error, len(all))
	var wg sync.WaitGroup
	slots := make(chan struct{}, 24)
	for i := range all {
		wg.Add(1)
		slots <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-slots }()
			if vain.Load() >= 10 {
				return
			}
			results[i], errs[i] = runConnector(all[i], p, dir, i+1)
		}()
	}
	wg.Wait()
	for i := range all {
		if errs[i] != nil {
			return errs[i]
		}
		for _, t := range results[i] {
			if err := out.put(t); err != nil {
				return err
			}
		}
	}
	return out.Close()
}
