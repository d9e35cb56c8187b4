package main

import (
	"bytes"
	"math/rand"
	"runtime"
	"strconv"
	"sync"
	"time"
	"unsafe"
)

// A cooperative scheduler for goroutines of the code under test. The goroutines
// stop at every yield (the driver's own gates, and with the instrumented build
// before every statement of the package under test) and one at a time is let on,
// so that a list of choices determines the interleaving. It must run with
// GOMAXPROCS(1): a goroutine that has not reached its next yield after the
// scheduler has yielded the processor a number of times counts as blocked. When
// that is wrong the interleaving is another one, nothing worse.

type thread struct {
	id     int
	resume chan struct{}
	state  int
	used   bool // has reached the gate inside its connection
}

const (
	parked = iota
	running
	blocked
	finished
)

type sched struct {
	ev      chan *thread
	threads []*thread
	byGid   map[int]*thread
	mu      sync.Mutex
	free    bool // yields do nothing
}

var theSched *sched

func gid() int {
	var buf [40]byte
	n := runtime.Stack(buf[:], false)
	f := bytes.Fields(buf[:n])
	if len(f) < 2 {
		return 0
	}
	id, _ := strconv.Atoi(string(f[1]))
	return id
}

// The labels of a goroutine are a faster way to tell it from others, but they
// are passed on to the goroutines it starts, so they only serve while the code
// under test starts none.
//
//go:linkname profLabel runtime/pprof.runtime_getProfLabel
func profLabel() unsafe.Pointer

//go:linkname setProfLabel runtime/pprof.runtime_setProfLabel
func setProfLabel(unsafe.Pointer)

var slowIdentity = true

func (s *sched) self() *thread {
	if !slowIdentity {
		return (*thread)(profLabel())
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.byGid[gid()]
}

// yield is where a scheduled goroutine may be held.
func yield() {
	s := theSched
	if s == nil || s.free {
		return
	}
	t := s.self()
	if t == nil {
		return
	}
	s.ev <- t
	<-t.resume
}

func newSched() *sched { return &sched{ev: make(chan *thread, 64), byGid: map[int]*thread{}} }

// add prepares a goroutine; it starts when it is first let on.
func (s *sched) add(id int, f func(t *thread)) *thread {
	t := &thread{id: id, resume: make(chan struct{}, 1), state: parked}
	s.threads = append(s.threads, t)
	go func() {
		if slowIdentity {
			s.mu.Lock()
			s.byGid[gid()] = t
			s.mu.Unlock()
		} else {
			setProfLabel(unsafe.Pointer(t))
		}
		<-t.resume
		f(t)
		if slowIdentity {
			s.mu.Lock()
			delete(s.byGid, gid())
			s.mu.Unlock()
		} else {
			setProfLabel(nil)
		}
		t.used = true
		t.id = -t.id
		s.ev <- t
	}()
	return t
}

func (s *sched) note(t *thread) {
	if t.id < 0 {
		t.id = -t.id
		t.state = finished
		return
	}
	t.state = parked
}

const patience = 12

// step lets t on until it stops again, and notes whoever else has come to a stop.
func (s *sched) step(t *thread) {
	t.state = running
	t.resume <- struct{}{}
	waiting := false
	for _, u := range s.threads {
		if u.state == blocked {
			waiting = true
		}
	}
	for i := 0; i < patience; i++ {
		runtime.Gosched()
	more:
		for {
			select {
			case u := <-s.ev:
				s.note(u)
			default:
				break more
			}
		}
		if t.state != running && (!waiting || i >= patience/2) {
			return
		}
	}
	if t.state == running {
		t.state = blocked
	}
}

// await waits for a blocked goroutine to stop: false if none ever does.
func (s *sched) await(limit time.Duration) bool {
	t0 := time.Now()
	for {
		select {
		case u := <-s.ev:
			s.note(u)
			return true
		default:
		}
		if time.Since(t0) > limit {
			return false
		}
		if time.Since(t0) < time.Millisecond {
			runtime.Gosched()
		} else {
			time.Sleep(100 * time.Microsecond)
		}
	}
}

type decision struct{ n, pick int } // one of n possibilities

// chooser decides which of n goroutines goes on. cost tells which of them would
// be a preemption.
type chooser interface {
	choose(n int, preempts []bool) int
}

// dfs goes through all schedules with a bounded number of preemptions, one
// execution at a time.
type dfs struct {
	bound    int
	prefix   []int
	log      []node
	spent    int
	position int
}

type node struct {
	pick    int
	options []int
}

func (d *dfs) choose(n int, preempts []bool) int {
	opts := make([]int, 0, n)
	for i := 0; i < n; i++ {
		if !preempts[i] || d.spent < d.bound {
			opts = append(opts, i)
		}
	}
	at := 0
	if d.position < len(d.prefix) {
		at = d.prefix[d.position]
		if at >= len(opts) {
			at = len(opts) - 1
		}
	}
	d.position++
	d.log = append(d.log, node{at, opts})
	p := opts[at]
	if preempts[p] {
		d.spent++
	}
	return p
}

// next prepares the next schedule: false if there is none.
func (d *dfs) next() bool {
	for i := len(d.log) - 1; i >= 0; i-- {
		if d.log[i].pick+1 < len(d.log[i].options) {
			p := make([]int, i+1)
			for j := 0; j < i; j++ {
				p[j] = d.log[j].pick
			}
			p[i] = d.log[i].pick + 1
			d.prefix, d.log, d.spent, d.position = p, nil, 0, 0
			return true
		}
	}
	return false
}

type random struct {
	r       *rand.Rand
	switch_ float64
}

func (d *random) choose(n int, preempts []bool) int {
	if n > 1 && preempts[1] && d.r.Float64() > d.switch_ {
		return 0
	}
	return d.r.Intn(n)
}

// spread preempts once, at a given decision.
type spread struct{ at, n int }

func (d *spread) choose(n int, preempts []bool) int {
	d.n++
	if d.n-1 == d.at {
		return n - 1
	}
	return 0
}

// fixed repeats a recorded schedule.
type fixed struct{ picks []int }

func (d *fixed) choose(n int, preempts []bool) int {
	if len(d.picks) == 0 {
		return 0
	}
	p := d.picks[0]
	d.picks = d.picks[1:]
	if p >= n {
		return n - 1
	}
	return p
}

// race runs the goroutines to their end: false if they do not all get there.
// The choices made are appended to picks.
func (s *sched) race(ts []*thread, ch chooser, picks *[]int, limit time.Duration) bool {
	var cur *thread
	for {
		en := make([]*thread, 0, len(ts))
		if cur != nil && cur.state == parked {
			en = append(en, cur)
		}
		left, first := false, len(en) == 1
		for _, t := range ts {
			if t.state == parked && t != cur {
				en = append(en, t)
			}
			if t.state != finished {
				left = true
			}
		}
		if !left {
			return true
		}
		if len(en) == 0 {
			if !s.await(limit) {
				return false
			}
			continue
		}
		p := 0
		if len(en) > 1 {
			pre := make([]bool, len(en))
			for i := 1; i < len(en); i++ {
				pre[i] = first
			}
			p = ch.choose(len(en), pre)
			*picks = append(*picks, p)
		}
		cur = en[p]
		s.step(cur)
	}
}

// solo runs one goroutine until it has finished or, if used is set, is using a connection.
func (s *sched) solo(t *thread, untilUsed bool, limit time.Duration) bool {
	for t.state != finished && !(untilUsed && t.used) {
		if t.state == parked {
			s.step(t)
		} else if !s.await(limit) {
			return false
		}
	}
	return true
}

// explore runs a program under the schedules its mode asks for.
func explore(mode string, bound int, seed int64, sched []int, limit int, capped *int, stop error, one func(chooser) (bool, error)) error {
	runtime.GOMAXPROCS(1)
	step := func(ch chooser) error {
		hang, err := one(ch)
		if err == nil && hang {
			err = stop
		}
		return err
	}
	switch {
	case sched != nil:
		return step(&fixed{sched})
	case mode == "dfs":
		d := &dfs{bound: bound}
		for i := 0; ; i++ {
			if i == limit {
				*capped++
				return nil
			}
			if err := step(d); err != nil {
				return err
			}
			if !d.next() {
				return nil
			}
		}
	case mode == "spread": // single preemptions, evenly spread
		d := &spread{at: -1}
		if err := step(d); err != nil {
			return err
		}
		total := d.n
		k := bound
		if k >= total {
			k = total
		} else {
			*capped++
		}
		for i := 0; i < k; i++ {
			// an offset by seed, so that seeds differ
			if err := step(&spread{at: (i*total/k + int(seed)%(total/k)) % total}); err != nil {
				return err
			}
		}
	default:
		if mode == "free" {
			runtime.GOMAXPROCS(runtime.NumCPU())
		}
		rnd := rand.New(rand.NewSource(seed))
		for i := 0; i < bound && i < limit; i++ {
			if err := step(&random{rnd, []float64{0.1, 0.3, 0.6}[i%3]}); err != nil {
				return err
			}
		}
	}
	return nil
}
