package main

import (
	"crypto/sha256"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"reflect"
	"strconv"
)

func init() { commands["twin"] = twinMain }

// Several behaviours side by side, each run by a goroutine of its own.
type twins struct {
	Kind  string    `json:"kind"` // builder, conn, auth or decimal
	Progs []program `json:"progs"`
	Share bool      `json:"share"` // equal values are the same value
	Mode  string    `json:"mode"`  // dfs, random or free
	Bound int       `json:"bound"`
	Seed  int64     `json:"seed"`
	Sched []int     `json:"sched"`
	texts [][]string
}

// alone finds out what the errors of each unit of work say when nothing else
// is built. Which of several assignments in a map fails first is not fixed.
func (b *twins) alone() {
	b.texts = make([][]string, len(b.Progs))
	if b.Kind != "builder" && b.Kind != "" {
		return
	}
	theSched = newSched()
	theSched.free = true
	for i, p := range b.Progs {
		fixed := true
		for _, e := range p.Ev {
			if set, ok := e["set"].([]interface{}); ok && len(set) > 1 {
				fixed = false
			}
		}
		var first []string
		for k := 0; k < 2 && fixed; k++ {
			var l []string
			for _, e := range replayShared(p.Cap, p.Ev, nil, nil) {
				if t, ok := e["errtext"].(string); ok {
					l = append(l, t)
				}
			}
			if k > 0 {
				fixed = reflect.DeepEqual(l, first)
			}
			first = l
		}
		if fixed {
			b.texts[i] = first
		}
	}
}

func runTwins(b *twins, ch chooser) (logs [][]obj, picks []int, hang bool) {
	var shared *sharedValues
	if b.Share {
		shared = &sharedValues{m: map[string]interface{}{}}
	}
	s := newSched()
	s.free = b.Mode == "free"
	theSched = s
	logs = make([][]obj, len(b.Progs))
	one := func(i int) {
		switch p := b.Progs[i]; b.Kind {
		case "conn":
			logs[i] = replayConn(p.Ev)
		case "auth":
			logs[i] = replayAuth(p.Ev)
		case "decimal":
			logs[i] = replayDecimal(p.Ev)
		default:
			logs[i] = replayShared(p.Cap, p.Ev, shared, b.texts[i])
		}
	}
	if s.free {
		return logs, nil, !together(len(b.Progs), one)
	}
	var ts []*thread
	for i := range b.Progs {
		i := i
		ts = append(ts, s.add(i+1, func(t *thread) { one(i) }))
	}
	ok := s.race(ts, ch, &picks, hangLimit)
	return logs, picks, !ok
}

func twinMain(args []string) error {
	out, err := create(args[1])
	if err != nil {
		return err
	}
	limit := 1 << 30
	if len(args) > 2 {
		limit, _ = strconv.Atoi(args[2])
	}
	n, runs, capped, histories, dropped := 0, 0, 0, 0, 0
	stop := errors.New("stop")
	err = eachLine(args[0], func(line []byte) error {
		n++
		progress(out, n)
		var b twins
		if err := json.Unmarshal(line, &b); err != nil {
			return err
		}
		b.alone()
		seen := map[[32]byte]bool{}
		one := func(ch chooser) (bool, error) {
			runs++
			defer tidy()
			defer watchdog().Stop()
			logs, picks, hang := runTwins(&b, ch)
			if hang {
				fmt.Fprintln(os.Stderr, "XT-HANG: building does not come to an end")
				os.Exit(3)
			}
			for k, ev := range logs {
				j, err := json.Marshal(ev)
				if err != nil {
					return false, err
				}
				h := sha256.Sum256(append([]byte{byte(k)}, j...))
				if !seen[h] && len(seen) == 500 {
					dropped++ // large maps are sent in many orders
				} else if !seen[h] {
					seen[h] = true
					histories++
					if err := out.put(obj{"id": n, "who": k, "ev": json.RawMessage(j), "sched": append([]int{}, picks...)}); err != nil {
						return false, err
					}
				}
			}
			return false, nil
		}
		return explore(b.Mode, b.Bound, b.Seed, b.Sched, limit, &capped, stop, one)
	})
	if err != nil {
		return err
	}
	fmt.Printf("STATS {\"programs\": %d, \"executions\": %d, \"capped\": %d, \"histories\": %d, \"not judged\": %d}\n", n, runs, capped, histories, dropped)
	return out.Close()
}
