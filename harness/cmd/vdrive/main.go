// vdrive replays behaviours generated from the TLA+ specifications on the real
// code and writes down what it observed, for TLC to judge.
//
//	vdrive builder IN OUT     replay builder programs
//	...
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"time"
)

type obj = map[string]any

var commands = map[string]func(args []string) error{}

func main() {
	debug.SetGCPercent(400)
	if len(os.Args) < 2 || commands[os.Args[1]] == nil {
		fmt.Fprintln(os.Stderr, "usage: vdrive COMMAND ...")
		os.Exit(2)
	}
	if err := commands[os.Args[1]](os.Args[2:]); err != nil {
		fmt.Fprintln(os.Stderr, "vdrive:", err)
		os.Exit(2)
	}
}

// eachLine calls f with every line of the file.
func eachLine(name string, f func(line []byte) error) error {
	in, err := os.Open(name)
	if err != nil {
		return err
	}
	defer in.Close()
	r := bufio.NewReaderSize(in, 1<<20)
	for {
		line, err := r.ReadBytes('\n')
		if len(line) > 1 {
			if line[0] == '"' { // written by TLC's CSVWrite: JSON inside a string
				var s string
				if e := json.Unmarshal(line, &s); e != nil {
					return e
				}
				line = []byte(s)
			}
			if e := f(line); e != nil {
				return e
			}
		}
		if err != nil {
			return nil
		}
	}
}

// watchdog ends the process if the behaviour being executed does not come to an end.
func watchdog() *time.Timer {
	return time.AfterFunc(30*time.Second, func() {
		buf := make([]byte, 1<<20)
		fmt.Fprintf(os.Stderr, "XT-HANG: no end after 30 s\n%s", buf[:runtime.Stack(buf, true)])
		os.Exit(3)
	})
}

// tidy gives memory back before there is too much of it.
func tidy() {
	s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	if metrics.Read(s); s[0].Value.Uint64() > 1<<30 {
		debug.FreeOSMemory()
	}
}

type writer struct {
	f   *os.File
	w   *bufio.Writer
	pos *os.File
}

// progress notes which behaviour is being executed, in case it kills the process.
func progress(w *writer, n int) {
	if w.pos == nil {
		f, err := os.Create(w.f.Name() + ".pos")
		if err != nil {
			return
		}
		w.pos = f
	}
	w.pos.WriteAt([]byte(fmt.Sprintf("%12d", n)), 0)
}

func create(name string) (*writer, error) {
	f, err := os.Create(name)
	if err != nil {
		return nil, err
	}
	return &writer{f: f, w: bufio.NewWriterSize(f, 1<<20)}, nil
}

func (w *writer) put(v any) error {
	b, err := json.Marshal(v)
	if err != nil {
		return err
	}
	w.w.Write(b)
	return w.w.WriteByte('\n')
}

func (w *writer) Close() error {
	if err := w.w.Flush(); err != nil {
		return err
	}
	return w.f.Close()
}
