//go:build go1.22

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/metrics"
	"sync/atomic"
	"syscall"
	"time"
)

// The code under test may fail in ways that cannot be recovered from: it may never come back, eat up the memory or
// overflow the stack. All these are violations (no operation takes more than a fraction of a second), and have to be
// reported as such.

type watched struct {
	scenario string
	w        *World
	op       string
	since    int64 // tick
}

const (
	tick      = time.Second
	tooLong   = 120      // ticks; a tick is only counted while this process is running
	eating    = 10       // ticks
	tooBig    = 22 << 30 // bytes
	childMark = "VERIF_CHILD"
)

var (
	ticks    int64
	watching [64]atomic.Pointer[watched]
)

// watch announces what worker wk is about to do.
func watch(wk int, sc *Scenario, w *World, op string) {
	watching[wk].Store(&watched{scenario: sc.Name, w: w, op: op, since: atomic.LoadInt64(&ticks)})
}
func unwatch(wk int) { watching[wk].Store(nil) }

func watchdog(id string) {
	mem := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for range time.Tick(tick) {
		now := atomic.AddInt64(&ticks, 1)
		metrics.Read(mem)
		for i := range watching {
			x := watching[i].Load()
			if x == nil {
				continue
			}
			age := now - x.since
			what := ""
			if age > tooLong {
				what = "never comes to an end"
			} else if age > eating && mem[0].Value.Uint64() > tooBig {
				what = "does not come to an end and uses up the memory"
			}
			if what != "" {
				v := &Violation{Scenario: x.scenario, Msg: x.op + " " + what, Confirm: "not tried"}
				if x.w != nil {
					v.Trace = append(x.w.trace(), x.op)
				}
				v.report(id)
				os.Exit(1)
			}
		}
	}
}

func (v *Violation) report(id string) {
	rp := os.Getenv("VERIF_REPLAY")
	if rp == "" {
		rp = filepath.Join(os.TempDir(), "replay-"+id+".json")
	}
	vb, _ := json.MarshalIndent(v, "", " ")
	_ = os.WriteFile(rp, append(vb, '\n'), 0644)
	fmt.Fprintf(os.Stderr, "scenario %s\n", v.Scenario)
	for _, s := range v.Trace {
		fmt.Fprintf(os.Stderr, "   %s\n", s)
	}
	fmt.Fprintf(os.Stderr, "   => %s\n   replay: %s\n", v.Msg, v.Confirm)
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
}

// tail keeps the beginning of what is written (a fatal error prints its cause first).
type head struct {
	buf  bytes.Buffer
	hits []string
	last []byte
}

func (h *head) Write(p []byte) (int, error) {
	b := append(h.last, p...)
	for _, s := range []string{"fatal error: stack overflow", "goroutine stack exceeds"} {
		if bytes.Contains(b, []byte(s)) {
			h.hits = append(h.hits, s)
		}
	}
	if len(b) > 64 {
		b = b[len(b)-64:]
	}
	h.last = append([]byte(nil), b...)
	return len(p), nil
}

// supervise runs the check in a child process, so that a stack overflow (which ends the process) is reported.
func supervise(id string) int {
	runtime.LockOSThread() // Pdeathsig follows the thread
	c := exec.Command("/proc/self/exe", os.Args[1:]...)
	c.Env = append(os.Environ(), childMark+"=1")
	c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	h := &head{}
	c.Stdout = os.Stdout
	c.Stderr = io.MultiWriter(os.Stderr, h)
	err := c.Run()
	if err == nil {
		return 0
	}
	code := 2
	if x, ok := err.(*exec.ExitError); ok && x.ExitCode() >= 0 {
		code = x.ExitCode()
	}
	if code != 0 && code != 1 && len(h.hits) > 0 {
		(&Violation{Scenario: "see above", Msg: "endless recursion: the stack overflowed", Confirm: "not tried"}).report(id)
		return 1
	}
	return code
}
