package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"vharness/vsync"
)

// Violation is one property broken by the real code.
type Violation struct {
	Prop   string   `json:"prop"`
	What   string   `json:"what"`
	Detail []string `json:"detail,omitempty"`
	Replay any      `json:"replay,omitempty"`
}

// Report accumulates what a run did.
type Report struct {
	Counts     map[string]int `json:"counts"`
	Violations []Violation    `json:"violations"`
	Found      map[string]int `json:"found"`
	Samples    []any          `json:"samples"`
	Notes      []string       `json:"notes"`
	seen       map[string]bool
}

const maxPerProp = 5

var rep = &Report{Counts: map[string]int{}, Violations: []Violation{}, Samples: []any{}, Notes: []string{}, Found: map[string]int{}, seen: map[string]bool{}}

func (r *Report) count(k string, n int) {
	beats.Add(1)
	r.Counts[k] += n
}

var beats atomic.Int64

// heart ends a single-threaded run whose code under test does not come back:
// what it was asked for is never answered.
func heart(cmd string, limit time.Duration) {
	props := map[string][]string{"engines": {"C10", "C11", "C12"}, "analyze": {"C14"}, "text": {"C15"},
		"verbatim": {"C16"}, "regions": {"C17"}, "wire": {"C19"}, "custom": {"C21"}, "keys": {"C22"}, "sort": {"C23"}}[cmd]
	if props == nil {
		return
	}
	go func() {
		last, since := int64(-1), time.Now()
		for {
			time.Sleep(time.Second)
			if b := beats.Load(); b != last {
				last, since = b, time.Now()
				continue
			}
			if time.Since(since) < limit {
				continue
			}
			buf := make([]byte, 1<<16)
			stack := string(buf[:runtime.Stack(buf, true)])
			if !strings.Contains(stack, "sonirico/visigoth.") {
				continue
			}
			for _, p := range props {
				rep.violation(Violation{p, "the code does not come back", []string{short(stack, 4000)}, nil})
			}
			rep.write(*fOut)
			os.Exit(0)
		}
	}()
}

// violation records one; the first few of each property are kept.
func (r *Report) violation(v Violation) {
	r.Found[v.Prop]++
	if r.Found[v.Prop] > maxPerProp || r.seen[v.Prop+v.What] {
		return
	}
	r.seen[v.Prop+v.What] = true
	r.Violations = append(r.Violations, v)
}

func (r *Report) sample(max int, v any) {
	if len(r.Samples) < max {
		r.Samples = append(r.Samples, v)
	}
}

func (r *Report) write(path string) {
	b, err := json.Marshal(r)
	if err != nil {
		die("report: %v", err)
	}
	if err := os.WriteFile(path, b, 0o644); err != nil {
		die("report: %v", err)
	}
}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(3)
}

// addTo adds a detail to a per-property map.
func addTo(m map[string][]string, prop, f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	for _, x := range m[prop] {
		if x == s {
			return
		}
	}
	if len(m[prop]) < 6 {
		m[prop] = append(m[prop], s)
	}
}

func propsOf(m map[string][]string) []string {
	var k []string
	for p := range m {
		k = append(k, p)
	}
	sort.Strings(k)
	return k
}

func short(s string, n int) string {
	s = strings.ToValidUTF8(s, "?")
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// exitStall is the exit code of a run in which the scheduler made no progress:
// the code under test blocks on, or loops in, something the scheduler does not
// control.  The caller then repeats the run in native mode.
const exitStall = 77

// watchdog ends the process when a controlled run stalls.
func watchdog(limit time.Duration) {
	go func() {
		last, since := int64(-1), time.Now()
		for {
			time.Sleep(100 * time.Millisecond)
			if !vsync.Running() {
				last, since = -1, time.Now()
				continue
			}
			p := vsync.ProgressNow()
			if p != last {
				last, since = p, time.Now()
				continue
			}
			if time.Since(since) > limit {
				fmt.Fprintln(os.Stderr, "STALL: a controlled run makes no progress")
				os.Exit(exitStall)
			}
		}
	}()
}
