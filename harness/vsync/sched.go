// Package vsync replaces package sync (and the go statement) in an
// instrumented build of the code under test.  Every goroutine is a thread of a
// cooperative scheduler: one runs at a time, and at every synchronisation
// operation a chooser decides which goes on.  Deadlock is exact: no thread can
// go on.  The hand-over between threads is hidden from the race detector, the
// happens-before edges of the primitives are reported to it as package sync
// reports them, so that a race is found whatever the schedule serialises.
package vsync

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sync/atomic"
	"time"
	"unsafe"
)

type thread struct {
	id      int
	wake    chan struct{}
	ready   func() bool // nil: runnable
	done    bool
	op      bool // an operation thread (the run waits for it)
	inCall  bool
	held    int // locks acquired minus locks released by this thread
	blocked string
	spin    int // the step at which it asked for others to go first, or 0
	last    int // the step at which it last went on
	fails   int // attempts that failed in a row
}

// Chooser picks one of n runnable threads; cur is the position of the current
// one among them, or -1 when it cannot go on.
type Chooser func(n, cur int) int

type sched struct {
	threads []*thread
	cur     *thread
	choose  Chooser
	main    chan struct{}
	stuck   bool
	panics  []string
	live    int // op threads not done
	steps   int
	end     byte // address for happens-before of the end of the run
	clock   int
	ids     []int // choice bookkeeping
	events  []Event
	rec     bool
	over    bool
	runbuf  []*thread
	waiters []*waiter        // threads waiting at channels
	closed  []unsafe.Pointer // channels closed in this run
}

// Event is one synchronisation event, recorded when Run is asked to.
type Event struct {
	Th   int
	Kind string // lock rlock unlock runlock
	Obj  int
}

var s *sched

// MaxSteps bounds the scheduling steps of one run (a runaway loop of lock
// operations ends the run as stuck).
var MaxSteps = 200000

// Active reports whether a controlled run is in progress.
//
//go:norace
func Active() bool { return s != nil && !s.over }

// Outcome of a controlled run.
type Outcome struct {
	Stuck   bool     // some operation thread can never go on
	Blocked []string // what the blocked threads wait for
	Panics  []string // panics in goroutines started by the code under test
	Steps   int
	Events  []Event
}

// progress counts scheduling steps over all runs, running the controlled runs
// in progress (a watchdog reads both).
var progress, running atomic.Int64

// ProgressNow is the number of scheduling steps so far.
func ProgressNow() int64 { return progress.Load() }

// Running reports whether a controlled run is in progress.
func Running() bool { return running.Load() > 0 }

// Run executes the operation threads under the chooser and returns when all
// are done or none can go on.
func Run(ops []func(), choose Chooser, record bool) Outcome {
	for n := 0; started.Load() > 0; n++ {
		if n > 20000 {
			ExitStall()
		}
		nap(n)
	}
	sc := &sched{choose: choose, main: make(chan struct{}, 1), rec: record}
	raceOff()
	running.Add(1)
	raceOnAgain()
	install(sc)
	for _, f := range ops {
		spawn(f, true)
	}
	first(sc)
	raceOff()
	<-sc.main
	running.Add(-1)
	progress.Add(1)
	raceOnAgain()
	raceAcquire(unsafe.Pointer(&sc.end))
	return finish(sc)
}

//go:norace
func install(sc *sched) { s = sc }

//go:norace
func finish(sc *sched) Outcome {
	sc.over = true
	o := Outcome{Stuck: sc.stuck, Panics: sc.panics, Steps: sc.steps, Events: sc.events}
	if sc.stuck {
		for _, t := range sc.threads {
			if !t.done {
				o.Blocked = append(o.Blocked, fmt.Sprintf("thread %d at %s", t.id, t.blocked))
			}
		}
	}
	if !sc.stuck {
		for _, t := range sc.threads {
			if !t.done {
				strays.Add(1)
			}
		}
	}
	s = nil
	return o
}

//go:norace
func spawn(f func(), op bool) {
	sc := s
	t := &thread{id: len(sc.threads), wake: make(chan struct{}, 1), op: op}
	sc.threads = append(sc.threads, t)
	if op {
		sc.live++
	}
	go body(sc, t, f)
}

func body(sc *sched, t *thread, f func()) {
	raceOff()
	<-t.wake
	raceOnAgain()
	defer exit(sc, t)
	if t.op {
		f()
		return
	}
	defer guard(sc)
	f()
}

//go:norace
func guard(sc *sched) {
	if r := recover(); r != nil {
		sc.panics = append(sc.panics, fmt.Sprintf("%v\n%s", r, debug.Stack()))
	}
}

//go:norace
func exit(sc *sched, t *thread) {
	raceReleaseMerge(unsafe.Pointer(&sc.end))
	t.done = true
	if t.op {
		sc.live--
	}
	if sc.over {
		return
	}
	next(sc, t)
}

//go:norace
func first(sc *sched) {
	t := pick(sc, nil)
	sc.cur = t
	raceOff()
	t.wake <- struct{}{}
	raceOnAgain()
}

// pick returns the thread to go on, or nil.
//
//go:norace
func pick(sc *sched, me *thread) *thread {
	run := sc.runbuf[:0]
	cur := -1
	spins := false
	for _, t := range sc.threads {
		if t.done {
			continue
		}
		if t.ready == nil || t.ready() {
			spins = spins || t.spin > 0
			run = append(run, t)
		}
	}
	if spins { // all that can go on go before a spinning thread does again
		var keep []*thread
		for _, t := range run {
			if fair(t, run) {
				keep = append(keep, t)
			}
		}
		run = keep
	}
	for i, t := range run {
		if t == me {
			cur = i
		}
	}
	sc.runbuf = run
	if len(run) == 0 {
		return nil
	}
	i := 0
	if len(run) > 1 {
		i = sc.choose(len(run), cur)
	}
	return run[i]
}

//go:norace
func fair(t *thread, run []*thread) bool {
	if t.spin == 0 {
		return true
	}
	for _, o := range run {
		if o != t && o.last < t.spin {
			return false
		}
	}
	return true
}

// next hands over from t, which is done or blocked or at a yield point.
//
//go:norace
func next(sc *sched, t *thread) {
	sc.steps++
	raceOff()
	progress.Add(1)
	raceOnAgain()
	n := pick(sc, t)
	if n == nil || sc.steps > MaxSteps {
		// all threads done, or deadlock
		sc.over = true
		sc.stuck = sc.live > 0
		if sc.stuck && n == nil && strays.Load() > 0 {
			ExitStall()
		}
		raceOff()
		sc.main <- struct{}{}
		if !t.done {
			select {} // abandoned
		}
		raceOnAgain()
		return
	}
	n.last, n.spin = sc.steps, 0
	if n == t {
		t.ready = nil
		return
	}
	sc.cur = n
	n.ready = nil
	raceOff()
	n.wake <- struct{}{}
	if !t.done {
		<-t.wake
	}
	raceOnAgain()
}

// yield is a scheduling point of the running thread.
//
//go:norace
func yield() {
	if s == nil || s.over {
		return
	}
	next(s, s.cur)
}

// Tried tells how an attempt of the running thread went: one that fails again
// and again has the others go first.
//
//go:norace
func Tried(ok bool) bool {
	if s == nil || s.over {
		return ok
	}
	t := s.cur
	if ok {
		t.fails = 0
		return ok
	}
	t.fails++
	if t.fails > 1 {
		t.spin = s.steps + 1
	}
	return ok
}

// goroutines under way that were started outside controlled runs
var started atomic.Int64

func nap(n int) {
	if n < 100 {
		runtime.Gosched()
		return
	}
	time.Sleep(100 * time.Microsecond)
}

// Gosched as in package runtime: the others go first.
//
//go:norace
func Gosched() {
	if s == nil || s.over {
		runtime.Gosched()
		return
	}
	s.cur.spin = s.steps + 1
	next(s, s.cur)
}

// Sleep as in package time: in a controlled run no time passes, but others go
// first.
func Sleep(d time.Duration) {
	if !Active() {
		time.Sleep(d)
		return
	}
	Gosched()
}

// Yield lets the harness insert scheduling points.
func Yield() { yield() }

// block suspends the running thread until ready holds.
//
//go:norace
func block(what string, ready func() bool) {
	for !ready() {
		if s == nil || s.over {
			ExitStall()
		}
		t := s.cur
		t.ready = ready
		t.blocked = what
		next(s, t)
	}
}

// Go replaces the go statement.
//
//go:norace
func Go(f func()) {
	if s == nil || s.over {
		started.Add(1)
		go func() {
			defer started.Add(-1)
			f()
		}()
		return
	}
	spawn(f, false)
}

// Now is the logical clock: it advances at every call.
//
//go:norace
func Now() int {
	if s == nil {
		return 0
	}
	s.clock++
	return s.clock
}

//go:norace
func note(kind string, obj int) {
	if s != nil && s.rec && !s.over {
		s.events = append(s.events, Event{s.cur.id, kind, obj})
	}
}

var objs int

//go:norace
func objID(p *int) int {
	if *p == 0 {
		objs++
		*p = objs
	}
	return *p
}

// ResetIDs restarts the numbering of synchronisation objects.
//
//go:norace
func ResetIDs() { objs = 0 }
