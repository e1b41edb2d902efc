package vsync

import (
	"fmt"
	"os"
	"sync/atomic"
	"unsafe"
)

// Channels of the code under test stay channels of the runtime; in a
// controlled run their operations only ever are attempts, and a thread whose
// attempt fails is blocked until another thread's operation can have changed
// that.  Values pass over unbuffered channels from thread to thread.

type comm interface {
	at() unsafe.Pointer
	send() bool
	attempt() bool // on the runtime's channel
	can() bool     // whether an attempt on a buffered channel would succeed
	buffered() bool
	meet(o comm) // the hand-over between a sender and a receiver
}

type waiter struct {
	cases   []comm
	granted bool
	chosen  int
}

// SendCase is a send operation.
type SendCase[T any] struct {
	c chan<- T
	v T
}

// RecvCase is a receive operation and what it received.
type RecvCase[T any] struct {
	c  <-chan T
	V  T
	OK bool
}

//go:norace
func (x *SendCase[T]) at() unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&x.c)) }

//go:norace
func (x *RecvCase[T]) at() unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&x.c)) }

func (x *SendCase[T]) send() bool { return true }
func (x *RecvCase[T]) send() bool { return false }

//go:norace
func (x *SendCase[T]) buffered() bool { return cap(x.c) > 0 }

//go:norace
func (x *RecvCase[T]) buffered() bool { return cap(x.c) > 0 }

//go:norace
func (x *SendCase[T]) can() bool { return len(x.c) < cap(x.c) }

//go:norace
func (x *RecvCase[T]) can() bool { return len(x.c) > 0 }

//go:norace
func (x *SendCase[T]) attempt() bool {
	select {
	case x.c <- x.v:
		return true
	default:
		return false
	}
}

//go:norace
func (x *RecvCase[T]) attempt() bool {
	select {
	case x.V, x.OK = <-x.c:
		return true
	default:
		return false
	}
}

//go:norace
func (x *SendCase[T]) meet(o comm) {
	if r, ok := o.(*RecvCase[T]); ok {
		r.V, r.OK = x.v, true
	}
}

//go:norace
func (x *RecvCase[T]) meet(o comm) {
	if w, ok := o.(*SendCase[T]); ok {
		x.V, x.OK = w.v, true
	}
}

// SCase makes a send operation, RCase a receive operation.
func SCase[T any](c chan<- T) func(T) comm {
	return func(v T) comm { return &SendCase[T]{c, v} }
}

func RCase[T any](c <-chan T) *RecvCase[T] { return &RecvCase[T]{c: c} }

// Send is c <- v, as Send(c)(v).
func Send[T any](c chan<- T) func(T) {
	return func(v T) {
		if !Active() {
			c <- v
			return
		}
		communicate(false, []comm{&SendCase[T]{c, v}})
	}
}

// Recv2 is <-c with two results.
func Recv2[T any](c <-chan T) (T, bool) {
	if !Active() {
		v, ok := <-c
		return v, ok
	}
	x := &RecvCase[T]{c: c}
	communicate(false, []comm{x})
	return x.V, x.OK
}

// Recv is <-c; RecvP points to what it received.
func Recv[T any](c <-chan T) T {
	v, _ := Recv2(c)
	return v
}

func RecvP[T any](c <-chan T) *T {
	v, _ := Recv2(c)
	return &v
}

// Close is close(c).
func Close[T any](c chan<- T) {
	if !Active() {
		close(c)
		return
	}
	yield()
	p := *(*unsafe.Pointer)(unsafe.Pointer(&c))
	if p != nil {
		raceReleaseMerge(p)
	}
	close(c)
	closing(p)
}

//go:norace
func closing(p unsafe.Pointer) {
	s.closed = append(s.closed, p)
}

//go:norace
func isClosed(p unsafe.Pointer) bool {
	for _, q := range s.closed {
		if q == p {
			return true
		}
	}
	return false
}

// Select returns the position of the operation that went through, or -1 for
// the default case.
func Select(def bool, cases ...comm) int {
	if !Active() {
		return selectNative(def, cases)
	}
	return communicate(def, cases)
}

// Outside controlled runs a select keeps trying.
func selectNative(def bool, cases []comm) int {
	for n := 0; ; n++ {
		for i := range cases {
			k := (i + n) % len(cases)
			if cases[k].at() != nil && cases[k].attempt() {
				return k
			}
		}
		if def {
			return -1
		}
		nap(n)
	}
}

//go:norace
func communicate(def bool, cases []comm) int {
	yield()
	for _, x := range cases {
		if p := x.at(); p != nil {
			if x.send() {
				raceReleaseMerge(p)
			} else {
				raceReleaseMerge(unsafe.Add(p, 1))
			}
		}
	}
	if i, ok := tryAll(cases, true); ok {
		Tried(true)
		edge(cases[i])
		return i
	}
	if def {
		Tried(false)
		return -1
	}
	w := &waiter{cases: cases}
	s.waiters = append(s.waiters, w)
	for {
		block(what(cases), w.ready)
		if w.granted {
			break
		}
		if i, ok := tryAll(cases, false); ok {
			w.chosen = i
			break
		}
	}
	unwait(w)
	edge(cases[w.chosen])
	return w.chosen
}

//go:norace
func edge(x comm) {
	if x.send() {
		raceAcquire(unsafe.Add(x.at(), 1))
	} else {
		raceAcquire(x.at())
	}
}

//go:norace
func what(cases []comm) string {
	if len(cases) == 1 {
		if cases[0].send() {
			return "channel send"
		}
		return "channel receive"
	}
	return "select"
}

//go:norace
func unwait(w *waiter) {
	var l []*waiter
	for _, o := range s.waiters {
		if o != w {
			l = append(l, o)
		}
	}
	s.waiters = l
}

//go:norace
func (w *waiter) ready() bool {
	if w.granted {
		return true
	}
	for _, x := range w.cases {
		if p := x.at(); p != nil && (isClosed(p) || x.buffered() && x.can()) {
			return true
		}
	}
	return false
}

// tryAll attempts the operations, those that can go through in an order the
// chooser picks.
//
//go:norace
func tryAll(cases []comm, meet bool) (int, bool) {
	var can []int
	for i, x := range cases {
		p := x.at()
		if p != nil && (isClosed(p) || x.buffered() && x.can() || partner(x) != nil) {
			can = append(can, i)
		}
	}
	from := 0
	if len(can) > 1 {
		from = can[s.choose(len(can), -1)]
	}
	for j := range cases {
		i := (from + j) % len(cases)
		x := cases[i]
		if x.at() == nil {
			continue
		}
		if meet {
			if w := partner(x); w != nil {
				for k, y := range w.cases {
					if y.at() == x.at() && y.send() != x.send() {
						x.meet(y)
						y.meet(x)
						w.granted, w.chosen = true, k
						unwait(w)
						return i, true
					}
				}
			}
		}
		raceOff()
		ok := x.attempt()
		raceOnAgain()
		if ok {
			return i, true
		}
	}
	return 0, false
}

// partner is the first thread waiting to meet x.
//
//go:norace
func partner(x comm) *waiter {
	if x.buffered() {
		return nil
	}
	for _, w := range s.waiters {
		if w.granted {
			continue
		}
		for _, y := range w.cases {
			if y.at() == x.at() && y.send() != x.send() {
				return w
			}
		}
	}
	return nil
}

// Goroutines that controlled runs know nothing of: started outside of them, or
// left behind by one.  They might be what a blocked thread waits for.
var strays atomic.Int64

// Strays is the number of such goroutines.
func Strays() int { return int(strays.Load()) }

// ExitStall ends a process whose runs cannot be controlled.
var ExitStall = func() { fmt.Fprintln(os.Stderr, "STALL: goroutines outside of the controlled run"); os.Exit(77) }
