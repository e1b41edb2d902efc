package vsync

import (
	"sync"
	"unsafe"
)

// Locker, Pool: as in package sync.
type Locker = sync.Locker
type Pool = sync.Pool

// Mutex as sync.Mutex.
type Mutex struct {
	held bool
	id   int
	a    byte
}

//go:norace
func (m *Mutex) Lock() {
	yield()
	if m.held {
		block("Mutex.Lock", m.free)
	}
	m.held = true
	note("lock", objID(&m.id))
	raceAcquire(unsafe.Pointer(&m.a))
}

//go:norace
func (m *Mutex) free() bool { return !m.held }

//go:norace
func (m *Mutex) TryLock() bool {
	yield()
	if m.held {
		return Tried(false)
	}
	m.held = true
	note("lock", objID(&m.id))
	raceAcquire(unsafe.Pointer(&m.a))
	return Tried(true)
}

//go:norace
func (m *Mutex) Unlock() {
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	raceRelease(unsafe.Pointer(&m.a))
	note("unlock", objID(&m.id))
	m.held = false
}

// RWMutex as sync.RWMutex: a waiting writer holds back new readers; when a
// writer releases, the readers that waited go before the next writer.
type RWMutex struct {
	writer  bool // a writer holds it
	pending bool // a writer holds it or waits for the readers to leave
	readers int
	waiting []*ticket
	id      int
	a, b    byte
}

type ticket struct{ granted bool }

//go:norace
func (t *ticket) ok() bool { return t.granted }

//go:norace
func (m *RWMutex) RLock() {
	yield()
	if m.pending {
		t := new(ticket)
		m.waiting = append(m.waiting, t)
		block("RWMutex.RLock", t.ok) // the releasing writer counts it in
	} else {
		m.readers++
	}
	note("rlock", objID(&m.id))
	raceAcquire(unsafe.Pointer(&m.a))
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	yield()
	if m.pending {
		return Tried(false)
	}
	m.readers++
	note("rlock", objID(&m.id))
	raceAcquire(unsafe.Pointer(&m.a))
	return Tried(true)
}

//go:norace
func (m *RWMutex) RUnlock() {
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	raceReleaseMerge(unsafe.Pointer(&m.b))
	note("runlock", objID(&m.id))
	m.readers--
}

//go:norace
func (m *RWMutex) noWriter() bool { return !m.pending }

//go:norace
func (m *RWMutex) noReader() bool { return m.readers == 0 }

//go:norace
func (m *RWMutex) Lock() {
	yield()
	if m.pending {
		block("RWMutex.Lock", m.noWriter)
	}
	m.pending = true
	if m.readers > 0 {
		block("RWMutex.Lock", m.noReader)
	}
	m.writer = true
	note("lock", objID(&m.id))
	raceAcquire(unsafe.Pointer(&m.a))
	raceAcquire(unsafe.Pointer(&m.b))
}

//go:norace
func (m *RWMutex) TryLock() bool {
	yield()
	if m.pending || m.readers > 0 {
		return Tried(false)
	}
	m.pending, m.writer = true, true
	note("lock", objID(&m.id))
	raceAcquire(unsafe.Pointer(&m.a))
	raceAcquire(unsafe.Pointer(&m.b))
	return Tried(true)
}

//go:norace
func (m *RWMutex) Unlock() {
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	raceRelease(unsafe.Pointer(&m.a))
	note("unlock", objID(&m.id))
	m.writer, m.pending = false, false
	for _, t := range m.waiting {
		t.granted = true
		m.readers++
	}
	m.waiting = nil
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker as in package sync.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup as sync.WaitGroup.
type WaitGroup struct {
	n int
	a byte
}

//go:norace
func (w *WaitGroup) Add(d int) {
	if d < 0 {
		raceReleaseMerge(unsafe.Pointer(&w.a))
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

// Done as in package sync.
func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) zero() bool { return w.n == 0 }

//go:norace
func (w *WaitGroup) Wait() {
	yield()
	if w.n != 0 {
		block("WaitGroup.Wait", w.zero)
	}
	raceAcquire(unsafe.Pointer(&w.a))
}

// Go as in package sync.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() {
		defer w.Done()
		f()
	})
}

// Once as sync.Once.
type Once struct {
	m    Mutex
	done bool
}

// Do as in package sync.
func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc as in package sync (without the panic replay).
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue as in package sync (without the panic replay).
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

// OnceValues as in package sync (without the panic replay).
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) {
		o.Do(func() { v, u = f() })
		return v, u
	}
}

// Cond as sync.Cond.
type Cond struct {
	L       Locker
	waiting []*ticket
	a       byte
}

// NewCond as in package sync.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) Wait() {
	t := new(ticket)
	c.waiting = append(c.waiting, t)
	c.L.Unlock()
	block("Cond.Wait", t.ok)
	raceAcquire(unsafe.Pointer(&c.a))
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() {
	raceReleaseMerge(unsafe.Pointer(&c.a))
	if len(c.waiting) > 0 {
		c.waiting[0].granted = true
		c.waiting = c.waiting[1:]
	}
}

//go:norace
func (c *Cond) Broadcast() {
	raceReleaseMerge(unsafe.Pointer(&c.a))
	for _, t := range c.waiting {
		t.granted = true
	}
	c.waiting = nil
}

// Map as sync.Map, every operation a scheduling point.
type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool)           { yield(); return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { yield(); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { yield(); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { yield(); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { yield(); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { yield(); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool  { yield(); return Tried(m.m.CompareAndSwap(k, o, n)) }
func (m *Map) CompareAndDelete(k, o any) bool   { yield(); return Tried(m.m.CompareAndDelete(k, o)) }
func (m *Map) Range(f func(k, v any) bool)      { yield(); m.m.Range(f) }
func (m *Map) Clear()                           { yield(); m.m.Clear() }
