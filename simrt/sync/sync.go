// Package sync replaces the standard package in simulated code: blocking is a
// simulator decision. Each primitive also uses the real one, uncontended, so that
// the race detector sees exactly the ordering the program establishes.
package sync

import (
	real "sync"
	"unsafe"

	"verif.local/simrt/rt"
)

type (
	Locker = real.Locker
	Map    = real.Map
)

// Mutex is a simulated mutual exclusion lock.
type Mutex struct {
	held bool
	r    real.Mutex
}

func (m *Mutex) id() uintptr { return uintptr(unsafe.Pointer(m)) }

//go:norace
func (m *Mutex) take() bool {
	if !rt.InTask() {
		if m.held && rt.Exiting() {
			return false
		}
		m.held = true
		return true
	}
	rt.Y(0)
	for m.held {
		rt.Probe2("lock-contended")
		rt.Block(m.id())
	}
	m.held = true
	return true
}

func (m *Mutex) Lock() {
	if m.take() {
		m.r.Lock()
	}
}

//go:norace
func (m *Mutex) tryTake() bool {
	rt.Y(0)
	if m.held {
		return false
	}
	m.held = true
	return true
}

func (m *Mutex) TryLock() bool {
	if m.tryTake() {
		m.r.Lock()
		return true
	}
	return false
}

//go:norace
func (m *Mutex) isHeld() bool { return m.held }

//go:norace
func (m *Mutex) release() {
	m.held = false
	rt.Wake(m.id())
}

func (m *Mutex) Unlock() {
	if !m.isHeld() {
		if rt.Exiting() {
			return
		}
		rt.Fatal("sync: unlock of unlocked mutex")
		panic("sync: unlock of unlocked mutex")
	}
	m.r.Unlock()
	m.release()
}

// RWMutex is a simulated reader/writer lock. A waiting writer blocks new readers,
// as in the standard library.
type RWMutex struct {
	writer  bool
	readers int
	waiting int
	r       real.RWMutex
}

func (m *RWMutex) id() uintptr { return uintptr(unsafe.Pointer(m)) }

//go:norace
func (m *RWMutex) take() bool {
	if !rt.InTask() {
		if (m.writer || m.readers > 0) && rt.Exiting() {
			return false
		}
		m.writer = true
		return true
	}
	rt.Y(0)
	if m.writer || m.readers > 0 {
		m.waiting++
		for m.writer || m.readers > 0 {
			rt.Probe2("lock-contended")
			rt.Block(m.id())
		}
		m.waiting--
	}
	m.writer = true
	return true
}

func (m *RWMutex) Lock() {
	if m.take() {
		m.r.Lock()
	}
}

//go:norace
func (m *RWMutex) rtake() bool {
	if !rt.InTask() {
		if m.writer && rt.Exiting() {
			return false
		}
		m.readers++
		return true
	}
	rt.Y(0)
	for m.writer || m.waiting > 0 {
		rt.Probe2("lock-contended")
		rt.Block(m.id())
	}
	m.readers++
	return true
}

func (m *RWMutex) RLock() {
	if m.rtake() {
		m.r.RLock()
	}
}

//go:norace
func (m *RWMutex) state() (bool, int) { return m.writer, m.readers }

//go:norace
func (m *RWMutex) tryTake() bool {
	rt.Y(0)
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	return true
}

//go:norace
func (m *RWMutex) tryRTake() bool {
	rt.Y(0)
	if m.writer || m.waiting > 0 {
		return false
	}
	m.readers++
	return true
}

func (m *RWMutex) TryLock() bool {
	if m.tryTake() {
		m.r.Lock()
		return true
	}
	return false
}

func (m *RWMutex) TryRLock() bool {
	if m.tryRTake() {
		m.r.RLock()
		return true
	}
	return false
}

//go:norace
func (m *RWMutex) release() {
	m.writer = false
	rt.Wake(m.id())
}

//go:norace
func (m *RWMutex) rrelease() {
	m.readers--
	if m.readers == 0 {
		rt.Wake(m.id())
	}
}

func (m *RWMutex) Unlock() {
	if w, _ := m.state(); !w {
		if rt.Exiting() {
			return
		}
		rt.Fatal("sync: Unlock of unlocked RWMutex")
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.r.Unlock()
	m.release()
}

func (m *RWMutex) RUnlock() {
	if _, n := m.state(); n == 0 {
		if rt.Exiting() {
			return
		}
		rt.Fatal("sync: RUnlock of unlocked RWMutex")
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.r.RUnlock()
	m.rrelease()
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once runs a function once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) { o.Do(func() { v1, v2 = f() }); return v1, v2 }
}

// WaitGroup waits for simulated tasks.
type WaitGroup struct {
	n int
	r real.WaitGroup
}

func (w *WaitGroup) id() uintptr { return uintptr(unsafe.Pointer(w)) }

//go:norace
func (w *WaitGroup) add(d int) {
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		rt.Wake(w.id())
	}
}

func (w *WaitGroup) Add(d int) {
	w.r.Add(d)
	w.add(d)
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	rt.Go0(func() { defer w.Done(); f() })
}

//go:norace
func (w *WaitGroup) block() {
	if rt.InTask() {
		rt.Y(0)
		for w.n > 0 {
			rt.Block(w.id())
		}
	}
}

func (w *WaitGroup) Wait() {
	w.block()
	if !rt.Exiting() {
		w.r.Wait()
	}
}

// Cond is a simulated condition variable.
type Cond struct {
	L   Locker
	seq int
	out int
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) id() uintptr { return uintptr(unsafe.Pointer(c)) }

//go:norace
func (c *Cond) wait(t int) {
	for c.out <= t {
		rt.Block(c.id())
	}
}

func (c *Cond) Wait() {
	t := c.seq
	c.seq++
	c.L.Unlock()
	c.wait(t)
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() {
	if c.out < c.seq {
		c.out++
	}
	rt.Wake(c.id())
}

//go:norace
func (c *Cond) Broadcast() {
	c.out = c.seq
	rt.Wake(c.id())
}

// Pool is a deterministic free list.
type Pool struct {
	m    Mutex
	free []interface{}
	New  func() interface{}
}

func (p *Pool) Get() interface{} {
	p.m.Lock()
	if n := len(p.free); n > 0 {
		v := p.free[n-1]
		p.free = p.free[:n-1]
		p.m.Unlock()
		return v
	}
	p.m.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(v interface{}) {
	if v == nil {
		return
	}
	p.m.Lock()
	p.free = append(p.free, v)
	p.m.Unlock()
}
