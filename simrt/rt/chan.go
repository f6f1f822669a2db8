package rt

import (
	"runtime"
	"unsafe"
)

// Channels of the code under test: buffered values live in the real channel, which never
// blocks because only one task runs; what would block waits in chanQ for its counterpart.

// chanWait is one direction of one channel a blocked task waits for.
type chanWait struct {
	next *chanWait
	ptr  uintptr
	send bool
	w    *chanWaiter
	idx  int
	val  any
	push func() bool   // puts val into the real channel
	hb   chan struct{} // what the waiting task did before is seen by its counterpart
}

type chanWaiter struct {
	fired  bool
	closed bool // a blocked send met a close
	idx    int
	val    any
	ok     bool
	hb     chan struct{} // what the counterpart did before is seen by the waiting task
}

var chanQ *chanWait // in order of arrival

// Case is one alternative of a select statement.
type Case interface {
	ptr() uintptr
	sending() bool
	try() bool
	take() any
	put(v any, ok bool)
}

// RecvCase receives.
type RecvCase[T any] struct {
	c  <-chan T
	V  T
	OK bool
}

func CaseRecv[T any](c <-chan T) *RecvCase[T] { return &RecvCase[T]{c: c} }

func (r *RecvCase[T]) ptr() uintptr  { return *(*uintptr)(unsafe.Pointer(&r.c)) }
func (r *RecvCase[T]) sending() bool { return false }
func (r *RecvCase[T]) take() any     { return nil }

func (r *RecvCase[T]) try() bool {
	select {
	case r.V, r.OK = <-r.c:
		return true
	default:
		return false
	}
}

func (r *RecvCase[T]) put(v any, ok bool) {
	var zero T
	r.V, r.OK = zero, ok
	if ok {
		r.V, _ = v.(T)
	}
}

// Next is the condition of a loop over the channel.
func (r *RecvCase[T]) Next() bool { Select(false, r); return r.OK }

// SendCase sends.
type SendCase[T any] struct {
	c chan<- T
	v T
}

func CaseSend[T any](c chan<- T) func(v T) *SendCase[T] {
	return func(v T) *SendCase[T] { return &SendCase[T]{c, v} }
}

func (s *SendCase[T]) ptr() uintptr  { return *(*uintptr)(unsafe.Pointer(&s.c)) }
func (s *SendCase[T]) sending() bool { return true }
func (s *SendCase[T]) take() any     { return s.v }
func (s *SendCase[T]) put(any, bool) {}

func (s *SendCase[T]) try() bool {
	select {
	case s.c <- s.v:
		return true
	default:
		return false
	}
}

func Recv[T any](c <-chan T) T {
	r := CaseRecv(c)
	Select(false, r)
	return r.V
}

func Recv2[T any](c <-chan T) (T, bool) {
	r := CaseRecv(c)
	Select(false, r)
	return r.V, r.OK
}

func SendTo[T any](c chan<- T) func(v T) {
	return func(v T) { Select(false, &SendCase[T]{c, v}) }
}

// Close closes a channel and wakes who waits for it.
func Close[T any](c chan<- T) {
	p := *(*uintptr)(unsafe.Pointer(&c))
	close(c)
	for e := firstWait(p, false); e != nil; e = firstWait(p, false) {
		fire(e, nil, false, false)
	}
	for e := firstWait(p, true); e != nil; e = firstWait(p, true) {
		fire(e, nil, false, true)
	}
}

//go:norace
func firstWait(p uintptr, send bool) *chanWait {
	for e := chanQ; e != nil; e = e.next {
		if e.ptr == p && e.send == send && !e.w.fired {
			return e
		}
	}
	return nil
}

// fire completes a waiting alternative.
//
//go:norace
func fire(e *chanWait, v any, ok, closed bool) {
	meet(e)
	w := e.w
	w.fired, w.closed, w.idx, w.val, w.ok = true, closed, e.idx, v, ok
	w.hb <- struct{}{}
	Wake(uintptr(unsafe.Pointer(w)))
}

//go:norace
func waitValue(e *chanWait) any { return e.val }

// meet makes what the waiting task did visible here.
//
//go:norace
func meet(e *chanWait) {
	select {
	case <-e.hb:
	default:
	}
}

//go:norace
func (e *chanWait) again() bool { return e.push() }

// attempt does one alternative if it can be done now.
func attempt(c Case) bool {
	if c.sending() {
		if e := firstWait(c.ptr(), false); e != nil {
			fire(e, c.take(), true, false)
			return true
		}
		return c.try()
	}
	if c.try() {
		if e := firstWait(c.ptr(), true); e != nil {
			if meet(e); e.again() { // room for a blocked sender
				fire(e, nil, true, false)
			}
		}
		return true
	}
	if e := firstWait(c.ptr(), true); e != nil {
		v := waitValue(e)
		fire(e, nil, true, false)
		c.put(v, true)
		return true
	}
	return false
}

// Select does one of the alternatives: -1 if none can be done and there is a default.
func Select(def bool, cases ...Case) int {
	if !InTask() {
		for {
			for i, c := range cases {
				if c.try() {
					return i
				}
			}
			if def || Exiting() {
				return -1
			}
			runtime.Gosched()
		}
	}
	Y(0)
	first := 0
	if len(cases) > 1 {
		first = Choose(len(cases))
	}
	for k := range cases {
		if i := (first + k) % len(cases); attempt(cases[i]) {
			return i
		}
	}
	if def {
		return -1
	}
	w := newWaiter()
	defer forget(w)
	for i, c := range cases {
		if c.ptr() != 0 { // not a nil channel
			enqueue(w, i, c, c.take(), c.try)
		}
	}
	await(w)
	if w.closed {
		panic("send on closed channel")
	}
	if c := cases[w.idx]; !c.sending() {
		c.put(w.val, w.ok)
	}
	return w.idx
}

//go:norace
func newWaiter() *chanWaiter { return &chanWaiter{hb: make(chan struct{}, 1)} }

//go:norace
func enqueue(w *chanWaiter, i int, c Case, val any, push func() bool) {
	e := &chanWait{ptr: c.ptr(), send: c.sending(), w: w, idx: i, val: val, hb: make(chan struct{}, 1), push: push}
	e.hb <- struct{}{}
	if chanQ == nil {
		chanQ = e
		return
	}
	l := chanQ
	for l.next != nil {
		l = l.next
	}
	l.next = e
}

//go:norace
func await(w *chanWaiter) {
	for !w.fired {
		Block(uintptr(unsafe.Pointer(w)))
	}
	<-w.hb
}

// forget removes a task's entries, also when it is torn down.
//
//go:norace
func forget(w *chanWaiter) {
	w.fired = true
	p := &chanQ
	for *p != nil {
		if (*p).w == w {
			*p = (*p).next
		} else {
			p = &(*p).next
		}
	}
}
