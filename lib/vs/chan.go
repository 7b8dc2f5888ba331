//go:build go1.21

package vs

import (
	"fmt"
	"runtime"
	"unsafe"
)

// shadow is the model of one channel. The real channel is only used for its
// identity and its capacity.
type shadow struct {
	key    unsafe.Pointer
	cap    int
	buf    []any
	closed bool
	sendq  []*waiter
	recvq  []*waiter
	nsend  int
	nrecv  int
	syncs  []uint64 // happens-before objects per slot
	csync  uint64
	keep   any // keeps the real channel alive so that the key is not reused
}

// waiter is a thread waiting in a channel operation or a select.
type waiter struct {
	t     *Thread
	sel   *selState
	idx   int
	val   any
	ok    bool
	sync  uint64
	sync2 uint64
}

type selState struct {
	fired  bool
	which  int
	w      *waiter
	closed bool
}

// chanTable maps channel identities to shadows without using a Go map.
type chanTable struct {
	slots []*shadow
	n     int
}

func hashPtr(p unsafe.Pointer) uint64 {
	h := uint64(uintptr(p))
	h ^= h >> 33
	h *= 0xff51afd7ed558ccd
	h ^= h >> 33
	return h
}

func (ct *chanTable) get(p unsafe.Pointer) *shadow {
	if len(ct.slots) == 0 {
		return nil
	}
	m := uint64(len(ct.slots) - 1)
	for i := hashPtr(p) & m; ; i = (i + 1) & m {
		s := ct.slots[i]
		if s == nil {
			return nil
		}
		if s.key == p {
			return s
		}
	}
}

func (ct *chanTable) put(s *shadow) {
	if (ct.n+1)*2 > len(ct.slots) {
		old := ct.slots
		size := len(old) * 2
		if size == 0 {
			size = 32
		}
		ct.slots = make([]*shadow, size)
		ct.n = 0
		for _, o := range old {
			if o != nil {
				ct.put(o)
			}
		}
	}
	m := uint64(len(ct.slots) - 1)
	i := hashPtr(s.key) & m
	for ct.slots[i] != nil {
		i = (i + 1) & m
	}
	ct.slots[i] = s
	ct.n++
}

func shadowOf(p unsafe.Pointer, capacity int, keep any) *shadow {
	if p == nil {
		return nil
	}
	s := x.chans.get(p)
	if s == nil {
		n := capacity
		if n == 0 {
			n = 1
		}
		s = &shadow{key: p, cap: capacity, syncs: make([]uint64, n), keep: keep}
		x.chans.put(s)
	}
	return s
}

func chanPtr[T any](ch *T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(ch)) }

// trySend performs the send if it can proceed.
func (s *shadow) trySend(v any) bool {
	if s.closed {
		panic(sendClosed{})
	}
	for len(s.recvq) > 0 {
		w := s.recvq[0]
		s.recvq = s.recvq[1:]
		if w.sel.fired {
			continue
		}
		w.val, w.ok = v, true
		RaceReleaseMerge(unsafe.Pointer(&w.sync))
		RaceAcquire(unsafe.Pointer(&w.sync2))
		w.sel.fire(w)
		return true
	}
	if len(s.buf) < s.cap {
		slot := &s.syncs[s.nsend%s.cap]
		RaceAcquire(unsafe.Pointer(slot))
		RaceReleaseMerge(unsafe.Pointer(slot))
		s.nsend++
		s.buf = append(s.buf, v)
		return true
	}
	return false
}

func (s *shadow) sendReady() bool {
	if s.closed || len(s.buf) < s.cap {
		return true
	}
	for _, w := range s.recvq {
		if !w.sel.fired {
			return true
		}
	}
	return false
}

func (s *shadow) recvReady() bool {
	if s.closed || len(s.buf) > 0 {
		return true
	}
	for _, w := range s.sendq {
		if !w.sel.fired {
			return true
		}
	}
	return false
}

// tryRecv performs the receive if it can proceed.
func (s *shadow) tryRecv() (v any, ok, done bool) {
	if len(s.buf) > 0 {
		slot := &s.syncs[s.nrecv%s.cap]
		RaceAcquire(unsafe.Pointer(slot))
		RaceReleaseMerge(unsafe.Pointer(slot))
		s.nrecv++
		v = s.buf[0]
		s.buf = s.buf[1:]
		// a waiting sender takes the free slot
		for len(s.sendq) > 0 {
			w := s.sendq[0]
			s.sendq = s.sendq[1:]
			if w.sel.fired {
				continue
			}
			s.buf = append(s.buf, w.val)
			slot := &s.syncs[s.nsend%s.cap]
			RaceAcquire(unsafe.Pointer(&w.sync2))
			RaceReleaseMerge(unsafe.Pointer(slot))
			RaceReleaseMerge(unsafe.Pointer(&w.sync))
			s.nsend++
			w.sel.fire(w)
			break
		}
		return v, true, true
	}
	for len(s.sendq) > 0 {
		w := s.sendq[0]
		s.sendq = s.sendq[1:]
		if w.sel.fired {
			continue
		}
		RaceAcquire(unsafe.Pointer(&w.sync2))
		RaceReleaseMerge(unsafe.Pointer(&w.sync))
		w.sel.fire(w)
		return w.val, true, true
	}
	if s.closed {
		RaceAcquire(unsafe.Pointer(&s.csync))
		return nil, false, true
	}
	return nil, false, false
}

func (ss *selState) fire(w *waiter) {
	ss.fired = true
	ss.which = w.idx
	ss.w = w
}

func (s *shadow) doClose() {
	if s.closed {
		panic(plainError("close of closed channel"))
	}
	s.closed = true
	RaceReleaseMerge(unsafe.Pointer(&s.csync))
	for _, w := range s.recvq {
		if w.sel.fired {
			continue
		}
		w.val, w.ok = nil, false
		RaceReleaseMerge(unsafe.Pointer(&w.sync))
		w.sel.fire(w)
	}
	s.recvq = nil
	for _, w := range s.sendq {
		if w.sel.fired {
			continue
		}
		w.sel.closed = true
		w.sel.fire(w)
	}
	s.sendq = nil
}

type plainError string

func (e plainError) Error() string { return string(e) }
func (e plainError) RuntimeError() {}

type sendClosed struct{}

func (sendClosed) Error() string { return "send on closed channel" }
func (sendClosed) RuntimeError() {}

// scase is one case of a select.
type scase struct {
	s    *shadow
	send bool
	val  any
	ok   bool
}

//go:noinline
func chanOp(what string, s *shadow, send bool, v any) (any, bool) {
	e := x
	if e == nil {
		panic("vs: channel operation outside of an execution")
	}
	if e.aborting {
		runtime.Goexit()
	}
	c := [1]*scase{{s: s, send: send, val: v}}
	doSelect(what, false, c[:])
	return c[0].val, c[0].ok
}

func doSelect(what string, hasDefault bool, cases []*scase) int {
	e := x
	if e == nil {
		panic("vs: select outside of an execution")
	}
	if e.aborting {
		if hasDefault {
			return -1
		}
		runtime.Goexit()
	}
	Point(what)

	var rbuf [8]int
	ready := rbuf[:0]
	for i, c := range cases {
		if c.s == nil {
			continue
		}
		if c.send && c.s.sendReady() || !c.send && c.s.recvReady() {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		i := ready[e.choose(len(ready), 1, 1, 0)]
		c := cases[i]
		if c.send {
			if !c.s.trySend(c.val) {
				panic("vs: internal: send not ready")
			}
			c.val = nil
		} else {
			v, ok, done := c.s.tryRecv()
			if !done {
				panic("vs: internal: recv not ready")
			}
			c.val, c.ok = v, ok
		}
		return i
	}
	if hasDefault {
		return -1
	}

	st := &selState{}
	for i, c := range cases {
		if c.s == nil {
			continue
		}
		w := &waiter{t: e.cur, sel: st, idx: i, val: c.val}
		RaceReleaseMerge(unsafe.Pointer(&w.sync2))
		if c.send {
			c.s.sendq = append(c.s.sendq, w)
		} else {
			c.s.recvq = append(c.s.recvq, w)
		}
	}
	Wait(what, func() bool { return st.fired })

	for _, c := range cases {
		if c.s == nil {
			continue
		}
		c.s.sendq = drop(c.s.sendq, st)
		c.s.recvq = drop(c.s.recvq, st)
	}
	w := st.w
	c := cases[st.which]
	if st.closed {
		RaceAcquire(unsafe.Pointer(&c.s.csync))
		panic(sendClosed{})
	}
	RaceAcquire(unsafe.Pointer(&w.sync))
	if !c.send {
		c.val, c.ok = w.val, w.ok
	}
	return st.which
}

func drop(q []*waiter, st *selState) []*waiter {
	out := q[:0]
	for _, w := range q {
		if w.sel != st {
			out = append(out, w)
		}
	}
	for i := len(out); i < len(q); i++ {
		q[i] = nil
	}
	return out
}

//go:noinline
func closeOp(s *shadow) {
	e := x
	if e == nil {
		panic("vs: close outside of an execution")
	}
	if e.aborting {
		return
	}
	if s == nil {
		panic(plainError("close of nil channel"))
	}
	Point("close")
	s.doClose()
}

// ---- generic front ends; they hold no state of their own

//go:noinline
func shadowOfPtr(p unsafe.Pointer, c int, keep any) *shadow {
	if x == nil {
		panic("vs: channel operation outside of an execution")
	}
	return shadowOf(p, c, keep)
}

func shR[T any](ch <-chan T) *shadow {
	if ch == nil {
		return nil
	}
	return shadowOfPtr(chanPtr(&ch), cap(ch), ch)
}

func shS[T any](ch chan<- T) *shadow {
	if ch == nil {
		return nil
	}
	return shadowOfPtr(chanPtr(&ch), cap(ch), ch)
}

// SendTo is a send statement: SendTo(ch)(v).
func SendTo[T any](ch chan<- T) func(T) {
	return func(v T) { chanOp("send", shS(ch), true, v) }
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := chanOp("recv", shR(ch), false, nil)
	t, _ := v.(T)
	return t
}

// Recv2 is v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	v, ok := chanOp("recv", shR(ch), false, nil)
	t, _ := v.(T)
	return t, ok
}

// Close is close(ch).
func Close[T any](ch chan<- T) { closeOp(shS(ch)) }

//go:noinline
func lenOp(s *shadow) int {
	if s == nil || x == nil || x.aborting {
		return 0
	}
	Point("len(chan)")
	return len(s.buf)
}

// Len is len(ch).
func Len[T any](ch <-chan T) int { return lenOp(shR(ch)) }

// Case is a case of a select statement.
type Case interface{ sc() *scase }

// RCase is a receive case.
type RCase[T any] struct{ c *scase }

func (r RCase[T]) sc() *scase { return r.c }

// Get returns the received value.
func (r RCase[T]) Get() T { t, _ := valOf(r.c).(T); return t }

// Get2 returns the received value and if it came from a send.
func (r RCase[T]) Get2() (T, bool) { t, _ := valOf(r.c).(T); return t, okOf(r.c) }

//go:noinline
func valOf(c *scase) any { return c.val }

//go:noinline
func okOf(c *scase) bool { return c.ok }

//go:noinline
func mkCase(s *shadow, send bool, v any) *scase { return &scase{s: s, send: send, val: v} }

// RecvCase makes a receive case.
func RecvCase[T any](ch <-chan T) RCase[T] { return RCase[T]{mkCase(shR(ch), false, nil)} }

// SCase is a send case.
type SCase struct{ c *scase }

func (s SCase) sc() *scase { return s.c }

// SendCase makes a send case: SendCase(ch)(v).
func SendCase[T any](ch chan<- T) func(T) SCase {
	return func(v T) SCase { return SCase{mkCase(shS(ch), true, v)} }
}

// Select runs a select statement and returns the index of the case taken, or
// -1 for the default case.
//
//go:noinline
func Select(hasDefault bool, cases ...Case) int {
	cs := make([]*scase, len(cases))
	for i, c := range cases {
		cs[i] = c.sc()
	}
	if len(cs) == 0 && !hasDefault {
		Wait("select{}", func() bool { return false })
	}
	return doSelect("select", hasDefault, cs)
}

// ---- untyped helpers for the shims

// Chan is a handle on a modelled channel for shims.
type Chan struct{ s *shadow }

// ChanOf returns the handle of a channel.
func ChanOf[T any](ch chan T) Chan { return Chan{shS(ch)} }

// TrySend sends without blocking and without a scheduling point.
//
//go:noinline
func (c Chan) TrySend(v any) bool {
	if c.s.closed || !c.s.sendReady() {
		return false
	}
	return c.s.trySend(v)
}

// CloseNow closes the channel without a scheduling point if it is open.
//
//go:noinline
func (c Chan) CloseNow() {
	if !c.s.closed {
		c.s.doClose()
	}
}

// Closed reports if the channel is closed.
//
//go:noinline
func (c Chan) Closed() bool { return c.s.closed }

// Drain empties the buffer of the channel.
//
//go:noinline
func (c Chan) Drain() { c.s.buf = nil }

func (s *shadow) String() string {
	return fmt.Sprintf("chan(%p cap=%d len=%d)", s.key, s.cap, len(s.buf))
}

// ChanOfSend returns the handle of a channel.
func ChanOfSend[T any](ch chan<- T) Chan { return Chan{shS(ch)} }
