//go:build go1.21

// Package vsync models package sync on the cooperative scheduler.
package vsync

import (
	"unsafe"

	"github.com/vivint/rothko/zz_verif/vs"
)

// Locker is sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

// Mutex is sync.Mutex.
type Mutex struct {
	locked bool
	_      [7]byte
	sync   uint64
}

//go:noinline
func (m *Mutex) Lock() {
	if vs.Aborting() {
		return
	}
	vs.Point("lock")
	vs.Wait("lock", func() bool { return !m.locked })
	m.locked = true
	vs.RaceAcquire(unsafe.Pointer(&m.sync))
	vs.Trace("locked %p", m)
}

//go:noinline
func (m *Mutex) TryLock() bool {
	if vs.Aborting() {
		return true
	}
	vs.Point("trylock")
	if m.locked {
		return false
	}
	m.locked = true
	vs.RaceAcquire(unsafe.Pointer(&m.sync))
	return true
}

//go:noinline
func (m *Mutex) Unlock() {
	if vs.Aborting() {
		return
	}
	if !m.locked {
		vs.Fail("fatal", "sync: unlock of unlocked mutex")
	}
	vs.Trace("unlock %p", m)
	vs.RaceRelease(unsafe.Pointer(&m.sync))
	m.locked = false
}

// RWMutex is sync.RWMutex.
type RWMutex struct {
	readers int
	writer  bool
	waiting int
	_       [7]byte
	sync    uint64
	rsync   uint64
}

//go:noinline
func (m *RWMutex) Lock() {
	if vs.Aborting() {
		return
	}
	vs.Point("wlock")
	m.waiting++
	vs.Wait("wlock", func() bool { return !m.writer && m.readers == 0 })
	m.waiting--
	m.writer = true
	vs.RaceAcquire(unsafe.Pointer(&m.sync))
	vs.RaceAcquire(unsafe.Pointer(&m.rsync))
}

//go:noinline
func (m *RWMutex) TryLock() bool {
	if vs.Aborting() {
		return true
	}
	vs.Point("trywlock")
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	vs.RaceAcquire(unsafe.Pointer(&m.sync))
	vs.RaceAcquire(unsafe.Pointer(&m.rsync))
	return true
}

//go:noinline
func (m *RWMutex) Unlock() {
	if vs.Aborting() {
		return
	}
	if !m.writer {
		vs.Fail("fatal", "sync: Unlock of unlocked RWMutex")
	}
	vs.RaceRelease(unsafe.Pointer(&m.sync))
	m.writer = false
}

//go:noinline
func (m *RWMutex) RLock() {
	if vs.Aborting() {
		return
	}
	vs.Point("rlock")
	// a waiting writer blocks new readers
	vs.Wait("rlock", func() bool { return !m.writer && m.waiting == 0 })
	m.readers++
	vs.RaceAcquire(unsafe.Pointer(&m.sync))
}

//go:noinline
func (m *RWMutex) TryRLock() bool {
	if vs.Aborting() {
		return true
	}
	vs.Point("tryrlock")
	if m.writer || m.waiting > 0 {
		return false
	}
	m.readers++
	vs.RaceAcquire(unsafe.Pointer(&m.sync))
	return true
}

//go:noinline
func (m *RWMutex) RUnlock() {
	if vs.Aborting() {
		return
	}
	if m.readers == 0 {
		vs.Fail("fatal", "sync: RUnlock of unlocked RWMutex")
	}
	vs.RaceReleaseMerge(unsafe.Pointer(&m.rsync))
	m.readers--
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker is (*sync.RWMutex).RLocker.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup is sync.WaitGroup.
type WaitGroup struct {
	n    int
	sync uint64
}

//go:noinline
func (w *WaitGroup) Add(d int) {
	if vs.Aborting() {
		return
	}
	vs.Point("wg.add")
	if d < 0 {
		vs.RaceReleaseMerge(unsafe.Pointer(&w.sync))
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

// Done is Add(-1).
//
//go:noinline
func (w *WaitGroup) Done() { w.Add(-1) }

//go:noinline
func (w *WaitGroup) Wait() {
	if vs.Aborting() {
		return
	}
	vs.Point("wg.wait")
	vs.Wait("wg.wait", func() bool { return w.n == 0 })
	vs.RaceAcquire(unsafe.Pointer(&w.sync))
}

// Go is (*sync.WaitGroup).Go.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vs.Go(func() {
		defer w.Done()
		f()
	})
}

// Once is sync.Once.
type Once struct {
	done bool
	m    Mutex
}

// Do is (*sync.Once).Do.
//
//go:noinline
func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	o := new(Once)
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	o := new(Once)
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

// Cond is sync.Cond.
type Cond struct {
	L       Locker
	waiters []*bool
	sync    uint64
}

// NewCond is sync.NewCond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:noinline
func (c *Cond) Wait() {
	if vs.Aborting() {
		return
	}
	f := new(bool)
	c.waiters = append(c.waiters, f)
	c.L.Unlock()
	vs.Wait("cond.wait", func() bool { return *f })
	vs.RaceAcquire(unsafe.Pointer(&c.sync))
	c.L.Lock()
}

//go:noinline
func (c *Cond) Signal() {
	if vs.Aborting() {
		return
	}
	vs.Point("cond.signal")
	vs.RaceReleaseMerge(unsafe.Pointer(&c.sync))
	if len(c.waiters) > 0 {
		*c.waiters[0] = true
		c.waiters = c.waiters[1:]
	}
}

//go:noinline
func (c *Cond) Broadcast() {
	if vs.Aborting() {
		return
	}
	vs.Point("cond.broadcast")
	vs.RaceReleaseMerge(unsafe.Pointer(&c.sync))
	for _, w := range c.waiters {
		*w = true
	}
	c.waiters = nil
}

type poolItem struct {
	v    any
	sync uint64
}

// Pool is sync.Pool. It prefers to hand out the most recently returned item,
// which exposes aliasing best, and may be asked to lose items.
type Pool struct {
	New   func() any
	items []*poolItem
	owner *vs.Exec
}

//go:noinline
func (p *Pool) fresh() {
	if p.owner != vs.Cur() {
		p.owner, p.items = vs.Cur(), nil
	}
}

//go:noinline
func (p *Pool) Get() any {
	if !vs.Aborting() {
		vs.Point("pool.get")
		p.fresh()
		if n := len(p.items); n > 0 {
			if !(vs.PoolMayDrop() && vs.Deviate(2) == 1) {
				it := p.items[n-1]
				p.items[n-1] = nil
				p.items = p.items[:n-1]
				vs.RaceAcquire(unsafe.Pointer(&it.sync))
				return it.v
			}
		}
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

//go:noinline
func (p *Pool) Put(v any) {
	if vs.Aborting() || v == nil {
		return
	}
	vs.Point("pool.put")
	p.fresh()
	it := &poolItem{v: v}
	vs.RaceRelease(unsafe.Pointer(&it.sync))
	p.items = append(p.items, it)
}

type mapEntry struct {
	k, v any
	dead bool
	sync uint64
}

// Map is sync.Map.
type Map struct {
	entries []*mapEntry
}

func (m *Map) find(k any) *mapEntry {
	for _, e := range m.entries {
		if !e.dead && e.k == k {
			return e
		}
	}
	return nil
}

//go:noinline
func (m *Map) Load(k any) (any, bool) {
	vs.Point("map.load")
	if e := m.find(k); e != nil {
		vs.RaceAcquire(unsafe.Pointer(&e.sync))
		return e.v, true
	}
	return nil, false
}

//go:noinline
func (m *Map) Store(k, v any) { m.Swap(k, v) }

//go:noinline
func (m *Map) Swap(k, v any) (any, bool) {
	vs.Point("map.store")
	if e := m.find(k); e != nil {
		vs.RaceAcquire(unsafe.Pointer(&e.sync))
		vs.RaceReleaseMerge(unsafe.Pointer(&e.sync))
		old := e.v
		e.v = v
		return old, true
	}
	m.add(k, v)
	return nil, false
}

func (m *Map) add(k, v any) {
	e := &mapEntry{k: k, v: v}
	vs.RaceReleaseMerge(unsafe.Pointer(&e.sync))
	m.entries = append(m.entries, e)
}

//go:noinline
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	vs.Point("map.loadorstore")
	if e := m.find(k); e != nil {
		vs.RaceAcquire(unsafe.Pointer(&e.sync))
		return e.v, true
	}
	m.add(k, v)
	return v, false
}

//go:noinline
func (m *Map) LoadAndDelete(k any) (any, bool) {
	vs.Point("map.delete")
	if e := m.find(k); e != nil {
		vs.RaceAcquire(unsafe.Pointer(&e.sync))
		e.dead = true
		return e.v, true
	}
	return nil, false
}

//go:noinline
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

//go:noinline
func (m *Map) CompareAndSwap(k, old, new any) bool {
	vs.Point("map.cas")
	if e := m.find(k); e != nil && e.v == old {
		vs.RaceAcquire(unsafe.Pointer(&e.sync))
		vs.RaceReleaseMerge(unsafe.Pointer(&e.sync))
		e.v = new
		return true
	}
	return false
}

//go:noinline
func (m *Map) CompareAndDelete(k, old any) bool {
	vs.Point("map.cad")
	if e := m.find(k); e != nil && e.v == old {
		e.dead = true
		return true
	}
	return false
}

//go:noinline
func (m *Map) Clear() {
	vs.Point("map.clear")
	for _, e := range m.entries {
		e.dead = true
	}
	m.entries = nil
}

//go:noinline
func (m *Map) Range(f func(k, v any) bool) {
	for i := 0; ; i++ {
		vs.Point("map.range")
		if i >= len(m.entries) {
			return
		}
		e := m.entries[i]
		if e.dead {
			continue
		}
		vs.RaceAcquire(unsafe.Pointer(&e.sync))
		if !f(e.k, e.v) {
			return
		}
	}
}

// OnceValues is sync.OnceValues.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	type pair struct {
		a T1
		b T2
	}
	g := OnceValue(func() pair {
		a, b := f()
		return pair{a, b}
	})
	return func() (T1, T2) {
		p := g()
		return p.a, p.b
	}
}
