// Package simsync stands in for package sync in instrumented code. Its types
// wrap the real ones, so the race detector sees the same happens-before edges,
// but a task that can not proceed hands control back to the simulated scheduler
// instead of blocking its thread.
package simsync

import (
	"sync"
	"unsafe"

	"asn1sim/simrt"
)

type (
	Locker = sync.Locker
	Map    = sync.Map
)

type Mutex struct{ mu sync.Mutex }

func (m *Mutex) Lock() {
	for !m.mu.TryLock() {
		wait("lock")
	}
}
func (m *Mutex) TryLock() bool { return m.mu.TryLock() }
func (m *Mutex) Unlock()       { m.mu.Unlock() }

type RWMutex struct{ mu sync.RWMutex }

func (m *RWMutex) Lock() {
	for !m.mu.TryLock() {
		wait("lock")
	}
}
func (m *RWMutex) RLock() {
	for !m.mu.TryRLock() {
		wait("rlock")
	}
}
func (m *RWMutex) TryLock() bool  { return m.mu.TryLock() }
func (m *RWMutex) TryRLock() bool { return m.mu.TryRLock() }
func (m *RWMutex) Unlock()        { m.mu.Unlock() }
func (m *RWMutex) RUnlock()       { m.mu.RUnlock() }
func (m *RWMutex) RLocker() sync.Locker {
	return (*rlocker)(m)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func wait(why string) {
	if !simrt.Active() {
		panic("asn1sim: blocked outside of a simulated task: deadlock")
	}
	simrt.Block(why)
}

type Once struct {
	mu   Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.mu.Lock()
	defer o.mu.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) {
		o.Do(func() { v1, v2 = f() })
		return v1, v2
	}
}

type WaitGroup struct {
	mu Mutex
	n  int
}

func (w *WaitGroup) Add(d int) {
	w.mu.Lock()
	w.n += d
	n := w.n
	w.mu.Unlock()
	if n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	for {
		w.mu.Lock()
		n := w.n
		w.mu.Unlock()
		if n == 0 {
			return
		}
		wait("waitgroup")
	}
}

// Pool is a deterministic sync.Pool: a plain free list, last in first out. As
// with the real one, an item's Put happens before the Get that returns it, and
// nothing else is ordered.
type Pool struct {
	New   func() interface{}
	items []*poolItem
}

type poolItem struct {
	x    interface{}
	sync int64
}

//go:norace
func (p *Pool) Get() interface{} {
	if n := len(p.items); n > 0 {
		it := p.items[n-1]
		p.items = p.items[:n-1]
		simrt.RaceAcquire(unsafe.Pointer(&it.sync))
		return it.x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

//go:norace
func (p *Pool) Put(x interface{}) {
	if x == nil {
		return
	}
	it := &poolItem{x: x}
	simrt.RaceReleaseMerge(unsafe.Pointer(&it.sync))
	p.items = append(p.items, it)
}

type Cond struct {
	L   sync.Locker
	gen int
}

func NewCond(l sync.Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) Wait() {
	g := c.gen
	c.L.Unlock()
	for c.gen == g {
		wait("cond")
	}
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() { c.gen++ }

//go:norace
func (c *Cond) Broadcast() { c.gen++ }
