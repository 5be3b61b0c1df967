// Package simsync replaces package sync in the instrumented code. The
// locks are real ones, so that the race detector sees them, but waiting
// for one gives up the baton of the simulator.
package simsync

import (
	"sync"

	"verif.sim/rt"
)

type (
	Locker = sync.Locker
	Map    = sync.Map
)

// Mutex is a sync.Mutex
type Mutex struct{ mu sync.Mutex }

func (m *Mutex) Lock() {
	for !m.mu.TryLock() {
		if !rt.Block("Mutex.Lock") {
			m.mu.Lock()
			return
		}
	}
}
func (m *Mutex) TryLock() bool { return m.mu.TryLock() }
func (m *Mutex) Unlock() {
	m.mu.Unlock()
	rt.Released()
}

// RWMutex is a sync.RWMutex: a writer that waits keeps new readers out
type RWMutex struct {
	mu      sync.RWMutex
	waiting int
}

//go:norace
func (m *RWMutex) wait(n int) { m.waiting += n }

//go:norace
func (m *RWMutex) writers() bool { return m.waiting > 0 }

func (m *RWMutex) Lock() {
	if m.mu.TryLock() {
		return
	}
	m.wait(1)
	defer m.wait(-1)
	for !m.mu.TryLock() {
		if !rt.Block("RWMutex.Lock") {
			m.mu.Lock()
			return
		}
	}
}
func (m *RWMutex) TryLock() bool { return m.mu.TryLock() }
func (m *RWMutex) Unlock() {
	m.mu.Unlock()
	rt.Released()
}
func (m *RWMutex) RLock() {
	for m.writers() || !m.mu.TryRLock() {
		if !rt.Block("RWMutex.RLock") {
			m.mu.RLock()
			return
		}
	}
}
func (m *RWMutex) TryRLock() bool { return !m.writers() && m.mu.TryRLock() }
func (m *RWMutex) RUnlock() {
	m.mu.RUnlock()
	rt.Released()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once is a sync.Once
type Once struct {
	m    Mutex
	done bool
	read RWMutex
}

func (o *Once) Do(f func()) {
	o.read.RLock()
	d := o.done
	o.read.RUnlock()
	if d {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			o.read.Lock()
			o.done = true
			o.read.Unlock()
		}()
		f()
	}
}

func OnceFunc(f func()) func() {
	var once Once
	var valid bool
	var p any
	g := func() {
		defer func() {
			p = recover()
			if !valid {
				panic(p)
			}
		}()
		f()
		f = nil
		valid = true
	}
	return func() {
		once.Do(g)
		if !valid {
			panic(p)
		}
	}
}

func OnceValue[T any](f func() T) func() T {
	var r T
	g := OnceFunc(func() { r = f() })
	return func() T { g(); return r }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var r1 T1
	var r2 T2
	g := OnceFunc(func() { r1, r2 = f() })
	return func() (T1, T2) { g(); return r1, r2 }
}

// WaitGroup is a sync.WaitGroup
type WaitGroup struct {
	mu Mutex
	n  int
}

func (w *WaitGroup) Add(d int) {
	w.mu.Lock()
	w.n += d
	if w.n < 0 {
		w.mu.Unlock()
		panic("sync: negative WaitGroup counter")
	}
	w.mu.Unlock()
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	for {
		w.mu.Lock()
		n := w.n
		w.mu.Unlock()
		if n == 0 {
			return
		}
		if !rt.Block("WaitGroup.Wait") {
			panic("WaitGroup.Wait outside of a simulated run")
		}
	}
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	rt.Go(func() {
		defer w.Done()
		f()
	})
}

// Cond is a sync.Cond: every wait may wake up spuriously
type Cond struct {
	L Locker
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	c.L.Unlock()
	if !rt.Block("Cond.Wait") {
		panic("Cond.Wait outside of a simulated run")
	}
	c.L.Lock()
}
func (c *Cond) Signal()    { rt.Released() }
func (c *Cond) Broadcast() { rt.Released() }

// Pool is a sync.Pool: last in, first out, an object is handed over with
// its own synchronisation only, as in the real one
type Pool struct {
	New   func() any
	items []*poolItem
}

type poolItem struct {
	mu sync.Mutex
	x  any
}

//go:norace
func (p *Pool) push(i *poolItem) { p.items = append(p.items, i) }

//go:norace
func (p *Pool) pop() *poolItem {
	n := len(p.items)
	if n == 0 {
		return nil
	}
	i := p.items[n-1]
	p.items = p.items[:n-1]
	return i
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	i := &poolItem{}
	i.mu.Lock()
	i.x = x
	i.mu.Unlock()
	p.push(i)
}

func (p *Pool) Get() any {
	if i := p.pop(); i != nil {
		i.mu.Lock()
		defer i.mu.Unlock()
		return i.x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
