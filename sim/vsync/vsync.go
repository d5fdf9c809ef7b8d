// Package vsync replaces sync in the code under test. Blocking happens in the
// simulator; the real primitives underneath give the race detector exactly the
// happens-before edges that real locks would.
package vsync

import (
	"sync"
	"unsafe"
	"verifsim/vsim"
)

type Locker = sync.Locker
type Map = sync.Map

// Mutex is sync.Mutex under the simulator.
type Mutex struct {
	mu   sync.Mutex
	held bool
}

//go:norace
func (m *Mutex) set(b bool) { m.held = b }

//go:norace
func (m *Mutex) isHeld() bool { return m.held }

func (m *Mutex) Lock() {
	if !vsim.Active() {
		m.mu.Lock()
		m.set(true)
		return
	}
	vsim.Point()
	for !m.mu.TryLock() {
		vsim.BlockOn(unsafe.Pointer(m))
	}
	m.set(true)
}

func (m *Mutex) TryLock() bool {
	vsim.Point()
	if m.mu.TryLock() {
		m.set(true)
		return true
	}
	return false
}

func (m *Mutex) Unlock() {
	if !m.isHeld() {
		if vsim.Aborted() {
			return
		}
		panic("sync: unlock of unlocked mutex")
	}
	m.set(false)
	m.mu.Unlock()
	vsim.Wake(unsafe.Pointer(m))
	vsim.Point()
}

// RWMutex is sync.RWMutex under the simulator.
type RWMutex struct {
	mu sync.RWMutex
	w  bool
	r  int
}

//go:norace
func (m *RWMutex) setW(b bool) { m.w = b }

//go:norace
func (m *RWMutex) addR(d int) int { m.r += d; return m.r }

//go:norace
func (m *RWMutex) isW() bool { return m.w }

func (m *RWMutex) Lock() {
	if !vsim.Active() {
		m.mu.Lock()
		m.setW(true)
		return
	}
	vsim.Point()
	for !m.mu.TryLock() {
		vsim.BlockOn(unsafe.Pointer(m))
	}
	m.setW(true)
}

func (m *RWMutex) TryLock() bool {
	vsim.Point()
	if m.mu.TryLock() {
		m.setW(true)
		return true
	}
	return false
}

func (m *RWMutex) Unlock() {
	if !m.isW() {
		if vsim.Aborted() {
			return
		}
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.setW(false)
	m.mu.Unlock()
	vsim.Wake(unsafe.Pointer(m))
	vsim.Point()
}

func (m *RWMutex) RLock() {
	if !vsim.Active() {
		m.mu.RLock()
		m.addR(1)
		return
	}
	vsim.Point()
	for !m.mu.TryRLock() {
		vsim.BlockOn(unsafe.Pointer(m))
	}
	m.addR(1)
}

func (m *RWMutex) TryRLock() bool {
	vsim.Point()
	if m.mu.TryRLock() {
		m.addR(1)
		return true
	}
	return false
}

func (m *RWMutex) RUnlock() {
	if m.addR(0) <= 0 {
		if vsim.Aborted() {
			return
		}
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.addR(-1)
	m.mu.RUnlock()
	vsim.Wake(unsafe.Pointer(m))
	vsim.Point()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once is sync.Once under the simulator.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) { o.Do(func() { a, b = f() }); return a, b }
}

// Pool is sync.Pool under the simulator. It hands back the most recently
// returned item at once, the choice of a real pool that exposes most sharing.
type Pool struct {
	New   func() any
	mu    sync.Mutex
	items []any
}

func (p *Pool) Get() any {
	vsim.Point()
	p.mu.Lock()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		p.mu.Unlock()
		return x
	}
	p.mu.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	p.mu.Lock()
	p.items = append(p.items, x)
	p.mu.Unlock()
	vsim.Point()
}

// WaitGroup is sync.WaitGroup under the simulator.
type WaitGroup struct {
	mu sync.Mutex
	n  int
}

func (w *WaitGroup) Add(d int) {
	w.mu.Lock()
	w.n += d
	n := w.n
	w.mu.Unlock()
	if n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if n == 0 {
		vsim.Wake(unsafe.Pointer(w))
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	vsim.Point()
	for {
		w.mu.Lock()
		n := w.n
		w.mu.Unlock()
		if n == 0 {
			return
		}
		vsim.BlockOn(unsafe.Pointer(w))
	}
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vsim.Go(func() {
		defer w.Done()
		f()
	})
}

// Cond is sync.Cond under the simulator.
type Cond struct {
	L            Locker
	mu           sync.Mutex
	wait, notify uint64 // tickets given and served
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	c.mu.Lock()
	t := c.wait
	c.wait++
	c.mu.Unlock()
	c.L.Unlock()
	for {
		c.mu.Lock()
		ok := t < c.notify
		c.mu.Unlock()
		if ok {
			break
		}
		vsim.BlockOn(unsafe.Pointer(c))
	}
	c.L.Lock()
}

func (c *Cond) Signal() {
	c.mu.Lock()
	if c.notify < c.wait {
		c.notify++
	}
	c.mu.Unlock()
	vsim.Wake(unsafe.Pointer(c))
}

func (c *Cond) Broadcast() {
	c.mu.Lock()
	c.notify = c.wait
	c.mu.Unlock()
	vsim.Wake(unsafe.Pointer(c))
}
