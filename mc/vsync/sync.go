package vsync

import (
	"sync"
	"sync/atomic"
)

type (
	Locker = sync.Locker
	Cond   = sync.Cond
	Map    = sync.Map
	Pool   = sync.Pool
)

func NewCond(l Locker) *Cond                             { return sync.NewCond(l) }
func OnceFunc(f func()) func()                           { return sync.OnceFunc(f) }
func OnceValue[T any](f func() T) func() T               { return sync.OnceValue(f) }
func OnceValues[A, B any](f func() (A, B)) func() (A, B) { return sync.OnceValues(f) }

// Mutex is a sync.Mutex.
type Mutex struct {
	real  sync.Mutex
	held  bool
	owner *Thread
}

//go:norace
func (m *Mutex) free(int) bool { return !m.held }

//go:norace
func (m *Mutex) Lock() {
	var t *Thread
	if active.Load() != nil {
		t = point("a lock", false, m, 0)
	}
	m.real.Lock()
	m.held = true
	m.own(t)
}

//go:norace
func (m *Mutex) own(t *Thread) {
	m.owner = t
	if t != nil {
		t.locks++
	}
}

//go:norace
func (m *Mutex) TryLock() bool {
	t := point("trying a lock", false, nil, 0)
	if !m.real.TryLock() {
		return false
	}
	m.held = true
	m.own(t)
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	if t := m.owner; t != nil {
		t.locks--
		m.owner = nil
	}
	m.held = false
	m.real.Unlock()
}

// RWMutex is a sync.RWMutex.
type RWMutex struct {
	real    sync.RWMutex
	owner   *Thread
	mu      sync.Mutex
	w       bool
	readers int
	pending int // writers which have announced themselves
}

//go:norace
func (m *RWMutex) free(kind int) bool {
	off()
	m.mu.Lock()
	f := !m.w && (kind == 0 && m.readers == 0 || kind == 1 && m.pending == 0)
	m.mu.Unlock()
	on()
	return f
}

//go:norace
func (m *RWMutex) set(w bool, dr, dp int) {
	off()
	m.mu.Lock()
	m.w = w
	m.readers += dr
	m.pending += dp
	m.mu.Unlock()
	on()
}

//go:norace
func (m *RWMutex) count(dr, dp int) {
	off()
	m.mu.Lock()
	m.readers += dr
	m.pending += dp
	m.mu.Unlock()
	on()
}

//go:norace
func (m *RWMutex) Lock() {
	var t *Thread
	if active.Load() != nil {
		Point("announcing a write lock")
		m.count(0, 1)
		t = point("a write lock", false, m, 0)
		m.count(0, -1)
	}
	m.real.Lock()
	m.set(true, 0, 0)
	m.owner = t
	if t != nil {
		t.locks++
	}
}

//go:norace
func (m *RWMutex) TryLock() bool {
	Point("trying a write lock")
	if !m.real.TryLock() {
		return false
	}
	m.set(true, 0, 0)
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	if t := m.owner; t != nil {
		t.locks--
		m.owner = nil
	}
	m.set(false, 0, 0)
	m.real.Unlock()
}

//go:norace
func (m *RWMutex) RLock() {
	if active.Load() != nil {
		point("a read lock", false, m, 1)
	}
	m.real.RLock()
	m.count(1, 0)
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	Point("trying a read lock")
	if !m.real.TryRLock() {
		return false
	}
	m.count(1, 0)
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	m.count(-1, 0)
	m.real.RUnlock()
}

type rlocker struct{ m *RWMutex }

func (l rlocker) Lock()   { l.m.RLock() }
func (l rlocker) Unlock() { l.m.RUnlock() }

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

// WaitGroup is a sync.WaitGroup.
type WaitGroup struct {
	real sync.WaitGroup
	n    int64
}

//go:norace
func (g *WaitGroup) free(int) bool { return atomic.LoadInt64(&g.n) <= 0 }

//go:norace
func (g *WaitGroup) Add(d int) {
	off()
	atomic.AddInt64(&g.n, int64(d))
	on()
	g.real.Add(d)
}

//go:norace
func (g *WaitGroup) Done() { g.Add(-1) }

//go:norace
func (g *WaitGroup) Wait() {
	if active.Load() != nil {
		point("a wait group", false, g, 0)
	}
	g.real.Wait()
}

// Once is a sync.Once.
type Once struct {
	real sync.Once
	busy bool
}

//go:norace
func (o *Once) free(int) bool { return !o.busy }

//go:norace
func (o *Once) Do(f func()) {
	if active.Load() != nil {
		point("once", false, o, 0)
		o.busy = true
		o.real.Do(f)
		o.busy = false
		return
	}
	o.real.Do(f)
}
