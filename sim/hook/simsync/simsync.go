// Package simsync replaces package sync in the instrumented code. Waiting is
// cooperative: a task that cannot take a lock hands control to the simulated
// scheduler. The real primitives are used underneath, so the race detector
// sees the same ordering as with package sync. Pool is deterministic.
package simsync

import (
	"sync"

	"verif/sim/hook"
)

type (
	Locker    = sync.Locker
	Map       = sync.Map
	WaitGroup = sync.WaitGroup
	Cond      = sync.Cond
)

// NewCond is sync.NewCond.
func NewCond(l Locker) *Cond { return sync.NewCond(l) }

// Mutex is a cooperative sync.Mutex.
type Mutex struct{ mu sync.Mutex }

func (m *Mutex) Lock() {
	for !m.mu.TryLock() {
		hook.Block()
	}
}
func (m *Mutex) TryLock() bool { return m.mu.TryLock() }
func (m *Mutex) Unlock()       { m.mu.Unlock() }

// RWMutex is a cooperative sync.RWMutex.
type RWMutex struct{ mu sync.RWMutex }

func (m *RWMutex) Lock() {
	for !m.mu.TryLock() {
		hook.Block()
	}
}

func (m *RWMutex) RLock() {
	for !m.mu.TryRLock() {
		hook.Block()
	}
}
func (m *RWMutex) TryLock() bool   { return m.mu.TryLock() }
func (m *RWMutex) TryRLock() bool  { return m.mu.TryRLock() }
func (m *RWMutex) Unlock()         { m.mu.Unlock() }
func (m *RWMutex) RUnlock()        { m.mu.RUnlock() }
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once is a cooperative sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()

	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc is sync.OnceFunc without its panic bookkeeping.
func OnceFunc(f func()) func() {
	var o Once

	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue without its panic bookkeeping.
func OnceValue[T any](f func() T) func() T {
	var (
		o Once
		v T
	)

	return func() T {
		o.Do(func() { v = f() })

		return v
	}
}

// OnceValues is sync.OnceValues without its panic bookkeeping.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var (
		o Once
		a T1
		b T2
	)

	return func() (T1, T2) {
		o.Do(func() { a, b = f() })

		return a, b
	}
}

// Pool is a last-in first-out pool: an item put back is handed out next, to
// whichever task asks, which is the least forgiving behaviour sync.Pool allows.
type Pool struct {
	New func() any

	mu    sync.Mutex
	items []any
}

func (p *Pool) Get() any {
	p.mu.Lock()

	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		p.mu.Unlock()

		return x
	}

	p.mu.Unlock()

	if p.New != nil {
		return p.New()
	}

	return nil
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}

	p.mu.Lock()
	p.items = append(p.items, x)
	p.mu.Unlock()
}
