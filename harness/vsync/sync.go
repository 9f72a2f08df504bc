// Package vsync replaces sync in instrumented code: the same semantics, with
// scheduling points, and blocking that the controlled scheduler can see.
package vsync

import (
	"sync"
	"verif/vsched"
)

// Locker is sync.Locker.
type Locker = sync.Locker

// Cond is sync.Cond.
type Cond = sync.Cond

// NewCond is sync.NewCond.
func NewCond(l Locker) *Cond { return sync.NewCond(l) }

// Mutex replaces sync.Mutex.
type Mutex struct{ mu sync.Mutex }

// Lock locks.
func (m *Mutex) Lock() {
	if !vsched.Active() {
		if !vsched.Spin(m.mu.TryLock) {
			m.mu.Lock()
		}
		return
	}
	vsched.P(-10)
	for !m.mu.TryLock() {
		vsched.Block(m)
	}
}

// TryLock tries to lock.
func (m *Mutex) TryLock() bool {
	vsched.P(-11)
	return m.mu.TryLock()
}

// Unlock unlocks.
func (m *Mutex) Unlock() {
	m.mu.Unlock()
	vsched.Wake(m)
}

// RWMutex replaces sync.RWMutex.
type RWMutex struct{ mu sync.RWMutex }

// Lock locks for writing.
func (m *RWMutex) Lock() {
	if !vsched.Active() {
		if !vsched.Spin(m.mu.TryLock) {
			m.mu.Lock()
		}
		return
	}
	vsched.P(-12)
	for !m.mu.TryLock() {
		vsched.Block(m)
	}
}

// RLock locks for reading.
func (m *RWMutex) RLock() {
	if !vsched.Active() {
		if !vsched.Spin(m.mu.TryRLock) {
			m.mu.RLock()
		}
		return
	}
	vsched.P(-13)
	for !m.mu.TryRLock() {
		vsched.Block(m)
	}
}

// TryLock tries to lock.
func (m *RWMutex) TryLock() bool { vsched.P(-12); return m.mu.TryLock() }

// TryRLock tries to lock.
func (m *RWMutex) TryRLock() bool { vsched.P(-13); return m.mu.TryRLock() }

// Unlock unlocks.
func (m *RWMutex) Unlock() { m.mu.Unlock(); vsched.Wake(m) }

// RUnlock unlocks.
func (m *RWMutex) RUnlock() { m.mu.RUnlock(); vsched.Wake(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker is as in sync.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once replaces sync.Once.
type Once struct {
	m    Mutex
	done bool
}

// Do is as in sync.
func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc is as in sync.
func OnceFunc(f func()) func() {
	var once Once
	return func() { once.Do(f) }
}

// OnceValue is as in sync.
func OnceValue[T any](f func() T) func() T {
	var once Once
	var v T
	return func() T {
		once.Do(func() { v = f() })
		return v
	}
}

// OnceValues is as in sync.
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var once Once
	var v T
	var u U
	return func() (T, U) {
		once.Do(func() { v, u = f() })
		return v, u
	}
}

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct{ wg sync.WaitGroup }

// Add is as in sync.
func (w *WaitGroup) Add(n int) { vsched.P(-14); w.wg.Add(n) }

// Done is as in sync.
func (w *WaitGroup) Done() { vsched.P(-15); w.wg.Done() }

// Wait is as in sync.
func (w *WaitGroup) Wait() { vsched.P(-16); w.wg.Wait(); vsched.P(-17) }

// Go is as in sync.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vsched.Go(func() {
		defer w.Done()
		f()
	})
}

// Pool replaces sync.Pool: it always returns what was put last.
type Pool struct {
	New func() any
	m   sync.Mutex
	l   []any
}

// Get is as in sync.
func (p *Pool) Get() any {
	vsched.P(-18)
	p.m.Lock()
	if n := len(p.l); n > 0 {
		x := p.l[n-1]
		p.l = p.l[:n-1]
		p.m.Unlock()
		return x
	}
	p.m.Unlock()
	if p.New == nil {
		return nil
	}
	return p.New()
}

// Put is as in sync.
func (p *Pool) Put(x any) {
	vsched.P(-19)
	p.m.Lock()
	defer p.m.Unlock()
	if x != nil {
		p.l = append(p.l, x)
	}
}

// Map replaces sync.Map.
type Map struct{ m sync.Map }

// Load is as in sync.
func (m *Map) Load(k any) (any, bool) { vsched.P(-20); return m.m.Load(k) }

// Store is as in sync.
func (m *Map) Store(k, v any) { vsched.P(-20); m.m.Store(k, v) }

// LoadOrStore is as in sync.
func (m *Map) LoadOrStore(k, v any) (any, bool) { vsched.P(-20); return m.m.LoadOrStore(k, v) }

// LoadAndDelete is as in sync.
func (m *Map) LoadAndDelete(k any) (any, bool) { vsched.P(-20); return m.m.LoadAndDelete(k) }

// Delete is as in sync.
func (m *Map) Delete(k any) { vsched.P(-20); m.m.Delete(k) }

// Swap is as in sync.
func (m *Map) Swap(k, v any) (any, bool) { vsched.P(-20); return m.m.Swap(k, v) }

// CompareAndSwap is as in sync.
func (m *Map) CompareAndSwap(k, o, n any) bool { vsched.P(-20); return m.m.CompareAndSwap(k, o, n) }

// CompareAndDelete is as in sync.
func (m *Map) CompareAndDelete(k, o any) bool { vsched.P(-20); return m.m.CompareAndDelete(k, o) }

// Range is as in sync.
func (m *Map) Range(f func(k, v any) bool) { vsched.P(-20); m.m.Range(f) }

// Clear is as in sync.
func (m *Map) Clear() { vsched.P(-20); m.m.Clear() }
