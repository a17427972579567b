// Package vsync stands in for package sync in instrumented code.
package vsync

import (
	"sync"
	"sync/atomic"

	"verif.local/shim/vsched"
)

type (
	Locker    = sync.Locker
	WaitGroup = sync.WaitGroup
	Pool      = sync.Pool
	Cond      = sync.Cond
)

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

// Mutex: under control the controller grants it only when it is free, so the
// inner mutex never blocks; it still orders memory for the race detector.
type Mutex struct {
	mu   sync.Mutex
	held atomic.Bool
}

func (m *Mutex) Lock() {
	vsched.Point("lock", m, func() bool { return !m.held.Load() })
	m.mu.Lock()
	m.held.Store(true)
}

func (m *Mutex) TryLock() bool {
	vsched.Point("trylock", m, nil)
	if m.held.Load() || !m.mu.TryLock() {
		return false
	}
	m.held.Store(true)
	return true
}

func (m *Mutex) Unlock() {
	vsched.Point("unlock", m, nil)
	m.held.Store(false)
	m.mu.Unlock()
}

// RWMutex likewise.
type RWMutex struct {
	mu      sync.RWMutex
	writer  atomic.Bool
	readers atomic.Int64
}

func (m *RWMutex) Lock() {
	vsched.Point("lock", m, func() bool { return !m.writer.Load() && m.readers.Load() == 0 })
	m.mu.Lock()
	m.writer.Store(true)
}

func (m *RWMutex) TryLock() bool {
	vsched.Point("trylock", m, nil)
	if m.writer.Load() || m.readers.Load() > 0 || !m.mu.TryLock() {
		return false
	}
	m.writer.Store(true)
	return true
}

func (m *RWMutex) Unlock() {
	vsched.Point("unlock", m, nil)
	m.writer.Store(false)
	m.mu.Unlock()
}

func (m *RWMutex) RLock() {
	vsched.Point("rlock", m, func() bool { return !m.writer.Load() })
	m.mu.RLock()
	m.readers.Add(1)
}

func (m *RWMutex) TryRLock() bool {
	vsched.Point("tryrlock", m, nil)
	if m.writer.Load() || !m.mu.TryRLock() {
		return false
	}
	m.readers.Add(1)
	return true
}

func (m *RWMutex) RUnlock() {
	vsched.Point("runlock", m, nil)
	m.readers.Add(-1)
	m.mu.RUnlock()
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once runs its function under a controlled mutex.
type Once struct {
	done atomic.Bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	vsched.Point("once", o, nil)
	if o.done.Load() {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done.Load() {
		defer o.done.Store(true)
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v T1
	var w T2
	return func() (T1, T2) { o.Do(func() { v, w = f() }); return v, w }
}

// Map puts a point before every operation.
type Map struct{ m sync.Map }

func (m *Map) p() { vsched.Point("map", m, nil) }

func (m *Map) Load(k any) (any, bool)           { m.p(); return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { m.p(); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { m.p(); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { m.p(); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { m.p(); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { m.p(); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool  { m.p(); return m.m.CompareAndSwap(k, o, n) }
func (m *Map) CompareAndDelete(k, o any) bool   { m.p(); return m.m.CompareAndDelete(k, o) }
func (m *Map) Clear()                           { m.p(); m.m.Range(func(k, _ any) bool { m.m.Delete(k); return true }) }
func (m *Map) Range(f func(k, v any) bool)      { m.p(); m.m.Range(f) }
