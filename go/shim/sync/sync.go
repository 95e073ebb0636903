// Package sync replaces package sync in the instrumented code.
package sync

import (
	"unsafe"

	"verif/mc"
)

// Locker is sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

// Mutex is sync.Mutex.
type Mutex struct{ _ [2]int32 }

func (m *Mutex) Lock() {
	p := unsafe.Pointer(m)
	mc.LockOp(p)
	mc.Acquire(p)
}

func (m *Mutex) TryLock() bool {
	p := unsafe.Pointer(m)
	if mc.TryLockOp(p) {
		mc.Acquire(p)
		return true
	}
	return false
}

func (m *Mutex) Unlock() {
	p := unsafe.Pointer(m)
	mc.Release(p)
	mc.UnlockOp(p)
}

// RWMutex is sync.RWMutex.
type RWMutex struct{ r, w [2]int32 }

func (m *RWMutex) Lock() {
	mc.LockRWOp(unsafe.Pointer(m))
	mc.Acquire(unsafe.Pointer(&m.r))
	mc.Acquire(unsafe.Pointer(&m.w))
}

func (m *RWMutex) TryLock() bool {
	if mc.TryLockOp(unsafe.Pointer(m)) {
		mc.Acquire(unsafe.Pointer(&m.r))
		mc.Acquire(unsafe.Pointer(&m.w))
		return true
	}
	return false
}

func (m *RWMutex) Unlock() {
	mc.Release(unsafe.Pointer(&m.r))
	mc.UnlockOp(unsafe.Pointer(m))
}

func (m *RWMutex) RLock() {
	mc.RLockOp(unsafe.Pointer(m))
	mc.Acquire(unsafe.Pointer(&m.r))
}

func (m *RWMutex) TryRLock() bool {
	if mc.TryRLockOp(unsafe.Pointer(m)) {
		mc.Acquire(unsafe.Pointer(&m.r))
		return true
	}
	return false
}

func (m *RWMutex) RUnlock() {
	mc.Release(unsafe.Pointer(&m.w))
	mc.RUnlockOp(unsafe.Pointer(m))
}

// RLocker is RWMutex.RLocker.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once is sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc is sync.OnceFunc (without re-panicking).
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// OnceValues is sync.OnceValues.
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

// WaitGroup is sync.WaitGroup.
type WaitGroup struct{ _ [2]int32 }

func (g *WaitGroup) Add(n int) {
	if n < 0 {
		mc.Release(unsafe.Pointer(g))
	}
	mc.WGAdd(unsafe.Pointer(g), n)
}
func (g *WaitGroup) Done() { g.Add(-1) }
func (g *WaitGroup) Wait() {
	mc.WGWait(unsafe.Pointer(g))
	mc.Acquire(unsafe.Pointer(g))
}
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	mc.Go(func() {
		defer g.Done()
		f()
	})
}

// Cond is sync.Cond.
type Cond struct {
	L Locker
	_ [2]int32
}

// NewCond is sync.NewCond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	t := mc.CondEnqueue(unsafe.Pointer(c))
	c.L.Unlock()
	mc.CondWait(t)
	c.L.Lock()
}
func (c *Cond) Signal()    { mc.CondSignal(unsafe.Pointer(c), false) }
func (c *Cond) Broadcast() { mc.CondSignal(unsafe.Pointer(c), true) }

// Pool is sync.Pool: last in, first out.
type Pool struct {
	m     Mutex
	items []any
	New   func() any
}

func (p *Pool) Get() any {
	p.m.Lock()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		p.m.Unlock()
		return x
	}
	p.m.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	p.m.Lock()
	p.items = append(p.items, x)
	p.m.Unlock()
}

// Map is sync.Map.
type Map struct {
	mu RWMutex
	m  map[any]any
}

func (m *Map) Load(k any) (any, bool) {
	m.mu.RLock()
	defer m.mu.RUnlock()
	v, ok := m.m[k]
	return v, ok
}
func (m *Map) Store(k, v any) { m.Swap(k, v) }
func (m *Map) Swap(k, v any) (any, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.m == nil {
		m.m = map[any]any{}
	}
	o, ok := m.m[k]
	m.m[k] = v
	return o, ok
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if o, ok := m.m[k]; ok {
		return o, true
	}
	if m.m == nil {
		m.m = map[any]any{}
	}
	m.m[k] = v
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	v, ok := m.m[k]
	delete(m.m, k)
	return v, ok
}
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }
func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if v, ok := m.m[k]; ok && v == o {
		m.m[k] = n
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o any) bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if v, ok := m.m[k]; ok && v == o {
		delete(m.m, k)
		return true
	}
	return false
}
func (m *Map) Clear() {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.m = nil
}
func (m *Map) Range(f func(k, v any) bool) {
	m.mu.RLock()
	cp := make(map[any]any, len(m.m))
	for k, v := range m.m {
		cp[k] = v
	}
	m.mu.RUnlock()
	for it, k, v := mc.MapIter(cp); it.Next(&k, &v); {
		if !f(k, v) {
			return
		}
	}
}
