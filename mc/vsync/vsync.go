// Package vsync stands in for package sync in the instrumented copy of the
// library: the same API, with every wait under the control of vsched. Pool
// always hands back the most recently returned object, the schedule most
// likely to expose use after Put.
package vsync

import (
	real "sync"

	"github.com/mewmew/float/vmc/vsched"
)

// The real objects inside are never contended. They tell the race detector
// which accesses the library has ordered; the rest of the bookkeeping is marked
// norace.

// Locker is sync.Locker.
type Locker = real.Locker

// Mutex is sync.Mutex.
type Mutex struct {
	held bool
	r    real.Mutex
}

//go:norace
func (m *Mutex) free() bool { return !m.held }

//go:norace
func (m *Mutex) Lock() {
	vsched.Block(m.free)
	m.held = true
	m.r.Lock()
}

//go:norace
func (m *Mutex) TryLock() bool {
	vsched.P(-2)
	if m.held {
		return false
	}
	m.held = true
	m.r.Lock()
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	vsched.P(-3)
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	m.r.Unlock()
	m.held = false
}

// RWMutex is sync.RWMutex.
type RWMutex struct {
	w bool
	n int
	r real.RWMutex
}

//go:norace
func (m *RWMutex) free() bool { return !m.w && m.n == 0 }

//go:norace
func (m *RWMutex) readable() bool { return !m.w }

//go:norace
func (m *RWMutex) Lock() {
	vsched.Block(m.free)
	m.w = true
	m.r.Lock()
}

//go:norace
func (m *RWMutex) TryLock() bool {
	vsched.P(-2)
	if m.w || m.n > 0 {
		return false
	}
	m.w = true
	m.r.Lock()
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	vsched.P(-3)
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.r.Unlock()
	m.w = false
}

//go:norace
func (m *RWMutex) RLock() {
	vsched.Block(m.readable)
	m.n++
	m.r.RLock()
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	vsched.P(-2)
	if m.w {
		return false
	}
	m.n++
	m.r.RLock()
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	vsched.P(-3)
	if m.n <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.r.RUnlock()
	m.n--
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker is sync.RWMutex.RLocker.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once is sync.Once.
type Once struct {
	m    Mutex
	done bool
	r    real.Mutex
}

//go:norace
func (o *Once) finish() {
	o.r.Lock()
	o.done = true
	o.r.Unlock()
}

//go:norace
func (o *Once) Do(f func()) {
	vsched.P(-4)
	if o.done {
		o.r.Lock() // ordered after finish
		o.r.Unlock()
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer o.finish()
		f()
	}
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	o := new(Once)
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	o, v := new(Once), new(T)
	return func() T {
		o.Do(func() { *v = f() })
		return *v
	}
}

// OnceValues is sync.OnceValues.
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	o, v, u := new(Once), new(T), new(U)
	return func() (T, U) {
		o.Do(func() { *v, *u = f() })
		return *v, *u
	}
}

// Pool is sync.Pool.
type Pool struct {
	New func() any
	l   []any
	r   real.Mutex
}

//go:norace
func (p *Pool) Get() any {
	vsched.P(-5)
	p.r.Lock()
	if n := len(p.l); n > 0 {
		x := p.l[n-1]
		p.l = p.l[:n-1]
		p.r.Unlock()
		return x
	}
	p.r.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

//go:norace
func (p *Pool) Put(x any) {
	vsched.P(-6)
	if x != nil {
		p.r.Lock()
		if len(p.l) < 256 { // the real one forgets objects, too
			p.l = append(p.l, x)
		}
		p.r.Unlock()
	}
	vsched.P(-6)
}

// Map is sync.Map.
type Map struct {
	r    real.Mutex
	m    map[any]any
	keys []any
}

func (m *Map) Load(k any) (any, bool) {
	vsched.P(-7)
	m.r.Lock()
	defer m.r.Unlock()
	v, ok := m.m[k]
	return v, ok
}

func (m *Map) Store(k, v any) { m.Swap(k, v) }

func (m *Map) put(k, v any) {
	if m.m == nil {
		m.m = map[any]any{}
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}

func (m *Map) Swap(k, v any) (any, bool) {
	vsched.P(-7)
	m.r.Lock()
	defer m.r.Unlock()
	old, ok := m.m[k]
	m.put(k, v)
	return old, ok
}

func (m *Map) LoadOrStore(k, v any) (any, bool) {
	vsched.P(-7)
	m.r.Lock()
	defer m.r.Unlock()
	if old, ok := m.m[k]; ok {
		return old, true
	}
	m.put(k, v)
	return v, false
}

func (m *Map) remove(k any) {
	delete(m.m, k)
	for i, x := range m.keys {
		if x == k {
			m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
			break
		}
	}
}

func (m *Map) LoadAndDelete(k any) (any, bool) {
	vsched.P(-7)
	m.r.Lock()
	defer m.r.Unlock()
	v, ok := m.m[k]
	if ok {
		m.remove(k)
	}
	return v, ok
}

func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

func (m *Map) CompareAndSwap(k, old, new any) bool {
	vsched.P(-7)
	m.r.Lock()
	defer m.r.Unlock()
	if v, ok := m.m[k]; !ok || v != old {
		return false
	}
	m.m[k] = new
	return true
}

func (m *Map) CompareAndDelete(k, old any) bool {
	vsched.P(-7)
	m.r.Lock()
	defer m.r.Unlock()
	if v, ok := m.m[k]; !ok || v != old {
		return false
	}
	m.remove(k)
	return true
}

func (m *Map) Range(f func(k, v any) bool) {
	m.r.Lock()
	keys := append([]any(nil), m.keys...)
	m.r.Unlock()
	for _, k := range keys {
		if v, ok := m.Load(k); ok && !f(k, v) {
			return
		}
	}
}

func (m *Map) Clear() {
	vsched.P(-7)
	m.r.Lock()
	defer m.r.Unlock()
	m.m, m.keys = nil, nil
}

// WaitGroup is sync.WaitGroup.
type WaitGroup struct {
	n int
	r real.Mutex
}

//go:norace
func (w *WaitGroup) idle() bool { return w.n <= 0 }

//go:norace
func (w *WaitGroup) Add(d int) {
	vsched.P(-8)
	w.r.Lock()
	w.n += d
	w.r.Unlock()
}
func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) Wait() {
	vsched.Block(w.idle)
	w.r.Lock()
	w.r.Unlock()
}

// Cond is sync.Cond.
type Cond struct {
	L   Locker
	gen int
	sig int
	wt  int
}

// NewCond is sync.NewCond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

type condWait struct {
	c *Cond
	g int
}

//go:norace
func (w *condWait) ready() bool { return w.c.gen != w.g || w.c.sig > 0 }

//go:norace
func (c *Cond) Wait() {
	w := &condWait{c, c.gen}
	c.wt++
	c.L.Unlock()
	vsched.Block(w.ready)
	if c.gen == w.g {
		c.sig--
	}
	c.wt--
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() {
	vsched.P(-9)
	if c.sig < c.wt {
		c.sig++
	}
}

//go:norace
func (c *Cond) Broadcast() { vsched.P(-9); c.gen++ }
