// Package vsync stands in for sync in the code under test: locks block in the
// controlled scheduler.
package vsync

import (
	"sync"
	"unsafe"

	"verifmc/vsched"
)

type (
	Locker    = sync.Locker
	WaitGroup = sync.WaitGroup
)

// Mutex is a mutual exclusion lock.
type Mutex struct{ l vsched.Lock }

func (m *Mutex) Lock()         { m.l.Lock() }
func (m *Mutex) Unlock()       { m.l.Unlock() }
func (m *Mutex) TryLock() bool { return m.l.TryLock() }

// RWMutex is a readers-writer lock.
type RWMutex struct{ l vsched.Lock }

func (m *RWMutex) Lock()          { m.l.Lock() }
func (m *RWMutex) Unlock()        { m.l.Unlock() }
func (m *RWMutex) TryLock() bool  { return m.l.TryLock() }
func (m *RWMutex) RLock()         { m.l.RLock() }
func (m *RWMutex) RUnlock()       { m.l.RUnlock() }
func (m *RWMutex) TryRLock() bool { return m.l.TryRLock() }
func (m *RWMutex) RLocker() Locker {
	return (*rlocker)(m)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once runs something once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// Pool is a deterministic free list.
type Pool struct {
	New  func() any
	m    Mutex
	free []any
}

func (p *Pool) Get() any {
	p.m.Lock()
	if n := len(p.free); n > 0 {
		x := p.free[n-1]
		p.free = p.free[:n-1]
		p.m.Unlock()
		return x
	}
	p.m.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	p.m.Lock()
	p.free = append(p.free, x)
	p.m.Unlock()
}

// Map is a concurrent map.
type Map struct {
	m     Mutex
	order []any
	v     map[any]any
}

func (p *Map) with(f func()) {
	p.m.Lock()
	defer p.m.Unlock()
	if p.v == nil {
		p.v = map[any]any{}
	}
	f()
}
func (p *Map) put(k, v any) {
	if _, ok := p.v[k]; !ok {
		p.order = append(p.order, k)
	}
	p.v[k] = v
}
func (p *Map) del(k any) {
	delete(p.v, k)
	for i, x := range p.order {
		if x == k {
			p.order = append(p.order[:i:i], p.order[i+1:]...)
			return
		}
	}
}
func (p *Map) Load(k any) (v any, ok bool) { p.with(func() { v, ok = p.v[k] }); return }
func (p *Map) Store(k, v any)              { p.with(func() { p.put(k, v) }) }
func (p *Map) Delete(k any)                { p.with(func() { p.del(k) }) }
func (p *Map) Clear()                      { p.with(func() { clear(p.v); p.order = nil }) }
func (p *Map) LoadOrStore(k, v any) (a any, loaded bool) {
	p.with(func() {
		if a, loaded = p.v[k]; !loaded {
			a = v
			p.put(k, v)
		}
	})
	return
}
func (p *Map) LoadAndDelete(k any) (v any, ok bool) {
	p.with(func() {
		v, ok = p.v[k]
		p.del(k)
	})
	return
}
func (p *Map) Swap(k, v any) (a any, ok bool) {
	p.with(func() {
		a, ok = p.v[k]
		p.put(k, v)
	})
	return
}
func (p *Map) CompareAndSwap(k, o, n any) (ok bool) {
	p.with(func() {
		if v, in := p.v[k]; in && v == o {
			p.v[k] = n
			ok = true
		}
	})
	return
}
func (p *Map) CompareAndDelete(k, o any) (ok bool) {
	p.with(func() {
		if v, in := p.v[k]; in && v == o {
			p.del(k)
			ok = true
		}
	})
	return
}
func (p *Map) Range(f func(k, v any) bool) {
	var ks []any
	p.with(func() { ks = append(ks, p.order...) })
	for _, k := range ks {
		if v, ok := p.Load(k); ok && !f(k, v) {
			return
		}
	}
}

// Cond is a condition variable.
type Cond struct {
	L  Locker
	ws []*bool
	at uint64
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	sig := new(bool)
	c.ws = append(c.ws, sig)
	c.L.Unlock()
	vsched.Await(sig)
	vsched.Acquire(unsafe.Pointer(&c.at))
	c.L.Lock()
}
func (c *Cond) Signal() {
	vsched.S()
	if len(c.ws) > 0 {
		vsched.ReleaseMerge(unsafe.Pointer(&c.at))
		*c.ws[0] = true
		c.ws = c.ws[1:]
		vsched.Wake()
	}
}
func (c *Cond) Broadcast() {
	vsched.S()
	vsched.ReleaseMerge(unsafe.Pointer(&c.at))
	for _, w := range c.ws {
		*w = true
	}
	c.ws = nil
	vsched.Wake()
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) {
		o.Do(func() { a, b = f() })
		return a, b
	}
}
