// Package vsync stands in for sync in a steered native run: the real
// primitives behind the scheduler's visible operations.
package vsync

import (
	"sync"
	"sync/atomic"

	"vharness/vsched"
)

type Locker = sync.Locker

type Mutex struct{ mu sync.Mutex }

func (m *Mutex) Lock()         { vsched.Before(); m.mu.Lock() }
func (m *Mutex) TryLock() bool { vsched.Before(); return m.mu.TryLock() }
func (m *Mutex) Unlock()       { m.mu.Unlock() }

type RWMutex struct{ mu sync.RWMutex }

func (m *RWMutex) Lock()          { vsched.Before(); m.mu.Lock() }
func (m *RWMutex) TryLock() bool  { vsched.Before(); return m.mu.TryLock() }
func (m *RWMutex) Unlock()        { m.mu.Unlock() }
func (m *RWMutex) RLock()         { vsched.Before(); m.mu.RLock() }
func (m *RWMutex) TryRLock() bool { vsched.Before(); return m.mu.TryRLock() }
func (m *RWMutex) RUnlock()       { m.mu.RUnlock() }
func (m *RWMutex) RLocker() Locker {
	vsched.Before()
	return (*rlocker)(m)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).mu.RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).mu.RUnlock() }

// Once has the same frames as sync.Once: code that looks at its callers must
// see as many.
type Once struct {
	done atomic.Bool
	m    sync.Mutex
}

func (o *Once) Do(f func()) {
	vsched.Before()
	if !o.done.Load() {
		o.doSlow(f)
	}
}

func (o *Once) doSlow(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done.Load() {
		defer o.done.Store(true)
		f()
	}
}

type WaitGroup struct{ wg sync.WaitGroup }

func (w *WaitGroup) Add(n int) { vsched.Before(); w.wg.Add(n) }
func (w *WaitGroup) Done()     { vsched.Before(); w.wg.Done() }
func (w *WaitGroup) Wait()     { vsched.Before(); w.wg.Wait() }
func (w *WaitGroup) Go(f func()) {
	vsched.Before()
	w.wg.Add(1)
	vsched.Go(func() { f(); w.wg.Done() })
}

type Pool struct {
	New func() any
	mu  sync.Mutex
	s   []any
}

func (p *Pool) Get() any {
	vsched.Before()
	p.mu.Lock()
	if k := len(p.s); k > 0 {
		v := p.s[k-1]
		p.s = p.s[:k-1]
		p.mu.Unlock()
		return v
	}
	p.mu.Unlock()
	if p.New == nil {
		return nil
	}
	return p.New()
}

func (p *Pool) Put(v any) {
	vsched.Before()
	p.mu.Lock()
	p.s = append(p.s, v)
	p.mu.Unlock()
}

type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool)           { vsched.Before(); return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { vsched.Before(); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { vsched.Before(); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { vsched.Before(); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { vsched.Before(); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { vsched.Before(); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool  { vsched.Before(); return m.m.CompareAndSwap(k, o, n) }
func (m *Map) CompareAndDelete(k, o any) bool   { vsched.Before(); return m.m.CompareAndDelete(k, o) }
func (m *Map) Clear()                           { vsched.Before(); m.m.Clear() }
func (m *Map) Range(f func(k, v any) bool)      { vsched.Before(); m.m.Range(f) }

type Cond struct {
	L Locker
	c *sync.Cond
}

func NewCond(l Locker) *Cond { vsched.Before(); return &Cond{L: l, c: sync.NewCond(l)} }

func (c *Cond) Wait()      { me, b := vsched.Enter(); c.c.Wait(); vsched.Leave(me, b) }
func (c *Cond) Signal()    { vsched.Before(); c.c.Signal() }
func (c *Cond) Broadcast() { vsched.Before(); c.c.Broadcast() }

func OnceFunc(f func()) func() { vsched.Before(); return sync.OnceFunc(f) }
func OnceValue[T any](f func() T) func() T {
	vsched.Before()
	return sync.OnceValue(f)
}
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	vsched.Before()
	return sync.OnceValues(f)
}
