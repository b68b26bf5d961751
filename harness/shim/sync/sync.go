// Package sync stands in for the standard package in the code under test. Its
// types are made of the real ones, so that they order memory as those do, and
// give the scheduler a point before every operation.
package sync

import (
	"sync"

	"github.com/flowchartsman/aql/zz_verif/shim/sched"
)

type (
	Locker = sync.Locker
	Cond   = sync.Cond
)

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

type Mutex struct{ mu sync.Mutex }

func (m *Mutex) Lock() {
	sched.Point()
	for !m.mu.TryLock() {
		sched.Wait()
	}
}

func (m *Mutex) TryLock() bool {
	sched.Point()
	return m.mu.TryLock()
}

func (m *Mutex) Unlock() {
	sched.Point()
	m.mu.Unlock()
}

type RWMutex struct{ mu sync.RWMutex }

func (m *RWMutex) Lock() {
	sched.Point()
	for !m.mu.TryLock() {
		sched.Wait()
	}
}

func (m *RWMutex) TryLock() bool {
	sched.Point()
	return m.mu.TryLock()
}

func (m *RWMutex) Unlock() {
	sched.Point()
	m.mu.Unlock()
}

func (m *RWMutex) RLock() {
	sched.Point()
	for !m.mu.TryRLock() {
		sched.Wait()
	}
}

func (m *RWMutex) TryRLock() bool {
	sched.Point()
	return m.mu.TryRLock()
}

func (m *RWMutex) RUnlock() {
	sched.Point()
	m.mu.RUnlock()
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type Once struct {
	mu   Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.mu.Lock()
	defer o.mu.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) {
		o.Do(func() { v, u = f() })
		return v, u
	}
}

type WaitGroup struct {
	mu sync.Mutex
	n  int
}

func (g *WaitGroup) Add(n int) {
	sched.Point()
	g.mu.Lock()
	g.n += n
	bad := g.n < 0
	g.mu.Unlock()
	if bad {
		panic("sync: negative WaitGroup counter")
	}
}

func (g *WaitGroup) Done() { g.Add(-1) }

func (g *WaitGroup) Wait() {
	sched.Point()
	for {
		g.mu.Lock()
		n := g.n
		g.mu.Unlock()
		if n == 0 {
			return
		}
		sched.Wait()
	}
}

func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	go func() {
		defer g.Done()
		f()
	}()
}

// Pool hands out what was put in last, whoever asks: the real one may do so too,
// and this is where something used after it was put back is noticed.
type Pool struct {
	New func() any

	mu    sync.Mutex
	items []any
}

func (p *Pool) Get() any {
	sched.Point()
	p.mu.Lock()
	var x any
	if n := len(p.items); n > 0 {
		x = p.items[n-1]
		p.items = p.items[:n-1]
	}
	p.mu.Unlock()
	if x == nil && p.New != nil {
		x = p.New()
	}
	return x
}

func (p *Pool) Put(x any) {
	sched.Point()
	if x == nil {
		return
	}
	p.mu.Lock()
	p.items = append(p.items, x)
	p.mu.Unlock()
}

type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool)           { sched.Point(); return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { sched.Point(); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { sched.Point(); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { sched.Point(); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { sched.Point(); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { sched.Point(); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, old, new any) bool {
	sched.Point()
	return m.m.CompareAndSwap(k, old, new)
}
func (m *Map) CompareAndDelete(k, old any) bool { sched.Point(); return m.m.CompareAndDelete(k, old) }
func (m *Map) Range(f func(k, v any) bool)      { sched.Point(); m.m.Range(f) }
func (m *Map) Clear()                           { sched.Point(); m.m.Clear() }
