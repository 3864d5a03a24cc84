// Package sync is the simulated package sync.
package sync

import (
	"fmt"

	simrt "github.com/xtfly/log4g/zzsim/simrt"
)

// Locker is sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

// Mutex is a simulated mutex.
type Mutex struct{ locked bool }

// Lock acquires the mutex.
func (m *Mutex) Lock() {
	simrt.YS(-20)
	for m.locked {
		simrt.Block("mutex", func() bool { return !m.locked })
	}
	m.locked = true
}

// TryLock tries to acquire the mutex.
func (m *Mutex) TryLock() bool {
	simrt.YS(-20)
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

// Unlock releases the mutex.
func (m *Mutex) Unlock() {
	simrt.CheckDead()
	if !m.locked {
		simrt.FatalError("sync: unlock of unlocked mutex")
	}
	m.locked = false
	simrt.YS(-21)
}

// RWMutex prefers writers, as sync.RWMutex does.
type RWMutex struct {
	w       Mutex
	writer  bool
	pending bool
	readers int
}

// RLock acquires a read lock.
func (m *RWMutex) RLock() {
	simrt.YS(-22)
	for m.writer || m.pending {
		simrt.Block("rwmutex.RLock", func() bool { return !m.writer && !m.pending })
	}
	m.readers++
}

// TryRLock tries to acquire a read lock.
func (m *RWMutex) TryRLock() bool {
	simrt.YS(-22)
	if m.writer || m.pending {
		return false
	}
	m.readers++
	return true
}

// RUnlock releases a read lock.
func (m *RWMutex) RUnlock() {
	simrt.CheckDead()
	if m.readers <= 0 {
		simrt.FatalError("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	simrt.YS(-23)
}

// Lock acquires the write lock.
func (m *RWMutex) Lock() {
	m.w.Lock()
	m.pending = true
	for m.readers > 0 {
		simrt.Block("rwmutex.Lock", func() bool { return m.readers == 0 })
	}
	m.pending = false
	m.writer = true
}

// TryLock tries to acquire the write lock.
func (m *RWMutex) TryLock() bool {
	simrt.YS(-22)
	if m.w.locked || m.readers > 0 {
		return false
	}
	m.w.locked = true
	m.writer = true
	return true
}

// Unlock releases the write lock.
func (m *RWMutex) Unlock() {
	simrt.CheckDead()
	if !m.writer {
		simrt.FatalError("sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	m.w.Unlock()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker returns the read side.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup is a simulated wait group.
type WaitGroup struct{ n int }

// Add changes the counter.
func (g *WaitGroup) Add(d int) {
	simrt.YS(-24)
	g.n += d
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

// Done decrements the counter.
func (g *WaitGroup) Done() { g.Add(-1) }

// Wait waits for zero.
func (g *WaitGroup) Wait() {
	simrt.YS(-24)
	if g.n > 0 {
		simrt.Block("waitgroup", func() bool { return g.n == 0 })
	}
}

// Go runs f in a new task.
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	simrt.Go(func() {
		defer g.Done()
		f()
	})
}

// Once runs a function once.
type Once struct {
	done bool
	m    Mutex
}

// Do runs f if it has not run yet.
func (o *Once) Do(f func()) {
	simrt.YS(-25)
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc wraps f.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue wraps f.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// OnceValues wraps f.
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) { o.Do(func() { a, b = f() }); return a, b }
}

// Cond is a simulated condition variable.
type Cond struct {
	L Locker
	q []*bool
}

// NewCond creates a condition variable.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait waits for a signal.
func (c *Cond) Wait() {
	fired := new(bool)
	c.q = append(c.q, fired)
	c.L.Unlock()
	simrt.Block("cond", func() bool { return *fired })
	c.L.Lock()
}

// Signal wakes one waiter.
func (c *Cond) Signal() {
	simrt.YS(-26)
	if len(c.q) > 0 {
		*c.q[0] = true
		c.q = c.q[1:]
	}
}

// Broadcast wakes all waiters.
func (c *Cond) Broadcast() {
	simrt.YS(-26)
	for _, f := range c.q {
		*f = true
	}
	c.q = nil
}

// Pool reuses the most recently returned item.
type Pool struct {
	New func() interface{}
	xs  []interface{}
}

// Get returns an item.
func (p *Pool) Get() interface{} {
	simrt.YS(-27)
	if n := len(p.xs); n > 0 {
		x := p.xs[n-1]
		p.xs = p.xs[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put returns an item to the pool.
func (p *Pool) Put(x interface{}) {
	simrt.YS(-27)
	if x != nil {
		p.xs = append(p.xs, x)
	}
}

// Map is a simulated concurrent map.
type Map struct {
	m map[interface{}]interface{}
	k []interface{}
}

func (m *Map) set(k, v interface{}) {
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
	if _, ok := m.m[k]; !ok {
		m.k = append(m.k, k)
	}
	m.m[k] = v
}

func (m *Map) del(k interface{}) {
	if _, ok := m.m[k]; !ok {
		return
	}
	delete(m.m, k)
	for i, x := range m.k {
		if x == k {
			m.k = append(m.k[:i:i], m.k[i+1:]...)
			return
		}
	}
}

func (m *Map) Load(k interface{}) (interface{}, bool) {
	simrt.YS(-28)
	v, ok := m.m[k]
	return v, ok
}
func (m *Map) Store(k, v interface{}) { simrt.YS(-28); m.set(k, v) }
func (m *Map) Delete(k interface{})   { simrt.YS(-28); m.del(k) }
func (m *Map) Clear()                 { simrt.YS(-28); m.m, m.k = nil, nil }
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	simrt.YS(-28)
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.set(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	simrt.YS(-28)
	o, ok := m.m[k]
	m.del(k)
	return o, ok
}
func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	simrt.YS(-28)
	o, ok := m.m[k]
	m.set(k, v)
	return o, ok
}
func (m *Map) CompareAndSwap(k, o, n interface{}) bool {
	simrt.YS(-28)
	if v, ok := m.m[k]; ok && v == o {
		m.set(k, n)
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o interface{}) bool {
	simrt.YS(-28)
	if v, ok := m.m[k]; ok && v == o {
		m.del(k)
		return true
	}
	return false
}

// Range visits the entries in an order drawn by the simulator.
func (m *Map) Range(f func(k, v interface{}) bool) {
	simrt.YS(-28)
	ks := map[interface{}]bool{}
	for _, k := range m.k {
		ks[k] = true
	}
	for _, k := range simrt.MapKeys(ks) {
		v, ok := m.m[k]
		if !ok {
			continue
		}
		if !f(k, v) {
			return
		}
		simrt.YS(-28)
	}
}

var _ = fmt.Sprint
