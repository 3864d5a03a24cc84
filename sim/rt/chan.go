package simrt

import (
	"fmt"
	"reflect"
	"sort"
)

// Channels stay real Go channels. Since one task runs at a time and blocked
// tasks are parked in the simulator (never inside a real channel operation),
// non-blocking real operations give the buffered and closed cases; unbuffered
// rendezvous is matched here.

type waiter struct {
	ch    uintptr
	fired bool
	put   func(v interface{}) // receiver: accept a value
	get   func() interface{}  // sender: give the value
	idx   int                 // select case
	grp   *waitGroup
}

// waitGroup is the set of cases one parked task waits on.
type waitGroup struct {
	fired int // case index, -1: none yet
	pan   interface{}
}

func chanID(ch interface{}) uintptr { return reflect.ValueOf(ch).Pointer() }

// RecvOp is a receive operation on ch.
type RecvOp[T any] struct {
	ch <-chan T
	v  T
	ok bool
}

// SendOp is a send operation on ch.
type SendOp[T any] struct {
	ch chan<- T
	v  T
}

// ChanR prepares a receive.
func ChanR[T any](ch <-chan T) *RecvOp[T] { return &RecvOp[T]{ch: ch} }

// ChanS prepares a send.
func ChanS[T any](ch chan<- T) *SendOp[T] { return &SendOp[T]{ch: ch} }

// With sets the value to send (select cases).
func (c *SendOp[T]) With(v T) *SendOp[T] { c.v = v; return c }

// Val is the value received by a select case.
func (c *RecvOp[T]) Val() T { return c.v }

// Val2 is the value and open flag received by a select case.
func (c *RecvOp[T]) Val2() (T, bool) { return c.v, c.ok }

// op is one case.
type op interface {
	try() bool
	arm(g *waitGroup, i int)
	disarm(g *waitGroup)
	null() bool
}

func (c *RecvOp[T]) null() bool { return c.ch == nil }
func (c *SendOp[T]) null() bool { return c.ch == nil }

func (c *RecvOp[T]) set(x interface{}) {
	if x == nil {
		var z T
		c.v = z
	} else {
		c.v = x.(T)
	}
	c.ok = true
}

func (c *RecvOp[T]) try() bool {
	if c.ch == nil {
		return false
	}
	select {
	case v, ok := <-c.ch:
		c.v, c.ok = v, ok
		return true
	default:
	}
	if cap(c.ch) == 0 && S != nil {
		id := chanID(c.ch)
		for _, w := range S.wSend {
			if w.ch == id && w.grp.fired < 0 {
				w.grp.fired = w.idx
				c.set(w.get())
				return true
			}
		}
	}
	return false
}

func (c *SendOp[T]) try() bool {
	if c.ch == nil {
		return false
	}
	select {
	case c.ch <- c.v: // panics on a closed channel, as it should
		return true
	default:
	}
	if cap(c.ch) == 0 && S != nil {
		id := chanID(c.ch)
		for _, w := range S.wRecv {
			if w.ch == id && w.grp.fired < 0 {
				w.grp.fired = w.idx
				w.put(c.v)
				return true
			}
		}
	}
	return false
}

func (c *RecvOp[T]) arm(g *waitGroup, i int) {
	if c.ch != nil && cap(c.ch) == 0 {
		S.wRecv = append(S.wRecv, &waiter{ch: chanID(c.ch), put: c.set, idx: i, grp: g})
	}
}

func (c *SendOp[T]) arm(g *waitGroup, i int) {
	if c.ch != nil && cap(c.ch) == 0 {
		S.wSend = append(S.wSend, &waiter{ch: chanID(c.ch), get: func() interface{} { return c.v }, idx: i, grp: g})
	}
}

func dropGroup(ws []*waiter, g *waitGroup) []*waiter {
	o := ws[:0]
	for _, w := range ws {
		if w.grp != g {
			o = append(o, w)
		}
	}
	return o
}

func (c *RecvOp[T]) disarm(g *waitGroup) { S.wRecv = dropGroup(S.wRecv, g) }
func (c *SendOp[T]) disarm(g *waitGroup) { S.wSend = dropGroup(S.wSend, g) }

// tryCatch runs try, converting "send on closed channel" into a pending panic.
func tryCatch(o op, g *waitGroup) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			g.pan = r
			ok = true
		}
	}()
	return o.try()
}

func doOps(hasDefault bool, why string, ops []op) int {
	s := S
	if s == nil || s.cur == nil {
		for i, o := range ops {
			if o.try() {
				return i
			}
		}
		if hasDefault {
			return -1
		}
		panic("simrt: blocking channel operation outside a simulation")
	}
	s.yield(-2, true)
	n := len(ops)
	off := 0
	if n > 1 {
		// a uniformly chosen ready case, as in Go
		var rdy []int
		for i := range ops {
			if opReady(ops[i]) {
				rdy = append(rdy, i)
			}
		}
		if len(rdy) > 1 {
			off = rdy[s.Env(len(rdy))]
		}
	}
	for k := 0; k < n; k++ {
		i := (off + k) % n
		if ops[i].try() {
			return i
		}
	}
	if hasDefault {
		return -1
	}
	g := &waitGroup{fired: -1}
	for i, o := range ops {
		o.arm(g, i)
	}
	clean := func() {
		for _, o := range ops {
			o.disarm(g)
		}
	}
	defer clean()
	s.block(why, func() bool {
		if g.fired >= 0 || g.pan != nil {
			return true
		}
		for i, o := range ops {
			if tryCatch(o, g) {
				if g.pan == nil {
					g.fired = i
				} else {
					g.fired = i
				}
				return true
			}
		}
		return false
	})
	if g.pan != nil {
		panic(g.pan)
	}
	return g.fired
}

// readiness without side effects (approximate: only used to pick the start of
// the scan so that ready cases are chosen uniformly).
func opReady(o op) bool {
	if o.null() {
		return false
	}
	return o.(interface{ maybe() bool }).maybe()
}

func (c *RecvOp[T]) maybe() bool {
	if len(c.ch) > 0 {
		return true
	}
	if cap(c.ch) == 0 {
		id := chanID(c.ch)
		for _, w := range S.wSend {
			if w.ch == id && w.grp.fired < 0 {
				return true
			}
		}
	}
	return S.closedCh[chanID(c.ch)]
}

func (c *SendOp[T]) maybe() bool {
	if len(c.ch) < cap(c.ch) {
		return true
	}
	if cap(c.ch) == 0 {
		id := chanID(c.ch)
		for _, w := range S.wRecv {
			if w.ch == id && w.grp.fired < 0 {
				return true
			}
		}
	}
	return S.closedCh[chanID(c.ch)]
}

// Recv is <-ch.
func (c *RecvOp[T]) Recv() T { doOps(false, "chan receive", []op{c}); return c.v }

// Recv2 is v, ok := <-ch.
func (c *RecvOp[T]) Recv2() (T, bool) { doOps(false, "chan receive", []op{c}); return c.v, c.ok }

// Send is ch <- v.
func (c *SendOp[T]) Send(v T) { c.v = v; doOps(false, "chan send", []op{c}) }

// Select performs a select statement.
func Select(hasDefault bool, ops ...op) int {
	if len(ops) == 0 && !hasDefault {
		Block("select{}", func() bool { return false })
	}
	return doOps(hasDefault, "select", ops)
}

// Close is close(ch).
func Close[T any](ch chan<- T) {
	YS(-3)
	close(ch)
	if S != nil {
		S.closedCh[chanID(ch)] = true
		S.keep = append(S.keep, ch)
	}
}

// MapKeys returns the keys of m in an order drawn from the simulator.
func MapKeys[M ~map[K]V, K comparable, V any](m M) []K {
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	if len(ks) < 2 {
		return ks
	}
	ss := make([]string, len(ks))
	for i, k := range ks {
		ss[i] = fmt.Sprintf("%v", k)
	}
	ix := make([]int, len(ks))
	for i := range ix {
		ix[i] = i
	}
	sort.Slice(ix, func(a, b int) bool { return ss[ix[a]] < ss[ix[b]] })
	out := make([]K, len(ks))
	for i, j := range ix {
		out[i] = ks[j]
	}
	if s := S; s != nil && s.cur != nil {
		s.shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	}
	return out
}

// shuffle permutes n items by one environment decision (0: leave sorted).
func (s *Sim) shuffle(n int, swap func(i, j int)) {
	v := s.choose(StEnv, 0, func(r *RNG) int { return r.Intn(1 << 20) })
	if v == 0 {
		return
	}
	r := NewRNG(uint64(v))
	for i := n - 1; i > 0; i-- {
		swap(i, r.Intn(i+1))
	}
}
