// Package atomic is the simulated package sync/atomic: every operation is a yield point.
package atomic

import (
	"sync/atomic"
	"unsafe"

	simrt "github.com/xtfly/log4g/zzsim/simrt"
)

func AddInt32(p *int32, d int32) int32  { simrt.YS(-30); return atomic.AddInt32(p, d) }
func LoadInt32(p *int32) int32          { simrt.YS(-30); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, v int32)      { simrt.YS(-30); atomic.StoreInt32(p, v) }
func SwapInt32(p *int32, v int32) int32 { simrt.YS(-30); return atomic.SwapInt32(p, v) }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	simrt.YS(-30)
	return atomic.CompareAndSwapInt32(p, o, n)
}

// Int32 is atomic.Int32.
type Int32 struct{ v int32 }

func (x *Int32) Load() int32        { simrt.YS(-30); return x.v }
func (x *Int32) Store(v int32)      { simrt.YS(-30); x.v = v }
func (x *Int32) Swap(v int32) int32 { simrt.YS(-30); o := x.v; x.v = v; return o }
func (x *Int32) Add(d int32) int32  { simrt.YS(-30); x.v += d; return x.v }
func (x *Int32) And(m int32) int32  { simrt.YS(-30); o := x.v; x.v &= m; return o }
func (x *Int32) Or(m int32) int32   { simrt.YS(-30); o := x.v; x.v |= m; return o }
func (x *Int32) CompareAndSwap(o, n int32) bool {
	simrt.YS(-30)
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

func AddInt64(p *int64, d int64) int64  { simrt.YS(-30); return atomic.AddInt64(p, d) }
func LoadInt64(p *int64) int64          { simrt.YS(-30); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, v int64)      { simrt.YS(-30); atomic.StoreInt64(p, v) }
func SwapInt64(p *int64, v int64) int64 { simrt.YS(-30); return atomic.SwapInt64(p, v) }
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	simrt.YS(-30)
	return atomic.CompareAndSwapInt64(p, o, n)
}

// Int64 is atomic.Int64.
type Int64 struct{ v int64 }

func (x *Int64) Load() int64        { simrt.YS(-30); return x.v }
func (x *Int64) Store(v int64)      { simrt.YS(-30); x.v = v }
func (x *Int64) Swap(v int64) int64 { simrt.YS(-30); o := x.v; x.v = v; return o }
func (x *Int64) Add(d int64) int64  { simrt.YS(-30); x.v += d; return x.v }
func (x *Int64) And(m int64) int64  { simrt.YS(-30); o := x.v; x.v &= m; return o }
func (x *Int64) Or(m int64) int64   { simrt.YS(-30); o := x.v; x.v |= m; return o }
func (x *Int64) CompareAndSwap(o, n int64) bool {
	simrt.YS(-30)
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

func AddUint32(p *uint32, d uint32) uint32  { simrt.YS(-30); return atomic.AddUint32(p, d) }
func LoadUint32(p *uint32) uint32           { simrt.YS(-30); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32)       { simrt.YS(-30); atomic.StoreUint32(p, v) }
func SwapUint32(p *uint32, v uint32) uint32 { simrt.YS(-30); return atomic.SwapUint32(p, v) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	simrt.YS(-30)
	return atomic.CompareAndSwapUint32(p, o, n)
}

// Uint32 is atomic.Uint32.
type Uint32 struct{ v uint32 }

func (x *Uint32) Load() uint32         { simrt.YS(-30); return x.v }
func (x *Uint32) Store(v uint32)       { simrt.YS(-30); x.v = v }
func (x *Uint32) Swap(v uint32) uint32 { simrt.YS(-30); o := x.v; x.v = v; return o }
func (x *Uint32) Add(d uint32) uint32  { simrt.YS(-30); x.v += d; return x.v }
func (x *Uint32) And(m uint32) uint32  { simrt.YS(-30); o := x.v; x.v &= m; return o }
func (x *Uint32) Or(m uint32) uint32   { simrt.YS(-30); o := x.v; x.v |= m; return o }
func (x *Uint32) CompareAndSwap(o, n uint32) bool {
	simrt.YS(-30)
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

func AddUint64(p *uint64, d uint64) uint64  { simrt.YS(-30); return atomic.AddUint64(p, d) }
func LoadUint64(p *uint64) uint64           { simrt.YS(-30); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64)       { simrt.YS(-30); atomic.StoreUint64(p, v) }
func SwapUint64(p *uint64, v uint64) uint64 { simrt.YS(-30); return atomic.SwapUint64(p, v) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	simrt.YS(-30)
	return atomic.CompareAndSwapUint64(p, o, n)
}

// Uint64 is atomic.Uint64.
type Uint64 struct{ v uint64 }

func (x *Uint64) Load() uint64         { simrt.YS(-30); return x.v }
func (x *Uint64) Store(v uint64)       { simrt.YS(-30); x.v = v }
func (x *Uint64) Swap(v uint64) uint64 { simrt.YS(-30); o := x.v; x.v = v; return o }
func (x *Uint64) Add(d uint64) uint64  { simrt.YS(-30); x.v += d; return x.v }
func (x *Uint64) And(m uint64) uint64  { simrt.YS(-30); o := x.v; x.v &= m; return o }
func (x *Uint64) Or(m uint64) uint64   { simrt.YS(-30); o := x.v; x.v |= m; return o }
func (x *Uint64) CompareAndSwap(o, n uint64) bool {
	simrt.YS(-30)
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

func AddUintptr(p *uintptr, d uintptr) uintptr  { simrt.YS(-30); return atomic.AddUintptr(p, d) }
func LoadUintptr(p *uintptr) uintptr            { simrt.YS(-30); return atomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr)        { simrt.YS(-30); atomic.StoreUintptr(p, v) }
func SwapUintptr(p *uintptr, v uintptr) uintptr { simrt.YS(-30); return atomic.SwapUintptr(p, v) }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	simrt.YS(-30)
	return atomic.CompareAndSwapUintptr(p, o, n)
}

// Uintptr is atomic.Uintptr.
type Uintptr struct{ v uintptr }

func (x *Uintptr) Load() uintptr          { simrt.YS(-30); return x.v }
func (x *Uintptr) Store(v uintptr)        { simrt.YS(-30); x.v = v }
func (x *Uintptr) Swap(v uintptr) uintptr { simrt.YS(-30); o := x.v; x.v = v; return o }
func (x *Uintptr) Add(d uintptr) uintptr  { simrt.YS(-30); x.v += d; return x.v }
func (x *Uintptr) And(m uintptr) uintptr  { simrt.YS(-30); o := x.v; x.v &= m; return o }
func (x *Uintptr) Or(m uintptr) uintptr   { simrt.YS(-30); o := x.v; x.v |= m; return o }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool {
	simrt.YS(-30)
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { simrt.YS(-30); return atomic.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { simrt.YS(-30); atomic.StorePointer(p, v) }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	simrt.YS(-30)
	return atomic.SwapPointer(p, v)
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	simrt.YS(-30)
	return atomic.CompareAndSwapPointer(p, o, n)
}

// Bool is atomic.Bool.
type Bool struct{ v bool }

func (x *Bool) Load() bool       { simrt.YS(-30); return x.v }
func (x *Bool) Store(v bool)     { simrt.YS(-30); x.v = v }
func (x *Bool) Swap(v bool) bool { simrt.YS(-30); o := x.v; x.v = v; return o }
func (x *Bool) CompareAndSwap(o, n bool) bool {
	simrt.YS(-30)
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

// Pointer is atomic.Pointer.
type Pointer[T any] struct{ v *T }

func (x *Pointer[T]) Load() *T     { simrt.YS(-30); return x.v }
func (x *Pointer[T]) Store(v *T)   { simrt.YS(-30); x.v = v }
func (x *Pointer[T]) Swap(v *T) *T { simrt.YS(-30); o := x.v; x.v = v; return o }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	simrt.YS(-30)
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

// Value is atomic.Value.
type Value struct{ v atomic.Value }

func (x *Value) Load() interface{}                    { simrt.YS(-30); return x.v.Load() }
func (x *Value) Store(v interface{})                  { simrt.YS(-30); x.v.Store(v) }
func (x *Value) Swap(v interface{}) interface{}       { simrt.YS(-30); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(o, n interface{}) bool { simrt.YS(-30); return x.v.CompareAndSwap(o, n) }
