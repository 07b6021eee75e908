// Code generated by hand-run script; package xatomic replaces sync/atomic: same API, with an
// injection point around every operation.
package xatomic

import (
	"sync/atomic"
	"unsafe"

	"vsa/internal/zzverif/xpoint"
)

type Int32 struct{ v atomic.Int32 }

func (x *Int32) Load() int32        { xpoint.Point(); r := x.v.Load(); xpoint.Point(); return r }
func (x *Int32) Store(n int32)      { xpoint.Point(); x.v.Store(n); xpoint.Point() }
func (x *Int32) Swap(n int32) int32 { xpoint.Point(); r := x.v.Swap(n); xpoint.Point(); return r }
func (x *Int32) CompareAndSwap(o, n int32) bool {
	xpoint.Point()
	r := x.v.CompareAndSwap(o, n)
	xpoint.Point()
	return r
}
func (x *Int32) Add(d int32) int32 { xpoint.Point(); r := x.v.Add(d); xpoint.Point(); return r }
func (x *Int32) And(m int32) int32 { xpoint.Point(); r := x.v.And(m); xpoint.Point(); return r }
func (x *Int32) Or(m int32) int32  { xpoint.Point(); r := x.v.Or(m); xpoint.Point(); return r }

func LoadInt32(p *int32) int32     { xpoint.Point(); r := atomic.LoadInt32(p); xpoint.Point(); return r }
func StoreInt32(p *int32, n int32) { xpoint.Point(); atomic.StoreInt32(p, n); xpoint.Point() }
func SwapInt32(p *int32, n int32) int32 {
	xpoint.Point()
	r := atomic.SwapInt32(p, n)
	xpoint.Point()
	return r
}
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	xpoint.Point()
	r := atomic.CompareAndSwapInt32(p, o, n)
	xpoint.Point()
	return r
}
func AddInt32(p *int32, d int32) int32 {
	xpoint.Point()
	r := atomic.AddInt32(p, d)
	xpoint.Point()
	return r
}
func AndInt32(p *int32, m int32) int32 {
	xpoint.Point()
	r := atomic.AndInt32(p, m)
	xpoint.Point()
	return r
}
func OrInt32(p *int32, m int32) int32 {
	xpoint.Point()
	r := atomic.OrInt32(p, m)
	xpoint.Point()
	return r
}

type Int64 struct{ v atomic.Int64 }

func (x *Int64) Load() int64        { xpoint.Point(); r := x.v.Load(); xpoint.Point(); return r }
func (x *Int64) Store(n int64)      { xpoint.Point(); x.v.Store(n); xpoint.Point() }
func (x *Int64) Swap(n int64) int64 { xpoint.Point(); r := x.v.Swap(n); xpoint.Point(); return r }
func (x *Int64) CompareAndSwap(o, n int64) bool {
	xpoint.Point()
	r := x.v.CompareAndSwap(o, n)
	xpoint.Point()
	return r
}
func (x *Int64) Add(d int64) int64 { xpoint.Point(); r := x.v.Add(d); xpoint.Point(); return r }
func (x *Int64) And(m int64) int64 { xpoint.Point(); r := x.v.And(m); xpoint.Point(); return r }
func (x *Int64) Or(m int64) int64  { xpoint.Point(); r := x.v.Or(m); xpoint.Point(); return r }

func LoadInt64(p *int64) int64     { xpoint.Point(); r := atomic.LoadInt64(p); xpoint.Point(); return r }
func StoreInt64(p *int64, n int64) { xpoint.Point(); atomic.StoreInt64(p, n); xpoint.Point() }
func SwapInt64(p *int64, n int64) int64 {
	xpoint.Point()
	r := atomic.SwapInt64(p, n)
	xpoint.Point()
	return r
}
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	xpoint.Point()
	r := atomic.CompareAndSwapInt64(p, o, n)
	xpoint.Point()
	return r
}
func AddInt64(p *int64, d int64) int64 {
	xpoint.Point()
	r := atomic.AddInt64(p, d)
	xpoint.Point()
	return r
}
func AndInt64(p *int64, m int64) int64 {
	xpoint.Point()
	r := atomic.AndInt64(p, m)
	xpoint.Point()
	return r
}
func OrInt64(p *int64, m int64) int64 {
	xpoint.Point()
	r := atomic.OrInt64(p, m)
	xpoint.Point()
	return r
}

type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Load() uint32         { xpoint.Point(); r := x.v.Load(); xpoint.Point(); return r }
func (x *Uint32) Store(n uint32)       { xpoint.Point(); x.v.Store(n); xpoint.Point() }
func (x *Uint32) Swap(n uint32) uint32 { xpoint.Point(); r := x.v.Swap(n); xpoint.Point(); return r }
func (x *Uint32) CompareAndSwap(o, n uint32) bool {
	xpoint.Point()
	r := x.v.CompareAndSwap(o, n)
	xpoint.Point()
	return r
}
func (x *Uint32) Add(d uint32) uint32 { xpoint.Point(); r := x.v.Add(d); xpoint.Point(); return r }
func (x *Uint32) And(m uint32) uint32 { xpoint.Point(); r := x.v.And(m); xpoint.Point(); return r }
func (x *Uint32) Or(m uint32) uint32  { xpoint.Point(); r := x.v.Or(m); xpoint.Point(); return r }

func LoadUint32(p *uint32) uint32 {
	xpoint.Point()
	r := atomic.LoadUint32(p)
	xpoint.Point()
	return r
}
func StoreUint32(p *uint32, n uint32) { xpoint.Point(); atomic.StoreUint32(p, n); xpoint.Point() }
func SwapUint32(p *uint32, n uint32) uint32 {
	xpoint.Point()
	r := atomic.SwapUint32(p, n)
	xpoint.Point()
	return r
}
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	xpoint.Point()
	r := atomic.CompareAndSwapUint32(p, o, n)
	xpoint.Point()
	return r
}
func AddUint32(p *uint32, d uint32) uint32 {
	xpoint.Point()
	r := atomic.AddUint32(p, d)
	xpoint.Point()
	return r
}
func AndUint32(p *uint32, m uint32) uint32 {
	xpoint.Point()
	r := atomic.AndUint32(p, m)
	xpoint.Point()
	return r
}
func OrUint32(p *uint32, m uint32) uint32 {
	xpoint.Point()
	r := atomic.OrUint32(p, m)
	xpoint.Point()
	return r
}

type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Load() uint64         { xpoint.Point(); r := x.v.Load(); xpoint.Point(); return r }
func (x *Uint64) Store(n uint64)       { xpoint.Point(); x.v.Store(n); xpoint.Point() }
func (x *Uint64) Swap(n uint64) uint64 { xpoint.Point(); r := x.v.Swap(n); xpoint.Point(); return r }
func (x *Uint64) CompareAndSwap(o, n uint64) bool {
	xpoint.Point()
	r := x.v.CompareAndSwap(o, n)
	xpoint.Point()
	return r
}
func (x *Uint64) Add(d uint64) uint64 { xpoint.Point(); r := x.v.Add(d); xpoint.Point(); return r }
func (x *Uint64) And(m uint64) uint64 { xpoint.Point(); r := x.v.And(m); xpoint.Point(); return r }
func (x *Uint64) Or(m uint64) uint64  { xpoint.Point(); r := x.v.Or(m); xpoint.Point(); return r }

func LoadUint64(p *uint64) uint64 {
	xpoint.Point()
	r := atomic.LoadUint64(p)
	xpoint.Point()
	return r
}
func StoreUint64(p *uint64, n uint64) { xpoint.Point(); atomic.StoreUint64(p, n); xpoint.Point() }
func SwapUint64(p *uint64, n uint64) uint64 {
	xpoint.Point()
	r := atomic.SwapUint64(p, n)
	xpoint.Point()
	return r
}
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	xpoint.Point()
	r := atomic.CompareAndSwapUint64(p, o, n)
	xpoint.Point()
	return r
}
func AddUint64(p *uint64, d uint64) uint64 {
	xpoint.Point()
	r := atomic.AddUint64(p, d)
	xpoint.Point()
	return r
}
func AndUint64(p *uint64, m uint64) uint64 {
	xpoint.Point()
	r := atomic.AndUint64(p, m)
	xpoint.Point()
	return r
}
func OrUint64(p *uint64, m uint64) uint64 {
	xpoint.Point()
	r := atomic.OrUint64(p, m)
	xpoint.Point()
	return r
}

type Uintptr struct{ v atomic.Uintptr }

func (x *Uintptr) Load() uintptr          { xpoint.Point(); r := x.v.Load(); xpoint.Point(); return r }
func (x *Uintptr) Store(n uintptr)        { xpoint.Point(); x.v.Store(n); xpoint.Point() }
func (x *Uintptr) Swap(n uintptr) uintptr { xpoint.Point(); r := x.v.Swap(n); xpoint.Point(); return r }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool {
	xpoint.Point()
	r := x.v.CompareAndSwap(o, n)
	xpoint.Point()
	return r
}
func (x *Uintptr) Add(d uintptr) uintptr { xpoint.Point(); r := x.v.Add(d); xpoint.Point(); return r }
func (x *Uintptr) And(m uintptr) uintptr { xpoint.Point(); r := x.v.And(m); xpoint.Point(); return r }
func (x *Uintptr) Or(m uintptr) uintptr  { xpoint.Point(); r := x.v.Or(m); xpoint.Point(); return r }

func LoadUintptr(p *uintptr) uintptr {
	xpoint.Point()
	r := atomic.LoadUintptr(p)
	xpoint.Point()
	return r
}
func StoreUintptr(p *uintptr, n uintptr) { xpoint.Point(); atomic.StoreUintptr(p, n); xpoint.Point() }
func SwapUintptr(p *uintptr, n uintptr) uintptr {
	xpoint.Point()
	r := atomic.SwapUintptr(p, n)
	xpoint.Point()
	return r
}
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	xpoint.Point()
	r := atomic.CompareAndSwapUintptr(p, o, n)
	xpoint.Point()
	return r
}
func AddUintptr(p *uintptr, d uintptr) uintptr {
	xpoint.Point()
	r := atomic.AddUintptr(p, d)
	xpoint.Point()
	return r
}
func AndUintptr(p *uintptr, m uintptr) uintptr {
	xpoint.Point()
	r := atomic.AndUintptr(p, m)
	xpoint.Point()
	return r
}
func OrUintptr(p *uintptr, m uintptr) uintptr {
	xpoint.Point()
	r := atomic.OrUintptr(p, m)
	xpoint.Point()
	return r
}

type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool       { xpoint.Point(); r := x.v.Load(); xpoint.Point(); return r }
func (x *Bool) Store(n bool)     { xpoint.Point(); x.v.Store(n); xpoint.Point() }
func (x *Bool) Swap(n bool) bool { xpoint.Point(); r := x.v.Swap(n); xpoint.Point(); return r }
func (x *Bool) CompareAndSwap(o, n bool) bool {
	xpoint.Point()
	r := x.v.CompareAndSwap(o, n)
	xpoint.Point()
	return r
}

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T     { xpoint.Point(); r := x.v.Load(); xpoint.Point(); return r }
func (x *Pointer[T]) Store(n *T)   { xpoint.Point(); x.v.Store(n); xpoint.Point() }
func (x *Pointer[T]) Swap(n *T) *T { xpoint.Point(); r := x.v.Swap(n); xpoint.Point(); return r }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	xpoint.Point()
	r := x.v.CompareAndSwap(o, n)
	xpoint.Point()
	return r
}

type Value struct{ v atomic.Value }

func (x *Value) Load() any      { xpoint.Point(); r := x.v.Load(); xpoint.Point(); return r }
func (x *Value) Store(n any)    { xpoint.Point(); x.v.Store(n); xpoint.Point() }
func (x *Value) Swap(n any) any { xpoint.Point(); r := x.v.Swap(n); xpoint.Point(); return r }
func (x *Value) CompareAndSwap(o, n any) bool {
	xpoint.Point()
	r := x.v.CompareAndSwap(o, n)
	xpoint.Point()
	return r
}

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { xpoint.Point(); return atomic.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, n unsafe.Pointer) { xpoint.Point(); atomic.StorePointer(p, n) }
func SwapPointer(p *unsafe.Pointer, n unsafe.Pointer) unsafe.Pointer {
	xpoint.Point()
	return atomic.SwapPointer(p, n)
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	xpoint.Point()
	return atomic.CompareAndSwapPointer(p, o, n)
}
