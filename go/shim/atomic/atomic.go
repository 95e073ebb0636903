// Package atomic replaces package sync/atomic in the instrumented code: every operation is a
// scheduling point followed by the real atomic operation.
package atomic

import (
	real "sync/atomic"
	"unsafe"

	"verif/mc"
)

func LoadInt32(p *int32) int32          { mc.Point("atomic.Load"); return real.LoadInt32(p) }
func StoreInt32(p *int32, v int32)      { mc.Point("atomic.Store"); real.StoreInt32(p, v) }
func AddInt32(p *int32, v int32) int32  { mc.Point("atomic.Add"); return real.AddInt32(p, v) }
func SwapInt32(p *int32, v int32) int32 { mc.Point("atomic.Swap"); return real.SwapInt32(p, v) }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	mc.Point("atomic.CAS")
	return real.CompareAndSwapInt32(p, o, n)
}

// Int32 is atomic.Int32.
type Int32 struct{ v real.Int32 }

func (x *Int32) Load() int32        { mc.Point("atomic.Load"); return x.v.Load() }
func (x *Int32) Store(v int32)      { mc.Point("atomic.Store"); x.v.Store(v) }
func (x *Int32) Add(v int32) int32  { mc.Point("atomic.Add"); return x.v.Add(v) }
func (x *Int32) Swap(v int32) int32 { mc.Point("atomic.Swap"); return x.v.Swap(v) }
func (x *Int32) CompareAndSwap(o, n int32) bool {
	mc.Point("atomic.CAS")
	return x.v.CompareAndSwap(o, n)
}

func LoadInt64(p *int64) int64          { mc.Point("atomic.Load"); return real.LoadInt64(p) }
func StoreInt64(p *int64, v int64)      { mc.Point("atomic.Store"); real.StoreInt64(p, v) }
func AddInt64(p *int64, v int64) int64  { mc.Point("atomic.Add"); return real.AddInt64(p, v) }
func SwapInt64(p *int64, v int64) int64 { mc.Point("atomic.Swap"); return real.SwapInt64(p, v) }
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	mc.Point("atomic.CAS")
	return real.CompareAndSwapInt64(p, o, n)
}

// Int64 is atomic.Int64.
type Int64 struct{ v real.Int64 }

func (x *Int64) Load() int64        { mc.Point("atomic.Load"); return x.v.Load() }
func (x *Int64) Store(v int64)      { mc.Point("atomic.Store"); x.v.Store(v) }
func (x *Int64) Add(v int64) int64  { mc.Point("atomic.Add"); return x.v.Add(v) }
func (x *Int64) Swap(v int64) int64 { mc.Point("atomic.Swap"); return x.v.Swap(v) }
func (x *Int64) CompareAndSwap(o, n int64) bool {
	mc.Point("atomic.CAS")
	return x.v.CompareAndSwap(o, n)
}

func LoadUint32(p *uint32) uint32           { mc.Point("atomic.Load"); return real.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32)       { mc.Point("atomic.Store"); real.StoreUint32(p, v) }
func AddUint32(p *uint32, v uint32) uint32  { mc.Point("atomic.Add"); return real.AddUint32(p, v) }
func SwapUint32(p *uint32, v uint32) uint32 { mc.Point("atomic.Swap"); return real.SwapUint32(p, v) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	mc.Point("atomic.CAS")
	return real.CompareAndSwapUint32(p, o, n)
}

// Uint32 is atomic.Uint32.
type Uint32 struct{ v real.Uint32 }

func (x *Uint32) Load() uint32         { mc.Point("atomic.Load"); return x.v.Load() }
func (x *Uint32) Store(v uint32)       { mc.Point("atomic.Store"); x.v.Store(v) }
func (x *Uint32) Add(v uint32) uint32  { mc.Point("atomic.Add"); return x.v.Add(v) }
func (x *Uint32) Swap(v uint32) uint32 { mc.Point("atomic.Swap"); return x.v.Swap(v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool {
	mc.Point("atomic.CAS")
	return x.v.CompareAndSwap(o, n)
}

func LoadUint64(p *uint64) uint64           { mc.Point("atomic.Load"); return real.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64)       { mc.Point("atomic.Store"); real.StoreUint64(p, v) }
func AddUint64(p *uint64, v uint64) uint64  { mc.Point("atomic.Add"); return real.AddUint64(p, v) }
func SwapUint64(p *uint64, v uint64) uint64 { mc.Point("atomic.Swap"); return real.SwapUint64(p, v) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	mc.Point("atomic.CAS")
	return real.CompareAndSwapUint64(p, o, n)
}

// Uint64 is atomic.Uint64.
type Uint64 struct{ v real.Uint64 }

func (x *Uint64) Load() uint64         { mc.Point("atomic.Load"); return x.v.Load() }
func (x *Uint64) Store(v uint64)       { mc.Point("atomic.Store"); x.v.Store(v) }
func (x *Uint64) Add(v uint64) uint64  { mc.Point("atomic.Add"); return x.v.Add(v) }
func (x *Uint64) Swap(v uint64) uint64 { mc.Point("atomic.Swap"); return x.v.Swap(v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool {
	mc.Point("atomic.CAS")
	return x.v.CompareAndSwap(o, n)
}

func LoadUintptr(p *uintptr) uintptr           { mc.Point("atomic.Load"); return real.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr)       { mc.Point("atomic.Store"); real.StoreUintptr(p, v) }
func AddUintptr(p *uintptr, v uintptr) uintptr { mc.Point("atomic.Add"); return real.AddUintptr(p, v) }
func SwapUintptr(p *uintptr, v uintptr) uintptr {
	mc.Point("atomic.Swap")
	return real.SwapUintptr(p, v)
}
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	mc.Point("atomic.CAS")
	return real.CompareAndSwapUintptr(p, o, n)
}

// Uintptr is atomic.Uintptr.
type Uintptr struct{ v real.Uintptr }

func (x *Uintptr) Load() uintptr          { mc.Point("atomic.Load"); return x.v.Load() }
func (x *Uintptr) Store(v uintptr)        { mc.Point("atomic.Store"); x.v.Store(v) }
func (x *Uintptr) Add(v uintptr) uintptr  { mc.Point("atomic.Add"); return x.v.Add(v) }
func (x *Uintptr) Swap(v uintptr) uintptr { mc.Point("atomic.Swap"); return x.v.Swap(v) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool {
	mc.Point("atomic.CAS")
	return x.v.CompareAndSwap(o, n)
}

// Bool is atomic.Bool.
type Bool struct{ v real.Bool }

func (x *Bool) Load() bool       { mc.Point("atomic.Load"); return x.v.Load() }
func (x *Bool) Store(v bool)     { mc.Point("atomic.Store"); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool { mc.Point("atomic.Swap"); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(o, n bool) bool {
	mc.Point("atomic.CAS")
	return x.v.CompareAndSwap(o, n)
}

// Pointer is atomic.Pointer.
type Pointer[T any] struct{ v real.Pointer[T] }

func (x *Pointer[T]) Load() *T     { mc.Point("atomic.Load"); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)   { mc.Point("atomic.Store"); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T { mc.Point("atomic.Swap"); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	mc.Point("atomic.CAS")
	return x.v.CompareAndSwap(o, n)
}

// Value is atomic.Value.
type Value struct{ v real.Value }

func (x *Value) Load() any      { mc.Point("atomic.Load"); return x.v.Load() }
func (x *Value) Store(v any)    { mc.Point("atomic.Store"); x.v.Store(v) }
func (x *Value) Swap(v any) any { mc.Point("atomic.Swap"); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(o, n any) bool {
	mc.Point("atomic.CAS")
	return x.v.CompareAndSwap(o, n)
}

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer {
	mc.Point("atomic.Load")
	return real.LoadPointer(p)
}
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) {
	mc.Point("atomic.Store")
	real.StorePointer(p, v)
}
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	mc.Point("atomic.Swap")
	return real.SwapPointer(p, v)
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	mc.Point("atomic.CAS")
	return real.CompareAndSwapPointer(p, o, n)
}
