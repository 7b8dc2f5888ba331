//go:build go1.21

// Package vatomic puts a scheduling point before every atomic operation.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"github.com/vivint/rothko/zz_verif/vs"
)

func LoadInt32(p *int32) int32          { vs.Point("atomic.load"); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, v int32)      { vs.Point("atomic.store"); atomic.StoreInt32(p, v) }
func SwapInt32(p *int32, v int32) int32 { vs.Point("atomic.swap"); return atomic.SwapInt32(p, v) }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	vs.Point("atomic.cas")
	return atomic.CompareAndSwapInt32(p, o, n)
}
func AddInt32(p *int32, d int32) int32  { vs.Point("atomic.add"); return atomic.AddInt32(p, d) }
func LoadInt64(p *int64) int64          { vs.Point("atomic.load"); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, v int64)      { vs.Point("atomic.store"); atomic.StoreInt64(p, v) }
func SwapInt64(p *int64, v int64) int64 { vs.Point("atomic.swap"); return atomic.SwapInt64(p, v) }
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	vs.Point("atomic.cas")
	return atomic.CompareAndSwapInt64(p, o, n)
}
func AddInt64(p *int64, d int64) int64      { vs.Point("atomic.add"); return atomic.AddInt64(p, d) }
func LoadUint32(p *uint32) uint32           { vs.Point("atomic.load"); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32)       { vs.Point("atomic.store"); atomic.StoreUint32(p, v) }
func SwapUint32(p *uint32, v uint32) uint32 { vs.Point("atomic.swap"); return atomic.SwapUint32(p, v) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	vs.Point("atomic.cas")
	return atomic.CompareAndSwapUint32(p, o, n)
}
func AddUint32(p *uint32, d uint32) uint32  { vs.Point("atomic.add"); return atomic.AddUint32(p, d) }
func LoadUint64(p *uint64) uint64           { vs.Point("atomic.load"); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64)       { vs.Point("atomic.store"); atomic.StoreUint64(p, v) }
func SwapUint64(p *uint64, v uint64) uint64 { vs.Point("atomic.swap"); return atomic.SwapUint64(p, v) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	vs.Point("atomic.cas")
	return atomic.CompareAndSwapUint64(p, o, n)
}
func AddUint64(p *uint64, d uint64) uint64 { vs.Point("atomic.add"); return atomic.AddUint64(p, d) }
func LoadUintptr(p *uintptr) uintptr       { vs.Point("atomic.load"); return atomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr)   { vs.Point("atomic.store"); atomic.StoreUintptr(p, v) }
func SwapUintptr(p *uintptr, v uintptr) uintptr {
	vs.Point("atomic.swap")
	return atomic.SwapUintptr(p, v)
}
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	vs.Point("atomic.cas")
	return atomic.CompareAndSwapUintptr(p, o, n)
}
func AddUintptr(p *uintptr, d uintptr) uintptr {
	vs.Point("atomic.add")
	return atomic.AddUintptr(p, d)
}
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer {
	vs.Point("atomic.load")
	return atomic.LoadPointer(p)
}
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) {
	vs.Point("atomic.store")
	atomic.StorePointer(p, v)
}
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	vs.Point("atomic.swap")
	return atomic.SwapPointer(p, v)
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	vs.Point("atomic.cas")
	return atomic.CompareAndSwapPointer(p, o, n)
}

// Int32 is atomic.Int32.
type Int32 struct{ v atomic.Int32 }

func (a *Int32) Load() int32        { vs.Point("atomic.load"); return a.v.Load() }
func (a *Int32) Store(v int32)      { vs.Point("atomic.store"); a.v.Store(v) }
func (a *Int32) Swap(v int32) int32 { vs.Point("atomic.swap"); return a.v.Swap(v) }
func (a *Int32) CompareAndSwap(o, n int32) bool {
	vs.Point("atomic.cas")
	return a.v.CompareAndSwap(o, n)
}
func (a *Int32) Add(d int32) int32 { vs.Point("atomic.add"); return a.v.Add(d) }

// Int64 is atomic.Int64.
type Int64 struct{ v atomic.Int64 }

func (a *Int64) Load() int64        { vs.Point("atomic.load"); return a.v.Load() }
func (a *Int64) Store(v int64)      { vs.Point("atomic.store"); a.v.Store(v) }
func (a *Int64) Swap(v int64) int64 { vs.Point("atomic.swap"); return a.v.Swap(v) }
func (a *Int64) CompareAndSwap(o, n int64) bool {
	vs.Point("atomic.cas")
	return a.v.CompareAndSwap(o, n)
}
func (a *Int64) Add(d int64) int64 { vs.Point("atomic.add"); return a.v.Add(d) }

// Uint32 is atomic.Uint32.
type Uint32 struct{ v atomic.Uint32 }

func (a *Uint32) Load() uint32         { vs.Point("atomic.load"); return a.v.Load() }
func (a *Uint32) Store(v uint32)       { vs.Point("atomic.store"); a.v.Store(v) }
func (a *Uint32) Swap(v uint32) uint32 { vs.Point("atomic.swap"); return a.v.Swap(v) }
func (a *Uint32) CompareAndSwap(o, n uint32) bool {
	vs.Point("atomic.cas")
	return a.v.CompareAndSwap(o, n)
}
func (a *Uint32) Add(d uint32) uint32 { vs.Point("atomic.add"); return a.v.Add(d) }

// Uint64 is atomic.Uint64.
type Uint64 struct{ v atomic.Uint64 }

func (a *Uint64) Load() uint64         { vs.Point("atomic.load"); return a.v.Load() }
func (a *Uint64) Store(v uint64)       { vs.Point("atomic.store"); a.v.Store(v) }
func (a *Uint64) Swap(v uint64) uint64 { vs.Point("atomic.swap"); return a.v.Swap(v) }
func (a *Uint64) CompareAndSwap(o, n uint64) bool {
	vs.Point("atomic.cas")
	return a.v.CompareAndSwap(o, n)
}
func (a *Uint64) Add(d uint64) uint64 { vs.Point("atomic.add"); return a.v.Add(d) }

// Uintptr is atomic.Uintptr.
type Uintptr struct{ v atomic.Uintptr }

func (a *Uintptr) Load() uintptr          { vs.Point("atomic.load"); return a.v.Load() }
func (a *Uintptr) Store(v uintptr)        { vs.Point("atomic.store"); a.v.Store(v) }
func (a *Uintptr) Swap(v uintptr) uintptr { vs.Point("atomic.swap"); return a.v.Swap(v) }
func (a *Uintptr) CompareAndSwap(o, n uintptr) bool {
	vs.Point("atomic.cas")
	return a.v.CompareAndSwap(o, n)
}
func (a *Uintptr) Add(d uintptr) uintptr { vs.Point("atomic.add"); return a.v.Add(d) }

// Bool is atomic.Bool.
type Bool struct{ v atomic.Bool }

func (a *Bool) Load() bool       { vs.Point("atomic.load"); return a.v.Load() }
func (a *Bool) Store(v bool)     { vs.Point("atomic.store"); a.v.Store(v) }
func (a *Bool) Swap(v bool) bool { vs.Point("atomic.swap"); return a.v.Swap(v) }
func (a *Bool) CompareAndSwap(o, n bool) bool {
	vs.Point("atomic.cas")
	return a.v.CompareAndSwap(o, n)
}

// Pointer is atomic.Pointer.
type Pointer[T any] struct{ v atomic.Pointer[T] }

func (a *Pointer[T]) Load() *T     { vs.Point("atomic.load"); return a.v.Load() }
func (a *Pointer[T]) Store(v *T)   { vs.Point("atomic.store"); a.v.Store(v) }
func (a *Pointer[T]) Swap(v *T) *T { vs.Point("atomic.swap"); return a.v.Swap(v) }
func (a *Pointer[T]) CompareAndSwap(o, n *T) bool {
	vs.Point("atomic.cas")
	return a.v.CompareAndSwap(o, n)
}

// Value is atomic.Value.
type Value struct{ v atomic.Value }

func (a *Value) Load() any      { vs.Point("atomic.load"); return a.v.Load() }
func (a *Value) Store(v any)    { vs.Point("atomic.store"); a.v.Store(v) }
func (a *Value) Swap(v any) any { vs.Point("atomic.swap"); return a.v.Swap(v) }
func (a *Value) CompareAndSwap(o, n any) bool {
	vs.Point("atomic.cas")
	return a.v.CompareAndSwap(o, n)
}

var _ unsafe.Pointer
