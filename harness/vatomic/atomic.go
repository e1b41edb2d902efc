// Package vatomic replaces sync/atomic in an instrumented build: the same
// operations, each a scheduling point.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"vharness/vsync"
)

func y() {
	if vsync.Active() {
		vsync.Yield()
	}
}

// Value as atomic.Value.
type Value struct{ v atomic.Value }

func (v *Value) Load() any                    { y(); return v.v.Load() }
func (v *Value) Store(x any)                  { y(); v.v.Store(x) }
func (v *Value) Swap(x any) any               { y(); return v.v.Swap(x) }
func (v *Value) CompareAndSwap(o, n any) bool { y(); return vsync.Tried(v.v.CompareAndSwap(o, n)) }

// Pointer as atomic.Pointer.
type Pointer[T any] struct{ v atomic.Pointer[T] }

func (p *Pointer[T]) Load() *T                    { y(); return p.v.Load() }
func (p *Pointer[T]) Store(x *T)                  { y(); p.v.Store(x) }
func (p *Pointer[T]) Swap(x *T) *T                { y(); return p.v.Swap(x) }
func (p *Pointer[T]) CompareAndSwap(o, n *T) bool { y(); return vsync.Tried(p.v.CompareAndSwap(o, n)) }

// Bool as atomic.Bool.
type Bool struct{ v atomic.Bool }

func (p *Bool) Load() bool                    { y(); return p.v.Load() }
func (p *Bool) Store(x bool)                  { y(); p.v.Store(x) }
func (p *Bool) Swap(x bool) bool              { y(); return p.v.Swap(x) }
func (p *Bool) CompareAndSwap(o, n bool) bool { y(); return vsync.Tried(p.v.CompareAndSwap(o, n)) }

// Int32 as atomic.Int32.
type Int32 struct{ v atomic.Int32 }

func (p *Int32) Load() int32                    { y(); return p.v.Load() }
func (p *Int32) Store(x int32)                  { y(); p.v.Store(x) }
func (p *Int32) Swap(x int32) int32             { y(); return p.v.Swap(x) }
func (p *Int32) Add(x int32) int32              { y(); return p.v.Add(x) }
func (p *Int32) And(x int32) int32              { y(); return p.v.And(x) }
func (p *Int32) Or(x int32) int32               { y(); return p.v.Or(x) }
func (p *Int32) CompareAndSwap(o, n int32) bool { y(); return vsync.Tried(p.v.CompareAndSwap(o, n)) }

func LoadInt32(a *int32) int32          { y(); return atomic.LoadInt32(a) }
func StoreInt32(a *int32, x int32)      { y(); atomic.StoreInt32(a, x) }
func SwapInt32(a *int32, x int32) int32 { y(); return atomic.SwapInt32(a, x) }
func AddInt32(a *int32, x int32) int32  { y(); return atomic.AddInt32(a, x) }
func CompareAndSwapInt32(a *int32, o, n int32) bool {
	y()
	return vsync.Tried(atomic.CompareAndSwapInt32(a, o, n))
}

// Int64 as atomic.Int64.
type Int64 struct{ v atomic.Int64 }

func (p *Int64) Load() int64                    { y(); return p.v.Load() }
func (p *Int64) Store(x int64)                  { y(); p.v.Store(x) }
func (p *Int64) Swap(x int64) int64             { y(); return p.v.Swap(x) }
func (p *Int64) Add(x int64) int64              { y(); return p.v.Add(x) }
func (p *Int64) And(x int64) int64              { y(); return p.v.And(x) }
func (p *Int64) Or(x int64) int64               { y(); return p.v.Or(x) }
func (p *Int64) CompareAndSwap(o, n int64) bool { y(); return vsync.Tried(p.v.CompareAndSwap(o, n)) }

func LoadInt64(a *int64) int64          { y(); return atomic.LoadInt64(a) }
func StoreInt64(a *int64, x int64)      { y(); atomic.StoreInt64(a, x) }
func SwapInt64(a *int64, x int64) int64 { y(); return atomic.SwapInt64(a, x) }
func AddInt64(a *int64, x int64) int64  { y(); return atomic.AddInt64(a, x) }
func CompareAndSwapInt64(a *int64, o, n int64) bool {
	y()
	return vsync.Tried(atomic.CompareAndSwapInt64(a, o, n))
}

// Uint32 as atomic.Uint32.
type Uint32 struct{ v atomic.Uint32 }

func (p *Uint32) Load() uint32                    { y(); return p.v.Load() }
func (p *Uint32) Store(x uint32)                  { y(); p.v.Store(x) }
func (p *Uint32) Swap(x uint32) uint32            { y(); return p.v.Swap(x) }
func (p *Uint32) Add(x uint32) uint32             { y(); return p.v.Add(x) }
func (p *Uint32) And(x uint32) uint32             { y(); return p.v.And(x) }
func (p *Uint32) Or(x uint32) uint32              { y(); return p.v.Or(x) }
func (p *Uint32) CompareAndSwap(o, n uint32) bool { y(); return vsync.Tried(p.v.CompareAndSwap(o, n)) }

func LoadUint32(a *uint32) uint32           { y(); return atomic.LoadUint32(a) }
func StoreUint32(a *uint32, x uint32)       { y(); atomic.StoreUint32(a, x) }
func SwapUint32(a *uint32, x uint32) uint32 { y(); return atomic.SwapUint32(a, x) }
func AddUint32(a *uint32, x uint32) uint32  { y(); return atomic.AddUint32(a, x) }
func CompareAndSwapUint32(a *uint32, o, n uint32) bool {
	y()
	return vsync.Tried(atomic.CompareAndSwapUint32(a, o, n))
}

// Uint64 as atomic.Uint64.
type Uint64 struct{ v atomic.Uint64 }

func (p *Uint64) Load() uint64                    { y(); return p.v.Load() }
func (p *Uint64) Store(x uint64)                  { y(); p.v.Store(x) }
func (p *Uint64) Swap(x uint64) uint64            { y(); return p.v.Swap(x) }
func (p *Uint64) Add(x uint64) uint64             { y(); return p.v.Add(x) }
func (p *Uint64) And(x uint64) uint64             { y(); return p.v.And(x) }
func (p *Uint64) Or(x uint64) uint64              { y(); return p.v.Or(x) }
func (p *Uint64) CompareAndSwap(o, n uint64) bool { y(); return vsync.Tried(p.v.CompareAndSwap(o, n)) }

func LoadUint64(a *uint64) uint64           { y(); return atomic.LoadUint64(a) }
func StoreUint64(a *uint64, x uint64)       { y(); atomic.StoreUint64(a, x) }
func SwapUint64(a *uint64, x uint64) uint64 { y(); return atomic.SwapUint64(a, x) }
func AddUint64(a *uint64, x uint64) uint64  { y(); return atomic.AddUint64(a, x) }
func CompareAndSwapUint64(a *uint64, o, n uint64) bool {
	y()
	return vsync.Tried(atomic.CompareAndSwapUint64(a, o, n))
}

// Uintptr as atomic.Uintptr.
type Uintptr struct{ v atomic.Uintptr }

func (p *Uintptr) Load() uintptr          { y(); return p.v.Load() }
func (p *Uintptr) Store(x uintptr)        { y(); p.v.Store(x) }
func (p *Uintptr) Swap(x uintptr) uintptr { y(); return p.v.Swap(x) }
func (p *Uintptr) Add(x uintptr) uintptr  { y(); return p.v.Add(x) }
func (p *Uintptr) And(x uintptr) uintptr  { y(); return p.v.And(x) }
func (p *Uintptr) Or(x uintptr) uintptr   { y(); return p.v.Or(x) }
func (p *Uintptr) CompareAndSwap(o, n uintptr) bool {
	y()
	return vsync.Tried(p.v.CompareAndSwap(o, n))
}

func LoadUintptr(a *uintptr) uintptr            { y(); return atomic.LoadUintptr(a) }
func StoreUintptr(a *uintptr, x uintptr)        { y(); atomic.StoreUintptr(a, x) }
func SwapUintptr(a *uintptr, x uintptr) uintptr { y(); return atomic.SwapUintptr(a, x) }
func AddUintptr(a *uintptr, x uintptr) uintptr  { y(); return atomic.AddUintptr(a, x) }
func CompareAndSwapUintptr(a *uintptr, o, n uintptr) bool {
	y()
	return vsync.Tried(atomic.CompareAndSwapUintptr(a, o, n))
}

func LoadPointer(a *unsafe.Pointer) unsafe.Pointer     { y(); return atomic.LoadPointer(a) }
func StorePointer(a *unsafe.Pointer, x unsafe.Pointer) { y(); atomic.StorePointer(a, x) }
func SwapPointer(a *unsafe.Pointer, x unsafe.Pointer) unsafe.Pointer {
	y()
	return atomic.SwapPointer(a, x)
}
func CompareAndSwapPointer(a *unsafe.Pointer, o, n unsafe.Pointer) bool {
	y()
	return vsync.Tried(atomic.CompareAndSwapPointer(a, o, n))
}
