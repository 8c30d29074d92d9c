// Package yatomic stands in for package sync/atomic in code run under a schedule, see ysync.
package yatomic

import (
	"sync/atomic"
	"unsafe"

	"verif/harness/ysync"
)

// Int32 is atomic.Int32.
type Int32 struct{ v atomic.Int32 }

func (x *Int32) Load() int32                    { ysync.Point(); return x.v.Load() }
func (x *Int32) Store(n int32)                  { ysync.Point(); x.v.Store(n) }
func (x *Int32) Add(n int32) int32              { ysync.Point(); return x.v.Add(n) }
func (x *Int32) And(n int32) int32              { ysync.Point(); return x.v.And(n) }
func (x *Int32) Or(n int32) int32               { ysync.Point(); return x.v.Or(n) }
func (x *Int32) Swap(n int32) int32             { ysync.Point(); return x.v.Swap(n) }
func (x *Int32) CompareAndSwap(o, n int32) bool { ysync.Point(); return x.v.CompareAndSwap(o, n) }

func LoadInt32(p *int32) int32          { ysync.Point(); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, n int32)      { ysync.Point(); atomic.StoreInt32(p, n) }
func AddInt32(p *int32, n int32) int32  { ysync.Point(); return atomic.AddInt32(p, n) }
func AndInt32(p *int32, n int32) int32  { ysync.Point(); return atomic.AndInt32(p, n) }
func OrInt32(p *int32, n int32) int32   { ysync.Point(); return atomic.OrInt32(p, n) }
func SwapInt32(p *int32, n int32) int32 { ysync.Point(); return atomic.SwapInt32(p, n) }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	ysync.Point()
	return atomic.CompareAndSwapInt32(p, o, n)
}

// Int64 is atomic.Int64.
type Int64 struct{ v atomic.Int64 }

func (x *Int64) Load() int64                    { ysync.Point(); return x.v.Load() }
func (x *Int64) Store(n int64)                  { ysync.Point(); x.v.Store(n) }
func (x *Int64) Add(n int64) int64              { ysync.Point(); return x.v.Add(n) }
func (x *Int64) And(n int64) int64              { ysync.Point(); return x.v.And(n) }
func (x *Int64) Or(n int64) int64               { ysync.Point(); return x.v.Or(n) }
func (x *Int64) Swap(n int64) int64             { ysync.Point(); return x.v.Swap(n) }
func (x *Int64) CompareAndSwap(o, n int64) bool { ysync.Point(); return x.v.CompareAndSwap(o, n) }

func LoadInt64(p *int64) int64          { ysync.Point(); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, n int64)      { ysync.Point(); atomic.StoreInt64(p, n) }
func AddInt64(p *int64, n int64) int64  { ysync.Point(); return atomic.AddInt64(p, n) }
func AndInt64(p *int64, n int64) int64  { ysync.Point(); return atomic.AndInt64(p, n) }
func OrInt64(p *int64, n int64) int64   { ysync.Point(); return atomic.OrInt64(p, n) }
func SwapInt64(p *int64, n int64) int64 { ysync.Point(); return atomic.SwapInt64(p, n) }
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	ysync.Point()
	return atomic.CompareAndSwapInt64(p, o, n)
}

// Uint32 is atomic.Uint32.
type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Load() uint32                    { ysync.Point(); return x.v.Load() }
func (x *Uint32) Store(n uint32)                  { ysync.Point(); x.v.Store(n) }
func (x *Uint32) Add(n uint32) uint32             { ysync.Point(); return x.v.Add(n) }
func (x *Uint32) And(n uint32) uint32             { ysync.Point(); return x.v.And(n) }
func (x *Uint32) Or(n uint32) uint32              { ysync.Point(); return x.v.Or(n) }
func (x *Uint32) Swap(n uint32) uint32            { ysync.Point(); return x.v.Swap(n) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { ysync.Point(); return x.v.CompareAndSwap(o, n) }

func LoadUint32(p *uint32) uint32           { ysync.Point(); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, n uint32)       { ysync.Point(); atomic.StoreUint32(p, n) }
func AddUint32(p *uint32, n uint32) uint32  { ysync.Point(); return atomic.AddUint32(p, n) }
func AndUint32(p *uint32, n uint32) uint32  { ysync.Point(); return atomic.AndUint32(p, n) }
func OrUint32(p *uint32, n uint32) uint32   { ysync.Point(); return atomic.OrUint32(p, n) }
func SwapUint32(p *uint32, n uint32) uint32 { ysync.Point(); return atomic.SwapUint32(p, n) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	ysync.Point()
	return atomic.CompareAndSwapUint32(p, o, n)
}

// Uint64 is atomic.Uint64.
type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Load() uint64                    { ysync.Point(); return x.v.Load() }
func (x *Uint64) Store(n uint64)                  { ysync.Point(); x.v.Store(n) }
func (x *Uint64) Add(n uint64) uint64             { ysync.Point(); return x.v.Add(n) }
func (x *Uint64) And(n uint64) uint64             { ysync.Point(); return x.v.And(n) }
func (x *Uint64) Or(n uint64) uint64              { ysync.Point(); return x.v.Or(n) }
func (x *Uint64) Swap(n uint64) uint64            { ysync.Point(); return x.v.Swap(n) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { ysync.Point(); return x.v.CompareAndSwap(o, n) }

func LoadUint64(p *uint64) uint64           { ysync.Point(); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, n uint64)       { ysync.Point(); atomic.StoreUint64(p, n) }
func AddUint64(p *uint64, n uint64) uint64  { ysync.Point(); return atomic.AddUint64(p, n) }
func AndUint64(p *uint64, n uint64) uint64  { ysync.Point(); return atomic.AndUint64(p, n) }
func OrUint64(p *uint64, n uint64) uint64   { ysync.Point(); return atomic.OrUint64(p, n) }
func SwapUint64(p *uint64, n uint64) uint64 { ysync.Point(); return atomic.SwapUint64(p, n) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	ysync.Point()
	return atomic.CompareAndSwapUint64(p, o, n)
}

// Uintptr is atomic.Uintptr.
type Uintptr struct{ v atomic.Uintptr }

func (x *Uintptr) Load() uintptr                    { ysync.Point(); return x.v.Load() }
func (x *Uintptr) Store(n uintptr)                  { ysync.Point(); x.v.Store(n) }
func (x *Uintptr) Add(n uintptr) uintptr            { ysync.Point(); return x.v.Add(n) }
func (x *Uintptr) And(n uintptr) uintptr            { ysync.Point(); return x.v.And(n) }
func (x *Uintptr) Or(n uintptr) uintptr             { ysync.Point(); return x.v.Or(n) }
func (x *Uintptr) Swap(n uintptr) uintptr           { ysync.Point(); return x.v.Swap(n) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { ysync.Point(); return x.v.CompareAndSwap(o, n) }

func LoadUintptr(p *uintptr) uintptr            { ysync.Point(); return atomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, n uintptr)        { ysync.Point(); atomic.StoreUintptr(p, n) }
func AddUintptr(p *uintptr, n uintptr) uintptr  { ysync.Point(); return atomic.AddUintptr(p, n) }
func AndUintptr(p *uintptr, n uintptr) uintptr  { ysync.Point(); return atomic.AndUintptr(p, n) }
func OrUintptr(p *uintptr, n uintptr) uintptr   { ysync.Point(); return atomic.OrUintptr(p, n) }
func SwapUintptr(p *uintptr, n uintptr) uintptr { ysync.Point(); return atomic.SwapUintptr(p, n) }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	ysync.Point()
	return atomic.CompareAndSwapUintptr(p, o, n)
}

// Bool is atomic.Bool.
type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool                    { ysync.Point(); return x.v.Load() }
func (x *Bool) Store(n bool)                  { ysync.Point(); x.v.Store(n) }
func (x *Bool) Swap(n bool) bool              { ysync.Point(); return x.v.Swap(n) }
func (x *Bool) CompareAndSwap(o, n bool) bool { ysync.Point(); return x.v.CompareAndSwap(o, n) }

// Pointer is atomic.Pointer.
type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { ysync.Point(); return x.v.Load() }
func (x *Pointer[T]) Store(n *T)                  { ysync.Point(); x.v.Store(n) }
func (x *Pointer[T]) Swap(n *T) *T                { ysync.Point(); return x.v.Swap(n) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool { ysync.Point(); return x.v.CompareAndSwap(o, n) }

// Value is atomic.Value.
type Value struct{ v atomic.Value }

func (x *Value) Load() any                    { ysync.Point(); return x.v.Load() }
func (x *Value) Store(n any)                  { ysync.Point(); x.v.Store(n) }
func (x *Value) Swap(n any) any               { ysync.Point(); return x.v.Swap(n) }
func (x *Value) CompareAndSwap(o, n any) bool { ysync.Point(); return x.v.CompareAndSwap(o, n) }

// The pointer functions of package atomic.
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { ysync.Point(); return atomic.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, n unsafe.Pointer) { ysync.Point(); atomic.StorePointer(p, n) }
func SwapPointer(p *unsafe.Pointer, n unsafe.Pointer) unsafe.Pointer {
	ysync.Point()
	return atomic.SwapPointer(p, n)
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	ysync.Point()
	return atomic.CompareAndSwapPointer(p, o, n)
}
