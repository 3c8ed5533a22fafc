// Package vatomic stands in for sync/atomic in a steered native run.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"vharness/vsched"
)

func LoadInt32(p *int32) int32          { vsched.Before(); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, v int32)      { vsched.Before(); atomic.StoreInt32(p, v) }
func SwapInt32(p *int32, v int32) int32 { vsched.Before(); return atomic.SwapInt32(p, v) }
func CompareAndSwapInt32(p *int32, o, v int32) bool {
	vsched.Before()
	return atomic.CompareAndSwapInt32(p, o, v)
}
func AddInt32(p *int32, v int32) int32  { vsched.Before(); return atomic.AddInt32(p, v) }
func AndInt32(p *int32, v int32) int32  { vsched.Before(); return atomic.AndInt32(p, v) }
func OrInt32(p *int32, v int32) int32   { vsched.Before(); return atomic.OrInt32(p, v) }
func LoadInt64(p *int64) int64          { vsched.Before(); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, v int64)      { vsched.Before(); atomic.StoreInt64(p, v) }
func SwapInt64(p *int64, v int64) int64 { vsched.Before(); return atomic.SwapInt64(p, v) }
func CompareAndSwapInt64(p *int64, o, v int64) bool {
	vsched.Before()
	return atomic.CompareAndSwapInt64(p, o, v)
}
func AddInt64(p *int64, v int64) int64      { vsched.Before(); return atomic.AddInt64(p, v) }
func AndInt64(p *int64, v int64) int64      { vsched.Before(); return atomic.AndInt64(p, v) }
func OrInt64(p *int64, v int64) int64       { vsched.Before(); return atomic.OrInt64(p, v) }
func LoadUint32(p *uint32) uint32           { vsched.Before(); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32)       { vsched.Before(); atomic.StoreUint32(p, v) }
func SwapUint32(p *uint32, v uint32) uint32 { vsched.Before(); return atomic.SwapUint32(p, v) }
func CompareAndSwapUint32(p *uint32, o, v uint32) bool {
	vsched.Before()
	return atomic.CompareAndSwapUint32(p, o, v)
}
func AddUint32(p *uint32, v uint32) uint32  { vsched.Before(); return atomic.AddUint32(p, v) }
func AndUint32(p *uint32, v uint32) uint32  { vsched.Before(); return atomic.AndUint32(p, v) }
func OrUint32(p *uint32, v uint32) uint32   { vsched.Before(); return atomic.OrUint32(p, v) }
func LoadUint64(p *uint64) uint64           { vsched.Before(); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64)       { vsched.Before(); atomic.StoreUint64(p, v) }
func SwapUint64(p *uint64, v uint64) uint64 { vsched.Before(); return atomic.SwapUint64(p, v) }
func CompareAndSwapUint64(p *uint64, o, v uint64) bool {
	vsched.Before()
	return atomic.CompareAndSwapUint64(p, o, v)
}
func AddUint64(p *uint64, v uint64) uint64      { vsched.Before(); return atomic.AddUint64(p, v) }
func AndUint64(p *uint64, v uint64) uint64      { vsched.Before(); return atomic.AndUint64(p, v) }
func OrUint64(p *uint64, v uint64) uint64       { vsched.Before(); return atomic.OrUint64(p, v) }
func LoadUintptr(p *uintptr) uintptr            { vsched.Before(); return atomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr)        { vsched.Before(); atomic.StoreUintptr(p, v) }
func SwapUintptr(p *uintptr, v uintptr) uintptr { vsched.Before(); return atomic.SwapUintptr(p, v) }
func CompareAndSwapUintptr(p *uintptr, o, v uintptr) bool {
	vsched.Before()
	return atomic.CompareAndSwapUintptr(p, o, v)
}
func AddUintptr(p *uintptr, v uintptr) uintptr         { vsched.Before(); return atomic.AddUintptr(p, v) }
func AndUintptr(p *uintptr, v uintptr) uintptr         { vsched.Before(); return atomic.AndUintptr(p, v) }
func OrUintptr(p *uintptr, v uintptr) uintptr          { vsched.Before(); return atomic.OrUintptr(p, v) }
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { vsched.Before(); return atomic.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { vsched.Before(); atomic.StorePointer(p, v) }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	vsched.Before()
	return atomic.SwapPointer(p, v)
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, v unsafe.Pointer) bool {
	vsched.Before()
	return atomic.CompareAndSwapPointer(p, o, v)
}

type Int32 struct{ v atomic.Int32 }

func (x *Int32) Load() int32                    { vsched.Before(); return x.v.Load() }
func (x *Int32) Store(v int32)                  { vsched.Before(); x.v.Store(v) }
func (x *Int32) Swap(v int32) int32             { vsched.Before(); return x.v.Swap(v) }
func (x *Int32) CompareAndSwap(o, v int32) bool { vsched.Before(); return x.v.CompareAndSwap(o, v) }
func (x *Int32) Add(v int32) int32              { vsched.Before(); return x.v.Add(v) }
func (x *Int32) And(v int32) int32              { vsched.Before(); return x.v.And(v) }
func (x *Int32) Or(v int32) int32               { vsched.Before(); return x.v.Or(v) }

type Int64 struct{ v atomic.Int64 }

func (x *Int64) Load() int64                    { vsched.Before(); return x.v.Load() }
func (x *Int64) Store(v int64)                  { vsched.Before(); x.v.Store(v) }
func (x *Int64) Swap(v int64) int64             { vsched.Before(); return x.v.Swap(v) }
func (x *Int64) CompareAndSwap(o, v int64) bool { vsched.Before(); return x.v.CompareAndSwap(o, v) }
func (x *Int64) Add(v int64) int64              { vsched.Before(); return x.v.Add(v) }
func (x *Int64) And(v int64) int64              { vsched.Before(); return x.v.And(v) }
func (x *Int64) Or(v int64) int64               { vsched.Before(); return x.v.Or(v) }

type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Load() uint32                    { vsched.Before(); return x.v.Load() }
func (x *Uint32) Store(v uint32)                  { vsched.Before(); x.v.Store(v) }
func (x *Uint32) Swap(v uint32) uint32            { vsched.Before(); return x.v.Swap(v) }
func (x *Uint32) CompareAndSwap(o, v uint32) bool { vsched.Before(); return x.v.CompareAndSwap(o, v) }
func (x *Uint32) Add(v uint32) uint32             { vsched.Before(); return x.v.Add(v) }
func (x *Uint32) And(v uint32) uint32             { vsched.Before(); return x.v.And(v) }
func (x *Uint32) Or(v uint32) uint32              { vsched.Before(); return x.v.Or(v) }

type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Load() uint64                    { vsched.Before(); return x.v.Load() }
func (x *Uint64) Store(v uint64)                  { vsched.Before(); x.v.Store(v) }
func (x *Uint64) Swap(v uint64) uint64            { vsched.Before(); return x.v.Swap(v) }
func (x *Uint64) CompareAndSwap(o, v uint64) bool { vsched.Before(); return x.v.CompareAndSwap(o, v) }
func (x *Uint64) Add(v uint64) uint64             { vsched.Before(); return x.v.Add(v) }
func (x *Uint64) And(v uint64) uint64             { vsched.Before(); return x.v.And(v) }
func (x *Uint64) Or(v uint64) uint64              { vsched.Before(); return x.v.Or(v) }

type Uintptr struct{ v atomic.Uintptr }

func (x *Uintptr) Load() uintptr                    { vsched.Before(); return x.v.Load() }
func (x *Uintptr) Store(v uintptr)                  { vsched.Before(); x.v.Store(v) }
func (x *Uintptr) Swap(v uintptr) uintptr           { vsched.Before(); return x.v.Swap(v) }
func (x *Uintptr) CompareAndSwap(o, v uintptr) bool { vsched.Before(); return x.v.CompareAndSwap(o, v) }
func (x *Uintptr) Add(v uintptr) uintptr            { vsched.Before(); return x.v.Add(v) }
func (x *Uintptr) And(v uintptr) uintptr            { vsched.Before(); return x.v.And(v) }
func (x *Uintptr) Or(v uintptr) uintptr             { vsched.Before(); return x.v.Or(v) }

type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool                    { vsched.Before(); return x.v.Load() }
func (x *Bool) Store(v bool)                  { vsched.Before(); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool              { vsched.Before(); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(o, v bool) bool { vsched.Before(); return x.v.CompareAndSwap(o, v) }

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { vsched.Before(); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)                  { vsched.Before(); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T                { vsched.Before(); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(o, v *T) bool { vsched.Before(); return x.v.CompareAndSwap(o, v) }

type Value struct{ v atomic.Value }

func (x *Value) Load() any                    { vsched.Before(); return x.v.Load() }
func (x *Value) Store(v any)                  { vsched.Before(); x.v.Store(v) }
func (x *Value) Swap(v any) any               { vsched.Before(); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(o, v any) bool { vsched.Before(); return x.v.CompareAndSwap(o, v) }
