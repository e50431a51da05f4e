// Package simatomic stands in for sync/atomic: a scheduling point before every operation.
package simatomic

import (
	"sync/atomic"
	"unsafe"

	"verif.local/ds/simrt"
)

func LoadInt32(addr *int32) int32          { simrt.SyncPoint(); return atomic.LoadInt32(addr) }
func StoreInt32(addr *int32, v int32)      { simrt.SyncPoint(); atomic.StoreInt32(addr, v) }
func SwapInt32(addr *int32, v int32) int32 { simrt.SyncPoint(); return atomic.SwapInt32(addr, v) }
func CompareAndSwapInt32(addr *int32, o, n int32) bool {
	simrt.SyncPoint()
	return atomic.CompareAndSwapInt32(addr, o, n)
}
func AddInt32(addr *int32, d int32) int32 { simrt.SyncPoint(); return atomic.AddInt32(addr, d) }

type Int32 struct{ v atomic.Int32 }

func (x *Int32) Load() int32                    { simrt.SyncPoint(); return x.v.Load() }
func (x *Int32) Store(n int32)                  { simrt.SyncPoint(); x.v.Store(n) }
func (x *Int32) Swap(n int32) int32             { simrt.SyncPoint(); return x.v.Swap(n) }
func (x *Int32) Add(d int32) int32              { simrt.SyncPoint(); return x.v.Add(d) }
func (x *Int32) CompareAndSwap(o, n int32) bool { simrt.SyncPoint(); return x.v.CompareAndSwap(o, n) }

func (x *Int32) And(m int32) int32         { simrt.SyncPoint(); return x.v.And(m) }
func AndInt32(addr *int32, m int32) int32  { simrt.SyncPoint(); return atomic.AndInt32(addr, m) }
func (x *Int32) Or(m int32) int32          { simrt.SyncPoint(); return x.v.Or(m) }
func OrInt32(addr *int32, m int32) int32   { simrt.SyncPoint(); return atomic.OrInt32(addr, m) }
func LoadInt64(addr *int64) int64          { simrt.SyncPoint(); return atomic.LoadInt64(addr) }
func StoreInt64(addr *int64, v int64)      { simrt.SyncPoint(); atomic.StoreInt64(addr, v) }
func SwapInt64(addr *int64, v int64) int64 { simrt.SyncPoint(); return atomic.SwapInt64(addr, v) }
func CompareAndSwapInt64(addr *int64, o, n int64) bool {
	simrt.SyncPoint()
	return atomic.CompareAndSwapInt64(addr, o, n)
}
func AddInt64(addr *int64, d int64) int64 { simrt.SyncPoint(); return atomic.AddInt64(addr, d) }

type Int64 struct{ v atomic.Int64 }

func (x *Int64) Load() int64                    { simrt.SyncPoint(); return x.v.Load() }
func (x *Int64) Store(n int64)                  { simrt.SyncPoint(); x.v.Store(n) }
func (x *Int64) Swap(n int64) int64             { simrt.SyncPoint(); return x.v.Swap(n) }
func (x *Int64) Add(d int64) int64              { simrt.SyncPoint(); return x.v.Add(d) }
func (x *Int64) CompareAndSwap(o, n int64) bool { simrt.SyncPoint(); return x.v.CompareAndSwap(o, n) }

func (x *Int64) And(m int64) int64             { simrt.SyncPoint(); return x.v.And(m) }
func AndInt64(addr *int64, m int64) int64      { simrt.SyncPoint(); return atomic.AndInt64(addr, m) }
func (x *Int64) Or(m int64) int64              { simrt.SyncPoint(); return x.v.Or(m) }
func OrInt64(addr *int64, m int64) int64       { simrt.SyncPoint(); return atomic.OrInt64(addr, m) }
func LoadUint32(addr *uint32) uint32           { simrt.SyncPoint(); return atomic.LoadUint32(addr) }
func StoreUint32(addr *uint32, v uint32)       { simrt.SyncPoint(); atomic.StoreUint32(addr, v) }
func SwapUint32(addr *uint32, v uint32) uint32 { simrt.SyncPoint(); return atomic.SwapUint32(addr, v) }
func CompareAndSwapUint32(addr *uint32, o, n uint32) bool {
	simrt.SyncPoint()
	return atomic.CompareAndSwapUint32(addr, o, n)
}
func AddUint32(addr *uint32, d uint32) uint32 { simrt.SyncPoint(); return atomic.AddUint32(addr, d) }

type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Load() uint32                    { simrt.SyncPoint(); return x.v.Load() }
func (x *Uint32) Store(n uint32)                  { simrt.SyncPoint(); x.v.Store(n) }
func (x *Uint32) Swap(n uint32) uint32            { simrt.SyncPoint(); return x.v.Swap(n) }
func (x *Uint32) Add(d uint32) uint32             { simrt.SyncPoint(); return x.v.Add(d) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { simrt.SyncPoint(); return x.v.CompareAndSwap(o, n) }

func (x *Uint32) And(m uint32) uint32          { simrt.SyncPoint(); return x.v.And(m) }
func AndUint32(addr *uint32, m uint32) uint32  { simrt.SyncPoint(); return atomic.AndUint32(addr, m) }
func (x *Uint32) Or(m uint32) uint32           { simrt.SyncPoint(); return x.v.Or(m) }
func OrUint32(addr *uint32, m uint32) uint32   { simrt.SyncPoint(); return atomic.OrUint32(addr, m) }
func LoadUint64(addr *uint64) uint64           { simrt.SyncPoint(); return atomic.LoadUint64(addr) }
func StoreUint64(addr *uint64, v uint64)       { simrt.SyncPoint(); atomic.StoreUint64(addr, v) }
func SwapUint64(addr *uint64, v uint64) uint64 { simrt.SyncPoint(); return atomic.SwapUint64(addr, v) }
func CompareAndSwapUint64(addr *uint64, o, n uint64) bool {
	simrt.SyncPoint()
	return atomic.CompareAndSwapUint64(addr, o, n)
}
func AddUint64(addr *uint64, d uint64) uint64 { simrt.SyncPoint(); return atomic.AddUint64(addr, d) }

type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Load() uint64                    { simrt.SyncPoint(); return x.v.Load() }
func (x *Uint64) Store(n uint64)                  { simrt.SyncPoint(); x.v.Store(n) }
func (x *Uint64) Swap(n uint64) uint64            { simrt.SyncPoint(); return x.v.Swap(n) }
func (x *Uint64) Add(d uint64) uint64             { simrt.SyncPoint(); return x.v.Add(d) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { simrt.SyncPoint(); return x.v.CompareAndSwap(o, n) }

func (x *Uint64) And(m uint64) uint64         { simrt.SyncPoint(); return x.v.And(m) }
func AndUint64(addr *uint64, m uint64) uint64 { simrt.SyncPoint(); return atomic.AndUint64(addr, m) }
func (x *Uint64) Or(m uint64) uint64          { simrt.SyncPoint(); return x.v.Or(m) }
func OrUint64(addr *uint64, m uint64) uint64  { simrt.SyncPoint(); return atomic.OrUint64(addr, m) }
func LoadUintptr(addr *uintptr) uintptr       { simrt.SyncPoint(); return atomic.LoadUintptr(addr) }
func StoreUintptr(addr *uintptr, v uintptr)   { simrt.SyncPoint(); atomic.StoreUintptr(addr, v) }
func SwapUintptr(addr *uintptr, v uintptr) uintptr {
	simrt.SyncPoint()
	return atomic.SwapUintptr(addr, v)
}
func CompareAndSwapUintptr(addr *uintptr, o, n uintptr) bool {
	simrt.SyncPoint()
	return atomic.CompareAndSwapUintptr(addr, o, n)
}
func AddUintptr(addr *uintptr, d uintptr) uintptr {
	simrt.SyncPoint()
	return atomic.AddUintptr(addr, d)
}

type Uintptr struct{ v atomic.Uintptr }

func (x *Uintptr) Load() uintptr          { simrt.SyncPoint(); return x.v.Load() }
func (x *Uintptr) Store(n uintptr)        { simrt.SyncPoint(); x.v.Store(n) }
func (x *Uintptr) Swap(n uintptr) uintptr { simrt.SyncPoint(); return x.v.Swap(n) }
func (x *Uintptr) Add(d uintptr) uintptr  { simrt.SyncPoint(); return x.v.Add(d) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool {
	simrt.SyncPoint()
	return x.v.CompareAndSwap(o, n)
}

func (x *Uintptr) And(m uintptr) uintptr { simrt.SyncPoint(); return x.v.And(m) }
func AndUintptr(addr *uintptr, m uintptr) uintptr {
	simrt.SyncPoint()
	return atomic.AndUintptr(addr, m)
}
func (x *Uintptr) Or(m uintptr) uintptr          { simrt.SyncPoint(); return x.v.Or(m) }
func OrUintptr(addr *uintptr, m uintptr) uintptr { simrt.SyncPoint(); return atomic.OrUintptr(addr, m) }
func LoadPointer(addr *unsafe.Pointer) unsafe.Pointer {
	simrt.SyncPoint()
	return atomic.LoadPointer(addr)
}
func StorePointer(addr *unsafe.Pointer, v unsafe.Pointer) {
	simrt.SyncPoint()
	atomic.StorePointer(addr, v)
}
func SwapPointer(addr *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	simrt.SyncPoint()
	return atomic.SwapPointer(addr, v)
}
func CompareAndSwapPointer(addr *unsafe.Pointer, o, n unsafe.Pointer) bool {
	simrt.SyncPoint()
	return atomic.CompareAndSwapPointer(addr, o, n)
}

type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool                    { simrt.SyncPoint(); return x.v.Load() }
func (x *Bool) Store(n bool)                  { simrt.SyncPoint(); x.v.Store(n) }
func (x *Bool) Swap(n bool) bool              { simrt.SyncPoint(); return x.v.Swap(n) }
func (x *Bool) CompareAndSwap(o, n bool) bool { simrt.SyncPoint(); return x.v.CompareAndSwap(o, n) }

type Value struct{ v atomic.Value }

func (x *Value) Load() any                    { simrt.SyncPoint(); return x.v.Load() }
func (x *Value) Store(n any)                  { simrt.SyncPoint(); x.v.Store(n) }
func (x *Value) Swap(n any) any               { simrt.SyncPoint(); return x.v.Swap(n) }
func (x *Value) CompareAndSwap(o, n any) bool { simrt.SyncPoint(); return x.v.CompareAndSwap(o, n) }

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { simrt.SyncPoint(); return x.v.Load() }
func (x *Pointer[T]) Store(n *T)                  { simrt.SyncPoint(); x.v.Store(n) }
func (x *Pointer[T]) Swap(n *T) *T                { simrt.SyncPoint(); return x.v.Swap(n) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool { simrt.SyncPoint(); return x.v.CompareAndSwap(o, n) }
