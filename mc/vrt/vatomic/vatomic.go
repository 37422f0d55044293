// Package vatomic stands in for sync/atomic in the instrumented build: every operation is a scheduling point.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"verif/mc/vrt"
)

type Bool struct{ r atomic.Bool }

func (x *Bool) Load() bool                    { vrt.Point(); return x.r.Load() }
func (x *Bool) Store(v bool)                  { vrt.Point(); x.r.Store(v) }
func (x *Bool) Swap(v bool) bool              { vrt.Point(); return x.r.Swap(v) }
func (x *Bool) CompareAndSwap(o, n bool) bool { vrt.Point(); return x.r.CompareAndSwap(o, n) }

type Int32 struct{ r atomic.Int32 }

func (x *Int32) Load() int32                    { vrt.Point(); return x.r.Load() }
func (x *Int32) Store(v int32)                  { vrt.Point(); x.r.Store(v) }
func (x *Int32) Swap(v int32) int32             { vrt.Point(); return x.r.Swap(v) }
func (x *Int32) Add(v int32) int32              { vrt.Point(); return x.r.Add(v) }
func (x *Int32) CompareAndSwap(o, n int32) bool { vrt.Point(); return x.r.CompareAndSwap(o, n) }

type Int64 struct{ r atomic.Int64 }

func (x *Int64) Load() int64                    { vrt.Point(); return x.r.Load() }
func (x *Int64) Store(v int64)                  { vrt.Point(); x.r.Store(v) }
func (x *Int64) Swap(v int64) int64             { vrt.Point(); return x.r.Swap(v) }
func (x *Int64) Add(v int64) int64              { vrt.Point(); return x.r.Add(v) }
func (x *Int64) CompareAndSwap(o, n int64) bool { vrt.Point(); return x.r.CompareAndSwap(o, n) }

type Uint32 struct{ r atomic.Uint32 }

func (x *Uint32) Load() uint32                    { vrt.Point(); return x.r.Load() }
func (x *Uint32) Store(v uint32)                  { vrt.Point(); x.r.Store(v) }
func (x *Uint32) Swap(v uint32) uint32            { vrt.Point(); return x.r.Swap(v) }
func (x *Uint32) Add(v uint32) uint32             { vrt.Point(); return x.r.Add(v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { vrt.Point(); return x.r.CompareAndSwap(o, n) }

type Uint64 struct{ r atomic.Uint64 }

func (x *Uint64) Load() uint64                    { vrt.Point(); return x.r.Load() }
func (x *Uint64) Store(v uint64)                  { vrt.Point(); x.r.Store(v) }
func (x *Uint64) Swap(v uint64) uint64            { vrt.Point(); return x.r.Swap(v) }
func (x *Uint64) Add(v uint64) uint64             { vrt.Point(); return x.r.Add(v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { vrt.Point(); return x.r.CompareAndSwap(o, n) }

type Value struct{ r atomic.Value }

func (x *Value) Load() any                    { vrt.Point(); return x.r.Load() }
func (x *Value) Store(v any)                  { vrt.Point(); x.r.Store(v) }
func (x *Value) Swap(v any) any               { vrt.Point(); return x.r.Swap(v) }
func (x *Value) CompareAndSwap(o, n any) bool { vrt.Point(); return x.r.CompareAndSwap(o, n) }

type Pointer[T any] struct{ r atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { vrt.Point(); return x.r.Load() }
func (x *Pointer[T]) Store(v *T)                  { vrt.Point(); x.r.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T                { vrt.Point(); return x.r.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool { vrt.Point(); return x.r.CompareAndSwap(o, n) }

func AddInt32(p *int32, d int32) int32                 { vrt.Point(); return atomic.AddInt32(p, d) }
func AddInt64(p *int64, d int64) int64                 { vrt.Point(); return atomic.AddInt64(p, d) }
func AddUint32(p *uint32, d uint32) uint32             { vrt.Point(); return atomic.AddUint32(p, d) }
func AddUint64(p *uint64, d uint64) uint64             { vrt.Point(); return atomic.AddUint64(p, d) }
func LoadInt32(p *int32) int32                         { vrt.Point(); return atomic.LoadInt32(p) }
func LoadInt64(p *int64) int64                         { vrt.Point(); return atomic.LoadInt64(p) }
func LoadUint32(p *uint32) uint32                      { vrt.Point(); return atomic.LoadUint32(p) }
func LoadUint64(p *uint64) uint64                      { vrt.Point(); return atomic.LoadUint64(p) }
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { vrt.Point(); return atomic.LoadPointer(p) }
func StoreInt32(p *int32, v int32)                     { vrt.Point(); atomic.StoreInt32(p, v) }
func StoreInt64(p *int64, v int64)                     { vrt.Point(); atomic.StoreInt64(p, v) }
func StoreUint32(p *uint32, v uint32)                  { vrt.Point(); atomic.StoreUint32(p, v) }
func StoreUint64(p *uint64, v uint64)                  { vrt.Point(); atomic.StoreUint64(p, v) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { vrt.Point(); atomic.StorePointer(p, v) }
func SwapInt32(p *int32, v int32) int32                { vrt.Point(); return atomic.SwapInt32(p, v) }
func SwapInt64(p *int64, v int64) int64                { vrt.Point(); return atomic.SwapInt64(p, v) }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	vrt.Point()
	return atomic.CompareAndSwapInt32(p, o, n)
}
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	vrt.Point()
	return atomic.CompareAndSwapInt64(p, o, n)
}
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	vrt.Point()
	return atomic.CompareAndSwapUint32(p, o, n)
}
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	vrt.Point()
	return atomic.CompareAndSwapUint64(p, o, n)
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	vrt.Point()
	return atomic.CompareAndSwapPointer(p, o, n)
}
