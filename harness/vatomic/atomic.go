// Package vatomic replaces sync/atomic in instrumented code: the same semantics,
// with a scheduling point before every operation.
package vatomic

import (
	"sync/atomic"
	"verif/vsched"
)

func AddInt32(p *int32, d int32) int32  { vsched.P(-30); return atomic.AddInt32(p, d) }
func LoadInt32(p *int32) int32          { vsched.P(-30); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, v int32)      { vsched.P(-30); atomic.StoreInt32(p, v) }
func SwapInt32(p *int32, v int32) int32 { vsched.P(-30); return atomic.SwapInt32(p, v) }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	vsched.P(-30)
	return atomic.CompareAndSwapInt32(p, o, n)
}

type Int32 struct{ v atomic.Int32 }

func (x *Int32) Add(d int32) int32              { vsched.P(-30); return x.v.Add(d) }
func (x *Int32) Load() int32                    { vsched.P(-30); return x.v.Load() }
func (x *Int32) Store(v int32)                  { vsched.P(-30); x.v.Store(v) }
func (x *Int32) Swap(v int32) int32             { vsched.P(-30); return x.v.Swap(v) }
func (x *Int32) And(v int32) int32              { vsched.P(-30); return x.v.And(v) }
func (x *Int32) Or(v int32) int32               { vsched.P(-30); return x.v.Or(v) }
func (x *Int32) CompareAndSwap(o, n int32) bool { vsched.P(-30); return x.v.CompareAndSwap(o, n) }

func AddInt64(p *int64, d int64) int64  { vsched.P(-30); return atomic.AddInt64(p, d) }
func LoadInt64(p *int64) int64          { vsched.P(-30); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, v int64)      { vsched.P(-30); atomic.StoreInt64(p, v) }
func SwapInt64(p *int64, v int64) int64 { vsched.P(-30); return atomic.SwapInt64(p, v) }
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	vsched.P(-30)
	return atomic.CompareAndSwapInt64(p, o, n)
}

type Int64 struct{ v atomic.Int64 }

func (x *Int64) Add(d int64) int64              { vsched.P(-30); return x.v.Add(d) }
func (x *Int64) Load() int64                    { vsched.P(-30); return x.v.Load() }
func (x *Int64) Store(v int64)                  { vsched.P(-30); x.v.Store(v) }
func (x *Int64) Swap(v int64) int64             { vsched.P(-30); return x.v.Swap(v) }
func (x *Int64) And(v int64) int64              { vsched.P(-30); return x.v.And(v) }
func (x *Int64) Or(v int64) int64               { vsched.P(-30); return x.v.Or(v) }
func (x *Int64) CompareAndSwap(o, n int64) bool { vsched.P(-30); return x.v.CompareAndSwap(o, n) }

func AddUint32(p *uint32, d uint32) uint32  { vsched.P(-30); return atomic.AddUint32(p, d) }
func LoadUint32(p *uint32) uint32           { vsched.P(-30); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32)       { vsched.P(-30); atomic.StoreUint32(p, v) }
func SwapUint32(p *uint32, v uint32) uint32 { vsched.P(-30); return atomic.SwapUint32(p, v) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	vsched.P(-30)
	return atomic.CompareAndSwapUint32(p, o, n)
}

type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Add(d uint32) uint32             { vsched.P(-30); return x.v.Add(d) }
func (x *Uint32) Load() uint32                    { vsched.P(-30); return x.v.Load() }
func (x *Uint32) Store(v uint32)                  { vsched.P(-30); x.v.Store(v) }
func (x *Uint32) Swap(v uint32) uint32            { vsched.P(-30); return x.v.Swap(v) }
func (x *Uint32) And(v uint32) uint32             { vsched.P(-30); return x.v.And(v) }
func (x *Uint32) Or(v uint32) uint32              { vsched.P(-30); return x.v.Or(v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { vsched.P(-30); return x.v.CompareAndSwap(o, n) }

func AddUint64(p *uint64, d uint64) uint64  { vsched.P(-30); return atomic.AddUint64(p, d) }
func LoadUint64(p *uint64) uint64           { vsched.P(-30); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64)       { vsched.P(-30); atomic.StoreUint64(p, v) }
func SwapUint64(p *uint64, v uint64) uint64 { vsched.P(-30); return atomic.SwapUint64(p, v) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	vsched.P(-30)
	return atomic.CompareAndSwapUint64(p, o, n)
}

type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Add(d uint64) uint64             { vsched.P(-30); return x.v.Add(d) }
func (x *Uint64) Load() uint64                    { vsched.P(-30); return x.v.Load() }
func (x *Uint64) Store(v uint64)                  { vsched.P(-30); x.v.Store(v) }
func (x *Uint64) Swap(v uint64) uint64            { vsched.P(-30); return x.v.Swap(v) }
func (x *Uint64) And(v uint64) uint64             { vsched.P(-30); return x.v.And(v) }
func (x *Uint64) Or(v uint64) uint64              { vsched.P(-30); return x.v.Or(v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { vsched.P(-30); return x.v.CompareAndSwap(o, n) }

func AddUintptr(p *uintptr, d uintptr) uintptr  { vsched.P(-30); return atomic.AddUintptr(p, d) }
func LoadUintptr(p *uintptr) uintptr            { vsched.P(-30); return atomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr)        { vsched.P(-30); atomic.StoreUintptr(p, v) }
func SwapUintptr(p *uintptr, v uintptr) uintptr { vsched.P(-30); return atomic.SwapUintptr(p, v) }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	vsched.P(-30)
	return atomic.CompareAndSwapUintptr(p, o, n)
}

type Uintptr struct{ v atomic.Uintptr }

func (x *Uintptr) Add(d uintptr) uintptr            { vsched.P(-30); return x.v.Add(d) }
func (x *Uintptr) Load() uintptr                    { vsched.P(-30); return x.v.Load() }
func (x *Uintptr) Store(v uintptr)                  { vsched.P(-30); x.v.Store(v) }
func (x *Uintptr) Swap(v uintptr) uintptr           { vsched.P(-30); return x.v.Swap(v) }
func (x *Uintptr) And(v uintptr) uintptr            { vsched.P(-30); return x.v.And(v) }
func (x *Uintptr) Or(v uintptr) uintptr             { vsched.P(-30); return x.v.Or(v) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { vsched.P(-30); return x.v.CompareAndSwap(o, n) }

type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool                    { vsched.P(-30); return x.v.Load() }
func (x *Bool) Store(v bool)                  { vsched.P(-30); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool              { vsched.P(-30); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(o, n bool) bool { vsched.P(-30); return x.v.CompareAndSwap(o, n) }

type Value struct{ v atomic.Value }

func (x *Value) Load() any                    { vsched.P(-30); return x.v.Load() }
func (x *Value) Store(v any)                  { vsched.P(-30); x.v.Store(v) }
func (x *Value) Swap(v any) any               { vsched.P(-30); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(o, n any) bool { vsched.P(-30); return x.v.CompareAndSwap(o, n) }

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { vsched.P(-30); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)                  { vsched.P(-30); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T                { vsched.P(-30); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool { vsched.P(-30); return x.v.CompareAndSwap(o, n) }
