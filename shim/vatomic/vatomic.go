// Package vatomic stands in for package sync/atomic in instrumented code.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"verif.local/shim/vsched"
)

func p(a any) { vsched.Point("atomic", a, nil) }

func LoadPointer(a *unsafe.Pointer) unsafe.Pointer     { p(a); return atomic.LoadPointer(a) }
func StorePointer(a *unsafe.Pointer, v unsafe.Pointer) { p(a); atomic.StorePointer(a, v) }
func SwapPointer(a *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	p(a)
	return atomic.SwapPointer(a, v)
}
func CompareAndSwapPointer(a *unsafe.Pointer, o, n unsafe.Pointer) bool {
	p(a)
	return atomic.CompareAndSwapPointer(a, o, n)
}

func LoadInt32(a *int32) int32                      { p(a); return atomic.LoadInt32(a) }
func LoadInt64(a *int64) int64                      { p(a); return atomic.LoadInt64(a) }
func LoadUint32(a *uint32) uint32                   { p(a); return atomic.LoadUint32(a) }
func LoadUint64(a *uint64) uint64                   { p(a); return atomic.LoadUint64(a) }
func StoreInt32(a *int32, v int32)                  { p(a); atomic.StoreInt32(a, v) }
func StoreInt64(a *int64, v int64)                  { p(a); atomic.StoreInt64(a, v) }
func StoreUint32(a *uint32, v uint32)               { p(a); atomic.StoreUint32(a, v) }
func StoreUint64(a *uint64, v uint64)               { p(a); atomic.StoreUint64(a, v) }
func AddInt32(a *int32, v int32) int32              { p(a); return atomic.AddInt32(a, v) }
func AddInt64(a *int64, v int64) int64              { p(a); return atomic.AddInt64(a, v) }
func AddUint32(a *uint32, v uint32) uint32          { p(a); return atomic.AddUint32(a, v) }
func AddUint64(a *uint64, v uint64) uint64          { p(a); return atomic.AddUint64(a, v) }
func SwapInt32(a *int32, v int32) int32             { p(a); return atomic.SwapInt32(a, v) }
func SwapInt64(a *int64, v int64) int64             { p(a); return atomic.SwapInt64(a, v) }
func SwapUint32(a *uint32, v uint32) uint32         { p(a); return atomic.SwapUint32(a, v) }
func SwapUint64(a *uint64, v uint64) uint64         { p(a); return atomic.SwapUint64(a, v) }
func CompareAndSwapInt32(a *int32, o, n int32) bool { p(a); return atomic.CompareAndSwapInt32(a, o, n) }
func CompareAndSwapInt64(a *int64, o, n int64) bool { p(a); return atomic.CompareAndSwapInt64(a, o, n) }
func CompareAndSwapUint32(a *uint32, o, n uint32) bool {
	p(a)
	return atomic.CompareAndSwapUint32(a, o, n)
}
func CompareAndSwapUint64(a *uint64, o, n uint64) bool {
	p(a)
	return atomic.CompareAndSwapUint64(a, o, n)
}

type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool                    { p(x); return x.v.Load() }
func (x *Bool) Store(b bool)                  { p(x); x.v.Store(b) }
func (x *Bool) Swap(b bool) bool              { p(x); return x.v.Swap(b) }
func (x *Bool) CompareAndSwap(o, n bool) bool { p(x); return x.v.CompareAndSwap(o, n) }

type Int32 struct{ v atomic.Int32 }

func (x *Int32) Load() int32                    { p(x); return x.v.Load() }
func (x *Int32) Store(b int32)                  { p(x); x.v.Store(b) }
func (x *Int32) Add(b int32) int32              { p(x); return x.v.Add(b) }
func (x *Int32) Swap(b int32) int32             { p(x); return x.v.Swap(b) }
func (x *Int32) CompareAndSwap(o, n int32) bool { p(x); return x.v.CompareAndSwap(o, n) }

type Int64 struct{ v atomic.Int64 }

func (x *Int64) Load() int64                    { p(x); return x.v.Load() }
func (x *Int64) Store(b int64)                  { p(x); x.v.Store(b) }
func (x *Int64) Add(b int64) int64              { p(x); return x.v.Add(b) }
func (x *Int64) Swap(b int64) int64             { p(x); return x.v.Swap(b) }
func (x *Int64) CompareAndSwap(o, n int64) bool { p(x); return x.v.CompareAndSwap(o, n) }

type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Load() uint32                    { p(x); return x.v.Load() }
func (x *Uint32) Store(b uint32)                  { p(x); x.v.Store(b) }
func (x *Uint32) Add(b uint32) uint32             { p(x); return x.v.Add(b) }
func (x *Uint32) Swap(b uint32) uint32            { p(x); return x.v.Swap(b) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { p(x); return x.v.CompareAndSwap(o, n) }

type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Load() uint64                    { p(x); return x.v.Load() }
func (x *Uint64) Store(b uint64)                  { p(x); x.v.Store(b) }
func (x *Uint64) Add(b uint64) uint64             { p(x); return x.v.Add(b) }
func (x *Uint64) Swap(b uint64) uint64            { p(x); return x.v.Swap(b) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { p(x); return x.v.CompareAndSwap(o, n) }

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { p(x); return x.v.Load() }
func (x *Pointer[T]) Store(b *T)                  { p(x); x.v.Store(b) }
func (x *Pointer[T]) Swap(b *T) *T                { p(x); return x.v.Swap(b) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool { p(x); return x.v.CompareAndSwap(o, n) }

type Value struct{ v atomic.Value }

func (x *Value) Load() any                    { p(x); return x.v.Load() }
func (x *Value) Store(b any)                  { p(x); x.v.Store(b) }
func (x *Value) Swap(b any) any               { p(x); return x.v.Swap(b) }
func (x *Value) CompareAndSwap(o, n any) bool { p(x); return x.v.CompareAndSwap(o, n) }
