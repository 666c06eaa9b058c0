//go:build go1.22

// Package matomic replaces package sync/atomic in rewritten code.
package matomic

import (
	"unsafe"

	"github.com/chanjarster/gears/zverif/mc"
)

func op[T any](p *T, k byte) { mc.AtomicOp(unsafe.Pointer(p), unsafe.Sizeof(*p), k) }

func cas[T comparable](p *T, old, new T) bool {
	op(p, 'm')
	if *p == old {
		*p = new
		return true
	}
	return false
}

func AddInt32(p *int32, d int32) int32                  { op(p, 'm'); *p += d; return *p }
func LoadInt32(p *int32) int32                          { op(p, 'r'); return *p }
func StoreInt32(p *int32, v int32)                      { op(p, 'w'); *p = v }
func SwapInt32(p *int32, v int32) int32                 { op(p, 'm'); o := *p; *p = v; return o }
func CompareAndSwapInt32(p *int32, old, new int32) bool { return cas(p, old, new) }
func AndInt32(p *int32, m int32) int32                  { op(p, 'm'); o := *p; *p = o & m; return o }
func OrInt32(p *int32, m int32) int32                   { op(p, 'm'); o := *p; *p = o | m; return o }

type Int32 struct{ v int32 }

func (a *Int32) Add(d int32) int32              { return AddInt32(&a.v, d) }
func (a *Int32) Load() int32                    { return LoadInt32(&a.v) }
func (a *Int32) Store(v int32)                  { StoreInt32(&a.v, v) }
func (a *Int32) Swap(v int32) int32             { return SwapInt32(&a.v, v) }
func (a *Int32) CompareAndSwap(o, n int32) bool { return CompareAndSwapInt32(&a.v, o, n) }
func (a *Int32) And(m int32) int32              { return AndInt32(&a.v, m) }
func (a *Int32) Or(m int32) int32               { return OrInt32(&a.v, m) }

func AddInt64(p *int64, d int64) int64                  { op(p, 'm'); *p += d; return *p }
func LoadInt64(p *int64) int64                          { op(p, 'r'); return *p }
func StoreInt64(p *int64, v int64)                      { op(p, 'w'); *p = v }
func SwapInt64(p *int64, v int64) int64                 { op(p, 'm'); o := *p; *p = v; return o }
func CompareAndSwapInt64(p *int64, old, new int64) bool { return cas(p, old, new) }
func AndInt64(p *int64, m int64) int64                  { op(p, 'm'); o := *p; *p = o & m; return o }
func OrInt64(p *int64, m int64) int64                   { op(p, 'm'); o := *p; *p = o | m; return o }

type Int64 struct{ v int64 }

func (a *Int64) Add(d int64) int64              { return AddInt64(&a.v, d) }
func (a *Int64) Load() int64                    { return LoadInt64(&a.v) }
func (a *Int64) Store(v int64)                  { StoreInt64(&a.v, v) }
func (a *Int64) Swap(v int64) int64             { return SwapInt64(&a.v, v) }
func (a *Int64) CompareAndSwap(o, n int64) bool { return CompareAndSwapInt64(&a.v, o, n) }
func (a *Int64) And(m int64) int64              { return AndInt64(&a.v, m) }
func (a *Int64) Or(m int64) int64               { return OrInt64(&a.v, m) }

func AddUint32(p *uint32, d uint32) uint32                 { op(p, 'm'); *p += d; return *p }
func LoadUint32(p *uint32) uint32                          { op(p, 'r'); return *p }
func StoreUint32(p *uint32, v uint32)                      { op(p, 'w'); *p = v }
func SwapUint32(p *uint32, v uint32) uint32                { op(p, 'm'); o := *p; *p = v; return o }
func CompareAndSwapUint32(p *uint32, old, new uint32) bool { return cas(p, old, new) }
func AndUint32(p *uint32, m uint32) uint32                 { op(p, 'm'); o := *p; *p = o & m; return o }
func OrUint32(p *uint32, m uint32) uint32                  { op(p, 'm'); o := *p; *p = o | m; return o }

type Uint32 struct{ v uint32 }

func (a *Uint32) Add(d uint32) uint32             { return AddUint32(&a.v, d) }
func (a *Uint32) Load() uint32                    { return LoadUint32(&a.v) }
func (a *Uint32) Store(v uint32)                  { StoreUint32(&a.v, v) }
func (a *Uint32) Swap(v uint32) uint32            { return SwapUint32(&a.v, v) }
func (a *Uint32) CompareAndSwap(o, n uint32) bool { return CompareAndSwapUint32(&a.v, o, n) }
func (a *Uint32) And(m uint32) uint32             { return AndUint32(&a.v, m) }
func (a *Uint32) Or(m uint32) uint32              { return OrUint32(&a.v, m) }

func AddUint64(p *uint64, d uint64) uint64                 { op(p, 'm'); *p += d; return *p }
func LoadUint64(p *uint64) uint64                          { op(p, 'r'); return *p }
func StoreUint64(p *uint64, v uint64)                      { op(p, 'w'); *p = v }
func SwapUint64(p *uint64, v uint64) uint64                { op(p, 'm'); o := *p; *p = v; return o }
func CompareAndSwapUint64(p *uint64, old, new uint64) bool { return cas(p, old, new) }
func AndUint64(p *uint64, m uint64) uint64                 { op(p, 'm'); o := *p; *p = o & m; return o }
func OrUint64(p *uint64, m uint64) uint64                  { op(p, 'm'); o := *p; *p = o | m; return o }

type Uint64 struct{ v uint64 }

func (a *Uint64) Add(d uint64) uint64             { return AddUint64(&a.v, d) }
func (a *Uint64) Load() uint64                    { return LoadUint64(&a.v) }
func (a *Uint64) Store(v uint64)                  { StoreUint64(&a.v, v) }
func (a *Uint64) Swap(v uint64) uint64            { return SwapUint64(&a.v, v) }
func (a *Uint64) CompareAndSwap(o, n uint64) bool { return CompareAndSwapUint64(&a.v, o, n) }
func (a *Uint64) And(m uint64) uint64             { return AndUint64(&a.v, m) }
func (a *Uint64) Or(m uint64) uint64              { return OrUint64(&a.v, m) }

func AddUintptr(p *uintptr, d uintptr) uintptr                { op(p, 'm'); *p += d; return *p }
func LoadUintptr(p *uintptr) uintptr                          { op(p, 'r'); return *p }
func StoreUintptr(p *uintptr, v uintptr)                      { op(p, 'w'); *p = v }
func SwapUintptr(p *uintptr, v uintptr) uintptr               { op(p, 'm'); o := *p; *p = v; return o }
func CompareAndSwapUintptr(p *uintptr, old, new uintptr) bool { return cas(p, old, new) }
func AndUintptr(p *uintptr, m uintptr) uintptr                { op(p, 'm'); o := *p; *p = o & m; return o }
func OrUintptr(p *uintptr, m uintptr) uintptr                 { op(p, 'm'); o := *p; *p = o | m; return o }

type Uintptr struct{ v uintptr }

func (a *Uintptr) Add(d uintptr) uintptr            { return AddUintptr(&a.v, d) }
func (a *Uintptr) Load() uintptr                    { return LoadUintptr(&a.v) }
func (a *Uintptr) Store(v uintptr)                  { StoreUintptr(&a.v, v) }
func (a *Uintptr) Swap(v uintptr) uintptr           { return SwapUintptr(&a.v, v) }
func (a *Uintptr) CompareAndSwap(o, n uintptr) bool { return CompareAndSwapUintptr(&a.v, o, n) }
func (a *Uintptr) And(m uintptr) uintptr            { return AndUintptr(&a.v, m) }
func (a *Uintptr) Or(m uintptr) uintptr             { return OrUintptr(&a.v, m) }

type Bool struct{ v bool }

func (a *Bool) Load() bool                    { op(&a.v, 'r'); return a.v }
func (a *Bool) Store(v bool)                  { op(&a.v, 'w'); a.v = v }
func (a *Bool) Swap(v bool) bool              { op(&a.v, 'm'); o := a.v; a.v = v; return o }
func (a *Bool) CompareAndSwap(o, n bool) bool { return cas(&a.v, o, n) }

type Pointer[T any] struct{ v *T }

func (a *Pointer[T]) Load() *T                    { op(&a.v, 'r'); return a.v }
func (a *Pointer[T]) Store(v *T)                  { op(&a.v, 'w'); a.v = v }
func (a *Pointer[T]) Swap(v *T) *T                { op(&a.v, 'm'); o := a.v; a.v = v; return o }
func (a *Pointer[T]) CompareAndSwap(o, n *T) bool { return cas(&a.v, o, n) }

type Value struct{ v any }

func (a *Value) Load() any { op(&a.v, 'r'); return a.v }
func (a *Value) Store(v any) {
	if v == nil {
		panic("sync/atomic: store of nil value into Value")
	}
	op(&a.v, 'w')
	a.v = v
}
func (a *Value) Swap(v any) any               { op(&a.v, 'm'); o := a.v; a.v = v; return o }
func (a *Value) CompareAndSwap(o, n any) bool { return cas(&a.v, o, n) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { op(p, 'r'); return *p }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { op(p, 'w'); *p = v }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	op(p, 'm')
	o := *p
	*p = v
	return o
}
func CompareAndSwapPointer(p *unsafe.Pointer, old, new unsafe.Pointer) bool { return cas(p, old, new) }
