// Package atomic stands in for sync/atomic in the instrumented copy: every
// operation is announced to the scheduler, then performed by the real one (so
// that alignment faults of 32-bit targets still show).
package atomic

import (
	"sync/atomic"
	"unsafe"

	"verif.local/mc/vs"
)

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func LoadInt32(p *int32) int32 {
	vs.E.Pre(vs.KLoad, unsafe.Pointer(p), 0)
	v := atomic.LoadInt32(p)
	vs.E.Post(uint64(v), false)
	return v
}

func StoreInt32(p *int32, v int32) {
	vs.E.Pre(vs.KStore, unsafe.Pointer(p), 0)
	if vs.E.Aborting() {
		return
	}
	atomic.StoreInt32(p, v)
	vs.E.Post(uint64(v), true)
}

func AddInt32(p *int32, d int32) int32 {
	vs.E.Pre(vs.KRMW, unsafe.Pointer(p), 0)
	v := atomic.AddInt32(p, d)
	vs.E.Post(uint64(v), true)
	return v
}

func SwapInt32(p *int32, n int32) int32 {
	vs.E.Pre(vs.KRMW, unsafe.Pointer(p), 0)
	v := atomic.SwapInt32(p, n)
	vs.E.Post(uint64(v), true)
	return v
}

func CompareAndSwapInt32(p *int32, o, n int32) bool {
	vs.E.Pre(vs.KRMW, unsafe.Pointer(p), 0)
	ok := atomic.CompareAndSwapInt32(p, o, n)
	vs.E.Post(b2u(ok), ok)
	return ok
}

func AndInt32(p *int32, m int32) int32 {
	vs.E.Pre(vs.KRMW, unsafe.Pointer(p), 0)
	v := atomic.AndInt32(p, m)
	vs.E.Post(uint64(v), true)
	return v
}

func OrInt32(p *int32, m int32) int32 {
	vs.E.Pre(vs.KRMW, unsafe.Pointer(p), 0)
	v := atomic.OrInt32(p, m)
	vs.E.Post(uint64(v), true)
	return v
}

type Int32 struct {
	v int32
}

func (x *Int32) Load() int32                    { return LoadInt32(&x.v) }
func (x *Int32) Store(v int32)                  { StoreInt32(&x.v, v) }
func (x *Int32) Add(d int32) int32              { return AddInt32(&x.v, d) }
func (x *Int32) Swap(n int32) int32             { return SwapInt32(&x.v, n) }
func (x *Int32) CompareAndSwap(o, n int32) bool { return CompareAndSwapInt32(&x.v, o, n) }
func (x *Int32) And(m int32) int32              { return AndInt32(&x.v, m) }
func (x *Int32) Or(m int32) int32               { return OrInt32(&x.v, m) }

func LoadInt64(p *int64) int64 {
	vs.E.Pre(vs.KLoad, unsafe.Pointer(p), 0)
	v := atomic.LoadInt64(p)
	vs.E.Post(uint64(v), false)
	return v
}

func StoreInt64(p *int64, v int64) {
	vs.E.Pre(vs.KStore, unsafe.Pointer(p), 0)
	if vs.E.Aborting() {
		return
	}
	atomic.StoreInt64(p, v)
	vs.E.Post(uint64(v), true)
}

func AddInt64(p *int64, d int64) int64 {
	vs.E.Pre(vs.KRMW, unsafe.Pointer(p), 0)
	v := atomic.AddInt64(p, d)
	vs.E.Post(uint64(v), true)
	return v
}

func SwapInt64(p *int64, n int64) int64 {
	vs.E.Pre(vs.KRMW, unsafe.Pointer(p), 0)
	v := atomic.SwapInt64(p, n)
	vs.E.Post(uint64(v), true)
	return v
}

func CompareAndSwapInt64(p *int64, o, n int64) bool {
	vs.E.Pre(vs.KRMW, unsafe.Pointer(p), 0)
	ok := atomic.CompareAndSwapInt64(p, o, n)
	vs.E.Post(b2u(ok), ok)
	return ok
}

func AndInt64(p *int64, m int64) int64 {
	vs.E.Pre(vs.KRMW, unsafe.Pointer(p), 0)
	v := atomic.AndInt64(p, m)
	vs.E.Post(uint64(v), true)
	return v
}

func OrInt64(p *int64, m int64) int64 {
	vs.E.Pre(vs.KRMW, unsafe.Pointer(p), 0)
	v := atomic.OrInt64(p, m)
	vs.E.Post(uint64(v), true)
	return v
}

// Int64 embeds the real type, which the compiler aligns on 32-bit targets.
type Int64 struct{ a atomic.Int64 }

func (x *Int64) p() *int64 { return (*int64)(unsafe.Pointer(&x.a)) }

func (x *Int64) Load() int64                    { return LoadInt64(x.p()) }
func (x *Int64) Store(v int64)                  { StoreInt64(x.p(), v) }
func (x *Int64) Add(d int64) int64              { return AddInt64(x.p(), d) }
func (x *Int64) Swap(n int64) int64             { return SwapInt64(x.p(), n) }
func (x *Int64) CompareAndSwap(o, n int64) bool { return CompareAndSwapInt64(x.p(), o, n) }
func (x *Int64) And(m int64) int64              { return AndInt64(x.p(), m) }
func (x *Int64) Or(m int64) int64               { return OrInt64(x.p(), m) }

func LoadUint32(p *uint32) uint32 {
	vs.E.Pre(vs.KLoad, unsafe.Pointer(p), 0)
	v := atomic.LoadUint32(p)
	vs.E.Post(uint64(v), false)
	return v
}

func StoreUint32(p *uint32, v uint32) {
	vs.E.Pre(vs.KStore, unsafe.Pointer(p), 0)
	if vs.E.Aborting() {
		return
	}
	atomic.StoreUint32(p, v)
	vs.E.Post(uint64(v), true)
}

func AddUint32(p *uint32, d uint32) uint32 {
	vs.E.Pre(vs.KRMW, unsafe.Pointer(p), 0)
	v := atomic.AddUint32(p, d)
	vs.E.Post(uint64(v), true)
	return v
}

func SwapUint32(p *uint32, n uint32) uint32 {
	vs.E.Pre(vs.KRMW, unsafe.Pointer(p), 0)
	v := atomic.SwapUint32(p, n)
	vs.E.Post(uint64(v), true)
	return v
}

func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	vs.E.Pre(vs.KRMW, unsafe.Pointer(p), 0)
	ok := atomic.CompareAndSwapUint32(p, o, n)
	vs.E.Post(b2u(ok), ok)
	return ok
}

func AndUint32(p *uint32, m uint32) uint32 {
	vs.E.Pre(vs.KRMW, unsafe.Pointer(p), 0)
	v := atomic.AndUint32(p, m)
	vs.E.Post(uint64(v), true)
	return v
}

func OrUint32(p *uint32, m uint32) uint32 {
	vs.E.Pre(vs.KRMW, unsafe.Pointer(p), 0)
	v := atomic.OrUint32(p, m)
	vs.E.Post(uint64(v), true)
	return v
}

type Uint32 struct {
	v uint32
}

func (x *Uint32) Load() uint32                    { return LoadUint32(&x.v) }
func (x *Uint32) Store(v uint32)                  { StoreUint32(&x.v, v) }
func (x *Uint32) Add(d uint32) uint32             { return AddUint32(&x.v, d) }
func (x *Uint32) Swap(n uint32) uint32            { return SwapUint32(&x.v, n) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { return CompareAndSwapUint32(&x.v, o, n) }
func (x *Uint32) And(m uint32) uint32             { return AndUint32(&x.v, m) }
func (x *Uint32) Or(m uint32) uint32              { return OrUint32(&x.v, m) }

func LoadUint64(p *uint64) uint64 {
	vs.E.Pre(vs.KLoad, unsafe.Pointer(p), 0)
	v := atomic.LoadUint64(p)
	vs.E.Post(uint64(v), false)
	return v
}

func StoreUint64(p *uint64, v uint64) {
	vs.E.Pre(vs.KStore, unsafe.Pointer(p), 0)
	if vs.E.Aborting() {
		return
	}
	atomic.StoreUint64(p, v)
	vs.E.Post(uint64(v), true)
}

func AddUint64(p *uint64, d uint64) uint64 {
	vs.E.Pre(vs.KRMW, unsafe.Pointer(p), 0)
	v := atomic.AddUint64(p, d)
	vs.E.Post(uint64(v), true)
	return v
}

func SwapUint64(p *uint64, n uint64) uint64 {
	vs.E.Pre(vs.KRMW, unsafe.Pointer(p), 0)
	v := atomic.SwapUint64(p, n)
	vs.E.Post(uint64(v), true)
	return v
}

func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	vs.E.Pre(vs.KRMW, unsafe.Pointer(p), 0)
	ok := atomic.CompareAndSwapUint64(p, o, n)
	vs.E.Post(b2u(ok), ok)
	return ok
}

func AndUint64(p *uint64, m uint64) uint64 {
	vs.E.Pre(vs.KRMW, unsafe.Pointer(p), 0)
	v := atomic.AndUint64(p, m)
	vs.E.Post(uint64(v), true)
	return v
}

func OrUint64(p *uint64, m uint64) uint64 {
	vs.E.Pre(vs.KRMW, unsafe.Pointer(p), 0)
	v := atomic.OrUint64(p, m)
	vs.E.Post(uint64(v), true)
	return v
}

// Uint64 embeds the real type, which the compiler aligns on 32-bit targets.
type Uint64 struct{ a atomic.Uint64 }

func (x *Uint64) p() *uint64 { return (*uint64)(unsafe.Pointer(&x.a)) }

func (x *Uint64) Load() uint64                    { return LoadUint64(x.p()) }
func (x *Uint64) Store(v uint64)                  { StoreUint64(x.p(), v) }
func (x *Uint64) Add(d uint64) uint64             { return AddUint64(x.p(), d) }
func (x *Uint64) Swap(n uint64) uint64            { return SwapUint64(x.p(), n) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { return CompareAndSwapUint64(x.p(), o, n) }
func (x *Uint64) And(m uint64) uint64             { return AndUint64(x.p(), m) }
func (x *Uint64) Or(m uint64) uint64              { return OrUint64(x.p(), m) }

func LoadUintptr(p *uintptr) uintptr {
	vs.E.Pre(vs.KLoad, unsafe.Pointer(p), 0)
	v := atomic.LoadUintptr(p)
	vs.E.Post(uint64(v), false)
	return v
}

func StoreUintptr(p *uintptr, v uintptr) {
	vs.E.Pre(vs.KStore, unsafe.Pointer(p), 0)
	if vs.E.Aborting() {
		return
	}
	atomic.StoreUintptr(p, v)
	vs.E.Post(uint64(v), true)
}

func AddUintptr(p *uintptr, d uintptr) uintptr {
	vs.E.Pre(vs.KRMW, unsafe.Pointer(p), 0)
	v := atomic.AddUintptr(p, d)
	vs.E.Post(uint64(v), true)
	return v
}

func SwapUintptr(p *uintptr, n uintptr) uintptr {
	vs.E.Pre(vs.KRMW, unsafe.Pointer(p), 0)
	v := atomic.SwapUintptr(p, n)
	vs.E.Post(uint64(v), true)
	return v
}

func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	vs.E.Pre(vs.KRMW, unsafe.Pointer(p), 0)
	ok := atomic.CompareAndSwapUintptr(p, o, n)
	vs.E.Post(b2u(ok), ok)
	return ok
}

func AndUintptr(p *uintptr, m uintptr) uintptr {
	vs.E.Pre(vs.KRMW, unsafe.Pointer(p), 0)
	v := atomic.AndUintptr(p, m)
	vs.E.Post(uint64(v), true)
	return v
}

func OrUintptr(p *uintptr, m uintptr) uintptr {
	vs.E.Pre(vs.KRMW, unsafe.Pointer(p), 0)
	v := atomic.OrUintptr(p, m)
	vs.E.Post(uint64(v), true)
	return v
}

type Uintptr struct {
	v uintptr
}

func (x *Uintptr) Load() uintptr                    { return LoadUintptr(&x.v) }
func (x *Uintptr) Store(v uintptr)                  { StoreUintptr(&x.v, v) }
func (x *Uintptr) Add(d uintptr) uintptr            { return AddUintptr(&x.v, d) }
func (x *Uintptr) Swap(n uintptr) uintptr           { return SwapUintptr(&x.v, n) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { return CompareAndSwapUintptr(&x.v, o, n) }
func (x *Uintptr) And(m uintptr) uintptr            { return AndUintptr(&x.v, m) }
func (x *Uintptr) Or(m uintptr) uintptr             { return OrUintptr(&x.v, m) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer {
	vs.E.Pre(vs.KLoad, unsafe.Pointer(p), 0)
	v := atomic.LoadPointer(p)
	vs.E.Post(uint64(uintptr(v)), false)
	return v
}

func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) {
	vs.E.Pre(vs.KStore, unsafe.Pointer(p), 0)
	if vs.E.Aborting() {
		return
	}
	atomic.StorePointer(p, v)
	vs.E.Post(uint64(uintptr(v)), true)
}

func SwapPointer(p *unsafe.Pointer, n unsafe.Pointer) unsafe.Pointer {
	vs.E.Pre(vs.KRMW, unsafe.Pointer(p), 0)
	v := atomic.SwapPointer(p, n)
	vs.E.Post(uint64(uintptr(v)), true)
	return v
}

func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	vs.E.Pre(vs.KRMW, unsafe.Pointer(p), 0)
	ok := atomic.CompareAndSwapPointer(p, o, n)
	vs.E.Post(b2u(ok), ok)
	return ok
}

// Pointer mirrors atomic.Pointer.
type Pointer[T any] struct {
	_ [0]*T
	v unsafe.Pointer
}

func (x *Pointer[T]) Load() *T     { return (*T)(LoadPointer(&x.v)) }
func (x *Pointer[T]) Store(v *T)   { StorePointer(&x.v, unsafe.Pointer(v)) }
func (x *Pointer[T]) Swap(n *T) *T { return (*T)(SwapPointer(&x.v, unsafe.Pointer(n))) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	return CompareAndSwapPointer(&x.v, unsafe.Pointer(o), unsafe.Pointer(n))
}

// Bool mirrors atomic.Bool.
type Bool struct{ v uint32 }

func (x *Bool) Load() bool       { return LoadUint32(&x.v) != 0 }
func (x *Bool) Store(v bool)     { StoreUint32(&x.v, uint32(b2u(v))) }
func (x *Bool) Swap(n bool) bool { return SwapUint32(&x.v, uint32(b2u(n))) != 0 }
func (x *Bool) CompareAndSwap(o, n bool) bool {
	return CompareAndSwapUint32(&x.v, uint32(b2u(o)), uint32(b2u(n)))
}

// Value mirrors atomic.Value.
type Value struct{ v atomic.Value }

func (x *Value) Load() any {
	vs.E.Pre(vs.KLoad, unsafe.Pointer(x), 0)
	v := x.v.Load()
	vs.E.Post(uint64(uintptr((*[2]unsafe.Pointer)(unsafe.Pointer(&v))[1])), false)
	return v
}

func (x *Value) Store(v any) {
	vs.E.Pre(vs.KStore, unsafe.Pointer(x), 0)
	if vs.E.Aborting() {
		return
	}
	x.v.Store(v)
	vs.E.Post(0, true)
}

func (x *Value) Swap(n any) any {
	vs.E.Pre(vs.KRMW, unsafe.Pointer(x), 0)
	v := x.v.Swap(n)
	vs.E.Post(0, true)
	return v
}

func (x *Value) CompareAndSwap(o, n any) bool {
	vs.E.Pre(vs.KRMW, unsafe.Pointer(x), 0)
	ok := x.v.CompareAndSwap(o, n)
	vs.E.Post(b2u(ok), ok)
	return ok
}
