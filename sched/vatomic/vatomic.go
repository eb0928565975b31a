// Package atomic stands for the standard package in rewritten sources
package atomic

import (
	"unsafe"

	"github.com/dmitryikh/leaves/zzverif/vsched"
)

//go:norace
func LoadInt32(p *int32) int32 {
	vsched.AtomicAt(unsafe.Pointer(p)).Atomic(0)
	return *p
}

//go:norace
func StoreInt32(p *int32, v int32) {
	vsched.AtomicAt(unsafe.Pointer(p)).Atomic(1)
	*p = v
}

//go:norace
func AddInt32(p *int32, d int32) int32 {
	vsched.AtomicAt(unsafe.Pointer(p)).Atomic(2)
	*p += d
	return *p
}

//go:norace
func SwapInt32(p *int32, v int32) int32 {
	vsched.AtomicAt(unsafe.Pointer(p)).Atomic(2)
	old := *p
	*p = v
	return old
}

//go:norace
func CompareAndSwapInt32(p *int32, old, v int32) bool {
	vsched.AtomicAt(unsafe.Pointer(p)).Atomic(2)
	if *p != old {
		return false
	}
	*p = v
	return true
}

// Int32 as in the standard package
type Int32 struct {
	o vsched.Obj
	v int32
}

//go:norace
func (x *Int32) Load() int32 {
	x.o.Atomic(0)
	return x.v
}

//go:norace
func (x *Int32) Store(v int32) {
	x.o.Atomic(1)
	x.v = v
}

//go:norace
func (x *Int32) Add(d int32) int32 {
	x.o.Atomic(2)
	x.v += d
	return x.v
}

//go:norace
func (x *Int32) Swap(v int32) int32 {
	x.o.Atomic(2)
	old := x.v
	x.v = v
	return old
}

//go:norace
func (x *Int32) CompareAndSwap(old, v int32) bool {
	x.o.Atomic(2)
	if x.v != old {
		return false
	}
	x.v = v
	return true
}

//go:norace
func LoadInt64(p *int64) int64 {
	vsched.AtomicAt(unsafe.Pointer(p)).Atomic(0)
	return *p
}

//go:norace
func StoreInt64(p *int64, v int64) {
	vsched.AtomicAt(unsafe.Pointer(p)).Atomic(1)
	*p = v
}

//go:norace
func AddInt64(p *int64, d int64) int64 {
	vsched.AtomicAt(unsafe.Pointer(p)).Atomic(2)
	*p += d
	return *p
}

//go:norace
func SwapInt64(p *int64, v int64) int64 {
	vsched.AtomicAt(unsafe.Pointer(p)).Atomic(2)
	old := *p
	*p = v
	return old
}

//go:norace
func CompareAndSwapInt64(p *int64, old, v int64) bool {
	vsched.AtomicAt(unsafe.Pointer(p)).Atomic(2)
	if *p != old {
		return false
	}
	*p = v
	return true
}

// Int64 as in the standard package
type Int64 struct {
	o vsched.Obj
	v int64
}

//go:norace
func (x *Int64) Load() int64 {
	x.o.Atomic(0)
	return x.v
}

//go:norace
func (x *Int64) Store(v int64) {
	x.o.Atomic(1)
	x.v = v
}

//go:norace
func (x *Int64) Add(d int64) int64 {
	x.o.Atomic(2)
	x.v += d
	return x.v
}

//go:norace
func (x *Int64) Swap(v int64) int64 {
	x.o.Atomic(2)
	old := x.v
	x.v = v
	return old
}

//go:norace
func (x *Int64) CompareAndSwap(old, v int64) bool {
	x.o.Atomic(2)
	if x.v != old {
		return false
	}
	x.v = v
	return true
}

//go:norace
func LoadUint32(p *uint32) uint32 {
	vsched.AtomicAt(unsafe.Pointer(p)).Atomic(0)
	return *p
}

//go:norace
func StoreUint32(p *uint32, v uint32) {
	vsched.AtomicAt(unsafe.Pointer(p)).Atomic(1)
	*p = v
}

//go:norace
func AddUint32(p *uint32, d uint32) uint32 {
	vsched.AtomicAt(unsafe.Pointer(p)).Atomic(2)
	*p += d
	return *p
}

//go:norace
func SwapUint32(p *uint32, v uint32) uint32 {
	vsched.AtomicAt(unsafe.Pointer(p)).Atomic(2)
	old := *p
	*p = v
	return old
}

//go:norace
func CompareAndSwapUint32(p *uint32, old, v uint32) bool {
	vsched.AtomicAt(unsafe.Pointer(p)).Atomic(2)
	if *p != old {
		return false
	}
	*p = v
	return true
}

// Uint32 as in the standard package
type Uint32 struct {
	o vsched.Obj
	v uint32
}

//go:norace
func (x *Uint32) Load() uint32 {
	x.o.Atomic(0)
	return x.v
}

//go:norace
func (x *Uint32) Store(v uint32) {
	x.o.Atomic(1)
	x.v = v
}

//go:norace
func (x *Uint32) Add(d uint32) uint32 {
	x.o.Atomic(2)
	x.v += d
	return x.v
}

//go:norace
func (x *Uint32) Swap(v uint32) uint32 {
	x.o.Atomic(2)
	old := x.v
	x.v = v
	return old
}

//go:norace
func (x *Uint32) CompareAndSwap(old, v uint32) bool {
	x.o.Atomic(2)
	if x.v != old {
		return false
	}
	x.v = v
	return true
}

//go:norace
func LoadUint64(p *uint64) uint64 {
	vsched.AtomicAt(unsafe.Pointer(p)).Atomic(0)
	return *p
}

//go:norace
func StoreUint64(p *uint64, v uint64) {
	vsched.AtomicAt(unsafe.Pointer(p)).Atomic(1)
	*p = v
}

//go:norace
func AddUint64(p *uint64, d uint64) uint64 {
	vsched.AtomicAt(unsafe.Pointer(p)).Atomic(2)
	*p += d
	return *p
}

//go:norace
func SwapUint64(p *uint64, v uint64) uint64 {
	vsched.AtomicAt(unsafe.Pointer(p)).Atomic(2)
	old := *p
	*p = v
	return old
}

//go:norace
func CompareAndSwapUint64(p *uint64, old, v uint64) bool {
	vsched.AtomicAt(unsafe.Pointer(p)).Atomic(2)
	if *p != old {
		return false
	}
	*p = v
	return true
}

// Uint64 as in the standard package
type Uint64 struct {
	o vsched.Obj
	v uint64
}

//go:norace
func (x *Uint64) Load() uint64 {
	x.o.Atomic(0)
	return x.v
}

//go:norace
func (x *Uint64) Store(v uint64) {
	x.o.Atomic(1)
	x.v = v
}

//go:norace
func (x *Uint64) Add(d uint64) uint64 {
	x.o.Atomic(2)
	x.v += d
	return x.v
}

//go:norace
func (x *Uint64) Swap(v uint64) uint64 {
	x.o.Atomic(2)
	old := x.v
	x.v = v
	return old
}

//go:norace
func (x *Uint64) CompareAndSwap(old, v uint64) bool {
	x.o.Atomic(2)
	if x.v != old {
		return false
	}
	x.v = v
	return true
}

//go:norace
func LoadUintptr(p *uintptr) uintptr {
	vsched.AtomicAt(unsafe.Pointer(p)).Atomic(0)
	return *p
}

//go:norace
func StoreUintptr(p *uintptr, v uintptr) {
	vsched.AtomicAt(unsafe.Pointer(p)).Atomic(1)
	*p = v
}

//go:norace
func AddUintptr(p *uintptr, d uintptr) uintptr {
	vsched.AtomicAt(unsafe.Pointer(p)).Atomic(2)
	*p += d
	return *p
}

//go:norace
func SwapUintptr(p *uintptr, v uintptr) uintptr {
	vsched.AtomicAt(unsafe.Pointer(p)).Atomic(2)
	old := *p
	*p = v
	return old
}

//go:norace
func CompareAndSwapUintptr(p *uintptr, old, v uintptr) bool {
	vsched.AtomicAt(unsafe.Pointer(p)).Atomic(2)
	if *p != old {
		return false
	}
	*p = v
	return true
}

// Uintptr as in the standard package
type Uintptr struct {
	o vsched.Obj
	v uintptr
}

//go:norace
func (x *Uintptr) Load() uintptr {
	x.o.Atomic(0)
	return x.v
}

//go:norace
func (x *Uintptr) Store(v uintptr) {
	x.o.Atomic(1)
	x.v = v
}

//go:norace
func (x *Uintptr) Add(d uintptr) uintptr {
	x.o.Atomic(2)
	x.v += d
	return x.v
}

//go:norace
func (x *Uintptr) Swap(v uintptr) uintptr {
	x.o.Atomic(2)
	old := x.v
	x.v = v
	return old
}

//go:norace
func (x *Uintptr) CompareAndSwap(old, v uintptr) bool {
	x.o.Atomic(2)
	if x.v != old {
		return false
	}
	x.v = v
	return true
}

// Bool as in the standard package
type Bool struct {
	o vsched.Obj
	v bool
}

//go:norace
func (x *Bool) Load() bool {
	x.o.Atomic(0)
	return x.v
}

//go:norace
func (x *Bool) Store(v bool) {
	x.o.Atomic(1)
	x.v = v
}

//go:norace
func (x *Bool) Swap(v bool) bool {
	x.o.Atomic(2)
	old := x.v
	x.v = v
	return old
}

//go:norace
func (x *Bool) CompareAndSwap(old, v bool) bool {
	x.o.Atomic(2)
	if x.v != old {
		return false
	}
	x.v = v
	return true
}

// Value as in the standard package
type Value struct {
	o vsched.Obj
	v interface{}
}

//go:norace
func (x *Value) Load() interface{} {
	x.o.Atomic(0)
	return x.v
}

//go:norace
func (x *Value) Store(v interface{}) {
	x.o.Atomic(1)
	x.v = v
}

// Pointer as in the standard package
type Pointer[T any] struct {
	o vsched.Obj
	v *T
}

//go:norace
func (x *Pointer[T]) Load() *T {
	x.o.Atomic(0)
	return x.v
}

//go:norace
func (x *Pointer[T]) Store(v *T) {
	x.o.Atomic(1)
	x.v = v
}

//go:norace
func (x *Pointer[T]) Swap(v *T) *T {
	x.o.Atomic(2)
	old := x.v
	x.v = v
	return old
}

//go:norace
func (x *Pointer[T]) CompareAndSwap(old, v *T) bool {
	x.o.Atomic(2)
	if x.v != old {
		return false
	}
	x.v = v
	return true
}
