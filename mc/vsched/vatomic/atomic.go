// Package vatomic has the functions of package sync/atomic, run by the scheduler of package vsched.
package vatomic

import (
	"unsafe"

	s "verif/mc/vsched"
)

type box struct{ o s.Obj }

func step(o *s.Obj, what string, class uint8) {
	t := s.Event(what, 50, nil, s.Access{O: o, Class: class})
	t.Acquire(o)
	if class == s.Excl {
		t.Release(o)
	}
}

// plain variables used with the functions
var (
	objs  = map[unsafe.Pointer]*box{}
	objsR *s.Run
)

func obj(p unsafe.Pointer) *s.Obj {
	if objsR != s.R0 {
		objs, objsR = map[unsafe.Pointer]*box{}, s.R0
	}
	b := objs[p]
	if b == nil {
		b = &box{}
		objs[p] = b
	}
	return &b.o
}

func load[T any](p *T) T { step(obj(unsafe.Pointer(p)), "atomic.Load", 1); return *p }
func store[T any](p *T, v T) {
	step(obj(unsafe.Pointer(p)), "atomic.Store", s.Excl)
	*p = v
}
func swap[T any](p *T, v T) T {
	step(obj(unsafe.Pointer(p)), "atomic.Swap", s.Excl)
	o := *p
	*p = v
	return o
}
func cas[T comparable](p *T, o, v T) bool {
	step(obj(unsafe.Pointer(p)), "atomic.CompareAndSwap", s.Excl)
	if *p != o {
		return false
	}
	*p = v
	return true
}

type num interface {
	~int32 | ~int64 | ~uint32 | ~uint64 | ~uintptr
}

func add[T num](p *T, d T) T {
	step(obj(unsafe.Pointer(p)), "atomic.Add", s.Excl)
	*p += d
	return *p
}

func LoadInt32(p *int32) int32                         { return load(p) }
func LoadInt64(p *int64) int64                         { return load(p) }
func LoadUint32(p *uint32) uint32                      { return load(p) }
func LoadUint64(p *uint64) uint64                      { return load(p) }
func StoreInt32(p *int32, v int32)                     { store(p, v) }
func StoreInt64(p *int64, v int64)                     { store(p, v) }
func StoreUint32(p *uint32, v uint32)                  { store(p, v) }
func StoreUint64(p *uint64, v uint64)                  { store(p, v) }
func SwapInt32(p *int32, v int32) int32                { return swap(p, v) }
func SwapInt64(p *int64, v int64) int64                { return swap(p, v) }
func SwapUint32(p *uint32, v uint32) uint32            { return swap(p, v) }
func SwapUint64(p *uint64, v uint64) uint64            { return swap(p, v) }
func CompareAndSwapInt32(p *int32, o, v int32) bool    { return cas(p, o, v) }
func CompareAndSwapInt64(p *int64, o, v int64) bool    { return cas(p, o, v) }
func CompareAndSwapUint32(p *uint32, o, v uint32) bool { return cas(p, o, v) }
func CompareAndSwapUint64(p *uint64, o, v uint64) bool { return cas(p, o, v) }
func AddInt32(p *int32, d int32) int32                 { return add(p, d) }
func AddInt64(p *int64, d int64) int64                 { return add(p, d) }
func AddUint32(p *uint32, d uint32) uint32             { return add(p, d) }
func AddUint64(p *uint64, d uint64) uint64             { return add(p, d) }

type val[T comparable] struct{ v T }

func (x *val[T]) Load() T                    { return load(&x.v) }
func (x *val[T]) Store(v T)                  { store(&x.v, v) }
func (x *val[T]) Swap(v T) T                 { return swap(&x.v, v) }
func (x *val[T]) CompareAndSwap(o, v T) bool { return cas(&x.v, o, v) }

type Int32 struct{ val[int32] }
type Int64 struct{ val[int64] }
type Uint32 struct{ val[uint32] }
type Uint64 struct{ val[uint64] }
type Bool struct{ val[bool] }
type Value struct{ val[any] }
type Pointer[T any] struct{ val[*T] }

func (x *Int32) Add(d int32) int32    { return add(&x.v, d) }
func (x *Int64) Add(d int64) int64    { return add(&x.v, d) }
func (x *Uint32) Add(d uint32) uint32 { return add(&x.v, d) }
func (x *Uint64) Add(d uint64) uint64 { return add(&x.v, d) }
