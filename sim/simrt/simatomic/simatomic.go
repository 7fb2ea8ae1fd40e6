// Package simatomic stands in for package sync/atomic inside the simulator.
package simatomic

import (
	"simrt"
	"unsafe"
)

func at(p unsafe.Pointer) {
	if w := simrt.W; w != nil && w.Cur() != nil {
		w.Yield()
		v := w.SyncAt(p)
		w.Acquire(v)
		w.Release(v)
	}
}

type integer interface {
	~int32 | ~int64 | ~uint32 | ~uint64 | ~uintptr
}

func add[T integer](p *T, d T) T { at(unsafe.Pointer(p)); *p += d; return *p }
func load[T any](p *T) T         { at(unsafe.Pointer(p)); return *p }
func store[T any](p *T, v T)     { at(unsafe.Pointer(p)); *p = v }
func swap[T any](p *T, v T) T    { at(unsafe.Pointer(p)); o := *p; *p = v; return o }
func cas[T comparable](p *T, o, n T) bool {
	at(unsafe.Pointer(p))
	if *p == o {
		*p = n
		return true
	}
	return false
}
func and[T integer](p *T, m T) T { at(unsafe.Pointer(p)); o := *p; *p &= m; return o }
func or[T integer](p *T, m T) T  { at(unsafe.Pointer(p)); o := *p; *p |= m; return o }

type Bool struct{ v bool }

func (x *Bool) Load() bool                    { return load(&x.v) }
func (x *Bool) Store(v bool)                  { store(&x.v, v) }
func (x *Bool) Swap(v bool) bool              { return swap(&x.v, v) }
func (x *Bool) CompareAndSwap(o, n bool) bool { return cas(&x.v, o, n) }

type Pointer[T any] struct{ p *T }

func (x *Pointer[T]) Load() *T                    { return load(&x.p) }
func (x *Pointer[T]) Store(v *T)                  { store(&x.p, v) }
func (x *Pointer[T]) Swap(v *T) *T                { return swap(&x.p, v) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool { return cas(&x.p, o, n) }

type Value struct{ v any }

func (x *Value) Load() any                    { return load(&x.v) }
func (x *Value) Store(v any)                  { store(&x.v, v) }
func (x *Value) Swap(v any) any               { return swap(&x.v, v) }
func (x *Value) CompareAndSwap(o, n any) bool { return cas(&x.v, o, n) }
