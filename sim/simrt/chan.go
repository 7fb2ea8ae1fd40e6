package simrt

import (
	"iter"
	"unsafe"
)

// Channels of the code under test are real channels, but no task ever blocks in
// one: a blocked operation is registered here and the scheduler decides.
// Rendezvous happens between registered operations.

type Case interface {
	key() unsafe.Pointer
	ready(self *waiter) bool // could complete now
	do(self *waiter)         // completes
}

type waiter struct {
	cases []Case
	fired int
}

// RecvC is one receive.
type RecvC[T any] struct {
	ch <-chan T
	V  T
	OK bool
}

// SendC is one send.
type SendC[T any] struct {
	ch chan<- T
	v  T
}

func RecvCase[T any](ch <-chan T) *RecvC[T]      { return &RecvC[T]{ch: ch} }
func SendCase[T any](ch chan<- T, v T) *SendC[T] { return &SendC[T]{ch, v} }

func (c *RecvC[T]) key() unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&c.ch)) }
func (c *SendC[T]) key() unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&c.ch)) }

func (w *World) sender(k unsafe.Pointer, self *waiter) (*waiter, int) {
	for _, o := range w.waiters {
		if o == self || o.fired >= 0 {
			continue
		}
		for i, x := range o.cases {
			if s, ok := x.(interface{ sends() }); ok && s != nil && x.key() == k {
				return o, i
			}
		}
	}
	return nil, 0
}

func (w *World) receiver(k unsafe.Pointer, self *waiter) (*waiter, int) {
	for _, o := range w.waiters {
		if o == self || o.fired >= 0 {
			continue
		}
		for i, x := range o.cases {
			if s, ok := x.(interface{ receives() }); ok && s != nil && x.key() == k {
				return o, i
			}
		}
	}
	return nil, 0
}

func (c *SendC[T]) sends()    {}
func (c *RecvC[T]) receives() {}

func (c *RecvC[T]) ready(self *waiter) bool {
	if c.ch == nil {
		return false
	}
	if len(c.ch) > 0 || W.closed[c.key()] {
		return true
	}
	if cap(c.ch) == 0 {
		o, _ := W.sender(c.key(), self)
		return o != nil
	}
	return false
}

func (c *RecvC[T]) do(self *waiter) {
	w := W
	if cap(c.ch) == 0 {
		if o, i := w.sender(c.key(), self); o != nil && !w.closed[c.key()] {
			c.V, c.OK = o.cases[i].(*SendC[T]).v, true
			o.fired = i
			w.Acquire(w.SyncAt(unsafe.Pointer(o)))
			w.Release(w.SyncAt(unsafe.Pointer(o)))
			return
		}
	}
	c.V, c.OK = <-c.ch
	w.Acquire(w.SyncAt(c.key()))
	w.Release(w.SyncAt(c.key()))
}

func (c *SendC[T]) ready(self *waiter) bool {
	if c.ch == nil {
		return false
	}
	if W.closed[c.key()] || len(c.ch) < cap(c.ch) {
		return true
	}
	if cap(c.ch) == 0 {
		o, _ := W.receiver(c.key(), self)
		return o != nil
	}
	return false
}

func (c *SendC[T]) do(self *waiter) {
	w := W
	if cap(c.ch) == 0 && !w.closed[c.key()] {
		o, i := w.receiver(c.key(), self)
		r := o.cases[i].(*RecvC[T])
		r.V, r.OK = c.v, true
		o.fired = i
		w.Acquire(w.SyncAt(unsafe.Pointer(o)))
		w.Release(w.SyncAt(unsafe.Pointer(o)))
		return
	}
	w.Acquire(w.SyncAt(c.key()))
	w.Release(w.SyncAt(c.key()))
	c.ch <- c.v // has room, or panics because it is closed
}

// Sel completes one of the cases and returns its index, or -1 when none can and
// def is set.
func Sel(def bool, cases ...Case) int {
	w := W
	if w == nil || w.cur == nil {
		return outsideSel(def, cases)
	}
	w.point(w.cur)
	if w.cur.unwinding {
		panic(Stop{"world ends"})
	}
	self := &waiter{cases: cases, fired: -1}
	try := func() int {
		var c []int
		for i, x := range cases {
			if x.ready(self) {
				c = append(c, i)
			}
		}
		if len(c) == 0 {
			return -1
		}
		if len(c) == 1 {
			return c[0]
		}
		return c[int(w.HashWord()%uint64(len(c)))]
	}
	i := try()
	if i < 0 && def {
		return -1
	}
	if i >= 0 {
		cases[i].do(self)
		return i
	}
	// a rendezvous orders each side's past before the other's future
	w.Release(w.SyncAt(unsafe.Pointer(self)))
	w.waiters = append(w.waiters, self)
	drop := func() {
		for i, o := range w.waiters {
			if o == self {
				w.waiters = append(w.waiters[:i:i], w.waiters[i+1:]...)
				break
			}
		}
	}
	defer drop()
	for self.fired < 0 {
		w.Block(func() bool {
			if self.fired >= 0 {
				return true
			}
			for _, x := range cases {
				if x.ready(self) {
					return true
				}
			}
			return false
		})
		if self.fired >= 0 {
			break
		}
		if i := try(); i >= 0 {
			self.fired = i
			cases[i].do(self)
			return i
		}
	}
	w.Acquire(w.SyncAt(unsafe.Pointer(self)))
	return self.fired
}

// Outside a run (package initialisation in the harness) operations that cannot
// complete at once have nobody to wait for.
func outsideSel(def bool, cases []Case) int {
	for i, x := range cases {
		if x.key() == nil {
			continue
		}
		if x.(interface{ now() bool }).now() {
			return i
		}
	}
	if def {
		return -1
	}
	panic("blocked outside a run")
}

func (c *RecvC[T]) now() bool {
	select {
	case c.V, c.OK = <-c.ch:
		return true
	default:
		return false
	}
}

func (c *SendC[T]) now() bool {
	select {
	case c.ch <- c.v:
		return true
	default:
		return false
	}
}

func Send[T any](ch chan<- T, v T) { Sel(false, SendCase(ch, v)) }
func Recv[T any](ch <-chan T) T    { v, _ := Recv2(ch); return v }
func Recv2[T any](ch <-chan T) (T, bool) {
	c := RecvCase(ch)
	Sel(false, c)
	return c.V, c.OK
}

// Close closes ch.
func Close[T any](ch chan<- T) {
	if w := W; w != nil && w.cur != nil && ch != nil {
		k := *(*unsafe.Pointer)(unsafe.Pointer(&ch))
		w.Release(w.SyncAt(k))
		close(ch)
		w.closed[k] = true
		w.held = append(w.held, ch)
		return
	}
	close(ch)
}

// ChanAll ranges over a channel.
func ChanAll[T any](ch <-chan T) iter.Seq[T] {
	return func(yield func(T) bool) {
		for {
			v, ok := Recv2(ch)
			if !ok || !yield(v) {
				return
			}
		}
	}
}

// Rec is what recover returned; the simulator's own unwinding goes on.
func Rec(v any) any {
	if s, ok := v.(Stop); ok {
		panic(s)
	}
	return v
}
