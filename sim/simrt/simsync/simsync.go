// Package simsync stands in for package sync inside the simulator.
package simsync

import (
	"simrt"
)

type Locker interface {
	Lock()
	Unlock()
}

type Mutex struct {
	locked bool
	vc     simrt.VC
}

func (m *Mutex) Lock() {
	if w := simrt.W; w != nil && w.Cur() != nil {
		w.Yield()
		w.Block(func() bool { return !m.locked })
		m.locked = true
		w.Acquire(&m.vc)
		return
	}
	m.locked = true
}

func (m *Mutex) TryLock() bool {
	if m.locked {
		return false
	}
	m.locked = true
	if w := simrt.W; w != nil && w.Cur() != nil {
		w.Acquire(&m.vc)
	}
	return true
}

func (m *Mutex) Unlock() {
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	if w := simrt.W; w != nil && w.Cur() != nil {
		w.Release(&m.vc)
		m.locked = false
		w.Yield()
		return
	}
	m.locked = false
}

type RWMutex struct {
	writer  bool
	pending int // writers waiting: new readers wait for them, as in package sync
	readers int
	wvc     simrt.VC // released by writers
	rvc     simrt.VC // released by readers
}

func (m *RWMutex) Lock() {
	if w := simrt.W; w != nil && w.Cur() != nil {
		w.Yield()
		m.pending++
		w.Block(func() bool { return !m.writer && m.readers == 0 })
		m.pending--
		m.writer = true
		w.Acquire(&m.wvc)
		w.Acquire(&m.rvc)
		return
	}
	m.writer = true
}

func (m *RWMutex) TryLock() bool {
	if m.writer || m.readers > 0 {
		return false
	}
	m.Lock()
	return true
}

func (m *RWMutex) Unlock() {
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	if w := simrt.W; w != nil && w.Cur() != nil {
		w.Release(&m.wvc)
		m.writer = false
		w.Yield()
		return
	}
	m.writer = false
}

func (m *RWMutex) RLock() {
	if w := simrt.W; w != nil && w.Cur() != nil {
		w.Yield()
		w.Block(func() bool { return !m.writer && m.pending == 0 })
		m.readers++
		w.Acquire(&m.wvc)
		return
	}
	m.readers++
}

func (m *RWMutex) TryRLock() bool {
	if m.writer || m.pending > 0 {
		return false
	}
	m.RLock()
	return true
}

func (m *RWMutex) RUnlock() {
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	if w := simrt.W; w != nil && w.Cur() != nil {
		w.Release(&m.rvc)
		m.readers--
		w.Yield()
		return
	}
	m.readers--
}

type rlocker RWMutex

func (r *rlocker) Lock()           { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock()         { (*RWMutex)(r).RUnlock() }
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) {
		o.Do(func() { a, b = f() })
		return a, b
	}
}

type WaitGroup struct {
	n  int
	vc simrt.VC
}

func (g *WaitGroup) Add(d int) {
	g.n += d
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w := simrt.W; w != nil && w.Cur() != nil && d < 0 {
		w.Release(&g.vc)
	}
}
func (g *WaitGroup) Done() { g.Add(-1) }
func (g *WaitGroup) Wait() {
	if w := simrt.W; w != nil && w.Cur() != nil {
		w.Yield()
		w.Block(func() bool { return g.n == 0 })
		w.Acquire(&g.vc)
	}
}
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	simrt.GoStmt(func() {
		defer g.Done()
		f()
	})
}

type Cond struct {
	L     Locker
	queue []*bool
	vc    simrt.VC
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	woken := new(bool)
	c.queue = append(c.queue, woken)
	c.L.Unlock()
	if w := simrt.W; w != nil && w.Cur() != nil {
		w.Block(func() bool { return *woken })
		w.Acquire(&c.vc)
	}
	c.L.Lock()
}
func (c *Cond) Signal() {
	if w := simrt.W; w != nil && w.Cur() != nil {
		w.Release(&c.vc)
	}
	if len(c.queue) > 0 {
		*c.queue[0] = true
		c.queue = c.queue[1:]
	}
}
func (c *Cond) Broadcast() {
	if w := simrt.W; w != nil && w.Cur() != nil {
		w.Release(&c.vc)
	}
	for _, q := range c.queue {
		*q = true
	}
	c.queue = nil
}

// Pool hands items back or drops them as the simulator decides.
type Pool struct {
	New   func() any
	items []any
	vcs   []simrt.VC
}

func (p *Pool) Get() any {
	w := simrt.W
	if w != nil && w.Cur() != nil {
		w.Yield()
	}
	if n := len(p.items); n > 0 {
		i := n - 1
		if w != nil {
			if w.HashWord()%8 == 0 {
				w.PoolDrops++
				p.items, p.vcs = nil, nil
				if p.New != nil {
					return p.New()
				}
				return nil
			}
			i = int(w.HashWord() % uint64(n))
		}
		x := p.items[i]
		if w != nil {
			w.Acquire(&p.vcs[i])
		}
		p.items = append(p.items[:i], p.items[i+1:]...)
		p.vcs = append(p.vcs[:i], p.vcs[i+1:]...)
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	var vc simrt.VC
	if w := simrt.W; w != nil && w.Cur() != nil {
		w.Release(&vc)
	}
	p.items = append(p.items, x)
	p.vcs = append(p.vcs, vc)
}

// Map is sync.Map.
type Map struct {
	m  map[any]any
	vc simrt.VC
}

func (m *Map) sync() {
	if w := simrt.W; w != nil && w.Cur() != nil {
		w.Yield()
		w.Acquire(&m.vc)
		w.Release(&m.vc)
	}
	if m.m == nil {
		m.m = map[any]any{}
	}
}
func (m *Map) Load(k any) (any, bool) { m.sync(); v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v any)         { m.sync(); m.m[k] = v }
func (m *Map) Clear()                 { m.sync(); clear(m.m) }
func (m *Map) Delete(k any)           { m.sync(); delete(m.m, k) }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.sync()
	if x, ok := m.m[k]; ok {
		return x, true
	}
	m.m[k] = v
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.sync()
	v, ok := m.m[k]
	delete(m.m, k)
	return v, ok
}
func (m *Map) Swap(k, v any) (any, bool) {
	m.sync()
	x, ok := m.m[k]
	m.m[k] = v
	return x, ok
}
func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.sync()
	if x, ok := m.m[k]; ok && x == o {
		m.m[k] = n
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o any) bool {
	m.sync()
	if x, ok := m.m[k]; ok && x == o {
		delete(m.m, k)
		return true
	}
	return false
}
func (m *Map) Range(f func(k, v any) bool) {
	m.sync()
	for k, v := range simrt.MapAll(m.m) {
		if !f(k, v) {
			return
		}
	}
}
