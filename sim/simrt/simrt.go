// Package simrt is the runtime the instrumented copy of the code under test
// runs on: one simulated world per run, in which every task switch, the clock,
// hash-map order, randomness and process crashes are decided by the run's plan.
package simrt

import (
	"fmt"
	"iter"
	"runtime"
	"sort"
	"strings"
	"time"
	"unsafe"
)

// Sites maps instrumentation ids to file:line (filled by generated code).
var Sites []string

// Reached marks the sites of the statements executed by tasks.
var Reached []bool

// Above FewTasks the identities of finished tasks are reused; MaxTasks bounds
// the tasks alive at once.
const (
	FewTasks = 32
	MaxTasks = 4096
)

// VC is a vector clock; tasks beyond its end are at 0.
type VC struct{ c []uint32 }

func (v *VC) at(i int) uint32 {
	if i < len(v.c) {
		return v.c[i]
	}
	return 0
}

func (v *VC) grow(n int) {
	if n > len(v.c) {
		if n <= cap(v.c) {
			v.c = v.c[:n]
			return
		}
		m := 8
		for m < n {
			m *= 2
		}
		c := make([]uint32, n, m)
		copy(c, v.c)
		v.c = c
	}
}

func (v *VC) set(i int, x uint32) { v.grow(i + 1); v.c[i] = x }
func (v *VC) inc(i int)           { v.set(i, v.at(i)+1) }
func (v *VC) copyFrom(o *VC)      { v.c = append(v.c[:0:0], o.c...) }

func (v *VC) join(o *VC) {
	v.grow(len(o.c))
	for i, x := range o.c {
		if x > v.c[i] {
			v.c[i] = x
		}
	}
}

// Stop is panicked inside a task to unwind it.
type Stop struct{ Why string }

// Switch is one recorded preemption: when task From has made Off yields inside
// its operation Op, control passes to task To.
type Switch struct {
	From int `json:"from"`
	Op   int `json:"op"`
	Off  int `json:"off"`
	To   int `json:"to"`
}

// Race is one pair of conflicting, unordered accesses.
type Race struct {
	SiteA, SiteB   string
	TaskA, TaskB   int
	WriteA, WriteB bool
	OpA, OpB       int
}

func (r Race) String() string {
	k := func(w bool) string {
		if w {
			return "write"
		}
		return "read"
	}
	return fmt.Sprintf("%s at %s (caller %d, op %d) and %s at %s (caller %d, op %d) are not ordered", k(r.WriteA), r.SiteA, r.TaskA, r.OpA, k(r.WriteB), r.SiteB, r.TaskB, r.OpB)
}

// Key identifies a race independent of ids.
func (r Race) Key() string {
	a, b := r.SiteA, r.SiteB
	if b < a {
		a, b = b, a
	}
	return a + "|" + b
}

type access struct {
	task  int
	clk   uint32
	site  int
	op    int
	write bool
}

type cell struct {
	w     access
	hasW  bool
	reads []access
}

type Task struct {
	ID        int
	OpID      int // id of the operation being executed, for switches and race reports
	OpSteps   int // yields made since the operation began
	Budget    int // yields allowed in this operation, 0: unlimited
	CrashAt   int // yield number inside this operation at which the process crashes, 0: never
	SnapAt    int // yield number at which Snap is called, 0: never
	Snap      func()
	Err       interface{}
	Stack     string
	vc        VC
	next      func() (struct{}, bool)
	stop      func()
	yield     func(struct{}) bool
	done      bool
	started   bool
	wait      func() bool // blocked until this reports true
	unwinding bool
	Lib       bool // a goroutine of the code under test
	hashRng   RNG
}

type World struct {
	Tasks      []*Task
	cur        *Task
	Track      bool // race detection on
	Preempt    bool // statement-level preemption on
	rng        RNG
	hashSeed   uint64
	hashRng    RNG
	HashMode   int // 0 sorted, 1 shuffled, 2 reversed
	countdown  int
	MeanGap    int
	Replay     map[[3]int]int // recorded switches, nil: draw from rng
	Record     []Switch
	Steps      int64
	Switches   int64
	Races      []Race
	raceSeen   map[string]bool
	waiters    []*waiter
	closed     map[unsafe.Pointer]bool
	held       []any // keeps addresses in closed from being reused
	shadow     map[unsafe.Pointer]*cell
	syncs      map[unsafe.Pointer]*VC
	Trace      uint64 // rolling hash of the schedule
	Deadlock   bool
	Kill       bool // the process dies now
	clock      time.Time
	ClockReads int64
	MapRanges  int64
	PoolDrops  int64
	MaxSteps   int64
	forced     *Task
	past       VC // everything finished tasks did
	reuse      int
}

var W *World // the current world; nil outside runs

// RNG is splitmix64.
type RNG struct{ s uint64 }

func NewRNG(seed uint64) RNG { return RNG{seed} }
func (r *RNG) Next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *RNG) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.Next() % uint64(n))
}
func (r *RNG) Chance(num, den int) bool { return r.Intn(den) < num }

func NewWorld(schedSeed, hashSeed uint64) *World {
	w := &World{rng: NewRNG(schedSeed), hashSeed: hashSeed, hashRng: NewRNG(hashSeed), MeanGap: 40,
		closed: map[unsafe.Pointer]bool{}, raceSeen: map[string]bool{}, shadow: map[unsafe.Pointer]*cell{}, syncs: map[unsafe.Pointer]*VC{},
		clock: time.Date(2024, 2, 29, 12, 0, 0, 0, time.UTC), MaxSteps: 1 << 40}
	return w
}

var resets []func()

// OnReset registers a function that restores a package's variables to their
// state right after program start.
func OnReset(f func()) { resets = append(resets, f) }

var (
	resetting bool
	pending   []func() // goroutines started by package initialisation
)

// Begin makes w the current world and gives every instrumented package its
// initial state, as a new process would. Tasks of an earlier process end.
func Begin(w *World) {
	if W != nil {
		W.stopTasks(true)
	}
	W = nil
	w.Kill = false
	w.waiters = nil
	pending = nil
	resetting = true
	for _, f := range resets {
		f()
	}
	resetting = false
	W = w
	for _, f := range pending {
		w.Go(f).Lib = true
	}
	pending = nil
}

func End() {
	if W != nil {
		W.stopTasks(true)
	}
	W = nil
}

// Go adds a task. Its start is ordered after the caller's actions so far.
func (w *World) Go(body func()) *Task {
	t := &Task{ID: len(w.Tasks)}
	var old *Task
	if t.ID >= FewTasks {
		// take over the identity of a finished task: whoever is ordered after
		// the new one then also counts as ordered after the old one, which can
		// hide a race but not invent one
		old = w.finished()
	}
	switch {
	case old != nil:
		t.ID = old.ID
		t.vc.set(t.ID, old.vc.at(t.ID))
		w.Tasks[t.ID] = t
	case t.ID < MaxTasks:
		w.Tasks = append(w.Tasks, t)
	default:
		panic(Stop{"too many tasks"})
	}
	if w.cur != nil {
		own := t.vc.at(t.ID)
		t.vc.copyFrom(&w.cur.vc)
		if t.vc.at(t.ID) < own {
			t.vc.set(t.ID, own)
		}
		w.cur.vc.inc(w.cur.ID)
	} else {
		// started between phases: after everything that ran before
		t.vc.join(&w.past)
	}
	t.vc.inc(t.ID)
	t.hashRng = NewRNG(w.hashSeed ^ uint64(t.ID+1)*0x9e3779b97f4a7c15)
	t.next, t.stop = iter.Pull(func(yield func(struct{}) bool) {
		t.yield = yield
		defer func() {
			if e := recover(); e != nil {
				if s, is := e.(Stop); is && s.Why == "world ends" {
					return
				}
				t.Err = e
				if _, is := e.(Stop); !is {
					buf := make([]byte, 8192)
					t.Stack = string(buf[:runtime.Stack(buf, false)])
				}
			}
		}()
		body()
	})
	return t
}

func (w *World) finished() *Task {
	for range w.Tasks {
		w.reuse = (w.reuse + 1) % len(w.Tasks)
		if o := w.Tasks[w.reuse]; o.done && o.Err == nil {
			return o
		}
	}
	return nil
}

func (w *World) Cur() *Task { return w.cur }

func (w *World) runnable(t *Task) bool {
	if t.done {
		return false
	}
	return t.wait == nil || t.wait()
}

func (w *World) pick(not *Task) *Task {
	var c []*Task
	for _, t := range w.Tasks {
		if t != not && w.runnable(t) {
			c = append(c, t)
		}
	}
	if len(c) == 0 {
		if not != nil && w.runnable(not) {
			return not
		}
		return nil
	}
	if w.Replay != nil {
		return c[0]
	}
	return c[w.rng.Intn(len(c))]
}

// Run drives the callers to completion. Forced switches choose the next task
// through nextTask; when a task ends or blocks the world picks one. Goroutines
// of the code under test may stay behind, blocked or with work to do.
func (w *World) Run() {
	w.resetCountdown()
	var t *Task
	for !w.Kill && w.callers() {
		if w.forced != nil {
			t = w.forced
			w.forced = nil
		} else {
			t = w.pickAfterEnd(t)
		}
		if t == nil {
			w.Deadlock = true
			break
		}
		w.cur = t
		_, alive := t.next()
		w.cur = nil
		if !alive {
			t.done = true
			w.past.join(&t.vc)
		}
	}
	w.forced = nil
	w.stopTasks(w.Kill || w.Deadlock)
}

func (w *World) callers() bool {
	for _, t := range w.Tasks {
		if !t.done && !t.Lib {
			return true
		}
	}
	return false
}

// stopTasks unwinds the callers, and with lib everything, that has not ended.
func (w *World) stopTasks(lib bool) {
	for _, t := range w.Tasks {
		if !t.done && (lib || !t.Lib) {
			t.unwinding = true
			t.stop()
			t.done = true
			w.past.join(&t.vc)
		}
	}
}

// pickAfterEnd chooses who runs when the previous task ended or blocked. The
// choice is recorded as a switch too.
func (w *World) pickAfterEnd(prev *Task) *Task {
	if prev == nil {
		if w.Replay != nil {
			if to, ok := w.Replay[[3]int{-1, 0, 0}]; ok {
				if to < len(w.Tasks) && w.runnable(w.Tasks[to]) {
					return w.Tasks[to]
				}
			}
			return w.pick(nil)
		}
		t := w.pick(nil)
		if t != nil {
			w.record(Switch{-1, 0, 0, t.ID})
		}
		return t
	}
	key := [3]int{prev.ID, prev.OpID, -1 - prev.OpSteps}
	if w.Replay != nil {
		if to, ok := w.Replay[key]; ok && to < len(w.Tasks) && w.runnable(w.Tasks[to]) {
			return w.Tasks[to]
		}
		return w.pick(nil)
	}
	t := w.pick(nil)
	if t != nil {
		w.record(Switch{key[0], key[1], key[2], t.ID})
	}
	return t
}

func (w *World) record(s Switch) {
	w.Record = append(w.Record, s)
	w.note(uint64(s.From+1)<<48 ^ uint64(s.Op)<<32 ^ uint64(uint32(s.Off))<<8 ^ uint64(s.To))
}

func (w *World) note(x uint64) {
	w.Trace ^= x + 0x9e3779b97f4a7c15 + w.Trace<<6 + w.Trace>>2
	w.Trace *= 0x100000001b3
}

func (w *World) resetCountdown() {
	if w.MeanGap < 1 {
		w.MeanGap = 1
	}
	w.countdown = 1 + w.rng.Intn(2*w.MeanGap)
}

// SetReplay makes the world follow recorded switches.
func (w *World) SetReplay(s []Switch) {
	w.Replay = map[[3]int]int{}
	for _, x := range s {
		w.Replay[[3]int{x.From, x.Op, x.Off}] = x.To
	}
}

// BeginOp marks the start of an operation of the current task.
func (w *World) BeginOp(id, budget, crashAt int) {
	t := w.cur
	t.OpID, t.OpSteps, t.Budget, t.CrashAt = id, 0, budget, crashAt
	w.point(t)
}

// EndOp marks its end.
func (w *World) EndOp() (steps int) {
	t := w.cur
	t.Budget, t.CrashAt = 0, 0
	return t.OpSteps
}

// Y is called before every statement of the code under test.
func Y(site int) {
	w := W
	if w == nil || w.cur == nil {
		return
	}
	if site >= 0 && site < len(Reached) {
		Reached[site] = true
	}
	w.point(w.cur)
}

func (w *World) point(t *Task) {
	if t.unwinding {
		return
	}
	t.OpSteps++
	w.Steps++
	if t.Budget > 0 && t.OpSteps > t.Budget {
		panic(Stop{"step budget"})
	}
	if t.SnapAt > 0 && t.OpSteps == t.SnapAt {
		t.Snap()
	}
	if t.CrashAt > 0 && t.OpSteps == t.CrashAt {
		panic(Stop{"crash"})
	}
	if !w.Preempt {
		return
	}
	if w.Replay != nil {
		if to, ok := w.Replay[[3]int{t.ID, t.OpID, t.OpSteps}]; ok && to < len(w.Tasks) && to != t.ID && w.runnable(w.Tasks[to]) {
			w.switchTo(t, w.Tasks[to])
		}
		return
	}
	w.countdown--
	if w.countdown > 0 {
		return
	}
	w.resetCountdown()
	n := w.pick(t)
	if n == nil || n == t {
		return
	}
	w.record(Switch{t.ID, t.OpID, t.OpSteps, n.ID})
	w.switchTo(t, n)
}

func (w *World) switchTo(t, n *Task) {
	w.Switches++
	w.forced = n
	if !t.yield(struct{}{}) {
		t.unwinding = true
		panic(Stop{"world ends"})
	}
}

// Yield lets another task run if the scheduler wants.
func (w *World) Yield() { w.point(w.cur) }

// Block suspends the current task until cond holds.
func (w *World) Block(cond func() bool) {
	t := w.cur
	if t.unwinding {
		return
	}
	for !cond() {
		// another task may run between this one becoming runnable and its turn
		t.wait = cond
		if t.Lib {
			t.OpSteps = 0
		}
		if !t.yield(struct{}{}) {
			t.unwinding = true
			panic(Stop{"world ends"})
		}
		t.wait = nil
	}
}

// --- ordering ---

// Acquire orders the current task after everything released on v.
func (w *World) Acquire(v *VC) {
	if w.cur != nil {
		w.cur.vc.join(v)
	}
}

// Release publishes the current task's past on v.
func (w *World) Release(v *VC) {
	if w.cur != nil {
		v.join(&w.cur.vc)
		w.cur.vc.inc(w.cur.ID)
	}
}

// SyncAt returns the sync clock attached to an address.
func (w *World) SyncAt(p unsafe.Pointer) *VC {
	v := w.syncs[p]
	if v == nil {
		v = &VC{}
		w.syncs[p] = v
	}
	return v
}

// JoinAll orders the current task after everything every other task did.
func (w *World) JoinAll() {
	w.cur.vc.join(&w.past)
	for _, t := range w.Tasks {
		w.cur.vc.join(&t.vc)
	}
}

// --- accesses ---

func (w *World) touch(p unsafe.Pointer, size uintptr, site int, write bool) {
	if size == 0 {
		return
	}
	t := w.cur
	if t == nil || t.unwinding {
		return
	}
	if size <= 8 {
		w.touch1(t, p, site, write)
		return
	}
	for o := uintptr(0); o < size; o += 8 {
		w.touch1(t, unsafe.Add(p, o), site, write)
	}
}

func (w *World) touch1(t *Task, p unsafe.Pointer, site int, write bool) {
	c := w.shadow[p]
	if c == nil {
		c = &cell{}
		w.shadow[p] = c
	}
	now := access{t.ID, t.vc.at(t.ID), site, t.OpID, write}
	if c.hasW && c.w.task != t.ID && c.w.clk > t.vc.at(c.w.task) {
		w.race(c.w, now)
	}
	if write {
		for _, r := range c.reads {
			if r.task != t.ID && r.clk > t.vc.at(r.task) {
				w.race(r, now)
			}
		}
		c.w, c.hasW = now, true
		c.reads = c.reads[:0]
		return
	}
	for i := range c.reads {
		if c.reads[i].task == t.ID {
			c.reads[i] = now
			return
		}
	}
	c.reads = append(c.reads, now)
}

func siteName(i int) string {
	if i >= 0 && i < len(Sites) {
		return Sites[i]
	}
	return fmt.Sprint("site ", i)
}

func (w *World) race(a, b access) {
	r := Race{SiteA: siteName(a.site), SiteB: siteName(b.site), TaskA: a.task, TaskB: b.task, WriteA: a.write, WriteB: b.write, OpA: a.op, OpB: b.op}
	k := r.Key()
	if w.raceSeen[k] {
		return
	}
	w.raceSeen[k] = true
	w.Races = append(w.Races, r)
}

// RP reports a read of *p and returns p.
func RP[T any](p *T, site int) *T {
	if w := W; w != nil && w.Track && p != nil && w.cur != nil {
		w.touch(unsafe.Pointer(p), unsafe.Sizeof(*p), site, false)
		w.point(w.cur)
	}
	return p
}

// WP reports a write of *p and returns p.
func WP[T any](p *T, site int) *T {
	if w := W; w != nil && w.Track && p != nil && w.cur != nil {
		w.touch(unsafe.Pointer(p), unsafe.Sizeof(*p), site, true)
		w.point(w.cur)
	}
	return p
}

// RS and WS report use of an object of another package through its methods.
func RS[T any](p *T, site int) *T {
	if w := W; w != nil && w.Track && p != nil && w.cur != nil {
		w.touch(unsafe.Pointer(p), 1, site, false)
		w.point(w.cur)
	}
	return p
}
func WS[T any](p *T, site int) *T {
	if w := W; w != nil && w.Track && p != nil && w.cur != nil {
		w.touch(unsafe.Pointer(p), 1, site, true)
		w.point(w.cur)
	}
	return p
}

func mapPtr[M ~map[K]V, K comparable, V any](m M) unsafe.Pointer {
	return *(*unsafe.Pointer)(unsafe.Pointer(&m))
}

// RM and WM report a read or write of a map.
func RM[M ~map[K]V, K comparable, V any](m M, site int) M {
	if w := W; w != nil && w.Track && m != nil && w.cur != nil {
		w.touch(mapPtr(m), 1, site, false)
		w.point(w.cur)
	}
	return m
}
func WM[M ~map[K]V, K comparable, V any](m M, site int) M {
	if w := W; w != nil && w.Track && m != nil && w.cur != nil {
		w.touch(mapPtr(m), 1, site, true)
		w.point(w.cur)
	}
	return m
}

// RL and WL report a read or write of all elements of a slice.
func RL[S ~[]T, T any](s S, site int) S {
	if w := W; w != nil && w.Track && w.cur != nil {
		for i := range s {
			w.touch(unsafe.Pointer(&s[i]), unsafe.Sizeof(s[i]), site, false)
		}
		w.point(w.cur)
	}
	return s
}
func WL[S ~[]T, T any](s S, site int) S {
	if w := W; w != nil && w.Track && w.cur != nil {
		for i := range s {
			w.touch(unsafe.Pointer(&s[i]), unsafe.Sizeof(s[i]), site, true)
		}
		w.point(w.cur)
	}
	return s
}

// SliceAll ranges over a slice, reporting each element when it is read.
func SliceAll[S ~[]T, T any](s S, site int) iter.Seq2[int, T] {
	return func(yield func(int, T) bool) {
		for i := range s {
			if !yield(i, *RP(&s[i], site)) {
				return
			}
		}
	}
}

// AP reports an append to s.
func AP[S ~[]T, T any](s S, site int) S {
	if w := W; w != nil && w.Track && w.cur != nil {
		if cap(s) > len(s) {
			e := &s[:len(s)+1][len(s)]
			w.touch(unsafe.Pointer(e), unsafe.Sizeof(*e), site, true)
		} else {
			for i := range s {
				w.touch(unsafe.Pointer(&s[i]), unsafe.Sizeof(s[i]), site, false)
			}
		}
		w.point(w.cur)
	}
	return s
}

// --- clock ---

func (w *World) Now() time.Time       { return w.clock }
func (w *World) SetClock(t time.Time) { w.clock = t }

func TimeNow() time.Time {
	if w := W; w != nil {
		w.ClockReads++
		return w.clock
	}
	return time.Date(2024, 2, 29, 12, 0, 0, 0, time.UTC)
}
func TimeSince(t time.Time) time.Duration { return TimeNow().Sub(t) }
func TimeUntil(t time.Time) time.Duration { return t.Sub(TimeNow()) }
func TimeSleep(d time.Duration) {
	if w := W; w != nil {
		if d > 0 {
			w.clock = w.clock.Add(d)
		}
		if w.cur != nil {
			w.point(w.cur)
		}
	}
}

// --- hash order and randomness ---

func sortedKeys[K comparable, V any](m map[K]V) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	less := func(a, b any) bool {
		switch x := a.(type) {
		case string:
			return x < b.(string)
		case int:
			return x < b.(int)
		}
		return fmt.Sprint(a) < fmt.Sprint(b)
	}
	sort.SliceStable(keys, func(i, j int) bool { return less(any(keys[i]), any(keys[j])) })
	if w := W; w != nil {
		w.MapRanges++
		switch w.HashMode {
		case 1:
			for i := len(keys) - 1; i > 0; i-- {
				j := int(w.HashWord() % uint64(i+1))
				keys[i], keys[j] = keys[j], keys[i]
			}
		case 2:
			for i, j := 0, len(keys)-1; i < j; i, j = i+1, j-1 {
				keys[i], keys[j] = keys[j], keys[i]
			}
		}
	}
	return keys
}

// MapAll iterates over m in the order the simulator chooses.
func MapAll[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		for _, k := range sortedKeys(map[K]V(m)) {
			v, ok := m[k]
			if !ok {
				continue
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

// MapKeys iterates over the keys of m in the order the simulator chooses.
func MapKeys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for _, k := range sortedKeys(map[K]V(m)) {
			if _, ok := m[k]; !ok {
				continue
			}
			if !yield(k) {
				return
			}
		}
	}
}

// MapValues iterates over the values of m in the order the simulator chooses.
func MapValues[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, k := range sortedKeys(map[K]V(m)) {
			v, ok := m[k]
			if !ok {
				continue
			}
			if !yield(v) {
				return
			}
		}
	}
}

// HashWord is the source behind hash order and randomness; every task draws
// from its own stream so that it does not depend on the interleaving.
func (w *World) HashWord() uint64 {
	if w.cur != nil {
		return w.cur.hashRng.Next()
	}
	return w.hashRng.Next()
}

// SeedHash restarts the current task's stream.
func (w *World) SeedHash(seed uint64) {
	if w.cur != nil {
		w.cur.hashRng = NewRNG(seed)
	}
}

// Source is a rand source for the math/rand packages.
type Source struct{}

var outside = NewRNG(1)

func (Source) Uint64() uint64 {
	if W != nil {
		return W.HashWord()
	}
	return outside.Next()
}
func (s Source) Int63() int64 { return int64(s.Uint64() >> 1) }
func (Source) Seed(int64)     {}

// GoStmt runs a goroutine of the code under test as a task.
func GoStmt(f func()) {
	w := W
	if w != nil && w.cur != nil {
		t := w.Go(f)
		t.Lib = true
		t.OpID = w.cur.OpID
		t.Budget = libBudget
		w.point(w.cur)
		return
	}
	if resetting {
		pending = append(pending, f)
	}
	// otherwise the program itself is starting, before any simulated process
}

// A goroutine that runs on for this many steps without ever blocking is stuck.
const libBudget = 20_000_000

// ShortStack trims a panic stack to the frames of the code under test.
func ShortStack(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "/holistic_json") || strings.Contains(l, "/repo/") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) >= 6 {
			break
		}
	}
	return strings.Join(out, " < ")
}
