package main

import (
	"errors"
	"fmt"
	"hash/fnv"
	"math/big"
	"reflect"
	"runtime"
	"strings"
	"time"

	hjson "github.com/matehaxor03/holistic_json/json"
	"simrt"
)

// ref is a container or value, in the library and in the model.
type ref struct {
	k  string // map arr val
	m  *hjson.Map
	a  *hjson.Array
	v  *hjson.Value
	mm *MMap
	ma *MArr
	mv *MV
}

func (r *ref) mval() *MV {
	switch r.k {
	case "map":
		return &MV{K: "map", M: r.mm}
	case "arr":
		return &MV{K: "arr", A: r.ma}
	}
	return r.mv
}

type File struct {
	text  string
	model *MMap
}

type Listing struct {
	got  []string
	want []string
	slot int
}

type Violation struct {
	Class string
	Msg   string
	Op    int
}

type failStop struct{}
type skipStop struct{}

type Stats struct {
	Runs, Ops, Skipped, Steps, Switches, SoloRuns int64
	SimTime                                       time.Duration
	OpKinds                                       map[string]int64
	Faults                                        map[string]int64
	Known                                         map[string]int64
	Probes                                        map[string]int64
	MapRanges, ClockReads                         int64
	MaxOpSteps                                    int64 // of the longest operation
	Widest, Deepest, Longest                      int64 // of what operations were given
}

func newStats() *Stats {
	return &Stats{OpKinds: map[string]int64{}, Faults: map[string]int64{}, Known: map[string]int64{}, Probes: map[string]int64{}}
}

func (s *Stats) sizes(v *Val, depth int64) {
	if len(v.Es) > 0 {
		s.Deepest = max(s.Deepest, depth)
	}
	s.Widest, s.Longest = max(s.Widest, int64(len(v.Es))), max(s.Longest, int64(len(v.S)))
	for _, e := range v.Es {
		s.sizes(e, depth+1)
	}
}

// Sim is one run.
type Sim struct {
	p       *Plan
	w       *simrt.World
	dry     bool
	slots   map[int]*ref
	files   map[int]*File
	lists   map[int]*Listing
	held    map[int]*Held
	log     map[int]string
	logIDs  []int
	viol    *Violation
	crashed bool
	// saving or copying content that contains itself has not come back
	inEndless bool
	baton     simrt.VC
	order     []int
	pos       int
	st        *Stats
	dryClk    time.Time
}

func newSim(p *Plan, st *Stats) *Sim {
	strictTypes = p.Prop == "C16"
	return &Sim{p: p, slots: map[int]*ref{}, files: map[int]*File{}, lists: map[int]*Listing{}, held: map[int]*Held{}, log: map[int]string{}, st: st}
}

func (s *Sim) failf(class string, op *Op, format string, args ...interface{}) {
	if s.viol == nil {
		s.viol = &Violation{Class: class, Msg: scrub(fmt.Sprintf(format, args...)), Op: op.ID}
	}
	panic(failStop{})
}

func (s *Sim) skip() { panic(skipStop{}) }

func (s *Sim) fault(kind string) {
	if !s.dry {
		s.st.Faults[kind]++
	}
}

func (s *Sim) probe(kind string) {
	if !s.dry {
		s.st.Probes[kind]++
	}
}

func (s *Sim) known(name string) {
	s.st.Known[name]++
}

const opBudget = 30_000_000

func (s *Sim) budget() int {
	if s.p.Giant {
		return 4 * opBudget
	}
	return opBudget
}

// dryOp evolves the model only; it reports whether the operation applies.
func (s *Sim) dryOp(op *Op) (ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(skipStop); is {
				ok = false
				return
			}
			panic(e)
		}
	}()
	s.do(op)
	return true
}

// peek is the model of the value an operation is about, nil if there is none.
func (s *Sim) peek(op *Op) (mv *MV) {
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(skipStop); !is {
				panic(e)
			}
			mv = nil
		}
	}()
	_, mv = s.value(op, s.at(op))
	return mv
}

// runOp performs one operation, turning panics into violations.
func (s *Sim) runOp(op *Op) {
	defer func() {
		e := recover()
		if e == nil {
			return
		}
		switch x := e.(type) {
		case failStop:
			return
		case skipStop:
			s.log[op.ID] = "skipped"
			s.st.Skipped++
			return
		case simrt.Stop:
			if s.inEndless {
				s.log[op.ID] = "endless"
				return
			}
			if x.Why == "step budget" {
				if s.viol == nil {
					s.viol = &Violation{Class: "hang", Msg: fmt.Sprintf("operation %s took more steps than allowed", describeOp(op)), Op: op.ID}
				}
				return
			}
			panic(e)
		}
		if s.viol == nil {
			buf := make([]byte, 16384)
			st := simrt.ShortStack(string(buf[:runtime.Stack(buf, false)]))
			s.viol = &Violation{Class: "panic", Msg: scrub(fmt.Sprintf("%s panicked: %v (%s)", describeOp(op), e, st)), Op: op.ID}
		}
	}()
	s.w.SeedHash(s.p.HashSeed ^ uint64(op.ID+1)*0xbf58476d1ce4e5b9)
	b := s.budget()
	if op.T == "damage" {
		b = parseBudget(len(op.Text))
	}
	s.w.BeginOp(op.ID, b, 0)
	s.st.Ops++
	s.st.OpKinds[op.T]++
	r := s.do(op)
	s.st.MaxOpSteps = max(s.st.MaxOpSteps, int64(s.w.Cur().OpSteps))
	if op.V != nil {
		s.st.sizes(op.V, 1)
	}
	s.w.EndOp()
	s.log[op.ID] = r
}

func parseBudget(n int) int { return 100_000 + 4000*n + 4*n*n }

func describeOp(op *Op) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%s", op.T)
	if op.A != "" {
		fmt.Fprintf(&sb, " %s", op.A)
	}
	fmt.Fprintf(&sb, " on document %d", op.S)
	for _, st := range op.Path {
		if st.Arr {
			fmt.Fprintf(&sb, "[%d]", st.I)
		} else {
			fmt.Fprintf(&sb, "/%q", string(st.K))
		}
	}
	fmt.Fprintf(&sb, " key %q index %d (op %d, caller %d)", clip(string(op.K), 40), op.I, op.ID, op.C)
	return sb.String()
}

// run executes the plan in a fresh world. only limits it to one caller's
// operations in the phases with preemption (-1: everybody).
func (s *Sim) run(only int) {
	w := simrt.NewWorld(s.p.Sched, s.p.HashSeed)
	w.HashMode = s.p.HashMode
	w.MeanGap = s.p.MeanGap
	if s.p.Replay {
		w.SetReplay(s.p.Switches)
	}
	s.w = w
	simrt.Begin(w)
	pointers = map[string]interface{}{}
	given, holding = nil, s.p.Prop == "C20"
	defer simrt.End()
	for _, ph := range s.p.Phases {
		if s.viol != nil {
			break
		}
		if ph.Restart {
			// a new process: nothing but the disk survives
			simrt.Begin(w)
			pointers = map[string]interface{}{}
			given = nil
			s.slots = map[int]*ref{}
			s.lists = map[int]*Listing{}
			s.held = map[int]*Held{}
			s.crashed = false
		}
		s.phase(ph, only)
	}
	s.st.Steps += w.Steps
	s.st.Switches += w.Switches
	s.st.MapRanges += w.MapRanges
	s.st.ClockReads += w.ClockReads
	if s.viol == nil && len(w.Races) > 0 {
		s.viol = &Violation{Class: "race", Msg: "two callers use the same memory at once: " + w.Races[0].String(), Op: w.Races[0].OpA}
	}
	if s.inEndless {
		s.known("contains-itself")
		return
	}
	if s.viol == nil && w.Deadlock {
		s.viol = &Violation{Class: "hang", Msg: "callers wait for each other for ever"}
	}
}

func (s *Sim) phase(ph *Phase, only int) {
	w := s.w
	w.Track = ph.Track && only < 0
	w.Preempt = ph.Preempt && only < 0
	free := map[int]bool{}
	for _, c := range ph.Free {
		free[c] = true
	}
	byClient := map[int][]*Op{}
	var clients []int
	s.order, s.pos = nil, 0
	for _, op := range ph.Ops {
		if only >= 0 && ph.Preempt && op.C != only {
			continue
		}
		if byClient[op.C] == nil {
			clients = append(clients, op.C)
		}
		byClient[op.C] = append(byClient[op.C], op)
		if ph.Turn && !free[op.C] {
			s.order = append(s.order, op.ID)
		}
	}
	s.baton = simrt.VC{}
	for _, c := range clients {
		ops := byClient[c]
		turn := ph.Turn && !free[c]
		w.Go(func() {
			for _, op := range ops {
				if s.viol != nil || s.crashed {
					return
				}
				if turn {
					id := op.ID
					w.Block(func() bool { return s.viol != nil || s.crashed || s.pos < len(s.order) && s.order[s.pos] == id })
					if s.viol != nil || s.crashed {
						return
					}
					w.Acquire(&s.baton)
				}
				s.runOp(op)
				if turn {
					s.pos++
					w.Release(&s.baton)
				}
			}
		})
	}
	w.Run()
	for _, t := range w.Tasks {
		if _, is := t.Err.(simrt.Stop); is && s.inEndless {
			continue
		}
		if st, is := t.Err.(simrt.Stop); is && st.Why == "step budget" && s.viol == nil {
			s.viol = &Violation{Class: "hang", Msg: "a goroutine of the library runs on for ever", Op: t.OpID}
		}
		if t.Err != nil && s.viol == nil {
			s.viol = &Violation{Class: "panic", Msg: scrub(fmt.Sprintf("%v (%s)", t.Err, simrt.ShortStack(t.Stack)))}
		}
	}
}

// logHash identifies everything the callers observed.
func (s *Sim) logHash() uint64 {
	h := fnv.New64a()
	for _, ph := range s.p.Phases {
		for _, op := range ph.Ops {
			fmt.Fprintf(h, "%d:%s\n", op.ID, s.log[op.ID])
		}
	}
	if s.viol != nil {
		fmt.Fprint(h, s.viol.Class, s.viol.Msg)
	}
	return h.Sum64()
}

// execute runs the plan, and each caller alone too where the property asks
// for it, and returns the violation if there is one.
func execute(p *Plan, st *Stats) (*Violation, *Sim) {
	s := newSim(p, st)
	s.run(-1)
	p2 := s.w.Record
	if s.viol == nil && p.Solo {
		seen := map[int]bool{}
		for _, ph := range p.Phases {
			if !ph.Preempt {
				continue
			}
			for _, op := range ph.Ops {
				if seen[op.C] {
					continue
				}
				seen[op.C] = true
				solo := newSim(p, st)
				st.SoloRuns++
				solo.run(op.C)
				if solo.viol != nil {
					s.viol = &Violation{Class: solo.viol.Class, Msg: "running alone: " + solo.viol.Msg, Op: solo.viol.Op}
					break
				}
				for _, ph2 := range p.Phases {
					for _, o := range ph2.Ops {
						if ph2.Preempt && o.C != op.C {
							continue
						}
						if s.log[o.ID] != solo.log[o.ID] && s.viol == nil {
							s.viol = &Violation{Class: "differs", Op: o.ID, Msg: fmt.Sprintf("%s gave %s among other callers but %s alone", describeOp(o), clip(s.log[o.ID], 300), clip(solo.log[o.ID], 300))}
						}
					}
				}
			}
			if s.viol != nil {
				break
			}
		}
	}
	if s.viol == nil && p.Prop == "C17" {
		s.alone(p, st)
	}
	if !p.Replay {
		p.Switches = p2
	}
	return s.viol, s
}

// alone compares what each text was answered with what it is answered as the
// first thing a process loads.
func (s *Sim) alone(p *Plan, st *Stats) {
	first := map[string]string{}
	for _, ph := range p.Phases {
		for _, op := range ph.Ops {
			if op.T != "damage" && op.T != "parsebad" {
				continue
			}
			want, seen := first[string(op.Text)]
			if !seen {
				q := &Plan{Prop: p.Prop, Seed: p.Seed, Sched: p.Sched, HashSeed: p.HashSeed, HashMode: p.HashMode, MeanGap: p.MeanGap, Phases: []*Phase{{Ops: []*Op{op}}}}
				solo := newSim(q, st)
				st.SoloRuns++
				solo.run(-1)
				if solo.viol != nil {
					s.viol = &Violation{Class: solo.viol.Class, Msg: "as the first text loaded: " + solo.viol.Msg, Op: op.ID}
					return
				}
				want = solo.log[op.ID]
				first[string(op.Text)] = want
			}
			if got := s.log[op.ID]; got != want {
				s.viol = &Violation{Class: "differs", Op: op.ID, Msg: fmt.Sprintf("%s: text %q is answered %s, but %s when it is the first text loaded", describeOp(op), clip(string(op.Text), 200), clip(got, 300), clip(want, 300))}
				return
			}
		}
	}
}

// --- finding the container an operation works on ---

func (s *Sim) now() time.Time {
	if s.dry {
		return s.dryClk
	}
	return s.w.Now()
}

func (s *Sim) at(op *Op) *ref { return s.walk(op, op.S, op.Path) }

func (s *Sim) walk(op *Op, slot int, path []Step) *ref {
	r := s.slots[slot]
	if r == nil {
		s.skip()
	}
	c := *r
	if len(path) > 0 && c.k == "val" {
		c = *s.open(op, &c)
	}
	for _, st := range path {
		s.step(op, &c, st)
	}
	return &c
}

// open turns a value holding a container into that container.
func (s *Sim) open(op *Op, r *ref) *ref {
	if r.k != "val" {
		return r
	}
	switch r.mv.K {
	case "map":
		n := &ref{k: "map", mm: r.mv.M}
		if !s.dry {
			m, errs := r.v.GetMap()
			if m == nil || errs != nil {
				s.failf("mismatch", op, "%s: a value holding a document gives none: %v", describeOp(op), errs)
			}
			n.m = m
		}
		return n
	case "arr":
		n := &ref{k: "arr", ma: r.mv.A}
		if !s.dry {
			a, errs := r.v.GetArray()
			if a == nil || errs != nil {
				s.failf("mismatch", op, "%s: a value holding an array gives none: %v", describeOp(op), errs)
			}
			n.a = a
		}
		return n
	}
	s.skip()
	return nil
}

func (s *Sim) step(op *Op, c *ref, st Step) {
	var e *MV
	if st.Arr {
		if c.k != "arr" || st.I < 0 || st.I >= len(c.ma.e) {
			s.skip()
		}
		e = c.ma.e[st.I]
	} else {
		if c.k != "map" {
			s.skip()
		}
		e = c.mm.m[string(st.K)]
	}
	if e == nil || e.K != "map" && e.K != "arr" {
		s.skip()
	}
	var m *hjson.Map
	var a *hjson.Array
	if !s.dry {
		var errs []error
		isMap := e.K == "map"
		via := st.Via
		if !st.Arr {
			k := string(st.K)
			switch {
			case via == 1 && isMap:
				mv, es := c.m.GetMapValue(k)
				m, errs = &mv, es
			case via == 1:
				av, es := c.m.GetArrayValue(k)
				a, errs = &av, es
			case via == 4:
				switch x := c.m.GetObjectForMap(k).(type) {
				case *hjson.Map:
					m = x
				case hjson.Map:
					m = &x
				case *hjson.Array:
					a = x
				case hjson.Array:
					a = &x
				}
			case via == 2 || via == 3:
				var v *hjson.Value
				if via == 2 {
					v = c.m.GetValue(k)
				} else {
					for i, x := range c.mm.keys {
						if x == k {
							v = elem(c.m.Values(), i)
						}
					}
				}
				if v == nil {
					s.failf("mismatch", op, "%s: no value for key %q on the way", describeOp(op), k)
				}
				if isMap {
					m, errs = v.GetMap()
				} else {
					a, errs = v.GetArray()
				}
			case isMap:
				m, errs = c.m.GetMap(k)
			default:
				a, errs = c.m.GetArray(k)
			}
		} else {
			switch {
			case via == 0 && isMap:
				m, errs = c.a.GetMap(st.I)
			default:
				v := elem(c.a, st.I)
				if v == nil {
					s.failf("mismatch", op, "%s: no element %d on the way", describeOp(op), st.I)
				}
				if isMap && via == 1 {
					mv, es := v.GetMapValue()
					m, errs = &mv, es
				} else if isMap {
					m, errs = v.GetMap()
				} else if via == 1 {
					av, es := v.GetArrayValue()
					a, errs = &av, es
				} else {
					a, errs = v.GetArray()
				}
			}
		}
		if errs != nil || isMap && m == nil || !isMap && a == nil {
			s.failf("mismatch", op, "%s: the %s stored at %q/%d could not be read: %v", describeOp(op), e.K, string(st.K), st.I, errs)
		}
	}
	if e.K == "map" {
		*c = ref{k: "map", m: m, mm: e.M}
	} else {
		*c = ref{k: "arr", a: a, ma: e.A}
	}
}

// elem is element i of an array, nil when there is none.
func elem(a *hjson.Array, i int) *hjson.Value {
	vs := a.GetValues()
	if vs == nil {
		return nil
	}
	l := *simrt.RP(vs, harnessSite)
	if i < 0 || i >= len(l) {
		return nil
	}
	return *simrt.RP(&l[i], harnessSite)
}

func errsText(errs []error) string {
	var out []string
	for _, e := range errs {
		if e == nil {
			out = append(out, "nil error")
			continue
		}
		out = append(out, e.Error())
	}
	return scrub(strings.Join(out, "; "))
}

// texts of a ref

func (s *Sim) text(r *ref) (string, []error) {
	var sb strings.Builder
	errs := s.textTo(r, &sb)
	return sb.String(), errs
}

func (s *Sim) textTo(r *ref, sb *strings.Builder) []error {
	switch r.k {
	case "map":
		return r.m.ToJSONString(sb)
	case "arr":
		return r.a.ToJSONString(sb)
	}
	return hjson.ConvertInterfaceValueToJSONStringValue(sb, r.v)
}

// --- what the model says about saving and cloning ---

// can: 0 no, 1 yes, 2 either
func (v *MV) canSave() int {
	switch v.K {
	case "bad":
		if v.W == "native" || v.W == "value" || v.W == "*value" {
			return 2
		}
		if badSaves(v.W) {
			return 1
		}
		return 0
	case "any", "func":
		return 2
	case "map":
		return v.M.canSave()
	case "arr":
		return v.A.canSave()
	}
	return 1
}
func (m *MMap) canSave() int {
	r := 1
	for _, v := range m.m {
		r = worse(r, v.canSave())
	}
	return r
}
func (a *MArr) canSave() int {
	r := 1
	for _, v := range a.e {
		r = worse(r, v.canSave())
	}
	return r
}
func worse(a, b int) int {
	if a == 0 || b == 0 {
		return 0
	}
	if a == 2 || b == 2 {
		return 2
	}
	return 1
}

func (v *MV) canClone() int {
	switch v.K {
	case "bad":
		if badClones(v.W) {
			return 1
		}
		if v.W == "value" || v.W == "*value" {
			return 2
		}
		return 0
	case "any", "func", "errs":
		return 2
	case "map":
		return v.M.canClone()
	case "arr":
		return v.A.canClone()
	}
	return 1
}
func (m *MMap) canClone() int {
	r := 1
	for _, v := range m.m {
		r = worse(r, v.canClone())
	}
	return r
}
func (a *MArr) canClone() int {
	r := 1
	for _, v := range a.e {
		r = worse(r, v.canClone())
	}
	return r
}

// --- checks against the model ---

// readOne performs a typed read of key k of a document.
func readMap(m *hjson.Map, k, name string, ptr bool, via int) (Res, bool) {
	f := "Get" + name
	if name == "TimePlaces" {
		if via == 0 {
			return resOf(call(m, "GetTimeWithDecimalPlaces", k, 6)), true
		}
		f = "GetTimeWithDecimalPlaces"
	} else if !ptr {
		f += "Value"
	}
	if via == 0 && has(m, f) {
		return resOf(call(m, f, k)), true
	}
	v := m.GetValue(k)
	if v == nil {
		return Res{Nothing: true}, false
	}
	return readVal(v, name, ptr)
}

func readVal(v *hjson.Value, name string, ptr bool) (Res, bool) {
	if name == "TimePlaces" {
		return resOf(call(v, "GetTimeWithDecimalPlaces", 6)), true
	}
	f := "Get" + name
	if !ptr {
		f += "Value"
	}
	if !has(v, f) {
		// no plain form
		return Res{}, false
	}
	return resOf(call(v, f)), true
}

// pointer-only accessors behave as pointer form
func effPtr(name string, ptr bool) bool {
	switch name {
	case "Runes", "Func", "TimePlaces":
		return true
	case "Errors":
		return true
	}
	return ptr
}

// judge compares a read with the model.
func (s *Sim) judge(op *Op, what string, v *MV, name string, ptr bool, r Res) {
	ptr = effPtr(name, ptr)
	e := expect(v, name, ptr)
	if v != nil && v.K == "str" && (name == "Time" || name == "TimePlaces") {
		if v.S == "now" {
			now := s.now()
			e = exact("the current time "+plain(now), func(r Res) bool {
				t, ok := r.V.(time.Time)
				d := t.Sub(now)
				return ok && d > -time.Microsecond && d < time.Microsecond
			})
		} else if !v.T.IsZero() {
			want := v.T.Truncate(time.Microsecond)
			e = exact(plain(want), func(r Res) bool { t, ok := r.V.(time.Time); return ok && t.Equal(want) })
		}
	}
	want, known := e.check(r)
	if known != "" {
		s.known(known)
		return
	}
	if want != "" {
		got := "nothing stored"
		if v != nil {
			got = v.String()
		}
		s.failf("mismatch", op, "%s: reading %s as %s (%s form) where %s is stored gave %s, want %s", describeOp(op), what, name, form(ptr), got, r, want)
	}
}

func form(ptr bool) string {
	if ptr {
		return "pointer"
	}
	return "plain"
}

// checkMap compares a whole document with the model. level 1 asks every
// question through every accessor.
func (s *Sim) checkMap(op *Op, m *hjson.Map, mm *MMap, path string, level int) {
	keys := m.GetKeys()
	if !sameStrings(keys, mm.keys) {
		s.failf("mismatch", op, "%s: document at %s lists keys %s, want %s", describeOp(op), path, quoteList(keys), quoteList(mm.keys))
	}
	if m.IsNil() {
		s.failf("mismatch", op, "%s: document at %s says it is nil", describeOp(op), path)
	}
	vals := m.Values()
	if vals == nil {
		s.failf("mismatch", op, "%s: document at %s gives no value listing", describeOp(op), path)
	}
	if n := vals.Len(); n != len(mm.keys) {
		s.failf("mismatch", op, "%s: document at %s lists %d values for %d keys", describeOp(op), path, n, len(mm.keys))
	}
	for i, k := range mm.keys {
		if !m.HasKey(k) {
			s.failf("mismatch", op, "%s: document at %s denies having key %q", describeOp(op), path, k)
		}
		p := path + "/" + clip(k, 20)
		v := mm.m[k]
		got := m.GetValue(k)
		if got == nil && v.K != "nil" {
			s.failf("mismatch", op, "%s: no value at %s, want %s", describeOp(op), p, v)
		}
		if got != nil {
			s.checkVal(op, got, v, p, level)
		}
		if o := elem(vals, i); o != got {
			if o == nil {
				if v.K != "nil" {
					s.failf("mismatch", op, "%s: the value listing holds nothing for %s, want %s", describeOp(op), p, v)
				}
			} else {
				s.checkVal(op, o, v, p+" in the value listing", 0)
			}
		}
		// the document's own accessors
		names := readTypes
		if level == 0 {
			names = []string{naturalName(v)}
		}
		for _, n := range names {
			for _, ptr := range []bool{true, false} {
				if r, ok := readMap(m, k, n, ptr, 0); ok {
					s.judge(op, p, v, n, ptr, r)
				}
				if level == 0 {
					break
				}
			}
		}
		qs := questions
		if level == 0 {
			qs = nil
		}
		for _, q := range qs {
			if has(m, q) && q != "IsNil" {
				s.ask(op, m, q, v, p, k)
			}
		}
		if v.K == "arr" && level > 0 {
			for _, n := range listTypes {
				s.readList(op, m, k, n, v, p)
			}
		}
	}
	if absent := "\x00 never used"; mm.m[absent] == nil && m.HasKey(absent) {
		s.failf("mismatch", op, "%s: document at %s claims a key it never had", describeOp(op), path)
	}
}

func naturalName(v *MV) string {
	switch v.K {
	case "str":
		return "String"
	case "bool":
		return "Bool"
	case "int":
		return "Int64"
	case "float":
		return "Float64"
	case "time":
		return "Time"
	case "map":
		return "Map"
	case "arr":
		return "Array"
	case "errs":
		return "Errors"
	case "func":
		return "Func"
	}
	return "String"
}

func (s *Sim) ask(op *Op, o interface{}, q string, v *MV, p string, args ...interface{}) {
	want := question(v, q)
	if want == "" {
		return
	}
	got := fmt.Sprint(call(o, q, args...)[0].Interface())
	if got != want {
		s.failf("mismatch", op, "%s: %s at %s where %s is stored answers %s", describeOp(op), q, p, v, got)
	}
}

func (s *Sim) checkVal(op *Op, v *hjson.Value, mv *MV, path string, level int) {
	if mv.K == "any" || mv.K == "bad" {
		return
	}
	qs := []string{"IsNil", "IsString", "IsBool", "IsNumber", "IsMap", "IsArray"}
	names := []string{naturalName(mv)}
	if level > 0 {
		qs, names = questions, readTypes
	}
	for _, q := range qs {
		if has(v, q) {
			s.ask(op, v, q, mv, path)
		}
	}
	for _, n := range names {
		for _, ptr := range []bool{true, false} {
			if r, ok := readVal(v, n, ptr); ok {
				s.judge(op, path, mv, n, ptr, r)
			}
		}
	}
	if mv.K == "int" && level == 0 && !mv.N.IsInt64() {
		if r, ok := readVal(v, "UInt64", true); ok {
			s.judge(op, path, mv, "UInt64", true, r)
		}
	}
	if mv.K == "str" && level > 0 {
		for _, o := range []string{mv.S, mv.S + "x", ""} {
			if got := v.IsValueEqualToStringValue(o); got != (o == mv.S) {
				s.failf("mismatch", op, "%s: comparing %s at %s with %q answers %v", describeOp(op), mv, path, o, got)
			}
			if got := v.IsValueEqualToString(&o); got != (o == mv.S) || v.IsValueEqualToString(nil) {
				s.failf("mismatch", op, "%s: comparing %s at %s with a pointer to %q or with nothing answers %v", describeOp(op), mv, path, o, got)
			}
		}
	}
	switch mv.K {
	case "map":
		m, errs := v.GetMap()
		if m == nil || errs != nil {
			s.failf("mismatch", op, "%s: no document at %s: %v", describeOp(op), path, errs)
		}
		s.checkMap(op, m, mv.M, path, level)
	case "arr":
		a, errs := v.GetArray()
		if a == nil || errs != nil {
			s.failf("mismatch", op, "%s: no array at %s: %v", describeOp(op), path, errs)
		}
		s.checkArr(op, a, mv.A, path, level)
	}
}

func (s *Sim) checkArr(op *Op, a *hjson.Array, ma *MArr, path string, level int) {
	if n := a.Len(); n != len(ma.e) {
		s.failf("mismatch", op, "%s: array at %s has length %d, want %d", describeOp(op), path, n, len(ma.e))
	}
	vs := a.GetValues()
	if vs == nil || len(*vs) != len(ma.e) {
		s.failf("mismatch", op, "%s: array at %s lists %d elements, want %d", describeOp(op), path, len(*vs), len(ma.e))
	}
	for i, e := range ma.e {
		p := fmt.Sprintf("%s[%d]", path, i)
		v := elem(a, i)
		if v == nil {
			if e.K != "nil" {
				s.failf("mismatch", op, "%s: no element at %s, want %s", describeOp(op), p, e)
			}
			continue
		}
		s.checkVal(op, v, e, p, level)
		if e.K == "str" {
			str, errs := a.GetStringValue(i)
			if errs != nil || str != e.S {
				s.failf("mismatch", op, "%s: string at %s reads as %q (%s), want %q", describeOp(op), p, str, errsText(errs), e.S)
			}
		}
		if e.K == "map" {
			if m, errs := a.GetMap(i); m == nil || errs != nil {
				s.failf("mismatch", op, "%s: no document at %s: %v", describeOp(op), p, errs)
			}
		}
	}
	names := listTypes
	if level == 0 {
		names = []string{"String"}
		if len(ma.e) > 0 {
			names = []string{naturalName(ma.e[0])}
		}
	}
	for _, n := range names {
		s.readListArr(op, a, n, ma, path)
	}
}

// readList reads a whole array through its document.
func (s *Sim) readList(op *Op, m *hjson.Map, k, name string, v *MV, path string) {
	for _, ptr := range []bool{true, false} {
		f := "GetArrayOf" + name
		if !ptr {
			f += "Value"
		}
		if !has(m, f) {
			continue
		}
		r := resOf(call(m, f, k))
		s.judgeList(op, v, name, ptr, r, path)
	}
}

func (s *Sim) readListArr(op *Op, a *hjson.Array, name string, ma *MArr, path string) {
	for _, ptr := range []bool{true, false} {
		f := "GetArrayOf" + name
		if !ptr {
			f += "Value"
		}
		if !has(a, f) {
			continue
		}
		r := resOf(call(a, f))
		s.judgeList(op, &MV{K: "arr", A: ma}, name, ptr, r, path)
	}
}

func (s *Sim) judgeList(op *Op, v *MV, name string, ptr bool, r Res, path string) {
	var e Exp
	switch {
	case v == nil || v.K == "nil":
		e = Exp{Mode: "nothing"}
		if !ptr {
			e = errExp
		}
	case v.K == "any" || v.K == "bad":
		return
	case v.K != "arr":
		e = errExp
	default:
		e = expectList(v.A, name, ptr)
		if e.Mode == "exact" || e.Mode == "either" {
			// an empty list may come without a list
			if len(v.A.e) == 0 && !r.Err && len(r.List) == 0 {
				return
			}
		}
	}
	want, known := e.check(r)
	if known != "" {
		s.known(known)
		return
	}
	if want != "" {
		s.failf("mismatch", op, "%s: listing %s as %s (%s form) where %v is stored gave %s, want %s", describeOp(op), path, name, form(ptr), v, r, want)
	}
}

func sameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (s *Sim) checkRef(op *Op, r *ref, level int) {
	switch r.k {
	case "map":
		s.checkMap(op, r.m, r.mm, "", level)
	case "arr":
		s.checkArr(op, r.a, r.ma, "", level)
	case "val":
		s.checkVal(op, r.v, r.mv, "", level)
	}
}

// checkText saves and compares with the model.
func (s *Sim) checkText(op *Op, r *ref) string {
	text, errs := s.text(r)
	mv := r.mval()
	can := mv.canSave()
	if errs != nil {
		if len(errs) == 0 {
			s.failf("mismatch", op, "%s: saving answers an empty list of errors", describeOp(op))
		}
		if can == 1 {
			s.failf("mismatch", op, "%s: saving %s failed: %s", describeOp(op), mv, errsText(errs))
		}
		return "error " + errsText(errs)
	}
	if can == 0 {
		s.failf("mismatch", op, "%s: saving %s, which holds content without a text form, reported no error and gave %s", describeOp(op), mv, clip(text, 200))
	}
	n, err := readText(text)
	if err != nil {
		s.failf("mismatch", op, "%s: saving %s gave unreadable text %q: %v", describeOp(op), mv, clip(text, 300), err)
	}
	if d := n.compare(mv, ""); d != "" {
		s.failf("mismatch", op, "%s: saved text %s differs: %s", describeOp(op), clip(text, 300), d)
	}
	if s.p.Prop == "C18" {
		if err := foreign(text, mv); err != nil {
			s.failf("mismatch", op, "%s: another program given the saved text %q: %v", describeOp(op), clip(text, 300), err)
		}
		s.probe("text read by another program")
	}
	return text
}

// --- operations ---

func (s *Sim) parseChecked(op *Op, text string, mm *MMap, level int) *hjson.Map {
	m, errs := hjson.Parse(text)
	if m == nil || errs != nil {
		s.failf("mismatch", op, "%s: loading %s failed: %s", describeOp(op), clip(text, 300), errsText(errs))
	}
	s.checkMap(op, m, mm, "", level)
	return m
}

func (s *Sim) refused(op *Op, what string, err bool) {
	if !err {
		s.failf("mismatch", op, "%s: %s reported no error", describeOp(op), what)
	}
}

func errv(ok bool, err error) string { return fmt.Sprint(ok, " ", err) }

func (s *Sim) newRef(v *Val) *ref {
	mv := v.model()
	r := &ref{}
	switch v.K {
	case "map":
		r.k, r.mm = "map", mv.M
		if !s.dry {
			r.m = v.buildMap()
		}
	case "arr":
		r.k, r.ma = "arr", mv.A
		if !s.dry {
			r.a = v.buildArray()
		}
	default:
		r.k, r.mv = "val", mv
		if !s.dry {
			if v.How == 1 {
				x := hjson.NewValueValue(v.object(v.P))
				r.v = &x
			} else if v.How == 2 {
				r.v = hjson.NewValue(nil)
				valSet(r.v, v, 0)
			} else {
				r.v = hjson.NewValue(v.object(v.P))
			}
		}
	}
	return r
}

// value returns the *Value an operation names: key K of a document, index I
// of an array, or the value slot itself.
func (s *Sim) value(op *Op, r *ref) (*hjson.Value, *MV) {
	switch r.k {
	case "map":
		mv := r.mm.m[string(op.K)]
		if mv == nil {
			s.skip()
		}
		if s.dry {
			return nil, mv
		}
		var v *hjson.Value
		if op.Via == 3 {
			for i, k := range r.mm.keys {
				if k == string(op.K) {
					v = elem(r.m.Values(), i)
				}
			}
		} else {
			v = r.m.GetValue(string(op.K))
		}
		if v == nil && mv.K == "nil" {
			s.skip() // nothing may be held as no value at all
		}
		if v == nil {
			s.failf("mismatch", op, "%s: no value where %s is stored", describeOp(op), mv)
		}
		return v, mv
	case "arr":
		if op.I < 0 || op.I >= len(r.ma.e) {
			s.skip()
		}
		mv := r.ma.e[op.I]
		if s.dry {
			return nil, mv
		}
		v := elem(r.a, op.I)
		if v == nil && mv.K == "nil" {
			s.skip() // nothing may be held as no value at all
		}
		if v == nil {
			s.failf("mismatch", op, "%s: no value where %s is stored", describeOp(op), mv)
		}
		return v, mv
	}
	return r.v, r.mv
}

func (s *Sim) do(op *Op) string {
	switch op.T {
	case "parse":
		mv := op.V.model().reloaded()
		r := &ref{k: "map", mm: mv.M}
		if !s.dry {
			r.m = s.parseChecked(op, string(op.Text), mv.M, int(op.N))
		}
		s.slots[op.D] = r
		return "parsed"
	case "new":
		r := s.newRef(op.V)
		s.slots[op.D] = r
		return "built"
	case "native":
		return s.native(op)
	case "set":
		r := s.at(op)
		if r.k == "val" {
			r = s.open(op, r)
		}
		if r.k != "map" {
			s.skip()
		}
		if !s.dry {
			mapSet(r.m, string(op.K), op.V, op.V.How)
		}
		r.mm.set(string(op.K), op.V.model())
		return "set"
	case "setvia":
		r := s.at(op)
		v, mv := s.value(op, r)
		if !s.dry {
			valSet(v, op.V, op.V.How)
		}
		*mv = *op.V.model()
		return "set"
	case "rm":
		r := s.at(op)
		if r.k != "map" {
			s.skip()
		}
		_, present := r.mm.m[string(op.K)]
		out := "rm"
		if !s.dry {
			ok, err := r.m.RemoveKey(string(op.K))
			if present && (!ok || err != nil) {
				s.failf("mismatch", op, "%s: removing a present key answers %v, %v", describeOp(op), ok, err)
			}
			if !present && err == nil {
				s.failf("mismatch", op, "%s: removing a missing key reported no error (%v)", describeOp(op), ok)
			}
			if !present && ok {
				s.failf("mismatch", op, "%s: removing a missing key answers that it was removed", describeOp(op))
			}
			out = errv(ok, err)
		}
		r.mm.remove(string(op.K))
		return out
	case "app":
		r := s.at(op)
		if r.k != "arr" {
			s.skip()
		}
		if !s.dry {
			arrAppend(r.a, op.V, op.V.How)
		}
		r.ma.e = append(r.ma.e, op.V.model())
		return "app"
	case "aset", "arm":
		r := s.at(op)
		if r.k != "arr" {
			s.skip()
		}
		in := op.I >= 0 && op.I < len(r.ma.e)
		out := op.T
		if !s.dry {
			var ok bool
			var err error
			if op.T == "aset" {
				var v *hjson.Value
				if op.V.How == 2 {
					x := hjson.NewValueValue(op.V.object(op.V.P))
					v = &x
				} else if op.V.K != "nil" || op.V.W != "Value" {
					v = hjson.NewValue(op.V.object(op.V.P))
				}
				ok, err = r.a.SetValueAtIndex(op.I, v)
			} else {
				ok, err = r.a.RemoveValueAtIndex(op.I)
			}
			if in && (!ok || err != nil) {
				s.failf("mismatch", op, "%s: index %d of %d answers %v, %v", describeOp(op), op.I, len(r.ma.e), ok, err)
			}
			if !in && (ok || err == nil) {
				s.failf("mismatch", op, "%s: index %d of %d was not refused: %v, %v", describeOp(op), op.I, len(r.ma.e), ok, err)
			}
			out = errv(ok, err)
			if !in {
				s.probe("refused index")
			}
		}
		if in && op.T == "aset" {
			r.ma.e[op.I] = op.V.model()
		} else if in {
			r.ma.e = append(append([]*MV{}, r.ma.e[:op.I]...), r.ma.e[op.I+1:]...)
		}
		return out
	case "attach":
		return s.attach(op)
	case "handle":
		// keep what is stored at a place
		r := s.at(op)
		if op.A == "value" {
			v, mv := s.value(op, r)
			s.slots[op.D] = &ref{k: "val", v: v, mv: mv}
			return "handle"
		}
		s.slots[op.D] = r
		return "handle"
	case "clone":
		return s.clone(op)
	case "reload":
		r := s.at(op)
		if r.k != "map" || r.mm.canSave() != 1 {
			s.skip()
		}
		mv := r.mval().reloaded()
		n := &ref{k: "map", mm: mv.M}
		if !s.dry {
			text := s.checkText(op, r)
			n.m = s.parseChecked(op, text, mv.M, int(op.N))
		}
		s.slots[op.D] = n
		return "reloaded"
	case "render", "convert":
		return s.render(op)
	case "read":
		return s.read(op)
	case "list":
		r := s.at(op)
		if s.dry {
			return ""
		}
		f := "GetArrayOf" + op.A
		if !op.P {
			f += "Value"
		}
		if r.k == "map" {
			if !has(r.m, f) {
				s.skip()
			}
			res := resOf(call(r.m, f, string(op.K)))
			s.judgeList(op, r.mm.m[string(op.K)], op.A, op.P, res, "/"+clip(string(op.K), 20))
			return res.String()
		}
		if r.k != "arr" || !has(r.a, f) {
			s.skip()
		}
		res := resOf(call(r.a, f))
		s.judgeList(op, &MV{K: "arr", A: r.ma}, op.A, op.P, res, "the array")
		return res.String()
	case "ask":
		r := s.at(op)
		if s.dry {
			return ""
		}
		if r.k == "map" && op.Via == 0 {
			if !has(r.m, op.A) {
				s.skip()
			}
			mv := r.mm.m[string(op.K)]
			if mv == nil {
				mv = &MV{K: "nil"}
			}
			s.ask(op, r.m, op.A, mv, "/"+clip(string(op.K), 20), string(op.K))
			return fmt.Sprint(call(r.m, op.A, string(op.K))[0].Interface())
		}
		v, mv := s.value(op, r)
		if !has(v, op.A) {
			s.skip()
		}
		s.ask(op, v, op.A, mv, "the value")
		return fmt.Sprint(call(v, op.A)[0].Interface())
	case "typeof":
		r := s.at(op)
		if s.dry {
			return ""
		}
		if r.k == "map" && op.Via == 0 {
			return r.m.GetType(string(op.K))
		}
		v, _ := s.value(op, r)
		return v.GetType()
	case "check":
		r := s.at(op)
		if !s.dry {
			s.checkRef(op, r, int(op.N))
		}
		return "ok"
	case "save":
		r := s.at(op)
		if s.dry {
			return ""
		}
		return s.checkText(op, r)
	case "len":
		r := s.at(op)
		if s.dry {
			return ""
		}
		if r.k == "arr" {
			if n := r.a.Len(); n != len(r.ma.e) {
				s.failf("mismatch", op, "%s: length %d, want %d", describeOp(op), n, len(r.ma.e))
			}
			return fmt.Sprint(len(r.ma.e))
		}
		if r.k != "map" {
			s.skip()
		}
		if got := r.m.HasKey(string(op.K)); got != (r.mm.m[string(op.K)] != nil) {
			s.failf("mismatch", op, "%s: membership of %q answers %v", describeOp(op), string(op.K), got)
		}
		if k := r.m.GetKeys(); !sameStrings(k, r.mm.keys) {
			s.failf("mismatch", op, "%s: keys %s, want %s", describeOp(op), quoteList(k), quoteList(r.mm.keys))
		}
		vals := r.m.Values()
		if vals == nil || vals.Len() != len(r.mm.keys) {
			s.failf("mismatch", op, "%s: the value listing does not have %d values", describeOp(op), len(r.mm.keys))
		}
		for i, k := range r.mm.keys {
			v := elem(vals, i)
			if mv := r.mm.m[k]; v != nil {
				s.checkVal(op, v, mv, "value listing at "+clip(k, 20), 0)
			} else if mv.K != "nil" {
				s.failf("mismatch", op, "%s: the value listing holds nothing for %q", describeOp(op), k)
			}
		}
		return quoteList(r.mm.keys)
	case "parsebad":
		if s.dry {
			return ""
		}
		m, errs := hjson.Parse(string(op.Text))
		if m != nil || len(errs) == 0 {
			s.failf("mismatch", op, "%s: malformed text %q was not refused (document: %v, %d errors)", describeOp(op), clip(string(op.Text), 200), m != nil, len(errs))
		}
		s.fault("malformed text")
		return errsText(errs)
	case "savenil":
		r := s.at(op)
		if s.dry {
			return ""
		}
		errs := s.textTo(r, nil)
		if len(errs) == 0 {
			s.failf("mismatch", op, "%s: saving without a destination reported no error", describeOp(op))
		}
		return errsText(errs)
	case "aget":
		// array reads by index
		r := s.at(op)
		if r.k != "arr" {
			s.skip()
		}
		if s.dry {
			return ""
		}
		var e *MV
		if op.I >= 0 && op.I < len(r.ma.e) {
			e = r.ma.e[op.I]
		}
		if op.A == "Map" {
			m, errs := r.a.GetMap(op.I)
			if e != nil && e.K == "map" {
				if m == nil || errs != nil {
					s.failf("mismatch", op, "%s: no document: %s", describeOp(op), errsText(errs))
				}
				s.checkMap(op, m, e.M, "", 0)
			} else if e == nil || e.K != "any" && e.K != "bad" {
				if m != nil || len(errs) == 0 {
					s.failf("mismatch", op, "%s: reading a document that is not there was not refused", describeOp(op))
				}
			}
			return errsText(errs)
		}
		str, errs := r.a.GetStringValue(op.I)
		if e != nil && e.K == "str" {
			if str != e.S || errs != nil {
				s.failf("mismatch", op, "%s: reads %q (%s), want %q", describeOp(op), str, errsText(errs), e.S)
			}
		} else if (e == nil || e.K != "any" && e.K != "bad") && len(errs) == 0 {
			s.failf("mismatch", op, "%s: reading a string that is not there was not refused", describeOp(op))
		}
		return str + errsText(errs)
	case "keys":
		r := s.at(op)
		if r.k != "map" {
			s.skip()
		}
		l := &Listing{want: append([]string{}, r.mm.keys...)}
		if !s.dry {
			l.got = r.m.GetKeys()
			if !sameStrings(l.got, l.want) {
				s.failf("mismatch", op, "%s: lists keys %s, want %s", describeOp(op), quoteList(l.got), quoteList(l.want))
			}
		}
		s.lists[op.D] = l
		return quoteList(l.want)
	case "hold":
		return s.hold(op)
	case "heldcheck":
		return s.heldCheck(op)
	case "keyscheck":
		l := s.lists[op.D]
		if l == nil {
			s.skip()
		}
		if !s.dry {
			if len(l.got) != len(l.want) {
				s.failf("mismatch", op, "%s: a key listing taken earlier changed its length to %d, was %s", describeOp(op), len(l.got), quoteList(l.want))
			}
			for i := range l.got {
				if got := *simrt.RP(&l.got[i], harnessSite); got != l.want[i] {
					s.failf("mismatch", op, "%s: a key listing taken earlier changed from %s to %s", describeOp(op), quoteList(l.want), quoteList(l.got))
				}
				s.w.Yield()
			}
		}
		return "same"
	case "keysmut":
		l := s.lists[op.D]
		if l == nil {
			s.skip()
		}
		mut := func(x []string, real bool) []string {
			wr := func(i int, v string) {
				if real {
					*simrt.WP(&x[i], harnessSite) = v
				} else {
					x[i] = v
				}
			}
			switch op.A {
			case "sort":
				for i, j := 0, len(x)-1; i < j; i, j = i+1, j-1 {
					a, b := x[i], x[j]
					wr(i, b)
					wr(j, a)
				}
			case "append":
				if real {
					x = simrt.AP(x, harnessSite)
				}
				x = append(x, "appended by the caller")
			case "truncate":
				if len(x) > 0 {
					x = x[:len(x)-1]
				}
			case "cutappend":
				if len(x) > 0 {
					x = x[:len(x)-1]
					if real {
						x = simrt.AP(x, harnessSite)
					}
					x = append(x, "put in place of the last")
				}
			default:
				if len(x) > 0 {
					wr(op.I%len(x), "changed by the caller")
				}
			}
			return x
		}
		l.want = mut(l.want, false)
		if !s.dry {
			l.got = mut(l.got, true)
			s.probe("listing changed by its holder")
		}
		return "changed"
	case "walk":
		return s.walkKeys(op)
	case "poke":
		return s.poke(op)
	case "clock":
		t := time.Unix(0, op.N).UTC()
		if s.dry {
			s.dryClk = t
			return ""
		}
		d := t.Sub(s.w.Now())
		if d < 0 {
			s.fault("clock jumps back")
			d = -d
		} else if d == 0 {
			s.fault("clock stalls")
		} else {
			s.fault("clock jumps forward")
		}
		s.st.SimTime += d
		s.w.SetClock(t)
		return "clock"
	case "damage":
		return s.damage(op)
	case "endless":
		return s.endless(op)
	case "cut":
		return s.cut(op)
	case "dsave":
		return s.dsave(op)
	case "dload":
		f := s.files[op.D]
		if f == nil {
			s.skip()
		}
		mv := (&MV{K: "map", M: f.model}).reloaded()
		r := &ref{k: "map", mm: mv.M}
		if !s.dry {
			r.m = s.parseChecked(op, f.text, mv.M, int(op.N))
		}
		s.slots[op.S] = r
		return "loaded"
	case "drop":
		delete(s.slots, op.S)
		return "dropped"
	}
	panic("unknown operation " + op.T)
}

func (s *Sim) read(op *Op) string {
	r := s.at(op)
	if r.k == "map" {
		mv := r.mm.m[string(op.K)]
		if s.dry {
			return ""
		}
		res, ok := readMap(r.m, string(op.K), op.A, op.P, op.Via)
		if !ok {
			if res.Nothing && mv != nil && mv.K != "nil" {
				s.failf("mismatch", op, "%s: no value where %s is stored", describeOp(op), mv)
			}
			return "nothing"
		}
		s.judge(op, "/"+clip(string(op.K), 30), mv, op.A, op.P, res)
		return res.String()
	}
	v, mv := s.value(op, r)
	if s.dry {
		return ""
	}
	res, ok := readVal(v, op.A, op.P)
	if !ok {
		s.skip()
	}
	s.judge(op, "the value", mv, op.A, op.P, res)
	return res.String()
}

// render turns a held value, or one of the caller's own, into plain text.
func (s *Sim) render(op *Op) string {
	var mv *MV
	var x interface{}
	var what string
	var nested bool // a value held by a value has no text form of its own
	if op.T == "convert" {
		mv, what = op.V.model(), "its own value"
		if s.dry {
			return ""
		}
		x = op.V.object(op.V.P)
		if op.Via == 2 {
			x = hjson.NewValue(x)
		}
		if nested = op.Via == 3; nested {
			inner := hjson.NewValue(x)
			x = hjson.NewValue(inner)
			if op.V.P {
				x = hjson.NewValueValue(*inner)
			}
		}
	} else {
		r := s.at(op)
		var v *hjson.Value
		v, mv = s.value(op, r)
		if s.dry {
			return ""
		}
		what = "the value"
		switch op.A {
		case "plain":
			x = *v
		case "object":
			x = v.GetObject()
		default:
			x = v
		}
	}
	text, errs := hjson.ConvertInterfaceValueToStringValue(x)
	res := Res{V: text, Err: errs != nil, Msgs: errsText(errs)}
	if errs != nil && (len(errs) == 0 || text != "") {
		s.failf("mismatch", op, "%s: rendering %s gave both %q and errors %q", describeOp(op), what, clip(text, 100), errsText(errs))
	}
	e := rendering(mv)
	if want, _ := e.check(res); want != "" {
		s.failf("mismatch", op, "%s: rendering %s where %s is held gave %s, want %s", describeOp(op), what, mv, res, want)
	}
	// the same as a part of a document's text
	if can := mv.canSave(); can == 1 && !nested {
		var sb strings.Builder
		sb.WriteString(`{"":`)
		errs := hjson.ConvertInterfaceValueToJSONStringValue(&sb, x)
		if errs != nil {
			s.failf("mismatch", op, "%s: writing %s where %s is held as text failed: %s", describeOp(op), what, mv, errsText(errs))
		}
		sb.WriteString("}")
		n, err := readText(sb.String())
		whole := newMMap()
		whole.set("", mv)
		if err != nil {
			s.failf("mismatch", op, "%s: writing %s where %s is held gave unreadable text %q: %v", describeOp(op), what, mv, clip(sb.String(), 300), err)
		}
		if d := n.compare(&MV{K: "map", M: whole}, ""); d != "" {
			s.failf("mismatch", op, "%s: text %s written for %s differs: %s", describeOp(op), clip(sb.String(), 300), what, d)
		}
	}
	return res.String()
}

// attach stores what slot D holds at (S, Path) under K, or appends it, or
// puts it at index I.
func (s *Sim) attach(op *Op) string {
	r := s.at(op)
	d := s.slots[op.D]
	if d == nil {
		s.skip()
	}
	mv := d.mval()
	// no document may end up inside itself
	if r.k == "val" {
		s.skip()
	}
	if r.k == "map" && (mv.M == r.mm && r.mm != nil || mv.reaches(r.mm, nil)) {
		s.skip()
	}
	if r.k == "arr" && (mv.A == r.ma && r.ma != nil || mv.reaches(nil, r.ma)) {
		s.skip()
	}
	if d.k == "val" && d.mv.K == "bad" {
		s.skip()
	}
	k := string(op.K)
	// a value may also take the place of an element
	put := r.k == "arr" && d.k == "val" && op.Via == 3 && op.I >= 0 && op.I < len(r.ma.e)
	if put {
		if !s.dry {
			if done, err := r.a.SetValueAtIndex(op.I, d.v); !done || err != nil {
				s.failf("mismatch", op, "putting a value in the place of an element answers %v, %v", done, err)
			}
		}
		r.ma.e[op.I] = mv
		return "put"
	}
	if !s.dry {
		if r.k == "map" {
			switch {
			case d.k == "val":
				r.m.SetValue(k, d.v)
			case d.k == "map" && op.Via == 0:
				r.m.SetMap(k, d.m)
			case d.k == "map" && op.Via == 1:
				r.m.SetMapValue(k, *d.m)
			case d.k == "map" && op.Via == 2:
				r.m.SetObjectForMap(k, d.m)
			case d.k == "map":
				r.m.SetValue(k, hjson.NewValue(d.m))
			case op.Via == 0:
				r.m.SetArray(k, d.a)
			case op.Via == 1:
				r.m.SetArrayValue(k, *d.a)
			case op.Via == 2:
				r.m.SetObjectForMap(k, d.a)
			default:
				r.m.SetValue(k, hjson.NewValue(d.a))
			}
		} else {
			switch {
			case d.k == "val" && op.Via == 1:
				r.a.AppendValueValue(*d.v)
			case d.k == "val":
				r.a.AppendValue(d.v)
			case d.k == "map" && op.Via == 0:
				r.a.AppendMap(d.m)
			case d.k == "map" && op.Via == 1:
				r.a.AppendMapValue(*d.m)
			case d.k == "map":
				r.a.AppendValue(hjson.NewValue(d.m))
			case op.Via == 0:
				r.a.AppendArray(d.a)
			case op.Via == 1:
				r.a.AppendArrayValue(*d.a)
			default:
				r.a.AppendValue(hjson.NewValue(d.a))
			}
		}
	}
	if r.k == "map" {
		r.mm.set(k, mv)
	} else {
		r.ma.e = append(r.ma.e, mv)
	}
	return "attached"
}

func (s *Sim) clone(op *Op) string {
	r := s.at(op)
	if op.A == "value" {
		v, mv := s.value(op, r)
		r = &ref{k: "val", v: v, mv: mv}
	}
	mv := r.mval()
	can := mv.canClone()
	c := mv.clone()
	n := &ref{k: r.k}
	switch r.k {
	case "map":
		n.mm = c.M
	case "arr":
		n.ma = c.A
	default:
		n.mv = c
	}
	out := "cloned"
	if !s.dry {
		var errs []error
		var got bool
		switch r.k {
		case "map":
			n.m, errs = r.m.Clone()
			got = n.m != nil
		case "arr":
			n.a, errs = r.a.Clone()
			got = n.a != nil
		default:
			n.v, errs = r.v.Clone()
			got = n.v != nil
		}
		if errs != nil || !got {
			if can == 1 || len(errs) == 0 {
				s.failf("mismatch", op, "%s: cloning %s failed: %s", describeOp(op), mv, errsText(errs))
			}
			if got {
				s.failf("mismatch", op, "%s: cloning %s gave both a clone and errors: %s", describeOp(op), mv, errsText(errs))
			}
			delete(s.slots, op.D)
			s.probe("clone refused")
			return "error " + errsText(errs)
		}
		if can == 0 {
			s.failf("mismatch", op, "%s: cloning %s, which holds content that cannot be copied, reported no error", describeOp(op), mv)
		}
		s.checkRef(op, n, int(op.N))
	} else if can == 0 {
		delete(s.slots, op.D)
		return "error"
	}
	s.slots[op.D] = n
	return out
}

// poke writes through the pointers reads hand out and puts everything back.
func (s *Sim) poke(op *Op) string {
	r := s.at(op)
	v, mv := s.value(op, r)
	if mv.Q > 0 {
		// callers hold the pointer in other places too
		s.skip()
	}
	if s.dry {
		return ""
	}
	turns := func() {
		for i := 0; i < 3; i++ {
			s.w.Yield()
		}
	}
	if rv := reflect.ValueOf(v.GetObject()); op.Via%2 == 1 && mv.K != "map" && mv.K != "arr" && rv.Kind() == reflect.Pointer && !rv.IsNil() {
		// through whatever object is stored
		e := rv.Elem()
		old := reflect.New(e.Type()).Elem()
		old.Set(e)
		other := reflect.Zero(e.Type())
		switch x := e.Interface().(type) {
		case time.Time:
			other = reflect.ValueOf(x.Add(time.Hour))
		case string:
			other = reflect.ValueOf(x + "poked")
		case bool:
			other = reflect.ValueOf(!x)
		case float64, float32:
			other = reflect.ValueOf(424242.5).Convert(e.Type())
		default:
			if e.Kind() != reflect.Int && !e.CanInt() && !e.CanUint() {
				s.skip()
			}
		}
		simrt.WP((*byte)(rv.UnsafePointer()), harnessSite)
		e.Set(other)
		turns()
		simrt.WP((*byte)(rv.UnsafePointer()), harnessSite)
		e.Set(old)
		s.probe("wrote through a stored pointer")
		return "poked"
	}
	switch mv.K {
	case "str":
		p, _ := v.GetString()
		if p != nil {
			old := *p
			*simrt.WP(p, harnessSite) = "poked"
			turns()
			*simrt.WP(p, harnessSite) = old
		}
	case "bool":
		p, _ := v.GetBool()
		if p != nil {
			old := *p
			*simrt.WP(p, harnessSite) = !old
			turns()
			*simrt.WP(p, harnessSite) = old
		}
	case "time":
		p, _ := v.GetTime()
		if p != nil {
			old := *p
			*simrt.WP(p, harnessSite) = old.Add(time.Hour)
			turns()
			*simrt.WP(p, harnessSite) = old
		}
	case "errs":
		l, _ := v.GetErrors()
		if len(l) > 0 {
			old := l[0]
			simrt.WL(l, harnessSite)[0] = errors.New("poked")
			turns()
			simrt.WL(l, harnessSite)[0] = old
		}
	case "int":
		// integers, through whatever object is stored
		o := v.GetObject()
		rv := reflect.ValueOf(o)
		if rv.Kind() == reflect.Pointer && !rv.IsNil() {
			e := rv.Elem()
			old := reflect.New(e.Type()).Elem()
			old.Set(e)
			simrt.WP((*byte)(rv.UnsafePointer()), harnessSite)
			e.Set(reflect.Zero(e.Type()))
			turns()
			simrt.WP((*byte)(rv.UnsafePointer()), harnessSite)
			e.Set(old)
		}
	case "float":
		switch p := v.GetObject().(type) {
		case *float64:
			old := *p
			*simrt.WP(p, harnessSite) = 424242.5
			turns()
			*simrt.WP(p, harnessSite) = old
		case *float32:
			old := *p
			*simrt.WP(p, harnessSite) = 424242.5
			turns()
			*simrt.WP(p, harnessSite) = old
		}
	default:
		s.skip()
	}
	s.probe("wrote through a returned pointer")
	return "poked"
}

// walkKeys walks a key listing while editing the document.
func (s *Sim) walkKeys(op *Op) string {
	r := s.at(op)
	if r.k != "map" {
		s.skip()
	}
	want := append([]string{}, r.mm.keys...)
	edit := func(i int) (string, string) {
		k := want[i]
		switch op.A {
		case "rm":
			return "rm", k
		case "rmnext":
			return "rm", want[(i+1)%len(want)]
		case "rmlast":
			return "rm", want[len(want)-1-i]
		case "add":
			return "set", fmt.Sprintf("added %d", i)
		case "readd":
			return "readd", k
		}
		return "set", k
	}
	visit := func(k string, i int) {
		if i >= len(want) || k != want[i] {
			s.failf("mismatch", op, "%s: walking a key listing while editing (%s) visits %q at place %d of %s", describeOp(op), op.A, k, i, quoteList(want))
		}
	}
	one := func(i int, real bool) {
		what, k := edit(i)
		v := &Val{K: "int", W: "int", N: fmt.Sprint(i)}
		if real {
			if what != "set" && r.m.HasKey(k) {
				r.m.RemoveKey(k)
			}
			if what != "rm" {
				mapSet(r.m, k, v, 0)
			}
		}
	}
	if !s.dry {
		n := 0
		for i, k := range r.m.GetKeys() {
			visit(k, i)
			one(i, true)
			n++
		}
		if n != len(want) {
			s.failf("mismatch", op, "%s: walking a key listing visited %d of %s", describeOp(op), n, quoteList(want))
		}
	}
	for i := range want {
		what, k := edit(i)
		if what != "set" {
			r.mm.remove(k)
		}
		if what != "rm" {
			r.mm.set(k, &MV{K: "int", W: "int", N: big.NewInt(int64(i))})
		}
	}
	if !s.dry {
		s.checkMap(op, r.m, r.mm, "", 0)
	}
	return "walked"
}

// native builds from a native map or slice.
func (s *Sim) native(op *Op) string {
	mv := op.V.model()
	r := &ref{}
	if op.V.K == "arr" {
		r.k, r.ma = "arr", mv.A
		if !s.dry {
			src := []interface{}{}
			for _, e := range op.V.Es {
				src = append(src, nativeEntry(e))
			}
			n := len(src)
			hand(&src)
			r.a = hjson.NewArrayOfValues(&src)
			s.checkArr(op, r.a, r.ma, "", int(op.N))
			if len(src) != n {
				s.failf("mismatch", op, "%s: building changed the source slice", describeOp(op))
			}
			// later changes of the source are not the document's business
			if holding {
				return keepNative(s, op, r)
			}
			for i := range src {
				src[i] = "changed afterwards"
			}
		}
		s.slots[op.D] = r
		return "built"
	}
	r.k, r.mm = "map", mv.M
	if !s.dry {
		src := map[string]interface{}{}
		for i, k := range op.V.Ks {
			src[string(k)] = nativeEntry(op.V.Es[i])
		}
		n := len(src)
		hand(&src)
		r.m = hjson.NewMapOfValues(&src)
		if len(src) != n {
			s.failf("mismatch", op, "%s: building changed the source map", describeOp(op))
		}
		keys := r.m.GetKeys()
		seen := map[string]bool{}
		for _, k := range keys {
			if seen[k] || r.mm.m[k] == nil {
				s.failf("mismatch", op, "%s: a document built from a native map with keys %s lists keys %s", describeOp(op), quoteList(r.mm.keys), quoteList(keys))
			}
			seen[k] = true
		}
		if len(keys) != len(r.mm.keys) {
			s.failf("mismatch", op, "%s: a document built from a native map with keys %s lists keys %s", describeOp(op), quoteList(r.mm.keys), quoteList(keys))
		}
		for i, k := range keys {
			if i < len(r.mm.keys) && r.mm.keys[i] != k {
				s.probe("hash order differs from source order")
				break
			}
		}
		// from here on this is the document's order
		r.mm.keys = append([]string{}, keys...)
		s.checkMap(op, r.m, r.mm, "", int(op.N))
		if holding {
			return keepNative(s, op, r)
		}
		for k := range src {
			delete(src, k)
		}
	}
	s.slots[op.D] = r
	return "built"
}

func keepNative(s *Sim, op *Op, r *ref) string {
	s.slots[op.D] = r
	return "built"
}

// nativeEntry is an entry of a native map or slice: the object itself, or a
// Value holding it.
func nativeEntry(e *Val) interface{} {
	o := e.object(e.P)
	switch e.How {
	case 1:
		return hjson.NewValue(o)
	case 2:
		return hjson.NewValueValue(o)
	}
	return o
}

// --- faults ---

// damage loads damaged text.
func (s *Sim) damage(op *Op) string {
	if s.dry {
		return ""
	}
	m, errs := hjson.Parse(string(op.Text))
	s.fault(op.A)
	if m == nil && len(errs) == 0 {
		s.failf("mismatch", op, "%s: loading damaged text %q answers neither a document nor an error", describeOp(op), clip(string(op.Text), 300))
	}
	if m != nil && errs != nil {
		s.failf("mismatch", op, "%s: loading damaged text %q answers both a document and errors: %s", describeOp(op), clip(string(op.Text), 300), errsText(errs))
	}
	if m == nil {
		s.probe("damaged text refused")
		return errsText(errs)
	}
	s.probe("damaged text accepted")
	mm := s.observe(op, m)
	r := &ref{k: "map", m: m, mm: mm}
	s.w.Cur().Budget = s.budget()
	s.checkMap(op, m, mm, "", int(op.N))
	c, errs := m.Clone()
	if c == nil || errs != nil {
		s.failf("mismatch", op, "%s: a document loaded from damaged text %q cannot be cloned: %s", describeOp(op), clip(string(op.Text), 300), errsText(errs))
	}
	s.checkMap(op, c, mm, "", 0)
	text := s.checkText(op, r)
	back, errs := hjson.Parse(text)
	if back == nil || errs != nil {
		s.failf("mismatch", op, "%s: a document loaded from damaged text %q saves to %q, which does not load: %s", describeOp(op), clip(string(op.Text), 300), clip(text, 300), errsText(errs))
	}
	s.checkMap(op, back, (&MV{K: "map", M: mm}).reloaded().M, "", int(op.N))
	if s.p.Prop == "C17" {
		return text + " meaning " + (&MV{K: "map", M: mm}).describe(50)
	}
	return text
}

// endless stores a container inside itself: it has no text, no finite copy.
func (s *Sim) endless(op *Op) string {
	if s.dry {
		return ""
	}
	m, a := hjson.NewMap(), hjson.NewArray()
	m.SetStringValue("first", "1")
	undo := func() { m.RemoveKey("k") }
	switch op.Via {
	case 0:
		m.SetMap("k", m)
	case 1:
		m.SetMapValue("k", *m)
	case 2:
		m.SetArray("k", a)
		a.AppendMap(m)
	case 3:
		m.SetArray("k", a)
		a.AppendArray(a)
	default:
		v := hjson.NewValue(nil)
		v.SetMap(m)
		a.AppendValue(v)
		m.SetArrayValue("k", *a)
	}
	for i := 0; i < op.I; i++ {
		outer := hjson.NewMap()
		outer.SetIntValue("n", i)
		outer.SetMap("in", m)
		if i == 0 {
			inner := m
			undo = func() { inner.RemoveKey("k") }
		}
		m = outer
	}
	r := &ref{k: "map", m: m}
	t := s.w.Cur()
	t.Budget = t.OpSteps + 60000
	s.inEndless = true
	var text string
	var errs []error
	if op.A == "save" {
		text, errs = s.text(r)
	} else {
		_, errs = m.Clone()
	}
	s.inEndless = false
	t.Budget = s.budget()
	if len(errs) == 0 {
		s.failf("mismatch", op, "%s: a %s of a document that contains itself reported no error %s", describeOp(op), op.A, clip(text, 300))
	}
	undo()
	if op.A == "save" {
		text, errs = s.text(r)
	} else {
		_, errs = m.Clone()
	}
	if len(errs) != 0 {
		s.failf("mismatch", op, "%s: a %s still fails although the document no longer contains itself: %s", describeOp(op), op.A, errsText(errs))
	}
	return "refused"
}

// observe builds the model of a document from what it says about itself.
func (s *Sim) observe(op *Op, m *hjson.Map) *MMap {
	mm := newMMap()
	keys := m.GetKeys()
	for _, k := range keys {
		if mm.m[k] != nil {
			s.failf("mismatch", op, "%s: a document loaded from damaged text %q lists key %q twice", describeOp(op), clip(string(op.Text), 300), k)
		}
		v := m.GetValue(k)
		if v == nil {
			mm.set(k, &MV{K: "nil"})
			continue
		}
		mm.set(k, s.observeVal(op, v))
	}
	return mm
}

func (s *Sim) observeVal(op *Op, v *hjson.Value) *MV {
	bad := func(errs []error) {
		s.failf("mismatch", op, "%s: a document loaded from damaged text %q holds a value that cannot be read: %s %s", describeOp(op), clip(string(op.Text), 300), v.GetType(), errsText(errs))
	}
	switch {
	case v.IsNil():
		return &MV{K: "nil"}
	case v.IsMap():
		m, errs := v.GetMap()
		if m == nil || errs != nil {
			bad(errs)
		}
		return &MV{K: "map", M: s.observe(op, m)}
	case v.IsArray():
		a, errs := v.GetArray()
		if a == nil || errs != nil {
			bad(errs)
		}
		ma := &MArr{}
		for i := 0; i < a.Len(); i++ {
			e := elem(a, i)
			if e == nil {
				ma.e = append(ma.e, &MV{K: "nil"})
				continue
			}
			ma.e = append(ma.e, s.observeVal(op, e))
		}
		return &MV{K: "arr", A: ma}
	case v.IsString():
		x, errs := v.GetStringValue()
		if errs != nil {
			bad(errs)
		}
		return &MV{K: "str", S: x}
	case v.IsBool():
		x, errs := v.GetBoolValue()
		if errs != nil {
			bad(errs)
		}
		return &MV{K: "bool", B: x}
	case v.IsInteger():
		if x, errs := v.GetInt64(); errs == nil && x != nil {
			return &MV{K: "int", W: "int64", Loaded: true, N: big.NewInt(*x)}
		}
		x, errs := v.GetUInt64()
		if errs != nil || x == nil {
			bad(errs)
		}
		return &MV{K: "int", W: "uint64", Loaded: true, N: new(big.Int).SetUint64(*x)}
	case v.IsFloat():
		x, errs := v.GetFloat64()
		if errs != nil || x == nil {
			bad(errs)
		}
		w := "float64"
		if v.IsFloat32() {
			w = "float32"
		}
		return &MV{K: "float", W: w, Loaded: true, F: *x}
	}
	bad(nil)
	return nil
}

// cut: a crash during or after a save leaves part of the text.
func (s *Sim) cut(op *Op) string {
	r := s.at(op)
	if r.k != "map" || r.mm.canSave() != 1 {
		s.skip()
	}
	if s.dry {
		return ""
	}
	t := s.w.Cur()
	start := t.OpSteps
	full, errs := s.text(r)
	if errs != nil {
		s.failf("mismatch", op, "%s: saving failed: %s", describeOp(op), errsText(errs))
	}
	steps := t.OpSteps - start
	var left string
	switch op.A {
	case "step":
		// the process dies while the text is being produced
		n := 1 + int(op.N%int64(steps))
		left = s.snapSave(r, n)
		s.fault("crash while saving")
	case "brace":
		// the store keeps everything up to some closing bracket
		var at []int
		for i := 0; i < len(full)-1; i++ {
			if full[i] == '}' || full[i] == ']' || full[i] == '"' && i%3 == 0 {
				at = append(at, i+1)
			}
		}
		if len(at) == 0 {
			s.skip()
		}
		left = full[:at[int(op.N%int64(len(at)))]]
		s.fault("text cut after a closing character")
	case "close":
		// only cuts after a closing curly bracket
		var at []int
		for i := 0; i < len(full)-1; i++ {
			if full[i] == '}' {
				at = append(at, i+1)
			}
		}
		if len(at) == 0 {
			s.skip()
		}
		left = full[:at[int(op.N%int64(len(at)))]]
		s.fault("text cut after a closing curly bracket")
	case "end":
		n := 1 + int(op.N%4)
		if n > len(full) {
			n = len(full)
		}
		left = full[:len(full)-n]
		s.fault("last bytes lost")
	default:
		left = full[:int(op.N%int64(len(full)))]
		s.fault("text cut short")
	}
	if left == full {
		return "complete"
	}
	m, errs := hjson.Parse(left)
	if m != nil || len(errs) == 0 {
		what := "no error"
		if m != nil {
			what = "a document"
		}
		s.failf("mismatch", op, "%s: of the saved text %q only %q was left, and loading that answers %s (%d errors)", describeOp(op), clip(full, 300), clip(left, 300), what, len(errs))
	}
	return errsText(errs)
}

// crashSave saves until n steps are done and returns what was written.
func (s *Sim) crashSave(r *ref, n int) (left string) {
	var sb strings.Builder
	t := s.w.Cur()
	t.CrashAt = t.OpSteps + n
	defer func() {
		t.CrashAt = 0
		if e := recover(); e != nil {
			if st, is := e.(simrt.Stop); is && st.Why == "crash" {
				left = sb.String()
				return
			}
			panic(e)
		}
	}()
	s.textTo(r, &sb)
	return sb.String()
}

// snapSave is the text a crash at step n of the save would leave; the save goes
// on, so that what the process keeps in memory stays usable.
func (s *Sim) snapSave(r *ref, n int) (left string) {
	var sb strings.Builder
	t := s.w.Cur()
	t.SnapAt = t.OpSteps + n
	t.Snap = func() { left = strings.Clone(sb.String()) }
	defer func() { t.SnapAt, t.Snap = 0, nil }()
	s.textTo(r, &sb)
	if t.SnapAt > t.OpSteps {
		left = sb.String()
	}
	return left
}

// crash ends the process: every task in it stops where it is.
func (s *Sim) crash() {
	s.crashed = true
	if !s.dry {
		s.w.Kill = true
	}
}

// dsave writes the document to a file the safe way: text, temporary file,
// rename. The process may die at any step.
func (s *Sim) dsave(op *Op) string {
	r := s.at(op)
	if r.k != "map" || r.mm.canSave() != 1 {
		s.skip()
	}
	switch op.A {
	case "produce":
		if !s.dry {
			t := s.w.Cur()
			start := t.OpSteps
			s.text(r)
			steps := t.OpSteps - start
			s.crashSave(r, 1+int(op.N%int64(steps)))
			s.fault("crash while producing the text")
		}
		s.crash()
		return "crashed"
	case "store":
		if !s.dry {
			s.text(r)
			s.fault("crash while storing the text")
		}
		s.crash()
		return "crashed"
	}
	f := &File{model: r.mm.clone()}
	if !s.dry {
		f.text = s.checkText(op, r)
	}
	s.files[op.D] = f
	if op.A == "after" {
		s.fault("crash right after the save")
		s.crash()
		return "saved, crashed"
	}
	return "saved"
}
