package main

import (
	"fmt"
	"math"
	"math/big"
	"strings"
	"time"

	"simrt"
)

// B builds a plan, evolving the model as it goes.
type B struct {
	*Gen
	p        *Plan
	sim      *Sim
	ph       *Phase
	nextID   int
	nextSlot int
	clock    int64
	lists    []int
	helds    []int
	heldOps  []*Op
	level    int   // how deep checks go: 0, 1
	pool     []*Op // parse operations to use again
	depth    int
	ptrs     map[string][]*Val
	nextQ    int
}

func newB(prop string, seed uint64) *B {
	r := simrt.NewRNG(seed*0x9e3779b97f4a7c15 + 12345)
	g := &Gen{simRNG: &r}
	g.c = newConfig(g)
	p := &Plan{Prop: prop, Seed: seed, Sched: r.Next(), HashSeed: r.Next(), HashMode: r.Intn(3)}
	p.MeanGap = 1 << uint(r.Intn(10))
	b := &B{Gen: g, p: p, nextID: 1, nextSlot: 1}
	b.sim = newSim(p, newStats())
	b.sim.dry = true
	b.sim.dryClk = time.Date(2024, 2, 29, 12, 0, 0, 0, time.UTC)
	b.clock = b.sim.dryClk.UnixNano()
	b.depth = g.c.MaxDepth
	return b
}

func (b *B) phase(ph Phase) *Phase {
	b.ph = &ph
	b.p.Phases = append(b.p.Phases, b.ph)
	if ph.Restart {
		b.sim.slots = map[int]*ref{}
		b.sim.lists = map[int]*Listing{}
		b.sim.held = map[int]*Held{}
		b.helds, b.heldOps = nil, nil
		b.sim.crashed = false
		b.lists = nil
		b.ptrs = nil
	}
	return b.ph
}

func (b *B) add(op *Op) bool {
	op.ID = b.nextID
	if op.T != "parse" && op.T != "damage" && op.V != nil {
		b.share(op.C, op.V)
	}
	if !b.sim.dryOp(op) {
		return false
	}
	b.nextID++
	b.ph.Ops = append(b.ph.Ops, op)
	return true
}

// share lets a caller store a pointer it stored before once more.
func (b *B) share(c int, v *Val) {
	for _, e := range v.Es {
		b.share(c, e)
	}
	switch v.K {
	case "str", "bool", "int", "float", "time", "err", "errs", "func":
	default:
		return
	}
	if !v.P || v.Q != 0 || !b.Chance(b.c.Share, 8) {
		return
	}
	if b.ptrs == nil {
		b.ptrs = map[string][]*Val{}
	}
	k := fmt.Sprint(c, v.K, v.W)
	if l := b.ptrs[k]; len(l) > 0 && b.Chance(2, 3) {
		how := v.How
		*v = *l[b.Intn(len(l))]
		v.How = how
		return
	}
	b.nextQ++
	v.Q = b.nextQ
	c2 := *v
	b.ptrs[k] = append(b.ptrs[k], &c2)
}

func (b *B) slot() int { b.nextSlot++; return b.nextSlot - 1 }

func (b *B) lvl() int64 {
	if b.Chance(1, 4) {
		return 1
	}
	return int64(b.level)
}

// --- documents to start from ---

// jsonable restricts a description to what text can hold.
func (b *B) textVal(depth int) *Val {
	exotic, kinds := b.c.Exotic, b.c.Kinds
	b.c.Exotic = false
	var ks []string
	for _, k := range kinds {
		switch k {
		case "nil", "str", "bool", "int", "float":
			ks = append(ks, k)
		}
	}
	if len(kinds) > 0 && len(ks) == 0 {
		ks = []string{"str"}
	}
	b.c.Kinds = ks
	v := b.container(true, depth)
	b.c.Exotic, b.c.Kinds = exotic, kinds
	return v
}

func (b *B) parse(c int) int {
	if len(b.pool) > 0 && b.Chance(1, 2) {
		o := *b.pool[b.Intn(len(b.pool))]
		o.C, o.D = c, b.slot()
		b.add(&o)
		return o.D
	}
	v := b.textVal(b.depth)
	style := b.Intn(3)
	if b.p.Prop == "C17" && len(b.pool) > 0 && b.Chance(1, 2) {
		// nearly a text loaded before
		v, style = b.neighbour(b.pool[b.Intn(len(b.pool))].V), 0
	}
	switch b.p.Prop {
	case "C03", "C10", "C16":
		if b.Chance(1, 6) {
			b.repeatKeys(v)
		}
	}
	op := &Op{C: c, T: "parse", D: b.slot(), V: v, Text: Str(v.render(b.simRNG, style)), N: b.lvl()}
	b.pool = append(b.pool, op)
	b.add(op)
	return op.D
}

// repeatKeys has keys come twice in a text: the later value replaces the earlier.
func (b *B) repeatKeys(v *Val) {
	if v.K == "map" && len(v.Ks) > 0 && b.Chance(2, 3) {
		for i, n := 0, 1+b.Intn(3); i < n; i++ {
			exotic := b.c.Exotic
			b.c.Exotic = false
			at := b.Intn(len(v.Ks) + 1)
			o := b.Intn(len(v.Ks))
			k := v.Ks[o]
			e := b.textVal(1)
			switch kind := v.Es[o].K; {
			case (kind == "int" || kind == "float" || kind == "str") && b.Chance(1, 2):
				e = b.scalar(kind)
			case len(e.Es) > 0 && b.Chance(2, 3):
				e = e.Es[0]
			}
			v.Ks = append(v.Ks[:at:at], append([]Str{k}, v.Ks[at:]...)...)
			v.Es = append(v.Es[:at:at], append([]*Val{e}, v.Es[at:]...)...)
			b.c.Exotic = exotic
		}
	}
	for _, e := range v.Es {
		if e.K == "map" || e.K == "arr" {
			b.repeatKeys(e)
		}
	}
}

func (b *B) build(c int, kind string) int {
	var v *Val
	switch kind {
	case "map":
		v = b.container(true, b.depth)
	case "arr":
		v = b.container(false, b.depth)
	default:
		v = b.value(b.depth)
	}
	op := &Op{C: c, T: "new", D: b.slot(), V: v}
	b.add(op)
	return op.D
}

func (b *B) nativeVal(arr bool) *Val {
	v := b.container(!arr, b.depth)
	var avoid func(v *Val)
	avoid = func(v *Val) {
		// an empty container is one of the dependency's words for nothing
		// only when it is the whole of a native map; the elements are built
		// by the library and may be anything
		for _, e := range v.Es {
			avoid(e)
		}
	}
	avoid(v)
	return v
}

func (b *B) native(c int, arr bool) int {
	op := &Op{C: c, T: "native", D: b.slot(), V: b.nativeVal(arr), N: b.lvl()}
	b.add(op)
	return op.D
}

func (b *B) start(c int, arr bool) int {
	switch b.Intn(4) {
	case 0:
		return b.native(c, arr)
	case 1:
		if arr {
			return b.build(c, "arr")
		}
		return b.build(c, "map")
	default:
		if arr {
			return b.build(c, "arr")
		}
		return b.parse(c)
	}
}

// --- places ---

type place struct {
	slot int
	path []Step
	r    *ref
}

func (b *B) places(slots []int) []place {
	var out []place
	var walk func(p place, depth int)
	walk = func(p place, depth int) {
		if b.c.Giant == "deep" {
			if len(out) > 600 {
				return
			}
		} else if len(out) > 60 || depth > 24 {
			return
		}
		out = append(out, p)
		step := func(st Step, e *MV) {
			if e.K != "map" && e.K != "arr" {
				return
			}
			q := place{slot: p.slot, path: append(append([]Step{}, p.path...), st)}
			if e.K == "map" {
				q.r = &ref{k: "map", mm: e.M}
			} else {
				q.r = &ref{k: "arr", ma: e.A}
			}
			walk(q, depth+1)
		}
		switch p.r.k {
		case "map":
			for _, k := range p.r.mm.keys {
				step(Step{K: Str(k), Via: b.Intn(5)}, p.r.mm.m[k])
			}
		case "arr":
			for i, e := range p.r.ma.e {
				step(Step{I: i, Arr: true, Via: b.Intn(3)}, e)
			}
		}
	}
	for _, s := range slots {
		if r := b.sim.slots[s]; r != nil {
			walk(place{slot: s, r: r}, 0)
		}
	}
	return out
}

func (b *B) pick(slots []int, kind string) *place {
	var c []place
	for _, p := range b.places(slots) {
		if kind == "" || p.r.k == kind {
			c = append(c, p)
		}
	}
	if len(c) == 0 {
		return nil
	}
	// roots come up often
	if b.Chance(1, 2) {
		var roots []place
		for _, p := range c {
			if len(p.path) == 0 {
				roots = append(roots, p)
			}
		}
		if len(roots) > 0 {
			return &roots[b.Intn(len(roots))]
		}
	}
	return &c[b.Intn(len(c))]
}

// sharedSpot is a place whose value was stored through a pointer that callers
// stored elsewhere too.
func (b *B) sharedSpot(slots []int) *Op {
	if b.nextQ == 0 {
		return nil
	}
	var c []*Op
	for _, p := range b.places(slots) {
		switch p.r.k {
		case "map":
			for _, k := range p.r.mm.keys {
				if p.r.mm.m[k].Q > 0 {
					c = append(c, &Op{S: p.slot, Path: p.path, K: Str(k)})
				}
			}
		case "arr":
			for i, e := range p.r.ma.e {
				if e.Q > 0 {
					c = append(c, &Op{S: p.slot, Path: p.path, I: i})
				}
			}
		}
	}
	if len(c) == 0 {
		return nil
	}
	return c[b.Intn(len(c))]
}

func (b *B) keyOf(m *MMap, present int) string {
	if len(m.keys) > 0 && b.Chance(present, 10) {
		return m.keys[b.Intn(len(m.keys))]
	}
	return b.key()
}

func (b *B) idxOf(a *MArr) int {
	n := len(a.e)
	if n == 0 || b.Chance(1, 12) {
		return []int{-1, n, n + 1, -n, n + 7, 1 << 40, -1 << 40}[b.Intn(7)]
	}
	switch b.Intn(4) {
	case 0:
		return 0
	case 1:
		return n - 1
	}
	return b.Intn(n)
}

// --- operations ---

type W struct {
	k string
	n int
}

func (b *B) choose(ws []W) string {
	t := 0
	for _, w := range ws {
		t += w.n
	}
	x := b.Intn(t)
	for _, w := range ws {
		if x < w.n {
			return w.k
		}
		x -= w.n
	}
	return ws[0].k
}

// swarm drops some kinds of operation for one run, so that runs differ.
func (b *B) swarm(ws []W, keep ...string) []W {
	if b.Chance(1, 3) {
		return ws
	}
	var out []W
	for _, w := range ws {
		k := false
		for _, x := range keep {
			k = k || x == w.k
		}
		if k || b.Chance(2, 3) {
			n := w.n
			if b.Chance(1, 4) {
				n *= 4
			}
			out = append(out, W{w.k, n})
		}
	}
	if len(out) == 0 {
		return ws
	}
	return out
}

// related is a value near the one it is about to replace: the same kind with
// other content, the same content in another form, or nothing in the same form.
func (b *B) related(mv *MV, other *Val) *Val {
	switch mv.K {
	case "map", "arr", "bad", "any", "nil":
		return other
	}
	if b.Chance(1, 8) {
		form := map[string]string{"str": "String", "bool": "Bool", "time": "Time", "func": "Func"}[mv.K]
		for _, f := range nilForms {
			if mv.W != "" && strings.EqualFold(f, mv.W) {
				form = f
			}
		}
		if form != "" {
			return &Val{K: "nil", W: form, P: b.Chance(1, 2), How: b.Intn(4)}
		}
	}
	v := b.scalar(mv.K)
	near := b.Chance(1, 4)
	switch mv.K {
	case "int":
		if near {
			// the same number, perhaps in another width
			for _, w := range append([]string{mv.W}, intWidths...) {
				if fits(mv.N, w) && b.Chance(1, 2) {
					v.W, v.N = w, mv.N.String()
					break
				}
			}
		} else if b.Chance(2, 3) {
			v.W = mv.W
			v.N = b.integer(mv.W).String()
		}
	case "str":
		switch {
		case near:
			v.S = Str(mv.S)
		case b.Chance(1, 4) && len(mv.S) > 0 && len(mv.S) < 64:
			v.S = Str(b.sameLength(mv.S))
		}
	case "bool":
		v.B = mv.B != b.Chance(2, 3)
	case "float":
		if near {
			v.W, v.F = mv.W, math.Float64bits(mv.F)
			if b.Chance(1, 3) {
				v.F ^= 1 << 63
			}
		} else if b.Chance(2, 3) {
			v.W = mv.W
			v.F = math.Float64bits(b.float(mv.W))
		}
	case "time":
		if near {
			// the same instant, perhaps seen from elsewhere
			v.Y, v.T = mv.T.Unix(), int64(mv.T.Nanosecond())
		}
	}
	return v
}

// everything are the kinds of operation any history may hold.
var everything = []string{"set", "setvia", "rm", "app", "aset", "arm", "fill", "drain", "attach", "mv", "read", "list", "ask", "typeof", "len", "check", "save", "clone", "handle", "handlev", "aget", "new", "newmap", "newarr", "native", "nativearr", "parse", "parsebad", "reload", "savenil", "render", "convert", "cross", "readint", "listint", "readtime"}

// wild adds, in some runs, a few kinds of operation from elsewhere.
func (b *B) wild(ws []W) []W {
	if b.Chance(3, 4) {
		return ws
	}
	total := 0
	for _, w := range ws {
		total += w.n
	}
	out := append([]W{}, ws...)
	for i, n := 0, 1+b.Intn(5); i < n; i++ {
		out = append(out, W{everything[b.Intn(len(everything))], 1 + total/20})
	}
	switch b.p.Prop {
	case "C03", "C04", "C09", "C10", "C11", "C15", "C19":
		// callers take turns there, at the clock and at lists of keys too
		if b.Chance(1, 4) {
			n := 1 + total/20
			out = append(out, W{"clock", n}, W{"keys", n}, W{"keyscheck", n}, W{"keysmut", n}, W{"walk", n})
		}
	}
	return out
}

// target fills in a place and, for values, a key or index of it.
func (b *B) target(op *Op, slots []int, kind string, present int) *place {
	p := b.pick(slots, kind)
	if p == nil {
		return nil
	}
	op.S, op.Path = p.slot, p.path
	switch p.r.k {
	case "map":
		op.K = Str(b.keyOf(p.r.mm, present))
	case "arr":
		op.I = b.idxOf(p.r.ma)
	}
	return p
}

func (b *B) mvAt(p *place, op *Op) *MV {
	switch p.r.k {
	case "map":
		return p.r.mm.m[string(op.K)]
	case "arr":
		if op.I >= 0 && op.I < len(p.r.ma.e) {
			return p.r.ma.e[op.I]
		}
		return nil
	}
	return p.r.mv
}

func (b *B) valDepth() int {
	d := b.depth - 1
	if d < 0 {
		d = 0
	}
	if b.Chance(1, 2) {
		return 0
	}
	return d
}

// step adds one operation of the given kind by client c on one of the slots;
// it returns a new slot when one was made.
func (b *B) step(kind string, c int, slots []int) int {
	op := &Op{C: c, T: kind, Via: b.Intn(4)}
	switch kind {
	case "parse":
		return b.parse(c)
	case "new":
		return b.build(c, []string{"map", "arr", "val"}[b.Intn(3)])
	case "newmap":
		return b.build(c, "map")
	case "newarr":
		return b.build(c, "arr")
	case "native":
		return b.native(c, false)
	case "nativearr":
		return b.native(c, true)
	case "set":
		if b.target(op, slots, "map", 6) == nil {
			return 0
		}
		op.V = b.value(b.valDepth())
		if mv := b.sim.peek(op); mv != nil && b.Chance(1, 4) {
			op.V = b.related(mv, op.V)
		}
	case "setvia":
		if b.target(op, slots, "", 10) == nil {
			return 0
		}
		if q := b.sharedSpot(slots); q != nil && b.Chance(1, 3) {
			op.S, op.Path, op.K, op.I = q.S, q.Path, q.K, q.I
		}
		op.V = b.value(b.valDepth())
		if mv := b.sim.peek(op); mv != nil && b.Chance(1, 2) {
			op.V = b.related(mv, op.V)
		}
	case "rm":
		if b.target(op, slots, "map", 8) == nil {
			return 0
		}
	case "app":
		if b.target(op, slots, "arr", 0) == nil {
			return 0
		}
		op.V = b.value(b.valDepth())
	case "aset":
		if b.target(op, slots, "arr", 0) == nil {
			return 0
		}
		op.V = b.value(b.valDepth())
		if mv := b.sim.peek(op); mv != nil && b.Chance(1, 4) {
			op.V = b.related(mv, op.V)
		}
	case "arm":
		if b.target(op, slots, "arr", 0) == nil {
			return 0
		}
	case "fill", "drain":
		if b.c.Fills {
			b.many(op, slots)
		}
		return 0
	case "attach":
		if len(slots) < 1 || b.target(op, slots, "", 5) == nil {
			return 0
		}
		op.D = slots[b.Intn(len(slots))]
		if d := b.sim.slots[op.D]; d == nil || d.mval().size() > 60 {
			return 0
		}
	case "mv":
		// a value moves: taken out of one place, put into the same or another
		op.T, op.A = "handle", "value"
		p := b.target(op, slots, []string{"arr", "map", ""}[b.Intn(3)], 10)
		if p == nil {
			return 0
		}
		if m := b.mvAt(p, op); m == nil || m.size() > 60 {
			return 0
		}
		op.D = b.slot()
		if !b.add(op) || b.sim.slots[op.D] == nil {
			return 0
		}
		out := &Op{C: c, S: op.S, Path: op.Path, K: op.K, I: op.I, T: map[string]string{"map": "rm", "arr": "arm"}[p.r.k]}
		if out.T != "" && !b.Chance(1, 5) {
			b.add(out)
		}
		if b.Chance(1, 3) {
			b.step([]string{"arm", "app", "set", "rm"}[b.Intn(4)], c, slots)
		}
		in := &Op{C: c, T: "attach", D: op.D, Via: b.Intn(4)}
		if b.Chance(1, 2) {
			in.S, in.Path, in.K, in.I = op.S, op.Path, op.K, op.I
			if p.r.k == "arr" && in.I > 0 && b.Chance(1, 3) {
				in.I--
			}
		} else if b.target(in, slots, "", 5) == nil {
			return 0
		}
		b.add(in)
		return 0
	case "handle":
		p := b.pick(slots, "")
		if p == nil {
			return 0
		}
		op.S, op.Path, op.D = p.slot, p.path, b.slot()
	case "handlev":
		op.T, op.A = "handle", "value"
		if b.target(op, slots, "", 10) == nil {
			return 0
		}
		op.D = b.slot()
	case "clone":
		p := b.pick(slots, "")
		if p == nil {
			return 0
		}
		op.S, op.Path, op.D, op.N = p.slot, p.path, b.slot(), b.lvl()
		if b.Chance(1, 4) {
			op.A = "value"
			if b.target(op, slots, "", 10) == nil {
				return 0
			}
		}
	case "reload":
		p := b.pick(slots, "map")
		if p == nil {
			return 0
		}
		op.S, op.Path, op.D, op.N = p.slot, p.path, b.slot(), b.lvl()
	case "read":
		p := b.target(op, slots, "", 8)
		if p == nil {
			return 0
		}
		op.P = b.Chance(1, 2)
		mv := b.mvAt(p, op)
		if mv != nil && b.Chance(3, 5) {
			op.A = natural(b.simRNG, mv)
		} else {
			op.A = readTypes[b.Intn(len(readTypes))]
			if b.Chance(1, 20) {
				op.A = "TimePlaces"
			}
		}
		if p.r.k == "map" {
			op.Via = b.Intn(2)
		}
	case "render":
		if b.target(op, slots, "", 9) == nil {
			return 0
		}
		op.A = []string{"", "plain", "object"}[b.Intn(3)]
	case "convert":
		op.V = b.value(0)
		if b.Chance(1, 10) {
			op.V = b.value(1)
		}
	case "cross":
		// a read as another kind of scalar
		op.T = "read"
		p := b.target(op, slots, "", 9)
		if p == nil {
			return 0
		}
		op.P, op.Via = b.Chance(1, 2), b.Intn(2)
		op.A = append([]string{"Float32", "Float64", "Float64", "Bool", "Bool", "Bool", "Time", "Errors", "String"}, intReads...)[b.Intn(9+len(intReads))]
		if mv := b.mvAt(p, op); mv != nil && mv.K == "arr" {
			op.A = "Errors"
		}
	case "readint":
		op.T = "read"
		if b.target(op, slots, "", 9) == nil {
			return 0
		}
		op.P, op.A, op.Via = b.Chance(1, 2), intReads[b.Intn(len(intReads))], b.Intn(2)
	case "readtime":
		op.T = "read"
		if b.target(op, slots, "", 9) == nil {
			return 0
		}
		op.P, op.A, op.Via = b.Chance(1, 2), "Time", b.Intn(2)
		if b.Chance(1, 8) {
			op.A = "TimePlaces"
		}
	case "list", "listint":
		op.T = "list"
		// arrays through their document, or directly
		p := b.pick(slots, "arr")
		if p == nil || b.Chance(1, 10) {
			if b.target(op, slots, "map", 8) == nil {
				return 0
			}
		} else {
			op.S, op.Path = p.slot, p.path
			if n := len(p.path); n > 0 && !p.path[n-1].Arr && b.Chance(1, 2) {
				op.K = p.path[n-1].K
				op.Path = p.path[:n-1]
			}
		}
		op.A, op.P = listTypes[b.Intn(len(listTypes))], b.Chance(1, 2)
		if kind == "listint" {
			op.A = intReads[b.Intn(len(intReads))]
		} else if p != nil && p.r.k == "arr" && len(p.r.ma.e) > 0 && b.Chance(2, 3) {
			n := naturalName(p.r.ma.e[0])
			for _, l := range listTypes {
				if l == n {
					op.A = n
				}
			}
		}
	case "aget":
		if b.target(op, slots, "arr", 0) == nil {
			return 0
		}
		op.A = "String"
		if b.Chance(1, 2) {
			op.A = "Map"
		}
	case "ask":
		if b.target(op, slots, "", 8) == nil {
			return 0
		}
		op.A, op.Via = questions[b.Intn(len(questions))], b.Intn(2)
		if op.A == "IsNil" && op.Via == 0 {
			op.Via = 1
		}
	case "typeof":
		if b.target(op, slots, "", 8) == nil {
			return 0
		}
		op.Via = b.Intn(2)
	case "len":
		if b.target(op, slots, "", 7) == nil {
			return 0
		}
	case "check", "save":
		p := b.pick(slots, "")
		if p == nil {
			return 0
		}
		op.S, op.Path, op.N = p.slot, p.path, b.lvl()
	case "savenil":
		p := b.pick(slots, "")
		if p == nil {
			return 0
		}
		op.S, op.Path = p.slot, p.path
	case "keys":
		p := b.pick(slots, "map")
		if p == nil {
			return 0
		}
		op.S, op.Path, op.D = p.slot, p.path, b.slot()
		if b.add(op) {
			b.lists = append(b.lists, op.D)
		}
		return 0
	case "hold":
		if len(b.heldOps) > 0 && b.Chance(1, 3) {
			// the same again
			x := *b.heldOps[b.Intn(len(b.heldOps))]
			x.C, x.ID, x.D = c, 0, b.slot()
			if b.add(&x) {
				b.helds = append(b.helds, x.D)
			}
			return 0
		}
		p := b.target(op, slots, "", 9)
		if p == nil {
			return 0
		}
		op.P, op.Via, op.D = b.Chance(2, 3), b.Intn(2), b.slot()
		mv := b.mvAt(p, op)
		if mv == nil || mv.K == "map" || mv.K == "nil" {
			return 0
		}
		op.A = natural(b.simRNG, mv)
		if mv.K == "arr" {
			op.A = "ArrayOf" + []string{"Int", "Int8", "Int16", "Int32", "Int64", "UInt", "UInt8", "UInt16", "UInt32", "UInt64", "String", "Float32", "Float64", "Bool"}[b.Intn(14)]
			if len(mv.A.e) > 0 && b.Chance(3, 4) {
				switch k := mv.A.e[b.Intn(len(mv.A.e))].K; k {
				case "str", "bool":
					op.A = "ArrayOf" + natural(b.simRNG, mv.A.e[b.Intn(len(mv.A.e))])
				}
			}
		} else if b.Chance(1, 6) {
			op.A = readTypes[b.Intn(len(readTypes))]
		}
		if op.A == "Map" || op.A == "Array" || strings.HasSuffix(op.A, "Map") || strings.HasSuffix(op.A, "Array") {
			return 0
		}
		if b.add(op) {
			b.helds = append(b.helds, op.D)
			b.heldOps = append(b.heldOps, op)
		}
		return 0
	case "heldcheck":
		if len(b.helds) == 0 || b.Chance(1, 3) {
			op.A, op.I = "given", b.Intn(9)
			break
		}
		op.D = b.helds[b.Intn(len(b.helds))]
	case "keyscheck", "keysmut":
		if len(b.lists) == 0 {
			return 0
		}
		op.D, op.I = b.lists[b.Intn(len(b.lists))], b.Intn(8)
		op.A = []string{"", "sort", "append", "truncate", "cutappend"}[b.Intn(5)]
	case "walk":
		p := b.pick(slots, "map")
		if p == nil || len(p.r.mm.keys) > 40 {
			return 0
		}
		op.S, op.Path = p.slot, p.path
		op.A = []string{"rm", "rmnext", "rmlast", "add", "readd", "set"}[b.Intn(6)]
	case "poke":
		if b.target(op, slots, "", 10) == nil {
			return 0
		}
	case "parsebad":
		op.Text = Str(b.malformed())
	case "clock":
		op.N = b.nextClock()
		b.add(op)
		return 0
	case "badset":
		// content without a text form or that cannot be copied
		op.T = []string{"set", "app", "aset", "setvia"}[b.Intn(4)]
		k := map[string]string{"set": "map", "app": "arr", "aset": "arr"}[op.T]
		if b.target(op, slots, k, 5) == nil {
			return 0
		}
		op.V = b.scalar("bad")
	case "repair":
		// replace or remove one piece of such content
		type spot struct {
			p place
			k string
			i int
		}
		var c []spot
		for _, p := range b.places(slots) {
			if p.r.k == "map" {
				for _, k := range p.r.mm.keys {
					if p.r.mm.m[k].K == "bad" {
						c = append(c, spot{p, k, 0})
					}
				}
			}
			if p.r.k == "arr" {
				for i, e := range p.r.ma.e {
					if e.K == "bad" {
						c = append(c, spot{p, "", i})
					}
				}
			}
		}
		if len(c) == 0 {
			return 0
		}
		x := c[b.Intn(len(c))]
		op.S, op.Path, op.K, op.I = x.p.slot, x.p.path, Str(x.k), x.i
		op.V = b.value(0)
		switch {
		case b.Chance(1, 3):
			op.T = "setvia"
		case x.p.r.k == "map" && b.Chance(1, 2):
			op.T = "rm"
		case x.p.r.k == "map":
			op.T = "set"
		case b.Chance(1, 2):
			op.T = "arm"
		default:
			op.T = "aset"
		}
	case "drop":
		return 0
	default:
		panic("kind " + kind)
	}
	if !b.add(op) {
		return 0
	}
	switch op.T {
	case "handle", "clone", "reload":
		if b.sim.slots[op.D] != nil {
			return op.D
		}
	}
	return 0
}

// many adds or removes entry after entry, at one end or anywhere.
func (b *B) many(op *Op, slots []int) {
	p := b.pick(slots, "map")
	if p == nil || b.Chance(1, 2) {
		if q := b.pick(slots, "arr"); q != nil {
			p = q
		}
	}
	if p == nil {
		return
	}
	how := b.Intn(4)
	if op.T == "fill" {
		if p.r.k == "arr" && len(p.r.ma.e) > 300 {
			return
		}
		for i, n := 0, 4<<uint(b.Intn(5)); i < n; i++ {
			o := &Op{C: op.C, T: "app", S: p.slot, Path: p.path, Via: op.Via, V: b.scalar(b.scalarKind())}
			if p.r.k == "map" {
				o.T, o.K = "set", Str(fmt.Sprint("fill", i))
			}
			b.add(o)
		}
		return
	}
	n := 0
	if p.r.k == "map" {
		n = len(p.r.mm.keys)
	} else {
		n = len(p.r.ma.e)
	}
	if left := b.Intn(6); n > left && b.Chance(2, 3) {
		n -= left
	} else {
		n = b.Intn(n + 1)
	}
	for i := 0; i < n; i++ {
		o := &Op{C: op.C, T: "rm", S: p.slot, Path: p.path, Via: op.Via}
		at := func(n int) int {
			switch how {
			case 0:
				return 0
			case 1:
				return n - 1
			case 2:
				return (i % 2) * (n - 1)
			}
			return b.Intn(n)
		}
		if p.r.k == "map" {
			if len(p.r.mm.keys) == 0 {
				return
			}
			o.K = Str(p.r.mm.keys[at(len(p.r.mm.keys))])
		} else {
			if len(p.r.ma.e) == 0 {
				return
			}
			o.T, o.I = "arm", at(len(p.r.ma.e))
		}
		b.add(o)
		if b.Chance(1, 40) {
			b.add(&Op{C: op.C, T: "check", S: p.slot, Path: p.path})
		}
	}
}

func (b *B) nextClock() int64 {
	steps := []int64{0, 1, 1000, 30e3, 1e6, 40e6, 1e9, 60e9, 3600e9, 86400e9, -1, -5e4, -1e9, -3600e9, -86400e9 * 365, 86400e9 * 3650}
	d := steps[b.Intn(len(steps))]
	n := b.clock + d
	if n > 4e18 || n < 1e15 {
		n = time.Date(2024, 2, 29, 12, 0, 0, 0, time.UTC).UnixNano()
	}
	b.clock = n
	return n
}

// malformed is text no reader may accept.
// neighbour is v with one scalar or key in it different, often of the same length.
func (b *B) neighbour(v *Val) *Val {
	c := *v
	c.Es = append([]*Val{}, v.Es...)
	switch {
	case (v.K == "map" || v.K == "arr") && len(v.Es) > 0:
		i := b.Intn(len(v.Es))
		if v.K == "map" && b.Chance(1, 4) {
			k := b.sameLength(string(v.Ks[i]))
			for _, x := range v.Ks {
				if string(x) == k {
					return &c
				}
			}
			c.Ks = append([]Str{}, v.Ks...)
			c.Ks[i] = Str(k)
			return &c
		}
		c.Es[i] = b.neighbour(v.Es[i])
	case v.K == "str":
		c.S = Str(b.sameLength(string(v.S)))
	case v.K == "int":
		n := []byte(v.N)
		n[len(n)-1] = '0' + (n[len(n)-1]-'0'+1+byte(b.Intn(8)))%10
		if x, ok := new(big.Int).SetString(string(n), 10); ok && (fits(x, "int64") || fits(x, "uint64")) && x.String() == string(n) {
			c.N = string(n)
		}
	case v.K == "bool":
		c.B = !v.B
	case v.K == "map":
		c.Ks, c.Es = []Str{Str(b.key())}, []*Val{b.scalar("int")}
	default:
		return b.scalar([]string{"nil", "bool", "int", "str"}[b.Intn(4)])
	}
	return &c
}

// sameLength changes one plain character.
func (b *B) sameLength(t string) string {
	d := []byte(t)
	for range 4 {
		if len(d) == 0 {
			break
		}
		if i := b.Intn(len(d)); d[i] >= 'a' && d[i] < 'z' || d[i] >= '0' && d[i] < '9' {
			d[i]++
			return string(d)
		}
	}
	return t + "x"
}

// lenient is text no standard covers that loading takes or refuses in its own way.
func (b *B) lenient() string {
	fixed := []string{`{"a":1,}`, `{,"a":1}`, `{"a":[1,]}`, `{"a":[,1]}`, `{"a":[1 2]}`, `{"a":1,,"b":2}`, `{"a":[1,,2]}`, `{"a":"x" y}`, `{"a":"x" "y"}`, `{"a":}`, `{a:1}`, `{'a':1}`, `{"a" "b":1}`, `{"a"::1}`, `{"a":01}`, `{"a":-0}`, `{"a":1.}`, `{"a":.5}`, `{"a":1.5e3}`, `{"a":1e5}`, `{"a":"\x"}`, `{"a":"\ud800"}`, `{"\ud83d":{}}`, `{"\ud83d":[]}`, `{"a":"\u12"}`, `{"a":"\"}`, "{\"a\":\"\n\"}", ` {"a":1}`, `{"a":1} `, `{"a":TRUE}`, `{"a":[1}`, `{"a":{]}`, `{"a":1,"a":2}`, `{"a":{},"a":[]}`, `{"":""}`, `{"a":[[],[[]],{}]}`, `{"a":null1}`, `{"a":1null}`, `{ }`, `{"a":[ ]}`, `{"a":{ }}`, `{"a":1"b":2}`, `{"a":[]"b":2}`, `{"a":{}"b":2}`, `{"a":[1]2}`}
	if b.Chance(1, 3) {
		return fixed[b.Intn(len(fixed))]
	}
	t := b.textVal(b.depth).render(b.simRNG, b.Intn(3))
	for i, n := 0, 1+b.Intn(2); i < n && len(t) > 2; i++ {
		j := 1 + b.Intn(len(t)-1)
		if k := strings.IndexAny(t[j:], ",:{}[]\""); k >= 0 && b.Chance(3, 4) {
			j += k
			if b.Chance(1, 2) {
				j++
			}
		}
		x := []string{",", " ", ":", "a", "\"", "\"\"", "\\", ",,", " x", "0", "null", "[]", "{}", "\\u", "\\ud83d", "1.", "-", "e5", "\n"}[b.Intn(19)]
		if j <= len(t) {
			t = t[:j] + x + t[j:]
		}
	}
	return t
}

func (b *B) malformed() string {
	fixed := []string{"", "{", "}", "[", "]", "{\"a\":1", "\"a\":1}", "{\"a\":[1,2}", "{\"a\":{\"b\":1}", "{\"a\":tru}", "{\"a\":nul}", "{\"a\":\"x}", "nonsense", "{\"a\":[1,2]", "{\"a\":{}", "{\"a\":1-2}", "{\"a\":--1}", "{\"a\":99999999999999999999999}", "{\"a\":1.2.3}", "[1,2,3]", "\"text\"", "12", "null", "{\"a\":+}", "{\"a\":abc}", "{\"a\":{\"b\":[1}]}", "{\"a\":[{\"b\":1]}}", "{\"a\":[{\"b\"]}}", "{\"\"}", "{\"a\"}", "{\"a\":{\"b\"}}", "{\"a\":[}]}", "{\"a\":1}}", "{\"a\":1}]}", "{}{}", "{\"a\":1}{\"b\":2}"}
	if b.Chance(1, 2) {
		return fixed[b.Intn(len(fixed))]
	}
	t := b.textVal(2).render(b.simRNG, b.Intn(3))
	return b.spoil(t)
}

// spoil breaks the brackets, the quotes or a literal of a well-formed text.
func (b *B) spoil(t string) string {
	var brackets, quotes []int
	var literals [][2]int
	in, esc := false, false
	for i := 0; i < len(t); i++ {
		c := t[i]
		switch {
		case in && esc:
			esc = false
		case in && c == '\\':
			esc = true
		case c == '"':
			in = !in
			quotes = append(quotes, i)
		case in:
		case strings.IndexByte("{}[]", c) >= 0:
			brackets = append(brackets, i)
		case c == '-' || c == '+' || c == '.' || c == 'E' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z':
			if n := len(literals); n > 0 && literals[n-1][1] == i {
				literals[n-1][1] = i + 1
			} else {
				literals = append(literals, [2]int{i, i + 1})
			}
		}
	}
	cut := func(i, j int, by string) string { return t[:i] + by + t[j:] }
	switch k := b.Intn(9); {
	case k == 0:
		i := brackets[b.Intn(len(brackets))]
		return cut(i, i+1, "")
	case k == 1:
		i := brackets[b.Intn(len(brackets))]
		by := "{}[]"[b.Intn(4)]
		if by == t[i] {
			by = "[]{}"[strings.IndexByte("{}[]", by)]
		}
		return cut(i, i+1, string(by))
	case k == 2:
		i := brackets[b.Intn(len(brackets))]
		if b.Chance(1, 2) && i > 0 {
			return cut(i, i, string("{}[]"[b.Intn(4)]))
		}
		return cut(i+1, i+1, string("{}[]"[b.Intn(4)]))
	case k == 3:
		// closing brackets in the wrong order
		for range 8 {
			j := b.Intn(len(brackets))
			x := brackets[j]
			if j+1 < len(brackets) {
				y := brackets[j+1]
				if strings.TrimSpace(t[x+1:y]) == "" && (t[x] == '}' && t[y] == ']' || t[x] == ']' && t[y] == '}') {
					return t[:x] + t[y:y+1] + t[x+1:y] + t[x:x+1] + t[y+1:]
				}
			}
		}
	case k == 4 && len(quotes) > 0:
		i := quotes[b.Intn(len(quotes))]
		return cut(i, i+1, "")
	case k <= 6 && len(literals) > 0:
		l := literals[b.Intn(len(literals))]
		junk := []string{"tru", "nul", "falsee", "TRUE", "nil", "1-2", "--1", "-", ".", "-.", "1.2.3", "+", "abc", "-x", "0-", "99999999999999999999", "-99999999999999999999", "18446744073709551616", "-9223372036854775809", "340282366920938463463374607431768211456", "1.5x", "truefalse", "nulll", "12a"}
		return cut(l[0], l[1], junk[b.Intn(len(junk))])
	case k == 7:
		return t + []string{"}", "{}", "x", "]", "\"", "{\"a\":1}", ",{}", "null}", "]}", "[]}", ":1}"}[b.Intn(11)]
	}
	return t[:b.Intn(len(t))]
}

func (b *B) finish(c int, slots []int) {
	for _, s := range slots {
		if b.sim.slots[s] == nil {
			continue
		}
		b.add(&Op{C: c, T: "check", S: s, N: b.lvl()})
		b.add(&Op{C: c, T: "save", S: s})
	}
}

func (b *B) length(max int) int {
	if b.c.Giant == "history" && b.c.GiantN > 0 {
		n := b.c.GiantN
		b.c.GiantN = 0
		return n
	}
	n := 4 + b.Intn(12)
	for n < max && b.Chance(2, 5) {
		n *= 2
	}
	if n > max {
		n = max
	}
	if b.c.Giant != "" && b.c.Giant != "history" && n > 14 {
		n = 14
	}
	return n
}

// limit keeps the set of live slots small.
func keepSlots(slots []int, n int, b *B) []int {
	if n == 0 {
		return slots
	}
	slots = append(slots, n)
	if len(slots) > 6 {
		i := b.Intn(len(slots))
		slots = append(append([]int{}, slots[:i]...), slots[i+1:]...)
	}
	return slots
}

var editOps = []W{{"fill", 1}, {"drain", 1}, {"set", 12}, {"setvia", 5}, {"rm", 5}, {"app", 6}, {"aset", 4}, {"arm", 3}, {"attach", 2}, {"mv", 2}}
var readOps = []W{{"read", 10}, {"list", 4}, {"ask", 5}, {"typeof", 2}, {"len", 4}, {"check", 4}, {"save", 4}, {"clone", 2}, {"handle", 2}, {"aget", 2}}

func mix(a ...[]W) (out []W) {
	for _, x := range a {
		out = append(out, x...)
	}
	return
}

// noise adds a caller with documents of its own that runs at statement
// granularity between the others.
func (b *B) noise(c int) {
	ph := b.ph
	keep, keepPool := *b.c, b.pool
	b.c.Kinds, b.c.Exotic = nil, false
	b.pool = nil
	for _, o := range keepPool {
		// texts the others also load
		b.pool = append(b.pool, o)
	}
	ph.Free = append(ph.Free, c)
	ph.Preempt = true
	var slots []int
	slots = keepSlots(slots, b.parse(c), b)
	ws := mix(editOps, readOps, []W{{"parse", 4}, {"new", 3}, {"parsebad", 2}, {"reload", 2}})
	for i, n := 0, 4+b.Intn(8); i < n; i++ {
		slots = keepSlots(slots, b.step(b.choose(ws), c, slots), b)
	}
	b.finish(c, slots)
	*b.c, b.pool = keep, keepPool
}

// turns runs a history by several callers taking turns on shared documents.
func (b *B) turns(ws []W, slots []int, clients, n int) []int {
	if b.c.Giant == "history" && b.Chance(3, 4) {
		// the same few operations on the same few objects, again and again
		few := []W{{"check", 1}}
		for i, k := 0, 2+b.Intn(3); i < k; i++ {
			few = append(few, W{b.choose(ws), 10 + b.Intn(30)})
		}
		var made []int
		for i := 0; i < n; i++ {
			if s := b.step(b.choose(few), b.Intn(clients), slots); s != 0 {
				made = keepSlots(made, s, b)
			}
		}
		return append(slots, made...)
	}
	for i := 0; i < n; i++ {
		slots = keepSlots(slots, b.step(b.choose(ws), b.Intn(clients), slots), b)
	}
	return slots
}

func (b *B) maybeNoise() {
	if b.Chance(1, 4) {
		b.noise(9)
		b.ph.Track = b.Chance(1, 3)
	}
}

// --- one generator per property ---

var generators = map[string]func(*B){
	"C01": genC01, "C02": genC02, "C03": genC03, "C04": genC04, "C05": genC05, "C06": genC06, "C07": genC07, "C08": genC08,
	"C09": genC09, "C10": genC10, "C11": genC11, "C12": genC12, "C13": genC13, "C14": genC14, "C15": genC15, "C16": genC16, "C17": genC17, "C18": genC18, "C19": genC19, "C20": genC20,
}

func generate(prop string, seed uint64) *Plan {
	b := newB(prop, seed)
	if one := giantRate[prop]; one > 0 && b.Chance(1, one) {
		b.giant()
	}
	generators[prop](b)
	return b.p
}

// giantRate: one run in so many has content far beyond the usual size.
var giantRate = map[string]int{
	"C01": 200, "C02": 350, "C03": 290, "C04": 300, "C05": 800, "C06": 300, "C07": 480, "C08": 20, "C09": 400, "C10": 480,
	"C11": 650, "C12": 630, "C13": 480, "C14": 650, "C15": 190, "C16": 300, "C17": 150, "C18": 250, "C19": 900, "C20": 500,
}

// giant has the run's first container beyond the usual size.
func (b *B) giant() {
	b.p.Giant = true
	b.c.Giant = []string{"wide", "wide", "deep", "long"}[b.Intn(4)]
	switch b.p.Prop {
	case "C06", "C07", "C18":
		b.c.Giant = []string{"wide", "deep", "long", "long"}[b.Intn(4)]
	}
	switch b.p.Prop {
	case "C07", "C08":
	default:
		if b.Chance(1, 2) {
			b.c.Giant = "history"
		}
	}
	n := 1 << uint(7+b.Intn(4)) // 128 .. 1024
	switch b.c.Giant {
	case "deep":
		n = 1 << uint(4+b.Intn(5)) // 16 .. 256
	case "long":
		n = 1 << uint(8+b.Intn(7)) // 256 .. 16384
	}
	switch b.p.Prop {
	case "C01", "C02", "C16":
		n /= 4 // each run is several, or of several generations
	}
	b.c.GiantN = n + b.Intn(n) + b.Intn(3)
}

func genC01(b *B) {
	b.c.Exotic = b.Chance(1, 3)
	b.p.Solo = true
	b.phase(Phase{Preempt: true, Track: true})
	clients := 2 + b.Intn(3)
	ws := b.swarm(mix(editOps, readOps, []W{{"parse", 8}, {"new", 4}, {"native", 2}, {"reload", 4}, {"parsebad", 5}, {"clone", 3}, {"savenil", 1}}), "parse", "set")
	slots := map[int][]int{}
	n := clients * (3 + b.Intn(6))
	if b.Chance(1, 8) {
		n *= 3
	}
	if b.c.Giant == "history" {
		n *= 15
	}
	for c := 0; c < clients; c++ {
		slots[c] = keepSlots(nil, b.start(c, b.Chance(1, 6)), b)
	}
	for i := 0; i < n; i++ {
		c := b.Intn(clients)
		b.lists = nil
		slots[c] = keepSlots(slots[c], b.step(b.choose(ws), c, slots[c]), b)
	}
	for c := 0; c < clients; c++ {
		b.finish(c, slots[c])
	}
}

func genC02(b *B) {
	b.c.Exotic = b.Chance(1, 2)
	b.p.Solo = true
	b.phase(Phase{})
	slots := []int{b.start(0, b.Chance(1, 5))}
	if b.Chance(1, 3) {
		slots = append(slots, b.start(0, false))
	}
	// a past of edits, so that readers find more than a fresh document
	for i, n := 0, b.Intn(14); i < n; i++ {
		b.step(b.choose(editOps), 0, slots)
	}
	b.phase(Phase{Preempt: true, Track: true})
	readers := 2 + b.Intn(3)
	ws := b.swarm(mix(readOps, []W{{"read", 10}, {"list", 4}, {"save", 4}, {"clone", 4}, {"check", 3}, {"reload", 1}}), "read", "save")
	n := readers * (2 + b.Intn(6))
	if b.c.Giant == "history" {
		n *= 15
	}
	for i := 0; i < n; i++ {
		c := 1 + b.Intn(readers)
		b.step(b.choose(ws), c, slots)
	}
	b.phase(Phase{})
	b.finish(0, slots)
}

func (b *B) plainMostly() {
	if b.Chance(2, 3) {
		b.c.PlainText = true
		for i := range b.c.Keys {
			if b.Chance(2, 3) {
				b.c.Keys[i] = b.pickStr(plainWords)
			}
		}
	}
	b.c.NoFloat = b.Chance(1, 2)
}

func (b *B) bigSometimes() {
	if b.Chance(1, 25) {
		b.c.MaxWidth = 100 + b.Intn(400)
		b.c.MaxDepth = 1
		b.depth = 1
		if b.Chance(1, 2) {
			b.c.Keys = nil
			for i, n := 0, 60+b.Intn(200); i < n; i++ {
				b.c.Keys = append(b.c.Keys, fmt.Sprintf("key%d", i))
			}
		}
	}
}

func genC03(b *B) {
	b.plainMostly()
	b.bigSometimes()
	b.phase(Phase{Turn: true})
	slots := []int{b.start(0, false)}
	ws := b.wild(b.swarm([]W{{"fill", 1}, {"drain", 1}, {"set", 20}, {"rm", 12}, {"setvia", 4}, {"len", 6}, {"save", 4}, {"check", 4}, {"read", 6}, {"clone", 2}, {"reload", 2}, {"attach", 2}, {"handle", 2}, {"newmap", 1}, {"ask", 2}, {"app", 1}, {"parse", 1}, {"native", 1}, {"walk", 1}, {"mv", 3}}, "set", "rm", "len"))
	slots = b.turns(ws, slots, 1+b.Intn(3), b.length(160))
	b.finish(0, slots)
	b.maybeNoise()
}

func genC04(b *B) {
	b.plainMostly()
	b.bigSometimes()
	b.phase(Phase{Turn: true})
	slots := []int{b.start(0, true)}
	if b.Chance(1, 2) {
		slots = append(slots, b.start(0, false))
	}
	if b.Chance(1, 2) {
		b.c.Kinds = []string{[]string{"int", "str", "bool"}[b.Intn(3)]}
	}
	ws := b.wild(b.swarm([]W{{"fill", 1}, {"drain", 1}, {"app", 20}, {"aset", 10}, {"arm", 12}, {"list", 8}, {"len", 5}, {"aget", 5}, {"save", 3}, {"check", 4}, {"setvia", 3}, {"clone", 2}, {"reload", 1}, {"attach", 3}, {"handle", 2}, {"newarr", 1}, {"set", 2}, {"read", 3}, {"nativearr", 1}, {"mv", 5}}, "app", "aset", "arm"))
	slots = b.turns(ws, slots, 1+b.Intn(3), b.length(160))
	b.finish(0, slots)
	b.maybeNoise()
}

func genC05(b *B) {
	b.c.Exotic = b.Chance(1, 2)
	if b.Chance(1, 3) {
		// clones made in the middle of a history
		b.phase(Phase{Turn: true})
		slots := []int{b.start(0, b.Chance(1, 4))}
		ws := b.wild(b.swarm(mix(editOps, []W{{"clone", 14}, {"check", 6}, {"save", 3}, {"poke", 3}, {"handle", 3}, {"handlev", 2}, {"read", 3}}), "clone", "check", "set"))
		slots = b.turns(ws, slots, 1+b.Intn(3), b.length(60))
		b.finish(0, slots)
		b.maybeNoise()
		return
	}
	b.phase(Phase{})
	orig := b.start(0, b.Chance(1, 4))
	if b.Chance(1, 8) {
		orig = b.build(0, "val")
	}
	for i, n := 0, b.Intn(10); i < n; i++ {
		b.step(b.choose(editOps), 0, []int{orig})
	}
	owners := [][]int{{orig}}
	n := 1 + b.Intn(3)
	for i := 0; i < n; i++ {
		src := owners[b.Intn(len(owners))][0]
		op := &Op{C: 0, T: "clone", S: src, D: b.slot(), N: b.lvl()}
		if b.Chance(1, 4) {
			if p := b.pick([]int{src}, ""); p != nil {
				op.Path = p.path
			}
		}
		if b.add(op) && b.sim.slots[op.D] != nil {
			owners = append(owners, []int{op.D})
		}
	}
	b.phase(Phase{Preempt: true, Track: true})
	ws := b.swarm(mix(editOps, editOps, readOps, []W{{"poke", 10}}), "poke", "check")
	steps := len(owners) * (3 + b.Intn(8))
	for i := 0; i < steps; i++ {
		c := b.Intn(len(owners))
		owners[c] = keepSlots(owners[c], b.step(b.choose(ws), c, owners[c]), b)
	}
	for c := range owners {
		b.finish(c, owners[c][:1])
	}
}

func genC06(b *B) {
	b.c.Exotic = false
	b.level = 0
	gens := 1 + b.Intn(5)
	if b.c.Giant == "history" {
		gens = 8 + b.Intn(40)
	}
	if b.Chance(1, 10) {
		b.bigSometimes()
	}
	file := b.slot()
	b.phase(Phase{Turn: true})
	slots := []int{b.start(0, false)}
	ws := b.wild(b.swarm(mix(editOps, []W{{"reload", 8}, {"save", 3}, {"clone", 2}, {"read", 3}, {"handle", 1}}), "set"))
	clients := 1 + b.Intn(2)
	b.turns(ws, slots, clients, b.Intn(10))
	b.add(&Op{C: 0, T: "dsave", S: slots[0], D: file, A: []string{"", "after"}[b.Intn(2)], N: int64(b.Next() >> 2)})
	for g := 0; g < gens; g++ {
		ph := Phase{Restart: true, Turn: true}
		many := b.Chance(1, 4)
		if many {
			// several readers load the delivered text at once
			ph = Phase{Restart: true, Preempt: true}
			b.phase(ph)
			for c := 1; c <= 2+b.Intn(2); c++ {
				s := b.slot()
				b.add(&Op{C: c, T: "dload", S: s, D: file, N: b.lvl()})
				for i, n := 0, b.Intn(5); i < n; i++ {
					b.step(b.choose(mix(editOps, readOps)), c, []int{s})
				}
				b.add(&Op{C: c, T: "dload", S: b.slot(), D: file})
				b.add(&Op{C: c, T: "check", S: s})
			}
			continue
		}
		b.phase(ph)
		s := b.slot()
		b.add(&Op{C: 0, T: "dload", S: s, D: file, N: b.lvl()})
		slots := []int{s}
		n := b.Intn(10)
		for i := 0; i < n; i++ {
			slots = keepSlots(slots, b.step(b.choose(ws), b.Intn(clients), slots), b)
		}
		if b.sim.slots[s] == nil {
			continue
		}
		a := []string{"", "", "after", "produce", "store"}[b.Intn(5)]
		b.add(&Op{C: 0, T: "dsave", S: s, D: file, A: a, N: int64(b.Next() >> 2)})
	}
	b.phase(Phase{Restart: true})
	b.add(&Op{C: 0, T: "dload", S: b.slot(), D: file, N: 1})
}

func genC07(b *B) {
	b.phase(Phase{Turn: true})
	slots := []int{b.start(0, false)}
	b.turns(mix(editOps, []W{{"reload", 2}}), slots, 1, b.Intn(12))
	for i, n := 0, 6+b.Intn(20); i < n; i++ {
		p := b.pick(slots, "map")
		if p == nil || b.Chance(1, 2) {
			p = &place{slot: slots[0]}
		}
		b.add(&Op{C: 0, T: "cut", S: p.slot, Path: p.path, A: []string{"step", "step", "brace", "close", "end", "byte"}[b.Intn(6)], N: int64(b.Next() >> 2)})
		if b.Chance(1, 8) {
			b.step(b.choose(editOps), 0, slots)
		}
	}
	b.add(&Op{C: 0, T: "reload", S: slots[0], D: b.slot()})
	if b.Chance(1, 6) {
		b.noise(9)
	}
}

var damageKinds = []string{"bit flipped", "byte changed", "bytes lost", "piece duplicated", "pieces reordered", "texts spliced", "text cut short", "bytes inserted", "start lost", "structure character changed"}

func (b *B) damaged(t, other string) (string, string) {
	d := []byte(t)
	kind := damageKinds[b.Intn(len(damageKinds))]
	span := func() (int, int) {
		if len(d) == 0 {
			return 0, 0
		}
		i := b.Intn(len(d))
		n := 1 + b.logLen(12)
		if i+n > len(d) {
			n = len(d) - i
		}
		return i, i + n
	}
	structural := "{}[]\",:\\ \n0-.ntf"
	switch kind {
	case "bit flipped":
		for i, n := 0, 1+b.Intn(3); i < n && len(d) > 0; i++ {
			d[b.Intn(len(d))] ^= 1 << uint(b.Intn(8))
		}
	case "byte changed":
		for i, n := 0, 1+b.Intn(3); i < n && len(d) > 0; i++ {
			d[b.Intn(len(d))] = byte(b.Intn(256))
		}
	case "bytes lost":
		i, j := span()
		d = append(append([]byte{}, d[:i]...), d[j:]...)
	case "piece duplicated":
		i, j := span()
		d = append(append([]byte{}, d[:j]...), d[i:]...)
	case "pieces reordered":
		i, j := span()
		k := j + b.Intn(len(d)-j+1)
		d = append(append(append(append([]byte{}, d[:i]...), d[j:k]...), d[i:j]...), d[k:]...)
	case "texts spliced":
		i := b.Intn(len(d) + 1)
		j := b.Intn(len(other) + 1)
		d = append(append([]byte{}, d[:i]...), other[j:]...)
	case "text cut short":
		d = d[:b.Intn(len(d)+1)]
	case "bytes inserted":
		i := b.Intn(len(d) + 1)
		ins := ""
		for k, n := 0, 1+b.Intn(4); k < n; k++ {
			ins += string(structural[b.Intn(len(structural))])
		}
		if b.Chance(1, 6) {
			ins = strings.Repeat(ins, 1+b.Intn(200))
		}
		d = append(append(append([]byte{}, d[:i]...), ins...), d[i:]...)
	case "start lost":
		d = d[b.Intn(len(d)+1):]
	case "structure character changed":
		var at []int
		for i, c := range d {
			if strings.IndexByte("{}[]\",:\\", c) >= 0 {
				at = append(at, i)
			}
		}
		for i, n := 0, 1+b.Intn(2); i < n && len(at) > 0; i++ {
			d[at[b.Intn(len(at))]] = structural[b.Intn(len(structural))]
		}
	}
	// what starts and ends like a document gets further
	if b.Chance(1, 2) && len(d) > 1 {
		d = append([]byte("{"), d...)
		if d[1] == '{' {
			d = d[1:]
		}
		if d[len(d)-1] != '}' {
			d = append(d, '}')
		}
	}
	return string(d), kind
}

func genC08(b *B) {
	if b.Chance(1, 2) {
		b.c.MaxDepth, b.depth = 1+b.Intn(3), 1+b.Intn(3)
		b.c.LongStr = 20
	}
	b.phase(Phase{Turn: true})
	clients := 1 + b.Intn(2)
	if clients > 1 && b.Chance(1, 2) {
		b.ph.Turn = false
		b.ph.Preempt = true
	}
	t1 := b.textVal(b.depth).render(b.simRNG, b.Intn(3))
	n := 6 + b.Intn(14)
	for i := 0; i < n; i++ {
		c := b.Intn(clients)
		if b.Chance(1, 4) {
			b.parse(c)
			continue
		}
		if b.Chance(1, 3) {
			t1 = b.textVal(b.depth).render(b.simRNG, b.Intn(3))
		}
		t2 := b.textVal(b.depth).render(b.simRNG, b.Intn(3))
		if b.Chance(1, 4) {
			t2 = b.lenient()
		}
		d, kind := b.damaged(t1, t2)
		for b.Chance(1, 4) {
			d, kind = b.damaged(d, t2)
		}
		if b.Chance(1, 6) {
			d, kind = b.lenient(), "text no standard covers"
		}
		if len(d) > 3000 {
			d = d[:3000]
		}
		b.add(&Op{C: c, T: "damage", A: kind, Text: Str(d)})
	}
	b.parse(0)
}

func genC09(b *B) {
	b.c.Kinds = []string{"int"}
	if b.Chance(1, 3) {
		b.c.Kinds = [][]string{{"int", "int", "int", "int", "nil", "bool"}, {"int", "int", "float"}, {"int", "int", "int", "str", "float", "time", "errs"}}[b.Intn(3)]
	}
	b.c.PlainText = true
	b.phase(Phase{Turn: true})
	slots := []int{b.start(0, false)}
	if b.Chance(1, 2) {
		slots = append(slots, b.start(0, true))
	}
	ws := b.wild(b.swarm([]W{{"set", 14}, {"setvia", 8}, {"app", 6}, {"aset", 5}, {"readint", 30}, {"listint", 10}, {"clone", 4}, {"reload", 6}, {"attach", 3}, {"handlev", 2}, {"mv", 4}, {"rm", 2}, {"arm", 2}, {"check", 4}, {"parse", 4}, {"new", 1}, {"ask", 3}}, "set", "readint", "reload"))
	slots = b.turns(ws, slots, 1+b.Intn(3), b.length(80))
	for _, s := range slots {
		if b.sim.slots[s] != nil {
			b.add(&Op{C: 0, T: "check", S: s, N: 1})
		}
	}
	b.maybeNoise()
}

func genC10(b *B) {
	b.c.Exotic = true
	if b.Chance(1, 2) {
		b.c.Keys = b.c.Keys[:1+b.Intn(2)]
	}
	b.phase(Phase{Turn: true})
	slots := []int{b.start(0, b.Chance(1, 4))}
	if b.Chance(1, 2) {
		slots = append(slots, b.build(0, "val"))
	}
	ws := b.wild(b.swarm([]W{{"set", 20}, {"setvia", 14}, {"aset", 6}, {"app", 5}, {"read", 25}, {"ask", 10}, {"typeof", 1}, {"list", 3}, {"check", 5}, {"attach", 3}, {"handlev", 3}, {"mv", 3}, {"handle", 2}, {"clone", 2}, {"new", 1}, {"rm", 2}, {"aget", 2}}, "set", "setvia", "read"))
	slots = b.turns(ws, slots, 1+b.Intn(3), b.length(100))
	for _, s := range slots {
		if b.sim.slots[s] != nil {
			b.add(&Op{C: 0, T: "check", S: s, N: 1})
		}
	}
	b.maybeNoise()
}

func genC11(b *B) {
	b.c.Exotic = b.Chance(1, 2)
	b.phase(Phase{Turn: true})
	slots := []int{b.start(0, b.Chance(1, 4))}
	if b.Chance(1, 2) {
		slots = append(slots, b.build(0, "val"))
	}
	ws := b.wild(b.swarm(mix(editOps, []W{{"read", 12}, {"refread", 20}, {"refrm", 8}, {"refidx", 8}, {"parsebad", 8}, {"savenil", 2}, {"reflist", 8}, {"check", 8}, {"save", 3}, {"aget", 4}, {"ask", 2}, {"reload", 2}, {"parse", 2}, {"clone", 2}}), "refread", "check", "refrm", "refidx"))
	clients := 1 + b.Intn(3)
	for i, n := 0, b.length(80); i < n; i++ {
		c := b.Intn(clients)
		op := &Op{C: c, Via: b.Intn(4)}
		switch k := b.choose(ws); k {
		case "refread":
			op.T = "read"
			if b.target(op, slots, "", 7) == nil {
				continue
			}
			op.A, op.P, op.Via = readTypes[b.Intn(len(readTypes))], b.Chance(1, 2), b.Intn(2)
			b.add(op)
		case "refrm":
			op.T = "rm"
			if b.target(op, slots, "map", 0) == nil {
				continue
			}
			b.add(op)
		case "refidx":
			op.T = []string{"aset", "arm", "aget"}[b.Intn(3)]
			p := b.target(op, slots, "arr", 0)
			if p == nil {
				continue
			}
			n := len(p.r.ma.e)
			op.I = []int{-1, n, n + 1, -n - 1, n + 100, 1 << 62, -1 << 62}[b.Intn(7)]
			op.V = b.scalar("int")
			op.A = []string{"String", "Map"}[b.Intn(2)]
			b.add(op)
		case "reflist":
			op.T = "list"
			if b.target(op, slots, "", 8) == nil {
				continue
			}
			op.A, op.P = listTypes[b.Intn(len(listTypes))], b.Chance(1, 2)
			b.add(op)
		default:
			slots = keepSlots(slots, b.step(k, c, slots), b)
		}
	}
	b.finish(0, slots)
	b.maybeNoise()
}

func genC12(b *B) {
	b.c.Exotic = b.Chance(1, 2)
	b.phase(Phase{Turn: true})
	slots := []int{b.start(0, b.Chance(1, 5))}
	ws := b.wild(b.swarm(mix(editOps, []W{{"badset", 12}, {"repair", 14}, {"save", 14}, {"clone", 10}, {"check", 6}, {"reload", 3}, {"handle", 2}, {"read", 3}, {"len", 2}}), "badset", "repair", "save", "clone"))
	slots = b.turns(ws, slots, 1+b.Intn(3), b.length(80))
	// in the end everything is repaired
	for i := 0; i < 200; i++ {
		n := b.nextID
		b.step("repair", 0, slots)
		if b.nextID == n {
			break
		}
	}
	for _, s := range slots {
		if b.sim.slots[s] != nil {
			b.add(&Op{C: 0, T: "clone", S: s, D: b.slot()})
		}
	}
	b.finish(0, slots)
	b.maybeNoise()
	if b.Chance(1, 32) {
		// what recurses without end takes its process with it: the last step
		b.phase(Phase{})
		b.add(&Op{C: 0, T: "endless", A: []string{"save", "clone"}[b.Intn(2)], Via: b.Intn(5), I: b.Intn(4)})
	}
}

func genC13(b *B) {
	b.c.Kinds = []string{"time", "time", "time", "str"}
	b.c.PlainText = true
	b.c.Strs = nil
	b.phase(Phase{Turn: true})
	slots := []int{b.start(0, b.Chance(1, 4))}
	clients := 1 + b.Intn(3)
	ws := b.wild(b.swarm([]W{{"set", 12}, {"setvia", 8}, {"app", 4}, {"aset", 3}, {"clock", 16}, {"readtime", 24}, {"clone", 6}, {"reload", 6}, {"check", 4}, {"now", 6}, {"save", 2}, {"handlev", 2}, {"rm", 1}}, "clock", "readtime", "set", "now"))
	for i, n := 0, b.length(80); i < n; i++ {
		c := b.Intn(clients)
		k := b.choose(ws)
		if k == "now" {
			op := &Op{C: c, T: []string{"set", "setvia", "app"}[b.Intn(3)]}
			if b.target(op, slots, map[string]string{"set": "map", "app": "arr"}[op.T], 5) != nil {
				op.V = &Val{K: "str", S: "now", P: b.Chance(1, 2), How: b.Intn(4)}
				b.add(op)
			}
			continue
		}
		slots = keepSlots(slots, b.step(k, c, slots), b)
	}
	for _, s := range slots {
		if b.sim.slots[s] != nil {
			b.add(&Op{C: 0, T: "check", S: s, N: 1})
		}
	}
	b.maybeNoise()
}

func genC14(b *B) {
	b.plainMostly()
	b.bigSometimes()
	if b.Chance(1, 3) {
		// one caller walks its listing while another edits
		b.phase(Phase{})
		slots := []int{b.start(0, false)}
		b.turns([]W{{"set", 3}, {"rm", 1}}, slots, 1, b.Intn(10))
		for i := 0; i < 3; i++ {
			b.step("keys", 0, slots)
		}
		b.phase(Phase{Preempt: true, Track: true})
		ws := []W{{"set", 6}, {"rm", 6}, {"keys", 1}, {"setvia", 2}, {"save", 1}}
		var own []int
		lists := append([]int{}, b.lists...)
		for i, n := 0, 8+b.Intn(20); i < n; i++ {
			if b.Chance(1, 2) && len(lists) > 0 {
				b.lists = lists
				if b.Chance(1, 4) {
					b.step("keysmut", 1, nil)
				}
				b.step("keyscheck", 1, nil)
				continue
			}
			b.lists = own
			b.step(b.choose(ws), 2, slots)
			own = b.lists
		}
		b.finish(2, slots)
		b.lists = lists
		for range lists {
			b.step("keyscheck", 1, nil)
		}
		return
	}
	b.phase(Phase{Turn: true})
	slots := []int{b.start(0, false)}
	ws := b.wild(b.swarm([]W{{"keys", 12}, {"keyscheck", 14}, {"keysmut", 8}, {"set", 12}, {"rm", 14}, {"setvia", 3}, {"len", 5}, {"walk", 6}, {"save", 3}, {"check", 3}, {"clone", 2}, {"reload", 2}, {"handle", 2}}, "keys", "keyscheck", "rm", "set"))
	slots = b.turns(ws, slots, 1+b.Intn(3), b.length(100))
	for _, l := range b.lists {
		b.add(&Op{C: 0, T: "keyscheck", D: l})
	}
	b.finish(0, slots)
	b.maybeNoise()
}

// genC20: values and lists that reads handed out, and variables and native
// containers handed over, are looked at again after what was done since.
func genC20(b *B) {
	b.plainMostly()
	b.c.Exotic = b.Chance(2, 3)
	if b.Chance(1, 3) {
		b.c.Kinds = [][]string{{"int"}, {"str", "time"}, {"bool", "float"}, {"errs", "err", "func"}}[b.Intn(4)]
	}
	if b.Chance(1, 4) {
		// one caller holds, another edits
		b.phase(Phase{})
		first := b.start(0, b.Chance(1, 4))
		slots := b.turns(editOps, []int{first}, 1, 2+b.Intn(10))
		for i, n := 0, 1+b.Intn(6); i < n; i++ {
			b.step("hold", 0, slots)
		}
		if len(b.helds) == 0 {
			b.finish(0, slots)
			return
		}
		held := append([]int{}, b.helds...)
		b.phase(Phase{Preempt: true, Track: true})
		ws := b.wild(b.swarm(mix(editOps, []W{{"save", 2}, {"clone", 2}, {"read", 2}, {"hold", 1}}), "set"))
		for i, n := 0, 8+b.Intn(20); i < n; i++ {
			if b.Chance(1, 2) {
				b.add(&Op{C: 1, T: "heldcheck", D: held[b.Intn(len(held))]})
				continue
			}
			slots = keepSlots(slots, b.step(b.choose(ws), 2, slots), b)
		}
		b.phase(Phase{})
		for _, h := range held {
			b.add(&Op{C: 1, T: "heldcheck", D: h})
		}
		b.add(&Op{C: 1, T: "heldcheck", A: "given"})
		b.finish(2, slots)
		return
	}
	ws := b.wild(b.swarm([]W{{"hold", 14}, {"heldcheck", 10}, {"set", 20}, {"setvia", 10}, {"rm", 5}, {"app", 8}, {"aset", 8}, {"arm", 4}, {"mv", 3}, {"attach", 3}, {"handle", 2}, {"handlev", 3}, {"clone", 3}, {"save", 3}, {"reload", 2}, {"check", 2}, {"native", 3}, {"nativearr", 2}, {"new", 1}, {"parse", 1}, {"read", 3}, {"list", 2}, {"fill", 1}, {"drain", 1}}, "hold", "heldcheck", "set"))
	b.phase(Phase{Turn: true})
	slots := b.turns(ws, []int{b.start(0, b.Chance(1, 5))}, 1+b.Intn(3), b.length(90))
	for _, h := range b.helds {
		b.add(&Op{C: 0, T: "heldcheck", D: h})
	}
	b.add(&Op{C: 0, T: "heldcheck", A: "given"})
	b.finish(0, slots)
	b.maybeNoise()
}

func genC15(b *B) {
	b.c.Exotic = b.Chance(1, 3)
	b.bigSometimes()
	b.p.HashMode = []int{1, 1, 1, 2, 0}[b.Intn(5)]
	b.phase(Phase{Turn: true})
	slots := []int{b.native(0, false)}
	ws := b.wild(b.swarm([]W{{"native", 12}, {"nativearr", 4}, {"len", 8}, {"save", 8}, {"check", 8}, {"clone", 5}, {"reload", 5}, {"set", 5}, {"rm", 5}, {"setvia", 2}, {"app", 2}, {"arm", 1}, {"aset", 1}, {"keys", 3}, {"keyscheck", 3}, {"read", 3}}, "native", "len", "save"))
	slots = b.turns(ws, slots, 1+b.Intn(2), b.length(50))
	b.finish(0, slots)
	b.maybeNoise()
}

// genC16: numbers of all types through generations of saving and loading, with
// edits, clones, moves and failed loads in between; the classification made by
// loading is asked for everywhere.
func genC16(b *B) {
	b.c.PlainText = true
	b.c.Kinds = [][]string{{"int"}, {"int", "float"}, {"float"}, {"int", "float", "str", "bool", "nil"}}[b.Intn(4)]
	b.level = 1
	file := b.slot()
	b.phase(Phase{Turn: true})
	slots := []int{b.start(0, false)}
	ws := b.wild(b.swarm([]W{{"set", 12}, {"setvia", 5}, {"app", 6}, {"aset", 4}, {"ask", 12}, {"reload", 12}, {"parse", 6}, {"parsebad", 5}, {"clone", 4}, {"attach", 3}, {"mv", 4}, {"handlev", 2}, {"rm", 2}, {"arm", 2}, {"check", 8}, {"read", 4}, {"list", 2}}, "set", "reload", "check"))
	clients := 1 + b.Intn(3)
	slots = b.turns(ws, slots, clients, b.length(40))
	for g, gens := 0, 1+b.Intn(4); g < gens; g++ {
		if b.sim.slots[slots[0]] == nil {
			return
		}
		b.add(&Op{C: 0, T: "dsave", S: slots[0], D: file, A: []string{"", "after", "", "produce"}[b.Intn(4)], N: int64(b.Next() >> 2)})
		ph := Phase{Restart: true, Turn: true}
		if b.sim.files[file] == nil {
			b.phase(ph)
			b.start(0, false)
			return
		}
		if b.Chance(1, 4) {
			ph = Phase{Restart: true, Preempt: true}
			b.phase(ph)
			for c := 0; c < 2+b.Intn(2); c++ {
				s := b.slot()
				b.add(&Op{C: c, T: "dload", S: s, D: file, N: 1})
				for i, n := 0, b.Intn(5); i < n; i++ {
					b.step(b.choose(ws), c, []int{s})
				}
				b.add(&Op{C: c, T: "check", S: s, N: 1})
				slots[0] = s
			}
			b.phase(Phase{Turn: true})
			slots = slots[:1]
			continue
		}
		b.phase(ph)
		s := b.slot()
		b.add(&Op{C: 0, T: "dload", S: s, D: file, N: 1})
		slots = b.turns(ws, []int{s}, clients, b.Intn(12))
	}
	for _, s := range slots {
		if b.sim.slots[s] != nil {
			b.add(&Op{C: 0, T: "check", S: s, N: 1})
		}
	}
	b.maybeNoise()
}

// genC18: every saved text of a history goes to another program: a strict
// reader that shares no code with the library.
func genC18(b *B) {
	b.c.Exotic = b.Chance(1, 2)
	b.level = 0
	b.bigSometimes()
	if b.Chance(1, 4) {
		// several callers save at once
		b.phase(Phase{})
		first := b.start(0, b.Chance(1, 5))
		for i, n := 0, b.Intn(6); i < n; i++ {
			b.step(b.choose(editOps), 0, []int{first})
		}
		b.phase(Phase{Preempt: true})
		clients := 2 + b.Intn(3)
		own := map[int][]int{}
		for c := 1; c <= clients; c++ {
			own[c] = keepSlots(nil, b.start(c, b.Chance(1, 5)), b)
		}
		ws := b.wild(b.swarm(mix(editOps, []W{{"save", 25}, {"reload", 4}, {"clone", 3}}), "set", "save"))
		for i, n := 0, clients*(2+b.Intn(6)); i < n; i++ {
			c := 1 + b.Intn(clients)
			b.lists = nil
			if b.Chance(1, 4) {
				b.add(&Op{C: c, T: "save", S: first, N: int64(b.Intn(4))})
				continue
			}
			own[c] = keepSlots(own[c], b.step(b.choose(ws), c, own[c]), b)
		}
		b.phase(Phase{})
		b.finish(0, []int{first})
		return
	}
	file := b.slot()
	b.phase(Phase{Turn: true})
	slots := []int{b.start(0, b.Chance(1, 6))}
	ws := b.wild(b.swarm(mix(editOps, []W{{"save", 20}, {"reload", 5}, {"clone", 3}, {"badset", 3}, {"repair", 6}, {"parsebad", 1}, {"native", 2}, {"handle", 2}, {"new", 1}}), "set", "save"))
	clients := 1 + b.Intn(3)
	slots = b.turns(ws, slots, clients, b.length(80))
	b.finish(0, slots)
	for g, gens := 0, b.Intn(4); g < gens; g++ {
		if r := b.sim.slots[slots[0]]; r == nil || r.k != "map" {
			return
		}
		b.add(&Op{C: 0, T: "dsave", S: slots[0], D: file, A: []string{"", "after", "after", "produce", "store"}[b.Intn(5)], N: int64(b.Next() >> 2)})
		if b.sim.files[file] == nil {
			break
		}
		b.phase(Phase{Restart: true, Turn: true})
		s := b.slot()
		b.add(&Op{C: 0, T: "dload", S: s, D: file})
		slots = b.turns(ws, []int{s}, clients, b.Intn(10))
		b.finish(0, slots)
	}
	b.maybeNoise()
}

// genC19: scalars move between kinds: strings spelling numbers, booleans and
// instants are read as those, everything is rendered as plain text, through
// overwrites, clones, saves, crashes and reloads, by several callers.
func genC19(b *B) {
	b.c.Kinds = [][]string{{"str"}, {"str", "str", "int", "float", "bool"}, {"nil", "str", "str", "bool", "int", "float", "time", "err"}, {"int", "float", "bool", "time"}}[b.Intn(4)]
	b.c.NumText = []int{3, 5, 7}[b.Intn(3)]
	if b.Chance(1, 2) {
		b.c.Strs = nil
		for i := 0; i < 3; i++ {
			b.c.Strs = append(b.c.Strs, b.numText())
		}
	}
	ws := b.wild(b.swarm([]W{{"set", 14}, {"setvia", 10}, {"app", 6}, {"aset", 4}, {"render", 16}, {"convert", 8}, {"cross", 26}, {"list", 6}, {"clone", 4}, {"reload", 5}, {"attach", 3}, {"handlev", 2}, {"mv", 3}, {"rm", 2}, {"arm", 2}, {"check", 3}, {"parse", 3}, {"new", 1}}, "set", "render", "cross"))
	if b.Chance(1, 4) {
		// several callers convert what nobody edits, and values of their own
		b.phase(Phase{})
		first := b.start(0, b.Chance(1, 4))
		for i, n := 0, 1+b.Intn(8); i < n; i++ {
			b.step(b.choose(editOps), 0, []int{first})
		}
		b.phase(Phase{Preempt: true, Track: b.Chance(1, 2)})
		clients := 2 + b.Intn(3)
		own := map[int][]int{}
		for i, n := 0, clients*(2+b.Intn(7)); i < n; i++ {
			c := 1 + b.Intn(clients)
			if len(own[c]) > 0 && b.Chance(1, 3) {
				own[c] = keepSlots(own[c], b.step(b.choose(ws), c, own[c]), b)
				continue
			}
			if b.Chance(1, 6) {
				own[c] = keepSlots(own[c], b.start(c, false), b)
				continue
			}
			b.step([]string{"render", "cross", "convert", "cross", "list"}[b.Intn(5)], c, []int{first})
		}
		b.phase(Phase{})
		b.finish(0, []int{first})
		return
	}
	file := b.slot()
	b.phase(Phase{Turn: true})
	slots := []int{b.start(0, b.Chance(1, 6))}
	clients := 1 + b.Intn(3)
	slots = b.turns(ws, slots, clients, b.length(80))
	for g, gens := 0, b.Intn(3); g < gens; g++ {
		if r := b.sim.slots[slots[0]]; r == nil || r.k != "map" {
			return
		}
		b.add(&Op{C: 0, T: "dsave", S: slots[0], D: file, A: []string{"", "after", "produce"}[b.Intn(3)], N: int64(b.Next() >> 2)})
		if b.sim.files[file] == nil {
			break
		}
		b.phase(Phase{Restart: true, Turn: true})
		s := b.slot()
		b.add(&Op{C: 0, T: "dload", S: s, D: file})
		slots = b.turns(ws, []int{s}, clients, b.Intn(20))
	}
	for _, s := range slots {
		if b.sim.slots[s] != nil {
			b.add(&Op{C: 0, T: "check", S: s, N: 1})
		}
	}
	b.maybeNoise()
}

// genC17: texts of every sort are offered again and again: well-formed ones,
// near copies of those, malformed ones, and ones no standard covers; between
// edits of what was loaded, across restarts, by several callers. Each must be
// answered as if it were the first.
func genC17(b *B) {
	b.level = 0
	if b.Chance(1, 2) {
		b.c.MaxDepth, b.depth = 1+b.Intn(3), 1+b.Intn(3)
		b.c.LongStr = 20
	}
	ws := b.wild(b.swarm([]W{{"parse", 20}, {"parsebad", 8}, {"offer", 16}, {"set", 4}, {"setvia", 2}, {"rm", 2}, {"app", 2}, {"arm", 1}, {"save", 1}, {"clone", 1}, {"check", 3}}, "parse", "offer", "parsebad"))
	var offers, bads []*Op
	do := func(c int, slots []int) []int {
		switch k := b.choose(ws); k {
		case "parse":
			return keepSlots(slots, b.parse(c), b)
		case "offer":
			if len(offers) > 0 && b.Chance(1, 2) {
				o := *offers[b.Intn(len(offers))]
				o.C = c
				b.add(&o)
				return slots
			}
			t, kind := b.lenient(), "text no standard covers"
			if b.Chance(1, 3) {
				t1 := b.textVal(b.depth).render(b.simRNG, b.Intn(3))
				if len(b.pool) > 0 && b.Chance(1, 2) {
					t1 = string(b.pool[b.Intn(len(b.pool))].Text)
				}
				t, kind = b.damaged(t1, b.lenient())
			}
			if len(t) > 1500 {
				t = t[:1500]
			}
			op := &Op{C: c, T: "damage", A: kind, Text: Str(t)}
			if b.add(op) {
				offers = append(offers, op)
			}
			return slots
		case "parsebad":
			if len(bads) > 0 && b.Chance(1, 2) {
				o := *bads[b.Intn(len(bads))]
				o.C = c
				b.add(&o)
				return slots
			}
			t := b.malformed()
			if len(b.pool) > 0 && b.Chance(1, 3) {
				t = b.spoil(string(b.pool[b.Intn(len(b.pool))].Text))
			}
			op := &Op{C: c, T: "parsebad", Text: Str(t)}
			if b.add(op) {
				bads = append(bads, op)
			}
			return slots
		default:
			if len(slots) == 0 {
				return slots
			}
			return keepSlots(slots, b.step(k, c, slots), b)
		}
	}
	for g, gens := 0, 1+b.Intn(3); g < gens; g++ {
		clients := 1
		ph := Phase{Turn: true, Restart: g > 0}
		if b.Chance(1, 2) {
			clients = 2 + b.Intn(3)
			if b.Chance(2, 3) {
				ph = Phase{Preempt: true, Track: b.Chance(1, 3), Restart: g > 0}
			}
		}
		b.phase(ph)
		own := map[int][]int{}
		for i, n := 0, b.length(30); i < n; i++ {
			c := b.Intn(clients)
			own[c] = do(c, own[c])
		}
	}
}
