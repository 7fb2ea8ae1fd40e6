package main

import (
	"iter"
	"time"
	"unicode/utf8"
)

// attempt runs a candidate and tells whether it fails in the same way.
type attempt func(p *Plan) bool

func sameFailure(class string) attempt {
	return func(p *Plan) bool {
		v, _ := execute(p.clone(), newStats())
		return v != nil && v.Class == class
	}
}

// shrink makes a failing plan smaller.
func shrink(p *Plan, fails attempt, limit time.Duration) *Plan {
	end := time.Now().Add(limit)
	late := func() bool { return time.Now().After(end) }
	cur := p.clone()
	try := func(c *Plan) bool {
		if late() || !fails(c) {
			return false
		}
		cur = c
		return true
	}
	if cur.Solo {
		c := cur.clone()
		c.Solo = false
		try(c)
	}
	for round := 0; round < 4 && !late(); round++ {
		before := len(cur.json())
		// whole phases, then operations
		for i := len(cur.Phases) - 1; i >= 0; i-- {
			c := cur.clone()
			c.Phases = append(c.Phases[:i], c.Phases[i+1:]...)
			try(c)
		}
		for pi := 0; pi < len(cur.Phases); pi++ {
			n := len(cur.Phases[pi].Ops)
			for size := (n + 1) / 2; size >= 1; size /= 2 {
				for i := len(cur.Phases[pi].Ops) - size; i > -size; i -= size {
					lo := i
					if lo < 0 {
						lo = 0
					}
					hi := i + size
					ops := cur.Phases[pi].Ops
					if hi > len(ops) {
						hi = len(ops)
					}
					if lo >= hi {
						continue
					}
					c := cur.clone()
					c.Phases[pi].Ops = append(append([]*Op{}, ops[:lo]...), ops[hi:]...)
					try(c)
				}
			}
		}
		// switches
		for size := (len(cur.Switches) + 1) / 2; size >= 1; size /= 2 {
			for i := len(cur.Switches) - size; i > -size; i -= size {
				lo, hi := i, i+size
				if lo < 0 {
					lo = 0
				}
				if hi > len(cur.Switches) {
					hi = len(cur.Switches)
				}
				if lo >= hi {
					continue
				}
				c := cur.clone()
				c.Switches = append(c.Switches[:lo], c.Switches[hi:]...)
				try(c)
			}
		}
		// values
		for pi := range cur.Phases {
			for oi := range cur.Phases[pi].Ops {
				shrinkOp(&cur, pi, oi, try)
			}
		}
		if len(cur.json()) == before {
			break
		}
	}
	return cur
}

// shrinkOp simplifies the argument of one operation.
func shrinkOp(cur **Plan, pi, oi int, try func(*Plan) bool) {
	with := func(f func(o *Op)) bool {
		c := (*cur).clone()
		o := *c.Phases[pi].Ops[oi]
		f(&o)
		c.Phases[pi].Ops[oi] = &o
		return try(c)
	}
	o := func() *Op { return (*cur).Phases[pi].Ops[oi] }
	if o().T == "parsebad" {
		// a shorter text need not be malformed
		return
	}
	if o().T == "damage" {
		for size := (len(o().Text) + 1) / 2; size >= 1; size /= 2 {
			for i := 0; i+size <= len(o().Text); {
				if !with(func(x *Op) { x.Text = x.Text[:i] + x.Text[i+size:] }) {
					i += size
				}
			}
		}
		return
	}
	if o().V == nil {
		return
	}
	setV := func(x *Op, v *Val) {
		x.V = v
		if x.T == "parse" {
			x.Text = Str(v.render(nil, 0))
		}
	}
	if o().T == "parse" {
		with(func(x *Op) { setV(x, x.V) })
	}
	for {
		smaller := false
		for v := range simpler(o().V) {
			if v.K != o().V.K && (o().T == "parse" || o().T == "native" || o().T == "new") {
				continue
			}
			if with(func(x *Op) { setV(x, v) }) {
				smaller = true
				break
			}
		}
		if !smaller {
			return
		}
	}
}

// simpler lists slightly smaller descriptions.
func simpler(v *Val) iter.Seq[*Val] {
	return func(yield func(*Val) bool) {
		switch v.K {
		case "map", "arr":
			// what is deep comes up first
			for _, e := range v.Es {
				if (e.K == "map" || e.K == "arr") && len(v.Es) < 4 && e.levels() > 3 && !yield(e) {
					return
				}
			}
			for size := (len(v.Es) + 1) / 2; size >= 1; size /= 2 {
				for i := 0; i+size <= len(v.Es); i += size {
					c := *v
					c.Es = append(append([]*Val{}, v.Es[:i]...), v.Es[i+size:]...)
					if v.K == "map" {
						c.Ks = append(append([]Str{}, v.Ks[:i]...), v.Ks[i+size:]...)
					}
					if !yield(&c) {
						return
					}
				}
			}
			for i := range v.Es {
				for e := range simpler(v.Es[i]) {
					c := *v
					c.Es = append([]*Val{}, v.Es...)
					c.Es[i] = e
					if !yield(&c) {
						return
					}
				}
				if v.K == "map" && len(v.Ks[i]) > 2 {
					c := *v
					c.Ks = append([]Str{}, v.Ks...)
					c.Ks[i] = v.Ks[i][:len(v.Ks[i])/2]
					dup := !utf8.ValidString(string(c.Ks[i]))
					for j, k := range c.Ks {
						dup = dup || j != i && k == c.Ks[i]
					}
					if !dup && !yield(&c) {
						return
					}
				}
			}
		case "str":
			n := len(v.S)
			tried := 0
			for size := (n + 1) / 2; size >= 1; size /= 2 {
				for i := 0; i+size <= n && tried < 40; i += size {
					tried++
					c := *v
					c.S = v.S[:i] + v.S[i+size:]
					if !utf8.ValidString(string(c.S)) {
						continue // a string no text can hold fails for reasons of its own
					}
					if !yield(&c) {
						return
					}
				}
			}
		case "errs":
			for i := range v.L {
				c := *v
				c.L = append(append([]Str{}, v.L[:i]...), v.L[i+1:]...)
				if !yield(&c) {
					return
				}
			}
		}
	}
}

// levels is how deep containers are nested.
func (v *Val) levels() int {
	n := 0
	for _, e := range v.Es {
		n = max(n, e.levels())
	}
	if v.K == "map" || v.K == "arr" {
		n++
	}
	return n
}
