package main

// What callers hold: pointers and lists that reads handed out, and the
// variables, lists and native containers they handed over themselves. None of
// it may change by what is done to documents later.

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
	"time"

	"simrt"
)

type Held struct {
	what string
	v    reflect.Value
	want []interface{}
	done bool // nothing is held
}

// given are the variables callers of this process handed over.
var given []*Held

const maxGiven = 400

// hand notes something a caller hands over.
func hand(x interface{}) interface{} {
	if holding && len(given) < maxGiven {
		v := reflect.ValueOf(x)
		given = append(given, &Held{what: fmt.Sprintf("a %s handed over", v.Type()), v: v, want: freeze(v)})
	}
	return x
}

// holding is set in runs of the property about it.
var holding bool

type sameObject struct{ p interface{} }

// freeze takes down everything reachable from v short of documents.
func freeze(v reflect.Value) (out []interface{}) {
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		if !v.IsValid() {
			out = append(out, nil)
			return
		}
		switch v.Kind() {
		case reflect.Interface:
			if !v.IsNil() {
				if e, ok := v.Interface().(error); ok {
					out = append(out, sameObject{v.Elem().Interface()}, e.Error())
					return
				}
			}
			walk(v.Elem())
		case reflect.Pointer:
			if v.IsNil() {
				out = append(out, nil)
				return
			}
			if e := v.Type().Elem(); e.Kind() == reflect.Struct && e != reflect.TypeOf(time.Time{}) {
				out = append(out, sameObject{v.Interface()})
				return
			}
			switch v.Elem().Kind() {
			case reflect.Slice, reflect.Map, reflect.Interface, reflect.Func:
				walk(v.Elem())
			default:
				out = append(out, load(v))
			}
		case reflect.Slice:
			out = append(out, v.IsNil(), v.Len())
			if v.Type().Elem().Kind() == reflect.Interface && v.Type() != reflect.TypeOf([]interface{}{}) {
				for _, e := range simrt.RL(v.Interface().([]error), harnessSite) {
					walk(reflect.ValueOf(&e).Elem())
				}
				return
			}
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		case reflect.Map:
			keys := v.MapKeys()
			sort.Slice(keys, func(i, j int) bool { return keys[i].String() < keys[j].String() })
			out = append(out, len(keys))
			for _, k := range keys {
				out = append(out, k.String())
				walk(v.MapIndex(k))
			}
		case reflect.Func:
			out = append(out, v.Pointer())
		case reflect.Struct:
			if t, ok := v.Interface().(time.Time); ok {
				out = append(out, t)
				return
			}
			out = append(out, "a document")
		default:
			out = append(out, v.Interface())
		}
	}
	walk(v)
	return
}

// changed tells what is different about something held.
func (h *Held) changed() string {
	got := freeze(h.v)
	if len(got) != len(h.want) {
		return fmt.Sprintf("%s changed from %s to %s", h.what, frozen(h.want), frozen(got))
	}
	for i := range got {
		if bitwise(h.want[i]) != bitwise(got[i]) {
			return fmt.Sprintf("%s changed from %s to %s", h.what, frozen(h.want), frozen(got))
		}
	}
	return ""
}

type bits64 uint64
type bits32 uint32

// bitwise tells apart what == does not.
func bitwise(x interface{}) interface{} {
	switch f := x.(type) {
	case float64:
		return bits64(math.Float64bits(f))
	case float32:
		return bits32(math.Float32bits(f))
	}
	return x
}

func frozen(l []interface{}) string {
	var s []string
	for i, x := range l {
		if i == 12 {
			s = append(s, "...")
			break
		}
		switch y := x.(type) {
		case sameObject:
			s = append(s, fmt.Sprintf("%T", y.p))
		case uintptr:
			s = append(s, "function")
		default:
			s = append(s, clip(plain(x), 40))
		}
	}
	return strings.Join(s, " ")
}

// hold keeps what a typed read or a listing hands out.
func (s *Sim) hold(op *Op) string {
	r := s.at(op)
	h := &Held{what: fmt.Sprintf("what %s handed out", op.A)}
	if !s.dry {
		var out []reflect.Value
		f := "Get" + op.A
		if !op.P && !strings.HasPrefix(op.A, "Errors") {
			f += "Value"
		}
		switch {
		case r.k == "map" && op.Via == 0 && has(r.m, f):
			out = call(r.m, f, string(op.K))
		case r.k == "arr" && has(r.a, f) && strings.HasPrefix(op.A, "ArrayOf"):
			out = call(r.a, f)
		default:
			v, _ := s.value(op, r)
			if !has(v, f) {
				s.skip()
			}
			out = call(v, f)
		}
		for _, o := range out[1:] {
			if bad, _ := errText(o); bad {
				h.done = true
			}
		}
		if !h.done {
			h.v = reflect.New(out[0].Type()).Elem()
			h.v.Set(out[0])
			h.want = freeze(h.v)
			s.probe("kept what a read handed out")
		}
	}
	s.held[op.D] = h
	return fmt.Sprint(h.done) + frozen(h.want)
}

// heldCheck looks at what is held again.
func (s *Sim) heldCheck(op *Op) string {
	if op.A == "given" {
		if s.dry {
			return ""
		}
		// the latest, and some older ones
		for i, n := 0, len(given); i < n; i++ {
			if i < n-40 && op.I > 0 && i%op.I != 0 {
				continue
			}
			if c := given[i].changed(); c != "" {
				s.failf("mismatch", op, "%s: %s", describeOp(op), c)
			}
		}
		return "same"
	}
	h := s.held[op.D]
	if h == nil || h.done {
		s.skip()
	}
	if !s.dry {
		if c := h.changed(); c != "" {
			s.failf("mismatch", op, "%s: %s", describeOp(op), c)
		}
	}
	return "same"
}
