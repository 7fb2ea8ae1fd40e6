package main

import (
	"fmt"
	"math"
	"math/big"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"time"

	hjson "github.com/matehaxor03/holistic_json/json"
	"simrt"
)

// --- stores ---

var typeNames = map[string]string{"str": "String", "bool": "Bool", "int": "Int", "int8": "Int8", "int16": "Int16", "int32": "Int32", "int64": "Int64",
	"uint": "UInt", "uint8": "UInt8", "uint16": "UInt16", "uint32": "UInt32", "uint64": "UInt64", "float32": "Float32", "float64": "Float64", "time": "Time", "map": "Map", "arr": "Array"}

func (v *Val) typeName() string {
	switch v.K {
	case "int", "float":
		return typeNames[v.W]
	}
	return typeNames[v.K]
}

func fieldOf(o interface{}, name string) reflect.Value {
	rv := reflect.ValueOf(o)
	if rv.Kind() == reflect.Pointer {
		rv = rv.Elem()
	}
	return rv.FieldByName(name)
}

func has(o interface{}, name string) bool {
	f := fieldOf(o, name)
	return f.IsValid() && !f.IsNil()
}

func call(o interface{}, name string, args ...interface{}) []reflect.Value {
	f := fieldOf(o, name)
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		if a == nil {
			in[i] = reflect.Zero(f.Type().In(i))
		} else {
			in[i] = reflect.ValueOf(a)
		}
	}
	return f.Call(in)
}

// mapSet stores v under k through one of the documented ways.
func mapSet(m *hjson.Map, k string, v *Val, how int) {
	o := v.object(v.P)
	if how == 3 && v.K != "bad" && v.W == "" {
		// as a free-standing value
		m.SetValue(k, hjson.NewValue(o))
		return
	}
	switch v.K {
	case "nil":
		switch n := "Set" + v.W; {
		case v.W != "" && has(m, n):
			call(m, n, k, nil)
		case how == 2:
			m.SetObjectForMap(k, nil)
		default:
			m.SetNil(k)
		}
		return
	case "errs":
		if e, ok := o.([]error); ok {
			m.SetErrors(k, e)
			return
		}
	case "func":
		if f, ok := o.(*func(string) []error); ok {
			m.SetFunc(k, f)
			return
		}
	case "time":
		if t, ok := o.(*time.Time); ok {
			m.SetTime(k, t)
			return
		}
	case "err":
	case "bad":
	default:
		n := "Set" + v.typeName()
		if !v.P {
			n += "Value"
		}
		if how != 2 && has(m, n) {
			call(m, n, k, o)
			return
		}
	}
	m.SetObjectForMap(k, o)
}

// valSet stores v in a value in place.
func valSet(t *hjson.Value, v *Val, how int) {
	o := v.object(v.P)
	switch v.K {
	case "nil":
		switch n := "Set" + v.W; {
		case v.W != "" && v.W != "Value" && has(t, n):
			call(t, n, nil)
		case how == 2:
			t.SetObject(nil)
		default:
			t.SetNil()
		}
		return
	case "errs":
		if v.P {
			t.SetErrors(o.(*[]error))
		} else {
			t.SetErrorsValue(o.([]error))
		}
		return
	case "err":
		if v.P {
			t.SetError(o.(*error))
		} else {
			t.SetErrorValue(o.(error))
		}
		return
	case "func", "bad":
	default:
		n := "Set" + v.typeName()
		if !v.P {
			n += "Value"
		}
		if how != 2 && has(t, n) {
			call(t, n, o)
			return
		}
	}
	t.SetObject(o)
}

// arrAppend appends v through one of the documented ways.
func arrAppend(a *hjson.Array, v *Val, how int) {
	o := v.object(v.P)
	switch v.K {
	case "nil":
		if n := "Append" + v.W; v.W != "" && has(a, n) {
			call(a, n, nil)
		} else {
			a.AppendNil()
		}
		return
	case "errs", "err", "time", "func", "bad":
	default:
		n := "Append" + v.typeName()
		if !v.P {
			n += "Value"
		}
		if how != 2 && how != 3 && has(a, n) {
			call(a, n, o)
			return
		}
	}
	if how == 3 {
		a.AppendValueValue(hjson.NewValueValue(o))
		return
	}
	a.AppendValue(hjson.NewValue(o))
}

// --- reads ---

// Res is the outcome of one read, reduced to comparable form.
type Res struct {
	Err     bool
	Msgs    string
	Nothing bool
	V       interface{} // plain value when there is one
	List    []interface{}
	IsList  bool
}

var hexRe = regexp.MustCompile(`0x[0-9a-f]+`)

func scrub(s string) string { return hexRe.ReplaceAllString(s, "0x_") }

var errType = reflect.TypeOf((*error)(nil)).Elem()
var errsType = reflect.TypeOf([]error(nil))

func errText(v reflect.Value) (bool, string) {
	if v.Type() == errType {
		if v.IsNil() {
			return false, ""
		}
		return true, scrub(v.Interface().(error).Error())
	}
	if v.IsNil() {
		return false, ""
	}
	// a list of errors that is there but empty also counts: callers compare it
	// with nil
	var out []string
	for _, e := range v.Interface().([]error) {
		if e == nil {
			out = append(out, "nil error")
			continue
		}
		out = append(out, scrub(e.Error()))
	}
	return true, strings.Join(out, "; ")
}

// load reads through a returned pointer, reporting the access.
func load(p reflect.Value) interface{} {
	switch x := p.Interface().(type) {
	case *string:
		return *simrt.RP(x, harnessSite)
	case *bool:
		return *simrt.RP(x, harnessSite)
	case *int:
		return *simrt.RP(x, harnessSite)
	case *int8:
		return *simrt.RP(x, harnessSite)
	case *int16:
		return *simrt.RP(x, harnessSite)
	case *int32:
		return *simrt.RP(x, harnessSite)
	case *int64:
		return *simrt.RP(x, harnessSite)
	case *uint:
		return *simrt.RP(x, harnessSite)
	case *uint8:
		return *simrt.RP(x, harnessSite)
	case *uint16:
		return *simrt.RP(x, harnessSite)
	case *uint32:
		return *simrt.RP(x, harnessSite)
	case *uint64:
		return *simrt.RP(x, harnessSite)
	case *float32:
		return *simrt.RP(x, harnessSite)
	case *float64:
		return *simrt.RP(x, harnessSite)
	case *time.Time:
		return *simrt.RP(x, harnessSite)
	}
	return p.Elem().Interface()
}

var harnessSite = -2

func resOf(out []reflect.Value) Res {
	var r Res
	for _, o := range out[1:] {
		if e, msg := errText(o); e {
			r.Err, r.Msgs = true, msg
		}
	}
	v := out[0]
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			r.Nothing = true
			return r
		}
		switch v.Elem().Kind() {
		case reflect.Struct:
			if v.Type() == reflect.TypeOf((*time.Time)(nil)) {
				r.V = load(v)
				return r
			}
			r.V = v.Interface()
		case reflect.Slice:
			r.IsList = true
			s := v.Elem()
			for i := 0; i < s.Len(); i++ {
				e := s.Index(i)
				if e.Kind() == reflect.Pointer {
					if e.IsNil() {
						r.List = append(r.List, nil)
					} else {
						r.List = append(r.List, load(e))
					}
					continue
				}
				r.List = append(r.List, e.Interface())
			}
		case reflect.Func:
			if v.Elem().IsNil() {
				r.Nothing = true
				return r
			}
			r.V = v.Elem().Interface()
		default:
			r.V = load(v)
		}
	case reflect.Slice:
		if v.IsNil() {
			r.Nothing = true
			return r
		}
		r.IsList = true
		for i := 0; i < v.Len(); i++ {
			r.List = append(r.List, v.Index(i).Interface())
		}
	case reflect.Interface:
		if v.IsNil() {
			r.Nothing = true
			return r
		}
		r.V = v.Interface()
	default:
		r.V = v.Interface()
	}
	return r
}

func (r Res) String() string {
	if r.Err {
		return "error: " + clip(r.Msgs, 300)
	}
	if r.Nothing {
		return "nothing"
	}
	if r.IsList {
		var out []string
		for _, e := range r.List {
			out = append(out, plain(e))
		}
		return clip("["+strings.Join(out, " ")+"]", 400)
	}
	return clip(plain(r.V), 400)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("… (%d bytes)", len(s))
	}
	return s
}

func plain(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return "nothing"
	case string:
		return strconv.Quote(x)
	case error:
		return "error " + strconv.Quote(x.Error())
	case time.Time:
		return x.UTC().Format(time.RFC3339Nano)
	case float64:
		return "float64 " + strconv.FormatFloat(x, 'g', -1, 64)
	case float32:
		return "float32 " + strconv.FormatFloat(float64(x), 'g', -1, 32)
	case func(string) []error:
		return fmt.Sprint(x(""))
	}
	switch reflect.TypeOf(v).Kind() {
	case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return fmt.Sprintf("%T %v", v, v)
	}
	return fmt.Sprintf("%T", v)
}

// --- expectations ---

type Exp struct {
	Mode string // exact either (exact or refused) nothing error any
	Want string
	ok   func(Res) bool
	// known names the listed finding that explains a mismatch satisfying knownOK
	known   string
	knownOK func(Res) bool
}

func (e Exp) check(r Res) (string, string) {
	switch e.Mode {
	case "any":
		return "", ""
	case "error":
		if r.Err {
			return "", ""
		}
		return "an error", ""
	case "nothing":
		if !r.Err && r.Nothing {
			return "", ""
		}
		return "nothing and no error", ""
	case "either":
		if r.Err {
			return "", ""
		}
	}
	if !r.Err && !r.Nothing && e.ok(r) {
		return "", ""
	}
	if e.known != "" && !r.Err && !r.Nothing && e.knownOK(r) {
		return "", e.known
	}
	return e.Want, ""
}

var anyExp = Exp{Mode: "any"}
var errExp = Exp{Mode: "error"}

// A string read as a number or boolean gives what it spells or is refused.
var (
	wholeRe   = regexp.MustCompile(`^[+-]?[0-9]+$`)
	decimalRe = regexp.MustCompile(`^[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][+-]?[0-9]+)?$`)
)

func isInt(n *big.Int) func(Res) bool {
	return func(r Res) bool { b := asBig(r.V); return b != nil && b.Cmp(n) == 0 }
}

func strAsInt(t, w string) Exp {
	if t == "NULL" && w[0] == 'u' {
		return anyExp
	}
	if !wholeRe.MatchString(t) {
		return errExp
	}
	n, _ := new(big.Int).SetString(strings.TrimPrefix(t, "+"), 10)
	if !fits(n, w) {
		return errExp
	}
	e := exact(n.String(), isInt(n))
	if t[0] == '+' || t[0] == '-' && w[0] == 'u' {
		e.Mode = "either"
	}
	return e
}

func strAsFloat(t, name string) Exp {
	f, err := strconv.ParseFloat(t, 64)
	if err != nil {
		return errExp
	}
	e := floatIs(name, f, f)
	if g, err := strconv.ParseFloat(t, 32); err == nil {
		e = floatIs(name, f, g)
	}
	if !decimalRe.MatchString(t) && e.Mode == "exact" {
		e.Mode = "either"
	}
	return e
}

// floatIs: f at double precision, f or g rounded at single.
func floatIs(name string, f, g float64) Exp {
	if name == "Float64" {
		return exact(plain(f), func(r Res) bool { x, ok := r.V.(float64); return ok && (x == f || x != x && f != f) })
	}
	if a := math.Abs(f); a > math.MaxFloat32 || f != f {
		return anyExp
	}
	e := exact(plain(float32(f)), func(r Res) bool { x, ok := r.V.(float32); return ok && (x == float32(f) || x == float32(g)) })
	e.known = "float32-six-decimals"
	e.knownOK = func(r Res) bool { return sixDecimals(f, r) || sixDecimals(g, r) }
	return e
}

const timeLayout = "2006-01-02 15:04:05.000000"

// saysTime is the instant a text in the form instants are saved in names.
func saysTime(t string) (time.Time, bool) {
	if len(t) != len(timeLayout) {
		return time.Time{}, false
	}
	at, err := time.Parse(timeLayout, t)
	return at, err == nil
}

// rendering says which plain texts v may be rendered as.
func rendering(v *MV) Exp {
	is := func(want string) Exp {
		return exact(strconv.Quote(want), func(r Res) bool { t, ok := r.V.(string); return ok && t == want })
	}
	if v == nil {
		return is("null")
	}
	switch v.K {
	case "nil":
		return is("null")
	case "str":
		return is(v.S)
	case "err":
		e := is(v.L[0])
		e.Mode = "either"
		return e
	case "bool":
		return is(strconv.FormatBool(v.B))
	case "int":
		return is(v.N.String())
	case "time":
		return is(v.T.UTC().Format(timeLayout))
	case "float":
		if v.F != v.F || math.IsInf(v.F, 0) {
			return anyExp
		}
		return exact("the digits of "+plain(v.F), func(r Res) bool {
			t, _ := r.V.(string)
			if !decimalRe.MatchString(t) {
				return false
			}
			f, err := strconv.ParseFloat(t, 64)
			if err == nil && f == v.F {
				return true
			}
			if v.W == "float32" || v.Loaded && loadsSingle(v.F) {
				g, err := strconv.ParseFloat(t, 32)
				return err == nil && float32(g) == float32(v.F)
			}
			return false
		})
	case "any", "bad":
		return anyExp
	}
	return errExp
}

// renderings: the elements of an array read as errors.
func renderings(a *MArr) Exp {
	var subs []Exp
	mode := "exact"
	for _, e := range a.e {
		x := rendering(e)
		switch {
		case x.Mode == "any":
			return anyExp
		case x.Mode == "error":
			return errExp
		case x.Mode == "either" || e == nil || e.K == "nil":
			mode = "either"
		}
		subs = append(subs, x)
	}
	var want []string
	for _, x := range subs {
		want = append(want, x.Want)
	}
	e := exact("errors "+clip(strings.Join(want, " "), 300), func(r Res) bool {
		if len(subs) == 0 {
			return len(r.List) == 0
		}
		if !r.IsList || len(r.List) != len(subs) {
			return false
		}
		for i, x := range subs {
			e, ok := r.List[i].(error)
			if !ok || e == nil || !x.ok(Res{V: e.Error()}) {
				return false
			}
		}
		return true
	})
	e.Mode = mode
	if len(subs) == 0 {
		e.Mode = "any"
	}
	return e
}

func timeish(s string) bool {
	if s == "now" || s == "zero" {
		return true
	}
	d := 0
	for _, r := range s {
		if r >= '0' && r <= '9' {
			d++
		}
	}
	return d >= 8
}

func asBig(v interface{}) *big.Int {
	rv := reflect.ValueOf(v)
	switch rv.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return big.NewInt(rv.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return new(big.Int).SetUint64(rv.Uint())
	}
	return nil
}

func sameFloat(a, b float64) bool {
	return a == b && math.Signbit(a) == math.Signbit(b)
}

// sixDecimals is what reading v at single precision gives when the recorded
// finding applies.
func sixDecimals(f float64, r Res) bool {
	x, err := strconv.ParseFloat(strconv.FormatFloat(f, 'f', 6, 64), 32)
	g, ok := r.V.(float32)
	return err == nil && ok && g == float32(x)
}

// loadsSingle tells whether the decimal's shortest text is also that of its
// single-precision neighbour, so that loading cannot tell them apart.
func loadsSingle(f float64) bool {
	s := float64(float32(f))
	if math.IsInf(s, 0) {
		return false
	}
	return strconv.FormatFloat(s, 'f', -1, 32) == strconv.FormatFloat(f, 'f', -1, 64)
}

func exact(want string, ok func(Res) bool) Exp { return Exp{Mode: "exact", Want: want, ok: ok} }

// expect says what reading v as type name must give; form is "ptr" or "val".
func expect(v *MV, name string, ptr bool) Exp {
	if v == nil || v.K == "nil" {
		if ptr {
			return Exp{Mode: "nothing"}
		}
		return errExp
	}
	if v.K == "bad" && name == "Errors" && strings.HasSuffix(v.W, "strings") {
		return expect(&MV{K: "errs", L: []string{"a", "b"}}, name, ptr)
	}
	if v.K == "bad" || v.K == "any" {
		return anyExp
	}
	switch name {
	case "Int", "Int8", "Int16", "Int32", "Int64", "UInt", "UInt8", "UInt16", "UInt32", "UInt64":
		w := strings.ToLower(name)
		switch v.K {
		case "int":
			if fits(v.N, w) {
				return exact(v.N.String(), func(r Res) bool { b := asBig(r.V); return b != nil && b.Cmp(v.N) == 0 })
			}
			return errExp
		case "str":
			return strAsInt(v.S, w)
		}
		return errExp
	case "Float64", "Float32":
		switch v.K {
		case "float":
			if name == "Float64" {
				e := exact(plain(v.F), func(r Res) bool { g, ok := r.V.(float64); return ok && g == v.F })
				if v.Loaded && loadsSingle(v.F) {
					e.known = "decimal-reloads-single"
					e.knownOK = func(r Res) bool { g, ok := r.V.(float64); return ok && g == float64(float32(v.F)) }
				}
				return e
			}
			if a := math.Abs(v.F); a > math.MaxFloat32 {
				return anyExp
			}
			e := exact(plain(float32(v.F)), func(r Res) bool { g, ok := r.V.(float32); return ok && g == float32(v.F) })
			e.known = "float32-six-decimals"
			e.knownOK = func(r Res) bool {
				return sixDecimals(v.F, r) || v.Loaded && sixDecimals(float64(float32(v.F)), r)
			}
			return e
		case "int":
			f, _ := new(big.Float).SetInt(v.N).Float64()
			g, _ := new(big.Float).SetInt(v.N).Float32()
			return floatIs(name, f, float64(g))
		case "str":
			return strAsFloat(v.S, name)
		}
		return errExp
	case "String":
		if v.K == "str" {
			return exact(strconv.Quote(v.S), func(r Res) bool { s, ok := r.V.(string); return ok && s == v.S })
		}
		return errExp
	case "Runes":
		if v.K == "str" {
			want := []rune(v.S)
			return exact(strconv.Quote(v.S), func(r Res) bool {
				if !r.IsList || len(r.List) != len(want) {
					return false
				}
				for i := range want {
					if g, ok := r.List[i].(rune); !ok || g != want[i] {
						return false
					}
				}
				return true
			})
		}
		return errExp
	case "Bool":
		switch v.K {
		case "bool":
			return exact(fmt.Sprint(v.B), func(r Res) bool { b, ok := r.V.(bool); return ok && b == v.B })
		case "str":
			if v.S == "1" || v.S == "true" || v.S == "0" || v.S == "false" {
				want := v.S == "1" || v.S == "true"
				return exact(fmt.Sprint(want), func(r Res) bool { b, ok := r.V.(bool); return ok && b == want })
			}
		}
		return errExp
	case "Time", "TimePlaces":
		switch v.K {
		case "time":
			return exact(plain(v.T), func(r Res) bool {
				t, ok := r.V.(time.Time)
				if !ok {
					return false
				}
				if name == "Time" {
					return t.Equal(v.T)
				}
				d := t.Sub(v.T)
				// asked for six places
				return d > -time.Microsecond && d < time.Microsecond
			})
		case "str":
			if at, ok := saysTime(v.S); ok && name == "Time" {
				return exact(plain(at), func(r Res) bool { t, ok := r.V.(time.Time); return ok && t.Equal(at) })
			}
			if timeish(v.S) {
				return anyExp
			}
		}
		return errExp
	case "Map":
		if v.K == "map" {
			return exact("a document", func(r Res) bool { return r.V != nil })
		}
		return errExp
	case "Array":
		if v.K == "arr" {
			return exact("an array", func(r Res) bool { return r.V != nil })
		}
		return errExp
	case "Errors":
		switch v.K {
		case "errs":
			if len(v.L) == 0 {
				return exact("no errors stored", func(r Res) bool { return r.IsList && len(r.List) == 0 })
			}
			return exact(fmt.Sprintf("%q", v.L), func(r Res) bool {
				if !r.IsList || len(r.List) != len(v.L) {
					return false
				}
				for i := range v.L {
					if v.L[i] == noError {
						if r.List[i] != nil {
							return false
						}
						continue
					}
					if e, ok := r.List[i].(error); !ok || e == nil || e.Error() != v.L[i] {
						return false
					}
				}
				return true
			})
		case "arr":
			return renderings(v.A)
		case "err":
			return anyExp
		}
		return errExp
	case "Func":
		if v.K == "func" {
			return exact(fmt.Sprintf("function %d", v.Fn), func(r Res) bool {
				f, ok := r.V.(func(string) []error)
				if !ok || f == nil {
					return false
				}
				e := f("")
				return len(e) == 1 && e[0].Error() == fmt.Sprintf("function %d", v.Fn)
			})
		}
		return errExp
	}
	return anyExp
}

// expectList says what reading a whole array as a list of name must give.
func expectList(a *MArr, name string, ptr bool) Exp {
	var subs []Exp
	hasAny, mode := false, "exact"
	for _, e := range a.e {
		x := expect(e, name, ptr)
		if x.Mode == "either" {
			mode = "either"
		}
		if x.Mode == "any" {
			hasAny = true
		}
		if x.Mode == "error" {
			return errExp
		}
		subs = append(subs, x)
	}
	if hasAny {
		return anyExp
	}
	e := Exp{Mode: mode}
	try := func(r Res, known bool) bool {
		if len(subs) == 0 {
			return len(r.List) == 0
		}
		if !r.IsList || len(r.List) != len(subs) {
			return false
		}
		for i, s := range subs {
			el := Res{V: r.List[i], Nothing: r.List[i] == nil}
			bad, k := s.check(el)
			if bad != "" || k != "" && !known {
				return false
			}
		}
		return true
	}
	for _, s := range subs {
		w := s.Want
		if s.Mode == "nothing" {
			w = "nothing"
		}
		e.Want += w + " "
		if s.known != "" {
			e.known = s.known
		}
	}
	e.Want = clip("["+strings.TrimSpace(e.Want)+"]", 300)
	e.ok = func(r Res) bool { return try(r, false) }
	e.knownOK = func(r Res) bool { return try(r, true) }
	return e
}

// question says how a type question about v must be answered ("" leaves it open).
func question(v *MV, name string) string {
	yes := func(b bool) string { return fmt.Sprint(b) }
	if v != nil && (v.K == "bad" || v.K == "any") {
		return ""
	}
	k := "nil"
	if v != nil {
		k = v.K
		if v.Loaded && strictTypes {
			v = v.narrow()
		}
	}
	switch name {
	case "IsNull", "IsNil":
		return yes(k == "nil")
	case "IsString":
		return yes(k == "str")
	case "IsEmptyString":
		return yes(k == "str" && v.S == "")
	case "IsBool":
		return yes(k == "bool")
	case "IsBoolTrue":
		if k == "str" {
			return ""
		}
		return yes(k == "bool" && v.B)
	case "IsBoolFalse":
		if k == "str" {
			return ""
		}
		return yes(k == "bool" && !v.B)
	case "IsMap":
		return yes(k == "map")
	case "IsArray":
		if k == "errs" {
			return ""
		}
		return yes(k == "arr")
	case "IsNumber":
		return yes(k == "int" || k == "float")
	case "IsInteger":
		return yes(k == "int")
	case "IsFloat":
		return yes(k == "float")
	case "IsFloat32", "IsFloat64":
		if k == "float" && v.Loaded {
			return ""
		}
		return yes(k == "float" && "Is"+typeNames[v.W] == name)
	case "IsInt", "IsUInt":
		if k == "int" && v.Loaded {
			return ""
		}
		return yes(k == "int" && strings.HasPrefix(v.W, strings.ToLower(name[2:])))
	case "IsInt8", "IsInt16", "IsInt32", "IsInt64", "IsUInt8", "IsUInt16", "IsUInt32", "IsUInt64":
		if k == "int" && v.Loaded {
			return ""
		}
		return yes(k == "int" && "Is"+typeNames[v.W] == name)
	}
	return ""
}

// strictTypes: the types loading gives to numbers are part of what is checked.
var strictTypes bool

// narrow is a loaded number with the type loading must have given it.
func (v *MV) narrow() *MV {
	c := *v
	c.Loaded = false
	switch v.K {
	case "int":
		ws := []string{"uint8", "uint16", "uint32", "uint64"}
		if v.N.Sign() < 0 {
			ws = []string{"int8", "int16", "int32", "int64"}
		}
		for _, w := range ws {
			if fits(v.N, w) {
				c.W = w
				break
			}
		}
	case "float":
		c.W = "float64"
		if v.W == "float32" || loadsSingle(v.F) {
			c.W = "float32"
		}
	}
	return &c
}

var questions = []string{"IsNull", "IsNil", "IsString", "IsEmptyString", "IsBool", "IsBoolTrue", "IsBoolFalse", "IsMap", "IsArray", "IsNumber", "IsInteger", "IsFloat", "IsFloat32", "IsFloat64",
	"IsInt", "IsUInt", "IsInt8", "IsInt16", "IsInt32", "IsInt64", "IsUInt8", "IsUInt16", "IsUInt32", "IsUInt64"}

var readTypes = []string{"Int", "Int8", "Int16", "Int32", "Int64", "UInt", "UInt8", "UInt16", "UInt32", "UInt64", "Float32", "Float64", "String", "Bool", "Time", "Map", "Array", "Errors", "Func", "Runes"}
var intReads = readTypes[:10]
var listTypes = []string{"Int", "Int8", "Int16", "Int32", "Int64", "UInt", "UInt8", "UInt16", "UInt32", "UInt64", "Float32", "Float64", "String", "Bool"}

// natural is the read type that matches v.
func natural(g *simrt.RNG, v *MV) string {
	switch v.K {
	case "str":
		return "String"
	case "bool":
		return "Bool"
	case "int":
		return intReads[g.Intn(len(intReads))]
	case "float":
		return "Float64"
	case "time":
		return "Time"
	case "map":
		return "Map"
	case "arr":
		return "Array"
	case "errs":
		return "Errors"
	case "func":
		return "Func"
	}
	return readTypes[g.Intn(len(readTypes))]
}
