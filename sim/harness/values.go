package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/big"
	"net/url"
	"strconv"
	"strings"
	"time"

	hjson "github.com/matehaxor03/holistic_json/json"
)

// Str is a string of arbitrary bytes that survives being written to a replay
// file.
type Str string

func (s Str) MarshalJSON() ([]byte, error) {
	q := strconv.QuoteToASCII(string(s))
	return json.Marshal(q[1 : len(q)-1])
}

func (s *Str) UnmarshalJSON(b []byte) error {
	var q string
	if err := json.Unmarshal(b, &q); err != nil {
		return err
	}
	u, err := strconv.Unquote(`"` + q + `"`)
	*s = Str(u)
	return err
}

// Val describes one value to store.
type Val struct {
	K   string `json:"k"`           // nil str bool int float time err errs func map arr bad
	W   string `json:"w,omitempty"` // Go type: int8..uint64, float32, float64; for bad: the kind
	P   bool   `json:"p,omitempty"` // stored through a pointer
	S   Str    `json:"s,omitempty"`
	N   string `json:"n,omitempty"` // integer
	F   uint64 `json:"f,omitempty"` // float bits
	T   int64  `json:"t,omitempty"` // unix nanoseconds
	Y   int64  `json:"y,omitempty"` // and seconds
	Z   int    `json:"z,omitempty"` // zone offset in minutes
	B   bool   `json:"b,omitempty"`
	L   []Str  `json:"l,omitempty"`  // error messages
	Ks  []Str  `json:"ks,omitempty"` // keys of a map
	Es  []*Val `json:"es,omitempty"` // its values, or the elements of an array
	How int    `json:"how,omitempty"`
	Q   int    `json:"q,omitempty"` // callers store one pointer in several places: which
}

// MV is the model of one stored value.
type MV struct {
	K      string
	W      string
	Loaded bool // width chosen by loading
	S      string
	N      *big.Int
	F      float64
	T      time.Time
	B      bool
	L      []string
	Fn     int
	Q      int
	M      *MMap
	A      *MArr
}

type MMap struct {
	keys []string
	m    map[string]*MV
}

type MArr struct{ e []*MV }

func newMMap() *MMap { return &MMap{m: map[string]*MV{}} }

func (m *MMap) set(k string, v *MV) {
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}

func (m *MMap) remove(k string) bool {
	if _, ok := m.m[k]; !ok {
		return false
	}
	delete(m.m, k)
	for i, x := range m.keys {
		if x == k {
			m.keys = append(append([]string{}, m.keys[:i]...), m.keys[i+1:]...)
			break
		}
	}
	return true
}

func (v *MV) clone() *MV {
	c := *v
	if v.M != nil {
		c.M = v.M.clone()
	}
	if v.A != nil {
		c.A = v.A.clone()
	}
	return &c
}

func (m *MMap) clone() *MMap {
	c := newMMap()
	for _, k := range m.keys {
		c.set(k, m.m[k].clone())
	}
	return c
}

func (a *MArr) clone() *MArr {
	c := &MArr{}
	for _, e := range a.e {
		c.e = append(c.e, e.clone())
	}
	return c
}

func (v *MV) reaches(m *MMap, a *MArr) bool {
	if v.M != nil {
		return v.M == m && m != nil || v.M.reaches(m, a)
	}
	if v.A != nil {
		return v.A == a && a != nil || v.A.reaches(m, a)
	}
	return false
}
func (x *MMap) reaches(m *MMap, a *MArr) bool {
	for _, v := range x.m {
		if v.reaches(m, a) {
			return true
		}
	}
	return false
}
func (x *MArr) reaches(m *MMap, a *MArr) bool {
	for _, v := range x.e {
		if v.reaches(m, a) {
			return true
		}
	}
	return false
}

func (v *MV) size() int {
	n := 1
	if v.M != nil {
		n += v.M.size()
	}
	if v.A != nil {
		n += v.A.size()
	}
	return n
}
func (m *MMap) size() int {
	n := 0
	for _, v := range m.m {
		n += v.size()
	}
	return n
}
func (a *MArr) size() int {
	n := 0
	for _, v := range a.e {
		n += v.size()
	}
	return n
}

func (v *MV) String() string { return v.describe(3) }

func (v *MV) describe(depth int) string {
	switch v.K {
	case "nil":
		return "null"
	case "str":
		if len(v.S) > 80 {
			return fmt.Sprintf("string %q… (%d bytes)", v.S[:80], len(v.S))
		}
		return fmt.Sprintf("string %q", v.S)
	case "bool":
		return fmt.Sprint(v.B)
	case "int":
		return fmt.Sprintf("%s %s", v.W, v.N)
	case "float":
		return fmt.Sprintf("%s %v", v.W, v.F)
	case "time":
		return v.T.UTC().Format(time.RFC3339Nano)
	case "err", "errs":
		return fmt.Sprintf("%s %q", v.K, v.L)
	case "map":
		if depth == 0 {
			return "{…}"
		}
		var sb strings.Builder
		sb.WriteString("{")
		for i, k := range v.M.keys {
			if i > 8 {
				sb.WriteString(" …")
				break
			}
			fmt.Fprintf(&sb, "%q:%s ", k, v.M.m[k].describe(depth-1))
		}
		return sb.String() + "}"
	case "arr":
		if depth == 0 {
			return "[…]"
		}
		var sb strings.Builder
		sb.WriteString("[")
		for i, e := range v.A.e {
			if i > 8 {
				sb.WriteString(" …")
				break
			}
			sb.WriteString(e.describe(depth-1) + " ")
		}
		return sb.String() + "]"
	}
	return v.K + " " + v.W
}

func (v *MV) num() *big.Int { return v.N }

// model turns a description into the model value.
func (v *Val) model() *MV {
	m := &MV{K: v.K, W: v.W, S: string(v.S), B: v.B, Q: v.Q}
	switch v.K {
	case "nil":
		m.W = ""
	case "int":
		m.N, _ = new(big.Int).SetString(v.N, 10)
	case "float":
		m.F = math.Float64frombits(v.F)
	case "time":
		m.T = v.time()
	case "err":
		m.L = []string{v.goValue().(error).Error()}
	case "errs":
		for _, x := range v.L {
			m.L = append(m.L, string(x))
		}
	case "func":
		m.Fn, _ = strconv.Atoi(v.N)
	case "map":
		m.M = newMMap()
		for i, k := range v.Ks {
			m.M.set(string(k), v.Es[i].model())
		}
	case "arr":
		m.A = &MArr{}
		for _, e := range v.Es {
			m.A.e = append(m.A.e, e.model())
		}
	}
	return m
}

func (v *Val) time() time.Time {
	t := time.Unix(v.Y, v.T)
	if v.Z == 0 {
		return t.UTC()
	}
	return t.In(time.FixedZone("zone", v.Z*60))
}

// noError stands for a nil error in a list of errors.
const noError = "\x00no error\x00"

// funcs are the functions documents can hold; each answers with its number.
var funcs [16]func(string) []error

func init() {
	for i := range funcs {
		funcs[i] = func(string) []error { return []error{fmt.Errorf("function %d", i)} }
	}
}

func ptrTo[T any](v T) *T { return &v }

// goValue builds the Go object for a scalar, as the plain value.
func (v *Val) goValue() interface{} {
	switch v.K {
	case "nil":
		return nil
	case "str":
		return string(v.S)
	case "bool":
		return v.B
	case "int":
		n, _ := new(big.Int).SetString(v.N, 10)
		switch v.W {
		case "int":
			return int(n.Int64())
		case "int8":
			return int8(n.Int64())
		case "int16":
			return int16(n.Int64())
		case "int32":
			return int32(n.Int64())
		case "int64":
			return n.Int64()
		case "uint":
			return uint(n.Uint64())
		case "uint8":
			return uint8(n.Uint64())
		case "uint16":
			return uint16(n.Uint64())
		case "uint32":
			return uint32(n.Uint64())
		case "uint64":
			return n.Uint64()
		}
	case "float":
		if v.W == "float32" {
			return float32(math.Float64frombits(v.F))
		}
		return math.Float64frombits(v.F)
	case "time":
		return v.time()
	case "err":
		switch v.W {
		case "url":
			return &url.Error{Op: "get", URL: "http://host/" + v.N, Err: errors.New(string(v.L[0]))}
		case "errorf":
			return fmt.Errorf("%s", string(v.L[0]))
		}
		return errors.New(string(v.L[0]))
	case "errs":
		out := []error{}
		for _, e := range v.L {
			if e == noError {
				out = append(out, nil)
				continue
			}
			out = append(out, errors.New(string(e)))
		}
		return out
	case "func":
		n, _ := strconv.Atoi(v.N)
		return funcs[n]
	case "bad":
		return badValue(v.W)
	}
	panic("goValue: " + v.K + " " + v.W)
}

// badValue makes a value that has no text form or cannot be copied.
func badValue(kind string) interface{} {
	switch kind {
	case "nan":
		return math.NaN()
	case "inf":
		return math.Inf(1)
	case "-inf":
		return math.Inf(-1)
	case "nan32":
		return float32(math.NaN())
	case "inf32":
		return float32(math.Inf(1))
	case "*nan":
		return ptrTo(math.NaN())
	case "*inf32":
		return ptrTo(float32(math.Inf(-1)))
	case "chan":
		return make(chan int)
	case "struct":
		return struct{ A, B int }{1, 2}
	case "*struct":
		return &struct{ A, B int }{1, 2}
	case "complex":
		return complex(1, 2)
	case "ints":
		return []int{1, 2}
	case "mapint":
		return map[int]string{1: "x"}
	case "native":
		return map[string]interface{}{"a": 1}
	case "bytes":
		return []byte("text")
	case "func":
		return func() {}
	case "strings":
		return []string{"a", "b"}
	case "*strings":
		return &[]string{"a", "b"}
	case "value":
		return hjson.NewValueValue("inner")
	case "*value":
		return hjson.NewValue(5)
	case "urlerr":
		return &url.Error{Op: "get", URL: "x", Err: errors.New("broken")}
	case "cfunc":
		return func(string, *string, string, string) []error { return nil }
	}
	panic("bad " + kind)
}

// what each odd value supports
var badKinds = []string{"nan", "inf", "-inf", "nan32", "inf32", "*nan", "*inf32", "chan", "struct", "*struct", "complex", "ints", "mapint", "native", "bytes", "func", "strings", "*strings", "value", "*value"}

func badSaves(kind string) bool {
	return kind == "strings" || kind == "*strings" || kind == "cfunc" || kind == "urlerr"
}
func badClones(kind string) bool {
	switch kind {
	case "nan", "inf", "-inf", "nan32", "inf32", "*nan", "*inf32", "urlerr":
		return true
	}
	return false
}

// object builds the Go object for any description, with containers built by
// the library's own construction calls.
func (v *Val) object(p bool) interface{} {
	switch v.K {
	case "map":
		m := v.buildMap()
		if p {
			return m
		}
		return *m
	case "arr":
		a := v.buildArray()
		if p {
			return a
		}
		return *a
	}
	if !p || v.Q == 0 {
		o := boxed(v.goValue(), p)
		if p && o != nil || v.K == "errs" {
			hand(o)
		}
		return o
	}
	k := fmt.Sprintf("%d %s %s %q %s %d %d %d %d %t %q", v.Q, v.K, v.W, string(v.S), v.N, v.F, v.T, v.Y, v.Z, v.B, v.L)
	o, ok := pointers[k]
	if !ok {
		o = boxed(v.goValue(), true)
		if o != nil {
			hand(o)
		}
		pointers[k] = o
	}
	return o
}

// pointers are the ones callers of this process store in several places.
var pointers = map[string]interface{}{}

// boxed returns x, or a pointer to a copy of x.
func boxed(x interface{}, p bool) interface{} {
	if !p {
		return x
	}
	switch y := x.(type) {
	case nil:
		return nil
	case string:
		return &y
	case bool:
		return &y
	case int:
		return &y
	case int8:
		return &y
	case int16:
		return &y
	case int32:
		return &y
	case int64:
		return &y
	case uint:
		return &y
	case uint8:
		return &y
	case uint16:
		return &y
	case uint32:
		return &y
	case uint64:
		return &y
	case float32:
		return &y
	case float64:
		return &y
	case time.Time:
		return &y
	case []error:
		return &y
	case func(string) []error:
		return &y
	case error:
		return &y
	}
	return x
}

// buildMap and buildArray build containers the way callers do.
func (v *Val) buildMap() *hjson.Map {
	if v.How == 1 {
		native := map[string]interface{}{}
		ok := true
		for i, k := range v.Ks {
			if _, dup := native[string(k)]; dup {
				ok = false
			}
			native[string(k)] = v.Es[i].object(v.Es[i].P)
		}
		if ok && len(v.Ks) <= 1 {
			// more than one entry would leave the order to the hash order
			hand(&native)
			return hjson.NewMapOfValues(&native)
		}
	}
	var m *hjson.Map
	if v.How == 2 {
		mv := hjson.NewMapValue()
		m = &mv
	} else {
		m = hjson.NewMap()
	}
	for i, k := range v.Ks {
		mapSet(m, string(k), v.Es[i], v.Es[i].How)
	}
	return m
}

func (v *Val) buildArray() *hjson.Array {
	if v.How == 1 {
		native := []interface{}{}
		for _, e := range v.Es {
			native = append(native, e.object(e.P))
		}
		hand(&native)
		return hjson.NewArrayOfValues(&native)
	}
	var a *hjson.Array
	if v.How == 2 {
		av := hjson.NewArrayValue()
		a = &av
	} else {
		a = hjson.NewArray()
	}
	for _, e := range v.Es {
		arrAppend(a, e, e.How)
	}
	return a
}

// --- generation ---

type Gen struct {
	*simRNG
	c *Config
}

// Config is the shape of one run's inputs, drawn per run so that different
// runs stress different things.
type Config struct {
	MaxDepth  int
	MaxWidth  int
	Keys      []string // keys that come up again and again
	Strs      []string // favourite strings
	LongStr   int      // length of the longest strings
	Kinds     []string // value kinds
	PlainText bool     // only printable ASCII
	NoFloat   bool
	Exotic    bool // times, errors, functions
	Share     int  // eighths of the pointers that are stored again
	NumText   int  // eighths of the strings that spell, or nearly spell, something else

	Fills  bool   // places are filled and emptied entry by entry
	Giant  string // the first container of the run is wide, deep or long beyond the usual
	GiantN int
}

var nastyStrings = []string{
	"", " ", "  ", "nil", "<nil>", "null", "NULL", "Null", "map[]", "&map[value:<nil>]", "true", "false", "now", "zero", "0", "1", "-1", "12", "1.5", "007", "1e5",
	"{", "}", "[", "]", "{}", "[]", "\"", "\\", "\\\\", "\\\"", "\"\"", "\\n", "\\u0041", "\\u", "/", "\\/", ":", ",", "\":\"", "\",\"", "\"}", "\"]", "}}", "]]", "{\"a\":1}", "[1,2]", "a\"b", "a\\b", "ends with \\", "\\ begins", "quote \" inside", "},{", "],[", "a:b", "a,b",
	"\n", "\r", "\t", "\r\n", "\b", "\f", "\x00", "\x01", "\x1f", "\x7f", "a\nb", "tab\there", "line\nline\n", " lead", "trail ", "in  side", "\u00a0", "\ufeff", "\u2028", "\u2029",
	"é", "ñandú", "日本語", "😀", "👨‍👩‍👧", "e\u0301", "Ω≈ç√", "\u0000", "\ufffd", "\ud7ff", "\U0010ffff", "%s", "%d%%", "100%", "%!s(nil)", "%!s(*json.Value=<nil>)", "%!s(string=<nil>)",
	"2024-01-02 03:04:05.123456", "2024-01-02 03:04:05", "0000-00-00 00:00:00", "'", "''", "`", "<a href=\"x\">", "&amp;", "a=b&c=d", "C:\\dir\\file", "\\\\server", "x\\", "u0022", "\\u0022", "null,", "nil ",
}

var plainWords = []string{"alpha", "beta", "gamma", "delta", "name", "value", "id", "key", "text", "item", "total", "a", "b", "c", "d", "e", "k1", "k2", "k3", "longer name with spaces", "x-y_z.9", "UPPER", "Value", "ID", "keys", "length"}

func (g *Gen) pickStr(l []string) string { return l[g.Intn(len(l))] }

// logLen is small most of the time and occasionally up to max.
func (g *Gen) logLen(max int) int {
	if max < 1 {
		return 0
	}
	b := 1
	for b < max && g.Chance(2, 3) {
		b *= 2
	}
	if b > max {
		b = max
	}
	return g.Intn(b + 1)
}

const badBytes = "\"\\{}[]:,nut/ \n\t0"

func (g *Gen) str() string {
	c := g.c
	if c.NumText > 0 && g.Chance(c.NumText, 8) {
		if len(c.Strs) > 0 && g.Chance(1, 5) {
			return g.pickStr(c.Strs)
		}
		return g.numText()
	}
	if c.PlainText {
		if g.Chance(1, 2) {
			return g.pickStr(plainWords)
		}
		n := g.logLen(24)
		b := make([]byte, n)
		for i := range b {
			b[i] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 -_."[g.Intn(66)]
		}
		if g.Chance(1, 12) {
			// some sentences
			return "s" + strings.Repeat(g.pickStr(plainWords)+" ", 4+g.Intn(40)) + string(b)
		}
		return "s" + string(b)
	}
	switch g.Intn(10) {
	case 0, 1, 2:
		return g.pickStr(nastyStrings)
	case 3, 4:
		return g.pickStr(plainWords)
	case 5:
		if len(c.Strs) > 0 {
			return g.pickStr(c.Strs)
		}
		return g.pickStr(nastyStrings)
	case 6:
		return g.pickStr(nastyStrings) + g.pickStr(nastyStrings) + g.pickStr(nastyStrings)
	case 7:
		n := g.logLen(c.LongStr)
		if g.Chance(1, 3) {
			n = 32 + g.Intn(256)
		}
		unit := g.pickStr(nastyStrings)
		if unit == "" || g.Chance(1, 2) {
			unit = g.pickStr(plainWords)
		}
		s := strings.Repeat(unit, n/len(unit)+1)
		return strings.ToValidUTF8(s[:n], "")
	case 8:
		// bytes that need not be valid UTF-8
		n := g.logLen(16)
		b := make([]byte, n)
		for i := range b {
			if g.Chance(1, 2) {
				b[i] = badBytes[g.Intn(len(badBytes))]
			} else {
				b[i] = byte(g.Intn(256))
			}
		}
		return strings.ToValidUTF8(string(b), "?")
	default:
		n := g.logLen(12)
		var sb strings.Builder
		for i := 0; i < n; i++ {
			switch g.Intn(5) {
			case 0:
				sb.WriteByte(byte(32 + g.Intn(95)))
			case 1:
				sb.WriteRune(rune(0xa0 + g.Intn(0x500)))
			case 4:
				sb.WriteRune(g.rune())
			case 2:
				sb.WriteRune(rune(0x1f300 + g.Intn(0x200)))
			default:
				sb.WriteByte("abcxyz019"[g.Intn(9)])
			}
		}
		return sb.String()
	}
}

// rune is any character, those at the edges of an encoding more often.
func (g *Gen) rune() rune {
	switch g.Intn(5) {
	case 0:
		return rune(g.Intn(0x20))
	case 1:
		return []rune{0, 0x1f, 0x20, 0x7e, 0x7f, 0x80, 0x85, 0x9f, 0xa0, 0xad, 0xff, 0x100, 0x7ff, 0x800, 0xfff, 0x1000, 0x1680, 0x180e, 0x2000, 0x200b, 0x200e, 0x2028, 0x2029, 0x202f, 0x205f, 0x3000, 0xd7ff, 0xe000, 0xfdd0, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x103ff, 0x10400, 0x1ffff, 0xfffff, 0x100000, 0x10fc00, 0x10fffe, 0x10ffff}[g.Intn(42)]
	case 2:
		return rune(0x10000 + g.Intn(0x100000))
	}
	r := rune(g.Intn(0xf800))
	if r >= 0xd800 {
		r += 0x800
	}
	return r
}

// numText is text that spells a number, boolean or instant, or nearly does.
func (g *Gen) numText() string {
	var t string
	switch g.Intn(8) {
	case 0, 1:
		t = g.integer(intWidths[g.Intn(len(intWidths))]).String()
	case 2:
		w := intWidths[g.Intn(len(intWidths))]
		t = []*big.Int{intLo[w], intHi[w]}[g.Intn(2)].String()
		if g.Chance(1, 2) {
			n, _ := new(big.Int).SetString(t, 10)
			t = n.Add(n, big.NewInt(int64(g.Intn(5)-2))).String()
		}
	case 3:
		t = strconv.FormatFloat(g.float("float64"), "fge"[g.Intn(3)], -1, 64)
	case 4:
		t = strconv.FormatFloat(g.float("float32"), "fg"[g.Intn(2)], []int{-1, 1, 3, 6, 7}[g.Intn(5)], 32)
	case 5:
		return g.pickStr([]string{"1", "0", "true", "false", "1", "0", "true", "false", "TRUE", "True", "t", "f", "yes", "no", "on", "01", "10", "00", "-1", "-0", "+1", "2", " true", "true ", "1 ", "0.0", "1.0", ""})
	case 6:
		return time.Unix(0, g.instant()).UTC().Format(timeLayout)
	default:
		return g.pickStr([]string{"inf", "-Inf", "NaN", "infinity", "0x10", "0x1p4", "1_000", "1e5", "1e400", "-1e-400", "1.", ".5", "-.5", ".", "-", "+", "--1", "1-", "1.5.2", "1,5", "12abc", "abc12", " 12", "12 ", "\t7", "7\n", "007", "-007", "+7", "٣", "1e", "e1", "0b11", "0o7", "NULL", "null", "nil", "<nil>", "99999999999999999999", "-99999999999999999999", "3.4028236e38", "1.7976931348623159e308", "2024-02-30 00:00:00.000000", "2024-01-01", "12:30:00"})
	}
	switch g.Intn(12) {
	case 0:
		t = "+" + t
	case 1:
		t = "0" + t
	case 2:
		t += []string{" ", "0", ".", "x", ".0", "e0"}[g.Intn(6)]
	}
	return t
}

func (g *Gen) key() string {
	if len(g.c.Keys) > 0 && g.Chance(4, 5) {
		return g.pickStr(g.c.Keys)
	}
	if g.Chance(1, 2) {
		return fmt.Sprintf("k%d", g.Intn(40))
	}
	return g.str()
}

var intWidths = []string{"int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64"}
var intLo = map[string]*big.Int{}
var intHi = map[string]*big.Int{}

func init() {
	for _, w := range intWidths {
		bits := 64
		if n, err := strconv.Atoi(strings.TrimLeft(w, "uint")); err == nil {
			bits = n
		}
		one := big.NewInt(1)
		if w[0] == 'u' {
			intLo[w] = big.NewInt(0)
			intHi[w] = new(big.Int).Sub(new(big.Int).Lsh(one, uint(bits)), one)
		} else {
			intLo[w] = new(big.Int).Neg(new(big.Int).Lsh(one, uint(bits-1)))
			intHi[w] = new(big.Int).Sub(new(big.Int).Lsh(one, uint(bits-1)), one)
		}
	}
}

func fits(n *big.Int, w string) bool {
	return n.Cmp(intLo[w]) >= 0 && n.Cmp(intHi[w]) <= 0
}

// integer draws an integer of the width, favouring the edges of all widths.
func (g *Gen) integer(w string) *big.Int {
	for {
		var n *big.Int
		switch g.Intn(6) {
		case 0:
			n = big.NewInt(int64(g.Intn(21)) - 10)
		case 1, 2, 3:
			o := intWidths[g.Intn(len(intWidths))]
			n = new(big.Int).Set(intLo[o])
			if g.Chance(1, 2) {
				n.Set(intHi[o])
			}
			n.Add(n, big.NewInt(int64(g.Intn(5))-2))
		case 4:
			n = new(big.Int).SetUint64(g.Next() >> uint(g.Intn(64)))
			if g.Chance(1, 2) {
				n.Neg(n)
			}
		default:
			// powers of two and ten around their edges
			n = new(big.Int).Lsh(big.NewInt(1), uint(g.Intn(64)))
			if g.Chance(1, 2) {
				n = new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(g.Intn(20))), nil)
			}
			n.Add(n, big.NewInt(int64(g.Intn(3))-1))
			if g.Chance(1, 2) {
				n.Neg(n)
			}
		}
		if fits(n, w) {
			return n
		}
	}
}

func (g *Gen) float(w string) float64 {
	var f float64
	switch g.Intn(8) {
	case 0:
		f = float64(g.Intn(2001)-1000) / 8
	case 1:
		f = []float64{0, math.Copysign(0, -1), 1, -1, 0.1, -0.1, 0.5, 1.5, 3.14159, 2.718281828459045, 1e6, 1e-6, 123456.789, 0.30000000000000004}[g.Intn(14)]
	case 2:
		f = []float64{math.MaxFloat32, math.SmallestNonzeroFloat32, math.MaxFloat64, math.SmallestNonzeroFloat64, 1e21, 1e-7, 1e100, 16777216, 16777217, 9007199254740993, -math.MaxFloat32, -math.MaxFloat64, 1e15, 123456789.125}[g.Intn(14)]
	case 3, 4:
		f = float64(int64(g.Next()>>uint(11+g.Intn(50)))) / math.Pow(10, float64(g.Intn(12)))
		if g.Chance(1, 2) {
			f = -f
		}
	case 5:
		f = math.Float64frombits(g.Next())
	case 6:
		f = float64(math.Float32frombits(uint32(g.Next())))
	default:
		f = float64(g.Intn(100000)) / 100
	}
	if math.IsNaN(f) || math.IsInf(f, 0) {
		f = 1.25
	}
	if w == "float32" {
		f = float64(float32(f))
		if math.IsInf(f, 0) {
			f = math.MaxFloat32
		}
	}
	return f
}

func (g *Gen) instant() int64 {
	base := time.Date(2024, 2, 29, 12, 0, 0, 0, time.UTC).UnixNano()
	switch g.Intn(6) {
	case 5:
		// far away, before the epoch, or next to where something turns over
		switch g.Intn(3) {
		case 0:
			return int64(g.Next()) / int64(1+g.Intn(20)) // 1677 to 2262
		case 1:
			return time.Date([]int{1677, 1700, 1899, 1900, 1901, 1969, 1970, 1999, 2000, 2001, 2023, 2024, 2037, 2038, 2099, 2100, 2106, 2261}[g.Intn(18)]+1, time.Month(1+g.Intn(13)), g.Intn(3), 0, 0, 0, g.Intn(3)-1, time.UTC).UnixNano()
		}
		return []int64{0, -1, 1, -999, -1000, -1001, -1e6, -1e9, 1<<31*1e9 - 1000, 1 << 31 * 1e9, -1 << 31 * 1e9, 1<<32*1e9 - 1, 1 << 32 * 1e9, 1 << 53, -1 << 53}[g.Intn(15)]
	case 0:
		return base + int64(g.Next()%uint64(86400*365))*1e9
	case 1:
		return base - int64(g.Next()%uint64(86400*365*40))*1e9 + int64(g.Intn(1e9))
	case 2:
		return base + int64(g.Intn(1000))*1000 // whole microseconds
	case 3:
		return base + int64(g.Intn(2e9)) - 1e9
	default:
		d := []int64{0, 1e9, 999999999, 1, 999, 1000, 1e6, 59e9, 86399e9}
		return base + d[g.Intn(len(d))]
	}
}

func (g *Gen) scalarKind() string {
	if len(g.c.Kinds) > 0 {
		return g.c.Kinds[g.Intn(len(g.c.Kinds))]
	}
	ks := []string{"nil", "str", "str", "str", "bool", "int", "int", "int"}
	if !g.c.NoFloat {
		ks = append(ks, "float")
	}
	if g.c.Exotic {
		ks = append(ks, "time", "errs", "func")
	}
	return ks[g.Intn(len(ks))]
}

func (g *Gen) scalar(kind string) *Val {
	v := &Val{K: kind, P: g.Chance(1, 2), How: g.Intn(4)}
	switch kind {
	case "nil":
		if g.Chance(1, 2) {
			v.W = nilForms[g.Intn(len(nilForms))]
		}
	case "str":
		v.S = Str(g.str())
	case "bool":
		v.B = g.Chance(1, 2)
	case "int":
		v.W = intWidths[g.Intn(len(intWidths))]
		v.N = g.integer(v.W).String()
	case "float":
		v.W = "float64"
		if g.Chance(1, 2) {
			v.W = "float32"
		}
		v.F = math.Float64bits(g.float(v.W))
	case "time":
		if v.T = g.instant(); g.Chance(1, 16) {
			// any year that has four digits
			from, to := time.Date(0, 1, 1, 0, 0, 0, 0, time.UTC).Unix(), time.Date(10000, 1, 1, 0, 0, 0, 0, time.UTC).Unix()
			v.T = int64(g.Intn(1e9))
			v.Y = from + int64(g.Next()%uint64(to-from))
			switch g.Intn(6) {
			case 0:
				v.T, v.Y = 0, []int64{from, time.Time{}.Unix(), to - 1}[g.Intn(3)]
			case 1:
				v.Y = time.Date(g.Intn(10000), 1, 1, 0, 0, 0, 0, time.UTC).Unix() - int64(g.Intn(2))
				if v.Y < from {
					v.Y = from
				}
			}
		}
		if g.Chance(1, 3) {
			v.Z = []int{60, -300, 330, 765, -720, 840, -1, 1 + g.Intn(1439), -1 - g.Intn(1439)}[g.Intn(9)]
		}
	case "err":
		v.L = []Str{Str(g.str())}
		v.W = []string{"", "", "", "errorf", "url"}[g.Intn(5)]
	case "errs":
		for i, n := 0, g.logLen(4); i < n; i++ {
			if g.Chance(1, 16) {
				v.L = append(v.L, noError)
				continue
			}
			v.L = append(v.L, Str(g.str()))
		}
	case "func":
		v.N = strconv.Itoa(g.Intn(len(funcs)))
	case "bad":
		v.W = badKinds[g.Intn(len(badKinds))]
	}
	return v
}

// nilForms are the calls that store nothing when given a nil pointer.
var nilForms = []string{"Value", "Value", "Value", "String", "Int", "UInt8", "Int64", "UInt", "Bool", "Float64", "Float32", "Time", "Map", "Array", "Int8", "Int16", "Int32", "UInt16", "UInt32", "UInt64", "Func"}

// value draws any value; depth is how many container levels may still open.
func (g *Gen) value(depth int) *Val {
	if depth > 0 && g.Chance(1, 3) {
		return g.container(g.Chance(1, 2), depth-1)
	}
	return g.scalar(g.scalarKind())
}

func (g *Gen) container(isMap bool, depth int) *Val {
	if kind := g.c.Giant; kind != "" && kind != "history" && g.c.GiantN > 0 {
		n := g.c.GiantN
		g.c.GiantN = 0
		return g.giant(kind, n, isMap)
	}
	v := &Val{K: "arr", P: g.Chance(2, 3), How: g.Intn(4)}
	n := g.logLen(g.c.MaxWidth)
	if isMap {
		v.K = "map"
		seen := map[string]bool{}
		for i := 0; i < n; i++ {
			k := g.key()
			if seen[k] {
				continue
			}
			seen[k] = true
			v.Ks = append(v.Ks, Str(k))
			v.Es = append(v.Es, g.value(depth))
		}
		return v
	}
	uniform := ""
	if g.Chance(1, 2) {
		uniform = g.scalarKind()
	}
	for i := 0; i < n; i++ {
		if uniform != "" {
			v.Es = append(v.Es, g.scalar(uniform))
		} else {
			v.Es = append(v.Es, g.value(depth))
		}
	}
	return v
}

// giant draws a container of n entries, n levels or with a string or key of n bytes.
func (g *Gen) giant(kind string, n int, isMap bool) *Val {
	v := &Val{K: "arr", P: g.Chance(2, 3), How: g.Intn(4)}
	if isMap {
		v.K = "map"
	}
	put := func(k string, e *Val) {
		if v.K == "map" {
			for _, x := range v.Ks {
				if string(x) == k {
					return
				}
			}
			v.Ks = append(v.Ks, Str(k))
		}
		v.Es = append(v.Es, e)
	}
	switch kind {
	case "wide":
		base := []string{"k", "key ", "n.", "é"}[g.Intn(4)]
		cheap := g.Chance(1, 2)
		for i := 0; i < n; i++ {
			var e *Val
			if cheap {
				e = &Val{K: "int", W: "int", N: strconv.Itoa(i), How: g.Intn(4)}
			} else if e = g.scalar(g.scalarKind()); e.K == "str" && len(e.S) > 40 {
				e.S = Str(fmt.Sprint("text ", i))
			}
			if g.Chance(1, 150) {
				e = g.container(g.Chance(1, 2), 0)
			}
			if v.K == "map" {
				v.Ks = append(v.Ks, Str(fmt.Sprint(base, i)))
			}
			v.Es = append(v.Es, e)
		}
	case "deep":
		uniform := g.Intn(3)
		mk := func() bool { return uniform == 1 || uniform == 0 && g.Chance(1, 2) }
		c := &Val{K: "arr", P: g.Chance(2, 3), How: g.Intn(4), Es: []*Val{g.scalar(g.scalarKind())}}
		for i := 0; i < n; i++ {
			o := &Val{K: "arr", P: g.Chance(2, 3), How: g.Intn(4)}
			if mk() {
				o.K = "map"
				o.Ks = []Str{Str([]string{"a", "b", "in", g.key()}[g.Intn(4)])}
			}
			o.Es = []*Val{c}
			for j := g.logLen(2) - 1; j > 0 && g.Chance(1, 4); j-- {
				if o.K == "map" {
					k := Str(fmt.Sprint("s", j))
					o.Ks = append(o.Ks, k)
				}
				o.Es = append(o.Es, g.scalar(g.scalarKind()))
			}
			c = o
		}
		put("deep", c)
	case "long":
		units := []string{"\"", "\\", "\"", "\\", "\"", "\\", "\n", "\x1f", "\t", "é", "日", "😀", "\x01", "/", "}", "]", ",", ":", " ", "\u2028"}
		dense := []int{64, 8, 2, 1}[g.Intn(4)]
		var sb strings.Builder
		for sb.Len() < n {
			switch {
			case g.Chance(1, dense) && !g.c.PlainText:
				sb.WriteString(g.pickStr(units))
			case g.Chance(1, dense):
				sb.WriteString(g.pickStr(units[:2]))
			default:
				sb.WriteByte(byte('a' + sb.Len()%26))
			}
		}
		e := &Val{K: "str", S: Str(sb.String()), P: g.Chance(1, 2), How: g.Intn(4)}
		if isMap && g.Chance(1, 4) {
			put(sb.String(), g.scalar(g.scalarKind()))
		} else {
			put("long", e)
		}
		put("after", g.scalar(g.scalarKind()))
	}
	if kind != "wide" && g.Chance(1, 2) {
		put("last", g.container(g.Chance(1, 2), 0))
	}
	return v
}

// newConfig draws a run shape.
func newConfig(g *Gen) *Config {
	c := &Config{MaxDepth: 1 + g.Intn(4), MaxWidth: 3 + g.Intn(6), LongStr: 40}
	if g.Chance(1, 12) {
		c.MaxDepth = 5 + g.Intn(12)
		c.MaxWidth = 2
	}
	if g.Chance(1, 10) {
		c.MaxWidth = 20 + g.Intn(60)
		c.MaxDepth = 1 + g.Intn(2)
	}
	if g.Chance(1, 10) {
		c.LongStr = 300 + g.Intn(6000)
	}
	c.Fills = g.Chance(1, 3)
	c.PlainText = g.Chance(1, 4)
	nk := 2 + g.Intn(8)
	g.c = c
	for i := 0; i < nk; i++ {
		if g.Chance(2, 3) {
			c.Keys = append(c.Keys, g.pickStr(plainWords))
		} else {
			c.Keys = append(c.Keys, g.str())
		}
	}
	for i := 0; i < 3; i++ {
		c.Strs = append(c.Strs, g.str())
	}
	c.Share = []int{0, 1, 2, 6}[g.Intn(4)]
	return c
}
