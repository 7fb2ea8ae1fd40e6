package main

import (
	stdjson "encoding/json"
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"
	"unicode/utf16"
	"unicode/utf8"
)

// --- an independent reader of saved text ---

type node struct {
	k    string // nil bool num str map arr
	b    bool
	s    string // string content or number text
	keys []string
	sub  []*node
}

type textReader struct {
	s     string
	i     int
	depth int
}

func readText(s string) (n *node, err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("%v", e)
		}
	}()
	r := &textReader{s: s}
	n = r.value()
	r.ws()
	if r.i != len(s) {
		panic(fmt.Sprintf("text goes on after the value, at %d", r.i))
	}
	return n, nil
}

func (r *textReader) ws() {
	for r.i < len(r.s) && strings.IndexByte(" \t\r\n", r.s[r.i]) >= 0 {
		r.i++
	}
}

func (r *textReader) peek() byte {
	if r.i >= len(r.s) {
		panic("text ends early")
	}
	return r.s[r.i]
}

func (r *textReader) lit(w string) {
	if !strings.HasPrefix(r.s[r.i:], w) {
		panic(fmt.Sprintf("unexpected text at %d: %q", r.i, clip(r.s[r.i:], 20)))
	}
	r.i += len(w)
}

func (r *textReader) value() *node {
	r.depth++
	defer func() { r.depth-- }()
	r.ws()
	switch c := r.peek(); {
	case c == '{':
		n := &node{k: "map"}
		r.i++
		r.ws()
		if r.peek() == '}' {
			r.i++
			return n
		}
		for {
			r.ws()
			n.keys = append(n.keys, r.str())
			r.ws()
			r.lit(":")
			n.sub = append(n.sub, r.value())
			r.ws()
			if r.peek() == ',' {
				r.i++
				continue
			}
			r.lit("}")
			return n
		}
	case c == '[':
		n := &node{k: "arr"}
		r.i++
		r.ws()
		if r.peek() == ']' {
			r.i++
			return n
		}
		for {
			n.sub = append(n.sub, r.value())
			r.ws()
			if r.peek() == ',' {
				r.i++
				continue
			}
			r.lit("]")
			return n
		}
	case c == '"':
		return &node{k: "str", s: r.str()}
	case c == 't':
		r.lit("true")
		return &node{k: "bool", b: true}
	case c == 'f':
		r.lit("false")
		return &node{k: "bool"}
	case c == 'n':
		r.lit("null")
		return &node{k: "nil"}
	default:
		st := r.i
		for r.i < len(r.s) && strings.IndexByte("+-0123456789.eE", r.s[r.i]) >= 0 {
			r.i++
		}
		if st == r.i {
			panic(fmt.Sprintf("unexpected text at %d: %q", r.i, clip(r.s[r.i:], 20)))
		}
		return &node{k: "num", s: r.s[st:r.i]}
	}
}

func (r *textReader) str() string {
	r.lit("\"")
	var sb strings.Builder
	for {
		c := r.peek()
		r.i++
		switch c {
		case '"':
			return sb.String()
		case '\\':
			e := r.peek()
			r.i++
			switch e {
			case 'b':
				sb.WriteByte('\b')
			case 'f':
				sb.WriteByte('\f')
			case 'n':
				sb.WriteByte('\n')
			case 'r':
				sb.WriteByte('\r')
			case 't':
				sb.WriteByte('\t')
			case '"', '\\', '/':
				sb.WriteByte(e)
			case 'u':
				c1 := r.hex4()
				if utf16.IsSurrogate(c1) && strings.HasPrefix(r.s[r.i:], "\\u") {
					save := r.i
					r.i += 2
					c2 := r.hex4()
					if d := utf16.DecodeRune(c1, c2); d != utf8.RuneError {
						c1 = d
					} else {
						r.i = save
					}
				}
				sb.WriteRune(c1)
			default:
				panic(fmt.Sprintf("unknown escape %q at %d", e, r.i))
			}
		default:
			sb.WriteByte(c)
		}
	}
}

func (r *textReader) hex4() rune {
	if r.i+4 > len(r.s) {
		panic("text ends inside an escape")
	}
	n, err := strconv.ParseUint(r.s[r.i:r.i+4], 16, 32)
	if err != nil {
		panic("bad escape")
	}
	r.i += 4
	return rune(n)
}

// foreign reads the text as another program would: with the standard library's
// strict reader, which must find the content the model has.
func foreign(text string, v *MV) error {
	if !utf8.ValidString(text) {
		return fmt.Errorf("the text is not UTF-8")
	}
	var any interface{}
	if err := stdjson.Unmarshal([]byte(text), &any); err != nil && !strings.Contains(err.Error(), "into Go value of type float64") {
		return fmt.Errorf("the text is not standard JSON: %v", err)
	}
	d := stdjson.NewDecoder(strings.NewReader(text))
	d.UseNumber()
	n, err := foreignValue(d)
	if err != nil {
		return err
	}
	if diff := n.compare(v, ""); diff != "" {
		return fmt.Errorf("%s", diff)
	}
	return nil
}

func foreignValue(d *stdjson.Decoder) (*node, error) {
	t, err := d.Token()
	if err != nil {
		return nil, err
	}
	switch x := t.(type) {
	case nil:
		return &node{k: "nil"}, nil
	case bool:
		return &node{k: "bool", b: x}, nil
	case string:
		return &node{k: "str", s: x}, nil
	case stdjson.Number:
		return &node{k: "num", s: string(x)}, nil
	case stdjson.Delim:
		n := &node{k: "map"}
		if x == '[' {
			n.k = "arr"
		}
		seen := map[string]bool{}
		for d.More() {
			if n.k == "map" {
				k, err := d.Token()
				if err != nil {
					return nil, err
				}
				if seen[k.(string)] {
					return nil, fmt.Errorf("key %q is there twice", k)
				}
				seen[k.(string)] = true
				n.keys = append(n.keys, k.(string))
			}
			e, err := foreignValue(d)
			if err != nil {
				return nil, err
			}
			n.sub = append(n.sub, e)
		}
		_, err := d.Token()
		return n, err
	}
	return nil, fmt.Errorf("unknown token %v", t)
}

// compare reports where the text's content differs from the model.
func (n *node) compare(v *MV, path string) string {
	bad := func(got string) string {
		return fmt.Sprintf("at %s the text holds %s, want %s", path, got, v)
	}
	switch v.K {
	case "bad":
		if strings.HasSuffix(v.W, "strings") {
			return n.compare(listOfStrings(), path)
		}
	case "nil":
		if n.k != "nil" {
			return bad(n.k + " " + n.s)
		}
	case "bool":
		if n.k != "bool" || n.b != v.B {
			return bad(fmt.Sprint(n.k, " ", n.b))
		}
	case "str":
		if n.k != "str" || n.s != v.S {
			return bad(n.k + " " + strconv.Quote(clip(n.s, 120)))
		}
	case "int":
		i, ok := new(big.Int).SetString(n.s, 10)
		if n.k != "num" || !ok || i.Cmp(v.N) != 0 {
			return bad(n.k + " " + n.s)
		}
	case "float":
		f, err := strconv.ParseFloat(n.s, 64)
		if v.W == "float32" {
			f, err = strconv.ParseFloat(n.s, 32)
		}
		if n.k != "num" || err != nil || f != v.F && !(v.Loaded && float32(f) == float32(v.F) && loadsSingle(v.F)) {
			return bad(n.k + " " + n.s)
		}
	case "time":
		if n.k != "str" || n.s != v.T.UTC().Format("2006-01-02 15:04:05.000000") {
			return bad(n.k + " " + n.s)
		}
	case "err":
		if n.k != "str" || n.s != v.L[0] {
			return bad(n.k + " " + n.s)
		}
	case "func":
		if n.k != "str" {
			return bad(n.k + " " + n.s)
		}
	case "errs":
		if n.k != "arr" || len(n.sub) != len(v.L) {
			return bad(n.k)
		}
		for i, e := range v.L {
			if x := n.sub[i]; !(x.k == "str" && x.s == e || e == noError && x.k == "nil") {
				return bad(fmt.Sprintf("error %d %s %q", i, x.k, x.s))
			}
		}
	case "map":
		if n.k != "map" {
			return bad(n.k + " " + n.s)
		}
		if len(n.keys) != len(v.M.keys) {
			return fmt.Sprintf("at %s the text lists keys %s, want %s", path, quoteList(n.keys), quoteList(v.M.keys))
		}
		for i, k := range v.M.keys {
			if n.keys[i] != k {
				return fmt.Sprintf("at %s the text lists keys %s, want %s", path, quoteList(n.keys), quoteList(v.M.keys))
			}
			if d := n.sub[i].compare(v.M.m[k], path+"/"+clip(k, 20)); d != "" {
				return d
			}
		}
	case "arr":
		if n.k != "arr" {
			return bad(n.k + " " + n.s)
		}
		if len(n.sub) != len(v.A.e) {
			return fmt.Sprintf("at %s the text holds %d elements, want %d", path, len(n.sub), len(v.A.e))
		}
		for i, e := range v.A.e {
			if d := n.sub[i].compare(e, fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
	}
	return ""
}

func quoteList(l []string) string {
	var out []string
	for i, s := range l {
		if i > 12 {
			out = append(out, fmt.Sprintf("… %d in all", len(l)))
			break
		}
		out = append(out, strconv.Quote(clip(s, 30)))
	}
	return "[" + strings.Join(out, " ") + "]"
}

// listOfStrings is what the lists of strings among badValue hold.
func listOfStrings() *MV {
	return &MV{K: "arr", A: &MArr{e: []*MV{{K: "str", S: "a"}, {K: "str", S: "b"}}}}
}

// reloaded is the model of a value after saving and loading it.
func (v *MV) reloaded() *MV {
	c := *v
	switch v.K {
	case "int", "float":
		c.Loaded = true
	case "time":
		return &MV{K: "str", S: v.T.UTC().Format("2006-01-02 15:04:05.000000"), T: v.T}
	case "errs":
		a := &MArr{}
		for _, e := range v.L {
			if e == noError {
				a.e = append(a.e, &MV{K: "nil"})
				continue
			}
			a.e = append(a.e, &MV{K: "str", S: e})
		}
		return &MV{K: "arr", A: a}
	case "err":
		return &MV{K: "str", S: v.L[0]}
	case "bad":
		if strings.HasSuffix(v.W, "strings") {
			return listOfStrings()
		}
		return &MV{K: "any"}
	case "func":
		return &MV{K: "any"}
	case "map":
		c.M = newMMap()
		for _, k := range v.M.keys {
			c.M.set(k, v.M.m[k].reloaded())
		}
	case "arr":
		c.A = &MArr{}
		for _, e := range v.A.e {
			c.A.e = append(c.A.e, e.reloaded())
		}
	}
	return &c
}

// --- texts to load ---

// render writes a description as text; style varies spacing and escapes.
func (v *Val) render(g *simRNG, style int) string {
	var sb strings.Builder
	v.renderTo(&sb, g, style)
	return sb.String()
}

func pad(sb *strings.Builder, g *simRNG, style int) {
	if style == 0 {
		return
	}
	if style == 1 {
		if g.Chance(1, 4) {
			sb.WriteByte(' ')
		}
		return
	}
	for g.Chance(1, 3) {
		sb.WriteString([]string{" ", "\n", "\t", "  ", "\r\n"}[g.Intn(5)])
	}
}

func (v *Val) renderTo(sb *strings.Builder, g *simRNG, style int) {
	switch v.K {
	case "nil":
		sb.WriteString("null")
	case "bool":
		sb.WriteString(fmt.Sprint(v.B))
	case "int":
		sb.WriteString(v.N)
	case "float":
		bits := 64
		if v.W == "float32" {
			bits = 32
		}
		s := strconv.FormatFloat(math.Float64frombits(v.F), 'f', -1, bits)
		if !strings.Contains(s, ".") {
			s += ".0"
		}
		if style != 0 && g.Chance(1, 4) {
			s = respell(s, v.F, bits, g)
		}
		sb.WriteString(s)
	case "str":
		quoteText(sb, string(v.S), g, style)
	case "map":
		sb.WriteByte('{')
		for i, k := range v.Ks {
			if i > 0 {
				sb.WriteByte(',')
			}
			pad(sb, g, style)
			quoteText(sb, string(k), g, style)
			pad(sb, g, style)
			sb.WriteByte(':')
			pad(sb, g, style)
			v.Es[i].renderTo(sb, g, style)
			pad(sb, g, style)
		}
		sb.WriteByte('}')
	case "arr":
		sb.WriteByte('[')
		for i, e := range v.Es {
			if i > 0 {
				sb.WriteByte(',')
			}
			pad(sb, g, style)
			e.renderTo(sb, g, style)
			pad(sb, g, style)
		}
		sb.WriteByte(']')
	}
}

// respell spells a decimal in another way.
func respell(s string, f uint64, bits int, g *simRNG) string {
	if g.Chance(1, 3) {
		e := strconv.FormatFloat(math.Float64frombits(f), 'e', -1, bits)
		if strings.Contains(e, "e+") {
			m, x, _ := strings.Cut(e, "e+")
			if !strings.Contains(m, ".") {
				m += ".0"
			}
			return m + []string{"e", "E", "e+", "E+"}[g.Intn(4)] + x
		}
	}
	n := 1 + g.Intn(3)
	if g.Chance(1, 4) {
		n = 1 + g.Intn(60)
	}
	return s + strings.Repeat("0", n)
}

func quoteText(sb *strings.Builder, s string, g *simRNG, style int) {
	sb.WriteByte('"')
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		if r == utf8.RuneError && n <= 1 {
			sb.WriteByte(s[i])
			i++
			continue
		}
		esc := style >= 2 && g.Chance(1, 8)
		switch {
		case r == '"' || r == '\\':
			sb.WriteByte('\\')
			sb.WriteRune(r)
		case r == '\n':
			sb.WriteString("\\n")
		case r == '\r':
			sb.WriteString("\\r")
		case r == '\t':
			sb.WriteString("\\t")
		case r == '\b' && style > 0:
			sb.WriteString("\\b")
		case r == '\f' && style > 0:
			sb.WriteString("\\f")
		case r < 0x20:
			fmt.Fprintf(sb, "\\u%04x", r)
		case r == '/' && esc:
			sb.WriteString("\\/")
		case esc && r < 0x10000:
			fmt.Fprintf(sb, []string{"\\u%04X", "\\u%04x"}[g.Intn(2)], r)
		case esc:
			a, b := utf16.EncodeRune(r)
			fmt.Fprintf(sb, []string{"\\u%04x\\u%04x", "\\u%04X\\u%04X", "\\u%04x\\u%04X"}[g.Intn(3)], a, b)
		default:
			sb.WriteString(s[i : i+n])
		}
		i += n
	}
	sb.WriteByte('"')
}
