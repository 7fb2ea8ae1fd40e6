//go:build !never

// Package doc.
package tort

/* comment */ import "fmt"; import "strings"

//go:noinline
func tagged() string { x := 1; if x := 2; x > 1 { return fmt.Sprint(x) }; return strings.Repeat("x", x) }

type rec struct{ a int; Rec *rec; fn func() *rec }
func (r *rec) self() *rec { return r }
func (r rec) cp() rec { r.a++; return r }

func Fields() []int {
	r := &rec{a: 1}
	r.Rec = &rec{a: 2}
	r.fn = func() *rec { return r }
	r.fn().Rec.self().a = 5
	r.self().a += 2
	_ = r.cp().a
	q := r.cp()
	q.a++
	var m map[string]rec
	z := m["x"].a
	arrs := [2][2]rec{}
	arrs[1][0].a = 3
	pa := &arrs[1]
	pa[1].a = 4
	fa := func() [2]rec { return arrs[1] }
	w := fa()[0].a
	b := &[]rec{{a: 1}}[0]
	b.a++
	c := (&rec{a: 9}).a
	s := struct{ rec }{rec{a: 6}}
	s.a++
	s.rec.a++
	f := s.cp
	s.Rec = r
	s.Rec.Rec.a++
	return []int{r.a, r.Rec.a, q.a, z, w, b.a, c, s.a, f().a}
}
