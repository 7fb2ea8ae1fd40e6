package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strconv"
	"strings"
)

type mode int

const (
	read  mode = iota
	write      // the location is assigned
	addr       // only the location is used
)

// --- statements ---

func (c *ctx) block(list []ast.Stmt, at ast.Node) {
	for _, s := range list {
		c.stmtAt(s)
	}
}

// loopBody is a block that also yields when an iteration begins.
func (c *ctx) loopBody(b *ast.BlockStmt) {
	if !seamsOnly {
		c.ins(b.Lbrace+1, fmt.Sprintf(" simrt.Y(%d); ", c.stmtSite(b.Lbrace)))
	}
	c.block(b.List, b)
}

func (c *ctx) stmtAt(s ast.Stmt) {
	if !seamsOnly {
		switch s.(type) {
		case *ast.EmptyStmt:
			return
		case nil:
			return
		}
		c.ins(s.Pos(), fmt.Sprintf("simrt.Y(%d); ", c.stmtSite(s.Pos())))
	}
	c.stmt(s, false)
}

func hasCall(e ast.Node) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.CallExpr:
			found = true
		case *ast.FuncLit:
			return false
		}
		return !found
	})
	return found
}

// stmt walks one statement; header is true where nothing may be put after it.
func (c *ctx) stmt(s ast.Stmt, header bool) {
	switch s := s.(type) {
	case nil:
	case *ast.ExprStmt:
		c.expr(s.X, read)
	case *ast.AssignStmt:
		calls := false
		for _, r := range s.Rhs {
			if hasCall(r) {
				calls = true
			}
		}
		var after []*ast.Ident
		for _, l := range s.Lhs {
			if id, ok := l.(*ast.Ident); ok {
				if id.Name == "_" {
					continue
				}
				v, _ := c.info.Uses[id].(*types.Var)
				if s.Tok == token.DEFINE {
					if v != nil && c.shared[v] && !header {
						after = append(after, id)
					}
					continue
				}
				if s.Tok == token.ASSIGN && calls && v != nil && c.shared[v] && !header {
					after = append(after, id)
					continue
				}
			}
			c.expr(l, write)
		}
		for _, r := range s.Rhs {
			c.expr(r, read)
		}
		for _, id := range after {
			if !seamsOnly {
				c.ins(s.End(), fmt.Sprintf("; simrt.WP(&%s, %d)", id.Name, c.site(id.Pos())))
			}
		}
	case *ast.IncDecStmt:
		c.expr(s.X, write)
	case *ast.DeclStmt:
		if g, ok := s.Decl.(*ast.GenDecl); ok && g.Tok == token.VAR {
			for _, sp := range g.Specs {
				for _, v := range sp.(*ast.ValueSpec).Values {
					c.expr(v, read)
				}
			}
		}
	case *ast.ReturnStmt:
		for _, r := range s.Results {
			c.expr(r, read)
		}
	case *ast.BlockStmt:
		c.block(s.List, s)
	case *ast.IfStmt:
		c.stmt(s.Init, true)
		c.expr(s.Cond, read)
		c.block(s.Body.List, s.Body)
		c.stmt(s.Else, false)
	case *ast.ForStmt:
		c.stmt(s.Init, true)
		if s.Cond != nil {
			c.expr(s.Cond, read)
		}
		c.stmt(s.Post, true)
		c.loopBody(s.Body)
	case *ast.RangeStmt:
		c.rangeStmt(s)
	case *ast.SwitchStmt:
		c.stmt(s.Init, true)
		if s.Tag != nil {
			c.expr(s.Tag, read)
		}
		for _, cl := range s.Body.List {
			cc := cl.(*ast.CaseClause)
			for _, e := range cc.List {
				c.expr(e, read)
			}
			c.block(cc.Body, cc)
		}
	case *ast.TypeSwitchStmt:
		c.stmt(s.Init, true)
		switch a := s.Assign.(type) {
		case *ast.ExprStmt:
			c.expr(a.X, read)
		case *ast.AssignStmt:
			c.expr(a.Rhs[0], read)
		}
		for _, cl := range s.Body.List {
			c.block(cl.(*ast.CaseClause).Body, cl)
		}
	case *ast.SelectStmt:
		c.selectStmt(s)
	case *ast.GoStmt:
		c.goStmt(s)
	case *ast.DeferStmt:
		c.expr(s.Call, read)
	case *ast.SendStmt:
		if !seamsOnly {
			c.wrap(s.Chan.Pos(), s.Value.End(), "simrt.Send(", ")")
			c.replace(s.Arrow, s.Arrow+2, ",")
		}
		c.expr(s.Chan, read)
		c.expr(s.Value, read)
	case *ast.LabeledStmt:
		c.stmt(s.Stmt, header)
	}
}

// text instruments e on the side and returns the result.
func (c *ctx) text(e ast.Expr, m mode) string {
	n := len(c.edits)
	c.expr(e, m)
	sub := &ctx{fset: c.fset, file: c.file, src: c.src, rel: c.rel, edits: append([]edit(nil), c.edits[n:]...)}
	c.edits = c.edits[:n]
	return sub.render(c.off(e.Pos()), c.off(e.End()))
}

// selectStmt becomes a switch over the case the scheduler completes.
func (c *ctx) selectStmt(s *ast.SelectStmt) {
	if seamsOnly {
		for _, cl := range s.Body.List {
			c.block(cl.(*ast.CommClause).Body, cl)
		}
		return
	}
	c.used = true
	if len(s.Body.List) == 0 {
		c.replace(s.Select, s.Body.Rbrace, "switch { default: simrt.Sel(false); panic(\"no case\") ")
		return
	}
	def := "false"
	last := -1 // without a default case the last one takes its place
	for i, cl := range s.Body.List {
		if cl.(*ast.CommClause).Comm == nil {
			def, last = "true", -2
		} else if last != -2 {
			last = i
		}
	}
	var names, values []string
	for i, cl := range s.Body.List {
		cc := cl.(*ast.CommClause)
		head := "default:"
		if cc.Comm != nil {
			if i != last {
				head = fmt.Sprintf("case %d:", len(names))
			}
			name := fmt.Sprintf("simsel%d_%d", c.site(cc.Pos()), i)
			names = append(names, name)
			var rx ast.Expr
			switch x := cc.Comm.(type) {
			case *ast.SendStmt:
				values = append(values, "simrt.SendCase("+c.text(x.Chan, read)+", "+c.text(x.Value, read)+")")
			case *ast.ExprStmt:
				rx = x.X
			case *ast.AssignStmt:
				rx = x.Rhs[0]
				head += " "
				for k, l := range x.Lhs {
					if k > 0 {
						head += ", "
					}
					if x.Tok == token.DEFINE {
						head += l.(*ast.Ident).Name
					} else if id, ok := l.(*ast.Ident); ok && id.Name == "_" {
						head += "_"
					} else {
						head += c.text(l, write)
					}
				}
				head += " " + x.Tok.String() + " " + name + ".V"
				if len(x.Lhs) == 2 {
					head += ", " + name + ".OK"
				}
				head += ";"
			}
			if rx != nil {
				values = append(values, "simrt.RecvCase("+c.text(ast.Unparen(rx).(*ast.UnaryExpr).X, read)+")")
			}
		}
		c.replace(cc.Case, cc.Colon+1, head)
		c.block(cc.Body, cc)
	}
	init := ""
	if len(names) > 0 {
		init = strings.Join(names, ", ") + " := " + strings.Join(values, ", ") + "; "
	}
	c.replace(s.Select, s.Body.Lbrace, "switch "+init+"simrt.Sel("+strings.Join(append([]string{def}, names...), ", ")+") ")
}

func (c *ctx) under(e ast.Expr) types.Type {
	t := c.info.TypeOf(e)
	if t == nil {
		return types.Typ[types.Invalid]
	}
	return t.Underlying()
}

func isParam(t types.Type) bool {
	_, ok := t.(*types.TypeParam)
	return ok
}

func (c *ctx) rangeStmt(s *ast.RangeStmt) {
	for _, kv := range []ast.Expr{s.Key, s.Value} {
		if kv != nil && s.Tok == token.ASSIGN {
			c.expr(kv, addr)
		}
	}
	hasValue := false
	if s.Value != nil {
		if id, ok := s.Value.(*ast.Ident); !ok || id.Name != "_" {
			hasValue = true
		}
	}
	a, b := s.X.Pos(), s.X.End()
	if isParam(c.info.TypeOf(s.X)) {
		c.expr(s.X, read)
	} else {
		switch t := c.under(s.X).(type) {
		case *types.Map:
			c.wrap(a, b, "simrt.MapAll(", ")")
			if !seamsOnly {
				c.wrap(a, b, "simrt.RM(", fmt.Sprintf(", %d)", c.site(a)))
			}
			c.expr(s.X, read)
		case *types.Slice:
			if hasValue && !seamsOnly {
				c.wrap(a, b, "simrt.SliceAll(", fmt.Sprintf(", %d)", c.site(a)))
			}
			c.expr(s.X, read)
		case *types.Chan:
			if !seamsOnly {
				c.wrap(a, b, "simrt.ChanAll(", ")")
			}
			c.expr(s.X, read)
		case *types.Array:
			if hasValue {
				c.expr(s.X, read)
			} else {
				c.expr(s.X, addr)
			}
		case *types.Pointer:
			c.expr(s.X, read)
		default:
			_ = t
			c.expr(s.X, read)
		}
	}
	c.loopBody(s.Body)
}

// goStmt evaluates the function and its arguments now and runs the call as a
// task.
func (c *ctx) goStmt(s *ast.GoStmt) {
	if seamsOnly {
		c.expr(s.Call, read)
		return
	}
	n := len(c.edits)
	call := s.Call
	if id, ok := call.Fun.(*ast.Ident); ok {
		if _, isB := c.info.Uses[id].(*types.Builtin); isB {
			return
		}
	}
	c.expr(call.Fun, read)
	for _, a := range call.Args {
		c.expr(a, read)
	}
	sub := &ctx{fset: c.fset, file: c.file, src: c.src, rel: c.rel, edits: append([]edit(nil), c.edits[n:]...)}
	text := func(e ast.Expr) string { return sub.render(c.off(e.Pos()), c.off(e.End())) }
	var sb strings.Builder
	fmt.Fprintf(&sb, "{ simf := %s; ", text(call.Fun))
	var args []string
	for i, a := range call.Args {
		if tv := c.info.Types[a]; tv.Value != nil || tv.IsNil() {
			args = append(args, text(a))
			continue
		}
		fmt.Fprintf(&sb, "sima%d := %s; ", i, text(a))
		args = append(args, fmt.Sprintf("sima%d", i))
	}
	dots := ""
	if call.Ellipsis.IsValid() {
		dots = "..."
	}
	fmt.Fprintf(&sb, "simrt.GoStmt(func() { simf(%s%s) }) }", strings.Join(args, ", "), dots)
	c.edits = c.edits[:n]
	c.replace(s.Pos(), s.End(), sb.String())
}

// render is apply for a range that already contains only its own edits.
func (c *ctx) render(a, b int) string {
	keep := c.edits
	var es []edit
	for _, e := range keep {
		if e.pos >= a && e.pos+e.del <= b {
			if e.pos == b && e.del == 0 && e.open() || e.pos == a && e.del == 0 && !e.open() {
				continue
			}
			es = append(es, e)
		}
	}
	c.edits = es
	r := c.apply(a, b)
	c.edits = keep
	return r
}

// --- expressions ---

func (c *ctx) addressable(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return c.addressable(e.X)
	case *ast.Ident:
		_, ok := c.info.Uses[e].(*types.Var)
		return ok
	case *ast.SelectorExpr:
		s := c.info.Selections[e]
		if s == nil {
			_, ok := c.info.Uses[e.Sel].(*types.Var)
			return ok
		}
		return s.Kind() == types.FieldVal && (s.Indirect() || c.addressable(e.X))
	case *ast.IndexExpr:
		switch t := c.under(e.X).(type) {
		case *types.Slice:
			return true
		case *types.Array:
			return c.addressable(e.X)
		case *types.Pointer:
			_ = t
			return true
		}
	case *ast.StarExpr:
		return true
	}
	return false
}

// reach reports whether e's memory could be reached by another goroutine.
func (c *ctx) reach(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return c.reach(e.X)
	case *ast.Ident:
		v, _ := c.info.Uses[e].(*types.Var)
		return v != nil && c.shared[v]
	case *ast.SelectorExpr:
		s := c.info.Selections[e]
		if s == nil {
			_, ok := c.info.Uses[e.Sel].(*types.Var)
			return ok
		}
		return s.Indirect() || c.reach(e.X)
	case *ast.IndexExpr:
		if _, ok := c.under(e.X).(*types.Array); ok {
			return c.reach(e.X)
		}
		return true
	case *ast.StarExpr:
		return true
	}
	return false
}

// report wraps the location e.
func (c *ctx) report(e ast.Expr, m mode) {
	if seamsOnly || m == addr {
		return
	}
	f := "RP"
	if m == write {
		f = "WP"
	}
	c.wrap(e.Pos(), e.End(), "(*simrt."+f+"(&", fmt.Sprintf(", %d))", c.site(e.Pos())))
}

// unsafeStd are types of other packages whose methods write to the receiver.
var unsafeStd = map[string]map[string]bool{
	"strings.Builder": {"String": true, "Len": true, "Cap": true},
	"strings.Reader":  {"Len": true, "Size": true},
	"bytes.Buffer":    {"String": true, "Len": true, "Cap": true, "Bytes": true, "Available": true},
	"bytes.Reader":    {"Len": true, "Size": true},
	"bufio.Reader":    {}, "bufio.Writer": {"Buffered": true, "Available": true}, "bufio.Scanner": {"Text": true, "Bytes": true, "Err": true},
	"math/rand.Rand": {}, "math/rand/v2.Rand": {},
	"container/list.List":   {"Len": true, "Front": true, "Back": true},
	"container/ring.Ring":   {"Len": true},
	"math/big.Int":          {"String": true, "Cmp": true, "Sign": true, "Int64": true, "Uint64": true, "IsInt64": true, "IsUint64": true, "BitLen": true, "Text": true},
	"encoding/json.Decoder": {}, "encoding/json.Encoder": {},
	"hash/maphash.Hash": {},
}

func (c *ctx) expr(e ast.Expr, m mode) {
	if e == nil {
		return
	}
	if tv, ok := c.info.Types[e]; ok && (tv.IsType() || tv.Value != nil) {
		return
	}
	switch e := e.(type) {
	case *ast.Ident:
		if v, ok := c.info.Uses[e].(*types.Var); ok && c.shared[v] {
			c.report(e, m)
		}
	case *ast.ParenExpr:
		c.expr(e.X, m)
	case *ast.FuncLit:
		c.block(e.Body.List, e.Body)
	case *ast.SelectorExpr:
		c.selector(e, m)
	case *ast.StarExpr:
		if m != addr && !seamsOnly {
			f := "RP"
			if m == write {
				f = "WP"
			}
			// *p becomes (*simrt.RP(p, site))
			c.wrap(e.Pos(), e.End(), "(", fmt.Sprintf(", %d))", c.site(e.Pos())))
			c.replace(e.Star, e.Star+1, "*simrt."+f+"(")
		}
		c.expr(e.X, read)
	case *ast.IndexExpr:
		c.index(e, m)
	case *ast.IndexListExpr:
	case *ast.SliceExpr:
		if _, ok := c.under(e.X).(*types.Array); ok {
			c.expr(e.X, addr)
		} else {
			c.expr(e.X, read)
		}
		c.expr(e.Low, read)
		c.expr(e.High, read)
		c.expr(e.Max, read)
	case *ast.TypeAssertExpr:
		c.expr(e.X, read)
	case *ast.CallExpr:
		c.call(e)
	case *ast.UnaryExpr:
		switch e.Op {
		case token.AND:
			c.expr(e.X, addr)
		case token.ARROW:
			if !seamsOnly {
				f := "simrt.Recv("
				if tv := c.info.Types[e]; tv.Type != nil {
					if _, ok := tv.Type.(*types.Tuple); ok {
						f = "simrt.Recv2("
					}
				}
				c.wrap(e.Pos(), e.End(), "", ")")
				c.replace(e.OpPos, e.OpPos+2, f)
			}
			c.expr(e.X, read)
		default:
			c.expr(e.X, read)
		}
	case *ast.BinaryExpr:
		c.expr(e.X, read)
		c.expr(e.Y, read)
	case *ast.CompositeLit:
		_, isStruct := c.under(e).(*types.Struct)
		if p, ok := c.under(e).(*types.Pointer); ok {
			_, isStruct = p.Elem().Underlying().(*types.Struct)
		}
		for _, el := range e.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				if !isStruct {
					c.expr(kv.Key, read)
				}
				c.expr(kv.Value, read)
				continue
			}
			c.expr(el, read)
		}
	}
}

func (c *ctx) selector(e *ast.SelectorExpr, m mode) {
	s := c.info.Selections[e]
	if s == nil {
		// pkg.Name
		obj := c.info.Uses[e.Sel]
		if obj == nil || obj.Pkg() == nil {
			return
		}
		if c.seam(e, obj) {
			return
		}
		if v, ok := obj.(*types.Var); ok && v.Pkg() != c.pkg && !strings.HasPrefix(v.Pkg().Path(), "simrt") {
			c.report(e, m)
		}
		return
	}
	switch s.Kind() {
	case types.FieldVal:
		if c.addressable(e) {
			if c.reach(e) {
				c.report(e, m)
			}
			if _, isPtr := c.under(e.X).(*types.Pointer); isPtr {
				c.expr(e.X, read)
			} else {
				c.expr(e.X, addr)
			}
			return
		}
		c.expr(e.X, read)
	case types.MethodVal:
		sig := s.Obj().Type().(*types.Signature)
		ptrRecv := false
		if sig.Recv() != nil {
			_, ptrRecv = sig.Recv().Type().(*types.Pointer)
		}
		_, xPtr := c.under(e.X).(*types.Pointer)
		if name := recvName(sig); name != "" && ptrRecv && !seamsOnly {
			if reads, ok := unsafeStd[name]; ok && len(s.Index()) == 1 {
				f := "WS"
				if reads[e.Sel.Name] {
					f = "RS"
				}
				if xPtr {
					c.wrap(e.X.Pos(), e.X.End(), "simrt."+f+"(", fmt.Sprintf(", %d)", c.site(e.X.Pos())))
					c.expr(e.X, read)
				} else if c.addressable(e.X) {
					if c.reach(e.X) {
						c.wrap(e.X.Pos(), e.X.End(), "simrt."+f+"(&", fmt.Sprintf(", %d)", c.site(e.X.Pos())))
					}
					c.expr(e.X, addr)
				}
				return
			}
		}
		if ptrRecv && !xPtr && c.addressable(e.X) {
			c.expr(e.X, addr)
			return
		}
		c.expr(e.X, read)
	}
}

func recvName(sig *types.Signature) string {
	if sig.Recv() == nil {
		return ""
	}
	t := sig.Recv().Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return ""
	}
	return n.Obj().Pkg().Path() + "." + n.Obj().Name()
}

func (c *ctx) index(e *ast.IndexExpr, m mode) {
	if tv, ok := c.info.Types[e.X]; ok && tv.IsType() {
		return
	}
	t := c.info.TypeOf(e.X)
	if t == nil {
		return
	}
	if _, isFunc := t.Underlying().(*types.Signature); isFunc {
		return // instantiation
	}
	if isParam(t) {
		c.expr(e.X, read)
		c.expr(e.Index, read)
		return
	}
	switch t.Underlying().(type) {
	case *types.Map:
		if !seamsOnly {
			f := "RM"
			if m == write {
				f = "WM"
			}
			c.wrap(e.X.Pos(), e.X.End(), "simrt."+f+"(", fmt.Sprintf(", %d)", c.site(e.X.Pos())))
		}
		c.expr(e.X, read)
	case *types.Slice, *types.Pointer:
		c.report(e, m)
		c.expr(e.X, read)
	case *types.Array:
		if c.addressable(e) {
			if c.reach(e) {
				c.report(e, m)
			}
			c.expr(e.X, addr)
		} else {
			c.expr(e.X, read)
		}
	default:
		c.expr(e.X, read)
	}
	c.expr(e.Index, read)
}

func (c *ctx) wrapArg(a ast.Expr, f string) {
	if !seamsOnly {
		c.wrap(a.Pos(), a.End(), "simrt."+f+"(", fmt.Sprintf(", %d)", c.site(a.Pos())))
	}
	c.expr(a, read)
}

func (c *ctx) isNil(a ast.Expr) bool {
	tv, ok := c.info.Types[a]
	return ok && tv.IsNil()
}

// argAs walks an argument whose container contents the callee uses.
func (c *ctx) argAs(a ast.Expr, w bool) {
	t := c.info.TypeOf(a)
	if t == nil || c.isNil(a) || isParam(t) {
		c.expr(a, read)
		return
	}
	switch t.Underlying().(type) {
	case *types.Slice:
		if w {
			c.wrapArg(a, "WL")
		} else {
			c.wrapArg(a, "RL")
		}
	case *types.Map:
		if w {
			c.wrapArg(a, "WM")
		} else {
			c.wrapArg(a, "RM")
		}
	default:
		c.expr(a, read)
	}
}

var writers = map[string]bool{
	"sort.Strings": true, "sort.Ints": true, "sort.Float64s": true, "sort.Slice": true, "sort.SliceStable": true, "sort.Sort": true, "sort.Stable": true,
	"slices.Sort": true, "slices.SortFunc": true, "slices.SortStableFunc": true, "slices.Reverse": true, "slices.Delete": true, "slices.DeleteFunc": true,
	"slices.Insert": true, "slices.Replace": true, "slices.Compact": true, "slices.CompactFunc": true, "maps.DeleteFunc": true, "maps.Copy": true,
	"strconv.AppendInt": true, "strconv.AppendQuote": true, "strconv.AppendFloat": true, "strconv.AppendUint": true, "strconv.AppendBool": true, "fmt.Append": true, "fmt.Appendf": true,
	"math/rand.Shuffle": true,
}

func (c *ctx) call(e *ast.CallExpr) {
	fun := ast.Unparen(e.Fun)
	if tv, ok := c.info.Types[e.Fun]; ok && tv.IsType() {
		// conversion
		for _, a := range e.Args {
			if b, ok := tv.Type.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				c.argAs(a, false)
			} else {
				c.expr(a, read)
			}
		}
		return
	}
	if id, ok := fun.(*ast.Ident); ok {
		if b, ok := c.info.Uses[id].(*types.Builtin); ok {
			c.builtin(e, b.Name(), id)
			return
		}
	}
	c.expr(e.Fun, read)
	// callee in another package?
	var obj types.Object
	switch f := fun.(type) {
	case *ast.SelectorExpr:
		obj = c.info.Uses[f.Sel]
	case *ast.IndexExpr:
		if s, ok := f.X.(*ast.SelectorExpr); ok {
			obj = c.info.Uses[s.Sel]
		}
	}
	fo, _ := obj.(*types.Func)
	if fo != nil && fo.Pkg() != nil && fo.Pkg() != c.pkg {
		name := fo.Pkg().Path() + "." + fo.Name()
		if fo.Pkg().Path() == "sync/atomic" || fo.Pkg().Path() == "sync" {
			for _, a := range e.Args {
				c.expr(a, read)
			}
			return
		}
		for i, a := range e.Args {
			c.argAs(a, i == 0 && writers[name])
		}
		return
	}
	for _, a := range e.Args {
		c.expr(a, read)
	}
}

func (c *ctx) builtin(e *ast.CallExpr, name string, id *ast.Ident) {
	ok := func(i int) bool {
		if i >= len(e.Args) {
			return false
		}
		t := c.info.TypeOf(e.Args[i])
		if t == nil || c.isNil(e.Args[i]) || isParam(t) {
			return false
		}
		switch t.Underlying().(type) {
		case *types.Slice, *types.Map:
			return true
		}
		return false
	}
	switch name {
	case "append":
		if ok(0) {
			c.wrapArg(e.Args[0], "AP")
		} else {
			c.expr(e.Args[0], read)
		}
		for i, a := range e.Args[1:] {
			if e.Ellipsis.IsValid() && i == len(e.Args)-2 {
				c.argAs(a, false)
			} else {
				c.expr(a, read)
			}
		}
	case "copy":
		c.argAs(e.Args[0], true)
		c.argAs(e.Args[1], false)
	case "delete":
		c.argAs(e.Args[0], true)
		c.expr(e.Args[1], read)
	case "clear":
		c.argAs(e.Args[0], true)
	case "len", "cap":
		a := e.Args[0]
		switch c.under(a).(type) {
		case *types.Map:
			c.argAs(a, false)
		case *types.Array:
			c.expr(a, addr)
		default:
			c.expr(a, read)
		}
	case "close":
		if !seamsOnly {
			c.replace(id.Pos(), id.End(), "simrt.Close")
		}
		c.expr(e.Args[0], read)
	case "make":
		for _, a := range e.Args[1:] {
			c.expr(a, read)
		}
	case "new":
		if len(e.Args) == 1 {
			c.expr(e.Args[0], read)
		}
	case "recover":
		// the simulator's own unwinding is not the code's to stop
		if !seamsOnly {
			c.wrap(e.Pos(), e.End(), "simrt.Rec(", ")")
		}
	default:
		for _, a := range e.Args {
			c.expr(a, read)
		}
	}
}

// --- seams ---

// seam redirects uses of the clock, randomness and hash order.
func (c *ctx) seam(e *ast.SelectorExpr, obj types.Object) bool {
	f, ok := obj.(*types.Func)
	if !ok {
		return false
	}
	x, ok := e.X.(*ast.Ident)
	if !ok {
		return false
	}
	path := f.Pkg().Path()
	switch path {
	case "time":
		switch f.Name() {
		case "Now", "Since", "Until", "Sleep":
			c.replace(e.Pos(), e.End(), "simrt.Time"+f.Name())
			c.keep["time"] = x.Name + ".Now"
			return true
		}
	case "maps":
		switch f.Name() {
		case "Keys", "Values", "All":
			c.replace(e.Pos(), e.End(), "simrt.Map"+f.Name())
			c.keep["maps"] = x.Name + ".Keys[map[int]int]"
			return true
		}
	case "math/rand", "math/rand/v2":
		switch f.Name() {
		case "New", "NewSource", "NewZipf", "NewPCG", "NewChaCha8", "N", "Seed", "Read":
			return false
		}
		v := "simRand_" + strconv.Itoa(c.index0) + "_" + x.Name
		c.replace(e.X.Pos(), e.X.End(), v)
		if c.extra[v] == "" {
			c.extra[v] = fmt.Sprintf("\nvar %s = %s.New(simrt.Source{})\n", v, x.Name)
		}
		return true
	}
	return false
}

// imports redirects the synchronisation packages.
func (c *ctx) imports(f *ast.File) {
	if seamsOnly {
		return
	}
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		name := ""
		switch p {
		case "sync":
			name = "sync"
		case "sync/atomic":
			name = "atomic"
		default:
			continue
		}
		if im.Name != nil {
			name = im.Name.Name
			c.replace(im.Name.Pos(), im.Name.End(), "")
		}
		to := map[string]string{"sync": "simrt/simsync", "sync/atomic": "simrt/simatomic"}[p]
		c.replace(im.Path.Pos(), im.Path.End(), name+" "+strconv.Quote(to))
	}
}
