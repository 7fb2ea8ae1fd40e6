// instr copies a Go module and rewrites its non-test code to run on simrt: a
// yield point before every statement, every access to memory that another
// goroutine could reach reported, and the clock, hash-map order, randomness,
// locks, atomics, goroutines and channels redirected to the simulator.
//
//	instr -src DIR -dst DIR -sites FILE [-seams]
//
// With -seams only the clock, hash order and randomness are redirected (used
// for dependencies).
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type edit struct {
	pos  int
	ord  int // insertion order among equal positions
	del  int // bytes deleted at pos
	text string
}

type pkgInfo struct {
	ImportPath string
	Dir        string
	Name       string
	GoFiles    []string
	Export     string
	Standard   bool
	Module     *struct{ Path, Dir string }
}

var (
	seamsOnly bool
	sites     []string
	stmtSites []int
	srcRoot   string
)

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	src := flag.String("src", "", "module to copy")
	dst := flag.String("dst", "", "destination")
	siteFile := flag.String("sites", "", "where to write the site table (JSON)")
	siteBase := flag.Int("base", 0, "first site id")
	flag.BoolVar(&seamsOnly, "seams", false, "only redirect clock, hash order and randomness")
	flag.Parse()
	srcRoot = *src
	sites = make([]string, *siteBase)

	cmd := exec.Command("go", "list", "-e", "-export", "-deps", "-json=ImportPath,Dir,Name,GoFiles,Export,Standard,Module", "./...")
	cmd.Dir = *src
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Run(); err != nil {
		die("go list: %v\n%s", err, errb.String())
	}
	exports := map[string]string{}
	var pkgs []pkgInfo
	dec := json.NewDecoder(&out)
	for {
		var p pkgInfo
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		if p.Export != "" {
			exports[p.ImportPath] = p.Export
		}
		if p.Module != nil && filepath.Clean(p.Dir) != "" && within(*src, p.Dir) && len(p.GoFiles) > 0 {
			pkgs = append(pkgs, p)
		}
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := exports[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})

	if err := os.MkdirAll(*dst, 0o755); err != nil {
		die("%v", err)
	}
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].ImportPath < pkgs[j].ImportPath })
	mod, err := os.ReadFile(filepath.Join(*src, "go.mod"))
	if err != nil {
		// a dependency without go.mod
		mod = []byte("module " + pkgs[0].Module.Path + "\n\ngo 1.23\n")
	}
	if err := os.WriteFile(filepath.Join(*dst, "go.mod"), mod, 0o644); err != nil {
		die("%v", err)
	}
	for _, p := range pkgs {
		if p.Name == "main" {
			continue
		}
		instrumentPackage(fset, imp, p, *dst)
	}
	if *siteFile != "" {
		b, _ := json.Marshal(sites)
		if err := os.WriteFile(*siteFile, b, 0o644); err != nil {
			die("%v", err)
		}
		b, _ = json.Marshal(stmtSites)
		if err := os.WriteFile(*siteFile+".stmts", b, 0o644); err != nil {
			die("%v", err)
		}
	}
}

func within(root, dir string) bool {
	r, err := filepath.Rel(root, dir)
	return err == nil && r != ".." && !strings.HasPrefix(r, "../")
}

type ctx struct {
	fset   *token.FileSet
	file   *token.File
	info   *types.Info
	pkg    *types.Package
	src    []byte
	edits  []edit
	shared map[*types.Var]bool
	rel    string
	used   bool
	keep   map[string]string // import path -> an expression that keeps it used
	extra  map[string]string // extra declarations
	index0 int
}

func (c *ctx) off(p token.Pos) int { return c.file.Offset(p) }
func (c *ctx) ins(p token.Pos, s string) {
	c.edits = append(c.edits, edit{pos: c.off(p), ord: len(c.edits), text: s})
	c.used = true
}
func (c *ctx) replace(a, b token.Pos, s string) {
	c.edits = append(c.edits, edit{pos: c.off(a), ord: len(c.edits), del: c.off(b) - c.off(a), text: s})
	c.used = true
}

func (c *ctx) site(p token.Pos) int {
	pos := c.fset.Position(p)
	sites = append(sites, fmt.Sprintf("%s:%d", c.rel, pos.Line))
	return len(sites) - 1
}

// stmtSite is the site of the yield before a statement.
func (c *ctx) stmtSite(p token.Pos) int {
	n := c.site(p)
	stmtSites = append(stmtSites, n)
	return n
}

func instrumentPackage(fset *token.FileSet, imp types.Importer, p pkgInfo, dst string) {
	rel, _ := filepath.Rel(srcRoot, p.Dir)
	outDir := filepath.Join(dst, rel)
	if err := os.MkdirAll(outDir, 0o755); err != nil {
		die("%v", err)
	}
	var files []*ast.File
	srcs := map[*ast.File][]byte{}
	names := map[*ast.File]string{}
	for _, n := range p.GoFiles {
		path := filepath.Join(p.Dir, n)
		b, err := os.ReadFile(path)
		if err != nil {
			die("%v", err)
		}
		f, err := parser.ParseFile(fset, path, b, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			die("parse: %v", err)
		}
		files = append(files, f)
		srcs[f] = b
		names[f] = n
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{}, Instances: map[*ast.Ident]types.Instance{}}
	conf := types.Config{Importer: imp, Error: func(err error) {}}
	pkg, err := conf.Check(p.ImportPath, fset, files, info)
	if err != nil {
		die("type check %s: %v", p.ImportPath, err)
	}

	// package-level variables: re-initialisable between runs
	initFuncs := 0
	var resetBodies []string
	fileDecls := map[*ast.File]*strings.Builder{}
	for _, f := range files {
		fileDecls[f] = &strings.Builder{}
	}
	shared := map[*types.Var]bool{}
	if !seamsOnly {
		shared = findShared(info, pkg, files)
	}
	ctxs := map[*ast.File]*ctx{}
	for _, f := range files {
		r, _ := filepath.Rel(srcRoot, filepath.Join(p.Dir, names[f]))
		ctxs[f] = &ctx{fset: fset, file: fset.File(f.Pos()), info: info, pkg: pkg, src: srcs[f], shared: shared, rel: r, keep: map[string]string{}, extra: map[string]string{}, index0: len(ctxs)}
	}
	// zero every package-level variable, then run the initialisers in order
	fileOf := func(pos token.Pos) *ast.File {
		for _, f := range files {
			if f.FileStart <= pos && pos < f.FileEnd {
				return f
			}
		}
		return nil
	}
	for _, f := range files {
		c := ctxs[f]
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, sp := range g.Specs {
				vs := sp.(*ast.ValueSpec)
				if len(vs.Values) > 0 || vs.Type == nil {
					continue
				}
				tt := string(c.src[c.off(vs.Type.Pos()):c.off(vs.Type.End())])
				for _, n := range vs.Names {
					if n.Name == "_" {
						continue
					}
					fn := fmt.Sprintf("simZero_%s", n.Name)
					fmt.Fprintf(fileDecls[f], "\nfunc %s() { %s = *new(%s) }\n", fn, n.Name, tt)
					resetBodies = append(resetBodies, fn+"()")
				}
			}
		}
	}
	for k, in := range info.InitOrder {
		f := fileOf(in.Rhs.Pos())
		if f == nil {
			continue
		}
		c := ctxs[f]
		var lhs []string
		named := false
		for _, v := range in.Lhs {
			lhs = append(lhs, v.Name())
			if v.Name() != "_" {
				named = true
			}
		}
		if !named {
			continue
		}
		_ = c
		fn := fmt.Sprintf("simInit_%d", k)
		// the initialiser's text is taken after instrumentation, see below
		pendingInits = append(pendingInits, pendingInit{f, in.Rhs, fn, strings.Join(lhs, ", ")})
		resetBodies = append(resetBodies, fn+"()")
	}
	for _, f := range files {
		c := ctxs[f]
		c.imports(f)
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Name.Name == "init" && d.Recv == nil {
					nn := fmt.Sprintf("simInitFunc_%d", initFuncs)
					initFuncs++
					c.replace(d.Name.Pos(), d.Name.End(), nn)
					fmt.Fprintf(fileDecls[f], "\nfunc init() { %s() }\n", nn)
					resetBodies = append(resetBodies, nn+"()")
				}
				if d.Body != nil {
					if noInstr(d) {
						continue
					}
					c.block(d.Body.List, d.Body)
				}
			case *ast.GenDecl:
				if d.Tok == token.VAR {
					for _, sp := range d.Specs {
						for _, v := range sp.(*ast.ValueSpec).Values {
							c.expr(v, read)
						}
					}
				}
			}
		}
	}
	for i, f := range files {
		c := ctxs[f]
		extra := fileDecls[f].String()
		for _, pi := range pendingInits {
			if pi.file == f {
				extra += fmt.Sprintf("\nfunc %s() { %s = %s }\n", pi.fn, pi.lhs, c.apply(c.off(pi.rhs.Pos()), c.off(pi.rhs.End())))
			}
		}
		body := c.apply(0, len(c.src))
		if i == 0 && len(resetBodies) > 0 {
			extra += "\nfunc init() { simrt.OnReset(func() { " + strings.Join(resetBodies, "; ") + " }) }\n"
			c.used = true
		}
		for _, x := range sortedVals(c.extra) {
			extra += x
		}
		for _, k := range sortedVals(c.keep) {
			extra += "\nvar _ = " + k + "\n"
		}
		if c.used {
			// right after the package clause, on its line
			e := c.off(f.Name.End())
			nl := len(c.apply(0, e))
			body = body[:nl] + "; import \"simrt\"" + body[nl:]
			extra += "\nvar _ = simrt.Y\n"
		}
		if err := os.WriteFile(filepath.Join(outDir, names[f]), []byte(body+extra), 0o644); err != nil {
			die("%v", err)
		}
	}
	pendingInits = nil
}

type pendingInit struct {
	file    *ast.File
	rhs     ast.Expr
	fn, lhs string
}

var pendingInits []pendingInit

func noInstr(d *ast.FuncDecl) bool {
	if d.Doc == nil {
		return false
	}
	for _, l := range d.Doc.List {
		if strings.HasPrefix(l.Text, "//go:nosplit") || strings.HasPrefix(l.Text, "//go:linkname") {
			return true
		}
	}
	return false
}

func sortedVals(m map[string]string) []string {
	var k []string
	for _, v := range m {
		k = append(k, v)
	}
	sort.Strings(k)
	return k
}

// apply renders the source range [a,b) with its edits.
func (c *ctx) apply(a, b int) string {
	es := make([]edit, 0, len(c.edits))
	for _, e := range c.edits {
		if e.pos >= a && e.pos+e.del <= b {
			// closers at the very start and openers at the very end of a
			// subrange belong to the outside
			if a != 0 || b != len(c.src) {
				if e.pos == b && e.del == 0 && e.open() {
					continue
				}
				if e.pos == a && e.del == 0 && !e.open() {
					continue
				}
			}
			es = append(es, e)
		}
	}
	sort.SliceStable(es, func(i, j int) bool {
		if es[i].pos != es[j].pos {
			return es[i].pos < es[j].pos
		}
		return es[i].ord < es[j].ord
	})
	var sb strings.Builder
	at := a
	for _, e := range es {
		if e.pos < at {
			die("overlapping edits in %s at offset %d: %q", c.rel, e.pos, e.text)
		}
		sb.Write(c.src[at:e.pos])
		sb.WriteString(e.text)
		at = e.pos + e.del
	}
	sb.Write(c.src[at:b])
	return sb.String()
}

func (e edit) open() bool { return e.ord >= 0 }

// wrap surrounds an expression. Wrapping is done outermost first, so openers
// keep call order (outer before inner) and closers get reversed order.
func (c *ctx) wrap(a, b token.Pos, open, close string) {
	n := len(c.edits)
	c.edits = append(c.edits, edit{pos: c.off(a), ord: n, text: open})
	c.edits = append(c.edits, edit{pos: c.off(b), ord: -n - 1, text: close})
	c.used = true
}

// findShared returns the variables another goroutine could reach by name or by
// address: package-level, captured by a function literal, or address taken.
func findShared(info *types.Info, pkg *types.Package, files []*ast.File) map[*types.Var]bool {
	shared := map[*types.Var]bool{}
	for _, f := range files {
		var lits []*ast.FuncLit
		var walk func(n ast.Node) bool
		walk = func(n ast.Node) bool {
			switch n := n.(type) {
			case nil:
				return false
			case *ast.FuncLit:
				lits = append(lits, n)
				ast.Inspect(n.Type, walk)
				ast.Inspect(n.Body, walk)
				lits = lits[:len(lits)-1]
				return false
			case *ast.Ident:
				v, ok := info.Uses[n].(*types.Var)
				if !ok || v.IsField() {
					return true
				}
				if v.Parent() == pkg.Scope() || v.Pkg() != nil && v.Pkg() != pkg {
					shared[v] = true
					return true
				}
				for _, l := range lits {
					if v.Pos() < l.Pos() || v.Pos() >= l.End() {
						shared[v] = true
					}
				}
			case *ast.UnaryExpr:
				if n.Op == token.AND {
					if v := baseVar(info, n.X); v != nil {
						shared[v] = true
					}
				}
			case *ast.SliceExpr:
				if t := info.TypeOf(n.X); t != nil {
					if _, ok := t.Underlying().(*types.Array); ok {
						if v := baseVar(info, n.X); v != nil {
							shared[v] = true
						}
					}
				}
			case *ast.SelectorExpr:
				if s := info.Selections[n]; s != nil && s.Kind() == types.MethodVal {
					sig := s.Obj().Type().(*types.Signature)
					if sig.Recv() != nil {
						_, ptrRecv := sig.Recv().Type().(*types.Pointer)
						_, isPtr := s.Recv().Underlying().(*types.Pointer)
						if ptrRecv && !isPtr {
							if v := baseVar(info, n.X); v != nil {
								shared[v] = true
							}
						}
					}
				}
			}
			return true
		}
		ast.Inspect(f, walk)
	}
	return shared
}

// baseVar is the variable whose memory holds e (through fields and array
// elements, not through pointers).
func baseVar(info *types.Info, e ast.Expr) *types.Var {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return baseVar(info, e.X)
	case *ast.Ident:
		v, _ := info.Uses[e].(*types.Var)
		return v
	case *ast.SelectorExpr:
		if s := info.Selections[e]; s != nil && s.Kind() == types.FieldVal && !s.Indirect() {
			return baseVar(info, e.X)
		}
	case *ast.IndexExpr:
		if t := info.TypeOf(e.X); t != nil {
			if _, ok := t.Underlying().(*types.Array); ok {
				return baseVar(info, e.X)
			}
		}
	}
	return nil
}
