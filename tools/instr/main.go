// instr copies the code under test, rewritten to run under the simulator.
//
//	instr -repo /repo -out /verif/.build
//
// It copies every non-test, non-main package of the module and of golang.org/x/sync
// that the module uses. In the copies, the packages sync, os, io/ioutil, path/filepath
// and time are replaced by simulated ones; go statements, channel operations and
// iteration over maps go through the simulator; and every statement is preceded by a
// yield point. The rewriting is purely mechanical: it knows nothing about the code.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

var replaced = map[string]string{
	"sync":          "verifsim/ssync",
	"os":            "verifsim/sos",
	"io/ioutil":     "verifsim/sioutil",
	"path/filepath": "verifsim/sfilepath",
	"time":          "verifsim/stime",
	"context":       "verifsim/scontext",
	"log":           "verifsim/slog",
	"io":            "verifsim/sio",
	"math/rand":     "verifsim/srand",
	"math/rand/v2":  "verifsim/srandv2",
	"runtime":       "verifsim/sruntime",
}

type listPkg struct {
	ImportPath string
	Name       string
	Dir        string
	Export     string
	Standard   bool
	GoFiles    []string
	Imports    []string
	ImportMap  map[string]string
	Deps       []string
	Module     *struct {
		Path, Dir, Version, GoVersion, GoMod string
		Main                                 bool
	}
	EmbedFiles []string
	Error      *struct{ Err string }
}

func main() {
	repo := flag.String("repo", "/repo", "module to instrument")
	out := flag.String("out", "", "output directory")
	modfile := flag.Bool("modfile", false, "write OUT/sim.mod and OUT/sim.sum instead")
	sim := flag.String("sim", "", "simulator module (with -modfile)")
	flag.Parse()
	if *modfile {
		if err := writeMod(*repo, *out, *sim); err != nil {
			fmt.Fprintln(os.Stderr, "instr:", err)
			os.Exit(2)
		}
		return
	}
	if err := run(*repo, *out); err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(2)
	}
}

func golist(repo string, args ...string) ([]*listPkg, error) {
	cmd := exec.Command("go", append([]string{"list", "-json", "-deps", "-export"}, args...)...)
	cmd.Dir = repo
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	b, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v\n%s", err, stderr.String())
	}
	dec := json.NewDecoder(bytes.NewReader(b))
	var pkgs []*listPkg
	for {
		p := &listPkg{}
		if err := dec.Decode(p); err == io.EOF {
			return pkgs, nil
		} else if err != nil {
			return nil, err
		}
		pkgs = append(pkgs, p)
	}
}

func run(repo, out string) error {
	pkgs, err := golist(repo, "./...")
	if err != nil {
		return err
	}
	byPath := map[string]*listPkg{}
	var mainMod string
	for _, p := range pkgs {
		byPath[p.ImportPath] = p
		if p.Module != nil && p.Module.Main {
			mainMod = p.Module.Path
		}
	}
	const xsync = "golang.org/x/sync"
	for _, d := range []string{"cssc", "xsync"} {
		if err := os.RemoveAll(filepath.Join(out, d)); err != nil {
			return err
		}
	}
	fset := token.NewFileSet()
	exp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		p := byPath[path]
		if p == nil || p.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(p.Export)
	})
	stats := map[string]int{}
	haveXsync := false
	for _, p := range pkgs { // in dependency order
		if p.Module == nil || p.Name == "main" {
			continue
		}
		var dst string
		switch {
		case p.Module.Main:
			rel := strings.TrimPrefix(strings.TrimPrefix(p.ImportPath, mainMod), "/")
			dst = filepath.Join(out, "cssc", rel)
		case p.Module.Path == xsync:
			haveXsync = true
			rel := strings.TrimPrefix(strings.TrimPrefix(p.ImportPath, xsync), "/")
			dst = filepath.Join(out, "xsync", rel)
		default:
			continue
		}
		if err := instrument(fset, exp, p, dst, stats); err != nil {
			return fmt.Errorf("%s: %v", p.ImportPath, err)
		}
		if p.Module.Main {
			mod, err := os.ReadFile(p.Module.GoMod)
			if err != nil {
				return err
			}
			if err := os.WriteFile(filepath.Join(out, "cssc", "go.mod"), mod, 0o644); err != nil {
				return err
			}
		} else {
			gv := p.Module.GoVersion
			if gv == "" {
				gv = "1.16"
			}
			if err := os.WriteFile(filepath.Join(out, "xsync", "go.mod"), []byte("module "+xsync+"\n\ngo "+gv+"\n"), 0o644); err != nil {
				return err
			}
		}
	}
	stats["have_xsync"] = 0
	if haveXsync {
		stats["have_xsync"] = 1
	}
	b, _ := json.MarshalIndent(stats, "", "  ")
	return os.WriteFile(filepath.Join(out, "instr.json"), append(b, '\n'), 0o644)
}

// writeMod writes the module file under which the simulator is built against the
// instrumented copies, with the dependency versions the module asks for.
func writeMod(repo, out, sim string) error {
	cmd := exec.Command("go", "mod", "edit", "-json")
	cmd.Dir = repo
	b, err := cmd.Output()
	if err != nil {
		return fmt.Errorf("go mod edit: %v", err)
	}
	var mod struct {
		Module  struct{ Path string }
		Require []struct {
			Path, Version string
			Indirect      bool
		}
		Replace []struct {
			Old, New struct{ Path, Version string }
		}
	}
	if err := json.Unmarshal(b, &mod); err != nil {
		return err
	}
	var w bytes.Buffer
	fmt.Fprintf(&w, "module verifsim\n\ngo 1.26\n\nrequire %s v0.0.0\n", mod.Module.Path)
	for _, r := range mod.Require {
		fmt.Fprintf(&w, "require %s %s\n", r.Path, r.Version)
	}
	fmt.Fprintf(&w, "replace %s => %s\n", mod.Module.Path, filepath.Join(out, "cssc"))
	if _, err := os.Stat(filepath.Join(out, "xsync")); err == nil {
		fmt.Fprintf(&w, "replace golang.org/x/sync => %s\n", filepath.Join(out, "xsync"))
	}
	for _, r := range mod.Replace {
		if r.Old.Path == "golang.org/x/sync" {
			continue
		}
		to := r.New.Path
		if strings.HasPrefix(to, ".") {
			to = filepath.Join(repo, to)
		}
		fmt.Fprintf(&w, "replace %s %s => %s %s\n", r.Old.Path, r.Old.Version, to, r.New.Version)
	}
	if err := os.WriteFile(filepath.Join(out, "sim.mod"), w.Bytes(), 0o644); err != nil {
		return err
	}
	sum, err := os.ReadFile(filepath.Join(repo, "go.sum"))
	if err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(out, "sim.sum"), sum, 0o644)
}

type rewriter struct {
	fset  *token.FileSet
	info  *types.Info
	pkg   *types.Package
	hot   bool
	n     int
	stats map[string]int
	used  bool
	// captured tells, per variable, the function literal or declaration it belongs to.
	fn    []ast.Node
	owner map[types.Object]ast.Node
}

func instrument(fset *token.FileSet, exp types.Importer, p *listPkg, dst string, stats map[string]int) error {
	var files []*ast.File
	var names []string
	for _, f := range p.GoFiles {
		af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.SkipObjectResolution)
		if err != nil {
			return err
		}
		files = append(files, af)
		names = append(names, f)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: exp, FakeImportC: true}
	if p.Module.GoVersion != "" {
		conf.GoVersion = "go" + p.Module.GoVersion
	}
	tp, err := conf.Check(p.ImportPath, fset, files, info)
	if err != nil {
		return fmt.Errorf("type check: %v", err)
	}
	hot := false
	for _, f := range files {
		for _, imp := range f.Imports {
			path, _ := strconv.Unquote(imp.Path.Value)
			if path == "sync" || path == "sync/atomic" || strings.HasPrefix(path, "golang.org/x/sync") {
				hot = true
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n.(type) {
			case *ast.GoStmt, *ast.SelectStmt, *ast.ChanType:
				hot = true
			}
			return true
		})
	}
	if err := os.MkdirAll(dst, 0o755); err != nil {
		return err
	}
	stats["packages"]++
	if hot {
		stats["hot_packages"]++
	}
	needTag := false
	if gv := p.Module.GoVersion; gv == "" || versionLess(gv, "1.21") {
		needTag = true
	}
	rs := planReset(tp, info, files)
	for i, f := range files {
		r := &rewriter{fset: fset, info: info, pkg: tp, hot: hot, stats: stats, owner: map[types.Object]ast.Node{}}
		r.file(f)
		f.Comments = keepDirectives(f)
		var buf bytes.Buffer
		if err := format.Node(&buf, fset, f); err != nil {
			return fmt.Errorf("%s: print: %v", names[i], err)
		}
		if err := rs.write(&buf, fset, i); err != nil {
			return fmt.Errorf("%s: print: %v", names[i], err)
		}
		src := buf.String()
		if needTag {
			// Allows generic calls without changing the loop variable semantics.
			src = "//go:build go1.21\n\n" + src
		}
		stats["files"]++
		if err := os.WriteFile(filepath.Join(dst, names[i]), []byte(src), 0o644); err != nil {
			return err
		}
	}
	if src := rs.source(tp); src != "" {
		if needTag {
			src = "//go:build go1.21\n\n" + src
		}
		if err := os.WriteFile(filepath.Join(dst, "zz_verif_reset.go"), []byte(src), 0o644); err != nil {
			return err
		}
	}
	for _, e := range p.EmbedFiles {
		b, err := os.ReadFile(filepath.Join(p.Dir, e))
		if err != nil {
			return err
		}
		os.MkdirAll(filepath.Dir(filepath.Join(dst, e)), 0o755)
		if err := os.WriteFile(filepath.Join(dst, e), b, 0o644); err != nil {
			return err
		}
	}
	return nil
}

// resetPlan is how a package's variables get back to what they are when a process
// starts: every simulated run is a process of its own.
type resetPlan struct {
	vars  []string // to zero
	inits []resetInit
	fns   []resetFn
}

type resetInit struct {
	file  int
	names []string
	spec  *ast.ValueSpec
	value int
}

type resetFn struct {
	file int
	name string
}

func planReset(tp *types.Package, info *types.Info, files []*ast.File) *resetPlan {
	rs := &resetPlan{}
	type at struct {
		file, value int
		spec        *ast.ValueSpec
	}
	where := map[types.Object]at{}
	embedded := map[string]bool{}
	for i, f := range files {
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil && d.Name.Name == "init" && d.Body != nil {
					d.Name = ast.NewIdent(fmt.Sprintf("verifInitFunc%d__", len(rs.fns)))
					rs.fns = append(rs.fns, resetFn{i, d.Name.Name})
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					v, ok := s.(*ast.ValueSpec)
					if !ok || d.Tok != token.VAR {
						continue
					}
					for _, g := range []*ast.CommentGroup{d.Doc, v.Doc} {
						if g == nil {
							continue
						}
						for _, c := range g.List {
							if strings.HasPrefix(c.Text, "//go:embed") {
								for _, n := range v.Names {
									embedded[n.Name] = true
								}
							}
						}
					}
					for k, n := range v.Names {
						if o := info.Defs[n]; o != nil && len(v.Values) > 0 {
							if len(v.Values) == 1 {
								k = 0
							}
							where[o] = at{i, k, v}
						}
					}
				}
			}
		}
	}
	for _, n := range tp.Scope().Names() {
		if _, ok := tp.Scope().Lookup(n).(*types.Var); ok && !embedded[n] {
			rs.vars = append(rs.vars, n)
		}
	}
	for _, in := range info.InitOrder {
		a, ok := where[in.Lhs[0]]
		if !ok {
			continue
		}
		x := resetInit{file: a.file, spec: a.spec, value: a.value}
		blank := true
		for _, l := range in.Lhs {
			x.names = append(x.names, l.Name())
			blank = blank && l.Name() == "_"
		}
		if blank {
			calls := false
			ast.Inspect(in.Rhs, func(n ast.Node) bool {
				if c, ok := n.(*ast.CallExpr); ok && !info.Types[c.Fun].IsType() {
					calls = true
				}
				return true
			})
			if !calls {
				continue
			}
		}
		rs.inits = append(rs.inits, x)
	}
	return rs
}

// write appends what one file contributes: the initialisers, as functions.
func (rs *resetPlan) write(w *bytes.Buffer, fset *token.FileSet, file int) error {
	for i, in := range rs.inits {
		if in.file != file {
			continue
		}
		fmt.Fprintf(w, "\nfunc verifInit%d__() {\n\t%s = ", i, strings.Join(in.names, ", "))
		if err := format.Node(w, fset, in.spec.Values[in.value]); err != nil {
			return err
		}
		w.WriteString("\n}\n")
	}
	for _, f := range rs.fns {
		if f.file == file {
			fmt.Fprintf(w, "\nfunc init() { %s() }\n", f.name)
		}
	}
	return nil
}

func (rs *resetPlan) source(tp *types.Package) string {
	if len(rs.vars) == 0 && len(rs.inits) == 0 && len(rs.fns) == 0 {
		return ""
	}
	var w strings.Builder
	fmt.Fprintf(&w, "package %s\n\nimport simrt__ \"verifsim/simrt\"\n\nfunc init() {\n\tsimrt__.OnStart(func() {\n", tp.Name())
	for _, v := range rs.vars {
		fmt.Fprintf(&w, "\t\tsimrt__.Zero(&%s)\n", v)
	}
	for i := range rs.inits {
		fmt.Fprintf(&w, "\t\tverifInit%d__()\n", i)
	}
	for _, f := range rs.fns {
		fmt.Fprintf(&w, "\t\t%s()\n", f.name)
	}
	w.WriteString("\t})\n}\n")
	return w.String()
}

func versionLess(a, b string) bool {
	pa, pb := strings.Split(a, "."), strings.Split(b, ".")
	for i := 0; i < len(pa) && i < len(pb); i++ {
		x, _ := strconv.Atoi(pa[i])
		y, _ := strconv.Atoi(pb[i])
		if x != y {
			return x < y
		}
	}
	return len(pa) < len(pb)
}

// keepDirectives drops comments (their positions no longer fit), except directives
// attached to declarations.
func keepDirectives(f *ast.File) []*ast.CommentGroup {
	drop := func(g *ast.CommentGroup) *ast.CommentGroup {
		if g == nil {
			return nil
		}
		var keep []*ast.Comment
		for _, c := range g.List {
			if strings.HasPrefix(c.Text, "//go:embed") || strings.HasPrefix(c.Text, "//go:noinline") || strings.HasPrefix(c.Text, "//go:linkname") {
				keep = append(keep, c)
			}
		}
		if len(keep) == 0 {
			return nil
		}
		return &ast.CommentGroup{List: keep}
	}
	var out []*ast.CommentGroup
	f.Doc = nil
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncDecl:
			n.Doc = drop(n.Doc)
			if n.Doc != nil {
				out = append(out, n.Doc)
			}
		case *ast.GenDecl:
			n.Doc = drop(n.Doc)
			if n.Doc != nil {
				out = append(out, n.Doc)
			}
		case *ast.ValueSpec:
			n.Doc = drop(n.Doc)
			n.Comment = nil
			if n.Doc != nil {
				out = append(out, n.Doc)
			}
		case *ast.TypeSpec:
			n.Doc, n.Comment = nil, nil
		case *ast.Field:
			n.Doc, n.Comment = nil, nil
		case *ast.ImportSpec:
			n.Doc, n.Comment = nil, nil
		}
		return true
	})
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

func (r *rewriter) file(f *ast.File) {
	for _, imp := range f.Imports {
		path, _ := strconv.Unquote(imp.Path.Value)
		if to, ok := replaced[path]; ok {
			if imp.Name == nil {
				base := path[strings.LastIndex(path, "/")+1:]
				if base == "v2" {
					base = "rand"
				}
				imp.Name = ast.NewIdent(base)
			}
			imp.Path = &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(to)}
			imp.EndPos = token.NoPos
			r.stats["imports_replaced"]++
		}
	}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Body != nil {
				r.own(d, d.Recv, d.Type.Params, d.Type.Results)
				r.fn = append(r.fn, d)
				r.block(d.Body)
				r.fn = r.fn[:len(r.fn)-1]
			}
		case *ast.GenDecl:
			for _, s := range d.Specs {
				if v, ok := s.(*ast.ValueSpec); ok {
					for i := range v.Values {
						v.Values[i] = r.expr(v.Values[i])
					}
				}
			}
		}
	}
	if r.used {
		spec := &ast.ImportSpec{Name: ast.NewIdent("simrt__"), Path: &ast.BasicLit{Kind: token.STRING, Value: `"verifsim/simrt"`}}
		decl := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}
		f.Decls = append([]ast.Decl{decl}, f.Decls...)
		f.Imports = append(f.Imports, spec)
	}
}

func (r *rewriter) own(fn ast.Node, lists ...*ast.FieldList) {
	for _, l := range lists {
		if l == nil {
			continue
		}
		for _, f := range l.List {
			for _, n := range f.Names {
				if o := r.info.Defs[n]; o != nil {
					r.owner[o] = fn
				}
			}
		}
	}
}

func (r *rewriter) sim(name string) ast.Expr {
	r.used = true
	return &ast.SelectorExpr{X: ast.NewIdent("simrt__"), Sel: ast.NewIdent(name)}
}

func (r *rewriter) call(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: r.sim(name), Args: args}
}

// send takes the value in a second call: there, it is converted to the element type.
func (r *rewriter) send(name string, ch, v ast.Expr) ast.Expr {
	return &ast.CallExpr{Fun: r.call(name, r.expr(ch)), Args: []ast.Expr{r.expr(v)}}
}

func (r *rewriter) yield() ast.Stmt {
	if r.hot {
		r.stats["hot_yields"]++
		return &ast.ExprStmt{X: r.call("Y")}
	}
	r.stats["light_yields"]++
	return &ast.ExprStmt{X: r.call("L")}
}

func (r *rewriter) tmp(prefix string) *ast.Ident {
	r.n++
	return ast.NewIdent(fmt.Sprintf("%s__%d", prefix, r.n))
}

func define(lhs ast.Expr, rhs ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{lhs}, Tok: token.DEFINE, Rhs: []ast.Expr{rhs}}
}

func (r *rewriter) block(b *ast.BlockStmt) {
	if b == nil {
		return
	}
	b.List = r.list(b.List)
	if len(b.List) == 0 {
		b.List = []ast.Stmt{r.yield()}
	}
}

func (r *rewriter) list(in []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range in {
		switch s.(type) {
		case *ast.EmptyStmt:
			continue
		}
		if b, ok := s.(*ast.BranchStmt); !ok || b.Tok != token.FALLTHROUGH {
			out = append(out, r.yield())
		}
		out = append(out, r.stmt(s)...)
	}
	return out
}

// one rewrites a statement that has to stay a single one (init and post statements).
func (r *rewriter) one(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	switch s := s.(type) {
	case *ast.AssignStmt:
		r.assignExprs(s)
		return s
	case *ast.IncDecStmt:
		s.X = r.expr(s.X)
		return s
	case *ast.ExprStmt:
		s.X = r.expr(s.X)
		return s
	case *ast.SendStmt:
		return &ast.ExprStmt{X: r.send("SendTo", s.Chan, s.Value)}
	}
	return s
}

func (r *rewriter) assignExprs(s *ast.AssignStmt) {
	if s.Tok == token.DEFINE {
		for _, l := range s.Lhs {
			if id, ok := l.(*ast.Ident); ok {
				if o := r.info.Defs[id]; o != nil && len(r.fn) > 0 {
					r.owner[o] = r.fn[len(r.fn)-1]
				}
			}
		}
	}
	// v, ok := <-ch
	if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
		if u, ok := unparen(s.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			s.Rhs[0] = r.call("Recv2", r.expr(u.X))
			r.stats["chan_ops"]++
			for i := range s.Lhs {
				s.Lhs[i] = r.expr(s.Lhs[i])
			}
			return
		}
	}
	for i := range s.Rhs {
		s.Rhs[i] = r.expr(s.Rhs[i])
	}
	for i := range s.Lhs {
		s.Lhs[i] = r.expr(s.Lhs[i])
	}
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

// shared reports whether evaluating e reads or writes memory another goroutine may
// see, and whether evaluating it twice is harmless.
func (r *rewriter) shared(e ast.Expr) bool {
	switch e := unparen(e).(type) {
	case *ast.Ident:
		o := r.info.Uses[e]
		v, ok := o.(*types.Var)
		if !ok || v.IsField() {
			return false
		}
		if v.Parent() == r.pkg.Scope() {
			return true
		}
		own, known := r.owner[o]
		return known && len(r.fn) > 0 && own != r.fn[len(r.fn)-1]
	case *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr:
		return true
	}
	return false
}

func pure(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr, *ast.FuncLit, *ast.CompositeLit, *ast.TypeAssertExpr, *ast.SliceExpr:
			ok = false
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				ok = false
			}
		}
		return ok
	})
	return ok
}

func (r *rewriter) isMapElem(e ast.Expr) bool {
	ix, ok := unparen(e).(*ast.IndexExpr)
	if !ok {
		return false
	}
	t := r.info.Types[ix.X].Type
	if t == nil {
		return false
	}
	_, isMap := t.Underlying().(*types.Map)
	return isMap
}

func (r *rewriter) stmt(s ast.Stmt) []ast.Stmt {
	switch s := s.(type) {
	case *ast.BlockStmt:
		r.block(s)
	case *ast.LabeledStmt:
		inner := r.stmt(s.Stmt)
		if len(inner) == 1 {
			s.Stmt = inner[0]
			return []ast.Stmt{s}
		}
		// The label belongs to the last statement (a loop, switch or select).
		s.Stmt = inner[len(inner)-1]
		return append(inner[:len(inner)-1:len(inner)-1], s)
	case *ast.IfStmt:
		s.Init = r.one(s.Init)
		s.Cond = r.expr(s.Cond)
		r.block(s.Body)
		if s.Else != nil {
			s.Else = r.stmt(s.Else)[0]
		}
	case *ast.ForStmt:
		s.Init = r.one(s.Init)
		if s.Cond != nil {
			s.Cond = r.expr(s.Cond)
		}
		s.Post = r.one(s.Post)
		r.block(s.Body)
	case *ast.RangeStmt:
		return r.rangeStmt(s)
	case *ast.SwitchStmt:
		s.Init = r.one(s.Init)
		if s.Tag != nil {
			s.Tag = r.expr(s.Tag)
		}
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			for i := range cc.List {
				cc.List[i] = r.expr(cc.List[i])
			}
			cc.Body = r.list(cc.Body)
		}
	case *ast.TypeSwitchStmt:
		s.Init = r.one(s.Init)
		s.Assign = r.one(s.Assign)
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			cc.Body = r.list(cc.Body)
		}
	case *ast.SelectStmt:
		return r.selectStmt(s)
	case *ast.GoStmt:
		return r.goStmt(s)
	case *ast.DeferStmt:
		s.Call = r.expr(s.Call).(*ast.CallExpr)
	case *ast.ReturnStmt:
		for i := range s.Results {
			s.Results[i] = r.expr(s.Results[i])
		}
	case *ast.SendStmt:
		r.stats["chan_ops"]++
		return []ast.Stmt{&ast.ExprStmt{X: r.send("SendTo", s.Chan, s.Value)}}
	case *ast.ExprStmt:
		s.X = r.expr(s.X)
	case *ast.DeclStmt:
		if g, ok := s.Decl.(*ast.GenDecl); ok {
			for _, sp := range g.Specs {
				if v, ok := sp.(*ast.ValueSpec); ok {
					for _, n := range v.Names {
						if o := r.info.Defs[n]; o != nil && len(r.fn) > 0 {
							r.owner[o] = r.fn[len(r.fn)-1]
						}
					}
					if len(v.Names) == 2 && len(v.Values) == 1 {
						if u, ok := unparen(v.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
							v.Values[0] = r.call("Recv2", r.expr(u.X))
							continue
						}
					}
					for i := range v.Values {
						v.Values[i] = r.expr(v.Values[i])
					}
				}
			}
		}
	case *ast.IncDecStmt:
		if r.hot && r.shared(s.X) && pure(s.X) {
			t := r.tmp("rmw")
			op := token.ADD
			if s.Tok == token.DEC {
				op = token.SUB
			}
			r.stats["split_rmw"]++
			return []ast.Stmt{&ast.BlockStmt{List: []ast.Stmt{
				define(t, s.X), r.yield(),
				&ast.AssignStmt{Lhs: []ast.Expr{s.X}, Tok: token.ASSIGN, Rhs: []ast.Expr{
					&ast.BinaryExpr{X: t, Op: op, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}}},
			}}}
		}
		s.X = r.expr(s.X)
	case *ast.AssignStmt:
		return r.assign(s)
	}
	return []ast.Stmt{s}
}

var opOf = map[token.Token]token.Token{
	token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL,
	token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND,
	token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR, token.AND_NOT_ASSIGN: token.AND_NOT,
}

func (r *rewriter) assign(s *ast.AssignStmt) []ast.Stmt {
	if r.hot && len(s.Lhs) == 1 && len(s.Rhs) == 1 && r.shared(s.Lhs[0]) && pure(s.Lhs[0]) {
		lhs := s.Lhs[0]
		if op, ok := opOf[s.Tok]; ok {
			t := r.tmp("rmw")
			r.stats["split_rmw"]++
			rhs := r.expr(s.Rhs[0])
			return []ast.Stmt{&ast.BlockStmt{List: []ast.Stmt{
				define(t, lhs), r.yield(),
				&ast.AssignStmt{Lhs: []ast.Expr{lhs}, Tok: token.ASSIGN, Rhs: []ast.Expr{
					&ast.BinaryExpr{X: t, Op: op, Y: &ast.ParenExpr{X: rhs}}}},
			}}}
		}
		tv := r.info.Types[s.Rhs[0]]
		if s.Tok == token.ASSIGN && tv.Type != nil && tv.Value == nil && !tv.IsNil() {
			if b, ok := tv.Type.(*types.Basic); (!ok || b.Info()&types.IsUntyped == 0) && r.splittable(s.Rhs[0]) {
				t := r.tmp("val")
				r.stats["split_assign"]++
				rhs := r.expr(s.Rhs[0])
				return []ast.Stmt{&ast.BlockStmt{List: []ast.Stmt{
					define(t, rhs), r.yield(),
					&ast.AssignStmt{Lhs: []ast.Expr{lhs}, Tok: token.ASSIGN, Rhs: []ast.Expr{t}},
				}}}
			}
		}
	}
	r.assignExprs(s)
	return []ast.Stmt{s}
}

// splittable: worth a yield between computing the value and storing it.
func (r *rewriter) splittable(e ast.Expr) bool {
	switch e := unparen(e).(type) {
	case *ast.CallExpr, *ast.BinaryExpr, *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr:
		return true
	case *ast.Ident:
		return r.shared(e)
	}
	return false
}

func (r *rewriter) goStmt(s *ast.GoStmt) []ast.Stmt {
	r.stats["go_statements"]++
	call := s.Call
	if lit, ok := call.Fun.(*ast.FuncLit); ok && len(call.Args) == 0 {
		return []ast.Stmt{&ast.ExprStmt{X: r.call("Go", r.funcLit(lit, true))}}
	}
	// The function value and the arguments are evaluated by the go statement itself.
	var out []ast.Stmt
	fun := call.Fun
	isBuiltin := false
	if id, ok := unparen(fun).(*ast.Ident); ok {
		_, isBuiltin = r.info.Uses[id].(*types.Builtin)
	}
	if !isBuiltin {
		f := r.tmp("gofn")
		out = append(out, define(f, r.expr(fun)))
		fun = f
	}
	args := make([]ast.Expr, len(call.Args))
	for i, a := range call.Args {
		tv := r.info.Types[a]
		if tv.IsNil() || tv.Value != nil {
			args[i] = r.expr(a)
			continue
		}
		t := r.tmp("goarg")
		out = append(out, define(t, r.expr(a)))
		args[i] = t
	}
	inner := &ast.CallExpr{Fun: fun, Args: args}
	if call.Ellipsis.IsValid() {
		inner.Ellipsis = 1
	}
	lit := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{r.yield(), &ast.ExprStmt{X: inner}}}}
	out = append(out, &ast.ExprStmt{X: r.call("Go", lit)})
	return []ast.Stmt{&ast.BlockStmt{List: out}}
}

// funcLit rewrites a function literal; dropResults makes it usable as func().
func (r *rewriter) funcLit(l *ast.FuncLit, dropResults bool) ast.Expr {
	r.own(l, l.Type.Params, l.Type.Results)
	r.fn = append(r.fn, l)
	r.block(l.Body)
	r.fn = r.fn[:len(r.fn)-1]
	if dropResults && l.Type.Results != nil && len(l.Type.Results.List) > 0 {
		return &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{
			&ast.ExprStmt{X: &ast.CallExpr{Fun: l}}}}}
	}
	return l
}

func isBlank(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)
	return e == nil || ok && id.Name == "_"
}

func (r *rewriter) rangeStmt(s *ast.RangeStmt) []ast.Stmt {
	var under types.Type
	if t := r.info.Types[s.X].Type; t != nil {
		under = t.Underlying()
	}
	if s.Tok == token.DEFINE {
		for _, e := range []ast.Expr{s.Key, s.Value} {
			if id, ok := e.(*ast.Ident); ok {
				if o := r.info.Defs[id]; o != nil && len(r.fn) > 0 {
					r.owner[o] = r.fn[len(r.fn)-1]
				}
			}
		}
	}
	switch under.(type) {
	case *types.Map:
		r.stats["map_ranges"]++
		if s.Tok == token.DEFINE && !(isBlank(s.Key) && isBlank(s.Value)) {
			// Three-clause loops have the loop variable semantics of the module's Go
			// version, like the range statement they replace.
			key, val := s.Key, s.Value
			if isBlank(key) {
				key = r.tmp("k")
			}
			if isBlank(val) {
				val = r.tmp("v")
			}
			it := r.tmp("it")
			x := r.expr(s.X)
			r.block(s.Body)
			addr := func(e ast.Expr) ast.Expr { return &ast.UnaryExpr{Op: token.AND, X: e} }
			return []ast.Stmt{&ast.ForStmt{
				Init: &ast.AssignStmt{Lhs: []ast.Expr{key, val, it}, Tok: token.DEFINE, Rhs: []ast.Expr{r.call("Iter", x)}},
				Cond: &ast.CallExpr{Fun: &ast.SelectorExpr{X: it, Sel: ast.NewIdent("Next")}, Args: []ast.Expr{addr(key), addr(val)}},
				Body: s.Body,
			}}
		}
		m, k := r.tmp("m"), r.tmp("k")
		pre := define(m, r.expr(s.X))
		if s.Key != nil {
			s.Key = r.expr(s.Key)
		}
		if s.Value != nil {
			s.Value = r.expr(s.Value)
		}
		r.block(s.Body)
		body := []ast.Stmt{&ast.IfStmt{
			Cond: &ast.UnaryExpr{Op: token.NOT, X: r.call("Has", m, k)},
			Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}},
		}}
		if !isBlank(s.Key) {
			body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{s.Key}, Tok: token.ASSIGN, Rhs: []ast.Expr{k}})
		}
		if !isBlank(s.Value) {
			body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{s.Value}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.IndexExpr{X: m, Index: k}}})
		}
		return []ast.Stmt{pre, &ast.RangeStmt{Key: ast.NewIdent("_"), Value: k, Tok: token.DEFINE, X: r.call("Keys", m),
			Body: &ast.BlockStmt{List: append(body, s.Body.List...)}}}
	case *types.Chan:
		r.stats["chan_ops"]++
		ch := r.tmp("ch")
		x := r.expr(s.X)
		r.block(s.Body)
		// As with maps, a three-clause loop keeps the loop variable's scope.
		v := ast.Expr(r.tmp("v"))
		switch {
		case isBlank(s.Key):
		case s.Tok == token.ASSIGN:
			s.Body.List = append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{s.Key}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}}}, s.Body.List...)
		default:
			v = s.Key
		}
		return []ast.Stmt{&ast.ForStmt{
			Init: &ast.AssignStmt{Lhs: []ast.Expr{v, ch}, Tok: token.DEFINE, Rhs: []ast.Expr{r.call("Range", x)}},
			Cond: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ch, Sel: ast.NewIdent("Next")}, Args: []ast.Expr{&ast.UnaryExpr{Op: token.AND, X: v}}},
			Body: s.Body,
		}}
	}
	s.X = r.expr(s.X)
	if s.Key != nil {
		s.Key = r.expr(s.Key)
	}
	if s.Value != nil {
		s.Value = r.expr(s.Value)
	}
	r.block(s.Body)
	return []ast.Stmt{s}
}

func (r *rewriter) selectStmt(s *ast.SelectStmt) []ast.Stmt {
	r.stats["selects"]++
	sel := r.tmp("sel")
	hasDefault := "false"
	var cases []ast.Expr
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	idx := 0
	var pre []ast.Stmt
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		clause := &ast.CaseClause{}
		var head []ast.Stmt
		switch comm := cc.Comm.(type) {
		case nil:
			hasDefault = "true"
			clause.List = nil
			clause.Body = r.list(cc.Body)
			sw.Body.List = append(sw.Body.List, clause)
			continue
		case *ast.SendStmt:
			cases = append(cases, r.send("SendCaseTo", comm.Chan, comm.Value))
		case *ast.ExprStmt:
			u := unparen(comm.X).(*ast.UnaryExpr)
			cases = append(cases, r.call("RecvCase", r.expr(u.X)))
		case *ast.AssignStmt:
			u := unparen(comm.Rhs[0]).(*ast.UnaryExpr)
			ch := r.tmp("selch")
			pre = append(pre, define(ch, r.expr(u.X)))
			cases = append(cases, r.call("RecvCase", ch))
			if comm.Tok == token.DEFINE {
				for _, l := range comm.Lhs {
					if id, ok := l.(*ast.Ident); ok {
						if o := r.info.Defs[id]; o != nil && len(r.fn) > 0 {
							r.owner[o] = r.fn[len(r.fn)-1]
						}
					}
				}
			}
			lhs := append([]ast.Expr{}, comm.Lhs...)
			if len(lhs) == 1 {
				lhs = append(lhs, ast.NewIdent("_"))
			}
			head = append(head, &ast.AssignStmt{Lhs: lhs, Tok: comm.Tok, Rhs: []ast.Expr{r.call("RecvVal", ch, sel)}})
		}
		clause.List = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(idx)}}
		idx++
		clause.Body = append(head, r.list(cc.Body)...)
		sw.Body.List = append(sw.Body.List, clause)
	}
	args := append([]ast.Expr{ast.NewIdent(hasDefault)}, cases...)
	if idx == 0 && hasDefault == "false" {
		return []ast.Stmt{&ast.ForStmt{Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: r.call("Select", args...)}}}}}
	}
	if hasDefault == "false" {
		// A switch only terminates a function, like the select did, if it has a default.
		sw.Body.List[len(sw.Body.List)-1].(*ast.CaseClause).List = nil
	}
	sw.Init = define(sel, r.call("Select", args...))
	sw.Tag = &ast.SelectorExpr{X: sel, Sel: ast.NewIdent("Idx")}
	return append(pre, sw)
}

// expr rewrites an expression in place: function literals, receives, close.
func (r *rewriter) expr(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case nil:
		return nil
	case *ast.FuncLit:
		return r.funcLit(e, false)
	case *ast.ParenExpr:
		e.X = r.expr(e.X)
	case *ast.UnaryExpr:
		if e.Op == token.ARROW {
			r.stats["chan_ops"]++
			return r.call("Recv", r.expr(e.X))
		}
		e.X = r.expr(e.X)
	case *ast.BinaryExpr:
		e.X, e.Y = r.expr(e.X), r.expr(e.Y)
	case *ast.CallExpr:
		if id, ok := unparen(e.Fun).(*ast.Ident); ok && id.Name == "close" && len(e.Args) == 1 {
			if _, b := r.info.Uses[id].(*types.Builtin); b {
				r.stats["chan_ops"]++
				return r.call("Close", r.expr(e.Args[0]))
			}
		}
		e.Fun = r.expr(e.Fun)
		for i := range e.Args {
			e.Args[i] = r.expr(e.Args[i])
		}
	case *ast.SelectorExpr:
		e.X = r.expr(e.X)
	case *ast.IndexExpr:
		e.X, e.Index = r.expr(e.X), r.expr(e.Index)
	case *ast.SliceExpr:
		e.X = r.expr(e.X)
		if e.Low != nil {
			e.Low = r.expr(e.Low)
		}
		if e.High != nil {
			e.High = r.expr(e.High)
		}
		if e.Max != nil {
			e.Max = r.expr(e.Max)
		}
	case *ast.StarExpr:
		e.X = r.expr(e.X)
	case *ast.TypeAssertExpr:
		e.X = r.expr(e.X)
	case *ast.CompositeLit:
		for i := range e.Elts {
			e.Elts[i] = r.expr(e.Elts[i])
		}
	case *ast.KeyValueExpr:
		// The key may be a field name.
		if _, ok := e.Key.(*ast.Ident); !ok {
			e.Key = r.expr(e.Key)
		}
		e.Value = r.expr(e.Value)
	}
	return e
}
