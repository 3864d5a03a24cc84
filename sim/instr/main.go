// Command simtool copies a Go module, rewrites it to run under the simulator
// (simrt) and lays the simulator, the shims and the harness beside it.
//
//	simtool -repo /repo -sim /verif/sim -out DIR [-race]
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
)

const mod = "github.com/xtfly/log4g"
const zz = mod + "/zzsim"

// shims maps import paths to shim directories.
var shims = map[string]string{
	"os": "os", "io/ioutil": "ioutil", "path/filepath": "filepath", "time": "time", "sync": "sync",
	"sync/atomic": "atomic", "os/signal": "signal", "log": "log", "log/syslog": "syslog", "net": "net",
	"math/rand": "rand", "crypto/rand": "crand", "runtime": "runtime", "context": "context",
	"bytes": "bytes", "bufio": "bufio", "strings": "strings",
}

// copied lists the standard packages whose source is instrumented itself; with
// file names only those files are taken and the rest is passed through.
var copied = map[string][]string{"log/syslog": nil, "context": nil, "bufio": nil, "bytes": {"buffer.go"}}

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "simtool: "+f+"\n", a...)
	os.Exit(3)
}

func must(err error) {
	if err != nil {
		die("%v", err)
	}
}

func main() {
	repo := flag.String("repo", "/repo", "")
	sim := flag.String("sim", "/verif/sim", "")
	out := flag.String("out", "", "")
	fallback := flag.Bool("fallback", false, "stub for the in-package driver")
	flag.Parse()
	if *out == "" {
		die("no -out")
	}
	must(os.MkdirAll(*out, 0755))
	pkgs := copyRepo(*repo, *out)
	exports := goList(*out, pkgs)
	goroot := strings.TrimSpace(run(*out, "go", "env", "GOROOT"))

	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := exports[path]
		if !ok || f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	// shims
	copyDir(filepath.Join(*sim, "rt"), filepath.Join(*out, "zzsim/simrt"))
	copyDir(filepath.Join(*sim, "harness"), filepath.Join(*out, "zzsim/harness"))
	copyDir(filepath.Join(*sim, "cmd"), filepath.Join(*out, "zzsim/cmd"))
	var names []string
	for p := range shims {
		names = append(names, p)
	}
	sort.Strings(names)
	for _, p := range names {
		dst := filepath.Join(*out, "zzsim/shim", shims[p])
		must(os.MkdirAll(dst, 0755))
		if only, ok := copied[p]; ok {
			src := filepath.Join(goroot, "src", p)
			es, err := os.ReadDir(src)
			must(err)
			var files []string
			for _, e := range es {
				n := e.Name()
				if len(only) > 0 && n != only[0] {
					continue
				}
				if strings.HasSuffix(n, ".go") && !strings.HasSuffix(n, "_test.go") && n != "doc.go" {
					b, err := os.ReadFile(filepath.Join(src, n))
					must(err)
					if p == "context" {
						b = bytes.ReplaceAll(b, []byte(`"internal/reflectlite"`), []byte(`reflectlite "reflect"`))
					}
					must(os.WriteFile(filepath.Join(dst, n), b, 0644))
					files = append(files, filepath.Join(dst, n))
				}
			}
			if len(only) > 0 {
				passThrough(fset, imp, p, dst)
				files = append(files, filepath.Join(dst, "zz_gen.go"))
			}
			instrument(fset, imp, zz+"/shim/"+shims[p], dst, files, true)
			continue
		}
		copyDir(filepath.Join(*sim, "shim", shims[p]), dst)
		passThrough(fset, imp, p, dst)
	}
	for _, p := range pkgs {
		dir := filepath.Join(*out, strings.TrimPrefix(strings.TrimPrefix(p, mod), "/"))
		fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
		var files []string
		for _, f := range fs {
			if match(f) {
				files = append(files, f)
			} else {
				os.Remove(f)
			}
		}
		instrument(fset, imp, p, dir, files, false)
	}
	// in-package driver files
	drv := filepath.Join(*sim, "driver")
	if es, err := os.ReadDir(drv); err == nil {
		for _, e := range es {
			// where the driver does not build any more a stub takes its place
			if filepath.Ext(e.Name()) != map[bool]string{false: ".txt", true: ".fallback"}[*fallback] {
				continue
			}
			b, err := os.ReadFile(filepath.Join(drv, e.Name()))
			must(err)
			name := strings.TrimSuffix(e.Name(), filepath.Ext(e.Name()))
			i := strings.Index(name, "__")
			must(os.WriteFile(filepath.Join(*out, strings.ReplaceAll(name[:i], "_", "/"), "zz_"+name[i+2:]), b, 0644))
		}
	}
}

func run(dir, name string, args ...string) string {
	c := exec.Command(name, args...)
	c.Dir = dir
	c.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GO111MODULE=on", "GOWORK=off")
	var eb bytes.Buffer
	c.Stderr = &eb
	b, err := c.Output()
	if err != nil {
		die("%s %v: %v\n%s", name, args, err, eb.String())
	}
	return string(b)
}

func copyDir(src, dst string) {
	must(os.MkdirAll(dst, 0755))
	es, err := os.ReadDir(src)
	must(err)
	for _, e := range es {
		if e.IsDir() {
			copyDir(filepath.Join(src, e.Name()), filepath.Join(dst, e.Name()))
			continue
		}
		if strings.HasSuffix(e.Name(), "_test.go") {
			continue
		}
		b, err := os.ReadFile(filepath.Join(src, e.Name()))
		must(err)
		must(os.WriteFile(filepath.Join(dst, e.Name()), b, 0644))
	}
}

// match applies file name and //go:build constraints roughly: GOOS/GOARCH suffixes.
func match(f string) bool {
	n := strings.TrimSuffix(filepath.Base(f), ".go")
	parts := strings.Split(n, "_")
	known := map[string]bool{"windows": true, "darwin": true, "freebsd": true, "plan9": true, "js": true, "wasm": true, "arm64": true, "386": true, "arm": true, "netbsd": true, "openbsd": true, "solaris": true, "aix": true}
	for _, p := range parts[1:] {
		if known[p] && p != runtime.GOARCH && p != runtime.GOOS {
			return false
		}
	}
	b, err := os.ReadFile(f)
	must(err)
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "package ") {
			break
		}
		if strings.HasPrefix(l, "//go:build ") {
			return evalBuild(strings.TrimPrefix(l, "//go:build "))
		}
	}
	return true
}

func evalBuild(x string) bool {
	e, err := parser.ParseExpr(strings.NewReplacer(".", "_").Replace(x))
	if err != nil {
		return true
	}
	var ev func(e ast.Expr) bool
	ev = func(e ast.Expr) bool {
		switch e := e.(type) {
		case *ast.ParenExpr:
			return ev(e.X)
		case *ast.UnaryExpr:
			return !ev(e.X)
		case *ast.BinaryExpr:
			if e.Op == token.LAND {
				return ev(e.X) && ev(e.Y)
			}
			return ev(e.X) || ev(e.Y)
		case *ast.Ident:
			switch e.Name {
			case "linux", "unix", "amd64", "gc", "cgo":
				return true
			}
			return strings.HasPrefix(e.Name, "go1_")
		}
		return true
	}
	return ev(e)
}

// copyRepo copies the non-test sources of the library packages and returns their import paths.
func copyRepo(repo, out string) []string {
	var pkgs []string
	must(filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		must(err)
		rel, _ := filepath.Rel(repo, p)
		if fi.IsDir() {
			b := fi.Name()
			if rel != "." && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "vendor") {
				return filepath.SkipDir
			}
			gs, _ := filepath.Glob(filepath.Join(p, "*.go"))
			var use []string
			skip := false
			for _, g := range gs {
				if strings.HasSuffix(g, "_test.go") || !match(g) {
					continue
				}
				f, err := parser.ParseFile(token.NewFileSet(), g, nil, parser.ImportsOnly)
				if err != nil {
					die("%v", err)
				}
				if f.Name.Name == "main" {
					skip = true
				}
				for _, im := range f.Imports {
					if im.Path.Value == `"testing"` {
						skip = true
					}
				}
				use = append(use, g)
			}
			if len(use) == 0 || skip {
				return nil
			}
			dst := filepath.Join(out, rel)
			must(os.MkdirAll(dst, 0755))
			for _, g := range use {
				b, err := os.ReadFile(g)
				must(err)
				must(os.WriteFile(filepath.Join(dst, filepath.Base(g)), b, 0644))
			}
			if rel == "." {
				pkgs = append(pkgs, mod)
			} else {
				pkgs = append(pkgs, mod+"/"+filepath.ToSlash(rel))
			}
		}
		return nil
	}))
	gm, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	must(err)
	var nm []string
	for _, l := range strings.Split(string(gm), "\n") {
		if strings.HasPrefix(strings.TrimSpace(l), "go ") || strings.Contains(l, "toolchain ") {
			continue
		}
		nm = append(nm, l)
	}
	must(os.WriteFile(filepath.Join(out, "go.mod"), []byte(strings.Join(nm, "\n")+"\ngo 1.21\n"), 0644))
	gs, err := os.ReadFile(filepath.Join(repo, "go.sum"))
	must(err)
	must(os.WriteFile(filepath.Join(out, "go.sum"), gs, 0644))
	return pkgs
}

func goList(out string, pkgs []string) map[string]string {
	args := []string{"list", "-export", "-deps", "-json=ImportPath,Export"}
	args = append(args, pkgs...)
	var std []string
	for p := range shims {
		std = append(std, p)
	}
	args = append(args, std...)
	args = append(args, "reflect", "internal/reflectlite")
	txt := run(out, "go", args...)
	ex := map[string]string{}
	d := json.NewDecoder(strings.NewReader(txt))
	for {
		var x struct{ ImportPath, Export string }
		if err := d.Decode(&x); err != nil {
			break
		}
		ex[x.ImportPath] = x.Export
	}
	return ex
}

// passThrough re-exports what the hand-written shim does not define.
func passThrough(fset *token.FileSet, imp types.Importer, path, dir string) {
	have := map[string]bool{}
	fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, f := range fs {
		if filepath.Base(f) == "zz_gen.go" {
			continue
		}
		a, err := parser.ParseFile(token.NewFileSet(), f, nil, 0)
		must(err)
		for _, d := range a.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil {
					have[d.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.TypeSpec:
						have[s.Name.Name] = true
					case *ast.ValueSpec:
						for _, n := range s.Names {
							have[n.Name] = true
						}
					}
				}
			}
		}
	}
	p, err := imp.Import(path)
	must(err)
	var b bytes.Buffer
	fmt.Fprintf(&b, "package %s\n\nimport orig %q\n\n", p.Name(), path)
	n := 0
	for _, name := range p.Scope().Names() {
		o := p.Scope().Lookup(name)
		if !o.Exported() || have[name] {
			continue
		}
		switch o := o.(type) {
		case *types.Const:
			fmt.Fprintf(&b, "const %s = orig.%s\n", name, name)
		case *types.Var:
			fmt.Fprintf(&b, "var %s = orig.%s\n", name, name)
		case *types.TypeName:
			if nt, ok := o.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "type %s = orig.%s\n", name, name)
		case *types.Func:
			if o.Type().(*types.Signature).TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "var %s = orig.%s\n", name, name)
		}
		n++
	}
	if n == 0 {
		return
	}
	must(os.WriteFile(filepath.Join(dir, "zz_gen.go"), b.Bytes(), 0644))
}

// ---- instrumentation ----

type edit struct {
	pos, end int // replace [pos,end)
	text     string
	seq      int
}

type file struct {
	name  string
	src   []byte
	ast   *ast.File
	tf    *token.File
	edits []edit
	tail  bytes.Buffer
}

type inst struct {
	fset  *token.FileSet
	info  *types.Info
	pkg   *types.Package
	base  int
	sites []string
	uniq  int
	f     *file
	lhs   map[*ast.IndexExpr]bool
	lbl   map[ast.Stmt]*ast.LabeledStmt
}

func (f *file) off(p token.Pos) int { return f.tf.Offset(p) }

func (f *file) ins(p token.Pos, text string) {
	f.edits = append(f.edits, edit{f.off(p), f.off(p), text, len(f.edits)})
}
func (f *file) rep(a, b token.Pos, text string) {
	f.edits = append(f.edits, edit{f.off(a), f.off(b), text, len(f.edits)})
}

// render applies the edits inside [a,b).
func (f *file) render(a, b int, incl bool) string {
	var es []edit
	for _, e := range f.edits {
		if e.pos >= a && e.end <= b && (incl || !(e.pos == b && e.end == b)) {
			es = append(es, e)
		}
	}
	sort.SliceStable(es, func(i, j int) bool {
		if es[i].pos != es[j].pos {
			return es[i].pos < es[j].pos
		}
		// insertions before replacements at the same place
		zi, zj := es[i].end > es[i].pos, es[j].end > es[j].pos
		if zi != zj {
			return !zi
		}
		// of closing texts the innermost, which was inserted last, comes first
		ci, cj := !zi && strings.HasPrefix(es[i].text, ")"), !zj && strings.HasPrefix(es[j].text, ")")
		if ci != cj {
			return ci
		}
		if ci {
			return es[i].seq > es[j].seq
		}
		return es[i].seq < es[j].seq
	})
	var o bytes.Buffer
	p := a
	for _, e := range es {
		if e.pos < p {
			if e.end <= p {
				continue // inside a replaced range
			}
			die("%s: overlapping edits at offset %d", f.name, e.pos)
		}
		o.Write(f.src[p:e.pos])
		o.WriteString(e.text)
		p = e.end
	}
	o.Write(f.src[p:b])
	return o.String()
}

func (x *inst) site(p token.Pos) int {
	pos := x.fset.Position(p)
	x.sites = append(x.sites, fmt.Sprintf("%s:%d", filepath.Base(pos.Filename), pos.Line))
	return x.base + len(x.sites) - 1
}

func (x *inst) n() int { x.uniq++; return x.uniq }

func instrument(fset *token.FileSet, imp types.Importer, path, dir string, names []string, shimPkg bool) {
	sort.Strings(names)
	var files []*file
	var asts []*ast.File
	for _, n := range names {
		src, err := os.ReadFile(n)
		must(err)
		a, err := parser.ParseFile(fset, n, src, parser.ParseComments)
		if err != nil {
			die("%v", err)
		}
		files = append(files, &file{name: n, src: src, ast: a, tf: fset.File(a.Pos())})
		asts = append(asts, a)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
	conf := types.Config{Importer: imp, Error: func(err error) {}}
	pkg, err := conf.Check(path, fset, asts, info)
	if err != nil {
		die("type check %s: %v", path, err)
	}
	h := fnv.New32a()
	h.Write([]byte(path))
	x := &inst{fset: fset, info: info, pkg: pkg, base: int(h.Sum32()%2000+1) * 100000}
	var initCalls []string
	for _, f := range files {
		x.f = f
		initCalls = append(initCalls, x.file(f)...)
	}
	// package variables
	var zero, order []string
	fileOf := func(p token.Pos) *file {
		for _, f := range files {
			if f.tf == fset.File(p) {
				return f
			}
		}
		return nil
	}
	for _, nme := range pkg.Scope().Names() {
		if v, ok := pkg.Scope().Lookup(nme).(*types.Var); ok {
			zero = append(zero, fmt.Sprintf("\tsimrt.Zero(&%s)\n", v.Name()))
		}
	}
	for i, in := range info.InitOrder {
		var l []string
		for _, v := range in.Lhs {
			l = append(l, v.Name())
		}
		if len(l) == 0 {
			l = []string{"_"}
		}
		f := fileOf(in.Rhs.Pos())
		fn := fmt.Sprintf("simVar%d", i)
		f.tail.WriteString(fmt.Sprintf("\nfunc %s() { %s = %s }\n", fn, strings.Join(l, ", "), f.render(f.off(in.Rhs.Pos()), f.off(in.Rhs.End()), true)))
		order = append(order, "\t"+fn+"()\n")
	}
	for _, f := range files {
		out := f.render(0, len(f.src), true) + "\nvar _ = simrt.Y\n" + f.tail.String()
		must(os.WriteFile(f.name, []byte(out), 0644))
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "package %s\n\nimport simrt %q\n\nfunc init() {\n\tsimrt.RegisterReset(%q, simReset)\n\tsimrt.RegisterSites(%d, []string{\n", pkg.Name(), zz+"/simrt", path, x.base)
	for _, s := range x.sites {
		fmt.Fprintf(&b, "\t\t%q,\n", s)
	}
	b.WriteString("\t})\n}\n\nfunc simReset() {\n")
	for _, z := range zero {
		b.WriteString(z)
	}
	for _, o := range order {
		b.WriteString(o)
	}
	for _, c := range initCalls {
		b.WriteString("\t" + c + "()\n")
	}
	b.WriteString("}\n")
	must(os.WriteFile(filepath.Join(dir, "zz_reset.go"), b.Bytes(), 0644))
}

// file instruments one file and returns the names of its renamed init functions.
func (x *inst) file(f *file) []string {
	f.ins(f.ast.Name.End(), fmt.Sprintf("; import simrt %q", zz+"/simrt"))
	for _, im := range f.ast.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		if d, ok := shims[p]; ok && (im.Name == nil || im.Name.Name != "orig") {
			f.rep(im.Path.Pos(), im.Path.End(), strconv.Quote(zz+"/shim/"+d))
		}
	}
	var inits []string
	x.lbl = map[ast.Stmt]*ast.LabeledStmt{}
	x.lhs = map[*ast.IndexExpr]bool{}
	for _, d := range f.ast.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "init" {
			n := fmt.Sprintf("simInit%d", x.n())
			f.rep(fd.Name.Pos(), fd.Name.End(), n)
			inits = append(inits, n)
		}
	}
	ast.Inspect(f.ast, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.LabeledStmt:
			x.lbl[n.Stmt] = n
		case *ast.BlockStmt:
			x.stmts(n.List)
		case *ast.CaseClause:
			x.stmts(n.Body)
		case *ast.CommClause:
			x.stmts(n.Body)
		}
		return true
	})
	x.walk(f.ast)
	return inits
}

// stmts puts a yield before every statement of a list; clause lists of
// switch and select statements are skipped.
func (x *inst) stmts(l []ast.Stmt) {
	for _, s := range l {
		switch s.(type) {
		case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
			continue
		}
		x.f.ins(s.Pos(), fmt.Sprintf("simrt.Y(%d);", x.site(s.Pos())))
	}
}

// walk rewrites nodes.
func (x *inst) walk(root ast.Node) {
	ast.Inspect(root, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.GoStmt:
			x.goStmt(n)
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				x.recv(n, ".Recv()")
			}
		case *ast.AssignStmt:
			x.assign(n)
		case *ast.ValueSpec:
			if len(n.Names) == 2 && len(n.Values) == 1 {
				if u := arrow(n.Values[0]); u != nil {
					x.recv2(u)
				}
			}
		case *ast.BinaryExpr:
			x.logic(n)
		case *ast.ReturnStmt:
			x.reads(n.Results)
		case *ast.IncDecStmt:
			if ix, ok := n.X.(*ast.IndexExpr); ok && x.isMap(ix.X) {
				x.lhs[ix] = true
			}
			if x.shared(n.X) {
				ast.Inspect(n.X, func(n ast.Node) bool { // replaced as text
					if ix, ok := n.(*ast.IndexExpr); ok {
						x.lhs[ix] = true
					}
					return true
				})
				t := x.text(n.X)
				ws, we := x.mapWrite(n.X)
				op := "+"
				if n.Tok == token.DEC {
					op = "-"
				}
				x.f.rep(n.Pos(), n.End(), fmt.Sprintf("%s = %ssimrt.RMW(%s) %s 1%s", t, ws, t, op, we))
			}
		case *ast.SendStmt:
			x.f.ins(n.Chan.Pos(), "simrt.ChanS(")
			x.f.rep(n.Arrow, n.Arrow+2, ").Send(")
			x.f.ins(n.End(), ")")
		case *ast.IndexExpr:
			if x.isMap(n.X) && !x.lhs[n] {
				x.f.ins(n.X.Pos(), "simrt.MR(")
				x.f.ins(n.X.End(), ")")
			}
		case *ast.CallExpr:
			x.call(n)
		case *ast.RangeStmt:
			x.rng(n)
		case *ast.SelectStmt:
			x.sel(n)
			// bodies are walked, communication clauses are replaced as text
			for _, c := range n.Body.List {
				for _, s := range c.(*ast.CommClause).Body {
					x.walk(s)
				}
			}
			return false
		}
		return true
	})
}

func arrow(e ast.Expr) *ast.UnaryExpr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		return u
	}
	return nil
}

var done2 = map[*ast.UnaryExpr]bool{}

func (x *inst) recv(u *ast.UnaryExpr, m string) {
	if done2[u] {
		return
	}
	done2[u] = true
	x.f.rep(u.OpPos, u.OpPos+2, "simrt.ChanR(")
	x.f.ins(u.X.End(), ")"+m)
}

func (x *inst) recv2(u *ast.UnaryExpr) { x.recv(u, ".Recv2()") }

func (x *inst) text(n ast.Node) string {
	return string(x.f.src[x.f.off(n.Pos()):x.f.off(n.End())])
}

// shared reports whether an operand of a read-modify-write may be shared memory
// and can be written twice.
func (x *inst) shared(e ast.Expr) bool {
	simple := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.CallExpr, *ast.FuncLit, *ast.UnaryExpr:
			simple = false
		}
		return true
	})
	if !simple {
		return false
	}
	switch e := e.(type) {
	case *ast.SelectorExpr, *ast.StarExpr:
		return true
	case *ast.IndexExpr:
		// element of something reached through a selector or package variable
		return x.shared(e.X)
	case *ast.Ident:
		if v, ok := x.info.Uses[e].(*types.Var); ok && v.Parent() == x.pkg.Scope() {
			return true
		}
	}
	return false
}

func (x *inst) assign(n *ast.AssignStmt) {
	if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
		if u := arrow(n.Rhs[0]); u != nil {
			x.recv2(u)
		}
	}
	for _, l := range n.Lhs {
		if ix, ok := l.(*ast.IndexExpr); ok && x.isMap(ix.X) {
			x.lhs[ix] = true
		}
	}
	if len(n.Lhs) != 1 || len(n.Rhs) != 1 {
		x.tuple(n)
		if len(n.Rhs) > 1 {
			x.reads(n.Rhs)
		}
		return
	}
	ws, we := x.mapWrite(n.Lhs[0])
	if n.Tok != token.ASSIGN && n.Tok != token.DEFINE && x.shared(n.Lhs[0]) {
		t := x.text(n.Lhs[0])
		op := strings.TrimSuffix(n.Tok.String(), "=")
		x.f.rep(n.TokPos, n.TokPos+token.Pos(len(n.Tok.String())), fmt.Sprintf("= %ssimrt.RMW(%s) %s (", ws, t, op))
		x.f.ins(n.End(), ")"+we)
		return
	}
	if n.Tok != token.ASSIGN {
		return
	}
	if ws != "" {
		x.f.ins(n.Rhs[0].Pos(), ws)
		x.f.ins(n.Rhs[0].End(), we)
	}
	if c, ok := n.Rhs[0].(*ast.CallExpr); ok && x.builtin(c) == "append" && len(c.Args) > 0 && x.shared(n.Lhs[0]) && x.text(n.Lhs[0]) == x.text(c.Args[0]) {
		x.f.ins(c.Args[0].Pos(), "simrt.RMW(")
		x.f.ins(c.Args[0].End(), ")")
	}
}

// reads lets other tasks in between the reads of several shared variables in a
// list of expressions.
func (x *inst) reads(l []ast.Expr) {
	var sh []ast.Expr
	for _, e := range l {
		if tv := x.info.Types[e]; tv.IsValue() && tv.Value == nil && x.shared(e) && !hasIndex(e) && !x.method(e) {
			sh = append(sh, e)
		}
	}
	if len(sh) < 2 {
		return
	}
	for _, e := range sh {
		x.f.ins(e.Pos(), "simrt.RMW(")
		x.f.ins(e.End(), ")")
	}
}

// method reports whether an expression is a method value or a function.
func (x *inst) method(e ast.Expr) bool {
	_, ok := x.info.Types[e].Type.Underlying().(*types.Signature)
	return ok
}

func hasIndex(e ast.Expr) bool {
	has := false
	ast.Inspect(e, func(n ast.Node) bool {
		if _, ok := n.(*ast.IndexExpr); ok {
			has = true
		}
		return true
	})
	return has
}

// logic lets other tasks in between the two sides of && and ||.
func (x *inst) logic(n *ast.BinaryExpr) {
	if n.Op != token.LAND && n.Op != token.LOR {
		return
	}
	for _, e := range []ast.Expr{n, n.X} {
		tv := x.info.Types[e]
		if b, ok := tv.Type.(*types.Basic); !ok || b.Info()&types.IsBoolean == 0 || tv.Value != nil {
			return
		}
	}
	if !mentions(n.X) || !mentions(n.Y) {
		return
	}
	x.f.ins(n.X.Pos(), "simrt.RMW(")
	x.f.ins(n.X.End(), ")")
}

// mentions reports whether an expression reads something through a selector.
func mentions(e ast.Expr) bool {
	has := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.SelectorExpr, *ast.StarExpr:
			has = true
		case *ast.FuncLit:
			return false
		}
		return true
	})
	return has
}

// tuple lets other tasks in between the stores of an assignment to several shared
// variables.
func (x *inst) tuple(n *ast.AssignStmt) {
	if n.Tok != token.ASSIGN || len(n.Lhs) < 2 || len(n.Lhs) > 4 {
		return
	}
	var l []string
	for _, e := range n.Lhs {
		if hasIndex(e) || !x.shared(e) {
			return
		}
		l = append(l, "&"+x.text(e))
	}
	x.f.rep(n.Lhs[0].Pos(), n.TokPos+1, fmt.Sprintf("simrt.Set%d(%s)(", len(l), strings.Join(l, ", ")))
	x.f.ins(n.End(), ")")
}

func (x *inst) isMap(e ast.Expr) bool {
	t := x.info.Types[e].Type
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

// mapWrite returns the text around the value stored into a map element.
func (x *inst) mapWrite(e ast.Expr) (string, string) {
	ix, ok := e.(*ast.IndexExpr)
	if !ok || !x.isMap(ix.X) {
		return "", ""
	}
	simple := true
	ast.Inspect(ix.X, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.CallExpr, *ast.FuncLit, *ast.UnaryExpr:
			simple = false
		}
		return true
	})
	if !simple {
		return "", ""
	}
	return "simrt.MW(" + x.text(ix.X) + ").V(", ")"
}

func (x *inst) builtin(c *ast.CallExpr) string {
	if id, ok := c.Fun.(*ast.Ident); ok {
		if b, ok := x.info.Uses[id].(*types.Builtin); ok {
			return b.Name()
		}
	}
	return ""
}

func (x *inst) call(c *ast.CallExpr) {
	switch x.builtin(c) {
	case "close":
		x.f.rep(c.Fun.Pos(), c.Fun.End(), "simrt.Close")
	case "delete":
		if len(c.Args) == 2 && x.isMap(c.Args[0]) {
			x.f.rep(c.Pos(), c.Args[0].Pos(), "simrt.MW(")
			x.f.rep(c.Args[0].End(), c.Args[1].Pos(), ").Delete(")
		}
	case "clear":
		if len(c.Args) == 1 && x.isMap(c.Args[0]) {
			x.f.rep(c.Pos(), c.Args[0].Pos(), "simrt.MW(")
			x.f.rep(c.Args[0].End(), c.Rparen+1, ").Clear()")
		}
	case "println", "print":
		x.f.rep(c.Fun.Pos(), c.Fun.End(), "simrt.Println")
	}
}

func (x *inst) goStmt(g *ast.GoStmt) {
	c := g.Call
	if fl, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
		x.f.rep(g.Go, fl.Pos(), "simrt.Go(")
		x.f.rep(c.Lparen, c.Rparen+1, ")")
		return
	}
	if x.builtin(c) != "" || (len(c.Args) == 1 && x.isTuple(c.Args[0])) {
		x.f.rep(g.Go, c.Pos(), "simrt.Go(func(){ ")
		x.f.ins(c.End(), " })")
		return
	}
	k := x.n()
	var l, r []string
	direct := false
	fun := c.Fun
	switch e := fun.(type) {
	case *ast.Ident:
		_, direct = x.info.Uses[e].(*types.Func)
	case *ast.IndexExpr:
		direct = !x.info.Types[e.X].IsValue() || isFuncType(x.info.Types[e.X].Type)
	case *ast.IndexListExpr:
		direct = true
	}
	// texts are taken from the source with nested rewriting by inserting around them
	x.f.rep(g.Go, fun.Pos(), "{ ")
	// function value
	var pre, post string
	if direct {
		post = ""
	}
	_ = pre
	// Build as: { __fk, __ak0, ... := <fun>, <args>; simrt.Go(func(){ __fk(__ak0, ...) }) }
	if !direct {
		l = append(l, fmt.Sprintf("__f%d", k))
	}
	var hoist []ast.Expr
	for i, a := range c.Args {
		tv := x.info.Types[a]
		if tv.Value != nil || tv.IsNil() {
			r = append(r, x.text(a))
			continue
		}
		if _, ok := a.(*ast.FuncLit); ok {
			// closures are values: hoisting keeps their text in place
		}
		nm := fmt.Sprintf("__a%d_%d", k, i)
		l = append(l, nm)
		hoist = append(hoist, a)
		r = append(r, nm)
	}
	call := strings.Join(r, ", ")
	if c.Ellipsis.IsValid() {
		call += "..."
	}
	fn := fmt.Sprintf("__f%d", k)
	if direct {
		fn = x.text(fun)
	}
	tail := fmt.Sprintf("simrt.Go(func(){ %s(%s) }) }%s", fn, call, post)
	if len(l) == 0 {
		x.f.rep(fun.Pos(), c.End(), tail)
		return
	}
	x.f.ins(fun.Pos(), strings.Join(l, ", ")+" := ")
	var vals []ast.Expr
	if !direct {
		vals = append(vals, fun)
	} else {
		x.f.rep(fun.Pos(), fun.End(), "")
	}
	vals = append(vals, hoist...)
	// blank out everything between the hoisted expressions
	p := c.Fun.Pos()
	if direct {
		p = c.Fun.End()
	}
	for i, v := range vals {
		if v.Pos() > p {
			sep := ""
			if i > 0 {
				sep = ", "
			}
			x.f.rep(p, v.Pos(), sep)
		}
		p = v.End()
	}
	x.f.rep(p, c.End(), "; "+tail)
}

func isFuncType(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Signature)
	return ok
}

func (x *inst) isTuple(e ast.Expr) bool {
	_, ok := x.info.Types[e].Type.(*types.Tuple)
	return ok
}

func (x *inst) rng(n *ast.RangeStmt) {
	t := x.info.Types[n.X].Type
	if t == nil {
		return
	}
	isBlank := func(e ast.Expr) bool {
		if e == nil {
			return true
		}
		id, ok := e.(*ast.Ident)
		return ok && id.Name == "_"
	}
	arg := func(e ast.Expr) string {
		if isBlank(e) {
			return "nil"
		}
		return "&" + x.text(e)
	}
	def := func(e ast.Expr) string {
		if isBlank(e) || n.Tok != token.DEFINE {
			return "_"
		}
		return x.text(e)
	}
	k := x.n()
	switch t.Underlying().(type) {
	case *types.Map:
		x.f.rep(n.For, n.X.Pos(), fmt.Sprintf("for __it%d, %s, %s := simrt.MapIter(", k, def(n.Key), def(n.Value)))
		x.f.ins(n.X.End(), fmt.Sprintf("); __it%d.Next(%s, %s); ", k, arg(n.Key), arg(n.Value)))
	case *types.Chan:
		x.f.rep(n.For, n.X.Pos(), fmt.Sprintf("for __it%d, %s := simrt.ChanIter(", k, def(n.Key)))
		x.f.ins(n.X.End(), fmt.Sprintf("); __it%d.Next(%s); ", k, arg(n.Key)))
	}
}

func (x *inst) sel(n *ast.SelectStmt) {
	f := x.f
	if len(n.Body.List) == 0 {
		f.rep(n.Select, n.Body.Rbrace+1, `{ simrt.Select(false); panic("unreachable") }`)
		return
	}
	k := x.n()
	var hdr bytes.Buffer
	label := ""
	if l, ok := x.lbl[n]; ok {
		label = l.Label.Name + ": "
		f.rep(l.Pos(), n.Select, "")
	}
	hdr.WriteString("{ ")
	hasDef := false
	last := -1
	var args []string
	idx := map[*ast.CommClause]int{}
	for i, c := range n.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDef = true
			continue
		}
		last = i
		j := len(args)
		idx[cc] = j
		nm := fmt.Sprintf("__s%d_%d", k, j)
		args = append(args, nm)
		ch := func(e ast.Expr) string {
			ast.Inspect(e, func(m ast.Node) bool {
				switch m := m.(type) {
				case *ast.FuncLit:
					die("%s: function literal in a select case", x.fset.Position(e.Pos()))
				case *ast.UnaryExpr:
					if m.Op == token.ARROW {
						die("%s: nested receive in a select case", x.fset.Position(e.Pos()))
					}
				}
				return true
			})
			return x.text(e)
		}
		switch s := cc.Comm.(type) {
		case *ast.SendStmt:
			fmt.Fprintf(&hdr, "%s := simrt.ChanS(%s).With(%s); ", nm, ch(s.Chan), ch(s.Value))
		case *ast.ExprStmt:
			fmt.Fprintf(&hdr, "%s := simrt.ChanR(%s); ", nm, ch(arrow(s.X).X))
		case *ast.AssignStmt:
			fmt.Fprintf(&hdr, "%s := simrt.ChanR(%s); ", nm, ch(arrow(s.Rhs[0]).X))
		}
	}
	fmt.Fprintf(&hdr, "%sswitch simrt.Select(%v%s) {", label, hasDef, func() string {
		if len(args) == 0 {
			return ""
		}
		return ", " + strings.Join(args, ", ")
	}())
	f.rep(n.Select, n.Body.Lbrace+1, hdr.String())
	for i, c := range n.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			continue
		}
		j := idx[cc]
		head := fmt.Sprintf("case %d: ", j)
		if !hasDef && i == last {
			head = "default: "
		}
		if s, ok := cc.Comm.(*ast.AssignStmt); ok {
			m := "Val()"
			var ls []string
			for _, l := range s.Lhs {
				ls = append(ls, x.text(l))
			}
			if len(ls) == 2 {
				m = "Val2()"
			}
			all := true
			for _, l := range ls {
				all = all && l == "_"
			}
			tok := s.Tok.String()
			if all {
				tok = "="
			}
			head += fmt.Sprintf("%s %s %s.%s; ", strings.Join(ls, ", "), tok, args[j], m)
		}
		f.rep(cc.Case, cc.Colon+1, head)
	}
	f.ins(n.Body.Rbrace+1, " }")
}
