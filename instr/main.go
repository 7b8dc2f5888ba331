// instr rewrites the first-party packages of a Go module so that their
// concurrency, time and file operations go through the shims of zz_verif, and
// writes an overlay file for the go command. It judges nothing about the code:
// it only redirects operations, whatever the code around them looks like.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode"
)

type pkgInfo struct {
	ImportPath string
	Dir        string
	GoFiles    []string
	CgoFiles   []string
	Export     string
	Standard   bool
	Module     *struct{ Path, Dir string }
	Imports    []string
	Error      *struct{ Err string }
}

var shimPaths = map[string][]string{
	"sync":        {"vsync"},
	"sync/atomic": {"vatomic"},
	"context":     {"vctx"},
	"time":        {"vtime"},
	"os":          {"vos"},
	"io/ioutil":   {"vos"},
	"os/signal":   {"vsig"},
	"syscall":     {"vsys"},
	"runtime":     {"vrt"},
	"net":         {"vnet"},
	"net/http":    {"vhttp"},
}

var (
	libDir  = flag.String("lib", "", "directory of the shims")
	outDir  = flag.String("out", "", "output directory")
	repo    = flag.String("repo", "/repo", "module to rewrite")
	roots   = flag.String("roots", "", "comma separated import paths whose first-party closure is rewritten")
	stmts   = flag.String("stmts", "", "comma separated import path prefixes that get statement points")
	harness = flag.String("harness", "", "directory with the harness main package")
	hname   = flag.String("hname", "", "name of the harness")
	gcflags = flag.String("listflags", "", "extra flags for go list")
	extra   = flag.String("extra", "", "extra overlay entries: repo-relative=source,...")
	plain   = flag.Bool("plain", false, "do not rewrite anything")
)

func die(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+format+"\n", args...)
	os.Exit(2)
}

func goList(args ...string) []*pkgInfo {
	cmd := exec.Command("go", append([]string{"list"}, args...)...)
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	dec := json.NewDecoder(bytes.NewReader(out))
	var res []*pkgInfo
	for {
		p := new(pkgInfo)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("go list: %v", err)
		}
		res = append(res, p)
	}
	return res
}

var module string
var exports = map[string]map[string]map[string]bool{} // std path -> shim -> names

func main() {
	flag.Parse()
	overlay := map[string]string{}
	mod := func() string {
		b, err := os.ReadFile(filepath.Join(*repo, "go.mod"))
		if err != nil {
			die("%v", err)
		}
		for _, l := range strings.Split(string(b), "\n") {
			if f := strings.Fields(l); len(f) == 2 && f[0] == "module" {
				return f[1]
			}
		}
		die("no module")
		return ""
	}()
	module = mod
	loadShims()

	var listArgs []string
	if *gcflags != "" {
		listArgs = append(listArgs, strings.Split(*gcflags, " ")...)
	}
	if !*plain {
		listArgs = append(listArgs, "-deps", "-export", "-json=ImportPath,Dir,GoFiles,Export,Standard,Module,Imports,Error")
		listArgs = append(listArgs, strings.Split(*roots, ",")...)
		pkgs := goList(listArgs...)
		exp := map[string]string{}
		for _, p := range pkgs {
			exp[p.ImportPath] = p.Export
		}
		fset := token.NewFileSet()
		imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			f := exp[path]
			if f == "" {
				return nil, fmt.Errorf("no export data for %q", path)
			}
			return os.Open(f)
		})
		for _, p := range pkgs {
			if p.Standard || p.Module == nil || p.Module.Path != module {
				continue
			}
			rewritePkg(fset, imp, p, overlay)
		}
	}

	// the shims and the harness
	filepath.Walk(*libDir, func(path string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.HasSuffix(path, ".go") {
			rel, _ := filepath.Rel(*libDir, path)
			overlay[filepath.Join(*repo, "zz_verif", rel)] = path
		}
		return nil
	})
	if *harness != "" {
		ents, err := os.ReadDir(*harness)
		if err != nil {
			die("%v", err)
		}
		for _, e := range ents {
			if strings.HasSuffix(e.Name(), ".go") {
				overlay[filepath.Join(*repo, "zz_verif", "h", *hname, e.Name())] = filepath.Join(*harness, e.Name())
			}
		}
	}
	for _, kv := range strings.Split(*extra, ",") {
		if i := strings.IndexByte(kv, '='); i > 0 {
			overlay[filepath.Join(*repo, kv[:i])] = kv[i+1:]
		}
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*outDir, "overlay.json"), b, 0644); err != nil {
		die("%v", err)
	}
}

func loadShims() {
	for std, shims := range shimPaths {
		exports[std] = map[string]map[string]bool{}
		for _, sh := range shims {
			names := map[string]bool{}
			fset := token.NewFileSet()
			pkgs, err := parser.ParseDir(fset, filepath.Join(*libDir, sh), nil, 0)
			if err != nil {
				continue
			}
			for _, p := range pkgs {
				for _, f := range p.Files {
					for _, d := range f.Decls {
						switch d := d.(type) {
						case *ast.FuncDecl:
							if d.Recv == nil && d.Name.IsExported() {
								names[d.Name.Name] = true
							}
						case *ast.GenDecl:
							for _, s := range d.Specs {
								switch s := s.(type) {
								case *ast.TypeSpec:
									if s.Name.IsExported() {
										names[s.Name.Name] = true
									}
								case *ast.ValueSpec:
									for _, n := range s.Names {
										if n.IsExported() {
											names[n.Name] = true
										}
									}
								}
							}
						}
					}
				}
			}
			exports[std][sh] = names
		}
	}
}

type rewriter struct {
	info  *types.Info
	file  *ast.File
	need  map[string]bool // shims needed
	stmt  bool
	n     int
	pkg   *types.Package
	inGen map[ast.Node]bool
}

func rewritePkg(fset *token.FileSet, imp types.Importer, p *pkgInfo, overlay map[string]string) {
	var files []*ast.File
	var names []string
	heads := map[*ast.File]string{}
	for _, g := range p.GoFiles {
		path := filepath.Join(p.Dir, g)
		src, err := os.ReadFile(path)
		if err != nil {
			die("%v", err)
		}
		f, err := parser.ParseFile(fset, path, src, 0)
		if err != nil {
			die("%v", err)
		}
		files = append(files, f)
		names = append(names, path)
		heads[f] = string(src)
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{},
		Uses:  map[*ast.Ident]types.Object{},
		Defs:  map[*ast.Ident]types.Object{},
	}
	conf := types.Config{Importer: imp, Error: func(err error) {}, FakeImportC: true}
	tp, _ := conf.Check(p.ImportPath, fset, files, info)

	stmt := false
	for _, s := range strings.Split(*stmts, ",") {
		if s != "" && (p.ImportPath == s || strings.HasPrefix(p.ImportPath, s+"/")) {
			stmt = true
		}
	}
	for i, f := range files {
		rw := &rewriter{info: info, file: f, need: map[string]bool{}, stmt: stmt, pkg: tp}
		if !rw.run() {
			continue
		}
		var buf bytes.Buffer
		buf.WriteString(header(heads[f]))
		cfg := printer.Config{Mode: printer.UseSpaces | printer.TabIndent | printer.SourcePos, Tabwidth: 8}
		if err := cfg.Fprint(&buf, fset, f); err != nil {
			die("print %s: %v", names[i], err)
		}
		rel, _ := filepath.Rel(*repo, names[i])
		out := filepath.Join(*outDir, "src", strings.ReplaceAll(rel, "/", "__"))
		os.MkdirAll(filepath.Dir(out), 0755)
		if err := os.WriteFile(out, buf.Bytes(), 0644); err != nil {
			die("%v", err)
		}
		overlay[names[i]] = out
	}
}

// header keeps the build constraint of the file and asks for a language
// version with generics.
func header(src string) string {
	cons := "go1.21"
	for _, l := range strings.Split(src, "\n") {
		t := strings.TrimSpace(l)
		if strings.HasPrefix(t, "package ") {
			break
		}
		if strings.HasPrefix(t, "//go:build ") {
			cons = "(" + strings.TrimPrefix(t, "//go:build ") + ") && go1.21"
		} else if strings.HasPrefix(t, "// +build ") && !strings.Contains(src, "//go:build ") {
			ors := []string{}
			for _, o := range strings.Fields(strings.TrimPrefix(t, "// +build ")) {
				ors = append(ors, "("+strings.ReplaceAll(o, ",", " && ")+")")
			}
			cons = "(" + strings.Join(ors, " || ") + ") && " + cons
		}
	}
	return "//go:build " + cons + "\n\n"
}

func (rw *rewriter) shim(name string) *ast.Ident {
	rw.need[name] = true
	return ast.NewIdent("zz_" + name)
}

func (rw *rewriter) vs(fn string) ast.Expr {
	return &ast.SelectorExpr{X: rw.shim("vs"), Sel: ast.NewIdent(fn)}
}

func (rw *rewriter) call(fn ast.Expr, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: fn, Args: args}
}

func (rw *rewriter) tmp() *ast.Ident {
	rw.n++
	return ast.NewIdent("zz_t" + strconv.Itoa(rw.n))
}

func (rw *rewriter) run() bool {
	f := rw.file
	changed := false
	for i, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Type != nil {
				rw.node(d.Type)
			}
			if d.Recv != nil {
				rw.node(d.Recv)
			}
			if d.Body != nil {
				rw.block(d.Body)
			}
		case *ast.GenDecl:
			if d.Tok == token.IMPORT {
				continue
			}
			for _, s := range d.Specs {
				switch s := s.(type) {
				case *ast.TypeSpec:
					s.Type = rw.expr(s.Type)
				case *ast.ValueSpec:
					if s.Type != nil {
						s.Type = rw.expr(s.Type)
					}
					for k := range s.Values {
						s.Values[k] = rw.expr(s.Values[k])
					}
				}
			}
		}
		_ = i
	}
	if len(rw.need) == 0 {
		return changed
	}
	rw.fixImports()
	return true
}

func (rw *rewriter) fixImports() {
	f := rw.file
	used := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok {
				used[id.Name] = true
			}
		}
		return true
	})
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			continue
		}
		var specs []ast.Spec
		for _, s := range g.Specs {
			is := s.(*ast.ImportSpec)
			path, _ := strconv.Unquote(is.Path.Value)
			if _, shimmed := shimPaths[path]; shimmed {
				name := path[strings.LastIndex(path, "/")+1:]
				if is.Name != nil {
					name = is.Name.Name
				}
				if name != "_" && name != "." && !used[name] {
					continue
				}
			}
			specs = append(specs, s)
		}
		g.Specs = specs
		if len(specs) > 1 && !g.Lparen.IsValid() {
			g.Lparen = g.Pos()
		}
	}
	var needed []string
	for n := range rw.need {
		needed = append(needed, n)
	}
	sort.Strings(needed)
	gd := &ast.GenDecl{Tok: token.IMPORT, Lparen: 1}
	for _, n := range needed {
		gd.Specs = append(gd.Specs, &ast.ImportSpec{
			Name: ast.NewIdent("zz_" + n),
			Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(module + "/zz_verif/" + n)},
		})
	}
	var decls []ast.Decl
	decls = append(decls, gd)
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT && len(g.Specs) == 0 {
			continue
		}
		decls = append(decls, d)
	}
	f.Decls = decls
}

// pkgOf returns the import path when the identifier names an imported package.
func (rw *rewriter) pkgOf(id *ast.Ident) string {
	if o, ok := rw.info.Uses[id]; ok {
		if pn, ok := o.(*types.PkgName); ok {
			return pn.Imported().Path()
		}
	}
	return ""
}

func (rw *rewriter) isBuiltin(e ast.Expr, name string) bool {
	id, ok := e.(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	o, ok := rw.info.Uses[id]
	if !ok {
		return true
	}
	_, ok = o.(*types.Builtin)
	return ok
}

func (rw *rewriter) isChan(e ast.Expr) bool {
	tv, ok := rw.info.Types[e]
	if !ok || tv.Type == nil {
		return false
	}
	u := tv.Type.Underlying()
	if tp, ok := tv.Type.(*types.TypeParam); ok {
		u = tp.Underlying()
	}
	_, ok = u.(*types.Chan)
	return ok
}

// node rewrites a field list or a type in place.
func (rw *rewriter) node(n ast.Node) {
	switch n := n.(type) {
	case *ast.FieldList:
		if n == nil {
			return
		}
		for _, f := range n.List {
			f.Type = rw.expr(f.Type)
		}
	case *ast.FuncType:
		rw.node(n.TypeParams)
		rw.node(n.Params)
		rw.node(n.Results)
	}
}

func (rw *rewriter) exprs(es []ast.Expr) {
	for i := range es {
		es[i] = rw.expr(es[i])
	}
}

func (rw *rewriter) expr(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case nil:
		return nil
	case *ast.SelectorExpr:
		if id, ok := e.X.(*ast.Ident); ok {
			if path := rw.pkgOf(id); path != "" {
				for sh, names := range exports[path] {
					if names[e.Sel.Name] {
						return &ast.SelectorExpr{X: rw.shim(sh), Sel: e.Sel}
					}
				}
				return e
			}
		}
		// methods of *http.Server that start or stop listening
		if e.Sel.Name == "Serve" || e.Sel.Name == "ServeTLS" || e.Sel.Name == "ListenAndServe" || e.Sel.Name == "ListenAndServeTLS" || e.Sel.Name == "Shutdown" || e.Sel.Name == "Close" {
			if tv, ok := rw.info.Types[e.X]; ok && tv.Type != nil {
				if s := tv.Type.String(); s == "*net/http.Server" || s == "net/http.Server" {
					x := rw.expr(e.X)
					if s == "net/http.Server" {
						x = &ast.UnaryExpr{Op: token.AND, X: x}
					}
					return &ast.SelectorExpr{X: rw.call(&ast.SelectorExpr{X: rw.shim("vhttp"), Sel: ast.NewIdent("Wrap")}, x), Sel: e.Sel}
				}
			}
		}
		e.X = rw.expr(e.X)
		return e
	case *ast.UnaryExpr:
		e.X = rw.expr(e.X)
		if e.Op == token.ARROW {
			return rw.call(rw.vs("Recv"), e.X)
		}
		return e
	case *ast.CallExpr:
		if rw.isBuiltin(e.Fun, "close") && len(e.Args) == 1 {
			return rw.call(rw.vs("Close"), rw.expr(e.Args[0]))
		}
		if rw.isBuiltin(e.Fun, "len") && len(e.Args) == 1 && rw.isChan(e.Args[0]) {
			return rw.call(rw.vs("Len"), rw.expr(e.Args[0]))
		}
		e.Fun = rw.expr(e.Fun)
		rw.exprs(e.Args)
		return e
	case *ast.FuncLit:
		rw.node(e.Type)
		rw.block(e.Body)
		return e
	case *ast.BinaryExpr:
		e.X, e.Y = rw.expr(e.X), rw.expr(e.Y)
		return e
	case *ast.ParenExpr:
		e.X = rw.expr(e.X)
		return e
	case *ast.StarExpr:
		e.X = rw.expr(e.X)
		return e
	case *ast.IndexExpr:
		e.X, e.Index = rw.expr(e.X), rw.expr(e.Index)
		return e
	case *ast.IndexListExpr:
		e.X = rw.expr(e.X)
		rw.exprs(e.Indices)
		return e
	case *ast.SliceExpr:
		e.X, e.Low, e.High, e.Max = rw.expr(e.X), rw.expr(e.Low), rw.expr(e.High), rw.expr(e.Max)
		return e
	case *ast.TypeAssertExpr:
		e.X, e.Type = rw.expr(e.X), rw.expr(e.Type)
		return e
	case *ast.CompositeLit:
		e.Type = rw.expr(e.Type)
		rw.exprs(e.Elts)
		return e
	case *ast.KeyValueExpr:
		if _, ok := e.Key.(*ast.Ident); !ok {
			e.Key = rw.expr(e.Key)
		}
		e.Value = rw.expr(e.Value)
		return e
	case *ast.ArrayType:
		e.Len, e.Elt = rw.expr(e.Len), rw.expr(e.Elt)
		return e
	case *ast.StructType:
		rw.node(e.Fields)
		return e
	case *ast.FuncType:
		rw.node(e)
		return e
	case *ast.InterfaceType:
		rw.node(e.Methods)
		return e
	case *ast.MapType:
		e.Key, e.Value = rw.expr(e.Key), rw.expr(e.Value)
		return e
	case *ast.ChanType:
		e.Value = rw.expr(e.Value)
		return e
	case *ast.Ellipsis:
		e.Elt = rw.expr(e.Elt)
		return e
	}
	return e
}

func (rw *rewriter) block(b *ast.BlockStmt) {
	if b == nil {
		return
	}
	b.List = rw.stmts(b.List)
}

func (rw *rewriter) stmts(in []ast.Stmt) []ast.Stmt {
	out := make([]ast.Stmt, 0, len(in))
	for _, s := range in {
		if rw.stmt {
			switch s.(type) {
			case *ast.DeclStmt, *ast.EmptyStmt, *ast.LabeledStmt:
			default:
				out = append(out, &ast.ExprStmt{X: rw.call(rw.vs("Stmt"))})
			}
		}
		out = append(out, rw.stmtOne(s, nil))
	}
	return out
}

func (rw *rewriter) simple(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	return rw.stmtOne(s, nil)
}

func (rw *rewriter) stmtOne(s ast.Stmt, label *ast.Ident) ast.Stmt {
	relabel := func(s ast.Stmt) ast.Stmt {
		if label != nil {
			return &ast.LabeledStmt{Label: label, Stmt: s}
		}
		return s
	}
	switch s := s.(type) {
	case *ast.LabeledStmt:
		return rw.stmtOne(s.Stmt, s.Label)
	case *ast.ExprStmt:
		s.X = rw.expr(s.X)
	case *ast.SendStmt:
		ch, v := rw.expr(s.Chan), rw.expr(s.Value)
		return relabel(&ast.ExprStmt{X: rw.call(rw.call(rw.vs("SendTo"), ch), v)})
	case *ast.IncDecStmt:
		s.X = rw.expr(s.X)
	case *ast.AssignStmt:
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			if u, ok := unparen(s.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				rw.exprs(s.Lhs)
				s.Rhs[0] = rw.call(rw.vs("Recv2"), rw.expr(u.X))
				return relabel(s)
			}
		}
		rw.exprs(s.Lhs)
		rw.exprs(s.Rhs)
	case *ast.DeclStmt:
		if g, ok := s.Decl.(*ast.GenDecl); ok {
			for _, sp := range g.Specs {
				switch sp := sp.(type) {
				case *ast.TypeSpec:
					sp.Type = rw.expr(sp.Type)
				case *ast.ValueSpec:
					if sp.Type != nil {
						sp.Type = rw.expr(sp.Type)
					}
					if len(sp.Names) == 2 && len(sp.Values) == 1 {
						if u, ok := unparen(sp.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
							sp.Values[0] = rw.call(rw.vs("Recv2"), rw.expr(u.X))
							continue
						}
					}
					rw.exprs(sp.Values)
				}
			}
		}
	case *ast.GoStmt:
		return relabel(rw.goStmt(s))
	case *ast.DeferStmt:
		c := rw.expr(s.Call)
		s.Call = c.(*ast.CallExpr)
	case *ast.ReturnStmt:
		rw.exprs(s.Results)
	case *ast.BlockStmt:
		rw.block(s)
	case *ast.IfStmt:
		s.Init = rw.simple(s.Init)
		s.Cond = rw.expr(s.Cond)
		rw.block(s.Body)
		if s.Else != nil {
			s.Else = rw.stmtOne(s.Else, nil)
		}
	case *ast.CaseClause:
		rw.exprs(s.List)
		s.Body = rw.stmts(s.Body)
	case *ast.SwitchStmt:
		s.Init = rw.simple(s.Init)
		s.Tag = rw.expr(s.Tag)
		for i := range s.Body.List {
			rw.stmtOne(s.Body.List[i], nil)
		}
	case *ast.TypeSwitchStmt:
		s.Init = rw.simple(s.Init)
		s.Assign = rw.simple(s.Assign)
		for i := range s.Body.List {
			rw.stmtOne(s.Body.List[i], nil)
		}
	case *ast.ForStmt:
		s.Init = rw.simple(s.Init)
		s.Cond = rw.expr(s.Cond)
		s.Post = rw.simple(s.Post)
		rw.block(s.Body)
	case *ast.RangeStmt:
		if rw.isChan(s.X) {
			return rw.rangeChan(s, label)
		}
		if rw.isMap(s.X) {
			return relabel(rw.rangeMap(s))
		}
		s.Key, s.Value = rw.expr(s.Key), rw.expr(s.Value)
		s.X = rw.expr(s.X)
		rw.block(s.Body)
	case *ast.SelectStmt:
		return rw.selectStmt(s, label)
	}
	return relabel(s)
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (rw *rewriter) goStmt(s *ast.GoStmt) ast.Stmt {
	c := s.Call
	if lit, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 && lit.Type.Results == nil {
		return &ast.ExprStmt{X: rw.call(rw.vs("Go"), rw.expr(lit))}
	}
	var pre []ast.Stmt
	hoist := func(e ast.Expr) ast.Expr {
		if tv, ok := rw.info.Types[e]; ok && (tv.Value != nil || tv.IsNil() || tv.IsType() || tv.IsBuiltin()) {
			return rw.expr(e)
		}
		t := rw.tmp()
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{rw.expr(e)}})
		return t
	}
	builtin := false
	if id, ok := unparen(c.Fun).(*ast.Ident); ok {
		if _, ok := rw.info.Uses[id].(*types.Builtin); ok {
			builtin = true
		}
	}
	args := make([]ast.Expr, len(c.Args))
	var fun ast.Expr
	if builtin {
		call := rw.expr(c)
		return &ast.ExprStmt{X: rw.call(rw.vs("Go"), &ast.FuncLit{
			Type: &ast.FuncType{Params: &ast.FieldList{}},
			Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call}}},
		})}
	}
	fun = hoist(c.Fun)
	for i := range c.Args {
		args[i] = hoist(c.Args[i])
	}
	call := &ast.CallExpr{Fun: fun, Args: args, Ellipsis: c.Ellipsis}
	pre = append(pre, &ast.ExprStmt{X: rw.call(rw.vs("Go"), &ast.FuncLit{
		Type: &ast.FuncType{Params: &ast.FieldList{}},
		Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call}}},
	})})
	return &ast.BlockStmt{List: pre}
}

func (rw *rewriter) rangeChan(s *ast.RangeStmt, label *ast.Ident) ast.Stmt {
	ch, ok := rw.tmp(), rw.tmp()
	init := &ast.AssignStmt{Lhs: []ast.Expr{ch}, Tok: token.DEFINE, Rhs: []ast.Expr{rw.expr(s.X)}}
	recv := rw.call(rw.vs("Recv2"), ch)
	brk := &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}
	var list []ast.Stmt
	if s.Key == nil {
		list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_"), ok}, Tok: token.DEFINE, Rhs: []ast.Expr{recv}}, brk)
	} else if s.Tok == token.DEFINE {
		list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{s.Key, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{recv}}, brk)
	} else {
		v := rw.tmp()
		list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{recv}}, brk,
			&ast.AssignStmt{Lhs: []ast.Expr{rw.expr(s.Key)}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}})
	}
	rw.block(s.Body)
	// the body gets its own block so that it may shadow the variable
	list = append(list, s.Body)
	var loop ast.Stmt = &ast.ForStmt{Init: init, Body: &ast.BlockStmt{List: list}}
	if label != nil {
		loop = &ast.LabeledStmt{Label: label, Stmt: loop}
	}
	return loop
}

func (rw *rewriter) isMap(e ast.Expr) bool {
	tv, ok := rw.info.Types[e]
	if !ok || tv.Type == nil {
		return false
	}
	if _, ok := tv.Type.(*types.TypeParam); ok {
		return false
	}
	_, ok = tv.Type.Underlying().(*types.Map)
	return ok
}

// rangeMap makes the order of an iteration over a map a choice.
func (rw *rewriter) rangeMap(s *ast.RangeStmt) ast.Stmt {
	rng := rw.call(&ast.SelectorExpr{X: rw.shim("vmap"), Sel: ast.NewIdent("Range")}, rw.expr(s.X))
	vars := []ast.Expr{s.Key, s.Value}
	body := s.Body
	rw.block(body)
	if s.Tok != token.DEFINE {
		assign := &ast.AssignStmt{Tok: token.ASSIGN}
		for i, v := range vars {
			if id, ok := v.(*ast.Ident); v == nil || ok && id.Name == "_" {
				vars[i] = nil
				continue
			}
			t := rw.tmp()
			assign.Lhs = append(assign.Lhs, rw.expr(v))
			assign.Rhs = append(assign.Rhs, t)
			vars[i] = t
		}
		if len(assign.Lhs) > 0 {
			body = &ast.BlockStmt{List: []ast.Stmt{assign, body}}
		}
	}
	var args []ast.Expr
	for i, v := range vars {
		if id, ok := v.(*ast.Ident); v == nil || ok && id.Name == "_" {
			vars[i] = rw.tmp()
		}
		args = append(args, &ast.UnaryExpr{Op: token.AND, X: vars[i]})
	}
	it := rw.tmp()
	return &ast.ForStmt{
		Init: &ast.AssignStmt{Lhs: append(vars, it), Tok: token.DEFINE, Rhs: []ast.Expr{rng}},
		Cond: rw.call(&ast.SelectorExpr{X: it, Sel: ast.NewIdent("Next")}, args...),
		Body: body,
	}
}

func (rw *rewriter) selectStmt(s *ast.SelectStmt, label *ast.Ident) ast.Stmt {
	var pre []ast.Stmt
	var args []ast.Expr
	hasDefault := "false"
	var clauses []ast.Stmt
	idx := 0
	for _, cs := range s.Body.List {
		cc := cs.(*ast.CommClause)
		if cc.Comm == nil {
			hasDefault = "true"
			clauses = append(clauses, &ast.CaseClause{Body: rw.stmts(cc.Body)})
			continue
		}
		t := rw.tmp()
		var bind ast.Stmt
		var mk ast.Expr
		switch c := cc.Comm.(type) {
		case *ast.SendStmt:
			mk = rw.call(rw.call(rw.vs("SendCase"), rw.expr(c.Chan)), rw.expr(c.Value))
		case *ast.ExprStmt:
			u := unparen(c.X).(*ast.UnaryExpr)
			mk = rw.call(rw.vs("RecvCase"), rw.expr(u.X))
		case *ast.AssignStmt:
			u := unparen(c.Rhs[0]).(*ast.UnaryExpr)
			mk = rw.call(rw.vs("RecvCase"), rw.expr(u.X))
			get := "Get"
			if len(c.Lhs) == 2 {
				get = "Get2"
			}
			rw.exprs(c.Lhs)
			bind = &ast.AssignStmt{Lhs: c.Lhs, Tok: c.Tok, Rhs: []ast.Expr{rw.call(&ast.SelectorExpr{X: t, Sel: ast.NewIdent(get)})}}
		}
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{mk}})
		args = append(args, t)
		var body []ast.Stmt
		if bind != nil {
			body = append(body, bind)
		}
		inner := rw.stmts(cc.Body)
		body = append(body, inner...)
		clauses = append(clauses, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(idx)}}, Body: body})
		idx++
	}
	// a select is terminating when its clauses are; a switch needs a default
	// for that.
	if hasDefault == "false" && len(clauses) > 0 {
		clauses[len(clauses)-1].(*ast.CaseClause).List = nil
	}
	call := rw.call(rw.vs("Select"), append([]ast.Expr{ast.NewIdent(hasDefault)}, args...)...)
	var sw ast.Stmt
	if len(clauses) == 0 {
		sw = &ast.ExprStmt{X: call}
		sw = &ast.BlockStmt{List: []ast.Stmt{sw, &ast.ForStmt{Body: &ast.BlockStmt{}}}}
	} else {
		sw = &ast.SwitchStmt{Tag: call, Body: &ast.BlockStmt{List: clauses}}
	}
	if label != nil {
		sw = &ast.LabeledStmt{Label: label, Stmt: sw}
	}
	return &ast.BlockStmt{List: append(pre, sw)}
}

var _ = unicode.IsUpper
