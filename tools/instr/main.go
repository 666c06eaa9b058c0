// Command instr rewrites Go packages in place so that every synchronisation operation, the clock and every access to
// shared memory goes through package mc. It works on type-checked syntax and preserves the meaning of the code.
//
//	instr -dir MODULE_ROOT -mod MODULE_PATH [-norace] [-plain pkg,...] [-deny pkg,...] pkg...
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
)

type pkgInfo struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
	Deps       []string
}

var (
	dir    = flag.String("dir", "", "module root")
	mod    = flag.String("mod", "", "module path")
	norace = flag.Bool("norace", false, "do not instrument memory accesses")
	deny   = flag.String("deny", "", "module packages that are left alone")
	sqlPk  = flag.String("sql", "", "packages whose database/sql import goes to the recording stand-in")
)

func main() {
	flag.Parse()
	args := []string{"list", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,Deps"}
	for _, p := range flag.Args() {
		args = append(args, "./"+p)
	}
	cmd := exec.Command("go", args...)
	cmd.Dir = *dir
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr: go list:", err)
		os.Exit(3)
	}
	pkgs := map[string]*pkgInfo{}
	var order []string
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		p := &pkgInfo{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			fmt.Fprintln(os.Stderr, "instr:", err)
			os.Exit(3)
		}
		pkgs[p.ImportPath] = p
		order = append(order, p.ImportPath)
	}
	denied := map[string]bool{}
	for _, d := range strings.Split(*deny, ",") {
		if d != "" {
			denied[*mod+"/"+d] = true
		}
	}
	rewritten := map[string]bool{}
	for _, ip := range order {
		if (ip == *mod || strings.HasPrefix(ip, *mod+"/")) && !denied[ip] && !strings.Contains(ip, "/zverif") {
			rewritten[ip] = true
		}
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		p := pkgs[path]
		if p == nil || p.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(p.Export)
	})
	type job struct {
		p     *pkgInfo
		files []*ast.File
		info  *types.Info
		tp    *types.Package
	}
	var jobs []*job
	for _, ip := range order {
		if !rewritten[ip] {
			continue
		}
		p := pkgs[ip]
		j := &job{p: p}
		for _, f := range p.GoFiles {
			af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.SkipObjectResolution)
			if err != nil {
				fmt.Fprintln(os.Stderr, "instr:", err)
				os.Exit(3)
			}
			j.files = append(j.files, af)
		}
		j.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{},
			Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
			Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{}}
		conf := types.Config{Importer: imp, Error: func(err error) {}}
		tp, err := conf.Check(ip, fset, j.files, j.info)
		if err != nil {
			fmt.Fprintln(os.Stderr, "instr: type check:", err)
			os.Exit(3)
		}
		j.tp = tp
		jobs = append(jobs, j)
	}
	for _, j := range jobs {
		r := &rw{fset: fset, info: j.info, pkg: j.tp, race: !*norace, rewritten: rewritten, mc: *mod + "/zverif/mc",
			newRHS: map[ast.Expr]ast.Expr{}}
		for _, s := range strings.Split(*sqlPk, ",") {
			if s != "" && *mod+"/"+s == j.p.ImportPath {
				r.sql = true
			}
		}
		r.analyse(j.files)
		for i, f := range j.files {
			r.file(f)
			r.write(filepath.Join(j.p.Dir, j.p.GoFiles[i]), f)
		}
		r.resetFile(j.p.Dir, j.tp.Name())
	}
}

type rw struct {
	fset      *token.FileSet
	info      *types.Info
	pkg       *types.Package
	race      bool
	sql       bool
	mc        string
	rewritten map[string]bool
	shared    map[*types.Var]bool
	written   map[*types.Var]bool
	tmp       int
	need      map[string]string // alias -> path
	newRHS    map[ast.Expr]ast.Expr
	inits     int
	allNeed   map[string]string
	curFile   string
}

func id(s string) *ast.Ident { return ast.NewIdent(s) }

func (r *rw) use(alias, sub string) ast.Expr {
	p := r.mc
	if sub != "" {
		p += "/" + sub
	}
	r.need[alias] = p
	return id(alias)
}

func (r *rw) mcSel(name string) ast.Expr { return &ast.SelectorExpr{X: r.use("mc_", ""), Sel: id(name)} }

func (r *rw) call(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: r.mcSel(name), Args: args}
}

func (r *rw) name(p string) string {
	r.tmp++
	return fmt.Sprintf("mcv_%s%d", p, r.tmp)
}

func (r *rw) loc(n ast.Node) ast.Expr {
	p := r.fset.Position(n.Pos())
	return &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(r.pkg.Name() + "/" + filepath.Base(p.Filename) + ":" + strconv.Itoa(p.Line))}
}

// analyse finds the variables that several goroutines can reach.
func (r *rw) analyse(files []*ast.File) {
	r.shared = map[*types.Var]bool{}
	r.written = map[*types.Var]bool{}
	r.allNeed = map[string]string{}
	// root is the variable whose own memory e denotes (nil behind a pointer, slice or map)
	var root func(e ast.Expr) *types.Var
	root = func(e ast.Expr) *types.Var {
		switch e := e.(type) {
		case *ast.Ident:
			if v, ok := r.info.Uses[e].(*types.Var); ok {
				return v
			}
			if v, ok := r.info.Defs[e].(*types.Var); ok {
				return v
			}
		case *ast.ParenExpr:
			return root(e.X)
		case *ast.SelectorExpr:
			if s := r.info.Selections[e]; s != nil && (s.Indirect() || isPtr(r.typeOf(e.X))) {
				return nil
			}
			return root(e.X)
		case *ast.IndexExpr:
			if _, ok := under(r.typeOf(e.X)).(*types.Array); ok {
				return root(e.X)
			}
		}
		return nil
	}
	for _, f := range files {
		var lits []*ast.FuncLit
		var stack []ast.Node
		ast.Inspect(f, func(n ast.Node) bool {
			if n == nil {
				if l, ok := stack[len(stack)-1].(*ast.FuncLit); ok && len(lits) > 0 && lits[len(lits)-1] == l {
					lits = lits[:len(lits)-1]
				}
				stack = stack[:len(stack)-1]
				return true
			}
			stack = append(stack, n)
			switch n := n.(type) {
			case *ast.FuncLit:
				lits = append(lits, n)
			case *ast.Ident:
				v, ok := r.info.Uses[n].(*types.Var)
				if !ok || v.IsField() {
					break
				}
				if v.Parent() == r.pkg.Scope() {
					r.shared[v] = true
				}
				for _, l := range lits {
					if v.Pkg() == r.pkg && (v.Pos() < l.Pos() || v.Pos() > l.End()) {
						r.shared[v] = true
					}
				}
			case *ast.UnaryExpr:
				if n.Op == token.AND {
					if v := root(n.X); v != nil {
						r.shared[v] = true
						r.written[v] = true
					}
				}
			case *ast.AssignStmt:
				for _, l := range n.Lhs {
					if v := root(l); v != nil {
						r.written[v] = true
					}
				}
			case *ast.IncDecStmt:
				if v := root(n.X); v != nil {
					r.written[v] = true
				}
			case *ast.RangeStmt:
				for _, l := range []ast.Expr{n.Key, n.Value} {
					if l != nil {
						if v := root(l); v != nil {
							r.written[v] = true
						}
					}
				}
			case *ast.SliceExpr:
				if _, ok := under(r.typeOf(n.X)).(*types.Array); ok {
					if v := root(n.X); v != nil {
						r.shared[v] = true
						r.written[v] = true
					}
				}
			case *ast.SelectorExpr:
				if s := r.info.Selections[n]; s != nil && s.Kind() == types.MethodVal {
					if fn, ok := s.Obj().(*types.Func); ok {
						if rv := fn.Type().(*types.Signature).Recv(); rv != nil {
							if _, ptr := rv.Type().(*types.Pointer); ptr {
								if _, isPtr := s.Recv().(*types.Pointer); !isPtr {
									if v := root(n.X); v != nil {
										r.shared[v] = true
										r.written[v] = true
									}
								}
							}
						}
					}
				}
			}
			return true
		})
	}
}

func (r *rw) file(f *ast.File) {
	r.need = map[string]string{}
	f.Comments = nil
	f.Doc = nil
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			d.Doc = nil
			if d.Recv != nil {
				r.typ(d.Recv)
			}
			r.typ(d.Type)
			if d.Body != nil {
				d.Body = r.block(d.Body)
			}
			if d.Recv == nil && d.Name.Name == "init" {
				r.inits++
				d.Name = id(fmt.Sprintf("mcv_init%d", r.inits))
			}
		case *ast.GenDecl:
			d.Doc = nil
			r.genDecl(d)
		}
	}
	// imports
	used := map[types.Object]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if i, ok := n.(*ast.Ident); ok {
			if p, ok := r.info.Uses[i].(*types.PkgName); ok {
				used[p] = true
			}
		}
		return true
	})
	var decls []ast.Decl
	var specs []ast.Spec
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			decls = append(decls, d)
			continue
		}
		for _, s := range g.Specs {
			is := s.(*ast.ImportSpec)
			keep := false
			var o types.Object
			if is.Name != nil {
				keep = is.Name.Name == "_" || is.Name.Name == "."
				o = r.info.Defs[is.Name]
			} else {
				o = r.info.Implicits[is]
			}
			if keep || used[o] {
				ns := &ast.ImportSpec{Path: &ast.BasicLit{Kind: token.STRING, Value: is.Path.Value}}
				if is.Name != nil {
					ns.Name = id(is.Name.Name)
				}
				specs = append(specs, ns)
			}
		}
	}
	for a, p := range r.need {
		specs = append(specs, &ast.ImportSpec{Name: id(a), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(p)}})
		r.allNeed[a] = p
	}
	f.Decls = nil
	for _, s := range specs {
		f.Decls = append(f.Decls, &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{s}})
	}
	f.Decls = append(f.Decls, decls...)
	f.Imports = nil
}

func (r *rw) write(path string, f *ast.File) {
	var b bytes.Buffer
	b.WriteString("//go:build go1.21\n\n")
	cfg := printer.Config{Mode: printer.RawFormat, Tabwidth: 4}
	if err := cfg.Fprint(&b, token.NewFileSet(), stripPos(f)); err != nil {
		fmt.Fprintln(os.Stderr, "instr: print:", err)
		os.Exit(3)
	}
	if err := os.WriteFile(path, b.Bytes(), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(3)
	}
}

// stripPos: positions of the original file only confuse the printer once nodes have moved; they are invalid in a fresh
// file set and therefore ignored, except where the printer compares raw values, which is harmless without comments.
func stripPos(f *ast.File) *ast.File { return f }

func (r *rw) resetFile(dir, pkgName string) {
	// variables in initialisation order
	var b bytes.Buffer
	var body []ast.Stmt
	seen := map[*types.Var]bool{}
	r.need = map[string]string{}
	for _, in := range r.info.InitOrder {
		need := false
		for _, v := range in.Lhs {
			seen[v] = true
			if v.Name() != "_" && r.needReset(v, in.Rhs) {
				need = true
			}
		}
		if !need {
			continue
		}
		rhs := r.newRHS[in.Rhs]
		if rhs == nil {
			continue
		}
		as := &ast.AssignStmt{Tok: token.ASSIGN, Rhs: []ast.Expr{rhs}}
		for _, v := range in.Lhs {
			as.Lhs = append(as.Lhs, id(v.Name()))
		}
		body = append(body, as)
	}
	var zero []ast.Stmt
	sc := r.pkg.Scope()
	for _, n := range sc.Names() {
		if v, ok := sc.Lookup(n).(*types.Var); ok && !seen[v] {
			zero = append(zero, &ast.ExprStmt{X: r.call("Zero", &ast.UnaryExpr{Op: token.AND, X: id(n)})})
		}
	}
	body = append(zero, body...)
	for i := 1; i <= r.inits; i++ {
		body = append(body, &ast.ExprStmt{X: &ast.CallExpr{Fun: id(fmt.Sprintf("mcv_init%d", i))}})
	}
	fmt.Fprintf(&b, "//go:build go1.21\n\npackage %s\n\n", pkgName)
	var fb bytes.Buffer
	printer.Fprint(&fb, token.NewFileSet(), &ast.BlockStmt{List: body})
	imps := map[string]string{"mc_": r.mc}
	for a, p := range r.allNeed {
		if strings.Contains(fb.String(), a+".") {
			imps[a] = p
		}
	}
	// original imports mentioned by initialisers
	for _, s := range body {
		ast.Inspect(s, func(n ast.Node) bool {
			if i, ok := n.(*ast.Ident); ok {
				if p, ok := r.info.Uses[i].(*types.PkgName); ok {
					imps[p.Name()] = p.Imported().Path()
				}
			}
			return true
		})
	}
	for a, p := range imps {
		fmt.Fprintf(&b, "import %s %q\n", a, p)
	}
	fmt.Fprintf(&b, "\nfunc init() {\n")
	for i := 1; i <= r.inits; i++ {
		fmt.Fprintf(&b, "\tmcv_init%d()\n", i)
	}
	fmt.Fprintf(&b, "\tmc_.RegisterReset(func() %s)\n}\n", fb.String())
	if err := os.WriteFile(filepath.Join(dir, "zz_mc_reset.go"), b.Bytes(), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(3)
	}
}

func (r *rw) external(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	if n.Obj().Pkg() == nil {
		return false
	}
	p := n.Obj().Pkg().Path()
	if r.rewritten[p] {
		return false
	}
	switch p {
	case "sync", "sync/atomic", "container/list", "context", "time":
		return n.Obj().Name() == "Duration"
	}
	return true
}

func (r *rw) needReset(v *types.Var, rhs ast.Expr) bool {
	if r.written[v] {
		return true
	}
	t := v.Type()
	if r.external(t) {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic, *types.Signature:
		return false
	case *types.Interface:
		_ = u
		if c, ok := rhs.(*ast.CallExpr); ok {
			if s, ok := c.Fun.(*ast.SelectorExpr); ok {
				if i, ok := s.X.(*ast.Ident); ok {
					if p, ok := r.info.Uses[i].(*types.PkgName); ok && !r.rewritten[p.Imported().Path()] {
						return false
					}
				}
			}
		}
	}
	return true
}
