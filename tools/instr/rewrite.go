package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strconv"
)

// what selectors of which packages are replaced
var repl = map[string]map[string]string{
	"sync":        {"*": "msync"},
	"sync/atomic": {"*": "matomic"},
	"time": {"Now": "mtime", "Since": "mtime", "Until": "mtime", "Sleep": "mtime", "After": "mtime", "AfterFunc": "mtime",
		"NewTimer": "mtime", "NewTicker": "mtime", "Tick": "mtime", "Timer": "mtime", "Ticker": "mtime"},
	"context": {"WithCancel": "mcontext", "WithTimeout": "mcontext", "WithDeadline": "mcontext", "WithCancelCause": "mcontext",
		"Cause": "mcontext", "AfterFunc": "mcontext"},
	"container/list": {"*": "mlist"},
	"runtime":        {"Gosched": ""},
}

// qualified returns the replacement of a qualified identifier, or nil.
func (r *rw) qualified(e *ast.SelectorExpr) (ast.Expr, bool) {
	x, ok := e.X.(*ast.Ident)
	if !ok {
		return nil, false
	}
	p, ok := r.info.Uses[x].(*types.PkgName)
	if !ok {
		return nil, false
	}
	path := p.Imported().Path()
	if r.sql && path == "database/sql" && e.Sel.Name == "Open" {
		return &ast.SelectorExpr{X: r.use("msql_", "msql"), Sel: id("Open")}, true
	}
	m := repl[path]
	if m == nil {
		return e, true
	}
	sub, hit := m[e.Sel.Name]
	if !hit {
		sub, hit = m["*"]
	}
	if !hit {
		return e, true
	}
	if path == "runtime" {
		return r.mcSel("Point"), true
	}
	return &ast.SelectorExpr{X: r.use(sub+"_", sub), Sel: id(e.Sel.Name)}, true
}

// typ rewrites the qualified identifiers inside a type expression (in place where possible).
func (r *rw) typ(n ast.Node) {
	ast.Inspect(n, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.Field:
			n.Type = r.texpr(n.Type)
			n.Doc, n.Comment = nil, nil
			if s, ok := n.Type.(*ast.SelectorExpr); ok {
				_ = s
				return false
			}
		case *ast.StarExpr:
			n.X = r.texpr(n.X)
		case *ast.ArrayType:
			n.Elt = r.texpr(n.Elt)
		case *ast.MapType:
			n.Key, n.Value = r.texpr(n.Key), r.texpr(n.Value)
		case *ast.ChanType:
			n.Value = r.texpr(n.Value)
		case *ast.Ellipsis:
			if n.Elt != nil {
				n.Elt = r.texpr(n.Elt)
			}
		case *ast.ParenExpr:
			n.X = r.texpr(n.X)
		case *ast.TypeSpec:
			n.Type = r.texpr(n.Type)
			n.Doc, n.Comment = nil, nil
		case *ast.IndexExpr:
			n.X, n.Index = r.texpr(n.X), r.texpr(n.Index)
		}
		return true
	})
}

func (r *rw) texpr(e ast.Expr) ast.Expr {
	if s, ok := e.(*ast.SelectorExpr); ok {
		if n, ok := r.qualified(s); ok {
			return n
		}
	}
	return e
}

func (r *rw) typeExpr(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	e = r.texpr(e)
	if _, ok := e.(*ast.SelectorExpr); !ok {
		r.typ(e)
	}
	return e
}

func (r *rw) genDecl(d *ast.GenDecl) {
	for _, s := range d.Specs {
		switch s := s.(type) {
		case *ast.TypeSpec:
			r.typ(s)
		case *ast.ValueSpec:
			s.Doc, s.Comment = nil, nil
			if s.Type != nil {
				s.Type = r.typeExpr(s.Type)
			}
			if d.Tok == token.VAR {
				for i, v := range s.Values {
					if len(s.Names) == 2 && len(s.Values) == 1 {
						s.Values[i] = r.expr2(v)
					} else {
						s.Values[i] = r.expr(v)
					}
					r.newRHS[v] = s.Values[i]
				}
			}
		}
	}
}

func (r *rw) exprs(es []ast.Expr) []ast.Expr {
	for i, e := range es {
		es[i] = r.expr(e)
	}
	return es
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func (r *rw) typeOf(e ast.Expr) types.Type { return r.info.TypeOf(e) }

func isPtr(t types.Type) bool { _, ok := under(t).(*types.Pointer); return ok }

// sharedLoc tells whether the location e (an addressable expression) can be reached by several goroutines.
func (r *rw) sharedLoc(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.Ident:
		if e.Name == "_" {
			return false
		}
		v, ok := r.info.Uses[e].(*types.Var)
		if !ok {
			v, ok = r.info.Defs[e].(*types.Var)
		}
		return ok && r.shared[v]
	case *ast.ParenExpr:
		return r.sharedLoc(e.X)
	case *ast.StarExpr:
		return true
	case *ast.SelectorExpr:
		s := r.info.Selections[e]
		if s == nil || s.Kind() != types.FieldVal {
			return false // variable of another package
		}
		if s.Indirect() || isPtr(r.typeOf(e.X)) {
			return true
		}
		return r.sharedLoc(e.X)
	case *ast.IndexExpr:
		switch under(r.typeOf(e.X)).(type) {
		case *types.Slice, *types.Pointer:
			return true
		case *types.Array:
			return r.sharedLoc(e.X)
		}
	}
	return false
}

func (r *rw) addressable(e ast.Expr) bool { return r.info.Types[e].Addressable() }

func (r *rw) read(loc ast.Expr, a ast.Expr) ast.Expr {
	if !r.race {
		return a
	}
	return &ast.ParenExpr{X: &ast.StarExpr{X: r.call("R", &ast.UnaryExpr{Op: token.AND, X: a}, loc)}}
}

// addr rewrites e as a location.
func (r *rw) addr(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case *ast.Ident:
		return e
	case *ast.ParenExpr:
		e.X = r.addr(e.X)
		return e
	case *ast.StarExpr:
		e.X = r.expr(e.X)
		return e
	case *ast.SelectorExpr:
		if n, ok := r.qualified(e); ok {
			return n
		}
		if isPtr(r.typeOf(e.X)) || !r.addressable(e.X) {
			e.X = r.expr(e.X)
		} else {
			e.X = r.addr(e.X)
		}
		return e
	case *ast.IndexExpr:
		if _, ok := under(r.typeOf(e.X)).(*types.Array); ok {
			e.X = r.addr(e.X)
		} else {
			e.X = r.expr(e.X)
		}
		e.Index = r.expr(e.Index)
		return e
	}
	return r.expr(e)
}

// expr2 rewrites the operand of a two-value assignment.
func (r *rw) expr2(e ast.Expr) ast.Expr {
	if p, ok := e.(*ast.ParenExpr); ok {
		return r.expr2(p.X)
	}
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		return r.call("Recv2", r.expr(u.X))
	}
	return r.expr(e)
}

// expr rewrites e as a value.
func (r *rw) expr(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	tv, known := r.info.Types[e]
	if known && tv.IsType() {
		return r.typeExpr(e)
	}
	if known && tv.Value != nil {
		return e
	}
	switch e := e.(type) {
	case *ast.Ident:
		if _, ok := r.info.Uses[e].(*types.Var); ok && r.sharedLoc(e) {
			return r.read(r.loc(e), e)
		}
		return e
	case *ast.BasicLit:
		return e
	case *ast.FuncLit:
		r.typ(e.Type)
		e.Body = r.block(e.Body)
		return e
	case *ast.CompositeLit:
		isStruct := false
		t := under(r.typeOf(e))
		if p, ok := t.(*types.Pointer); ok {
			t = under(p.Elem())
		}
		_, isStruct = t.(*types.Struct)
		if e.Type != nil {
			e.Type = r.typeExpr(e.Type)
		}
		for i, el := range e.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				if !isStruct {
					kv.Key = r.expr(kv.Key)
				}
				kv.Value = r.expr(kv.Value)
			} else {
				e.Elts[i] = r.expr(el)
			}
		}
		return e
	case *ast.ParenExpr:
		e.X = r.expr(e.X)
		return e
	case *ast.SelectorExpr:
		if n, ok := r.qualified(e); ok {
			return n
		}
		s := r.info.Selections[e]
		if s == nil {
			return e
		}
		switch s.Kind() {
		case types.FieldVal:
			if r.addressable(e) {
				sh, l := r.sharedLoc(e), r.loc(e)
				a := r.addr(e)
				if sh {
					return r.read(l, a)
				}
				return a
			}
			e.X = r.expr(e.X)
			return e
		case types.MethodVal:
			ptrRecv := false
			if fn, ok := s.Obj().(*types.Func); ok {
				if rv := fn.Type().(*types.Signature).Recv(); rv != nil {
					_, ptrRecv = rv.Type().(*types.Pointer)
				}
			}
			if !isPtr(r.typeOf(e.X)) && (ptrRecv || s.Indirect()) && r.addressable(e.X) {
				e.X = r.addr(e.X)
			} else if !isPtr(r.typeOf(e.X)) && len(s.Index()) > 1 && r.addressable(e.X) {
				e.X = r.addr(e.X)
			} else {
				e.X = r.expr(e.X)
			}
			return e
		default: // method expression
			return e
		}
	case *ast.IndexExpr:
		switch under(r.typeOf(e.X)).(type) {
		case *types.Map:
			l := r.loc(e)
			e.X = r.expr(e.X)
			e.Index = r.expr(e.Index)
			if r.race {
				e.X = r.call("MapR", e.X, l)
			}
			return e
		case *types.Slice, *types.Pointer, *types.Array:
			if r.addressable(e) {
				sh, l := r.sharedLoc(e), r.loc(e)
				a := r.addr(e)
				if sh {
					return r.read(l, a)
				}
				return a
			}
			e.X = r.expr(e.X)
			e.Index = r.expr(e.Index)
			return e
		case *types.Basic:
			e.X = r.expr(e.X)
			e.Index = r.expr(e.Index)
			return e
		}
		return e
	case *ast.SliceExpr:
		if _, ok := under(r.typeOf(e.X)).(*types.Array); ok {
			e.X = r.addr(e.X)
		} else {
			e.X = r.expr(e.X)
		}
		e.Low, e.High, e.Max = r.expr(e.Low), r.expr(e.High), r.expr(e.Max)
		return e
	case *ast.StarExpr:
		l := r.loc(e)
		e.X = r.expr(e.X)
		if r.race {
			e.X = r.call("R", e.X, l)
		}
		return e
	case *ast.UnaryExpr:
		switch e.Op {
		case token.AND:
			if _, ok := ast.Unparen(e.X).(*ast.CompositeLit); ok {
				e.X = r.expr(e.X)
			} else {
				e.X = r.addr(e.X)
			}
			return e
		case token.ARROW:
			return r.call("Recv", r.expr(e.X))
		}
		e.X = r.expr(e.X)
		return e
	case *ast.BinaryExpr:
		e.X, e.Y = r.expr(e.X), r.expr(e.Y)
		return e
	case *ast.TypeAssertExpr:
		e.X = r.expr(e.X)
		if e.Type != nil {
			e.Type = r.typeExpr(e.Type)
		}
		return e
	case *ast.KeyValueExpr:
		e.Key, e.Value = r.expr(e.Key), r.expr(e.Value)
		return e
	case *ast.CallExpr:
		return r.callExpr(e)
	}
	return e
}

func (r *rw) callExpr(e *ast.CallExpr) ast.Expr {
	if tv := r.info.Types[e.Fun]; tv.IsType() {
		e.Fun = r.typeExpr(e.Fun)
		e.Args = r.exprs(e.Args)
		return e
	} else if tv.IsBuiltin() {
		name := ""
		switch f := ast.Unparen(e.Fun).(type) {
		case *ast.Ident:
			name = f.Name
		case *ast.SelectorExpr:
			name = f.Sel.Name
		}
		switch name {
		case "close":
			return r.call("Close", r.expr(e.Args[0]))
		case "len":
			switch under(r.typeOf(e.Args[0])).(type) {
			case *types.Chan:
				return r.call("ChLen", r.expr(e.Args[0]))
			case *types.Map:
				l := r.loc(e)
				a := r.expr(e.Args[0])
				if r.race {
					a = r.call("MapR", a, l)
				}
				e.Args[0] = a
				return e
			}
		case "delete":
			l := r.loc(e)
			m := r.expr(e.Args[0])
			k := r.expr(e.Args[1])
			if r.race {
				m = r.call("MapW", m, l)
			}
			e.Args = []ast.Expr{m, k}
			return e
		case "clear":
			l := r.loc(e)
			if _, ok := under(r.typeOf(e.Args[0])).(*types.Map); ok && r.race {
				e.Args[0] = r.call("MapW", r.expr(e.Args[0]), l)
				return e
			}
		}
		e.Args = r.exprs(e.Args)
		return e
	}
	e.Fun = r.expr(e.Fun)
	e.Args = r.exprs(e.Args)
	return e
}

// pure: evaluating e performs no call and no receive.
func (r *rw) pure(es ...ast.Expr) bool {
	p := true
	for _, e := range es {
		if e == nil {
			continue
		}
		ast.Inspect(e, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.FuncLit:
				return false
			case *ast.CallExpr:
				tv := r.info.Types[n.Fun]
				if !tv.IsType() && !tv.IsBuiltin() {
					p = false
				}
			case *ast.UnaryExpr:
				if n.Op == token.ARROW {
					p = false
				}
			}
			return true
		})
	}
	return p
}

func (r *rw) block(b *ast.BlockStmt) *ast.BlockStmt {
	if b == nil {
		return nil
	}
	return &ast.BlockStmt{List: r.stmts(b.List)}
}

func (r *rw) stmts(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		out = append(out, r.stmt(s, "")...)
	}
	return out
}

// one rewrites a statement in a position where only one simple statement is allowed.
func (r *rw) one(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	switch s := s.(type) {
	case *ast.AssignStmt:
		return r.assign(s, false)[0]
	case *ast.IncDecStmt:
		return r.incdec(s)
	}
	l := r.stmt(s, "")
	if len(l) != 1 {
		panic("instr: cannot rewrite a simple statement")
	}
	return l[0]
}

func isMapIndex(r *rw, e ast.Expr) (*ast.IndexExpr, bool) {
	ix, ok := ast.Unparen(e).(*ast.IndexExpr)
	if !ok {
		return nil, false
	}
	_, ok = under(r.typeOf(ix.X)).(*types.Map)
	return ix, ok
}

// lhsPre rewrites an assignment target so that the write is recorded when the target is evaluated.
func (r *rw) lhsPre(e ast.Expr) ast.Expr {
	l := r.loc(e)
	if ix, ok := isMapIndex(r, e); ok {
		ix.X = r.expr(ix.X)
		ix.Index = r.expr(ix.Index)
		if r.race {
			ix.X = r.call("MapW", ix.X, l)
		}
		return ix
	}
	if i, ok := e.(*ast.Ident); ok && i.Name == "_" {
		return e
	}
	sh := r.race && r.sharedLoc(e)
	a := r.addr(e)
	if !sh {
		return a
	}
	return &ast.StarExpr{X: r.call("W", &ast.UnaryExpr{Op: token.AND, X: a}, l)}
}

func (r *rw) incdec(s *ast.IncDecStmt) ast.Stmt {
	x := r.lhsPre(s.X)
	if st, ok := x.(*ast.StarExpr); ok {
		x = &ast.ParenExpr{X: st}
	}
	return &ast.IncDecStmt{X: x, Tok: s.Tok}
}

func (r *rw) assign(s *ast.AssignStmt, list bool) []ast.Stmt {
	two := len(s.Lhs) == 2 && len(s.Rhs) == 1
	pureR := r.pure(s.Rhs...)
	pureL := r.pure(s.Lhs...)
	var post []ast.Stmt
	out := &ast.AssignStmt{Tok: s.Tok}
	if s.Tok == token.DEFINE {
		for _, l := range s.Lhs {
			out.Lhs = append(out.Lhs, l)
			if i, ok := l.(*ast.Ident); ok && list && r.race && r.info.Defs[i] == nil && r.sharedLoc(i) {
				post = append(post, &ast.ExprStmt{X: r.call("W", &ast.UnaryExpr{Op: token.AND, X: id(i.Name)}, r.loc(i))})
			}
		}
	} else if pureR || !list || !pureL || s.Tok != token.ASSIGN {
		for _, l := range s.Lhs {
			out.Lhs = append(out.Lhs, r.lhsPre(l))
		}
	} else {
		for _, l := range s.Lhs {
			lc := r.loc(l)
			if ix, ok := isMapIndex(r, l); ok {
				ix.X = r.expr(ix.X)
				ix.Index = r.expr(ix.Index)
				out.Lhs = append(out.Lhs, ix)
				if r.race {
					post = append(post, &ast.ExprStmt{X: r.call("MapW", ix.X, lc)})
				}
				continue
			}
			sh := r.race && r.sharedLoc(l)
			a := r.addr(l)
			out.Lhs = append(out.Lhs, a)
			if sh {
				post = append(post, &ast.ExprStmt{X: r.call("W", &ast.UnaryExpr{Op: token.AND, X: a}, lc)})
			}
		}
	}
	for _, e := range s.Rhs {
		if two {
			out.Rhs = append(out.Rhs, r.expr2(e))
		} else {
			out.Rhs = append(out.Rhs, r.expr(e))
		}
	}
	return append([]ast.Stmt{out}, post...)
}

func define(names []string, rhs ...ast.Expr) *ast.AssignStmt {
	a := &ast.AssignStmt{Tok: token.DEFINE, Rhs: rhs}
	for _, n := range names {
		a.Lhs = append(a.Lhs, id(n))
	}
	return a
}

func labeled(label string, s ast.Stmt) ast.Stmt {
	if label == "" {
		return s
	}
	return &ast.LabeledStmt{Label: id(label), Stmt: s}
}

func (r *rw) stmt(s ast.Stmt, label string) []ast.Stmt {
	one := func(s ast.Stmt) []ast.Stmt { return []ast.Stmt{labeled(label, s)} }
	switch s := s.(type) {
	case *ast.LabeledStmt:
		switch s.Stmt.(type) {
		case *ast.ForStmt, *ast.RangeStmt, *ast.SelectStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt:
			return r.stmt(s.Stmt, s.Label.Name)
		}
		l := r.stmt(s.Stmt, "")
		l[0] = labeled(s.Label.Name, l[0])
		return l
	case *ast.ExprStmt:
		return one(&ast.ExprStmt{X: r.expr(s.X)})
	case *ast.SendStmt:
		ch, v := r.expr(s.Chan), r.expr(s.Value)
		return one(&ast.ExprStmt{X: &ast.CallExpr{Fun: r.call("SendTo", ch), Args: []ast.Expr{v}}})
	case *ast.IncDecStmt:
		return one(r.incdec(s))
	case *ast.AssignStmt:
		return r.assign(s, true)
	case *ast.GoStmt:
		return r.goStmt(s)
	case *ast.DeferStmt:
		c := r.expr(s.Call)
		call, ok := c.(*ast.CallExpr)
		if !ok {
			call = &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: c}}}}}
		}
		return one(&ast.DeferStmt{Call: call})
	case *ast.ReturnStmt:
		n := &ast.ReturnStmt{}
		for _, e := range s.Results {
			n.Results = append(n.Results, r.expr(e))
		}
		return one(n)
	case *ast.BlockStmt:
		return one(r.block(s))
	case *ast.IfStmt:
		n := &ast.IfStmt{Init: r.one(s.Init), Cond: r.expr(s.Cond), Body: r.block(s.Body)}
		if s.Else != nil {
			l := r.stmt(s.Else, "")
			n.Else = l[0]
		}
		return one(n)
	case *ast.SwitchStmt:
		n := &ast.SwitchStmt{Init: r.one(s.Init), Body: &ast.BlockStmt{}}
		if s.Tag != nil {
			n.Tag = r.expr(s.Tag)
		}
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			n.Body.List = append(n.Body.List, &ast.CaseClause{List: r.exprs(cc.List), Body: r.stmts(cc.Body)})
		}
		return one(n)
	case *ast.TypeSwitchStmt:
		n := &ast.TypeSwitchStmt{Init: r.one(s.Init), Body: &ast.BlockStmt{}}
		switch a := s.Assign.(type) {
		case *ast.ExprStmt:
			n.Assign = &ast.ExprStmt{X: r.expr(a.X)}
		case *ast.AssignStmt:
			n.Assign = &ast.AssignStmt{Lhs: a.Lhs, Tok: a.Tok, Rhs: []ast.Expr{r.expr(a.Rhs[0])}}
		}
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			n.Body.List = append(n.Body.List, &ast.CaseClause{List: r.exprs(cc.List), Body: r.stmts(cc.Body)})
		}
		return one(n)
	case *ast.ForStmt:
		return one(&ast.ForStmt{Init: r.one(s.Init), Cond: r.expr(s.Cond), Post: r.one(s.Post), Body: r.block(s.Body)})
	case *ast.RangeStmt:
		return r.rangeStmt(s, label)
	case *ast.SelectStmt:
		return r.selectStmt(s, label)
	case *ast.DeclStmt:
		if g, ok := s.Decl.(*ast.GenDecl); ok {
			r.genDecl(g)
		}
		return one(s)
	}
	return one(s)
}

func (r *rw) goStmt(s *ast.GoStmt) []ast.Stmt {
	l := r.loc(s)
	c := s.Call
	if fl, ok := ast.Unparen(c.Fun).(*ast.FuncLit); ok && len(c.Args) == 0 {
		f := r.expr(fl)
		return []ast.Stmt{&ast.ExprStmt{X: r.call("Go", l, f)}}
	}
	builtin := r.info.Types[c.Fun].IsBuiltin()
	var pre []ast.Stmt
	args := make([]ast.Expr, len(c.Args))
	if builtin {
		body := &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: r.expr(c)}}}
		return []ast.Stmt{&ast.ExprStmt{X: r.call("Go", l, &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: body})}}
	}
	fn := r.name("f")
	pre = append(pre, define([]string{fn}, r.expr(c.Fun)))
	for i, a := range c.Args {
		tv := r.info.Types[a]
		if tv.Value != nil || tv.IsNil() {
			args[i] = a
			continue
		}
		if _, ok := a.(*ast.FuncLit); ok {
			args[i] = r.expr(a)
			continue
		}
		n := r.name("a")
		pre = append(pre, define([]string{n}, r.expr(a)))
		args[i] = id(n)
	}
	call := &ast.CallExpr{Fun: id(fn), Args: args}
	if c.Ellipsis.IsValid() {
		call.Ellipsis = 1
	}
	body := &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call}}}
	pre = append(pre, &ast.ExprStmt{X: r.call("Go", l, &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: body})})
	return []ast.Stmt{&ast.BlockStmt{List: pre}}
}

func isBlank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	i, ok := e.(*ast.Ident)
	return ok && i.Name == "_"
}

func (r *rw) rangeStmt(s *ast.RangeStmt, label string) []ast.Stmt {
	t := under(r.typeOf(s.X))
	switch t.(type) {
	case *types.Chan:
		ch, ok := r.name("ch"), r.name("ok")
		pre := []ast.Stmt{define([]string{ch}, r.expr(s.X))}
		recv := func() ast.Expr { return r.call("Recv2", id(ch)) }
		var loop *ast.ForStmt
		body := r.block(s.Body)
		if !isBlank(s.Key) && s.Tok == token.DEFINE {
			v := s.Key.(*ast.Ident).Name
			pre = append(pre, define([]string{v, ok}, recv()))
			loop = &ast.ForStmt{Cond: id(ok), Post: &ast.AssignStmt{Lhs: []ast.Expr{id(v), id(ok)}, Tok: token.ASSIGN, Rhs: []ast.Expr{recv()}}, Body: body}
		} else {
			v := r.name("v")
			pre = append(pre, define([]string{v, ok}, recv()), &ast.AssignStmt{Lhs: []ast.Expr{id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(v)}})
			if !isBlank(s.Key) {
				body.List = append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{r.lhsPre(s.Key)}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(v)}}}, body.List...)
			}
			loop = &ast.ForStmt{Cond: id(ok), Post: &ast.AssignStmt{Lhs: []ast.Expr{id(v), id(ok)}, Tok: token.ASSIGN, Rhs: []ast.Expr{recv()}}, Body: body}
		}
		return []ast.Stmt{&ast.BlockStmt{List: append(pre, labeled(label, loop))}}
	case *types.Map:
		it := r.name("it")
		l := r.loc(s)
		pre := []ast.Stmt{define([]string{it}, r.call("NewMapIter", r.expr(s.X), l))}
		body := r.block(s.Body)
		var asg []ast.Stmt
		for i, e := range []ast.Expr{s.Key, s.Value} {
			if isBlank(e) {
				continue
			}
			f := []string{"K", "V"}[i]
			sel := func() ast.Expr { return &ast.SelectorExpr{X: id(it), Sel: id(f)} }
			if s.Tok == token.DEFINE {
				n := e.(*ast.Ident).Name
				pre = append(pre, define([]string{n}, sel()))
				asg = append(asg, &ast.AssignStmt{Lhs: []ast.Expr{id(n)}, Tok: token.ASSIGN, Rhs: []ast.Expr{sel()}})
			} else {
				asg = append(asg, &ast.AssignStmt{Lhs: []ast.Expr{r.lhsPre(e)}, Tok: token.ASSIGN, Rhs: []ast.Expr{sel()}})
			}
		}
		body.List = append(asg, body.List...)
		loop := &ast.ForStmt{Cond: &ast.CallExpr{Fun: &ast.SelectorExpr{X: id(it), Sel: id("Next")}}, Body: body}
		return []ast.Stmt{&ast.BlockStmt{List: append(pre, labeled(label, loop))}}
	}
	n := &ast.RangeStmt{Key: s.Key, Value: s.Value, Tok: s.Tok, X: r.expr(s.X), Body: r.block(s.Body)}
	if s.Tok == token.ASSIGN {
		if !isBlank(s.Key) {
			n.Key = r.addr(s.Key)
		}
		if !isBlank(s.Value) {
			n.Value = r.addr(s.Value)
		}
	}
	return []ast.Stmt{labeled(label, n)}
}

func (r *rw) selectStmt(s *ast.SelectStmt, label string) []ast.Stmt {
	if len(s.Body.List) == 0 {
		return []ast.Stmt{&ast.ExprStmt{X: r.call("Block")}}
	}
	var pre []ast.Stmt
	hasDef := "false"
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	var cases []ast.Expr
	idx := 0
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDef = "true"
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{&ast.UnaryExpr{Op: token.SUB, X: &ast.BasicLit{Kind: token.INT, Value: "1"}}}, Body: r.stmts(cc.Body)})
			continue
		}
		cn := r.name("c")
		var asg []ast.Stmt
		switch m := cc.Comm.(type) {
		case *ast.SendStmt:
			ch, v := r.expr(m.Chan), r.expr(m.Value)
			pre = append(pre, define([]string{cn}, &ast.CallExpr{Fun: r.call("SS", ch), Args: []ast.Expr{v}}))
		case *ast.ExprStmt:
			u := ast.Unparen(m.X).(*ast.UnaryExpr)
			pre = append(pre, define([]string{cn}, r.call("SR", r.expr(u.X))))
		case *ast.AssignStmt:
			u := ast.Unparen(m.Rhs[0]).(*ast.UnaryExpr)
			pre = append(pre, define([]string{cn}, r.call("SR", r.expr(u.X))))
			a := &ast.AssignStmt{Tok: m.Tok}
			allBlank := true
			for i, l := range m.Lhs {
				if !isBlank(l) {
					allBlank = false
				}
				if m.Tok == token.DEFINE {
					a.Lhs = append(a.Lhs, l)
				} else {
					a.Lhs = append(a.Lhs, r.lhsPre(l))
				}
				a.Rhs = append(a.Rhs, &ast.SelectorExpr{X: id(cn), Sel: id([]string{"V", "OK"}[i])})
			}
			if allBlank {
				a.Tok = token.ASSIGN
			}
			asg = append(asg, a)
		default:
			panic(fmt.Sprintf("instr: select case %T", m))
		}
		cases = append(cases, id(cn))
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(idx)}}, Body: append(asg, r.stmts(cc.Body)...)})
		idx++
	}
	sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: id("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"mc: unreachable"`}}}}}})
	sw.Tag = r.call("Sel", append([]ast.Expr{id(hasDef)}, cases...)...)
	return []ast.Stmt{&ast.BlockStmt{List: append(pre, labeled(label, sw))}}
}
