//go:build go1.22

package fakeredis

// A small interpreter for the part of Lua 5.1 that Redis scripts use. Values are nil, bool, float64, string, *ltable,
// *lfunc.

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"sync"
)

type lval = any

type ltable struct {
	arr  []lval // 1..n
	hash map[lval]lval
}

func (t *ltable) get(k lval) lval {
	if f, ok := k.(float64); ok && f >= 1 && f <= float64(len(t.arr)) && f == math.Trunc(f) {
		return t.arr[int(f)-1]
	}
	return t.hash[k]
}

func (t *ltable) set(k, v lval) {
	if k == nil {
		panic(lerr("table index is nil"))
	}
	if f, ok := k.(float64); ok && f == math.Trunc(f) && f >= 1 {
		i := int(f)
		if i <= len(t.arr) {
			if v == nil && i == len(t.arr) {
				t.arr = t.arr[:i-1]
				for len(t.arr) > 0 && t.arr[len(t.arr)-1] == nil {
					t.arr = t.arr[:len(t.arr)-1]
				}
				return
			}
			t.arr[i-1] = v
			return
		}
		if i == len(t.arr)+1 && v != nil {
			t.arr = append(t.arr, v)
			for {
				n, ok := t.hash[float64(len(t.arr)+1)]
				if !ok {
					break
				}
				delete(t.hash, float64(len(t.arr)+1))
				t.arr = append(t.arr, n)
			}
			return
		}
	}
	if v == nil {
		delete(t.hash, k)
		return
	}
	if t.hash == nil {
		t.hash = map[lval]lval{}
	}
	t.hash[k] = v
}

func (t *ltable) keys() []lval {
	var ks []lval
	for i, v := range t.arr {
		if v != nil {
			ks = append(ks, float64(i+1))
		}
	}
	var rest []lval
	for k := range t.hash {
		rest = append(rest, k)
	}
	sort.Slice(rest, func(i, j int) bool { return fmt.Sprint(rest[i]) < fmt.Sprint(rest[j]) })
	return append(ks, rest...)
}

type lfunc struct{ f func(args []lval) []lval }

type lraise struct{ v lval }

func lerr(f string, a ...any) lraise { return lraise{fmt.Sprintf(f, a...)} }

// ---- lexer ----

type tok struct {
	k    byte // 'n' number, 's' string, 'i' name, 'k' keyword, 'o' operator, 'e' end
	s    string
	n    float64
	line int
}

var keywords = map[string]bool{}

func init() {
	for _, k := range strings.Fields("and break do else elseif end false for function if in local nil not or repeat return then true until while") {
		keywords[k] = true
	}
}

func lex(src string) []tok {
	var ts []tok
	line := 1
	i := 0
	isA := func(c byte) bool { return c == '_' || (c|32 >= 'a' && c|32 <= 'z') }
	isD := func(c byte) bool { return c >= '0' && c <= '9' }
	long := func(i int) (string, int, bool) { // at '[': long bracket?
		j := i + 1
		for j < len(src) && src[j] == '=' {
			j++
		}
		if j >= len(src) || src[j] != '[' {
			return "", i, false
		}
		cl := "]" + strings.Repeat("=", j-i-1) + "]"
		e := strings.Index(src[j+1:], cl)
		if e < 0 {
			panic(lerr("unfinished long string"))
		}
		s := src[j+1 : j+1+e]
		line += strings.Count(s, "\n")
		return strings.TrimPrefix(s, "\n"), j + 1 + e + len(cl), true
	}
	for i < len(src) {
		c := src[i]
		switch {
		case c == '\n':
			line++
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case strings.HasPrefix(src[i:], "--"):
			i += 2
			if i < len(src) && src[i] == '[' {
				if _, j, ok := long(i); ok {
					i = j
					continue
				}
			}
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case isA(c):
			j := i
			for j < len(src) && (isA(src[j]) || isD(src[j])) {
				j++
			}
			w := src[i:j]
			if keywords[w] {
				ts = append(ts, tok{'k', w, 0, line})
			} else {
				ts = append(ts, tok{'i', w, 0, line})
			}
			i = j
		case isD(c) || (c == '.' && i+1 < len(src) && isD(src[i+1])):
			j := i
			if strings.HasPrefix(strings.ToLower(src[i:]), "0x") {
				j += 2
				for j < len(src) && strings.IndexByte("0123456789abcdefABCDEF", src[j]) >= 0 {
					j++
				}
			} else {
				for j < len(src) && (isD(src[j]) || src[j] == '.' || src[j]|32 == 'e' || ((src[j] == '-' || src[j] == '+') && src[j-1]|32 == 'e')) {
					j++
				}
			}
			n, ok := str2num(src[i:j])
			if !ok {
				panic(lerr("malformed number near '%s'", src[i:j]))
			}
			ts = append(ts, tok{'n', "", n, line})
			i = j
		case c == '"' || c == '\'':
			var b []byte
			j := i + 1
			for ; ; j++ {
				if j >= len(src) || src[j] == '\n' {
					panic(lerr("unfinished string"))
				}
				if src[j] == c {
					break
				}
				if src[j] == '\\' {
					j++
					switch src[j] {
					case 'n':
						b = append(b, '\n')
					case 't':
						b = append(b, '\t')
					case 'r':
						b = append(b, '\r')
					default:
						if isD(src[j]) {
							n := 0
							k := 0
							for ; k < 3 && j+k < len(src) && isD(src[j+k]); k++ {
								n = n*10 + int(src[j+k]-'0')
							}
							j += k - 1
							b = append(b, byte(n))
						} else {
							b = append(b, src[j])
						}
					}
					continue
				}
				b = append(b, src[j])
			}
			ts = append(ts, tok{'s', string(b), 0, line})
			i = j + 1
		default:
			if c == '[' {
				if s, j, ok := long(i); ok {
					ts = append(ts, tok{'s', s, 0, line})
					i = j
					continue
				}
			}
			ok := false
			for _, o := range []string{"...", "..", "==", "~=", "<=", ">=", "+", "-", "*", "/", "%", "^", "#", "<", ">", "=", "(", ")", "{", "}", "[", "]", ";", ":", ",", "."} {
				if strings.HasPrefix(src[i:], o) {
					ts = append(ts, tok{'o', o, 0, line})
					i += len(o)
					ok = true
					break
				}
			}
			if !ok {
				panic(lerr("unexpected symbol near '%c'", c))
			}
		}
	}
	return append(ts, tok{'e', "<eof>", 0, line})
}

func str2num(s string) (float64, bool) {
	s = strings.TrimSpace(s)
	if l := strings.ToLower(s); strings.HasPrefix(l, "0x") {
		n, err := strconv.ParseUint(l[2:], 16, 64)
		return float64(n), err == nil
	}
	l := strings.ToLower(s)
	if strings.ContainsAny(l, "_xp") || strings.Contains(l, "inf") || strings.Contains(l, "nan") {
		return 0, false
	}
	n, err := strconv.ParseFloat(s, 64)
	if err != nil && !math.IsInf(n, 0) {
		return 0, false
	}
	return n, true
}

// ---- compiler to closures ----

type scope struct {
	vars   map[string]*lval
	parent *scope
}

func (s *scope) find(n string) *lval {
	for ; s != nil; s = s.parent {
		if v, ok := s.vars[n]; ok {
			return v
		}
	}
	return nil
}

type env struct {
	globals map[string]lval
	steps   int
}

type frame struct {
	e       *env
	sc      *scope
	varargs []lval
}

type ctl int

const (
	cNone ctl = iota
	cBreak
	cReturn
)

type stmt func(f *frame) (ctl, []lval)
type expr func(f *frame) []lval // most give exactly one value

type parser struct {
	ts []tok
	p  int
}

func (p *parser) cur() tok { return p.ts[p.p] }
func (p *parser) is(s string) bool {
	t := p.cur()
	return (t.k == 'o' || t.k == 'k') && t.s == s
}
func (p *parser) acc(s string) bool {
	if p.is(s) {
		p.p++
		return true
	}
	return false
}
func (p *parser) want(s string) {
	if !p.acc(s) {
		panic(lerr("'%s' expected near '%s' (line %d)", s, p.cur().s, p.cur().line))
	}
}
func (p *parser) name() string {
	t := p.cur()
	if t.k != 'i' {
		panic(lerr("<name> expected near '%s' (line %d)", t.s, t.line))
	}
	p.p++
	return t.s
}

func (p *parser) blockEnd() bool {
	return p.cur().k == 'e' || p.is("end") || p.is("else") || p.is("elseif") || p.is("until")
}

func (p *parser) body() []stmt {
	var ss []stmt
	for !p.blockEnd() {
		if p.acc("return") {
			var es []expr
			if !p.blockEnd() && !p.is(";") {
				es = p.exprs()
			}
			p.acc(";")
			ss = append(ss, func(f *frame) (ctl, []lval) { return cReturn, evalList(es, f) })
			break
		}
		if p.acc("break") {
			p.acc(";")
			ss = append(ss, func(f *frame) (ctl, []lval) { return cBreak, nil })
			break
		}
		ss = append(ss, p.stmt())
		p.acc(";")
	}
	return ss
}

func runBody(ss []stmt, f *frame) (ctl, []lval) {
	for _, s := range ss {
		f.e.steps++
		if f.e.steps > 1000000 {
			panic(lerr("script ran too long"))
		}
		if c, v := s(f); c != cNone {
			return c, v
		}
	}
	return cNone, nil
}

func inner(f *frame) *frame {
	return &frame{f.e, &scope{map[string]*lval{}, f.sc}, f.varargs}
}

func runBlock(ss []stmt, f *frame) (ctl, []lval) { return runBody(ss, inner(f)) }

func (f *frame) local(n string, v lval) {
	x := v
	f.sc.vars[n] = &x
}

func one(v []lval) lval {
	if len(v) == 0 {
		return nil
	}
	return v[0]
}

func evalList(es []expr, f *frame) []lval {
	var out []lval
	for i, e := range es {
		v := e(f)
		if i == len(es)-1 {
			out = append(out, v...)
		} else {
			out = append(out, one(v))
		}
	}
	return out
}

func at(v []lval, i int) lval {
	if i < len(v) {
		return v[i]
	}
	return nil
}

func truth(v lval) bool { return v != nil && v != false }

func (p *parser) exprs() []expr {
	es := []expr{p.expr(0)}
	for p.acc(",") {
		es = append(es, p.expr(0))
	}
	return es
}

func (p *parser) stmt() stmt {
	switch {
	case p.acc("do"):
		b := p.body()
		p.want("end")
		return func(f *frame) (ctl, []lval) { return runBlock(b, f) }
	case p.acc("while"):
		c := p.expr(0)
		p.want("do")
		b := p.body()
		p.want("end")
		return func(f *frame) (ctl, []lval) {
			for truth(one(c(f))) {
				f.e.steps++
				if f.e.steps > 1000000 {
					panic(lerr("script ran too long"))
				}
				if k, v := runBlock(b, f); k == cBreak {
					break
				} else if k == cReturn {
					return k, v
				}
			}
			return cNone, nil
		}
	case p.acc("repeat"):
		b := p.body()
		p.want("until")
		c := p.expr(0)
		return func(f *frame) (ctl, []lval) {
			for {
				f.e.steps++
				if f.e.steps > 1000000 {
					panic(lerr("script ran too long"))
				}
				in := inner(f)
				if k, v := runBody(b, in); k == cBreak {
					break
				} else if k == cReturn {
					return k, v
				}
				if truth(one(c(in))) {
					break
				}
			}
			return cNone, nil
		}
	case p.acc("if"):
		type arm struct {
			c expr
			b []stmt
		}
		var arms []arm
		c := p.expr(0)
		p.want("then")
		arms = append(arms, arm{c, p.body()})
		var els []stmt
		for {
			if p.acc("elseif") {
				c := p.expr(0)
				p.want("then")
				arms = append(arms, arm{c, p.body()})
				continue
			}
			if p.acc("else") {
				els = p.body()
			}
			p.want("end")
			break
		}
		return func(f *frame) (ctl, []lval) {
			for _, a := range arms {
				if truth(one(a.c(f))) {
					return runBlock(a.b, f)
				}
			}
			return runBlock(els, f)
		}
	case p.acc("for"):
		n := p.name()
		if p.acc("=") {
			a := p.expr(0)
			p.want(",")
			b := p.expr(0)
			var st expr
			if p.acc(",") {
				st = p.expr(0)
			}
			p.want("do")
			body := p.body()
			p.want("end")
			return func(f *frame) (ctl, []lval) {
				i, lim, step := num(one(a(f)), "'for' initial value must be a number"), num(one(b(f)), "'for' limit must be a number"), 1.0
				if st != nil {
					step = num(one(st(f)), "'for' step must be a number")
				}
				for ; (step > 0 && i <= lim) || (step <= 0 && i >= lim); i += step {
					f.e.steps++
					if f.e.steps > 1000000 {
						panic(lerr("script ran too long"))
					}
					in := inner(f)
					in.local(n, i)
					if k, v := runBody(body, in); k == cBreak {
						break
					} else if k == cReturn {
						return k, v
					}
				}
				return cNone, nil
			}
		}
		names := []string{n}
		for p.acc(",") {
			names = append(names, p.name())
		}
		p.want("in")
		es := p.exprs()
		p.want("do")
		body := p.body()
		p.want("end")
		return func(f *frame) (ctl, []lval) {
			v := evalList(es, f)
			fn, s, c := at(v, 0), at(v, 1), at(v, 2)
			for {
				f.e.steps++
				if f.e.steps > 1000000 {
					panic(lerr("script ran too long"))
				}
				r := call(fn, []lval{s, c})
				if at(r, 0) == nil {
					break
				}
				c = r[0]
				in := inner(f)
				for i, n := range names {
					in.local(n, at(r, i))
				}
				if k, v := runBody(body, in); k == cBreak {
					break
				} else if k == cReturn {
					return k, v
				}
			}
			return cNone, nil
		}
	case p.acc("function"):
		n := p.name()
		fn := p.fbody()
		return func(f *frame) (ctl, []lval) {
			setVar(f, n, one(fn(f)))
			return cNone, nil
		}
	case p.acc("local"):
		if p.acc("function") {
			n := p.name()
			fn := p.fbody()
			return func(f *frame) (ctl, []lval) {
				f.local(n, nil)
				*f.sc.vars[n] = one(fn(f))
				return cNone, nil
			}
		}
		names := []string{p.name()}
		for p.acc(",") {
			names = append(names, p.name())
		}
		var es []expr
		if p.acc("=") {
			es = p.exprs()
		}
		return func(f *frame) (ctl, []lval) {
			v := evalList(es, f)
			for i, n := range names {
				f.local(n, at(v, i))
			}
			return cNone, nil
		}
	}
	// assignment or call
	type target struct {
		name     string
		obj, key expr
	}
	var ts []target
	line := p.cur().line
	for {
		e, t, isCall := p.suffixed()
		if isCall {
			if len(ts) > 0 {
				panic(lerr("syntax error (line %d)", line))
			}
			return func(f *frame) (ctl, []lval) {
				e(f)
				return cNone, nil
			}
		}
		ts = append(ts, target{t.name, t.obj, t.key})
		if !p.acc(",") {
			break
		}
	}
	p.want("=")
	es := p.exprs()
	return func(f *frame) (ctl, []lval) {
		type ref struct{ o, k lval }
		refs := make([]ref, len(ts))
		for i, t := range ts {
			if t.name == "" {
				refs[i] = ref{one(t.obj(f)), one(t.key(f))}
			}
		}
		v := evalList(es, f)
		for i, t := range ts {
			if t.name != "" {
				setVar(f, t.name, at(v, i))
				continue
			}
			tb, ok := refs[i].o.(*ltable)
			if !ok {
				panic(lerr("attempt to index a %s value (line %d)", ltype(refs[i].o), line))
			}
			tb.set(refs[i].k, at(v, i))
		}
		return cNone, nil
	}
}

func setVar(f *frame, n string, v lval) {
	if r := f.sc.find(n); r != nil {
		*r = v
		return
	}
	panic(lerr("Script attempted to create global variable '%s'", n))
}

func (p *parser) fbody() expr {
	p.want("(")
	var ps []string
	va := false
	for !p.is(")") {
		if p.acc("...") {
			va = true
			break
		}
		ps = append(ps, p.name())
		if !p.acc(",") {
			break
		}
	}
	p.want(")")
	b := p.body()
	p.want("end")
	return func(f *frame) []lval {
		fn := &lfunc{}
		fn.f = func(args []lval) []lval {
			in := inner(f)
			for i, n := range ps {
				in.local(n, at(args, i))
			}
			in.varargs = nil
			if va && len(args) > len(ps) {
				in.varargs = args[len(ps):]
			}
			_, v := runBody(b, in)
			return v
		}
		return []lval{fn}
	}
}

type lvalue struct {
	name     string
	obj, key expr
}

// suffixed parses a primary expression with its suffixes.
func (p *parser) suffixed() (e expr, lv lvalue, isCall bool) {
	line := p.cur().line
	if p.acc("(") {
		x := p.expr(0)
		p.want(")")
		e = func(f *frame) []lval { return []lval{one(x(f))} }
	} else {
		n := p.name()
		lv.name = n
		e = func(f *frame) []lval {
			if r := f.sc.find(n); r != nil {
				return []lval{*r}
			}
			if v, ok := f.e.globals[n]; ok {
				return []lval{v}
			}
			panic(lerr("Script attempted to access nonexistent global variable '%s'", n))
		}
	}
	for {
		var key expr
		switch {
		case p.acc("."):
			n := p.name()
			key = func(*frame) []lval { return []lval{n} }
		case p.acc("["):
			key = p.expr(0)
			p.want("]")
		case p.is("(") || p.is("{") || p.cur().k == 's':
			fn := e
			var args []expr
			if p.cur().k == 's' {
				s := p.cur().s
				p.p++
				args = []expr{func(*frame) []lval { return []lval{s} }}
			} else if p.is("{") {
				args = []expr{p.simple()}
			} else {
				p.want("(")
				if !p.is(")") {
					args = p.exprs()
				}
				p.want(")")
			}
			e = func(f *frame) []lval {
				fv := one(fn(f))
				return call(fv, evalList(args, f))
			}
			lv, isCall = lvalue{}, true
			continue
		case p.acc(":"):
			n := p.name()
			o := e
			p.want("(")
			var args []expr
			if !p.is(")") {
				args = p.exprs()
			}
			p.want(")")
			e = func(f *frame) []lval {
				ov := one(o(f))
				var m lval
				if _, ok := ov.(string); ok {
					m = f.e.globals["string"].(*ltable).get(n)
				} else {
					m = index(ov, n, line)
				}
				return call(m, append([]lval{ov}, evalList(args, f)...))
			}
			lv, isCall = lvalue{}, true
			continue
		default:
			return
		}
		o := e
		lv, isCall = lvalue{"", o, key}, false
		e = func(f *frame) []lval { return []lval{index(one(o(f)), one(key(f)), line)} }
	}
}

func index(o, k lval, line int) lval {
	t, ok := o.(*ltable)
	if !ok {
		panic(lerr("user_script:%d: attempt to index a %s value", line, ltype(o)))
	}
	return t.get(k)
}

func call(fn lval, args []lval) []lval {
	f, ok := fn.(*lfunc)
	if !ok {
		panic(lerr("attempt to call a %s value", ltype(fn)))
	}
	return f.f(args)
}

func (p *parser) simple() expr {
	t := p.cur()
	switch {
	case t.k == 'n':
		p.p++
		return func(*frame) []lval { return []lval{t.n} }
	case t.k == 's':
		p.p++
		return func(*frame) []lval { return []lval{t.s} }
	case p.acc("nil"):
		return func(*frame) []lval { return []lval{nil} }
	case p.acc("true"):
		return func(*frame) []lval { return []lval{true} }
	case p.acc("false"):
		return func(*frame) []lval { return []lval{false} }
	case p.acc("..."):
		return func(f *frame) []lval { return f.varargs }
	case p.acc("function"):
		return p.fbody()
	case p.acc("{"):
		type item struct{ k, v expr }
		var items []item
		for !p.is("}") {
			if p.acc("[") {
				k := p.expr(0)
				p.want("]")
				p.want("=")
				items = append(items, item{k, p.expr(0)})
			} else if p.cur().k == 'i' && p.ts[p.p+1].k == 'o' && p.ts[p.p+1].s == "=" {
				n := p.name()
				p.want("=")
				items = append(items, item{func(*frame) []lval { return []lval{n} }, p.expr(0)})
			} else {
				items = append(items, item{nil, p.expr(0)})
			}
			if !p.acc(",") && !p.acc(";") {
				break
			}
		}
		p.want("}")
		return func(f *frame) []lval {
			tb := &ltable{}
			n := 0
			for i, it := range items {
				if it.k != nil {
					tb.set(one(it.k(f)), one(it.v(f)))
					continue
				}
				vs := it.v(f)
				if i < len(items)-1 {
					vs = []lval{one(vs)}
				}
				for _, v := range vs {
					n++
					if n == len(tb.arr)+1 {
						tb.arr = append(tb.arr, v) // keeps holes, like the array part of a Lua constructor
					} else {
						tb.set(float64(n), v)
					}
				}
			}
			for len(tb.arr) > 0 && tb.arr[len(tb.arr)-1] == nil {
				tb.arr = tb.arr[:len(tb.arr)-1]
			}
			return []lval{tb}
		}
	}
	e, _, _ := p.suffixed()
	return e
}

var prio = map[string][2]int{
	"or": {1, 1}, "and": {2, 2}, "<": {3, 3}, ">": {3, 3}, "<=": {3, 3}, ">=": {3, 3}, "~=": {3, 3}, "==": {3, 3},
	"..": {5, 4}, "+": {6, 6}, "-": {6, 6}, "*": {7, 7}, "/": {7, 7}, "%": {7, 7}, "^": {10, 9},
}

const unaryPrio = 8

func (p *parser) expr(limit int) expr {
	var e expr
	switch {
	case p.acc("not"):
		x := p.expr(unaryPrio)
		e = func(f *frame) []lval { return []lval{!truth(one(x(f)))} }
	case p.acc("-"):
		x := p.expr(unaryPrio)
		e = func(f *frame) []lval { return []lval{-num(one(x(f)), "")} }
	case p.acc("#"):
		x := p.expr(unaryPrio)
		e = func(f *frame) []lval {
			switch v := one(x(f)).(type) {
			case string:
				return []lval{float64(len(v))}
			case *ltable:
				return []lval{float64(len(v.arr))}
			default:
				panic(lerr("attempt to get length of a %s value", ltype(v)))
			}
		}
	default:
		e = p.simple()
	}
	for {
		t := p.cur()
		pr, ok := prio[t.s]
		if !ok || (t.k != 'o' && t.k != 'k') || pr[0] <= limit {
			return e
		}
		p.p++
		a, b, op := e, p.expr(pr[1]), t.s
		e = func(f *frame) []lval {
			x := one(a(f))
			if op == "and" || op == "or" {
				if truth(x) == (op == "or") {
					return []lval{x}
				}
				return []lval{one(b(f))}
			}
			return []lval{binop(op, x, one(b(f)))}
		}
	}
}

func num(v lval, msg string) float64 {
	switch x := v.(type) {
	case float64:
		return x
	case string:
		if n, ok := str2num(x); ok {
			return n
		}
	}
	if msg == "" {
		msg = fmt.Sprintf("attempt to perform arithmetic on a %s value", ltype(v))
	}
	panic(lerr("%s", msg))
}

func binop(op string, x, y lval) lval {
	switch op {
	case "==":
		return x == y
	case "~=":
		return x != y
	case "..":
		for _, v := range []lval{x, y} {
			switch v.(type) {
			case string, float64:
			default:
				panic(lerr("attempt to concatenate a %s value", ltype(v)))
			}
		}
		return ltostring(x) + ltostring(y)
	case "<", ">", "<=", ">=":
		if op[0] == '>' {
			x, y = y, x
		}
		eq := len(op) == 2
		if a, ok := x.(float64); ok {
			if b, ok := y.(float64); ok {
				return a < b || (eq && a == b)
			}
		}
		if a, ok := x.(string); ok {
			if b, ok := y.(string); ok {
				return a < b || (eq && a == b)
			}
		}
		panic(lerr("attempt to compare %s with %s", ltype(x), ltype(y)))
	}
	a, b := num(x, ""), num(y, "")
	switch op {
	case "+":
		return a + b
	case "-":
		return a - b
	case "*":
		return a * b
	case "/":
		return a / b
	case "%":
		return a - math.Floor(a/b)*b
	}
	return math.Pow(a, b)
}

func ltype(v lval) string {
	switch v.(type) {
	case nil:
		return "nil"
	case bool:
		return "boolean"
	case float64:
		return "number"
	case string:
		return "string"
	case *ltable:
		return "table"
	}
	return "function"
}

func fmtnum(f float64, prec int) string {
	if f == math.Trunc(f) && math.Abs(f) < 1e17 && (prec == 17 || math.Abs(f) < 1e14) {
		return strconv.FormatInt(int64(f), 10)
	}
	s := strconv.FormatFloat(f, 'g', prec, 64)
	if i := strings.IndexByte(s, 'e'); i < 0 {
		if strings.Contains(s, ".") {
			s = strings.TrimRight(strings.TrimRight(s, "0"), ".")
		}
	}
	return s
}

func ltostring(v lval) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case bool:
		return strconv.FormatBool(x)
	case float64:
		return fmtnum(x, 14)
	case string:
		return x
	}
	return ltype(v)
}

type script func(e *env) []lval

var (
	cacheMu sync.Mutex
	cache   = map[string]script{}
)

func compile(src string) (s script, err string) {
	cacheMu.Lock()
	s = cache[src]
	cacheMu.Unlock()
	if s != nil {
		return s, ""
	}
	s, err = compile1(src)
	if err == "" {
		cacheMu.Lock()
		cache[src] = s
		cacheMu.Unlock()
	}
	return s, err
}

func compile1(src string) (s script, err string) {
	defer func() {
		if r := recover(); r != nil {
			if l, ok := r.(lraise); ok {
				err = "ERR Error compiling script (new function): user_script: " + fmt.Sprint(l.v)
				return
			}
			panic(r)
		}
	}()
	p := &parser{ts: lex(src)}
	b := p.body()
	if p.cur().k != 'e' {
		panic(lerr("'<eof>' expected near '%s'", p.cur().s))
	}
	return func(e *env) []lval {
		_, v := runBody(b, &frame{e, &scope{map[string]*lval{}, nil}, nil})
		return v
	}, ""
}

func table(m map[string]func(a []lval) []lval) *ltable {
	t := &ltable{}
	for k, f := range m {
		t.set(k, &lfunc{f})
	}
	return t
}

func baseGlobals() map[string]lval {
	g := map[string]lval{}
	fn := func(n string, f func(a []lval) []lval) { g[n] = &lfunc{f} }
	fn("tonumber", func(a []lval) []lval {
		if b := at(a, 1); b != nil {
			n, err := strconv.ParseInt(strings.TrimSpace(ltostring(at(a, 0))), int(num(b, "")), 64)
			if err != nil {
				return []lval{nil}
			}
			return []lval{float64(n)}
		}
		switch x := at(a, 0).(type) {
		case float64:
			return []lval{x}
		case string:
			if n, ok := str2num(x); ok {
				return []lval{n}
			}
		}
		return []lval{nil}
	})
	fn("tostring", func(a []lval) []lval { return []lval{ltostring(at(a, 0))} })
	fn("type", func(a []lval) []lval { return []lval{ltype(at(a, 0))} })
	fn("error", func(a []lval) []lval { panic(lraise{at(a, 0)}) })
	fn("assert", func(a []lval) []lval {
		if !truth(at(a, 0)) {
			if m := at(a, 1); m != nil {
				panic(lraise{m})
			}
			panic(lerr("assertion failed!"))
		}
		return a
	})
	fn("pcall", func(a []lval) (out []lval) {
		defer func() {
			if r := recover(); r != nil {
				if l, ok := r.(lraise); ok {
					out = []lval{false, l.v}
					return
				}
				panic(r)
			}
		}()
		return append([]lval{true}, call(at(a, 0), a[1:])...)
	})
	next := &lfunc{func(a []lval) []lval {
		t, ok := at(a, 0).(*ltable)
		if !ok {
			panic(lerr("bad argument #1 to 'next'"))
		}
		k := at(a, 1)
		found := k == nil
		for _, x := range t.keys() {
			if found {
				return []lval{x, t.get(x)}
			}
			found = x == k
		}
		return []lval{nil}
	}}
	g["next"] = next
	fn("pairs", func(a []lval) []lval { return []lval{next, at(a, 0), nil} })
	fn("ipairs", func(a []lval) []lval {
		return []lval{&lfunc{func(b []lval) []lval {
			i := num(at(b, 1), "") + 1
			v := at(b, 0).(*ltable).get(i)
			if v == nil {
				return []lval{nil}
			}
			return []lval{i, v}
		}}, at(a, 0), 0.0}
	})
	fn("unpack", func(a []lval) []lval { return append([]lval(nil), at(a, 0).(*ltable).arr...) })
	fn("select", func(a []lval) []lval {
		if at(a, 0) == "#" {
			return []lval{float64(len(a) - 1)}
		}
		n := int(num(at(a, 0), ""))
		if n > len(a)-1 {
			return nil
		}
		return a[n:]
	})
	m1 := func(f func(float64) float64) func(a []lval) []lval {
		return func(a []lval) []lval { return []lval{f(num(at(a, 0), ""))} }
	}
	fold := func(f func(a, b float64) float64) func(a []lval) []lval {
		return func(a []lval) []lval {
			r := num(at(a, 0), "")
			for _, x := range a[1:] {
				r = f(r, num(x, ""))
			}
			return []lval{r}
		}
	}
	mt := table(map[string]func(a []lval) []lval{
		"floor": m1(math.Floor), "ceil": m1(math.Ceil), "abs": m1(math.Abs), "sqrt": m1(math.Sqrt),
		"max": fold(math.Max), "min": fold(math.Min),
		"fmod": func(a []lval) []lval { return []lval{math.Mod(num(at(a, 0), ""), num(at(a, 1), ""))} },
		"pow":  func(a []lval) []lval { return []lval{math.Pow(num(at(a, 0), ""), num(at(a, 1), ""))} },
	})
	mt.set("huge", math.Inf(1))
	g["math"] = mt
	tb := func(a []lval) *ltable {
		t, ok := at(a, 0).(*ltable)
		if !ok {
			panic(lerr("bad argument #1 (table expected, got %s)", ltype(at(a, 0))))
		}
		return t
	}
	g["table"] = table(map[string]func(a []lval) []lval{
		"getn": func(a []lval) []lval { return []lval{float64(len(tb(a).arr))} },
		"insert": func(a []lval) []lval {
			t := tb(a)
			if len(a) == 2 {
				t.set(float64(len(t.arr)+1), a[1])
				return nil
			}
			i := int(num(at(a, 1), ""))
			t.arr = append(t.arr, nil)
			copy(t.arr[i:], t.arr[i-1:])
			t.arr[i-1] = at(a, 2)
			return nil
		},
		"remove": func(a []lval) []lval {
			t := tb(a)
			if len(t.arr) == 0 {
				return []lval{nil}
			}
			i := len(t.arr)
			if len(a) > 1 {
				i = int(num(a[1], ""))
			}
			if i < 1 || i > len(t.arr) {
				return []lval{nil}
			}
			v := t.arr[i-1]
			t.arr = append(t.arr[:i-1], t.arr[i:]...)
			return []lval{v}
		},
		"concat": func(a []lval) []lval {
			var s []string
			for _, v := range tb(a).arr {
				s = append(s, ltostring(v))
			}
			sep := ""
			if x := at(a, 1); x != nil {
				sep = ltostring(x)
			}
			return []lval{strings.Join(s, sep)}
		},
	})
	str := func(a []lval, i int) string {
		switch x := at(a, i).(type) {
		case string:
			return x
		case float64:
			return ltostring(x)
		}
		panic(lerr("bad argument #%d (string expected, got %s)", i+1, ltype(at(a, i))))
	}
	g["string"] = table(map[string]func(a []lval) []lval{
		"len":   func(a []lval) []lval { return []lval{float64(len(str(a, 0)))} },
		"lower": func(a []lval) []lval { return []lval{strings.ToLower(str(a, 0))} },
		"upper": func(a []lval) []lval { return []lval{strings.ToUpper(str(a, 0))} },
		"rep":   func(a []lval) []lval { return []lval{strings.Repeat(str(a, 0), int(num(at(a, 1), "")))} },
		"sub": func(a []lval) []lval {
			s := str(a, 0)
			i, j := 1, -1
			if x := at(a, 1); x != nil {
				i = int(num(x, ""))
			}
			if x := at(a, 2); x != nil {
				j = int(num(x, ""))
			}
			if i < 0 {
				i = max(len(s)+i+1, 1)
			}
			if i == 0 {
				i = 1
			}
			if j < 0 {
				j = len(s) + j + 1
			}
			if j > len(s) {
				j = len(s)
			}
			if i > j {
				return []lval{""}
			}
			return []lval{s[i-1 : j]}
		},
		"find": func(a []lval) []lval {
			i := strings.Index(str(a, 0), str(a, 1))
			if i < 0 {
				return []lval{nil}
			}
			return []lval{float64(i + 1), float64(i + len(str(a, 1)))}
		},
		"format": func(a []lval) []lval {
			f := str(a, 0)
			var b strings.Builder
			n := 1
			for i := 0; i < len(f); i++ {
				if f[i] != '%' {
					b.WriteByte(f[i])
					continue
				}
				j := i + 1
				for j < len(f) && strings.IndexByte("0123456789.-+ #", f[j]) >= 0 {
					j++
				}
				if j >= len(f) {
					panic(lerr("invalid option to 'format'"))
				}
				sp := f[i:j]
				switch f[j] {
				case '%':
					b.WriteByte('%')
				case 'd', 'i':
					fmt.Fprintf(&b, sp+"d", int64(num(at(a, n), "")))
					n++
				case 'x':
					fmt.Fprintf(&b, sp+"x", int64(num(at(a, n), "")))
					n++
				case 'f', 'g', 'e':
					fmt.Fprintf(&b, sp+string(f[j]), num(at(a, n), ""))
					n++
				case 's':
					fmt.Fprintf(&b, sp+"s", ltostring(at(a, n)))
					n++
				default:
					panic(lerr("invalid option '%%%c' to 'format'", f[j]))
				}
				i = j
			}
			return []lval{b.String()}
		},
	})
	return g
}
