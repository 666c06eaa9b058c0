//go:build go1.22

package main

import (
	"flag"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/chanjarster/gears/zverif/lib"
)

// definedFlags loads p and returns the flags that exist afterwards, without those of the flag set itself.
func definedFlags(p any, yamlFlag string, args []string, env [][2]string) []string {
	var names []string
	grab := &flagGrab{}
	load2(p, yamlFlag, args, env, grab)
	for n := range grab.names {
		names = append(names, n)
	}
	sort.Strings(names)
	return names
}

type flagGrab struct{ names map[string]bool }

func load2(p any, yamlFlag string, args []string, env [][2]string, g *flagGrab) {
	loadHook = func() {
		g.names = map[string]bool{}
		flag.CommandLine.VisitAll(func(f *flag.Flag) { g.names[f.Name] = true })
	}
	defer func() { loadHook = nil }()
	load(p, yamlFlag, args, env)
}

// fieldNames are all names over the alphabet up to the length, starting with a capital.
func fieldNames(maxLen int) []string {
	first, rest := []string{"A", "B"}, []string{"A", "B", "a", "1", "_"}
	out := append([]string{}, first...)
	last := first
	for l := 2; l <= maxLen; l++ {
		var next []string
		for _, p := range last {
			for _, r := range rest {
				next = append(next, p+r)
			}
		}
		out = append(out, next...)
		last = next
	}
	return out
}

func decoys(path string) []string {
	w := words(path)
	names := []string{
		strings.ToLower(strings.Join(w, "_")), strings.ToUpper(strings.Join(w, "-")), strings.ToUpper(strings.Join(w, "")),
		strings.ToUpper(strings.Join(w, "__")), strings.Join(w, "_"), path, strings.ToUpper(path), strings.ToUpper(strings.ReplaceAll(path, ".", "_")),
		"_" + envName(path), envName(path) + "_", w[len(w)-1], strings.ToUpper(w[len(w)-1]), strings.ToUpper(path[strings.LastIndex(path, ".")+1:]),
		flagName(path),
	}
	var out []string
	for _, n := range names {
		if n != envName(path) && n != "" {
			out = append(out, n)
		}
	}
	return out
}

func nameCase(path []string) string {
	d := dotted(path)
	t := mkPlain(path, reflect.TypeOf(0))
	// no source at all: the flags that exist
	p := reflect.New(t)
	got := definedFlags(p.Interface(), "zyaml", nil, nil)
	want := []string{flagName(d), "zyaml"}
	sort.Strings(want)
	if m := diff("the set of flags", got, want); m != "" {
		return m
	}
	p = reflect.New(t)
	load(p.Interface(), "zyaml", nil, [][2]string{{envName(d), "5"}})
	if l, ok := leafAt(p.Elem(), path, false); !ok || l.Int() != 5 {
		return "environment variable " + envName(d) + " does not reach the field"
	}
	p = reflect.New(t)
	load(p.Interface(), "zyaml", []string{"-" + flagName(d), "6"}, nil)
	if l, ok := leafAt(p.Elem(), path, false); !ok || l.Int() != 6 {
		return "flag -" + flagName(d) + " does not reach the field"
	}
	p = reflect.New(t)
	var env [][2]string
	for i, n := range decoys(d) {
		env = append(env, [2]string{n, fmt.Sprint(100 + i)})
	}
	load(p.Interface(), "zyaml", nil, env)
	if l, ok := leafAt(p.Elem(), path, false); !ok || l.Int() != 0 {
		return fmt.Sprintf("another environment variable than %s reaches the field: %v is %v", envName(d), env[l.Int()-100], l.Int())
	}
	return ""
}

// mkPlain makes nested structs with just the one leaf.
func mkPlain(path []string, t reflect.Type) reflect.Type {
	for i := len(path) - 1; i >= 0; i-- {
		f := reflect.StructField{Name: bare(path[i]), Type: t, Anonymous: path[i][0] == '@'}
		if strings.Contains(path[i], "*") {
			f.Type = reflect.PointerTo(t)
		}
		t = reflect.StructOf([]reflect.StructField{f})
	}
	return t
}

func p27(thorough bool) []*lib.Unit {
	l1, l2, l3 := 5, 3, 2
	if thorough {
		l1, l2, l3 = 7, 4, 3
	}
	us := lib.Shards("names", 5, 8, fmt.Sprintf("every field name over {A, B, a, 1, _} up to %d characters alone, up to %d at depth 2, up to %d at depth 3", l1, l2, l3),
		func(c *lib.Ctx, shard, shards int) {
			n := 0
			try := func(path ...string) bool {
				n++
				if n%shards != shard {
					return true
				}
				d := dotted(path)
				c.State(d)
				c.Trans(4)
				return c.Case(func() string { return "path " + strings.Join(path, ".") }, func() string { return nameCase(path) })
			}
			for _, a := range fieldNames(l1) {
				if !try(a) {
					return
				}
			}
			for _, a := range fieldNames(l2) {
				for _, b := range fieldNames(l2) {
					if !try(a, b) || len(a) < 3 && len(b) < 3 && !(try("*"+a, b) && try("*"+a, "*"+b)) {
						return
					}
				}
			}
			for _, a := range fieldNames(l3) {
				for _, b := range fieldNames(l3) {
					for _, d := range fieldNames(l3) {
						if !try(a, "*"+b, d) || b != a && d != b && !(try("@"+a, b, d) && try(a, "@*"+b, d) && try("@"+a, "@"+b, d)) {
							return
						}
					}
				}
			}
		})
	us = append(us, lib.Shards("letters", 3, 4, "every field name of up to 2 letters (and of 3, in quick only those beginning with A, M or Z), digits and underscores of the whole ASCII range, and every pair of such letters at depth 2",
		func(c *lib.Ctx, shard, shards int) {
			capital, all := "ABCDEFGHIJKLMNOPQRSTUVWXYZ", "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_"
			n := 0
			try := func(path ...string) bool {
				n++
				if n%shards != shard {
					return true
				}
				c.State(path)
				c.Trans(4)
				return c.Case(func() string { return "field " + dotted(path) }, func() string { return nameCase(path) })
			}
			for _, a := range capital {
				if !try(string(a)) {
					return
				}
				for _, b := range all {
					if !try(string(a)+string(b)) || !try("X"+string(b), string(a)) || !try("Xx", string(a)+string(b)) {
						return
					}
					for _, d := range all {
						if !c.Thorough && a != 'A' && a != 'M' && a != 'Z' {
							break
						}
						if !try(string(a) + string(b) + string(d)) {
							return
						}
					}
				}
			}
		})...)
	us = append(us, &lib.Unit{Name: "shapes", Weight: 2, Note: "all configurations with up to 4 elements from {supported kinds, nested, embedded, unsupported kinds} in any order: exactly one flag per supported exported field", Seq: shapes})
	us = append(us, &lib.Unit{Name: "untouched", Weight: 2, Note: "every unsupported type and every unexported field, set by no source whatever the sources say", Seq: untouched})
	return us
}

var unsupported = []any{int8(3), int16(3), int32(3), uint8(3), uint16(3), uint32(3), uintptr(3), float32(3), complex(1, 2), [2]int{1, 2}, []string{"q"},
	map[string]string{"a": "b"}, []byte("x"), make(chan int)}

func shapes(c *lib.Ctx) {
	type elem struct {
		name  string
		typ   reflect.Type
		anon  bool
		flags []string
	}
	var elems []elem
	for i, k := range ckinds {
		n := fmt.Sprintf("Kind%c", 'A'+i)
		elems = append(elems, elem{n, k.typ, false, []string{n}})
		n = fmt.Sprintf("Ptr%c", 'A'+i)
		elems = append(elems, elem{n, reflect.PointerTo(k.typ), false, []string{n}})
	}
	inner := func(x string) reflect.Type {
		return reflect.StructOf([]reflect.StructField{{Name: x + "Name", Type: reflect.TypeOf("")}, {Name: x + "Dur", Type: reflect.TypeOf(time.Second)}})
	}
	elems = append(elems,
		elem{"Sub", inner("S"), false, []string{"Sub.SName", "Sub.SDur"}},
		elem{"SubP", reflect.PointerTo(inner("T")), false, []string{"SubP.TName", "SubP.TDur"}},
		elem{"Emb", inner("U"), true, []string{"UName", "UDur"}},
		elem{"EmbP", reflect.PointerTo(inner("V")), true, []string{"VName", "VDur"}},
		elem{"Nope", reflect.TypeOf(int32(0)), false, nil},
		elem{"NopeP", reflect.TypeOf((*float32)(nil)), false, nil},
		elem{"NopeS", reflect.TypeOf([]string(nil)), false, nil},
		elem{"Iface", reflect.TypeOf((*any)(nil)).Elem(), false, nil},
	)
	depth := 3
	if c.Thorough {
		depth = 4
	}
	var rec func(cur []elem) bool
	rec = func(cur []elem) bool {
		if len(cur) > 0 {
			c.State(len(cur), cur[0].name, cur[len(cur)-1].name)
			c.Trans(1)
			if !c.Case(func() string {
				s := "fields"
				for _, e := range cur {
					s += fmt.Sprintf(" %s %v (embedded %v)", e.name, e.typ, e.anon)
				}
				return s
			}, func() string {
				var fs []reflect.StructField
				want := []string{"cfg"}
				for _, e := range cur {
					fs = append(fs, reflect.StructField{Name: e.name, Type: e.typ, Anonymous: e.anon})
					for _, f := range e.flags {
						want = append(want, flagName(f))
					}
				}
				sort.Strings(want)
				p := reflect.New(reflect.StructOf(fs))
				return diff("the set of flags", definedFlags(p.Interface(), "cfg", nil, nil), want)
			}) {
				return false
			}
		}
		if len(cur) == depth {
			return true
		}
	next:
		for _, e := range elems {
			for _, o := range cur {
				if o.name == e.name {
					continue next
				}
			}
			if !rec(append(append([]elem{}, cur...), e)) {
				return false
			}
		}
		return true
	}
	rec(nil)
}

type hidden struct {
	str   string
	num   int
	dur   time.Duration
	ptr   *int
	sub   struct{ Host string }
	psub  *struct{ Host string }
	Shown string
}

func untouched(c *lib.Ctx) {
	for _, u := range unsupported {
		t := reflect.TypeOf(u)
		for _, name := range []string{"F", "FooBar"} {
			for _, nested := range []bool{false, true} {
				c.State(t, name, nested)
				c.Trans(1)
				if !c.Case(func() string { return fmt.Sprintf("field %s of unsupported type %v, nested %v", name, t, nested) }, func() string {
					path := []string{name}
					if nested {
						path = []string{"*Sub", name}
					}
					p := reflect.New(mkPlain(path, t))
					l, _ := leafAt(p.Elem(), path, true)
					l.Set(reflect.ValueOf(u))
					d := dotted(path)
					got := definedFlags(p.Interface(), "cfg", nil, [][2]string{{envName(d), "1"}, {flagName(d), "1"}})
					if m := diff("the set of flags", got, []string{"cfg"}); m != "" {
						return m
					}
					l, ok := leafAt(p.Elem(), path, false)
					if !ok {
						return "a pointer is nil"
					}
					return diff("the unsupported field", l.Interface(), u)
				}) {
					return
				}
			}
		}
	}
	for mask := 0; mask < 64; mask++ {
		c.State("hidden", mask)
		c.Trans(1)
		if !c.Case(func() string { return fmt.Sprintf("unexported fields, environment mask %06b", mask) }, func() string {
			h := &hidden{}
			if mask&1 != 0 {
				h.str, h.num, h.dur = "keep", 9, time.Minute
				h.sub.Host = "inner"
			}
			if mask&2 != 0 {
				h.ptr = new(int)
				h.psub = &struct{ Host string }{"inner"}
			}
			old, oldPtr, oldSub := *h, h.ptr, h.psub
			var env [][2]string
			for i, e := range []string{"STR", "NUM", "DUR", "PTR"} {
				if mask>>2&(1<<i) != 0 {
					env = append(env, [2]string{e, []string{"x", "1", "1s", "1"}[i]}, [2]string{strings.ToLower(e), "1"})
				}
			}
			env = append(env, [2]string{"SUB_HOST", "x"}, [2]string{"PSUB_HOST", "x"}, [2]string{"SHOWN", "s"})
			got := definedFlags(h, "", nil, env)
			if m := diff("the set of flags", got, []string{"shown"}); m != "" {
				return m
			}
			old.Shown = "s"
			if fmt.Sprint(old) != fmt.Sprint(*h) || h.ptr != oldPtr || h.psub != oldSub {
				return fmt.Sprintf("unexported fields change: %v to %v", old, *h)
			}
			return ""
		}) {
			return
		}
	}
}
