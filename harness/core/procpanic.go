//go:build go1.22

package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/chanjarster/gears/confstore"
	"github.com/chanjarster/gears/zverif/lib"
)

// boomProc accepts everything; Validate panics for values beginning with V, Convert for values beginning with C.
type boomProc struct{}

func (boomProc) Validate(v string) (bool, string) {
	if strings.HasPrefix(v, "V") {
		panic("validate " + v)
	}
	if strings.HasPrefix(v, "-") {
		return false, "rejected"
	}
	return true, ""
}

func (boomProc) Convert(v string) interface{} {
	if strings.HasPrefix(v, "C") {
		panic("convert " + v)
	}
	return "<" + v + ">"
}

func bombs(v string) bool { return v[0] == 'V' || v[0] == 'C' }

type boomModel struct {
	def, cur map[string]string
}

func (m boomModel) String() string {
	var s []string
	for k, v := range m.def {
		c, has := m.cur[k]
		s = append(s, fmt.Sprint(k, "=", v, "/", has, c))
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

// p13panics runs one sequence. An operation that a processor makes panic must leave the key as it was (whether the panic reaches
// the caller or comes back as an error); a batch may have stored the entries before the one that panics, or, if it goes on,
// the valid ones behind it too.
func p13panics(c *lib.Ctx, ops []csOp, seq []int) string {
	st := confstore.NewStore(confstore.NoopPersister, confstore.NoopLoadPolicy)
	m := boomModel{map[string]string{}, map[string]string{}}
	for i, k := range seq {
		op := ops[k]
		at := func(f string, a ...any) string {
			return fmt.Sprintf("step %d (%s): ", i+1, op.name) + fmt.Sprintf(f, a...)
		}
		_, reg := m.def[op.key]
		switch op.kind {
		case 'R':
			var err error
			p := csMustPanic(func() { err = st.RegisterKey(op.key, op.val, boomProc{}) })
			switch {
			case reg && (p || err == nil), !reg && bombs(op.val) && !p && err == nil, !reg && !bombs(op.val) && (p || err != nil):
				return at("panicked %v, error %v", p, err)
			}
			if !reg && !bombs(op.val) {
				m.def[op.key] = op.val
			}
		case 'D':
			st.DeregisterKey(op.key)
			delete(m.def, op.key)
			delete(m.cur, op.key)
		case 'Z':
			st.ResetKey(op.key)
			delete(m.cur, op.key)
		case 'U', 'N':
			var e *confstore.KVError
			p := csMustPanic(func() {
				if op.kind == 'U' {
					e = st.Update(op.key, op.val)
				} else {
					e = st.UpdateNoPersist(op.key, op.val)
				}
			})
			switch {
			case reg && bombs(op.val):
				if !p && e == nil {
					return at("a value whose processor panics was accepted")
				}
			case p || (e == nil) != reg:
				return at("panicked %v, error %v", p, e)
			default:
				m.cur[op.key] = op.val
			}
			if !reg {
				delete(m.cur, op.key)
			}
		case 'B':
			var in []*confstore.KVStr
			for _, kv := range op.list {
				in = append(in, &confstore.KVStr{Key: kv[0], Value: kv[1]})
			}
			p := csMustPanic(func() { st.BatchUpdate(in) })
			hit := false
			for _, kv := range op.list {
				if _, reg := m.def[kv[0]]; !reg {
					continue
				}
				if bombs(kv[1]) {
					hit = true
					if p {
						break
					}
					continue
				}
				m.cur[kv[0]] = kv[1]
			}
			if p && !hit {
				return at("panicked")
			}
		}
		c.Trans(1)
		for _, key := range []string{"a", "b"} {
			def, reg := m.def[key]
			want := def
			if cur, ok := m.cur[key]; ok {
				want = cur
			}
			v, ok := st.GetValue(key)
			s, ok2 := st.GetValueString(key)
			if ok != reg || ok2 != reg || s != want || (reg && v != "<"+want+">") || (!reg && v != nil) {
				return at("afterwards %s reads %v %v, %q %v; want %q %v", key, v, ok, s, ok2, want, reg)
			}
		}
		c.State(m.String())
	}
	return ""
}

func p13procs(th bool) []*lib.Unit {
	ops := []csOp{
		{name: "Register a=1", kind: 'R', key: "a", val: "1"},
		{name: "Register a=V", kind: 'R', key: "a", val: "V"},
		{name: "Register a=C", kind: 'R', key: "a", val: "C"},
		{name: "Register b=2", kind: 'R', key: "b", val: "2"},
		{name: "Update a=3", kind: 'U', key: "a", val: "3"},
		{name: "Update a=V", kind: 'U', key: "a", val: "V"},
		{name: "Update a=C", kind: 'U', key: "a", val: "C"},
		{name: "UpdateNoPersist a=C", kind: 'N', key: "a", val: "C"},
		{name: "UpdateNoPersist b=V", kind: 'N', key: "b", val: "V"},
		{name: "Batch a=4,b=C,a=5", kind: 'B', list: kvs("a", "4", "b", "C", "a", "5")},
		{name: "Batch a=V,b=6", kind: 'B', list: kvs("a", "V", "b", "6")},
		{name: "Reset a", kind: 'Z', key: "a"},
		{name: "Deregister a", kind: 'D', key: "a"},
	}
	depth := 5
	if th {
		depth = 6
	}
	us := lib.Shards("panicking-processors", 4, 4, fmt.Sprintf("all sequences of %d operations out of %d with processors that panic in Validate or Convert", depth, len(ops)), func(c *lib.Ctx, i, k int) {
		c.Sequences(len(ops), depth, i, k, func(seq []int) string { return csNames(ops, seq) }, func(seq []int) string { return p13panics(c, ops, seq) })
	})
	return us
}
