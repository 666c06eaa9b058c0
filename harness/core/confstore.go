//go:build go1.22

package main

import (
	"errors"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/chanjarster/gears/confstore"
	"github.com/chanjarster/gears/zverif/lib"
	"github.com/chanjarster/gears/zverif/mc"
)

// ---- the reference store -----------------------------------------------------------------------------------------------

// processors of the tests: i Int 0..9, s any string, b Bool, p pair (a struct value)
func csProc(k byte) confstore.ValueProcessor {
	switch k {
	case 'i':
		return confstore.IntProcessor(0, true, 9, true)
	case 's':
		return confstore.String
	case 'b':
		return confstore.Bool
	case 'p':
		return pairProc{}
	case 'n':
		return nil
	case 'N':
		var p *nilProc
		return p
	}
	panic("proc")
}

type nilProc struct{}

func (*nilProc) Validate(string) (bool, string)   { return true, "" }
func (*nilProc) Convert(value string) interface{} { return value }

type pairProc struct{}

// Validate accepts x,x (a value whose halves agree)
func (pairProc) Validate(v string) (bool, string) {
	if i := strings.IndexByte(v, ','); i < 0 || v[:i] != v[i+1:] {
		return false, "not a pair"
	}
	return true, ""
}

func (pairProc) Convert(v string) interface{} {
	i := strings.IndexByte(v, ',')
	return &[2]string{v[:i], v[i+1:]}
}

func csValid(k byte, v string) bool {
	switch k {
	case 'i':
		return len(v) == 1 && v >= "0" && v <= "9"
	case 'b':
		return v == "true" || v == "false"
	case 'p':
		i := strings.IndexByte(v, ',')
		return i >= 0 && v[:i] == v[i+1:]
	}
	return true
}

// csValue renders the value that s denotes under processor k.
func csValue(k byte, s string) string {
	switch k {
	case 'i':
		return "int:" + s
	case 'b':
		return "bool:" + s
	case 'p':
		return "pair:" + s
	}
	return "string:" + s
}

func csShow(v interface{}) string {
	switch t := v.(type) {
	case int:
		return "int:" + strconv.Itoa(t)
	case bool:
		return "bool:" + strconv.FormatBool(t)
	case string:
		return "string:" + t
	case *[2]string:
		return "pair:" + t[0] + "," + t[1]
	}
	return fmt.Sprintf("%T:%v", v, v)
}

type csKey struct {
	proc     byte
	def, cur string
	has      bool
}

func (k csKey) value() string {
	if k.has {
		return k.cur
	}
	return k.def
}

type csModel struct {
	keys map[string]csKey
	pers map[string]string
}

func newCsModel() *csModel { return &csModel{map[string]csKey{}, map[string]string{}} }

func (m *csModel) register(key, def string, proc byte) bool {
	if key == "" || proc == 'n' || proc == 'N' || !csValid(proc, def) {
		return false
	}
	if _, dup := m.keys[key]; dup {
		return false
	}
	m.keys[key] = csKey{proc: proc, def: def}
	return true
}

func (m *csModel) update(key, val string) bool {
	k, ok := m.keys[key]
	if !ok || !csValid(k.proc, val) {
		return false
	}
	k.cur, k.has = val, true
	m.keys[key] = k
	return true
}

func (m *csModel) reset(key string) {
	if k, ok := m.keys[key]; ok {
		k.cur, k.has = "", false
		m.keys[key] = k
	}
}

func (m *csModel) load() {
	for k, v := range m.pers {
		m.update(k, v)
	}
}

func (m *csModel) String() string {
	var s []string
	for k, v := range m.keys {
		s = append(s, fmt.Sprintf("%s=%c/%s/%v%s", k, v.proc, v.def, v.has, v.cur))
	}
	for k, v := range m.pers {
		s = append(s, fmt.Sprintf("P%s=%s", k, v))
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

type csOp struct {
	name     string
	kind     byte // R register, D deregister, U update, N update without persisting, B batch, Z reset, X external change of the persistence
	key, val string
	proc     byte
	list     [][2]string
}

func csMustPanic(f func()) (panicked bool) {
	defer func() { panicked = recover() != nil }()
	f()
	return
}

// csReads compares every way to read with the model.
func csReads(st confstore.Interface, m *csModel, keys []string) string {
	for _, key := range keys {
		k, hit := m.keys[key]
		v, ok := st.GetValue(key)
		if ok != hit || (hit && csShow(v) != csValue(k.proc, k.value())) || (!hit && v != nil) {
			return fmt.Sprintf("GetValue(%q) = %s, %v; want %s", key, csShow(v), ok, want(k, hit))
		}
		s, ok := st.GetValueString(key)
		if ok != hit || (hit && s != k.value()) || (!hit && s != "") {
			return fmt.Sprintf("GetValueString(%q) = %q, %v; want %s", key, s, ok, want(k, hit))
		}
		if p := csMustPanic(func() { v = st.MustGetValue(key) }); p == hit || (hit && csShow(v) != csValue(k.proc, k.value())) {
			return fmt.Sprintf("MustGetValue(%q): panicked %v, value %s; want %s", key, p, csShow(v), want(k, hit))
		}
		if p := csMustPanic(func() { s = st.MustGetValueString(key) }); p == hit || (hit && s != k.value()) {
			return fmt.Sprintf("MustGetValueString(%q): panicked %v, value %q; want %s", key, p, s, want(k, hit))
		}
	}
	// batches: in order, misses and empty keys left out
	ks := append(append([]string{"b", ""}, keys...), "a")
	var wantV, wantS, gotV, gotS []string
	for _, key := range ks {
		if k, hit := m.keys[key]; hit {
			wantV = append(wantV, key+"="+csValue(k.proc, k.value()))
			wantS = append(wantS, key+"="+k.value())
		}
	}
	for _, kv := range st.BatchGetValues(ks) {
		gotV = append(gotV, kv.Key+"="+csShow(kv.Value))
	}
	for _, kv := range st.BatchGetValueString(ks) {
		gotS = append(gotS, kv.Key+"="+kv.Value)
	}
	if fmt.Sprint(gotV) != fmt.Sprint(wantV) {
		return fmt.Sprintf("BatchGetValues(%v) = %v, want %v", ks, gotV, wantV)
	}
	if fmt.Sprint(gotS) != fmt.Sprint(wantS) {
		return fmt.Sprintf("BatchGetValueString(%v) = %v, want %v", ks, gotS, wantS)
	}
	return ""
}

func want(k csKey, hit bool) string {
	if !hit {
		return "a miss"
	}
	return csValue(k.proc, k.value())
}

// csApply performs op on store and model. persisted tells whether the persistence succeeded (and, separately, whether it took
// effect); results that depend on a failed persistence are not judged.
func csApply(st confstore.Interface, m *csModel, op csOp, effect func() bool, judge func() bool) string {
	switch op.kind {
	case 'R':
		wantOK := m.register(op.key, op.val, op.proc)
		err := st.RegisterKey(op.key, op.val, csProc(op.proc))
		if (err == nil) != wantOK {
			return fmt.Sprintf("%s returned %v, want success %v", op.name, err, wantOK)
		}
	case 'D':
		st.DeregisterKey(op.key)
		delete(m.keys, op.key)
		if op.key != "" && effect() {
			delete(m.pers, op.key)
		}
	case 'Z':
		st.ResetKey(op.key)
		m.reset(op.key)
		if effect() {
			delete(m.pers, op.key)
		}
	case 'U', 'N':
		ok := m.update(op.key, op.val)
		var e *confstore.KVError
		if op.kind == 'U' {
			e = st.Update(op.key, op.val)
			if ok && effect() {
				m.pers[op.key] = op.val
			}
		} else {
			e = st.UpdateNoPersist(op.key, op.val)
		}
		if op.key != "" && judge() {
			if (e == nil) != ok {
				return fmt.Sprintf("%s returned %v, want accepted %v", op.name, e, ok)
			}
			if e != nil && (e.Key != op.key || e.Value != op.val || e.Error == "") {
				return fmt.Sprintf("%s reported key %q value %q error %q", op.name, e.Key, e.Value, e.Error)
			}
		}
	case 'B':
		var in []*confstore.KVStr
		var wantErr []string
		acc := map[string]string{}
		for _, kv := range op.list {
			in = append(in, &confstore.KVStr{Key: kv[0], Value: kv[1]})
			if m.update(kv[0], kv[1]) {
				acc[kv[0]] = kv[1]
			} else if kv[0] != "" {
				wantErr = append(wantErr, kv[0]+"="+kv[1])
			}
		}
		errs := st.BatchUpdate(in)
		if len(acc) > 0 && effect() {
			for k, v := range acc {
				m.pers[k] = v
			}
		}
		var got []string
		for _, e := range errs {
			if e == nil || e.Error == "" {
				return fmt.Sprintf("%s reported an empty error: %v", op.name, e)
			}
			if e.Key != "" {
				got = append(got, e.Key+"="+e.Value)
			}
		}
		if judge() && fmt.Sprint(got) != fmt.Sprint(wantErr) {
			return fmt.Sprintf("%s reported errors for %v, want %v", op.name, got, wantErr)
		}
	case 'X':
		if op.val == "" {
			delete(m.pers, op.key)
		} else {
			m.pers[op.key] = op.val
		}
	}
	return ""
}

func kvs(s ...string) [][2]string {
	var l [][2]string
	for i := 0; i+1 < len(s); i += 2 {
		l = append(l, [2]string{s[i], s[i+1]})
	}
	return l
}

func csNames(ops []csOp, seq []int) string {
	s := make([]string, len(seq))
	for i, k := range seq {
		s[i] = ops[k].name
	}
	return strings.Join(s, "; ")
}

// ---- P13 -----------------------------------------------------------------------------------------------------------------

func yes() bool { return true }

func p13(th bool) []*lib.Unit {
	ops := []csOp{
		{name: `Register a=1 int`, kind: 'R', key: "a", val: "1", proc: 'i'},
		{name: `Register a=x string`, kind: 'R', key: "a", val: "x", proc: 's'},
		{name: `Register a=z int (invalid)`, kind: 'R', key: "a", val: "z", proc: 'i'},
		{name: `Register b=false bool`, kind: 'R', key: "b", val: "false", proc: 'b'},
		{name: `Register b=q,q pair`, kind: 'R', key: "b", val: "q,q", proc: 'p'},
		{name: `Register ""`, kind: 'R', key: "", val: "1", proc: 's'},
		{name: `Register c without processor`, kind: 'R', key: "c", val: "1", proc: 'n'},
		{name: `Register a with nil processor`, kind: 'R', key: "a", val: "1", proc: 'N'},
		{name: `Deregister a`, kind: 'D', key: "a"},
		{name: `Deregister b`, kind: 'D', key: "b"},
		{name: `Update a=5`, kind: 'U', key: "a", val: "5"},
		{name: `Update a=true`, kind: 'U', key: "a", val: "true"},
		{name: `UpdateNoPersist a=7`, kind: 'N', key: "a", val: "7"},
		{name: `UpdateNoPersist b=x,y`, kind: 'N', key: "b", val: "x,y"},
		{name: `Update b=true`, kind: 'U', key: "b", val: "true"},
		{name: `Update b=x,x`, kind: 'U', key: "b", val: "x,x"},
		{name: `Reset a`, kind: 'Z', key: "a"},
		{name: `Reset b`, kind: 'Z', key: "b"},
		{name: `Batch a=3,b=no,a=4,c=1`, kind: 'B', list: kvs("a", "3", "b", "no", "a", "4", "c", "1")},
		{name: `Batch "",b=true,b=false,a=33`, kind: 'B', list: kvs("", "1", "b", "true", "b", "false", "a", "33")},
		{name: `Batch empty`, kind: 'B'},
		{name: `Update a=""`, kind: 'U', key: "a", val: ""},
	}
	depth := 4
	if th {
		depth = 5
	}
	run := func(c *lib.Ctx, mk func() (confstore.Persister, confstore.LoadPolicy), prefix, seq []int) string {
		p, l := mk()
		st := confstore.NewStore(p, l)
		m := newCsModel()
		for i, k := range append(append([]int(nil), prefix...), seq...) {
			if s := csApply(st, m, ops[k], yes, yes); s != "" {
				return fmt.Sprintf("step %d: %s", i+1, s)
			}
			c.Trans(1)
			if s := csReads(st, m, []string{"a", "b", "c", ""}); s != "" {
				return fmt.Sprintf("after step %d (%s): %s", i+1, ops[k].name, s)
			}
			m.pers = map[string]string{}
			c.State(m.String())
		}
		return ""
	}
	noop := func() (confstore.Persister, confstore.LoadPolicy) {
		return confstore.NoopPersister, confstore.NoopLoadPolicy
	}
	var us []*lib.Unit
	us = append(us, lib.Shards("operations", 10, 8, fmt.Sprintf("all sequences of %d operations out of %d on up to three keys, all readers compared after each", depth, len(ops)), func(c *lib.Ctx, i, k int) {
		c.Sequences(len(ops), depth, i, k, func(seq []int) string { return csNames(ops, seq) }, func(seq []int) string { return run(c, noop, nil, seq) })
	})...)
	us = append(us, lib.Shards("registered", 10, 8, fmt.Sprintf("all sequences of %d operations on a store with both keys registered", depth), func(c *lib.Ctx, i, k int) {
		for _, pre := range [][]int{{0, 3, 10, 14}, {1, 4, 11, 15}} {
			c.Sequences(len(ops), depth, i, k, func(seq []int) string { return csNames(ops, append(append([]int(nil), pre...), seq...)) }, func(seq []int) string { return run(c, noop, pre, seq) })
		}
	})...)
	return us
}

// ---- P14 -----------------------------------------------------------------------------------------------------------------

// fakePersister keeps its values in memory and fails on request.
type fakePersister struct {
	m     map[string]string
	calls int
	mode  map[int]byte // call number -> 'f' fail without effect, 'e' fail after the effect
	last  byte         // what happened to the calls of the current operation: 0 ok, 'f', 'e'
	log   []string
}

func (p *fakePersister) enter(what string) byte {
	p.calls++
	p.log = append(p.log, what)
	md := p.mode[p.calls]
	if md != 0 {
		p.last = md
	}
	return md
}

func fperr(md byte) error {
	if md != 0 {
		return errors.New("persistence failed")
	}
	return nil
}

func (p *fakePersister) Load(s confstore.Interface) error {
	md := p.enter("load")
	if md == 'f' {
		return fperr(md)
	}
	var ks []string
	for k := range p.m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		s.UpdateNoPersist(k, p.m[k])
	}
	return fperr(md)
}

func (p *fakePersister) Save(k, v string) error {
	return p.BatchSave([]*confstore.KVStr{{Key: k, Value: v}})
}

func (p *fakePersister) BatchSave(l []*confstore.KVStr) error {
	md := p.enter("save")
	if md != 'f' {
		for _, e := range l {
			p.m[e.Key] = e.Value
		}
	}
	return fperr(md)
}

func (p *fakePersister) Delete(k string) error {
	md := p.enter("delete")
	if md != 'f' {
		delete(p.m, k)
	}
	return fperr(md)
}

func p14ops() []csOp {
	return []csOp{
		{name: `Update a=5`, kind: 'U', key: "a", val: "5"},
		{name: `Update a=zz (invalid)`, kind: 'U', key: "a", val: "zz"},
		{name: `Update b=true`, kind: 'U', key: "b", val: "true"},
		{name: `Update c=1 (unregistered)`, kind: 'U', key: "c", val: "1"},
		{name: `UpdateNoPersist a=7`, kind: 'N', key: "a", val: "7"},
		{name: `UpdateNoPersist b=no (invalid)`, kind: 'N', key: "b", val: "no"},
		{name: `Reset a`, kind: 'Z', key: "a"},
		{name: `Reset b`, kind: 'Z', key: "b"},
		{name: `Deregister a`, kind: 'D', key: "a"},
		{name: `Register a=2 int`, kind: 'R', key: "a", val: "2", proc: 'i'},
		{name: `Register a=t string`, kind: 'R', key: "a", val: "t", proc: 's'},
		{name: `Batch a=3,b=no,c=1,b=true`, kind: 'B', list: kvs("a", "3", "b", "no", "c", "1", "b", "true")},
		{name: `Batch b=false,a=4,"",a=6`, kind: 'B', list: kvs("b", "false", "a", "4", "", "1", "a", "6")},
		{name: `Batch a=x,c=2 (all rejected)`, kind: 'B', list: kvs("a", "xx", "c", "2")},
		{name: `Batch empty`, kind: 'B'},
		{name: `another process saves a=8`, kind: 'X', key: "a", val: "8"},
		{name: `another process saves b=bad`, kind: 'X', key: "b", val: "bad"},
	}
}

func mapStr(m map[string]string) string {
	var s []string
	for k, v := range m {
		s = append(s, k+"="+v)
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

// p14run runs a sequence with the given faults; it returns the number of persistence calls.
func p14run(c *lib.Ctx, ops []csOp, seq []int, simple bool, fault int, md byte) (calls int, msg string) {
	p := &fakePersister{m: map[string]string{}, mode: map[int]byte{}}
	if fault > 0 {
		p.mode[fault] = md
	}
	pol := confstore.NoopLoadPolicy
	if simple {
		pol = confstore.NewSimpleLoadPolicy()
	}
	st := confstore.NewStore(p, pol)
	m := newCsModel()
	for _, o := range []csOp{{kind: 'R', key: "a", val: "1", proc: 'i'}, {kind: 'R', key: "b", val: "false", proc: 'b'}} {
		if s := csApply(st, m, o, yes, yes); s != "" {
			return p.calls, s
		}
	}
	for i, k := range seq {
		op := ops[k]
		p.last = 0
		s := csApply(st, m, op, func() bool { return p.last != 'f' }, func() bool { return p.last == 0 })
		if s != "" {
			return p.calls, fmt.Sprintf("step %d: %s", i+1, s)
		}
		if op.kind == 'X' {
			p.m[op.key] = op.val
		}
		c.Trans(1)
		if a, b := mapStr(p.m), mapStr(m.pers); a != b {
			return p.calls, fmt.Sprintf("after step %d (%s) the persistence holds {%s}, want {%s}", i+1, op.name, a, b)
		}
		// one read; with a loading policy it loads first
		p.last = 0
		v, hit := st.GetValue("a")
		if simple && p.last != 'f' {
			m.load()
		}
		if simple && p.last != 0 {
			// a read that could not load serves what is in memory; the next one loads again
			if n := p.calls; fault > 0 {
				st.GetValueString("b")
				if p.calls == n {
					return p.calls, fmt.Sprintf("after step %d (%s): a failed load was not tried again by the next read", i+1, op.name)
				}
				m.load()
				v, hit = st.GetValue("a")
			}
		}
		k, ok := m.keys["a"]
		if hit != ok || (hit && csShow(v) != csValue(k.proc, k.value())) {
			return p.calls, fmt.Sprintf("after step %d (%s): GetValue(a) = %s, %v; want %s", i+1, op.name, csShow(v), hit, want(k, ok))
		}
		c.State(m.String(), simple)
	}
	calls = p.calls
	if simple {
		m.load() // every read loads
	}
	if s := csReads(st, m, []string{"a", "b", "c", ""}); s != "" && !(fault > 0 && p.calls >= fault && calls < fault) {
		return calls, "at the end: " + s
	}
	// restart: a new store on the same persistence, with the keys registered first
	p.mode = map[int]byte{}
	for _, proc := range []byte{'i', 's'} {
		st2 := confstore.NewStore(p, confstore.NewSimpleLoadPolicy())
		m2 := newCsModel()
		m2.pers = m.pers
		for _, o := range []csOp{{kind: 'R', key: "a", val: "1", proc: proc}, {kind: 'R', key: "b", val: "false", proc: 'b'}} {
			csApply(st2, m2, o, yes, yes)
		}
		m2.load()
		if s := csReads(st2, m2, []string{"a", "b", "c"}); s != "" {
			return calls, "after a restart: " + s
		}
	}
	return calls, ""
}

func p14(th bool) []*lib.Unit {
	ops := p14ops()
	depth := 3
	if th {
		depth = 4
	}
	var us []*lib.Unit
	for _, simple := range []bool{false, true} {
		name := "no-load"
		if simple {
			name = "load-always"
		}
		us = append(us, lib.Shards("memory/"+name, 8, 6, fmt.Sprintf("all sequences of %d operations, then a restart; every single persistence call failing before or after its effect", depth+1), func(c *lib.Ctx, i, k int) {
			c.Sequences(len(ops), depth+1, i, k, func(seq []int) string { return name + ": " + csNames(ops, seq) }, func(seq []int) string {
				_, s := p14run(c, ops, seq, simple, 0, 0)
				return s
			})
			c.Sequences(len(ops), depth, i, k, func(seq []int) string {
				return name + ", one persistence call failing: " + csNames(ops, seq)
			}, func(seq []int) string {
				n, s := p14run(c, ops, seq, simple, 0, 0)
				if s != "" {
					return s
				}
				for f := 1; f <= n; f++ {
					for _, md := range []byte{'f', 'e'} {
						if _, s := p14run(c, ops, seq, simple, f, md); s != "" {
							return fmt.Sprintf("persistence call %d fails (%c): %s", f, md, s)
						}
					}
				}
				return ""
			})
		})...)
	}
	entries := [][2]string{{"a", "3"}, {"a", "4"}, {"a", "zz"}, {"b", "true"}, {"b", "false"}, {"c", "1"}, {"", "1"}}
	size := 5
	if th {
		size = 6
	}
	us = append(us, lib.Shards("batches", 6, 4, fmt.Sprintf("all batches of %d entries out of %d (two values of two keys, an invalid value, an unregistered and the empty key), the first or after an update, in memory and with the Redis persister", size, len(entries)), func(c *lib.Ctx, i, k int) {
		var op csOp
		mk := func(seq []int) {
			op = csOp{kind: 'B'}
			for _, e := range seq {
				op.list = append(op.list, entries[e])
			}
			op.name = fmt.Sprint("Batch ", op.list)
		}
		c.Sequences(len(entries), size, i, k, func(seq []int) string { mk(seq); return op.name }, func(seq []int) string {
			mk(seq)
			ops := []csOp{op, {name: `Update a=4`, kind: 'U', key: "a", val: "4"}}
			for _, seq := range [][]int{{0}, {1, 0}} {
				if _, s := p14run(c, ops, seq, false, 0, 0); s != "" {
					return s
				}
				if _, s := p14redisRun(c, ops, seq, false, 0, 0); s != "" {
					return "Redis: " + s
				}
			}
			return ""
		})
	})...)
	return append(us, p14redis(th)...)
}

// ---- P15 -----------------------------------------------------------------------------------------------------------------

type csState struct {
	a, b csKey
	done uint64 // entries of batches that took effect
}

func csStep(s csState, o *mc.Op) []csState {
	k := &s.a
	arg := o.Arg.([]string) // key, value, ...
	if arg[0] == "b" {
		k = &s.b
	}
	res := func(want string) bool { return o.Pending() || o.Res == want }
	name := o.Name
	if strings.HasPrefix(name, "sub") { // entry of a batch: after the one before
		n, _ := strconv.Atoi(arg[2])
		first := arg[3] == "first"
		if !first && s.done&(1<<(n-1)) == 0 {
			return nil
		}
		s.done |= 1 << n
		name = name[3:]
	}
	switch name {
	case "register":
		ok := k.proc == 0 && csValid(arg[2][0], arg[1])
		if !res(fmt.Sprint(ok)) {
			return nil
		}
		if ok {
			*k = csKey{proc: arg[2][0], def: arg[1]}
		}
	case "deregister":
		*k = csKey{}
	case "update":
		ok := k.proc != 0 && csValid(k.proc, arg[1])
		if !res(fmt.Sprint(ok)) {
			return nil
		}
		if ok {
			k.cur, k.has = arg[1], true
		}
	case "reset":
		k.cur, k.has = "", false
	case "get":
		w := "miss"
		if k.proc != 0 {
			w = csValue(k.proc, k.value())
		}
		if !res(w) {
			return nil
		}
	case "getString":
		w := "miss"
		if k.proc != 0 {
			w = "=" + k.value()
		}
		if !res(w) {
			return nil
		}
	}
	return []csState{s}
}

// splitBatches turns batch operations into their entries, which take effect one after the other.
func splitBatches(ops []*mc.Op) []*mc.Op {
	var out []*mc.Op
	n := 0
	for _, o := range ops {
		if o.Name != "batchUpdate" && o.Name != "batchGet" && o.Name != "batchGetString" {
			out = append(out, o)
			continue
		}
		arg := o.Arg.([]string)
		res, _ := o.Res.([]string)
		for i := 0; i+1 < len(arg); i += 2 {
			c := *o
			first := "next"
			if i == 0 {
				first = "first"
			}
			c.Name = map[string]string{"batchUpdate": "subupdate", "batchGet": "subget", "batchGetString": "subgetString"}[o.Name]
			c.Arg = []string{arg[i], arg[i+1], strconv.Itoa(n), first}
			if res != nil {
				c.Res = res[i/2]
			}
			n++
			out = append(out, &c)
		}
	}
	return out
}

func csProg(x *mc.Exec, st confstore.Interface, prog string) {
	do := func(name string, arg []string, f func() any) { x.Do(name, arg, f) }
	upd := func(k, v string, np bool) {
		do("update", []string{k, v}, func() any {
			var e *confstore.KVError
			if np {
				e = st.UpdateNoPersist(k, v)
			} else {
				e = st.Update(k, v)
			}
			return fmt.Sprint(e == nil)
		})
	}
	show := func(v interface{}, ok bool) any {
		if !ok {
			return "miss"
		}
		return csShow(v)
	}
	for _, ch := range prog {
		switch ch {
		case 'R', 'S', 'P', 'T':
			def, proc := "1", "i"
			switch ch {
			case 'S':
				def, proc = "s", "s"
			case 'P':
				def, proc = "q,q", "p"
			case 'T': // another int registration with another default
				def = "2"
			}
			do("register", []string{"a", def, proc}, func() any { return fmt.Sprint(st.RegisterKey("a", def, csProc(proc[0])) == nil) })
		case 'D':
			do("deregister", []string{"a"}, func() any { st.DeregisterKey("a"); return "" })
		case 'Z':
			do("reset", []string{"a"}, func() any { st.ResetKey("a"); return "" })
		case 'U':
			upd("a", "5", false)
		case 'V':
			upd("a", "v", false)
		case 'N':
			upd("a", "7", true)
		case 'X':
			upd("a", "x,x", false)
		case 'b':
			upd("b", "8", false)
		case 'g':
			do("get", []string{"a"}, func() any { return show(st.GetValue("a")) })
		case 'h':
			do("getString", []string{"a"}, func() any {
				s, ok := st.GetValueString("a")
				if !ok {
					return "miss"
				}
				return "=" + s
			})
		case 'm':
			do("get", []string{"a"}, func() any {
				var v any
				if csMustPanicOrAbort(func() { v = st.MustGetValue("a") }) {
					return "miss"
				}
				return csShow(v)
			})
		case 'B':
			do("batchUpdate", []string{"a", "4", "b", "6"}, func() any {
				return batchRes(st.BatchUpdate([]*confstore.KVStr{{Key: "a", Value: "4"}, {Key: "b", Value: "6"}}), "a=4", "b=6")
			})
		case 'C':
			do("batchUpdate", []string{"b", "3", "a", "w", "a", "3"}, func() any {
				return batchRes(st.BatchUpdate([]*confstore.KVStr{{Key: "b", Value: "3"}, {Key: "a", Value: "w"}, {Key: "a", Value: "3"}}), "b=3", "a=w", "a=3")
			})
		case 'G':
			do("batchGet", []string{"a", "", "b", ""}, func() any {
				r := []string{"miss", "miss"}
				for _, kv := range st.BatchGetValues([]string{"a", "b"}) {
					r[int(kv.Key[0]-'a')] = csShow(kv.Value)
				}
				return r
			})
		case 'H':
			do("batchGetString", []string{"b", "", "a", ""}, func() any {
				r := []string{"miss", "miss"}
				for _, kv := range st.BatchGetValueString([]string{"b", "a"}) {
					r[int('b'-kv.Key[0])] = "=" + kv.Value
				}
				return r
			})
		}
	}
}

// csMustPanicOrAbort recovers a panic of the code under test only.
func csMustPanicOrAbort(f func()) (panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(string); ok && strings.Contains(s, "missing") {
				panicked = true
				return
			}
			panic(r)
		}
	}()
	f()
	return
}

func batchRes(errs []*confstore.KVError, entries ...string) any {
	res := make([]string, len(entries))
	bad := map[string]bool{}
	for _, e := range errs {
		bad[e.Key+"="+e.Value] = true
	}
	for i, e := range entries {
		res[i] = fmt.Sprint(!bad[e])
	}
	return res
}

func csScenario(setup string, progs []string) *mc.Scenario {
	return &mc.Scenario{Name: fmt.Sprintf("setup=%q %v", setup, progs), Full: true, Body: func(x *mc.Exec) func() string {
		st := confstore.NewStore(confstore.NoopPersister, confstore.NoopLoadPolicy)
		if err := st.RegisterKey("b", "0", csProc('i')); err != nil {
			return func() string { return "registering b failed: " + err.Error() }
		}
		csProg(x, st, setup)
		for i, p := range progs {
			x.Go(fmt.Sprint("t", i), func() { csProg(x, st, p) })
		}
		x.Final(func() { csProg(x, st, "ghG") })
		x.Final(func() { csProg(x, st, "ZgVDghRgh") })
		return func() string {
			if !mc.Linearizable(splitBatches(x.Ops()), csState{b: csKey{proc: 'i', def: "0"}}, csStep) {
				return "no one-at-a-time order of the calls explains the results"
			}
			return ""
		}
	}}
}

func p15(th bool) []*lib.Unit {
	var us []*lib.Unit
	var pair, long, trip, batch []*mc.Scenario
	setups := []string{"", "R", "RU", "S", "SV", "PX"}
	one := strings.Split("R S D U V N Z g h m B C G H", " ")
	mut := strings.Split("R S D U V Z X P T", " ")
	for _, s := range setups {
		for i, p := range one {
			for _, q := range one[i:] {
				if len(p)+len(q) == 2 {
					pair = append(pair, csScenario(s, []string{p, q}))
				}
			}
		}
		for _, p := range strs("DRSUVZ", 2, 2) {
			for _, q := range []string{"U", "V", "D", "Z", "R", "g", "h", "gh", "gg", "UD", "UZ", "DS", "VD", "m"} {
				long = append(long, csScenario(s, []string{p, q}))
			}
		}
		for _, p := range []string{"DS", "DT", "ZU", "DP", "DR"} {
			for _, q := range []string{"UU", "VU", "Ug", "gU", "UX", "gg", "hg", "ZD", "DR", "DSU", "UDU"} {
				long = append(long, csScenario(s, []string{p + "U", q}), csScenario(s, []string{p, q + "h"}))
			}
		}
		for i, p := range mut {
			for j, q := range mut[i:] {
				for _, r := range []string{"g", "h"} {
					trip = append(trip, csScenario(s, []string{p, q, r}))
				}
				if th {
					for _, r := range mut[i+j:] {
						trip = append(trip, csScenario(s, []string{p, q, r}))
					}
					trip = append(trip, csScenario(s, []string{p, q, "gg"}), csScenario(s, []string{p, q, "hg"}))
				}
			}
		}
		for _, p := range []string{"B", "C"} {
			for _, q := range []string{"U", "D", "DS", "Ub", "bU", "Z", "B", "C", "G", "H", "gb", "hG"} {
				batch = append(batch, csScenario(s, []string{p, q}))
			}
			for _, q := range []string{"U", "D", "b", "Z"} {
				for _, r := range []string{"G", "H", "D", "g"} {
					if th || r == "G" || r == "D" {
						batch = append(batch, csScenario(s, []string{p, q, r}))
					}
				}
			}
		}
	}
	us = append(us, splitScs("pairs", 3, 4, "two callers, one operation each, six starting states", pair)...)
	us = append(us, splitScs("longer", 8, 6, "two callers with up to three operations each", long)...)
	us = append(us, splitScs("three", 9, 8, "two writers and a reader (thorough: three writers)", trip)...)
	us = append(us, splitScs("batch", 6, 4, "batch operations against single ones", batch)...)
	return us
}

// ---- P16 -----------------------------------------------------------------------------------------------------------------

type loadEv struct {
	by         int
	start, end int64 // virtual time
	si, ei     int   // order of events
	ok         bool
	panicked   bool
}

type loadLog struct {
	seq     int
	log     mc.Log
	active  int
	overlap bool
	ev      []*loadEv
	now     func() int64
	dur     func()      // what a load does
	fail    func() byte // f: the next load fails, p: it panics
}

// loader is the Persister that reader `by` hands to the policy.
type loader struct {
	*loadLog
	by int
}

// tick orders an event of the log (the explorer must not merge executions that differ in this order).
func (l *loadLog) tick() int {
	l.log.Add("e", 0)
	l.seq++
	return l.seq
}

func (l loader) Load(confstore.Interface) error {
	l.tick()
	e := &loadEv{by: l.by, start: l.now(), si: l.seq, ei: -1}
	l.ev = append(l.ev, e)
	l.active++
	if l.active > 1 {
		l.overlap = true
	}
	fail := l.fail()
	e.panicked = fail == 'p'
	l.dur()
	l.active--
	l.tick()
	e.end, e.ei, e.ok = l.now(), l.seq, fail == 0
	switch fail {
	case 'f':
		return errLoad
	case 'p':
		panic(errPanic)
	}
	return nil
}

var errLoad, errPanic = errors.New("load failed"), errors.New("load panicked")

// doLoad lets a load panic: the panic reaches the reader, or the policy makes an error of it.
func doLoad(pol confstore.LoadPolicy, p confstore.Persister) (err error) {
	defer func() {
		if r := recover(); r == errPanic {
			err = errPanic
		} else if r != nil {
			panic(r)
		}
	}()
	return pol.DoLoad(nil, p)
}

func (l loader) Save(string, string) error          { return nil }
func (l loader) BatchSave([]*confstore.KVStr) error { return nil }
func (l loader) Delete(string) error                { return nil }

type readEv struct {
	by         int
	start, end int64
	si, ei     int
	err        error
}

// p16check judges a history of reads and loads under minimum interval m (ns); kind d: NewLoadPolicy, s: simple, n: no-op.
func p16check(kind byte, m int64, reads []*readEv, loads []*loadEv, overlap bool) string {
	dump := func() string {
		s := ""
		for _, r := range reads {
			s += fmt.Sprintf(" read by %d [%d..%d] %v;", r.by, r.start, r.end, r.err)
		}
		for _, l := range loads {
			s += fmt.Sprintf(" load by %d [%d..%d] ok=%v;", l.by, l.start, l.end, l.ok)
		}
		return s
	}
	if kind == 'd' && overlap {
		return "two loads ran at the same time:" + dump()
	}
	if kind == 'n' {
		if len(loads) > 0 {
			return "the no-op policy loaded:" + dump()
		}
		for _, r := range reads {
			if r.err != nil {
				return "the no-op policy returned an error"
			}
		}
		return ""
	}
	for _, r := range reads {
		var own []*loadEv
		for _, l := range loads {
			if l.by == r.by && l.si > r.si && (r.ei < 0 || l.si < r.ei) {
				own = append(own, l)
			}
		}
		if len(own) > 1 {
			return "one read loaded more than once:" + dump()
		}
		if r.ei < 0 {
			continue // still waiting
		}
		failed := len(own) == 1 && !own[0].ok
		if failed != (r.err != nil) || (failed && !own[0].panicked && r.err != errLoad) {
			return fmt.Sprintf("a read returned %v although its load ended with failure %v:%s", r.err, failed, dump())
		}
		if kind == 's' || m <= 0 {
			if len(own) != 1 {
				return "a read did not load:" + dump()
			}
			continue
		}
		if len(own) == 0 {
			// somebody's successful load must have ended less than m before the read began, or later
			fresh := false
			for _, l := range loads {
				if l.ok && l.ei < r.ei && l.end > r.start-m {
					fresh = true
				}
			}
			if !fresh {
				return fmt.Sprintf("a read at %d was answered without a load and without a successful load since %d:%s", r.start, r.start-m, dump())
			}
		}
	}
	if kind == 'd' && m > 0 {
		for _, a := range loads {
			for _, b := range loads {
				if a.ok && a.ei >= 0 && b.si > a.ei && b.start < a.end+m {
					return fmt.Sprintf("a load started at %d, less than %d after a successful load ended at %d:%s", b.start, m, a.end, dump())
				}
			}
		}
	}
	return ""
}

func p16policy(kind byte, m int64) confstore.LoadPolicy {
	switch kind {
	case 's':
		return confstore.NewSimpleLoadPolicy()
	case 'n':
		return confstore.NoopLoadPolicy
	}
	return confstore.NewLoadPolicy(time.Duration(m))
}

func p16scenario(kind byte, m int64, progs []string, durs, fails string) *mc.Scenario {
	return &mc.Scenario{Name: fmt.Sprintf("policy=%c m=%d %v load=%s fail=%s", kind, m, progs, durs, fails), ClockMoves: true, Full: true, Lax: false, Body: func(x *mc.Exec) func() string {
		pol := p16policy(kind, m)
		nload := 0
		lg := &loadLog{now: func() int64 { return int64(x.Now()) }}
		idx := 0
		lg.fail = func() byte {
			idx = nload
			nload++
			if idx < len(fails) && fails[idx] != '.' {
				return fails[idx]
			}
			return 0
		}
		lg.dur = func() {
			if idx < len(durs) && durs[idx] > '0' {
				mc.Sleep(time.Duration(durs[idx] - '0'))
			} else {
				mc.Point()
			}
		}
		var reads []*readEv
		for i, p := range progs {
			x.Go(fmt.Sprint("r", i), func() {
				for _, ch := range p {
					switch ch {
					case 'r':
						mc.Point()
						lg.tick()
						r := &readEv{by: i, start: int64(x.Now()), si: lg.seq, ei: -1}
						reads = append(reads, r)
						err := doLoad(pol, loader{lg, i})
						lg.tick()
						r.err, r.end, r.ei = err, int64(x.Now()), lg.seq
					default:
						mc.Sleep(time.Duration(ch - '0'))
					}
				}
			})
		}
		return func() string { return p16check(kind, m, reads, lg.ev, lg.overlap) }
	}}
}

func p16(th bool) []*lib.Unit {
	var us []*lib.Unit
	// sequential histories through the policy and through a store
	depth := 7
	if th {
		depth = 9
	}
	for _, m := range []int64{5, 1, second, 0, -5} {
		for _, kind := range []byte{'d', 's', 'n'} {
			if kind != 'd' && m != 5 {
				continue
			}
			us = append(us, lib.Shards(fmt.Sprintf("sequential/policy=%c/m=%d", kind, m), depth/2, 2, fmt.Sprintf("all sequences of %d reads (loads that succeed, fail, panic, take time) and clock steps around m", depth), func(c *lib.Ctx, sh, k int) {
				names := []string{"read", "read, load fails", "read, load takes 3", "read, load panics", "+1", "+m-1", "+m", "+m+1"}
				c.Sequences(len(names), depth, sh, k, func(seq []int) string {
					s := []string{}
					for _, o := range seq {
						s = append(s, names[o])
					}
					return fmt.Sprintf("policy %c, m=%d: %s", kind, m, strings.Join(s, "; "))
				}, func(seq []int) string {
					mc.SetNow(mc.Epoch0)
					pol := p16policy(kind, m)
					fail, dur := byte(0), int64(0)
					lg := &loadLog{now: mc.PeekNano, fail: func() byte { return fail }, dur: func() { mc.Advance(dur) }}
					var reads []*readEv
					for _, o := range seq {
						switch o {
						case 0, 1, 2, 3:
							fail, dur = []byte{0, 'f', 0, 'p'}[o], 0
							if o == 2 {
								dur = 3
							}
							lg.tick()
							r := &readEv{start: mc.PeekNano(), si: lg.seq}
							r.err = doLoad(pol, loader{lg, 0})
							lg.tick()
							r.ei, r.end = lg.seq, mc.PeekNano()
							reads = append(reads, r)
							c.Trans(1)
						case 4:
							mc.Advance(1)
						default:
							mc.Advance(max(0, m+int64(o-6)))
						}
					}
					c.State(kind, m, len(lg.ev), len(reads))
					return p16check(kind, m, reads, lg.ev, lg.overlap)
				})
			})...)
		}
	}
	us = append(us, &lib.Unit{Name: "store-reads", Weight: 2, Note: "every kind of store read triggers the policy before answering; failing loads leave the memory as it is", Seq: func(c *lib.Ctx) {
		reads := []string{"GetValue", "GetValueString", "MustGetValue", "MustGetValueString", "BatchGetValues", "BatchGetValueString"}
		for _, name := range reads {
			for _, m := range []int64{0, 5} {
				for _, fails := range []string{"", "f", ".f", "ff"} {
					for _, gap := range []int64{0, 4, 5, 6} {
						if !c.Case(func() string { return fmt.Sprintf("%s, m=%d, loads %q, reads %d apart", name, m, fails, gap) }, func() string {
							mc.SetNow(mc.Epoch0)
							p := &fakePersister{m: map[string]string{"a": "5"}, mode: map[int]byte{}}
							for i, f := range fails {
								if f == 'f' {
									p.mode[i+1] = 'f'
								}
							}
							st := confstore.NewStore(p, confstore.NewLoadPolicy(time.Duration(m)))
							st.RegisterKey("a", "1", csProc('i'))
							get := func() string {
								switch name {
								case "GetValue":
									v, _ := st.GetValue("a")
									return strings.TrimPrefix(csShow(v), "int:")
								case "GetValueString":
									v, _ := st.GetValueString("a")
									return v
								case "MustGetValue":
									return strings.TrimPrefix(csShow(st.MustGetValue("a")), "int:")
								case "MustGetValueString":
									return st.MustGetValueString("a")
								case "BatchGetValues":
									l := st.BatchGetValues([]string{"a"})
									if len(l) != 1 {
										return fmt.Sprint(len(l), " results")
									}
									return strings.TrimPrefix(csShow(l[0].Value), "int:")
								}
								l := st.BatchGetValueString([]string{"a"})
								if len(l) != 1 {
									return fmt.Sprint(len(l), " results")
								}
								return l[0].Value
							}
							double := strings.HasPrefix(name, "Must") || strings.HasPrefix(name, "Batch")
							got := get()
							c.Trans(1)
							// these readers may consult the policy more than once, so that a second load succeeds
							if want := "5"; got != want && !(got == "1" && fails != "" && fails[0] == 'f') {
								return fmt.Sprintf("first read gave %s", got)
							}
							if p.calls == 0 {
								return "the first read did not load"
							}
							if p.calls > 1 && !double {
								return fmt.Sprintf("the first read loaded %d times", p.calls)
							}
							okLoads := false
							for i := 1; i <= p.calls; i++ {
								okLoads = okLoads || p.mode[i] == 0
							}
							p.m["a"] = "6"
							mc.Advance(gap)
							n := p.calls
							got = get()
							due := !okLoads || gap >= m
							if due != (p.calls > n) {
								return fmt.Sprintf("second read, %d after the first one: %d loads, due %v", gap, p.calls-n, due)
							}
							anyOK := false
							for i := n + 1; i <= p.calls; i++ {
								anyOK = anyOK || p.mode[i] == 0
							}
							want := "5"
							if anyOK {
								want = "6"
							} else if !okLoads {
								want = "1"
							}
							if got != want {
								return fmt.Sprintf("second read gave %s, want %s", got, want)
							}
							return ""
						}) {
							return
						}
					}
				}
			}
		}
	}})
	// concurrent readers
	var scs, sl []*mc.Scenario
	for _, m := range []int64{3, 0, -1} {
		for _, fails := range []string{"", "f", ".f", "ff", "p", ".p", "pf"} {
			for _, durs := range []string{"", "2", "4", "24"} {
				for _, pr := range [][]string{{"r", "r"}, {"r", "r", "r"}, {"rr", "r"}, {"r3r", "r"}, {"r2r", "2r"}, {"r3r", "3r"}, {"r4r", "r4r"}, {"r", "1r", "3r"}, {"r3r", "5r", "r"}, {"r", "2r2r"}, {"rr", "rr"}} {
					scs = append(scs, p16scenario('d', m, pr, durs, fails))
					if m == 0 && durs == "" {
						sl = append(sl, p16scenario('s', 3, pr, durs, fails), p16scenario('n', 3, pr, durs, fails))
					}
				}
				if th {
					for _, pr := range [][]string{{"r3r3r", "r3r"}, {"r3r", "2r2r", "r4r"}, {"rrr", "rr", "r"}, {"r1r", "r2r", "r3r"}, {"r5r", "r3r", "3r"}} {
						scs = append(scs, p16scenario('d', m, pr, durs, fails))
					}
				}
			}
		}
	}
	us = append(us, splitScs("concurrent", 6, 6, "two and three readers, loads that take time, fail or panic, minimum intervals 3, 0, -1", scs)...)
	us = append(us, splitScs("simple-noop", 2, 2, "the simple and the no-op policy under concurrent readers", sl)...)
	return us
}

func init() {
	lib.Register("P13", with(p13, p13procs, scaleP13), "no loading; the custom processors used are pure or panic")
	lib.Register("P14", with(p14, scaleP14), "one caller at a time; the persistence either has the effect of a call or not")
	lib.Register("P15", p15, "no persistence and no loading, as stated")
	lib.Register("P16", p16, "the clock never runs backwards; persisters do not read the store while loading")
}
