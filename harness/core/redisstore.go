//go:build go1.22

package main

import (
	"fmt"

	"github.com/chanjarster/gears/confstore"
	"github.com/chanjarster/gears/zverif/fakeredis"
	"github.com/chanjarster/gears/zverif/lib"
)

const cfgRoot = "my:conf"

// p14redisRun runs a sequence on a store with the Redis persister; the at'th command to Redis fails.
func p14redisRun(c *lib.Ctx, ops []csOp, seq []int, simple bool, at int, fault fakeredis.Fault) (calls int, msg string) {
	srv, cl := newRedis()
	defer cl.Close()
	n := 0
	last := fakeredis.None // what happened to the last command
	srv.Fault = func(cmd []string) fakeredis.Fault {
		n++
		last = fakeredis.None
		if n == at {
			last = fault
			return fault
		}
		return fakeredis.None
	}
	srv.DialHit = nil
	srv.Do("HSET", "other:conf", "a", "99")
	p := confstore.NewRedisPersister(cl, cfgRoot)
	pol := confstore.NoopLoadPolicy
	if simple {
		pol = confstore.NewSimpleLoadPolicy()
	}
	st := confstore.NewStore(p, pol)
	m := newCsModel()
	for _, o := range []csOp{{kind: 'R', key: "a", val: "1", proc: 'i'}, {kind: 'R', key: "b", val: "false", proc: 'b'}} {
		if s := csApply(st, m, o, yes, yes); s != "" {
			return n, s
		}
	}
	for i, k := range seq {
		op := ops[k]
		last = fakeredis.None
		if s := csApply(st, m, op, func() bool { return last.Executed() }, func() bool { return last == fakeredis.None }); s != "" {
			return n, fmt.Sprintf("step %d: %s", i+1, s)
		}
		if op.kind == 'X' {
			srv.Do("HSET", cfgRoot, op.key, op.val)
		}
		c.Trans(1)
		if a, b := mapStr(srv.Hash(cfgRoot)), mapStr(m.pers); a != b {
			return n, fmt.Sprintf("after step %d (%s) Redis holds {%s}, want {%s}", i+1, op.name, a, b)
		}
		last = fakeredis.None
		v, hit := st.GetValue("a")
		if simple {
			if last == fakeredis.None {
				m.load()
			} else {
				k0 := n
				st.GetValueString("b")
				if n == k0 {
					return n, fmt.Sprintf("after step %d (%s): a failed load was not tried again by the next read", i+1, op.name)
				}
				m.load()
				v, hit = st.GetValue("a")
			}
		}
		k, ok := m.keys["a"]
		if hit != ok || (hit && csShow(v) != csValue(k.proc, k.value())) {
			return n, fmt.Sprintf("after step %d (%s): GetValue(a) = %s, %v; want %s", i+1, op.name, csShow(v), hit, want(k, ok))
		}
		c.State(m.String(), simple)
	}
	calls = n
	at = 0
	if simple {
		m.load()
	}
	if s := csReads(st, m, []string{"a", "b", "c", ""}); s != "" {
		return calls, "at the end: " + s
	}
	// restart
	st2 := confstore.NewStore(confstore.NewRedisPersister(cl, cfgRoot), confstore.NewSimpleLoadPolicy())
	m2 := newCsModel()
	for k, v := range m.pers {
		m2.pers[k] = v
	}
	for _, k := range []string{"a", "b"} {
		if e, ok := m.keys[k]; ok {
			if s := csApply(st2, m2, csOp{kind: 'R', key: k, val: e.def, proc: e.proc}, yes, yes); s != "" {
				return calls, "after a restart: " + s
			}
		}
	}
	m2.load()
	if s := csReads(st2, m2, []string{"a", "b", "c", ""}); s != "" {
		return calls, "after a restart: " + s
	}
	if got := mapStr(srv.Hash("other:conf")); got != "a=99" {
		return calls, "another application's hash was changed to {" + got + "}"
	}
	if ks := srv.Keys(); len(ks) > 2 {
		return calls, fmt.Sprintf("unexpected Redis keys %q", ks)
	}
	if srv.Broken != "" {
		panic("the fake Redis does not know the command " + srv.Broken)
	}
	return calls, ""
}

func p14redis(th bool) []*lib.Unit {
	ops := p14ops()
	depth := 3
	if th {
		depth = 4
	}
	var us []*lib.Unit
	for _, simple := range []bool{false, true} {
		name := "no-load"
		if simple {
			name = "load-always"
		}
		us = append(us, lib.Shards("redis/"+name, 9, 6, fmt.Sprintf("the Redis persister: all sequences of %d operations, then a restart; sequences of %d with every single command failing in one of %d ways", depth+1, depth-1, int(fakeredis.NFaults)-1), func(c *lib.Ctx, i, k int) {
			c.Sequences(len(ops), depth+1, i, k, func(seq []int) string { return name + ": " + csNames(ops, seq) }, func(seq []int) string {
				_, s := p14redisRun(c, ops, seq, simple, 0, 0)
				return s
			})
			c.Sequences(len(ops), depth-1, i, k, func(seq []int) string {
				return name + ", one command failing: " + csNames(ops, seq)
			}, func(seq []int) string {
				n, s := p14redisRun(c, ops, seq, simple, 0, 0)
				if s != "" {
					return s
				}
				for at := 1; at <= n; at++ {
					for f := fakeredis.None + 1; f < fakeredis.NFaults; f++ {
						if f == fakeredis.NoScript {
							continue
						}
						if _, s := p14redisRun(c, ops, seq, simple, at, f); s != "" {
							return fmt.Sprintf("command %d fails (%v): %s", at, f, s)
						}
					}
				}
				return ""
			})
		})...)
	}
	// values survive byte for byte
	us = append(us, &lib.Unit{Name: "redis/values", Weight: 2, Note: "all string values and keys over a small alphabet up to length 3 and unusual ones survive a restart byte for byte", Seq: func(c *lib.Ctx) {
		vals := append(strs("a0 \r\n", 0, 3), "\x00", "\xff\xfe", "中", "*3\r\n$3\r\nDEL\r\n", "%s%d")
		for _, key := range []string{"k", "a b", "中", "k\r\n", "*", "my:conf"} {
			for _, v := range vals {
				for batch := 0; batch < 2; batch++ {
					if !c.Case(func() string { return fmt.Sprintf("key %q value %q batch %d", key, v, batch) }, func() string {
						srv, cl := newRedis()
						defer cl.Close()
						st := confstore.NewStore(confstore.NewRedisPersister(cl, cfgRoot), confstore.NoopLoadPolicy)
						reg := func(s confstore.Interface) string {
							for _, k := range []string{key, "z"} {
								if e := s.RegisterKey(k, "d", confstore.String); e != nil {
									return fmt.Sprintf("RegisterKey(%q): %v", k, e)
								}
							}
							return ""
						}
						if s := reg(st); s != "" {
							return s
						}
						if batch == 0 {
							if e := st.Update(key, v); e != nil {
								return fmt.Sprintf("Update: %v", e)
							}
						} else if e := st.BatchUpdate([]*confstore.KVStr{{Key: "z", Value: "zz"}, {Key: key, Value: v}}); len(e) != 0 {
							return fmt.Sprintf("BatchUpdate: %v", e)
						}
						st2 := confstore.NewStore(confstore.NewRedisPersister(cl, cfgRoot), confstore.NewSimpleLoadPolicy())
						if s := reg(st2); s != "" {
							return s
						}
						got, hit := st2.GetValueString(key)
						if !hit || got != v {
							return fmt.Sprintf("after a restart the value is %q (%v), want %q", got, hit, v)
						}
						if h := srv.Hash(cfgRoot); len(h) != 1+batch || h[key] != v {
							return fmt.Sprintf("Redis holds {%s}", mapStr(h))
						}
						return ""
					}) {
						return
					}
				}
			}
		}
	}})
	return us
}
