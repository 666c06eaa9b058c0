//go:build go1.22

package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/chanjarster/gears/confstore"
	"github.com/chanjarster/gears/zverif/lib"
	"github.com/chanjarster/gears/zverif/mc"
)

// ---- P43: memory and persistence agree after concurrent changes -----------------------------------------------------------

// slowPersister is a persistence in memory whose calls take time: others can run before and after each one takes effect.
type slowPersister struct {
	m     map[string]string
	log   mc.Log
	n     int
	fail  int             // this call (from 1) fails without effect
	bad   map[string]bool // keys whose last call failed
	takes time.Duration   // before and after the effect
}

var errSlow = errors.New("persistence unavailable")

func (p *slowPersister) wait() {
	if p.takes > 0 {
		mc.Sleep(p.takes)
	} else {
		mc.Point()
	}
}

func (p *slowPersister) do(f func(), keys ...string) error {
	p.log.Add("p", 0)
	p.n++
	bad := p.n == p.fail
	p.wait()
	p.log.Add("q", 0)
	if !bad {
		f()
	}
	for _, k := range keys {
		p.bad[k] = bad
	}
	p.wait()
	if bad {
		return errSlow
	}
	return nil
}

func (p *slowPersister) Load(s confstore.Interface) error { return nil }
func (p *slowPersister) Save(k, v string) error           { return p.do(func() { p.m[k] = v }, k) }
func (p *slowPersister) Delete(k string) error            { return p.do(func() { delete(p.m, k) }, k) }
func (p *slowPersister) BatchSave(l []*confstore.KVStr) error {
	if len(l) == 0 {
		return nil
	}
	var keys []string
	for _, kv := range l {
		keys = append(keys, kv.Key)
	}
	return p.do(func() {
		for _, kv := range l {
			p.m[kv.Key] = kv.Value
		}
	}, keys...)
}

func (p *slowPersister) String() string {
	var s []string
	for k, v := range p.m {
		s = append(s, k+"="+v)
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

// agreeProg: programs over U V (update a), u v (update b), X (update a, rejected), B C (batches), Z z (reset), D d (deregister),
// R r (register), N (another key), g (read).
func agreeProg(st confstore.Interface, prog string, after func(ch rune)) {
	kv := func(s ...string) (l []*confstore.KVStr) {
		for i := 0; i+1 < len(s); i += 2 {
			l = append(l, &confstore.KVStr{Key: s[i], Value: s[i+1]})
		}
		return
	}
	for _, ch := range prog {
		switch ch {
		case 'U':
			st.Update("a", "1")
		case 'V':
			st.Update("a", "2")
		case 'u':
			st.Update("b", "1")
		case 'v':
			st.Update("b", "2")
		case 'X':
			st.Update("a", "x")
		case 'B':
			st.BatchUpdate(kv("a", "3", "b", "3"))
		case 'C':
			st.BatchUpdate(kv("b", "4", "a", "no", "a", "4"))
		case 'Z':
			st.ResetKey("a")
		case 'z':
			st.ResetKey("b")
		case 'D':
			st.DeregisterKey("a")
		case 'd':
			st.DeregisterKey("b")
		case 'R':
			st.RegisterKey("a", "0", csProc('i'))
		case 'r':
			st.RegisterKey("b", "0", csProc('i'))
		case 'g':
			st.GetValueString("a")
		}
		if after != nil {
			after(ch)
		}
	}
}

func agreement(st confstore.Interface, p *slowPersister) string {
	for _, key := range []string{"a", "b"} {
		if p.bad[key] {
			continue
		}
		v, reg := st.GetValueString(key)
		pv, has := p.m[key]
		switch {
		case !reg && has:
			return fmt.Sprintf("key %s is not registered, but %q is persisted", key, pv)
		case reg && v == "0" && has:
			return fmt.Sprintf("key %s has its default, but %q is persisted", key, pv)
		case reg && v != "0" && (!has || pv != v):
			return fmt.Sprintf("the store serves %s=%q, persisted is %q (%v): a restart changes the value", key, v, pv, has)
		}
	}
	return ""
}

func newSlow() *slowPersister {
	return &slowPersister{m: map[string]string{}, bad: map[string]bool{}}
}

func agreeScenario(setup string, progs []string, takes time.Duration) *mc.Scenario {
	return &mc.Scenario{Name: fmt.Sprintf("setup=%q %v persisting takes 2x%v", setup, progs, takes), Full: true, Body: func(x *mc.Exec) func() string {
		p := newSlow()
		st := confstore.NewStore(p, confstore.NoopLoadPolicy)
		agreeProg(st, "Rr"+setup, nil)
		p.takes = takes
		onlyUpdates := setup != "D" && strings.Trim(strings.Join(progs, ""), "UVuvXBCg") == ""
		for i, pr := range progs {
			x.Go(fmt.Sprint("t", i), func() {
				agreeProg(st, pr, func(ch rune) {
					if !onlyUpdates {
						return
					}
					if _, ok := p.m["a"]; !ok && strings.ContainsRune("UVBC", ch) {
						x.Fail("an update of a returned and nothing is persisted")
					}
					if _, ok := p.m["b"]; !ok && strings.ContainsRune("uvBC", ch) {
						x.Fail("an update of b returned and nothing is persisted")
					}
				})
			})
		}
		bad := ""
		x.Final(func() {
			if bad = agreement(st, p); bad != "" {
				return
			}
			x.Note("%s", p.String())
			// later changes work
			p.takes = 0
			agreeProg(st, "RrVu", nil)
			bad = agreement(st, p)
			if bad == "" && p.String() != "a=2 b=1" {
				bad = "after further updates " + p.String() + " is persisted"
			}
		})
		return func() string { return bad }
	}}
}

// agreeFault: one persistence call fails. A key whose last call succeeded agrees when each caller has a key of its own; in any case
// the next complete round of updates makes both agree again.
func agreeFault(setup string, progs []string, fail int) *mc.Scenario {
	own := true
	for i, p := range progs {
		other := "UVZDRXBC"
		if i == 0 {
			other = "uvzdrBC"
		}
		own = own && !strings.ContainsAny(p, other)
	}
	return &mc.Scenario{Name: fmt.Sprintf("setup=%q %v call %d fails", setup, progs, fail), Full: true, Body: func(x *mc.Exec) func() string {
		p := newSlow()
		st := confstore.NewStore(p, confstore.NoopLoadPolicy)
		agreeProg(st, "Rr"+setup, nil)
		p.n, p.fail = 0, fail
		for i, pr := range progs {
			x.Go(fmt.Sprint("t", i), func() { agreeProg(st, pr, nil) })
		}
		bad := ""
		x.Final(func() {
			p.fail = 0
			if own {
				if bad = agreement(st, p); bad != "" {
					return
				}
			}
			agreeProg(st, "RrVu", nil)
			if bad = agreement(st, p); bad == "" && p.String() != "a=2 b=1" {
				bad = "after further updates " + p.String() + " is persisted"
			}
		})
		return func() string { return bad }
	}}
}

func p43(th bool) []*lib.Unit {
	var pair, long, trip, fault, own, lasts []*mc.Scenario
	one := strings.Split("U V u X B C Z D R z d g", " ")
	mut := strings.Split("U V B C Z D", " ")
	for _, s := range []string{"", "U", "Bz", "D"} {
		for i, p := range one {
			for _, q := range one[i:] {
				pair = append(pair, agreeScenario(s, []string{p, q}, 0))
				lasts = append(lasts, agreeScenario(s, []string{p, q}, time.Second))
				if strings.ContainsAny(p+q, "UVBCZD") {
					fault = append(fault, agreeFault(s, []string{p, q}, 1), agreeFault(s, []string{p, q}, 2))
				}
			}
		}
		for _, p := range []string{"UV", "UZ", "ZU", "DR", "DRU", "UD", "BU", "CV", "BZ", "UB"} {
			for _, q := range []string{"V", "VU", "Z", "D", "DR", "B", "C", "CB", "ZV", "Du", "RV", "uU"} {
				long = append(long, agreeScenario(s, []string{p, q}, 0))
				lasts = append(lasts, agreeScenario(s, []string{p, q}, time.Second))
			}
		}
		for _, p := range strs("UVZDRX", 2, 3) {
			for n := 1; n <= len(p); n++ {
				own = append(own, agreeFault(s, []string{p, ""}, n))
			}
			if len(p) == 2 {
				for _, q := range []string{"u", "zv", "ud", "uzv"} {
					for n := 1; n <= len(p)+len(q); n++ {
						own = append(own, agreeFault(s, []string{p, q}, n))
					}
				}
			}
		}
		for i, p := range mut {
			for j, q := range mut[i:] {
				for _, r := range mut[i+j:] {
					trip = append(trip, agreeScenario(s, []string{p, q, r}, 0))
				}
				if th {
					for _, r := range []string{"UV", "DR", "ZU", "uB", "DRV"} {
						trip = append(trip, agreeScenario(s, []string{p, q, r}, 0))
					}
				}
			}
		}
	}
	var us []*lib.Unit
	us = append(us, splitScs("pairs", 3, 4, "two callers, one operation each, four starting states", pair)...)
	us = append(us, splitScs("longer", 6, 6, "two callers with up to three operations each", long)...)
	us = append(us, splitScs("three", 8, 8, "three callers", trip)...)
	us = append(us, splitScs("fault", 3, 4, "two callers, one call of the persistence fails", fault)...)
	us = append(us, splitScs("fault-own-keys", 3, 4, "one or two callers with a key each, one call of the persistence fails: a key whose last call succeeded agrees at the end", own)...)
	us = append(us, splitScs("takes-time", 3, 4, "two callers, every call of the persistence takes two seconds", lasts)...)
	return us
}

func init() {
	lib.Register("P43", p43, "no loading while changes are made; a call of the persistence has its effect at one moment")
}
