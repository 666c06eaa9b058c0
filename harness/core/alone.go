//go:build go1.22

package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/go-redis/redis/v7"

	"github.com/chanjarster/gears/circuitbreaker"
	"github.com/chanjarster/gears/concurrent"
	"github.com/chanjarster/gears/confstore"
	"github.com/chanjarster/gears/event"
	"github.com/chanjarster/gears/ratelimiter"
	"github.com/chanjarster/gears/schedule"
	"github.com/chanjarster/gears/zverif/fakeredis"
	"github.com/chanjarster/gears/zverif/lib"
	"github.com/chanjarster/gears/zverif/mc"
)

func init() {
	lib.Register("P39", p39, "clocks, timers and Redis are virtual as for the other properties", "an instance made twice for one Redis key, key root or persister is not separate")
}

// ---- P39: separate instances -----------------------------------------------------------------------------------------

// A part is a kind of component. env makes what the instances of a run share (a Redis server); make makes an instance
// with the parameters number par at place i; the operations return what the caller sees.
type part struct {
	name  string
	ops   []string
	pars  int
	redis bool // not for the scheduler
	env   func() (env any, close func())
	make  func(env any, i, par int) []func() string
}

func noEnv() (any, func()) { return nil, func() {} }

type semaI interface {
	TryAcquire() bool
	Release()
}

func boolOp(f func() bool) func() string { return func() string { return fmt.Sprint(f()) } }

// guarded makes a panic part of what the caller sees.
func guarded(f func() string) func() string {
	return func() (s string) {
		defer func() {
			if r := recover(); r != nil {
				s = fmt.Sprint("panic ", r)
			}
		}()
		return f()
	}
}

func kvErr(e *confstore.KVError) string {
	if e == nil {
		return "ok"
	}
	return "refused " + e.Key
}

func storeOps(p func(env any, i int) confstore.Persister, pol func() confstore.LoadPolicy) func(env any, i, par int) []func() string {
	return func(env any, i, par int) []func() string {
		s := confstore.NewStore(p(env, i), pol())
		def := []string{"5", "7"}[par]
		var vp confstore.ValueProcessor = confstore.IntProcessor(0, true, 9, par == 0)
		if par == 1 {
			vp = confstore.EnumProcessor([]string{"7", "8", "zz"})
		}
		return []func() string{
			func() string { return fmt.Sprint(s.RegisterKey("a", def, vp)) },
			func() string { return kvErr(s.Update("a", "8")) },
			func() string { return kvErr(s.UpdateNoPersist("a", "9")) },
			func() string { v, ok := s.GetValue("a"); return fmt.Sprint(v, ok) },
			func() string { s.ResetKey("a"); return "" },
			func() string { s.DeregisterKey("a"); return "" },
			func() string {
				out := ""
				for _, e := range s.BatchUpdate([]*confstore.KVStr{{Key: "a", Value: "zz"}, {Key: "b", Value: "1"}}) {
					out += kvErr(e) + ";"
				}
				for _, kv := range s.BatchGetValueString([]string{"a", "b"}) {
					out += kv.Key + "=" + kv.Value + ";"
				}
				return out
			},
		}
	}
}

var storeNames = []string{"register", "update", "update in memory", "get", "reset", "deregister", "batch"}

type countPersister struct{ n int }

func (p *countPersister) Load(confstore.Interface) error     { p.n++; return nil }
func (p *countPersister) Save(string, string) error          { return nil }
func (p *countPersister) BatchSave([]*confstore.KVStr) error { return nil }
func (p *countPersister) Delete(string) error                { return nil }

type redisEnv struct {
	srv [2]*fakeredis.Server
	cl  [2]*redis.Client
}

func oneRedis() (any, func()) {
	s, c := newRedis()
	ratelimiter.LoadScript(c)
	return &redisEnv{[2]*fakeredis.Server{s, s}, [2]*redis.Client{c, c}}, func() { c.Close() }
}

func twoRedis() (any, func()) {
	s, c := newRedis()
	t, d := newRedis()
	ratelimiter.LoadScript(c)
	ratelimiter.LoadScript(d)
	return &redisEnv{[2]*fakeredis.Server{s, t}, [2]*redis.Client{c, d}}, func() { c.Close(); d.Close() }
}

func ttlOps(l ratelimiter.TtlRateLimiter, key string) []func() string {
	return []func() string{
		func() string { return resStr(l.ShouldBlock(key, "m")) },
		func() string { return resStr(l.IsBlocked(key)) },
		func() string { return fmt.Sprint(l.GetCapacity(), l.GetWindowSizeSeconds(), l.GetTimeoutSeconds()) },
	}
}

type plainTask struct {
	name string
	log  *[]string
	up   bool
}

func (t *plainTask) Name() string { return t.name }
func (t *plainTask) Start() error { t.up = true; *t.log = append(*t.log, "start "+t.name); return nil }
func (t *plainTask) MustStart()   { t.Start() }
func (t *plainTask) Stop() error  { t.up = false; *t.log = append(*t.log, "stop "+t.name); return nil }
func (t *plainTask) MustStop()    { t.Stop() }

func parts() []part {
	acq := func(l interface{ Acquire() bool }) func() string { return boolOp(l.Acquire) }
	semaOps := func(s semaI) []func() string {
		return []func() string{boolOp(s.TryAcquire), func() string { s.Release(); return "" }}
	}
	ttlNamesOf := []string{"call", "is blocked", "parameters"}
	noop := func(any, int) confstore.Persister { return confstore.NoopPersister }
	return []part{
		{name: "channel semaphore", ops: []string{"try", "release"}, pars: 2, env: noEnv, make: func(_ any, _, p int) []func() string {
			return semaOps(concurrent.NewChanSemaphore(int64(p + 1)))
		}},
		{name: "lock semaphore", ops: []string{"try", "release"}, pars: 2, env: noEnv, make: func(_ any, _, p int) []func() string {
			return semaOps(concurrent.NewLockSemaphore(int64(p + 1)))
		}},
		{name: "circuit breaker", ops: []string{"success", "failure"}, pars: 4, env: noEnv, make: func(_ any, i, p int) []func() string {
			cb := circuitbreaker.NewSyncCircuitBreaker(p&1+1, time.Duration(p>>1+1)*time.Second)
			do := func(err error) func() string {
				return func() (s string) {
					cb.Do(func() error { s += "run;"; return err }, func(e error) { s += "error " + e.Error() + ";" }, func() { s += "open;" })
					return
				}
			}
			return []func() string{do(nil), do(fmt.Errorf("e%d", i))}
		}},
		{name: "sync token bucket", ops: []string{"acquire", "capacity"}, pars: 4, env: noEnv, make: func(_ any, _, p int) []func() string {
			b := ratelimiter.NewSyncTokenBucket(p&1+1, p>>1+1)
			return []func() string{acq(b), func() string { return fmt.Sprint(b.Capacity()) }}
		}},
		{name: "atomic token bucket", ops: []string{"acquire", "capacity"}, pars: 4, env: noEnv, make: func(_ any, _, p int) []func() string {
			b := ratelimiter.NewAtomicTokenBucket(p&1+1, p>>1+1)
			return []func() string{acq(b), func() string { return fmt.Sprint(b.Capacity()) }}
		}},
		{name: "fixed window", ops: []string{"acquire", "settings"}, pars: 4, env: noEnv, make: func(_ any, _, p int) []func() string {
			b := ratelimiter.NewSyncFixedWindow(p&1+1, time.Duration(p>>1+1)*1500*time.Millisecond)
			return []func() string{acq(b), func() string { return fmt.Sprint(b.Capacity(), b.WindowSize()) }}
		}},
		{name: "sliding window", ops: []string{"acquire", "settings", "enlarge"}, pars: 4, env: noEnv, make: func(_ any, _, p int) []func() string {
			b := ratelimiter.NewSyncSlidingWindow(p&1+1, time.Duration(p>>1+1)*1500*time.Millisecond)
			return []func() string{acq(b), func() string { return fmt.Sprint(b.Capacity(), b.WindowSize()) }, func() string { b.UpdateConfig(3, 2*time.Second); return "" }}
		}},
		{name: "TTL limiter, one server", ops: ttlNamesOf, pars: 2, redis: true, env: oneRedis, make: func(e any, i, p int) []func() string {
			return ttlOps(ratelimiter.NewRedisTtlRateLimiter(e.(*redisEnv).cl[i], ratelimiter.NewFixedTtlRateLimiterParams(p+1, p+1, 2-p)), fmt.Sprint("k", i))
		}},
		{name: "TTL limiter, two servers", ops: ttlNamesOf, pars: 2, redis: true, env: twoRedis, make: func(e any, i, p int) []func() string {
			return ttlOps(ratelimiter.NewRedisTtlRateLimiter(e.(*redisEnv).cl[i], ratelimiter.NewFixedTtlRateLimiterParams(p+1, p+1, 2-p)), "k")
		}},
		{name: "cluster TTL limiter", ops: ttlNamesOf, pars: 2, redis: true, env: oneRedis, make: func(e any, i, p int) []func() string {
			return ttlOps(ratelimiter.NewRedisTtlRateLimiterCluster(e.(*redisEnv).cl[i], ratelimiter.NewFixedTtlRateLimiterParams(p+1, p+1, 2-p), fmt.Sprint("t", i)), "k")
		}},
		{name: "store", ops: storeNames, pars: 2, env: noEnv, make: storeOps(noop, func() confstore.LoadPolicy { return confstore.NoopLoadPolicy })},
		{name: "store with Redis roots", ops: storeNames, pars: 2, redis: true, env: oneRedis, make: storeOps(func(e any, i int) confstore.Persister {
			return confstore.NewRedisPersister(e.(*redisEnv).cl[i], []string{"my:conf", "my:conf2"}[i])
		}, confstore.NewSimpleLoadPolicy)},
		{name: "store with Redis servers", ops: storeNames, pars: 2, redis: true, env: twoRedis, make: storeOps(func(e any, i int) confstore.Persister {
			return confstore.NewRedisPersister(e.(*redisEnv).cl[i], "my:conf")
		}, func() confstore.LoadPolicy { return confstore.NewLoadPolicy(1500 * time.Millisecond) })},
		{name: "load policy", ops: []string{"load"}, pars: 2, env: noEnv, make: func(_ any, _, p int) []func() string {
			pol, per := confstore.NewLoadPolicy(time.Duration(p+1)*1500*time.Millisecond), &countPersister{}
			return []func() string{func() string { return fmt.Sprint(pol.DoLoad(nil, per), per.n) }}
		}},
		{name: "processors", ops: []string{"enum", "int", "string"}, pars: 2, env: noEnv, make: func(_ any, _, p int) []func() string {
			en := confstore.EnumProcessor([]string{"a", []string{"b", "c"}[p]})
			in := confstore.IntProcessor(p, p == 0, 5+p, p == 1)
			st := confstore.StringProcessor(p, 2+p)
			all := func(v confstore.ValueProcessor, vals ...string) func() string {
				return func() (s string) {
					for _, x := range vals {
						ok, _ := v.Validate(x)
						if s += fmt.Sprint(ok, " "); ok {
							s += fmt.Sprint(v.Convert(x), " ")
						}
					}
					return
				}
			}
			return []func() string{all(en, "a", "b", "c", ""), all(in, "0", "1", "5", "6", "x"), all(st, "", "a", "ab", "abc", "abcd")}
		}},
		{name: "TTL parameters", ops: []string{"read"}, pars: 8, env: noEnv, make: func(_ any, _, p int) []func() string {
			pr := ratelimiter.NewFixedTtlRateLimiterParams(1+p&1, 1+p>>1&1, 1+p>>2)
			return []func() string{func() string {
				return fmt.Sprint(pr.GetCapacity(), pr.GetWindowSizeSeconds(), pr.GetTimeoutSeconds())
			}}
		}},
		{name: "task manager", ops: []string{"register a", "register b", "unregister a", "unregister all"}, pars: 1, env: noEnv, make: func(any, int, int) []func() string {
			m := schedule.NewTaskManager()
			var log []string
			shown := 0
			see := func(err error) string {
				l := log[shown:]
				shown = len(log)
				l = append([]string(nil), l...)
				sort.Strings(l)
				return fmt.Sprint(err, l)
			}
			reg := func(n string) func() string {
				return func() string { return see(m.Register(&plainTask{name: n, log: &log})) }
			}
			return []func() string{reg("a"), reg("b"), func() string { m.Unregister("a"); return see(nil) }, func() string { m.UnregisterAll(); return see(nil) }}
		}},
	}
}

// runApart runs the steps of the places in keep; a step is place*n+op, the last two numbers are clock advances.
func runApart(p, q *part, pp, qp int, seq []int, keep [2]bool) (out [2][]string) {
	mc.ResetPackages()
	mc.SetNow(mc.Epoch0 + 100*1000000)
	env := map[string]any{}
	ps, pars := [2]*part{p, q}, [2]int{pp, qp}
	var inst [2][]func() string
	for _, k := range seq {
		i := 0
		if k >= len(p.ops) {
			i, k = 1, k-len(p.ops)
		}
		if i == 1 && k >= len(q.ops) {
			mc.Advance([]int64{second, 2 * second}[k-len(q.ops)])
			continue
		}
		mc.Advance(1000000)
		if !keep[i] {
			continue
		}
		if inst[i] == nil {
			k := ps[i].name
			if _, ok := env[k]; !ok {
				e, done := ps[i].env()
				defer done()
				env[k] = e
			}
			inst[i] = ps[i].make(env[k], i, pars[i])
		}
		out[i] = append(out[i], ps[i].ops[k]+": "+guarded(inst[i][k])())
	}
	return
}

func apartNames(p, q *part, seq []int) string {
	var s []string
	for _, k := range seq {
		switch {
		case k < len(p.ops):
			s = append(s, "first "+p.ops[k])
		case k < len(p.ops)+len(q.ops):
			s = append(s, "second "+q.ops[k-len(p.ops)])
		default:
			s = append(s, []string{"+1s", "+2s"}[k-len(p.ops)-len(q.ops)])
		}
	}
	return strings.Join(s, ", ")
}

func apart(c *lib.Ctx, p, q *part, depth, i, k int) {
	for pp := 0; pp < p.pars; pp++ {
		for qp := 0; qp < q.pars; qp++ {
			n := len(p.ops) + len(q.ops)
			c.Sequences(n+2, depth, i, k, func(seq []int) string {
				return fmt.Sprintf("%s %d and %s %d: %s", p.name, pp, q.name, qp, apartNames(p, q, seq))
			}, func(seq []int) string {
				use := [2]bool{}
				for _, x := range seq {
					if x < len(p.ops) {
						use[0] = true
					} else if x < n {
						use[1] = true
					}
				}
				if !use[0] || !use[1] {
					return ""
				}
				both := runApart(p, q, pp, qp, seq, [2]bool{true, true})
				for w := 0; w < 2; w++ {
					solo := runApart(p, q, pp, qp, seq, [2]bool{w == 0, w == 1})
					c.Trans(len(seq))
					for j, r := range both[w] {
						if r != solo[w][j] {
							return fmt.Sprintf("operation %d of the %s instance: %s; without the other instance: %s", j+1, []string{"first", "second"}[w], r, solo[w][j])
						}
					}
				}
				c.State(p.name, q.name, pp, qp, both)
				return ""
			})
		}
	}
}

// apartScn: two goroutines, each with an instance of its own.
func apartScn(p, q *part, pp, qp int, pa, qa []int, pre int) *mc.Scenario {
	names := func(p *part, l []int) (s string) {
		for _, k := range l {
			s += " " + p.ops[k] + ";"
		}
		return
	}
	return &mc.Scenario{Name: fmt.Sprintf("%s %d%s and %s %d%s", p.name, pp, names(p, pa), q.name, qp, names(q, qa)), Preempt: pre, Body: func(x *mc.Exec) func() string {
		ps, pars, prog := [2]*part{p, q}, [2]int{pp, qp}, [2][]int{pa, qa}
		var solo, got [2][]string
		for i := 0; i < 2; i++ {
			e, _ := ps[i].env()
			in := ps[i].make(e, i, pars[i])
			for _, k := range prog[i] {
				solo[i] = append(solo[i], ps[i].ops[k]+": "+guarded(in[k])())
			}
		}
		for i := 0; i < 2; i++ {
			x.Go(fmt.Sprint("user", i), func() {
				e, _ := ps[i].env()
				in := ps[i].make(e, i, pars[i])
				for _, k := range prog[i] {
					got[i] = append(got[i], ps[i].ops[k]+": "+guarded(in[k])())
				}
			})
		}
		return func() string {
			for i := 0; i < 2; i++ {
				if a, b := fmt.Sprint(got[i]), fmt.Sprint(solo[i]); a != b {
					return fmt.Sprintf("user %d saw %s, with its instance alone %s", i, a, b)
				}
			}
			return ""
		}
	}}
}

// busScn: two buses with two receivers each. Steps: p q publish on the first or second bus, c d close the first
// receiver of a bus, C D close a bus, r s look for an event at its first receiver, which has room for buf events.
func busScn(steps string, buf, pre int) *mc.Scenario {
	if buf < 8 {
		steps += "rsrsrsrs"
	}
	return &mc.Scenario{Name: fmt.Sprintf("two buses %s, room for %d", steps, buf), Preempt: pre, Body: func(x *mc.Exec) func() string {
		x.AllowBlocked()
		var bus [2]*event.FanOutBus
		var rec [2][2]*event.Receiver
		var want [2][2][]int
		closed := [2][2]bool{}
		var early [2][]int
		for i := 0; i < 2; i++ {
			bus[i] = event.NewFanOutBus(1)
			for j := 0; j < 2; j++ {
				rec[i][j] = bus[i].NewRecvStrategy(fmt.Sprint("r", j), []int{buf, 8}[j], []event.FullStrategy{event.Block, event.Drop}[j])
			}
			bus[i].GoDispatch()
		}
		x.Go("user", func() {
			for n, s := range steps {
				i := 0
				if strings.ContainsRune("qdDs", s) {
					i = 1
				}
				switch s {
				case 'r', 's':
					if v, st := mc.TryRecv(rec[i][0].C); st == 1 {
						early[i] = append(early[i], v.(int))
					}
				case 'p', 'q':
					mc.SendTo(bus[i].C)(n)
					for j := range want[i] {
						if !closed[i][j] {
							want[i][j] = append(want[i][j], n)
						}
					}
				case 'c', 'd':
					rec[i][0].Close()
					closed[i][0] = true
				case 'C', 'D':
					bus[i].Close()
					closed[i] = [2]bool{true, true}
				}
				mc.Sleep(time.Second)
			}
		})
		msg := ""
		x.Final(func() {
			for i := range rec {
				for j, r := range rec[i] {
					var got []int
					if j == 0 {
						got = early[i]
					}
					end := false
					for {
						v, st := mc.TryRecv(r.C)
						if st != 1 {
							end = st == -1
							break
						}
						got = append(got, v.(int))
					}
					if fmt.Sprint(got) != fmt.Sprint(want[i][j]) || end != closed[i][j] {
						msg += fmt.Sprintf("receiver %d of bus %d got %v (closed %v), want %v (closed %v); ", j, i, got, end, want[i][j], closed[i][j])
					}
				}
			}
		})
		return func() string { return msg }
	}}
}

// twoTasks: S T start the first or second task, P Q stop it, h waits a unit.
func twoTasks(rates [2]bool, steps string, pre int) *mc.Scenario {
	iv, to := [2]time.Duration{2 * unit, 3 * unit}, [2]time.Duration{2 * unit, unit}
	return &mc.Scenario{Name: fmt.Sprintf("two tasks (fixed rate: %v) %s", rates, steps), Preempt: pre, Delay: true, Horizon: 40 * unit, Body: func(x *mc.Exec) func() string {
		quiet()
		var l [2]*jobLog
		var ts [2]schedule.Task
		up, down := [2]int64{-1, -1}, [2]int64{-1, -1}
		for i, r := range []string{"0", "1"} {
			l[i] = &jobLog{runs: parseRuns(r)}
			ts[i] = newTask(rates[i], "task", l[i].job(false), iv[i], to[i])
		}
		var bad error
		x.Go("user", func() {
			for _, s := range steps + "hhPQ" {
				i := strings.IndexRune("SPTQ", s) / 2
				now := mc.PeekNano() - mc.Epoch0
				switch s {
				case 'h':
					mc.Sleep(unit)
				case 'S', 'T':
					if err := ts[i].Start(); (err == nil) != (up[i] < 0) {
						bad = fmt.Errorf("Start of task %d returned %v", i, err)
					} else if err == nil {
						up[i] = now
					}
				default:
					if err := ts[i].Stop(); (err == nil) != (up[i] >= 0 && down[i] < 0) {
						bad = fmt.Errorf("Stop of task %d returned %v", i, err)
					} else if err == nil {
						down[i] = now
					}
				}
			}
		})
		return func() string {
			if bad != nil {
				return bad.Error()
			}
			for i := range ts {
				if up[i] < 0 {
					if len(l[i].lg.Ev) > 0 {
						return fmt.Sprintf("task %d ran without being started", i)
					}
				} else if m := l[i].checkStarts(rates[i], iv[i], to[i], up[i], down[i]); m != "" {
					return fmt.Sprintf("task %d: %s", i, m)
				}
			}
			return ""
		}
	}}
}

func p39(th bool) []*lib.Unit {
	ps := parts()
	var us []*lib.Unit
	for i := range ps {
		p := &ps[i]
		d, sh := 6, 3
		if p.pars > 2 {
			d = 5
		}
		if len(p.ops) > 3 {
			d, sh = 4, 3
		} else if p.redis {
			d, sh = 4, 2
		}
		if p.redis && len(p.ops) > 3 {
			d = 3
		}
		if th {
			d++
			sh *= 2
		}
		us = append(us, lib.Shards("same kind: "+p.name, 4, sh, fmt.Sprintf("all sequences of %d operations on two instances and clock advances, all parameter pairs: each instance answers as it does alone", d), func(c *lib.Ctx, k, n int) {
			apart(c, p, p, d, k, n)
		})...)
	}
	us = append(us, lib.Shards("different kinds", 5, 4, "all pairs of different components: all sequences of 3 operations", func(c *lib.Ctx, k, n int) {
		d := 3
		if th {
			d = 4
		}
		for i := range ps {
			for j := i + 1; j < len(ps); j++ {
				if !ps[i].redis && !ps[j].redis {
					apart(c, &ps[i], &ps[j], d, k, n)
				}
			}
		}
	})...)
	var par []*mc.Scenario
	for i := range ps {
		for j := i; j < len(ps); j++ {
			if ps[i].redis || ps[j].redis {
				continue
			}
			all := func(p *part) (l []int) {
				for k, n := range p.ops {
					if n != "batch" && n != "enum" && n != "unregister all" { // (maps in any order: too many executions here)
						l = append(l, k)
					}
				}
				return append(l, 0)
			}
			pre := 1
			if th {
				pre = 2
			}
			for pp := 0; pp < ps[i].pars; pp++ {
				par = append(par, apartScn(&ps[i], &ps[j], pp, ps[j].pars-1, all(&ps[i]), all(&ps[j]), pre))
			}
		}
	}
	for i := range ps {
		for k, n := range ps[i].ops {
			if ps[i].redis {
				continue
			}
			if n == "batch" || n == "enum" || n == "unregister all" {
				par = append(par, apartScn(&ps[i], &ps[i], 0, ps[i].pars-1, []int{0, k}, []int{0, k}, 1))
			}
		}
	}
	us = append(us, splitScs("in parallel", 6, 10, "all pairs of components, each goroutine with an instance of its own: every interleaving, no data race, results as alone", par)...)
	var buses, tasks []*mc.Scenario
	n := 4
	if th {
		n = 5
	}
	for _, s := range strs("pqcdCD", n, n) {
		if ok := func() bool {
			cl := [2]bool{}
			for _, r := range s {
				i := 0
				if strings.ContainsRune("qdD", r) {
					i = 1
				}
				if cl[i] {
					return false
				}
				cl[i] = cl[i] || r == 'C' || r == 'D'
			}
			return true
		}(); ok {
			buses = append(buses, busScn(s, 8, 0))
		}
	}
	for _, s := range []string{"pq", "qp", "pcqD", "qpCq", "pCqD", "pdcq"} {
		buses = append(buses, busScn(s, 8, 1))
	}
	for _, s := range strs("pqrs", 2, n) {
		out := [2]int{}
		ok := true
		for _, r := range s {
			switch r {
			case 'p':
				out[0]++
			case 'q':
				out[1]++
			}
			ok = ok && out[0] <= 2 && out[1] <= 2
		}
		for buf := 0; buf < 2 && ok; buf++ {
			if strings.ContainsRune(s, 'p') && strings.ContainsRune(s, 'q') {
				buses = append(buses, busScn(s, buf, 0))
			}
		}
	}
	us = append(us, splitScs("buses", 4, 3, "two buses with two receivers each: every sequence of publishing and closing", buses)...)
	for _, r := range [][2]bool{{false, false}, {false, true}, {true, true}} {
		for _, s := range strs("STPQh", n, n) {
			if strings.ContainsAny(s, "S") && strings.ContainsAny(s, "T") {
				tasks = append(tasks, twoTasks(r, s, 0))
			}
		}
		for _, s := range []string{"STh", "ShT", "SThP", "SThQ"} {
			tasks = append(tasks, twoTasks(r, s, 1))
		}
	}
	us = append(us, splitScs("tasks", 4, 3, "two tasks of the same name: every sequence of starting, stopping and waiting", tasks)...)
	return us
}
