//go:build go1.22

package main

import (
	"context"
	"fmt"
	"sort"
	"strings"

	"github.com/go-redis/redis/v7"

	"github.com/chanjarster/gears/ratelimiter"
	"github.com/chanjarster/gears/zverif/fakeredis"
	"github.com/chanjarster/gears/zverif/lib"
	"github.com/chanjarster/gears/zverif/mc"
)

func init() {
	redisAssume := []string{"Redis is replaced by an in-process server that executes the scripts and commands as documented (Lua 5.1 subset, virtual clock, one clock for client and server)"}
	lib.Register("P09", p09, append(redisAssume, "sub-second granularity: a request between window and window+1 seconds old may count or not (the limiter uses whole seconds); the exact millisecond of a block's end is not examined",
		"window and capacity are not both enlarged, nor capacity lowered and raised again, while requests are remembered")...)
	lib.Register("P10", with(p10, p10contexts), redisAssume...)
	lib.Register("P11", p11, append(redisAssume, "keys without braces, block keys not starting with _rl:, a non-empty hash tag; one key is always used with the same block key (as documented)")...)
}

func newRedis() (*fakeredis.Server, *redis.Client) {
	s := fakeredis.New(func() int64 { return mc.PeekNano() / 1000000 })
	// so large a pool that it never stops dialling after many refused connections
	c := redis.NewClient(&redis.Options{Addr: "fake:6379", Dialer: s.Dialer, IdleCheckFrequency: -1, PoolSize: 64})
	return s, c
}

type ttlParams struct{ cap, win, exp int }

func (p *ttlParams) GetWindowSizeSeconds() int { return p.win }
func (p *ttlParams) GetCapacity() int          { return p.cap }
func (p *ttlParams) GetTimeoutSeconds() int    { return p.exp }

type ttlOp struct {
	name  string
	kind  byte // 'c' call, 'i' IsBlocked, 'a' advance, 'p' set params, 'l' load scripts, 'w' write a key from outside
	lim   int
	key   string
	bkey  string
	msg   string
	adv   int64 // ms
	par   ttlParams
	ctx   bool
	fault fakeredis.Fault
	then  *fakeredis.Fault // fault of the commands of this call after the first
}

func ttlNames(ops []ttlOp, seq []int) string {
	var s []string
	for _, k := range seq {
		s = append(s, ops[k].name)
	}
	return strings.Join(s, ", ")
}

type ttlBlock struct {
	until int64
	msg   string
}

type ttlModel struct {
	passes map[string][]int64
	blocks map[string]ttlBlock
	loaded bool
}

func (m *ttlModel) String() string {
	now := mc.PeekNano() / 1000000
	var s []string
	for k, v := range m.passes {
		for _, t := range v {
			s = append(s, fmt.Sprint(k, "-", now-t))
		}
	}
	sort.Strings(s)
	b := map[string]string{}
	for k, v := range m.blocks {
		b[k] = fmt.Sprint(v.until-now, v.msg)
	}
	return fmt.Sprint(s, b, m.loaded)
}

type ttlWorld struct {
	s       *fakeredis.Server
	lims    []ratelimiter.TtlRateLimiter
	pars    []*ttlParams
	m       *ttlModel
	tag     string // expected hash tag, or ""
	ambig   bool
	client  *redis.Client
	current fakeredis.Fault  // fault of the next command
	then    *fakeredis.Fault // fault of the commands after it, if different
}

// newTtlWorld: mode "" is a single node, otherwise the hash tag given to the cluster constructor.
func newTtlWorld(mode string, pars ...ttlParams) *ttlWorld {
	mc.SetNow(mc.Epoch0 + 100*1000000)
	w := &ttlWorld{m: &ttlModel{passes: map[string][]int64{}, blocks: map[string]ttlBlock{}, loaded: true}}
	w.s, w.client = newRedis()
	w.s.Fault = func([]string) fakeredis.Fault {
		f := w.current
		if w.then != nil {
			w.current, w.then = *w.then, nil
		}
		return f
	}
	ratelimiter.LoadScript(w.client)
	for _, p := range pars {
		q := p
		w.pars = append(w.pars, &q)
		if mode == "" {
			w.lims = append(w.lims, ratelimiter.NewRedisTtlRateLimiter(w.client, &q))
		} else {
			w.lims = append(w.lims, ratelimiter.NewRedisTtlRateLimiterCluster(w.client, &q, mode))
			w.tag = strings.Trim(mode, "{}")
		}
	}
	return w
}

func (w *ttlWorld) close() { w.client.Close() }

func resStr(r *ratelimiter.Result) string {
	if r == nil {
		return "nil"
	}
	return fmt.Sprintf("{block %v triggered %v ttl %d msg %q}", r.Block, r.Triggered, r.Ttl, r.Msg)
}

func hashTagOf(k string) string {
	i := strings.IndexByte(k, '{')
	if i < 0 {
		return ""
	}
	j := strings.IndexByte(k[i+1:], '}')
	if j <= 0 {
		return ""
	}
	return k[i+1 : i+1+j]
}

var zeroRes = ratelimiter.Result{}

// step applies an operation to the limiter and to the model and compares.
func (w *ttlWorld) step(op *ttlOp) string {
	switch op.kind {
	case 'a':
		mc.SetNow(mc.PeekNano() + op.adv*1000000)
		return ""
	case 'p':
		*w.pars[op.lim] = op.par
		return ""
	case 'l':
		ratelimiter.LoadScript(w.client)
		w.m.loaded = true
		return ""
	}
	mc.SetNow(mc.PeekNano() + 1000000) // a call takes a millisecond: no two are simultaneous
	now := mc.PeekNano() / 1000000
	l, p := w.lims[op.lim], *w.pars[op.lim]
	if a, b, c := l.GetCapacity(), l.GetWindowSizeSeconds(), l.GetTimeoutSeconds(); a != p.cap || b != p.win || c != p.exp {
		return fmt.Sprintf("the limiter reports capacity %d window %d timeout %d, configured are %v", a, b, c, p)
	}
	before := ""
	if op.kind == 'i' {
		before = w.s.Snapshot()
	}
	w.s.Touched = w.s.Touched[:0]
	nlog := len(w.s.Log)
	if op.fault == fakeredis.Refused {
		w.s.Down()
	}
	w.current, w.then = op.fault, op.then
	var r *ratelimiter.Result
	func() {
		if op.kind == 'i' {
			if op.ctx {
				r = l.IsBlockedContext(context.Background(), op.bkey)
			} else {
				r = l.IsBlocked(op.bkey)
			}
			return
		}
		switch {
		case op.key == op.bkey && op.ctx:
			r = l.ShouldBlockContext(context.Background(), op.key, op.msg)
		case op.key == op.bkey:
			r = l.ShouldBlock(op.key, op.msg)
		case op.ctx:
			r = l.ShouldBlock2Context(context.Background(), op.key, op.bkey, op.msg)
		default:
			r = l.ShouldBlock2(op.key, op.bkey, op.msg)
		}
	}()
	w.current, w.then = fakeredis.None, nil
	if op.fault == fakeredis.Refused {
		w.s.Up()
	}
	defer func() {
		// a limiter may load its scripts again on its own
		switch w.s.NScripts() {
		case 0:
			w.m.loaded = false
		case 1:
			w.ambig = true
		default:
			w.m.loaded = true
		}
	}()
	if w.s.Broken != "" {
		panic("the fake Redis does not know the command " + w.s.Broken)
	}
	if r == nil {
		return op.name + " returned nil"
	}
	if !(*r == zeroRes || (r.Block && r.Ttl > 0)) {
		return fmt.Sprintf("%s returned %s, which is not a legal result", op.name, resStr(r))
	}
	if w.tag != "" {
		for _, k := range w.s.Touched {
			if hashTagOf(k) != w.tag {
				return fmt.Sprintf("%s uses the Redis key %q, whose hash tag is not {%s}", op.name, k, w.tag)
			}
		}
		for _, cmd := range w.s.Log[nlog:] {
			if strings.EqualFold(cmd[0], "EVALSHA") || strings.EqualFold(cmd[0], "EVAL") {
				n := 0
				fmt.Sscan(cmd[2], &n)
				for _, k := range cmd[3 : 3+n] {
					if hashTagOf(k) != w.tag {
						return fmt.Sprintf("%s passes the Redis key %q, whose hash tag is not {%s}", op.name, k, w.tag)
					}
				}
			}
		}
	}
	if op.kind == 'i' {
		if after := w.s.Snapshot(); after != before {
			return fmt.Sprintf("%s changed the data in Redis from {%s} to {%s}", op.name, before, after)
		}
	}
	b, blocked := w.m.blocks[op.bkey]
	if blocked && now == b.until {
		w.ambig = true
		return ""
	}
	if blocked && now > b.until {
		delete(w.m.blocks, op.bkey)
		blocked = false
	}
	want := zeroRes
	if op.kind == 'c' && (p.cap <= 0 || p.win <= 0 || p.exp <= 0) {
		if *r != want {
			return fmt.Sprintf("%s with parameters %v returned %s, want a pass", op.name, p, resStr(r))
		}
		return ""
	}
	if op.fault == fakeredis.NoScript {
		w.m.loaded = false
	}
	failed := op.fault != fakeredis.None || !w.m.loaded
	executed := op.fault.Executed() && w.m.loaded
	if failed && *r != zeroRes {
		return fmt.Sprintf("%s with Redis failing (%v, scripts loaded: %v) returned %s, want a pass", op.name, op.fault, w.m.loaded, resStr(r))
	}
	if !executed {
		return ""
	}
	switch {
	case blocked:
		left := b.until - now
		want = ratelimiter.Result{Block: true, Ttl: r.Ttl, Msg: b.msg}
		if failed {
			break
		}
		if d := int64(r.Ttl)*1000 - left; r.Block && (d <= -1000 || d >= 1000) {
			return fmt.Sprintf("%s reports %d s left, really left are %d ms", op.name, r.Ttl, left)
		}
	case op.kind == 'i':
	default:
		lo, hi := 0, 0
		for _, t := range w.m.passes[op.key] {
			if now-t < int64(p.win)*1000 {
				lo++
			}
			if now-t < int64(p.win+1)*1000 {
				hi++
			}
		}
		pass := lo < p.cap
		if pass && hi >= p.cap && !failed { // sub-second granularity: both are right
			pass = !r.Block
		} else if pass && hi >= p.cap {
			w.ambig = true
			return ""
		}
		if pass {
			w.m.passes[op.key] = append(w.m.passes[op.key], now)
		} else {
			want = ratelimiter.Result{Block: true, Triggered: true, Ttl: p.exp, Msg: op.msg}
			w.m.blocks[op.bkey] = ttlBlock{now + int64(p.exp)*1000, op.msg}
		}
	}
	if !failed && *r != want {
		return fmt.Sprintf("%s returned %s, want %s", op.name, resStr(r), resStr(&want))
	}
	return ""
}

func (w *ttlWorld) run(c *lib.Ctx, ops []ttlOp, seq []int, final []ttlOp) string {
	defer w.close()
	for i, k := range seq {
		if s := w.step(&ops[k]); s != "" {
			return fmt.Sprintf("step %d: %s", i+1, s)
		}
		if w.ambig {
			return ""
		}
		c.Trans(1)
		c.State(w.m.String())
	}
	for i := range final {
		if s := w.step(&final[i]); s != "" {
			return "at the end: " + s
		}
		if w.ambig {
			return ""
		}
	}
	return ""
}

func p09(th bool) []*lib.Unit {
	depth, caps := 6, []int{1, 2, 3}
	if th {
		depth = 7
	}
	call := func(k, m string) ttlOp {
		return ttlOp{name: fmt.Sprintf("call %s %q", k, m), kind: 'c', key: k, bkey: k, msg: m}
	}
	adv := func(ms int64) ttlOp { return ttlOp{name: fmt.Sprintf("+%dms", ms), kind: 'a', adv: ms} }
	ops := []ttlOp{call("a", "first"), call("a", "x y"), call("b", ""), adv(600), adv(1000), adv(2300)}
	var us []*lib.Unit
	for _, cp := range caps {
		us = append(us, lib.Shards(fmt.Sprintf("capacity=%d", cp), 10, 6, fmt.Sprintf("all sequences of %d steps (two keys, three messages, three clock advances), windows and timeouts of 1 to 3 s", depth), func(c *lib.Ctx, i, k int) {
			for win := 1; win <= 3; win++ {
				for exp := 1; exp <= 3; exp++ {
					c.Sequences(len(ops), depth, i, k, func(seq []int) string {
						return fmt.Sprintf("capacity %d, window %d s, timeout %d s: %s", cp, win, exp, ttlNames(ops, seq))
					}, func(seq []int) string {
						return newTtlWorld("", ttlParams{cp, win, exp}).run(c, ops, seq, ops[:1])
					})
				}
			}
		})...)
	}
	// long histories of one key: every pattern of gaps
	gaps := []ttlOp{{name: "call", kind: 'c', key: "k", bkey: "k", msg: "m"}, {name: "+950ms, call", kind: 'g', adv: 950, key: "k", bkey: "k", msg: "g1"}, {name: "+3050ms, call", kind: 'g', adv: 3050, key: "k", bkey: "k", msg: "g2"}}
	gd := 8
	if th {
		gd = 11
	}
	type lp struct{ cp, win, exp int }
	var grid []lp
	for _, cp := range []int{1, 2, 3, 4, 5, 7} {
		for _, win := range []int{1, 3, 5, 60} {
			for _, exp := range []int{1, 2, 30} {
				grid = append(grid, lp{cp, win, exp})
			}
		}
	}
	us = append(us, lib.Shards("gaps", 10, 8, fmt.Sprintf("all sequences of %d calls of one key with gaps of 0, 0.95 and 3.05 s, %d parameter sets with capacity up to 7, window up to 60 s", gd, len(grid)), func(c *lib.Ctx, i, k int) {
		for _, g := range grid {
			c.Sequences(len(gaps), gd, i, k, func(seq []int) string { return fmt.Sprintf("%+v: %s", g, ttlNames(gaps, seq)) }, func(seq []int) string {
				w := newTtlWorld("", ttlParams{g.cp, g.win, g.exp})
				defer w.close()
				for j, x := range seq {
					op := gaps[x]
					if op.kind == 'g' {
						a := ttlOp{kind: 'a', adv: op.adv}
						w.step(&a)
						op.kind = 'c'
					}
					if s := w.step(&op); s != "" {
						return fmt.Sprintf("step %d: %s", j+1, s)
					}
					if w.ambig {
						return ""
					}
					c.Trans(1)
				}
				c.State(w.m.String(), g)
				return ""
			})
		}
	})...)
	// windows much longer than the timeout and the other way round, requests spread over them
	us = append(us, &lib.Unit{Name: "long-windows", Weight: 3, Note: "windows up to an hour and timeouts up to a day: fill the window at every spacing, then probe around the end of window and block", Seq: func(c *lib.Ctx) {
		for _, cp := range []int{1, 2, 5, 20} {
			for _, win := range []int{1, 5, 60, 3600} {
				for _, exp := range []int{1, 3, 60, 86400} {
					for _, gap := range []int64{0, 1, 10, 100} { // percent of the window between requests
						for _, probe := range []int64{-1500, -400, 400, 1500} {
							for _, at := range []string{"window", "block", "2*timeout"} {
								if !c.Case(func() string {
									return fmt.Sprintf("capacity %d, window %d, timeout %d, requests %d%% of the window apart, probe %+d ms around the end of the %s", cp, win, exp, gap, probe, at)
								}, func() string {
									w := newTtlWorld("", ttlParams{cp, win, exp})
									op := ttlOp{name: "call", kind: 'c', key: "k", bkey: "k", msg: "m"}
									var first, last int64
									for i := 0; i <= cp; i++ {
										if i > 0 {
											mc.SetNow(mc.PeekNano() + gap*int64(win)*10*1000000)
										}
										if s := w.step(&op); s != "" {
											w.close()
											return fmt.Sprintf("call %d: %s", i+1, s)
										}
										last = mc.PeekNano()
										if i == 0 {
											first = last
										}
									}
									t := first + int64(win)*second
									switch at {
									case "block":
										t = last + int64(exp)*second
									case "2*timeout":
										t = last + 2*int64(exp)*second
									}
									t += probe * 1000000
									if t > mc.PeekNano() {
										mc.SetNow(t)
									}
									return w.run(c, []ttlOp{op}, []int{0, 0, 0}, nil)
								}) {
									return
								}
							}
						}
					}
				}
			}
		}
	}})
	// parameters that change at run time
	pd := 6
	chg := func(name string, p ttlParams) ttlOp { return ttlOp{name: name, kind: 'p', par: p} }
	for _, v := range []struct {
		name  string
		start ttlParams
		ops   []ttlOp
	}{
		{"lower-capacity", ttlParams{3, 2, 2}, []ttlOp{chg("capacity 1", ttlParams{1, 2, 2})}},
		{"raise-capacity", ttlParams{1, 2, 2}, []ttlOp{chg("capacity 3", ttlParams{3, 2, 2})}},
		{"shorter-window", ttlParams{2, 3, 1}, []ttlOp{chg("window 1", ttlParams{2, 1, 1})}},
		{"timeout", ttlParams{1, 2, 1}, []ttlOp{chg("timeout 3", ttlParams{1, 2, 3}), chg("timeout 1", ttlParams{1, 2, 1})}},
		{"off-and-on", ttlParams{1, 2, 2}, []ttlOp{chg("off", ttlParams{0, 2, 2}), chg("on", ttlParams{1, 2, 2})}},
	} {
		o := append([]ttlOp{call("a", "m1"), call("b", "m2"), adv(700), adv(1600)}, v.ops...)
		us = append(us, lib.Shards("params/"+v.name, 6, 2, fmt.Sprintf("all sequences of %d steps with parameters changing at run time", pd), func(c *lib.Ctx, i, k int) {
			c.Sequences(len(o), pd, i, k, func(seq []int) string { return fmt.Sprintf("from %v: %s", v.start, ttlNames(o, seq)) }, func(seq []int) string {
				return newTtlWorld("", v.start).run(c, o, seq, o[:1])
			})
		})...)
	}
	return us
}

func p10(th bool) []*lib.Unit {
	depth := 4
	if th {
		depth = 5
	}
	call := ttlOp{name: "call a", kind: 'c', key: "a", bkey: "a", msg: "m"}
	isb := ttlOp{name: "IsBlocked a", kind: 'i', bkey: "a"}
	ops := []ttlOp{call, isb, {name: "+1.2s", kind: 'a', adv: 1200}, {name: "load scripts", kind: 'l'}}
	for f := fakeredis.None + 1; f < fakeredis.NFaults; f++ {
		o := call
		o.fault = f
		o.name = fmt.Sprintf("call a (%v)", f)
		o.ctx = f%2 == 0
		ops = append(ops, o)
		o = isb
		o.fault = f
		o.ctx = f%2 == 0
		o.name = fmt.Sprintf("IsBlocked a (%v)", f)
		ops = append(ops, o)
	}
	var us []*lib.Unit
	for _, mode := range []string{"", "t"} {
		name := "single"
		if mode != "" {
			name = "cluster"
		}
		us = append(us, lib.Shards("faults/"+name, 10, 12, fmt.Sprintf("all sequences of %d operations, each without or with one of %d faults", depth, int(fakeredis.NFaults)-1), func(c *lib.Ctx, i, k int) {
			for _, p := range []ttlParams{{1, 2, 2}, {2, 1, 3}} {
				c.Sequences(len(ops), depth, i, k, func(seq []int) string { return fmt.Sprintf("%s, %v: %s", name, p, ttlNames(ops, seq)) }, func(seq []int) string {
					return newTtlWorld(mode, p).run(c, ops, seq, []ttlOp{{name: "load scripts", kind: 'l'}, call, isb, call, call, isb})
				})
			}
		})...)
	}
	us = append(us, &lib.Unit{Name: "second-fault", Weight: 3, Note: "Redis has lost its scripts, and whatever else a limiter asks it in that call fails in each way: all sequences of 3 such calls (thorough: 4), loads and clock advances", Seq: func(c *lib.Ctx) {
		o := []ttlOp{call, isb, {name: "+1.2s", kind: 'a', adv: 1200}, {name: "load scripts", kind: 'l'}}
		for f := fakeredis.None + 1; f < fakeredis.NFaults; f++ {
			if f == fakeredis.Refused {
				continue
			}
			g := f
			x := call
			x.name, x.fault, x.then = fmt.Sprintf("call a (scripts lost, then %v)", f), fakeredis.NoScript, &g
			x.ctx = f%2 == 0
			o = append(o, x)
			x = isb
			x.name, x.fault, x.then = fmt.Sprintf("IsBlocked a (scripts lost, then %v)", f), fakeredis.NoScript, &g
			x.ctx = f%2 == 0
			o = append(o, x)
		}
		d := 3
		if c.Thorough {
			d = 4
		}
		for _, mode := range []string{"", "t"} {
			c.Sequences(len(o), d, 0, 1, func(seq []int) string { return fmt.Sprintf("tag %q: %s", mode, ttlNames(o, seq)) }, func(seq []int) string {
				return newTtlWorld(mode, ttlParams{1, 2, 2}).run(c, o, seq, []ttlOp{{name: "load scripts", kind: 'l'}, call, isb, call, call, isb})
			})
		}
	}})
	us = append(us, &lib.Unit{Name: "params", Weight: 2, Note: "all parameters from -2 to 2 and extremes, four calls each, both constructors, with Redis up and down", Seq: func(c *lib.Ctx) {
		vals := []int{-1 << 31, -2, -1, 0, 1, 2}
		for _, mode := range []string{"", "t"} {
			for _, a := range vals {
				for _, b := range vals {
					for _, e := range vals {
						for _, f := range []fakeredis.Fault{fakeredis.None, fakeredis.Refused, fakeredis.ErrorReply} {
							if !c.Case(func() string {
								return fmt.Sprintf("capacity %d, window %d, timeout %d, fault %v, tag %q", a, b, e, f, mode)
							}, func() string {
								w := newTtlWorld(mode, ttlParams{a, b, e})
								cf := call
								cf.fault = f
								return w.run(c, []ttlOp{cf, call, isb}, []int{0, 1, 1, 2, 1, 0, 2}, nil)
							}) {
								return
							}
						}
					}
				}
			}
		}
		// the fixed parameters report what they were made with
		for _, a := range vals {
			for _, b := range vals {
				for _, e := range vals {
					if !c.Case(func() string { return fmt.Sprintf("NewFixedTtlRateLimiterParams(%d,%d,%d)", a, b, e) }, func() string {
						p := ratelimiter.NewFixedTtlRateLimiterParams(a, b, e)
						if p.GetCapacity() != a || p.GetWindowSizeSeconds() != b || p.GetTimeoutSeconds() != e {
							return fmt.Sprintf("reports capacity %d window %d timeout %d", p.GetCapacity(), p.GetWindowSizeSeconds(), p.GetTimeoutSeconds())
						}
						return ""
					}) {
						return
					}
				}
			}
		}
	}})
	us = append(us, &lib.Unit{Name: "foreign-data", Weight: 2, Note: "every combination of foreign values (wrong type, no expiry, empty) under any key of the limiter: results stay legal, nothing panics, and the limiter works again once they are gone", Seq: func(c *lib.Ctx) {
		mk := [][]string{nil, {"SET", "", ""}, {"SET", "", "text"}, {"SET", "", "x", "PX", "300"}, {"RPUSH", "", "abc"}, {"RPUSH", "", "1", "2", "3"}, {"HSET", "", "f", "v"}, {"ZADD", "", "1", "m"}}
		// learn which Redis keys a blocked call uses
		for _, mode := range []string{"", "t"} {
			for i, one := range mk {
				for j, two := range mk {
					for rot := 0; rot < 2; rot++ {
						if !c.Case(func() string { return fmt.Sprintf("foreign values %v and %v (order %d), tag %q", one, two, rot, mode) }, func() string {
							w := newTtlWorld(mode, ttlParams{1, 1, 1})
							defer w.close()
							w.step(&call)
							w.step(&call)
							keys := w.s.Keys()
							w.s.Flush()
							for n, cmd := range [][]string{one, two} {
								k := (n + rot) % 2
								if cmd != nil && k < len(keys) {
									cmd = append([]string(nil), cmd...)
									cmd[1] = keys[k]
									w.s.Do(cmd...)
								}
							}
							for n := 0; n < 4; n++ {
								var r *ratelimiter.Result
								if n == 1 {
									r = w.lims[0].IsBlocked("a")
								} else {
									r = w.lims[0].ShouldBlock("a", "m")
								}
								if r == nil || !(*r == zeroRes || (r.Block && r.Ttl > 0)) {
									return fmt.Sprintf("call %d returned %s, which is not a legal result", n+1, resStr(r))
								}
								c.Outcome(fmt.Sprint(i, j, n, resStr(r)))
								mc.SetNow(mc.PeekNano() + 200*1000000)
							}
							w.s.Flush()
							w.m.passes, w.m.blocks = map[string][]int64{}, map[string]ttlBlock{}
							return w.run(c, []ttlOp{call, isb}, []int{0, 0, 1, 0}, nil)
						}) {
							return
						}
					}
				}
			}
		}
	}})
	return us
}

func p11(th bool) []*lib.Unit {
	depth := 5
	if th {
		depth = 6
	}
	ops := []ttlOp{
		{name: `A.call(a)`, kind: 'c', key: "a", bkey: "a", msg: "ma"},
		{name: `A.call(b, block key s)`, kind: 'c', key: "b", bkey: "s", msg: "mb"},
		{name: `B.call(c, block key s)`, kind: 'c', lim: 1, key: "c", bkey: "s", msg: "mc", ctx: true},
		{name: `B.call(d, block key a)`, kind: 'c', lim: 1, key: "d", bkey: "a", msg: "md"},
		{name: `A.IsBlocked(a)`, kind: 'i', bkey: "a", ctx: true},
		{name: `B.IsBlocked(s)`, kind: 'i', lim: 1, bkey: "s"},
		{name: "+600ms", kind: 'a', adv: 600},
		{name: "+1700ms", kind: 'a', adv: 1700},
	}
	var final []ttlOp
	for _, k := range []string{"a", "s", "b", "c", "d", "", "other"} {
		for l := 0; l < 2; l++ {
			final = append(final, ttlOp{name: fmt.Sprintf("%c.IsBlocked(%s)", 'A'+l, k), kind: 'i', lim: l, bkey: k, ctx: l == 1})
		}
	}
	final = append(final, ops[:4]...)
	final = append(final, final[:14]...)
	var us []*lib.Unit
	for _, mode := range []string{"", "t", "{t}"} {
		name := "single"
		if mode != "" {
			name = "cluster-" + mode
		}
		us = append(us, lib.Shards(name, 10, 8, fmt.Sprintf("all sequences of %d steps with two limiters, four keys and shared block keys; every block key is queried at the end", depth), func(c *lib.Ctx, i, k int) {
			for _, ps := range [][2]ttlParams{{{1, 2, 2}, {2, 1, 3}}, {{2, 3, 1}, {1, 1, 2}}} {
				c.Sequences(len(ops), depth, i, k, func(seq []int) string {
					return fmt.Sprintf("%s, A %v, B %v: %s", name, ps[0], ps[1], ttlNames(ops, seq))
				}, func(seq []int) string { return newTtlWorld(mode, ps[0], ps[1]).run(c, ops, seq, final) })
			}
		})...)
	}
	us = append(us, &lib.Unit{Name: "names", Weight: 4, Note: "every pair of distinct keys out of 18 unusual names and every pair of block keys: blocking one leaves the other alone; several hash tags", Seq: func(c *lib.Ctx) {
		names := []string{"", "a", "b", "aa", ":", ":bl", "a:bl", "_rl", "rl:a", "a_rl:", " ", "a b", "中文", "a\r\nb\x00", "{}", "a{}", "{x}", "}{", strings.Repeat("k", 300)}
		for _, mode := range []string{"", "t", "{t}", "user:1", "{x y}"} {
			for _, k1 := range names {
				for _, k2 := range names {
					if k1 == k2 {
						continue
					}
					for v := 0; v < 3; v++ {
						if !c.Case(func() string { return fmt.Sprintf("keys %q and %q, variant %d, tag %q", k1, k2, v, mode) }, func() string {
							w := newTtlWorld(mode, ttlParams{1, 10, 10})
							o := []ttlOp{{name: "call key 1", kind: 'c', key: k1, bkey: k1, msg: "m1"}, {name: "call key 2", kind: 'c', key: k2, bkey: k2, msg: "m2"},
								{name: "IsBlocked key 1", kind: 'i', bkey: k1}, {name: "IsBlocked key 2", kind: 'i', bkey: k2}}
							if v == 1 { // distinct block keys, swapped
								o[0].bkey, o[1].bkey = k2, k1
							}
							if v == 2 { // shared block key
								o[0].bkey, o[1].bkey, o[3].bkey = "sh", "sh", "sh"
							}
							return w.run(c, o, []int{0, 2, 3, 0, 2, 3, 1, 2, 3, 1, 2, 3, 0, 1}, nil)
						}) {
							return
						}
					}
				}
			}
		}
	}})
	us = append(us, &lib.Unit{Name: "keys-under-faults", Weight: 2, Note: "a call and an IsBlocked for every key and block key out of 8, with Redis having lost its scripts or failing in one of its ways: whatever the limiter does about it, it uses no Redis key that the same call does not use when all is well", Seq: func(c *lib.Ctx) {
		names := []string{"", "a", "b", "_rl", "_rl:a", ":bl", "{}", "中文"}
		used := func(w *ttlWorld, n int) map[string]bool {
			m := map[string]bool{}
			for _, k := range w.s.Touched {
				m[k] = true
			}
			for _, cmd := range w.s.Log[n:] {
				if strings.EqualFold(cmd[0], "EVALSHA") || strings.EqualFold(cmd[0], "EVAL") {
					n := 0
					fmt.Sscan(cmd[2], &n)
					for _, k := range cmd[3 : 3+n] {
						m[k] = true
					}
				}
			}
			return m
		}
		use := func(w *ttlWorld, isb bool, k, bk string) map[string]bool {
			w.s.Touched = w.s.Touched[:0]
			n := len(w.s.Log)
			if isb {
				w.lims[0].IsBlocked(bk)
			} else {
				w.lims[0].ShouldBlock2(k, bk, "m")
			}
			return used(w, n)
		}
		for _, mode := range []string{"", "t", "{t}"} {
			for _, k := range names {
				for _, bk := range names {
					for _, isb := range []bool{false, true} {
						for f := fakeredis.None; f < fakeredis.NFaults; f++ {
							for calls := 1; calls <= 3; calls++ {
								if !c.Case(func() string {
									return fmt.Sprintf("key %q, block key %q, tag %q, IsBlocked %v, %v (None: the scripts are lost), call %d", k, bk, mode, isb, f, calls)
								}, func() string {
									w := newTtlWorld(mode, ttlParams{1, 10, 10})
									defer w.close()
									well := map[string]bool{}
									for n := 0; n < calls; n++ {
										for x := range use(w, isb, k, bk) {
											well[x] = true
										}
									}
									// the same call once more, with trouble
									if f == fakeredis.None {
										w.s.FlushScripts()
									} else if f == fakeredis.Refused {
										w.s.Down()
									}
									w.current = f
									for x := range use(w, isb, k, bk) {
										if !well[x] {
											return fmt.Sprintf("the call uses the Redis key %q; without trouble it uses %q", x, sortedKeys(well))
										}
									}
									w.current = fakeredis.None
									c.Outcome(fmt.Sprint(len(well)))
									return ""
								}) {
									return
								}
							}
						}
					}
				}
			}
		}
	}})
	us = append(us, &lib.Unit{Name: "messages", Weight: 2, Note: "all messages over a small alphabet up to length 3 and unusual ones: the block reports exactly the message that triggered it", Seq: func(c *lib.Ctx) {
		msgs := append(strs("a1{\"\x00", 0, 3), "\r\n$-1\r\n", "0", "false", "nil", "-1", "1e3", "{}", "中文消息", strings.Repeat("m", 5000), "\xff\xfe")
		for _, mode := range []string{"", "t"} {
			for _, m := range msgs {
				if !c.Case(func() string { return fmt.Sprintf("message %q, tag %q", m, mode) }, func() string {
					w := newTtlWorld(mode, ttlParams{1, 10, 10})
					o := []ttlOp{{name: "call", kind: 'c', key: "k", bkey: "k", msg: m}, {name: "call with another message", kind: 'c', key: "k", bkey: "k", msg: "other"}, {name: "IsBlocked", kind: 'i', bkey: "k"}}
					return w.run(c, o, []int{1, 0, 1, 2, 0, 2}, nil)
				}) {
					return
				}
			}
		}
	}})
	return us
}

func sortedKeys(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
