//go:build go1.22

package main

import (
	"fmt"
	"math"
	"strings"
	"time"
	"unicode"

	"github.com/chanjarster/gears/ratelimiter"
	"github.com/chanjarster/gears/schedule"
	"github.com/chanjarster/gears/zverif/fakeredis"
	"github.com/chanjarster/gears/zverif/lib"
	"github.com/chanjarster/gears/zverif/mc"
)

func init() {
	lib.Register("P37", p37, "timers are virtual")
	lib.Register("P38", p38, "Redis is replaced by an in-process server that executes the scripts and commands as documented (Lua 5.1 subset, virtual clock)")
}

// ---- P38: what the TTL limiter leaves in Redis -------------------------------------------------------------------------

type tidyWorld struct {
	*ttlWorld
	caps    map[string]int // per request key: the capacity when it was last counted
	longest int64          // ms: how long a key may last
	foreign map[string]bool
	before  string
}

func newTidyWorld(mode string, pars ...ttlParams) *tidyWorld {
	w := &tidyWorld{ttlWorld: newTtlWorld(mode, pars...), caps: map[string]int{}, foreign: map[string]bool{}}
	for _, cmd := range [][]string{{"RPUSH", "a", "1"}, {"SET", "b", "x"}, {"HSET", "rl", "a", "1"}, {"SET", "a:blocked", "x"}, {"RPUSH", "_rl", "1", "2", "3"}} {
		w.s.Do(cmd...)
		w.foreign[cmd[1]] = true
	}
	w.before = w.outside()
	return w
}

// outside: the keys that are not the limiter's.
func (w *tidyWorld) outside() string {
	var out []string
	for _, l := range strings.Split(w.s.Snapshot(), "\n") {
		for k := range w.foreign {
			for _, kind := range []string{"string", "list", "hash", "zset"} {
				if strings.HasPrefix(l, k+":"+kind+":") {
					out = append(out, l)
				}
			}
		}
	}
	return strings.Join(out, "\n")
}

func (w *tidyWorld) do(op *ttlOp) string {
	switch op.kind {
	case 'a':
		mc.SetNow(mc.PeekNano() + op.adv*1000000)
	case 'p':
		*w.pars[op.lim] = op.par
	case 'l':
		ratelimiter.LoadScript(w.client)
	default:
		mc.SetNow(mc.PeekNano() + 1000000)
		p := *w.pars[op.lim]
		bad := p.cap <= 0 || p.win <= 0 || p.exp <= 0
		if !bad {
			w.longest = max(w.longest, int64(p.win+2*p.exp+60)*1000)
		}
		if op.fault == fakeredis.Refused {
			w.s.Down()
		}
		w.current = op.fault
		before := w.s.Snapshot()
		l := w.lims[op.lim]
		var r *ratelimiter.Result
		if op.kind == 'i' {
			r = l.IsBlocked(op.bkey)
		} else {
			r = l.ShouldBlock2(op.key, op.bkey, op.msg)
		}
		after := w.s.Snapshot()
		w.current = fakeredis.None
		if op.fault == fakeredis.Refused {
			w.s.Up()
		}
		if w.s.Broken != "" {
			panic("the fake Redis does not know the command " + w.s.Broken)
		}
		if op.kind == 'i' || bad || r.Block && !r.Triggered {
			if before != after {
				return fmt.Sprintf("%s returned %s and changed Redis from {%s} to {%s}", op.name, resStr(r), before, after)
			}
		}
		if op.kind == 'c' && !bad && after != before {
			w.caps[op.key] = p.cap
		}
	}
	now, sum, total := mc.PeekNano()/1000000, 0, 0
	for k, i := range w.s.Info() {
		if w.foreign[k] {
			continue
		}
		if i.Expiry == 0 {
			return fmt.Sprintf("after %s the Redis key %q never expires", op.name, k)
		}
		if i.Expiry > now+w.longest {
			return fmt.Sprintf("after %s the Redis key %q expires in %d ms only", op.name, k, i.Expiry-now)
		}
		sum += i.Elements
	}
	for _, c := range w.caps {
		total += c
	}
	if sum > total {
		return fmt.Sprintf("after %s Redis holds %d entries, the capacities sum up to %d: {%s}", op.name, sum, total, w.s.Snapshot())
	}
	if o := w.outside(); o != w.before {
		return fmt.Sprintf("%s changed another key of Redis: {%s} to {%s}", op.name, w.before, o)
	}
	return ""
}

func (w *tidyWorld) run(c *lib.Ctx, ops []ttlOp, seq []int) string {
	defer w.close()
	for i, k := range seq {
		if m := w.do(&ops[k]); m != "" {
			return fmt.Sprintf("step %d: %s", i+1, m)
		}
		c.Trans(1)
		c.State(w.s.Snapshot())
	}
	mc.SetNow(mc.PeekNano() + w.longest*1000000)
	for k := range w.s.Info() {
		if !w.foreign[k] {
			return fmt.Sprintf("the Redis key %q is left %d ms after the last request", k, w.longest)
		}
	}
	return ""
}

func p38(th bool) []*lib.Unit {
	depth := 5
	if th {
		depth = 6
	}
	call := func(lim int, k, b string) ttlOp {
		return ttlOp{name: fmt.Sprintf("call %s/%s", k, b), kind: 'c', lim: lim, key: k, bkey: b, msg: "m " + k}
	}
	adv := func(ms int64) ttlOp { return ttlOp{name: fmt.Sprintf("+%dms", ms), kind: 'a', adv: ms} }
	set := func(p ttlParams) ttlOp { return ttlOp{name: fmt.Sprintf("set %v", p), kind: 'p', par: p} }
	isb := ttlOp{name: "IsBlocked a", kind: 'i', bkey: "a"}
	ops := []ttlOp{call(0, "a", "a"), call(0, "b", "a"), isb, adv(700), adv(2100), set(ttlParams{1, 1, 1}), set(ttlParams{3, 2, 1}), set(ttlParams{0, 2, 1})}
	var us []*lib.Unit
	for _, mode := range []string{"", "t"} {
		us = append(us, lib.Shards("calls/"+mode, 6, 4, fmt.Sprintf("all sequences of %d calls, clock advances and parameter changes", depth), func(c *lib.Ctx, i, k int) {
			for _, p := range []ttlParams{{1, 1, 2}, {2, 3, 1}} {
				c.Sequences(len(ops), depth, i, k, func(seq []int) string { return fmt.Sprintf("%v tag %q: %s", p, mode, ttlNames(ops, seq)) }, func(seq []int) string {
					return newTidyWorld(mode, p).run(c, ops, seq)
				})
			}
		})...)
		fops := []ttlOp{call(0, "a", "a"), isb, adv(1100), {name: "load scripts", kind: 'l'}}
		for f := fakeredis.None + 1; f < fakeredis.NFaults; f++ {
			o := call(0, "a", "a")
			o.fault, o.name = f, fmt.Sprintf("call a (%v)", f)
			fops = append(fops, o)
		}
		us = append(us, lib.Shards("faults/"+mode, 6, 4, fmt.Sprintf("all sequences of %d calls, each without or with one of %d faults", depth-1, int(fakeredis.NFaults)-1), func(c *lib.Ctx, i, k int) {
			for _, p := range []ttlParams{{1, 2, 2}, {2, 1, 3}} {
				c.Sequences(len(fops), depth-1, i, k, func(seq []int) string { return fmt.Sprintf("%v tag %q: %s", p, mode, ttlNames(fops, seq)) }, func(seq []int) string {
					return newTidyWorld(mode, p).run(c, fops, seq)
				})
			}
		})...)
	}
	us = append(us, &lib.Unit{Name: "sizes", Weight: 3, Note: "capacities up to 1000, windows and timeouts up to a day: filled, blocked, blocked again after the block, left alone", Seq: func(c *lib.Ctx) {
		for _, cp := range []int{1, 2, 7, 60, 1000} {
			for _, win := range []int{1, 10, 3600, 86400} {
				for _, exp := range []int{1, 10, 3600, 86400} {
					if !c.Case(func() string { return fmt.Sprintf("capacity %d, window %d s, timeout %d s", cp, win, exp) }, func() string {
						ops := []ttlOp{call(0, "a", "a"), call(0, "b", "bl"), isb, adv(int64(exp)*1000 + 1), adv(int64(win)*1000 + 1)}
						var seq []int
						for i := 0; i < cp+2; i++ {
							seq = append(seq, 0)
						}
						seq = append(seq, 1, 2, 3, 0, 2, 4, 0, 0, 1)
						w := newTidyWorld("", ttlParams{cp, win, exp})
						return w.run(c, ops, seq)
					}) {
						return
					}
				}
			}
		}
	}})
	return us
}

// ---- P37: making tasks -------------------------------------------------------------------------------------------------

func p37(th bool) []*lib.Unit {
	n := 3
	if th {
		n = 5
	}
	names := []string{""}
	for l := 1; l <= n; l++ {
		names = append(names, strsOfRunes([]rune(" \t\nx中\u3000\u00a0"), l)...)
	}
	durs := []time.Duration{math.MinInt64, -time.Hour, -1, 0, 1, time.Millisecond, time.Second, 24 * time.Hour, math.MaxInt64}
	job := schedule.JobFunc(func(<-chan struct{}) error { panic("the job runs although nothing was started") })
	blank := func(s string) bool { return strings.IndexFunc(s, func(r rune) bool { return !unicode.IsSpace(r) }) < 0 }
	var us []*lib.Unit
	for _, rate := range []bool{false, true} {
		kind := map[bool]string{false: "delay", true: "rate"}[rate]
		try := func(c *lib.Ctx, name string, iv, to time.Duration, withJob bool) bool {
			return c.Case(func() string {
				return fmt.Sprintf("%s %q interval %v timeout %v job given %v", kind, name, iv, to, withJob)
			}, func() string {
				quiet()
				j := job
				if !withJob {
					j = nil
				}
				var t schedule.Task
				panicked := func() (p bool) {
					defer func() { p = recover() != nil }()
					t = newTask(rate, name, j, iv, to)
					return
				}()
				c.Trans(1)
				c.State(name, iv, to, withJob)
				c.Outcome(fmt.Sprint("panics ", panicked))
				if want := blank(name) || iv <= 0 || to <= 0 || !withJob; panicked != want {
					return fmt.Sprintf("panics: %v, want %v", panicked, want)
				}
				if panicked {
					return ""
				}
				if t == nil || t.Name() != name {
					return fmt.Sprintf("the task is %v", t)
				}
				if err := t.Stop(); err == nil {
					return "the task was made as if it were started"
				}
				return ""
			})
		}
		us = append(us, &lib.Unit{Name: kind + "/arguments", Weight: 2, Note: fmt.Sprintf("all names up to %d characters of seven, nine intervals and timeouts, with and without a job", n), Seq: func(c *lib.Ctx) {
			for _, name := range names {
				for _, iv := range durs {
					for _, to := range durs {
						if !try(c, name, iv, to, true) || !try(c, name, iv, to, false) {
							return
						}
					}
				}
			}
		}})
		var scs []*mc.Scenario
		for _, name := range []string{"x", " x "} {
			for _, iv := range []time.Duration{1, unit, 3 * unit} {
				for _, to := range []time.Duration{1, unit, 3 * unit} {
					scs = append(scs, idleTask(rate, name, iv, to))
				}
			}
		}
		us = append(us, &lib.Unit{Name: kind + "/idle", Weight: 1, Note: "tasks that are made and left alone: no goroutine, no run", Scs: scs})
	}
	return us
}

func idleTask(rate bool, name string, iv, to time.Duration) *mc.Scenario {
	return &mc.Scenario{Name: fmt.Sprintf("rate %v %q %v %v", rate, name, iv, to), Preempt: 1, Horizon: 20 * unit, Body: func(x *mc.Exec) func() string {
		quiet()
		l := &jobLog{runs: parseRuns("0")}
		t := newTask(rate, name, l.job(false), iv, to)
		x.Go("user", func() { mc.Sleep(10 * unit) })
		return func() string {
			if len(l.lg.Ev) > 0 {
				return "the job ran although the task was not started"
			}
			if x.LibThreads() > 0 {
				return "the task has a goroutine although it was not started"
			}
			if t.Name() != name {
				return "the name is " + t.Name()
			}
			return ""
		}
	}}
}

// strsOfRunes lists all strings of n characters.
func strsOfRunes(alpha []rune, n int) []string {
	if n == 0 {
		return []string{""}
	}
	var out []string
	for _, s := range strsOfRunes(alpha, n-1) {
		for _, r := range alpha {
			out = append(out, s+string(r))
		}
	}
	return out
}
