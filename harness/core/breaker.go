//go:build go1.22

package main

import (
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/chanjarster/gears/circuitbreaker"
	"github.com/chanjarster/gears/zverif/lib"
	"github.com/chanjarster/gears/zverif/mc"
)

// ---- P03: sequential protocol ---------------------------------------------------------------------------------------

type brOp struct {
	name string
	adv  int64 // advance the clock by this
	do   byte  // 'o' ok, 'f' fail, 0: only advance
	dur  int64 // the task takes this long
}

func brOps(T int64) []brOp {
	return []brOp{
		{name: "ok", do: 'o'}, {name: "fail", do: 'f'}, {name: "slow-fail", do: 'f', dur: T/2 + 1}, {name: "slow-ok", do: 'o', dur: T/2 + 1},
		{name: "+1ns", adv: 1}, {name: "+T-1", adv: T - 1}, {name: "+T", adv: T}, {name: "+T+1", adv: T + 1},
	}
}

func p03seq(c *lib.Ctx, thr int, T int64, ops []brOp, seq []int) string {
	mc.SetNow(mc.Epoch0)
	cb := circuitbreaker.NewSyncCircuitBreaker(thr, time.Duration(T))
	failures, last := 0, int64(0)
	now := mc.Epoch0
	for i, k := range seq {
		op := ops[k]
		if op.do == 0 {
			if op.adv > 0 {
				mc.Advance(op.adv)
				now += op.adv
			}
			continue
		}
		refuse := failures >= thr && now-last <= T
		ran, opened, errs := 0, 0, []error{}
		myErr := errors.New("e")
		cb.Do(func() error {
			ran++
			mc.Advance(op.dur)
			if op.do == 'f' {
				return myErr
			}
			return nil
		}, func(e error) { errs = append(errs, e) }, func() { opened++ })
		c.Trans(1)
		obs := fmt.Sprintf("step %d: task ran %d times, onOpen %d, onError %v", i+1, ran, opened, errs)
		if refuse {
			if ran != 0 || opened != 1 || len(errs) != 0 {
				return obs + fmt.Sprintf("; expected a refusal (%d failures, last %d ns ago)", failures, now-last)
			}
			continue
		}
		if ran != 1 || opened != 0 {
			return obs + fmt.Sprintf("; expected the task to run (%d failures, last %d ns ago)", failures, now-last)
		}
		now += op.dur
		if op.do == 'f' {
			if len(errs) != 1 || errs[0] != myErr {
				return obs + "; expected the task's error"
			}
			failures++
			last = now
		} else {
			if len(errs) != 0 {
				return obs + "; expected no error"
			}
			failures = 0
		}
		since := now - last
		if since > T {
			since = T + 1
		}
		c.StateH(uint64(failures)<<40 ^ uint64(since) ^ uint64(thr)<<60)
	}
	return ""
}

// p03panics: tasks and callbacks that panic. A panicking task may be recorded as a failure or not at all, never as a
// success; a failing task whose onError panics is recorded as a failure; a panicking onOpen records nothing.
func p03panics(c *lib.Ctx, thr int, T int64, seq []int) (bad string) {
	mc.SetNow(mc.Epoch0)
	cb := circuitbreaker.NewSyncCircuitBreaker(thr, time.Duration(T))
	type st struct {
		f    int
		last int64
	}
	may := map[st]bool{{}: true}
	for i, k := range seq {
		if panicOps[k] == "+T+1" {
			mc.Advance(T + 1)
			continue
		}
		ran, opened, nerr := 0, 0, 0
		boom := fmt.Sprint("boom", i)
		var got any
		func() {
			defer func() { got = recover() }()
			cb.Do(func() error {
				ran++
				switch panicOps[k] {
				case "ok", "ok/panic-if-open":
					return nil
				case "task-panics":
					panic(boom)
				}
				return errors.New("e")
			}, func(error) {
				nerr++
				if panicOps[k] == "fail/onError-panics" {
					panic(boom)
				}
			}, func() {
				opened++
				if panicOps[k] == "ok/panic-if-open" {
					panic(boom)
				}
			})
		}()
		c.Trans(1)
		now := mc.PeekNano()
		obs := fmt.Sprintf("step %d (%s): task ran %d times, onOpen %d, onError %d, panic %v", i+1, panicOps[k], ran, opened, nerr, got)
		if ran+opened != 1 {
			return obs
		}
		next := map[st]bool{}
		for s := range may {
			if refuse := s.f >= thr && now-s.last <= T; refuse != (opened == 1) {
				continue
			}
			switch {
			case opened == 1:
				next[s] = true
			case panicOps[k] == "task-panics":
				next[s], next[st{s.f + 1, now}] = true, true
			case strings.HasPrefix(panicOps[k], "ok"):
				next[st{}] = true
			default:
				next[st{s.f + 1, now}] = true
			}
		}
		if len(next) == 0 {
			return obs + "; not explained by the outcomes recorded so far"
		}
		may = next
		var want any
		switch {
		case opened == 1 && panicOps[k] == "ok/panic-if-open", ran == 1 && panicOps[k] == "task-panics", nerr == 1 && panicOps[k] == "fail/onError-panics":
			want = boom
		}
		if got != want {
			return obs + fmt.Sprintf("; expected the caller to see panic %v", want)
		}
		if wantErr := ran == 1 && strings.HasPrefix(panicOps[k], "fail"); (nerr == 1) != wantErr && panicOps[k] != "task-panics" || nerr > 1 {
			return obs
		}
		for s := range may {
			c.StateH(uint64(s.f)<<40 ^ uint64(now-s.last) ^ uint64(thr)<<60)
		}
	}
	return ""
}

var panicOps = []string{"ok", "fail", "task-panics", "fail/onError-panics", "ok/panic-if-open", "+T+1"}

func p03(th bool) []*lib.Unit {
	var us []*lib.Unit
	depth := 7
	if th {
		depth = 8
	}
	for _, thr := range []int{1, 2, 3} {
		for _, T := range []int64{10, int64(time.Second)} {
			ops := brOps(T)
			us = append(us, lib.Shards(fmt.Sprintf("protocol/threshold=%d/T=%d", thr, T), depth, 4,
				fmt.Sprintf("all sequences of %d steps over %d operations", depth, len(ops)), func(c *lib.Ctx, i, k int) {
					c.Sequences(len(ops), depth, i, k, func(seq []int) string {
						s := []string{}
						for _, o := range seq {
							s = append(s, ops[o].name)
						}
						return fmt.Sprintf("threshold %d, timeout %d: %s", thr, T, strings.Join(s, " "))
					}, func(seq []int) string { return p03seq(c, thr, T, ops, seq) })
				})...)
		}
	}
	// long histories: threshold reached exactly, for larger thresholds and zero timeout
	us = append(us, &lib.Unit{Name: "thresholds", Weight: 1, Note: "every threshold up to 20 with every number of failures around it, timeouts 0 to 3 and their boundaries", Seq: func(c *lib.Ctx) {
		for thr := 1; thr <= 20; thr++ {
			for n := 0; n <= thr+2; n++ {
				for T := int64(0); T <= 3; T++ {
					for after := int64(0); after <= 5; after++ {
						for okAt := -1; okAt < n; okAt++ {
							d := func() string {
								return fmt.Sprintf("threshold %d, timeout %d: %d failures (a success before failure %d), then %d ns", thr, T, n, okAt, after)
							}
							if !c.Case(d, func() string {
								mc.SetNow(mc.Epoch0)
								cb := circuitbreaker.NewSyncCircuitBreaker(thr, time.Duration(T))
								f, last := 0, int64(0)
								for i := 0; i < n; i++ {
									if i == okAt {
										ran := false
										cb.Do(func() error { ran = true; return nil }, func(error) {}, func() {})
										if ran != (f < thr || mc.PeekNano()-last > T) {
											return "wrong decision for the success"
										}
										if ran {
											f = 0
										}
									}
									ran := false
									cb.Do(func() error { ran = true; return errors.New("x") }, func(error) {}, func() {})
									if ran != (f < thr || mc.PeekNano()-last > T) {
										return fmt.Sprintf("wrong decision for failure %d", i)
									}
									if ran {
										f++
										last = mc.PeekNano()
									}
								}
								mc.Advance(after)
								ran, opened := 0, 0
								cb.Do(func() error { ran++; return nil }, func(error) {}, func() { opened++ })
								c.Trans(n + 1)
								c.StateH(uint64(thr*1000+f)*100 + uint64(after*10+T))
								want := f < thr || after > T
								if (ran == 1) != want || ran+opened != 1 {
									return fmt.Sprintf("ran %d, onOpen %d; %d failures since the last success", ran, opened, f)
								}
								return ""
							}) {
								return
							}
						}
					}
				}
			}
		}
	}})
	pd := 6
	if th {
		pd = 7
	}
	us = append(us, lib.Shards("panics", 2, 2, fmt.Sprintf("all sequences of %d steps in which tasks and callbacks may panic, thresholds 1 to 3", pd), func(c *lib.Ctx, i, k int) {
		for thr := 1; thr <= 3; thr++ {
			c.Sequences(len(panicOps), pd, i, k, func(seq []int) string {
				s := []string{}
				for _, o := range seq {
					s = append(s, panicOps[o])
				}
				return fmt.Sprintf("panics, threshold %d: %s", thr, strings.Join(s, " "))
			}, func(seq []int) string { return p03panics(c, thr, 10, seq) })
		}
	})...)
	us = append(us, &lib.Unit{Name: "never-open", Weight: 1, Note: "all outcome sequences of 12 calls on the never-open breaker", Seq: func(c *lib.Ctx) {
		c.Sequences(2, 12, 0, 1, func(seq []int) string { return fmt.Sprint("never-open, outcomes ", seq) }, func(seq []int) string {
			var cb circuitbreaker.Interface = circuitbreaker.NeverOpen
			for i, o := range seq {
				ran, opened, errs := 0, 0, []error{}
				e := errors.New("e")
				cb.Do(func() error {
					ran++
					if o == 1 {
						return e
					}
					return nil
				}, func(err error) { errs = append(errs, err) }, func() { opened++ })
				c.Trans(1)
				if ran != 1 || opened != 0 || len(errs) != o || (o == 1 && errs[0] != e) {
					return fmt.Sprintf("call %d: ran %d, onOpen %d, onError %v", i, ran, opened, errs)
				}
			}
			return ""
		})
	}})
	return us
}

// ---- P04: concurrency ------------------------------------------------------------------------------------------------

type brState struct {
	f         int
	last, now int64
}

func brStep(thr int, T int64) func(s brState, o *mc.Op) []brState {
	return func(s brState, o *mc.Op) []brState {
		switch o.Name {
		case "adv":
			s.now += o.Arg.(int64)
		case "check":
			refuse := s.f >= thr && s.now-s.last <= T
			if !o.Pending() && refuse != (o.Res == "open") {
				return nil
			}
		case "record":
			if o.Arg == "fail" {
				s.f, s.last = s.f+1, s.now
			} else {
				s.f, s.last = 0, 0
			}
		}
		return []brState{s}
	}
}

// brDo performs one Do with its checks and outcome recordings as operations of the history.
func brDo(x *mc.Exec, cb circuitbreaker.Interface, out byte, inTask, inErr, inOpen func()) {
	chk := x.Begin("check", "")
	ran, opened, nerr := 0, 0, 0
	var rec *mc.Op
	my := errors.New("e")
	cb.Do(func() error {
		ran++
		x.End(chk, "run")
		if inTask != nil {
			inTask()
		}
		if out == 'f' {
			rec = x.Begin("record", "fail")
			return my
		}
		rec = x.Begin("record", "ok")
		return nil
	}, func(e error) {
		nerr++
		if e != my {
			x.Fail("onError got %v, not the error of its own task", e)
		}
		x.End(rec, "ok")
		if inErr != nil {
			inErr()
		}
	}, func() {
		opened++
		x.End(chk, "open")
		if inOpen != nil {
			inOpen()
		}
	})
	if out != 'f' && rec != nil {
		x.End(rec, "ok")
	}
	if ran+opened != 1 || (ran == 1 && out == 'f') != (nerr == 1) {
		x.Fail("Do ran the task %d times, called onOpen %d times and onError %d times", ran, opened, nerr)
	}
}

func brScenario(name string, thr int, T int64, progs []string, setup string, preempt int) *mc.Scenario {
	return &mc.Scenario{Name: name, ClockMoves: true, Full: preempt == 0, Preempt: preempt, Body: func(x *mc.Exec) func() string {
		cb := circuitbreaker.NewSyncCircuitBreaker(thr, time.Duration(T))
		run := func(p string) {
			for _, ch := range p {
				switch ch {
				case 'o', 'f':
					brDo(x, cb, byte(ch), nil, nil, nil)
				case 'n': // nested: the failing task calls Do, and so do the callbacks
					brDo(x, cb, 'f', func() { brDo(x, cb, 'o', nil, nil, nil) }, func() { brDo(x, cb, 'f', nil, nil, nil) }, nil)
				case 'N':
					brDo(x, cb, 'o', func() { brDo(x, cb, 'f', nil, nil, nil) }, nil, func() { brDo(x, cb, 'f', nil, nil, nil) })
				case '1':
					x.Do("adv", int64(1), func() any { mc.Advance(1); return "" })
				case 'T':
					x.Do("adv", T, func() any { mc.Advance(T); return "" })
				case '+':
					x.Do("adv", T+1, func() any { mc.Advance(T + 1); return "" })
				}
			}
		}
		run(setup)
		for i, p := range progs {
			x.Go(fmt.Sprint("t", i), func() { run(p) })
		}
		x.Final(func() { run("o1T") })
		x.Final(func() { run("f+fof") })
		return func() string {
			if !mc.Linearizable(x.Ops(), brState{now: mc.Epoch0}, brStep(thr, T)) {
				return "no one-at-a-time order of the admission checks and outcome recordings explains the results"
			}
			return ""
		}
	}}
}

func p04(th bool) []*lib.Unit {
	var us []*lib.Unit
	T := int64(10)
	two := strs("of", 1, 3)
	var a, b, d []*mc.Scenario
	for thr := 1; thr <= 3; thr++ {
		for _, setup := range []string{"", "f", "ff", "fff", "f+", "ff+"} {
			for i, p := range two {
				for _, q := range two[i:] {
					if len(p)+len(q) > 4 && !th {
						continue
					}
					a = append(a, brScenario(fmt.Sprintf("two thr=%d setup=%q %s|%s", thr, setup, p, q), thr, T, []string{p, q}, setup, 0))
				}
			}
			one := strs("of", 1, 2)
			for i, p := range one {
				for j, q := range one[i:] {
					for _, clk := range []string{"+", "T1"} {
						if len(p)+len(q)+len(clk) <= 4 || th {
							b = append(b, brScenario(fmt.Sprintf("clock thr=%d setup=%q %s|%s|%s", thr, setup, p, q, clk), thr, T, []string{p, q, clk}, setup, 0))
						}
					}
					for _, r := range one[i+j:] {
						if len(p)+len(q)+len(r) == 3 {
							b = append(b, brScenario(fmt.Sprintf("three thr=%d setup=%q %s|%s|%s", thr, setup, p, q, r), thr, T, []string{p, q, r}, setup, 0))
						}
					}
				}
			}
			for _, p := range [][]string{{"n", "f"}, {"N", "o"}, {"n", "N"}, {"n", "+"}, {"N", "f"}} {
				d = append(d, brScenario(fmt.Sprintf("nested thr=%d setup=%q %v", thr, setup, p), thr, T, p, setup, 0))
			}
		}
	}
	split := func(name string, w, k int, note string, l []*mc.Scenario) {
		for i := 0; i < k; i++ {
			var part []*mc.Scenario
			for j := i; j < len(l); j += k {
				part = append(part, l[j])
			}
			us = append(us, &lib.Unit{Name: fmt.Sprintf("%s#%d", name, i), Weight: w, Note: note, Scs: part})
		}
	}
	split("two-callers", 5, 8, "two callers with up to 3 calls each, all outcomes, thresholds 1 to 3, six starting states", a)
	split("clock-and-three", 9, 8, "two callers and a moving clock; three callers", b)
	split("nested", 3, 4, "Do called from tasks and callbacks", d)
	// a slow task does not delay the others
	var slow []*mc.Scenario
	for thr := 1; thr <= 2; thr++ {
		for _, others := range []string{"o", "f", "fo", "ff", "+f", "f+o"} {
			for _, where := range []string{"task", "onError", "onOpen"} {
				slow = append(slow, &mc.Scenario{Name: fmt.Sprintf("slow %s thr=%d %s", where, thr, others), ClockMoves: true, Full: true, Body: func(x *mc.Exec) func() string {
					cb := circuitbreaker.NewSyncCircuitBreaker(thr, time.Duration(T))
					done := make(chan struct{})
					wait := func() { mc.Recv(done) }
					if where == "onOpen" {
						for i := 0; i < thr; i++ {
							brDo(x, cb, 'f', nil, nil, nil)
						}
					}
					x.Go("slow", func() {
						switch where {
						case "task":
							brDo(x, cb, 'o', wait, nil, nil)
						case "onError":
							brDo(x, cb, 'f', nil, wait, nil)
						case "onOpen":
							brDo(x, cb, 'f', nil, nil, wait)
						}
					})
					x.Go("others", func() {
						for _, ch := range others {
							if ch == '+' {
								x.Do("adv", T+1, func() any { mc.Advance(T + 1); return "" })
								continue
							}
							brDo(x, cb, byte(ch), nil, nil, nil)
						}
						mc.Close(done)
					})
					return func() string {
						if !mc.Linearizable(x.Ops(), brState{now: mc.Epoch0}, brStep(thr, T)) {
							return "no one-at-a-time order of the admission checks and outcome recordings explains the results"
						}
						return ""
					}
				}})
			}
		}
	}
	split("slow", 2, 1, "a task or callback that waits until another caller has been served", slow)
	return us
}

func init() {
	lib.Register("P03", with(p03, scaleP03), "thresholds of at least 1; the clock never runs backwards")
	lib.Register("P04", p04, "thresholds of at least 1; the clock never runs backwards; tasks do not panic")
}
