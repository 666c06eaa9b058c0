//go:build go1.22

package main

import (
	"fmt"
	"time"

	"github.com/chanjarster/gears/ratelimiter"
	"github.com/chanjarster/gears/zverif/lib"
	"github.com/chanjarster/gears/zverif/mc"
)

const second = int64(time.Second)

// splitScs makes k units of many small scenarios.
func splitScs(name string, w, k int, note string, l []*mc.Scenario) []*lib.Unit {
	var us []*lib.Unit
	for i := 0; i < k; i++ {
		var part []*mc.Scenario
		for j := i; j < len(l); j += k {
			part = append(part, l[j])
		}
		if len(part) > 0 {
			us = append(us, &lib.Unit{Name: fmt.Sprintf("%s#%d", name, i), Weight: w, Note: note, Scs: part})
		}
	}
	return us
}

// ---- P05: token buckets, one caller -----------------------------------------------------------------------------------

type bucket struct {
	cap, rate, tokens int64
	last              int64
}

func (b bucket) acquire(now int64) (bucket, bool) {
	if b.tokens >= b.cap {
		b.last = now
	} else if k := (now - b.last) / second; k > 0 && b.rate > 0 {
		// (without a rate nothing is ever issued)
		b.tokens += k * b.rate
		if b.tokens > b.cap {
			b.tokens = b.cap
		}
		b.last = now
	}
	if b.tokens > 0 {
		b.tokens--
		return b, true
	}
	return b, false
}

func newBucket(kind string, c, r int) ratelimiter.TokenBucket {
	if kind == "sync" {
		return ratelimiter.NewSyncTokenBucket(c, r)
	}
	return ratelimiter.NewAtomicTokenBucket(c, r)
}

type limOp struct {
	name  string
	adv   int64
	times int // acquire this often; -1: capacity+1 times
}

func runBucket(c *lib.Ctx, kind string, cp, rate int, start int64, ops []limOp, seq []int) string {
	mc.SetNow(start)
	b := newBucket(kind, cp, rate)
	m := bucket{cap: int64(cp), rate: int64(rate), tokens: int64(cp), last: start}
	if b.Capacity() != cp {
		return fmt.Sprintf("Capacity() = %d, want %d", b.Capacity(), cp)
	}
	now := start
	grants := int64(0)
	acq := func(step, n int) string {
		for i := 0; i < n; i++ {
			var want bool
			m, want = m.acquire(now)
			got := b.Acquire()
			c.Trans(1)
			if got {
				grants++
			}
			if got != want {
				return fmt.Sprintf("step %d: Acquire() = %v %d ns after the start, want %v (%d tokens left, last issue %d ns ago)", step+1, got, now-start, want, m.tokens, now-m.last)
			}
			if el := (now - start) / second; el < 1<<20 && grants > int64(cp)+int64(rate)*el {
				return fmt.Sprintf("step %d: %d grants within %d s", step+1, grants, el)
			}
			c.StateH(uint64(m.tokens)<<44 ^ uint64(now-m.last)&(1<<44-1) ^ uint64(cp)<<56 ^ uint64(rate)<<60)
		}
		return ""
	}
	for i, k := range append(append([]int(nil), seq...), -1) {
		if k < 0 { // what is left
			if s := acq(i, cp+1); s != "" {
				return s
			}
			break
		}
		op := ops[k]
		if op.adv > 0 {
			mc.Advance(op.adv)
			now += op.adv
		}
		n := op.times
		if n < 0 {
			n = cp + 1
		}
		if s := acq(i, n); s != "" {
			return s
		}
	}
	return ""
}

func p05(th bool) []*lib.Unit {
	depth := 5
	if th {
		depth = 7
	}
	ops := []limOp{{name: "acquire", times: 1}, {name: "drain", times: -1}, {name: "+1s", adv: second}, {name: "+1s-1", adv: second - 1}, {name: "+1ns", adv: 1},
		{name: "+0.5s", adv: second / 2}, {name: "+2.6s", adv: 2*second + 6*second/10}, {name: "+1h", adv: 3600 * second}, {name: "+10y", adv: 315360000 * second}}
	var us []*lib.Unit
	for _, kind := range []string{"sync", "atomic"} {
		for _, cp := range []int{0, 1, 2, 3, 5} {
			us = append(us, lib.Shards(fmt.Sprintf("%s/capacity=%d", kind, cp), depth, 3,
				fmt.Sprintf("all sequences of %d steps over %d operations, rates 0 to 3, 10 and 1000", depth, len(ops)), func(c *lib.Ctx, i, k int) {
					for _, rate := range []int{1, 2, 3, 0, 10, 1000} {
						start := mc.Epoch0 + int64(rate)*777777777
						c.Sequences(len(ops), depth, i, k, func(seq []int) string {
							return fmt.Sprintf("%s bucket, capacity %d, rate %d: %s", kind, cp, rate, opNames(ops, seq))
						}, func(seq []int) string { return runBucket(c, kind, cp, rate, start, ops, seq) })
					}
				})...)
		}
		// large buckets and rates: refill arithmetic over a grid of idle times
		us = append(us, &lib.Unit{Name: kind + "/refill-grid", Weight: 2, Note: "all capacities to 12 and rates to 13, drained by d, idle 0..15 s with sub-second offsets, refilled and drained twice", Seq: func(c *lib.Ctx) {
			for cp := 1; cp <= 12; cp++ {
				for rate := 0; rate <= 13; rate++ {
					for d := 0; d <= cp; d++ {
						for s := int64(0); s <= 15; s++ {
							for _, off := range []int64{-1, 0, 1, second / 3} {
								if s*second+off < 0 {
									continue
								}
								o := []limOp{{name: fmt.Sprint("acquire x", d), times: d}, {name: fmt.Sprint("+", s*second+off), adv: s*second + off}, {name: "acquire", times: 1},
									{name: "drain", times: -1}, {name: fmt.Sprint("+", s*second+off), adv: s*second + off}}
								if !c.Case(func() string {
									return fmt.Sprintf("%s bucket, capacity %d, rate %d: %s", kind, cp, rate, opNames(o, []int{0, 1, 2, 3, 4}))
								}, func() string { return runBucket(c, kind, cp, rate, mc.Epoch0, o, []int{0, 1, 2, 3, 4}) }) {
									return
								}
							}
						}
					}
				}
			}
		}})
		us = append(us, &lib.Unit{Name: kind + "/large", Weight: 2, Note: "capacities and rates up to 100000, idle times up to 10 years", Seq: func(c *lib.Ctx) {
			for _, cp := range []int{100, 1000, 20000} {
				for _, rate := range []int{1, 7, 99, 1000, 100000, 1 << 30} {
					for _, d := range []int{1, 50, cp - 1, cp} {
						for _, s := range []int64{1, 2, 59, 3600, 86400, 315360000} {
							o := []limOp{{name: fmt.Sprint("acquire x", d), times: d}, {name: fmt.Sprintf("+%ds", s), adv: s * second}, {name: "acquire", times: 1}}
							if !c.Case(func() string {
								return fmt.Sprintf("%s bucket, capacity %d, rate %d: %s", kind, cp, rate, opNames(o, []int{0, 1, 2}))
							}, func() string { return runBucket(c, kind, cp, rate, mc.Epoch0, o, []int{0, 1, 2}) }) {
								return
							}
						}
					}
				}
			}
		}})
	}
	return us
}

func opNames(ops []limOp, seq []int) string {
	s := ""
	for i, k := range seq {
		if i > 0 {
			s += ", "
		}
		s += ops[k].name
	}
	return s
}

// ---- P06: token buckets, concurrent callers ---------------------------------------------------------------------------

func advOp(x *mc.Exec, d int64) { x.Do("adv", d, func() any { mc.Advance(d); return "" }) }

type bktState struct {
	b      bucket
	now    int64
	issued uint64 // calls that have issued but not taken yet
}

// splitAcquires lets a call issue tokens at one instant and take its token at a later one: the calls of the atomic
// bucket are not one-step operations, and need not be for its guarantees.
func splitAcquires(ops []*mc.Op) []*mc.Op {
	var out []*mc.Op
	for i, o := range ops {
		if o.Name == "acquire" {
			a, b := *o, *o
			a.Name, a.Arg = "issue", i
			b.Name, b.Arg = "take", i
			out = append(out, &a, &b)
			continue
		}
		out = append(out, o)
	}
	return out
}

func bktStep(s bktState, o *mc.Op) []bktState {
	if o.Name == "adv" {
		s.now += o.Arg.(int64)
		return []bktState{s}
	}
	if o.Name == "issue" {
		b, ok := s.b.acquire(s.now)
		if ok {
			b.tokens++
		}
		s.b, s.issued = b, s.issued|1<<o.Arg.(int)
		return []bktState{s}
	}
	if o.Name == "take" {
		if s.issued&(1<<o.Arg.(int)) == 0 {
			return nil
		}
		s.issued &^= 1 << o.Arg.(int)
		ok := s.b.tokens > 0
		if !o.Pending() && o.Res != ok {
			return nil
		}
		if ok {
			s.b.tokens--
		}
		return []bktState{s}
	}
	b, ok := s.b.acquire(s.now)
	if !o.Pending() && o.Res != ok {
		return nil
	}
	s.b = b
	return []bktState{s}
}

// limProg runs a little program: a acquire, s advance 1s, h advance 0.6s, S advance 3s.
func limProg(x *mc.Exec, p string, acquire func() bool) {
	for _, ch := range p {
		switch ch {
		case 'a':
			x.Do("acquire", nil, func() any { return acquire() })
		case 's':
			advOp(x, second)
		case 'h':
			advOp(x, 6*second/10)
		case 'S':
			advOp(x, 3*second)
		}
	}
}

func bktScenario(kind string, cp, rate int, setup string, progs []string) *mc.Scenario {
	return &mc.Scenario{Name: fmt.Sprintf("%s capacity=%d rate=%d setup=%q %v", kind, cp, rate, setup, progs), ClockMoves: true, Full: true, Body: func(x *mc.Exec) func() string {
		b := newBucket(kind, cp, rate)
		strict := kind == "sync"
		limProg(x, setup, b.Acquire)
		for i, p := range progs {
			x.Go(fmt.Sprint("t", i), func() { limProg(x, p, b.Acquire) })
		}
		// what is left now and one second later shows lost and invented tokens
		x.Final(func() { limProg(x, "aaaa"[:cp+1]+"s"+"aaaa"[:cp+1], b.Acquire) })
		return func() string {
			ops := x.Ops()
			if !strict {
				ops = splitAcquires(ops)
			}
			if !mc.Linearizable(ops, bktState{bucket{int64(cp), int64(rate), int64(cp), mc.Epoch0}, mc.Epoch0, 0}, bktStep) {
				return "no one-at-a-time order of the calls explains the results"
			}
			return ""
		}
	}}
}

func p06(th bool) []*lib.Unit {
	var us []*lib.Unit
	for _, kind := range []string{"sync", "atomic"} {
		var two, clk, three []*mc.Scenario
		for _, cp := range []int{1, 2, 3} {
			for _, rate := range []int{1, 2, 3} {
				for _, setup := range []string{"", "a", "aaa"[:cp], "aaa"[:cp] + "s", "aaa"[:cp] + "S", "aaa"[:cp] + "h", "ah"} {
					if cp == 3 && rate == 3 && !th {
						continue
					}
					two = append(two, bktScenario(kind, cp, rate, setup, []string{"a", "a"}), bktScenario(kind, cp, rate, setup, []string{"aa", "a"}), bktScenario(kind, cp, rate, setup, []string{"aa", "aa"}))
					for _, ck := range []string{"s", "h", "hh", "S"} {
						clk = append(clk, bktScenario(kind, cp, rate, setup, []string{"a", "a", ck}))
						if th || kind == "sync" || (cp < 3 && rate < 3) {
							clk = append(clk, bktScenario(kind, cp, rate, setup, []string{"aa", "a", ck}))
						}
					}
					for _, ck := range []string{"sa", "ha", "Sa", "as", "aha"} {
						clk = append(clk, bktScenario(kind, cp, rate, setup, []string{"a", ck}), bktScenario(kind, cp, rate, setup, []string{"aa", ck}))
					}
					if th || (cp < 3 && rate < 3) {
						three = append(three, bktScenario(kind, cp, rate, setup, []string{"a", "a", "a"}))
					}
					if th {
						three = append(three, bktScenario(kind, cp, rate, setup, []string{"a", "a", "a", "s"}), bktScenario(kind, cp, rate, setup, []string{"aa", "aa", "a"}))
						clk = append(clk, bktScenario(kind, cp, rate, setup, []string{"aa", "aa", "s"}), bktScenario(kind, cp, rate, setup, []string{"aa", "aa", "hh"}))
					}
				}
			}
		}
		us = append(us, splitScs(kind+"/two", 4, 2, "two callers with one or two calls each", two)...)
		us = append(us, splitScs(kind+"/clock", 8, 8, "two callers and a moving clock", clk)...)
		us = append(us, splitScs(kind+"/three", 8, 6, "three callers (thorough: with a moving clock)", three)...)
	}
	return us
}

// ---- P07, P08: windows, one caller ------------------------------------------------------------------------------------

func p07(th bool) []*lib.Unit {
	depth := 6
	if th {
		depth = 8
	}
	var us []*lib.Unit
	run := func(c *lib.Ctx, cp int, W, start int64, ops []limOp, seq []int) string {
		mc.SetNow(start)
		w := ratelimiter.NewSyncFixedWindow(cp, time.Duration(W))
		if w.Capacity() != cp || w.WindowSize() != time.Duration(W) {
			return fmt.Sprintf("Capacity() = %d, WindowSize() = %v", w.Capacity(), w.WindowSize())
		}
		now := start
		idx, cnt := int64(-1), 0
		for i, k := range seq {
			op := ops[k]
			if op.adv > 0 {
				mc.Advance(op.adv)
				now += op.adv
			}
			n := op.times
			if n < 0 {
				n = cp + 1
			}
			for j := 0; j < n; j++ {
				if at := (now + W - 1) / W; at != idx { // interval (k-1)W < t <= kW
					idx, cnt = at, 0
				}
				want := cnt < cp
				got := w.Acquire()
				c.Trans(1)
				if got != want {
					return fmt.Sprintf("step %d: Acquire() = %v at %d (%d ns into its interval of %d, %d admitted so far), want %v", i+1, got, now, now-(idx-1)*W, W, cnt, want)
				}
				if got {
					cnt++
				}
				c.StateH(uint64(cnt)<<56 ^ uint64(cp)<<60 ^ uint64(W) ^ uint64(now-(idx-1)*W)*1099511628211)
			}
		}
		return ""
	}
	for _, cp := range []int{0, 1, 2, 3} {
		us = append(us, lib.Shards(fmt.Sprintf("capacity=%d", cp), depth, 3, fmt.Sprintf("all sequences of %d steps over requests and clock steps around interval boundaries, windows from 1 ns to a week, several phases", depth), func(c *lib.Ctx, i, k int) {
			for _, W := range []int64{10, second, 1, 3, 60*second + 1, 7 * 86400 * second} {
				base := mc.Epoch0 / W * W
				for _, off := range []int64{0, 1, W / 2, W - 1} {
					if (off > 0 && W == 1) || (W > second && off == W/2) {
						continue
					}
					ops := []limOp{{name: "acquire", times: 1}, {name: "fill", times: -1}, {name: "+1ns", adv: 1}, {name: "+W", adv: W}, {name: "+3W", adv: 3 * W}}
					if W > 2 {
						ops = append(ops, limOp{name: "+W-1", adv: W - 1}, limOp{name: "+W/2", adv: W / 2})
					}
					c.Sequences(len(ops), depth, i, k, func(seq []int) string {
						return fmt.Sprintf("capacity %d, window %d, start at %d: %s", cp, W, base+off, opNames(ops, seq))
					}, func(seq []int) string { return run(c, cp, W, base+off, ops, seq) })
				}
			}
		})...)
	}
	us = append(us, &lib.Unit{Name: "phases", Weight: 2, Note: "every phase of every small window, every idle time up to five windows; odd large windows", Seq: func(c *lib.Ctx) {
		for W := int64(1); W <= 14; W++ {
			for off := int64(0); off < W; off++ {
				for d := int64(0); d <= 5*W; d++ {
					for cp := 1; cp <= 3; cp++ {
						for pre := 0; pre <= cp; pre++ {
							ops := []limOp{{name: fmt.Sprint("acquire x", pre), times: pre}, {name: fmt.Sprint("+", d), adv: d}, {name: "fill", times: -1}, {name: "+1ns", adv: 1}, {name: "fill", times: -1}, {name: fmt.Sprint("+", W-1), adv: W - 1}, {name: "fill", times: -1}}
							start := mc.Epoch0/W*W + off
							if !c.Case(func() string {
								return fmt.Sprintf("capacity %d, window %d, start at %d: %s", cp, W, start, opNames(ops, []int{0, 1, 2, 3, 4, 5, 6}))
							}, func() string { return run(c, cp, W, start, ops, []int{0, 1, 2, 3, 4, 5, 6}) }) {
								return
							}
						}
					}
				}
			}
		}
		for _, W := range []int64{1e6 + 3, 1e9 - 1, 123456789, 3600 * second, 86400*second + 7, 1<<40 + 1} {
			for _, off := range []int64{0, 1, 2, W / 3, W - 2, W - 1} {
				for _, d := range []int64{0, 1, W - 1, W, W + 1, 2*W - 1, 2 * W, 100*W + 1, 1000 * W} {
					ops := []limOp{{name: "acquire", times: 1}, {name: fmt.Sprint("+", d), adv: d}, {name: "fill", times: -1}, {name: "+1ns", adv: 1}, {name: "fill", times: -1}, {name: fmt.Sprint("+", W-1), adv: W - 1}, {name: "fill", times: -1}}
					start := mc.Epoch0/W*W + off
					if !c.Case(func() string {
						return fmt.Sprintf("capacity 2, window %d, start at %d: %s", W, start, opNames(ops, []int{0, 1, 2, 3, 4, 5, 6}))
					}, func() string { return run(c, 2, W, start, ops, []int{0, 1, 2, 3, 4, 5, 6}) }) {
						return
					}
				}
			}
		}
	}})
	return us
}

// slideModel remembers the most recent admissions, at most cap of them.
type slideModel struct {
	cap int
	W   int64
	rec []int64
}

func (s *slideModel) acquire(now int64) bool {
	if s.cap == 0 {
		return true
	}
	in := 0
	for _, t := range s.rec {
		if now-t <= s.W {
			in++
		}
	}
	if in >= s.cap {
		return false
	}
	s.rec = append(s.rec, now)
	s.trim()
	return true
}

func (s *slideModel) trim() {
	if n := len(s.rec) - s.cap; n > 0 {
		s.rec = append([]int64(nil), s.rec[n:]...)
	}
}

func p08(th bool) []*lib.Unit {
	depth := 6
	if th {
		depth = 8
	}
	type sop struct {
		name   string
		acq    bool
		adv    int64
		cp     int
		W      int64
		update bool
	}
	var us []*lib.Unit
	run := func(c *lib.Ctx, cp int, W int64, ops []sop, seq []int) string {
		mc.SetNow(mc.Epoch0)
		w := ratelimiter.NewSyncSlidingWindow(cp, time.Duration(W))
		m := &slideModel{cap: max(cp, 0), W: W}
		now := mc.Epoch0
		for i, k := range append(append([]int(nil), seq...), 0, 0, 0, 0) { // four requests at the end show what is left
			op := ops[k]
			switch {
			case op.acq:
				want := m.acquire(now)
				got := w.Acquire()
				c.Trans(1)
				if got != want {
					return fmt.Sprintf("step %d: Acquire() = %v, want %v (capacity %d, window %d, now %d, remembered admissions %v)", i+1, got, want, m.cap, m.W, now-mc.Epoch0, rel(m.rec))
				}
			case op.update:
				w.UpdateConfig(op.cp, time.Duration(op.W))
				c.Trans(1)
				m.cap, m.W = max(op.cp, 0), op.W
				m.trim()
			default:
				mc.Advance(op.adv)
				now += op.adv
			}
			if w.Capacity() != m.cap || w.WindowSize() != time.Duration(m.W) {
				return fmt.Sprintf("step %d: Capacity() = %d, WindowSize() = %v, want %d, %v", i+1, w.Capacity(), w.WindowSize(), m.cap, time.Duration(m.W))
			}
			h := uint64(m.cap) ^ uint64(m.W)<<8
			for _, t := range m.rec {
				h = h*1099511628211 ^ uint64(min(now-t, 1000))
			}
			c.StateH(h)
		}
		return ""
	}
	desc := func(cp int, W int64, ops []sop, seq []int) string {
		s := fmt.Sprintf("capacity %d, window %d:", cp, W)
		for _, k := range seq {
			s += " " + ops[k].name
		}
		return s
	}
	for _, cp := range []int{-1, 0, 1, 2, 3, 4} {
		us = append(us, lib.Shards(fmt.Sprintf("constant/capacity=%d", cp), 3, 2, fmt.Sprintf("all sequences of %d requests and clock steps, windows 10 and 0", depth+1), func(c *lib.Ctx, i, k int) {
			for _, W := range []int64{10, 0} {
				ops := []sop{{name: "acquire", acq: true}, {name: "+1", adv: 1}, {name: "+4", adv: 4}, {name: "+W", adv: W}, {name: "+W+1", adv: W + 1}}
				c.Sequences(len(ops), depth+1, i, k, func(seq []int) string { return desc(cp, W, ops, seq) }, func(seq []int) string { return run(c, cp, W, ops, seq) })
			}
		})...)
	}
	for _, cp := range []int{0, 1, 2, 3} {
		us = append(us, lib.Shards(fmt.Sprintf("update/capacity=%d", cp), depth, 8, fmt.Sprintf("all sequences of %d requests, clock steps and configuration updates", depth), func(c *lib.Ctx, i, k int) {
			ops := []sop{{name: "acquire", acq: true}, {name: "+3", adv: 3}, {name: "+11", adv: 11}, {name: "UpdateConfig(-1,10)", update: true, cp: -1, W: 10}, {name: "UpdateConfig(1,10)", update: true, cp: 1, W: 10},
				{name: "UpdateConfig(2,10)", update: true, cp: 2, W: 10}, {name: "UpdateConfig(3,10)", update: true, cp: 3, W: 10}, {name: "UpdateConfig(2,4)", update: true, cp: 2, W: 4}, {name: "UpdateConfig(2,20)", update: true, cp: 2, W: 20}, {name: "UpdateConfig(1,0)", update: true, cp: 1, W: 0}}
			c.Sequences(len(ops), depth, i, k, func(seq []int) string { return desc(cp, 10, ops, seq) }, func(seq []int) string { return run(c, cp, 10, ops, seq) })
		})...)
	}
	us = append(us, &lib.Unit{Name: "wide", Weight: 2, Note: "larger capacities: requests at every pattern of gaps, realistic windows", Seq: func(c *lib.Ctx) {
		for _, W := range []int64{second, 60 * second} {
			for cp := 1; cp <= 8; cp++ {
				ops := []sop{{name: "acquire", acq: true}, {name: "+W/cap", adv: W / int64(cp)}, {name: "+W/cap+1", adv: W/int64(cp) + 1}, {name: "+W/2", adv: W / 2}}
				// pairs (gap, request)
				d := 8
				c.Sequences(3, d, 0, 1, func(seq []int) string {
					return fmt.Sprintf("capacity %d, window %d: requests with gaps %v", cp, W, seq)
				}, func(seq []int) string {
					var s []int
					for _, g := range seq {
						s = append(s, g+1, 0, 0)
					}
					return run(c, cp, W, ops, s)
				})
			}
		}
	}})
	return us
}

func rel(l []int64) []int64 {
	out := []int64{}
	for _, t := range l {
		out = append(out, t-mc.Epoch0)
	}
	return out
}

// ---- P12: windows, concurrent callers ---------------------------------------------------------------------------------

type fixState struct {
	idx, cnt, now int64
}

func fixStep(cp, W int64) func(s fixState, o *mc.Op) []fixState {
	return func(s fixState, o *mc.Op) []fixState {
		if o.Name == "adv" {
			s.now += o.Arg.(int64)
			return []fixState{s}
		}
		if at := (s.now + W - 1) / W; at != s.idx {
			s.idx, s.cnt = at, 0
		}
		ok := s.cnt < cp
		if !o.Pending() && o.Res != ok {
			return nil
		}
		if ok {
			s.cnt++
		}
		return []fixState{s}
	}
}

type slState struct {
	rec    [4]int64
	n      int
	cp     int
	W, now int64
}

func (s slState) trim() slState {
	if s.n > s.cp {
		k := s.n - s.cp
		copy(s.rec[:], s.rec[k:s.n])
		for i := s.cp; i < len(s.rec); i++ {
			s.rec[i] = 0
		}
		s.n = s.cp
	}
	return s
}

func slStep(s slState, o *mc.Op) []slState {
	switch o.Name {
	case "adv":
		s.now += o.Arg.(int64)
	case "update":
		a := o.Arg.([2]int64)
		s.cp, s.W = int(a[0]), a[1]
		s = s.trim()
	case "capacity":
		if !o.Pending() && o.Res != s.cp {
			return nil
		}
	case "windowSize":
		if !o.Pending() && o.Res != s.W {
			return nil
		}
	default:
		ok := true
		if s.cp > 0 {
			in := 0
			for _, t := range s.rec[:s.n] {
				if s.now-t <= s.W {
					in++
				}
			}
			ok = in < s.cp
		}
		if !o.Pending() && o.Res != ok {
			return nil
		}
		if ok && s.cp > 0 {
			if s.n == len(s.rec) {
				copy(s.rec[:], s.rec[1:])
				s.n--
			}
			s.rec[s.n] = s.now
			s.n++
			s = s.trim()
		}
	}
	return []slState{s}
}

// windows use W = 10 ns; programs: a acquire, 1 +1, 5 +5, W +10, B +11, c/w read capacity/window, digits after u: update
func winScenario(kind string, cp int, setup string, progs []string) *mc.Scenario {
	return &mc.Scenario{Name: fmt.Sprintf("%s capacity=%d setup=%q %v", kind, cp, setup, progs), ClockMoves: true, Full: true, Body: func(x *mc.Exec) func() string {
		var acq func() bool
		var sl *ratelimiter.SyncSlidingWindow
		if kind == "fixed" {
			acq = ratelimiter.NewSyncFixedWindow(cp, 10).Acquire
		} else {
			sl = ratelimiter.NewSyncSlidingWindow(cp, 10)
			acq = sl.Acquire
		}
		run := func(p string) {
			for i := 0; i < len(p); i++ {
				switch p[i] {
				case 'a':
					x.Do("acquire", nil, func() any { return acq() })
				case '1':
					advOp(x, 1)
				case '5':
					advOp(x, 5)
				case 'W':
					advOp(x, 10)
				case 'B':
					advOp(x, 11)
				case 'c':
					x.Do("capacity", nil, func() any { return sl.Capacity() })
				case 'w':
					x.Do("windowSize", nil, func() any { return int64(sl.WindowSize()) })
				case 'u':
					i++
					a := [2]int64{int64(p[i] - '0'), 10}
					if p[i] == 's' {
						a = [2]int64{2, 4}
					}
					x.Do("update", a, func() any { sl.UpdateConfig(int(a[0]), time.Duration(a[1])); return "" })
				}
			}
		}
		run(setup)
		for i, p := range progs {
			x.Go(fmt.Sprint("t", i), func() { run(p) })
		}
		x.Final(func() { run("aaa") })
		x.Final(func() { run("Ba") })
		if kind == "sliding" {
			x.Final(func() { run("5Wacw") })
		}
		return func() string {
			ok := false
			if kind == "fixed" {
				ok = mc.Linearizable(x.Ops(), fixState{now: mc.Epoch0}, fixStep(int64(cp), 10))
			} else {
				ok = mc.Linearizable(x.Ops(), slState{cp: cp, W: 10, now: mc.Epoch0}, slStep)
			}
			if !ok {
				return "no one-at-a-time order of the calls explains the results"
			}
			return ""
		}
	}}
}

func p12(th bool) []*lib.Unit {
	var us []*lib.Unit
	hi := 2
	if th {
		hi = 3
	}
	var fixed, slide, upd []*mc.Scenario
	for _, cp := range []int{1, 2, 3} {
		for _, setup := range []string{"", "a", "aa", "a5a", "aW", "aaB", "1a1a"} {
			for _, p := range strs("a", 1, hi) {
				for _, q := range strs("a", 1, hi) {
					if len(q) > len(p) {
						continue
					}
					fixed = append(fixed, winScenario("fixed", cp, setup, []string{p, q}))
					slide = append(slide, winScenario("sliding", cp, setup, []string{p, q}))
					for _, clk := range []string{"1", "W", "B", "5B", "1W", "5a", "Ba", "aBa", "B1a"} {
						if len(clk)+len(p)+len(q) > 5 && !th {
							continue
						}
						fixed = append(fixed, winScenario("fixed", cp, setup, []string{p, q, clk}))
						slide = append(slide, winScenario("sliding", cp, setup, []string{p, q, clk}))
					}
				}
			}
			fixed = append(fixed, winScenario("fixed", cp, setup, []string{"a", "a", "a"}))
			slide = append(slide, winScenario("sliding", cp, setup, []string{"a", "a", "a"}))
			if th {
				fixed = append(fixed, winScenario("fixed", cp, setup, []string{"a", "a", "a", "B"}))
				slide = append(slide, winScenario("sliding", cp, setup, []string{"a", "a", "a", "B"}))
			}
		}
		for _, setup := range []string{"", "aa", "a5a", "aaa"} {
			for _, u := range []string{"u0", "u1", "u2", "u3", "us"} {
				for _, p := range [][]string{{"a", u}, {"aa", u}, {"a", "a", u}, {"cw", u}, {"aB", u}, {"B", u + "a"}, {"a", "B", u}, {"a", u + "u3"}, {"a", u + "u1"}, {"aca", u}, {"u2a", u + "a"}, {"a", "u1", u}} {
					upd = append(upd, winScenario("sliding", cp, setup, p))
				}
				if th {
					for _, p := range [][]string{{"aa", "a", u}, {"aa", "B", u}, {"a", "Ba", u + "a"}, {"ac", u + "u3", "a"}, {"aaa", u + "u1u3"}} {
						upd = append(upd, winScenario("sliding", cp, setup, p))
					}
				}
			}
		}
	}
	us = append(us, splitScs("fixed", 5, 6, "two to three callers and a moving clock on a fixed window", fixed)...)
	us = append(us, splitScs("sliding", 6, 8, "two to three callers and a moving clock on a sliding window", slide)...)
	us = append(us, splitScs("update", 5, 6, "callers, a moving clock, readers and configuration updates on a sliding window", upd)...)
	return us
}

func init() {
	lib.Register("P05", p05, "rates of 0 to 2^30 and capacities of at least 0; the clock never runs backwards")
	lib.Register("P06", p06, "the clock never runs backwards")
	lib.Register("P07", with(p07, scaleP07), "window sizes of at least 1 ns; the clock never runs backwards")
	lib.Register("P08", with(p08, scaleP08), "window sizes of at least 0; the clock never runs backwards")
	lib.Register("P12", p12, "the clock never runs backwards")
}
