//go:build go1.22

package main

import (
	"errors"
	"fmt"
	"net/url"
	"strconv"
	"strings"
	"time"

	"github.com/chanjarster/gears/circuitbreaker"
	"github.com/chanjarster/gears/confstore"
	"github.com/chanjarster/gears/event"
	"github.com/chanjarster/gears/ratelimiter"
	"github.com/chanjarster/gears/schedule"
	"github.com/chanjarster/gears/zverif/lib"
	"github.com/chanjarster/gears/zverif/mc"
)

// Units that go for size instead of depth: every size of a capacity, batch, history or population up to a few hundred,
// around the powers of two, and durations that are not round numbers.

// with puts the units of several builders together.
func with(fs ...func(bool) []*lib.Unit) func(bool) []*lib.Unit {
	return func(th bool) (us []*lib.Unit) {
		for _, f := range fs {
			us = append(us, f(th)...)
		}
		return us
	}
}

func sizes() (out []int) {
	for n := 1; n <= 300; n++ {
		out = append(out, n)
	}
	return append(out, 511, 512, 513, 1000, 1023, 1024, 1025, 4096, 32767, 32768, 65535, 65536, 65537, 70000)
}

func sizeUnit(name, note string, f func(c *lib.Ctx, n int) string) *lib.Unit {
	return &lib.Unit{Name: name, Weight: 2, Note: note, Seq: func(c *lib.Ctx) {
		for _, n := range sizes() {
			if !c.Case(func() string { return fmt.Sprint("size ", n) }, func() string { c.State(n); return f(c, n) }) {
				return
			}
		}
	}}
}

func scaleSema(bool) []*lib.Unit {
	var us []*lib.Unit
	for _, kind := range []string{"chan", "lock"} {
		us = append(us, sizeUnit(kind+"/sizes", "every capacity up to 300 and larger ones: exactly that many permits, before and after giving some and all back, and after too many releases", func(c *lib.Ctx, n int) string {
			s := semaNew(kind, int64(n))
			held := 0
			take := func(want int) string {
				for i := 0; i < want; i++ {
					if i%2 == 0 {
						s.Acquire()
					} else if !s.TryAcquire() {
						return fmt.Sprintf("TryAcquire failed with %d of %d permits taken", held, n)
					}
					held++
				}
				if s.TryAcquire() {
					return fmt.Sprintf("TryAcquire succeeded with all %d permits taken", n)
				}
				c.Trans(want + 1)
				return ""
			}
			give := func(k int) {
				for i := 0; i < k; i++ {
					s.Release()
				}
				held = max(held-k, 0)
			}
			for _, back := range []int{1, n / 2, n, n + 3, 0} {
				if m := take(n - held); m != "" {
					return m
				}
				give(back)
			}
			return ""
		}))
	}
	return us
}

func scaleP03(bool) []*lib.Unit {
	run := func(c *lib.Ctx, thr int, T time.Duration) string {
		mc.SetNow(mc.Epoch0)
		cb := circuitbreaker.NewSyncCircuitBreaker(thr, T)
		do := func(fail bool) (ran bool) {
			cb.Do(func() error {
				ran = true
				if fail {
					return errors.New("x")
				}
				return nil
			}, func(error) {}, func() {})
			c.Trans(1)
			return
		}
		for round := 0; round < 2; round++ {
			for i := 0; i < thr; i++ {
				if !do(true) {
					return fmt.Sprintf("open after %d of %d failures", i, thr)
				}
			}
			for i := 0; i < 3; i++ {
				if do(false) {
					return fmt.Sprintf("not open after %d failures", thr)
				}
			}
			mc.Advance(int64(T))
			if do(false) {
				return fmt.Sprintf("not open %v after the failure", T)
			}
			mc.Advance(1)
			if !do(true) {
				return fmt.Sprintf("still open %v and 1 ns after the failure", T)
			}
			if do(true) {
				return "not open after a failed trial"
			}
			mc.Advance(int64(T) + 1)
			if !do(false) {
				return "no second trial"
			}
		}
		return ""
	}
	return []*lib.Unit{sizeUnit("sizes", "every threshold up to 300 and larger ones, reached exactly; timeouts up to years", func(c *lib.Ctx, thr int) string {
		for _, T := range []time.Duration{time.Millisecond + 1, time.Hour, 50 * 365 * 24 * time.Hour} {
			if m := run(c, thr, T); m != "" {
				return fmt.Sprintf("timeout %v: %s", T, m)
			}
		}
		return ""
	})}
}

func scaleP07(bool) []*lib.Unit {
	return []*lib.Unit{sizeUnit("sizes", "every capacity up to 300 and larger ones, over several windows", func(c *lib.Ctx, n int) string {
		W := int64(time.Second)
		mc.SetNow(mc.Epoch0/W*W + 1)
		w := ratelimiter.NewSyncFixedWindow(n, time.Duration(W))
		if w.Capacity() != n {
			return fmt.Sprintf("Capacity() = %d", w.Capacity())
		}
		for round := 0; round < 4; round++ {
			for i := 0; i < n; i++ {
				if !w.Acquire() {
					return fmt.Sprintf("round %d: request %d of %d was refused", round, i+1, n)
				}
			}
			for i := 0; i < 3; i++ {
				if w.Acquire() {
					return fmt.Sprintf("round %d: more than %d requests were admitted", round, n)
				}
			}
			c.Trans(n + 3)
			mc.Advance(W)
		}
		return ""
	})}
}

func scaleP08(bool) []*lib.Unit {
	return []*lib.Unit{sizeUnit("sizes", "every capacity up to 300 and larger ones: full windows, requests spread over the window, capacity halved and restored", func(c *lib.Ctx, n int) string {
		W := int64(100000)
		mc.SetNow(mc.Epoch0)
		w := ratelimiter.NewSyncSlidingWindow(n, time.Duration(W))
		fill := func(k int) string {
			for i := 0; i < k; i++ {
				if !w.Acquire() {
					return fmt.Sprintf("request %d of %d was refused (capacity %d)", i+1, k, w.Capacity())
				}
				mc.Advance(1)
			}
			if w.Acquire() {
				return fmt.Sprintf("a request was admitted although %d were admitted in the window (capacity %d)", k, w.Capacity())
			}
			c.Trans(k + 1)
			return ""
		}
		for round := 0; round < 2; round++ {
			if m := fill(n); m != "" {
				return m
			}
			mc.Advance(W - int64(n)) // the first request is exactly one window old
			if w.Acquire() {
				return "a request was admitted although the oldest one is exactly one window old"
			}
			for i := 0; i < min(n, 50); i++ { // every further ns one more
				mc.Advance(1)
				if !w.Acquire() || w.Acquire() {
					return "one request per ns must be admitted when the window slides on"
				}
			}
			mc.Advance(2*W + 1)
		}
		h := (n + 1) / 2
		w.UpdateConfig(h, time.Duration(W))
		if m := fill(h); m != "" {
			return "after lowering the capacity: " + m
		}
		mc.Advance(2*W + 1)
		w.UpdateConfig(n, time.Duration(W))
		if m := fill(n); m != "" {
			return "after restoring the capacity: " + m
		}
		return ""
	})}
}

type optProc struct{} // a processor whose values may be nil

func (optProc) Validate(v string) (bool, string) { return v != "bad", "bad" }
func (optProc) Convert(v string) interface{} {
	if v == "nil" {
		return nil
	}
	return &v
}

func scaleP13(bool) []*lib.Unit {
	many := sizeUnit("sizes", "stores of every size up to 300 keys and larger ones: batches update and read all of them", func(c *lib.Ctx, n int) string {
		if n > 5000 {
			return ""
		}
		st := confstore.NewStore(confstore.NoopPersister, confstore.NoopLoadPolicy)
		var ups []*confstore.KVStr
		var keys []string
		for i := 0; i < n; i++ {
			k := fmt.Sprint("key", i)
			keys = append(keys, k)
			if e := st.RegisterKey(k, "-1", confstore.Int); e != nil {
				return e.Error()
			}
			v := strconv.Itoa(i)
			if i%7 == 6 {
				v = "x"
			}
			ups = append(ups, &confstore.KVStr{Key: k, Value: v})
		}
		bad := st.BatchUpdate(ups)
		vs, ss := st.BatchGetValues(keys), st.BatchGetValueString(keys)
		if len(bad) != n/7 || len(vs) != n || len(ss) != n {
			return fmt.Sprintf("%d rejected, %d values, %d strings; want %d, %d, %d", len(bad), len(vs), len(ss), n/7, n, n)
		}
		for i := range keys {
			want := i
			if i%7 == 6 {
				want = -1
				if bad[i/7].Key != keys[i] || bad[i/7].Value != "x" {
					return fmt.Sprintf("rejection %d is about %q", i/7, bad[i/7].Key)
				}
			}
			if vs[i].Key != keys[i] || vs[i].Value != want || ss[i].Key != keys[i] || ss[i].Value != strconv.Itoa(want) {
				return fmt.Sprintf("entry %d: %v / %v, want %s=%d", i, *vs[i], *ss[i], keys[i], want)
			}
		}
		c.Trans(3 * n)
		return ""
	})
	// values that are easily mistaken for none
	show := func(v interface{}) string {
		switch t := v.(type) {
		case nil:
			return "nil"
		case *url.URL:
			if t == nil {
				return "no url"
			}
			return "url " + t.String()
		case *string:
			return "opt " + *t
		}
		return fmt.Sprintf("%T %v", v, v)
	}
	type kind struct {
		name string
		p    confstore.ValueProcessor
		vals [][2]string // string, value shown
		bad  string
	}
	kinds := []kind{
		{"url", confstore.Url, [][2]string{{"http://h/p", "url http://h/p"}, {"", "no url"}}, "x"},
		{"url-string", confstore.UrlString, [][2]string{{"http://h/p", "string http://h/p"}, {"", "string "}}, "x"},
		{"color", confstore.CssColorHex, [][2]string{{"#aabbcc", "string #aabbcc"}, {"", "string "}}, "x"},
		{"int", confstore.Int, [][2]string{{"1", "int 1"}, {"0", "int 0"}, {"-1", "int -1"}}, ""},
		{"bool", confstore.Bool, [][2]string{{"true", "bool true"}, {"false", "bool false"}}, ""},
		{"duration", confstore.Duration, [][2]string{{"1s", "time.Duration 1s"}, {"0s", "time.Duration 0s"}}, ""},
		{"string", confstore.StringProcessor(0, 3), [][2]string{{"x", "string x"}, {"", "string "}, {"nil", "string nil"}, {" ", "string  "}}, "long"},
		{"optional", optProc{}, [][2]string{{"x", "opt x"}, {"nil", "nil"}, {"", "opt "}}, "bad"},
	}
	empty := &lib.Unit{Name: "empty-values", Weight: 2, Note: "eight processors, all sequences of four operations with empty, zero and nil values as defaults and updates", Seq: func(c *lib.Ctx) {
		for _, k := range kinds {
			for d := range k.vals {
				n := len(k.vals) + 2 // updates, a rejected update, reset
				c.Sequences(n, 4, 0, 1, func(seq []int) string {
					s := fmt.Sprintf("%s, default %q:", k.name, k.vals[d][0])
					for _, o := range seq {
						if o < len(k.vals) {
							s += fmt.Sprintf(" update %q", k.vals[o][0])
						} else {
							s += []string{" rejected", " reset"}[o-len(k.vals)]
						}
					}
					return s
				}, func(seq []int) string {
					st := confstore.NewStore(confstore.NoopPersister, confstore.NoopLoadPolicy)
					if e := st.RegisterKey("k", k.vals[d][0], k.p); e != nil {
						return "RegisterKey: " + e.Error()
					}
					cur := k.vals[d]
					for i, o := range append([]int{-1}, seq...) {
						switch {
						case o < 0:
						case o < len(k.vals):
							var e *confstore.KVError
							if o%2 == 0 {
								e = st.Update("k", k.vals[o][0])
							} else if l := st.BatchUpdate([]*confstore.KVStr{{Key: "k", Value: k.vals[o][0]}}); len(l) > 0 {
								e = l[0]
							}
							if e != nil {
								return fmt.Sprintf("step %d: rejected: %s", i, e.Error)
							}
							cur = k.vals[o]
						case o == len(k.vals):
							if e := st.Update("k", k.bad); e == nil || e.Key != "k" || e.Value != k.bad {
								return fmt.Sprintf("step %d: %q was not rejected properly", i, k.bad)
							}
						default:
							st.ResetKey("k")
							cur = k.vals[d]
						}
						c.Trans(1)
						v, ok := st.GetValue("k")
						s, ok2 := st.GetValueString("k")
						bv, bs := st.BatchGetValues([]string{"k"}), st.BatchGetValueString([]string{"k"})
						if !ok || !ok2 || len(bv) != 1 || len(bs) != 1 {
							return fmt.Sprintf("step %d: the key is missed", i)
						}
						for _, g := range [][2]string{{s, show(v)}, {bs[0].Value, show(bv[0].Value)}, {st.MustGetValueString("k"), show(st.MustGetValue("k"))}} {
							if g != cur {
								return fmt.Sprintf("step %d: the store serves %q (%s), want %q (%s)", i, g[0], g[1], cur[0], cur[1])
							}
						}
						c.State(k.name, cur[0])
					}
					return ""
				})
			}
		}
	}}
	return []*lib.Unit{many, empty}
}

func scaleP14(bool) []*lib.Unit {
	return []*lib.Unit{sizeUnit("redis/sizes", "batches of every size up to 300 and larger ones are persisted completely and survive a restart", func(c *lib.Ctx, n int) string {
		if n > 5000 {
			return ""
		}
		srv, cl := newRedis()
		defer cl.Close()
		st := confstore.NewStore(confstore.NewRedisPersister(cl, cfgRoot), confstore.NoopLoadPolicy)
		st2 := confstore.NewStore(confstore.NewRedisPersister(cl, cfgRoot), confstore.NewLoadPolicy(time.Hour))
		var ups []*confstore.KVStr
		for i := 0; i < n; i++ {
			k := fmt.Sprint("key", i)
			for _, s := range []confstore.Interface{st, st2} {
				if e := s.RegisterKey(k, "-1", confstore.Int); e != nil {
					return e.Error()
				}
			}
			v := strconv.Itoa(i)
			if i%5 == 4 {
				v = "x"
			}
			ups = append(ups, &confstore.KVStr{Key: k, Value: v})
		}
		st.BatchUpdate(ups)
		if h := srv.Hash(cfgRoot); len(h) != n-n/5 {
			return fmt.Sprintf("%d entries were accepted, %d are persisted", n-n/5, len(h))
		}
		mc.SetNow(mc.PeekNano() + int64(2*time.Hour))
		for i := range ups {
			want := i
			if i%5 == 4 {
				want = -1
			}
			if v, ok := st2.GetValue(ups[i].Key); !ok || v != want {
				return fmt.Sprintf("after a restart %s is %v, want %d", ups[i].Key, v, want)
			}
		}
		c.Trans(2 * n)
		return ""
	})}
}

// scaleBus: many receivers and many events at once (one schedule each).
func scaleBus(prop string) func(bool) []*lib.Unit {
	return func(th bool) []*lib.Unit {
		var scs []*mc.Scenario
		for _, n := range []int{1, 2, 3, 9, 10, 11, 17, 33, 70, 200} { // events
			for m := 1; m <= 6; m++ { // receivers: the order in which the bus serves them is enumerated for each event
				orders := 1
				for i := 0; i < n && orders < 200; i++ {
					for k := 2; k <= m; k++ {
						orders *= k
					}
				}
				if orders >= 200 {
					continue
				}
				for kind := 0; kind < 3; kind++ {
					scs = append(scs, busScale(prop, n, m, kind))
				}
			}
		}
		return splitScs("sizes", 3, 3, "up to 200 events to up to 6 receivers (Block, Drop, consumed one by one), all orders in which the bus serves them, otherwise one schedule each", scs)
	}
}

func busScale(prop string, n, m, kind int) *mc.Scenario {
	return &mc.Scenario{Name: fmt.Sprintf("%d events, %d receivers, kind %d", n, m, kind), Preempt: 0, Delay: true, MaxSteps: 100000, Body: func(x *mc.Exec) func() string {
		bus := event.NewFanOutBus([]int{0, n, 3}[kind])
		got := make([][]int, m)
		closed := make([]bool, m)
		recvs := make([]*event.Receiver, m)
		for i := range recvs {
			st, buf := event.Block, n
			if kind == 1 {
				st = event.Drop
			}
			if kind == 2 {
				buf = i % 2
			}
			recvs[i] = bus.NewRecvStrategy(fmt.Sprint("r", i), buf, st)
			if kind == 2 {
				x.Go(fmt.Sprint("consumer", i), func() {
					for {
						v, ok := mc.Recv2(recvs[i].C)
						if !ok {
							closed[i] = true
							return
						}
						got[i] = append(got[i], v.(int))
					}
				})
			}
		}
		bus.GoDispatch()
		x.Go("publisher", func() {
			for e := 0; e < n; e++ {
				mc.SendTo(bus.C)(e)
			}
			mc.Sleep(time.Second) // everything is delivered
			for i, r := range recvs {
				if kind == 2 {
					continue
				}
				var l []any
				if i%2 == 0 {
					l = r.Drain()
				} else {
					l = r.CollectTimeout(time.Millisecond)
				}
				for _, v := range l {
					got[i] = append(got[i], v.(int))
				}
			}
			bus.Close()
			for i, r := range recvs {
				if kind != 2 {
					_, st := mc.TryRecv(r.C)
					closed[i] = st < 0
				}
			}
		})
		left := 0
		x.Final(func() { left = len(x.Unfinished(true)) })
		return func() string {
			for i := range got {
				if len(got[i]) != n {
					return fmt.Sprintf("receiver %d got %d of %d events", i, len(got[i]), n)
				}
				for k, e := range got[i] {
					if e != k {
						return fmt.Sprintf("receiver %d got %v", i, got[i])
					}
				}
				if prop == "P19" && !closed[i] {
					return fmt.Sprintf("receiver %d is open after the bus was closed", i)
				}
			}
			if prop == "P19" && left > 0 {
				return "the dispatcher did not end"
			}
			return ""
		}
	}}
}

// scaleP20: many events that arrive while they are collected.
func scaleP20(bool) []*lib.Unit {
	var scs []*mc.Scenario
	for _, n := range []int{0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 128, 200} {
		for _, T := range []time.Duration{1, 999, 1500 * time.Microsecond, time.Second - 1, 30 * time.Hour} {
			for mode := 0; mode < 6; mode++ { // when the events come
				for _, buf := range []int{0, 300} {
					scs = append(scs, collectScale(n, T, mode, buf))
				}
			}
		}
	}
	return splitScs("collect/sizes", 3, 1, "up to 200 events that arrive at once, evenly, early, late and around the end of timeouts from 1 ns to 30 h, one schedule each", scs)
}

func collectScale(n int, T time.Duration, mode, buf int) *mc.Scenario {
	return &mc.Scenario{Name: fmt.Sprintf("%d events, timeout %v, mode %d, buffer %d", n, T, mode, buf), Delay: true, MaxSteps: 100000, Horizon: 10 * T, Body: func(x *mc.Exec) func() string {
		bus := event.NewFanOutBus(0)
		r := bus.NewRecvStrategy("r", buf, event.Block)
		bus.GoDispatch()
		// the instants at which the events are published, in ns after the call of CollectTimeout
		at := make([]time.Duration, n)
		want := 0
		for i := range at {
			switch mode {
			case 0:
			case 1: // evenly, the last one before the timeout
				at[i] = T * time.Duration(i) / time.Duration(n)
			case 2: // all but one at once, the last one late
				if i == n-1 {
					at[i] = T * 3 / 4
				}
			case 3: // half of them after the timeout
				at[i] = T / 2
				if i >= n/2 {
					at[i] = T + T/2 + 1
				}
			case 4: // one by one at the end
				at[i] = max(T-time.Duration(n-i), 0)
			case 5: // one after the other, most of them too late
				at[i] = T*time.Duration(i)/7 + 1
			}
			if at[i] < T {
				want++
			}
		}
		var got []any
		var took int64
		start := mc.PeekNano()
		x.Go("collector", func() {
			got = r.CollectTimeout(T)
			took = mc.PeekNano() - start
		})
		x.Go("publisher", func() {
			for i := range at {
				if d := int64(at[i]) - (mc.PeekNano() - start); d > 0 {
					mc.Sleep(time.Duration(d))
				}
				mc.SendTo(bus.C)(i)
			}
		})
		x.AllowBlocked() // events after the timeout are not consumed
		return func() string {
			if took != int64(T) {
				return fmt.Sprintf("CollectTimeout(%v) returned after %v", T, time.Duration(took))
			}
			edge := 0
			for _, a := range at {
				if a == T {
					edge++
				}
			}
			if len(got) < want || len(got) > want+edge {
				return fmt.Sprintf("%d events were collected, %d were delivered before the timeout", len(got), want)
			}
			for i, v := range got {
				if v != i {
					return fmt.Sprintf("collected %v", got)
				}
			}
			return ""
		}
	}}
}

// scaleTasks: long lives, many overlapping runs and durations that are no round numbers.
func scaleTasks(rate, cadence bool) func(bool) []*lib.Unit {
	return func(th bool) []*lib.Unit {
		kind := map[bool]string{false: "delay", true: "rate"}[rate]
		if cadence {
			kind = "cadence"
		}
		var a, b []*mc.Scenario
		mk := func(iv, to int, runs string, stop int, u time.Duration, pre int) *mc.Scenario {
			return taskScn{rate: rate, interval: iv, timeout: to, runs: runs, stop: []int{stop}, observe: !cadence, pre: pre, cadence: cadence, cancels: !cadence, u: u}.scenario()
		}
		for _, r := range []string{"0", "1", "1!", "2r", "A", "Ar", "A!", "0A", "A0", "111111111A", "0!0!0!0!0!0!0!0!0!0!0!0!0!0!0!0!0!0!0"} {
			for _, it := range [][2]int{{1, 1}, {1, 39}, {1, 300}, {3, 2}, {2, 41}} {
				a = append(a, mk(it[0], it[1], r, 120, 0, 0))
			}
		}
		for _, u := range []time.Duration{1, 3, 999, 333333, 1499999, time.Second - 1, time.Second + 1, 1500 * time.Millisecond, time.Minute + 7, 7*time.Hour + 13, 1000*time.Hour + 1} {
			for _, r := range []string{"0", "1", "3", "5r", "0!"} {
				for _, it := range [][2]int{{1, 2}, {2, 3}, {3, 1}} {
					b = append(b, mk(it[0], it[1], r, 10, u, 0))
				}
			}
		}
		us := splitScs(kind+"/long-lives", 3, 1, "over a hundred runs of a task, up to 40 at once, one schedule each", a)
		return append(us, splitScs(kind+"/odd-durations", 3, 1, "intervals, timeouts and run times from 1 ns to 3000 h that are no round numbers, one schedule each", b)...)
	}
}

func scaleP25(bool) []*lib.Unit {
	var scs []*mc.Scenario
	for _, n := range []int{1, 2, 9, 10, 11, 12, 33, 100} {
		for mode := 0; mode < 3; mode++ {
			scs = append(scs, mgrScale(n, mode))
		}
	}
	us := splitScs("sizes", 3, 1, "up to 100 tasks: unregistered together, one by one, or every other one first", scs)
	names := []string{"a", "A", " a", "a ", "  a  ", "a\x00", "á", "a\n", "1", "01", "a.b", "中", "aa"}
	us = append(us, splitScs("names", 3, 1, "names differing in case, blanks, encoding: different names are different tasks, of both kinds", []*mc.Scenario{{Name: "names", Delay: true, Horizon: 40 * unit, MaxSteps: 100000, Body: func(x *mc.Exec) func() string {
		quiet()
		logs := make([]*jobLog, len(names))
		m := schedule.NewTaskManager()
		msg := ""
		x.Go("owner", func() {
			for i, n := range names {
				logs[i] = &jobLog{runs: parseRuns("0")}
				t := newTask(i%2 == 0, n, logs[i].job(false), unit, unit)
				if t.Name() != n {
					msg = fmt.Sprintf("the task %q is called %q", n, t.Name())
				}
				if e := m.Register(t); e != nil {
					msg = fmt.Sprintf("the name %q is taken: %v", n, e)
				}
			}
			for i, n := range names {
				mc.Sleep(unit / 2)
				m.Unregister(n)
				if e := m.Register(newTask(i%2 == 1, n, func(<-chan struct{}) error { return nil }, unit, unit)); e != nil {
					msg = fmt.Sprintf("the name %q is not free: %v", n, e)
				}
			}
			mc.Sleep(unit / 4)
			m.UnregisterAll()
		})
		return func() string {
			if msg != "" {
				return msg
			}
			for i, l := range logs {
				if m := l.checkStarts(i%2 == 0, unit, unit, 0, int64(i+1)*int64(unit)/2); m != "" {
					return fmt.Sprintf("task %q: %s", names[i], m)
				}
			}
			return ""
		}
	}}})...)
	return us
}

func mgrScale(n, mode int) *mc.Scenario {
	return &mc.Scenario{Name: fmt.Sprintf("%d tasks, mode %d", n, mode), Delay: true, MaxSteps: 100000, Body: func(x *mc.Exec) func() string {
		m := schedule.NewTaskManager()
		var lg mc.Log
		var errs []string
		name := func(i int) string { return strings.Repeat("t", i%3) + fmt.Sprint(i) }
		x.Go("owner", func() {
			for i := 0; i < n; i++ {
				if e := m.Register(&fakeTask{name: name(i), id: i, start: "ok", lg: &lg}); e != nil {
					errs = append(errs, e.Error())
				}
			}
			switch mode {
			case 1:
				for i := n - 1; i >= 0; i-- {
					m.Unregister(name(i))
				}
			case 2:
				for i := 0; i < n; i += 2 {
					m.Unregister(name(i))
				}
			}
			m.UnregisterAll()
			for i := 0; i < n; i++ {
				if e := m.Register(&fakeTask{name: name(i), id: n + i, start: "ok", lg: &lg}); e != nil {
					errs = append(errs, "the name is not free: "+e.Error())
				}
			}
		})
		return func() string {
			if len(errs) > 0 {
				return errs[0]
			}
			st, sp := make([]int, 2*n), make([]int, 2*n)
			for _, e := range lg.Ev {
				if e.What == "start" {
					st[e.N]++
				} else {
					sp[e.N]++
				}
			}
			for i := 0; i < 2*n; i++ {
				want := 0
				if i < n {
					want = 1
				}
				if st[i] != 1 || sp[i] != want {
					return fmt.Sprintf("task %d was started %d times and stopped %d times", i, st[i], sp[i])
				}
			}
			return ""
		}
	}}
}
