//go:build go1.22

package main

import (
	"errors"
	"fmt"
	"io"
	"strings"
	"time"

	"github.com/chanjarster/gears/schedule"
	"github.com/chanjarster/gears/simplelog"
	"github.com/chanjarster/gears/zverif/lib"
	"github.com/chanjarster/gears/zverif/mc"
)

// P21-P25: tasks and the task manager on the virtual clock. Unless a scenario is lax, time stands still while anything
// can run, so start and cancellation instants are exact and a sequential model predicts them.

const unit = 100 * time.Millisecond

// A jobRun says what one run of a job does.
type jobRun struct {
	dur   int  // units
	react bool // returns when cancelled
	fail  bool // returns an error
}

func (j jobRun) String() string {
	s := fmt.Sprint(j.dur)
	if j.react {
		s += "r"
	}
	if j.fail {
		s += "!"
	}
	return s
}

// parseRuns: digits are durations (A: 40), followed by r (reacts to cancellation) and ! (fails).
func parseRuns(s string) (out []jobRun) {
	for _, c := range s {
		switch c {
		case 'r':
			out[len(out)-1].react = true
		case '!':
			out[len(out)-1].fail = true
		case 'A':
			out = append(out, jobRun{dur: 40})
		default:
			out = append(out, jobRun{dur: int(c - '0')})
		}
	}
	return
}

func quiet() {
	simplelog.StdLogger.SetOutput(io.Discard)
	simplelog.ErrLogger.SetOutput(io.Discard)
}

func newTask(rate bool, name string, job schedule.JobFunc, interval, timeout time.Duration) schedule.Task {
	if rate {
		return schedule.NewFixedRateTask(name, job, interval, timeout)
	}
	return schedule.NewFixedDelayTask(name, job, interval, timeout)
}

// A run as observed: instants in ns since the start, -1 when it did not happen.
type obsRun struct{ start, cancel, end int64 }

// A jobLog records the runs of one task.
type jobLog struct {
	runs []jobRun
	lg   mc.Log
	n    int
	u    time.Duration // what the durations are counted in, unit if 0
}

func (l *jobLog) unit() time.Duration {
	if l.u != 0 {
		return l.u
	}
	return unit
}

// job is the job function; runs beyond the script repeat its last element. A run that ignores cancellation looks at the
// cancel channel only if observe is set.
func (l *jobLog) job(observe bool) schedule.JobFunc {
	return func(cancel <-chan struct{}) error {
		k := l.n
		l.lg.Add("start", k)
		l.n++
		r := l.runs[min(k, len(l.runs)-1)]
		switch {
		case r.dur == 0:
			if observe {
				if _, st := mc.TryRecv(cancel); st != 0 {
					l.lg.Add("cancel", k)
				}
			}
		case !r.react && !observe:
			mc.Sleep(time.Duration(r.dur) * l.unit())
		default:
			t := mc.NewTimer(time.Duration(r.dur) * l.unit())
			if mc.Sel(false, mc.SR(cancel), mc.SR(t.C)) == 0 {
				l.lg.Add("cancel", k)
				if !r.react {
					mc.Recv(t.C)
				}
			}
			t.Stop()
		}
		l.lg.Add("end", k)
		if r.fail {
			return errors.New("job failed")
		}
		return nil
	}
}

func (l *jobLog) observed() []obsRun {
	var out []obsRun
	for _, e := range l.lg.Ev {
		switch e.What {
		case "start":
			out = append(out, obsRun{int64(e.At), -1, -1})
		case "cancel":
			out[e.N].cancel = int64(e.At)
		case "end":
			out[e.N].end = int64(e.At)
		}
	}
	return out
}

// expect computes the runs of a task started at from and stopped at stop; the last run is optional if it coincides with
// the stop.
func (l *jobLog) expect(rate bool, interval, timeout time.Duration, from, stop int64) (starts []int64) {
	at := from
	for k := 0; at <= stop; k++ {
		starts = append(starts, at)
		if rate {
			at += int64(interval)
			continue
		}
		r := l.runs[min(k, len(l.runs)-1)]
		d := int64(r.dur) * int64(l.unit())
		if r.react {
			d = max(min(d, int64(timeout), stop-at), 0)
		}
		at += d + int64(interval)
	}
	return
}

func (l *jobLog) checkStarts(rate bool, interval, timeout time.Duration, from, stop int64) string {
	obs := l.observed()
	exp := l.expect(rate, interval, timeout, from, stop)
	must := len(exp)
	if must > 0 && exp[must-1] == stop {
		must--
	}
	var got []time.Duration
	bad := len(obs) < must || len(obs) > len(exp)
	for i, o := range obs {
		got = append(got, time.Duration(o.start))
		if i < len(exp) && o.start != exp[i] {
			bad = true
		}
	}
	if bad {
		var want []time.Duration
		for _, e := range exp {
			want = append(want, time.Duration(e))
		}
		return fmt.Sprintf("runs began at %v, expected %v (stopped at %v)", got, want, time.Duration(stop))
	}
	return ""
}

type taskScn struct {
	rate              bool
	interval, timeout int // units
	runs              string
	stop              []int // when Stop is called (units); more entries: further tasks with the same job
	observe, lax      bool
	pre               int
	cadence, cancels  bool // which oracle
	u                 time.Duration
	after             bool // no run that falls due after Stop has returned may begin, however slow the task's goroutines are
}

func (s taskScn) scenario() *mc.Scenario {
	kind := map[bool]string{false: "delay", true: "rate"}[s.rate]
	u := s.u
	if u == 0 {
		u = unit
	}
	iv, to := time.Duration(s.interval)*u, time.Duration(s.timeout)*u
	horizon := 40
	for _, st := range s.stop {
		horizon = max(horizon, st+50)
	}
	steps := 0
	if horizon > 70 {
		steps = 100000
	}
	return &mc.Scenario{Name: fmt.Sprintf("%s interval %d timeout %d runs %s stop %v lax %v unit %v", kind, s.interval, s.timeout, s.runs, s.stop, s.lax, u), Lax: s.lax, Preempt: s.pre, Delay: true, Horizon: time.Duration(horizon) * u, MaxSteps: steps, Body: func(x *mc.Exec) func() string {
		quiet()
		logs := make([]*jobLog, len(s.stop))
		for i := range s.stop {
			l := &jobLog{runs: parseRuns(s.runs), u: u}
			logs[i] = l
			t := newTask(s.rate, fmt.Sprint("task", i), l.job(s.observe), iv, to)
			x.Go(fmt.Sprint("owner", i), func() {
				x.Do("Start", i, func() any { return t.Start() })
				if s.stop[i] > 0 {
					mc.Sleep(time.Duration(s.stop[i]) * u)
				}
				x.Do("Stop", i, func() any { return t.Stop() })
			})
		}
		left := ""
		x.Final(func() {
			for _, t := range x.Unfinished(true) {
				left += " " + t.Name()
			}
		})
		return func() string {
			stops := make([]*mc.Op, len(logs))
			starts := make([]*mc.Op, len(logs))
			for _, o := range x.Ops() {
				if o.Pending() {
					return o.Name + " never returned"
				}
				if o.Res != nil {
					return fmt.Sprintf("%s failed: %v", o.Name, o.Res)
				}
				if o.Name == "Stop" {
					stops[o.Arg.(int)] = o
				} else {
					starts[o.Arg.(int)] = o
				}
				if !s.lax && o.RetAt != o.CallAt {
					return o.Name + " waited"
				}
			}
			for i, l := range logs {
				obs := l.observed()
				sc, sr := stops[i].CallAt-mc.Epoch0, stops[i].RetAt-mc.Epoch0
				for k, o := range obs {
					if o.end < 0 {
						return fmt.Sprintf("run %d never ended", k)
					}
				}
				if s.cadence && !s.lax {
					if m := l.checkStarts(s.rate, iv, to, 0, sc); m != "" {
						return m
					}
				}
				if s.cadence && s.lax && !s.rate {
					for k := 1; k < len(obs); k++ {
						if obs[k].start < obs[k-1].end+int64(iv) {
							return fmt.Sprintf("run %d began at %v but run %d ended at %v, interval %v: %s", k, time.Duration(obs[k].start), k-1, time.Duration(obs[k-1].end), iv, &l.lg)
						}
					}
				}
				if s.cancels {
					for k, o := range obs {
						r := l.runs[min(k, len(l.runs)-1)]
						full := o.start + int64(r.dur)*int64(u)
						if s.lax {
							from := int64(k) * int64(iv)
							if !s.rate && k > 0 {
								from = obs[k-1].end + int64(iv)
							}
							if o.cancel >= 0 && o.cancel < from+int64(to) && o.cancel < sc {
								return fmt.Sprintf("run %d was cancelled at %v, before its timeout and before Stop: %s", k, time.Duration(o.cancel), &l.lg)
							}
							continue
						}
						want := max(o.start, min(o.start+int64(to), sc))
						switch {
						case o.cancel >= 0 && o.cancel != want:
							return fmt.Sprintf("run %d (from %v) was cancelled at %v, not at %v: %s", k, time.Duration(o.start), time.Duration(o.cancel), time.Duration(want), &l.lg)
						case o.cancel < 0 && want < full:
							return fmt.Sprintf("run %d (from %v) was not cancelled at %v: %s", k, time.Duration(o.start), time.Duration(want), &l.lg)
						}
					}
				}
				for k := 0; s.after && k < len(obs); k++ {
					due := int64(k) * int64(iv)
					if !s.rate && k > 0 {
						due = obs[k-1].end + int64(iv)
					}
					if due > sr {
						return fmt.Sprintf("run %d began at %v although Stop had returned at %v, before the run was due: %s", k, time.Duration(obs[k].start), time.Duration(sr), &l.lg)
					}
				}
			}
			if left != "" {
				return "goroutines of the task are left although it is stopped and its jobs have ended:" + left
			}
			return ""
		}
	}}
}

// allRuns lists all scripts of n runs over the behaviours.
func allRuns(n int, beh ...string) []string {
	out := []string{""}
	for ; n > 0; n-- {
		var next []string
		for _, o := range out {
			for _, b := range beh {
				next = append(next, o+b)
			}
		}
		out = next
	}
	return out
}

func p21(th bool) []*lib.Unit {
	var us []*lib.Unit
	n, pre := 3, 3
	if th {
		pre = 5
	}
	beh := []string{"0", "1", "2r", "5r", "3", "5!", "0!"}
	var a, b, c []*mc.Scenario
	for i, r := range allRuns(n, beh...) {
		for _, it := range [][2]int{{2, 3}, {3, 1}, {2, 2}} {
			a = append(a, taskScn{interval: it[0], timeout: it[1], runs: r, stop: []int{9 + i%4}, pre: pre, cadence: true}.scenario())
		}
	}
	us = append(us, splitScs("cadence", 8, 6, "all sequences of run behaviours (instant, short, long, over the timeout with and without reacting, failing)", a)...)
	for _, r := range []string{"0", "1", "3", "3r", "01", "20!"} {
		for stop := 0; stop <= 9; stop++ {
			b = append(b, taskScn{interval: 2, timeout: 2, runs: r, stop: []int{stop}, pre: pre + 1, cadence: true}.scenario())
		}
		b = append(b, taskScn{interval: 2, timeout: 3, runs: r, stop: []int{3, 4}, pre: pre, cadence: true}.scenario())
	}
	us = append(us, splitScs("stop", 7, 4, "Stop at every instant; two tasks side by side", b)...)
	for _, r := range []string{"0", "1", "3", "3r", "1!"} {
		for _, stop := range []int{4, 7} {
			c = append(c, taskScn{interval: 2, timeout: 2, runs: r, stop: []int{stop}, lax: true, pre: pre, cadence: true}.scenario())
		}
	}
	us = append(us, splitScs("slow", 8, 3, "time passes at any moment: a later run never begins before the interval has elapsed since the previous one ended", c)...)
	return us
}

func p22(th bool) []*lib.Unit {
	var us []*lib.Unit
	n, pre := 3, 2
	if th {
		pre = 3
	}
	beh := []string{"0", "1", "3r", "5r", "5", "3!", "9"}
	var a, b []*mc.Scenario
	for i, r := range allRuns(n, beh...) {
		for _, it := range [][2]int{{2, 3}, {3, 1}, {2, 2}} {
			a = append(a, taskScn{rate: true, interval: it[0], timeout: it[1], runs: r, stop: []int{7 + i%3}, pre: pre, cadence: true}.scenario())
		}
	}
	us = append(us, splitScs("cadence", 8, 7, "all sequences of run behaviours (instant, short, long and overlapping, over the timeout with and without reacting, failing)", a)...)
	for _, r := range []string{"0", "1", "3", "3r", "9", "20!"} {
		for stop := 0; stop <= 7; stop++ {
			b = append(b, taskScn{rate: true, interval: 2, timeout: 2, runs: r, stop: []int{stop}, pre: pre + 1, cadence: true}.scenario())
		}
		b = append(b, taskScn{rate: true, interval: 2, timeout: 3, runs: r, stop: []int{2, 3}, pre: pre, cadence: true}.scenario())
	}
	us = append(us, splitScs("stop", 7, 6, "Stop at every instant; two tasks side by side", b)...)
	return us
}

func p24(th bool) []*lib.Unit {
	var us []*lib.Unit
	n, pre := 3, 2
	if th {
		pre = 3
	}
	beh := []string{"0", "1", "2r", "4r", "4", "6!"}
	for _, rate := range []bool{false, true} {
		kind := map[bool]string{false: "delay", true: "rate"}[rate]
		var a, b []*mc.Scenario
		for i, r := range allRuns(n, beh...) {
			for _, it := range [][2]int{{2, 3}, {3, 1}, {2, 2}} {
				a = append(a, taskScn{rate: rate, interval: it[0], timeout: it[1], runs: r, stop: []int{3 + i%6}, observe: true, pre: pre, cancels: true}.scenario())
			}
		}
		us = append(us, splitScs(kind+"/runs", 8, 5, "all sequences of run behaviours, Stop at varying instants", a)...)
		for _, r := range []string{"1", "4", "4r", "9", "4!"} {
			for stop := 0; stop <= 5; stop++ {
				b = append(b, taskScn{rate: rate, interval: 2, timeout: 3, runs: r, stop: []int{stop}, observe: true, pre: pre + 1, cancels: true}.scenario())
			}
			b = append(b, taskScn{rate: rate, interval: 2, timeout: 2, runs: r, stop: []int{1, 3}, observe: true, pre: pre, cancels: true}.scenario())
			b = append(b, taskScn{rate: rate, interval: 2, timeout: 2, runs: r, stop: []int{3}, observe: true, pre: pre, cancels: true, lax: true}.scenario())
		}
		us = append(us, splitScs(kind+"/stop", 8, 4, "Stop at every instant; two tasks side by side; time passing at any moment", b)...)
	}
	return us
}

// ---- P23: life cycle -----------------------------------------------------------------------------------------------

// Programs: S Start, P Stop, M MustStart, Q MustStop, h sleep one unit. A janitor stops the task at 5 units and then
// tries to start it again.
type lifeScn struct {
	rate  bool
	runs  string
	progs []string
	pre   int
}

func (s lifeScn) scenario() *mc.Scenario {
	kind := map[bool]string{false: "delay", true: "rate"}[s.rate]
	iv, to := 2*unit, 3*unit
	return &mc.Scenario{Name: fmt.Sprintf("%s runs %s programs %v", kind, s.runs, s.progs), Preempt: s.pre, Delay: true, Horizon: 40 * unit, Body: func(x *mc.Exec) func() string {
		quiet()
		l := &jobLog{runs: parseRuns(s.runs)}
		t := newTask(s.rate, "task", l.job(false), iv, to)
		call := func(c rune) {
			f := map[rune]func() error{'S': t.Start, 'P': t.Stop, 'M': func() error { t.MustStart(); return nil }, 'Q': func() error { t.MustStop(); return nil }}[c]
			x.Do(string(c), "", func() (res any) {
				defer func() {
					if e := recover(); e != nil {
						if _, ok := e.(error); !ok {
							panic(e)
						}
						res = "panic"
					}
				}()
				if f() != nil {
					return "err"
				}
				return "ok"
			})
		}
		for i, p := range append(append([]string{}, s.progs...), "hhhhhPSMP") {
			x.Go(fmt.Sprint("t", i), func() {
				for _, c := range p {
					if c == 'h' {
						mc.Sleep(unit)
					} else {
						call(c)
					}
				}
			})
		}
		left := ""
		x.Final(func() {
			for _, t := range x.Unfinished(true) {
				left += " " + t.Name()
			}
		})
		return func() string {
			var up, down *mc.Op
			for _, o := range x.Ops() {
				if o.Pending() {
					return o.Name + " never returned"
				}
				if o.RetAt != o.CallAt {
					return o.Name + " waited"
				}
				if o.Res == "ok" {
					if o.Name == "S" || o.Name == "M" {
						up = o
					} else {
						down = o
					}
				}
			}
			if !mc.Linearizable(x.Ops(), 0, func(st int, o *mc.Op) []int {
				bad := "err"
				if o.Name == "M" || o.Name == "Q" {
					bad = "panic"
				}
				from := 0
				if o.Name == "P" || o.Name == "Q" {
					from = 1
				}
				switch {
				case st == from && o.Res == "ok":
					return []int{st + 1}
				case st != from && o.Res == bad:
					return []int{st}
				}
				return nil
			}) {
				return "no order of the calls explains the results"
			}
			if up == nil {
				if len(l.lg.Ev) > 0 {
					return "the task ran although it was never started"
				}
			} else if m := l.checkStarts(s.rate, iv, to, up.CallAt-mc.Epoch0, down.CallAt-mc.Epoch0); m != "" {
				return m
			}
			if left != "" {
				return "goroutines of the task are left although it is stopped and its jobs have ended:" + left
			}
			return ""
		}
	}}
}

func p23(th bool) []*lib.Unit {
	var us []*lib.Unit
	for _, rate := range []bool{false, true} {
		kind := map[bool]string{false: "delay", true: "rate"}[rate]
		var two, three, later []*mc.Scenario
		ps := strs("SPMQ", 1, 2)
		pre := 3
		if th {
			pre = 4
		}
		for i, a := range ps {
			for j, b := range ps[i:] {
				if th || len(a)+len(b) <= 3 {
					two = append(two, lifeScn{rate, []string{"0", "9", "1!"}[(i+j)%3], []string{a, b}, pre}.scenario())
				}
			}
		}
		for i, h := range [][]string{{"S", "S", "P"}, {"S", "M", "P"}, {"S", "P", "Q"}, {"SP", "SP", "SP"}, {"M", "Q", "S"}, {"S", "S", "S"}, {"P", "P", "S"}} {
			three = append(three, lifeScn{rate, []string{"0", "9", "4r"}[i%3], h, pre}.scenario())
		}
		for i, h := range [][]string{{"S", "hP"}, {"S", "hP", "hP"}, {"hS", "hP"}, {"ShPS", "hS"}, {"ShhP", "hhS"}, {"S", "hhhP"}, {"M", "hhQ", "hhP"}, {"ShhhP", "S"}, {"S", "hhhhP"}, {"hM", "hhhS", "hhhQ"}} {
			for _, r := range []string{"0", "9", "4r", "1", "5"} {
				if th || i < 4 || r != "5" {
					later = append(later, lifeScn{rate, r, h, pre}.scenario())
				}
			}
		}
		var slow []*mc.Scenario
		for _, r := range []string{"0", "1", "3", "4r", "1!"} {
			for stop := 1; stop <= 5; stop++ {
				slow = append(slow, taskScn{rate: rate, interval: 2, timeout: 2, runs: r, stop: []int{stop}, lax: true, pre: pre, after: true}.scenario())
			}
			slow = append(slow, taskScn{rate: rate, interval: 2, timeout: 2, runs: r, stop: []int{1}, lax: true, pre: pre + 1, after: true}.scenario())
		}
		us = append(us, splitScs(kind+"/slow", 7, 3, "time passes at any moment: runs that fall due after Stop has returned never begin", slow)...)
		us = append(us, splitScs(kind+"/two", 7, 3, "all pairs of programs over Start, Stop, MustStart, MustStop", two)...)
		us = append(us, splitScs(kind+"/three", 8, 2, "three callers", three)...)
		us = append(us, splitScs(kind+"/later", 8, 3, "calls at later instants, while runs are going on or due", later)...)
	}
	return us
}

// ---- P25: the task manager ---------------------------------------------------------------------------------------------

type fakeTask struct {
	name  string
	id    int
	start string // "ok", "panic" or "bad stop" (starts, but Stop reports an error)
	lg    *mc.Log
}

func (t *fakeTask) Name() string { return t.name }
func (t *fakeTask) Start() error {
	mc.Point()
	t.lg.Add("start", t.id)
	if t.start == "panic" {
		return errors.New("cannot start")
	}
	return nil
}
func (t *fakeTask) MustStart() {
	if err := t.Start(); err != nil {
		panic(err)
	}
}
func (t *fakeTask) Stop() error {
	mc.Point()
	t.lg.Add("stop", t.id)
	if t.start == "bad stop" {
		return errors.New("cannot stop")
	}
	return nil
}
func (t *fakeTask) MustStop() { t.Stop() }

// Programs: a b register a fresh task under name a or b, x a task called a that cannot start,
// y a task called a whose Stop reports an error, 1 2 3 unregister a, b, an
// unknown name, 0 UnregisterAll.
type mgrState struct {
	held             [2]int8 // task id + 1
	started, stopped uint64
}

func mgrScenario(progs []string, pre int) *mc.Scenario {
	return &mc.Scenario{Name: fmt.Sprintf("manager %v", progs), Preempt: pre, Full: pre == 0, Body: func(x *mc.Exec) func() string {
		m := schedule.NewTaskManager()
		var lg mc.Log
		next := 0
		run := func(prog string, first int) {
			id := first
			for _, c := range prog {
				switch c {
				case 'a', 'b', 'x', 'y':
					t := &fakeTask{name: "a", id: id, start: "ok", lg: &lg}
					if c == 'b' {
						t.name = "b"
					}
					if c == 'x' {
						t.start = "panic"
					}
					if c == 'y' {
						t.start = "bad stop"
						c = 'a'
					}
					x.Do(string(c), id, func() (res any) {
						defer func() {
							if e := recover(); e != nil {
								if c != 'x' {
									panic(e)
								}
								res = "failed"
							}
						}()
						if m.Register(t) != nil {
							return "err"
						}
						return "ok"
					})
					id++
				case '1', '2', '3':
					x.Do("unregister", int(c-'1'), func() any { m.Unregister([]string{"a", "b", "c"}[c-'1']); return "" })
				case '0':
					x.Do("all", 0, func() any { m.UnregisterAll(); return "" })
				}
			}
		}
		for i, p := range progs {
			first := next
			next += len(p)
			x.Go(fmt.Sprint("t", i), func() { run(p, first) })
		}
		probe := next
		x.Final(func() { run("ab", probe) })
		return func() string {
			var started, stopped uint64
			fail := map[int]bool{}
			for _, o := range x.Ops() {
				if o.Pending() {
					return fmt.Sprintf("%s(%v) never returned", o.Name, o.Arg)
				}
				if o.Name == "x" {
					fail[o.Arg.(int)] = true
				}
			}
			for _, e := range lg.Ev {
				b := uint64(1) << e.N
				if e.What == "start" {
					if started&b != 0 {
						return fmt.Sprintf("task %d was started twice", e.N)
					}
					started |= b
				} else {
					if stopped&b != 0 {
						return fmt.Sprintf("task %d was stopped twice", e.N)
					}
					stopped |= b
				}
			}
			if !mc.LinearizableTo(x.Ops(), mgrState{}, func(s mgrState, o *mc.Op) []mgrState {
				switch o.Name {
				case "a", "b", "x":
					n := 0
					if o.Name == "b" {
						n = 1
					}
					if s.held[n] != 0 {
						if o.Res == "err" {
							return []mgrState{s}
						}
						return nil
					}
					s.started |= 1 << o.Arg.(int)
					if o.Name == "x" {
						if o.Res == "ok" {
							return nil
						}
						return []mgrState{s}
					}
					if o.Res != "ok" {
						return nil
					}
					s.held[n] = int8(o.Arg.(int) + 1)
				case "unregister":
					n := o.Arg.(int)
					if n < 2 && s.held[n] != 0 {
						s.stopped |= 1 << (s.held[n] - 1)
						s.held[n] = 0
					}
				case "all":
					for n := range s.held {
						if s.held[n] != 0 {
							s.stopped |= 1 << (s.held[n] - 1)
							s.held[n] = 0
						}
					}
				}
				return []mgrState{s}
			}, func(s mgrState) bool { return s.started == started && s.stopped == stopped }) {
				return fmt.Sprintf("no order of the calls explains their results and the starts and stops %s", &lg)
			}
			return ""
		}
	}}
}

// realMgr registers real tasks: programs as above, h sleeps one unit; a janitor unregisters everything at 6 units.
func realMgr(progs []string, pre int) *mc.Scenario {
	return &mc.Scenario{Name: fmt.Sprintf("real tasks %v", progs), Preempt: pre, Delay: true, Horizon: 40 * unit, Body: func(x *mc.Exec) func() string {
		quiet()
		m := schedule.NewTaskManager()
		logs := map[int]*jobLog{}
		next := 0
		for i, p := range append(append([]string{}, progs...), "hhhhhh0") {
			id := next
			next += len(p)
			var ts []schedule.Task
			for j, c := range p {
				l := &jobLog{runs: parseRuns([]string{"0", "1", "5", "3r"}[(i+j)%4])}
				logs[id+j] = l
				n := "a"
				if c == 'b' {
					n = "b"
				}
				ts = append(ts, newTask((i+j)%2 == 1, n, l.job(false), 2*unit, 4*unit))
			}
			x.Go(fmt.Sprint("t", i), func() {
				for j, c := range p {
					switch c {
					case 'h':
						mc.Sleep(unit)
					case 'a', 'b', 'x':
						if c == 'x' { // already started by its owner
							ts[j].Start()
							ts[j].Stop()
						}
						x.Do(string(c), id+j, func() (res any) {
							defer func() {
								if e := recover(); e != nil {
									if c != 'x' {
										panic(e)
									}
									res = "failed"
								}
							}()
							if m.Register(ts[j]) != nil {
								return "err"
							}
							return "ok"
						})
					case '0':
						x.Do("all", -1, func() any { m.UnregisterAll(); return "" })
					default:
						x.Do("unregister", int(c-'1'), func() any { m.Unregister([]string{"a", "b", "c"}[c-'1']); return "" })
					}
				}
			})
		}
		left := ""
		x.Final(func() {
			for _, t := range x.Unfinished(true) {
				left += " " + t.Name()
			}
		})
		return func() string {
			for _, o := range x.Ops() {
				if o.Pending() {
					return fmt.Sprintf("%s(%v) never returned", o.Name, o.Arg)
				}
			}
			// every order of the calls in which the results fit predicts when each task stopped
			type st struct {
				held [2]int8
				ends string // task=instant;
			}
			explained := ""
			if !mc.LinearizableTo(x.Ops(), st{}, func(s st, o *mc.Op) []st {
				stop := func(n int) {
					if s.held[n] != 0 {
						s.ends += fmt.Sprintf("%d=%d;", s.held[n]-1, o.CallAt-mc.Epoch0)
						s.held[n] = 0
					}
				}
				switch o.Name {
				case "a", "b", "x":
					n := 0
					if o.Name == "b" {
						n = 1
					}
					want := "ok"
					if s.held[n] != 0 {
						want = "err"
					} else if o.Name == "x" {
						want = "failed"
					} else {
						s.held[n] = int8(o.Arg.(int) + 1)
						s.ends += fmt.Sprintf("%d<%d;", o.Arg, o.CallAt-mc.Epoch0)
					}
					if o.Res != want && !(want == "failed" && o.Res == "err") {
						return nil
					}
				case "unregister":
					if n := o.Arg.(int); n < 2 {
						stop(n)
					}
				case "all":
					stop(0)
					stop(1)
				}
				return []st{s}
			}, func(s st) bool {
				from, to := map[int]int64{}, map[int]int64{}
				for _, e := range strings.Split(s.ends, ";") {
					var id int
					var at int64
					if n, _ := fmt.Sscanf(e, "%d<%d", &id, &at); n == 2 {
						from[id] = at
					} else if n, _ := fmt.Sscanf(e, "%d=%d", &id, &at); n == 2 {
						to[id] = at
					}
				}
				for _, o := range x.Ops() {
					id, _ := o.Arg.(int)
					if o.Name != "a" && o.Name != "b" {
						continue
					}
					l := logs[id]
					if _, ok := from[id]; !ok {
						if l.n > 0 {
							explained = fmt.Sprintf("task %d ran although it was not registered", id)
							return false
						}
						continue
					}
					i := 0
					off := 0
					for k, p := range append(append([]string{}, progs...), "hhhhhh0") {
						if id >= off && id < off+len(p) {
							i = k + id - off
						}
						off += len(p)
					}
					if m := l.checkStarts(i%2 == 1, 2*unit, 4*unit, from[id], to[id]); m != "" {
						explained = fmt.Sprintf("task %d: %s", id, m)
						return false
					}
				}
				return true
			}) {
				return "no order of the calls explains their results and the runs: " + explained
			}
			if left != "" {
				return "goroutines are left although every task is stopped:" + left
			}
			return ""
		}
	}}
}

func p25(th bool) []*lib.Unit {
	var us []*lib.Unit
	var two, three, re []*mc.Scenario
	hi := 2
	if th {
		hi = 3
	}
	ps := strs("abx1023", 1, hi)
	for i, a := range ps {
		for _, b := range ps[i:] {
			if len(a)+len(b) <= hi+2 && !(th && len(a)+len(b) > 4 && strings.ContainsAny(a+b, "23")) {
				two = append(two, mgrScenario([]string{a, b}, 0))
			}
		}
	}
	for _, p := range [][]string{{"yb0"}, {"y1"}, {"y0"}, {"yb10"}, {"yb", "0"}, {"y", "b0"}, {"y1", "a"}, {"y", "1", "0"}, {"y0", "b1"}} {
		two = append(two, mgrScenario(p, 0))
	}
	us = append(us, splitScs("two", 7, 6, fmt.Sprintf("all pairs of programs of up to %d calls", hi), two)...)
	one := strs("abx10", 1, 1)
	for i, a := range one {
		for j, b := range one[i:] {
			for _, c := range append(strs("abx10", 1, 1), "a1", "1a", "a0", "b0", "x1", "xa", "ab") {
				_ = j
				three = append(three, mgrScenario([]string{a, b, c}, 0))
			}
		}
	}
	us = append(us, splitScs("three", 8, 6, "three callers", three)...)
	pre := 3
	if th {
		pre = 4
	}
	for _, p := range [][]string{{"a"}, {"a", "a"}, {"ahhh1", "hha"}, {"a", "b"}, {"ah1a"}, {"a", "hh1", "hha"}, {"ab", "hh0", "hha"}, {"xa", "x"}, {"ahax", "hhh1"}, {"axh1xhb", "b"}, {"bhhh2", "ahhh1"}} {
		re = append(re, realMgr(p, pre))
	}
	us = append(us, splitScs("real", 8, 7, "real tasks: runs begin and stop with registration", re)...)
	return us
}

func init() {
	as := "time stands still while anything can run, except in the units called slow; a run that coincides with Stop may or may not begin; jobs do not panic"
	lib.Register("P21", with(p21, scaleTasks(false, true)), as)
	lib.Register("P22", with(p22, scaleTasks(true, true)), as)
	lib.Register("P23", p23, as)
	lib.Register("P24", with(p24, scaleTasks(false, false), scaleTasks(true, false)), as)
	lib.Register("P25", with(p25, scaleP25), as)
}
