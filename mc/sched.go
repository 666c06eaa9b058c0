//go:build go1.22

// Package mc is a stateless model checker for Go code that has been rewritten by tools/instr: a cooperative
// scheduler that owns every synchronisation operation, the clock and the timers, an exhaustive bounded explorer on top
// of it, and a vector clock data race detector.
package mc

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"unsafe"
)

// Epoch0 is the virtual time (unix nanoseconds) at which every execution starts, unless the scenario sets another.
const Epoch0 int64 = 1721600000000000000

type tstate uint8

const (
	tRunnable tstate = iota
	tBlocked         // enabled when pred() is true
	tParked          // enabled when somebody readies it
	tDone
)

// Thread is one controlled goroutine.
type Thread struct {
	id     int
	name   string
	lib    bool // spawned by the code under test
	wake   chan struct{}
	exited chan struct{}
	st     tstate
	pred   func() bool
	why    string
	vc     []uint32
	h      uint64
	nops   int
	par    bool // timers etc. resumed
	w      *waiter
}

// Name of the thread.
func (t *Thread) Name() string { return t.name }

// Lib tells whether the thread was spawned by the code under test.
func (t *Thread) Lib() bool { return t.lib }

// Why the thread is blocked.
func (t *Thread) Why() string { return t.why }

type choice struct {
	chosen int
	n      int
	cost   []uint8 // nil: all free
}

// obj is the model-checking identity of a synchronisation object.
type obj struct {
	ep uint64 // execution it belongs to
	h  uint64
	vc []uint32
}

type timer struct {
	when   int64
	seq    int
	period int64
	fire   func(x *Exec)
	active bool
	vc     []uint32
	h      uint64
	name   string
}

// Violation is one property violation.
type Violation struct {
	Kind string
	Msg  string
}

func (v *Violation) String() string { return v.Kind + ": " + v.Msg }

// Exec is one execution.
type Exec struct {
	ep      uint64
	sc      *Scenario
	threads []*Thread
	cur     *Thread // the thread operations are attributed to (a pseudo thread while a timer fires)
	running *Thread // the thread whose goroutine is executing

	prefix  []int
	stack   []choice
	used    int
	bound   int
	ex      *Explorer
	dead    bool
	over    bool
	pruned  bool
	diverge bool
	aborted string // "", "horizon"
	done    chan struct{}

	now    int64
	end    int64 // no timer later than this fires
	timers []*timer
	tseq   int
	envH   uint64
	retSum uint64

	chans map[unsafe.Pointer]*chanState
	atoms map[unsafe.Pointer]*obj
	cells map[uintptr]*cell
	keep  map[unsafe.Pointer]struct{}

	viol    *Violation
	steps   int
	spin    int
	lastRun int
	trace   []string
	tracing bool
	started bool
	skip    bool // the next scheduling point is merged with the operation's call

	pend       []pending
	finals     []func()
	allowBlock bool
	clockMoves bool
	ops        []*Op
	hseq       int
	notes      []string
}

var (
	curX    *Exec
	epochN  uint64 = 1
	dirNow  int64  = Epoch0
	dirEnd  []*timer
	dirTseq int
	resets  []func()
)

// RegisterReset registers a function that re-initialises package level state of rewritten code.
func RegisterReset(f func()) { resets = append(resets, f) }

// ResetPackages re-runs the package level initialisation of all rewritten packages (direct mode).
func ResetPackages() {
	for _, f := range resets {
		f()
	}
}

// Zero resets *p.
func Zero[T any](p *T) { var z T; *p = z }

func mix(a, b uint64) uint64 {
	a ^= b + 0x9e3779b97f4a7c15 + (a << 6) + (a >> 2)
	a ^= a >> 33
	a *= 0xff51afd7ed558ccd
	a ^= a >> 33
	a *= 0xc4ceb9fe1a85ec53
	a ^= a >> 33
	return a
}

func hstr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

func joinVC(a, b []uint32) []uint32 {
	for len(a) < len(b) {
		a = append(a, 0)
	}
	for i, v := range b {
		if v > a[i] {
			a[i] = v
		}
	}
	return a
}

func cloneVC(a []uint32) []uint32 { return append([]uint32(nil), a...) }

func (t *Thread) clk() uint32 {
	if t.id < 0 {
		return 0
	}
	for len(t.vc) <= t.id {
		t.vc = append(t.vc, 0)
	}
	return t.vc[t.id]
}

func (t *Thread) tick() {
	if t.id < 0 {
		return
	}
	t.clk()
	t.vc[t.id]++
}

// ---- object events -------------------------------------------------------------------------------------------------

func (x *Exec) fresh(o *obj) {
	if o.ep != x.ep {
		o.ep = x.ep
		o.vc = nil
		t := x.cur
		o.h = mix(t.h, 0x1234567+uint64(t.nops))
	}
}

// evW: the running thread performs an ordered operation on o.
func (x *Exec) evW(o *obj, kind uint64) {
	t := x.cur
	t.nops++
	h := mix(mix(t.h, o.h), kind)
	t.h = h
	o.h = mix(h, 77)
}

// evR: the running thread performs an operation on o that does not change it.
func (x *Exec) evR(o *obj, kind uint64) {
	t := x.cur
	t.nops++
	t.h = mix(mix(t.h, o.h), kind)
}

// evL: thread-local nondeterministic answer.
func (x *Exec) evL(v uint64) {
	t := x.cur
	t.nops++
	t.h = mix(t.h, v)
}

func (x *Exec) acquire(o *obj) { x.cur.vc = joinVC(x.cur.vc, o.vc) }
func (x *Exec) release(o *obj) {
	o.vc = joinVC(o.vc, x.cur.vc)
	x.cur.tick()
}

// ---- threads -------------------------------------------------------------------------------------------------------

func (x *Exec) newThread(name string, lib bool, f func()) *Thread {
	if n := max(200, x.sc.MaxSteps/50); len(x.threads) > n && x.cur != nil {
		x.fail("livelock", fmt.Sprintf("more than %d goroutines were started in one execution", n))
	}
	t := &Thread{id: len(x.threads), name: name, lib: lib, wake: make(chan struct{}, 1), exited: make(chan struct{})}
	x.threads = append(x.threads, t)
	if p := x.cur; p != nil {
		t.vc = cloneVC(p.vc)
		p.tick()
		p.nops++
		t.h = mix(p.h, 0xabc+uint64(p.nops))
		p.h = mix(p.h, 0xdef)
	} else {
		t.h = mix(0x55, uint64(t.id))
	}
	t.tick()
	go func() {
		defer close(t.exited)
		<-t.wake
		if x.dead {
			return
		}
		defer func() {
			if x.dead {
				recover()
				return
			}
			if r := recover(); r != nil {
				x.setViol("panic", fmt.Sprintf("goroutine %s: %v\n%s", t.name, r, trimStack(debug.Stack())))
				t.st = tDone
				x.finish()
				return
			}
			t.st = tDone
			x.trc(t, "ends")
			x.schedule(t)
		}()
		f()
	}()
	return t
}

func trimStack(b []byte) string {
	ls := strings.Split(string(b), "\n")
	out := []string{}
	for i := 0; i < len(ls); i++ {
		if strings.Contains(ls[i], "zverif/mc") || strings.Contains(ls[i], "runtime/debug") || strings.Contains(ls[i], "src/runtime/") {
			continue
		}
		if strings.HasPrefix(ls[i], "\t") {
			out = append(out, strings.TrimSpace(ls[i]))
		}
		if len(out) > 8 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// Go starts a controlled goroutine (rewritten `go` statements).
func Go(loc string, f func()) {
	x := curX
	if x == nil {
		panic("mc: go statement outside an execution (" + loc + ")")
	}
	if x.dead {
		return
	}
	x.trc(x.cur, "go "+loc)
	x.newThread("go@"+loc, true, f)
}

func (x *Exec) trc(t *Thread, what string) {
	if x.tracing {
		n := "env"
		if t != nil {
			n = fmt.Sprintf("%d(%s)", t.id, t.name)
		}
		x.trace = append(x.trace, fmt.Sprintf("[%s] t=+%dns %s", n, x.now-x.sc.start(), what))
	}
}

func (x *Exec) setViol(kind, msg string) {
	if x.viol == nil {
		x.viol = &Violation{kind, msg}
	}
}

// fail records a violation and stops the execution.
func (x *Exec) fail(kind, msg string) {
	x.setViol(kind, msg)
	x.finish()
	x.parkForever()
}

func (x *Exec) parkForever() {
	<-x.running.wake
	runtime.Goexit()
}

func (x *Exec) finish() {
	if !x.over {
		x.over = true
		close(x.done)
	}
}

// point is called by the running thread before a visible operation.
func (x *Exec) point(what string) {
	if x.dead {
		runtime.Goexit()
	}
	if x.skip {
		x.skip = false
		return
	}
	x.trc(x.cur, what)
	x.cur.h = mix(x.cur.h, 0x51) // the thread has moved on to this point
	x.schedule(x.cur)
}

// blockUntil makes the running thread wait for pred.
func (x *Exec) blockUntil(what string, pred func() bool) {
	if x.dead {
		runtime.Goexit()
	}
	t := x.cur
	if x.skip {
		x.skip = false
		if pred() {
			return
		}
	}
	x.trc(t, what)
	t.st = tBlocked
	t.pred = pred
	t.why = what
	x.schedule(t)
	t.st = tRunnable
	t.pred = nil
	t.why = ""
}

// park makes the running thread wait until somebody calls ready.
func (x *Exec) park(what string) {
	if x.dead {
		runtime.Goexit()
	}
	t := x.cur
	x.trc(t, "parks: "+what)
	t.st = tParked
	t.why = what
	x.schedule(t)
	t.why = ""
}

func (x *Exec) ready(t *Thread) {
	if t.st == tParked {
		t.st = tRunnable
	}
}

func (t *Thread) enabled() bool {
	switch t.st {
	case tRunnable:
		return true
	case tBlocked:
		return t.pred()
	}
	return false
}

// schedule decides who runs next; self is the calling thread.
func (x *Exec) schedule(self *Thread) {
	if x.over {
		if self.st == tDone {
			return
		}
		x.parkForever()
	}
	for {
		x.steps++
		if x.ex != nil {
			x.ex.Transitions++
			x.ex.Progress.Add(1)
			if x.ex.expired() {
				x.aborted = "deadline"
				x.finish()
				if self.st == tDone {
					return
				}
				x.parkForever()
			}
		}
		if x.steps > x.sc.maxSteps() {
			x.aborted = "horizon"
			x.setViol("livelock", fmt.Sprintf("the execution did not come to rest within %d steps; running: %s", x.steps, x.liveNames()))
			x.finish()
			if self.st == tDone {
				return
			}
			x.parkForever()
		}
		var alts [64]*Thread
		var talts [8]*timer
		na, nt := 0, 0
		selfEn := self.st != tDone && self.enabled()
		forced := selfEn && x.spin > 300
		if selfEn && !forced {
			alts[0] = self
			na = 1
		}
		for _, t := range x.threads {
			if t == self && (selfEn && !forced) {
				continue
			}
			if t == self && forced {
				continue
			}
			if na < len(alts) && t.st != tDone && t.enabled() {
				alts[na] = t
				na++
			}
		}
		if forced {
			if na == 0 { // a lone spinner: let time pass
				x.spin = 0
				if !x.advanceNext(true) {
					x.moveClock(1000000)
				}
				alts[0] = self
				na = 1
			} else {
				// round robin among the others
				k := (x.lastRun + 1) % na
				alts[0] = alts[k]
				na = 1
			}
		}
		// due timers behave like enabled threads
		for _, tm := range x.timers {
			if tm.active && tm.when <= x.now && nt < len(talts) {
				talts[nt] = tm
				nt++
			}
		}
		lax := 0
		if nt == 0 {
			if na == 0 {
				if x.advanceNext(false) {
					continue
				}
				if x.startFinal() {
					continue
				}
				// quiescent
				x.finish()
				if self.st == tDone {
					return
				}
				x.parkForever()
			} else if x.sc.Lax && !forced && x.nextWhen() <= x.end {
				lax = 1
			}
		}
		n := na + nt + lax
		idx := 0
		if n > 1 {
			var cost []uint8
			if !x.sc.Full && ((selfEn && !forced) || lax == 1 || x.sc.Delay) {
				cost = make([]uint8, n)
				for i := 1; i < n; i++ {
					if selfEn || x.sc.Delay {
						cost[i] = 1
					}
				}
				if lax == 1 {
					cost[n-1] = 1
				}
			}
			id := -1
			if selfEn {
				id = self.id
			}
			if x.tryPrune(id) {
				if self.st == tDone {
					return
				}
				x.parkForever()
			}
			idx = x.pick(n, cost)
			if x.over {
				if self.st == tDone {
					return
				}
				x.parkForever()
			}
		}
		if idx >= na+nt { // time passes although threads could run
			x.trc(nil, "time passes early")
			x.advanceNext(true)
			continue
		}
		if idx >= na {
			x.fireTimer(talts[idx-na])
			continue
		}
		next := alts[idx]
		if next == self {
			x.spin++
			return
		}
		x.spin = 0
		x.lastRun = idx
		x.cur = next
		x.running = next
		next.wake <- struct{}{}
		if self.st == tDone {
			return
		}
		<-self.wake
		if x.dead {
			runtime.Goexit()
		}
		return
	}
}

func (x *Exec) liveNames() string {
	s := []string{}
	for _, t := range x.threads {
		if t.st != tDone && t.enabled() {
			s = append(s, t.name)
		}
	}
	return strings.Join(s, ",")
}

func (x *Exec) fingerprint() uint64 {
	var s uint64
	for _, t := range x.threads {
		s += mix(t.h, uint64(t.st)+31)
	}
	return mix(mix(s, x.envH), uint64(x.now)) + mix(x.retSum, 3)
}

func (x *Exec) tryPrune(curID int) bool {
	if x.ex == nil || len(x.stack) < len(x.prefix) {
		return false
	}
	if x.sc.Full {
		curID = -2
	}
	key := mix(x.fingerprint(), uint64(curID)+1000)
	rem := uint8(x.bound-x.used) + 1
	old, seen := x.ex.cache[key]
	if seen && old >= rem {
		x.pruned = true
		x.finish()
		return true
	}
	if !seen {
		x.ex.States++
	}
	if seen || len(x.ex.cache) < x.ex.CacheCap {
		x.ex.cache[key] = rem
	}
	return false
}

// pick makes a choice among n alternatives with the given costs.
func (x *Exec) pick(n int, cost []uint8) int {
	i := len(x.stack)
	c := 0
	if i < len(x.prefix) {
		c = x.prefix[i]
		if c >= n {
			x.diverge = true
			x.finish()
			c = 0
		}
	}
	x.stack = append(x.stack, choice{chosen: c, n: n, cost: cost})
	if cost != nil {
		x.used += int(cost[c])
	}
	if x.tracing {
		x.trace = append(x.trace, fmt.Sprintf("    choice #%d: %d of %d", i, c, n))
	}
	return c
}

// Choose is a free nondeterministic choice of 0..n-1, explored exhaustively.
func Choose(n int) int {
	x := curX
	if n <= 1 || x == nil || x.dead {
		return 0
	}
	c := x.pick(n, nil)
	if x.over {
		x.parkForever()
	}
	x.evL(uint64(c) + 0x9000)
	return c
}

// Point is a scheduling point without an operation (runtime.Gosched).
func Point() {
	if x := curX; x != nil {
		x.point("yield")
		x.evL(0x7777)
	}
}

// Block blocks for ever (select {}).
func Block() {
	x := curX
	if x == nil {
		panic("mc: blocks for ever in sequential code")
	}
	x.park("select{}")
}

// ---- time ----------------------------------------------------------------------------------------------------------

// NowNano is the virtual time.
func NowNano() int64 {
	x := curX
	if x == nil {
		return dirNow
	}
	if !x.dead && (x.clockMoves || x.sc.Lax) {
		x.point("time.Now")
	}
	if !x.dead {
		x.evL(uint64(x.now) ^ 0x11)
	}
	return x.now
}

// PeekNano reads the virtual time without a scheduling point (for oracles).
func PeekNano() int64 {
	if x := curX; x != nil {
		return x.now
	}
	return dirNow
}

// SetNow sets the virtual time in direct mode.
func SetNow(ns int64) { dirNow = ns }

// Advance moves the virtual time. Inside an execution it is a visible operation of the calling thread.
func Advance(d int64) {
	x := curX
	if x == nil {
		dirNow += d
		return
	}
	x.point(fmt.Sprintf("advance %d", d))
	x.moveClock(d)
	x.evL(uint64(x.now) ^ 0x22)
}

func (x *Exec) moveClock(d int64) {
	x.now += d
	x.envH = mix(x.envH, uint64(x.now))
}

func (x *Exec) addTimer(d int64, period int64, name string, fire func(x *Exec)) *timer {
	x.tseq++
	if d < 0 {
		d = 0
	}
	when := x.now + d
	if when < x.now {
		when = 1<<63 - 1
	}
	tm := &timer{when: when, seq: x.tseq, period: period, fire: fire, active: true, name: name}
	tm.vc = cloneVC(x.cur.vc)
	x.cur.tick()
	x.cur.nops++
	tm.h = mix(x.cur.h, 0x7001)
	x.cur.h = mix(x.cur.h, 0x7002)
	x.timers = append(x.timers, tm)
	return tm
}

func (x *Exec) dropTimer(tm *timer) {
	tm.active = false
	for i, o := range x.timers {
		if o == tm {
			x.timers = append(x.timers[:i], x.timers[i+1:]...)
			break
		}
	}
}

func (x *Exec) nextWhen() int64 {
	best := int64(1<<63 - 1)
	for _, tm := range x.timers {
		if tm.active && tm.when < best {
			best = tm.when
		}
	}
	return best
}

// advanceNext lets time pass to the next timer expiry. It reports false when there is none within the horizon.
func (x *Exec) advanceNext(force bool) bool {
	best := x.nextWhen()
	if best > x.end || best == 1<<63-1 {
		return false
	}
	if best > x.now {
		x.now = best
		x.envH = mix(x.envH, uint64(x.now))
		x.trc(nil, "time advances")
	}
	return true
}

func (x *Exec) fireTimer(tm *timer) {
	x.trc(nil, "timer fires: "+tm.name)
	// the timer runs in the context of a pseudo thread
	env := &Thread{id: 0, name: "timer", vc: cloneVC(tm.vc), h: mix(tm.h, uint64(x.now))}
	env.id = -1
	saved := x.cur
	if tm.period > 0 {
		tm.when += tm.period
		tm.h = mix(tm.h, 5)
		// keep firing order stable
		sort.SliceStable(x.timers, func(i, j int) bool { return x.timers[i].when < x.timers[j].when })
	} else {
		x.dropTimer(tm)
	}
	x.cur = env
	tm.fire(x)
	x.envH += mix(env.h, 99)
	x.cur = saved
}
