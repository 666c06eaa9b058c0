//go:build go1.22

package mc

import (
	"fmt"
	"slices"
	"sort"
	"strings"
	"sync/atomic"
	"time"
	"unsafe"
)

type pending struct {
	name string
	f    func()
}

// Scenario is a closed driver for the code under test.
type Scenario struct {
	Name       string
	Preempt    int           // preemption bound
	Full       bool          // no preemption bound: every schedule
	Delay      bool          // the bound counts every deviation from a fixed schedule, also where the running thread blocks
	Lax        bool          // time may pass while threads are runnable (each such step costs one deviation)
	MaxSteps   int           // horizon in scheduler steps
	Horizon    time.Duration // no timer later than this fires (default one hour)
	Start      int64         // start of the virtual clock
	ClockMoves bool          // some thread moves the clock: reading it is a visible operation
	Weight     int           // relative cost, for work distribution
	// Body builds the objects, registers threads with x.Go and returns the oracle that is evaluated (in direct mode)
	// when the execution has come to rest.
	Body func(x *Exec) (check func() string)
}

func (s *Scenario) start() int64 {
	if s.Start != 0 {
		return s.Start
	}
	return Epoch0
}

func (s *Scenario) maxSteps() int {
	if s.MaxSteps != 0 {
		return s.MaxSteps
	}
	return 20000
}

// Explorer enumerates the executions of one scenario.
type Explorer struct {
	Sc          *Scenario
	Deadline    time.Time
	CacheCap    int
	cache       map[uint64]uint8
	States      int
	Transitions int
	Executions  int
	Pruned      int
	Diverged    int
	MaxDepth    int
	BoundDone   int // highest preemption bound that was completed (-1: none)
	Unconfirmed int
	Outcomes    map[string]int
	Progress    atomic.Int64
	timeCheck   int
	timedOut    bool
}

func (e *Explorer) expired() bool {
	e.timeCheck++
	if e.timeCheck&1023 == 0 && !e.Deadline.IsZero() && time.Now().After(e.Deadline) {
		e.timedOut = true
	}
	return e.timedOut
}

// Found is a confirmed violation.
type Found struct {
	Viol    *Violation
	Choices []int
	Trace   []string
	Bound   int
}

// Go registers a harness thread; it starts when Body has returned.
func (x *Exec) Go(name string, f func()) { x.pend = append(x.pend, pending{name, f}) }

// Final registers a function that runs (as a thread) once everything else has come to rest.
func (x *Exec) Final(f func()) { x.finals = append(x.finals, f) }

// AllowBlocked: harness threads may be blocked when the execution comes to rest.
func (x *Exec) AllowBlocked() { x.allowBlock = true }

// Fail reports a violation from inside a harness thread.
func (x *Exec) Fail(format string, a ...any) {
	if x.dead {
		return
	}
	x.fail("oracle", fmt.Sprintf(format, a...))
}

// Note adds to the observable outcome of the execution.
func (x *Exec) Note(format string, a ...any) { x.notes = append(x.notes, fmt.Sprintf(format, a...)) }

// Now is the virtual time since the start of the execution.
func (x *Exec) Now() time.Duration { return time.Duration(x.now - x.sc.start()) }

// Unfinished lists the threads that had not ended when the execution came to rest.
func (x *Exec) Unfinished(lib bool) []*Thread {
	var out []*Thread
	for _, t := range x.threads {
		if t.st != tDone && t.lib == lib {
			out = append(out, t)
		}
	}
	return out
}

// ThreadStats: number of threads the code under test started.
func (x *Exec) LibThreads() int {
	n := 0
	for _, t := range x.threads {
		if t.lib {
			n++
		}
	}
	return n
}

func (x *Exec) startFinal() bool {
	if len(x.finals) == 0 {
		return false
	}
	f := x.finals[0]
	x.finals = x.finals[1:]
	x.end = x.now // no more timers
	saved := x.cur
	x.cur = x.threads[0]
	t := x.newThread("final", false, f)
	for _, o := range x.threads {
		t.vc = joinVC(t.vc, o.vc)
		t.h = mix(t.h, o.h)
	}
	t.tick()
	x.cur = saved
	return true
}

func (e *Explorer) run(prefix []int, bound int, tracing bool) *Exec {
	curX = nil
	e.Progress.Add(1)
	ResetPackages()
	epochN++
	x := &Exec{ep: epochN, sc: e.Sc, prefix: prefix, bound: bound, ex: e, done: make(chan struct{}),
		chans: map[unsafe.Pointer]*chanState{}, atoms: map[unsafe.Pointer]*obj{}, cells: map[uintptr]*cell{},
		keep: map[unsafe.Pointer]struct{}{}, tracing: tracing, clockMoves: e.Sc.ClockMoves}
	if tracing {
		x.ex = &Explorer{Sc: e.Sc, cache: map[uint64]uint8{}, CacheCap: 0}
		x.ex.cache = nil
		x.ex = nil
	}
	x.now = e.Sc.start()
	h := e.Sc.Horizon
	if h == 0 {
		h = time.Hour
	}
	x.end = x.now + int64(h)
	curX = x
	x.started = true
	var check func() string
	t0 := x.newThread("main", false, func() {
		check = e.Sc.Body(x)
		for _, p := range x.pend {
			x.newThread(p.name, false, p.f)
		}
	})
	x.cur = t0
	x.running = t0
	t0.wake <- struct{}{}
	<-x.done
	x.dead = true
	for i := 0; i < len(x.threads); i++ {
		t := x.threads[i]
		select {
		case t.wake <- struct{}{}:
		default:
		}
		<-t.exited
	}
	if x.viol == nil && !x.pruned && !x.diverge && x.aborted == "" {
		if !x.allowBlock {
			for _, t := range x.Unfinished(false) {
				x.setViol("deadlock", fmt.Sprintf("thread %s is blocked for ever in %s; threads: %s", t.name, t.why, x.threadDump()))
			}
		}
		if x.viol == nil && check != nil {
			curX = nil
			if msg := safeCheck(check); msg != "" {
				x.setViol("oracle", msg+x.History())
			}
		}
	}
	curX = nil
	return x
}

func safeCheck(f func() string) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprintf("panic in the final check: %v", r)
		}
	}()
	return f()
}

func (x *Exec) threadDump() string {
	s := []string{}
	for _, t := range x.threads {
		if t.st != tDone {
			s = append(s, fmt.Sprintf("%s blocked in %q", t.name, t.why))
		}
	}
	return strings.Join(s, "; ")
}

func (x *Exec) choices() []int {
	out := make([]int, len(x.stack))
	for i, c := range x.stack {
		out[i] = c.chosen
	}
	return out
}

// Explore enumerates all executions with at most Preempt preemptions, lowest bounds first.
func (e *Explorer) Explore() *Found {
	e.cache = map[uint64]uint8{}
	if e.CacheCap == 0 {
		e.CacheCap = 12000000
	}
	e.Outcomes = map[string]int{}
	e.BoundDone = -1
	if e.Sc.Full {
		f, complete := e.exploreBound(100)
		if complete {
			e.BoundDone = e.Sc.Preempt
		}
		return f
	}
	for b := 0; b <= e.Sc.Preempt; b++ {
		f, complete := e.exploreBound(b)
		if f != nil {
			return f
		}
		if !complete {
			return nil
		}
		e.BoundDone = b
	}
	return nil
}

func (e *Explorer) exploreBound(b int) (*Found, bool) {
	prefix := []int{}
	for {
		x := e.run(prefix, b, false)
		if len(x.stack) > e.MaxDepth {
			e.MaxDepth = len(x.stack)
		}
		if x.aborted == "deadline" {
			return nil, false
		}
		switch {
		case x.diverge:
			e.Diverged++
		case x.viol != nil:
			if f := e.confirm(x, b); f != nil {
				return f, false
			}
			e.Unconfirmed++
		case x.pruned:
			e.Pruned++
		default:
			e.Executions++
			if len(e.Outcomes) < 5000 {
				e.Outcomes[x.outcomeString()]++
			}
		}
		// next prefix
		st := x.stack
		used := 0
		costs := make([]int, len(st)+1)
		for i, c := range st {
			costs[i] = used
			if c.cost != nil {
				used += int(c.cost[c.chosen])
			}
		}
		next := -1
		alt := 0
	search:
		for i := len(st) - 1; i >= 0; i-- {
			for j := st[i].chosen + 1; j < st[i].n; j++ {
				c := 0
				if st[i].cost != nil {
					c = int(st[i].cost[j])
				}
				if costs[i]+c <= b {
					next, alt = i, j
					break search
				}
			}
		}
		if next < 0 {
			return nil, true
		}
		np := make([]int, next+1)
		for i := 0; i < next; i++ {
			np[i] = st[i].chosen
		}
		np[next] = alt
		prefix = np
	}
}

func (e *Explorer) confirm(x *Exec, b int) *Found {
	ch := x.choices()
	var last *Exec
	for i := 0; i < 5; i++ {
		y := e.run(ch, b, true)
		if y.viol == nil || y.viol.Kind != x.viol.Kind {
			return nil
		}
		last = y
	}
	return &Found{Viol: last.viol, Choices: ch, Trace: last.trace, Bound: b}
}

// Replay runs one recorded schedule.
func Replay(sc *Scenario, choices []int) (*Violation, []string) {
	e := &Explorer{Sc: sc}
	x := e.run(choices, 1000, true)
	return x.viol, x.trace
}

// ---- histories -----------------------------------------------------------------------------------------------------

// Op is one operation of a concurrent history.
type Op struct {
	Thread    int
	Name      string
	Arg       any
	Res       any
	Call, Ret int // positions; Ret is -1 while pending
	CallAt    int64
	RetAt     int64
}

// Pending: the operation never returned.
func (o *Op) Pending() bool { return o.Ret < 0 }

func (o *Op) String() string {
	r := "?"
	if o.Ret >= 0 {
		r = fmt.Sprint(o.Res)
	}
	return fmt.Sprintf("T%d %s(%v)=%s[%d,%d]", o.Thread, o.Name, o.Arg, r, o.Call, o.Ret)
}

// Begin starts an operation of the history.
func (x *Exec) Begin(name string, arg any) *Op {
	if x.dead {
		x.point("")
	}
	x.point("call " + name)
	t := x.cur
	x.hseq++
	op := &Op{Thread: t.id, Name: name, Arg: arg, Call: x.hseq, Ret: -1, CallAt: x.now}
	x.ops = append(x.ops, op)
	t.nops++
	t.h = mix(mix(t.h, x.retSum), hstr(name)+0x4001)
	x.skip = true
	return op
}

// End records the result of an operation.
func (x *Exec) End(op *Op, res any) {
	if x.dead {
		x.point("")
	}
	t := x.cur
	op.Res = res
	x.skip = false
	x.hseq++
	op.Ret = x.hseq
	op.RetAt = x.now
	t.nops++
	t.h = mix(t.h, hstr(fmt.Sprint(op.Res))+0x4002)
	x.retSum += mix(t.h, 0x4003)
	if x.tracing {
		x.trc(t, fmt.Sprintf("%s(%v) returns %v", op.Name, op.Arg, op.Res))
	}
}

// Do runs f as an operation of the history.
func (x *Exec) Do(name string, arg any, f func() any) any {
	op := x.Begin(name, arg)
	x.End(op, f())
	return op.Res
}

// Ops is the history so far.
func (x *Exec) Ops() []*Op { return x.ops }

// History formats the history.
func (x *Exec) History() string {
	if len(x.ops) == 0 {
		return ""
	}
	s := []string{}
	for _, o := range x.ops {
		s = append(s, o.String())
	}
	return "\nhistory: " + strings.Join(s, "; ")
}

func (x *Exec) outcomeString() string {
	s := []string{}
	for _, o := range x.ops {
		s = append(s, fmt.Sprintf("%d%s%v", o.Thread, o.Name, o.Res))
	}
	sort.Strings(s)
	return strings.Join(s, ",") + "|" + strings.Join(x.notes, ",")
}

// Log is an ordered event log shared by the threads; appending is an ordered operation (no scheduling point).
type Log struct {
	o  obj
	Ev []Event
}

// Event of a Log.
type Event struct {
	At     time.Duration
	Thread int
	What   string
	N      int
}

// Add appends an event.
func (l *Log) Add(what string, n int) {
	x := curX
	if x == nil || x.dead {
		return
	}
	x.fresh(&l.o)
	x.evW(&l.o, hstr(what)+uint64(n))
	l.Ev = append(l.Ev, Event{x.Now(), x.cur.id, what, n})
	x.trc(x.cur, fmt.Sprintf("log %s %d", what, n))
}

func (l *Log) String() string {
	s := []string{}
	for _, e := range l.Ev {
		s = append(s, fmt.Sprintf("%v:%s#%d", e.At, e.What, e.N))
	}
	return strings.Join(s, " ")
}

// Linearizable decides by brute force whether the history has a legal sequential order that respects real time. step
// applies an operation to a state and tells whether its recorded result is legal (for pending operations any result is).
func Linearizable[S comparable](ops []*Op, init S, step func(s S, o *Op) []S) bool {
	return LinearizableTo(ops, init, step, nil)
}

// LinearizableTo also requires that the order ends in a state that final accepts.
func LinearizableTo[S comparable](ops []*Op, init S, step func(s S, o *Op) []S, final func(S) bool) bool {
	type key struct {
		mask uint64
		s    S
	}
	seen := map[key]bool{}
	full := uint64(0)
	for i, o := range ops {
		if !o.Pending() {
			full |= 1 << uint(i)
		}
	}
	var rec func(mask uint64, s S) bool
	rec = func(mask uint64, s S) bool {
		if mask&full == full && (final == nil || final(s)) {
			return true
		}
		k := key{mask, s}
		if seen[k] {
			return false
		}
		seen[k] = true
		minRet := int(1 << 30)
		for i, o := range ops {
			if mask&(1<<uint(i)) == 0 && !o.Pending() && o.Ret < minRet {
				minRet = o.Ret
			}
		}
		for i, o := range ops {
			if mask&(1<<uint(i)) != 0 || o.Call > minRet {
				continue
			}
			for _, ns := range step(s, o) {
				if rec(mask|1<<uint(i), ns) {
					return true
				}
			}
		}
		return false
	}
	return rec(0, init)
}

// MapIter iterates over a map in an order chosen by the explorer: all orders up to six keys (four choices at each step),
// the 2n cyclic orders of the sorted keys, forwards and backwards, for larger maps.
type MapIter[K comparable, V any] struct {
	m    map[K]V
	keys []K
	K    K
	V    V
	loc  string
	big  bool
}

// NewMapIter starts an iteration (rewritten range statements).
func NewMapIter[M ~map[K]V, K comparable, V any](m M, loc string) *MapIter[K, V] {
	it := &MapIter[K, V]{m: m, loc: loc}
	MapR(m, loc)
	for k := range m {
		it.keys = append(it.keys, k)
	}
	sort.Slice(it.keys, func(i, j int) bool { return fmt.Sprint(it.keys[i]) < fmt.Sprint(it.keys[j]) })
	if n := len(it.keys); n > 6 {
		it.big = true
		c := Choose(2 * n)
		it.keys = append(it.keys[c/2:n:n], it.keys[:c/2]...)
		if c%2 == 1 {
			slices.Reverse(it.keys)
		}
	}
	return it
}

// Next advances the iteration.
func (it *MapIter[K, V]) Next() bool {
	for len(it.keys) > 0 {
		i := 0
		if n := len(it.keys); n > 1 && !it.big {
			if n > 4 {
				n = 4
			}
			i = Choose(n)
		}
		k := it.keys[i]
		it.keys = append(it.keys[:i:i], it.keys[i+1:]...)
		MapR(it.m, it.loc)
		if v, ok := it.m[k]; ok {
			it.K, it.V = k, v
			return true
		}
	}
	return false
}
