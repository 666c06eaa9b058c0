//go:build go1.22

// Package lib runs the units of a property's check in worker processes and writes the evidence file.
package lib

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/chanjarster/gears/simplelog"
	"github.com/chanjarster/gears/zverif/mc"
)

// Unit is a part of a check that runs in its own process: either a scenario whose executions are enumerated by the
// model checker or a deterministic enumeration of cases.
type Unit struct {
	Name   string
	Weight int // relative cost; heavier units start first
	Sc     *mc.Scenario
	Scs    []*mc.Scenario // several small scenarios, explored one after the other
	Seq    func(c *Ctx)
	Note   string // what is enumerated
}

var props = map[string]func(thorough bool) []*Unit{}
var assume = map[string][]string{}

// Register adds the units of a property.
func Register(prop string, f func(thorough bool) []*Unit, assumptions ...string) {
	props[prop] = f
	assume[prop] = assumptions
}

// Viol is a violation found by a unit.
type Viol struct {
	Property string   `json:"property"`
	Unit     string   `json:"unit"`
	Sub      string   `json:"scenario,omitempty"`
	Tier     string   `json:"tier"`
	Kind     string   `json:"kind"`
	Msg      string   `json:"msg"`
	Choices  []int    `json:"choices,omitempty"`
	Trace    []string `json:"trace,omitempty"`
	Case     int64    `json:"case"`
	Desc     string   `json:"desc,omitempty"`
}

// Result of a unit.
type Result struct {
	Unit        string   `json:"unit"`
	Kind        string   `json:"kind"`
	States      int      `json:"states"`
	Transitions int      `json:"transitions"`
	Traces      int      `json:"traces"`
	Pruned      int      `json:"pruned,omitempty"`
	MaxDepth    int      `json:"max_depth,omitempty"`
	Preempt     int      `json:"preemption_bound,omitempty"`
	BoundDone   int      `json:"bound_completed"`
	Full        bool     `json:"full,omitempty"`
	Scenarios   int      `json:"scenarios,omitempty"`
	Outcomes    int      `json:"distinct_outcomes"`
	Diverged    int      `json:"diverged,omitempty"`
	Unconfirmed int      `json:"unconfirmed,omitempty"`
	Complete    bool     `json:"complete"`
	Samples     []string `json:"samples,omitempty"`
	Note        string   `json:"note,omitempty"`
	Wall        float64  `json:"wall_s"`
	Viols       []*Viol  `json:"violations,omitempty"`
	Err         string   `json:"error,omitempty"`
}

// Ctx is what an enumeration unit reports to.
type Ctx struct {
	Thorough bool
	Seed     int64
	Scratch  string
	states   map[uint64]struct{}
	nstates  int
	trans    int
	traces   int
	outcomes map[string]int
	samples  []string
	caseNo   int64
	only     int64 // replay: the only case to run
	deadline time.Time
	stop     bool
	timedOut bool
	viols    []*Viol
	known    []string
	prop     string
	unit     string
	tier     string
	cur      atomic.Value
	progress atomic.Int64
	trail    *os.File // the case under way, for a process that ends without a result
}

// State counts a state of the reference model (distinct ones only).
func (c *Ctx) State(parts ...any) {
	h := hashAny(parts)
	if len(c.states) < 4000000 {
		if _, ok := c.states[h]; !ok {
			c.states[h] = struct{}{}
			c.nstates++
		}
	}
}

// StateH counts a state given by its hash.
func (c *Ctx) StateH(h uint64) {
	if len(c.states) < 4000000 {
		if _, ok := c.states[h]; !ok {
			c.states[h] = struct{}{}
			c.nstates++
		}
	}
}

// Trans counts n executed transitions of the code under test.
func (c *Ctx) Trans(n int) { c.trans += n; c.progress.Add(1) }

// Outcome counts an observed outcome (vacuity check).
func (c *Ctx) Outcome(o string) {
	if len(c.outcomes) < 2000 {
		c.outcomes[o]++
	}
}

// Alive tells the watchdog that the unit makes progress.
func (c *Ctx) Alive() { c.progress.Add(1) }

func hashAny(parts []any) uint64 {
	h := uint64(14695981039346656037)
	for _, b := range []byte(fmt.Sprint(parts...)) {
		h ^= uint64(b)
		h *= 1099511628211
	}
	return h
}

// Case runs one case. f returns "" when the code under test behaved; desc is only evaluated when needed. It returns
// false when the enumeration has to stop.
func (c *Ctx) Case(desc func() string, f func() string) bool {
	if c.stop {
		return false
	}
	n := c.caseNo
	c.caseNo++
	if c.only >= 0 && n != c.only {
		return true
	}
	if n&255 == 0 && time.Now().After(c.deadline) {
		c.timedOut, c.stop = true, true
		return false
	}
	c.cur.Store(desc)
	c.progress.Add(1)
	if c.trail != nil {
		c.trail.Truncate(0)
		c.trail.WriteAt([]byte(fmt.Sprintf("%d %s", n, clip(desc(), 3000))), 0)
	}
	msg := Guard(f)
	c.traces++
	if len(c.samples) < 3 && (n == 0 || n == 17 || n == 1009) {
		c.samples = append(c.samples, clip(desc(), 300))
	}
	if msg == "" {
		if c.only >= 0 {
			fmt.Println("the case passes:", desc())
		}
		return true
	}
	for i := 0; i < 4; i++ {
		c.progress.Add(1)
		m := Guard(f)
		if m == "" {
			c.Outcome("unstable:" + clip(msg, 100))
			return true
		}
		msg = m
	}
	v := &Viol{Property: c.prop, Unit: c.unit, Tier: c.tier, Kind: "oracle", Msg: msg, Case: n, Desc: clip(desc(), 3000)}
	if strings.HasPrefix(msg, "panic") {
		v.Kind = "panic"
	}
	if k := matchKnown(c.known, v); k != "" {
		for _, w := range c.viols {
			if matchKnown([]string{k}, w) != "" {
				return true
			}
		}
		c.viols = append(c.viols, v)
		return true
	}
	c.viols = append(c.viols, v)
	c.stop = true
	return false
}

// Guard runs f and turns a panic into a message.
func Guard(f func() string) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprintf("panic: %v%s", r, repoFrames(debug.Stack()))
		}
	}()
	return f()
}

func repoFrames(b []byte) string {
	out := ""
	lines := strings.Split(string(b), "\n")
	n := 0
	for i := 0; i+1 < len(lines) && n < 4; i++ {
		if strings.Contains(lines[i], "chanjarster/gears/") && !strings.Contains(lines[i], "/zverif/") && !strings.HasPrefix(lines[i], "\t") {
			loc := strings.TrimSpace(lines[i+1])
			if k := strings.LastIndex(loc, "/"); k >= 0 {
				loc = loc[k+1:]
			}
			if k := strings.Index(loc, " +"); k >= 0 {
				loc = loc[:k]
			}
			out += " at " + loc
			n++
		}
	}
	return out
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// Stopped tells whether the enumeration is over (violation or deadline).
func (c *Ctx) Stopped() bool { return c.stop }

// Expired checks the deadline.
func (c *Ctx) Expired() bool {
	if time.Now().After(c.deadline) {
		c.timedOut, c.stop = true, true
	}
	return c.stop
}

// ---- known findings ------------------------------------------------------------------------------------------------

// A line of known_findings.txt: "finding: property=P unit=REGEXP match=REGEXP :: description".
var knownRe = regexp.MustCompile(`^finding: property=(\S+) unit=(\S+) match=(.*?) :: (.*)$`)

func loadKnown(verif, prop string) []string {
	b, _ := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if m := knownRe.FindStringSubmatch(l); m != nil && m[1] == prop {
			out = append(out, l)
		}
	}
	return out
}

func matchKnown(known []string, v *Viol) string {
	for _, k := range known {
		m := knownRe.FindStringSubmatch(k)
		if m == nil {
			continue
		}
		if ok, _ := regexp.MatchString("^(?:"+m[2]+")$", v.Unit); !ok {
			continue
		}
		if ok, _ := regexp.MatchString(m[3], v.Msg+"\n"+v.Desc); ok {
			return k
		}
	}
	return ""
}

// ---- main ----------------------------------------------------------------------------------------------------------

type opts struct {
	prop, tier, verif, scratch, replay, only, worker, out string
	seed                                                  int64
	build                                                 float64
	deadline                                              int64
	caseNo                                                int64
}

// Main is the entry point of the harness binaries.
func Main() {
	var o opts
	fs := flag.NewFlagSet("harness", flag.ExitOnError)
	fs.StringVar(&o.prop, "prop", "", "")
	fs.StringVar(&o.tier, "tier", "quick", "")
	fs.StringVar(&o.verif, "verif", "", "")
	fs.StringVar(&o.scratch, "scratch", "", "")
	fs.StringVar(&o.replay, "replay", "", "")
	fs.StringVar(&o.only, "only", "", "")
	fs.StringVar(&o.worker, "worker", "", "")
	fs.StringVar(&o.out, "out", "", "")
	fs.Int64Var(&o.seed, "seed", 1, "")
	fs.Float64Var(&o.build, "build", 0, "")
	fs.Int64Var(&o.deadline, "deadline", 0, "")
	fs.Int64Var(&o.caseNo, "case", -1, "")
	fs.Parse(os.Args[1:])
	mk := props[o.prop]
	if mk == nil {
		fmt.Fprintln(os.Stderr, "no check for property", o.prop)
		os.Exit(2)
	}
	log.SetOutput(io.Discard)
	simplelog.StdLogger.SetOutput(io.Discard)
	simplelog.ErrLogger.SetOutput(io.Discard)
	if o.replay != "" {
		os.Exit(doReplay(&o))
	}
	units := mk(o.tier == "thorough")
	if o.worker != "" {
		for _, u := range units {
			if u.Name == o.worker {
				if f := os.Getenv("VERIF_PROF"); f != "" {
					w, _ := os.Create(f)
					pprof.StartCPUProfile(w)
				}
				doWorker(&o, u)
				pprof.StopCPUProfile()
				os.Exit(0)
			}
		}
		fmt.Fprintln(os.Stderr, "zverif-internal: no unit", o.worker)
		os.Exit(2)
	}
	os.Exit(doParent(&o, units))
}

func doReplay(o *opts) int {
	b, err := os.ReadFile(o.replay)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var v Viol
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, u := range props[o.prop](v.Tier == "thorough") {
		if u.Name != v.Unit {
			continue
		}
		if sc := scenario(u, v.Sub); sc != nil {
			viol, trace := mc.Replay(sc, v.Choices)
			for _, l := range trace {
				fmt.Println("  ", l)
			}
			if viol != nil {
				fmt.Println(viol)
				fmt.Printf("VIOLATION property=%s replay=%s\n", o.prop, o.replay)
				return 1
			}
			fmt.Println("the recorded schedule shows no violation")
			return 0
		}
		c := newCtx(o, u)
		c.tier, c.Thorough = v.Tier, v.Tier == "thorough"
		c.only = v.Case
		c.deadline = time.Now().Add(time.Hour)
		u.Seq(c)
		if len(c.viols) > 0 {
			fmt.Println(c.viols[0].Desc)
			fmt.Println(c.viols[0].Msg)
			fmt.Printf("VIOLATION property=%s replay=%s\n", o.prop, o.replay)
			return 1
		}
		return 0
	}
	fmt.Fprintln(os.Stderr, "the replay names an unknown unit", v.Unit)
	return 2
}

func scenario(u *Unit, sub string) *mc.Scenario {
	if u.Sc != nil {
		return u.Sc
	}
	for _, sc := range u.Scs {
		if sc.Name == sub {
			return sc
		}
	}
	return nil
}

func newCtx(o *opts, u *Unit) *Ctx {
	return &Ctx{Thorough: o.tier == "thorough", Seed: o.seed, Scratch: o.scratch, states: map[uint64]struct{}{},
		outcomes: map[string]int{}, only: o.caseNo, known: loadKnown(o.verif, o.prop), prop: o.prop, unit: u.Name, tier: o.tier,
		deadline: time.Unix(o.deadline, 0)}
}

const stall = 90 * time.Second

func doWorker(o *opts, u *Unit) {
	debug.SetGCPercent(200)
	t0 := time.Now()
	r := &Result{Unit: u.Name, BoundDone: -1, Note: u.Note}
	write := func() {
		r.Wall = time.Since(t0).Seconds()
		b, _ := json.Marshal(r)
		os.WriteFile(o.out+".tmp", b, 0o644)
		os.Rename(o.out+".tmp", o.out)
	}
	if u.Seq == nil {
		scs := u.Scs
		if u.Sc != nil {
			scs = []*mc.Scenario{u.Sc}
		}
		r.Kind, r.Complete, r.BoundDone = "interleavings", true, 99
		r.Scenarios = len(scs)
		var cur atomic.Pointer[mc.Explorer]
		cur.Store(&mc.Explorer{Sc: scs[0]})
		done := make(chan struct{})
		var base atomic.Int64
		go watchdog(done, func() int64 { return base.Load() + cur.Load().Progress.Load() }, func() {
			r.Viols = []*Viol{{Property: o.prop, Unit: u.Name, Sub: cur.Load().Sc.Name, Tier: o.tier, Kind: "hang", Case: -1,
				Msg: "an execution makes no progress: a thread runs without reaching a scheduling point" + allStacks()}}
			write()
			os.Exit(3)
		})
		known := loadKnown(o.verif, o.prop)
		for i, sc := range scs {
			e := &mc.Explorer{Sc: sc, Deadline: time.Unix(o.deadline, 0)}
			base.Add(cur.Load().Progress.Load() + 1)
			cur.Store(e)
			f := e.Explore()
			r.States += e.States
			r.Transitions += e.Transitions
			r.Traces += e.Executions
			r.Pruned += e.Pruned
			r.Outcomes += len(e.Outcomes)
			r.Diverged += e.Diverged
			r.Unconfirmed += e.Unconfirmed
			if e.MaxDepth > r.MaxDepth {
				r.MaxDepth = e.MaxDepth
			}
			if sc.Preempt > r.Preempt {
				r.Preempt = sc.Preempt
			}
			if e.BoundDone < r.BoundDone {
				r.BoundDone = e.BoundDone
			}
			r.Full = r.Full || sc.Full
			r.Complete = r.Complete && e.BoundDone == sc.Preempt && e.Diverged == 0 && e.Unconfirmed == 0
			if i == 0 || i == len(scs)/2 {
				keys := make([]string, 0, len(e.Outcomes))
				for k := range e.Outcomes {
					keys = append(keys, k)
				}
				sort.Strings(keys)
				if len(keys) > 0 {
					r.Samples = append(r.Samples, clip(sc.Name+" "+keys[len(keys)/2], 300))
				}
			}
			if f != nil {
				v := &Viol{Property: o.prop, Unit: u.Name, Sub: sc.Name, Tier: o.tier, Kind: f.Viol.Kind, Msg: f.Viol.Msg, Choices: f.Choices, Trace: f.Trace, Case: -1}
				if len(r.Viols) < 20 {
					r.Viols = append(r.Viols, v)
				}
				if matchKnown(known, v) == "" {
					r.Complete = false
					break
				}
			}
			if time.Now().Unix() >= o.deadline {
				r.Complete = r.Complete && i == len(scs)-1
				break
			}
		}
		close(done)
		write()
		return
	}
	r.Kind = "enumeration"
	c := newCtx(o, u)
	if f := os.Getenv("ZVERIF_TRAIL"); f != "" {
		c.trail, _ = os.Create(f)
	}
	done := make(chan struct{})
	go watchdog(done, func() int64 { return c.progress.Load() }, func() {
		desc := ""
		if d, ok := c.cur.Load().(func() string); ok {
			desc = d()
		}
		r.Viols = []*Viol{{Property: o.prop, Unit: u.Name, Tier: o.tier, Kind: "hang", Case: c.caseNo - 1, Desc: desc,
			Msg: "the case does not end" + allStacks()}}
		write()
		os.Exit(3)
	})
	u.Seq(c)
	close(done)
	r.States, r.Transitions, r.Traces, r.Outcomes = c.nstates, c.trans, c.traces, len(c.outcomes)
	r.BoundDone = 0
	r.Complete = !c.timedOut && !c.stop
	r.Samples = c.samples
	for k := range c.outcomes {
		if strings.HasPrefix(k, "unstable:") {
			r.Unconfirmed++
		}
	}
	r.Viols = c.viols
	write()
}

func watchdog(done chan struct{}, progress func() int64, hang func()) {
	last, at := progress(), time.Now()
	for {
		select {
		case <-done:
			return
		case <-time.After(time.Second):
		}
		if p := progress(); p != last {
			last, at = p, time.Now()
		} else if time.Since(at) > stall {
			hang()
			return
		}
	}
}

func allStacks() string {
	b := make([]byte, 1<<16)
	b = b[:runtime.Stack(b, true)]
	s := ""
	for _, g := range bytes.Split(b, []byte("\n\n")) {
		if f := repoFrames(g); f != "" {
			s += f + ";"
		}
	}
	return s
}

func envInt(name string, def int) int {
	n := 0
	if _, err := fmt.Sscan(os.Getenv(name), &n); err == nil && n > 0 {
		return n
	}
	return def
}

func doParent(o *opts, units []*Unit) int {
	t0 := time.Now()
	budget := envInt("VERIF_QUICK_S", 420)
	if o.tier == "thorough" {
		budget = envInt("VERIF_THOROUGH_S", 780)
	}
	deadline := t0.Add(time.Duration(float64(budget)-o.build) * time.Second)
	if o.only != "" {
		var sel []*Unit
		for _, u := range units {
			if strings.Contains(u.Name, o.only) {
				sel = append(sel, u)
			}
		}
		units = sel
	}
	names := map[string]bool{}
	for _, u := range units {
		if names[u.Name] {
			fmt.Fprintln(os.Stderr, "duplicate unit", u.Name)
			return 2
		}
		names[u.Name] = true
	}
	sort.SliceStable(units, func(i, j int) bool { return units[i].Weight > units[j].Weight })
	results := make([]*Result, len(units))
	known := loadKnown(o.verif, o.prop)
	var stop atomic.Bool
	var wg sync.WaitGroup
	sem := make(chan struct{}, envInt("VERIF_JOBS", 8))
	for i, u := range units {
		wg.Add(1)
		sem <- struct{}{}
		if stop.Load() {
			<-sem
			wg.Done()
			break
		}
		go func(i int, u *Unit) {
			defer func() { <-sem; wg.Done() }()
			r := runWorker(o, u, i, deadline)
			results[i] = r
			for _, v := range r.Viols {
				if matchKnown(known, v) == "" {
					stop.Store(true)
				}
			}
		}(i, u)
	}
	wg.Wait()
	return report(o, units, results, known, t0)
}

func runWorker(o *opts, u *Unit, i int, deadline time.Time) *Result {
	var last *Result
	crashes := 0
	for attempt := 0; attempt < 3; attempt++ {
		d := deadline
		if min := time.Now().Add(8 * time.Second); d.Before(min) {
			d = min
		}
		out := filepath.Join(o.scratch, fmt.Sprintf("zverif-res-%d-%d.json", i, attempt))
		wd := filepath.Join(o.scratch, fmt.Sprintf("zverif-wd-%d-%d", i, attempt))
		os.MkdirAll(wd, 0o755)
		cmd := exec.Command(os.Args[0], "-prop", o.prop, "-tier", o.tier, "-verif", o.verif, "-scratch", wd, "-worker", u.Name,
			"-out", out, "-seed", fmt.Sprint(o.seed), "-deadline", fmt.Sprint(d.Unix()))
		var errb bytes.Buffer
		cmd.Stdout = io.Discard
		cmd.Stderr = &errb
		cmd.Dir = wd
		cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOMEMLIMIT=3GiB")
		trail := filepath.Join(wd, "zverif-trail")
		if attempt > 0 {
			cmd.Env = append(cmd.Env, "ZVERIF_TRAIL="+trail)
		}
		cmd.Start()
		over := false
		kill := time.AfterFunc(time.Until(d)+120*time.Second, func() { over = true; cmd.Process.Kill() })
		err := cmd.Wait()
		kill.Stop()
		b, rerr := os.ReadFile(out)
		r := &Result{}
		if rerr == nil && json.Unmarshal(b, r) == nil {
			hang := false
			for _, v := range r.Viols {
				hang = hang || v.Kind == "hang"
			}
			if !hang {
				return r
			}
			if last != nil && len(last.Viols) > 0 && last.Viols[0].Kind == "hang" && last.Viols[0].Case == r.Viols[0].Case {
				return r
			}
			last = r
			continue
		}
		if over {
			return &Result{Unit: u.Name, BoundDone: -1, Err: "worker ran past its deadline"}
		}
		text := errb.String()
		sig := crashSig(text)
		at, desc := int64(-1), ""
		if sig == "" && cmd.ProcessState != nil && cmd.ProcessState.ExitCode() >= 0 && !strings.Contains(text, "zverif-internal") {
			sig = fmt.Sprintf("the program exits with status %d", cmd.ProcessState.ExitCode())
			if b, err := os.ReadFile(trail); err == nil {
				fmt.Sscan(string(b), &at)
				desc = string(b)
			}
		}
		if sig == "" {
			return &Result{Unit: u.Name, BoundDone: -1, Err: fmt.Sprintf("worker failed: %v: %s", err, clip(text, 2000))}
		}
		crashes++
		if crashes >= 2 {
			return &Result{Unit: u.Name, BoundDone: -1, Viols: []*Viol{{Property: o.prop, Unit: u.Name, Tier: o.tier, Kind: "crash", Case: at,
				Msg: sig, Desc: clip(desc+text, 4000)}}}
		}
	}
	return &Result{Unit: u.Name, BoundDone: -1, Err: "worker unstable"}
}

// crashSig recognises a crash of the program under test.
func crashSig(text string) string {
	for _, l := range strings.Split(text, "\n") {
		if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") || strings.Contains(l, "goroutine stack exceeds") {
			if strings.Contains(l, "out of memory") || strings.Contains(l, "zverif-internal") {
				return ""
			}
			return l + repoFrames([]byte(text))
		}
	}
	return ""
}

func report(o *opts, units []*Unit, results []*Result, known []string, t0 time.Time) int {
	cov := map[string]any{}
	st, tr, traces, outcomes := 0, 0, 0, 0
	complete := true
	samples := []any{}
	details := []any{}
	var viols, knownV []*Viol
	errs := []string{}
	for i, r := range results {
		if r == nil {
			complete = false
			continue
		}
		st += r.States
		tr += r.Transitions
		traces += r.Traces
		outcomes += r.Outcomes
		complete = complete && r.Complete
		for _, s := range r.Samples {
			if len(samples) < 12 {
				samples = append(samples, units[i].Name+": "+s)
			}
		}
		if r.Err != "" {
			errs = append(errs, units[i].Name+": "+r.Err)
		}
		for _, v := range r.Viols {
			if matchKnown(known, v) != "" {
				knownV = append(knownV, v)
			} else {
				viols = append(viols, v)
			}
		}
		d := map[string]any{"unit": units[i].Name, "kind": r.Kind, "states": r.States, "transitions": r.Transitions, "executions": r.Traces,
			"outcomes": r.Outcomes, "complete": r.Complete, "wall_s": r.Wall}
		if r.Kind == "interleavings" {
			d["scenarios"], d["pruned"], d["max_choices"] = r.Scenarios, r.Pruned, r.MaxDepth
			if r.Full {
				d["preemption_bound"] = "none"
			} else {
				d["preemption_bound"], d["bound_completed"] = r.Preempt, r.BoundDone
			}
		}
		if r.Note != "" {
			d["enumerates"] = r.Note
		}
		if r.Diverged+r.Unconfirmed > 0 {
			d["diverged"], d["unconfirmed"] = r.Diverged, r.Unconfirmed
		}
		if r.Err != "" {
			d["error"] = r.Err
		}
		details = append(details, d)
	}
	cov["states"], cov["transitions"], cov["traces_validated_against_impl"] = st, tr, traces
	cov["distinct_outcomes"] = outcomes
	cov["exhaustive"] = complete && len(viols) == 0
	cov["samples"] = samples
	cov["units"] = details
	base := []string{"every explored execution runs the working tree of /repo, so there is no separate model to validate"}
	for _, u := range units {
		if u.Seq == nil {
			base = append(base, "sequentially consistent memory; shared accesses are checked for data races separately")
			break
		}
	}
	ev := map[string]any{"property": o.prop, "tier": o.tier, "seed": o.seed, "level": "model_checking", "coverage": cov,
		"assumptions": append(base, assume[o.prop]...),
		"wall_s":      time.Since(t0).Seconds() + o.build, "violations": len(viols)}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(o.verif, "evidence")
	os.MkdirAll(dir, 0o755)
	os.WriteFile(filepath.Join(dir, o.prop+".json"), b, 0o644)
	fmt.Printf("%s %s: %d units, %d states, %d transitions, %d executions, %d outcomes, exhaustive=%v, %.1f s (build %.1f s)\n",
		o.prop, o.tier, len(units), st, tr, traces, outcomes, complete, time.Since(t0).Seconds()+o.build, o.build)
	for _, e := range errs {
		fmt.Fprintln(os.Stderr, "error:", e)
	}
	seen := map[string]bool{}
	for _, v := range knownV {
		k := matchKnown(known, v)
		if !seen[k] {
			seen[k] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", o.prop, knownRe.FindStringSubmatch(k)[4])
		}
	}
	if len(viols) > 0 {
		rdir := filepath.Join(dir, "replays")
		os.MkdirAll(rdir, 0o755)
		v := viols[0]
		name := regexp.MustCompile(`[^A-Za-z0-9_.-]+`).ReplaceAllString(o.prop+"-"+v.Unit, "_")
		p := filepath.Join(rdir, name+".json")
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(p, b, 0o644)
		fmt.Printf("unit %s: %s: %s\n", v.Unit, v.Kind, clip(v.Msg, 3000))
		if v.Desc != "" {
			fmt.Printf("case: %s\n", v.Desc)
		}
		for i, l := range v.Trace {
			if i < 120 {
				fmt.Println("   ", l)
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", o.prop, p)
		return 1
	}
	if len(errs) > 0 {
		return 2
	}
	return 0
}

// Sequences enumerates all sequences of length depth over n operations (those of shard i of k, split by their first two
// operations) and runs each as a case.
func (c *Ctx) Sequences(n, depth, shard, shards int, desc func(seq []int) string, run func(seq []int) string) {
	seq := make([]int, depth)
	for {
		h := seq[0]
		if depth > 1 {
			h = h*n + seq[1]
		}
		if h%shards == shard {
			if !c.Case(func() string { return desc(seq) }, func() string { return run(seq) }) {
				return
			}
		}
		i := depth - 1
		for ; i >= 0; i-- {
			seq[i]++
			if seq[i] < n {
				break
			}
			seq[i] = 0
		}
		if i < 0 {
			return
		}
	}
}

// Shards makes k enumeration units of one enumeration.
func Shards(name string, weight, k int, note string, f func(c *Ctx, shard, shards int)) []*Unit {
	var us []*Unit
	for i := 0; i < k; i++ {
		us = append(us, &Unit{Name: fmt.Sprintf("%s#%d/%d", name, i, k), Weight: weight, Note: note, Seq: func(c *Ctx) { f(c, i, k) }})
	}
	return us
}
