//go:build go1.22

package main

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/SkyAPM/go2sky"
	redis_hook "github.com/chanjarster/gears/skywalking/redis"
	"github.com/chanjarster/gears/zverif/fakeredis"
	"github.com/chanjarster/gears/zverif/lib"
	"github.com/go-redis/redis/v7"
	agentv3 "skywalking.apache.org/repo/goapi/collect/language/agent/v3"
)

func init() {
	lib.Register("P32", p32, "spans are observed where they leave go2sky: at the reporter", "ending a span twice has no effect in go2sky and is not observable")
}

// ---- a reporter that collects and a sampler that counts the segments begun -------------------------------------------

type collector struct {
	mu       sync.Mutex
	segments [][]go2sky.ReportedSpan
	begun    atomic.Int64
	sample   bool
}

func (r *collector) Boot(string, string, []go2sky.AgentConfigChangeWatcher) {}
func (r *collector) Close()                                                 {}
func (r *collector) Send(spans []go2sky.ReportedSpan) {
	r.mu.Lock()
	r.segments = append(r.segments, spans)
	r.mu.Unlock()
}
func (r *collector) IsSampled(string) bool {
	if r.sample {
		r.begun.Add(1)
	}
	return r.sample
}

// tracers: 0 reports, 1 has no reporter, 2 samples nothing
func (r *collector) tracer(kind int) *go2sky.Tracer {
	r.sample = kind != 2
	opts := []go2sky.TracerOption{go2sky.WithInstance("i"), go2sky.WithCustomSampler(r)}
	if kind != 1 {
		opts = append(opts, go2sky.WithReporter(r))
	}
	t, err := go2sky.NewTracer("svc", opts...)
	if err != nil {
		panic(err)
	}
	return t
}

// wait returns all spans once every segment begun (and the extra ones that are not sampled) is complete.
func (r *collector) wait(extra int) ([]go2sky.ReportedSpan, string) {
	want := int(r.begun.Load()) + extra
	deadline := time.Now().Add(10 * time.Second)
	for {
		r.mu.Lock()
		n := len(r.segments)
		var all []go2sky.ReportedSpan
		for _, s := range r.segments {
			all = append(all, s...)
		}
		r.mu.Unlock()
		if n == want {
			return all, ""
		}
		if n > want {
			return nil, fmt.Sprintf("%d segments are reported, %d were begun", n, want)
		}
		if time.Now().After(deadline) {
			return nil, fmt.Sprintf("only %d of %d segments are reported: a span is never ended", n, want)
		}
		time.Sleep(5 * time.Microsecond)
	}
}

func tag(s go2sky.ReportedSpan, key go2sky.Tag) (string, int) {
	v, n := "", 0
	for _, t := range s.Tags() {
		if t.Key == string(key) {
			v = t.Value
			n++
		}
	}
	return v, n
}

func spanText(s go2sky.ReportedSpan) string {
	out := s.OperationName() + "\n" + s.Peer() + "\n"
	for _, t := range s.Tags() {
		out += t.Key + "=" + t.Value + "\n"
	}
	return out + logText(s)
}

func logText(s go2sky.ReportedSpan) string {
	out := ""
	for _, l := range s.Logs() {
		for _, d := range l.Data {
			out += d.Key + " " + d.Value + "\n"
		}
	}
	return out
}

func spanID(s go2sky.ReportedSpan) string {
	return fmt.Sprint(s.Context().SegmentID, "/", s.Context().SpanID)
}

// ---- P32 ------------------------------------------------------------------------------------------------------------

const argMark = "argument-7f3a"

// action runs a command or a pipeline and describes everything the caller sees.
type action struct {
	name string
	cmds [][]string // for each exit span: none, when the client runs nothing
	pipe bool
	run  func(c *redis.Client) (string, []error)
}

func single(name string, words []string, f func(c *redis.Client) redis.Cmder) action {
	return action{name: name, cmds: [][]string{words}, run: func(c *redis.Client) (string, []error) {
		cmd := f(c)
		return cmd.Name() + " " + fmt.Sprint(cmd), []error{cmd.Err()}
	}}
}

func pipelined(name string, tx bool, words []string, fs ...func(p redis.Pipeliner) redis.Cmder) action {
	a := action{name: name, pipe: true}
	if len(fs) > 0 {
		a.cmds = [][]string{words}
	}
	a.run = func(c *redis.Client) (string, []error) {
		var cmds []redis.Cmder
		do := func(p redis.Pipeliner) error {
			for _, f := range fs {
				cmds = append(cmds, f(p))
			}
			return nil
		}
		var got []redis.Cmder
		var err error
		if tx {
			got, err = c.TxPipelined(do)
		} else {
			got, err = c.Pipelined(do)
		}
		out := fmt.Sprint("exec ", err, " ", len(got))
		var errs []error
		for _, cm := range cmds {
			out += fmt.Sprint("; ", cm)
			errs = append(errs, cm.Err())
		}
		return out, errs
	}
	return a
}

var redisActions = []action{
	single("set", []string{"set"}, func(c *redis.Client) redis.Cmder { return c.Set("k"+argMark, argMark, 0) }),
	single("get", []string{"get"}, func(c *redis.Client) redis.Cmder { return c.Get("k" + argMark) }),
	single("get a missing key", []string{"get"}, func(c *redis.Client) redis.Cmder { return c.Get("none" + argMark) }),
	single("incr a text", []string{"incr"}, func(c *redis.Client) redis.Cmder { return c.Incr("k" + argMark) }),
	single("hget", []string{"hget"}, func(c *redis.Client) redis.Cmder { return c.HGet("k"+argMark, "f") }),
	single("ping", []string{"ping"}, func(c *redis.Client) redis.Cmder { return c.Ping() }),
	single("eval", []string{"eval"}, func(c *redis.Client) redis.Cmder {
		return c.Eval("return redis.call('get', KEYS[1])", []string{"k" + argMark})
	}),
	single("eval failing", []string{"eval"}, func(c *redis.Client) redis.Cmder {
		return c.Eval("return redis.call('incr', KEYS[1])", []string{"k" + argMark})
	}),
	pipelined("pipeline of one", false, []string{"get"}, func(p redis.Pipeliner) redis.Cmder { return p.Get("k" + argMark) }),
	pipelined("pipeline of two", false, []string{"set", "get"}, func(p redis.Pipeliner) redis.Cmder { return p.Set("q"+argMark, "1", 0) }, func(p redis.Pipeliner) redis.Cmder { return p.Get("q" + argMark) }),
	pipelined("pipeline, first fails", false, []string{"incr", "set"}, func(p redis.Pipeliner) redis.Cmder { return p.Incr("k" + argMark) }, func(p redis.Pipeliner) redis.Cmder { return p.Set("q"+argMark, "1", 0) }),
	pipelined("pipeline, last fails", false, []string{"set", "set", "hget"}, func(p redis.Pipeliner) redis.Cmder { return p.Set("k"+argMark, "x", 0) },
		func(p redis.Pipeliner) redis.Cmder { return p.Set("q"+argMark, "1", 0) }, func(p redis.Pipeliner) redis.Cmder { return p.HGet("k"+argMark, "f") }),
	pipelined("pipeline with a missing key", false, []string{"set", "get"}, func(p redis.Pipeliner) redis.Cmder { return p.Set("q"+argMark, "1", 0) }, func(p redis.Pipeliner) redis.Cmder { return p.Get("none" + argMark) }),
	pipelined("empty pipeline", false, nil),
	pipelined("transaction", true, []string{"set", "get"}, func(p redis.Pipeliner) redis.Cmder { return p.Set("q"+argMark, "1", 0) }, func(p redis.Pipeliner) redis.Cmder { return p.Get("q" + argMark) }),
	pipelined("transaction, one fails", true, []string{"set", "incr"}, func(p redis.Pipeliner) redis.Cmder { return p.Set("k"+argMark, "x", 0) }, func(p redis.Pipeliner) redis.Cmder { return p.Incr("k" + argMark) }),
}

// tcase is one execution: actions in order, options of the hook, the caller's span, the tracer and a fault.
type tcase struct {
	acts    []int
	opts    int // bit 0 address, 1 db, 2 error text, 3 arguments
	caller  int // 0 no span, 1 a local span, 2 an entry span, 3 a noop span
	tracer  int
	hooks   int // hooks installed
	faultAt int // index of the command the fault hits, -1 none
	fault   fakeredis.Fault
	retries int
}

func (t tcase) String() string {
	var names []string
	for _, a := range t.acts {
		names = append(names, redisActions[a].name)
	}
	f := "no fault"
	if t.faultAt >= 0 {
		f = fmt.Sprintf("fault %v at command %d", t.fault, t.faultAt)
	}
	return fmt.Sprintf("%s; options {address %v, db %v, error text %v, arguments %v}, caller's span %d, tracer %d, %d hooks, %s, %d retries", strings.Join(names, ", "),
		t.opts&1 != 0, t.opts&2 != 0, t.opts&4 != 0, t.opts&8 != 0, t.caller, t.tracer, t.hooks, f, t.retries)
}

func (t tcase) client() (*redis.Client, *fakeredis.Server) {
	srv := fakeredis.New(func() int64 { return 1_600_000_000_000 })
	srv.Do("SET", "k"+argMark, "text")
	n := 0
	srv.Fault = func(cmd []string) fakeredis.Fault {
		n++
		if n-1 == t.faultAt {
			return t.fault
		}
		return fakeredis.None
	}
	c := redis.NewClient(&redis.Options{Addr: "server:6379", Dialer: srv.Dialer, IdleCheckFrequency: -1, PoolSize: 1, MaxRetries: t.retries, MinRetryBackoff: -1, MaxRetryBackoff: -1,
		ReadTimeout: 10 * time.Second, WriteTimeout: 10 * time.Second, PoolTimeout: 5 * time.Second})
	return c, srv
}

func (t tcase) run() string {
	plain, ps := t.client()
	defer plain.Close()
	var want []string
	for _, a := range t.acts {
		s, _ := redisActions[a].run(plain)
		want = append(want, s)
	}
	traced, ts := t.client()
	defer traced.Close()
	rec := &collector{}
	tr := rec.tracer(t.tracer)
	var opts []redis_hook.Option
	if t.opts&1 != 0 {
		opts = append(opts, redis_hook.WithAddr("server:6379"))
	}
	if t.opts&2 != 0 {
		opts = append(opts, redis_hook.WithDb(3))
	}
	if t.opts&4 != 0 {
		opts = append(opts, redis_hook.WithLogError())
	}
	if t.opts&8 != 0 {
		opts = append(opts, redis_hook.WithArgsReport())
	}
	ctx := context.Background()
	var caller go2sky.Span
	var err error
	switch t.caller {
	case 1:
		caller, ctx, err = tr.CreateLocalSpan(ctx, go2sky.WithOperationName("caller"))
	case 2:
		caller, ctx, err = tr.CreateEntrySpan(ctx, "caller", func(string) (string, error) { return "", nil })
	case 3:
		var off *go2sky.Tracer
		if off, err = go2sky.NewTracer("off"); err == nil {
			caller, ctx, err = off.CreateLocalSpan(ctx, go2sky.WithOperationName("caller"))
		}
	}
	if err != nil {
		panic(err)
	}
	for i := 0; i < t.hooks; i++ {
		traced.AddHook(redis_hook.NewHook(tr, opts...))
	}
	c := traced.WithContext(ctx)
	type ran struct {
		cmds []string
		errs []error
	}
	var spans []ran
	for i, a := range t.acts {
		s, errs := redisActions[a].run(c)
		if s != want[i] {
			return fmt.Sprintf("with the hook %s gives %q, without it %q", redisActions[a].name, s, want[i])
		}
		for _, w := range redisActions[a].cmds {
			for h := 0; h < t.hooks; h++ {
				spans = append(spans, ran{w, errs})
			}
		}
	}
	if a, b := fmt.Sprint(ps.Commands()), fmt.Sprint(ts.Commands()); a != b {
		return fmt.Sprintf("with the hook the server sees %s, without it %s", b, a)
	}
	if ps.Broken != "" {
		panic("zverif-internal: " + ps.Broken)
	}
	callerID := ""
	if caller != nil {
		if rs, ok := caller.(go2sky.ReportedSpan); ok {
			callerID = spanID(rs)
			if rs.EndTime() > 0 && !caller.IsValid() {
				return "the caller's span is ended by the hook"
			}
			if rs.IsError() {
				return "the caller's span is marked as an error by the hook"
			}
		}
		caller.End()
	}
	if t.opts&1 == 0 || t.tracer != 0 || t.caller == 3 {
		spans = nil
	}
	all, m := rec.wait(0)
	if m != "" {
		return m
	}
	var exits []go2sky.ReportedSpan
	for _, s := range all {
		switch {
		case callerID != "" && spanID(s) == callerID:
		case s.SpanType() == agentv3.SpanType_Exit:
			exits = append(exits, s)
		default:
			return fmt.Sprintf("a span that is not an exit span is reported: %q", spanText(s))
		}
	}
	if len(exits) != len(spans) {
		return fmt.Sprintf("%d exit spans are reported, expected %d", len(exits), len(spans))
	}
	// the order in which segments reach the reporter is not that of the commands
	sort.SliceStable(exits, func(i, j int) bool { return exits[i].StartTime() < exits[j].StartTime() })
	used := make([]bool, len(exits))
	var fails []string
next:
	for _, r := range spans {
		why := ""
		for i, s := range exits {
			if used[i] {
				continue
			}
			if why = t.match(s, r.cmds, r.errs, callerID); why == "" {
				used[i] = true
				continue next
			}
		}
		fails = append(fails, why)
	}
	if len(fails) > 0 {
		return fails[0]
	}
	return ""
}

func (t tcase) match(s go2sky.ReportedSpan, cmds []string, errs []error, callerID string) string {
	op := s.OperationName()
	rest := op
	for _, c := range cmds {
		i := strings.Index(rest, c)
		if i < 0 {
			return fmt.Sprintf("no exit span names %v: its operation is %q", cmds, op)
		}
		rest = rest[i+len(c):]
	}
	if len(cmds) == 1 && op != cmds[0] {
		return fmt.Sprintf("the exit span of %v is called %q", cmds, op)
	}
	if s.Peer() != "server:6379" {
		return fmt.Sprintf("the peer of the exit span is %q", s.Peer())
	}
	failed := false
	for _, e := range errs {
		failed = failed || e != nil
	}
	if s.IsError() != failed {
		return fmt.Sprintf("the exit span of %v is marked as an error: %v, errors of the commands: %v", cmds, s.IsError(), errs)
	}
	text := spanText(s)
	if t.opts&8 == 0 && strings.Contains(text, argMark) {
		return fmt.Sprintf("the exit span carries command arguments unasked: %q", text)
	}
	if t.opts&8 != 0 && cmds[0] != "ping" && !strings.Contains(text, argMark) {
		return fmt.Sprintf("the exit span does not carry the arguments: %q", text)
	}
	logs := logText(s)
	for _, e := range errs {
		if e == nil {
			continue
		}
		if t.opts&4 == 0 && strings.Contains(text, e.Error()) {
			return fmt.Sprintf("the exit span carries the error text unasked: %q", text)
		}
		if t.opts&4 != 0 && !strings.Contains(logs, e.Error()) {
			return fmt.Sprintf("the exit span does not carry the error text %q: %q", e, logs)
		}
	}
	if t.opts&4 == 0 && strings.TrimSpace(logs) != "" {
		return fmt.Sprintf("the exit span carries a log unasked: %q", logs)
	}
	if callerID != "" && t.hooks == 1 {
		if p := fmt.Sprint(s.Context().SegmentID, "/", s.Context().ParentSpanID); p != callerID {
			return fmt.Sprintf("the exit span is a child of %s, the caller's span is %s", p, callerID)
		}
	}
	return ""
}

func p32(thorough bool) []*lib.Unit {
	faults := []fakeredis.Fault{fakeredis.DropBefore, fakeredis.DropAfter, fakeredis.ErrorReply, fakeredis.Timeout, fakeredis.LateTimeout, fakeredis.Truncated, fakeredis.WriteFail, fakeredis.Garbage}
	us := lib.Shards("options", 6, 8, "every command and pipeline × all options of the hook × the caller's span × tracer (reporting, without reporter, sampling nothing) × every fault at every command, with and without retries",
		func(c *lib.Ctx, shard, shards int) {
			n := 0
			for a := range redisActions {
				for opts := 0; opts < 16; opts++ {
					n++
					if n%shards != shard {
						continue
					}
					for caller := 0; caller < 4; caller++ {
						for tr := 0; tr < 3; tr++ {
							for retries := 0; retries < 2; retries++ {
								for at := -1; at < 5; at++ {
									for _, f := range faults {
										if at < 0 && f != faults[0] {
											continue
										}
										if tr != 0 && at > 0 {
											continue
										}
										t := tcase{[]int{a}, opts, caller, tr, 1, at, f, retries}
										c.State(t)
										c.Trans(2)
										if !c.Case(t.String, t.run) {
											return
										}
									}
								}
							}
						}
					}
				}
			}
		})
	us = append(us, lib.Shards("sequences", 6, 8, "every sequence of two (thorough: three) commands and pipelines through one client with one or two hooks, with every fault at every command",
		func(c *lib.Ctx, shard, shards int) {
			depth := 2
			if c.Thorough {
				depth = 3
			}
			n := 0
			var rec func(acts []int) bool
			rec = func(acts []int) bool {
				if len(acts) == depth {
					n++
					if n%shards != shard {
						return true
					}
					for _, opts := range []int{1, 13} {
						for _, caller := range []int{0, 1} {
							for hooks := 1; hooks < 3; hooks++ {
								for at := -1; at < 5; at++ {
									for _, f := range faults {
										if at < 0 && f != faults[0] || depth == 3 && at >= 0 && (hooks == 2 || opts == 1) {
											continue
										}
										t := tcase{append([]int{}, acts...), opts, caller, 0, hooks, at, f, 0}
										c.State(t)
										c.Trans(2)
										if !c.Case(t.String, t.run) {
											return false
										}
									}
								}
							}
						}
					}
					return true
				}
				for a := range redisActions {
					if !rec(append(acts, a)) {
						return false
					}
				}
				return true
			}
			rec(nil)
		})...)
	return us
}
