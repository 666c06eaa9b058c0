//go:build go1.22

package main

import (
	"context"
	"errors"
	"fmt"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/SkyAPM/go2sky"
	"github.com/chanjarster/gears/confs"
	swclient "github.com/chanjarster/gears/skywalking/fasthttp"
	swrouting "github.com/chanjarster/gears/skywalking/fasthttp-routing"
	redis_hook "github.com/chanjarster/gears/skywalking/redis"
	"github.com/chanjarster/gears/zverif/lib"
	"github.com/go-redis/redis/v7"
	routing "github.com/qiangxue/fasthttp-routing"
	"github.com/valyala/fasthttp"
	agentv3 "skywalking.apache.org/repo/goapi/collect/language/agent/v3"
)

func init() {
	lib.Register("P40", p40, "spans are observed where they leave go2sky: at the reporter", "what a data source name means is what the real driver parses it to", "handshakes run over the loopback network")
}

func p40(thorough bool) []*lib.Unit {
	us := lib.Shards("clients", 5, 8, "every pair of client configurations (each setting changed alone and all together; plain, traced, customized) of one kind, and of different kinds: the second is opened after the first and before the first is used",
		func(c *lib.Ctx, shard, shards int) { clientPairs(c, shard, shards) })
	us = append(us, lib.Shards("tls", 7, 4, "every pair of HTTP client configurations over trust mode × trusted certificates × client certificate: both made, then first, second, first again used with each of four servers, with real handshakes",
		func(c *lib.Ctx, shard, shards int) { tlsPairs(c, shard, shards) })...)
	for _, k := range flightKinds {
		k := k
		us = append(us, lib.Shards("flights-"+k.name, 6, 8, "every interleaving of the beginnings and ends of 2 and of 3 operations in flight on two instances with their own options and tracers: every pair of option sets (for 3 operations: opposite ones), every assignment of operations to instances, every combination of outcomes",
			func(c *lib.Ctx, shard, shards int) { flights(c, k, shard, shards) })...)
	}
	return us
}

// ---- clients of servers ----------------------------------------------------------------------------------------------

type clientConf struct {
	name string
	open func() string // opens, uses and judges the client
}

// clientConfs of one kind: the base, every single change, everything changed; in every variant.
func (o *opening) clientConfs() (out []clientConf) {
	add := func(name string, setup func(v reflect.Value)) {
		for variant := 0; variant < o.variants; variant++ {
			variant := variant
			out = append(out, clientConf{fmt.Sprintf("%s with %s (variant %d)", o.name, name, variant), func() string {
				return o.run(func(v reflect.Value) { o.base(v); setup(v) }, variant)
			}})
		}
	}
	add("the base settings", func(reflect.Value) {})
	for i := 0; i < o.typ.NumField(); i++ {
		f := o.typ.Field(i).Name
		for _, x := range o.dom[f][1:] {
			x := x
			add(fmt.Sprintf("%s=%q", f, fmt.Sprint(x)), func(v reflect.Value) { v.FieldByName(f).Set(reflect.ValueOf(x)) })
		}
	}
	add("everything changed", func(v reflect.Value) {
		for f, d := range o.dom {
			v.FieldByName(f).Set(reflect.ValueOf(d[len(d)-1]))
		}
	})
	return out
}

func clientPairs(c *lib.Ctx, shard, shards int) {
	var all [][]clientConf
	for i := range openings {
		all = append(all, openings[i].clientConfs())
	}
	n := 0
	pair := func(a, b clientConf) bool {
		n++
		if n%shards != shard {
			return true
		}
		c.State(a.name, b.name)
		c.Trans(2)
		return c.Case(func() string { return "first " + a.name + ", then " + b.name }, func() string {
			second := ""
			meanwhile = func() { second = b.open() }
			defer func() { meanwhile = nil }()
			if m := a.open(); m != "" {
				return "the first client: " + m
			}
			if second != "" {
				return "the second client: " + second
			}
			return ""
		})
	}
	for i := range all {
		for _, a := range all[i] {
			for _, b := range all[i] {
				if !pair(a, b) {
					return
				}
			}
		}
	}
	for i := range all {
		for j := range all {
			if i == j {
				continue
			}
			x, y := all[i], all[j]
			for _, a := range []clientConf{x[0], x[1], x[len(x)-1]} {
				for _, b := range []clientConf{y[0], y[1], y[len(y)-1]} {
					if !pair(a, b) {
						return
					}
				}
			}
		}
	}
}

// ---- HTTP clients ----------------------------------------------------------------------------------------------------

func tlsPairs(c *lib.Ctx, shard, shards int) {
	w := newTlsWorld(c.Scratch)
	type side struct {
		mode, files, client string
		roots               []string
	}
	var sides []side
	for _, cl := range []string{"", "alice", "bob"} {
		sides = append(sides, side{"", "", cl, nil}, side{"INSECURE", "", cl, nil}, side{"CUSTOM", "one.pem", cl, []string{"one"}}, side{"CUSTOM", "two.pem,self.pem", cl, []string{"two", "self"}},
			side{"CUSTOM", "sys.pem", cl, []string{"sys"}})
	}
	limit := func(i int) time.Duration { return 20*time.Second + time.Duration(i)*time.Second }
	mk := func(s side, i int) *fasthttp.Client {
		cf := confs.FastHttpClientConf{SslTrustMode: s.mode, SslTrustCerts: w.paths(s.files), ReadTimeout: limit(i), WriteTimeout: limit(i + 1), MaxConnsPerHost: 5 + i,
			MaxConnDuration: limit(i + 2), MaxIdleConnDuration: limit(i + 3), MaxConnWaitTimeout: limit(i + 4)}
		if s.client != "" {
			cf.CertChain, cf.PrivateKey = filepath.Join(w.dir, s.client+".crt"), filepath.Join(w.dir, s.client+".key")
		}
		return confs.NewFastHttpClient(&cf, nil)
	}
	var servers []*tlsServer
	for _, s := range w.servers {
		switch s.name {
		case "sys", "one", "two", "self-signed":
			servers = append(servers, s)
		}
	}
	n := 0
	for _, a := range sides {
		for _, b := range sides {
			for _, s := range servers {
				n++
				if n%shards != shard {
					continue
				}
				c.State(a.mode, a.files, a.client, b.mode, b.files, b.client, s.name)
				c.Trans(3)
				if !c.Case(func() string { return fmt.Sprintf("first client %q, second client %q, server %s", a, b, s.name) }, func() string {
					cl := []*fasthttp.Client{mk(a, 0), mk(b, 1)}
					defer cl[0].CloseIdleConnections()
					defer cl[1].CloseIdleConnections()
					for _, i := range []int{0, 1, 0} {
						x := []side{a, b}[i]
						if m := w.use(cl[i], x.client, s, "localhost", trusts(x.mode, x.roots, s)); m != "" {
							return fmt.Sprintf("client %d: %s", i+1, m)
						}
						cl[i].CloseIdleConnections()
					}
					for i, x := range cl {
						if m := diff(fmt.Sprintf("client %d: the limits", i+1), fmt.Sprint(x.ReadTimeout, x.WriteTimeout, x.MaxConnsPerHost, x.MaxConnDuration, x.MaxIdleConnDuration, x.MaxConnWaitTimeout),
							fmt.Sprint(limit(i), limit(i+1), 5+i, limit(i+2), limit(i+3), limit(i+4))); m != "" {
							return m
						}
					}
					return ""
				}) {
					return
				}
			}
		}
	}
}

// ---- operations in flight --------------------------------------------------------------------------------------------

// orders are all sequences of 2n steps in which every operation begins (i) before it ends (^i).
func orders(n int) (out [][]int) {
	var rec func(pre []int, state []int)
	rec = func(pre []int, state []int) {
		if len(pre) == 2*n {
			out = append(out, append([]int(nil), pre...))
			return
		}
		for i := 0; i < n; i++ {
			switch state[i] {
			case 0:
				state[i] = 1
				rec(append(pre, i), state)
				state[i] = 0
			case 1:
				state[i] = 2
				rec(append(pre, ^i), state)
				state[i] = 1
			}
		}
	}
	rec(nil, make([]int, n))
	return out
}

func flightErr(i int) error   { return errors.New("error-of-" + strconv.Itoa(i)) }
func flightBody(i int) string { return "body-of-" + strconv.Itoa(i) }
func flightArg(i int) string  { return "argument-of-" + strconv.Itoa(i) }

// flight is a set of operations on two instances.
type flight struct {
	opts  [2]int
	on    []int // which instance
	outs  []int // how each operation ends
	order []int
	kid   bool // operations have a span of their own around or in them
}

type flightKind struct {
	name    string
	options int // number of option bits
	outs    int
	run     func(f flight, rec [2]*collector, tr [2]*go2sky.Tracer) string
}

var flightKinds = []flightKind{
	{"middleware", 2, 4, flyMiddleware},
	{"client", 2, 4, flyClient},
	{"redis", 4, 3, flyRedis},
	{"pipeline", 4, 3, flyPipeline},
}

func (f flight) String() string {
	var st []string
	for _, s := range f.order {
		if s >= 0 {
			st = append(st, fmt.Sprintf("operation %d begins on instance %d", s, f.on[s]))
		} else {
			st = append(st, fmt.Sprintf("operation %d ends (outcome %d)", ^s, f.outs[^s]))
		}
	}
	return fmt.Sprintf("options %b and %b, spans of their own %v: %s", f.opts[0], f.opts[1], f.kid, strings.Join(st, ", "))
}

func flights(c *lib.Ctx, k flightKind, shard, shards int) {
	n := 0
	for _, size := range []int{2, 3} {
		all := 1<<k.options - 1
		for oa := 0; oa <= all; oa++ {
			for ob := 0; ob <= all; ob++ {
				if size == 3 && (oa != all^ob || oa != 0 && oa != all && (!c.Thorough || oa != 1)) {
					continue
				}
				for ass := 0; ass < 1<<size; ass++ {
					for _, order := range orders(size) {
						outs := make([]int, size)
						for {
							for _, kid := range []bool{false, true} {
								n++
								if n%shards == shard {
									f := flight{opts: [2]int{oa, ob}, outs: append([]int(nil), outs...), order: order, kid: kid}
									for i := 0; i < size; i++ {
										f.on = append(f.on, ass>>i&1)
									}
									c.State(oa, ob, ass, order, outs, kid)
									c.Trans(2 * size)
									if !c.Case(f.String, func() string {
										rec := [2]*collector{{}, {}}
										tr := [2]*go2sky.Tracer{rec[0].tracer(0), rec[1].tracer(0)}
										return k.run(f, rec, tr)
									}) {
										return
									}
								}
							}
							i := 0
							for i < size {
								if outs[i]++; outs[i] < k.outs {
									break
								}
								outs[i] = 0
								i++
							}
							if i == size {
								break
							}
						}
					}
				}
			}
		}
	}
}

// marks tells which of the marks of the operations may and must be in a span: want maps a mark to true (must); others must not.
func marks(s go2sky.ReportedSpan, n int, must map[string]bool) string {
	text := spanText(s)
	for i := 0; i < n; i++ {
		for _, m := range []string{flightErr(i).Error(), flightBody(i), flightArg(i)} {
			if has := strings.Contains(text, m); has != must[m] {
				return fmt.Sprintf("the span carries %q: %v, expected %v (%q)", m, has, must[m], text)
			}
		}
	}
	return ""
}

// reported gives the spans of each instance's tracer.
func reported(rec [2]*collector, kind agentv3.SpanType) (out [2][]go2sky.ReportedSpan, bad string) {
	for i, r := range rec {
		all, m := r.wait(0)
		if m != "" {
			return out, fmt.Sprintf("tracer %d: %s", i, m)
		}
		for _, s := range all {
			if s.SpanType() == kind {
				out[i] = append(out[i], s)
			}
		}
	}
	return out, ""
}

// find the one span among those of an instance that belongs to an operation.
func find(spans []go2sky.ReportedSpan, i int, mine func(s go2sky.ReportedSpan) bool) (go2sky.ReportedSpan, string) {
	var hit go2sky.ReportedSpan
	for _, s := range spans {
		if mine(s) {
			if hit != nil {
				return nil, fmt.Sprintf("operation %d has several spans", i)
			}
			hit = s
		}
	}
	if hit == nil {
		return nil, fmt.Sprintf("operation %d has no span at its tracer", i)
	}
	return hit, ""
}

func (f flight) count(got [2][]go2sky.ReportedSpan) string {
	want := [2]int{}
	for _, o := range f.on {
		want[o]++
	}
	for i := range want {
		if len(got[i]) != want[i] {
			return fmt.Sprintf("tracer %d reports %d spans, %d operations ran on its instance", i, len(got[i]), want[i])
		}
	}
	return ""
}

func flyMiddleware(f flight, rec [2]*collector, tr [2]*go2sky.Tracer) string {
	n := len(f.on)
	var bad string
	entered := make(chan int)
	gate := make([]chan struct{}, n)
	done := make([]chan struct{}, n)
	ctxs := make([]*fasthttp.RequestCtx, n)
	kids := make([]string, n)
	var routers [2]*routing.Router
	for side := range routers {
		var opts []swrouting.Option
		if f.opts[side]&1 != 0 {
			opts = append(opts, swrouting.WithLogError())
		}
		if f.opts[side]&2 != 0 {
			opts = append(opts, swrouting.WithLog4xxBody())
		}
		r := routing.New()
		r.Use(swrouting.NewMiddleware(tr[side], opts...))
		side := side
		r.Get("/op/<i>", func(c *routing.Context) error {
			i, _ := strconv.Atoi(c.Param("i"))
			entered <- i
			<-gate[i]
			if f.kid {
				s, _, err := tr[side].CreateLocalSpan(swrouting.GetSwContext(c), go2sky.WithOperationName("kid"))
				if err != nil {
					return err
				}
				kids[i] = fmt.Sprint(s.(go2sky.ReportedSpan).Context().SegmentID, "/", s.(go2sky.ReportedSpan).Context().ParentSpanID)
				s.End()
			}
			switch f.outs[i] {
			case 1:
				c.SetStatusCode(404)
				c.SetBodyString(flightBody(i))
			case 2:
				return flightErr(i)
			case 3:
				return routing.NewHTTPError(409, flightErr(i).Error())
			default:
				c.SetBodyString(flightBody(i))
			}
			return nil
		})
		routers[side] = r
	}
	for _, s := range f.order {
		if s >= 0 {
			gate[s], done[s] = make(chan struct{}), make(chan struct{})
			ctxs[s] = &fasthttp.RequestCtx{}
			var req fasthttp.Request
			req.SetRequestURI("/op/" + strconv.Itoa(s))
			req.Header.SetHost("site.example")
			ctxs[s].Init(&req, nil, nil)
			go func() { defer close(done[s]); routers[f.on[s]].HandleRequest(ctxs[s]) }()
			if i := <-entered; i != s {
				bad = "another request reaches the handler"
			}
		} else {
			close(gate[^s])
			<-done[^s]
		}
	}
	if bad != "" {
		return bad
	}
	got, bad := reported(rec, agentv3.SpanType_Entry)
	if bad == "" {
		bad = f.count(got)
	}
	if bad != "" {
		return bad
	}
	for i, on := range f.on {
		url := "http://site.example/op/" + strconv.Itoa(i)
		s, m := find(got[on], i, func(s go2sky.ReportedSpan) bool { v, _ := tag(s, go2sky.TagURL); return v == url })
		if m != "" {
			return m
		}
		status := []int{200, 404, 500, 409}[f.outs[i]]
		body := []string{flightBody(i), flightBody(i), flightErr(i).Error(), flightErr(i).Error()}[f.outs[i]]
		if a := ctxs[i].Response; a.StatusCode() != status || string(a.Body()) != body {
			return fmt.Sprintf("request %d is answered %d %q", i, a.StatusCode(), a.Body())
		}
		if v, c := tag(s, go2sky.TagStatusCode); c != 1 || v != strconv.Itoa(status) {
			return fmt.Sprintf("the span of request %d has status %q (%d tags), the answer %d", i, v, c, status)
		}
		if s.IsError() != (f.outs[i] > 0) {
			return fmt.Sprintf("the span of request %d, answered %d, is marked as an error: %v", i, status, s.IsError())
		}
		if f.kid && kids[i] != spanID(s) {
			return fmt.Sprintf("the span made by the handler of request %d is a child of %s, the entry span is %s", i, kids[i], spanID(s))
		}
		must := map[string]bool{}
		if f.outs[i] >= 2 && f.opts[on]&1 != 0 {
			must[flightErr(i).Error()] = true
		}
		if f.outs[i] == 1 && f.opts[on]&2 != 0 {
			must[flightBody(i)] = true
		}
		if m := marks(s, n, must); m != "" {
			return fmt.Sprintf("request %d: %s", i, m)
		}
	}
	return ""
}

// callers makes a context per operation, with a span of its own when asked for.
func (f flight) callers(tr [2]*go2sky.Tracer) (ctxs []context.Context, spans []go2sky.Span) {
	for _, on := range f.on {
		ctx := context.Background()
		var s go2sky.Span
		if f.kid {
			var err error
			if s, ctx, err = tr[on].CreateLocalSpan(ctx, go2sky.WithOperationName("caller")); err != nil {
				panic(err)
			}
		}
		ctxs, spans = append(ctxs, ctx), append(spans, s)
	}
	return
}

// callersDone ends the callers' spans; gives their names.
func callersDone(spans []go2sky.Span) (ids []string, bad string) {
	for i, s := range spans {
		if s == nil {
			ids = append(ids, "")
			continue
		}
		rs := s.(go2sky.ReportedSpan)
		if rs.IsError() {
			return nil, fmt.Sprintf("the span of the caller of operation %d is marked as an error", i)
		}
		ids = append(ids, spanID(rs))
		s.End()
	}
	return ids, ""
}

func parent(s go2sky.ReportedSpan, id string) string {
	if p := fmt.Sprint(s.Context().SegmentID, "/", s.Context().ParentSpanID); id != "" && p != id {
		return fmt.Sprintf("the span is a child of %s, the caller's is %s", p, id)
	}
	return ""
}

func flyClient(f flight, rec [2]*collector, tr [2]*go2sky.Tracer) string {
	n := len(f.on)
	var helpers [2]*swclient.ClientSpanHelper
	for side := range helpers {
		var opts []swclient.Option
		if f.opts[side]&1 != 0 {
			opts = append(opts, swclient.WithLogError())
		}
		if f.opts[side]&2 != 0 {
			opts = append(opts, swclient.WithLog4xxBody())
		}
		helpers[side] = swclient.NewClientSpanHelper(tr[side], opts...)
	}
	ctxs, callers := f.callers(tr)
	spans := make([]go2sky.Span, n)
	heads := make([]string, n)
	for _, s := range f.order {
		if s >= 0 {
			var req fasthttp.Request
			req.SetRequestURI("http://next.example/op/" + strconv.Itoa(s))
			var err error
			if spans[s], err = helpers[f.on[s]].CreateSpan(ctxs[s], &req); err != nil || spans[s] == nil {
				return fmt.Sprintf("no span can be made for operation %d: %v", s, err)
			}
			heads[s] = string(req.Header.Peek("Sw8"))
			continue
		}
		i := ^s
		h := helpers[f.on[i]]
		var res fasthttp.Response
		switch f.outs[i] {
		case 0, 1, 3:
			res.SetStatusCode([]int{200, 404, 0, 503}[f.outs[i]])
			res.SetBodyString(flightBody(i))
			h.EndSpan(spans[i], &res)
		case 2:
			h.EndSpanError(spans[i], flightErr(i))
		}
	}
	ids, bad := callersDone(callers)
	if bad != "" {
		return bad
	}
	got, bad := reported(rec, agentv3.SpanType_Exit)
	if bad == "" {
		bad = f.count(got)
	}
	if bad != "" {
		return bad
	}
	for i, on := range f.on {
		url := "http://next.example/op/" + strconv.Itoa(i)
		s, m := find(got[on], i, func(s go2sky.ReportedSpan) bool { v, _ := tag(s, go2sky.TagURL); return v == url })
		if m == "" {
			m = parent(s, ids[i])
		}
		if m != "" {
			return fmt.Sprintf("operation %d: %s", i, m)
		}
		if s.IsError() != (f.outs[i] > 0) {
			return fmt.Sprintf("the span of operation %d, outcome %d, is marked as an error: %v", i, f.outs[i], s.IsError())
		}
		if want := []string{"200", "404", "", "503"}[f.outs[i]]; want != "" {
			if v, c := tag(s, go2sky.TagStatusCode); c != 1 || v != want {
				return fmt.Sprintf("the span of operation %d has status %q (%d tags), the answer %s", i, v, c, want)
			}
		}
		for j := 0; j < i; j++ {
			if heads[i] == heads[j] {
				return fmt.Sprintf("operations %d and %d carry the same tracing header %q", j, i, heads[i])
			}
		}
		must := map[string]bool{}
		if f.outs[i] == 2 && f.opts[on]&1 != 0 {
			must[flightErr(i).Error()] = true
		}
		if (f.outs[i] == 1 || f.outs[i] == 3) && f.opts[on]&2 != 0 {
			must[flightBody(i)] = true
		}
		if m := marks(s, n, must); m != "" {
			return fmt.Sprintf("operation %d: %s", i, m)
		}
	}
	return ""
}

func flyRedis(f flight, rec [2]*collector, tr [2]*go2sky.Tracer) string {
	return flyHook(f, rec, tr, false)
}

func flyPipeline(f flight, rec [2]*collector, tr [2]*go2sky.Tracer) string {
	return flyHook(f, rec, tr, true)
}

// flyHook: option bit 0 is the second choice of address, 1 the database, 2 the error text, 3 the arguments.
func flyHook(f flight, rec [2]*collector, tr [2]*go2sky.Tracer, pipe bool) string {
	n := len(f.on)
	var hooks [2]redis.Hook
	addr := func(side int) string { return fmt.Sprintf("server%d-%d:6379", side, f.opts[side]&1) }
	for side := range hooks {
		opts := []redis_hook.Option{redis_hook.WithAddr(addr(side))}
		if f.opts[side]&2 != 0 {
			opts = append(opts, redis_hook.WithDb(3+side))
		}
		if f.opts[side]&4 != 0 {
			opts = append(opts, redis_hook.WithLogError())
		}
		if f.opts[side]&8 != 0 {
			opts = append(opts, redis_hook.WithArgsReport())
		}
		hooks[side] = redis_hook.NewHook(tr[side], opts...)
	}
	ctxs, callers := f.callers(tr)
	cmds := make([][]redis.Cmder, n)
	for _, s := range f.order {
		var err error
		if s >= 0 {
			cmds[s] = []redis.Cmder{redis.NewCmd("op"+strconv.Itoa(s), flightArg(s))}
			if pipe {
				cmds[s] = append(cmds[s], redis.NewCmd("last", flightArg(s)))
				ctxs[s], err = hooks[f.on[s]].BeforeProcessPipeline(ctxs[s], cmds[s])
			} else {
				ctxs[s], err = hooks[f.on[s]].BeforeProcess(ctxs[s], cmds[s][0])
			}
		} else {
			i := ^s
			switch f.outs[i] {
			case 1:
				cmds[i][len(cmds[i])-1].SetErr(flightErr(i))
			case 2:
				cmds[i][0].SetErr(flightErr(i))
			}
			if pipe {
				err = hooks[f.on[i]].AfterProcessPipeline(ctxs[i], cmds[i])
			} else {
				err = hooks[f.on[i]].AfterProcess(ctxs[i], cmds[i][0])
			}
		}
		if err != nil {
			return fmt.Sprintf("the hook fails the command: %v", err)
		}
	}
	ids, bad := callersDone(callers)
	if bad != "" {
		return bad
	}
	got, bad := reported(rec, agentv3.SpanType_Exit)
	if bad == "" {
		bad = f.count(got)
	}
	if bad != "" {
		return bad
	}
	for i, on := range f.on {
		op := "op" + strconv.Itoa(i)
		s, m := find(got[on], i, func(s go2sky.ReportedSpan) bool { return strings.HasPrefix(s.OperationName(), op) })
		if m == "" {
			m = parent(s, ids[i])
		}
		if m == "" && s.Peer() != addr(on) {
			m = fmt.Sprintf("the peer of the span is %q, the hook's %q", s.Peer(), addr(on))
		}
		if m == "" && s.IsError() != (f.outs[i] > 0) {
			m = fmt.Sprintf("the span is marked as an error: %v (outcome %d)", s.IsError(), f.outs[i])
		}
		if db, _ := tag(s, go2sky.TagDBInstance); m == "" && f.opts[on]&2 != 0 && db != strconv.Itoa(3+on) {
			m = fmt.Sprintf("the span's database is %q, the hook's %d", db, 3+on)
		}
		if db, _ := tag(s, go2sky.TagDBInstance); m == "" && f.opts[on]&2 == 0 && (db == "3" || db == "4") {
			m = fmt.Sprintf("the span's database is %q, the hook has none", db)
		}
		if m == "" {
			must := map[string]bool{}
			if f.outs[i] > 0 && f.opts[on]&4 != 0 {
				must[flightErr(i).Error()] = true
			}
			if f.opts[on]&8 != 0 {
				must[flightArg(i)] = true
			}
			m = marks(s, n, must)
		}
		if m != "" {
			return fmt.Sprintf("operation %d: %s", i, m)
		}
	}
	return ""
}
