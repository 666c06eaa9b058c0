//go:build go1.22

package main

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"sort"
	"strconv"
	"strings"

	"github.com/SkyAPM/go2sky"
	"github.com/SkyAPM/go2sky/propagation"
	swclient "github.com/chanjarster/gears/skywalking/fasthttp"
	swrouting "github.com/chanjarster/gears/skywalking/fasthttp-routing"
	"github.com/chanjarster/gears/zverif/lib"
	routing "github.com/qiangxue/fasthttp-routing"
	"github.com/valyala/fasthttp"
	agentv3 "skywalking.apache.org/repo/goapi/collect/language/agent/v3"
)

func init() {
	lib.Register("P33", p33, "spans are observed where they leave go2sky: at the reporter", "the server is not shut down while it handles a request")
}

// ---- the server side: the middleware ---------------------------------------------------------------------------------

// ownError is an HTTP error of a type of its own.
type ownError struct {
	code int
	text string
}

func (e ownError) Error() string   { return e.text }
func (e ownError) StatusCode() int { return e.code }

const bodyMark = "body-51c9"
const errMark = "error-8d02"

var plainErr = errors.New(errMark)

// outcome is what the last handler does. child asks for a span made from the context the middleware hands over.
type outcome struct {
	name string
	run  func(c *routing.Context) error
}

func outcomes(thorough bool) (out []outcome) {
	add := func(name string, f func(c *routing.Context) error) { out = append(out, outcome{name, f}) }
	add("does nothing", func(c *routing.Context) error { return nil })
	codes := []int{200, 204, 302, 399, 400, 404, 499, 500, 503}
	if thorough {
		codes = nil
		for s := 100; s < 600; s++ {
			codes = append(codes, s)
		}
	}
	for _, s := range codes {
		s := s
		add(fmt.Sprint("answers ", s), func(c *routing.Context) error {
			c.SetStatusCode(s)
			c.SetBodyString(bodyMark + strconv.Itoa(s))
			c.Response.Header.Set("X-Handler", strconv.Itoa(s))
			return nil
		})
		he := routing.NewHTTPError(s, errMark)
		add(fmt.Sprint("fails with HTTP error ", s), func(c *routing.Context) error { return he })
	}
	add("answers 403 without a body", func(c *routing.Context) error { c.SetStatusCode(403); return nil })
	add("fails with a plain error", func(c *routing.Context) error { return plainErr })
	wrapped := fmt.Errorf("wrapped: %w", routing.NewHTTPError(409, errMark))
	add("fails with a wrapped HTTP error", func(c *routing.Context) error { return wrapped })
	own := ownError{422, errMark}
	add("fails with an HTTP error of its own type", func(c *routing.Context) error { return own })
	add("writes, then fails", func(c *routing.Context) error {
		c.SetStatusCode(201)
		c.SetBodyString(bodyMark)
		return plainErr
	})
	add("answers 503, then fails with HTTP error 404", func(c *routing.Context) error {
		c.SetStatusCode(503)
		c.SetBodyString(bodyMark)
		return own
	})
	add("calls Error(403)", func(c *routing.Context) error { c.Error(bodyMark, 403); return nil })
	add("panics", func(c *routing.Context) error { panic(errMark) })
	add("writes, then panics", func(c *routing.Context) error {
		c.SetStatusCode(202)
		c.SetBodyString(bodyMark)
		panic(plainErr)
	})
	add("redirects", func(c *routing.Context) error { c.Redirect("/elsewhere", 307); return nil })
	add("writes twice", func(c *routing.Context) error {
		_ = c.WriteData(bodyMark)
		return c.WriteData("more")
	})
	for _, code := range []int{200, 404, 503} {
		add(fmt.Sprint("streams a body with status ", code), func(c *routing.Context) error {
			c.SetStatusCode(code)
			c.SetBodyStream(strings.NewReader(bodyMark+"streamed"), -1)
			return nil
		})
		add(fmt.Sprint("streams a body of known size with status ", code), func(c *routing.Context) error {
			c.SetStatusCode(code)
			c.SetBodyStream(strings.NewReader(bodyMark), len(bodyMark))
			return nil
		})
		add(fmt.Sprint("streams a body that breaks off with status ", code), func(c *routing.Context) error {
			c.SetStatusCode(code)
			c.SetBodyStream(io.MultiReader(strings.NewReader(bodyMark), brokenBody{}), -1)
			return nil
		})
	}
	add("streams a body, then fails", func(c *routing.Context) error {
		c.SetBodyStream(strings.NewReader(bodyMark), -1)
		return plainErr
	})
	add("aborts with 401", func(c *routing.Context) error { c.SetStatusCode(401); c.Abort(); return nil })
	add("tells what it sees", func(c *routing.Context) error {
		c.SetBodyString(fmt.Sprintf("%s %s %q %q %q %v", c.Method(), c.RequestURI(), c.Param("id"), c.PostBody(), c.Request.Header.Peek("X-Own"), c.Get("own")))
		c.Set("own", "leaks")
		return nil
	})
	return out
}

type brokenBody struct{}

func (brokenBody) Read([]byte) (int, error) { return 0, errors.New("the source of the body broke") }

// hreq is a request: where it goes, how, with which tracing header.
type hreq struct {
	out    int
	method string
	path   int
	header int
}

var hpaths = []string{"/do/", "/do/?a=1&b=%20", "/none/", "/group/"}

// headers: 0 none, 1 a valid one, the rest are not valid
var hheaders = []string{"", "valid", "garbage", "1-x", "1-dHJhY2U=-c2Vn-x-c3Zj-aW5z-ZW5k-cGVlcg==", "1-***-c2Vn-0-c3Zj-aW5z-ZW5k-cGVlcg=="}

// mcase is a history of requests against one router.
type mcase struct {
	outs   []outcome
	reqs   []hreq
	opts   int // bit 0 error text, 1 body
	tracer int // 0 reports, 1 has no reporter, 2 samples nothing, 3 nil
	child  int // handlers make: 0 no span, 1 a local span, 2 an exit span with the client helper
}

func (m mcase) String() string {
	var rs []string
	for _, r := range m.reqs {
		rs = append(rs, fmt.Sprintf("%s %s%d (%s) with sw8 %q", r.method, hpaths[r.path], r.out, m.outs[r.out].name, hheaders[r.header]))
	}
	return fmt.Sprintf("%s; options {error text %v, body %v}, tracer %d, child spans %d", strings.Join(rs, ", "), m.opts&1 != 0, m.opts&2 != 0, m.tracer, m.child)
}

// site is a router whose outermost handler notes the error that reaches the router, and turns a panic into one.
type site struct {
	r    *routing.Router
	err  error
	pan  any             // what the handler panicked with
	seen context.Context // the context the handler got from the middleware
	hook func(c *routing.Context)
}

func (m mcase) site(mw routing.Handler) *site {
	s := &site{r: routing.New()}
	s.r.Use(func(c *routing.Context) (err error) {
		defer func() {
			if s.pan = recover(); s.pan != nil {
				err = plainErr
			}
			s.err = err
		}()
		return c.Next()
	})
	note := func(c *routing.Context) error {
		s.seen = swrouting.GetSwContext(c)
		if s.hook != nil {
			s.hook(c)
		}
		return nil
	}
	g := s.r.Group("/group")
	if mw != nil {
		s.r.Use(mw)
		g.Use(mw)
	}
	done := map[int]bool{}
	for _, q := range m.reqs {
		if done[q.out] {
			continue
		}
		done[q.out] = true
		o := m.outs[q.out]
		last := func(c *routing.Context) error { return o.run(c) }
		s.r.Get("/do/"+strconv.Itoa(q.out), note, last)
		s.r.Post("/do/"+strconv.Itoa(q.out), note, last)
		g.To("GET,POST,PUT", "/"+strconv.Itoa(q.out)+"<id:.*>", note, last)
	}
	return s
}

const validHeader = "1-dHJhY2U=-c2VnbWVudA==-5-c3Zj-aW5zdA==-L2VuZA==-cGVlcjo4MA=="

func (q hreq) request() *fasthttp.RequestCtx {
	var req fasthttp.Request
	req.Header.SetMethod(q.method)
	i := strings.IndexByte(hpaths[q.path]+"?", '?')
	path := hpaths[q.path][:i] + strconv.Itoa(q.out)
	if q.path == 3 {
		path += "tail"
	}
	req.SetRequestURI(path + hpaths[q.path][i:])
	req.Header.SetHost("site.example:8080")
	req.Header.Set("X-Own", "own")
	if q.method == "POST" {
		req.SetBodyString("posted")
	}
	switch q.header {
	case 0:
	case 1:
		req.Header.Set(propagation.Header, validHeader)
	default:
		req.Header.Set(propagation.Header, hheaders[q.header])
	}
	ctx := &fasthttp.RequestCtx{}
	ctx.Init(&req, nil, nil)
	return ctx
}

// sameErr: the router makes a new error for every unknown path, all others are the handlers' own.
func sameErr(a, b error) bool {
	if a == b || a == nil || b == nil {
		return a == b
	}
	x, ok := a.(routing.HTTPError)
	y, ok2 := b.(routing.HTTPError)
	return ok && ok2 && x.StatusCode() == 404 && y.StatusCode() == 404 && x.Error() == y.Error() && x.Error() == "Not Found"
}

func answer(ctx *fasthttp.RequestCtx) string {
	var hs []string
	ctx.Response.Header.VisitAll(func(k, v []byte) { hs = append(hs, string(k)+": "+string(v)) })
	sort.Strings(hs)
	// what the server would send
	var wire bytes.Buffer
	w := bufio.NewWriter(&wire)
	stream := ctx.Response.IsBodyStream()
	if !stream {
		return fmt.Sprintf("%d %q %q", ctx.Response.StatusCode(), hs, ctx.Response.Body())
	}
	err := ctx.Response.Write(w)
	w.Flush()
	_, sent, _ := bytes.Cut(wire.Bytes(), []byte("\r\n\r\n"))
	return fmt.Sprintf("%d %q stream %q, broken off: %v", ctx.Response.StatusCode(), hs, sent, err)
}

func (m mcase) run() string {
	rec := &collector{}
	var tr *go2sky.Tracer
	if m.tracer < 3 {
		tr = rec.tracer(m.tracer)
	}
	var opts []swrouting.Option
	if m.opts&1 != 0 {
		opts = append(opts, swrouting.WithLogError())
	}
	if m.opts&2 != 0 {
		opts = append(opts, swrouting.WithLog4xxBody())
	}
	bare := m.site(nil)
	traced := m.site(swrouting.NewMiddleware(tr, opts...))
	extra, known := 0, 0
	for i, q := range m.reqs {
		bare.err, traced.err, bare.seen, traced.seen = nil, nil, nil, nil
		a, b := q.request(), q.request()
		var childErr string
		traced.hook = nil
		if m.child > 0 && tr != nil {
			traced.hook = func(c *routing.Context) {
				if m.child == 1 {
					s, _, err := tr.CreateLocalSpan(swrouting.GetSwContext(c), go2sky.WithOperationName("child"))
					if err != nil {
						childErr = "no child span can be made from the context the handler gets: " + err.Error()
						return
					}
					s.End()
					return
				}
				var out fasthttp.Request
				out.SetRequestURI("http://next.example/x")
				h := swclient.NewClientSpanHelper(tr)
				s, err := h.CreateSpan(swrouting.GetSwContext(c), &out)
				if err != nil {
					childErr = "no exit span can be made from the context the handler gets: " + err.Error()
					return
				}
				var res fasthttp.Response
				h.EndSpan(s, &res)
			}
		}
		want := "http://site.example:8080" + string(a.RequestURI())
		bare.r.HandleRequest(a)
		traced.r.HandleRequest(b)
		if childErr != "" {
			return childErr
		}
		at := fmt.Sprintf("request %d: ", i+1)
		if x, y := answer(a), answer(b); x != y {
			return at + fmt.Sprintf("with the middleware the answer is %s, without it %s", y, x)
		}
		if bare.pan != traced.pan {
			return at + fmt.Sprintf("with the middleware the handler's panic comes out as %v, without it as %v", traced.pan, bare.pan)
		}
		if !sameErr(bare.err, traced.err) {
			return at + fmt.Sprintf("with the middleware the router gets error %v, without it %v", traced.err, bare.err)
		}
		reached := bare.seen != nil // a handler ran
		if m.tracer == 3 {
			if reached && traced.seen != context.Background() {
				return at + "without a tracer the handler gets a context of its own"
			}
			continue
		}
		valid := q.header == 1
		invalid := q.header > 1
		if m.tracer == 0 && valid {
			extra++
		}
		all, bad := []go2sky.ReportedSpan(nil), ""
		if m.tracer == 0 {
			all, bad = rec.wait(extra)
		} else {
			all, bad = rec.spansNow(), ""
		}
		if bad != "" {
			return at + bad
		}
		got := all[known:]
		known = len(all)
		if m.tracer != 0 {
			if len(got) > 0 && !(m.tracer == 2 && valid) {
				return at + "spans are reported although nothing is sampled"
			}
			continue
		}
		var entry, child []go2sky.ReportedSpan
		for _, s := range got {
			switch {
			case s.SpanType() == agentv3.SpanType_Entry:
				entry = append(entry, s)
			default:
				child = append(child, s)
			}
		}
		kids := 0
		if m.child > 0 && reached {
			kids = 1
		}
		if len(child) != kids {
			return at + fmt.Sprintf("%d spans of the handler are reported, it made %d", len(child), kids)
		}
		if invalid && len(entry) == 0 {
			continue // a request with a header that cannot be read may go untraced
		}
		if len(entry) != 1 {
			return at + fmt.Sprintf("%d entry spans are reported", len(entry))
		}
		e := entry[0]
		if kids == 1 {
			id, p := spanID(e), fmt.Sprint(child[0].Context().SegmentID, "/", child[0].Context().ParentSpanID)
			if p != id {
				return at + fmt.Sprintf("the handler's span is a child of %s, the entry span is %s", p, id)
			}
			if child[0].EndTime() > e.EndTime() || child[0].StartTime() < e.StartTime() {
				return at + "the entry span does not cover the handler"
			}
		}
		if why := m.checkEntry(e, q, b, want, traced.err, traced.pan != nil); why != "" {
			return at + why
		}
		if valid {
			refs := e.Refs()
			if len(refs) != 1 || refs[0].TraceID != "trace" || refs[0].ParentSegmentID != "segment" || refs[0].ParentSpanID != 5 {
				return at + "the entry span does not refer to the caller's span"
			}
			if e.Context().TraceID != "trace" {
				return at + fmt.Sprintf("the entry span's trace is %q, the caller's is %q", e.Context().TraceID, "trace")
			}
		} else if len(e.Refs()) != 0 {
			return at + "the entry span refers to a caller's span, the request names none"
		}
	}
	return ""
}

func (r *collector) spansNow() []go2sky.ReportedSpan {
	r.mu.Lock()
	defer r.mu.Unlock()
	var all []go2sky.ReportedSpan
	for _, s := range r.segments {
		all = append(all, s...)
	}
	return all
}

func (m mcase) checkEntry(e go2sky.ReportedSpan, q hreq, ctx *fasthttp.RequestCtx, url string, err error, panicked bool) string {
	for _, t := range []struct {
		key  go2sky.Tag
		want string
	}{{go2sky.TagHTTPMethod, q.method}, {go2sky.TagURL, url}, {go2sky.TagStatusCode, strconv.Itoa(ctx.Response.StatusCode())}} {
		if v, n := tag(e, t.key); n != 1 || v != t.want {
			return fmt.Sprintf("the entry span has %d tags %s, value %q, expected %q", n, t.key, v, t.want)
		}
	}
	if op := e.OperationName(); !strings.Contains(op, q.method) || !strings.Contains(op, string(ctx.Path())) {
		return fmt.Sprintf("the entry span is called %q", op)
	}
	failed := err != nil || ctx.Response.StatusCode() >= 400
	if e.IsError() != failed {
		return fmt.Sprintf("the entry span is marked as an error: %v; the handler's error is %v, the status %d", e.IsError(), err, ctx.Response.StatusCode())
	}
	logs := logText(e)
	if m.opts&1 == 0 && strings.Contains(spanText(e), errMark) {
		return fmt.Sprintf("the entry span carries the error text unasked: %q", spanText(e))
	}
	if panicked {
		return "" // what is said about a panic is left open
	}
	if m.opts&1 != 0 && err != nil && !strings.Contains(logs, err.Error()) {
		return fmt.Sprintf("the entry span does not carry the error text %q: %q", err, logs)
	}
	if m.opts&2 == 0 && strings.Contains(spanText(e), bodyMark) {
		return fmt.Sprintf("the entry span carries the body unasked: %q", spanText(e))
	}
	body := string(ctx.Response.Body())
	if strings.HasPrefix(m.outs[q.out].name, "streams") {
		body = "" // a body that is streamed need not be reported
	}
	if m.opts&2 != 0 && err == nil && failed && !strings.Contains(logs, body) {
		return fmt.Sprintf("the entry span does not carry the body %q: %q", body, logs)
	}
	if !failed && strings.TrimSpace(logs) != "" {
		return fmt.Sprintf("the entry span carries a log of a request that did not fail: %q", logs)
	}
	return ""
}

// ---- the client side -------------------------------------------------------------------------------------------------

type ccase struct {
	method, uri, headers int
	body                 bool
	caller               int // 0 none, 1 local, 2 entry, 3 noop
	tracer               int // as above
	opts                 int
	end                  int // index into cends
}

var cmethods = []string{"GET", "POST", "HEAD", "DELETE"}
var curis = []string{"http://next.example/", "http://next.example:8080/a/b?x=1&y=%2F", "https://next.example/a%20b#frag", "http://next.example", "http://user:pw@next.example/p"}
var cheaders = [][][2]string{nil, {{"X-Own", "1"}, {"X-Own", "2"}, {"Content-Type", "text/plain"}, {"Cookie", "a=b"}}, {{"Sw8", "stale"}, {"Sw8-Correlation", "stale"}}, {{"Host", "other.example"}}}
var cends = []struct {
	status int
	body   string
	err    error
}{{status: 200, body: bodyMark}, {status: 399, body: bodyMark}, {status: 400, body: bodyMark}, {status: 404, body: ""}, {status: 500, body: bodyMark}, {status: 302}, {err: plainErr}, {err: fasthttp.ErrTimeout}}

func (t ccase) String() string {
	e := cends[t.end]
	return fmt.Sprintf("%s %s, headers %v, body %v, caller's span %d, tracer %d, options {error text %v, body %v}, ends with status %d, error %v", cmethods[t.method], curis[t.uri], cheaders[t.headers], t.body,
		t.caller, t.tracer, t.opts&1 != 0, t.opts&2 != 0, e.status, e.err)
}

func (t ccase) request() *fasthttp.Request {
	req := &fasthttp.Request{}
	req.SetRequestURI(curis[t.uri])
	req.Header.SetMethod(cmethods[t.method])
	for _, h := range cheaders[t.headers] {
		req.Header.Add(h[0], h[1])
	}
	if t.body {
		req.SetBodyString("sent")
	}
	return req
}

// view of a request without the tracing headers.
func view(req *fasthttp.Request) string {
	var hs []string
	req.Header.VisitAll(func(k, v []byte) {
		if n := strings.ToLower(string(k)); n != propagation.Header && n != propagation.HeaderCorrelation {
			hs = append(hs, string(k)+": "+string(v))
		}
	})
	sort.Strings(hs)
	return fmt.Sprintf("%s %s %s %q %q", req.Header.Method(), req.URI().FullURI(), req.Host(), hs, req.Body())
}

func (t ccase) run() string {
	twin, req := t.request(), t.request()
	twin.URI()
	want := view(twin)
	staleSw, staleCo := string(req.Header.Peek(propagation.Header)), string(req.Header.Peek(propagation.HeaderCorrelation))
	rec := &collector{}
	var tr *go2sky.Tracer
	if t.tracer < 3 {
		tr = rec.tracer(t.tracer)
	}
	var opts []swclient.Option
	if t.opts&1 != 0 {
		opts = append(opts, swclient.WithLogError())
	}
	if t.opts&2 != 0 {
		opts = append(opts, swclient.WithLog4xxBody())
	}
	h := swclient.NewClientSpanHelper(tr, opts...)
	ctx := context.Background()
	var caller go2sky.Span
	var err error
	if tr != nil {
		switch t.caller {
		case 1:
			caller, ctx, err = tr.CreateLocalSpan(ctx, go2sky.WithOperationName("caller"))
		case 2:
			caller, ctx, err = tr.CreateEntrySpan(ctx, "caller", func(string) (string, error) { return "", nil })
		case 3:
			var off *go2sky.Tracer
			if off, err = go2sky.NewTracer("off"); err == nil {
				caller, ctx, err = off.CreateLocalSpan(ctx, go2sky.WithOperationName("caller"))
			}
		}
	}
	if err != nil {
		panic(err)
	}
	span, err := h.CreateSpan(ctx, req)
	if err != nil {
		return "no span can be made: " + err.Error()
	}
	if (span == nil) != (tr == nil) {
		return fmt.Sprintf("the span is %v, the tracer %v", span, tr)
	}
	if got := view(req); got != want {
		return fmt.Sprintf("the request becomes %s, it was %s", got, want)
	}
	sw, co := string(req.Header.Peek(propagation.Header)), string(req.Header.Peek(propagation.HeaderCorrelation))
	reports := t.tracer == 0 && t.caller != 3
	if !reports && (sw != staleSw || co != staleCo) {
		return fmt.Sprintf("nothing is traced, the request's tracing headers become %q %q", sw, co)
	}
	var res fasthttp.Response
	e := cends[t.end]
	if e.err != nil {
		h.EndSpanError(span, e.err)
	} else {
		res.SetStatusCode(e.status)
		res.SetBodyString(e.body)
		h.EndSpan(span, &res)
		if res.StatusCode() != e.status || string(res.Body()) != e.body {
			return "the response changes"
		}
	}
	callerID := ""
	if caller != nil {
		if rs, ok := caller.(go2sky.ReportedSpan); ok {
			callerID = spanID(rs)
		}
		caller.End()
	}
	if t.tracer == 3 {
		return ""
	}
	all, bad := rec.wait(0)
	if bad != "" {
		return bad
	}
	var exits []go2sky.ReportedSpan
	for _, s := range all {
		if callerID != "" && spanID(s) == callerID {
			if s.IsError() {
				return "the caller's span is marked as an error"
			}
			continue
		}
		if s.SpanType() != agentv3.SpanType_Exit {
			return "a span that is not an exit span is reported"
		}
		exits = append(exits, s)
	}
	if !reports {
		if len(exits) > 0 {
			return "spans are reported although nothing is sampled"
		}
		return ""
	}
	if len(exits) != 1 {
		return fmt.Sprintf("%d exit spans are reported", len(exits))
	}
	s := exits[0]
	if callerID != "" {
		if p := fmt.Sprint(s.Context().SegmentID, "/", s.Context().ParentSpanID); p != callerID {
			return fmt.Sprintf("the exit span is a child of %s, the caller's span is %s", p, callerID)
		}
	}
	if s.Peer() != string(req.Host()) {
		return fmt.Sprintf("the peer of the exit span is %q", s.Peer())
	}
	if v, n := tag(s, go2sky.TagHTTPMethod); n != 1 || v != cmethods[t.method] {
		return fmt.Sprintf("the exit span's method is %q (%d tags)", v, n)
	}
	if v, n := tag(s, go2sky.TagURL); n != 1 || v != string(req.URI().FullURI()) {
		return fmt.Sprintf("the exit span's URL is %q (%d tags), the request's is %q", v, n, req.URI().FullURI())
	}
	if op := s.OperationName(); !strings.Contains(op, cmethods[t.method]) || !strings.Contains(op, string(req.URI().Path())) {
		return fmt.Sprintf("the exit span is called %q", op)
	}
	if v, n := tag(s, go2sky.TagStatusCode); e.err == nil && (n != 1 || v != strconv.Itoa(e.status)) {
		return fmt.Sprintf("the exit span's status is %q (%d tags), the response's is %d", v, n, e.status)
	}
	failed := e.err != nil || e.status >= 400
	if s.IsError() != failed {
		return fmt.Sprintf("the exit span is marked as an error: %v", s.IsError())
	}
	logs := logText(s)
	switch {
	case e.err != nil && t.opts&1 != 0 && !strings.Contains(logs, e.err.Error()):
		return fmt.Sprintf("the exit span does not carry the error text: %q", logs)
	case e.err != nil && t.opts&1 == 0 && strings.Contains(spanText(s), e.err.Error()):
		return fmt.Sprintf("the exit span carries the error text unasked: %q", logs)
	case e.err == nil && failed && t.opts&2 != 0 && !strings.Contains(logs, e.body):
		return fmt.Sprintf("the exit span does not carry the body: %q", logs)
	case (e.err != nil || !failed || t.opts&2 == 0) && strings.Contains(spanText(s), bodyMark):
		return fmt.Sprintf("the exit span carries the body unasked: %q", logs)
	}
	// the header names this span: what the receiving end's entry span refers to
	var ref propagation.SpanContext
	if err := ref.Decode(func(k string) (string, error) { return string(req.Header.Peek(k)), nil }); err != nil {
		return fmt.Sprintf("the receiver cannot read the tracing headers %q %q: %v", sw, co, err)
	}
	if ref.TraceID != s.Context().TraceID || ref.ParentSegmentID != s.Context().SegmentID || ref.ParentSpanID != s.Context().SpanID {
		return fmt.Sprintf("the tracing header names span %s/%d of trace %s, the exit span is %s of trace %s", ref.ParentSegmentID, ref.ParentSpanID, ref.TraceID, spanID(s), s.Context().TraceID)
	}
	return ""
}

func p33(thorough bool) []*lib.Unit {
	outs := outcomes(thorough)
	us := lib.Shards("middleware", 6, 8, "every handler outcome × method × route (exact, with a query, unknown, with a parameter in a group) × tracing header (none, valid, four damaged) × options × tracer (reporting, without reporter, sampling nothing, nil) × spans of the handler, against the same router without the middleware",
		func(c *lib.Ctx, shard, shards int) {
			n := 0
			for o := range outs {
				for _, method := range []string{"GET", "POST", "HEAD", "PUT", "OPTIONS"} {
					n++
					if n%shards != shard {
						continue
					}
					for p := range hpaths {
						for h := range hheaders {
							for opts := 0; opts < 4; opts++ {
								for tr := 0; tr < 4; tr++ {
									for child := 0; child < 3; child++ {
										m := mcase{outs, []hreq{{o, method, p, h}}, opts, tr, child}
										c.State(o, method, p, h, opts, tr, child)
										c.Trans(2)
										if !c.Case(m.String, m.run) {
											return
										}
									}
								}
							}
						}
					}
				}
			}
		})
	hist := outcomes(false)
	us = append(us, lib.Shards("histories", 6, 8, "every history of two (thorough: three) requests through one router: outcomes × tracing headers × spans of the handlers, with all options on",
		func(c *lib.Ctx, shard, shards int) {
			depth := 2
			if c.Thorough {
				depth = 3
			}
			n := 0
			var rec func(reqs []hreq) bool
			rec = func(reqs []hreq) bool {
				if len(reqs) == depth {
					n++
					if n%shards != shard {
						return true
					}
					for child := 0; child < 3; child += 2 {
						for tr := 0; tr < 4; tr += 3 {
							if tr == 3 && child > 0 {
								continue
							}
							m := mcase{hist, append([]hreq{}, reqs...), 3, tr, child}
							c.State(fmt.Sprint(reqs), tr, child)
							c.Trans(2 * depth)
							if !c.Case(m.String, m.run) {
								return false
							}
						}
					}
					return true
				}
				for o := range hist {
					if depth == 3 && o%2 == 1 && len(reqs) != 1 {
						continue
					}
					for _, h := range []int{0, 1, 2} {
						for _, p := range []int{0, 2, 3} {
							if depth == 3 && p == 3 {
								continue
							}
							if !rec(append(reqs, hreq{o, "GET", p, h})) {
								return false
							}
						}
					}
				}
				return true
			}
			rec(nil)
		})...)
	us = append(us, lib.Shards("client", 4, 8, "every request (methods, URLs, headers, body) × caller's span × tracer × options × how the request ends",
		func(c *lib.Ctx, shard, shards int) {
			n := 0
			for method := range cmethods {
				for uri := range curis {
					for hs := range cheaders {
						n++
						if n%shards != shard {
							continue
						}
						for body := 0; body < 2; body++ {
							for caller := 0; caller < 4; caller++ {
								for tr := 0; tr < 4; tr++ {
									for opts := 0; opts < 4; opts++ {
										for end := range cends {
											t := ccase{method, uri, hs, body == 1, caller, tr, opts, end}
											c.State(t)
											c.Trans(1)
											if !c.Case(t.String, t.run) {
												return
											}
										}
									}
								}
							}
						}
					}
				}
			}
		})...)
	return us
}
