//go:build go1.22

package main

import (
	"encoding/base64"
	"fmt"
	"net/http"
	"net/http/httptest"
	"runtime"
	"strings"

	"github.com/chanjarster/gears/confs"
	"github.com/chanjarster/gears/zverif/lib"
	"github.com/gin-gonic/gin"
	routing "github.com/qiangxue/fasthttp-routing"
	"github.com/valyala/fasthttp"
)

func init() {
	lib.Register("P30", p30, "a user name has no ':' (HTTP Basic cannot carry one)", "one Authorization header; the scheme is spelt Basic or is another one; canonical base64")
	gin.SetMode(gin.ReleaseMode)
}

// guard serves one request: (status, whether profiling data came out, body).
type guard func(method, path string, hdr *string) (int, bool, string)

var guards = []struct {
	name string
	mk   func(cf *confs.PprofConf) guard
}{
	{"gin", func(cf *confs.PprofConf) guard {
		e := gin.New()
		reached := false
		h := func(c *gin.Context) { reached = true; c.String(200, "PROFILE") }
		g := e.Group("/debug/pprof", confs.NewGinPprofBasicAuthFilter(cf))
		g.Any("/", h)
		g.Any("/cmdline", h)
		g.Any("/symbol", h)
		return func(method, path string, hdr *string) (int, bool, string) {
			reached = false
			r := httptest.NewRequest(method, path, nil)
			if hdr != nil {
				r.Header["Authorization"] = []string{*hdr}
			}
			w := httptest.NewRecorder()
			e.ServeHTTP(w, r)
			return w.Code, reached || strings.Contains(w.Body.String(), "PROFILE"), w.Body.String()
		}
	}},
	{"fasthttp", func(cf *confs.PprofConf) guard {
		rt := routing.New()
		rt.Any("/debug/pprof/*", confs.NewFasthttpRoutingPprofHandler(cf))
		return func(method, path string, hdr *string) (int, bool, string) {
			ctx := &fasthttp.RequestCtx{}
			ctx.Request.Header.SetMethod(method)
			ctx.Request.SetRequestURI(path)
			if hdr != nil {
				ctx.Request.Header.Set("Authorization", *hdr)
			}
			rt.HandleRequest(ctx)
			body := string(ctx.Response.Body())
			data := body != "" && ctx.Response.StatusCode() != 401 && ctx.Response.StatusCode() != 404
			for _, mark := range []string{"goroutine", "num_symbols", "zverif"} {
				data = data || strings.Contains(body, mark)
			}
			return ctx.Response.StatusCode(), data, body
		}
	}},
}

type creds struct{ user, pass string }

func p30(thorough bool) []*lib.Unit {
	var us []*lib.Unit
	for gi := range guards {
		g := guards[gi]
		us = append(us, lib.Shards("credentials-"+g.name, 4, 4, "every configured pair × every presented pair over short strings of {a, b, :, é, space}, in every encoding of the request",
			func(c *lib.Ctx, shard, shards int) { credCases(c, g.name, g.mk, shard, shards) })...)
		us = append(us, lib.Shards("headers-"+g.name, 4, 2, "every header text of up to 6 elements from {Basic, space, the right token, its prefix, another token, =, a}",
			func(c *lib.Ctx, shard, shards int) { headerCases(c, g.name, g.mk, shard, shards) })...)
		us = append(us, lib.Shards("near-"+g.name, 3, 2, "every pair of one edit (a character deleted, doubled, replaced by any other ASCII character, inserted, in the other case, or two swapped) from the configured pair, for several configured pairs",
			func(c *lib.Ctx, shard, shards int) { nearCases(c, g.name, g.mk, shard, shards) })...)
		us = append(us, lib.Shards("two-"+g.name, 2, 1, "two guards of different configurations in one process: every sequence of up to 4 (thorough: 5) requests with the credentials of either, or none, to either",
			func(c *lib.Ctx, _, _ int) { twoGuards(c, g.name, g.mk) })...)
		us = append(us, lib.Shards("histories-"+g.name, 4, 1, "every sequence of up to 4 (5 in thorough) requests to one guard: right, wrong, none, for each endpoint and method",
			func(c *lib.Ctx, _, _ int) { guardHistories(c, g.name, g.mk) })...)
	}
	return us
}

func judge(cf confs.PprofConf, right bool, code int, data bool, body string) string {
	configured := cf.Username != "" && cf.Password != ""
	switch {
	case right && configured:
		if !data || code != 200 {
			return fmt.Sprintf("the configured user is not served: status %d, body %q", code, short(body))
		}
	case data:
		return fmt.Sprintf("profiling data is served without the credentials: status %d, body %q", code, short(body))
	case configured && code != 401:
		return fmt.Sprintf("status %d instead of 401", code)
	}
	return ""
}

func short(s string) string {
	if len(s) > 80 {
		return s[:80] + "..."
	}
	return s
}

func credCases(c *lib.Ctx, name string, mk func(cf *confs.PprofConf) guard, shard, shards int) {
	max := 2
	if c.Thorough {
		max = 3
	}
	users := strsOf([]string{"a", "b", "é"}, 0, max)
	passes := strsOf([]string{"a", ":", "é", " "}, 0, max)
	n := 0
	for _, u := range users {
		for _, p := range passes {
			n++
			if n%shards != shard {
				continue
			}
			cf := confs.PprofConf{Username: u, Password: p}
			g := mk(&cf)
			try := func(hdr *string, right bool) bool {
				c.Trans(1)
				return c.Case(func() string {
					h := "none"
					if hdr != nil {
						h = fmt.Sprintf("%q", *hdr)
					}
					return fmt.Sprintf("%s guard for user %q password %q, Authorization %s", name, u, p, h)
				}, func() string {
					code, data, body := g("GET", "/debug/pprof/cmdline", hdr)
					return judge(cf, right, code, data, body)
				})
			}
			for _, pair := range strsOf([]string{"a", "b", ":", "é", " "}, 0, 2*max-1) {
				c.State(u, p, pair)
				b := base64.StdEncoding.EncodeToString([]byte(pair))
				right := pair == u+":"+p
				hdr := "Basic " + b
				if !try(&hdr, right) {
					return
				}
			}
			full := u + ":" + p
			b := base64.StdEncoding.EncodeToString([]byte(full))
			right := "Basic " + b
			if !try(&right, true) || !try(nil, false) {
				return
			}
			for _, h := range []string{"", "Basic", "Basic ", b, full, "Basic " + full, "Bearer " + b, "Digest " + b, "Basic" + b, "Basic:" + b, "Basic," + b, "xBasic " + b,
				"Basic " + base64.StdEncoding.EncodeToString([]byte(full+"\x00")), "Basic " + base64.StdEncoding.EncodeToString([]byte(full+"a")),
				"Basic " + base64.StdEncoding.EncodeToString([]byte("a"+full)), "Basic " + base64.StdEncoding.EncodeToString([]byte(u)), "Basic " + base64.StdEncoding.EncodeToString([]byte(p)),
				"Basic " + base64.StdEncoding.EncodeToString([]byte(p+":"+u)), "Basic " + base64.StdEncoding.EncodeToString([]byte(strings.ToUpper(full))) + "x", "Basic " + b + " " + b, "Basic " + b + ", Basic x"} {
				if h == right || u == p && h == "Basic "+base64.StdEncoding.EncodeToString([]byte(p+":"+u)) {
					continue
				}
				if !try(&h, false) {
					return
				}
			}
		}
	}
	runtime.SetBlockProfileRate(0)
	runtime.SetMutexProfileFraction(0)
}

func headerCases(c *lib.Ctx, name string, mk func(cf *confs.PprofConf) guard, shard, shards int) {
	cf := confs.PprofConf{Username: "admin", Password: "pw:1"}
	tok := base64.StdEncoding.EncodeToString([]byte("admin:pw:1"))
	other := base64.StdEncoding.EncodeToString([]byte("admin:pw"))
	g := mk(&cf)
	alpha := []string{"Basic", " ", tok, tok[:len(tok)-4], other, "=", "a"}
	depth := 5
	if c.Thorough {
		depth = 6
	}
	canonical := func(h string) bool {
		// leading and trailing blanks are not part of a header's value, and other spellings of the token are outside
		if strings.TrimSpace(h) != h {
			return false
		}
		if t, ok := strings.CutPrefix(h, "Basic "); ok {
			if b, err := base64.StdEncoding.DecodeString(t); err == nil && base64.StdEncoding.EncodeToString(b) != t {
				return false
			}
		}
		return true
	}
	for i, h := range strsOf(alpha, 0, depth) {
		if i%shards != shard || !canonical(h) {
			continue
		}
		c.State(h)
		c.Trans(1)
		if !c.Case(func() string { return fmt.Sprintf("%s guard for admin/pw:1, Authorization %q", name, h) }, func() string {
			code, data, body := g("GET", "/debug/pprof/cmdline", &h)
			return judge(cf, h == "Basic "+tok, code, data, body)
		}) {
			return
		}
	}
}

func guardHistories(c *lib.Ctx, name string, mk func(cf *confs.PprofConf) guard) {
	type req struct {
		method, path string
		hdr          *string
		right        bool
	}
	str := func(s string) *string { return &s }
	right := str("Basic " + base64.StdEncoding.EncodeToString([]byte("admin:secret")))
	var reqs []req
	for _, p := range []string{"/debug/pprof/", "/debug/pprof/cmdline", "/debug/pprof/symbol"} {
		reqs = append(reqs, req{http.MethodGet, p, right, true}, req{http.MethodGet, p, nil, false},
			req{http.MethodGet, p, str("Basic " + base64.StdEncoding.EncodeToString([]byte("admin:Secret"))), false})
	}
	reqs = append(reqs, req{http.MethodPost, "/debug/pprof/symbol", right, true}, req{http.MethodPost, "/debug/pprof/symbol", nil, false})
	for _, cf := range []confs.PprofConf{{Username: "admin", Password: "secret"}, {}, {Username: "admin"}, {Password: "secret"}, {Username: "admin", Password: "secret", BlockProfileRate: 1, MutexProfileFraction: 1}} {
		depth := 4
		if c.Thorough {
			depth = 5
		}
		for d := 1; d <= depth; d++ {
			c.Sequences(len(reqs), d, 0, 1, func(seq []int) string {
				s := fmt.Sprintf("%s guard for %q/%q:", name, cf.Username, cf.Password)
				for _, i := range seq {
					s += fmt.Sprintf(" %s %s (right credentials: %v)", reqs[i].method, reqs[i].path, reqs[i].right)
				}
				return s
			}, func(seq []int) string {
				g := mk(&cf)
				for k, i := range seq {
					r := reqs[i]
					c.State(cf, i)
					c.Trans(1)
					code, data, body := g(r.method, r.path, r.hdr)
					if m := judge(cf, r.right, code, data, body); m != "" {
						return fmt.Sprintf("request %d: %s", k, m)
					}
				}
				return ""
			})
		}
	}
	runtime.SetBlockProfileRate(0)
	runtime.SetMutexProfileFraction(0)
}

// nearCases presents pairs that differ from the configured one by one edit.
func nearCases(c *lib.Ctx, name string, mk func(cf *confs.PprofConf) guard, shard, shards int) {
	n := 0
	for _, cf := range []confs.PprofConf{{Username: "Admin", Password: "Pa:s s"}, {Username: "a", Password: "b"}, {Username: "user@x.example", Password: "é%20+/="}, {Username: " x ", Password: "\t"}, {Username: "u", Password: strings.Repeat("p", 70)}} {
		cf := cf
		g := mk(&cf)
		full := cf.Username + ":" + cf.Password
		try := func(pair string) bool {
			n++
			if n%shards != shard {
				return true
			}
			c.State(cf, pair)
			c.Trans(1)
			return c.Case(func() string {
				return fmt.Sprintf("%s guard for user %q password %q, presented %q", name, cf.Username, cf.Password, pair)
			}, func() string {
				hdr := "Basic " + base64.StdEncoding.EncodeToString([]byte(pair))
				code, data, body := g("GET", "/debug/pprof/cmdline", &hdr)
				return judge(cf, pair == full, code, data, body)
			})
		}
		for i := 0; i <= len(full); i++ {
			for x := 0; x < 128; x++ {
				if !try(full[:i] + string(rune(x)) + full[i:]) {
					return
				}
				if i < len(full) && !try(full[:i]+string(rune(x))+full[i+1:]) {
					return
				}
			}
			if i == len(full) {
				break
			}
			if !try(full[:i]+full[i+1:]) || !try(full[:i]) || !try(full[i:]) || i > 0 && !try(full[:i-1]+full[i:i+1]+full[i-1:i]+full[i+1:]) {
				return
			}
		}
		if !try(strings.ToUpper(full)) || !try(strings.ToLower(full)) || !try(full+full) || !try(strings.TrimSpace(full)) || !try(strings.ReplaceAll(full, " ", "+")) {
			return
		}
	}
	runtime.SetBlockProfileRate(0)
	runtime.SetMutexProfileFraction(0)
}

// twoGuards have nothing to do with each other.
func twoGuards(c *lib.Ctx, name string, mk func(cf *confs.PprofConf) guard) {
	hdr := func(s string) *string { s = "Basic " + base64.StdEncoding.EncodeToString([]byte(s)); return &s }
	hdrs := []*string{hdr("a:1"), hdr("b:2"), hdr("a:2"), nil}
	for _, cfs := range [][2]confs.PprofConf{{{Username: "a", Password: "1"}, {Username: "b", Password: "2"}}, {{Username: "a", Password: "1"}, {Username: "a", Password: "2"}}, {{Username: "a", Password: "1"}, {}}, {{}, {Username: "b", Password: "2"}}} {
		for d := 1; d <= twoDepth(c); d++ {
			c.Sequences(2*len(hdrs), d, 0, 1, func(seq []int) string {
				return fmt.Sprintf("%s guards %v, requests (guard, header) %v", name, cfs, seq)
			}, func(seq []int) string {
				gs := []guard{mk(&cfs[0]), mk(&cfs[1])}
				for k, i := range seq {
					which, h := i%2, i/2
					c.State(cfs[which], h)
					c.Trans(1)
					code, data, body := gs[which]("GET", "/debug/pprof/cmdline", hdrs[h])
					cf := cfs[which]
					right := hdrs[h] != nil && *hdrs[h] == *hdr(cf.Username + ":" + cf.Password)
					if m := judge(cf, right, code, data, body); m != "" {
						return fmt.Sprintf("request %d: %s", k, m)
					}
				}
				return ""
			})
		}
	}
	runtime.SetBlockProfileRate(0)
	runtime.SetMutexProfileFraction(0)
}

func twoDepth(c *lib.Ctx) int {
	if c.Thorough {
		return 5
	}
	return 4
}
