//go:build go1.22

package main

import (
	"context"
	"fmt"
	"strings"

	"github.com/chanjarster/gears/ratelimiter"
	"github.com/chanjarster/gears/zverif/lib"
	"github.com/chanjarster/gears/zverif/mc"
	"github.com/go-redis/redis/v7"
)

type ctxKey struct{}

// ctxHook notes the value of the context each command is run with.
type ctxHook struct{ seen []any }

func (h *ctxHook) BeforeProcess(ctx context.Context, cmd redis.Cmder) (context.Context, error) {
	h.seen = append(h.seen, ctx.Value(ctxKey{}))
	return ctx, nil
}
func (h *ctxHook) AfterProcess(context.Context, redis.Cmder) error { return nil }
func (h *ctxHook) BeforeProcessPipeline(ctx context.Context, cmds []redis.Cmder) (context.Context, error) {
	return h.BeforeProcess(ctx, nil)
}
func (h *ctxHook) AfterProcessPipeline(context.Context, []redis.Cmder) error { return nil }

// p10contexts: calls with contexts that carry a value, are cancelled or have expired, against the same calls without those that
// are cancelled or expired.
func p10contexts(th bool) []*lib.Unit {
	kinds := []string{"plain", "with a value", "cancelled", "expired"}
	calls := []string{"ShouldBlock", "ShouldBlock2", "IsBlocked"}
	n := len(kinds)*len(calls) + 1 // the last one advances the clock
	name := func(o int) string {
		if o == n-1 {
			return "+1.2s"
		}
		return calls[o/len(kinds)] + " " + kinds[o%len(kinds)]
	}
	depth := 4
	if th {
		depth = 5
	}
	do := func(l ratelimiter.TtlRateLimiter, ctx context.Context, call int) *ratelimiter.Result {
		switch call {
		case 0:
			return l.ShouldBlockContext(ctx, "a", "m")
		case 1:
			return l.ShouldBlock2Context(ctx, "b", "a", "n")
		}
		return l.IsBlockedContext(ctx, "a")
	}
	return lib.Shards("contexts", 4, 4, fmt.Sprintf("all sequences of %d calls and clock steps, each call with a plain context, one with a value, a cancelled or an expired one", depth), func(c *lib.Ctx, i, k int) {
		for _, mode := range []string{"", "t"} {
			c.Sequences(n, depth, i, k, func(seq []int) string {
				var s []string
				for _, o := range seq {
					s = append(s, name(o))
				}
				return fmt.Sprintf("hash tag %q: %s", mode, strings.Join(s, "; "))
			}, func(seq []int) string {
				mc.SetNow(mc.Epoch0)
				mk := func() (*ratelimiter.TtlRateLimiter, func() int, *ctxHook, func()) {
					srv, cl := newRedis()
					ratelimiter.LoadScript(cl)
					h := &ctxHook{}
					cl.AddHook(h)
					var l ratelimiter.TtlRateLimiter
					if mode == "" {
						l = ratelimiter.NewRedisTtlRateLimiter(cl, &ttlParams{1, 2, 2})
					} else {
						l = ratelimiter.NewRedisTtlRateLimiterCluster(cl, &ttlParams{1, 2, 2}, mode)
					}
					return &l, func() int { return len(srv.Commands()) }, h, func() { cl.Close() }
				}
				l, count, hook, done := mk()
				defer done()
				ref, _, _, done2 := mk()
				defer done2()
				for j, o := range seq {
					if o == n-1 {
						mc.Advance(1200 * 1000000)
						continue
					}
					call, kind := o/len(kinds), o%len(kinds)
					at := fmt.Sprintf("step %d (%s): ", j+1, name(o))
					ctx := context.Background()
					switch kind {
					case 1:
						ctx = context.WithValue(ctx, ctxKey{}, j)
					case 2:
						cc, cancel := context.WithCancel(ctx)
						cancel()
						ctx = cc
					case 3:
						cc, cancel := context.WithTimeout(ctx, -1)
						defer cancel()
						ctx = cc
					}
					before := count()
					hook.seen = nil
					got := *do(*l, ctx, call)
					c.Trans(1)
					if kind >= 2 {
						if (got != ratelimiter.Result{}) {
							return at + fmt.Sprintf("result %+v", got)
						}
						if count() != before {
							return at + "the call asks Redis although its context has ended"
						}
						continue
					}
					want := *do(*ref, context.Background(), call)
					if got != want {
						return at + fmt.Sprintf("result %+v, without the ended calls before it %+v", got, want)
					}
					if kind == 1 {
						for _, v := range hook.seen {
							if v != j {
								return at + fmt.Sprintf("the Redis client is given another context: value %v", v)
							}
						}
						if len(hook.seen) == 0 {
							return at + "the Redis client is not asked"
						}
					}
					c.State(mode, got.Block, got.Triggered, got.Ttl, kind, call)
				}
				return ""
			})
		}
	})
}
