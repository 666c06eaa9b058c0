//go:build go1.22

// Package mcontext replaces the cancellable contexts of package context in rewritten code.
package mcontext

import (
	"context"
	"time"

	"github.com/chanjarster/gears/zverif/mc"
)

type cctx struct {
	parent   context.Context
	s        *mc.Ctx
	deadline time.Time
	has      bool
	cause    error
}

func (c *cctx) Deadline() (time.Time, bool) {
	if c.has {
		return c.deadline, true
	}
	return c.parent.Deadline()
}
func (c *cctx) Done() <-chan struct{} { return c.s.DoneC }
func (c *cctx) Err() error            { return c.s.Err() }

type keyT struct{}

var key keyT

func (c *cctx) Value(k any) any {
	if k == any(key) {
		return c
	}
	return c.parent.Value(k)
}

func newC(parent context.Context) *cctx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &cctx{parent: parent, s: mc.NewCtx()}
	if p, ok := parent.Value(key).(*cctx); ok {
		p.s.OnCancel(func(err error) { c.s.Cancel(err) })
	}
	return c
}

func WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	c := newC(parent)
	return c, func() { c.s.Cancel(context.Canceled) }
}

func WithCancelCause(parent context.Context) (context.Context, context.CancelCauseFunc) {
	c := newC(parent)
	return c, func(cause error) {
		if c.cause == nil {
			c.cause = cause
		}
		c.s.Cancel(context.Canceled)
	}
}

func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return WithDeadline(parent, time.Unix(0, mc.NowNano()).Add(d))
}

func WithDeadline(parent context.Context, t time.Time) (context.Context, context.CancelFunc) {
	if p, ok := parent.Deadline(); ok && p.Before(t) {
		return WithCancel(parent)
	}
	c := newC(parent)
	c.deadline, c.has = t, true
	d := t.Sub(time.Unix(0, mc.PeekNano()))
	if d <= 0 {
		c.s.Cancel(context.DeadlineExceeded)
		return c, func() { c.s.Cancel(context.Canceled) }
	}
	if c.s.Err() == nil {
		c.s.CancelAfter(d, context.DeadlineExceeded)
	}
	return c, func() { c.s.Cancel(context.Canceled) }
}

func Cause(c context.Context) error {
	if p, ok := c.Value(key).(*cctx); ok {
		if p.cause != nil && p.s.Err() != nil {
			return p.cause
		}
		return c.Err()
	}
	return context.Cause(c)
}

// AfterFunc mirrors context.AfterFunc.
func AfterFunc(ctx context.Context, f func()) (stop func() bool) {
	if p, ok := ctx.Value(key).(*cctx); ok {
		var m mc.Mutex
		state := 0
		p.s.OnCancel(func(error) {
			m.Lock()
			run := state == 0
			state |= 1
			m.Unlock()
			if run {
				mc.Go("context.AfterFunc", f)
			}
		})
		return func() bool {
			m.Lock()
			defer m.Unlock()
			r := state == 0
			state |= 2
			return r
		}
	}
	return func() bool { return true }
}
