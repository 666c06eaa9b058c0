//go:build go1.22

package mc

import (
	"time"
	"unsafe"
)

// Timer is a controlled time.Timer (with the buffered channel semantics of modules older than go 1.23).
type Timer struct {
	C  <-chan time.Time
	c  chan time.Time
	f  func()
	tm *timer
}

func tval(ns int64) time.Time { return time.Unix(0, ns) }

// Now is time.Now on the virtual clock.
func Now() time.Time { return tval(NowNano()) }

// Sleep is time.Sleep on the virtual clock.
func Sleep(d time.Duration) {
	x := curX
	if x == nil {
		if d > 0 {
			dirNow += int64(d)
		}
		return
	}
	x.point("Sleep")
	if d <= 0 {
		return
	}
	t := x.cur
	t.st = tParked
	x.addTimer(int64(d), 0, "Sleep of "+t.name, func(x *Exec) {
		t.vc = joinVC(t.vc, x.cur.vc)
		t.h = mix(t.h, x.cur.h)
		x.ready(t)
	})
	x.park("Sleep")
}

func (t *Timer) start(d time.Duration) {
	x := curX
	t.tm = x.addTimer(int64(d), 0, "timer", t.fire)
}

func (t *Timer) fire(x *Exec) {
	if t.f != nil {
		x.newThread("AfterFunc", true, t.f)
		return
	}
	x.envSend(chptr(t.c), 1, tval(x.now))
}

// NewTimer mirrors time.NewTimer.
func NewTimer(d time.Duration) *Timer {
	x := curX
	if x == nil {
		panic("mc: timer in sequential code")
	}
	x.point("NewTimer")
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c}
	t.start(d)
	return t
}

// AfterFunc mirrors time.AfterFunc.
func AfterFunc(d time.Duration, f func()) *Timer {
	x := curX
	if x == nil {
		panic("mc: timer in sequential code")
	}
	x.point("AfterFunc")
	t := &Timer{f: f}
	t.start(d)
	return t
}

// After mirrors time.After.
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

// Stop mirrors time.Timer.Stop.
func (t *Timer) Stop() bool {
	x := curX
	if x == nil || x.dead {
		return false
	}
	x.point("Timer.Stop")
	was := t.tm != nil && t.tm.active
	if was {
		x.dropTimer(t.tm)
	}
	b := uint64(0)
	if was {
		b = 1
	}
	x.evL(0x600 + b)
	return was
}

// Reset mirrors time.Timer.Reset.
func (t *Timer) Reset(d time.Duration) bool {
	x := curX
	if x == nil || x.dead {
		return false
	}
	x.point("Timer.Reset")
	was := t.tm != nil && t.tm.active
	if was {
		x.dropTimer(t.tm)
	}
	t.start(d)
	return was
}

// Ticker is a controlled time.Ticker.
type Ticker struct {
	C  <-chan time.Time
	c  chan time.Time
	tm *timer
}

// NewTicker mirrors time.NewTicker.
func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	x := curX
	if x == nil {
		panic("mc: ticker in sequential code")
	}
	x.point("NewTicker")
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, c: c}
	t.tm = x.addTimer(int64(d), int64(d), "ticker", t.fire)
	return t
}

func (t *Ticker) fire(x *Exec) { x.envSend(chptr(t.c), 1, tval(x.now)) }

// Tick mirrors time.Tick.
func Tick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

// Stop mirrors time.Ticker.Stop.
func (t *Ticker) Stop() {
	x := curX
	if x == nil || x.dead {
		return
	}
	x.point("Ticker.Stop")
	if t.tm.active {
		x.dropTimer(t.tm)
	}
	x.evL(0x610)
}

// Reset mirrors time.Ticker.Reset.
func (t *Ticker) Reset(d time.Duration) {
	x := curX
	if x == nil || x.dead {
		return
	}
	x.point("Ticker.Reset")
	if t.tm.active {
		x.dropTimer(t.tm)
	}
	t.tm = x.addTimer(int64(d), int64(d), "ticker", t.fire)
}

// ---- contexts ------------------------------------------------------------------------------------------------------

// Ctx is the state of a cancellable context.
type Ctx struct {
	DoneC    chan struct{}
	m        Mutex
	err      error
	tm       *timer
	children []func(err error)
}

// NewCtx makes the state.
func NewCtx() *Ctx { return &Ctx{DoneC: make(chan struct{})} }

// Err of the context (a visible operation).
func (c *Ctx) Err() error {
	c.m.Lock()
	defer c.m.Unlock()
	return c.err
}

// Cancel the context with err; only the first call has an effect.
func (c *Ctx) Cancel(err error) {
	c.m.Lock()
	if c.err != nil {
		c.m.Unlock()
		return
	}
	c.err = err
	if x := curX; x != nil {
		if x.dead {
			return
		}
		x.closeNow(getChan(chptr(c.DoneC), 0))
	} else {
		closeChan(chptr(c.DoneC), 0)
	}
	ch := c.children
	c.children = nil
	if c.tm != nil && c.tm.active {
		curX.dropTimer(c.tm)
	}
	c.m.Unlock()
	for _, f := range ch {
		f(err)
	}
}

// OnCancel registers f to run when c is cancelled (at once when it already is).
func (c *Ctx) OnCancel(f func(err error)) {
	c.m.Lock()
	if c.err != nil {
		e := c.err
		c.m.Unlock()
		f(e)
		return
	}
	c.children = append(c.children, f)
	c.m.Unlock()
}

// CancelAfter arms the deadline; expiry runs in a goroutine of its own, like context.WithTimeout.
func (c *Ctx) CancelAfter(d time.Duration, err error) {
	x := curX
	if x == nil {
		panic("mc: context with timeout in sequential code")
	}
	c.tm = x.addTimer(int64(d), 0, "context deadline", func(x *Exec) {
		x.newThread("context deadline", true, func() { c.Cancel(err) })
	})
}

var _ = unsafe.Pointer(nil)
