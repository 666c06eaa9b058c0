//go:build go1.22

package mc

import (
	"fmt"
	"unsafe"
)

type item struct {
	v  any
	vc []uint32
}

type waiter struct {
	t     *Thread
	cases []*SelCase
	fired int // -1 until completed
}

type wref struct {
	w *waiter
	i int
}

type chanState struct {
	obj
	cap     int
	buf     []item
	closed  bool
	closeVC []uint32
	recvq   []wref
	sendq   []wref
	nsend   int
	recvVC  [][]uint32 // clock of every completed receive (buffered channels)
}

// SelCase is one communication of a select.
type SelCase struct {
	ch   unsafe.Pointer
	cp   int
	send bool
	v    any // value to send / received value
	ok   bool
	pan  bool // resumed because the channel was closed while sending
	set  func(v any, ok bool)
}

func chptr[T any](ch chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

var dirChans = map[unsafe.Pointer]*chanState{}

func getChan(p unsafe.Pointer, cp int) *chanState {
	if p == nil {
		return nil
	}
	m := dirChans
	if curX != nil {
		m = curX.chans
	}
	c := m[p]
	if c == nil {
		c = &chanState{cap: cp}
		m[p] = c
	}
	return c
}

// RecvCase is a receive communication.
type RecvCase[T any] struct {
	SelCase
	V  T
	OK bool
}

// SR builds a receive case.
func SR[T any](ch <-chan T) *RecvCase[T] {
	c := &RecvCase[T]{}
	c.ch = *(*unsafe.Pointer)(unsafe.Pointer(&ch))
	c.cp = cap(ch)
	c.set = func(v any, ok bool) {
		c.OK = ok
		if ok && v != nil {
			c.V = v.(T)
		}
	}
	return c
}

func (c *RecvCase[T]) sel() *SelCase { return &c.SelCase }

// SendCase is a send communication.
type SendCase struct{ SelCase }

func (c *SendCase) sel() *SelCase { return &c.SelCase }

// SS builds a send case.
func SS[T any](ch chan<- T) func(v T) *SendCase {
	p := *(*unsafe.Pointer)(unsafe.Pointer(&ch))
	cp := cap(ch)
	return func(v T) *SendCase {
		c := &SendCase{}
		c.ch = p
		c.cp = cp
		c.send = true
		c.v = v
		return c
	}
}

// Case is a select case.
type Case interface{ sel() *SelCase }

// Sel performs a select; -1 is the default case.
func Sel(hasDefault bool, cases ...Case) int {
	cs := make([]*SelCase, len(cases))
	for i, c := range cases {
		cs[i] = c.sel()
	}
	return doSelect(cs, hasDefault)
}

func ready(x *Exec, c *SelCase) bool {
	s := getChan(c.ch, c.cp)
	if s == nil {
		return false
	}
	if c.send {
		return s.closed || len(s.buf) < s.cap || live(&s.recvq)
	}
	return s.closed || len(s.buf) > 0 || live(&s.sendq)
}

// live drops completed waiters and reports whether one is left.
func live(q *[]wref) bool {
	for len(*q) > 0 && (*q)[0].w.fired >= 0 {
		*q = (*q)[1:]
	}
	return len(*q) > 0
}

func doSelect(cs []*SelCase, hasDefault bool) int {
	x := curX
	if x == nil {
		return directSelect(cs, hasDefault)
	}
	what := ""
	if x.tracing {
		for _, c := range cs {
			if c.send {
				what += fmt.Sprintf(" send %v", c.v)
			} else {
				what += " recv"
			}
		}
		if hasDefault {
			what += " default"
		}
	}
	x.point("chan:" + what)
	var rd [8]int
	n := 0
	for i, c := range cs {
		if n < len(rd) && ready(x, c) {
			rd[n] = i
			n++
		}
	}
	t := x.cur
	if n == 0 {
		if hasDefault {
			for _, c := range cs {
				if s := getChan(c.ch, c.cp); s != nil {
					x.fresh(&s.obj)
					x.evR(&s.obj, 21)
				}
			}
			return -1
		}
		w := &waiter{t: t, cases: cs, fired: -1}
		for i, c := range cs {
			s := getChan(c.ch, c.cp)
			if s == nil {
				continue
			}
			x.fresh(&s.obj)
			x.evW(&s.obj, 22)
			if c.send {
				live(&s.sendq)
				s.sendq = append(s.sendq, wref{w, i})
			} else {
				live(&s.recvq)
				s.recvq = append(s.recvq, wref{w, i})
			}
		}
		x.park("chan" + what)
		c := cs[w.fired]
		if c.pan {
			panic("send on closed channel")
		}
		if c.set != nil {
			c.set(c.v, c.ok)
		}
		return w.fired
	}
	k := rd[0]
	if n > 1 {
		// looking at several ready channels depends on all of them
		for i := 0; i < n; i++ {
			s := getChan(cs[rd[i]].ch, cs[rd[i]].cp)
			x.fresh(&s.obj)
			x.evR(&s.obj, 23)
		}
		k = rd[Choose(n)]
	}
	if len(cs) > 1 {
		for _, c := range cs {
			if s := getChan(c.ch, c.cp); s != nil {
				x.fresh(&s.obj)
				x.evR(&s.obj, 24)
			}
		}
	}
	c := cs[k]
	s := getChan(c.ch, c.cp)
	x.fresh(&s.obj)
	x.evW(&s.obj, 25)
	if c.send {
		if s.closed {
			panic("send on closed channel")
		}
		x.sendNow(s, c.v)
		return k
	}
	v, ok := x.recvNow(s)
	if c.set != nil {
		c.set(v, ok)
	}
	return k
}

func (x *Exec) wakeWaiter(r wref, s *chanState) {
	r.w.fired = r.i
	r.w.t.h = mix(mix(r.w.t.h, s.h), 26)
	r.w.t.nops++
	x.ready(r.w.t)
}

// sendNow completes a send that can proceed.
func (x *Exec) sendNow(s *chanState, v any) {
	t := x.cur
	seq := s.nsend
	s.nsend++
	if s.cap > 0 && seq >= s.cap && seq-s.cap < len(s.recvVC) {
		t.vc = joinVC(t.vc, s.recvVC[seq-s.cap])
	}
	if live(&s.recvq) {
		r := s.recvq[0]
		s.recvq = s.recvq[1:]
		rt := r.w.t
		c := r.w.cases[r.i]
		c.v, c.ok = v, true
		if s.cap == 0 {
			t.vc = joinVC(t.vc, rt.vc)
		}
		rt.vc = joinVC(rt.vc, t.vc)
		if s.cap > 0 {
			s.recvVC = append(s.recvVC, cloneVC(rt.vc))
		}
		rt.tick()
		t.tick()
		x.wakeWaiter(r, s)
		return
	}
	s.buf = append(s.buf, item{v, cloneVC(t.vc)})
	t.tick()
}

// recvNow completes a receive that can proceed.
func (x *Exec) recvNow(s *chanState) (any, bool) {
	t := x.cur
	if len(s.buf) > 0 {
		it := s.buf[0]
		s.buf = s.buf[1:]
		t.vc = joinVC(t.vc, it.vc)
		s.recvVC = append(s.recvVC, cloneVC(t.vc))
		if live(&s.sendq) {
			r := s.sendq[0]
			s.sendq = s.sendq[1:]
			st := r.w.t
			st.vc = joinVC(st.vc, t.vc)
			s.buf = append(s.buf, item{r.w.cases[r.i].v, cloneVC(st.vc)})
			s.nsend++
			st.tick()
			x.wakeWaiter(r, s)
		}
		t.tick()
		return it.v, true
	}
	if live(&s.sendq) { // unbuffered
		r := s.sendq[0]
		s.sendq = s.sendq[1:]
		st := r.w.t
		t.vc = joinVC(t.vc, st.vc)
		st.vc = joinVC(st.vc, t.vc)
		st.tick()
		t.tick()
		s.nsend++
		x.wakeWaiter(r, s)
		return r.w.cases[r.i].v, true
	}
	// closed
	t.vc = joinVC(t.vc, s.closeVC)
	return nil, false
}

func closeChan(p unsafe.Pointer, cp int) {
	if p == nil {
		panic("close of nil channel")
	}
	x := curX
	s := getChan(p, cp)
	if x == nil {
		if s.closed {
			panic("close of closed channel")
		}
		s.closed = true
		return
	}
	if x.dead {
		return
	}
	x.point("close")
	x.closeNow(s)
}

func (x *Exec) closeNow(s *chanState) {
	x.fresh(&s.obj)
	x.evW(&s.obj, 27)
	if s.closed {
		panic("close of closed channel")
	}
	s.closed = true
	s.closeVC = cloneVC(x.cur.vc)
	x.cur.tick()
	for live(&s.recvq) {
		r := s.recvq[0]
		s.recvq = s.recvq[1:]
		c := r.w.cases[r.i]
		c.v, c.ok = nil, false
		r.w.t.vc = joinVC(r.w.t.vc, s.closeVC)
		x.wakeWaiter(r, s)
	}
	for live(&s.sendq) {
		r := s.sendq[0]
		s.sendq = s.sendq[1:]
		r.w.cases[r.i].pan = true
		r.w.t.vc = joinVC(r.w.t.vc, s.closeVC)
		x.wakeWaiter(r, s)
	}
}

// envSend is a non-blocking send by a timer.
func (x *Exec) envSend(p unsafe.Pointer, cp int, v any) {
	s := getChan(p, cp)
	x.fresh(&s.obj)
	x.evW(&s.obj, 28)
	if live(&s.recvq) || len(s.buf) < s.cap {
		x.sendNow(s, v)
	}
}

func (x *Exec) envClose(p unsafe.Pointer, cp int) {
	s := getChan(p, cp)
	if !s.closed {
		x.closeNow(s)
	}
}

// SendTo is `ch <- v`.
func SendTo[T any](ch chan<- T) func(v T) {
	p := *(*unsafe.Pointer)(unsafe.Pointer(&ch))
	cp := cap(ch)
	return func(v T) {
		if x := curX; x != nil && x.dead {
			x.point("")
		}
		c := &SelCase{ch: p, cp: cp, send: true, v: v}
		doSelect([]*SelCase{c}, false)
	}
}

// Recv is `<-ch`.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 is `v, ok := <-ch`.
func Recv2[T any](ch <-chan T) (T, bool) {
	c := SR(ch)
	doSelect([]*SelCase{&c.SelCase}, false)
	return c.V, c.OK
}

// TryRecv is a non-blocking receive: state is 1 for a value, 0 for nothing ready, -1 for closed.
func TryRecv[T any](ch <-chan T) (T, int) {
	c := SR(ch)
	if Sel(true, c) < 0 {
		return c.V, 0
	}
	if !c.OK {
		return c.V, -1
	}
	return c.V, 1
}

// Close is `close(ch)`.
func Close[T any](ch chan<- T) {
	closeChan(*(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap(ch))
}

// ChLen is `len(ch)`.
func ChLen[T any](ch <-chan T) int {
	p := *(*unsafe.Pointer)(unsafe.Pointer(&ch))
	s := getChan(p, cap(ch))
	if s == nil {
		return 0
	}
	if x := curX; x != nil && !x.dead {
		x.point("len(chan)")
		x.fresh(&s.obj)
		x.evR(&s.obj, 29)
	}
	return len(s.buf)
}

// Offered reports whether a sender is blocked on ch, without a scheduling point (for oracles).
func Offered[T any](ch <-chan T) bool {
	s := getChan(*(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap(ch))
	return s != nil && live(&s.sendq)
}

// PeekChan reports buffered length, waiting receivers and the closed flag without a scheduling point (for oracles).
func PeekChan[T any](ch <-chan T) (n int, waiting int, closed bool) {
	p := *(*unsafe.Pointer)(unsafe.Pointer(&ch))
	s := getChan(p, cap(ch))
	if s == nil {
		return
	}
	for _, r := range s.recvq {
		if r.w.fired < 0 {
			waiting++
		}
	}
	return len(s.buf), waiting, s.closed
}

func directSelect(cs []*SelCase, hasDefault bool) int {
	for {
		for i, c := range cs {
			s := getChan(c.ch, c.cp)
			if s == nil {
				continue
			}
			if c.send {
				if s.closed {
					panic("send on closed channel")
				}
				if len(s.buf) < s.cap {
					s.buf = append(s.buf, item{v: c.v})
					return i
				}
				continue
			}
			if len(s.buf) > 0 {
				v := s.buf[0].v
				s.buf = s.buf[1:]
				if c.set != nil {
					c.set(v, true)
				}
				return i
			}
			if s.closed {
				if c.set != nil {
					c.set(nil, false)
				}
				return i
			}
		}
		if hasDefault {
			return -1
		}
		panic("mc: blocks for ever in sequential code")
	}
}

// ResetDirect forgets the channels used outside executions.
func ResetDirect() { dirChans = map[unsafe.Pointer]*chanState{} }
