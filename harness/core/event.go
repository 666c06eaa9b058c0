//go:build go1.22

package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/chanjarster/gears/event"
	"github.com/chanjarster/gears/zverif/lib"
	"github.com/chanjarster/gears/zverif/mc"
)

func init() {
	lib.Register("P18", with(p18, scaleBus("P18")), "nothing is sent to a closed bus; a receiver replaced by another of the same name is no longer registered")
	lib.Register("P19", with(p19, scaleBus("P19")), "nothing is sent to a closed bus, the bus is closed once, no receiver is made after the bus was closed")
	lib.Register("P20", with(p20, scaleBus("P20"), scaleP20), "an event delivered at the very instant of the timeout may or may not be part of the result")
}

// ---- P18 -----------------------------------------------------------------------------------------------------------------

type evRecv struct {
	block bool
	buf   int
	cons  string // consumer program: r receive, s sleep a second, L sleep for 1000 hours; "" nobody consumes until the end
	late  string // registered by a thread of its own while publishing: "l"; "" before
}

func (r evRecv) String() string {
	k := "Drop"
	if r.block {
		k = "Block"
	}
	return fmt.Sprintf("%s(%d)%s%s", k, r.buf, r.cons, r.late)
}

type evScn struct {
	busBuf int
	recvs  []evRecv
	pubs   []string // p publish, s sleep a second
	start  byte     // 'b' dispatcher started before, 'm' by a thread of its own
	full   bool
	pre    int
	odd    bool // unusual values as events
}

// evVal is the value of event n: n itself, or one of the values that are easily mistaken for no event.
func evVal(odd bool, n int) any {
	if odd {
		return []any{nil, "", (*evScn)(nil), false, struct{}{}, 0}[n]
	}
	return n
}

// evNum is the event of a value, 99 if there is none.
func evNum(odd bool, v any) int {
	if n, ok := v.(int); ok && !odd {
		return n
	}
	for n := 0; n < 6 && odd; n++ {
		if v == evVal(odd, n) {
			return n
		}
	}
	return 99
}

// evRecvOp receives once as an operation of the history; the result is the event or -1 (closed).
func evRecvOp(x *mc.Exec, i int, r *event.Receiver, odd bool) {
	x.Do("recv", i, func() any {
		v, ok := mc.Recv2(r.C)
		if !ok {
			return -1
		}
		return evNum(odd, v)
	})
}

type dropState struct {
	q       string
	next    uint32 // dispatched events
	waiting bool
	given   int
}

func (s evScn) scenario() *mc.Scenario {
	name := fmt.Sprintf("bus(%d) %v publishers %v start %c", s.busBuf, s.recvs, s.pubs, s.start)
	if s.odd {
		name += " odd values"
	}
	total := strings.Count(strings.Join(s.pubs, ""), "p")
	// is anything allowed to be stuck? only behind a Block receiver that nobody empties
	stuckOK := false
	for _, c := range s.recvs {
		stuckOK = stuckOK || (c.block && strings.Count(c.cons, "r")+c.buf < total)
	}
	horizon := time.Duration(0)
	for _, c := range s.recvs {
		if strings.Contains(c.cons, "L") {
			horizon = 10000 * time.Hour
		}
	}
	return &mc.Scenario{Name: name, Full: s.full, Preempt: s.pre, Horizon: horizon, Body: func(x *mc.Exec) func() string {
		bus := event.NewFanOutBus(s.busBuf)
		recvs := make([]*event.Receiver, len(s.recvs))
		mk := func(i int) {
			c := s.recvs[i]
			if c.block {
				recvs[i] = bus.NewRecvStrategy(fmt.Sprint("r", i), c.buf, event.Block)
			} else if i%2 == 0 {
				recvs[i] = bus.NewRecv(fmt.Sprint("r", i), c.buf)
			} else {
				recvs[i] = bus.NewRecvStrategy(fmt.Sprint("r", i), c.buf, event.Drop)
			}
		}
		x.AllowBlocked()
		if s.start == 'b' {
			bus.GoDispatch()
		} else {
			x.Go("starter", func() { bus.GoDispatch() })
		}
		for i, c := range s.recvs {
			consume := func() {
				for _, ch := range c.cons {
					if ch == 'r' {
						evRecvOp(x, i, recvs[i], s.odd)
					} else if ch == 'L' {
						x.Do("sleep", "c", func() any { mc.Sleep(1000 * time.Hour); return "" })
					} else {
						x.Do("sleep", "c", func() any { mc.Sleep(time.Second); return "" })
					}
				}
			}
			if c.late != "" {
				x.Go(fmt.Sprint("register", i), func() {
					x.Do("register", i, func() any { mk(i); return "" })
					consume()
				})
				continue
			}
			mk(i)
			if c.cons != "" {
				x.Go(fmt.Sprint("consumer", i), consume)
			}
		}
		ev := 0
		for t, p := range s.pubs {
			first := ev
			ev += strings.Count(p, "p")
			x.Go(fmt.Sprint("publisher", t), func() {
				n := first
				for _, ch := range p {
					if ch == 'p' {
						x.Do("publish", n, func() any { mc.SendTo(bus.C)(evVal(s.odd, n)); return "" })
						n++
					} else {
						x.Do("sleep", t, func() any { mc.Sleep(time.Second); return "" })
					}
				}
			})
		}
		var rest [][]int
		quiet := 0
		x.Final(func() {
			x.Do("quiet", "", func() any { return "" })
			quiet = x.Ops()[len(x.Ops())-1].Call
			rest = make([][]int, len(recvs))
			if stuckOK {
				return
			}
			for i, r := range recvs {
				if r == nil {
					continue
				}
				for {
					v, st := mc.TryRecv(r.C)
					if st != 1 {
						break
					}
					rest[i] = append(rest[i], evNum(s.odd, v))
				}
			}
		})
		return func() string {
			if quiet == 0 {
				return "the final phase did not run"
			}
			pub := make([]*mc.Op, total)
			reg := map[int]*mc.Op{}
			got := make([][]int, len(s.recvs))
			var rops [][]*mc.Op = make([][]*mc.Op, len(s.recvs))
			pend := make([]bool, len(s.recvs))
			for _, o := range x.Ops() {
				switch o.Name {
				case "publish":
					pub[o.Arg.(int)] = o
				case "register":
					reg[o.Arg.(int)] = o
				case "recv":
					i := o.Arg.(int)
					rops[i] = append(rops[i], o)
					if o.Pending() {
						pend[i] = true
						continue
					}
					if o.Res == -1 {
						return fmt.Sprintf("receiver %d was closed although nobody closed it", i)
					}
					got[i] = append(got[i], o.Res.(int))
				}
			}
			if !stuckOK {
				for i, p := range pub {
					if p == nil || p.Pending() {
						return fmt.Sprintf("event %d was never accepted by the bus", i)
					}
				}
			}
			all := make([][]int, len(s.recvs))
			for i := range s.recvs {
				all[i] = append(append([]int(nil), got[i]...), rest[i]...)
				if pend[i] && len(rest[i]) > 0 {
					return fmt.Sprintf("receiver %d waits although events %v are there", i, rest[i])
				}
				seen := map[int]bool{}
				for _, e := range all[i] {
					if e < 0 || e >= total || pub[e] == nil {
						return fmt.Sprintf("receiver %d got %v, which nobody published", i, e)
					}
					if seen[e] {
						return fmt.Sprintf("receiver %d got event %d twice: %v", i, e, all[i])
					}
					seen[e] = true
				}
				for a := range all[i] {
					for b := a + 1; b < len(all[i]); b++ {
						p, q := pub[all[i][a]], pub[all[i][b]]
						if !q.Pending() && q.Ret < p.Call {
							return fmt.Sprintf("receiver %d got %v, but event %d was published before event %d", i, all[i], all[i][b], all[i][a])
						}
					}
				}
			}
			// one order for all receivers
			for i := range all {
				for j := i + 1; j < len(all); j++ {
					pos := map[int]int{}
					for k, e := range all[j] {
						pos[e] = k + 1
					}
					last := 0
					for _, e := range all[i] {
						if p := pos[e]; p > 0 {
							if p < last {
								return fmt.Sprintf("receivers %d and %d got events in different orders: %v and %v", i, j, all[i], all[j])
							}
							last = p
						}
					}
				}
			}
			// Block receivers miss nothing
			for i, c := range s.recvs {
				if !c.block {
					continue
				}
				room := strings.Count(c.cons, "r") + c.buf
				if stuckOK && len(all[i]) >= min(room, total) {
					continue
				}
				has := map[int]bool{}
				for _, e := range all[i] {
					has[e] = true
				}
				for e, p := range pub {
					if p == nil || has[e] || (reg[i] != nil && (reg[i].Pending() || p.Call < reg[i].Ret)) {
						continue
					}
					if stuckOK {
						// another receiver may hold up the bus; nothing that came later may have been delivered though
						for _, f := range all[i] {
							if pub[f].Call > p.Ret && !p.Pending() {
								return fmt.Sprintf("the Block receiver %d missed event %d but got the later event %d", i, e, f)
							}
						}
						continue
					}
					return fmt.Sprintf("the Block receiver %d missed event %d: it got %v", i, e, all[i])
				}
			}
			if stuckOK {
				return ""
			}
			// Drop receivers miss an event only for a reason: some order of dispatches and receives explains what they got
			var order []int // dispatch order, if known
			if len(s.pubs) == 1 {
				for e := 0; e < total; e++ {
					order = append(order, e)
				}
			} else {
				for i, c := range s.recvs {
					if c.block && reg[i] == nil {
						order = all[i]
					}
				}
			}
			posOf := map[int]int{}
			for k, e := range order {
				posOf[e] = k
			}
			for i, c := range s.recvs {
				if c.block {
					continue
				}
				var ops []*mc.Op
				for e, p := range pub {
					d := &mc.Op{Name: "dispatch", Arg: e, Call: p.Call, Ret: quiet}
					for _, o := range x.Ops() { // a second of waiting is enough for the dispatch
						if o.Name == "sleep" && o.CallAt >= p.RetAt && !p.Pending() && !o.Pending() && o.Call > p.Ret && o.Ret < d.Ret {
							d.Ret = o.Ret
						}
					}
					ops = append(ops, d)
				}
				if reg[i] != nil {
					ops = append(ops, reg[i])
				}
				for _, o := range rops[i] {
					if c.buf == 0 {
						w := *o
						w.Name = "wait"
						ops = append(ops, &w)
					}
					if !o.Pending() {
						ops = append(ops, o)
					}
				}
				final := ""
				for _, e := range rest[i] {
					final += string(rune('A' + e))
				}
				const regBit = 1 << 30
				init := dropState{}
				if reg[i] == nil {
					init.next = regBit
				}
				if !mc.LinearizableTo(ops, init, func(st dropState, o *mc.Op) []dropState {
					switch o.Name {
					case "register":
						st.next |= regBit
						return []dropState{st}
					case "dispatch":
						e := o.Arg.(int)
						if len(order) == total {
							for _, f := range order[:posOf[e]] {
								if st.next&(1<<uint(f)) == 0 {
									return nil
								}
							}
						}
						st.next |= 1 << uint(e)
						if st.next&regBit == 0 {
							return []dropState{st}
						}
						if c.buf == 0 {
							if st.waiting {
								st.waiting, st.given = false, e+1
							}
						} else if len(st.q) < c.buf {
							st.q += string(rune('A' + e))
						} else if st.waiting {
							st.waiting, st.given = false, e+1
						}
						return []dropState{st}
					case "wait":
						if st.waiting || st.given != 0 {
							return nil
						}
						st.waiting = true
						return []dropState{st}
					}
					e := o.Res.(int)
					if c.buf == 0 {
						if st.given != e+1 {
							return nil
						}
						st.given = 0
						return []dropState{st}
					}
					if st.q == "" || st.q[0] != byte('A'+e) {
						return nil
					}
					st.q = st.q[1:]
					return []dropState{st}
				}, func(st dropState) bool { return st.q == final }) {
					return fmt.Sprintf("the Drop receiver %d got %v and has %v left: no order of dispatches and receives explains what it missed", i, got[i], rest[i])
				}
			}
			return ""
		}
	}}
}

func p18(th bool) []*lib.Unit {
	var us []*lib.Unit
	add := func(name string, w, k int, note string, scs []*mc.Scenario) {
		us = append(us, splitScs(name, w, k, note, scs)...)
	}
	B := func(buf int, cons string) evRecv { return evRecv{block: true, buf: buf, cons: cons} }
	D := func(buf int, cons string) evRecv { return evRecv{buf: buf, cons: cons} }
	// the preemption bound depends on the number of threads; the bound of scenarios with n threads besides the dispatcher
	pre := func(rs []evRecv, pubs []string) int {
		n := len(pubs)
		for _, r := range rs {
			if r.cons != "" || r.late != "" {
				n++
			}
		}
		p := []int{3, 3, 2, 1, 1, 0, 0}[n]
		if len(rs) > 1 && n > 2 {
			p--
		}
		if th {
			p++
		}
		return max(p, 0)
	}
	var scs []*mc.Scenario
	for _, bb := range []int{0, 1, 2} {
		for _, pubs := range [][]string{{"ppp"}, {"p", "p"}, {"pp", "p"}, {"p", "p", "p"}} {
			n := strings.Count(strings.Join(pubs, ""), "p")
			rr := strings.Repeat("r", n)
			for _, rs := range [][]evRecv{{B(0, rr)}, {B(1, rr)}, {B(0, rr), B(1, rr)}, {B(3, "")}, {B(3, ""), B(0, rr)}} {
				for _, st := range []byte{'b', 'm'} {
					if st == 'm' && len(rs) > 1 {
						continue
					}
					if len(rs) > 1 && (len(pubs) > 2 || bb == 2 || (len(pubs) == 2 && n > 2)) && !th {
						continue
					}
					if len(rs) > 1 && len(pubs) > 2 {
						continue
					}
					scs = append(scs, evScn{bb, rs, pubs, st, false, pre(rs, pubs), false}.scenario())
				}
			}
		}
	}
	add("block", 8, 6, "Block receivers (unbuffered, 1, 3), one to three publishers, three events", scs)
	scs = nil
	for _, bb := range []int{0, 1} {
		for _, pubs := range [][]string{{"p"}, {"pp"}, {"ppp"}, {"p", "p"}, {"pp", "p"}} {
			for _, buf := range []int{0, 1, 2} {
				for _, cons := range []string{"", "r", "rr", "rrr"} {
					scs = append(scs, evScn{bb, []evRecv{D(buf, cons)}, pubs, 'b', false, pre([]evRecv{D(buf, cons)}, pubs), false}.scenario())
				}
			}
		}
	}
	add("drop", 8, 6, "one Drop receiver (unbuffered, 1, 2) with a consumer of 0 to 3 receives, one or two publishers", scs)
	scs = nil
	for _, pubs := range [][]string{{"pp"}, {"ppp"}, {"p", "p"}} {
		n := strings.Count(strings.Join(pubs, ""), "p")
		rr := strings.Repeat("r", n)
		for _, d := range []evRecv{D(0, ""), D(0, "r"), D(1, ""), D(1, "r")} {
			for _, o := range []evRecv{B(0, rr), B(1, rr), B(3, ""), D(3, ""), D(1, "rr")} {
				scs = append(scs, evScn{0, []evRecv{d, o}, pubs, 'b', false, pre([]evRecv{d, o}, pubs), false}.scenario(), evScn{1, []evRecv{o, d}, pubs, 'b', false, 1, false}.scenario())
			}
		}
	}
	add("drop+other", 10, 8, "a Drop receiver that is too slow beside another receiver, which must not be affected", scs)
	scs = nil
	// with a second between events every dispatch is over before the next event
	for _, bb := range []int{0, 2} {
		for _, buf := range []int{0, 1, 2, 3} {
			for _, pub := range []string{"pspsps", "ppsps", "psppsps", "sppps"} {
				for _, cons := range []string{"", "r", "sr", "rsr", "srr", "srsr", "rrr", "ssrr", "srrsr"} {
					scs = append(scs, evScn{bb, []evRecv{D(buf, cons)}, []string{pub}, 'b', false, 1, false}.scenario())
				}
			}
		}
	}
	add("timed-drop", 6, 4, "Drop receivers with a second between events, so that every dispatch is complete: exactly what fits must be delivered", scs)
	scs = nil
	late := func(r evRecv) evRecv { r.late = "l"; return r }
	for _, bb := range []int{0, 1} {
		for _, pubs := range [][]string{{"pp"}, {"ppp"}, {"pspp"}, {"p", "p"}} {
			for _, rs := range [][]evRecv{{late(B(3, ""))}, {late(D(3, ""))}, {B(3, ""), late(B(3, ""))}, {B(0, "rrr"), late(B(3, ""))}, {late(B(3, "")), late(D(2, ""))}, {late(D(1, "r")), B(3, "")}} {
				scs = append(scs, evScn{bb, rs, pubs, 'b', false, pre(rs, pubs), false}.scenario())
			}
		}
	}
	add("registration", 8, 4, "receivers registered while events are published", scs)
	scs = nil
	for _, rs := range [][]evRecv{{B(0, "r"), B(3, "")}, {B(0, ""), D(3, "")}, {B(1, "r"), D(1, "r")}, {B(0, "sr"), B(0, "rrr")}} {
		for _, pubs := range [][]string{{"ppp"}, {"pp", "p"}} {
			scs = append(scs, evScn{0, rs, pubs, 'b', false, pre(rs, pubs), false}.scenario(), evScn{2, rs, pubs, 'b', false, pre(rs, pubs), false}.scenario())
		}
	}
	add("blocked-bus", 6, 2, "a Block receiver nobody empties holds up the bus but loses and reorders nothing", scs)
	scs = nil
	for _, bb := range []int{0, 2} {
		for _, pubs := range [][]string{{"ppp"}, {"pp", "p"}} {
			for _, rs := range [][]evRecv{{B(0, "Lrrr")}, {B(1, "rLrr")}, {B(0, "rrLr"), D(3, "")}, {B(0, "LrLrLr"), B(0, "rrr")}} {
				scs = append(scs, evScn{bb, rs, pubs, 'b', false, min(pre(rs, pubs), 1), false}.scenario())
			}
		}
	}
	add("patience", 5, 2, "Block receivers that are emptied only after thousands of hours lose nothing", scs)
	scs = nil
	for _, bb := range []int{0, 2} {
		for _, rs := range [][]evRecv{{B(0, "rrr")}, {B(3, "")}, {D(3, "")}, {D(3, "rr")}, {B(3, ""), D(3, "")}} {
			scs = append(scs, evScn{bb, rs, []string{"ppp"}, 'b', false, 1, true}.scenario())
		}
		scs = append(scs, evScn{bb, []evRecv{B(6, "")}, []string{"pppppp"}, 'b', false, 1, true}.scenario())
	}
	add("values", 4, 2, "nil, empty and zero values are events like any other", scs)
	if th {
		scs = nil
		for _, bb := range []int{0, 1} {
			scs = append(scs, evScn{bb, []evRecv{B(0, "rr"), D(1, "rr")}, []string{"pp"}, 'b', true, 0, false}.scenario(),
				evScn{bb, []evRecv{B(1, "rrr"), B(0, "rrr"), D(1, "")}, []string{"pp", "p"}, 'b', false, 2, false}.scenario(),
				evScn{bb, []evRecv{D(0, "rr"), D(1, "rr")}, []string{"p", "p"}, 'b', true, 0, false}.scenario(),
				evScn{bb, []evRecv{B(1, "rrrrr")}, []string{"pp", "pp", "p"}, 'b', false, 3, false}.scenario(),
				evScn{bb, []evRecv{D(2, "rrr")}, []string{"ppppp"}, 'b', false, 4, false}.scenario())
		}
		add("deep", 12, 5, "larger mixes at a higher preemption bound or without one", scs)
	}
	return us
}

// ---- P19 -----------------------------------------------------------------------------------------------------------------

type clScn struct {
	busBuf int
	recvs  []evRecv
	names  string // names of the receivers, if not all different
	progs  []string
	pre    int
	full   bool
}

// Programs: p publish the next event, s sleep a second, C close the bus, 0 1 2 close that receiver, a b c receive once
// from receiver 0 1 2, X Y Z receive from it until it is closed, n register another receiver, N register and close it,
// d drain receiver 0.
func (s clScn) scenario() *mc.Scenario {
	return &mc.Scenario{Name: fmt.Sprintf("bus(%d) %v %s %v", s.busBuf, s.recvs, s.names, s.progs), Full: s.full, Preempt: s.pre, Body: func(x *mc.Exec) func() string {
		bus := event.NewFanOutBus(s.busBuf)
		var recvs []*event.Receiver
		for i, c := range s.recvs {
			st := event.Drop
			if c.block {
				st = event.Block
			}
			n := fmt.Sprint("r", i)
			if s.names != "" {
				n = s.names[i : i+1]
			}
			recvs = append(recvs, bus.NewRecvStrategy(n, c.buf, st))
		}
		bus.GoDispatch()
		total := strings.Count(strings.Join(s.progs, ""), "p")
		extra := make([]*event.Receiver, len(s.progs))
		x.AllowBlocked()
		ev := 0
		for t, p := range s.progs {
			first := ev
			ev += strings.Count(p, "p")
			x.Go(fmt.Sprint("t", t, ":", p), func() {
				n := first
				for _, ch := range p {
					switch {
					case ch == 'p':
						x.Do("publish", n, func() any { mc.SendTo(bus.C)(n); return "" })
						n++
					case ch == 's':
						x.Do("sleep", 0, func() any { mc.Sleep(time.Second); return "" })
					case ch == 'C':
						x.Do("bus.Close", 0, func() any { bus.Close(); return "" })
					case ch >= '0' && ch <= '2':
						x.Do("Close", int(ch-'0'), func() any { recvs[ch-'0'].Close(); return "" })
					case ch >= 'a' && ch <= 'c':
						evRecvOp(x, int(ch-'a'), recvs[ch-'a'], false)
					case ch >= 'X' && ch <= 'Z':
						i := int(ch - 'X')
						for {
							evRecvOp(x, i, recvs[i], false)
							if o := x.Ops(); lastRecv(o, i) == -1 {
								break
							}
						}
					case ch == 'd':
						x.Do("drain", 0, func() any { return recvs[0].Drain() })
					case ch == 'n' || ch == 'N':
						x.Do("register", t, func() any {
							extra[t] = bus.NewRecvStrategy(fmt.Sprint("x", t), 4, event.Block)
							return ""
						})
						if ch == 'N' {
							x.Do("Close", 10+t, func() any { extra[t].Close(); return "" })
						}
					}
				}
			})
		}
		ran := false
		var rest, xrest [][]int
		var state, xstate []int
		stuck := false // publishing waits for a Block receiver that is open and nobody empties: allowed
		x.Final(func() {
			ran = true
			closed := map[int]bool{}
			for _, o := range x.Ops() {
				if o.Name == "Close" {
					closed[o.Arg.(int)] = true
				}
				if o.Name == "bus.Close" {
					closed[0], closed[1], closed[2] = true, true, true
				}
				stuck = stuck || (o.Name == "publish" && o.Pending())
			}
			can := false
			for i, c := range s.recvs {
				can = can || (c.block && c.buf < total && !closed[i])
			}
			stuck = stuck && can
			if stuck {
				return
			}
			drain := func(r *event.Receiver) (out []int, st int) {
				for {
					v, st := mc.TryRecv(r.C)
					if st != 1 {
						return out, st
					}
					out = append(out, v.(int))
					if len(out) > total+1 {
						return out, 1
					}
				}
			}
			for _, r := range recvs {
				o, st := drain(r)
				rest, state = append(rest, o), append(state, st)
			}
			for _, r := range extra {
				if r == nil {
					xrest, xstate = append(xrest, nil), append(xstate, 0)
					continue
				}
				o, st := drain(r)
				xrest, xstate = append(xrest, o), append(xstate, st)
			}
		})
		return func() string {
			var busClose *mc.Op
			pub := map[int]*mc.Op{}
			closes := map[int]*mc.Op{} // first Close call of a receiver
			regs := map[int]*mc.Op{}
			got := map[int][]int{}
			for _, o := range x.Ops() {
				if stuck && (!o.Pending() || o.Name == "publish") {
					continue
				}
				if o.Pending() && o.Name != "recv" {
					return fmt.Sprintf("%s(%v) never returned", o.Name, o.Arg)
				}
				switch o.Name {
				case "publish":
					pub[o.Arg.(int)] = o
				case "bus.Close":
					busClose = o
				case "Close":
					if closes[o.Arg.(int)] == nil {
						closes[o.Arg.(int)] = o
					}
				case "register":
					regs[o.Arg.(int)] = o
				case "drain":
					for _, v := range o.Res.([]any) {
						got[0] = append(got[0], v.(int))
					}
				}
			}
			if stuck {
				return ""
			}
			for _, o := range x.Ops() {
				if o.Name == "recv" && !o.Pending() {
					i := o.Arg.(int)
					if o.Res != -1 {
						got[i] = append(got[i], o.Res.(int))
						continue
					}
					c := closes[i]
					if (c == nil || c.Call > o.Ret) && (busClose == nil || busClose.Call > o.Ret) {
						return fmt.Sprintf("receiver %d was closed before anybody closed it", i)
					}
				}
			}
			// closes may follow a pending receive in the history
			for _, o := range x.Ops() {
				if o.Name == "recv" && o.Pending() {
					if i := o.Arg.(int); closes[i] != nil || (busClose != nil && !replaced(s.names, i)) {
						return fmt.Sprintf("a consumer waits for receiver %d, which was closed", i)
					}
				}
			}
			if !ran {
				return "the final phase did not run"
			}
			if busClose != nil {
				if u := x.Unfinished(true); len(u) > 0 {
					return fmt.Sprintf("%d goroutines of the bus are left after it was closed", len(u))
				}
			}
			seqOK := func(what string, all []int) string {
				last := -1
				for k, e := range all {
					if pub[e] == nil {
						return fmt.Sprintf("%s got %v, which nobody published", what, e)
					}
					for _, f := range all[:k] {
						if f == e {
							return fmt.Sprintf("%s got %d twice", what, e)
						}
						if pub[e].Ret < pub[f].Call {
							return fmt.Sprintf("%s got %v: out of order", what, all)
						}
					}
					last = e
				}
				_ = last
				return ""
			}
			for i, c := range s.recvs {
				all := append(append([]int(nil), got[i]...), rest[i]...)
				what := fmt.Sprintf("receiver %d", i)
				if m := seqOK(what, all); m != "" {
					return m
				}
				wantClosed := closes[i] != nil || (busClose != nil && !replaced(s.names, i))
				if wantClosed && state[i] != -1 {
					return what + " was closed but its channel is open"
				}
				if !wantClosed && state[i] == -1 && !(busClose != nil) {
					return what + " was not closed but its channel is"
				}
				if replaced(s.names, i) {
					continue
				}
				has := map[int]bool{}
				for _, e := range all {
					has[e] = true
				}
				if c.block && closes[i] == nil && busClose == nil && len(all) < total {
					return fmt.Sprintf("%s was never closed but got only %v", what, all)
				}
				held := false // another receiver may have held up the bus
				for j, o := range s.recvs {
					held = held || (j != i && o.block && o.buf < total)
				}
				if (c.buf >= total || c.block) && !held {
					// what was delivered before the close stays readable
					first := int(1 << 30)
					for _, o := range []*mc.Op{closes[i], busClose} {
						if o != nil && o.Call < first {
							first = o.Call
						}
					}
					before := 0
					for e := 0; e < total; e++ {
						p := pub[e]
						done := false
						for _, o := range x.Ops() {
							if o.Name == "sleep" && o.Call > p.Ret && o.Ret < first {
								done = true
							}
						}
						if done {
							before++
							if !has[e] && before <= c.buf {
								return fmt.Sprintf("%s lost event %d, which was delivered before it was closed: it got %v", what, e, all)
							}
						}
					}
				}
				if c.block {
					// a prefix: nothing is skipped
					for _, e := range all {
						for f, p := range pub {
							if !has[f] && p.Ret < pub[e].Call {
								return fmt.Sprintf("%s got %v: event %d before them is missing", what, all, f)
							}
						}
					}
				}
			}
			for t, r := range extra {
				if r == nil {
					continue
				}
				what := "the receiver registered meanwhile"
				if m := seqOK(what, xrest[t]); m != "" {
					return m
				}
				cl := closes[10+t] != nil
				if (cl || (busClose != nil && regs[t].Ret < busClose.Call)) && xstate[t] != -1 {
					return what + " was closed but its channel is open"
				}
				if !cl && busClose == nil {
					if xstate[t] == -1 {
						return what + " was not closed but its channel is"
					}
					has := map[int]bool{}
					for _, e := range xrest[t] {
						has[e] = true
					}
					for e, p := range pub {
						if p.Call > regs[t].Ret && !has[e] {
							return fmt.Sprintf("%s missed event %d", what, e)
						}
					}
				}
			}
			return ""
		}
	}}
}

// replaced: another receiver took over the name of receiver i.
func replaced(names string, i int) bool {
	return names != "" && strings.LastIndexByte(names, names[i]) != i
}

func lastRecv(ops []*mc.Op, i int) int {
	for k := len(ops) - 1; k >= 0; k-- {
		if ops[k].Name == "recv" && ops[k].Arg == i && !ops[k].Pending() {
			return ops[k].Res.(int)
		}
	}
	return 0
}

func p19(th bool) []*lib.Unit {
	var us []*lib.Unit
	B := func(buf int) evRecv { return evRecv{block: true, buf: buf} }
	D := func(buf int) evRecv { return evRecv{buf: buf} }
	pre := func(progs []string) int {
		p := []int{3, 3, 3, 2, 1, 1, 1}[len(progs)]
		if th {
			p++
		}
		return p
	}
	mk := func(name string, w, k int, note string, bufs []int, rss [][]evRecv, names string, progss [][]string) {
		var scs []*mc.Scenario
		for _, bb := range bufs {
			for _, rs := range rss {
				for _, ps := range progss {
					p := pre(ps)
					if len(rs) > 1 {
						p = max(p-1, 1)
					}
					scs = append(scs, clScn{bb, rs, names, ps, p, false}.scenario())
				}
			}
		}
		us = append(us, splitScs(name, w, k, note, scs)...)
	}
	one := [][]evRecv{{B(0)}, {B(1)}, {B(3)}, {D(0)}, {D(1)}}
	mk("one/bus-close", 8, 6, "one receiver; the bus is closed after publishing, with a consumer, without, with the receiver closed too, once or twice", []int{0, 2}, one, "",
		[][]string{{"C"}, {"ppC", "X"}, {"C", "0"}, {"C", "0", "X"}, {"C0"}, {"0C"}, {"0C0"}, {"C", "00"}, {"C", "0", "0"}, {"pC", "0"}, {"pC", "0", "X"}, {"ppC", "0", "X"}, {"ppC", "aX"}, {"pC", "0", "0"}, {"C", "X"}, {"C", "X", "X"}, {"psC", "X"}, {"pspsC"}, {"pspsC0"}, {"psC", "s0", "d"}})
	// without anybody closing the bus a Block receiver must be consumed or closed, or publishing stays blocked
	mk("one/recv-close", 7, 4, "one receiver closed while events are published, once, twice, by two threads, with and without a consumer", []int{0, 2}, one, "",
		[][]string{{"pp", "0", "X"}, {"pp", "0"}, {"pp", "00"}, {"pp", "0", "0"}, {"ppp", "a0"}, {"pspsp", "ss0"}, {"psp", "s0", "X"}, {"p", "p", "0"}, {"psps0", "d"}, {"pp", "0", "d"}})
	two := [][]evRecv{{B(0), B(3)}, {B(1), D(1)}, {D(0), B(3)}, {B(3), B(3)}}
	mk("two/recv-close", 9, 6, "two receivers, one is closed (also while the dispatcher is blocked on it): the other gets everything", []int{0, 1}, two, "",
		[][]string{{"pp", "0"}, {"pp", "0", "X"}, {"psp", "0"}, {"pp", "0", "0"}, {"pspsp", "s0"}, {"pp", "00"}, {"ps0"}, {"pps", "s0"}})
	mk("two/both", 9, 6, "two receivers and the bus closed in every order", []int{0, 1}, two, "",
		[][]string{{"C", "0", "1"}, {"pC", "0", "1"}, {"pC", "01"}, {"pC", "0", "Y"}, {"ppC", "X", "Y"}, {"pC", "10", "01"}, {"C", "01", "10"}, {"psC", "s0"}})
	mk("registration", 9, 6, "receivers registered (and closed) while others are closed, events are published or the bus is closed", []int{0, 1}, [][]evRecv{{B(0)}, {B(1)}, {D(1)}, {B(3)}}, "",
		[][]string{{"C", "n"}, {"pC", "n"}, {"pC", "N"}, {"pp", "0", "n"}, {"pp", "0", "N"}, {"C", "0", "n"}, {"nps", "0", "n"}, {"pC", "X", "n"}, {"C", "nN"}, {"np", "0"}})
	mk("same-name", 6, 2, "two receivers of the same name: closing the replaced one leaves the new one registered", []int{0, 1}, [][]evRecv{{B(0), B(3)}, {B(3), B(3)}, {D(1), B(3)}, {D(0), D(3)}}, "aa",
		[][]string{{"pp", "0"}, {"psp", "s0"}, {"0pp"}, {"0ps0p"}, {"ps1"}, {"pC", "0"}, {"psC", "1"}, {"pC", "Y"}, {"0", "1", "p"}})
	mk("three", 10, 6, "three receivers", []int{0}, [][]evRecv{{B(0), D(0), B(3)}, {D(1), B(1), B(3)}}, "",
		[][]string{{"pp", "0", "1"}, {"p", "01", "X"}, {"pC", "0", "1"}, {"pC", "X", "1"}, {"C", "0", "1", "2"}})
	if th {
		mk("deep", 12, 8, "more events, closers and consumers", []int{0, 1}, [][]evRecv{{B(0)}, {B(1)}, {D(1)}, {B(0), B(4)}}, "",
			[][]string{{"pppC", "0", "X"}, {"pppp", "0", "X"}, {"ppC", "0", "0", "X"}, {"ppC", "0n", "X"}, {"pspspC", "s0", "X"}, {"pC", "0", "n", "N"}})
	}
	return us
}

// ---- P20 -----------------------------------------------------------------------------------------------------------------

type colScn struct {
	busBuf int
	recv   evRecv
	other  bool // a second receiver that nobody empties (Drop)
	col    string
	pubs   []string
	lax    bool
	pre    int
	odd    bool
}

// Collector programs: d Drain, k t z m CollectTimeout of 1 s, 300 ms, 0, -1 s, r receive, s sleep 400 ms, h sleep 100 ms.
// Publisher programs: p publish, s h sleep, 0 close the receiver, C close the bus.
func (s colScn) scenario() *mc.Scenario {
	timeouts := map[rune]time.Duration{'k': time.Second, 't': 300 * time.Millisecond, 'z': 0, 'm': -time.Second}
	total := strings.Count(strings.Join(s.pubs, ""), "p")
	return &mc.Scenario{Name: fmt.Sprintf("bus(%d) %v collector %s publishers %v lax %v odd %v", s.busBuf, s.recv, s.col, s.pubs, s.lax, s.odd), Lax: s.lax, Preempt: s.pre, Body: func(x *mc.Exec) func() string {
		bus := event.NewFanOutBus(s.busBuf)
		st := event.Drop
		if s.recv.block {
			st = event.Block
		}
		r := bus.NewRecvStrategy("r", s.recv.buf, st)
		if s.other {
			bus.NewRecv("other", 1)
		}
		bus.GoDispatch()
		x.AllowBlocked()
		sleep := func(ch rune) {
			d := 400 * time.Millisecond
			if ch == 'h' {
				d = 100 * time.Millisecond
			}
			x.Do("sleep", 0, func() any { mc.Sleep(d); return "" })
		}
		avail := map[*mc.Op]int{}
		closes := strings.ContainsAny(strings.Join(s.pubs, ""), "0C")
		x.Go("collector", func() {
			for _, ch := range s.col {
				switch ch {
				case 's', 'h':
					sleep(ch)
				case 'r':
					evRecvOp(x, 0, r, s.odd)
				case 'd':
					o := x.Begin("drain", time.Duration(0))
					avail[o] = mc.ChLen(r.C)
					if !closes && mc.Offered(r.C) { // the dispatcher is blocked handing over an event
						avail[o]++
					}
					x.End(o, r.Drain())
				default:
					o := x.Begin("collect", timeouts[ch])
					avail[o] = mc.ChLen(r.C)
					x.End(o, r.CollectTimeout(timeouts[ch]))
				}
			}
		})
		ev := 0
		for t, p := range s.pubs {
			first := ev
			ev += strings.Count(p, "p")
			x.Go(fmt.Sprint("publisher", t), func() {
				n := first
				for _, ch := range p {
					switch ch {
					case 'p':
						x.Do("publish", n, func() any { mc.SendTo(bus.C)(evVal(s.odd, n)); return "" })
						n++
					case '0':
						x.Do("close", "", func() any { r.Close(); return "" })
					case 'C':
						x.Do("close", "", func() any { bus.Close(); return "" })
					default:
						sleep(ch)
					}
				}
			})
		}
		var rest []int
		closed, stuck, before := false, false, 0
		x.Final(func() {
			for _, o := range x.Ops() {
				if o.Name == "close" && !o.Pending() {
					before++
				}
				if o.Name == "publish" && o.Pending() {
					stuck = true // nobody empties a receiver that blocks the bus
				}
			}
			for !stuck {
				v, st := mc.TryRecv(r.C)
				if st != 1 {
					closed = st < 0
					break
				}
				rest = append(rest, evNum(s.odd, v))
			}
		})
		return func() string {
			pub := make([]*mc.Op, total)
			var cl *mc.Op
			for _, o := range x.Ops() {
				if o.Name == "publish" {
					pub[o.Arg.(int)] = o
				}
				if o.Name == "close" && cl == nil {
					cl = o
				}
			}
			for _, o := range x.Ops() {
				if o.Pending() && o.Name == "publish" && !(s.recv.block && s.recv.buf < total) {
					return fmt.Sprintf("publishing event %v blocked for ever", o.Arg)
				}
				if o.Pending() && (o.Name == "drain" || o.Name == "collect" || o.Name == "close") {
					return fmt.Sprintf("%s(%v) never returned", o.Name, o.Arg)
				}
			}
			if before > 0 && !stuck && !closed {
				return "the channel is still open after Close"
			}
			var all []int
			done := map[int]bool{}
			add := func(what string, e int) string {
				if e < 0 || e >= total || pub[e] == nil {
					return fmt.Sprintf("%s: nobody published %v", what, e)
				}
				if done[e] {
					return fmt.Sprintf("%s: event %d was delivered twice", what, e)
				}
				for _, f := range all {
					if !pub[e].Pending() && pub[e].Ret < pub[f].Call {
						return fmt.Sprintf("%s: event %d comes after %d: out of order", what, e, f)
					}
				}
				done[e] = true
				all = append(all, e)
				return ""
			}
			for _, o := range x.Ops() {
				switch o.Name {
				case "recv":
					if !o.Pending() && o.Res != -1 {
						if m := add("receive", o.Res.(int)); m != "" {
							return m
						}
					}
				case "drain", "collect":
					what := o.Name
					if o.Name == "collect" {
						what = fmt.Sprintf("CollectTimeout(%v)", o.Arg)
					}
					res := o.Res.([]any)
					for _, v := range res {
						e := evNum(s.odd, v)
						if e >= total {
							return fmt.Sprintf("%s returned %v, which nobody published", what, v)
						}
						if pub[e] == nil || pub[e].Call > o.Ret {
							return fmt.Sprintf("%s returned event %v before it was published", what, e)
						}
						if m := add(what, e); m != "" {
							return m
						}
					}
					if len(res) < avail[o] {
						return fmt.Sprintf("%s returned %v although %d events were there before the call", what, res, avail[o])
					}
					exp := o.CallAt + int64(max(o.Arg.(time.Duration), 0))
					byClose := cl != nil && cl.Call < o.Ret
					if o.Name == "drain" {
						if !s.lax && o.RetAt != o.CallAt {
							return "Drain waited"
						}
						continue
					}
					if !byClose && o.RetAt < exp {
						return fmt.Sprintf("%s returned %v early", what, time.Duration(exp-o.RetAt))
					}
					if !s.lax && o.RetAt > exp {
						return fmt.Sprintf("%s returned %v late", what, time.Duration(o.RetAt-exp))
					}
					if byClose && !s.lax && cl.RetAt < exp && o.RetAt != max(cl.RetAt, o.CallAt) {
						return fmt.Sprintf("%s returned %v after the receiver was closed", what, time.Duration(o.RetAt-cl.RetAt))
					}
					// everything published before it expired must have been seen by now (time stands still until all is delivered)
					if !s.lax && (s.recv.buf >= total || s.recv.block && exp > o.CallAt && (cl == nil || cl.CallAt > o.CallAt)) {
						for e, p := range pub {
							if p != nil && !p.Pending() && p.RetAt < exp && p.RetAt < o.RetAt && !done[e] && (cl == nil || p.RetAt < cl.CallAt) {
								return fmt.Sprintf("%s returned %v without event %d, which was delivered %v before the timeout", what, res, e, time.Duration(exp-p.RetAt))
							}
						}
					}
				}
			}
			for _, e := range rest {
				if m := add("afterwards", e); m != "" {
					return m
				}
			}
			// nothing is lost
			if cl == nil && !stuck && (s.recv.block || s.recv.buf >= total) {
				for e, p := range pub {
					if p != nil && !p.Pending() && !done[e] && !(s.recv.block && s.recv.buf < total) {
						return fmt.Sprintf("event %d was lost: only %v were seen", e, all)
					}
				}
			}
			if s.recv.block {
				for _, e := range all {
					for f, p := range pub {
						if p != nil && !p.Pending() && !done[f] && p.Ret < pub[e].Call {
							return fmt.Sprintf("event %d was lost: %v were seen", f, all)
						}
					}
				}
			}
			return ""
		}
	}}
}

func p20(th bool) []*lib.Unit {
	var us []*lib.Unit
	B := func(buf int) evRecv { return evRecv{block: true, buf: buf} }
	D := func(buf int) evRecv { return evRecv{buf: buf} }
	pre := 2
	if th {
		pre = 3
	}
	mk := func(name string, w, k, pre int, note string, lax bool, rs []evRecv, cols []string, pubs [][]string) {
		var scs []*mc.Scenario
		for _, bb := range []int{0, 1} {
			for _, r := range rs {
				for _, c := range cols {
					for _, p := range pubs {
						pb := pre
						if (len(p) > 1 || strings.Contains(strings.Join(p, ""), "C")) && pb > 1 {
							pb--
						}
						scs = append(scs, colScn{bb, r, len(scs)%3 == 2, c, p, lax, pb, false}.scenario())
					}
				}
			}
		}
		us = append(us, splitScs(name, w, k, note, scs)...)
	}
	rs := []evRecv{B(0), B(1), B(3), D(0), D(1), D(3)}
	mk("drain", 7, 7, pre, "Drain called once to three times while events arrive, after they have arrived and on a closed receiver", false, rs,
		[]string{"d", "dd", "sd", "sdsd", "rd", "hdd"}, [][]string{nil, {"p"}, {"ppp"}, {"pp", "p"}, {"pps"}, {"pp0"}, {"ppC"}, {"pps0"}, {"pp", "s0"}, {"pspsC"}})
	mk("collect/timed", 8, 5, 1, "CollectTimeout with events at exact instants before, at and after the timeout, close before it", false, rs,
		[]string{"k", "kd", "kk", "sk", "tt", "skt"}, [][]string{nil, {"p"}, {"psp"}, {"pspsp"}, {"ppsppspp"}, {"sphphp"}, {"pssp0"}, {"ps0"}, {"psC"}, {"psp", "h0"}, {"psp", "hp"}, {"0"}, {"pC"}})
	zp := [][]string{nil, {"ppp"}, {"pp"}, {"p", "p"}, {"pp0"}, {"psC"}}
	if th {
		zp = append(zp, []string{"pp", "p"}, []string{"ppsC"})
	}
	mk("collect/zero", 7, 5, pre, "CollectTimeout with zero or negative timeout: what had been delivered is returned", false, []evRecv{B(1), B(3), D(1), D(3)},
		[]string{"z", "m", "sz", "sm", "szz", "hzd"}, zp)
	mk("collect/slow", 9, 6, 1, "time passes at any moment (a delayed collector, dispatcher or publisher): nothing delivered is lost or left out", true, []evRecv{B(0), B(1), B(3), D(1), D(3)},
		[]string{"k", "td", "tt", "hk", "z"}, [][]string{{"p"}, {"pp"}, {"php"}, {"pp", "h0"}, {"ppC"}})
	var odd []*mc.Scenario
	for _, r := range []evRecv{B(0), B(3), D(3)} {
		for _, c := range []string{"sd", "k", "tt", "sz", "sdrd"} {
			odd = append(odd, colScn{0, r, false, c, []string{"ppp"}, false, 1, true}.scenario(), colScn{2, r, false, c, []string{"ppsp"}, false, 1, true}.scenario())
		}
	}
	us = append(us, splitScs("values", 4, 2, "nil, empty and zero values are events like any other", odd)...)
	return us
}
