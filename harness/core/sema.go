//go:build go1.22

package main

import (
	"fmt"
	"strings"

	"github.com/chanjarster/gears/concurrent"
	"github.com/chanjarster/gears/zverif/lib"
	"github.com/chanjarster/gears/zverif/mc"
)

// P01, P02: semaphores. Thread programs are strings over A (Acquire), T (TryAcquire), R (Release); all small programs
// are enumerated, and for each all schedules.

func semaNew(kind string, n int64) concurrent.Semaphore {
	if kind == "chan" {
		return concurrent.NewChanSemaphore(n)
	}
	return concurrent.NewLockSemaphore(n)
}

func semaStep(n int) func(s int, o *mc.Op) []int {
	return func(s int, o *mc.Op) []int {
		switch o.Name {
		case "A":
			if s < n {
				return []int{s + 1}
			}
			return nil
		case "T":
			if o.Pending() {
				return []int{s, min(s+1, n)}
			}
			if o.Res == true {
				if s < n {
					return []int{s + 1}
				}
				return nil
			}
			if s >= n {
				return []int{s}
			}
			return nil
		}
		return []int{max(s-1, 0)}
	}
}

func semaScenario(prop, kind string, n int64, progs []string) *mc.Scenario {
	return &mc.Scenario{
		Name: fmt.Sprintf("%s(%d):%v", kind, n, progs), Full: true,
		Body: func(x *mc.Exec) func() string {
			s := semaNew(kind, n)
			for i, p := range progs {
				x.Go(fmt.Sprint("t", i), func() {
					for _, c := range p {
						switch c {
						case 'A':
							x.Do("A", "", func() any { s.Acquire(); return "ok" })
						case 'T':
							x.Do("T", "", func() any { return s.TryAcquire() })
						case 'R':
							x.Do("R", "", func() any { s.Release(); return "ok" })
						}
					}
				})
			}
			x.AllowBlocked()
			probed, free, free2 := false, 0, 0
			x.Final(func() {
				for _, o := range x.Ops() {
					if o.Pending() {
						return
					}
				}
				probed = true
				for free <= int(n) && s.TryAcquire() {
					free++
				}
				for i := 0; i < int(n)+2; i++ {
					s.Release()
				}
				for free2 <= int(n) && s.TryAcquire() {
					free2++
				}
			})
			return func() string {
				waiting := 0
				for _, o := range x.Ops() {
					if o.Pending() {
						if o.Name != "A" {
							return "the non-blocking call " + o.Name + " never returned"
						}
						waiting++
					}
				}
				if prop == "P01" {
					if !mc.Linearizable(x.Ops(), 0, semaStep(int(n))) {
						return "no order of the calls explains the grants"
					}
					if probed {
						// releasing everything (and more) gives exactly n permits
						if !mc.LinearizableTo(x.Ops(), 0, semaStep(int(n)), func(c int) bool { return c+free == int(n) }) {
							return fmt.Sprintf("%d permits were free at the end; no order of the calls explains that", free)
						}
						if free2 != int(n) {
							return fmt.Sprintf("after releasing everything and more %d permits could be acquired, not %d", free2, n)
						}
					}
					return ""
				}
				if waiting > 0 {
					var done []*mc.Op
					for _, o := range x.Ops() {
						if !o.Pending() {
							done = append(done, o)
						}
					}
					if !mc.LinearizableTo(done, 0, semaStep(int(n)), func(c int) bool { return c >= int(n) }) {
						return fmt.Sprintf("%d callers wait in Acquire although a permit is free", waiting)
					}
				}
				return ""
			}
		},
	}
}

func strs(alpha string, lo, hi int) []string {
	var out []string
	level := []string{""}
	for l := 0; l <= hi; l++ {
		if l >= lo {
			out = append(out, level...)
		}
		var next []string
		for _, p := range level {
			for _, c := range alpha {
				next = append(next, p+string(c))
			}
		}
		level = next
	}
	return out
}

func semaUnits(prop string) func(bool) []*lib.Unit {
	return func(th bool) []*lib.Unit {
		var us []*lib.Unit
		add := func(name string, w int, note string, scs []*mc.Scenario) {
			us = append(us, &lib.Unit{Name: name, Weight: w, Note: note, Scs: scs})
		}
		for _, kind := range []string{"chan", "lock"} {
			for n := int64(1); n <= 3; n++ {
				var two, three, four []*mc.Scenario
				hi := 3
				if th {
					hi = 4
				}
				ps := strs("ATR", 1, hi)
				for i, a := range ps {
					for _, b := range ps[i:] {
						if th || len(a)+len(b) <= 5 {
							two = append(two, semaScenario(prop, kind, n, []string{a, b}))
						}
					}
				}
				add(fmt.Sprintf("%s/%d/two-threads", kind, n), 5, fmt.Sprintf("all pairs of programs of up to %d calls", hi), two)
				ps = strs("ATR", 1, 3)
				sum := 5
				if th {
					sum = 6
				}
				for i, a := range ps {
					for j, b := range ps[i:] {
						for _, c := range ps[i+j:] {
							if len(a)+len(b)+len(c) <= sum {
								three = append(three, semaScenario(prop, kind, n, []string{a, b, c}))
							}
						}
					}
				}
				add(fmt.Sprintf("%s/%d/three-threads", kind, n), 9, fmt.Sprintf("all triples of programs of up to %d calls in all", sum), three)
				// four threads
				var quad []*mc.Scenario
				for i, a := range ps {
					for j, b := range ps[i:] {
						for k, c := range ps[i+j:] {
							for _, d := range ps[i+j+k:] {
								if len(a)+len(b)+len(c)+len(d) <= sum {
									quad = append(quad, semaScenario(prop, kind, n, []string{a, b, c, d}))
								}
							}
						}
					}
				}
				add(fmt.Sprintf("%s/%d/four-threads", kind, n), 9, fmt.Sprintf("all quadruples of programs of up to %d calls in all", sum), quad)
				hot := [][]string{{"AR", "AR", "AR"}, {"AR", "AR", "TR"}, {"AAR", "R", "AR"}, {"AR", "AR", "RA"}, {"ARAR", "AR", "A"}, {"AAR", "AR", "R"}}
				// everything is held and given back while as many wait
				full := strings.Repeat("A", int(n)) + strings.Repeat("R", int(n))
				hot = append(hot, []string{full, "A", "A"}, []string{full, "AR", "A"}, []string{full, "R", "A"}, []string{full + "T", "A", "A"})
				if n == 2 {
					hot = append(hot, []string{"AAR", "R", "A", "A"})
				}
				if n == 3 {
					hot = append(hot, []string{full, "A", "A", "A"})
				}
				if th {
					hot = append(hot, []string{"AR", "AR", "AR", "AR"}, []string{"AR", "AR", "TR", "TR"}, []string{"AAR", "RA", "AR", "R"}, []string{"AARR", "ARR", "AR"}, []string{"ARAR", "ARAR", "AR"})
				}
				for _, h := range hot {
					four = append(four, semaScenario(prop, kind, n, h))
				}
				add(fmt.Sprintf("%s/%d/contended", kind, n), 8, "selected contended programs", four)
			}
		}
		return us
	}
}

func init() {
	lib.Register("P01", with(semaUnits("P01"), scaleSema), "capacity 1 to 3, up to 4 callers; capacity below 1 is out of scope")
	lib.Register("P02", with(semaUnits("P02"), scaleSema), "capacity 1 to 3, up to 4 callers; capacity below 1 is out of scope")
}
