//go:build go1.22

package mc

import (
	"fmt"
	"unsafe"
)

type access struct {
	tid    int
	clk    uint32
	mask   uint8
	write  bool
	atomic bool
	loc    string
}

type cell struct{ acc []access }

// R records a read of *p.
func R[T any](p *T, loc string) *T {
	if x := curX; x != nil && !x.dead && x.started {
		x.mem(unsafe.Pointer(p), unsafe.Sizeof(*p), false, false, loc)
	}
	return p
}

// W records a write of *p.
func W[T any](p *T, loc string) *T {
	if x := curX; x != nil && !x.dead && x.started {
		x.mem(unsafe.Pointer(p), unsafe.Sizeof(*p), true, false, loc)
	}
	return p
}

// MapR records a read of the map's contents.
func MapR[M ~map[K]V, K comparable, V any](m M, loc string) M {
	if x := curX; x != nil && !x.dead && x.started && m != nil {
		x.mem(*(*unsafe.Pointer)(unsafe.Pointer(&m)), 8, false, false, loc)
	}
	return m
}

// MapW records a write of the map's contents.
func MapW[M ~map[K]V, K comparable, V any](m M, loc string) M {
	if x := curX; x != nil && !x.dead && x.started && m != nil {
		x.mem(*(*unsafe.Pointer)(unsafe.Pointer(&m)), 8, true, false, loc)
	}
	return m
}

// ObjR / ObjW record accesses to the contents of a foreign object.
func ObjR(p unsafe.Pointer, loc string) {
	if x := curX; x != nil && !x.dead && x.started && p != nil {
		x.mem(p, 8, false, false, loc)
	}
}

func ObjW(p unsafe.Pointer, loc string) {
	if x := curX; x != nil && !x.dead && x.started && p != nil {
		x.mem(p, 8, true, false, loc)
	}
}

func (x *Exec) mem(p unsafe.Pointer, size uintptr, write, atomic bool, loc string) {
	if size == 0 {
		return
	}
	t := x.cur
	if t.id < 0 {
		return
	}
	if _, ok := x.keep[p]; !ok {
		x.keep[p] = struct{}{}
	}
	a := uintptr(p)
	if size > 256 {
		size = 256
	}
	end := a + size
	for w := a &^ 7; w < end; w += 8 {
		lo, hi := w, w+8
		if lo < a {
			lo = a
		}
		if hi > end {
			hi = end
		}
		mask := uint8(0)
		for b := lo; b < hi; b++ {
			mask |= 1 << (b - w)
		}
		c := x.cells[w]
		if c == nil {
			c = &cell{}
			x.cells[w] = c
		}
		x.cellAccess(c, t, mask, write, atomic, loc)
		if x.over {
			return
		}
	}
}

func (x *Exec) cellAccess(c *cell, t *Thread, mask uint8, write, atomic bool, loc string) {
	clk := t.clk()
	out := c.acc[:0]
	for _, a := range c.acc {
		if a.mask&mask == 0 {
			out = append(out, a)
			continue
		}
		hb := a.tid == t.id || (a.tid < len(t.vc) && t.vc[a.tid] >= a.clk)
		if !hb && (a.write || write) && !(a.atomic && atomic) {
			x.fail("data race", fmt.Sprintf("%s of %s by %s races with %s at %s by %s", rw(write), loc, t.name,
				rw(a.write), a.loc, x.threads[a.tid].name))
			return
		}
		// an earlier access that happens before this one and is covered by it needs no record any more
		if hb && a.mask&^mask == 0 &&
			((write && (!atomic || a.atomic)) || (a.tid == t.id && !write && !a.write && a.atomic == atomic)) {
			continue
		}
		out = append(out, a)
	}
	c.acc = append(out, access{t.id, clk, mask, write, atomic, loc})
}

func rw(w bool) string {
	if w {
		return "write"
	}
	return "read"
}
