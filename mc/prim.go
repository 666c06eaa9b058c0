//go:build go1.22

package mc

import "unsafe"

// ---- mutual exclusion ----------------------------------------------------------------------------------------------

// Mutex is a controlled sync.Mutex.
type Mutex struct {
	o    obj
	held bool
	ep   uint64
}

func (m *Mutex) sync() *Exec {
	x := curX
	ep := uint64(0)
	if x != nil {
		ep = x.ep
	}
	if m.ep != ep {
		m.ep = ep
		m.held = false
	}
	return x
}

func (m *Mutex) Lock() {
	x := m.sync()
	if x == nil {
		if m.held {
			panic("mc: sync.Mutex locked twice in sequential code (deadlock)")
		}
		m.held = true
		return
	}
	x.blockUntil("Lock", func() bool { return !m.held })
	x.fresh(&m.o)
	m.held = true
	x.evW(&m.o, 1)
	x.acquire(&m.o)
}

func (m *Mutex) TryLock() bool {
	x := m.sync()
	if x == nil {
		if m.held {
			return false
		}
		m.held = true
		return true
	}
	x.point("TryLock")
	x.fresh(&m.o)
	if m.held {
		x.evR(&m.o, 2)
		return false
	}
	m.held = true
	x.evW(&m.o, 3)
	x.acquire(&m.o)
	return true
}

func (m *Mutex) Unlock() {
	x := m.sync()
	if x == nil {
		if !m.held {
			panic("sync: unlock of unlocked mutex")
		}
		m.held = false
		return
	}
	if x.dead {
		return
	}
	if !m.held {
		x.fail("fatal error", "sync: unlock of unlocked mutex")
	}
	x.trc(x.cur, "Unlock")
	x.fresh(&m.o)
	m.held = false
	x.evW(&m.o, 4)
	x.release(&m.o)
}

// RWMutex is a controlled sync.RWMutex.
type RWMutex struct {
	o       obj
	ro      obj // releases by readers
	ep      uint64
	w       bool // some writer owns the writer side (announced or holding)
	holding bool // the writer holds the lock
	readers int
	waiters []*Thread // readers parked behind a writer
	wt      *Thread   // announced writer waiting for readers
}

func (m *RWMutex) sync() *Exec {
	x := curX
	ep := uint64(0)
	if x != nil {
		ep = x.ep
	}
	if m.ep != ep {
		m.ep = ep
		m.w, m.holding, m.readers, m.waiters, m.wt = false, false, 0, nil, nil
	}
	if x != nil && m.ro.ep != x.ep {
		m.ro = obj{ep: x.ep}
	}
	return x
}

func (m *RWMutex) Lock() {
	x := m.sync()
	if x == nil {
		if m.w || m.readers > 0 {
			panic("mc: sync.RWMutex locked twice in sequential code (deadlock)")
		}
		m.w, m.holding = true, true
		return
	}
	x.blockUntil("RWMutex.Lock", func() bool { return !m.w })
	x.fresh(&m.o)
	m.w = true
	x.evW(&m.o, 5)
	if m.readers > 0 {
		m.wt = x.cur
		x.park("RWMutex.Lock waiting for readers")
	}
	m.holding = true
	x.evW(&m.o, 6)
	x.acquire(&m.o)
	x.acquire(&m.ro)
}

func (m *RWMutex) TryLock() bool {
	x := m.sync()
	if x == nil {
		if m.w || m.readers > 0 {
			return false
		}
		m.w, m.holding = true, true
		return true
	}
	x.point("RWMutex.TryLock")
	x.fresh(&m.o)
	if m.w || m.readers > 0 {
		x.evR(&m.o, 7)
		return false
	}
	m.w, m.holding = true, true
	x.evW(&m.o, 8)
	x.acquire(&m.o)
	x.acquire(&m.ro)
	return true
}

func (m *RWMutex) Unlock() {
	x := m.sync()
	if x == nil {
		if !m.holding {
			panic("sync: Unlock of unlocked RWMutex")
		}
		m.w, m.holding = false, false
		return
	}
	if x.dead {
		return
	}
	if !m.holding {
		x.fail("fatal error", "sync: Unlock of unlocked RWMutex")
	}
	x.trc(x.cur, "RWMutex.Unlock")
	x.fresh(&m.o)
	m.w, m.holding = false, false
	x.evW(&m.o, 9)
	x.release(&m.o)
	for _, t := range m.waiters { // blocked readers get in before the next writer
		m.readers++
		t.h = mix(mix(t.h, m.o.h), 10)
		t.nops++
		t.vc = joinVC(t.vc, m.o.vc)
		x.ready(t)
	}
	m.waiters = nil
}

func (m *RWMutex) RLock() {
	x := m.sync()
	if x == nil {
		if m.w {
			panic("mc: sync.RWMutex read-locked while write-locked in sequential code (deadlock)")
		}
		m.readers++
		return
	}
	x.point("RLock")
	x.fresh(&m.o)
	x.evR(&m.o, 11)
	if m.w {
		m.waiters = append(m.waiters, x.cur)
		x.park("RLock")
		return
	}
	m.readers++
	x.acquire(&m.o)
}

func (m *RWMutex) TryRLock() bool {
	x := m.sync()
	if x == nil {
		if m.w {
			return false
		}
		m.readers++
		return true
	}
	x.point("TryRLock")
	x.fresh(&m.o)
	x.evR(&m.o, 12)
	if m.w {
		return false
	}
	m.readers++
	x.acquire(&m.o)
	return true
}

func (m *RWMutex) RUnlock() {
	x := m.sync()
	if x == nil {
		if m.readers <= 0 {
			panic("sync: RUnlock of unlocked RWMutex")
		}
		m.readers--
		return
	}
	if x.dead {
		return
	}
	if m.readers <= 0 {
		x.fail("fatal error", "sync: RUnlock of unlocked RWMutex")
	}
	x.trc(x.cur, "RUnlock")
	m.readers--
	// reader releases commute with each other but not with the writer
	t := x.cur
	t.nops++
	t.h = mix(t.h, 13)
	x.fresh(&m.o)
	m.o.h += mix(t.h, 14)
	m.ro.vc = joinVC(m.ro.vc, t.vc)
	t.tick()
	if m.readers == 0 && m.wt != nil {
		w := m.wt
		m.wt = nil
		w.h = mix(mix(w.h, m.o.h), 15)
		x.ready(w)
	}
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

// RLocker mirrors sync.RWMutex.RLocker.
func (m *RWMutex) RLocker() interface {
	Lock()
	Unlock()
} {
	return rlocker{m}
}

// Locker mirrors sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

// Cond is a controlled sync.Cond.
type Cond struct {
	L  Locker
	o  obj
	ep uint64
	q  []*Thread
}

func (c *Cond) sync() *Exec {
	x := curX
	ep := uint64(0)
	if x != nil {
		ep = x.ep
	}
	if c.ep != ep {
		c.ep = ep
		c.q = nil
	}
	return x
}

func (c *Cond) Wait() {
	x := c.sync()
	if x == nil {
		panic("mc: Cond.Wait blocks for ever in sequential code")
	}
	if x.dead {
		x.point("")
	}
	// adding oneself to the list and unlocking is atomic with respect to Signal under the lock; a scheduling point in
	// between is not needed because Signal without the lock can only come before or after
	x.point("Cond.Wait")
	x.fresh(&c.o)
	x.evW(&c.o, 16)
	t := x.cur
	c.q = append(c.q, t)
	t.st = tParked // may be readied before it sleeps
	t.st = tRunnable
	c.L.Unlock()
	if c.waiting(t) {
		x.park("Cond.Wait")
	}
	c.L.Lock()
}

func (c *Cond) waiting(t *Thread) bool {
	for _, o := range c.q {
		if o == t {
			return true
		}
	}
	return false
}

func (c *Cond) wakeOne(x *Exec, t *Thread) {
	t.h = mix(mix(t.h, c.o.h), 17)
	t.nops++
	x.ready(t)
}

func (c *Cond) Signal() {
	x := c.sync()
	if x == nil || x.dead {
		return
	}
	x.point("Cond.Signal")
	x.fresh(&c.o)
	x.evW(&c.o, 18)
	if len(c.q) > 0 { // sync.Cond wakes in FIFO order
		t := c.q[0]
		c.q = c.q[1:]
		c.wakeOne(x, t)
	}
}

func (c *Cond) Broadcast() {
	x := c.sync()
	if x == nil || x.dead {
		return
	}
	x.point("Cond.Broadcast")
	x.fresh(&c.o)
	x.evW(&c.o, 19)
	q := c.q
	c.q = nil
	for _, t := range q {
		c.wakeOne(x, t)
	}
}

// WaitGroup is a controlled sync.WaitGroup.
type WaitGroup struct {
	o  obj
	ep uint64
	n  int
}

func (g *WaitGroup) sync() *Exec {
	x := curX
	ep := uint64(0)
	if x != nil {
		ep = x.ep
	}
	if g.ep != ep {
		g.ep = ep
		g.n = 0
	}
	return x
}

func (g *WaitGroup) Add(d int) {
	x := g.sync()
	if x != nil {
		if x.dead {
			return
		}
		x.point("WaitGroup.Add")
		x.fresh(&g.o)
		x.evW(&g.o, 31+uint64(d))
		x.release(&g.o)
	}
	g.n += d
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

func (g *WaitGroup) Done() { g.Add(-1) }

func (g *WaitGroup) Wait() {
	x := g.sync()
	if x == nil {
		if g.n > 0 {
			panic("mc: WaitGroup.Wait blocks for ever in sequential code")
		}
		return
	}
	x.blockUntil("WaitGroup.Wait", func() bool { return g.n == 0 })
	x.fresh(&g.o)
	x.evR(&g.o, 30)
	x.acquire(&g.o)
}

// Go mirrors sync.WaitGroup.Go.
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	Go("WaitGroup.Go", func() {
		defer g.Done()
		f()
	})
}

// Once is a controlled sync.Once.
type Once struct {
	m    Mutex
	o    obj
	ep   uint64
	done bool
}

func (o *Once) Do(f func()) {
	x := curX
	ep := uint64(0)
	if x != nil {
		ep = x.ep
	}
	if o.ep != ep {
		o.ep = ep
		o.done = false
	}
	if x != nil {
		x.point("Once.Do")
		x.fresh(&o.o)
		x.evR(&o.o, 41)
		if o.done {
			x.acquire(&o.o)
			return
		}
	} else if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			if x := curX; x != nil && !x.dead {
				x.fresh(&o.o)
				x.evW(&o.o, 42)
				x.release(&o.o)
			}
			o.done = true
		}()
		f()
	}
}

// ---- atomics -------------------------------------------------------------------------------------------------------

func (x *Exec) atomObj(p unsafe.Pointer) *obj {
	o := x.atoms[p]
	if o == nil {
		o = &obj{}
		x.atoms[p] = o
	}
	x.fresh(o)
	return o
}

// AtomicOp is a scheduling point and happens-before bookkeeping for one atomic operation on *p: kind 'r' load, 'w'
// store, 'm' read-modify-write. The caller performs the operation afterwards and calls Seen with its result.
func AtomicOp(p unsafe.Pointer, size uintptr, kind byte) {
	x := curX
	if x == nil || x.dead {
		return
	}
	x.point("atomic " + string(rune(kind)))
	o := x.atomObj(p)
	if x.started {
		x.mem(p, size, kind != 'r', true, "atomic operation")
	}
	switch kind {
	case 'r':
		x.evR(o, 51)
		x.acquire(o)
	case 'w':
		x.evW(o, 52)
		x.acquire(o) // sequentially consistent total order; Go orders atomics like SC variables
		x.release(o)
	default:
		x.evW(o, 53)
		x.acquire(o)
		x.release(o)
	}
}
