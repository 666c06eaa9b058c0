//go:build go1.22

// Package msync replaces package sync in rewritten code.
package msync

import (
	"github.com/chanjarster/gears/zverif/mc"
)

type (
	Mutex     = mc.Mutex
	RWMutex   = mc.RWMutex
	Cond      = mc.Cond
	WaitGroup = mc.WaitGroup
	Once      = mc.Once
	Locker    = mc.Locker
)

// NewCond mirrors sync.NewCond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// OnceFunc mirrors sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// Map mirrors sync.Map: every operation is atomic.
type Map struct {
	m    mc.Mutex
	keys []any
	v    map[any]any
}

func (m *Map) Load(k any) (any, bool) {
	m.m.Lock()
	defer m.m.Unlock()
	v, ok := m.v[k]
	return v, ok
}

func (m *Map) store(k, v any) {
	if m.v == nil {
		m.v = map[any]any{}
	}
	if _, ok := m.v[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.v[k] = v
}

func (m *Map) del(k any) {
	if _, ok := m.v[k]; ok {
		delete(m.v, k)
		for i := range m.keys {
			if m.keys[i] == k {
				m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
				break
			}
		}
	}
}

func (m *Map) Store(k, v any) {
	m.m.Lock()
	defer m.m.Unlock()
	m.store(k, v)
}

func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.m.Lock()
	defer m.m.Unlock()
	if o, ok := m.v[k]; ok {
		return o, true
	}
	m.store(k, v)
	return v, false
}

func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.m.Lock()
	defer m.m.Unlock()
	o, ok := m.v[k]
	m.del(k)
	return o, ok
}

func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

func (m *Map) Swap(k, v any) (any, bool) {
	m.m.Lock()
	defer m.m.Unlock()
	o, ok := m.v[k]
	m.store(k, v)
	return o, ok
}

func (m *Map) CompareAndSwap(k, old, new any) bool {
	m.m.Lock()
	defer m.m.Unlock()
	if o, ok := m.v[k]; ok && o == old {
		m.v[k] = new
		return true
	}
	return false
}

func (m *Map) CompareAndDelete(k, old any) bool {
	m.m.Lock()
	defer m.m.Unlock()
	if o, ok := m.v[k]; ok && o == old {
		m.del(k)
		return true
	}
	return false
}

func (m *Map) Clear() {
	m.m.Lock()
	defer m.m.Unlock()
	m.v, m.keys = nil, nil
}

func (m *Map) Range(f func(k, v any) bool) {
	m.m.Lock()
	ks := append([]any(nil), m.keys...)
	m.m.Unlock()
	for _, k := range ks {
		v, ok := m.Load(k)
		if ok && !f(k, v) {
			return
		}
	}
}

// Pool mirrors sync.Pool.
type Pool struct {
	New  func() any
	m    mc.Mutex
	free []any
}

func (p *Pool) Get() any {
	p.m.Lock()
	if n := len(p.free); n > 0 {
		v := p.free[n-1]
		p.free = p.free[:n-1]
		p.m.Unlock()
		return v
	}
	p.m.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(v any) {
	p.m.Lock()
	defer p.m.Unlock()
	p.free = append(p.free, v)
}
