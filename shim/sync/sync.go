package sync

import (
	real "sync"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/vrt"
)

type Locker = real.Locker

type Mutex struct{ l vrt.Lock }

func (m *Mutex) Lock()         { m.l.Lock() }
func (m *Mutex) TryLock() bool { return m.l.TryLock() }
func (m *Mutex) Unlock()       { m.l.Unlock("mutex") }

type RWMutex struct{ l vrt.Lock }

func (m *RWMutex) Lock()           { m.l.Lock() }
func (m *RWMutex) Unlock()         { m.l.Unlock("RWMutex") }
func (m *RWMutex) RLock()          { m.l.RLock() }
func (m *RWMutex) RUnlock()        { m.l.RUnlock() }
func (m *RWMutex) TryLock() bool   { return m.l.TryLock() }
func (m *RWMutex) TryRLock() bool  { return m.l.TryRLock() }
func (m *RWMutex) RLocker() Locker { return &rlocker{m} }

type rlocker struct{ m *RWMutex }

func (r *rlocker) Lock()   { r.m.RLock() }
func (r *rlocker) Unlock() { r.m.RUnlock() }

type Once struct {
	l    vrt.Lock
	done bool
}

func (o *Once) Do(f func()) {
	o.l.Lock()
	if o.done {
		o.l.Unlock("once")
		return
	}
	defer o.l.Unlock("once")
	defer func() { o.done = true }()
	f()
}

type WaitGroup struct {
	n  int
	hb int
}

func (g *WaitGroup) Add(d int) {
	g.n += d
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	vrt.HBRel(&g.hb)
	vrt.Touch()
	vrt.Yield()
}
func (g *WaitGroup) Done() { g.Add(-1) }
func (g *WaitGroup) Wait() {
	vrt.Yield()
	for g.n > 0 {
		vrt.Block()
	}
	vrt.HBAcq(&g.hb)
}

func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	go func() {
		defer g.Done()
		f()
	}()
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

type Pool struct {
	New   func() interface{}
	items []interface{}
}

func (p *Pool) Get() interface{} {
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x interface{}) { p.items = append(p.items, x) }

type Map struct {
	l vrt.Lock
	m map[interface{}]interface{}
	k []interface{}
}

func (m *Map) Load(k interface{}) (interface{}, bool) {
	m.l.Lock()
	v, ok := m.m[k]
	m.l.Unlock("Map")
	return v, ok
}
func (m *Map) Store(k, v interface{}) {
	m.l.Lock()
	m.store(k, v)
	m.l.Unlock("Map")
}
func (m *Map) store(k, v interface{}) {
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
	if _, ok := m.m[k]; !ok {
		m.k = append(m.k, k)
	}
	m.m[k] = v
}
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	m.l.Lock()
	o, ok := m.m[k]
	if !ok {
		m.store(k, v)
		o = v
	}
	m.l.Unlock("Map")
	return o, ok
}
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	m.l.Lock()
	o, ok := m.m[k]
	m.del(k)
	m.l.Unlock("Map")
	return o, ok
}
func (m *Map) Delete(k interface{}) {
	m.l.Lock()
	m.del(k)
	m.l.Unlock("Map")
}
func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	m.l.Lock()
	o, ok := m.m[k]
	m.store(k, v)
	m.l.Unlock("Map")
	return o, ok
}
func (m *Map) CompareAndSwap(k, old, v interface{}) bool {
	m.l.Lock()
	o, ok := m.m[k]
	if ok = ok && o == old; ok {
		m.store(k, v)
	}
	m.l.Unlock("Map")
	return ok
}
func (m *Map) CompareAndDelete(k, old interface{}) bool {
	m.l.Lock()
	o, ok := m.m[k]
	if ok = ok && o == old; ok {
		m.del(k)
	}
	m.l.Unlock("Map")
	return ok
}
func (m *Map) Clear() {
	m.l.Lock()
	m.m, m.k = nil, nil
	m.l.Unlock("Map")
}
func (m *Map) del(k interface{}) {
	if _, ok := m.m[k]; ok {
		delete(m.m, k)
		for i, x := range m.k {
			if x == k {
				m.k = append(m.k[:i:i], m.k[i+1:]...)
				break
			}
		}
	}
}
func (m *Map) Range(f func(k, v interface{}) bool) {
	m.l.Lock()
	ks := append([]interface{}(nil), m.k...)
	m.l.Unlock("Map")
	for _, k := range ks {
		v, ok := m.Load(k)
		if ok && !f(k, v) {
			return
		}
	}
}

type Cond struct {
	L    Locker
	gen  int
	sig  int
	wait int
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	g := c.gen
	c.wait++
	c.L.Unlock()
	for c.gen == g && c.sig == 0 {
		vrt.Block()
	}
	if c.gen == g {
		c.sig--
		c.wait--
	}
	c.L.Lock()
}
func (c *Cond) Signal() {
	if c.sig < c.wait {
		c.sig++
	}
	vrt.Touch()
}
func (c *Cond) Broadcast() { c.gen++; c.sig, c.wait = 0, 0; vrt.Touch() }
