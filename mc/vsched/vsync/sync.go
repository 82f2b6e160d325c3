// Package vsync has the types of package sync, run by the scheduler of package vsched.
package vsync

import (
	s "verif/mc/vsched"
)

// Locker is sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

func ex(o *s.Obj) s.Access { return s.Access{O: o, Class: s.Excl} }

// Mutex is sync.Mutex.
type Mutex struct {
	o      s.Obj
	locked bool
}

func (m *Mutex) fresh() {
	if m.o.Fresh() {
		m.locked = false
	}
}

// Lock locks m.
func (m *Mutex) Lock() {
	m.fresh()
	t := s.Event("Lock", 30, func() bool { return !m.locked }, ex(&m.o))
	m.locked = true
	t.Acquire(&m.o)
}

// TryLock tries to lock m.
func (m *Mutex) TryLock() bool {
	s.UsesTry()
	m.fresh()
	t := s.Event("TryLock", 31, nil, ex(&m.o))
	if m.locked {
		return false
	}
	m.locked = true
	t.Acquire(&m.o)
	return true
}

// Unlock unlocks m.
func (m *Mutex) Unlock() {
	m.fresh()
	t := s.Free("Unlock", 32, ex(&m.o))
	if !m.locked {
		s.Fail("fatal error: sync: unlock of unlocked mutex")
	}
	t.Release(&m.o)
	m.locked = false
}

// RWMutex is sync.RWMutex: a waiting writer blocks new readers, and an unlocking writer lets all waiting
// readers in.
type RWMutex struct {
	o       s.Obj
	w       s.Obj // released by readers, acquired by writers
	pending bool  // a writer waits for the readers to leave, or holds the lock
	locked  bool
	readers int
	queue   []*bool
}

func (m *RWMutex) fresh() {
	if m.o.Fresh() {
		m.w.Fresh()
		m.pending, m.locked, m.readers, m.queue = false, false, 0, nil
	}
	m.w.Fresh()
}

const reader = 1

// Lock locks m for writing.
func (m *RWMutex) Lock() {
	m.fresh()
	t := s.Event("RW.Lock (announce)", 33, func() bool { return !m.pending }, ex(&m.o))
	m.pending = true
	if m.readers > 0 {
		t = s.Event("RW.Lock", 34, func() bool { return m.readers == 0 }, ex(&m.o))
	}
	m.locked = true
	t.Acquire(&m.o)
	t.Acquire(&m.w)
}

// TryLock tries to lock m for writing.
func (m *RWMutex) TryLock() bool {
	s.UsesTry()
	m.fresh()
	t := s.Event("RW.TryLock", 35, nil, ex(&m.o))
	if m.pending || m.readers > 0 {
		return false
	}
	m.pending, m.locked = true, true
	t.Acquire(&m.o)
	t.Acquire(&m.w)
	return true
}

// Unlock unlocks m for writing.
func (m *RWMutex) Unlock() {
	m.fresh()
	t := s.Free("RW.Unlock", 36, ex(&m.o))
	if !m.locked {
		s.Fail("fatal error: sync: Unlock of unlocked RWMutex")
	}
	t.Release(&m.o)
	m.locked, m.pending = false, false
	for _, g := range m.queue {
		*g = true
		m.readers++
	}
	m.queue = nil
}

// RLock locks m for reading.
func (m *RWMutex) RLock() {
	m.fresh()
	t := s.Event("RLock (announce)", 37, nil, s.Access{O: &m.o, Class: reader})
	if m.pending {
		granted := new(bool)
		m.queue = append(m.queue, granted)
		t = s.Event("RLock", 38, func() bool { return *granted }, s.Access{O: &m.o, Class: reader})
	} else {
		m.readers++
	}
	t.Acquire(&m.o)
}

// TryRLock tries to lock m for reading.
func (m *RWMutex) TryRLock() bool {
	s.UsesTry()
	m.fresh()
	t := s.Event("TryRLock", 39, nil, s.Access{O: &m.o, Class: reader})
	if m.pending {
		return false
	}
	m.readers++
	t.Acquire(&m.o)
	return true
}

// RUnlock unlocks m for reading.
func (m *RWMutex) RUnlock() {
	m.fresh()
	t := s.Free("RUnlock", 40, s.Access{O: &m.o, Class: reader})
	if m.readers <= 0 {
		s.Fail("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	t.Release(&m.w)
	m.readers--
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker is RWMutex.RLocker.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup is sync.WaitGroup.
type WaitGroup struct {
	o s.Obj
	n int
}

func (g *WaitGroup) fresh() {
	if g.o.Fresh() {
		g.n = 0
	}
}

// Add adds to the counter.
func (g *WaitGroup) Add(d int) {
	g.fresh()
	var t *s.Thread
	if d < 0 {
		t = s.Free("WaitGroup.Done", 41, s.Access{O: &g.o, Class: 1})
	} else {
		t = s.Event("WaitGroup.Add", 41, nil, s.Access{O: &g.o, Class: 1})
	}
	g.n += d
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	t.Release(&g.o)
}

// Done is Add(-1).
func (g *WaitGroup) Done() { g.Add(-1) }

// Wait waits for a zero counter.
func (g *WaitGroup) Wait() {
	g.fresh()
	t := s.Event("WaitGroup.Wait", 42, func() bool { return g.n == 0 }, s.Access{O: &g.o, Class: 2})
	t.Acquire(&g.o)
}

// Go runs f in a new goroutine counted by g.
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	s.Go(func() {
		defer g.Done()
		f()
	})
}

// Cond is sync.Cond.
type Cond struct {
	L Locker
	o s.Obj
	q []*bool
}

// NewCond makes a Cond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) fresh() {
	if c.o.Fresh() {
		c.q = nil
	}
}

// Wait waits to be woken.
func (c *Cond) Wait() {
	c.fresh()
	s.Event("Cond.Wait", 43, nil, ex(&c.o))
	woken := new(bool)
	c.q = append(c.q, woken)
	c.L.Unlock()
	s.Event("Cond.Wait (woken)", 44, func() bool { return *woken }, ex(&c.o))
	c.L.Lock()
}

// Signal wakes the longest waiting thread.
func (c *Cond) Signal() {
	c.fresh()
	s.Event("Cond.Signal", 45, nil, ex(&c.o))
	if len(c.q) > 0 {
		*c.q[0] = true
		c.q = c.q[1:]
	}
}

// Broadcast wakes all.
func (c *Cond) Broadcast() {
	c.fresh()
	s.Event("Cond.Broadcast", 46, nil, ex(&c.o))
	for _, w := range c.q {
		*w = true
	}
	c.q = nil
}

// Once is sync.Once.
type Once struct {
	m    Mutex
	o    s.Obj
	done bool
}

// Do runs f once.
func (o *Once) Do(f func()) {
	if o.o.Fresh() {
		o.done = false
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// Map is sync.Map.
type Map struct {
	o s.Obj
	k []any
	v map[any]any
}

func (m *Map) op(what string) {
	if m.o.Fresh() {
		m.k, m.v = nil, nil
	}
	t := s.Event(what, 47, nil, ex(&m.o))
	t.Acquire(&m.o)
	t.Release(&m.o)
	if m.v == nil {
		m.v = map[any]any{}
	}
}

// Load loads.
func (m *Map) Load(k any) (any, bool) { m.op("Map.Load"); v, ok := m.v[k]; return v, ok }

func (m *Map) put(k, v any) {
	if _, ok := m.v[k]; !ok {
		m.k = append(m.k, k)
	}
	m.v[k] = v
}

func (m *Map) del(k any) {
	delete(m.v, k)
	for i, x := range m.k {
		if x == k {
			m.k = append(append([]any{}, m.k[:i]...), m.k[i+1:]...)
			return
		}
	}
}

// Store stores.
func (m *Map) Store(k, v any) { m.op("Map.Store"); m.put(k, v) }

// Delete deletes.
func (m *Map) Delete(k any) { m.op("Map.Delete"); m.del(k) }

// LoadOrStore loads or stores.
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.op("Map.LoadOrStore")
	if x, ok := m.v[k]; ok {
		return x, true
	}
	m.put(k, v)
	return v, false
}

// LoadAndDelete loads and deletes.
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.op("Map.LoadAndDelete")
	x, ok := m.v[k]
	m.del(k)
	return x, ok
}

// Range calls f for every entry.
func (m *Map) Range(f func(k, v any) bool) {
	m.op("Map.Range")
	for _, k := range append([]any{}, m.k...) {
		m.op("Map.Range")
		if v, ok := m.v[k]; ok && !f(k, v) {
			return
		}
	}
}

// Pool is sync.Pool that keeps everything.
type Pool struct {
	New func() any
	o   s.Obj
	v   []any
}

func (p *Pool) op(what string) {
	if p.o.Fresh() {
		p.v = nil
	}
	t := s.Event(what, 48, nil, ex(&p.o))
	t.Acquire(&p.o)
	t.Release(&p.o)
}

// Get gets.
func (p *Pool) Get() any {
	p.op("Pool.Get")
	if n := len(p.v); n > 0 {
		x := p.v[n-1]
		p.v = p.v[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put puts.
func (p *Pool) Put(x any) {
	p.op("Pool.Put")
	p.v = append(p.v, x)
}
