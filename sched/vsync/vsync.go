// Package sync stands for the standard package in rewritten sources
package sync

import "github.com/dmitryikh/leaves/zzverif/vsched"

// Locker as in the standard package
type Locker interface {
	Lock()
	Unlock()
}

// Mutex as in the standard package
type Mutex struct{ o vsched.Obj }

func (m *Mutex) Lock()         { m.o.Lock() }
func (m *Mutex) Unlock()       { m.o.Unlock() }
func (m *Mutex) TryLock() bool { return m.o.TryLock() }

// RWMutex as in the standard package
type RWMutex struct{ o vsched.Obj }

func (m *RWMutex) Lock()          { m.o.Lock() }
func (m *RWMutex) Unlock()        { m.o.Unlock() }
func (m *RWMutex) TryLock() bool  { return m.o.TryLock() }
func (m *RWMutex) RLock()         { m.o.RLock() }
func (m *RWMutex) RUnlock()       { m.o.RUnlock() }
func (m *RWMutex) TryRLock() bool { return m.o.TryRLock() }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker as in the standard package
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup as in the standard package
type WaitGroup struct{ o vsched.Obj }

func (w *WaitGroup) Add(n int) { w.o.Add(n) }
func (w *WaitGroup) Done()     { w.o.Add(-1) }
func (w *WaitGroup) Wait()     { w.o.Wait() }

// Go as in the standard package
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vsched.Go(func() {
		defer w.Done()
		f()
	})
}

// Once as in the standard package
type Once struct{ o vsched.Obj }

func (o *Once) Do(f func()) { o.o.OnceDo(f) }

// OnceFunc as in the standard package
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue as in the standard package
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

// Pool as in the standard package; whether a used object comes back is a choice of the scheduler
type Pool struct {
	o    vsched.Obj
	New  func() interface{}
	used []interface{}
}

//go:norace
func (p *Pool) take() interface{} {
	x := p.used[len(p.used)-1]
	p.used = p.used[:len(p.used)-1]
	return x
}

//go:norace
func (p *Pool) give(x interface{}) {
	u := make([]interface{}, len(p.used)+1)
	for i := range p.used {
		u[i] = p.used[i]
	}
	u[len(p.used)] = x
	p.used = u
}

//go:norace
func (p *Pool) fresh() {
	if p.o.NewRun() {
		p.used = nil
	}
}

// Get as in the standard package
func (p *Pool) Get() interface{} {
	p.fresh()
	if p.o.PoolGet() {
		return p.take()
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put as in the standard package
func (p *Pool) Put(x interface{}) {
	if x == nil {
		return
	}
	p.fresh()
	p.o.PoolPut()
	p.give(x)
}

// Cond as in the standard package
type Cond struct {
	L Locker
	w []*vsched.Obj
	m Mutex
}

// NewCond as in the standard package
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait as in the standard package
func (c *Cond) Wait() {
	t := &vsched.Obj{}
	c.m.Lock()
	c.w = append(c.w, t)
	c.m.Unlock()
	c.L.Unlock()
	vsched.CondWait(t)
	c.L.Lock()
}

// Signal as in the standard package
func (c *Cond) Signal() {
	c.m.Lock()
	var t *vsched.Obj
	if len(c.w) > 0 {
		t = c.w[0]
		c.w = c.w[1:]
	}
	c.m.Unlock()
	if t != nil {
		vsched.CondSignal(t)
	}
}

// Broadcast as in the standard package
func (c *Cond) Broadcast() {
	c.m.Lock()
	w := c.w
	c.w = nil
	c.m.Unlock()
	for _, t := range w {
		vsched.CondSignal(t)
	}
}

// Map as in the standard package
type Map struct {
	mu Mutex
	m  map[interface{}]interface{}
}

func (m *Map) Load(k interface{}) (interface{}, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	v, ok := m.m[k]
	return v, ok
}

func (m *Map) Store(k, v interface{}) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
	m.m[k] = v
}

func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if x, ok := m.m[k]; ok {
		return x, true
	}
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
	m.m[k] = v
	return v, false
}

func (m *Map) Delete(k interface{}) {
	m.mu.Lock()
	defer m.mu.Unlock()
	delete(m.m, k)
}

func (m *Map) Range(f func(k, v interface{}) bool) {
	m.mu.Lock()
	c := map[interface{}]interface{}{}
	for k, v := range m.m {
		c[k] = v
	}
	m.mu.Unlock()
	for k, v := range c {
		if !f(k, v) {
			return
		}
	}
}
