package simrt

import (
	"runtime"
	"sync"
	"unsafe"
)

//go:norace
func runtimeGoexit() { runtime.Goexit() }

// Mutex is a drop-in for sync.Mutex.
type Mutex struct {
	locked bool
	w      []*Task
}

//go:norace
func (m *Mutex) Lock() {
	sc := s
	if sc == nil {
		if m.locked {
			panic("simrt: deadlock outside a simulation")
		}
		m.locked = true
		return
	}
	if sc.cur.killed {
		return
	}
	SyncPoint()
	for m.locked {
		m.w = push(m.w, sc.cur)
		sc.block("Mutex.Lock")
	}
	m.locked = true
	RaceAcquire(unsafe.Pointer(m))
}

//go:norace
func (m *Mutex) TryLock() bool {
	if s != nil {
		SyncPoint()
	}
	if m.locked {
		return false
	}
	m.locked = true
	RaceAcquire(unsafe.Pointer(m))
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	sc := s
	if sc != nil && sc.cur.killed {
		return
	}
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	RaceRelease(unsafe.Pointer(m))
	m.locked = false
	for _, t := range m.w {
		sc.ready(t)
	}
	m.w = m.w[:0]
	SyncPoint()
}

type Locker = sync.Locker

// RWMutex is a drop-in for sync.RWMutex, with its writer preference.
type RWMutex struct {
	w        bool
	r        int
	wwait    int
	writersQ []*Task
	readersQ []*rwReader
	rs       byte
}

type rwReader struct {
	t       *Task
	granted bool
}

//go:norace
func (m *RWMutex) RLock() {
	sc := s
	if sc == nil {
		if m.w {
			panic("simrt: deadlock outside a simulation")
		}
		m.r++
		return
	}
	if sc.cur.killed {
		return
	}
	SyncPoint()
	if m.w || m.wwait > 0 {
		q := &rwReader{t: sc.cur}
		m.readersQ = push(m.readersQ, q)
		for !q.granted {
			sc.block("RWMutex.RLock")
		}
	} else {
		m.r++
	}
	RaceAcquire(unsafe.Pointer(m))
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	if s != nil {
		SyncPoint()
	}
	if m.w || m.wwait > 0 {
		return false
	}
	m.r++
	RaceAcquire(unsafe.Pointer(m))
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	sc := s
	if sc != nil && sc.cur.killed {
		return
	}
	if m.r <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	RaceReleaseM(unsafe.Pointer(&m.rs))
	m.r--
	if m.r == 0 {
		for _, t := range m.writersQ {
			sc.ready(t)
		}
		m.writersQ = m.writersQ[:0]
	}
	SyncPoint()
}

//go:norace
func (m *RWMutex) Lock() {
	sc := s
	if sc == nil {
		if m.w || m.r > 0 {
			panic("simrt: deadlock outside a simulation")
		}
		m.w = true
		return
	}
	if sc.cur.killed {
		return
	}
	SyncPoint()
	if m.w || m.r > 0 {
		m.wwait++
		for m.w || m.r > 0 {
			m.writersQ = push(m.writersQ, sc.cur)
			sc.block("RWMutex.Lock")
		}
		m.wwait--
	}
	m.w = true
	RaceAcquire(unsafe.Pointer(m))
	RaceAcquire(unsafe.Pointer(&m.rs))
}

//go:norace
func (m *RWMutex) TryLock() bool {
	if s != nil {
		SyncPoint()
	}
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	RaceAcquire(unsafe.Pointer(m))
	RaceAcquire(unsafe.Pointer(&m.rs))
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	sc := s
	if sc != nil && sc.cur.killed {
		return
	}
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	RaceRelease(unsafe.Pointer(m))
	m.w = false
	// readers that arrived while the writer held the lock go first, as in the real one
	for _, q := range m.readersQ {
		q.granted = true
		m.r++
		sc.ready(q.t)
	}
	m.readersQ = nil
	if m.r == 0 {
		for _, t := range m.writersQ {
			sc.ready(t)
		}
		m.writersQ = m.writersQ[:0]
	}
	SyncPoint()
}

//go:norace
func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

type rlocker RWMutex

//go:norace
func (r *rlocker) Lock() { (*RWMutex)(r).RLock() }

//go:norace
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// WaitGroup is a drop-in for sync.WaitGroup.
type WaitGroup struct {
	n int
	w []*Task
}

//go:norace
func (g *WaitGroup) Add(d int) {
	sc := s
	if sc != nil && sc.cur.killed {
		return
	}
	if d < 0 {
		RaceReleaseM(unsafe.Pointer(g))
	}
	g.n += d
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if g.n == 0 && sc != nil {
		for _, t := range g.w {
			sc.ready(t)
		}
		g.w = g.w[:0]
	}
	SyncPoint()
}

//go:norace
func (g *WaitGroup) Done() { g.Add(-1) }

//go:norace
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	Go(func() { defer g.Done(); f() })
}

//go:norace
func (g *WaitGroup) Wait() {
	sc := s
	if sc == nil {
		if g.n != 0 {
			panic("simrt: deadlock outside a simulation")
		}
		return
	}
	if sc.cur.killed {
		return
	}
	SyncPoint()
	for g.n > 0 {
		g.w = push(g.w, sc.cur)
		sc.block("WaitGroup.Wait")
	}
	RaceAcquire(unsafe.Pointer(g))
}

// Once is a drop-in for sync.Once.
type Once struct {
	m    Mutex
	done bool
}

//go:norace
func (o *Once) Do(f func()) {
	if Dying() {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// Cond is a drop-in for sync.Cond.
type Cond struct {
	L sync.Locker
	w []*condW
}
type condW struct {
	t    *Task
	done bool
}

//go:norace
func NewCond(l sync.Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) Wait() {
	sc := s
	if sc == nil {
		panic("simrt: Cond.Wait outside a simulation")
	}
	if sc.cur.killed {
		return
	}
	w := &condW{t: sc.cur}
	c.w = push(c.w, w)
	c.L.Unlock()
	for !w.done {
		sc.block("Cond.Wait")
	}
	RaceAcquire(unsafe.Pointer(c))
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() {
	if s == nil || s.cur.killed {
		return
	}
	RaceReleaseM(unsafe.Pointer(c))
	if len(c.w) > 0 {
		i := s.mrng.N(len(c.w))
		w := c.w[i]
		for ; i < len(c.w)-1; i++ {
			c.w[i] = c.w[i+1]
		}
		c.w = c.w[:len(c.w)-1]
		w.done = true
		s.ready(w.t)
	}
	SyncPoint()
}

//go:norace
func (c *Cond) Broadcast() {
	if s == nil || s.cur.killed {
		return
	}
	RaceReleaseM(unsafe.Pointer(c))
	for _, w := range c.w {
		w.done = true
		s.ready(w.t)
	}
	c.w = nil
	SyncPoint()
}

// Map is a drop-in for sync.Map.
type Map struct {
	m    map[interface{}]interface{}
	keys []interface{}
	rs   byte
}

//go:norace
func (m *Map) op() {
	SyncPoint()
	RaceAcquire(unsafe.Pointer(&m.rs))
	RaceReleaseM(unsafe.Pointer(&m.rs))
	raceOff()
}

//go:norace
func (m *Map) Load(k interface{}) (v interface{}, ok bool) {
	m.op()
	defer raceOn()
	v, ok = m.m[k]
	return
}

//go:norace
func (m *Map) Store(k, v interface{}) {
	m.op()
	defer raceOn()
	m.store(k, v)
}

//go:norace
func (m *Map) store(k, v interface{}) {
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
	if _, ok := m.m[k]; !ok {
		m.keys = push(m.keys, k)
	}
	m.m[k] = v
}

//go:norace
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	m.op()
	defer raceOn()
	if x, ok := m.m[k]; ok {
		return x, true
	}
	m.store(k, v)
	return v, false
}

//go:norace
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	m.op()
	defer raceOn()
	x, ok := m.m[k]
	m.del(k)
	return x, ok
}

//go:norace
func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	m.op()
	defer raceOn()
	x, ok := m.m[k]
	m.store(k, v)
	return x, ok
}

//go:norace
func (m *Map) CompareAndSwap(k, o, n interface{}) bool {
	m.op()
	defer raceOn()
	if x, ok := m.m[k]; ok && x == o {
		m.m[k] = n
		return true
	}
	return false
}

//go:norace
func (m *Map) CompareAndDelete(k, o interface{}) bool {
	m.op()
	defer raceOn()
	if x, ok := m.m[k]; ok && x == o {
		m.del(k)
		return true
	}
	return false
}

//go:norace
func (m *Map) del(k interface{}) {
	if _, ok := m.m[k]; !ok {
		return
	}
	delete(m.m, k)
	for i, x := range m.keys {
		if x == k {
			m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
			break
		}
	}
}

//go:norace
func (m *Map) Delete(k interface{}) {
	m.op()
	defer raceOn()
	m.del(k)
}

//go:norace
func (m *Map) Clear() {
	m.op()
	defer raceOn()
	m.m, m.keys = nil, nil
}

//go:norace
func (m *Map) Range(f func(k, v interface{}) bool) {
	m.op()
	ks := append([]interface{}{}, m.keys...)
	raceOn()
	if s != nil {
		for i := len(ks) - 1; i > 0; i-- {
			j := s.mrng.N(i + 1)
			ks[i], ks[j] = ks[j], ks[i]
		}
	}
	for _, k := range ks {
		v, ok := m.Load(k)
		if ok && !f(k, v) {
			return
		}
	}
}

// Pool is a drop-in for sync.Pool; it sometimes forgets what was put in.
type Pool struct {
	New func() interface{}
	x   []interface{}
}

//go:norace
func (p *Pool) Get() interface{} {
	SyncPoint()
	RaceAcquire(unsafe.Pointer(p))
	if n := len(p.x); n > 0 {
		v := p.x[n-1]
		p.x = p.x[:n-1]
		if s == nil || s.mrng.N(4) != 0 {
			return v
		}
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

//go:norace
func (p *Pool) Put(v interface{}) {
	SyncPoint()
	if Dying() {
		return
	}
	RaceReleaseM(unsafe.Pointer(p))
	p.x = push(p.x, v)
}
