package simrt

import (
	"unsafe"
)

type waiter struct {
	t    *Task
	gone bool
}

type rendez struct {
	t     *Task
	v     interface{}
	taken bool
	sel   *selState
	idx   int
}

type chanState struct {
	keep   interface{}
	closed bool
	sendW  []*waiter // tasks waiting to send (buffered)
	recvW  []*waiter
	sendQ  []*rendez // pending rendezvous sends (unbuffered)
	sync   byte      // close, and rendezvous
	slots  []byte    // one per buffered element: the k-th receive precedes the (k+cap)-th send
	sx, rx int
}

//go:norace
func (c *chanState) slot(n *int, max int) unsafe.Pointer {
	if len(c.slots) != max {
		c.slots = make([]byte, max)
	}
	k := *n % max
	*n++
	return unsafe.Pointer(&c.slots[k])
}

//go:norace
func (c *chanState) raceSend(max int) {
	p := c.slot(&c.sx, max)
	RaceAcquire(p)
	RaceReleaseM(p)
}

//go:norace
func (c *chanState) raceRecv(max int) {
	p := c.slot(&c.rx, max)
	RaceAcquire(p)
	RaceReleaseM(p)
}

//go:norace
func chanPtr[T any](ch chan T) uintptr { return uintptr(*(*unsafe.Pointer)(unsafe.Pointer(&ch))) }

// chanTab maps channels to their state.
type chanTab struct {
	b [256][]chanEnt
}
type chanEnt struct {
	p uintptr
	c *chanState
}

//go:norace
func (sc *Sched) cs(p uintptr, keep interface{}) *chanState {
	b := &sc.chans.b[(p>>4^p>>12)&255]
	for i := range *b {
		if (*b)[i].p == p {
			return (*b)[i].c
		}
	}
	c := &chanState{keep: keep}
	*b = push(*b, chanEnt{p, c})
	return c
}

//go:norace
func wakeAll(sc *Sched, ws *[]*waiter) {
	for _, w := range *ws {
		if !w.gone {
			sc.ready(w.t)
		}
	}
	*ws = (*ws)[:0]
}

//go:norace
func sendP[T any](ch chan<- T) uintptr { return uintptr(*(*unsafe.Pointer)(unsafe.Pointer(&ch))) }

//go:norace
func recvP[T any](ch <-chan T) uintptr { return uintptr(*(*unsafe.Pointer)(unsafe.Pointer(&ch))) }

// Snd is "ch <- v" written as Snd(ch)(v).
//
//go:norace
func Snd[T any](ch chan<- T) func(T) {
	return func(v T) { send(ch, v) }
}

//go:norace
func send[T any](ch chan<- T, v T) {
	sc := s
	if sc == nil {
		ch <- v
		return
	}
	if sc.cur.killed {
		return
	}
	SyncPoint()
	if ch == nil {
		for {
			sc.block("send on nil channel")
		}
	}
	c := sc.cs(sendP(ch), ch)
	if cap(ch) > 0 {
		for {
			if c.closed {
				panic("send on closed channel")
			}
			raceOff()
			ok := false
			select {
			case ch <- v:
				ok = true
			default:
			}
			raceOn()
			if ok {
				c.raceSend(cap(ch))
				wakeAll(sc, &c.recvW)
				return
			}
			c.sendW = push(c.sendW, &waiter{t: sc.cur})
			sc.block("chan send")
		}
	}
	if c.closed {
		panic("send on closed channel")
	}
	RaceReleaseM(unsafe.Pointer(&c.sync))
	r := &rendez{t: sc.cur, v: v}
	c.sendQ = push(c.sendQ, r)
	wakeAll(sc, &c.recvW)
	for !r.taken {
		if c.closed {
			panic("send on closed channel")
		}
		sc.block("chan send")
	}
	RaceAcquire(unsafe.Pointer(&c.sync))
}

// tryRecv attempts a receive without blocking.
//
//go:norace
func tryRecv[T any](sc *Sched, ch <-chan T, c *chanState) (v T, ok, done bool) {
	if cap(ch) > 0 {
		got := false
		raceOff()
		select {
		case v, ok = <-ch:
			got = true
		default:
		}
		raceOn()
		if got {
			if ok {
				c.raceRecv(cap(ch))
			} else {
				RaceAcquire(unsafe.Pointer(&c.sync))
			}
			wakeAll(sc, &c.sendW)
			return v, ok, true
		}
		return v, false, false
	}
	for len(c.sendQ) > 0 {
		r := c.sendQ[0]
		c.sendQ = c.sendQ[1:]
		if r.sel != nil {
			if r.sel.done {
				continue
			}
			r.sel.done, r.sel.idx = true, r.idx
		}
		r.taken = true
		RaceAcquire(unsafe.Pointer(&c.sync))
		RaceReleaseM(unsafe.Pointer(&c.sync))
		sc.ready(r.t)
		if r.v == nil {
			return v, true, true
		}
		return r.v.(T), true, true
	}
	if c.closed {
		RaceAcquire(unsafe.Pointer(&c.sync))
		return v, false, true
	}
	return v, false, false
}

//go:norace
func Recv2[T any](ch <-chan T) (T, bool) {
	sc := s
	if sc == nil {
		v, ok := <-ch
		return v, ok
	}
	if sc.cur.killed {
		var z T
		return z, false
	}
	SyncPoint()
	if ch == nil {
		for {
			sc.block("receive from nil channel")
		}
	}
	c := sc.cs(recvP(ch), ch)
	for {
		if v, ok, done := tryRecv(sc, ch, c); done {
			return v, ok
		}
		c.recvW = push(c.recvW, &waiter{t: sc.cur})
		sc.block("chan receive")
	}
}

//go:norace
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

//go:norace
func Close[T any](ch chan<- T) {
	sc := s
	if sc == nil {
		close(ch)
		return
	}
	if sc.cur.killed {
		return
	}
	SyncPoint()
	if ch == nil {
		panic("close of nil channel")
	}
	c := sc.cs(sendP(ch), ch)
	if c.closed {
		panic("close of closed channel")
	}
	RaceReleaseM(unsafe.Pointer(&c.sync))
	c.closed = true
	raceOff()
	close(ch)
	raceOn()
	wakeAll(sc, &c.recvW)
	wakeAll(sc, &c.sendW)
	for _, r := range c.sendQ {
		sc.ready(r.t)
	}
}

// ChanIter iterates over a channel.
type ChanIter[T any] struct{ ch <-chan T }

//go:norace
func RangeChan[T any](ch <-chan T) (*ChanIter[T], T) {
	var z T
	return &ChanIter[T]{ch}, z
}

//go:norace
func RangeChan0[T any](ch <-chan T) *ChanIter[T] { return &ChanIter[T]{ch} }

//go:norace
func (it *ChanIter[T]) Next(p *T) bool {
	v, ok := Recv2(it.ch)
	if ok {
		*p = v
	}
	return ok
}

//go:norace
func (it *ChanIter[T]) Next0() bool { _, ok := Recv2(it.ch); return ok }

// select

type selState struct {
	done bool
	idx  int
}

type SelCase interface {
	try(sc *Sched) bool
	enq(sc *Sched, st *selState, idx int)
	commit(sc *Sched)
}

type RecvCase[T any] struct {
	V  T
	OK bool
	ch <-chan T
}

//go:norace
func CaseRecv[T any](ch <-chan T) *RecvCase[T] { return &RecvCase[T]{ch: ch} }

//go:norace
func (c *RecvCase[T]) try(sc *Sched) bool {
	if c.ch == nil {
		return false
	}
	if sc == nil {
		select {
		case c.V, c.OK = <-c.ch:
			return true
		default:
			return false
		}
	}
	v, ok, done := tryRecv(sc, c.ch, sc.cs(recvP(c.ch), c.ch))
	if done {
		c.V, c.OK = v, ok
	}
	return done
}

//go:norace
func (c *RecvCase[T]) enq(sc *Sched, st *selState, idx int) {
	if c.ch != nil {
		x := sc.cs(recvP(c.ch), c.ch)
		x.recvW = push(x.recvW, &waiter{t: sc.cur})
	}
}

//go:norace
func (c *RecvCase[T]) commit(sc *Sched) {}

type SendCase[T any] struct {
	ch chan<- T
	v  T
}

//go:norace
func CaseSend[T any](ch chan<- T) func(T) *SendCase[T] {
	return func(v T) *SendCase[T] { return &SendCase[T]{ch, v} }
}

//go:norace
func (c *SendCase[T]) try(sc *Sched) bool {
	if c.ch == nil {
		return false
	}
	if sc == nil {
		select {
		case c.ch <- c.v:
			return true
		default:
			return false
		}
	}
	x := sc.cs(sendP(c.ch), c.ch)
	if x.closed {
		panic("send on closed channel")
	}
	if cap(c.ch) > 0 {
		select {
		case c.ch <- c.v:
			x.raceSend(cap(c.ch))
			wakeAll(sc, &x.recvW)
			return true
		default:
		}
	}
	return false
}

//go:norace
func (c *SendCase[T]) enq(sc *Sched, st *selState, idx int) {
	if c.ch == nil {
		return
	}
	x := sc.cs(sendP(c.ch), c.ch)
	if cap(c.ch) > 0 {
		x.sendW = push(x.sendW, &waiter{t: sc.cur})
		return
	}
	RaceReleaseM(unsafe.Pointer(&x.sync))
	x.sendQ = push(x.sendQ, &rendez{t: sc.cur, v: c.v, sel: st, idx: idx})
	wakeAll(sc, &x.recvW)
}

//go:norace
func (c *SendCase[T]) commit(sc *Sched) {}

//go:norace
func (c *SendCase[T]) taken(sc *Sched) {
	RaceAcquire(unsafe.Pointer(&sc.cs(sendP(c.ch), c.ch).sync))
}

// Select returns the index of the case that fired, -1 for default.
//
//go:norace
func Select(hasDefault bool, cases ...SelCase) int {
	sc := s
	if sc != nil {
		if sc.cur.killed {
			runtimeGoexit()
		}
		SyncPoint()
	}
	for {
		off := 0
		if len(cases) > 0 && sc != nil {
			off = sc.mrng.N(len(cases))
		}
		for i := range cases {
			k := (i + off) % len(cases)
			if cases[k].try(sc) {
				return k
			}
		}
		if hasDefault {
			return -1
		}
		if sc == nil {
			panic("simrt: select would block outside a simulation")
		}
		st := &selState{}
		for i, c := range cases {
			c.enq(sc, st, i)
		}
		sc.block("select")
		if st.done {
			if a, ok := cases[st.idx].(interface{ taken(sc *Sched) }); ok {
				a.taken(sc)
			}
			return st.idx
		}
		st.done = true // withdraw the queued sends
	}
}
