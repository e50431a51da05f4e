// Package simrt is the deterministic scheduler. Goroutines of the system under
// test become tasks: real goroutines of which exactly one runs at any time; who
// runs next is decided here from a seeded generator (or an explicit schedule).
// Outside a simulation (package initialisation) everything runs synchronously.
package simrt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"unsafe"
)

const (
	sRunnable = iota
	sBlocked
	sDone
)

// Task is one simulated goroutine.
type Task struct {
	id      int
	grp     *Group
	wake    chan struct{}
	state   int
	why     string
	prio    int64
	killed  bool
	started bool
	fn      func()
	class   uint64
	site    uint64
	polling bool
}

// Group is one incarnation of the system's process: killing it kills all its tasks.
type Group struct {
	id    int
	tasks []*Task
	dead  bool
	// Outcome
	Panicked bool
	PanicVal string
	Stack    string
	Killed   bool
	sync     [8]byte         // what its tasks did happened before it was reaped
	spawned  map[uint64]bool // go statements that have started tasks
	idle     map[uint64]int  // how many of their tasks wait for work when all is quiet
}

// Decision is one scheduling choice that differs from the default.
type Decision struct {
	Op   int   `json:"op"`
	Step int64 `json:"step"`
	Task int   `json:"task"` // index into the runnable list, in id order
}

// Params of a run's schedule.
type Params struct {
	Seed     uint64     `json:"seed"`
	PYield   float64    `json:"py"` // preemption probability per statement
	PSync    float64    `json:"ps"` // preemption probability per synchronisation point
	Strategy string     `json:"st"` // random | pct | starve | fifo | lifo | explicit
	Decs     []Decision `json:"decs,omitempty"`
}

// Sched is the state of one simulation.
type Sched struct {
	P        Params
	cur      *Task
	root     *Task
	runq     []*Task // runnable tasks other than cur
	nextID   int
	op       int
	base     int64 // steps before the current countdown
	reload   int64
	rng      Rng
	mrng     Rng // map order and other data choices
	decs     map[int][]Decision
	rec      []Decision
	curGroup *Group
	done     bool
	StepCap  int64 // per op
	Over     string
	total    int64 // steps of finished ops
	chans    chanTab
	timers   []*timer
	now      int64
	// statistics
	Switches int64
	Preempts int64
	Blocks   int64
	Spawns   int64
	MaxTasks int
	sigHash  uint64
	starve   uint64
	pctAt    map[int64]bool
	nTask    int
	trapStep int64 // kill request at this step of the op (-1: none)
	onTrap   func()
	// HB hook for race builds
}

var (
	s   *Sched
	cnt int64 = 1 << 62
)

// Active reports whether a simulation is running.
//
//go:norace
func Active() bool { return s != nil }

// Rng is splitmix64.
type Rng struct{ x uint64 }

//go:norace
func NewRng(seed uint64) Rng { return Rng{seed} }

//go:norace
func (r *Rng) Seed(x uint64) { r.x = x }

//go:norace
func (r *Rng) U64() uint64 {
	r.x += 0x9e3779b97f4a7c15
	z := r.x
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:norace
func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

//go:norace
func (r *Rng) F() float64 { return float64(r.U64()>>11) / (1 << 53) }

//go:norace
func (r *Rng) P(p float64) bool { return r.F() < p }

//go:norace
func Mix(a, b uint64) uint64 { r := Rng{a*0x9e3779b97f4a7c15 ^ b}; r.U64(); return r.U64() }

//go:norace
func (r *Rng) Range(a, b int) int { return a + r.N(b-a+1) }

//go:norace
func (r *Rng) Pick(xs ...int) int { return xs[r.N(len(xs))] }

// geometric countdown with mean 1/p
//
//go:norace
func (r *Rng) geo(p float64) int64 {
	if p <= 0 {
		return 1 << 40
	}
	if p >= 1 {
		return 1
	}
	// inverse transform with a cheap log
	n := int64(1)
	m := 1 / p
	u := r.F()
	// exponential approximation
	n += int64(m * negln(1-u))
	return n
}

//go:norace
func negln(x float64) float64 {
	// -ln(x) for x in (0,1], by repeated scaling (deterministic, no math import needed)
	if x <= 1e-12 {
		return 27
	}
	k := 0.0
	for x < 0.5 {
		x *= 2
		k++
	}
	y := (1 - x) / (1 + x)
	y2 := y * y
	l := 2 * y * (1 + y2/3 + y2*y2/5 + y2*y2*y2/7)
	return l + k*0.6931471805599453
}

// Run executes f as the root task of a new simulation and returns it when f has returned.
//
//go:norace
func Run(p Params, f func(s *Sched)) *Sched {
	if s != nil {
		panic("simrt: nested simulation")
	}
	sc := &Sched{P: p, StepCap: 1 << 40, decs: map[int][]Decision{}, trapStep: -1}
	for _, d := range p.Decs {
		sc.decs[d.Op] = append(sc.decs[d.Op], d)
	}
	sc.mrng.Seed(Mix(p.Seed, 77))
	root := &Task{id: 0, wake: make(chan struct{}, 1), state: sRunnable, started: true}
	sc.root, sc.cur = root, root
	s = sc
	raceReset()
	sc.BeginOp(0)
	defer func() {
		sc.total += sc.Step()
		sc.base, sc.reload = 0, 0
		s = nil
		cnt = 1 << 62
		sc.done = true
	}()
	f(sc)
	return sc
}

// BeginOp restarts step counting and the schedule generator for plan operation op,
// so that removing another operation does not change this one's schedule.
//
//go:norace
func (sc *Sched) BeginOp(op int) {
	if sc.reload > 0 {
		sc.total += sc.Step()
	}
	sc.op = op
	sc.rng.Seed(Mix(sc.P.Seed, uint64(op)+1000))
	sc.mrng.Seed(Mix(sc.P.Seed, uint64(op)+5000077))
	sc.base, sc.reload, cnt = 0, 0, 0
	sc.starve = sc.rng.U64()
	sc.trapStep = -1
	if sc.P.Strategy == "pct" {
		sc.pctAt = map[int64]bool{}
	}
	sc.setCountdown()
}

// Step is the number of scheduling opportunities passed in the current op.
//
//go:norace
func (sc *Sched) Step() int64 { return sc.base + sc.reload - cnt }

//go:norace
func (sc *Sched) TotalSteps() int64 {
	if sc.done {
		return sc.total
	}
	return sc.total + sc.Step()
}

//go:norace
func (sc *Sched) Recorded() []Decision { return sc.rec }

//go:norace
func (sc *Sched) Sig() uint64 { return sc.sigHash }

// Trap arranges for f to run (in the context of the running task) at the given step of the op.
//
//go:norace
func (sc *Sched) Trap(step int64, f func()) {
	sc.trapStep, sc.onTrap = step, f
	sc.settle()
	sc.setCountdown()
}

//go:norace
func (sc *Sched) settle() {
	sc.base += sc.reload - cnt
	sc.reload, cnt = 0, 0
}

//go:norace
func (sc *Sched) setCountdown() {
	n := int64(1) << 22
	switch sc.P.Strategy {
	case "explicit":
		for _, d := range sc.decs[sc.op] {
			if d.Step > sc.base {
				if d.Step-sc.base < n {
					n = d.Step - sc.base
				}
				break
			}
		}
	default:
		if g := sc.rng.geo(sc.P.PYield); g < n {
			n = g
		}
	}
	if sc.trapStep > sc.base && sc.trapStep-sc.base < n {
		n = sc.trapStep - sc.base
	}
	sc.reload, cnt = n, n
}

// Y is called before every statement of the system under test.
//
//go:norace
func Y() {
	cnt--
	if cnt <= 0 {
		yslow()
	}
}

//go:norace
func yslow() {
	sc := s
	if sc == nil {
		cnt = 1 << 62
		return
	}
	sc.settle()
	if sc.cur.killed { // deferred code of a dead process: never switches
		sc.setCountdown()
		return
	}
	if sc.base > sc.StepCap && sc.Over == "" && sc.cur.grp != nil && !sc.cur.grp.dead {
		sc.Over = fmt.Sprintf("step cap %d exceeded", sc.StepCap)
		sc.setCountdown()
		sc.killGroup(sc.cur.grp)
		return
	}
	if sc.trapStep >= 0 && sc.base >= sc.trapStep {
		f := sc.onTrap
		sc.trapStep, sc.onTrap = -1, nil
		sc.setCountdown()
		f()
		return
	}
	pre := true
	if sc.P.Strategy == "explicit" {
		pre = sc.explicitAt(sc.base) >= 0
	}
	sc.setCountdown()
	if pre {
		sc.preempt(sc.base0())
	}
}

//go:norace
func (sc *Sched) base0() int64 { return sc.Step() }

//go:norace
func (sc *Sched) explicitAt(step int64) int {
	ds := sc.decs[sc.op]
	i := sort.Search(len(ds), func(i int) bool { return ds[i].Step >= step })
	if i < len(ds) && ds[i].Step == step {
		return ds[i].Task
	}
	return -1
}

// SyncPoint is called at every synchronisation and I/O operation.
//
//go:norace
func SyncPoint() {
	sc := s
	if sc == nil || sc.cur.killed {
		return
	}
	cnt--
	if cnt <= 0 {
		yslow()
		return
	}
	if sc.P.Strategy == "explicit" {
		return // recorded preemptions arrive through the countdown
	}
	if sc.P.PSync > 0 && len(sc.runq) > 0 && sc.rng.F() < sc.P.PSync {
		sc.preempt(sc.Step())
	}
}

// push is append without the runtime's help, which the race detector would watch.
//
//go:norace
func push[T any](x []T, v T) []T {
	n := len(x)
	if n == cap(x) {
		y := make([]T, n, 2*n+4)
		for i := range x {
			y[i] = x[i]
		}
		x = y
	}
	x = x[:n+1]
	x[n] = v
	return x
}

//go:norace
func (sc *Sched) runnableIndex(t *Task) int { // rank by id among runq
	r := 0
	for _, x := range sc.runq {
		if x.id < t.id {
			r++
		}
	}
	return r
}

//go:norace
func (sc *Sched) byRank(rank int) *Task {
	ids := make([]*Task, len(sc.runq))
	for i, t := range sc.runq {
		ids[i] = t
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i].id < ids[j].id })
	if rank >= len(ids) {
		rank = len(ids) - 1
	}
	if rank < 0 {
		return nil
	}
	return ids[rank]
}

// choose picks the next task. block is true when the current task cannot continue.
//
//go:norace
func (sc *Sched) choose(block bool, step int64) *Task {
	if len(sc.runq) == 0 {
		return nil
	}
	var t *Task
	switch sc.P.Strategy {
	case "explicit":
		if k := sc.explicitAt(step); k >= 0 {
			t = sc.byRank(k)
		} else if block {
			t = sc.runq[0]
		} else {
			return nil
		}
	case "fifo":
		t = sc.runq[0]
	case "lifo":
		t = sc.runq[len(sc.runq)-1]
	case "pct":
		for _, x := range sc.runq {
			if t == nil || x.prio > t.prio {
				t = x
			}
		}
		if !block && sc.cur.prio > t.prio {
			if sc.rng.P(0.05) { // change point: demote the running task
				sc.cur.prio = -int64(sc.rng.U64() >> 2)
			}
			if sc.cur.prio > t.prio {
				return nil
			}
		}
	case "starve":
		n := 0
		for _, x := range sc.runq {
			if x.class^sc.starve&3 != 0 {
				n++
			}
		}
		if n == 0 {
			if !block && sc.rng.P(0.95) {
				return nil // the starved ones wait while anybody else can run
			}
			t = sc.runq[sc.rng.N(len(sc.runq))]
		} else {
			k := sc.rng.N(n)
			for _, x := range sc.runq {
				if x.class^sc.starve&3 != 0 {
					if k == 0 {
						t = x
						break
					}
					k--
				}
			}
		}
	default:
		t = sc.runq[sc.rng.N(len(sc.runq))]
	}
	if t != nil && !(block && t == sc.runq[0]) {
		sc.rec = push(sc.rec, Decision{sc.op, step, sc.runnableIndex(t)})
	}
	return t
}

//go:norace
func (sc *Sched) preempt(step int64) {
	if len(sc.runq) == 0 || sc.cur == sc.root && sc.cur.grp == nil {
		return
	}
	t := sc.choose(false, step)
	if t == nil {
		return
	}
	sc.Preempts++
	me := sc.cur
	me.state = sRunnable
	sc.runq = push(sc.runq, me)
	sc.switchTo(t)
}

//go:norace
func (sc *Sched) remove(t *Task) {
	for i, x := range sc.runq {
		if x == t {
			for n := len(sc.runq) - 1; i < n; i++ {
				sc.runq[i] = sc.runq[i+1]
			}
			sc.runq = sc.runq[:len(sc.runq)-1]
			return
		}
	}
}

// switchTo hands the processor to t and parks the current task until it is chosen again.
//
//go:norace
func (sc *Sched) switchTo(t *Task) {
	me := sc.cur
	sc.Switches++
	sc.sigHash = (sc.sigHash*0x100000001b3 ^ uint64(t.id)) + uint64(sc.Step()&0xffff)
	sc.remove(t)
	sc.cur = t
	raceOff()
	sc.resume(t)
	<-me.wake
	raceOn()
	if me.killed {
		runtime.Goexit()
	}
}

//go:norace
func (sc *Sched) resume(t *Task) {
	if !t.started {
		t.started = true
		go t.main()
		return
	}
	t.wake <- struct{}{}
}

// block parks the current task until some other task makes it runnable.
//
//go:norace
func (sc *Sched) block(why string) {
	me := sc.cur
	me.state = sBlocked
	me.why = why
	sc.Blocks++
	cnt--
	t := sc.nextOrIdle()
	if t == me { // made runnable by a timer
		return
	}
	sc.switchTo(t)
	me.why = ""
}

// nextOrIdle picks a task when the current one cannot run; with nobody runnable it
// advances the clock, or reports a deadlock to the root.
//
//go:norace
func (sc *Sched) nextOrIdle() *Task {
	for {
		if t := sc.choose(true, sc.Step()); t != nil {
			return t
		}
		if !sc.fireTimer() {
			break
		}
		if sc.cur.state == sRunnable {
			for _, x := range sc.runq {
				if x == sc.cur {
					sc.remove(sc.cur)
					return sc.cur
				}
			}
		}
	}
	// deadlock
	if sc.Over == "" {
		sc.Over = "deadlock: " + sc.dump()
	}
	if sc.root.state == sRunnable && sc.cur != sc.root {
		return sc.root
	}
	sc.root.state = sRunnable
	return sc.root
}

//go:norace
func (sc *Sched) dump() string {
	var sb strings.Builder
	if sc.curGroup != nil {
		for _, t := range sc.curGroup.tasks {
			if t.state != sDone {
				fmt.Fprintf(&sb, "[task %d %s] ", t.id, t.why)
			}
		}
	}
	return sb.String()
}

// ready makes t runnable.
//
//go:norace
func (sc *Sched) ready(t *Task) {
	if t.state == sBlocked {
		t.state = sRunnable
		sc.runq = push(sc.runq, t)
	}
}

//go:norace
func (t *Task) main() {
	defer func() {
		r := recover()
		sc := s
		if t.grp != nil {
			RaceReleaseM(unsafe.Pointer(&t.grp.sync))
		}
		raceOff()
		defer raceOn()
		if t.killed {
			t.state = sDone
			sc.root.wake <- struct{}{} // the killer waits for us
			return
		}
		if r != nil && t.grp != nil {
			t.grp.Panicked = true
			t.grp.PanicVal = fmt.Sprint(r)
			t.grp.Stack = string(debug.Stack())
			t.state = sDone
			t.grp.dead = true
			sc.finishGroup(t)
			return
		}
		t.state = sDone
		sc.exit(t)
	}()
	if t.killed {
		return
	}
	t.fn()
}

// exit: the task's function has returned.
//
//go:norace
func (sc *Sched) exit(t *Task) {
	if t.grp != nil && len(t.grp.tasks) > 0 && t.grp.tasks[0] == t {
		// main function of the process: wait for the root
		sc.ready(sc.root)
	}
	cnt--
	n := sc.nextOrIdle()
	sc.remove(n)
	sc.cur = n
	sc.Switches++
	sc.sigHash = (sc.sigHash*0x100000001b3 ^ uint64(n.id)) + uint64(sc.Step()&0xffff)
	sc.resume(n)
}

// finishGroup hands control to the root after a panic.
//
//go:norace
func (sc *Sched) finishGroup(t *Task) {
	sc.root.state = sRunnable
	sc.remove(sc.root)
	sc.cur = sc.root
	sc.root.wake <- struct{}{}
}

// killGroup is called by a running task of g (or the root): the group is dead from now on.
//
//go:norace
func (sc *Sched) killGroup(g *Group) {
	g.dead = true
	g.Killed = true
	if sc.cur != sc.root {
		me := sc.cur
		sc.root.state = sRunnable
		sc.remove(sc.root)
		sc.cur = sc.root
		me.state = sBlocked
		me.why = "killed"
		raceOff()
		sc.root.wake <- struct{}{}
		<-me.wake
		raceOn()
		if me.killed {
			runtime.Goexit()
		}
	}
}

// Kill ends the process that is running (called from within it).
//
//go:norace
func Kill() {
	if s == nil || s.cur.grp == nil || s.cur.killed {
		return
	}
	s.killGroup(s.cur.grp)
}

// Go starts a task.
//
//go:norace
func Go(f func()) {
	sc := s
	if sc == nil {
		f()
		return
	}
	if sc.cur.killed {
		return
	}
	sc.spawn(f)
	SyncPoint()
}

var sites = map[uintptr]uint64{}

// spawnSite names the function whose go statement is running.
//
//go:norace
func spawnSite() uint64 {
	var pcs [1]uintptr
	if runtime.Callers(4, pcs[:]) == 0 {
		return 0
	}
	if h, ok := sites[pcs[0]]; ok {
		return h
	}
	fr, _ := runtime.CallersFrames(pcs[:]).Next()
	h := uint64(1)
	for _, c := range fr.Function {
		h = Mix(h, uint64(c))
	}
	sites[pcs[0]] = h
	return h
}

//go:norace
func (sc *Sched) spawn(f func()) *Task {
	sc.nextID++
	t := &Task{id: sc.nextID, grp: sc.cur.grp, wake: make(chan struct{}, 1), state: sRunnable, fn: raceSpawn(f)}
	if sc.curGroup != nil && t.grp == nil {
		t.grp = sc.curGroup
	}
	sc.Spawns++
	if sc.P.Strategy == "pct" {
		t.prio = int64(sc.rng.U64() >> 2)
	}
	t.class = sc.rng.U64() & 3
	if sc.starve&0x100 != 0 && sc.P.Strategy == "starve" {
		t.class = Mix(spawnSite(), sc.starve) & 3 // all tasks of one go statement together
	}
	if t.grp != nil {
		if sc.cur != sc.root {
			t.site = spawnSite()
			if !t.grp.spawned[t.site] {
				if t.grp.spawned == nil {
					t.grp.spawned = map[uint64]bool{}
				}
				t.grp.spawned[t.site] = true
			}
		}
		t.grp.tasks = push(t.grp.tasks, t)
		if len(t.grp.tasks) > 256 { // drop finished tasks
			k := t.grp.tasks[:1]
			for _, x := range t.grp.tasks[1:] {
				if x.state != sDone {
					k = push(k, x)
				}
			}
			t.grp.tasks = k
		}
	}
	sc.runq = push(sc.runq, t)
	if n := len(sc.runq) + 1; n > sc.MaxTasks {
		sc.MaxTasks = n
	}
	return t
}

// NewGroup makes a process incarnation.
//
//go:norace
func (sc *Sched) NewGroup() *Group {
	sc.nTask++
	return &Group{id: sc.nTask}
}

// Call runs f inside process g (called from the root) and returns when f has returned,
// or the process has died (panic, kill) or cannot make progress (deadlock, step cap).
// It reports whether f returned.
//
//go:norace
func (sc *Sched) Call(g *Group, f func()) bool {
	if sc.cur != sc.root {
		panic("simrt: Call outside the root task")
	}
	if g.dead {
		panic("simrt: Call into a dead process")
	}
	done := false
	old := sc.curGroup
	sc.curGroup = g
	ret := new([8]byte) // for the program, a call is made by one and the same thread
	t := sc.spawn(func() { f(); done = true; RaceReleaseM(unsafe.Pointer(ret)) })
	// t becomes the main task of this call
	for i, x := range g.tasks {
		if x == t {
			for ; i > 0; i-- {
				g.tasks[i] = g.tasks[i-1]
			}
			g.tasks[0] = t
			break
		}
	}
	root := sc.root
	root.state = sBlocked
	root.why = "root"
	n := t
	sc.remove(n)
	sc.cur = n
	raceOff()
	sc.resume(n)
	<-root.wake
	raceOn()
	RaceAcquire(unsafe.Pointer(ret))
	root.state = sRunnable
	sc.remove(root)
	sc.cur = root
	sc.curGroup = old
	if sc.Over != "" && !done {
		g.dead = true
	}
	if g.dead {
		sc.reap(g)
	}
	return done && !g.dead
}

// Pending tells how many tasks of g are unfinished.
//
//go:norace
func (sc *Sched) Pending(g *Group) int {
	n := 0
	for _, t := range g.tasks {
		if t.state != sDone {
			n++
		}
	}
	return n
}

// Quiesce lets the remaining tasks of g run until none is runnable; it returns the number that stay blocked.
//
//go:norace
func (sc *Sched) Quiesce(g *Group) int {
	for i := 0; i < 1000 && !g.dead; i++ {
		run := false
		for _, t := range sc.runq {
			if t.grp == g {
				run = true
			}
		}
		if !run {
			break
		}
		sc.Call(g, func() {
			for j := 0; j < 50 && len(s.runq) > 0; j++ {
				Yield()
			}
		})
	}
	if g.dead {
		return 0
	}
	return sc.stuck(g)
}

// stuck counts the blocked tasks that are not workers waiting for more to do: those of a go statement
// that leaves the same number of tasks waiting for a message each time all is quiet, from the first time on.
//
//go:norace
func (sc *Sched) stuck(g *Group) int {
	n := 0
	wait := map[uint64]int{}
	for _, t := range g.tasks {
		switch {
		case t.state == sDone:
		case t.site != 0 && (t.why == "chan receive" || t.why == "select" || t.why == "Cond.Wait"):
			wait[t.site]++
		default:
			n++
		}
	}
	if g.idle == nil {
		g.idle = map[uint64]int{}
	}
	for h := range g.spawned {
		if k, ok := g.idle[h]; !ok {
			g.idle[h] = wait[h]
		} else if wait[h] > k {
			n += wait[h] - k
		}
	}
	return n
}

// Yield lets any other runnable task go first.
//
//go:norace
func Yield() {
	sc := s
	if sc == nil || sc.cur.killed || len(sc.runq) == 0 {
		return
	}
	cnt--
	me := sc.cur
	t := sc.choose(true, sc.Step())
	if t == nil {
		return
	}
	me.state = sRunnable
	sc.runq = push(sc.runq, me)
	sc.switchTo(t)
}

// reap ends every task of a dead group.
//
//go:norace
func (sc *Sched) reap(g *Group) {
	for _, t := range g.tasks {
		if t.state == sDone {
			continue
		}
		sc.remove(t)
		t.killed = true
		if !t.started {
			t.state = sDone
			continue
		}
		sc.cur = t
		raceOff()
		t.wake <- struct{}{}
		<-sc.root.wake
		raceOn()
	}
	sc.cur = sc.root
	RaceAcquire(unsafe.Pointer(&g.sync))
	g.tasks = nil
	sc.chans = chanTab{}
	sc.timers = nil
}

// KillGroup ends a process from the root task.
//
//go:norace
func (sc *Sched) KillGroup(g *Group) {
	if g.dead {
		return
	}
	g.dead = true
	g.Killed = true
	sc.reap(g)
}

//go:norace
func (g *Group) Dead() bool { return g.dead }

// CurID identifies the running task.
//
//go:norace
func CurID() int {
	if s == nil {
		return 0
	}
	return s.cur.id
}

// Rand is the simulation's generator for data choices of the environment.
//
//go:norace
func Rand() *Rng {
	if s == nil {
		r := NewRng(1)
		return &r
	}
	return &s.mrng
}

// Dying reports whether the running task is being killed: its deferred calls must have no effect.
//
//go:norace
func Dying() bool { return s != nil && s.cur.killed }
