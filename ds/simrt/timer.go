package simrt

import "sort"

type timer struct {
	at   int64
	seq  int
	f    func()
	t    *Task
	dead bool
}

// Now is the simulated clock in nanoseconds: it advances with the steps taken and by sleeping.
//
//go:norace
func Now() int64 {
	if s == nil {
		return 0
	}
	return s.now + s.Step()*100
}

var tseq int

// After arranges for f to run in a new task at now+d; stop it with the returned function.
//
//go:norace
func After(d int64, f func()) (stop func() bool) {
	if s == nil {
		return func() bool { return false }
	}
	tseq++
	tm := &timer{at: Now() + d, seq: tseq, f: f}
	s.timers = push(s.timers, tm)
	return func() bool {
		was := !tm.dead
		tm.dead = true
		return was
	}
}

// Sleep parks the running task for d simulated nanoseconds.
//
//go:norace
func Sleep(d int64) {
	if s == nil || s.cur.killed {
		return
	}
	tseq++
	tm := &timer{at: Now() + d, seq: tseq, t: s.cur}
	s.timers = push(s.timers, tm)
	for !tm.dead {
		s.block("sleep")
	}
}

//go:norace
func (sc *Sched) fireTimer() bool {
	sort.Slice(sc.timers, func(i, j int) bool {
		if sc.timers[i].at != sc.timers[j].at {
			return sc.timers[i].at < sc.timers[j].at
		}
		return sc.timers[i].seq < sc.timers[j].seq
	})
	for len(sc.timers) > 0 {
		tm := sc.timers[0]
		sc.timers = sc.timers[1:]
		if tm.dead {
			continue
		}
		tm.dead = true
		if n := Now(); tm.at > n {
			sc.now += tm.at - n
		}
		if tm.t != nil {
			sc.ready(tm.t)
		} else {
			sc.spawn(tm.f)
		}
		return true
	}
	return false
}
