package main

import (
	"verif.local/ds/simfmt"
	"verif.local/ds/simfs"
	"verif.local/ds/simrt"
)

// Component worlds run one part of the system alone: many short runs with a dense set of operations.

// compWorld makes a world with an empty disk and runs body under the scheduler.
func compWorld(p *Plan, st *Stats, body func(w *World)) *World {
	w := newWorld(p, st)
	setKnobs(p.Knobs, p.CPUs, p.Mask)
	simfmt.ResetOutput()
	w.fs = simfs.New(p.Seed ^ 0x5bd1e995)
	w.fs.KVCompactP = p.KVP
	simfs.Cur = w.fs
	w.fs.MkdirQuiet("/db")
	w.fs.SyncAll()
	w.fs.OnCrash = func(power bool) {
		w.power = power
		simrt.Kill()
	}
	w.sc = simrt.Run(p.Sched, func(sc *simrt.Sched) {
		w.sc = sc
		sc.StepCap = opStepCap
		w.op = &Op{N: 0}
		w.g = sc.NewGroup()
		body(w)
		if w.g != nil && !w.g.Dead() {
			sc.KillGroup(w.g)
		}
	})
	w.finishStats()
	return w
}

// attempt runs one operation of a component with the op's faults and kill point. It returns true if the
// operation completed; false if the process died as planned (the caller recovers) or w.V is set.
// faulted tells whether an injected error was delivered.
func (w *World) attempt(op *Op, what string, f func()) (done, faulted bool) {
	f0 := w.fired()
	w.begin(append([]simfs.Fault{}, op.F...))
	w.power = false
	if op.Kill > 0 {
		w.sc.Trap(op.Kill, func() { simrt.Kill() })
	}
	r := w.call(f)
	w.st.add("component ops", 1)
	w.st.add("component steps", w.sc.Step())
	w.st.add("component events", w.fs.Ev)
	if r == rOK && op.Die {
		w.st.add("killed right after an operation", 1)
		w.die("right after " + what)
	} else if r == rOK { // background tasks of the operation run under its faults as well
		n := w.sc.Quiesce(w.g)
		switch {
		case w.g.Dead() && w.g.Panicked:
			r = rPanic
		case w.g.Dead() && w.sc.Over != "":
			r = rOver
		case w.g.Dead():
			r = rKilled
		case n > 0:
			w.fail("hang", "after %s %d background tasks stay blocked forever", what, n)
		}
	}
	w.sc.Trap(-1, nil)
	w.fs.BeginOp(nil)
	faulted = w.fired() > f0
	switch r {
	case rOK:
		return w.V == nil, faulted
	case rKilled:
		w.st.add("killed in an operation", 1)
		w.logf("  killed in %s (power=%v)", what, w.power)
	case rPanic:
		if !faulted {
			w.fail("panic", "%s panics without any fault: %s [%s]", what, firstLine(w.g.PanicVal), where(w.g.Stack))
		} else {
			w.st.add("fail-stops in an operation", 1)
			w.logf("  %s stopped by an injected fault: %s", what, firstLine(w.g.PanicVal))
		}
	case rOver:
		w.fail("hang", "%s: %s", what, firstLine(w.sc.Over))
	}
	return false, faulted
}

// reboot starts a new process on the disk, after a power loss if the op says so.
func (w *World) reboot(op *Op, power bool) {
	if w.g != nil && !w.g.Dead() {
		w.sc.KillGroup(w.g)
	}
	if power {
		w.fs.PowerLoss(op.Loss)
		w.st.add("power losses", 1)
		w.logf("  power loss, mode %d", op.Loss.Mode)
	}
	w.fs.Reboot()
	w.g = w.sc.NewGroup()
}
