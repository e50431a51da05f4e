package main

import (
	"fmt"

	moeingads "github.com/smartbch/moeingads"

	"verif.local/ds/simfmt"
	"verif.local/ds/simfs"
	"verif.local/ds/simrt"
)

// runReplica executes the committed blocks of w in another configuration and compares the roots.
// The replica's own template, built in the replica's file geometry, takes the place of the start.
func (w *World) runReplica() {
	rep := w.P.Rep
	rp := &Plan{Prop: w.P.Prop, World: "mads", Seed: w.P.Seed ^ 0xabcdef, Knobs: rep.Knobs, CPUs: rep.CPUs, Hist: rep.Hist, Tmpl: w.P.Tmpl, Sched: rep.Sched}
	t := template(rp)
	x := newWorld(rp, w.st)
	setKnobs(rp.Knobs, rp.CPUs, 0)
	simfmt.ResetOutput()
	x.fs = t.fs.Clone()
	simfs.Cur = x.fs
	x.cur = t.state
	for k, v := range t.root {
		if w.root[k] != v {
			w.V = &Violation{Kind: "replica", Msg: fmt.Sprintf("template height %d: root %s in one configuration, %s in another", k, w.root[k], v), Op: -1}
			return
		}
	}
	r := simrt.NewRng(rp.Seed)
	x.sc = simrt.Run(rp.Sched, func(sc *simrt.Sched) {
		x.sc = sc
		sc.StepCap = opStepCap
		x.op = &Op{N: 0}
		if !x.open(nil, 0) || !x.resolve("replica open") {
			return
		}
		for i, b := range w.blocks {
			x.op = &Op{N: 10000 + i}
			x.sub = 0
			items := b.Items
			if rep.Shuf {
				items = append([]Item{}, items...)
				for j := len(items) - 1; j > 0; j-- {
					k := r.N(j + 1)
					items[j], items[k] = items[k], items[j]
				}
			}
			th := rep.Th
			if !x.quiet(fmt.Sprintf("replica block %d", b.H), func() { runBlock(x.m, b.H, items, th, false) }) {
				break
			}
			x.settleGroup("a replica block")
			if x.V != nil {
				break
			}
			x.commit(x.cur.apply(b.H, net(b.Items)), b)
			var root []byte
			if !x.quiet("replica root", func() { root = x.m.GetRootHash() }) {
				break
			}
			x.root[b.H] = fmt.Sprintf("%x", root)
			w.st.add("replica roots compared", 1)
			if got := fmt.Sprintf("%x", root); w.root[b.H] != got {
				x.fail("replica", "height %d: root %s in one configuration, %s in another", b.H, w.root[b.H], got)
				break
			}
			if rep.Prune && b.Prune > 0 {
				if !x.quiet("replica prune", func() { x.m.PruneBeforeHeight(b.Prune) }) {
					break
				}
			} else if rep.Prune && r.P(0.2) {
				h := 1 + b.H*int64(r.N(1000))/1000
				if !x.quiet("replica prune", func() { x.m.PruneBeforeHeight(h) }) {
					break
				}
			}
			if rep.Reopen > 0 && (i+1)%rep.Reopen == 0 {
				if r.P(0.5) {
					if !x.closeDB() {
						break
					}
				} else {
					x.die("replica kill")
				}
				if !x.open(nil, 0) || !x.resolve("replica reopen") {
					break
				}
			}
		}
		if x.g != nil && !x.g.Dead() {
			sc.KillGroup(x.g)
		}
	})
	x.finishStats()
	w.V = x.V
	for k, v := range x.Known {
		w.Known[k] = v
	}
	if w.V != nil {
		w.V.Msg = "in the replica: " + w.V.Msg
	}
}

var _ = moeingads.NewMoeingADS
