package main

import (
	moeingads "github.com/smartbch/moeingads"

	"verif.local/ds/simrt"
)

// The mock-database world: the database with the in-memory data trees and index which the repository
// ships for the tests of its users. It has no root, no proofs, no history and no restart; its contents,
// their order and what compaction keeps of them must be those of the real one.

func runMads4(p *Plan, st *Stats) *World {
	return compWorld(p, st, func(w *World) {
		w.O = oraclesFor(p.Prop)
		w.O.Compact, w.O.Proofs, w.O.ProofsFull, w.O.Hist, w.O.HashCons, w.O.FailStop = false, false, false, false, false, false
		w.cur = genesis()
		if !w.quiet("making the mock database", func() { w.m = moeingads.NewMoeingADS4Mock(guards()) }) {
			return
		}
		for i := range p.Ops {
			if w.V != nil || w.m == nil {
				return
			}
			op := &p.Ops[i]
			if op.Kind != "fill" {
				w.step(op)
				continue
			}
			w.op, w.sub = op, 0
			w.logf("op %d fill", op.N)
			for n := int64(0); n < op.A && w.V == nil && w.m != nil; n++ {
				o := *op
				o.Items = append([]Item{}, op.Items...)
				for j := range o.Items {
					o.Items[j].V.S += uint64(n)
				}
				w.doBlock(&o)
				if n%4 == 3 && w.V == nil {
					w.deep(op.Th, false)
				}
			}
			w.deep(op.Th, false)
		}
		if w.V == nil && w.m != nil {
			w.closeDB()
		}
	})
}

// genMads4 makes a run of the mock database.
func genMads4(prop string, seed uint64) *Plan {
	g := newGen(prop, "mads4", seed)
	r := &g.r
	p := g.p
	fill := r.P(0.25)
	n := r.Pick(8, 20, 40, 80)
	if fill {
		n = r.Pick(120, 200, 300)
	}
	g.addKeys(n)
	for i := 0; i < 4; i++ {
		g.hot = append(g.hot, g.pool[r.N(len(g.pool))])
	}
	g.reap(0.3)
	if fill {
		g.reap(1)
		sh := byte(r.N(256))
		for i, k := range g.pool { // most keys in one shard, so that its twigs fill up
			if k != loGuard && k != hiGuard && r.P(0.85) {
				b := []byte(k)
				b[7] = b[7]&31 | sh&224
				if k = string(b); k != loGuard && k != hiGuard {
					g.pool[i] = k
				}
			}
		}
	}
	for i, nops := 0, r.Range(6, 20); i < nops; i++ {
		if fill && r.P(0.3) {
			op := Op{Kind: "fill", A: int64(r.Range(8, 40)), Th: r.Pick(1, 2, 4)}
			seen := map[string]bool{}
			for _, k := range g.pool {
				if !seen[k] && r.P(0.9) {
					op.Items = append(op.Items, Item{A: "set", K: hexs(k), V: Val{L: r.N(40), S: r.U64() >> 20}})
				}
				seen[k] = true
			}
			g.push(op)
			continue
		}
		if r.P(0.1) {
			g.push(Op{Kind: "check", Th: r.Pick(1, 3)})
			continue
		}
		g.push(g.block())
	}
	g.push(Op{Kind: "check", Th: 3})
	return p
}

func init() {
	worlds["mads4"] = runMads4
	for prop, share := range map[string]float64{"C03": 0.25, "C04": 0.2, "C11": 0.15} {
		prop, share := prop, share
		worldGen[prop] = func(_ string, seed uint64) *Plan {
			if r := simrt.NewRng(simrt.Mix(seed, 0x4d0c)); r.P(share) {
				return genMads4(prop, seed)
			}
			return nil
		}
	}
}
