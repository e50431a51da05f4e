package main

import (
	"fmt"

	"github.com/smartbch/moeingads/store"
	"github.com/smartbch/moeingads/store/rabbit"
	stypes "github.com/smartbch/moeingads/store/types"

	"verif.local/ds/simrt"
)

// The transaction world: the same blocks as in the store world, over the in-memory root store that the
// repository ships as a stand-in for the database. No disk and no readers: many more transactions per
// second, for the transaction layers alone.

func (s *SWorld) mockBlock(root, second *store.MockRootStore, op *Op) {
	bad := ""
	note := func(d string) {
		if bad == "" {
			bad = d
		}
	}
	trunkM := copyMap(s.curM())
	var collected map[string]string
	what := fmt.Sprintf("block %d", op.N)
	if done, _ := s.attempt(&Op{N: op.N}, what, func() {
		if op.A == 2 {
			v := s.runPlain(root, &op.Txs[0], s.curM(), 0)
			note(v.bad)
			root.Update(func(db stypes.SetDeleter) {
				for _, k := range sortedOwn(v.view) {
					if p := v.view.own[k]; p == nil {
						db.Delete([]byte(k))
					} else {
						db.Set([]byte(k), []byte(*p))
					}
				}
			})
			collected = map[string]string{}
			for k, p := range v.view.own {
				collected[k] = ""
				if p != nil {
					collected[k] = *p
				}
			}
			v.view.put(trunkM)
			return
		}
		tr := root.GetTrunkStore(16).(*store.TrunkStore)
		s.runTxs(tr, op, trunkM, note)
		collected = copyMap(tr.GetCacheContent())
		tr.Close(op.A == 0)
	}); !done {
		return
	}
	s.st.add("blocks", 1)
	if bad != "" {
		s.fail("tx", "in %s: %s", what, bad)
		return
	}
	if op.A != 1 {
		s.vers = append(s.vers[len(s.vers)-1:], sver{m: trunkM})
		if done, _ := s.attempt(&Op{N: op.N}, "the bulk update of "+what, func() { store.SyncUpdateTo(collected, second) }); !done {
			return
		}
	}
	m := s.curM()
	for i, rs := range []*store.MockRootStore{root, second} {
		if done, _ := s.attempt(&Op{N: op.N}, "reading back", func() {
			if s.plain {
				for _, k := range s.pool {
					want, ok := m[k]
					if d := cmpGet("root", k, rs.Get([]byte(k)), want, ok); d != "" {
						note(d)
					}
				}
				return
			}
			rb := rabbit.NewReadOnlyRabbitStore(rs)
			defer rb.Close()
			for _, k := range s.pool {
				want, ok := m[k]
				if d := cmpGet("query", k, rb.Get([]byte(k)), want, ok); d != "" {
					note(d)
				}
				if got := rb.Has([]byte(k)); got != ok {
					note(fmt.Sprintf("query: has(%x) is %v", k, got))
				}
			}
		}); !done {
			return
		}
		if bad != "" {
			s.fail([]string{"content", "bulk"}[i], "after %s: %s%s", what, []string{"", "in the second database: "}[i], bad)
			return
		}
		if n := rs.ActiveCount(); s.plain && n != len(m) {
			s.fail([]string{"content", "bulk"}[i], "after %s: %d records, expected %d", what, n, len(m))
			return
		}
	}
	if a, b := root.ActiveCount(), second.ActiveCount(); a != b {
		s.fail("bulk", "after %s: %d records in the first database, %d in the second", what, a, b)
	}
}

func runMock(p *Plan, st *Stats) *World {
	s := &SWorld{plain: p.Mode&1 != 0}
	s.setPool(p)
	return compWorld(p, st, func(w *World) {
		s.World = w
		s.vers = []sver{{m: map[string]string{}}}
		root, second := store.NewMockRootStore(), store.NewMockRootStore()
		for i := range p.Ops {
			if w.V != nil {
				break
			}
			w.op = &p.Ops[i]
			w.logf("op %d %s", w.op.N, w.op.Kind)
			s.mockBlock(root, second, w.op)
		}
	})
}

func init() {
	worlds["mock"] = runMock
	worldGen["C13"] = func(prop string, seed uint64) *Plan {
		p := genStore(prop, seed)
		r := simrt.NewRng(simrt.Mix(seed, 0xc13))
		if !r.P(0.97) {
			return p
		}
		// many short runs over the stand-in root
		p.World, p.Tmpl, p.Rep, p.Hist = "mock", "", nil, false
		var ops []Op
		for _, op := range p.Ops {
			if op.Kind == "sblock" {
				op.B, op.Kill, op.Power = 0, 0, false
				ops = append(ops, op)
			}
		}
		for n := r.Pick(0, 0, 5, 20); n > 0; n-- { // the same blocks again, in another order
			o := ops[r.N(len(ops))]
			o.A = int64(r.Pick(0, 0, 0, 0, 1))
			o.Txs = append([]Tx{}, o.Txs...)
			for i := range o.Txs {
				j := r.N(i + 1)
				o.Txs[i], o.Txs[j] = o.Txs[j], o.Txs[i]
			}
			g := 0
			for i := range o.Txs {
				o.Txs[i].G = g
				if r.P(0.7) {
					g++
				}
			}
			ops = append(ops, o)
		}
		for i := range ops {
			ops[i].N = i
		}
		p.Ops = ops
		return p
	}
}
