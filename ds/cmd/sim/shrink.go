package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"time"

	"verif.local/ds/simfs"
	"verif.local/ds/simrt"
)

type shrinker struct {
	best  *Plan
	res   *Result
	kind  string
	until time.Time
	runs  int
}

// try keeps q if it still fails in the same way.
func (s *shrinker) try(q *Plan) bool {
	if time.Now().After(s.until) {
		return false
	}
	s.runs++
	res := execute(q)
	if res.V == nil || res.V.Kind != s.kind {
		return false
	}
	s.best, s.res = q, res
	return true
}

func (s *shrinker) edit(f func(q *Plan) bool) bool {
	q := clonePlan(s.best)
	if !f(q) {
		return false
	}
	return s.try(q)
}

// ddmin removes parts of a list of n elements; cut(lo, hi) tries to remove [lo,hi).
func ddmin(n func() int, cut func(lo, hi int) bool, expired func() bool) {
	for sz := n() / 2; sz >= 1; sz /= 2 {
		for lo := n() - sz; !expired() && n() > 0; lo -= sz {
			if lo < 0 {
				if lo+sz <= 0 {
					break
				}
				cut(0, lo+sz)
				break
			}
			cut(lo, lo+sz)
		}
	}
}

func (s *shrinker) expired() bool { return time.Now().After(s.until) }

func (s *shrinker) minimise() {
	// ops after the failing one
	if s.res.V.Op > 0 {
		s.edit(func(q *Plan) bool {
			for i := range q.Ops {
				if q.Ops[i].N == s.res.V.Op && i+1 < len(q.Ops) {
					q.Ops = q.Ops[:i+1]
					return true
				}
			}
			return false
		})
	}
	s.edit(func(q *Plan) bool { r := q.Rep != nil; q.Rep = nil; return r })
	s.edit(func(q *Plan) bool { r := q.KVP != 0; q.KVP = 0; return r })
	for _, st := range []string{"fifo", "lifo"} {
		s.edit(func(q *Plan) bool {
			r := q.Sched.Strategy != st && s.best.Sched.Strategy != "fifo"
			q.Sched.Strategy, q.Sched.PYield, q.Sched.PSync = st, 0, 0
			return r
		})
	}
	s.edit(func(q *Plan) bool {
		if q.Rep == nil {
			return false
		}
		q.Rep.Sched = simrt.Params{Seed: 1, Strategy: "fifo"}
		return true
	})
	s.edit(func(q *Plan) bool {
		if q.Rep == nil {
			return false
		}
		q.Rep.Shuf, q.Rep.Prune, q.Rep.Reopen, q.Rep.Th = false, false, 0, 1
		return true
	})
	for pass := 0; pass < 2; pass++ {
		ddmin(func() int { return len(s.best.Ops) }, func(lo, hi int) bool {
			return s.edit(func(q *Plan) bool {
				q.Ops = append(q.Ops[:lo], q.Ops[hi:]...)
				return true
			})
		}, s.expired)
		for i := 0; i < len(s.best.Ops) && !s.expired(); i++ {
			op := func(q *Plan) *Op { return &q.Ops[i] }
			for j := 3; j >= 0; j-- {
				j := j
				s.edit(func(q *Plan) bool {
					o := op(q)
					if j >= len(o.RF) {
						return false
					}
					o.RF = append(append([][]simfs.Fault{}, o.RF[:j]...), o.RF[j+1:]...)
					return true
				})
				s.edit(func(q *Plan) bool {
					o := op(q)
					if j >= len(o.F) {
						return false
					}
					o.F = append(append([]simfs.Fault{}, o.F[:j]...), o.F[j+1:]...)
					return true
				})
			}
			s.edit(func(q *Plan) bool { o := op(q); r := o.RKill != 0; o.RKill = 0; return r })
			s.edit(func(q *Plan) bool { o := op(q); r := o.Kill != 0; o.Kill = 0; return r })
			s.edit(func(q *Plan) bool { o := op(q); r := o.Power; o.Power = false; return r })
			s.edit(func(q *Plan) bool { o := op(q); r := o.Loss.Mode != 0; o.Loss.Mode = 0; return r })
			s.edit(func(q *Plan) bool { o := op(q); r := o.DH != 0; o.DH = 0; return r })
			s.edit(func(q *Plan) bool { o := op(q); r := o.Th > 1; o.Th = 1; return r })
			ddmin(func() int { return len(s.best.Ops[i].Items) }, func(lo, hi int) bool {
				return s.edit(func(q *Plan) bool {
					o := op(q)
					o.Items = append(o.Items[:lo], o.Items[hi:]...)
					return true
				})
			}, s.expired)
			ddmin(func() int { return len(s.best.Ops[i].Txs) }, func(lo, hi int) bool {
				return s.edit(func(q *Plan) bool {
					o := op(q)
					o.Txs = append(o.Txs[:lo], o.Txs[hi:]...)
					return true
				})
			}, s.expired)
			for t := 0; t < len(s.best.Ops[i].Txs); t++ {
				ddmin(func() int { return len(s.best.Ops[i].Txs[t].Items) }, func(lo, hi int) bool {
					return s.edit(func(q *Plan) bool {
						tx := &op(q).Txs[t]
						its := append([]Item{}, tx.Items[:lo]...)
						tx.Items = append(its, tx.Items[hi:]...)
						return true
					})
				}, s.expired)
			}
			for j := range s.best.Ops[i].Items {
				s.edit(func(q *Plan) bool {
					v := &op(q).Items[j].V
					r := v.L > 8 || v.M != 0
					if v.L > 8 {
						v.L = 8
					}
					v.M = 0
					return r
				})
			}
		}
	}
	for _, k := range []string{"JobChan", "PreRead", "StartReap", "RootCache"} {
		s.edit(func(q *Plan) bool {
			m := map[string]int64{}
			for n, v := range q.Knobs {
				m[n] = v
			}
			q.Knobs = m
			_, r := m[k]
			if k == "StartReap" {
				r = r && m[k] != 1<<40
				m[k] = 1 << 40
			} else {
				delete(m, k)
			}
			return r
		})
	}
	// the schedule becomes an explicit list of decisions, which is then reduced
	if s.best.Sched.Strategy != "explicit" {
		recs := s.res.Decs
		if s.edit(func(q *Plan) bool {
			q.Sched = simrt.Params{Seed: q.Sched.Seed, Strategy: "explicit", Decs: append([]simrt.Decision{}, recs...)}
			return len(recs) < 200000
		}) {
			ddmin(func() int { return len(s.best.Sched.Decs) }, func(lo, hi int) bool {
				return s.edit(func(q *Plan) bool {
					d := append([]simrt.Decision{}, q.Sched.Decs[:lo]...)
					q.Sched.Decs = append(d, q.Sched.Decs[hi:]...)
					return true
				})
			}, s.expired)
		}
	}
}

func shrinkMain(args []string) {
	fl := flag.NewFlagSet("shrink", flag.ExitOnError)
	prop := fl.String("prop", "", "")
	base := fl.Uint64("base", 1, "")
	index := fl.Int64("index", 0, "")
	known := fl.String("known", "", "")
	secs := fl.Int("secs", 60, "")
	out := fl.String("out", "", "")
	_ = fl.Parse(args)
	loadKnown(*known)
	runtime.GOMAXPROCS(1)
	p := generate(*prop, seedFor(*base, *prop, *index))
	save := func(p *Plan, res *Result, how string) {
		f := ReplayFile{Property: *prop, Base: *base, Index: *index, Seed: p.Seed, Kind: res.V.Kind, Msg: res.V.Msg, Minimised: how, Race: simrt.RaceEnabled, Log: res.Log, Plan: p}
		b, _ := json.MarshalIndent(f, "", " ")
		_ = os.WriteFile(*out+".tmp", b, 0644)
		_ = os.Rename(*out+".tmp", *out)
	}
	res := execute(p)
	if res.V == nil {
		fmt.Println("not reproduced")
		os.Exit(3)
	}
	save(p, res, "no")
	s := &shrinker{best: p, res: res, kind: res.V.Kind, until: time.Now().Add(time.Duration(*secs) * time.Second)}
	s.minimise()
	save(s.best, s.res, fmt.Sprintf("%d runs; %d of %d ops, %d scheduling decisions (%s)", s.runs, len(s.best.Ops), len(p.Ops), len(s.best.Sched.Decs), s.best.Sched.Strategy))
	// the saved file must fail again, exactly
	again := execute(s.best)
	if again.V == nil || again.V.Kind != s.kind || again.Sig != s.res.Sig {
		fmt.Println("replay differs")
		os.Exit(4)
	}
}
