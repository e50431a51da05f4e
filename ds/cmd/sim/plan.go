package main

import (
	"bytes"
	"encoding/hex"
	"sort"

	"verif.local/ds/simfs"
	"verif.local/ds/simknob"
	"verif.local/ds/simrt"
)

// Plan is everything that decides one simulated run. The same plan always gives the
// same run, step by step.
type Plan struct {
	Prop  string           `json:"prop"`
	World string           `json:"world"`
	Seed  uint64           `json:"seed"`
	Knobs map[string]int64 `json:"knobs,omitempty"`
	CPUs  int              `json:"cpus"`
	Mask  uint64           `json:"mask,omitempty"` // rabbit hash mask (0: none)
	Hist  bool             `json:"hist,omitempty"` // history kept
	Tmpl  string           `json:"tmpl,omitempty"` // starting database
	Sched simrt.Params     `json:"sched"`
	KVP   float64          `json:"kvp,omitempty"` // key-value compaction probability per access
	Rep   *Replica         `json:"rep,omitempty"`
	Mode  int              `json:"mode,omitempty"` // variant of the world
	Ops   []Op             `json:"ops"`
}

// Replica is a second execution of the blocks that the run committed, in another configuration.
type Replica struct {
	Knobs  map[string]int64 `json:"knobs,omitempty"`
	CPUs   int              `json:"cpus"`
	Hist   bool             `json:"hist,omitempty"`
	Sched  simrt.Params     `json:"sched"`
	Shuf   bool             `json:"shuf"`
	Reopen int              `json:"reopen,omitempty"` // close and reopen after every n-th block
	Prune  bool             `json:"prune,omitempty"`
	Th     int              `json:"th,omitempty"`
}

// Op is one step of the workload.
type Op struct {
	N      int             `json:"n"` // identity of the op: its data and schedule depend on it, not on its place
	Kind   string          `json:"k"`
	Items  []Item          `json:"items,omitempty"`
	Txs    []Tx            `json:"txs,omitempty"`
	DH     int64           `json:"dh,omitempty"` // height increment
	Th     int             `json:"th,omitempty"` // threads
	A      int64           `json:"a,omitempty"`
	B      int64           `json:"b,omitempty"`
	F      []simfs.Fault   `json:"f,omitempty"`
	Kill   int64           `json:"kill,omitempty"` // kill at this scheduler step of the op
	Power  bool            `json:"power,omitempty"`
	Loss   simfs.Loss      `json:"loss,omitempty"`
	RF     [][]simfs.Fault `json:"rf,omitempty"`    // faults during the successive reopen attempts
	RKill  int64           `json:"rkill,omitempty"` // kill the first reopen attempt at this step
	Faulty bool            `json:"faulty,omitempty"`
	Die    bool            `json:"die,omitempty"` // the process ends as soon as the op has returned
}

// Item is one key operation of a block.
type Item struct {
	A string `json:"a"` // set del prep prepdel setdel delset get
	K string `json:"k"`
	V Val    `json:"v,omitempty"`

	raw []byte
}

// Tx is one transaction of a block (store world).
type Tx struct {
	Items   []Item `json:"items,omitempty"`
	Discard bool   `json:"d,omitempty"`
	G       int    `json:"g,omitempty"` // transactions of one group run in parallel
}

// Val is a value, by recipe.
type Val struct {
	L int    `json:"l,omitempty"` // length
	S uint64 `json:"s,omitempty"` // contents
	M int    `json:"m,omitempty"` // 0 random, 1 contains separators, 2 all separators, 3 zeros, 4 ff
}

var magic = []byte{255, 254, 253, 252, 252, 253, 254, 255}

func (v Val) Bytes() []byte {
	b := make([]byte, v.L)
	r := simrt.NewRng(v.S*2654435761 + 99)
	switch v.M {
	case 3:
	case 4:
		for i := range b {
			b[i] = 255
		}
	case 2:
		off := int(v.S % 8)
		for i := range b {
			b[i] = magic[(i+off)%8]
		}
	default:
		for i := 0; i < len(b); i += 8 {
			x := r.U64()
			for j := i; j < i+8 && j < len(b); j++ {
				b[j] = byte(x)
				x >>= 8
			}
		}
		if v.M == 1 && len(b) > 0 {
			for n := 1 + r.N(4); n > 0; n-- {
				p := r.N(len(b))
				if r.P(0.3) {
					p = len(b) - 8
				} else if r.P(0.2) {
					p = 0
				}
				if p < 0 {
					p = 0
				}
				copy(b[p:], magic[:1+r.N(8)])
				if r.P(0.7) {
					copy(b[p:], magic)
				}
			}
		}
	}
	return b
}

func unhex(s string) []byte {
	b, err := hex.DecodeString(s)
	if err != nil {
		panic("bad hex in plan: " + s)
	}
	return b
}

var knobIdx = map[string]int{
	"HPFileSize": simknob.HPFileSize, "StartReap": simknob.StartReap, "BufferSize": simknob.BufferSize,
	"RootCache": simknob.RootCache, "MinKept": simknob.MinKeptTwigs, "JobChan": simknob.JobChanSize,
	"PreRead": simknob.PreReadBuf, "EvictDist": simknob.EvictTryDist, "MinDeact": simknob.MinDeactive,
}

func setKnobs(k map[string]int64, cpus int, mask uint64) {
	simknob.Reset()
	for n, v := range k {
		i, ok := knobIdx[n]
		if !ok {
			panic("unknown knob " + n)
		}
		simknob.Set(i, v)
	}
	if cpus > 0 {
		simknob.CPUs = cpus
	}
	if mask != 0 {
		simknob.HashMask = mask
	}
}

// ---- the reference model ----

// Ent is a live entry of the model.
type Ent struct {
	V     []byte
	H, LH int64
}

// State is the model of one committed state. It is never modified once built.
type State struct {
	Height int64
	E      map[string]*Ent // with the two guards
}

var loGuard = string(bytes.Repeat([]byte{0}, 8))
var hiGuard = string(bytes.Repeat([]byte{255}, 8))

func guards() [][]byte { return [][]byte{[]byte(loGuard), []byte(hiGuard)} }

func genesis() *State {
	return &State{Height: -1, E: map[string]*Ent{
		loGuard: {V: []byte{}, H: -1, LH: -1},
		hiGuard: {V: []byte{}, H: -1, LH: -1},
	}}
}

func (s *State) keys() []string {
	ks := make([]string, 0, len(s.E))
	for k := range s.E {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (s *State) live() []string {
	ks := s.keys()
	r := ks[:0]
	for _, k := range ks {
		if k != loGuard && k != hiGuard {
			r = append(r, k)
		}
	}
	return r
}

// change is the net effect of a block on one key.
type change struct {
	del bool
	v   []byte
}

// net reduces the items of a block to its net effect: last action per key wins.
func net(items []Item) map[string]change {
	m := map[string]change{}
	for _, it := range items {
		k := string(unhex(it.K))
		switch it.A {
		case "set", "delset":
			if it.raw != nil {
				m[k] = change{v: it.raw}
			} else {
				m[k] = change{v: it.V.Bytes()}
			}
		case "del", "setdel":
			m[k] = change{del: true}
		}
	}
	return m
}

// apply is the reference semantics of a block.
func (s *State) apply(h int64, ch map[string]change) *State {
	n := &State{Height: h, E: make(map[string]*Ent, len(s.E)+len(ch))}
	for k, e := range s.E {
		n.E[k] = e
	}
	var relink []string
	for k, c := range ch {
		old, was := s.E[k]
		if c.del {
			if was {
				delete(n.E, k)
				relink = append(relink, k)
			}
			continue
		}
		if was {
			n.E[k] = &Ent{V: c.v, H: h, LH: old.H}
		} else {
			n.E[k] = &Ent{V: c.v, H: h, LH: 0}
			relink = append(relink, k)
		}
	}
	if len(relink) > 0 {
		ks := n.keys()
		for _, k := range relink {
			i := sort.SearchStrings(ks, k) // ks[i] >= k: the predecessor is ks[i-1]
			p := ks[i-1]
			if e := n.E[p]; e.H != h {
				n.E[p] = &Ent{V: e.V, H: h, LH: e.H}
			}
		}
	}
	return n
}

// HRec is one version of a key.
type HRec struct {
	H   int64
	Del bool
	V   []byte
}

func clonePlan(p *Plan) *Plan {
	q := *p
	q.Ops = append([]Op{}, p.Ops...)
	for i := range q.Ops {
		q.Ops[i].Items = append([]Item{}, q.Ops[i].Items...)
		q.Ops[i].F = append([]simfs.Fault{}, q.Ops[i].F...)
		q.Ops[i].RF = append([][]simfs.Fault{}, q.Ops[i].RF...)
		q.Ops[i].Txs = append([]Tx{}, q.Ops[i].Txs...)
	}
	if p.Rep != nil {
		r := *p.Rep
		q.Rep = &r
	}
	return &q
}
