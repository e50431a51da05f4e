package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	moeingads "github.com/smartbch/moeingads"

	"verif.local/ds/simfs"
	"verif.local/ds/simknob"
	"verif.local/ds/simrt"
)

// Template is a database built by the real code, from which runs start.
type Template struct {
	fs     *simfs.FS
	state  *State
	root   map[int64]string
	hist   map[string][]HRec
	pruned int64
	blocks []blk
}

var templates = map[string]*Template{}

// TmplBlocks gives the blocks of a template, for replicas built from nothing.
func tmplKey(p *Plan) string {
	var ks []string
	for _, k := range []string{"BufferSize", "HPFileSize"} {
		ks = append(ks, fmt.Sprintf("%s=%d", k, p.Knobs[k]))
	}
	return p.Tmpl + "|" + strings.Join(ks, ",") + fmt.Sprintf("|%v", p.Hist)
}

func template(p *Plan) *Template {
	key := tmplKey(p)
	if t := templates[key]; t != nil {
		return t
	}
	t := buildTemplate(p)
	templates[key] = t
	return t
}

func key8(a byte, mid uint32, n, last byte) string {
	return string([]byte{a, byte(mid >> 24), byte(mid >> 16), byte(mid >> 8), byte(mid), n, 0x5a, last})
}

func hexs(s string) string { return fmt.Sprintf("%x", s) }

// templateBlocks is the history of a template; it depends on its name only.
//
//	T0      a fresh database
//	T1.v    every shard's write position is close before a twig boundary (distance by v)
//	T2.v    two shards have several full twigs, nothing compacted
//	T3.v    like T2, then compacted: several evicted twigs that can be pruned
//	T4.v    one shard has 15 to 34 twigs, some of them evicted, so that its tree has up to six upper levels;
//	        T4.4 has blocks which fill one or two twigs each, T4.5 was compacted twice with many blocks in between
//
// While a database of kind T2 to T4 is built, keys whose entries come to stand at the edges of a twig
// or of its leaf groups are left alone from then on (see edges), and in T1 and those with odd v the write positions
// of the busy shards end up shortly before a twig boundary (see tune).
func templateBlocks(name string) (bs []blk, reap map[int]int64) {
	reap = map[int]int64{}
	kind, v := name, 0
	if i := strings.IndexByte(name, '.'); i > 0 {
		kind = name[:i]
		fmt.Sscanf(name[i+1:], "%d", &v)
	}
	r := simrt.NewRng(uint64(v)*7777 + 5)
	switch kind {
	case "T0":
		return
	case "T1":
		// n updates per shard per block; each block also appends one or more dummies per shard
		keys := map[int][]string{}
		for sh := 0; sh < 8; sh++ {
			for i := 0; i < 120; i++ {
				keys[sh] = append(keys[sh], key8(byte(64+r.N(128)), uint32(r.U64()), byte(i), byte(sh*32+r.N(32))))
			}
		}
		for b := 0; b < 16; b++ {
			var items []Item
			for sh := 0; sh < 8; sh++ {
				for i, k := range keys[sh] {
					items = append(items, Item{A: "set", K: hexs(k), V: Val{L: 8 + (i+b)%24, S: uint64(b*1000 + i)}})
				}
			}
			bs = append(bs, blk{H: int64(b + 1), Items: items})
		}
		// the remaining keys are deleted except a few, to keep the live set small
		var items []Item
		for sh := 0; sh < 8; sh++ {
			for i, k := range keys[sh] {
				if i >= 6 {
					items = append(items, Item{A: "del", K: hexs(k)})
				}
			}
		}
		bs = append(bs, blk{H: 17, Items: items})
		// approach the boundary with single updates: distance depends on v
		for b := 0; b < 2; b++ {
			items = nil
			for sh := 0; sh < 8; sh++ {
				n := (v*5+sh*7)%14 - b*3
				for i := 0; i < 6 && i < n; i++ {
					items = append(items, Item{A: "set", K: hexs(keys[sh][i]), V: Val{L: 12, S: uint64(b*31 + i)}})
				}
			}
			bs = append(bs, blk{H: int64(18 + b), Items: items})
		}
		return
	case "T2", "T3":
		hot := [][]int{{0, 5}, {7, 2}, {3, 4}}[v%3]
		var keys []string
		for _, sh := range hot {
			for i := 0; i < 150; i++ {
				keys = append(keys, key8(byte(20+r.N(220)), uint32(r.U64()), byte(i), byte(sh*32+r.N(32))))
			}
		}
		for sh := 0; sh < 8; sh++ {
			keys = append(keys, key8(byte(20+r.N(220)), uint32(r.U64()), byte(sh), byte(sh*32+r.N(32))))
		}
		nb := 60
		if kind == "T3" {
			nb = 95
		}
		for b := 0; b < nb; b++ {
			var items []Item
			for i, k := range keys {
				if i%29 == 3 && b > 2 { // a few old entries stay where they are
					continue
				}
				items = append(items, Item{A: "set", K: hexs(k), V: Val{L: 4 + (i*7+b)%40, S: uint64(b*1000 + i)}})
			}
			bs = append(bs, blk{H: int64(b + 1), Items: items})
		}
		var items []Item
		for i, k := range keys {
			if i%5 != 0 && i%29 != 3 && i < 300 {
				items = append(items, Item{A: "del", K: hexs(k)})
			}
		}
		bs = append(bs, blk{H: int64(nb + 1), Items: items})
		if kind == "T3" {
			for i := 0; i < 6; i++ {
				reap[len(bs)] = 8
				bs = append(bs, blk{H: int64(nb + 2 + i), Items: []Item{{A: "set", K: hexs(keys[0]), V: Val{L: 9, S: uint64(i)}}}})
			}
		}
		return
	}
	if kind == "T4" && v == 4 {
		var keys []string
		for i := 0; i < 3300; i++ {
			keys = append(keys, key8(byte(20+r.N(220)), uint32(r.U64()), byte(i), 32+byte(r.N(32))))
		}
		for b := 0; b < 9; b++ {
			var items []Item
			for i, k := range keys {
				if b < 1 || i%97 != b {
					items = append(items, Item{A: "set", K: hexs(k), V: Val{L: 4 + (i+b)%9, S: uint64(b*10000 + i)}})
				}
			}
			bs = append(bs, blk{H: int64(2*b + 1), Items: items})
		}
		var items []Item
		for i, k := range keys {
			if i%60 != 5 {
				items = append(items, Item{A: "del", K: hexs(k)})
			}
		}
		bs = append(bs, blk{H: 20, Items: items})
		for i := 0; i < 10; i++ {
			reap[len(bs)] = 8
			bs = append(bs, blk{H: int64(21 + i), Items: []Item{{A: "set", K: hexs(keys[5]), V: Val{L: 9, S: uint64(i)}}}})
		}
		return
	}
	if kind == "T4" && v == 5 {
		var keys []string
		for i := 0; i < 720; i++ {
			keys = append(keys, key8(byte(20+r.N(220)), uint32(r.U64()), byte(i), 4*32+byte(r.N(32))))
		}
		add := func(skip func(i int) bool) {
			var items []Item
			for i, k := range keys {
				if !skip(i) {
					items = append(items, Item{A: "set", K: hexs(k), V: Val{L: 4 + i%9, S: uint64(len(bs)*1000 + i)}})
				}
			}
			bs = append(bs, blk{H: int64(len(bs) + 1), Items: items})
		}
		for b := 0; b < 40; b++ {
			add(func(i int) bool { return b > 1 && i%2 == 1 && b < 14 || b > 20 && i%7 == 3 })
			if b == 13 || b == 39 {
				for i := 0; i < 7; i++ {
					reap[len(bs)] = 8
					add(func(i int) bool { return i > 2 })
				}
			}
		}
		return
	}
	if kind == "T4" {
		sh := []byte{6, 0, 7, 3}[v%4]
		var keys []string
		for i := 0; i < 720; i++ {
			keys = append(keys, key8(byte(20+r.N(220)), uint32(r.U64()), byte(i), sh*32+byte(r.N(32))))
		}
		for b := 0; b < []int{46, 42, 94, 87}[v%4]; b++ {
			var items []Item
			for i, k := range keys {
				if b < 2 || i%41 != b%41 || i%3 > 0 {
					items = append(items, Item{A: "set", K: hexs(k), V: Val{L: 4 + (i+b)%9, S: uint64(b*1000 + i)}})
				}
			}
			bs = append(bs, blk{H: int64(b + 1), Items: items})
		}
		var items []Item
		for i, k := range keys {
			if i >= 60 {
				items = append(items, Item{A: "del", K: hexs(k)})
			}
		}
		bs = append(bs, blk{H: int64(len(bs) + 1), Items: items})
		if v%4 != 1 {
			for i := 0; i < 10; i++ {
				reap[len(bs)] = 8
				bs = append(bs, blk{H: int64(len(bs) + 1), Items: []Item{{A: "set", K: hexs(keys[0]), V: Val{L: 9, S: uint64(i)}}}})
			}
		}
		return
	}
	panic("unknown template " + name)
}

// edges finds keys whose entries stand first or last in a twig or in a group of 512 leaves.
func (w *World) edges(items []Item, cold map[string]bool) {
	for _, it := range items {
		if len(cold) >= 40 {
			return
		}
		if it.A != "set" {
			continue
		}
		if e := w.m.GetEntry(unhex(it.K)); e != nil {
			if x := e.SerialNum & 511; x == 0 || x == 511 {
				if y := e.SerialNum & 2047; y == 0 || y == 2047 || e.SerialNum>>9%5 == 1 {
					cold[it.K] = true
				}
			}
		}
	}
}

// tune gives the updates that bring busy shards' write positions to a short distance from a twig boundary.
func (w *World) tune(dist int64, cold map[string]bool) (items []Item) {
	mi := w.meta()
	if !mi.ok {
		return nil
	}
	keys := map[byte][]string{}
	for _, k := range w.cur.live() {
		if !cold[hexs(k)] && len(k) == 8 {
			keys[k[7]/32] = append(keys[k[7]/32], k)
		}
	}
	for sh := 0; sh < 8; sh++ {
		if mi.maxSN[sh] < 2048+512 {
			continue
		}
		n := (2047 - mi.maxSN[sh]&2047 - (dist+int64(sh)*3)%14)
		if n > 64 {
			n = n * 62 / 64
		}
		for i, k := range keys[byte(sh)] {
			if int64(i) >= n-1 { // a dummy follows
				break
			}
			items = append(items, Item{A: "set", K: hexs(k), V: Val{L: 10, S: uint64(n)}})
		}
	}
	return
}

func buildTemplate(p *Plan) *Template {
	q := &Plan{Prop: p.Prop, World: "tmpl", Hist: p.Hist, Knobs: map[string]int64{}, CPUs: 4}
	for _, k := range []string{"BufferSize", "HPFileSize"} {
		q.Knobs[k] = p.Knobs[k]
	}
	t := &Template{root: map[int64]string{}, pruned: -1}
	w := newWorld(q, &Stats{C: map[string]int64{}})
	setKnobs(q.Knobs, q.CPUs, 0)
	fs := simfs.New(1)
	fs.MkdirQuiet("/db")
	simfs.Cur = fs
	w.fs = fs
	w.cur = genesis()
	bs, reap := templateBlocks(p.Tmpl)
	simrt.Run(simrt.Params{Seed: 3, Strategy: "fifo"}, func(sc *simrt.Sched) {
		w.sc = sc
		w.op = &Op{}
		w.g = sc.NewGroup()
		if !w.quiet("creating a database", func() {
			var err error
			w.m, err = moeingads.NewMoeingADS(dbDir, q.Hist, guards())
			if err != nil {
				panic(err)
			}
		}) {
			return
		}
		w.settleGroup("creation")
		cold := map[string]bool{}
		twigs, tuned := p.Tmpl[1] >= '2', p.Tmpl[1] != '0'
		tuning, dist := 0, int64(0)
		if i := strings.IndexByte(p.Tmpl, '.'); tuned && i > 0 {
			v, _ := strconv.Atoi(p.Tmpl[i+1:])
			if v%2 == 1 || p.Tmpl[1] == '1' {
				tuning, dist = 100, int64(1+v*5)
			}
		}
		for i := 0; i < len(bs); i++ {
			b := bs[i]
			if len(cold) > 0 {
				items := b.Items[:0:0]
				for _, it := range b.Items {
					if !cold[it.K] {
						items = append(items, it)
					}
				}
				b.Items = items
			}
			if reap[i] > 0 {
				simknob.Set(simknob.StartReap, reap[i])
				simknob.Set(simknob.MinKeptTwigs, 2)
			} else {
				simknob.Set(simknob.StartReap, 1<<40)
			}
			w.op = &Op{N: i + 1}
			if w.V != nil || !w.quiet("a template block", func() { runBlock(w.m, b.H, b.Items, 1, false); w.setRoot(b.H) }) {
				return
			}
			w.commit(w.cur.apply(b.H, net(b.Items)), b)
			if twigs && i < len(bs)-1 && !w.quiet("reading entries", func() { w.edges(b.Items, cold) }) {
				return
			}

			if i == len(bs)-1 && tuning > 0 {
				tuning--
				if items := w.tune(dist, cold); len(items) > 0 {
					bs = append(bs, blk{H: b.H + 1, Items: items})
				}
			}
		}
		if w.V == nil {
			w.closeDB()
		}
	})
	if w.V != nil {
		panic(tmplFailure{w.V})
	}
	fs.SyncAll()
	t.fs, t.state, t.root, t.hist, t.blocks = fs, w.cur, w.root, w.hist, w.blocks
	for k, v := range t.hist { // keep template histories short where they are long
		sort.SliceStable(v, func(i, j int) bool { return v[i].H < v[j].H })
		t.hist[k] = v
	}
	return t
}

type tmplFailure struct{ V *Violation }
