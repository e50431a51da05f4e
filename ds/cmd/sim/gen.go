package main

import (
	"sort"

	"verif.local/ds/simfs"
	"verif.local/ds/simrt"
)

func oraclesFor(prop string) Oracles {
	switch prop {
	case "C01":
		return Oracles{Reads: true, Chain: true, Root: true, HashCons: true, ProofsFull: true}
	case "C02":
		return Oracles{Root: true}
	case "C03":
		return Oracles{Reads: true}
	case "C04":
		return Oracles{Chain: true}
	case "C05", "C06":
		return Oracles{Proofs: true, Root: true}
	case "C07":
		return Oracles{Reads: true, Root: true}
	case "C08":
		return Oracles{Reads: true, Root: true, FailStop: true, ProofsFull: true}
	case "C09":
		return Oracles{Hist: true}
	case "C10":
		return Oracles{Reads: true, Chain: true, Root: true, Proofs: true}
	case "C11":
		return Oracles{Reads: true, Chain: true, Compact: true}
	case "C14":
		return Oracles{Reads: true}
	}
	return Oracles{Reads: true, Root: true}
}

// gen carries a generator's state.
type gen struct {
	r    simrt.Rng
	p    *Plan
	big  float64  // how often to start from a database with many twigs
	pool []string // keys in use
	maxV int
	hot  []string
}

func genSched(r *simrt.Rng, seed uint64) simrt.Params {
	s := simrt.Params{Seed: seed, PYield: 0.0003, PSync: 0.05, Strategy: "random"}
	switch r.N(10) {
	case 0:
		s.Strategy, s.PYield, s.PSync = "fifo", 0, 0
	case 1:
		s.Strategy, s.PYield, s.PSync = "lifo", 0.0001, 0.02
	case 2, 3:
		s.Strategy = "pct"
	case 4, 5:
		s.Strategy = "starve"
	case 6:
		s.PYield, s.PSync = 0.003, 0.3
	case 7:
		s.PYield, s.PSync = 0.0001, 0.01
	}
	return s
}

var geoms = []struct{ buf, block int64 }{
	{16 << 10, 64 << 10}, {64 << 10, 256 << 10}, {16 << 10, 16 << 10}, {32 << 10, 96 << 10}, {64 << 10, 1 << 20},
}

func newGen(prop, world string, seed uint64) *gen {
	g := &gen{r: simrt.NewRng(simrt.Mix(seed, uint64(len(prop))*1000003+uint64(prop[1])*131+uint64(prop[2])))}
	r := &g.r
	g.p = &Plan{Prop: prop, World: world, Seed: seed, Knobs: map[string]int64{}}
	p := g.p
	gm := geoms[0]
	switch r.N(8) {
	case 0, 1, 2:
		gm = geoms[1]
	case 3:
		gm = geoms[2]
	case 4:
		gm = geoms[3]
	case 5:
		gm = geoms[4]
	}
	p.Knobs["BufferSize"], p.Knobs["HPFileSize"] = gm.buf, gm.block
	g.maxV = int(gm.buf) - 1100
	p.CPUs = r.Pick(1, 2, 3, 4, 4, 8, 16)
	p.Sched = genSched(r, r.U64())
	if r.P(0.3) {
		p.Knobs["JobChan"] = int64(r.Pick(1, 2, 8))
	}
	if r.P(0.3) {
		p.Knobs["PreRead"] = int64(r.Pick(8, 64, 512)) << 10
	}
	return g
}

// reap sets the compaction knobs; compaction is off unless this is called.
func (g *gen) reap(p float64) {
	g.p.Knobs["StartReap"] = 1 << 40
	if g.r.P(p) {
		g.p.Knobs["StartReap"] = int64(g.r.Pick(2, 4, 8, 20))
		g.p.Knobs["MinKept"] = int64(g.r.Pick(2, 2, 3, 4))
		g.p.Knobs["MinDeact"] = int64(g.r.Pick(3, 10, 30, 100))
	}
}

// addKeys fills the key pool with clusters of keys.
func (g *gen) addKeys(n int) {
	r := &g.r
	seen := map[string]bool{loGuard: true, hiGuard: true}
	for _, k := range g.pool {
		seen[k] = true
	}
	add := func(k string) {
		if len(k) == 8 && !seen[k] {
			seen[k] = true
			g.pool = append(g.pool, k)
		}
	}
	for tries := 0; len(g.pool) < n && tries < 10*n; tries++ {
		b := make([]byte, 8)
		switch r.N(8) {
		case 0, 1: // anywhere
			x := r.U64()
			for i := range b {
				b[i] = byte(x >> (8 * uint(i)))
			}
			add(string(b))
		case 2: // around index bucket edges
			b[0] = byte(r.Pick(3, 4, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 191, 192, 251, 252))
			if r.P(0.5) {
				for i := 1; i < 8; i++ {
					b[i] = 255
				}
				b[7] -= byte(r.N(3))
			} else {
				b[7] = byte(r.N(3))
			}
			add(string(b))
		case 3: // close to the guards, or the record separator
			if r.P(0.15) {
				copy(b, magic)
				b[7] -= byte(r.N(2))
			} else if r.P(0.5) {
				b[7] = byte(1 + r.N(4))
			} else {
				for i := range b {
					b[i] = 255
				}
				b[7] -= byte(1 + r.N(4))
			}
			add(string(b))
		case 4, 5, 6: // a run of neighbours, over shard edges
			x := r.U64() | 1<<56
			if len(g.pool) > 0 && r.P(0.4) {
				copy(b, g.pool[r.N(len(g.pool))])
			} else {
				for i := range b {
					b[i] = byte(x >> (8 * uint(i)))
				}
				b[7] = byte(r.Pick(0, 30, 31, 32, 62, 63, 64, 127, 128, 222, 223, 224, 254))
			}
			for m := 1 + r.N(5); m > 0; m-- {
				add(string(b))
				for i := 7; i >= 0; i-- {
					b[i]++
					if b[i] != 0 {
						break
					}
				}
			}
		case 7: // equal prefixes
			if len(g.pool) > 0 {
				copy(b, g.pool[r.N(len(g.pool))])
				b[r.N(8)] ^= 1 << uint(r.N(8))
				add(string(b))
			}
		}
	}
}

func (g *gen) val() Val {
	r := &g.r
	v := Val{S: r.U64() >> 20}
	switch r.N(20) {
	case 0:
		v.L = 0
	case 1:
		v.L = r.N(g.maxV)
	case 2, 3:
		v.L = r.N(2000)
	case 4:
		v.L = 8 * (1 + r.N(6))
	default:
		v.L = 1 + r.N(60)
	}
	switch r.N(12) {
	case 0, 1:
		v.M = 1
	case 2:
		v.M = 2
		v.L = v.L * 3 / 5 // every separator takes four more bytes
	case 3:
		v.M = 3 + r.N(2)
	}
	return v
}

// items makes one block's key operations, at most one per key.
func (g *gen) items(n int) []Item {
	r := &g.r
	var its []Item
	used := map[string]bool{}
	wdel := r.Pick(10, 25, 40, 70)
	base := r.N(len(g.pool))
	near := r.P(0.5)
	for i := 0; i < n; i++ {
		var k string
		if len(g.hot) > 0 && r.P(0.5) {
			k = g.hot[r.N(len(g.hot))]
		} else if near {
			k = g.pool[(base+r.N(2*n))%len(g.pool)]
		} else {
			k = g.pool[r.N(len(g.pool))]
		}
		if used[k] {
			continue
		}
		used[k] = true
		it := Item{K: hexs(k)}
		x := r.N(100)
		switch {
		case x < wdel:
			it.A = "del"
		case x < wdel+4:
			it.A = "prep"
		case x < wdel+8:
			it.A = "prepdel"
		case x < wdel+11:
			it.A = "setdel"
			it.V = g.val()
		case x < wdel+14:
			it.A = "delset"
			it.V = g.val()
		default:
			it.A = "set"
			it.V = g.val()
		}
		its = append(its, it)
	}
	return its
}

func (g *gen) block() Op {
	r := &g.r
	op := Op{Kind: "block"}
	if len(g.p.Ops) == 0 || r.P(0.9) {
		op.Items = g.items(r.Pick(1, 1, 2, 3, 5, 8, 15, 30, 50))
	}
	switch r.N(12) {
	case 0:
		op.DH = int64(2 + r.N(4))
	case 1:
		if r.P(0.2) {
			op.DH = int64(1 + r.N(100000))
		}
	}
	op.Th = r.Pick(1, 1, 2, 3, 6)
	return op
}

func (g *gen) push(op Op) {
	op.N = len(g.p.Ops) + 1
	g.p.Ops = append(g.p.Ops, op)
}

// logU is a log-uniform number in [1,n].
func logU(r *simrt.Rng, n int64) int64 {
	bits := 0
	for x := n; x > 0; x >>= 1 {
		bits++
	}
	for {
		b := r.N(bits)
		v := int64(1)<<uint(b) + int64(r.U64()%(uint64(1)<<uint(b)))
		if v <= n {
			return v
		}
	}
}

func (g *gen) loss() simfs.Loss { return simfs.Loss{Mode: g.r.N(5), Seed: g.r.U64() >> 16} }

var writeKinds = []simfs.Kind{simfs.KWrite, simfs.KSync, simfs.KKVWrite, simfs.KKVSync, simfs.KCreate, simfs.KTrunc, simfs.KRemove, simfs.KKVPut}

// crashAt makes a fault that ends the process at some I/O event.
func (g *gen) crashAt(maxEv int64, power bool) simfs.Fault {
	r := &g.r
	f := simfs.Fault{What: "crash", Part: r.N(1001), Kind: -1}
	if power {
		f.What = "power"
	}
	if r.P(0.6) {
		f.Kind = int(writeKinds[r.N(4)])
		f.At = g.nth(f.Kind)
	} else {
		f.At = logU(r, maxEv)
	}
	return f
}

// nth picks which event of the kind is hit: a batch is written once per operation.
func (g *gen) nth(kind int) int64 {
	r := &g.r
	if k := simfs.Kind(kind); (k == simfs.KKVWrite || k == simfs.KKVSync) && r.P(0.8) {
		return 1
	}
	return logU(r, 24)
}

// errAt makes an I/O error.
func (g *gen) errAt(maxEv int64, reading bool) simfs.Fault {
	r := &g.r
	f := simfs.Fault{Part: r.N(1001), Kind: -1}
	if reading {
		f.Kind = int([]simfs.Kind{simfs.KRead, simfs.KRead, simfs.KOpen, simfs.KKVGet, simfs.KStat, simfs.KReadDir, simfs.KKVIter, simfs.KKVOpen}[r.N(8)])
		f.What = []string{"eio", "eio", "short"}[r.N(3)]
		f.At = logU(r, maxEv)
		return f
	}
	f.What = []string{"eio", "eio", "enospc", "short", "eio", "enospc"}[r.N(6)]
	if r.P(0.75) {
		f.Kind = int([]simfs.Kind{simfs.KWrite, simfs.KWrite, simfs.KSync, simfs.KSync, simfs.KKVWrite, simfs.KKVSync, simfs.KCreate, simfs.KRead, simfs.KKVPut}[r.N(9)])
		f.At = g.nth(f.Kind)
	} else {
		f.At = logU(r, maxEv)
	}
	if f.What == "enospc" && r.P(0.5) {
		f.Stick = true
	}
	return f
}

// crashes gives a block or prune a way to die, and trouble during the reopening.
func (g *gen) crashes(op *Op, maxEv, maxStep int64) {
	r := &g.r
	op.Power = r.P(0.5)
	op.Loss = g.loss()
	if r.P(0.15) && (op.Kind == "block" || op.Kind == "prune") {
		op.Die, op.Power = true, r.P(0.75)
	} else if r.P(0.35) {
		op.Kill = logU(r, maxStep)
	} else {
		op.F = append(op.F, g.crashAt(maxEv, op.Power))
	}
	g.reopenTrouble(op)
}

func (g *gen) reopenTrouble(op *Op) {
	r := &g.r
	for r.P(0.25) && len(op.RF) < 3 {
		f := simfs.Fault{What: "crash", Kind: -1, At: logU(r, 600), Part: r.N(1001)}
		if r.P(0.6) {
			f.What = "power"
		}
		if r.P(0.5) {
			f.Kind = int([]simfs.Kind{simfs.KTrunc, simfs.KRemove, simfs.KWrite, simfs.KKVWrite, simfs.KOpen, simfs.KRead, simfs.KKVPut, simfs.KCreate}[r.N(8)])
			f.At = logU(r, 30)
		}
		op.RF = append(op.RF, []simfs.Fault{f})
	}
	if r.P(0.1) {
		op.RKill = logU(r, 4_000_000)
	}
}

// start picks the starting database and the key pool.
func (g *gen) start(weights [4]int, n int) {
	r := &g.r
	x := r.N(weights[0] + weights[1] + weights[2] + weights[3])
	switch {
	case x < weights[0]:
		g.p.Tmpl = "T0"
	case x < weights[0]+weights[1]:
		g.p.Tmpl = "T1." + string(rune('0'+r.N(6)))
	case x < weights[0]+weights[1]+weights[2]:
		g.p.Tmpl = "T2." + string(rune('0'+r.N(6)))
	default:
		g.p.Tmpl = "T3." + string(rune('0'+r.N(6)))
	}
	if g.big > 0 && r.P(g.big) {
		g.p.Tmpl = "T4." + string(rune('0'+r.N(6)))
	}
	bs, _ := templateBlocks(g.p.Tmpl)
	last := map[string]bool{}
	for _, b := range bs {
		for _, it := range b.Items {
			last[string(unhex(it.K))] = it.A == "set"
		}
	}
	var live, dead []string
	for k, l := range last {
		if l {
			live = append(live, k)
		} else {
			dead = append(dead, k)
		}
	}
	sort.Strings(live)
	sort.Strings(dead)
	for i := 0; i < n/2 && len(live) > 0; i++ {
		g.pool = append(g.pool, live[r.N(len(live))])
	}
	for i := 0; i < n/8 && len(dead) > 0; i++ {
		g.pool = append(g.pool, dead[r.N(len(dead))])
	}
	m := map[string]bool{}
	u := g.pool[:0]
	for _, k := range g.pool {
		if !m[k] {
			m[k] = true
			u = append(u, k)
		}
	}
	g.pool = u
	g.addKeys(n)
	for i := 0; i < 4; i++ {
		g.hot = append(g.hot, g.pool[r.N(len(g.pool))])
	}
}

// twigs reports whether the start has several twigs, so that compaction and pruning have work.
func (g *gen) twigs() bool { return g.p.Tmpl[1] >= '2' }

// generate makes the plan of a seed.
func generate(prop string, seed uint64) *Plan {
	if f := worldGen[prop]; f != nil {
		if p := f(prop, seed); p != nil {
			return p
		}
	}
	return genMads(prop, seed)
}

// worldGen holds generators of other worlds; nil means the database world for this seed.
var worldGen = map[string]func(prop string, seed uint64) *Plan{}

func genMads(prop string, seed uint64) *Plan {
	g := newGen(prop, "mads", seed)
	r := &g.r
	p := g.p
	nops := r.Range(3, 9)
	poolN := r.Pick(8, 20, 40, 80)
	w := [4]int{2, 2, 1, 2}
	pReap, pCrash, pErr, pPrune, pReopen, pKill := 0.6, 0.0, 0.0, 0.15, 0.12, 0.08
	p.Hist = r.P(0.3)
	if r.P(0.3) {
		p.KVP = []float64{0.02, 0.2, 1}[r.N(3)]
	}
	switch prop {
	case "C05", "C06", "C10":
		g.big = 0.15
	case "C01", "C02", "C03", "C04", "C09", "C11":
		g.big = 0.06
	}
	switch prop {
	case "C01":
		pCrash, pKill = 0.6, 0.15
	case "C02":
		w = [4]int{1, 1, 1, 1}
		pCrash = 0.1
	case "C03", "C04":
		nops = r.Range(6, 16)
		pCrash = 0.03
	case "C05", "C06":
		nops = r.Range(4, 9)
		if prop == "C05" {
			pCrash, pKill = 0.2, 0.25
		}
	case "C07":
		w = [4]int{1, 1, 1, 3}
		nops = r.Range(1, 3)
	case "C08":
		pErr = 0.6
		p.KVP = 0
	case "C09":
		p.Hist = true
		nops = r.Range(5, 14)
		pCrash = 0.1
	case "C10":
		w = [4]int{0, 0, 1, 6}
		pPrune, pCrash, pReap = 0.4, 0.4, 0.7
	case "C11":
		w = [4]int{0, 1, 3, 3}
		pReap, pCrash, pPrune = 1, 0.1, 0.1
		nops = r.Range(5, 14)
	case "C14":
		nops = r.Range(3, 7)
		if p.Sched.Strategy == "fifo" {
			p.Sched.Strategy, p.Sched.PSync, p.Sched.PYield = "random", 0.3, 0.002
		}
	}
	g.start(w, poolN)
	g.reap(pReap)
	if !g.twigs() {
		if prop != "C14" {
			pPrune = pPrune / 4
		}
	}
	// Now and then several hundred neighbouring keys of one shard, set in one block and deleted in one later block:
	// one shard then deactivates many entries without appending any.
	var mass []string
	massAt := 0
	switch prop {
	case "C01", "C02", "C03", "C04", "C05", "C09", "C10", "C11", "C14":
		pm := 0.06
		if prop == "C11" && g.p.Knobs["StartReap"] < 100 { // meets compaction
			pm = 0.2
		}
		if r.P(pm) {
			mass = g.mass()
			if r.P(0.4) && nops > 4 {
				nops = 4
			}
		}
	}
	maxEv := int64(200)
	for i := 0; i < nops; i++ {
		var op Op
		x := r.F()
		switch {
		case mass != nil && (massAt == 0 || massAt == 1 && r.P(0.6)):
			op = g.block()
			if massAt == 1 || len(op.Items) > 8 {
				op.Items = nil
			}
			op.Items = append(op.Items, g.massItems(mass, massAt == 1)...)
			massAt++
			if massAt == 2 {
				mass = nil
			}
			if r.P(pCrash) {
				g.crashes(&op, maxEv, 200000)
			}
		case x < pPrune:
			op = Op{Kind: "prune", A: int64(r.Pick(50, 200, 400, 600, 800, 900, 950, 990, 1000))}
			if r.P(0.35) {
				op.B = int64(4 + r.N(400))
			}
			if r.P(pCrash) {
				g.crashes(&op, 60, 20000)
			} else if r.P(pErr) {
				op.F = append(op.F, g.errAt(60, false))
				op.Power, op.Loss = r.P(0.5), g.loss()
			}
		case x < pPrune+pReopen:
			op = Op{Kind: "reopen"}
			if r.P(pCrash) {
				op.Loss = g.loss()
				g.reopenTrouble(&op)
			} else if r.P(pErr) {
				op.RF = append(op.RF, []simfs.Fault{g.errAt(600, r.P(0.6))})
				op.Power, op.Loss = r.P(0.5), g.loss()
			}
			op.Th = r.Pick(1, 1, 3)
		case x < pPrune+pReopen+pKill:
			op = Op{Kind: "kill", Power: r.P(0.6), Loss: g.loss()}
			if r.P(pCrash) {
				g.reopenTrouble(&op)
			}
		default:
			op = g.block()
			if r.P(pCrash) {
				g.crashes(&op, maxEv, 60000)
			} else if r.P(pErr) {
				for n := 1 + r.N(2); n > 0; n-- {
					op.F = append(op.F, g.errAt(maxEv, r.P(0.15)))
				}
				op.Power, op.Loss = r.P(0.6), g.loss()
				if r.P(0.3) {
					op.RF = append(op.RF, []simfs.Fault{g.errAt(600, r.P(0.6))})
				}
			}
		}
		g.push(op)
		if prop == "C08" && r.P(0.2) {
			g.push(Op{Kind: "read", Th: r.Pick(1, 3), Power: r.P(0.3), Loss: g.loss(), F: []simfs.Fault{g.errAt(60, true)}})
		}
		if prop == "C07" {
			g.push(Op{Kind: "corrupt", A: int64(r.Range(6, 14))})
		}
	}
	switch prop {
	case "C07":
	case "C08":
		g.push(Op{Kind: "kill", Power: true, Loss: simfs.Loss{Mode: r.N(4)}})
		g.push(Op{Kind: "check"})
	default:
		if r.P(0.7) {
			g.push(Op{Kind: []string{"reopen", "kill"}[r.N(2)], Power: r.P(0.5), Loss: g.loss()})
		} else {
			g.push(Op{Kind: "check"})
		}
	}
	if prop == "C02" || (prop == "C01" || prop == "C14" || prop == "C10") && r.P(0.15) {
		p.Rep = g.replica()
	}
	return p
}

// mass makes a run of neighbouring keys, all in one shard.
func (g *gen) mass() []string {
	r := &g.r
	n := r.Pick(65, 66, 70, 100, 130, 140, 200, 260, 270, 300)
	if r.P(0.1) { // more than a twig in one block
		n = r.Pick(2050, 2100, 4200)
	}
	x := r.U64()
	at := r.N(200)
	hot := -1
	if r.P(0.6) {
		hot = g.hotShard()
	}
	ks := make([]string, n)
	for i := range ks {
		b := make([]byte, 8)
		for j := range b {
			b[j] = byte(x >> (8 * uint(j)))
		}
		b[5], b[6] = byte((i+at)>>8), byte(i+at)
		if hot >= 0 {
			b[7] = byte(hot*32) | b[7]&31
		}
		ks[i] = string(b)
	}
	return ks
}

// hotShard is a shard in which the template's history has filled many twigs, or -1.
func (g *gen) hotShard() int {
	if len(g.p.Tmpl) < 4 {
		return -1
	}
	v := int(g.p.Tmpl[3] - '0')
	switch g.p.Tmpl[:2] {
	case "T2", "T3":
		return [][]int{{0, 5}, {7, 2}, {3, 4}}[v%3][g.r.N(2)]
	case "T4":
		return []int{6, 0, 7, 3, 1, 4}[v]
	}
	return -1
}

// massItems sets or deletes the keys of a mass, a few of them possibly left out.
func (g *gen) massItems(ks []string, del bool) []Item {
	r := &g.r
	var its []Item
	skip := 0.0
	if r.P(0.3) {
		skip = 0.01
	} else if del && r.P(0.6) { // so many that the list of pending deactivations is full, or just emptied, at the end
		n := len(ks)/65*65 - r.Pick(1, 1, 1, 0, 2)
		at := r.N(len(ks) - n + 1)
		ks = ks[at : at+n]
	}
	for i, k := range ks {
		if r.P(skip) {
			continue
		}
		it := Item{K: hexs(k)}
		if del {
			it.A = "del"
		} else {
			it.A, it.V = "set", Val{L: 1 + r.N(30), S: uint64(i)}
		}
		its = append(its, it)
	}
	return its
}

func (g *gen) replica() *Replica {
	r := &g.r
	rep := &Replica{CPUs: r.Pick(1, 2, 4, 8), Sched: genSched(r, r.U64()), Shuf: r.P(0.7), Hist: r.P(0.4), Th: r.Pick(1, 2, 4)}
	gm := geoms[r.N(len(geoms))]
	if int(gm.buf)-1100 < g.maxV {
		gm = geoms[1]
	}
	rep.Knobs = map[string]int64{"BufferSize": gm.buf, "HPFileSize": gm.block}
	for _, k := range []string{"StartReap", "MinKept", "MinDeact"} {
		if v, ok := g.p.Knobs[k]; ok {
			rep.Knobs[k] = v
		}
	}
	if r.P(0.4) {
		rep.Knobs["JobChan"] = int64(r.Pick(1, 2, 8))
	}
	if r.P(0.4) {
		rep.Knobs["PreRead"] = int64(r.Pick(8, 64, 512)) << 10
	}
	rep.Reopen = r.Pick(0, 0, 1, 2, 3)
	rep.Prune = r.P(0.4)
	return rep
}
