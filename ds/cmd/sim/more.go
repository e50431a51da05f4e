package main

import (
	"bytes"
	"fmt"
	"github.com/smartbch/moeingads/datatree"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"verif.local/ds/simknob"

	moeingads "github.com/smartbch/moeingads"

	"verif.local/ds/simfs"
	"verif.local/ds/simrt"
)

func sortedKeys(m map[string][]HRec) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// versionAt is the model's answer to a historical read.
func versionAt(recs []HRec, h int64) *HRec {
	for i := len(recs) - 1; i >= 0; i-- {
		if recs[i].H <= h {
			return &recs[i]
		}
	}
	return nil
}

// checkHist reads keys at past heights.
func (w *World) checkHist(full bool) bool {
	keys := sortedKeys(w.hist)
	r := simrt.NewRng(w.P.Seed ^ uint64(w.cur.Height)*131 ^ uint64(len(w.blocks))<<24)
	type q struct {
		k string
		h int64
	}
	var qs []q
	n := 40
	if full {
		n = 120
	}
	if len(keys) == 0 {
		return true
	}
	top := w.cur.Height
	for i := 0; i < n; i++ {
		k := keys[r.N(len(keys))]
		recs := w.hist[k]
		var h int64
		switch r.N(6) {
		case 0:
			h = 1 + int64(r.N(int(top)))
		case 1:
			h = top
		case 2:
			if w.pruned >= 0 {
				h = w.pruned + int64(r.N(3))
			} else {
				h = 1 + int64(r.N(int(top)))
			}
		default: // around a version of the key
			h = recs[len(recs)-1-r.N(len(recs))/(1+r.N(3))].H + int64(r.N(3)) - 1
		}
		if h < 1 {
			h = 1
		}
		if h > top {
			h = top
		}
		qs = append(qs, q{k, h})
		if r.P(0.1) { // a neighbour that was never set
			b := []byte(k)
			b[r.N(8)] ^= byte(1 + r.N(255))
			if _, ok := w.hist[string(b)]; !ok && string(b) != loGuard && string(b) != hiGuard {
				qs = append(qs, q{string(b), h})
			}
		}
	}
	for i := 0; i < len(qs); {
		// reads that run into pruned data may panic (a known finding): then continue in a new process
		got := make([]*moeingads.Entry, len(qs))
		at := i
		w.begin(nil)
		res := w.call(func() {
			for ; at < len(qs); at++ {
				got[at] = w.m.GetEntryAtHeight([]byte(qs[at].k), uint64(qs[at].h))
			}
		})
		for j := i; j < at; j++ {
			if !w.judgeHist(qs[j].k, qs[j].h, got[j], "") {
				return false
			}
		}
		switch res {
		case rOK:
			i = len(qs)
		case rPanic:
			if !w.judgeHist(qs[at].k, qs[at].h, nil, fmt.Sprintf("panic: %s [%s]", firstLine(w.g.PanicVal), where(w.g.Stack))) {
				return false
			}
			i = at + 1
			w.m = nil
			if !w.open(nil, 0) || !w.resolve("after a failed historical read") {
				return false
			}
		case rOver:
			w.fail("hang", "historical read: %s", firstLine(w.sc.Over))
			return false
		default:
			w.fail("internal", "historical read: killed")
			return false
		}
	}
	w.st.add("historical reads", int64(len(qs)))
	return w.V == nil
}

func (w *World) judgeHist(k string, h int64, e *moeingads.Entry, pan string) bool {
	rec := versionAt(w.hist[k], h)
	lim := w.pruned // whether an interrupted prune took effect is open
	if w.pruneTried > lim {
		lim = w.pruneTried
	}
	if h <= lim && pan == "" && e == nil {
		return true
	}
	if h <= w.pruned && pan == "" {
		w.fail("hist-pruned", "key %x at pruned height %d (pruned below %d) reads %s", k, h, w.pruned, short(e.Value))
		return w.V == nil
	}
	var msg string
	switch {
	case pan != "":
		msg = pan
	case e == nil && rec != nil && !rec.Del:
		msg = "reads nothing, expected " + short(rec.V)
	case e != nil && (rec == nil || rec.Del):
		msg = "reads " + short(e.Value) + ", expected nothing"
	case e != nil && (string(e.Key) != k || !bytes.Equal(e.Value, rec.V)):
		msg = fmt.Sprintf("reads key %x value %s, expected %s", e.Key, short(e.Value), short(rec.V))
	}
	if msg == "" {
		return true
	}
	kind := "hist"
	if h <= w.pruned {
		kind = "hist-pruned"
	} else if rec != nil && rec.H < lim {
		// the version in force was written below the pruned height
		old := strings.Contains(pan, "Can not find the file with id=") || pan == "" && e == nil
		if e != nil {
			for _, v := range w.hist[k] {
				if !v.Del && v.H < lim && bytes.Equal(v.V, e.Value) {
					old = true
				}
			}
		}
		if old {
			kind = "hist-version-pruned"
		}
	}
	w.fail(kind, "key %x at height %d (now %d, pruned %d, version of height %d): %s", k, h, w.cur.Height, lim, recH(rec), msg)
	return w.V == nil
}

func recH(r *HRec) int64 {
	if r == nil {
		return -1
	}
	return r.H
}

// doPrune prunes below a height.
func (w *World) doPrune(op *Op) {
	h := 1 + w.cur.Height*op.A/1000
	var mi metaInfo
	if op.B > 0 { // at the very height at which a twig ended, or next to it
		var hs []int64
		for _, ths := range w.meta().twigH {
			for _, th := range ths {
				if th > 1 {
					hs = append(hs, th)
				}
			}
		}
		if len(hs) > 0 {
			sortInt64(hs)
			h = hs[int(op.B>>2)%len(hs)] + []int64{0, 0, 1, -1}[op.B&3]
			w.st.add("prunes at a twig's height", 1)
		}
	}
	if w.P.Prop == "C10" {
		mi = w.metaBelow(h)
	}
	f0, fw0 := w.fired(), w.firedWrites()
	w.begin(append([]simfs.Fault{}, op.F...))
	w.power = false
	if op.Kill > 0 {
		w.sc.Trap(op.Kill, func() { simrt.Kill() })
	}
	before := len(w.fs.Files(dbDir))
	r := w.call(func() { w.m.PruneBeforeHeight(h) })
	steps, ev := w.sc.Step(), w.fs.Ev
	w.sc.Trap(-1, nil)
	w.fs.BeginOp(nil)
	w.st.add("prunes", 1)
	if h > w.pruneTried {
		w.pruneTried = h
	}
	switch r {
	case rOK:
		if h > w.pruned {
			w.pruned = h
		}
		w.st.add("prune events", ev)
		if n := len(w.fs.Files(dbDir)); n < before {
			w.st.add("prunes that removed files", 1)
			w.st.add("files pruned", int64(before-n))
		}
		if w.O.FailStop && w.firedWrites() > fw0 {
			w.fail("acknowledged", "a write or sync failed (%v) and the prune was reported as done", firedList(w.fs.Fired))
			return
		}
		w.logf("  pruned below %d", h)
		if n := len(w.blocks); n > 0 {
			w.blocks[n-1].Prune = h
		}
		if op.Die {
			w.st.add("killed right after a prune", 1)
			w.die("right after the prune")
			w.restart(op, op.Power)
			return
		}
		w.settleGroup("a prune")
		if w.P.Prop == "C10" && w.V == nil && w.fired() == f0 {
			w.checkPruned(h, mi)
		}
	case rKilled:
		w.st.add("killed in prune", 1)
		w.logf("  killed in prune below %d at step %d, event %d (power=%v)", h, steps, ev, w.power)
		w.restart(op, w.power || op.Power && op.Kill > 0)
	case rPanic:
		if w.fired() == f0 {
			w.fail("panic", "pruning below %d panics without any fault: %s [%s]", h, firstLine(w.g.PanicVal), where(w.g.Stack))
			return
		}
		w.st.add("fail-stops in prune", 1)
		w.restart(op, op.Power)
	case rOver:
		w.fail("hang", "prune: %s", firstLine(w.sc.Over))
	}
}

// checkPruned: a completed prune lets go of what only pruned twigs need (m is the metadata before it).
func (w *World) checkPruned(h int64, m metaInfo) {
	a := w.meta()
	if !m.ok || !a.ok {
		return
	}
	for i := range a.prune {
		if m.reapable[i] > datatree.MinPruneCount+4 && a.prune[i] < m.prune[i]+m.reapable[i]-3 {
			w.fail("prune", "shard %d: %d twigs behind twig %d ended below height %d, and the prune removes %d of them", i, m.reapable[i], m.prune[i], h, a.prune[i]-m.prune[i])
			return
		}
		if a.prune[i] <= m.prune[i] {
			continue
		}
		if n := int(a.prune[i] - m.prune[i]); n < len(m.twigH[i]) && m.twigH[i][n] >= h {
			w.fail("prune", "shard %d: the prune below height %d removes twig %d, which was written to until height %d", i, h, a.prune[i], m.twigH[i][n])
			return
		}
		seg := int64(0)
		first := a.prune[i] + 1
		var ents, mts int64
		for _, f := range w.segmentFiles() {
			if _, s, ok := strings.Cut(filepath.Base(f), "-"); ok { // files are called ID-SIZE
				if n, err := strconv.ParseInt(s, 10, 64); err == nil && n > seg {
					seg = n
				}
			}
			switch filepath.Base(filepath.Dir(f)) {
			case fmt.Sprintf("entries.%d", i):
				ents += min(int64(len(w.fs.Content(f))), seg)
			case fmt.Sprintf("twigmt.%d", i):
				mts += min(int64(len(w.fs.Content(f))), seg)
			}
		}
		if seg == 0 {
			continue
		}
		w.st.add("pruned shards measured", 1)
		if max := a.mtSize[i] - (first-2)*datatree.TwigMtSize + seg; mts > max {
			w.fail("prune", "shard %d: twigs up to %d are pruned, and the twig file still takes %d bytes (at most %d are needed)", i, first-1, mts, max)
			return
		}
		if max := a.entSize[i] - first*datatree.LeafCountInTwig*40 + seg; ents > max {
			w.fail("prune", "shard %d: twigs up to %d are pruned, and the entry file still takes %d bytes (at most %d are needed)", i, first-1, ents, max)
			return
		}
	}
}

// checkCompact: a block that starts with too many retained entries makes progress in every shard that can.
func (w *World) checkCompact(a, b metaInfo) {
	if !a.ok || !b.ok {
		return
	}
	active := int64(len(w.cur.E))
	start, minKept := w.P.Knobs["StartReap"], w.P.Knobs["MinKept"]
	due := start > 0 && minKept > 0 && simknob.Used(simknob.StartReap) && simknob.Used(simknob.MinKeptTwigs)
	var kept, keptAfter int64
	for i := range a.maxSN {
		kept += a.maxSN[i] - a.oldest[i]*2048
		keptAfter += b.maxSN[i] - b.oldest[i]*2048
	}
	moved := int64(0)
	for i := range a.maxSN {
		if b.oldest[i] > b.maxSN[i]>>11 {
			w.fail("compact", "shard %d: oldest twig %d is beyond the youngest", i, b.oldest[i])
			return
		}
		moved += b.oldest[i] - a.oldest[i]
		if due && active >= start && kept >= 2*active && a.oldest[i]+minKept <= a.maxSN[i]>>11 && b.oldest[i] <= a.oldest[i] {
			w.fail("compact", "height %d: %d entries retained for %d live ones, and shard %d (twigs %d to %d) reclaims nothing", w.cur.Height, kept, active, i, a.oldest[i], a.maxSN[i]>>11)
			return
		}
	}
	w.st.add("twigs reclaimed", moved)
	if moved > 0 {
		w.st.add("blocks that compact", 1)
	}
}

// segmentFiles lists the data files of the database's own format.
func (w *World) segmentFiles() (r []string) {
	for _, f := range w.fs.Files(dbDir) {
		if !strings.Contains(f, "rocksdb") {
			r = append(r, f)
		}
	}
	sort.Strings(r)
	return
}

// doCorrupt closes the database, damages copies of it and opens them, then goes on with the undamaged one.
func (w *World) doCorrupt(op *Op) {
	if !w.closeDB() {
		return
	}
	saved := w.fs
	mi := w.meta()
	_ = mi
	r := simrt.NewRng(w.P.Seed*31 + uint64(op.N)*1009)
	for n := int64(0); n < op.A && w.V == nil; n++ {
		fs := saved.Clone()
		fs.Fired, fs.Count = saved.Fired, saved.Count
		w.fs, simfs.Cur = fs, fs
		what := w.damage(&r, saved)
		if what == "" {
			continue
		}
		w.st.add("damaged copies", 1)
		w.logf("  %s", what)
		w.fs.Reboot()
		w.g = w.sc.NewGroup()
		w.begin(nil)
		var err error
		w.m = nil
		res := w.call(func() { w.m, err = moeingads.NewMoeingADS(dbDir, w.P.Hist, guards()) })
		if res == rOver {
			w.fail("hang", "opening with %s: %s", what, firstLine(w.sc.Over))
			break
		}
		if res == rPanic || err != nil {
			w.st.add("damage refused", 1)
			if !w.g.Dead() {
				w.sc.KillGroup(w.g)
			}
			continue
		}
		w.st.add("damage harmless", 1)
		w.sc.Quiesce(w.g)
		ok := w.resolve("opened with "+what) && w.checkReads(1)
		if w.V != nil {
			w.V.Msg = "with " + what + ": " + w.V.Msg
			break
		}
		if ok {
			w.proofsOrLoud(what)
		}
		if w.g != nil && !w.g.Dead() {
			w.sc.KillGroup(w.g)
		}
	}
	w.fs, simfs.Cur = saved, saved
	w.m = nil
	if w.V == nil && w.open(nil, 0) {
		w.resolve("after damage tests")
	}
}

// damage changes one file of the closed database.
func (w *World) damage(r *simrt.Rng, saved *simfs.FS) string {
	files := w.segmentFiles()
	f := files[r.N(len(files))]
	return damageFile(w.fs, f, strings.TrimPrefix(f, dbDir+"/"), r)
}

// damageFile changes a file.
func damageFile(fs *simfs.FS, f, name string, r *simrt.Rng) string {
	b := append([]byte{}, fs.Content(f)...)
	off := func() int {
		if len(b) == 0 {
			return 0
		}
		switch r.N(4) {
		case 0: // near the end
			n := 300
			if n > len(b) {
				n = len(b)
			}
			return len(b) - 1 - r.N(n)
		case 1: // near the start
			n := 300
			if n > len(b) {
				n = len(b)
			}
			return r.N(n)
		default:
			return r.N(len(b))
		}
	}
	switch r.N(10) {
	case 0:
		fs.Drop(f)
		return name + " lost"
	case 1:
		if len(b) == 0 {
			return ""
		}
		fs.SetContent(f, nil)
		return name + " emptied"
	case 2:
		if len(b) == 0 {
			return ""
		}
		n := off()
		fs.SetContent(f, b[:n])
		return fmt.Sprintf("%s cut from %d to %d bytes", name, len(b), n)
	case 3:
		if len(b) == 0 {
			return ""
		}
		p := off()
		n := 1 + r.N(512)
		if p+n > len(b) {
			n = len(b) - p
		}
		same := true
		for i := p; i < p+n; i++ {
			same = same && b[i] == 0
			b[i] = 0
		}
		if same {
			return ""
		}
		fs.SetContent(f, b)
		return fmt.Sprintf("%s zeroed at %d for %d bytes", name, p, n)
	default:
		if len(b) == 0 {
			return ""
		}
		p := off()
		x := byte(1 << uint(r.N(8)))
		if r.P(0.3) {
			x = byte(1 + r.N(255))
		}
		b[p] ^= x
		fs.SetContent(f, b)
		return fmt.Sprintf("%s byte %d of %d xor %#x", name, p, len(b), x)
	}
}

// proofsOrLoud: every proof that a damaged database still returns must be right.
func (w *World) proofsOrLoud(what string) {
	mi := w.meta()
	keys := w.cur.keys()
	if len(keys) > 24 {
		keys = keys[:24]
	}
	for _, k := range keys {
		var e, p []byte
		var err error
		w.begin(nil)
		res := w.call(func() { e, p, err = w.m.GetProof([]byte(k)) })
		if res == rPanic {
			w.st.add("proof requests refused", 1)
			return
		}
		if res != rOK {
			w.fail("hang", "with %s: proof request does not return", what)
			return
		}
		if err != nil {
			w.st.add("proof requests refused", 1)
			continue
		}
		if msg := w.verifyOne(k, w.cur.E[k], e, p, mi); msg != "" {
			w.fail("proof", "with %s, proof of key %x: %s", what, k, msg)
			return
		}
		w.st.add("proofs verified", 1)
	}
}

// doFaultyRead reads with I/O errors: every answer is right or the process stops.
func (w *World) doFaultyRead(op *Op) {
	keys := w.cur.live()
	r := simrt.NewRng(w.P.Seed*37 + uint64(op.N)*1013)
	type ans struct {
		k    string
		e    *moeingads.Entry
		hist int64
	}
	var as []ans
	for i := 0; i < 30 && len(keys) > 0; i++ {
		a := ans{k: keys[r.N(len(keys))]}
		if w.P.Hist && w.pruned < 0 && w.pruneTried == 0 && r.P(0.4) {
			a.hist = 1 + int64(r.N(int(w.cur.Height)))
		}
		as = append(as, a)
	}
	done := make([]bool, len(as))
	f0 := w.fired()
	w.begin(append([]simfs.Fault{}, op.F...))
	th := op.Th
	if th < 1 {
		th = 1
	}
	res := w.call(func() {
		parallel(th, func(t int) {
			for i := t; i < len(as); i += th {
				if as[i].hist > 0 {
					as[i].e = w.m.GetEntryAtHeight([]byte(as[i].k), uint64(as[i].hist))
				} else {
					as[i].e = w.m.GetEntry([]byte(as[i].k))
				}
				done[i] = true
			}
		})
	})
	w.fs.BeginOp(nil)
	for i, a := range as {
		if !done[i] {
			continue
		}
		var want []byte
		live := true
		if a.hist > 0 {
			rec := versionAt(w.hist[a.k], a.hist)
			live = rec != nil && !rec.Del
			if live {
				want = rec.V
			}
		} else {
			want = w.cur.E[a.k].V
		}
		if live != (a.e != nil) || live && !bytes.Equal(a.e.Value, want) {
			got := "nothing"
			if a.e != nil {
				got = short(a.e.Value)
			}
			w.fail("faulty-read", "with an injected read error (%s), key %x at height %d reads %s, expected %s", firedList(w.fs.Fired), a.k, a.hist, got, short(want))
			return
		}
	}
	switch res {
	case rPanic:
		if w.fired() == f0 {
			w.fail("panic", "reading panics without any fault: %s [%s]", firstLine(w.g.PanicVal), where(w.g.Stack))
			return
		}
		w.st.add("fail-stops in read", 1)
		w.restart(op, op.Power)
	case rOver:
		w.fail("hang", "reading: %s", firstLine(w.sc.Over))
	}
}
