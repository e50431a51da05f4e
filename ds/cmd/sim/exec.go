package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	moeingads "github.com/smartbch/moeingads"
	"github.com/smartbch/moeingads/indextree"
	"github.com/smartbch/moeingads/metadb"

	"verif.local/ds/simfmt"
	"verif.local/ds/simfs"
	"verif.local/ds/simrt"
)

const dbDir = "/db/x"

// Violation is a property broken in a run.
type Violation struct {
	Kind string `json:"kind"`
	Msg  string `json:"msg"`
	Op   int    `json:"op"`

	muted bool
}

// Stats of a run, summed over runs by the supervisor.
type Stats struct {
	C map[string]int64 `json:"c"`
}

func (s *Stats) add(k string, n int64) { s.C[k] += n }

// Oracles that a plan's world evaluates.
type Oracles struct {
	Reads, Chain, Root, Proofs, Hist, HashCons, Compact, FailStop bool
	ProofsFull                                                    bool // proofs after restarts only
}

// World runs a plan against the real database.
type World struct {
	P          *Plan
	O          Oracles
	fs         *simfs.FS
	sc         *simrt.Sched
	g          *simrt.Group
	m          *moeingads.MoeingADS
	cur        *State
	after      *State // set while the outcome of an interrupted block is unknown
	afterB     *blk
	root       map[int64]string
	hist       map[string][]HRec
	pruned     int64 // highest pruned height (-1: none), in this database
	pruneTried int64 // highest height of a prune that was started
	V          *Violation
	Known      map[string]string
	st         *Stats
	op         *Op
	sub        int
	blocks     []blk
	gone       []string // short keys deleted earlier (store world)
	onOpen     func()
	power      bool
	log        []string
	oldProofs  []oldProof
	kvp        float64
	fresh      bool // opened since the oracles ran
}

type blk struct {
	H     int64
	Items []Item
	Th    int
	Prune int64 // prune below this height after the block (0: no)
}

func (w *World) fail(kind, format string, a ...interface{}) {
	if w.V != nil {
		return
	}
	msg := fmt.Sprintf(format, a...)
	if len(msg) > 1500 {
		msg = msg[:1500] + "..."
	}
	if id := matchKnown(w.P.Prop, kind, msg); id != "" {
		w.Known[id] = msg
		w.st.add("known-finding:"+id, 1)
		return
	}
	n := -1
	if w.op != nil {
		n = w.op.N
	}
	w.V = &Violation{Kind: kind, Msg: msg, Op: n}
	if w.P.Prop == "C14" && w.P.World != "mads" && kind != "race" && kind != "hang" && kind != "panic" {
		w.V.muted = true // the parts' own content is what C12, C13, C15-C18 are about
	}
	if w.P.Prop == "C08" && w.P.World != "mads" && w.fired() == 0 {
		w.V.muted = true // no error was injected
	}
}

func (w *World) logf(format string, a ...interface{}) {
	if len(w.log) < 400 {
		w.log = append(w.log, fmt.Sprintf(format, a...))
	}
}

// begin starts a new step-counting phase; phases of one op have their own schedule.
func (w *World) begin(faults []simfs.Fault) {
	n := 0
	if w.op != nil {
		n = w.op.N
	}
	if m := raceCheck(); m != "" {
		w.fail("race", "%s", m)
	}
	w.sub++
	w.sc.BeginOp(n*32 + w.sub%32)
	w.fs.BeginOp(faults)
}

const (
	rOK = iota
	rKilled
	rPanic
	rOver
)

// call runs f in the process. kind says what happened.
func (w *World) call(f func()) int {
	if w.sc.Call(w.g, f) {
		return rOK
	}
	switch {
	case w.sc.Over != "":
		return rOver
	case w.g.Panicked:
		return rPanic
	default:
		return rKilled
	}
}

func (w *World) fired() int64 {
	var n int64
	for k, v := range w.fs.Fired {
		if !strings.HasPrefix(k, "crash") && !strings.HasPrefix(k, "power") && !strings.HasPrefix(k, "kv-compaction") {
			n += v
		}
	}
	return n
}

func (w *World) firedWrites() int64 {
	var n int64
	for k, v := range w.fs.Fired {
		i := strings.IndexByte(k, 64)
		if i < 0 {
			continue
		}
		switch k[:i] {
		case "crash", "power":
			continue
		}
		switch k[i+1:] {
		case "write", "sync", "create", "kvwrite", "kvsync", "kvput":
			n += v
		}
	}
	return n
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

// where extracts the innermost frame of the system under test from a stack.
func where(stack string) string {
	for _, l := range strings.Split(stack, "\n") {
		if strings.Contains(l, "smartbch/moeingads") && strings.Contains(l, "(") && !strings.HasPrefix(l, "\t") {
			l = strings.TrimPrefix(l, "github.com/smartbch/moeingads")
			if i := strings.IndexByte(l, '('); i > 0 && !strings.HasPrefix(l[i:], "(*") {
				l = l[:i]
			}
			return strings.TrimSpace(l)
		}
	}
	return ""
}

// quiet is call for work that must succeed: any other outcome is a violation.
func (w *World) quiet(what string, f func()) bool {
	w.begin(nil)
	switch w.call(f) {
	case rOK:
		return true
	case rPanic:
		w.fail("panic", "%s panics without any fault: %s [%s]", what, firstLine(w.g.PanicVal), where(w.g.Stack))
	case rOver:
		w.fail("hang", "%s: %s", what, firstLine(w.sc.Over))
	case rKilled:
		w.fail("internal", "%s: killed without a reason", what)
	}
	w.m = nil
	return false
}

// ---- opening ----

// open starts a process and opens the database; attempts with faults come first.
// It reports whether the database is open at the end.
func (w *World) open(rf [][]simfs.Fault, rkill int64) bool {
	for i := 0; ; i++ {
		w.fs.Reboot()
		w.g = w.sc.NewGroup()
		w.m = nil
		var faults []simfs.Fault
		if i < len(rf) {
			faults = rf[i]
		}
		f0, fw0 := w.fired(), w.firedWrites()
		_ = fw0
		w.begin(append([]simfs.Fault{}, faults...))
		w.power = false
		if i == 0 && rkill > 0 {
			w.sc.Trap(rkill, func() { simrt.Kill() })
		}
		var err error
		r := w.call(func() { w.m, err = moeingads.NewMoeingADS(dbDir, w.P.Hist, guards()) })
		w.sc.Trap(-1, nil)
		w.fs.BeginOp(nil)
		w.st.add("opens", 1)
		if i > 8 {
			w.fail("internal", "open: killed %d times: panicked=%v killed=%v", i, w.g.Panicked, w.g.Killed)
			return false
		}
		faulted := w.fired() > f0
		switch r {
		case rOK:
			if err == nil && w.m != nil {
				w.settleGroup("open")
				w.fresh = true
				if w.onOpen != nil && w.V == nil {
					w.onOpen()
				}
				return w.V == nil
			}
			if faulted {
				w.die("open returned an error after an injected fault")
				continue
			}
			w.fail("open", "reopening returns an error: %v", err)
			return false
		case rKilled:
			w.st.add("killed in open", 1)
			w.logf("  killed while opening (attempt %d, power=%v)", i, w.power)
			if w.power {
				w.fs.PowerLoss(simfs.Loss{Mode: w.op.Loss.Mode, Seed: w.op.Loss.Seed + uint64(i)*7919})
				w.st.add("power losses", 1)
			}
			continue
		case rPanic:
			if faulted {
				w.logf("  open stopped by an injected fault: %s", firstLine(w.g.PanicVal))
				w.st.add("fail-stops in open", 1)
				if w.op.Power {
					w.fs.PowerLoss(simfs.Loss{Mode: w.op.Loss.Mode, Seed: w.op.Loss.Seed + uint64(i)*7919})
				}
				continue
			}
			w.fail("reopen", "the database does not open: %s [%s]", firstLine(w.g.PanicVal), where(w.g.Stack))
			return false
		case rOver:
			w.fail("hang", "open: %s", firstLine(w.sc.Over))
			return false
		}
	}
}

// settleGroup lets background tasks finish; none may stay blocked.
func (w *World) settleGroup(what string) {
	n := w.sc.Quiesce(w.g)
	if w.g.Dead() {
		if w.g.Panicked {
			w.fail("panic", "after %s a background task panics: %s [%s]", what, firstLine(w.g.PanicVal), where(w.g.Stack))
		} else if w.sc.Over != "" {
			w.fail("hang", "after %s: %s", what, firstLine(w.sc.Over))
		}
		w.m = nil
		return
	}
	if n > 0 {
		w.fail("hang", "after %s %d background tasks stay blocked forever", what, n)
	}
}

func (w *World) die(why string) {
	w.logf("  process ends: %s", why)
	if w.g != nil && !w.g.Dead() {
		w.sc.KillGroup(w.g)
	}
	w.m = nil
}

// resolve compares the freshly opened database with the possible states and picks the one it is in.
func (w *World) resolve(what string) bool {
	var h int64
	var root []byte
	if !w.quiet("reading height and root", func() { h, root = w.m.GetCurrHeight(), w.m.GetRootHash() }) {
		return false
	}
	cands := []*State{w.cur}
	if w.after != nil {
		cands = append(cands, w.after)
	}
	var pick *State
	for _, c := range cands {
		if c.Height == h {
			pick = c
		}
	}
	if pick == nil {
		hs := []int64{}
		for _, c := range cands {
			hs = append(hs, c.Height)
		}
		w.fail("atomicity", "%s: the database is at height %d, possible are %v", what, h, hs)
		return false
	}
	if r, ok := w.root[h]; ok && r != fmt.Sprintf("%x", root) {
		w.fail("root", "%s: root of height %d is %x, it was %s", what, h, root, r)
		return false
	}
	w.root[h] = fmt.Sprintf("%x", root)
	if w.after != nil {
		if pick == w.after {
			w.st.add("interrupted block present", 1)
			w.commit(w.after, *w.afterB)
		} else {
			w.st.add("interrupted block absent", 1)
		}
		w.after, w.afterB = nil, nil
	}
	return true
}

func (w *World) commit(s *State, b blk) {
	ch := net(b.Items)
	ks := make([]string, 0, len(ch))
	for k := range ch {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		c := ch[k]
		if c.del {
			if _, was := w.cur.E[k]; was {
				w.hist[k] = append(w.hist[k], HRec{H: b.H, Del: true})
			}
		} else {
			w.hist[k] = append(w.hist[k], HRec{H: b.H, V: c.v})
		}
	}
	w.cur = s
	w.blocks = append(w.blocks, b)
	w.st.add("blocks committed", 1)
}

// ---- blocks ----

func parallel(n int, f func(i int)) {
	if n <= 1 {
		f(0)
		return
	}
	var wg simWG
	wg.Add(n)
	for i := 0; i < n; i++ {
		i := i
		simrt.Go(func() {
			defer wg.Done()
			f(i)
		})
	}
	wg.Wait()
}

// runBlock is what a client of the database does for one block.
// The mock database keeps the values it is given.
func runBlock(m *moeingads.MoeingADS, h int64, items []Item, th int, keeps bool) {
	if th < 1 {
		th = 1
	}
	keys := make([][]byte, len(items))
	vals := make([][]byte, len(items))
	for i, it := range items {
		keys[i] = unhex(it.K)
		switch it.A {
		case "set", "delset", "setdel":
			vals[i] = it.V.Bytes()
		}
	}
	parallel(th, func(t int) {
		for i := t; i < len(items); i += th {
			k := append([]byte{}, keys[i]...) // the caller uses its buffer for something else afterwards
			switch items[i].A {
			case "set", "prep":
				m.PrepareForUpdate(k)
			case "del", "prepdel":
				m.PrepareForDeletion(k)
			case "setdel":
				m.PrepareForUpdate(k)
				m.PrepareForDeletion(k)
			case "delset":
				m.PrepareForDeletion(k)
				m.PrepareForUpdate(k)
			}
			scribble(k)
		}
	})
	m.BeginWrite(h)
	parallel(th, func(t int) {
		for i := t; i < len(items); i += th {
			switch items[i].A {
			case "set":
				m.Set(keys[i], vals[i])
			case "del":
				m.Delete(keys[i])
			case "setdel":
				m.Set(keys[i], vals[i])
				m.Delete(keys[i])
			case "delset":
				m.Delete(keys[i])
				m.Set(keys[i], vals[i])
			}
		}
	})
	m.EndWrite()
	for i := range keys {
		scribble(keys[i])
		if !keeps {
			scribble(vals[i])
		}
	}
}

// scribble changes bytes that belong to the caller, which nobody else may depend on.
func scribble(b []byte) {
	for i := range b {
		b[i] ^= 0x5a
	}
}

func (w *World) doBlock(op *Op) {
	dh := op.DH
	if dh < 1 {
		dh = 1
	}
	h := w.cur.Height + dh
	if h < 1 {
		h = 1
	}
	b := blk{H: h, Items: op.Items, Th: op.Th}
	next := w.cur.apply(h, net(op.Items))
	var before metaInfo
	if w.O.Compact {
		before = w.meta()
	}
	f0, fw0 := w.fired(), w.firedWrites()
	w.begin(append([]simfs.Fault{}, op.F...))
	w.power = false
	if op.Kill > 0 {
		w.sc.Trap(op.Kill, func() { simrt.Kill() })
	}
	var root []byte
	r := w.call(func() {
		runBlock(w.m, h, op.Items, op.Th, w.P.World == "mads4")
		if op.Die {
			root = w.m.GetRootHash()
		}
	})
	steps := w.sc.Step()
	ev := w.fs.Ev
	w.sc.Trap(-1, nil)
	w.fs.BeginOp(nil)
	faulted := w.fired() > f0
	w.st.add("blocks", 1)
	switch r {
	case rOK:
		w.st.add("block steps", steps)
		w.st.add("block events", ev)
		if w.O.FailStop && w.firedWrites() > fw0 {
			w.fail("acknowledged", "a write or sync failed (%v) and the block was reported as done", firedList(w.fs.Fired))
			return
		}
		w.logf("  block %d done", h)
		w.commit(next, b)
		if op.Die {
			w.st.add("killed right after a block", 1)
			w.keepRoot(h, fmt.Sprintf("%x", root))
			w.die("right after the block")
			if w.V == nil {
				w.restart(op, op.Power)
			}
			return
		}
		w.settleGroup("a block")
		if w.V != nil {
			return
		}
		if !w.quiet("root", func() { w.setRoot(h) }) {
			return
		}
		if w.O.Compact {
			w.checkCompact(before, w.meta())
		}
	case rKilled:
		w.st.add("killed in block", 1)
		w.logf("  killed in block %d at step %d, event %d (power=%v)", h, steps, ev, w.power)
		w.after, w.afterB = next, &b
		w.restart(op, w.power || op.Power && op.Kill > 0)
	case rPanic:
		if !faulted {
			w.fail("panic", "block %d panics without any fault: %s [%s]", h, firstLine(w.g.PanicVal), where(w.g.Stack))
			return
		}
		w.st.add("fail-stops in block", 1)
		w.logf("  block %d stopped by an injected fault: %s", h, firstLine(w.g.PanicVal))
		w.after, w.afterB = next, &b
		w.restart(op, op.Power)
	case rOver:
		w.fail("hang", "block %d: %s", h, firstLine(w.sc.Over))
	}
}

func firedList(m map[string]int64) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return strings.Join(ks, " ")
}

func (w *World) setRoot(h int64) {
	w.keepRoot(h, fmt.Sprintf("%x", w.m.GetRootHash()))
}

func (w *World) keepRoot(h int64, r string) {
	if old, ok := w.root[h]; ok && old != r {
		w.fail("root", "root of height %d is %s, it was %s", h, r, old)
		return
	}
	w.root[h] = r
}

// restart brings the database up again after the process died.
func (w *World) restart(op *Op, power bool) {
	if power {
		w.fs.PowerLoss(op.Loss)
		w.st.add("power losses", 1)
		w.logf("  power loss, mode %d", op.Loss.Mode)
	}
	if !w.open(op.RF, op.RKill) {
		return
	}
	w.resolve("after restart")
}

// ---- checks ----

func sameEnt(e *moeingads.Entry, k string, x *Ent) string {
	switch {
	case string(e.Key) != k:
		return fmt.Sprintf("key %x", e.Key)
	case !bytes.Equal(e.Value, x.V):
		return fmt.Sprintf("value %s, expected %s", short(e.Value), short(x.V))
	case e.Height != x.H || e.LastHeight != x.LH:
		return fmt.Sprintf("heights %d/%d, expected %d/%d", e.Height, e.LastHeight, x.H, x.LH)
	}
	return ""
}

func short(b []byte) string {
	if b == nil {
		return "nil"
	}
	if len(b) > 24 {
		return fmt.Sprintf("%x...(%d bytes, sum %x)", b[:16], len(b), sum8(b))
	}
	return fmt.Sprintf("%x(%d bytes)", b, len(b))
}

// checkReads compares everything that can be read with the model.
func (w *World) checkReads(th int) bool {
	type kv struct{ k, v []byte }
	var scan []kv
	var cnt int
	var h int64
	s := w.cur
	if !w.quiet("scanning", func() {
		w.m.ScanAll(func(k, v []byte) {
			scan = append(scan, kv{append([]byte{}, k...), append([]byte{}, v...)})
		})
		cnt = w.m.ActiveCount()
		h = w.m.GetCurrHeight()
	}) {
		return false
	}
	w.st.add("scans", 1)
	if h != s.Height {
		w.fail("reads", "current height %d, expected %d", h, s.Height)
		return false
	}
	live := s.live()
	if cnt != len(live)+2 {
		w.fail("reads", "active count %d, expected %d live keys and 2 guards", cnt, len(live))
		return false
	}
	if len(scan) != len(live) {
		w.fail("reads", "full scan visits %d keys, expected %d (%s)", len(scan), len(live), diffKeys(scanKeys(len(scan), func(i int) string { return string(scan[i].k) }), live))
		return false
	}
	desc := len(scan) > 1 && bytes.Compare(scan[0].k, scan[1].k) > 0
	for i := range scan {
		j := i
		if desc {
			j = len(scan) - 1 - i
		}
		if string(scan[i].k) != live[j] {
			w.fail("reads", "full scan visits %x at place %d, expected %x", scan[i].k, i, live[j])
			return false
		}
		if !bytes.Equal(scan[i].v, s.E[live[j]].V) {
			w.fail("reads", "scan of key %x gives %s, expected %s", scan[i].k, short(scan[i].v), short(s.E[live[j]].V))
			return false
		}
	}
	// point reads, from several threads: live keys, deleted and never-set ones
	probe := append([]string{}, live...)
	for k := range w.hist {
		if _, ok := s.E[k]; !ok {
			probe = append(probe, k)
		}
	}
	for i := 0; i < len(live) && i < 12; i++ {
		b := []byte(live[i*len(live)/12%len(live)])
		b[7]++
		if _, ok := s.E[string(b)]; !ok {
			probe = append(probe, string(b))
		}
		b = []byte(live[i])
		b[0] ^= 0x80
		if _, ok := s.E[string(b)]; !ok {
			probe = append(probe, string(b))
		}
	}
	sort.Strings(probe)
	got := make([]*moeingads.Entry, len(probe))
	if th < 1 {
		th = 1
	}
	if !w.quiet("reading keys", func() {
		parallel(th, func(t int) {
			for i := t; i < len(probe); i += th {
				got[i] = w.m.GetEntry([]byte(probe[i]))
			}
		})
	}) {
		return false
	}
	w.st.add("reads", int64(len(probe)))
	for i, k := range probe {
		x := s.E[k]
		switch {
		case x == nil && got[i] != nil:
			w.fail("reads", "key %x reads %s, expected nothing", k, short(got[i].Value))
			return false
		case x != nil && got[i] == nil:
			w.fail("reads", "key %x reads nothing, expected %s", k, short(x.V))
			return false
		case x != nil:
			if !bytes.Equal(got[i].Value, x.V) || string(got[i].Key) != k {
				w.fail("reads", "key %x reads key %x value %s, expected %s", k, got[i].Key, short(got[i].Value), short(x.V))
				return false
			}
			if w.P.World != "mads4" { // the mock tree hands out the entries it keeps
				scribble(got[i].Key)
				scribble(got[i].Value)
				scribble(got[i].NextKey)
			}
		}
	}
	return true
}

func scanKeys(n int, f func(int) string) []string {
	r := make([]string, n)
	for i := range r {
		r[i] = f(i)
	}
	return r
}

func diffKeys(a, b []string) string {
	am, bm := map[string]bool{}, map[string]bool{}
	for _, k := range a {
		am[k] = true
	}
	for _, k := range b {
		bm[k] = true
	}
	for _, k := range a {
		if !bm[k] {
			return fmt.Sprintf("extra key %x", k)
		}
	}
	for _, k := range b {
		if !am[k] {
			return fmt.Sprintf("missing key %x", k)
		}
	}
	return "a key twice"
}

// checkChain walks the list of live entries.
func (w *World) checkChain() bool {
	s := w.cur
	keys := s.keys()
	var bad string
	if !w.quiet("walking the chain", func() {
		k := loGuard
		for i := 0; ; i++ {
			if k != keys[i] {
				bad = fmt.Sprintf("the chain visits %x, expected %x", k, keys[i])
				return
			}
			e := w.m.GetEntry([]byte(k))
			if e == nil {
				bad = fmt.Sprintf("the chain leads to %x, which has no entry", k)
				return
			}
			if d := sameEnt(e, k, s.E[k]); d != "" {
				bad = fmt.Sprintf("entry %x has %s", k, d)
				return
			}
			if k == hiGuard {
				if string(e.NextKey) != hiGuard {
					bad = fmt.Sprintf("the high guard's next key is %x", e.NextKey)
				}
				return
			}
			if i+1 >= len(keys) {
				bad = "the chain does not end at the high guard"
				return
			}
			k = string(e.NextKey)
		}
	}) {
		return false
	}
	w.st.add("chain walks", 1)
	if bad != "" {
		w.fail("chain", "at height %d: %s", s.Height, bad)
		return false
	}
	// the database's own walk must agree
	return w.quiet("the consistency check", func() { w.m.CheckConsistency() })
}

func (w *World) checkRoot() bool {
	return w.quiet("root", func() { w.setRoot(w.cur.Height) }) && w.V == nil
}

func (w *World) checkHashCons() bool {
	return w.quiet("hash consistency check", func() { w.m.CheckHashConsistency() })
}

type metaInfo struct {
	ok                   bool
	roots                [8][32]byte
	oldest, maxSN, prune [8]int64
	entSize, mtSize      [8]int64
	reapable             [8]int64   // consecutive twigs behind the last pruned one which are neither active nor as young as the height asked about
	twigH                [8][]int64 // heights at which the evicted twigs began, from the first one kept
}

// meta reads the stored metadata from a copy of the disk.
func (w *World) meta() metaInfo { return w.metaBelow(0) }

func (w *World) metaBelow(h int64) (mi metaInfo) {
	saved := simfs.Cur
	simfs.Cur = w.fs.Clone()
	simfs.Cur.KVCompactP = 0
	simfs.Cur.Reboot()
	defer func() { simfs.Cur = saved }()
	g := w.sc.NewGroup()
	mi.ok = w.sc.Call(g, func() {
		kv, err := indextree.NewRocksDB("rocksdb", dbDir)
		if err != nil {
			panic(err)
		}
		mdb := metadb.NewMetaDB(kv)
		mdb.ReloadFromKVDB()
		for i := range mi.roots {
			mi.roots[i] = mdb.GetRootHash(i)
			mi.oldest[i] = mdb.GetOldestActiveTwigID(i)
			mi.maxSN[i] = mdb.GetMaxSerialNum(i)
			mi.prune[i] = mdb.GetLastPrunedTwig(i)
			mi.entSize[i] = mdb.GetEntryFileSize(i)
			mi.mtSize[i] = mdb.GetTwigMtFileSize(i)
			for t, run := mi.prune[i]+1, true; t < mi.oldest[i]; t++ {
				th := mdb.GetTwigHeight(i, t)
				mi.twigH[i] = append(mi.twigH[i], th)
				for u := t + 1; th < 0 && u <= mi.maxSN[i]/2048; u++ { // it cannot have begun later than the next ones
					th = mdb.GetTwigHeight(i, u)
				}
				if th < 0 || th >= h {
					run = false
				}
				if run {
					mi.reapable[i]++
				}
			}
		}
		kv.Close()
	})
	if !mi.ok {
		w.fail("meta", "the stored metadata cannot be read back: %s", firstLine(g.PanicVal))
	}
	return
}

// deep runs the enabled oracles on the open database.
func (w *World) deep(th int, full bool) bool {
	if w.m == nil || w.V != nil {
		return false
	}
	if w.O.Reads && !w.checkReads(th) || w.V != nil {
		return false
	}
	if w.O.Chain && !w.checkChain() || w.V != nil {
		return false
	}
	if w.O.Hist && w.P.Hist && !w.checkHist(full) || w.V != nil {
		return false
	}
	if (w.O.Proofs || w.O.ProofsFull && (full || w.fresh)) && !w.checkProofs(full) || w.V != nil {
		return false
	}
	if w.O.Root && !w.checkRoot() || w.V != nil {
		return false
	}
	if w.O.HashCons && full && !w.checkHashCons() || w.V != nil {
		return false
	}
	w.fresh = false
	return true
}

func (w *World) closeDB() bool {
	w.begin(nil)
	r := w.call(func() { w.m.Close() })
	switch r {
	case rOK:
		w.settleGroup("close")
		if w.V != nil {
			return false
		}
		w.sc.KillGroup(w.g)
		w.m = nil
		return true
	case rPanic:
		w.fail("panic", "close panics: %s [%s]", firstLine(w.g.PanicVal), where(w.g.Stack))
	case rOver:
		w.fail("hang", "close: %s", firstLine(w.sc.Over))
	default:
		w.fail("internal", "close: killed")
	}
	return false
}

// step executes one op of the plan.
func (w *World) step(op *Op) {
	w.op = op
	w.sub = 0
	w.logf("op %d %s", op.N, op.Kind)
	switch op.Kind {
	case "block":
		w.doBlock(op)
		if w.V == nil {
			w.deep(op.Th, false)
		}
	case "reopen":
		if w.closeDB() {
			if w.open(op.RF, op.RKill) && w.resolve("after close and reopen") {
				w.deep(op.Th, true)
			}
		}
	case "kill": // the process dies between blocks
		w.die("kill between blocks")
		w.restart(op, op.Power)
		if w.V == nil {
			w.deep(op.Th, true)
		}
	case "check":
		w.deep(op.Th, true)
	case "prune":
		w.doPrune(op)
		if w.V == nil {
			w.deep(op.Th, false)
		}
	case "corrupt":
		w.doCorrupt(op)
	case "read":
		w.doFaultyRead(op)
	default:
		panic("unknown op " + op.Kind)
	}
}

func (w *World) runOps() {
	for i := range w.P.Ops {
		if w.V != nil || w.m == nil {
			return
		}
		w.step(&w.P.Ops[i])
	}
}

// Result of a run.
type Result struct {
	V     *Violation        `json:"v,omitempty"`
	Known map[string]string `json:"known,omitempty"`
	Stats map[string]int64  `json:"stats"`
	Sig   uint64            `json:"sig"`
	Decs  []simrt.Decision  `json:"-"`
	Log   []string          `json:"-"`
	Final *State            `json:"-"`
	World *World            `json:"-"`
}

func newWorld(p *Plan, st *Stats) *World {
	return &World{P: p, st: st, root: map[int64]string{}, hist: map[string][]HRec{}, pruned: -1, Known: map[string]string{}}
}

const opStepCap = 120_000_000

// runMads executes a plan in the database world.
func runMads(p *Plan, st *Stats) *World {
	t := template(p)
	w := newWorld(p, st)
	w.O = oraclesFor(p.Prop)
	setKnobs(p.Knobs, p.CPUs, p.Mask)
	simfmt.ResetOutput()
	w.fs = t.fs.Clone()
	w.fs.Reseed(p.Seed ^ 0x5bd1e995)
	simfs.Cur = w.fs
	w.cur = t.state
	w.pruned = t.pruned
	for k, v := range t.root {
		w.root[k] = v
	}
	for k, v := range t.hist {
		w.hist[k] = append([]HRec{}, v...)
	}
	w.fs.OnCrash = func(power bool) {
		w.power = power
		simrt.Kill()
	}
	w.fs.KVCompactP = p.KVP
	w.sc = simrt.Run(p.Sched, func(sc *simrt.Sched) {
		w.sc = sc
		sc.StepCap = opStepCap
		w.op = &Op{N: 0}
		if w.open(nil, 0) && w.resolve("initial open") {
			w.runOps()
		}
		if w.g != nil && !w.g.Dead() {
			sc.KillGroup(w.g)
		}
	})
	w.finishStats()
	if w.V == nil && p.Rep != nil && len(w.blocks) > 0 {
		w.runReplica()
	}
	return w
}

func (w *World) finishStats() {
	st := w.st
	st.add("steps", w.sc.TotalSteps())
	st.add("switches", w.sc.Switches)
	st.add("preemptions", w.sc.Preempts)
	for k, v := range w.fs.Fired {
		st.add("fault:"+k, v)
	}
	for k, v := range w.fs.Count {
		if v > 0 {
			st.add("io:"+simfs.Kind(k).String(), v)
		}
	}
}
