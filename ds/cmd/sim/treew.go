package main

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"path/filepath"
	"sort"
	"strings"

	"github.com/smartbch/moeingads/datatree"

	"verif.local/ds/simfmt"
	"verif.local/ds/simfs"
	"verif.local/ds/simrt"
)

// The tree world: one data tree alone, driven as the database drives each of its shards.
//
// Ops: "tblock" (A appends, B deactivations, DH twigs to compact), "recover" (a tree rebuilt by scanning
// from a copy of the disk becomes the twin), "snapshot" (the same through SaveMemToDisk and LoadTree),
// "damage" (A selects: LoadTree from a damaged snapshot), "tprune", "kill". The twin executes every
// later block on its own disk and must stay equal to the live tree.

const treeDir = "/db/t"

type tent struct {
	e   *datatree.Entry
	sns []int64
	pos int64
	act bool
}

func (t *tent) bytes() []byte { return datatree.EntryToBytes(*t.e, t.sns) }

// tmeta is what the database keeps about a tree in its metadata.
type tmeta struct {
	size           [2]int64
	oldest, pruned int64
	maxsn          int64
	edge           []byte
	root           [32]byte
}

type unit struct {
	fs *simfs.FS
	t  *datatree.Tree
}

type tact struct {
	kind byte
	e    *datatree.Entry
	sn   int64
}

type TWorld struct {
	*World
	ents  []tent
	live  []int64 // active serial numbers, unordered
	where map[int64]int
	meta  tmeta
	u     unit
	twin  *unit
	twinK string
	tb    int64           // blocks
	snaps map[string]bool // the snapshots that were completed
	old   []oldProof      // proofs taken earlier
}

func (t *TWorld) setActive(sn int64, on bool) {
	t.ents[sn].act = on
	if on {
		t.where[sn] = len(t.live)
		t.live = append(t.live, sn)
		return
	}
	i, ok := t.where[sn]
	if !ok {
		return
	}
	last := t.live[len(t.live)-1]
	t.live[i] = last
	t.where[last] = i
	t.live = t.live[:len(t.live)-1]
	delete(t.where, sn)
}

// within runs f with the unit's disk as the current one.
func (t *TWorld) within(u *unit, f func()) {
	simfs.Cur = u.fs
	f()
	simfs.Cur = t.fs
}

func (t *TWorld) recoverTree(m *tmeta) (tr *datatree.Tree, root [32]byte) {
	k := t.P.Knobs
	edges := datatree.BytesToEdgeNodes(m.edge)
	return datatree.RecoverTree(int(k["BufferSize"]), int(k["HPFileSize"]), treeDir, "", edges, m.pruned, m.oldest, m.maxsn>>11, []int64{m.size[0], m.size[1]})
}

// delta is the outcome of a block.
type delta struct {
	add  []tent
	off  []int64
	meta tmeta
}

// exec runs a block's actions on a tree. The model is not touched.
func (t *TWorld) exec(u *unit, acts []tact) (d delta, bad string) {
	tr := u.t
	d.meta = t.meta
	sn := t.meta.maxsn
	var pend []int64
	note := func(format string, a ...interface{}) {
		if bad == "" {
			bad = fmt.Sprintf(format, a...)
		}
	}
	dummy := func() {
		e := datatree.DummyEntry(sn)
		tr.DeactiviateEntry(sn)
		pend = append(pend, sn)
		pos := tr.AppendEntry(e)
		d.add = append(d.add, tent{e: e, sns: pend, pos: pos})
		pend = nil
		sn++
	}
	deact := func(s int64) {
		n := tr.DeactiviateEntry(s)
		pend = append(pend, s)
		d.off = append(d.off, s)
		if n != len(pend) {
			note("%d deactivations are pending, the tree says %d", len(pend), n)
		}
		if n > datatree.DeactivedSNListMaxLen {
			dummy()
		}
	}
	for _, a := range acts {
		switch a.kind {
		case 'a':
			e := *a.e
			e.SerialNum = sn
			pos := tr.AppendEntry(&e)
			d.add = append(d.add, tent{e: &e, sns: pend, pos: pos, act: true})
			pend = nil
			sn++
		case 'd':
			deact(a.sn)
		case 'c':
			tw := d.meta.oldest
			off := map[int64]bool{}
			for _, s := range d.off {
				off[s] = true
			}
			want := []int64{}
			for s := tw << 11; s < (tw+1)<<11; s++ {
				if t.ents[s].act && !off[s] {
					want = append(want, s)
				}
			}
			i := 0
			ch := tr.GetActiveEntriesInTwig(tw)
			for {
				bz, ok := simrt.Recv2(ch)
				if !ok {
					break
				}
				s := datatree.ExtractSerialNum(bz)
				if i >= len(want) || want[i] != s {
					note("the active entries of twig %d are not listed in order: entry %d has the serial number %d", tw, i, s)
					break
				}
				old := t.ents[s].e
				i++
				deact(s)
				datatree.UpdateSerialNum(bz, sn)
				if k := datatree.ExtractKeyFromRawBytes(bz); !bytes.Equal(k, old.Key) {
					note("the entry with serial number %d has the key %x, expected %x", s, k, old.Key)
				}
				e := *old
				e.SerialNum = sn
				pos := tr.AppendEntryRawBytes(bz, sn)
				d.add = append(d.add, tent{e: &e, sns: pend, pos: pos, act: true})
				pend = nil
				sn++
			}
			if i != len(want) {
				note("twig %d lists %d active entries of %d", tw, i, len(want))
			}
			tr.EvictTwig(tw)
			d.meta.oldest++
		}
		if bad != "" {
			return
		}
	}
	if n := tr.DeactivedSNListSize(); n != len(pend) {
		note("%d deactivations are pending, the tree says %d", len(pend), n)
	}
	if len(pend) != 0 {
		dummy()
	}
	d.meta.root = tr.EndBlock()
	d.meta.size[0], d.meta.size[1] = tr.GetFileSizes()
	tr.WaitForFlushing()
	d.meta.maxsn = sn
	return
}

func (t *TWorld) apply(d *delta) {
	for i := range d.add {
		x := d.add[i]
		on := x.act
		x.act = false
		t.ents = append(t.ents, x)
		if on {
			t.setActive(x.e.SerialNum, true)
		}
	}
	for _, s := range d.off {
		t.setActive(s, false)
	}
	t.meta = d.meta
	t.tb++
	t.World.root[t.tb] = fmt.Sprintf("%x", t.meta.root)
}

// small makes an entry from a number.
func smallEntry(r *simrt.Rng) *datatree.Entry {
	b := func(n int) []byte {
		x := make([]byte, n)
		y := r.U64()
		for i := range x {
			x[i] = byte(y >> uint(8*(i%8)))
		}
		return x
	}
	e := &datatree.Entry{Key: b(8), Value: b(r.N(12)), NextKey: b(8), Height: int64(r.N(100)), LastHeight: int64(r.N(100)) - 1}
	if r.P(0.02) {
		e.Value = Val{L: r.N(300), S: r.U64(), M: r.N(3)}.Bytes()
	}
	return e
}

func (t *TWorld) plan(op *Op) (acts []tact) {
	r := simrt.NewRng(t.P.Seed*131 + uint64(op.N)*17 + 5)
	na, nd := int(op.A), int(op.B)
	cand := append([]int64{}, t.live...)
	sortInt64(cand)
	low := t.meta.oldest
	for na > 0 || nd > 0 {
		if na > 0 && (nd == 0 || r.N(na+nd) < na) {
			acts = append(acts, tact{kind: 'a', e: smallEntry(&r)})
			na--
			continue
		}
		nd--
		if len(cand) == 0 {
			continue
		}
		i := r.N(len(cand))
		if r.P(0.5) { // mostly the oldest ones
			i = r.N(1 + len(cand)/4)
		}
		acts = append(acts, tact{kind: 'd', sn: cand[i]})
		cand = append(cand[:i], cand[i+1:]...)
	}
	for n := op.DH; n > 0; n-- { // a twig can be compacted if it and the next two are complete
		if (low+2)<<11 > t.meta.maxsn {
			break
		}
		low++
		at := len(acts)
		acts = append(acts[:at:at], append([]tact{{kind: 'c'}}, acts[at:]...)...)
	}
	return
}

func (t *TWorld) doBlock(op *Op) {
	acts := t.plan(op)
	var d delta
	var bad string
	fw0 := t.firedWrites()
	ok, _ := t.attempt(op, "a block", func() { d, bad = t.exec(&t.u, acts) })
	if t.V != nil {
		return
	}
	if bad != "" {
		t.fail("tree", "%s", bad)
		return
	}
	if !ok {
		t.comeBack(op, t.power || op.Power)
		return
	}
	if t.firedWrites() > fw0 {
		t.fail("acknowledged", "a write or sync failed (%v) and the block was reported as done", firedList(t.fs.Fired))
		return
	}
	t.st.add("blocks", 1)
	if op.Die {
		t.twin = nil
	}
	if t.twin != nil {
		var d2 delta
		if !t.quiet("a block in "+t.twinK, func() { t.within(t.twin, func() { d2, bad = t.exec(t.twin, acts) }) }) {
			return
		}
		if bad != "" {
			t.fail("twin", "%s: %s", t.twinK, bad)
			return
		}
		if s := diffDelta(&d, &d2); s != "" {
			t.fail("twin", "after the same block %s differs from the live tree: %s", t.twinK, s)
			return
		}
		t.st.add("blocks on a twin", 1)
	}
	t.apply(&d)
	if op.Die {
		t.comeBack(op, op.Power)
		return
	}
	t.checkAll(op)
}

func diffDelta(a, b *delta) string {
	if a.meta.root != b.meta.root {
		return fmt.Sprintf("root %x, expected %x", b.meta.root, a.meta.root)
	}
	if a.meta.size != b.meta.size {
		return fmt.Sprintf("file sizes %v, expected %v", b.meta.size, a.meta.size)
	}
	for i := range a.add {
		if a.add[i].pos != b.add[i].pos {
			return fmt.Sprintf("entry %d at %d, expected %d", a.add[i].e.SerialNum, b.add[i].pos, a.add[i].pos)
		}
	}
	return ""
}

// comeBack rebuilds the tree after the process died; the last committed state must return.
func (t *TWorld) comeBack(op *Op, power bool) {
	t.reboot(op, power)
	for _, rf := range op.RF {
		ok, _ := t.attempt(&Op{N: op.N, F: rf, Kill: op.RKill}, "recovery", func() { t.recoverTree(&t.meta) })
		if t.V != nil {
			return
		}
		t.reboot(op, !ok && (t.power || power))
	}
	t.reopen()
	if t.V == nil {
		t.checkAll(op)
	}
}

func (t *TWorld) reopen() {
	var root [32]byte
	if !t.quiet("recovery", func() { t.u.t, root = t.recoverTree(&t.meta) }) {
		return
	}
	if root != t.meta.root {
		t.fail("root", "the recovered tree has the root %x, the live one had %x", root, t.meta.root)
	}
}

// check compares a tree with the model.
func (t *TWorld) check(u *unit, r *simrt.Rng, what string) string {
	tr := u.t
	m := &t.meta
	for sn := m.oldest << 11; sn < m.maxsn; sn++ {
		if got := tr.GetActiveBit(sn); got != t.ents[sn].act {
			return fmt.Sprintf("%s: the active flag of %d is %v", what, sn, got)
		}
	}
	samples := 12
	if t.P.Prop == "C05" || t.P.Prop == "C06" {
		samples = 30
	}
	for n := 0; n < samples; n++ {
		lo := m.oldest
		if r.P(0.3) && m.pruned+2 < lo { // twigs that were evicted and not pruned
			lo = m.pruned + 2
			if m.pruned < 0 {
				lo = 0
			}
		}
		sn := lo<<11 + int64(r.N(int(m.maxsn-lo<<11)))
		switch r.N(5) {
		case 0:
			sn = m.maxsn - 1
		case 1:
			if len(t.live) > 0 {
				sn = t.live[r.N(len(t.live))]
			}
		}
		x := &t.ents[sn]
		bz := x.bytes()
		pp := tr.GetProof(sn)
		if pp == nil {
			return fmt.Sprintf("%s: no proof for %d", what, sn)
		}
		if err := pp.Check(false); err != nil {
			return fmt.Sprintf("%s: the proof of %d: %v", what, sn, err)
		}
		p, err := verifyProof(pp.ToBytes())
		if err != nil {
			return fmt.Sprintf("%s: the proof of %d is wrong: %v", what, sn, err)
		}
		if p.sn != sn || p.root != m.root || p.active != x.act || p.leaf != sha256.Sum256(bz) {
			return fmt.Sprintf("%s: the proof of %d shows number %d, root %x, active %v, leaf %x; expected root %x, active %v, leaf %x", what, sn, p.sn, p.root, p.active, p.leaf, m.root, x.act, sha256.Sum256(bz))
		}
		pb, err := tr.GetProofBytesAndCheck(sn, bz)
		if err != nil || !bytes.Equal(pb, pp.ToBytes()) {
			return fmt.Sprintf("%s: GetProofBytesAndCheck(%d): %v", what, sn, err)
		}
		if t.P.Prop == "C06" {
			if s := t.tamper(tr, sn, bz, pb, r); s != "" {
				return what + ": " + s
			}
		}
		if d := diffEntry(tr.ReadEntry(x.pos), x.e); d != "" {
			return fmt.Sprintf("%s: entry %d: %s", what, sn, d)
		}
		if got := tr.ReadEntryBytesForProof(x.pos); !bytes.Equal(got, bz) {
			return fmt.Sprintf("%s: the bytes of entry %d are %s, expected %s", what, sn, short(got), short(bz))
		}
	}
	if m.pruned >= 0 { // what the prune left: the first twig is kept as a whole
		for n := 0; n < 4; n++ {
			x := &t.ents[(m.pruned+1)<<11+int64(r.N(2048))*int64(n&1)]
			if d := diffEntry(tr.ReadEntry(x.pos), x.e); d != "" {
				return fmt.Sprintf("%s: entry %d of the first twig kept: %s", what, x.e.SerialNum, d)
			}
		}
	}
	return ""
}

// tamper asks for what must be refused: the entry sn (bz) has the proof pb.
func (t *TWorld) tamper(tr *datatree.Tree, sn int64, bz, pb []byte, r *simrt.Rng) string {
	if bad, what := alterProof(pb, r); what != "" {
		t.st.add("tampered proofs", 1)
		if libCheck(bad) == nil {
			return fmt.Sprintf("the library accepts the proof of %d with %s", sn, what)
		}
		if pv, err := verifyProof(bad); err == nil && pv.root == t.meta.root {
			return fmt.Sprintf("the proof of %d with %s verifies against the root", sn, what)
		}
	}
	alt := append([]byte{}, bz...)
	what := ""
	switch r.N(4) {
	case 0:
		alt, what = alt[:len(alt)-1-r.N(len(alt)-1)], "cut"
	case 1:
		alt, what = append(alt, byte(r.N(256))), "lengthened"
	case 2: // the bytes of another entry
		x := &t.ents[t.meta.maxsn-1-int64(r.N(int(t.meta.maxsn)))]
		alt, what = x.bytes(), "replaced by another"
	default:
		i := r.N(len(alt))
		alt[i] ^= 1 << uint(r.N(8))
		what = fmt.Sprintf("changed at byte %d", i)
	}
	t.st.add("tampered entries", 1)
	if !bytes.Equal(alt, bz) {
		if _, err := tr.GetProofBytesAndCheck(sn, alt); err == nil {
			return fmt.Sprintf("a proof of %d is given for its entry %s", sn, what)
		}
	}
	for _, n := range []int64{-1 - int64(r.N(5000)), (t.meta.maxsn>>11+1)<<11 + int64(r.N(5000))} {
		if _, err := tr.GetProofBytesAndCheck(n, nil); err == nil {
			return fmt.Sprintf("a proof of %d is given, there are %d entries", n, t.meta.maxsn)
		}
	}
	for _, o := range t.old {
		if o.root == t.meta.root {
			continue
		}
		t.st.add("old proofs replayed", 1)
		fake := append([]byte{}, o.pf...)
		copy(fake[len(fake)-32:], t.meta.root[:])
		if libCheck(fake) == nil {
			return "a proof from an older block verifies against the newer root"
		}
		if _, err := verifyProof(fake); err == nil {
			return "a proof from an older block leads to the newer root"
		}
	}
	if len(t.old) < 12 {
		t.old = append(t.old, oldProof{pf: pb, root: t.meta.root})
	} else if r.P(0.3) {
		t.old[r.N(12)] = oldProof{pf: pb, root: t.meta.root}
	}
	return ""
}

// damageFiles rebuilds the tree from copies of the disk with one damaged file: it is refused, or equal.
func (t *TWorld) damageFiles(op *Op) {
	r := simrt.NewRng(op.Loss.Seed*5 + 3)
	for n := int64(0); n < op.A && t.V == nil; n++ {
		tw := &unit{fs: t.fs.Clone()}
		var files []string
		for _, f := range tw.fs.Files(treeDir) {
			files = append(files, f)
		}
		sort.Strings(files)
		f := files[r.N(len(files))]
		what := damageFile(tw.fs, f, strings.TrimPrefix(f, treeDir+"/"), &r)
		if what == "" {
			continue
		}
		t.st.add("damaged copies", 1)
		tw.fs.Reboot()
		g := t.g
		t.g = t.sc.NewGroup()
		t.begin(nil)
		var root [32]byte
		res := t.call(func() { t.within(tw, func() { tw.t, root = t.recoverTree(&t.meta) }) })
		simfs.Cur = t.fs
		if res != rOver {
			t.sc.Quiesce(t.g)
		}
		switch pan := t.g.Panicked; {
		case res == rOver:
			t.fail("hang", "recovery with %s: %s", what, firstLine(t.sc.Over))
		case res == rPanic || pan || root != t.meta.root:
			t.st.add("damage refused", 1)
		case res == rOK:
			t.st.add("damage harmless", 1)
			bad := ""
			res := t.call(func() { t.within(tw, func() { bad = t.checkDamaged(tw.t, &r) }) })
			simfs.Cur = t.fs
			switch {
			case res == rPanic:
				t.fail("damage", "with %s the tree opens, and reading panics: %s", what, firstLine(t.g.PanicVal))
			case res == rOver:
				t.fail("hang", "reading with %s: %s", what, firstLine(t.sc.Over))
			case bad != "":
				t.fail("damage", "with %s the tree opens, and %s", what, bad)
			}
		}
		if !t.g.Dead() {
			t.sc.KillGroup(t.g)
		}
		t.g = g
	}
}

// checkDamaged compares a tree that accepted damaged files with the model: flags and live entries are the
// same; a proof is refused, or right.
func (t *TWorld) checkDamaged(tr *datatree.Tree, r *simrt.Rng) string {
	m := &t.meta
	for sn := m.oldest << 11; sn < m.maxsn; sn++ {
		if got := tr.GetActiveBit(sn); got != t.ents[sn].act {
			return fmt.Sprintf("the active flag of %d is %v", sn, got)
		}
	}
	for _, sn := range t.live {
		x := &t.ents[sn]
		if d := diffEntry(tr.ReadEntry(x.pos), x.e); d != "" {
			return fmt.Sprintf("entry %d: %s", sn, d)
		}
	}
	lo := m.oldest
	if m.pruned+2 < lo {
		lo = m.pruned + 2
		if m.pruned < 0 {
			lo = 0
		}
	}
	for n := 0; n < 40; n++ {
		sn := lo<<11 + int64(r.N(int(m.maxsn-lo<<11)))
		if n%4 == 0 && len(t.live) > 0 {
			sn = t.live[r.N(len(t.live))]
		}
		x := &t.ents[sn]
		bz := x.bytes()
		var pb []byte
		var err error
		func() {
			defer func() {
				if e := recover(); e != nil {
					if simrt.Dying() {
						panic(e)
					}
					err = fmt.Errorf("%v", e)
				}
			}()
			pb, err = tr.GetProofBytesAndCheck(sn, bz)
		}()
		if err != nil {
			t.st.add("proof requests refused", 1)
			continue
		}
		t.st.add("proofs verified", 1)
		p, err := verifyProof(pb)
		if err != nil || p.sn != sn || p.root != m.root || p.active != x.act || p.leaf != sha256.Sum256(bz) {
			return fmt.Sprintf("a wrong proof is given for %d: %v", sn, err)
		}
	}
	return ""
}

func (t *TWorld) checkAll(op *Op) {
	r := simrt.NewRng(t.P.Seed*7 + uint64(op.N))
	bad := ""
	if !t.quiet("checking the tree", func() { bad = t.check(&t.u, &r, "the tree") }) {
		return
	}
	if bad == "" && t.twin != nil {
		if !t.quiet("checking "+t.twinK, func() { t.within(t.twin, func() { bad = t.check(t.twin, &r, t.twinK) }) }) {
			return
		}
	}
	if bad != "" {
		t.fail("tree", "%s", bad)
	}
}

func (t *TWorld) loadTree() *datatree.Tree {
	k := t.P.Knobs
	return datatree.LoadTree(int(k["BufferSize"]), int(k["HPFileSize"]), treeDir)
}

func (t *TWorld) step(op *Op) {
	t.op, t.World.sub = op, 0
	t.logf("op %d %s", op.N, op.Kind)
	switch op.Kind {
	case "tblock":
		t.doBlock(op)
	case "kill":
		t.die("kill")
		t.comeBack(op, op.Power)
	case "recover":
		tw := &unit{fs: t.fs.Clone()}
		tw.fs.Reboot()
		var root [32]byte
		if !t.quiet("recovery of a copy", func() { t.within(tw, func() { tw.t, root = t.recoverTree(&t.meta) }) }) {
			return
		}
		if root != t.meta.root {
			t.fail("root", "a tree recovered from the files has the root %x, the live one %x", root, t.meta.root)
			return
		}
		t.twin, t.twinK = tw, "the recovered tree"
		t.st.add("trees recovered", 1)
		t.checkAll(op)
	case "snapshot", "damage":
		fw0 := t.firedWrites()
		ok, _ := t.attempt(op, "a snapshot", func() { t.u.t.SaveMemToDisk() })
		if t.V != nil {
			return
		}
		tw := &unit{fs: t.fs.Clone()}
		tw.fs.Reboot()
		if ok {
			t.snaps[snapSum(tw.fs)] = true
		}
		what := ""
		if ok && t.firedWrites() > fw0 {
			what = "a snapshot whose writing failed without an error"
		}
		if !ok {
			what = "a snapshot whose writing was interrupted"
			if op.Power {
				tw.fs.PowerLoss(op.Loss)
				what += " by a power loss"
			}
		} else if op.Kind == "damage" {
			what = "the damaged snapshot (" + t.damageSnapshot(tw.fs, op) + ")"
		}
		if what == "" {
			if !t.quiet("loading a snapshot", func() { t.within(tw, func() { tw.t = t.loadTree() }) }) {
				return
			}
			t.twin, t.twinK = tw, "the tree loaded from a snapshot"
			t.st.add("snapshots loaded", 1)
			t.checkAll(op)
			return
		}
		// refused, or equal to the live tree
		g := t.g
		t.g = t.sc.NewGroup()
		t.begin(nil)
		r := t.call(func() { t.within(tw, func() { tw.t = t.loadTree() }) })
		simfs.Cur = t.fs
		t.sc.Quiesce(t.g)
		pan := t.g.Panicked
		t.st.add("damaged snapshots", 1)
		switch {
		case r == rOver:
			t.fail("hang", "loading %s: %s", what, firstLine(t.sc.Over))
		case r == rPanic || pan:
			t.st.add("damaged snapshots refused", 1)
		case r == rOK:
			rr := simrt.NewRng(op.Loss.Seed)
			bad := ""
			old := t.g
			r := t.call(func() { t.within(tw, func() { bad = t.check(tw, &rr, "a tree") }) })
			simfs.Cur = t.fs
			if r == rPanic {
				bad = "it panics when it is used: " + firstLine(old.PanicVal)
			}
			if bad != "" && !ok && t.snaps[snapSum(tw.fs)] {
				t.st.add("earlier snapshots left in place", 1)
			} else if bad != "" {
				t.fail("snapshot", "%s was accepted: %s", what, bad)
			}
			t.st.add("damaged snapshots equal", 1)
		}
		if !t.g.Dead() {
			t.sc.KillGroup(t.g)
		}
		t.g = g
		if t.V == nil && !ok {
			t.comeBack(op, t.power || op.Power)
		}
	case "tprune":
		start := t.meta.pruned + 1
		max := t.meta.oldest - 1
		if max < start+3 {
			return
		}
		end := start + 3 + op.A*(max-start-2)/1001
		nm := t.meta
		if !t.quiet("reaping nodes", func() { nm.edge = append([]byte{}, t.u.t.ReapNodes(start, end)...) }) {
			return
		}
		nm.pruned = end - 1
		t.meta = nm
		if t.twin != nil {
			var e []byte
			if !t.quiet("a prune of "+t.twinK, func() {
				t.within(t.twin, func() {
					if op.B == 0 {
						e = t.twin.t.ReapNodes(start, end)
						t.twin.t.PruneFiles(end)
					} else {
						e = t.twin.t.PruneTwigs(start, end)
					}
				})
			}) {
				return
			}
			if !bytes.Equal(e, nm.edge) {
				t.fail("twin", "pruning %s gives other edge nodes than pruning the live tree", t.twinK)
				return
			}
		}
		fw0 := t.firedWrites()
		ok, _ := t.attempt(op, "a prune", func() { t.u.t.PruneFiles(end) })
		if t.V != nil {
			return
		}
		if ok && t.firedWrites() > fw0 {
			t.fail("acknowledged", "a write or sync failed (%v) and the prune was reported as done", firedList(t.fs.Fired))
			return
		}
		t.st.add("prunes", 1)
		if !ok {
			t.comeBack(op, t.power || op.Power)
			return
		}
		var on int64
		for _, f := range t.fs.Files(treeDir) {
			if filepath.Dir(f) != treeDir {
				on += min(int64(len(t.fs.Content(f))), t.P.Knobs["HPFileSize"]) // what is longer is repeated in the next file
			}
		}
		if max := t.meta.size[0] - t.ents[end<<11].pos + t.meta.size[1] - (end-2)*datatree.TwigMtSize + 2*t.P.Knobs["HPFileSize"]; on > max {
			t.fail("prune", "the twigs up to %d are pruned, and the files still take %d bytes (at most %d are needed)", end-1, on, max)
			return
		}
		t.checkAll(op)
	case "tdamage":
		t.damageFiles(op)
	default:
		panic("unknown op " + op.Kind)
	}
}

var snapFiles = []string{"twigs.dat", "nodes.dat", "mtree4YT.dat"}

func snapSum(fs *simfs.FS) string {
	h := sha256.New()
	for _, n := range snapFiles {
		c := fs.Content(treeDir + "/" + n)
		fmt.Fprintf(h, "%d ", len(c))
		h.Write(c)
	}
	return string(h.Sum(nil))
}

// damageSnapshot alters the snapshot files of a disk.
func (t *TWorld) damageSnapshot(fs *simfs.FS, op *Op) string {
	r := simrt.NewRng(op.Loss.Seed*3 + 1)
	name := snapFiles[r.N(3)]
	p := treeDir + "/" + name
	c := append([]byte{}, fs.Content(p)...)
	recLen := map[string]int{"twigs.dat": 8 + 8 + 256 + 7*32 + 64 + 4, "nodes.dat": 44, "mtree4YT.dat": 32}[name]
	switch k := r.N(8); {
	case k == 0:
		fs.Drop(p)
		return name + " lost"
	case k == 1:
		fs.SetContent(p, nil)
		return name + " emptied"
	case k <= 3 && len(c) > 0: // cut anywhere
		n := r.N(len(c))
		fs.SetContent(p, c[:n])
		return fmt.Sprintf("%s cut from %d to %d", name, len(c), n)
	case k <= 5 && len(c) > recLen: // cut at a record
		n := len(c)/recLen - r.N(2)*r.N(len(c)/recLen)
		n *= recLen
		if n == len(c) {
			n -= recLen
		}
		fs.SetContent(p, c[:n])
		return fmt.Sprintf("%s cut from %d to %d", name, len(c), n)
	case len(c) > 0:
		i := r.N(len(c))
		c[i] ^= 1 << uint(r.N(8))
		fs.SetContent(p, c)
		return fmt.Sprintf("%s flipped at %d of %d", name, i, len(c))
	}
	return "nothing"
}

// ---- templates ----

type treeTmpl struct {
	fs   *simfs.FS
	ents []tent
	meta tmeta
}

var treeTmpls = map[string]*treeTmpl{}

// buildTree makes the starting tree: n complete twigs of which all but a few are evicted, and extra entries.
func buildTree(p *Plan) *treeTmpl {
	key := fmt.Sprintf("%s|%d|%d", p.Tmpl, p.Knobs["BufferSize"], p.Knobs["HPFileSize"])
	if t := treeTmpls[key]; t != nil {
		return t
	}
	var n, kept int
	fmt.Sscanf(strings.TrimPrefix(p.Tmpl, "TR"), "%d.%d", &n, &kept)
	q := &Plan{Prop: p.Prop, World: "tree", Seed: 1, Knobs: p.Knobs, CPUs: 4, Sched: simrt.Params{Seed: 1, Strategy: "fifo"}}
	var t *TWorld
	w := compWorld(q, &Stats{C: map[string]int64{}}, func(w *World) {
		t = &TWorld{World: w, where: map[int64]int{}, snaps: map[string]bool{}}
		t.meta.pruned = -1
		w.fs.MkdirQuiet(treeDir)
		ok := w.quiet("creation", func() {
			t.u = unit{w.fs, datatree.NewEmptyTree(int(q.Knobs["BufferSize"]), int(q.Knobs["HPFileSize"]), treeDir, "")}
			var d delta
			d.meta = t.meta
			for i := int64(0); i < 2048; i++ { // as the database does
				e := datatree.DummyEntry(i)
				d.add = append(d.add, tent{e: e, pos: t.u.t.AppendEntry(e)})
			}
			d.meta.maxsn = 2048
			d.meta.root = t.u.t.EndBlock()
			t.u.t.WaitForFlushing()
			d.meta.size[0], d.meta.size[1] = t.u.t.GetFileSizes()
			t.apply(&d)
		})
		for b := 1; ok && b < n && w.V == nil; b++ {
			op := &Op{N: b, Kind: "tblock", A: 1600, B: int64(len(t.live)) * 7 / 8}
			w.op = op
			for t.meta.maxsn < int64(b+1)<<11 && w.V == nil {
				op.N += 1000
				if left := int64(b+1)<<11 - t.meta.maxsn; op.A > left {
					op.A, op.B = left, 0
				}
				op.DH = 0
				if int(t.meta.oldest) < b-kept {
					op.DH = 2
				}
				t.doBlock(op)
			}
		}
		w.fs.SyncAll()
	})
	if w.V != nil {
		panic(tmplFailure{w.V})
	}
	x := &treeTmpl{fs: w.fs, ents: t.ents, meta: t.meta}
	treeTmpls[key] = x
	return x
}

func runTree(p *Plan, st *Stats) *World {
	x := buildTree(p)
	return compWorld(p, st, func(w *World) {
		t := &TWorld{World: w, where: map[int64]int{}, snaps: map[string]bool{}}
		on := w.fs.OnCrash
		w.fs = x.fs.Clone()
		w.fs.Fired = map[string]int64{}
		w.fs.OnCrash = on
		w.fs.Reseed(p.Seed ^ 0x5bd1e995)
		simfs.Cur = w.fs
		w.fs.Reboot()
		simfmt.ResetOutput()
		t.u.fs = w.fs
		t.ents = append([]tent{}, x.ents...)
		for sn := range t.ents {
			if t.ents[sn].act {
				t.setActive(int64(sn), true)
			}
		}
		t.meta = x.meta
		t.World.root[0] = fmt.Sprintf("%x", t.meta.root)
		t.reopen()
		for i := range p.Ops {
			if t.V != nil {
				break
			}
			t.step(&p.Ops[i])
		}
	})
}

func init() {
	worlds["tree"] = runTree
	worldGen["C17"] = genTree
	for _, prop := range []string{"C01", "C05", "C06", "C07", "C10"} {
		worldGen[prop] = genTreeOf
	}
}

// genTreeOf makes some runs of a data tree alone for the properties that depend on it.
func genTreeOf(prop string, seed uint64) *Plan {
	r := simrt.NewRng(simrt.Mix(seed, 0x7ee))
	share := map[string]int{"C01": 10, "C05": 6, "C06": 5, "C07": 6, "C10": 4}[prop]
	if r.N(20) >= share {
		return nil
	}
	return genTree(prop, seed)
}

func genTree(prop string, seed uint64) *Plan {
	g := newGen(prop, "tree", seed)
	r := &g.r
	p := g.p
	gm := geoms[r.Pick(0, 1, 2)]
	p.Knobs = map[string]int64{"BufferSize": gm.buf, "HPFileSize": gm.block}
	if r.P(0.3) {
		p.Knobs["PreRead"] = int64(r.Pick(8, 64)) << 10
	}
	tm := []string{"TR1.1", "TR2.1", "TR4.1", "TR7.1", "TR9.3", "TR14.2"}
	p.Tmpl = tm[r.N(len(tm))]
	crash, errs := r.P(0.4), r.P(0.2)
	if prop != "C17" {
		errs = false // C08 has its own
	}
	switch prop {
	case "C06", "C07":
		crash = false
	case "C01":
		crash = true
	case "C08":
		crash, errs = false, true
	}
	for i := r.Range(3, 12); i > 0; i-- {
		op := Op{Loss: g.loss(), Power: r.P(0.5)}
		switch r.N(14) {
		case 0, 1:
			op.Kind = "recover"
		case 2:
			op.Kind = "snapshot"
		case 3, 4:
			op.Kind = "damage"
		case 5, 6:
			op.Kind, op.A, op.B = "tprune", int64(r.N(1001)), int64(r.N(2))
		case 7:
			op.Kind = "kill"
		default:
			op.Kind = "tblock"
			op.A = int64(r.Pick(0, 1, 5, 20, 60, 200, 600, 2048))
			if r.P(0.04) { // several twigs in one block
				op.A = int64(r.Pick(4095, 4097, 4500, 6300))
			}
			op.B = int64(r.Pick(0, 1, 5, 40, 70, 300))
			if r.P(0.4) {
				op.DH = int64(r.Pick(1, 1, 2, 3))
			}
		}
		if op.Kind == "snapshot" || op.Kind == "damage" || prop == "C10" && r.P(0.2) {
			switch prop {
			case "C01", "C05", "C06", "C08":
				op = Op{Loss: op.Loss, Power: op.Power, Kind: "recover"}
			case "C07":
				op = Op{Loss: op.Loss, Kind: "tdamage", A: int64(r.Range(2, 8))}
			case "C10":
				op = Op{Loss: op.Loss, Power: op.Power, Kind: "tprune", A: int64(r.N(1001)), B: int64(r.N(2))}
			}
		}
		switch {
		case op.Kind == "kill" && prop == "C08":
			op.RF = append(op.RF, []simfs.Fault{g.errAt(600, r.P(0.7))})
		case op.Kind == "kill":
			g.reopenTrouble(&op)
		case crash && r.P(0.35) && op.Kind != "recover" && op.Kind != "damage":
			if r.P(0.4) {
				op.Kill = logU(r, 100000)
			} else {
				op.F = append(op.F, g.crashAt(60, op.Power))
			}
			g.reopenTrouble(&op)
		case crash && op.Kind == "tblock" && r.P(0.3):
			op.Die = true
			if r.P(0.5) {
				p.Sched.Strategy = "starve"
			}
		case errs && r.P(0.4) && (op.Kind == "tblock" || op.Kind == "snapshot" || op.Kind == "tprune" && prop == "C08"):
			op.F = append(op.F, g.errAt(60, false))
		}
		g.push(op)
	}
	return p
}
