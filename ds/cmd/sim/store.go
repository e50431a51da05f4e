package main

import (
	"bytes"
	"fmt"
	"sort"

	"github.com/smartbch/moeingads/store"
	"github.com/smartbch/moeingads/store/rabbit"
	stypes "github.com/smartbch/moeingads/store/types"

	"verif.local/ds/simfmt"
	"verif.local/ds/simfs"
	"verif.local/ds/simrt"
)

// The store world: transactions (rabbit or plain) over a trunk over the root store over the
// database, with readers beside them.
//
// Op "sblock": Txs in groups (Tx.G); the transactions of a group run in parallel, then those that are
// not discarded and conflict with none written before are written back one after the other. B readers
// run beside the block. A=0 closes the block with write-back, A=1 discards it, A=2 runs it through
// RootStore.Update without a trunk (plain mode only).

type sver struct {
	h  int64
	m  map[string]string // keys of transactions
	st *State            // short keys in the database
}

type SWorld struct {
	*World
	root  *store.RootStore
	plain bool
	cache int // cacheability of keys: 0 all, 1 none (nil filter), 2 by key
	vers  []sver
	pool  []string
	sb    []sblk // committed blocks' collected changes, for the bulk update into another database
}

type sblk struct {
	h int64
	m map[string]string
}

func cacheFilter(mode int) func(k []byte) bool {
	switch mode {
	case 1:
		return nil
	case 2:
		return func(k []byte) bool { return k[1]&1 == 0 }
	}
	return func(k []byte) bool { return true }
}

func copyMap(m map[string]string) map[string]string {
	n := make(map[string]string, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (s *SWorld) curM() map[string]string { return s.vers[len(s.vers)-1].m }

// txView is what one transaction must see.
type txView struct {
	base map[string]string
	own  map[string]*string
}

func (v *txView) get(k string) (string, bool) {
	if p, ok := v.own[k]; ok {
		if p == nil {
			return "", false
		}
		return *p, true
	}
	x, ok := v.base[k]
	return x, ok
}

func (v *txView) put(m map[string]string) {
	for k, p := range v.own {
		if p == nil {
			delete(m, k)
		} else {
			m[k] = *p
		}
	}
}

// txRes is what a transaction did.
type txRes struct {
	view  *txView
	bad   string
	touch map[string]bool // short keys it looked at
	dirty map[string]bool
	rb    *rabbit.RabbitStore
	ops   []Item
}

func cmpGet(what, k string, got []byte, want string, ok bool) string {
	switch {
	case !ok && got != nil:
		return fmt.Sprintf("%s: key %x reads %s, expected nothing", what, k, short(got))
	case ok && got == nil:
		return fmt.Sprintf("%s: key %x reads nothing, expected %s", what, k, short([]byte(want)))
	case ok && string(got) != want:
		return fmt.Sprintf("%s: key %x reads %s, expected %s", what, k, short(got), short([]byte(want)))
	}
	return ""
}

// runRabbit executes a rabbit transaction up to its end, not its write-back.
func (s *SWorld) runRabbit(tr *store.TrunkStore, tx *Tx, base map[string]string, n int) *txRes {
	res := &txRes{view: &txView{base: base, own: map[string]*string{}}, touch: map[string]bool{}, dirty: map[string]bool{}}
	rb := rabbit.NewRabbitStore(tr)
	for i := range tx.Items {
		it := &tx.Items[i]
		k := string(unhex(it.K))
		// A key that was looked up and not found leaves nothing behind that ScanAllShortKeys could report,
		// so whole keys count as well as short ones.
		res.touch["k"+k] = true
		switch it.A {
		case "set":
			res.dirty["k"+k] = true
			v := it.V.Bytes()
			x := string(v)
			kb := []byte(k)
			rb.Set(kb, v)
			scribble(kb)
			scribble(v)
			res.view.own[k] = &x
		case "del":
			res.dirty["k"+k] = true
			rb.Delete([]byte(k))
			res.view.own[k] = nil
		case "has":
			_, ok := res.view.get(k)
			if got := rb.Has([]byte(k)); got != ok && res.bad == "" {
				res.bad = fmt.Sprintf("transaction %d, step %d: has(%x) is %v, expected %v", n, i, k, got, ok)
			}
		default:
			want, ok := res.view.get(k)
			got := rb.Get([]byte(k))
			if d := cmpGet(fmt.Sprintf("transaction %d, step %d", n, i), k, got, want, ok); d != "" && res.bad == "" {
				res.bad = d
			}
		}
	}
	rb.ScanAllShortKeys(func(key [rabbit.KeySize]byte, dirty bool) bool {
		res.touch[string(key[:])] = true
		if dirty {
			res.dirty[string(key[:])] = true
		}
		return false
	})
	rb.Close()
	res.rb = &rb
	return res
}

// runPlain executes a transaction that uses the trunk directly, up to its end.
func (s *SWorld) runPlain(tr stypes.BaseStoreI, tx *Tx, base map[string]string, n int) *txRes {
	res := &txRes{view: &txView{base: base, own: map[string]*string{}}, touch: map[string]bool{}, dirty: map[string]bool{}}
	tr.RLock()
	for i := range tx.Items {
		it := &tx.Items[i]
		k := string(unhex(it.K))
		switch it.A {
		case "set":
			x := string(it.V.Bytes())
			if x == "" {
				x = "\x00" // an empty value means deletion at this level
			}
			tr.PrepareForUpdate([]byte(k))
			res.view.own[k] = &x
			res.dirty[k] = true
		case "del":
			tr.PrepareForDeletion([]byte(k))
			res.view.own[k] = nil
			res.dirty[k] = true
		default:
			if _, mine := res.view.own[k]; mine {
				continue // its own writes are not in the trunk yet
			}
			want, ok := res.view.get(k)
			got := tr.Get([]byte(k))
			if d := cmpGet(fmt.Sprintf("transaction %d, step %d", n, i), k, got, want, ok); d != "" && res.bad == "" {
				res.bad = d
			}
			scribble(got)
		}
	}
	tr.RUnlock()
	return res
}

func sortedOwn(v *txView) []string {
	ks := make([]string, 0, len(v.own))
	for k := range v.own {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// reader is one reader's observations of one session.
type session struct {
	lo, hi int
	kind   int
	what   string
	short  bool // short keys, directly from the root
	keys   []string
	got    [][]byte
	root   string
	h      int64 // historical height, or 0
	active int
	bad    string // something inside the session itself
}

func (s *SWorld) readSession(r *simrt.Rng, kind int, lo int) *session {
	ss := &session{lo: lo, kind: kind}
	n := 2 + r.N(10)
	yield := func() {
		if r.P(0.5) {
			simrt.Y()
		}
	}
	root := s.root
	switch {
	case kind == 0: // the root itself
		ss.what, ss.short = "root reader", true
		ks := s.shortKeys()
		root.RLock()
		for i := 0; i < n && len(ks) > 0; i++ {
			yield()
			k := ks[r.N(len(ks))]
			ss.keys = append(ss.keys, k)
			ss.take(root.Get([]byte(k)), true)
		}
		ss.root = fmt.Sprintf("%x", root.GetRootHash())
		ss.active = root.ActiveCount()
		root.RUnlock()
	case s.plain || kind == 1 && false:
		tr := root.GetReadOnlyTrunkStore(8).(*store.TrunkStore)
		ss.what = "trunk reader"
		tr.RLock()
		for i := 0; i < n; i++ {
			yield()
			k := s.pool[r.N(len(s.pool))]
			ss.keys = append(ss.keys, k)
			ss.take(tr.Get([]byte(k)), true)
		}
		tr.RUnlock()
		tr.Close(false)
	default:
		var mine [][]byte
		var rb rabbit.RabbitStore
		var base stypes.BaseStoreI = root
		ss.what = "query over the root"
		if kind == 2 {
			base = root.GetReadOnlyTrunkStore(8).(*store.TrunkStore)
			ss.what = "query over a read-only trunk"
		}
		if kind == 3 && s.P.Hist && len(s.vers) > 2 {
			v := s.vers[1+r.N(len(s.vers)-1)]
			ss.h = v.h
			if ss.h < 1 {
				ss.h = 1
			}
			ss.what = fmt.Sprintf("query at height %d", ss.h)
			rb = rabbit.NewReadOnlyRabbitStoreAtHeight(base, uint64(ss.h))
		} else if kind == 4 {
			ss.what = "discarded transaction"
			rb = rabbit.NewRabbitStore(base)
		} else {
			rb = rabbit.NewReadOnlyRabbitStore(base)
		}
		for i := 0; i < n; i++ {
			yield()
			k := s.pool[r.N(len(s.pool))]
			ss.keys = append(ss.keys, k)
			got := rb.Get([]byte(k))
			ss.take(got, false) // these bytes are the query's own until it is closed
			mine = append(mine, got)
		}
		if kind == 4 || r.P(0.4) { // its writes must not reach anybody, but it sees them itself
			own := map[string]string{}
			for i := 1 + r.N(4); i > 0; i-- {
				k := s.pool[r.N(len(s.pool))]
				if len(ss.keys) > 0 && r.P(0.4) {
					k = ss.keys[r.N(len(ss.keys))]
				}
				if r.P(0.5) {
					rb.Delete([]byte(k))
					own[k] = ""
				} else {
					own[k] = fmt.Sprintf("never written back %d", i)
					rb.Set([]byte(k), []byte(own[k]))
				}
			}
			written := make([]string, 0, len(own))
			for k := range own {
				written = append(written, k)
			}
			sort.Strings(written)
			for _, k := range written {
				if d := cmpGet(ss.what+", its own write", k, rb.Get([]byte(k)), own[k], own[k] != ""); d != "" {
					ss.bad = d
				}
			}
			for i, k := range ss.keys {
				if _, mine := own[k]; mine {
					continue
				}
				if d := cmpGet(ss.what+", read before", k, rb.Get([]byte(k)), string(ss.got[i]), ss.got[i] != nil); d != "" {
					ss.bad = d
				}
			}
		}
		if ss.h == 0 && kind != 2 {
			ss.root = fmt.Sprintf("%x", root.GetRootHash())
		}
		rb.Close()
		for _, b := range mine {
			scribble(b)
		}
	}
	return ss
}

// take keeps a copy of what was read, and uses the buffer for something else if it may.
func (ss *session) take(b []byte, free bool) {
	if b == nil {
		ss.got = append(ss.got, nil)
		return
	}
	ss.got = append(ss.got, append([]byte{}, b...))
	if free {
		scribble(b)
	}
}

// shortKeys are keys of the database itself, live now or earlier.
func (s *SWorld) shortKeys() []string {
	ks := s.cur.live()
	if len(ks) > 40 {
		ks = ks[:40]
	}
	return append(ks, s.gone...)
}

// matches compares a session with one version; "" if equal.
func (s *SWorld) matches(ss *session, v *sver) string {
	for i, k := range ss.keys {
		var want string
		var ok bool
		if ss.short {
			if e := v.st.E[k]; e != nil {
				want, ok = string(e.V), true
			}
		} else {
			want, ok = v.m[k]
		}
		if d := cmpGet(ss.what, k, ss.got[i], want, ok); d != "" {
			return d
		}
	}
	if ss.root != "" && s.World.root[v.h] != "" && s.World.root[v.h] != ss.root {
		return fmt.Sprintf("%s: root hash %s, that of height %d is %s", ss.what, ss.root, v.h, s.World.root[v.h])
	}
	if ss.kind == 0 && ss.active != len(v.st.E) {
		return fmt.Sprintf("%s: active count %d, expected %d", ss.what, ss.active, len(v.st.E))
	}
	return ""
}

func (s *SWorld) judge(ss *session) bool {
	if ss.bad != "" {
		s.fail("tx", "%s", ss.bad)
		return false
	}
	if ss.h > 0 {
		var v *sver
		for i := range s.vers {
			if s.vers[i].h <= ss.h {
				v = &s.vers[i]
			}
		}
		if d := s.matches(ss, v); d != "" {
			s.fail("reader", "%s", d)
			return false
		}
		return true
	}
	hi := ss.hi
	if hi >= len(s.vers) {
		hi = len(s.vers) - 1
	}
	var first string
	for i := hi; i >= ss.lo; i-- {
		d := s.matches(ss, &s.vers[i])
		if d == "" {
			return true
		}
		if first == "" {
			first = fmt.Sprintf("height %d: %s", s.vers[i].h, d)
		}
	}
	old := ""
	for i := ss.lo - 1; i >= 0; i-- {
		if s.matches(ss, &s.vers[i]) == "" {
			old = fmt.Sprintf("; it equals the older height %d", s.vers[i].h)
			break
		}
	}
	s.fail("reader", "the reads of a reader equal no single block from height %d to %d (%s)%s", s.vers[ss.lo].h, s.vers[hi].h, first, old)
	return false
}

// runTxs runs the block's transactions over a trunk; trunkM becomes what the trunk must show after them.
func (s *SWorld) runTxs(tr *store.TrunkStore, op *Op, trunkM map[string]string, note func(string)) {
	for a := 0; a < len(op.Txs); {
		b := a
		for b < len(op.Txs) && op.Txs[b].G == op.Txs[a].G {
			b++
		}
		rs := make([]*txRes, b-a)
		base := copyMap(trunkM)
		parallel(b-a, func(i int) {
			if s.plain {
				rs[i] = s.runPlain(tr, &op.Txs[a+i], base, a+i)
			} else {
				rs[i] = s.runRabbit(tr, &op.Txs[a+i], base, a+i)
			}
		})
		dirty := map[string]bool{}
		for i, r := range rs {
			if r.bad != "" {
				note(r.bad)
			}
			if op.Txs[a+i].Discard {
				continue
			}
			clash := false
			for k := range r.touch {
				if dirty[k] {
					clash = true
				}
			}
			if s.plain {
				for k := range r.dirty {
					if dirty[k] {
						clash = true
					}
				}
			}
			if clash {
				s.st.add("transactions in conflict", 1)
				continue
			}
			for k := range r.dirty {
				dirty[k] = true
			}
			if s.plain {
				r := r
				tr.Update(func(db stypes.SetDeleter) {
					for _, k := range sortedOwn(r.view) {
						kb := []byte(k)
						if p := r.view.own[k]; p == nil {
							db.Delete(kb)
						} else {
							v := []byte(*p)
							db.Set(kb, v)
							scribble(v)
						}
						scribble(kb)
					}
				})
			} else {
				r.rb.WriteBack()
			}
			r.view.put(trunkM)
			s.st.add("transactions written back", 1)
		}
		a = b
	}
}

func (s *SWorld) doStoreBlock(op *Op) {
	dh := op.DH
	if dh < 1 {
		dh = 1
	}
	h := s.cur.Height + dh
	if h < 1 {
		h = 1
	}
	var collected map[string]string
	var closed bool
	var bad string
	trunkM := copyMap(s.curM())
	var sessions []*session
	nvers := len(s.vers) // versions committed so far; one more once the block is closed
	committed := nvers
	s.begin(nil)
	s.power = false
	if op.Kill > 0 {
		s.sc.Trap(op.Kill, func() { simrt.Kill() })
	}
	f0 := s.fired()
	note := func(d string) {
		if bad == "" {
			bad = d
		}
	}
	res := s.call(func() {
		var wg simWG
		stop := false
		for i := int64(0); i < op.B; i++ {
			i := i
			wg.Add(1)
			simrt.Go(func() {
				defer wg.Done()
				r := simrt.NewRng(s.P.Seed*41 + uint64(op.N)*1031 + uint64(i)*77)
				for n := 0; n < 1+r.N(6); n++ {
					ss := s.readSession(&r, r.N(5), committed-1)
					ss.hi = committed // the block being closed counts
					sessions = append(sessions, ss)
					if stop && r.P(0.7) {
						break
					}
				}
			})
		}
		s.root.SetHeight(h)
		if op.A == 2 {
			v := s.runPlain(s.root, &op.Txs[0], s.curM(), 0)
			note(v.bad)
			collected = map[string]string{}
			for k, p := range v.view.own {
				if p == nil {
					collected[k] = ""
				} else {
					collected[k] = *p
				}
			}
			v.view.put(trunkM)
			ks := sortedOwn(v.view)
			// some keys are written more than once in the block: set, or deleted, and then set or deleted again
			rr := simrt.NewRng(s.P.Seed*59 + uint64(op.N)*4099)
			twice := map[string]int{}
			s.root.RLock()
			for _, k := range ks {
				if x := rr.F(); x < 0.15 {
					twice[k] = 2
					s.root.PrepareForDeletion([]byte(k))
					s.st.add("keys written twice in a block", 1)
				} else if x < 0.4 {
					twice[k] = 1
					s.root.PrepareForUpdate([]byte(k))
					s.st.add("keys written twice in a block", 1)
				}
			}
			s.root.RUnlock()
			s.root.Update(func(db stypes.SetDeleter) {
				for _, k := range ks {
					switch twice[k] {
					case 1:
						db.Set([]byte(k), []byte("overwritten"))
					case 2:
						db.Delete([]byte(k))
					}
					if p := v.view.own[k]; p == nil {
						db.Delete([]byte(k))
					} else {
						db.Set([]byte(k), []byte(*p))
					}
				}
			})
			closed = true
			committed = nvers + 1
		} else {
			tr := s.root.GetTrunkStore(16).(*store.TrunkStore)
			s.runTxs(tr, op, trunkM, note)
			collected = copyMap(tr.GetCacheContent())
			tr.Close(op.A == 0)
			closed = op.A == 0
			if closed {
				committed = nvers + 1
			}
		}
		stop = true
		wg.Wait()
	})
	steps := s.sc.Step()
	s.sc.Trap(-1, nil)
	s.st.add("blocks", 1)
	if bad != "" {
		s.fail("tx", "at height %d: %s", h, bad)
		return
	}
	var next *State
	var blkItems []Item
	if collected != nil && op.A != 1 {
		ks := make([]string, 0, len(collected))
		for k := range collected {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		ch := map[string]change{}
		for _, k := range ks {
			v := collected[k]
			if v == "" {
				ch[k] = change{del: true}
				blkItems = append(blkItems, Item{A: "del", K: hexs(k)})
			} else {
				ch[k] = change{v: []byte(v)}
				blkItems = append(blkItems, Item{A: "set", K: hexs(k), raw: []byte(v)})
			}
		}
		next = s.cur.apply(h, ch)
	}
	b := blk{H: h, Items: blkItems}
	commit := func() {
		for k := range s.cur.E {
			if next.E[k] == nil && len(s.gone) < 20 {
				s.gone = append(s.gone, k)
			}
		}
		sort.Strings(s.gone)
		s.vers = append(s.vers, sver{h: h, m: trunkM, st: next})
		s.sb = append(s.sb, sblk{h, collected})
	}
	switch res {
	case rOK:
		s.st.add("block steps", steps)
		s.st.add("reader sessions", int64(len(sessions)))
		s.settleGroup("a block")
		if s.V != nil {
			return
		}
		if closed {
			commit()
			s.commit(next, b)
			if !s.quiet("root", func() { s.setRoot(h) }) {
				return
			}
		}
		for _, ss := range sessions {
			if !s.judge(ss) {
				return
			}
		}
		s.checkContent()
	case rKilled:
		s.st.add("killed in block", 1)
		if next != nil {
			s.after, s.afterB = next, &b
		}
		s.restart(op, op.Power)
		if s.V != nil {
			return
		}
		if s.cur == next && next != nil {
			commit()
		}
		s.checkContent()
	case rPanic:
		if s.fired() == f0 {
			s.fail("panic", "block %d panics: %s [%s]", h, firstLine(s.g.PanicVal), where(s.g.Stack))
		}
	case rOver:
		s.fail("hang", "block %d: %s", h, firstLine(s.sc.Over))
	}
}

// checkContent reads every key through a fresh query object, and through the root.
func (s *SWorld) checkContent() bool {
	var bad string
	m := s.curM()
	if !s.quiet("reading back", func() {
		if s.plain {
			s.root.RLock()
			defer s.root.RUnlock()
			for _, k := range s.pool {
				want, ok := m[k]
				if d := cmpGet("root", k, s.root.Get([]byte(k)), want, ok); d != "" {
					bad = d
					return
				}
			}
			return
		}
		rb := rabbit.NewReadOnlyRabbitStore(s.root)
		defer rb.Close()
		for _, k := range s.pool {
			want, ok := m[k]
			d := cmpGet("query", k, rb.Get([]byte(k)), want, ok)
			if d == "" && rb.Has([]byte(k)) != ok {
				d = fmt.Sprintf("query: has(%x) is %v", k, !ok)
			}
			if d != "" {
				bad = d
				return
			}
		}
	}) {
		return false
	}
	if bad != "" {
		s.fail("content", "after height %d: %s", s.cur.Height, bad)
		return false
	}
	// the root store, its cache included, agrees with the database
	if !s.quiet("reading the root store", func() {
		s.root.RLock()
		defer s.root.RUnlock()
		for _, k := range s.shortKeys() {
			var want []byte
			if e := s.cur.E[k]; e != nil {
				want = e.V
			}
			if got := s.root.Get([]byte(k)); (got == nil) != (want == nil) || !bytes.Equal(got, want) {
				bad = fmt.Sprintf("the root store reads %s for %x, expected %s", short(got), k, short(want))
				return
			}
		}
	}) {
		return false
	}
	if bad != "" {
		s.fail("content", "after height %d: %s", s.cur.Height, bad)
		return false
	}
	return s.V == nil && s.checkReads(1) && s.V == nil && (s.P.Prop != "C13" || s.checkChain())
}

func (s *SWorld) stepStore(op *Op) {
	s.op = op
	s.sub = 0
	s.logf("op %d %s", op.N, op.Kind)
	switch op.Kind {
	case "sblock":
		s.doStoreBlock(op)
	case "reopen":
		if s.closeDB() && s.open(nil, 0) && s.resolve("after close and reopen") {
			s.checkContent()
		}
	case "kill":
		s.die("kill between blocks")
		s.restart(op, op.Power)
		if s.V == nil {
			s.checkContent()
		}
	default:
		panic("unknown op " + op.Kind)
	}
}

// setPool collects the keys of the plan.
func (s *SWorld) setPool(p *Plan) {
	pm := map[string]bool{}
	for _, op := range p.Ops {
		for _, tx := range op.Txs {
			for _, it := range tx.Items {
				pm[string(unhex(it.K))] = true
			}
		}
	}
	for k := range pm {
		s.pool = append(s.pool, k)
	}
	sort.Strings(s.pool)
	if len(s.pool) == 0 {
		s.pool = []string{"nothing."}
	}
}

func runStore(p *Plan, st *Stats) *World {
	t := template(p)
	s := &SWorld{World: newWorld(p, st)}
	s.plain = p.Mode&1 != 0
	s.cache = p.Mode >> 1
	s.setPool(p)
	setKnobs(p.Knobs, p.CPUs, p.Mask)
	simfmt.ResetOutput()
	s.fs = t.fs.Clone()
	s.fs.Reseed(p.Seed ^ 0x5bd1e995)
	simfs.Cur = s.fs
	s.cur = t.state
	for k, v := range t.root {
		s.World.root[k] = v
	}
	for k, v := range t.hist {
		s.hist[k] = append([]HRec{}, v...)
	}
	s.vers = []sver{{h: s.cur.Height, m: map[string]string{}, st: s.cur}}
	if s.plain {
		for _, k := range s.pool {
			if e := s.cur.E[k]; e != nil {
				s.vers[0].m[k] = string(e.V)
			}
		}
	}
	s.fs.OnCrash = func(power bool) {
		s.power = power
		simrt.Kill()
	}
	s.fs.KVCompactP = p.KVP
	s.onOpen = func() { s.root = store.NewRootStore(s.m, cacheFilter(s.cache)) }
	s.sc = simrt.Run(p.Sched, func(sc *simrt.Sched) {
		s.sc = sc
		sc.StepCap = opStepCap
		s.World.op = &Op{N: 0}
		if s.open(nil, 0) && s.resolve("initial open") {
			for i := range p.Ops {
				if s.V != nil || s.m == nil {
					break
				}
				s.stepStore(&p.Ops[i])
			}
		}
		if s.g != nil && !s.g.Dead() {
			sc.KillGroup(s.g)
		}
	})
	s.finishStats()
	if s.V == nil && p.Rep != nil && len(s.sb) > 0 {
		s.bulkReplica(t)
	}
	return s.World
}

// bulkReplica applies the collected changes to another database through SyncUpdateTo.
func (s *SWorld) bulkReplica(t *Template) {
	rep := s.P.Rep
	rp := &Plan{Prop: s.P.Prop, World: "store", Seed: s.P.Seed ^ 0xabcdef, Knobs: s.P.Knobs, CPUs: rep.CPUs, Hist: s.P.Hist, Tmpl: s.P.Tmpl, Sched: rep.Sched}
	x := newWorld(rp, s.st)
	setKnobs(rp.Knobs, rp.CPUs, 0)
	simfmt.ResetOutput()
	x.fs = t.fs.Clone()
	simfs.Cur = x.fs
	x.cur = t.state
	var root *store.RootStore
	x.onOpen = func() { root = store.NewRootStore(x.m, cacheFilter(0)) }
	r := simrt.NewRng(rp.Seed)
	x.sc = simrt.Run(rp.Sched, func(sc *simrt.Sched) {
		x.sc = sc
		sc.StepCap = opStepCap
		x.op = &Op{N: 0}
		if !x.open(nil, 0) {
			return
		}
		for i, b := range s.sb {
			x.op = &Op{N: 10000 + i}
			x.sub = 0
			if !x.quiet(fmt.Sprintf("bulk update %d", b.h), func() {
				root.SetHeight(b.h)
				store.SyncUpdateTo(b.m, root)
			}) {
				break
			}
			x.settleGroup("a bulk update")
			if x.V != nil {
				break
			}
			x.cur = s.vers[i+1].st
			var got string
			if !x.quiet("root", func() { got = fmt.Sprintf("%x", root.GetRootHash()) }) {
				break
			}
			s.st.add("bulk updates compared", 1)
			if got != s.World.root[b.h] {
				x.fail("bulk", "height %d: root %s after the block, %s after the bulk update", b.h, s.World.root[b.h], got)
				break
			}
			if !x.checkReads(1) {
				break
			}
			if r.P(0.2) && (!x.closeDB() || !x.open(nil, 0)) {
				break
			}
		}
		if x.g != nil && !x.g.Dead() {
			sc.KillGroup(x.g)
		}
	})
	x.finishStats()
	s.V = x.V
	if s.V != nil {
		s.V.Msg = "in the second database: " + s.V.Msg
	}
}

func init() {
	worlds["store"] = runStore
	worldGen["C12"] = genStore
}

var masks = []uint64{
	0x00_00_00_00_00_00_00_e0 | 0x0c<<56, 0x03<<56 | 0x20, 0x7f << 56, 0x18<<56 | 0x03<<48 | 0xc0, 0xff, 0x70<<56 | 0xe0, 0,
}

func genStore(prop string, seed uint64) *Plan {
	g := newGen(prop, "store", seed)
	r := &g.r
	p := g.p
	p.Tmpl = "T0"
	if r.P(0.25) {
		p.Tmpl = "T1." + string(rune('0'+r.N(6)))
	}
	p.Hist = r.P(0.35)
	if p.Sched.Strategy == "fifo" && r.P(0.7) {
		p.Sched.Strategy, p.Sched.PSync, p.Sched.PYield = "random", 0.2, 0.002
	}
	p.Knobs["StartReap"] = 1 << 40
	if r.P(0.2) {
		p.Knobs["StartReap"], p.Knobs["MinKept"] = 2, 2
	}
	p.Knobs["RootCache"] = int64(r.Pick(1, 2, 5, 1000))
	if r.P(0.5) {
		p.Knobs["EvictDist"] = int64(r.Pick(1, 2, 16))
	}
	mode := r.Pick(0, 0, 0, 1, 2)
	plain := r.P(0.25)
	p.Mode = mode << 1
	if plain {
		p.Mode |= 1
	}
	var pool []string
	n := r.Pick(3, 6, 12, 25)
	bits := 64
	if plain {
		g.addKeys(n)
		for _, k := range g.pool { // keys as the transaction layers make them
			b := []byte(k)
			b[0] = b[0]%128 + 64
			pool = append(pool, string(b))
		}
	} else {
		if r.P(0.75) {
			p.Mask = masks[r.N(len(masks)-1)]
			bits = 0
			for x := p.Mask; x != 0; x &= x - 1 {
				bits++
			}
			// byte 0 is folded to seven bits
			if p.Mask>>63 != 0 {
				bits--
			}
			// a dense domain makes long jumps; a jump longer than the limit stays out of reach
			if max := (1 << uint(bits)) / 2; n > max || bits <= 6 && r.P(0.6) {
				n = max
			}
			if n < 2 {
				n = 2
			}
		}
		for i := 0; i < n; i++ {
			k := make([]byte, r.Pick(0, 1, 5, 8, 8, 20, 32, 40))
			x := r.U64()
			for j := range k {
				k[j] = byte(x >> uint(8*(j%8)))
			}
			if len(k) > 1 {
				k[0] = byte(i)
			}
			pool = append(pool, string(k))
		}
	}
	nb := r.Range(2, 6)
	if prop == "C12" {
		nb = r.Range(2, 5)
	}
	crash := r.P(0.15)
	for i := 0; i < nb; i++ {
		if r.P(0.12) {
			if r.P(0.5) {
				g.push(Op{Kind: "reopen"})
			} else {
				g.push(Op{Kind: "kill", Power: r.P(0.5), Loss: g.loss()})
			}
		}
		op := Op{Kind: "sblock", DH: 1}
		if r.P(0.1) {
			op.DH = int64(2 + r.N(4))
		}
		switch {
		case plain && r.P(0.3):
			op.A = 2
		case r.P(0.12):
			op.A = 1
		}
		if prop == "C12" || r.P(0.2) {
			op.B = int64(r.Pick(1, 2, 4))
		}
		if crash && r.P(0.5) {
			op.Kill = logU(r, 80000)
			op.Power, op.Loss = r.P(0.5), g.loss()
		}
		ntx := r.Pick(1, 2, 4, 6, 10)
		if op.A == 2 {
			ntx = 1
		}
		grp := 0
		for t := 0; t < ntx; t++ {
			tx := Tx{Discard: r.P(0.15), G: grp}
			used := map[string]bool{}
			for j := 1 + r.N(12); j > 0; j-- {
				k := pool[r.N(len(pool))]
				it := Item{K: hexs(k)}
				switch r.N(10) {
				case 0, 1:
					it.A = "get"
				case 2:
					it.A = "has"
				case 3, 4, 5:
					it.A = "del"
				default:
					it.A = "set"
					it.V = g.val()
					if it.V.L > 3000 {
						it.V.L = 3000
					}
				}
				if plain && (it.A == "set" || it.A == "del") {
					if used[k] {
						continue
					}
					used[k] = true
				}
				tx.Items = append(tx.Items, it)
			}
			op.Txs = append(op.Txs, tx)
			if r.P(0.5) {
				grp++
			}
		}
		g.push(op)
	}
	if prop == "C13" && r.P(0.6) {
		p.Rep = &Replica{CPUs: r.Pick(1, 2, 4, 8), Sched: genSched(r, r.U64())}
	}
	return p
}
