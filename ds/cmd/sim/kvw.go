package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"sort"

	"github.com/smartbch/moeingads/indextree"
	"github.com/smartbch/moeingads/metadb"
	"github.com/smartbch/moeingads/types"

	"verif.local/ds/simfs"
	"verif.local/ds/simrt"
)

// The kv world: the key-value store with the index and the metadata above it, driven in blocks as the
// database does, beside readers.
//
// Ops: "kblock" (A index operations, B metadata calls per shard, Th readers), "kread" (Th readers),
// "kraw" (writes past the block's batch), "kprune" (A per mille of the height), "rebuild" (a second
// index from the records), "kill".
// Mode: bits 0-2 the index key domain, bit 3 records that exclude rebuilding, bit 4 an index without log,
// bit 5 the in-memory stand-in for the index beside it.

type ver struct {
	h   int64
	pos int64
	del bool
}

type metaState struct {
	height, prune          int64
	lastPruned, maxSN, old [types.ShardCount]int64
	root                   [types.ShardCount][32]byte
	entrySize, twigSize    [types.ShardCount]int64
	edge                   [types.ShardCount]string
	hasEdge                [types.ShardCount]bool
	twigH                  map[[2]int64]int64
}

// kstate is the committed contents.
type kstate struct {
	live map[uint64]int64
	vers map[uint64][]ver
	raw  map[string]string
	meta metaState
}

func (s *kstate) clone() *kstate {
	n := &kstate{live: map[uint64]int64{}, vers: map[uint64][]ver{}, raw: map[string]string{}, meta: s.meta}
	for k, v := range s.live {
		n.live[k] = v
	}
	for k, v := range s.vers {
		n.vers[k] = v[:len(v):len(v)]
	}
	for k, v := range s.raw {
		n.raw[k] = v
	}
	n.meta.twigH = map[[2]int64]int64{}
	for k, v := range s.meta.twigH {
		n.meta.twigH[k] = v
	}
	return n
}

func (s *kstate) keys() []uint64 {
	r := make([]uint64, 0, len(s.live))
	for k := range s.live {
		r = append(r, k)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

func (s *kstate) rawKeys() []string {
	r := make([]string, 0, len(s.raw))
	for k := range s.raw {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

type KWorld struct {
	*World
	noLog   bool
	db      *indextree.RocksDB
	idx     *indextree.NVTreeMem
	mock    *indextree.MockIndexTree // the stand-in for the index, beside it (nil: not in this run)
	meta    *metadb.MetaDB
	cur     *kstate
	since   []*kstate // states since the last durable one; [0] is durable
	pruneP  int64     // history below may be gone
	pool    []uint64
	rpool   []string
	closing int // 0 building, 1 closing the batch, 2 closed
}

func be8(x uint64) []byte {
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], x)
	return b[:]
}

func (k *KWorld) makePools() {
	r := simrt.NewRng(k.P.Seed*77 + 1)
	n := r.Pick(4, 12, 40, 120)
	seen := map[uint64]bool{}
	c := r.U64()
	dom := k.P.Mode & 7
	for i := 0; i < n*3 && len(k.pool) < n; i++ {
		var x uint64
		switch dom {
		case 0: // dense
			x = c + uint64(r.N(n+3))
		case 1: // one key per slot, equal low bits
			x = uint64(r.N(n+3))<<48*uint64(1+c%3) | c&(1<<48-1)
		case 2:
			x = r.U64()
		case 3: // edges of slots
			x = uint64(r.N(4))<<48 + uint64(r.N(3)) - 1
			if r.P(0.2) {
				x = ^uint64(0) - uint64(r.N(3))
			}
		case 4: // a few slots, a few low bits
			x = uint64(r.N(6))<<uint(48+r.N(13)) | uint64(r.N(8))<<uint(r.N(40))
		case 5: // first bytes of all index channels
			x = uint64(r.N(256))<<56 | uint64(r.N(3))
		default:
			x = c&^0xffffff | uint64(r.N(5))<<20 | uint64(r.N(20))
		}
		if !seen[x] {
			seen[x] = true
			k.pool = append(k.pool, x)
		}
	}
	rs := map[string]bool{}
	for i := 0; i < 40; i++ {
		var s []byte
		first := byte(r.Pick(1, 1, 2, 5, 0x20, 0x21, 0x80, 0xff))
		switch r.N(5) {
		case 0:
			s = []byte{first}
		case 1: // looks like a record of history
			s = append([]byte{first}, append(be8(uint64(r.N(4))), be8(uint64(r.N(30)))...)...)
		case 2:
			s = append([]byte{first, byte(r.N(3))}, be8(uint64(r.N(5)))...)
		case 3:
			s = []byte{first, byte(r.N(3)), byte(r.N(3)), 0}[:2+r.N(3)]
		default:
			s = []byte{first, byte(r.N(256)), byte(r.N(256))}
		}
		if k.P.Mode&8 != 0 && r.P(0.25) {
			s = make([]byte, 1+r.N(6))
			s[len(s)-1] = byte(r.N(3))
		}
		if !rs[string(s)] {
			rs[string(s)] = true
			k.rpool = append(k.rpool, string(s))
		}
	}
}

// internal tells the records that the index and the metadata keep, whose format is theirs.
func internal(key []byte) bool {
	return len(key) > 0 && (key[0] == 0 && len(key) > 8 || key[0] >= 0x10 && key[0] <= 0x1f)
}

func (k *KWorld) open() {
	db, err := indextree.NewRocksDB("k", "/db")
	if err != nil {
		panic(err)
	}
	k.db = db.(*indextree.RocksDB)
	k.meta = metadb.NewMetaDB(k.db)
	k.meta.ReloadFromKVDB()
	if h := k.meta.GetPruneHeight(); h > 0 {
		k.db.SetPruneHeight(uint64(h))
	}
	if k.noLog {
		k.idx = indextree.NewNVTreeMem(nil)
	} else {
		k.idx = indextree.NewNVTreeMem(k.db)
		if k.P.Mode&8 == 0 {
			_ = k.idx.Init(nil)
		}
	}
}

// canRebuild: the log of the index is complete enough.
func (k *KWorld) canRebuild() bool { return !k.noLog && k.P.Mode&8 == 0 }

func le8(x int64) []byte {
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], uint64(x))
	return b[:]
}

// checkMeta compares the metadata in memory and in the store with a state.
func (k *KWorld) checkMeta(m *metaState, db *metadb.MetaDB) string {
	if g := db.GetCurrHeight(); g != m.height {
		return fmt.Sprintf("the height is %d, expected %d", g, m.height)
	}
	if g := db.GetPruneHeight(); g != m.prune {
		return fmt.Sprintf("the prune height is %d, expected %d", g, m.prune)
	}
	for i := 0; i < types.ShardCount; i++ {
		if s := k.checkStored(m, db, i); s != "" {
			return s
		}
		if g := db.GetLastPrunedTwig(i); g != m.lastPruned[i] {
			return fmt.Sprintf("shard %d: the last pruned twig is %d, expected %d", i, g, m.lastPruned[i])
		}
		if g := db.GetMaxSerialNum(i); g != m.maxSN[i] {
			return fmt.Sprintf("shard %d: the serial number is %d, expected %d", i, g, m.maxSN[i])
		}
		if g := db.GetYoungestTwigID(i); g != m.maxSN[i]>>11 {
			return fmt.Sprintf("shard %d: the youngest twig is %d, expected %d", i, g, m.maxSN[i]>>11)
		}
		if g := db.GetOldestActiveTwigID(i); g != m.old[i] {
			return fmt.Sprintf("shard %d: the oldest active twig is %d, expected %d", i, g, m.old[i])
		}
		if g := db.GetRootHash(i); g != m.root[i] {
			return fmt.Sprintf("shard %d: the root is %x, expected %x", i, g, m.root[i])
		}
	}
	return ""
}

// checkStored compares what the metadata store reads from the key-value store each time.
func (k *KWorld) checkStored(m *metaState, db *metadb.MetaDB, i int) string {
	if g := db.GetEntryFileSize(i); g != m.entrySize[i] {
		return fmt.Sprintf("shard %d: the entry file size is %d, expected %d", i, g, m.entrySize[i])
	}
	if g := db.GetTwigMtFileSize(i); g != m.twigSize[i] {
		return fmt.Sprintf("shard %d: the twig file size is %d, expected %d", i, g, m.twigSize[i])
	}
	if g := db.GetEdgeNodes(i); string(g) != m.edge[i] || m.hasEdge[i] != (g != nil) {
		return fmt.Sprintf("shard %d: the edge nodes are %x, expected %x (present: %v)", i, g, m.edge[i], m.hasEdge[i])
	}
	for t := int64(0); t <= m.maxSN[i]>>11+1; t++ {
		want, ok := m.twigH[[2]int64{int64(i), t}]
		if !ok {
			want = -1
		}
		if g := db.GetTwigHeight(i, t); g != want {
			return fmt.Sprintf("shard %d: the height of twig %d is %d, expected %d", i, t, g, want)
		}
	}
	return ""
}

// newest tells whether the last version of a key may have been pruned from the log.
func (k *KWorld) mayBePruned(v []ver) bool { return len(v) > 0 && v[len(v)-1].h < k.pruneP }

// anIndex is the real index or its stand-in.
type anIndex interface {
	Get(k []byte) (int64, bool)
	ActiveCount() int
	Iterator(start, end []byte) indextree.Iterator
	ReverseIterator(start, end []byte) indextree.Iterator
}

// remock fills a new stand-in.
func (k *KWorld) remock() {
	if k.P.Mode&32 == 0 {
		return
	}
	k.mock = indextree.NewMockIndexTree()
	if k.cur != nil {
		k.mock.BeginWrite(0)
		for _, x := range k.cur.keys() {
			k.mock.Set(be8(x), k.cur.live[x])
		}
		k.mock.EndWrite()
	}
}

// checkIndex compares an index with a state. rebuilt: it comes from the log, which may have been pruned.
func (k *KWorld) checkIndex(s *kstate, idx anIndex, rebuilt bool) string {
	pruned := false
	for _, x := range k.pool {
		if rebuilt && k.mayBePruned(s.vers[x]) {
			pruned = true
			continue
		}
		want, ok := s.live[x]
		if g, gok := idx.Get(be8(x)); gok != ok || ok && g != want {
			return fmt.Sprintf("the index has %d,%v for %016x, expected %d,%v", g, gok, x, want, ok)
		}
	}
	if pruned {
		return ""
	}
	if g := idx.ActiveCount(); g != len(s.live) {
		return fmt.Sprintf("the index counts %d keys, there are %d", g, len(s.live))
	}
	keys := s.keys()
	for dir := 0; dir < 2; dir++ {
		if d := walkIndex(idx, s, keys, 0, ^uint64(0), dir == 1, nil); d != "" {
			return d
		}
	}
	return ""
}

// walkIndex iterates over a range and compares it with the sorted keys. pause is called between steps.
func walkIndex(idx anIndex, s *kstate, keys []uint64, lo, hi uint64, back bool, pause func(int)) string {
	var want []uint64
	for _, x := range keys {
		if x >= lo && x < hi {
			want = append(want, x)
		}
	}
	var it indextree.Iterator
	if back {
		for i, j := 0, len(want)-1; i < j; i, j = i+1, j-1 {
			want[i], want[j] = want[j], want[i]
		}
		it = idx.ReverseIterator(be8(lo), be8(hi))
	} else {
		it = idx.Iterator(be8(lo), be8(hi))
	}
	defer it.Close()
	what := func() string { return fmt.Sprintf("iteration [%016x,%016x) back=%v", lo, hi, back) }
	if a, b := it.Domain(); !bytes.Equal(a, be8(lo)) || !bytes.Equal(b, be8(hi)) {
		return fmt.Sprintf("%s: the domain is [%x,%x)", what(), a, b)
	}
	for i, x := range want {
		if !it.Valid() {
			return fmt.Sprintf("%s ends after %d keys of %d; the next is %016x", what(), i, len(want), x)
		}
		if g := binary.BigEndian.Uint64(it.Key()); g != x {
			return fmt.Sprintf("%s: key %d is %016x, expected %016x", what(), i, g, x)
		}
		if it.Value() != s.live[x] {
			return fmt.Sprintf("%s: the position of %016x is %d, expected %d", what(), x, it.Value(), s.live[x])
		}
		if pause != nil {
			pause(i)
		}
		it.Next()
	}
	for i := 0; i < 2; i++ {
		if it.Valid() {
			return fmt.Sprintf("%s gives %016x after the last key", what(), binary.BigEndian.Uint64(it.Key()))
		}
		it.Next()
	}
	return ""
}

// checkHistory asks for the position of a key at a height.
func (k *KWorld) checkHistory(s *kstate, x uint64, h, pruneP int64) string {
	if k.noLog || h < 0 || k.P.Mode&8 != 0 {
		return ""
	}
	g, gok := k.idx.GetAtHeight(be8(x), uint64(h))
	var v *ver
	vs := s.vers[x]
	for i := range vs {
		if vs[i].h <= h {
			v = &vs[i]
		}
	}
	switch {
	case pruneP > 0 && h <= pruneP:
		if gok {
			return fmt.Sprintf("key %016x at height %d, pruned up to %d, is found at %d", x, h, pruneP, g)
		}
	case v == nil || v.del && v.h >= k.pruneP:
		if gok {
			return fmt.Sprintf("key %016x at height %d is found at %d, expected nothing", x, h, g)
		}
	case v.h >= k.pruneP && (!gok || g != v.pos):
		return fmt.Sprintf("key %016x at height %d is at %d,%v, expected %d", x, h, g, gok, v.pos)
	}
	return ""
}

// walkKV iterates over the store and returns the records which are not internal.
func (k *KWorld) walkKV(lo, hi []byte, back bool) (got []string, bad string) {
	var it types.Iterator
	if back {
		it = k.db.ReverseIterator(lo, hi)
	} else {
		it = k.db.Iterator(lo, hi)
	}
	defer it.Close()
	what := func() string { return fmt.Sprintf("key-value iteration [%x,%x) back=%v", lo, hi, back) }
	var last []byte
	for ; it.Valid(); it.Next() {
		key, v := it.Key(), it.Value()
		if bytes.Compare(key, lo) < 0 || hi != nil && bytes.Compare(key, hi) >= 0 {
			return nil, fmt.Sprintf("%s gives %x", what(), key)
		}
		if last != nil && (bytes.Compare(last, key) >= 0) != back || bytes.Equal(last, key) {
			return nil, fmt.Sprintf("%s gives %x after %x", what(), key, last)
		}
		last = key
		if !internal(key) {
			got = append(got, string(key)+"="+string(v))
		}
	}
	if it.Valid() {
		return nil, what() + " goes on after its end"
	}
	return
}

func (s *kstate) rawRange(lo, hi []byte, back bool) (want []string) {
	for _, x := range s.rawKeys() {
		if x >= string(lo) && (hi == nil || x < string(hi)) {
			want = append(want, x+"="+s.raw[x])
		}
	}
	if back {
		for i, j := 0, len(want)-1; i < j; i, j = i+1, j-1 {
			want[i], want[j] = want[j], want[i]
		}
	}
	return
}

func sameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (k *KWorld) bounds(r *simrt.Rng) (lo, hi []byte) {
	one := func() []byte {
		switch r.N(8) {
		case 0:
			return nil
		case 1:
			return []byte{}
		case 2:
			return []byte{byte(r.N(256))}
		case 3:
			return []byte(k.rpool[r.N(len(k.rpool))] + "\x00")
		case 4:
			b := []byte(k.rpool[r.N(len(k.rpool))])
			return b[:r.N(len(b)+1)]
		}
		return []byte(k.rpool[r.N(len(k.rpool))])
	}
	lo, hi = one(), one()
	if hi != nil && bytes.Compare(lo, hi) > 0 && r.P(0.7) {
		lo, hi = hi, lo
	}
	return
}

func (k *KWorld) u64bounds(r *simrt.Rng) (lo, hi uint64) {
	one := func() uint64 {
		x := k.pool[r.N(len(k.pool))]
		switch r.N(9) {
		case 0:
			return 0
		case 1:
			return ^uint64(0)
		case 2:
			return x + 1
		case 3:
			return x - 1
		case 4:
			return x &^ (1<<48 - 1)
		case 5:
			return x + 1<<48
		case 6:
			return r.U64()
		}
		return x
	}
	lo, hi = one(), one()
	if lo > hi && r.P(0.8) {
		lo, hi = hi, lo
	}
	return
}

// reader makes n reads outside a write phase.
func (k *KWorld) reader(seed uint64, n int) (bad string) {
	r := simrt.NewRng(seed)
	s := k.cur
	keys := s.keys()
	for ; n > 0 && bad == ""; n-- {
		switch r.N(9) {
		case 0, 1:
			x := k.pool[r.N(len(k.pool))]
			if r.P(0.2) {
				x++
			}
			want, ok := s.live[x]
			if g, gok := k.idx.Get(be8(x)); gok != ok || ok && g != want {
				bad = fmt.Sprintf("the index has %d,%v for %016x, expected %d,%v", g, gok, x, want, ok)
			}
		case 2, 3, 4:
			lo, hi := k.u64bounds(&r)
			bad = walkIndex(k.idx, s, keys, lo, hi, r.P(0.5), nil)
		case 5:
			if g := k.idx.ActiveCount(); g != len(s.live) {
				bad = fmt.Sprintf("the index counts %d keys, there are %d", g, len(s.live))
			}
		case 6:
			h := s.meta.height - int64(r.N(12))
			bad = k.checkHistory(s, k.pool[r.N(len(k.pool))], h, s.meta.prune)
		default:
			bad = k.readKV(&r, []*kstate{s}, nil)
		}
	}
	return
}

// readKV makes one read of the store; it must agree with one of the states. pick narrows them down.
func (k *KWorld) readKV(r *simrt.Rng, ss []*kstate, pick func(ok []bool) string) string {
	ok := make([]bool, len(ss))
	bad := ""
	switch r.N(4) {
	case 0, 1:
		key := k.rpool[r.N(len(k.rpool))]
		g := k.db.Get([]byte(key))
		for i, s := range ss {
			want, in := s.raw[key]
			ok[i] = in == (g != nil) && want == string(g)
		}
		bad = fmt.Sprintf("key %x has the value %x (present: %v)", key, g, g != nil)
		if r.P(0.2) && len(ss) == 1 {
			_, in := ss[0].raw[key]
			if k.db.Has([]byte(key)) != in {
				return fmt.Sprintf("Has(%x) is not %v", key, in)
			}
		}
	case 2:
		lo, hi := k.bounds(r)
		back := r.P(0.5)
		got, d := k.walkKV(lo, hi, back)
		if d != "" {
			return d
		}
		for i, s := range ss {
			ok[i] = sameStrings(got, s.rawRange(lo, hi, back))
		}
		bad = fmt.Sprintf("key-value iteration [%x,%x) back=%v gives %d records: %x; expected %x", lo, hi, back, len(got), got, ss[0].rawRange(lo, hi, back))
	default:
		if len(ss) > 1 {
			i := r.N(types.ShardCount)
			g := [2]int64{k.meta.GetEntryFileSize(i), -1}
			for j, s := range ss {
				ok[j] = s.meta.entrySize[i] == g[0]
			}
			bad = fmt.Sprintf("shard %d: the entry file size is %d", i, g[0])
			break
		}
		return k.checkStored(&ss[0].meta, k.meta, r.N(types.ShardCount))
	}
	for _, x := range ok {
		if x {
			if pick != nil {
				if d := pick(ok); d != "" {
					return bad + ": " + d
				}
			}
			return ""
		}
	}
	return bad
}

// blockPlan is what one block does.
type idxOp struct {
	key uint64
	pos int64
	del bool
}
type rawOp struct {
	key, val string
	del      bool
}
type blockPlan struct {
	idx  [types.IndexChanCount][]idxOp
	raw  []rawOp
	meta [types.ShardCount][]int // kinds of calls, then parameters
	next *kstate
	h    int64
}

func (k *KWorld) rawOps(r *simrt.Rng, n int, s *kstate) (ops []rawOp) {
	for ; n > 0; n-- {
		o := rawOp{key: k.rpool[r.N(len(k.rpool))], del: r.P(0.3)}
		if !o.del {
			b := make([]byte, r.Pick(0, 1, 8, 8, 30))
			for i := range b {
				b[i] = byte(r.N(256))
			}
			o.val = string(b)
			s.raw[o.key] = o.val
		} else {
			delete(s.raw, o.key)
		}
		ops = append(ops, o)
	}
	return
}

func (k *KWorld) planBlock(op *Op) *blockPlan {
	r := simrt.NewRng(k.P.Seed*1299709 + uint64(op.N)*31 + 7)
	b := &blockPlan{next: k.cur.clone()}
	s := b.next
	b.h = k.cur.meta.height + 1 + op.DH
	for n := op.A; n > 0; n-- {
		x := k.pool[r.N(len(k.pool))]
		o := idxOp{key: x, pos: int64(r.U64() & (1<<46 - 8))}
		if r.P(0.05) { // the first entry of a shard, or one shortly after it
			o.pos = int64(r.Pick(0, 0, 8, 120))
		}
		_, in := s.live[x]
		o.del = in && r.P(0.4)
		if o.del {
			delete(s.live, x)
		} else {
			s.live[x] = o.pos
		}
		vs := s.vers[x]
		if len(vs) > 0 && vs[len(vs)-1].h == b.h {
			vs = vs[: len(vs)-1 : len(vs)-1]
		}
		s.vers[x] = append(vs, ver{b.h, o.pos, o.del})
		c := types.GetIndexChanID(byte(x >> 56))
		b.idx[c] = append(b.idx[c], o)
	}
	b.raw = k.rawOps(&r, int(op.A)/2+r.N(3), s)
	m := &s.meta
	m.height = b.h
	for i := range b.meta {
		for n := op.B; n > 0; n-- {
			kind := r.N(9)
			v := r.N(1 << 30)
			b.meta[i] = append(b.meta[i], kind, v)
			switch kind {
			case 0:
				m.entrySize[i] = int64(v)
			case 1:
				m.twigSize[i] = int64(v)
			case 2, 3:
				for c := incr(v); c > 0; c-- {
					m.maxSN[i]++
					if m.maxSN[i]%2048 == 0 {
						m.twigH[[2]int64{int64(i), m.maxSN[i] / 2048}] = b.h
					}
				}
			case 4:
				m.lastPruned[i] = int64(v % 50)
			case 5:
				m.edge[i], m.hasEdge[i] = string(edgeBytes(v)), true
			case 6:
				m.old[i]++
			case 7:
				m.root[i] = rootOf(v)
			case 8:
				delete(m.twigH, [2]int64{int64(i), int64(v % 4)})
			}
		}
	}
	return b
}

func incr(v int) int {
	switch v % 6 {
	case 0:
		return 2048
	case 1:
		return 2047
	case 2:
		return 700
	}
	return v % 5
}
func edgeBytes(v int) []byte { return bytes.Repeat(be8(uint64(v)), v%12*5) }
func rootOf(v int) (h [32]byte) {
	copy(h[:], bytes.Repeat(be8(uint64(v)*0x9e3779b97f4a7c15), 4))
	return
}

func (k *KWorld) runMeta(i int, ops []int) {
	for j := 0; j < len(ops); j += 2 {
		v := ops[j+1]
		switch ops[j] {
		case 0:
			k.meta.SetEntryFileSize(i, int64(v))
		case 1:
			k.meta.SetTwigMtFileSize(i, int64(v))
		case 2, 3:
			for c := incr(v); c > 0; c-- {
				k.meta.IncrMaxSerialNum(i)
			}
		case 4:
			k.meta.SetLastPrunedTwig(i, int64(v%50))
		case 5:
			k.meta.SetEdgeNodes(i, edgeBytes(v))
		case 6:
			k.meta.IncrOldestActiveTwigID(i)
		case 7:
			k.meta.SetRootHash(i, rootOf(v))
		case 8:
			k.meta.DeleteTwigHeight(i, int64(v%4))
		}
	}
}

func (k *KWorld) putRaw(o rawOp) {
	k.db.LockBatch()
	if o.del {
		k.db.CurrBatch().Delete([]byte(o.key))
	} else {
		k.db.CurrBatch().Set([]byte(o.key), []byte(o.val))
	}
	k.db.UnlockBatch()
}

func (k *KWorld) doBlock(op *Op) {
	b := k.planBlock(op)
	bads := make([]string, op.Th+1)
	fw0 := k.firedWrites()
	k.closing = 0
	ss := []*kstate{k.cur, b.next}
	p0 := k.cur.meta.prune
	ok, faulted := k.attempt(op, "a block", func() {
		var readers, opened simWG
		done := false
		for t := 1; t <= op.Th; t++ {
			t := t
			readers.Add(1)
			opened.Add(1)
			simrt.Go(func() {
				defer readers.Done()
				r := simrt.NewRng(k.P.Seed*53 + uint64(op.N)*7 + uint64(t))
				first := true
				open := func() {
					if first {
						first = false
						opened.Done()
					}
				}
				if t == 1 && len(k.cur.live) > 0 { // an iterator that is open when the write phase wants to begin
					bads[t] = walkIndex(k.idx, k.cur, k.cur.keys(), 0, ^uint64(0), r.P(0.5), func(int) { open() })
				}
				open()
				seen := 0 // the new state was seen
				for n := 0; n < 12 && !done && bads[t] == ""; n++ {
					c0 := k.closing
					if r.P(0.25) {
						h := k.cur.meta.height - int64(r.N(8))
						bads[t] = k.checkHistory(k.cur, k.pool[r.N(len(k.pool))], h, p0)
						continue
					}
					bads[t] = k.readKV(&r, ss, func(ok []bool) string {
						if k.closing == 0 && !ok[0] {
							return "visible before the batch was closed"
						}
						if (c0 == 2 || seen == 1) && !ok[1] {
							return "the closed batch is not visible"
						}
						if !ok[0] {
							seen = 1
						}
						return ""
					})
				}
			})
		}
		opened.Wait()
		k.db.OpenNewBatch()
		k.idx.BeginWrite(b.h)
		k.meta.SetCurrHeight(b.h)
		var jobs []func()
		for c := range b.idx {
			ops := b.idx[c]
			if len(ops) > 0 {
				jobs = append(jobs, func() {
					for _, o := range ops {
						if o.del {
							k.idx.Delete(be8(o.key))
						} else {
							k.idx.Set(be8(o.key), o.pos)
						}
						switch {
						case k.mock == nil:
						case o.del:
							k.mock.Delete(be8(o.key))
						default:
							k.mock.Set(be8(o.key), o.pos)
						}
					}
				})
			}
		}
		for i := range b.meta {
			i := i
			if len(b.meta[i]) > 0 {
				jobs = append(jobs, func() { k.runMeta(i, b.meta[i]) })
			}
		}
		jobs = append(jobs, func() {
			for _, o := range b.raw {
				k.putRaw(o)
			}
		})
		parallel(len(jobs), func(i int) { jobs[i]() })
		k.idx.EndWrite()
		k.meta.Commit()
		for i := 0; i < 3 && bads[0] == ""; i++ { // nothing is visible yet
			r := simrt.NewRng(uint64(op.N*3 + i))
			bads[0] = k.readKV(&r, ss[:1], nil)
		}
		k.closing = 1
		k.db.CloseOldBatch()
		k.closing = 2
		readers.Wait()
		done = true
	})
	k.finish(op, ok, faulted, fw0, bads, b.next, true)
	if k.V == nil && ok {
		k.st.add("blocks", 1)
		k.checkLive()
	}
}

// finish decides what an operation left behind.
func (k *KWorld) finish(op *Op, ok, faulted bool, fw0 int64, bads []string, next *kstate, sync bool) {
	for _, d := range bads {
		if d != "" && k.V == nil && (!faulted || ok) {
			k.fail("content", "%s", d)
		}
	}
	if k.V != nil {
		return
	}
	if ok {
		if next != nil {
			if k.firedWrites() > fw0 {
				k.fail("acknowledged", "a write or sync failed (%v) and the operation was reported as done", firedList(k.fs.Fired))
				return
			}
			k.cur = next
			if sync {
				k.since = nil
			}
			k.since = append(k.since, next)
		}
		return
	}
	power := k.power || op.Power
	cands := []*kstate{k.cur}
	if power {
		cands = append([]*kstate{}, k.since...)
	}
	if next != nil {
		cands = append(cands, next)
	}
	k.comeBack(op, power, cands)
}

func (k *KWorld) comeBack(op *Op, power bool, cands []*kstate) {
	k.reboot(op, power)
	for _, rf := range op.RF {
		ok, _ := k.attempt(&Op{N: op.N, F: rf, Kill: op.RKill}, "reopening", func() { k.open() })
		if k.V != nil {
			return
		}
		again := !ok && (k.power || power)
		if again { // the writes that were not synced may be lost as well
			cands = append(append([]*kstate{}, k.since...), cands...)
		}
		k.reboot(op, again)
	}
	if !k.quiet("reopening", func() { k.open() }) {
		return
	}
	why := ""
	for i := len(cands) - 1; i >= 0; i-- {
		s := cands[i]
		d := ""
		if !k.quiet("reading everything", func() { d = k.checkState(s) }) {
			return
		}
		if d == "" {
			k.cur, k.since = s, []*kstate{s}
			k.relive()
			k.quiet("filling the stand-in index", k.remock)
			return
		}
		why += "; " + d
	}
	k.fail("recovery", "after the restart the contents are none of the %d possible ones%s", len(cands), why)
}

// relive fills an index that cannot be rebuilt from the log, as the database does from its entries.
func (k *KWorld) relive() {
	rebuilt := k.canRebuild()
	for _, v := range k.cur.vers {
		if k.mayBePruned(v) {
			rebuilt = false
		}
	}
	if rebuilt {
		return
	}
	k.quiet("filling the index", func() {
		if k.noLog {
			k.idx = indextree.NewNVTreeMem(nil)
		} else {
			k.idx = indextree.NewNVTreeMem(k.db)
		}
		k.idx.SetDuringInit(true)
		k.idx.BeginWrite(0)
		for _, x := range k.cur.keys() {
			k.idx.Set(be8(x), k.cur.live[x])
		}
		k.idx.EndWrite()
		k.idx.SetDuringInit(false)
	})
}

// checkState compares everything that was reloaded with a state.
func (k *KWorld) checkState(s *kstate) string {
	if d := k.checkMeta(&s.meta, k.meta); d != "" {
		return d
	}
	for dir := 0; dir < 2; dir++ {
		got, d := k.walkKV(nil, nil, dir == 1)
		if d != "" {
			return d
		}
		if want := s.rawRange(nil, nil, dir == 1); !sameStrings(got, want) {
			return fmt.Sprintf("the store holds the records %x, expected %x", got, want)
		}
	}
	if k.canRebuild() {
		if d := k.checkIndex(s, k.idx, true); d != "" {
			return d
		}
	}
	return ""
}

func (k *KWorld) checkLive() {
	bad := ""
	r := simrt.NewRng(k.P.Seed + uint64(k.sub)*13)
	if !k.quiet("reading everything", func() {
		if bad = k.checkMeta(&k.cur.meta, k.meta); bad != "" {
			return
		}
		m := metadb.NewMetaDB(k.db)
		m.ReloadFromKVDB()
		if bad = k.checkMeta(&k.cur.meta, m); bad != "" {
			bad = "reloaded: " + bad
			return
		}
		if bad = k.checkIndex(k.cur, k.idx, false); bad != "" {
			return
		}
		if k.mock != nil {
			if bad = k.checkIndex(k.cur, k.mock, false); bad == "" {
				keys := k.cur.keys()
				for i := 0; i < 3 && bad == ""; i++ {
					lo, hi := k.u64bounds(&r)
					bad = walkIndex(k.mock, k.cur, keys, lo, hi, r.P(0.5), nil)
				}
			}
			if bad != "" {
				bad = "the stand-in index: " + bad
				return
			}
		}
		bad = k.reader(r.U64(), 6)
	}) {
		return
	}
	if bad != "" {
		k.fail("content", "%s", bad)
	}
}

func (k *KWorld) step(op *Op) {
	k.op, k.World.sub = op, 0
	k.logf("op %d %s", op.N, op.Kind)
	fw0 := k.firedWrites()
	switch op.Kind {
	case "kblock":
		k.doBlock(op)
	case "kill":
		k.die("kill")
		c := []*kstate{k.cur}
		if op.Power {
			c = k.since
		}
		k.comeBack(op, op.Power, c)
	case "kread":
		bads := make([]string, op.Th+1)
		ok, faulted := k.attempt(op, "reading", func() {
			parallel(op.Th, func(i int) {
				bads[i] = k.reader(k.P.Seed*41+uint64(op.N)*5+uint64(i), 4+int(op.B))
			})
		})
		k.finish(op, ok, faulted, fw0, bads, nil, false)
		k.st.add("reads", int64(op.Th*(4+int(op.B))))
	case "kraw":
		r := simrt.NewRng(k.P.Seed*3 + uint64(op.N))
		next := k.cur.clone()
		n := 1
		kind := r.N(4)
		if kind >= 2 {
			n = int(op.A)
		}
		ops := k.rawOps(&r, n, next)
		sync := kind&1 == 1
		bad := ""
		ok, faulted := k.attempt(op, "a direct write", func() {
			switch {
			case kind >= 2:
				b := k.db.NewBatch()
				for _, o := range ops {
					if o.del {
						b.Delete([]byte(o.key))
					} else {
						b.Set([]byte(o.key), []byte(o.val))
					}
				}
				rr := simrt.NewRng(uint64(op.N))
				bad = k.readKV(&rr, []*kstate{k.cur}, nil)
				if sync {
					b.WriteSync()
				} else {
					b.Write()
				}
				b.Close()
			case ops[0].del && sync:
				k.db.DeleteSync([]byte(ops[0].key))
			case ops[0].del:
				k.db.Delete([]byte(ops[0].key))
			case sync:
				k.db.SetSync([]byte(ops[0].key), []byte(ops[0].val))
			default:
				k.db.Set([]byte(ops[0].key), []byte(ops[0].val))
			}
		})
		k.finish(op, ok, faulted, fw0, []string{bad}, next, sync)
		if k.V == nil && ok {
			k.checkLive()
		}
	case "kprune":
		h := op.A * k.cur.meta.height / 1000
		if h <= 0 {
			return
		}
		next := k.cur.clone()
		if next.meta.prune < h {
			next.meta.prune = h
		}
		p0 := k.pruneP
		if k.pruneP < h {
			k.pruneP = h
		}
		ok, faulted := k.attempt(op, "a prune", func() {
			k.db.OpenNewBatch()
			k.meta.SetPruneHeight(h)
			k.meta.Commit()
			k.db.CloseOldBatch()
			k.db.SetPruneHeight(uint64(h))
		})
		k.finish(op, ok, faulted, fw0, nil, next, true)
		if k.cur != next {
			k.pruneP = p0
		}
		if k.V == nil && ok {
			k.st.add("prunes", 1)
			k.checkLive()
		}
	case "rebuild":
		if !k.canRebuild() {
			return
		}
		bad := ""
		ok, faulted := k.attempt(op, "rebuilding the index", func() {
			x := indextree.NewNVTreeMem(k.db)
			n := 0
			_ = x.Init(func([]byte) { n++ })
			bad = k.checkIndex(k.cur, x, true)
			x.Close()
		})
		k.finish(op, ok, faulted, fw0, []string{bad}, nil, false)
		k.st.add("rebuilds", 1)
	default:
		panic("unknown op " + op.Kind)
	}
}

func runKV(p *Plan, st *Stats) *World {
	return compWorld(p, st, func(w *World) {
		k := &KWorld{World: w, noLog: p.Mode&16 != 0}
		k.makePools()
		s := &kstate{live: map[uint64]int64{}, vers: map[uint64][]ver{}, raw: map[string]string{}}
		s.meta.twigH = map[[2]int64]int64{}
		for i := range s.meta.lastPruned {
			s.meta.lastPruned[i] = -1
		}
		k.cur, k.since = s, []*kstate{s}
		if !w.quiet("creation", func() {
			k.open()
			k.db.OpenNewBatch()
			k.meta.Init()
			k.db.CloseOldBatch()
			k.remock()
		}) {
			return
		}
		for i := range p.Ops {
			if w.V != nil {
				break
			}
			k.step(&p.Ops[i])
		}
		if w.V == nil {
			k.checkLive()
		}
	})
}

func init() {
	worlds["kv"] = runKV
	worldGen["C16"] = genKV
	worldGen["C18"] = genKV
}

func genKV(prop string, seed uint64) *Plan {
	g := newGen(prop, "kv", seed)
	r := &g.r
	p := g.p
	p.Mode = r.N(7)
	if prop == "C16" {
		if r.P(0.1) {
			p.Mode |= 16
		}
		if r.P(0.3) {
			p.Mode |= 32
		}
	} else if r.P(0.4) {
		p.Mode |= 8
	}
	p.KVP = 0
	if r.P(0.6) {
		p.KVP = []float64{0.01, 0.1, 0.5}[r.N(3)]
	}
	crash, errs, prune := r.P(0.5), r.P(0.3), r.P(0.4)
	wIdx, wMeta := 30, 3
	if prop == "C18" {
		wIdx, wMeta = 8, 6
	}
	for i := r.Range(3, 25); i > 0; i-- {
		op := Op{Loss: g.loss(), Power: r.P(0.5), Th: r.N(4)}
		switch c := r.N(20); {
		case c < 3:
			op.Kind, op.Th, op.B = "kread", 1+r.N(3), int64(r.N(12))
		case c < 5 && prop == "C16" || c < 4:
			op.Kind = "rebuild"
		case c < 8 && prop == "C18":
			op.Kind, op.A = "kraw", int64(1+r.N(6))
		case c < 10 && prune:
			op.Kind, op.A = "kprune", int64(r.N(1001))
		case c < 12 && crash:
			op.Kind = "kill"
		default:
			op.Kind = "kblock"
			op.A, op.B = int64(r.N(r.Pick(1, 4, wIdx, 3*wIdx))), int64(r.N(wMeta))
			if r.P(0.2) {
				op.DH = int64(r.N(9))
			}
		}
		switch {
		case op.Kind == "kill":
			g.reopenTrouble(&op)
		case crash && r.P(0.3):
			if r.P(0.4) {
				op.Kill = logU(r, 20000)
			} else {
				f := g.crashAt(60, op.Power)
				if r.P(0.7) {
					f.Kind = int([]simfs.Kind{simfs.KKVWrite, simfs.KKVSync, simfs.KKVPut, simfs.KKVGet, simfs.KKVIter}[r.N(5)])
					f.At = 1
				}
				op.F = append(op.F, f)
			}
			g.reopenTrouble(&op)
		case errs && r.P(0.4):
			f := g.errAt(60, r.P(0.5))
			if r.P(0.6) {
				f.Kind = int([]simfs.Kind{simfs.KKVWrite, simfs.KKVSync, simfs.KKVPut, simfs.KKVGet, simfs.KKVIter}[r.N(5)])
				f.At = logU(r, 8)
			}
			op.F = append(op.F, f)
		}
		g.push(op)
	}
	return p
}
