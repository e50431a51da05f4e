package simfs

import (
	"bytes"

	"verif.local/ds/simrt"
)

// tree is a persistent treap: an update copies one path, so every version stays readable.
type tree struct {
	l, r *tree
	k, v []byte
	p    uint64
	n    int
}

func size(t *tree) int {
	if t == nil {
		return 0
	}
	return t.n
}

func mk(k, v []byte, p uint64, l, r *tree) *tree {
	return &tree{l, r, k, v, p, size(l) + size(r) + 1}
}

func prio(k []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, c := range k {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return simrt.Mix(h, 12345)
}

func (t *tree) get(k []byte) ([]byte, bool) {
	for t != nil {
		switch c := bytes.Compare(k, t.k); {
		case c == 0:
			return t.v, true
		case c < 0:
			t = t.l
		default:
			t = t.r
		}
	}
	return nil, false
}

func split(t *tree, k []byte) (l, r *tree) { // l: < k, r: > k ; k itself dropped
	if t == nil {
		return nil, nil
	}
	switch c := bytes.Compare(t.k, k); {
	case c == 0:
		return t.l, t.r
	case c < 0:
		a, b := split(t.r, k)
		return mk(t.k, t.v, t.p, t.l, a), b
	default:
		a, b := split(t.l, k)
		return a, mk(t.k, t.v, t.p, b, t.r)
	}
}

func merge(a, b *tree) *tree {
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	if a.p > b.p {
		return mk(a.k, a.v, a.p, a.l, merge(a.r, b))
	}
	return mk(b.k, b.v, b.p, merge(a, b.l), b.r)
}

func put1(t *tree, k, v []byte, p uint64) *tree {
	if t == nil {
		return mk(k, v, p, nil, nil)
	}
	c := bytes.Compare(k, t.k)
	if c == 0 {
		return mk(k, v, p, t.l, t.r)
	}
	if p > t.p {
		l, r := split(t, k)
		return mk(k, v, p, l, r)
	}
	if c < 0 {
		return mk(t.k, t.v, t.p, put1(t.l, k, v, p), t.r)
	}
	return mk(t.k, t.v, t.p, t.l, put1(t.r, k, v, p))
}

func (t *tree) set(k, v []byte) *tree {
	return put1(t, append([]byte{}, k...), append([]byte{}, v...), prio(k))
}

func (t *tree) del(k []byte) *tree {
	if _, ok := t.get(k); !ok {
		return t
	}
	l, r := split(t, k)
	return merge(l, r)
}

// Snap is an immutable version of a store.
type Snap struct{ t *tree }

func (s Snap) Get(k []byte) ([]byte, bool) { return s.t.get(k) }
func (s Snap) Len() int                    { return size(s.t) }

// GE is the first record with key >= k (k nil: the first).
func (s Snap) GE(k []byte) (rk, rv []byte, ok bool) {
	t := s.t
	for t != nil {
		if k == nil || bytes.Compare(t.k, k) >= 0 {
			rk, rv, ok = t.k, t.v, true
			t = t.l
		} else {
			t = t.r
		}
	}
	return
}

// GT is the first record with key > k.
func (s Snap) GT(k []byte) (rk, rv []byte, ok bool) {
	t := s.t
	for t != nil {
		if bytes.Compare(t.k, k) > 0 {
			rk, rv, ok = t.k, t.v, true
			t = t.l
		} else {
			t = t.r
		}
	}
	return
}

// LT is the last record with key < k (k nil: the last).
func (s Snap) LT(k []byte) (rk, rv []byte, ok bool) {
	t := s.t
	for t != nil {
		if k == nil || bytes.Compare(t.k, k) < 0 {
			rk, rv, ok = t.k, t.v, true
			t = t.r
		} else {
			t = t.l
		}
	}
	return
}

// LE is the last record with key <= k.
func (s Snap) LE(k []byte) (rk, rv []byte, ok bool) {
	t := s.t
	for t != nil {
		if bytes.Compare(t.k, k) <= 0 {
			rk, rv, ok = t.k, t.v, true
			t = t.r
		} else {
			t = t.l
		}
	}
	return
}

// At is the i-th record in key order.
func (s Snap) At(i int) (k, v []byte) {
	t := s.t
	for t != nil {
		n := size(t.l)
		switch {
		case i == n:
			return t.k, t.v
		case i < n:
			t = t.l
		default:
			i -= n + 1
			t = t.r
		}
	}
	return nil, nil
}

// Each visits all records in order.
func (s Snap) Each(f func(k, v []byte)) {
	var rec func(t *tree)
	rec = func(t *tree) {
		if t != nil {
			rec(t.l)
			f(t.k, t.v)
			rec(t.r)
		}
	}
	rec(s.t)
}

// KVOp is one change of a batch.
type KVOp struct {
	Del   bool
	K, V  []byte
	Range bool // delete [K,V)
}

// KV is a key-value store with an ordered write-ahead log: a synced write makes itself
// and all earlier writes durable; a power loss keeps a prefix of the later ones; each
// batch is atomic.
type KV struct {
	cur      *tree
	dur      *tree
	since    []*tree // versions after each unsynced write
	limbo    *tree
	hasLimbo bool
	Locked   bool
	RO       bool // a log write failed: no more writes until reopened
	Filter   func(k, v []byte) (remove bool, newVal []byte)
	// Removed counts records dropped by compaction.
	Removed int64
}

func NewKV() *KV { return &KV{} }

func (kv *KV) Snap() Snap { return Snap{kv.cur} }

func applyOps(t *tree, ops []KVOp) *tree {
	for _, o := range ops {
		switch {
		case o.Range:
			for {
				k, _, ok := Snap{t}.GE(o.K)
				if !ok || bytes.Compare(k, o.V) >= 0 {
					break
				}
				t = t.del(k)
			}
		case o.Del:
			t = t.del(o.K)
		default:
			t = t.set(o.K, o.V)
		}
	}
	return t
}

// Limbo: the record reached the log but the write was not acknowledged; it appears after a restart.
func (kv *KV) Limbo(ops []KVOp) {
	kv.limbo = applyOps(kv.cur, ops)
	kv.hasLimbo = true
}

func (kv *KV) Apply(ops []KVOp, sync bool) {
	t := kv.cur
	t = applyOps(t, ops)
	kv.cur = t
	if sync {
		kv.dur, kv.since = t, nil
	} else {
		kv.since = append(kv.since, t)
	}
}

// Compact runs the compaction filter over a range of record positions, as a background
// compaction does at times of its own choosing. With a filter result the records vanish
// from the current and the durable version alike.
func (kv *KV) Compact(lo, hi int) int {
	if kv.Filter == nil {
		return 0
	}
	s := kv.Snap()
	var dels []KVOp
	if hi > s.Len() {
		hi = s.Len()
	}
	for i := lo; i < hi; i++ {
		k, v := s.At(i)
		rm, nv := kv.Filter(append([]byte{}, k...), append([]byte{}, v...))
		if rm {
			dels = append(dels, KVOp{Del: true, K: k})
		} else if nv != nil && !bytes.Equal(nv, v) {
			dels = append(dels, KVOp{K: k, V: nv})
		}
	}
	if len(dels) == 0 {
		return 0
	}
	app := func(t *tree) *tree {
		for _, o := range dels {
			old, ok := t.get(o.K)
			now, _ := kv.cur.get(o.K)
			if !ok || !bytes.Equal(old, now) { // an older record of another version is not what was seen
				continue
			}
			if o.Del {
				t = t.del(o.K)
			} else {
				t = t.set(o.K, o.V)
			}
		}
		return t
	}
	kv.dur = app(kv.dur)
	for i := range kv.since {
		kv.since[i] = app(kv.since[i])
	}
	kv.cur = app(kv.cur)
	kv.Removed += int64(len(dels))
	return len(dels)
}

func (kv *KV) Reboot() {
	if kv.hasLimbo {
		kv.cur = kv.limbo
		kv.since = append(kv.since, kv.cur)
		kv.limbo, kv.hasLimbo = nil, false
	}
	kv.Locked, kv.RO, kv.Filter = false, false, nil
}

func (kv *KV) PowerLoss(mode int, r *simrt.Rng) {
	kv.Reboot() // the page cache as of the crash
	k := 0
	switch mode {
	case 0:
	case 1:
		k = len(kv.since)
	default:
		k = r.N(len(kv.since) + 1)
	}
	if k > 0 {
		kv.dur = kv.since[k-1]
	}
	kv.cur, kv.since = kv.dur, nil
}

func (kv *KV) SyncAll() { kv.dur, kv.since = kv.cur, nil }

func (kv *KV) Clone() *KV {
	return &KV{cur: kv.cur, dur: kv.dur, since: append([]*tree{}, kv.since...), limbo: kv.limbo, hasLimbo: kv.hasLimbo}
}
