package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"fmt"

	"github.com/smartbch/moeingads/datatree"
	"github.com/smartbch/moeingads/types"

	"verif.local/ds/simrt"
)

// An independent verifier of membership proofs, written from the published rules.

type oldProof struct {
	k         string
	entry, pf []byte
	shard     int
	root      [32]byte
}

func h2(level int, a, b []byte) []byte {
	h := sha256.New()
	h.Write([]byte{byte(level)})
	h.Write(a)
	h.Write(b)
	return h.Sum(nil)
}

type proven struct {
	sn     int64
	root   [32]byte
	leaf   [32]byte
	active bool
}

// verifyProof recomputes the root from a proof's bytes; an error says why the proof is not valid.
func verifyProof(pf []byte) (p proven, err error) {
	const fixed = 1 + 11 + 1 + 3 + 1
	n := len(pf) - 8
	if n < 0 || n%32 != 0 || n/32 < fixed+1 {
		return p, fmt.Errorf("length %d", len(pf))
	}
	up := n/32 - fixed
	sn := binary.LittleEndian.Uint64(pf)
	at := func(i int) []byte { return pf[8+32*i : 40+32*i] }
	p.sn = int64(sn)
	if up < 53 && sn>>(11+uint(up)) != 0 {
		return p, fmt.Errorf("serial number %d does not fit %d levels", sn, up)
	}
	copy(p.leaf[:], at(0))
	cur := at(0)
	i := 1
	for l := 0; l < 11; l++ {
		if sn>>uint(l)&1 == 1 {
			cur = h2(l, at(i), cur)
		} else {
			cur = h2(l, cur, at(i))
		}
		i++
	}
	left := cur
	bits := at(i)
	i++
	cur = bits
	for l := 8; l < 11; l++ {
		if sn>>uint(l)&1 == 1 {
			cur = h2(l, at(i), cur)
		} else {
			cur = h2(l, cur, at(i))
		}
		i++
	}
	o := int(sn & 255)
	p.active = bits[o>>3]>>uint(o&7)&1 == 1
	cur = h2(11, left, cur)
	for l := 0; l < up; l++ {
		if sn>>uint(11+l)&1 == 1 {
			cur = h2(12+l, at(i), cur)
		} else {
			cur = h2(12+l, cur, at(i))
		}
		i++
	}
	copy(p.root[:], at(i))
	if !bytes.Equal(cur, p.root[:]) {
		return p, fmt.Errorf("hashes lead to %x, the proof says %x", cur, p.root)
	}
	return p, nil
}

func combine(r [8][32]byte) []byte {
	lv := make([][]byte, 8)
	for i := range lv {
		lv[i] = r[i][:]
	}
	for len(lv) > 1 {
		var nx [][]byte
		for i := 0; i < len(lv); i += 2 {
			s := sha256.Sum256(append(append([]byte{}, lv[i]...), lv[i+1]...))
			nx = append(nx, s[:])
		}
		lv = nx
	}
	return lv[0]
}

// parseEntry decodes the proven bytes of an entry (length word, separator positions, fields).
func parseEntry(b []byte) (k, v, next []byte, h, lh, sn int64, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("entry bytes do not parse: %v", r)
		}
	}()
	nsn := int(b[0])
	total := int(b[1]) | int(b[2])<<8 | int(b[3])<<16
	body := append([]byte{}, b[4:]...)
	if len(body) != total+8*nsn {
		return nil, nil, nil, 0, 0, 0, fmt.Errorf("length word %d, %d serial numbers, %d bytes", total, nsn, len(body))
	}
	i := 0
	for {
		pos := binary.LittleEndian.Uint32(body[i:])
		i += 4
		if pos == ^uint32(0) {
			break
		}
		copy(body[int(pos)+4:int(pos)+12], magic)
	}
	fld := func() []byte {
		n := int(binary.LittleEndian.Uint32(body[i:]))
		i += 4 + n
		return body[i-n : i]
	}
	num := func() int64 { i += 8; return int64(binary.LittleEndian.Uint64(body[i-8:])) }
	k, v, next = fld(), fld(), fld()
	h, lh, sn = num(), num(), num()
	return
}

func shardOf(k string) int { return types.GetShardID([]byte(k)) }

// checkProofs asks for proofs of live keys and verifies them; absent keys must have none.
func (w *World) checkProofs(full bool) bool {
	s := w.cur
	mi := w.meta()
	if !mi.ok {
		return false
	}
	var root []byte
	if !w.quiet("root", func() { root = w.m.GetRootHash() }) {
		return false
	}
	if !bytes.Equal(combine(mi.roots), root) {
		w.fail("proof", "the eight shard roots do not give the database root %x", root)
		return false
	}
	r := simrt.NewRng(w.P.Seed ^ uint64(s.Height)*31 ^ uint64(len(w.blocks))<<20)
	live := s.keys()
	if !full && len(live) > 10 {
		for i := 0; i < 10; i++ {
			j := i + r.N(len(live)-i)
			live[i], live[j] = live[j], live[i]
		}
		live = live[:10]
	}
	type res struct {
		e, p []byte
		err  error
	}
	got := make([]res, len(live))
	if !w.quiet("requesting proofs", func() {
		for i, k := range live {
			got[i].e, got[i].p, got[i].err = w.m.GetProof([]byte(k))
		}
	}) {
		return false
	}
	for i, k := range live {
		x := s.E[k]
		if got[i].err != nil {
			w.fail("proof", "no proof for live key %x at height %d: %v", k, s.Height, got[i].err)
			return false
		}
		if msg := w.verifyOne(k, x, got[i].e, got[i].p, mi); msg != "" {
			w.fail("proof", "proof of key %x at height %d: %s", k, s.Height, msg)
			return false
		}
		w.st.add("proofs verified", 1)
	}
	// absent keys
	var absent []string
	for k := range w.hist {
		if s.E[k] == nil {
			absent = append(absent, k)
		}
	}
	for i := 0; i < 4 && i < len(live); i++ {
		b := []byte(live[r.N(len(live))])
		b[r.N(8)] ^= byte(1 + r.N(255))
		if s.E[string(b)] == nil {
			absent = append(absent, string(b))
		}
	}
	sortStrings(absent)
	if len(absent) > 12 {
		absent = absent[:12]
	}
	if !w.quiet("requesting proofs of absent keys", func() {
		for _, k := range absent {
			e, p, err := w.m.GetProof([]byte(k))
			if err == nil || e != nil || p != nil {
				w.fail("false-proof", "key %x is absent at height %d but has a proof", k, s.Height)
			}
		}
	}) || w.V != nil {
		return false
	}
	if w.P.Prop == "C06" {
		w.tamper(live, func(i int) ([]byte, []byte) { return got[i].e, got[i].p }, mi, &r)
	}
	return w.V == nil
}

func (w *World) verifyOne(k string, x *Ent, ebz, pf []byte, mi metaInfo) string {
	pv, err := verifyProof(pf)
	if err != nil {
		return "does not verify: " + err.Error()
	}
	sh := shardOf(k)
	if pv.root != mi.roots[sh] {
		return fmt.Sprintf("leads to root %x, shard %d has %x", pv.root, sh, mi.roots[sh])
	}
	if sha256.Sum256(ebz) != pv.leaf {
		return "its leaf is not the hash of the entry bytes"
	}
	if !pv.active {
		return "its active flag is clear"
	}
	ek, ev, _, h, lh, sn, err := parseEntry(ebz)
	switch {
	case err != nil:
		return err.Error()
	case string(ek) != k:
		return fmt.Sprintf("the entry is that of key %x", ek)
	case x != nil && !bytes.Equal(ev, x.V):
		return fmt.Sprintf("the entry has value %s, expected %s", short(ev), short(x.V))
	case x != nil && (h != x.H || lh != x.LH):
		return fmt.Sprintf("the entry has heights %d/%d, expected %d/%d", h, lh, x.H, x.LH)
	case sn != pv.sn:
		return fmt.Sprintf("the entry's serial number %d is not the proof's %d", sn, pv.sn)
	}
	return ""
}

// libCheck runs the library's own checker on serialized proof bytes.
func libCheck(pf []byte) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	pp, err := datatree.BytesToProofPath(pf)
	if err != nil {
		return err
	}
	return pp.Check(true)
}

// alterProof changes a serialized proof; what is empty if nothing was changed.
func alterProof(pf []byte, r *simrt.Rng) (bad []byte, what string) {
	bad = append([]byte{}, pf...)
	switch r.N(7) {
	case 0:
		p := r.N(len(bad))
		x := byte(1 << uint(r.N(8)))
		bad[p] ^= x
		what = fmt.Sprintf("byte %d changed by %#x", p, x)
	case 1:
		p := r.N(8)
		x := byte(1 + r.N(255))
		bad[p] ^= x
		what = fmt.Sprintf("serial number byte %d changed by %#x", p, x)
	case 2:
		p := len(bad) - 32 + r.N(32)
		bad[p] ^= byte(1 + r.N(255))
		what = "root changed"
	case 3: // swap two different nodes
		nn := (len(bad) - 8) / 32
		a, b := 8+32*r.N(nn), 8+32*r.N(nn)
		if bytes.Equal(bad[a:a+32], bad[b:b+32]) {
			return bad, ""
		}
		t := append([]byte{}, bad[a:a+32]...)
		copy(bad[a:a+32], bad[b:b+32])
		copy(bad[b:b+32], t)
		what = fmt.Sprintf("nodes at %d and %d swapped", a, b)
	case 4:
		cut := 32 * (1 + r.N(2))
		root := append([]byte{}, bad[len(bad)-32:]...)
		bad = append(bad[:len(bad)-cut-32], root...)
		what = "upper nodes dropped"
	case 5:
		root := append([]byte{}, bad[len(bad)-32:]...)
		bad = append(append(bad[:len(bad)-32], bytes.Repeat([]byte{byte(r.N(256))}, 32)...), root...)
		what = "an upper node added"
	case 6: // clear or set the entry's own flag
		o := int(binary.LittleEndian.Uint64(bad) & 255)
		bad[8+32*12+o>>3] ^= 1 << uint(o&7)
		what = "active flag changed"
	}
	return
}

// tamper alters proofs, which must then be refused by the library and independently,
// and replays proofs of older blocks against the present roots.
func (w *World) tamper(keys []string, get func(int) ([]byte, []byte), mi metaInfo, r *simrt.Rng) {
	for n := 0; n < 6; n++ {
		i := r.N(len(keys))
		e, pf := get(i)
		if err := libCheck(pf); err != nil {
			w.fail("proof", "the library refuses its own proof of key %x: %v", keys[i], err)
			return
		}
		bad, what := alterProof(pf, r)
		if what == "" {
			continue
		}
		w.st.add("tampered proofs", 1)
		if libCheck(bad) == nil {
			w.fail("tampered", "the library accepts the proof of key %x with %s", keys[i], what)
			return
		}
		if pv, err := verifyProof(bad); err == nil && pv.root == mi.roots[shardOf(keys[i])] {
			w.fail("tampered", "the proof of key %x with %s verifies against the root", keys[i], what)
			return
		}
		_ = e
	}
	// proofs of older blocks
	for _, o := range w.oldProofs {
		pv, err := verifyProof(o.pf)
		if err != nil || pv.root != o.root {
			w.fail("proof", "a stored proof of key %x changed", o.k)
			return
		}
		if mi.roots[o.shard] == o.root {
			continue // nothing changed in that shard
		}
		w.st.add("old proofs replayed", 1)
		fake := append([]byte{}, o.pf...)
		copy(fake[len(fake)-32:], mi.roots[o.shard][:])
		if libCheck(fake) == nil {
			w.fail("false-proof", "a proof of an older block for key %x verifies against the newer root", o.k)
			return
		}
		// an old entry that is no longer the current one must not be shown as active now:
		// ask for whatever proof exists now and compare
		_ = pv
	}
	for i, k := range keys {
		if len(w.oldProofs) >= 24 {
			w.oldProofs[r.N(len(w.oldProofs))] = w.oldProofs[len(w.oldProofs)-1]
			w.oldProofs = w.oldProofs[:len(w.oldProofs)-1]
		}
		e, pf := get(i)
		w.oldProofs = append(w.oldProofs, oldProof{k: k, entry: e, pf: pf, shard: shardOf(k), root: mi.roots[shardOf(k)]})
	}
}
