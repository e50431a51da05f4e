package main

import (
	"bytes"
	"fmt"
	"path"

	"github.com/smartbch/moeingads/datatree"

	"verif.local/ds/simrt"
)

// The log world: one segmented file, driven as raw records (Mode 0), as an entry file (Mode 1) or as a
// file of twigs (Mode 2).
//
// Ops: "append" (Items; A bit 0: flush, bit 1: in the background; Th readers beside it), "read" (Th
// readers), "reopen", "kill", "prune" (A per mille of the retained records), "cut" (A per mille).
// After the process died, the file is cut back to the size of the last completed flush, as the
// database does with the sizes in its metadata.

const hpDir = "/db/h"

type rec struct {
	off, end int64
	data     []byte // mode 0: the bytes; mode 1: magic, entry bytes, padding
	ent      *datatree.Entry
	sns      []int64
	mt       [][32]byte
	first    int64
}

type HWorld struct {
	*World
	mode    int
	f       *datatree.HPFile
	ef      *datatree.EntryFile
	tf      *datatree.TwigMtFile
	recs    []rec
	lo      int   // records below are pruned
	flushed int   // records below are flushed
	fsize   int64 // size at the last completed flush
	size    int64
	sn      int64
}

func (h *HWorld) open() bool {
	k := h.P.Knobs
	buf, blk := int(k["BufferSize"]), int(k["HPFileSize"])
	var err error
	switch h.mode {
	case 0:
		h.f, err = datatree.NewHPFile(buf, blk, hpDir)
		if err == nil {
			h.f.InitPreReader()
		}
	case 1:
		var f datatree.EntryFile
		f, err = datatree.NewEntryFile(buf, blk, hpDir)
		h.ef, h.f = &f, f.HPFile
	case 2:
		var f datatree.TwigMtFile
		f, err = datatree.NewTwigMtFile(buf, blk, hpDir)
		h.tf, h.f = &f, f.HPFile
	}
	if err != nil {
		panic(err)
	}
	return true
}

// recover opens the file in a new process and cuts it back to the given size.
func (h *HWorld) recover(op *Op, power bool, size int64) {
	h.reboot(op, power)
	for _, rf := range op.RF {
		ok, _ := h.attempt(&Op{N: op.N, F: rf, Kill: op.RKill}, "reopening", func() {
			h.open()
			h.cut(size)
		})
		if h.V != nil {
			return
		}
		if ok {
			break
		}
		h.reboot(op, h.power || power)
	}
	if !h.quiet("reopening", func() { h.open(); h.cut(size) }) {
		return
	}
	n := 0
	for n < len(h.recs) && h.recs[n].end <= size {
		n++
	}
	h.recs, h.flushed, h.size, h.fsize = h.recs[:n], n, size, size
	h.checkSize("after recovery")
	h.readAll()
}

func (h *HWorld) cut(size int64) {
	switch h.mode {
	case 0:
		if err := h.f.Truncate(size); err != nil {
			panic(err)
		}
	case 1:
		h.ef.Truncate(size)
	case 2:
		h.tf.Truncate(size)
	}
}

func (h *HWorld) checkSize(what string) {
	if got := h.f.Size(); got != h.size {
		h.fail("size", "%s: the size is %d, %d bytes were appended", what, got, h.size)
	}
}

// append1 appends one record and returns it.
func (h *HWorld) append1(it *Item) (rec, string) {
	v := it.V.Bytes()
	r := simrt.NewRng(it.V.S*977 + 3)
	pos := h.size
	var got int64
	var x rec
	switch h.mode {
	case 0:
		var parts [][]byte
		for rest := v; ; {
			n := r.N(len(rest) + 1)
			if r.P(0.5) || len(parts) > 3 {
				n = len(rest)
			}
			parts = append(parts, rest[:n])
			rest = rest[n:]
			if len(rest) == 0 {
				break
			}
		}
		var err error
		got, err = h.f.Append(parts)
		if err != nil {
			panic(err)
		}
		x = rec{off: pos, end: pos + int64(len(v)), data: v}
	case 1:
		e := &datatree.Entry{Key: unhex(it.K), Value: v, NextKey: []byte{byte(r.N(256)), 255, 254, 253, 252, 252, 253, 254}, Height: int64(r.N(1000)) - 1, LastHeight: int64(r.N(1000)) - 1, SerialNum: h.sn}
		if r.P(0.3) { // integers that look like separators
			e.Height = int64(r.U64() >> 1)
		}
		h.sn++
		var sns []int64
		for n := r.Pick(0, 0, 0, 1, 3, 64); n > 0; n-- {
			sns = append(sns, int64(r.N(1<<20)))
		}
		bz := datatree.EntryToBytes(*e, sns)
		if r.P(0.5) { // as compaction writes it: the old bytes, a new number, a new list
			raw := datatree.EntryToBytes(*e, nil)
			datatree.UpdateSerialNum(raw, e.SerialNum)
			raw[0] = byte(len(sns))
			got = h.ef.Append([2][]byte{raw, datatree.SNListToBytes(sns)})
		} else {
			got = h.ef.Append([2][]byte{bz, nil})
		}
		pad := (8 - len(bz)%8) % 8
		d := append(append(append([]byte{}, magic...), bz...), make([]byte, pad)...)
		x = rec{off: pos, end: pos + int64(len(d)), data: d, ent: e, sns: sns}
	case 2:
		mt := make([][32]byte, 4096)
		for i := 2048; i < 4096; i++ {
			for j := 0; j < 4; j++ {
				y := r.U64()
				for b := 0; b < 8; b++ {
					mt[i][j*8+b] = byte(y >> uint(8*b))
				}
			}
		}
		lvl := 0
		for w := 1024; w >= 1; w /= 2 {
			for i := w; i < 2*w; i++ {
				copy(mt[i][:], h2(lvl, mt[2*i][:], mt[2*i+1][:]))
			}
			lvl++
		}
		x = rec{off: pos, end: pos + datatree.TwigMtSize, mt: mt, first: int64(r.U64() >> 10)}
		h.tf.AppendTwig(mt[1:], x.first)
		got = pos
	}
	if got != pos {
		return x, fmt.Sprintf("append returns offset %d for the record at %d", got, pos)
	}
	return x, ""
}

// read1 reads a record back through some path; "" if it is right.
func (h *HWorld) read1(x *rec, next *rec, r *simrt.Rng) string {
	switch h.mode {
	case 0:
		n := len(x.data)
		if r.P(0.3) && n > 0 {
			n = r.N(n)
		}
		buf := make([]byte, n)
		wb := r.P(0.6)
		if err := h.f.ReadAt(buf, x.off, wb); err != nil {
			return "!" + err.Error()
		}
		if !bytes.Equal(buf, x.data[:n]) {
			return fmt.Sprintf("record at %d (%d bytes, read-ahead %v) reads %s, expected %s", x.off, n, wb, short(buf), short(x.data[:n]))
		}
	case 1:
		switch r.N(4) {
		case 0:
			if d := diffEntry(h.ef.ReadEntry(x.off), x.ent); d != "" {
				return fmt.Sprintf("ReadEntry(%d): %s", x.off, d)
			}
		case 1:
			e, sns, nx := h.ef.ReadEntryAndSNList(x.off)
			if d := diffEntry(e, x.ent); d != "" {
				return fmt.Sprintf("ReadEntryAndSNList(%d): %s", x.off, d)
			}
			if fmt.Sprint(sns) != fmt.Sprint(x.sns) {
				return fmt.Sprintf("ReadEntryAndSNList(%d): serial numbers %v, expected %v", x.off, sns, x.sns)
			}
			if nx != x.end {
				return fmt.Sprintf("ReadEntryAndSNList(%d): next position %d, expected %d", x.off, nx, x.end)
			}
		case 2:
			bz, nx := h.ef.ReadEntryRawBytes(x.off)
			if nx != x.end {
				return fmt.Sprintf("ReadEntryRawBytes(%d): next position %d, expected %d", x.off, nx, x.end)
			}
			if k := datatree.ExtractKeyFromRawBytes(bz); !bytes.Equal(k, x.ent.Key) {
				return fmt.Sprintf("the raw bytes at %d have the key %x, expected %x", x.off, k, x.ent.Key)
			}
			if sn := datatree.ExtractSerialNum(bz); sn != x.ent.SerialNum {
				return fmt.Sprintf("the raw bytes at %d have the serial number %d, expected %d", x.off, sn, x.ent.SerialNum)
			}
			if w := x.data[8 : 8+len(bz)]; !bytes.Equal(bz[1:], w[1:]) {
				return fmt.Sprintf("ReadEntryRawBytes(%d): %s, expected %s", x.off, short(bz), short(w))
			}
		case 3:
			bz := h.ef.ReadEntryBytesForProof(x.off)
			if !bytes.HasPrefix(x.data[8:], bz) || len(x.data)-8-len(bz) >= 8 {
				return fmt.Sprintf("ReadEntryBytesForProof(%d): %s, expected %s", x.off, short(bz), short(x.data[8:]))
			}
		}
	case 2:
		id := x.off / datatree.TwigMtSize
		if got := h.tf.GetFirstEntryPos(id); got != x.first {
			return fmt.Sprintf("first entry position of twig %d is %d, expected %d", id, got, x.first)
		}
		cache := map[int][]byte{}
		for n := 4; n > 0; n-- {
			i := 1 + r.N(r.Pick(4095, 600, 2047))
			if got := h.tf.GetHashNode(id, i, cache); !bytes.Equal(got, x.mt[i][:]) {
				return fmt.Sprintf("node %d of twig %d is %x, expected %x", i, id, got, x.mt[i])
			}
			for k, v := range cache {
				if !bytes.Equal(v, x.mt[k][:]) {
					return fmt.Sprintf("node %d of twig %d is %x in the cache, expected %x", k, id, v, x.mt[k])
				}
			}
		}
	}
	return ""
}

func diffEntry(e, x *datatree.Entry) string {
	switch {
	case !bytes.Equal(e.Key, x.Key):
		return fmt.Sprintf("key %x, expected %x", e.Key, x.Key)
	case !bytes.Equal(e.Value, x.Value):
		return fmt.Sprintf("value %s, expected %s", short(e.Value), short(x.Value))
	case !bytes.Equal(e.NextKey, x.NextKey):
		return fmt.Sprintf("next key %x, expected %x", e.NextKey, x.NextKey)
	case e.Height != x.Height || e.LastHeight != x.LastHeight || e.SerialNum != x.SerialNum:
		return fmt.Sprintf("heights and serial number %d %d %d, expected %d %d %d", e.Height, e.LastHeight, e.SerialNum, x.Height, x.LastHeight, x.SerialNum)
	}
	return ""
}

// readers read flushed records; faulty: errors are allowed, wrong data is not.
func (h *HWorld) reader(recs []rec, seed uint64, n int, faulty bool) (bad string) {
	r := simrt.NewRng(seed)
	if len(recs) == 0 {
		return ""
	}
	at := r.N(len(recs))
	for ; n > 0 && bad == ""; n-- {
		if r.P(0.4) {
			at = r.N(len(recs))
		} else {
			at = (at + 1) % len(recs)
		}
		func() {
			if faulty {
				defer func() {
					if e := recover(); e != nil && simrt.Dying() {
						panic(e)
					}
				}()
			}
			d := h.read1(&recs[at], nil, &r)
			if d != "" && d[0] == '!' {
				if faulty {
					return
				}
				d = fmt.Sprintf("reading the record at %d: %s", recs[at].off, d[1:])
			}
			bad = d
		}()
	}
	return
}

func (h *HWorld) readAll() {
	if h.V != nil {
		return
	}
	bad := ""
	recs := h.recs[h.lo:h.flushed]
	if !h.quiet("reading everything", func() {
		r := simrt.NewRng(h.P.Seed + uint64(h.sub))
		step := 1
		if h.mode == 2 {
			step = 1 + len(recs)/6
		}
		for i := 0; i < len(recs) && bad == ""; i += step {
			for k := 0; k < 2 && bad == ""; k++ {
				if bad = h.read1(&recs[i], nil, &r); bad != "" && bad[0] == '!' {
					bad = fmt.Sprintf("reading the record at %d: %s", recs[i].off, bad[1:])
				}
			}
		}
	}) {
		return
	}
	if bad != "" {
		h.fail("content", "%s", bad)
	}
}

func (h *HWorld) flush(bg bool) {
	switch {
	case bg && h.mode == 0:
		h.f.StartFlushing()
	case bg && h.mode == 1:
		h.ef.StartFlushing()
	case bg:
		h.tf.StartFlushing()
	case h.mode == 0:
		h.f.Flush()
	case h.mode == 1:
		h.ef.Flush()
	default:
		h.tf.Flush()
	}
}

func (h *HWorld) wait() {
	switch h.mode {
	case 0:
		h.f.WaitForFlushing()
	case 1:
		h.ef.WaitForFlushing()
	default:
		h.tf.WaitForFlushing()
	}
}

// onDisk checks, without giving up the processor, that everything appended is in synced files.
func (h *HWorld) onDisk() string {
	if simrt.Dying() {
		return ""
	}
	blk := h.P.Knobs["HPFileSize"]
	end := int64(0)
	for _, p := range h.fs.Files(hpDir) {
		var id int64
		if _, err := fmt.Sscanf(path.Base(p), "%d-", &id); err != nil {
			continue
		}
		if x := id*blk + int64(len(h.fs.Content(p))); x > end {
			end = x
		}
		if h.fs.Dirty(p) {
			return fmt.Sprintf("a flush is done but %s has content which is not synced", path.Base(p))
		}
	}
	if end != h.size {
		return fmt.Sprintf("a flush is done but the files end at %d, %d bytes were appended", end, h.size)
	}
	return ""
}

func (h *HWorld) step(op *Op) {
	h.op, h.World.sub = op, 0
	h.logf("op %d %s", op.N, op.Kind)
	old := h.recs[h.lo:h.flushed]
	switch op.Kind {
	case "append", "read":
		var added []rec
		var bads []string
		base := h.size
		fw0 := h.firedWrites()
		fl := op.Kind == "append" && op.A&1 != 0
		ok, faulted := h.attempt(op, op.Kind, func() {
			var wg simWG
			faulty := len(op.F) > 0
			bads = make([]string, op.Th+1)
			for t := 1; t <= op.Th; t++ {
				t := t
				wg.Add(1)
				simrt.Go(func() {
					defer wg.Done()
					bads[t] = h.reader(old, h.P.Seed*31+uint64(op.N)*101+uint64(t), 3+int(op.B), faulty)
				})
			}
			if op.Kind == "append" {
				for i := range op.Items {
					x, d := h.append1(&op.Items[i])
					if d != "" && bads[0] == "" {
						bads[0] = d
					}
					h.size = x.end
					added = append(added, x)
				}
				if fl {
					h.flush(op.A&2 != 0)
					if op.A&2 != 0 {
						h.wait()
					}
					if d := h.onDisk(); d != "" && len(op.F) == 0 && bads[0] == "" {
						bads[0] = d
					}
				}
			}
			wg.Wait()
		})
		for _, d := range bads {
			if d != "" {
				h.fail("content", "%s", d)
				return
			}
		}
		if h.V != nil {
			return
		}
		if !ok {
			h.size = base
			h.recover(op, h.power || op.Power, h.fsize)
			return
		}
		if op.Kind == "append" && faulted && h.firedWrites() > fw0 {
			h.fail("acknowledged", "a write or sync failed (%v) and the append or flush was reported as done", firedList(h.fs.Fired))
			return
		}
		h.recs = append(h.recs, added...)
		if fl {
			h.flushed, h.fsize = len(h.recs), h.size
		}
		h.checkSize("after " + op.Kind)
		if fl || op.Kind == "read" {
			h.readAll()
		}
	case "reopen":
		// only what was flushed survives a close
		if !h.quiet("flush", func() { h.flush(false) }) {
			return
		}
		h.flushed, h.fsize = len(h.recs), h.size
		if !h.quiet("close", func() {
			switch h.mode {
			case 0:
				if err := h.f.Close(); err != nil {
					panic(err)
				}
			case 1:
				h.ef.Close()
			default:
				h.tf.Close()
			}
		}) {
			return
		}
		h.die("closed")
		h.reboot(op, false)
		if !h.quiet("reopening", func() { h.open() }) {
			return
		}
		h.checkSize("after reopening")
		h.readAll()
	case "kill":
		h.die("kill")
		h.recover(op, op.Power, h.fsize)
	case "prune":
		n := h.flushed - h.lo
		if n < 2 {
			return
		}
		i := h.lo + int(op.A)*(n-1)/1000
		off := h.recs[i].off
		lo := h.lo
		blk := h.P.Knobs["HPFileSize"]
		for lo < len(h.recs) && h.recs[lo].off/blk < off/blk {
			lo++
		}
		h.lo = lo // those below may be gone from now on
		var bads []string
		kept := h.recs[h.lo:h.flushed]
		ok, _ := h.attempt(op, "prune", func() {
			var wg simWG
			bads = make([]string, op.Th+1)
			for t := 1; t <= op.Th; t++ {
				t := t
				wg.Add(1)
				simrt.Go(func() {
					defer wg.Done()
					bads[t] = h.reader(kept, h.P.Seed*37+uint64(op.N)*103+uint64(t), 4, len(op.F) > 0)
				})
			}
			switch h.mode {
			case 0:
				if err := h.f.PruneHead(off); err != nil {
					panic(err)
				}
			case 1:
				h.ef.PruneHead(off)
			default:
				h.tf.PruneHead(off)
			}
			wg.Wait()
		})
		for _, d := range bads {
			if d != "" {
				h.fail("content", "beside a prune: %s", d)
				return
			}
		}
		if h.V != nil {
			return
		}
		if !ok {
			h.recover(op, h.power || op.Power, h.fsize)
			return
		}
		h.checkSize("after a prune")
		// reading pruned records fails, or gives what they were
		if !h.quiet("reading pruned records", func() {
			if h.mode == 0 && lo > 0 {
				x := h.recs[lo-1]
				buf := make([]byte, len(x.data))
				if err := h.f.ReadAt(buf, x.off, true); err == nil && !bytes.Equal(buf, x.data) {
					h.fail("content", "the pruned record at %d reads %s", x.off, short(buf))
				}
			}
		}) {
			return
		}
		h.readAll()
	case "cut":
		n := h.flushed - h.lo
		if n < 1 {
			return
		}
		i := h.lo + int(op.A)*n/1000
		size := h.size
		if i < len(h.recs) {
			size = h.recs[i].off
		}
		if h.flushed < len(h.recs) { // an open buffer is not cut: the database cuts right after opening
			if !h.quiet("flush", func() { h.flush(false) }) {
				return
			}
			h.flushed, h.fsize = len(h.recs), h.size
		}
		ok, _ := h.attempt(op, "cut", func() { h.cut(size) })
		if h.V != nil {
			return
		}
		if !ok {
			h.recover(op, h.power || op.Power, size)
			return
		}
		h.recs, h.size = h.recs[:i], size
		h.flushed, h.fsize = len(h.recs), size
		h.checkSize("after a cut")
		h.readAll()
	default:
		panic("unknown op " + op.Kind)
	}
}

func runHP(p *Plan, st *Stats) *World {
	var h *HWorld
	return compWorld(p, st, func(w *World) {
		h = &HWorld{World: w, mode: p.Mode}
		w.fs.MkdirQuiet(hpDir)
		w.fs.SyncAll()
		if !w.quiet("creating", func() { h.open() }) {
			return
		}
		for i := range p.Ops {
			if h.V != nil {
				break
			}
			h.step(&p.Ops[i])
		}
	})
}

func init() {
	worlds["hpfile"] = runHP
	worldGen["C15"] = genHP
}

func genHP(prop string, seed uint64) *Plan {
	g := newGen(prop, "hpfile", seed)
	r := &g.r
	p := g.p
	p.Mode = r.Pick(0, 0, 0, 1, 1, 2)
	buf := int64(r.Pick(32, 64, 100, 256, 1000, 4096))
	if p.Mode == 1 {
		buf = int64(r.Pick(800, 1024, 2000, 4096))
	}
	blk := buf * int64(r.Pick(1, 1, 2, 3, 5, 16))
	if p.Mode == 2 {
		buf = int64(r.Pick(32, 96, 1000, 4096, 16384, 65536))
		blk = buf * int64(r.Pick(1, 2, 3, 5, 16))
		for blk < 20000 {
			blk *= 2
		}
	}
	p.Knobs = map[string]int64{"BufferSize": buf, "HPFileSize": blk}
	if r.P(0.9) {
		p.Knobs["PreRead"] = int64(r.Pick(16, 48, 100, 256, 1024, 65536))
		if p.Mode == 1 && p.Knobs["PreRead"] < 16 {
			p.Knobs["PreRead"] = 16
		}
	}
	if r.P(0.5) {
		p.Sched.PSync, p.Sched.PYield = 0.3, 0.02
	}
	maxL := int(buf)
	if p.Mode == 1 {
		maxL = (int(buf) - 8 - 8 - 36 - 16 - 512 - 8) * 3 / 5 // the whole record fits into the buffer
		if maxL < 8 {
			maxL = 8
		}
	}
	crash, errs := r.P(0.5), r.P(0.3)
	nops := r.Range(4, 30)
	for i := 0; i < nops; i++ {
		op := Op{Loss: g.loss(), Power: r.P(0.5)}
		switch r.N(12) {
		case 0:
			op.Kind = "reopen"
		case 1:
			op.Kind = "kill"
		case 2:
			op.Kind, op.A = "prune", int64(r.N(1001))
			op.Th = r.Pick(0, 1, 2)
		case 3:
			op.Kind, op.A = "cut", int64(r.N(1001))
		case 4, 5:
			op.Kind, op.Th, op.B = "read", r.Pick(1, 2, 4), int64(r.N(10))
		default:
			op.Kind, op.A = "append", int64(r.Pick(0, 1, 1, 1, 3, 3))
			op.Th, op.B = r.Pick(0, 0, 1, 2, 3), int64(r.N(8))
			n := r.Pick(1, 1, 2, 4, 8, 20)
			if p.Mode == 2 {
				n = 1 + r.N(2)
			}
			for ; n > 0; n-- {
				it := Item{V: Val{S: r.U64() >> 20}}
				switch r.N(8) {
				case 0:
					it.V.L = maxL
				case 1:
					it.V.L = r.N(3)
				case 2:
					it.V.L = maxL - r.N(9)
					if it.V.L < 0 {
						it.V.L = 0
					}
				case 3, 4:
					it.V.L = r.N(maxL + 1)
				default:
					it.V.L = 8 * r.N(maxL/8+1)
				}
				if r.P(0.3) {
					it.V.M = 1 + r.N(2)
				}
				if p.Mode == 1 {
					k := make([]byte, 8)
					x := r.U64()
					for j := range k {
						k[j] = byte(x >> uint(8*j))
					}
					if r.P(0.2) {
						copy(k, magic)
					}
					it.K = hexs(string(k))
				}
				op.Items = append(op.Items, it)
			}
		}
		if crash && r.P(0.4) {
			switch op.Kind {
			case "append", "prune", "cut", "read":
				if r.P(0.4) {
					op.Kill = logU(r, 5000)
				} else {
					op.F = append(op.F, g.crashAt(30, op.Power))
				}
				g.reopenTrouble(&op)
			}
		}
		if errs && r.P(0.4) && op.Kill == 0 && len(op.F) == 0 {
			switch op.Kind {
			case "append", "prune", "cut":
				f := g.errAt(20, false)
				f.Stick = false
				op.F = append(op.F, f)
			case "read":
				f := g.errAt(20, true)
				f.Kind = 2
				op.F = append(op.F, f)
			}
		}
		g.push(op)
	}
	return p
}
