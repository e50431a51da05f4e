//go:build race

package simrt

import (
	"runtime"
	"unsafe"
)

// In race builds the baton passed between tasks must not count as synchronisation
// of the program: it happens with the detector's synchronisation handling switched
// off, and every simulated primitive tells the detector what it really orders.

func raceOff() { runtime.RaceDisable() }
func raceOn()  { runtime.RaceEnable() }

func raceSpawn(f func()) func() {
	if s == nil {
		return f
	}
	p := new([8]byte)
	runtime.RaceReleaseMerge(unsafe.Pointer(p))
	return func() {
		runtime.RaceAcquire(unsafe.Pointer(p))
		f()
	}
}
func RaceAcquire(p unsafe.Pointer)  { runtime.RaceAcquire(p) }
func RaceRelease(p unsafe.Pointer)  { runtime.RaceRelease(p) }
func RaceReleaseM(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }

// RaceRead and RaceWrite report an access which the simulator makes on behalf of the program.
func RaceRead(p unsafe.Pointer, n int)  { runtime.RaceReadRange(p, n) }
func RaceWrite(p unsafe.Pointer, n int) { runtime.RaceWriteRange(p, n) }

const RaceEnabled = true

func RaceErrors() int { return runtime.RaceErrors() }

// cgoObj stands for a C++ tree: 65536 independent slots, one byte each.
type cgoObj struct {
	p  unsafe.Pointer
	sh []byte
}

var cgoObjs []cgoObj

// CgoCall reports a call which (when the C++ code itself is not recorded) reads (1), writes (2), seeks in (3) or frees (4) the foreign object at p.
//
//go:norace
func CgoCall(p unsafe.Pointer, mode int, key uint64) func() {
	if mode != 0 && cgoTr == nil && s != nil && !s.cur.killed {
		var sh []byte
		for i := range cgoObjs {
			if cgoObjs[i].p == p {
				sh = cgoObjs[i].sh
			}
		}
		if sh == nil {
			sh = make([]byte, 65536)
			cgoObjs = push(cgoObjs, cgoObj{p, sh})
		}
		k := int(key >> 48)
		switch mode {
		case 1:
			RaceRead(unsafe.Pointer(&sh[k]), 1)
		case 2:
			RaceWrite(unsafe.Pointer(&sh[k]), 1)
		case 3:
			RaceRead(unsafe.Pointer(&sh[k]), min(256, 65536-k))
		case 4:
			RaceWrite(unsafe.Pointer(&sh[0]), 65536)
			for i := range cgoObjs {
				if cgoObjs[i].p == p {
					cgoObjs[i] = cgoObjs[len(cgoObjs)-1]
					cgoObjs = cgoObjs[:len(cgoObjs)-1]
					break
				}
			}
		}
	}
	raceOff()
	return cgoReturn
}

// What the C++ code really did: see ds/cgotrace.
type cgoEvent struct {
	addr       uint64
	size, kind uint32
}
type cgoState struct {
	n, lost, base, size, used, lo, hi uint64
	ev                                [1 << 17]cgoEvent
}
type cgoPage struct {
	sh    [4096]byte // its shadow stands for the C++ memory's
	freed [256]bool
}

var (
	cgoTr         *cgoState
	cgoTrReset    func()
	cgoHeap, cgoG []*cgoPage
)

// CgoTrace registers the state of the C++ code's recorder.
func CgoTrace(p unsafe.Pointer, reset func()) {
	if p != nil {
		cgoTr, cgoTrReset = (*cgoState)(p), reset
		cgoHeap = make([]*cgoPage, cgoTr.size>>12)
		cgoG = make([]*cgoPage, (cgoTr.hi-cgoTr.lo)>>12+1)
	}
}

// cgoReturn tells the race detector what the call did.
//
//go:norace
func cgoReturn() {
	raceOn()
	t := cgoTr
	if t == nil || t.n == 0 {
		return
	}
	n := t.n
	t.n = 0
	if s == nil || s.cur == nil || s.cur.killed {
		return
	}
	bad := false
	last := cgoEvent{}
	for i := uint64(0); i < n; i++ {
		e := t.ev[i]
		if e == last {
			continue
		}
		last = e
		for e.size > 0 {
			o, pages := e.addr-t.base, cgoHeap
			if o >= t.size {
				o, pages = e.addr-t.lo, cgoG
			}
			k := min(uint64(e.size), 4096-o&4095)
			pg := pages[o>>12]
			if pg == nil {
				pg = new(cgoPage)
				pages[o>>12] = pg
			}
			p := unsafe.Pointer(&pg.sh[o&4095])
			switch e.kind {
			case 0:
				RaceRead(p, int(k))
			case 1, 2:
				RaceWrite(p, int(k))
			case 3:
				RaceAcquire(p)
			case 4:
				RaceReleaseM(p)
			}
			if e.kind < 3 {
				for g := (o & 4095) >> 4; g <= (o&4095+k-1)>>4; g++ {
					bad = bad || pg.freed[g]
					if e.kind == 2 {
						pg.freed[g] = true
					}
				}
			}
			e.addr += k
			e.size -= uint32(k)
		}
	}
	if bad {
		panic("the C++ code uses memory it has freed")
	}
}

//go:norace
func raceReset() {
	cgoObjs = nil
	if cgoTr != nil {
		cgoTrReset()
		for i := range cgoHeap {
			cgoHeap[i] = nil
		}
		for i := range cgoG {
			cgoG[i] = nil
		}
	}
}
