package main

import "verif.local/ds/simrt"

func init() {
	worldGen["C14"] = genConc
	worldGen["C08"] = genErr
}

// genErr makes some runs of the segmented file and of the key-value side alone, with I/O errors.
func genErr(prop string, seed uint64) *Plan {
	r := simrt.NewRng(simrt.Mix(seed, 0xc08))
	switch x := r.N(20); {
	case x < 5:
		return genHP(prop, seed)
	case x < 7:
		return genKV(prop, seed)
	case x < 12:
		return genTree(prop, seed)
	}
	return nil
}

// genConc makes runs of the parts alone, without errors, kill points and power losses: what is
// looked for is a race, a panic, or a call that never ends.
func genConc(prop string, seed uint64) *Plan {
	r := simrt.NewRng(simrt.Mix(seed, 0xc14))
	var p *Plan
	switch x := r.N(20); {
	case x < 7:
		return nil // the database
	case x < 8:
		p = genMads4(prop, seed)
	case x < 12:
		p = genHP(prop, seed)
	case x < 15:
		p = genKV(prop, seed)
	case x < 17:
		p = genTree(prop, seed)
	default:
		p = genStore(prop, seed)
	}
	for i := range p.Ops {
		op := &p.Ops[i]
		op.F, op.RF, op.Kill, op.RKill, op.Power, op.Die = nil, nil, 0, 0, false, false
	}
	if p.Sched.Strategy == "fifo" {
		p.Sched.Strategy, p.Sched.PSync, p.Sched.PYield = "random", 0.3, 0.002
	}
	return p
}
