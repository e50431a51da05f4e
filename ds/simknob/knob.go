// Package simknob overrides tuning constants of the system under test, per run.
package simknob

import "sync/atomic"

const (
	HPFileSize = iota
	StartReap
	BufferSize
	RootCache
	MinKeptTwigs
	JobChanSize
	PreReadBuf
	EvictTryDist
	MinDeactive
	NKnobs = 16
)

var vals [NKnobs]int64
var used [NKnobs]atomic.Bool

// CPUs is what runtime.NumCPU reports.
var CPUs = 4

// HashMask is applied to the first 8 bytes of a rabbit key hash (^0: none).
var HashMask uint64 = ^uint64(0)

func Reset() {
	vals = [NKnobs]int64{}
	CPUs = 4
	HashMask = ^uint64(0)
}

// Used reports whether the system under test has read constant i since the process started,
// that is, whether setting it has an effect.
func Used(i int) bool { return used[i].Load() }

func Set(i int, v int64) { vals[i] = v }

// Get is the run's value of constant i, whose own value is def.
func Get(i int, def int64) int64 {
	if !used[i].Load() {
		used[i].Store(true)
	}
	if v := vals[i]; v != 0 {
		return v
	}
	return def
}
