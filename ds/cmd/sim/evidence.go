package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

func writeEvidence(dir, prop, tier string, base uint64, wall, search float64, runs int64, nontrivial, distinct int, violations int64, agg map[string]int64, samples []interface{}, known map[string]string, maxWall float64, rechecked, mism int) {
	faults := map[string]int64{}
	io := map[string]int64{}
	rest := map[string]int64{}
	for k, v := range agg {
		switch {
		case strings.HasPrefix(k, "fault:"):
			faults[k[6:]] = v
		case strings.HasPrefix(k, "killed in "), k == "power losses", k == "damaged copies", k == "damaged snapshots":
			faults[k] = v
		case strings.HasPrefix(k, "io:"):
			io[k[3:]] = v
		default:
			rest[k] = v
		}
	}
	perHour := 0.0
	if search > 0 {
		perHour = float64(runs) / search * 3600
	}
	cov := map[string]interface{}{
		"evaluations":         runs,
		"distinct_nontrivial": nontrivial,
		"rule":                "one evaluation is one simulated run: the plan (workload, geometry, faults, crash points, power-loss outcome) and every scheduling decision come from one seed. A run is non-trivial if it executed at least one block or component operation and the scheduler switched tasks; runs are distinct if their signatures (hash of all scheduling decisions, step count and resulting roots) differ.",
		"samples":             samples,
		"distinct_signatures": distinct,
		"runs_per_hour":       int64(perHour),
		"seeds_per_hour":      int64(perHour),
		"simulated_time":      fmt.Sprintf("%d scheduler steps (one per executed statement or synchronisation operation); the system sets no timers, its clock reads are served from the simulated clock", agg["steps"]),
		"faults_injected":     faults,
		"disk_operations":     io,
		"counters":            rest,
		"known_findings_met":  known,
		"longest_run_s":       maxWall,
		"repeated_runs":       rechecked,
		"repeats_that_differ": mism,
		"real_components":     []string{"all Go packages of the repository (instrumented at build time through an overlay, otherwise unchanged)", "the C++ B-tree (cppbtree)"},
		"stubbed_components":  []string{"RocksDB: in-memory model with the same interface (atomic batches, synchronous and asynchronous writes, compaction filter)", "file system: simulated disk with page cache, crash, power-loss and error semantics", "Go scheduler, sync, atomic, channels, time, rand: simulated", "fmt/log output: captured"},
	}
	e := map[string]interface{}{
		"property": prop, "tier": tier, "seed": base, "level": "exploration", "coverage": cov, "wall_s": wall, "violations": violations,
		"assumptions": []string{
			"RocksDB behaves as documented (atomic write batches, durable when written with sync)",
			"fsync makes a file's contents and its directory entry durable; un-synced writes may be lost, reordered or torn at any byte",
			"preemption happens between statements and at synchronisation operations, with sequentially consistent memory (data races are looked for separately, with the race detector, in C12 to C16 and C18)",
		},
	}
	b, _ := json.MarshalIndent(e, "", " ")
	_ = os.MkdirAll(filepath.Join(dir, "evidence"), 0755)
	_ = os.WriteFile(filepath.Join(dir, "evidence", prop+".json"), b, 0644)
}
