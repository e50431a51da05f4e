// Command sim runs the system under test inside the simulator.
//
//	sim check  -prop C01 -tier quick -dir /verif     run a check (starts workers)
//	sim worker ...                                   one worker process
//	sim run    -prop C01 -index 5                    run one seed and print what happened
//	sim replay FILE                                  run a replay file
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif.local/ds/simrt"
)

// execute runs a plan in its world.
func execute(p *Plan) (res *Result) {
	st := &Stats{C: map[string]int64{}}
	res = &Result{}
	defer func() {
		res.Stats = st.C
		if r := recover(); r != nil {
			if tf, ok := r.(tmplFailure); ok {
				tf.V.Msg = "while building the starting database " + p.Tmpl + ": " + tf.V.Msg
				res.V = tf.V
				return
			}
			panic(r)
		}
	}()
	raceCheck() // forget reports of what came before
	var w *World
	if f := worlds[p.World]; f != nil {
		w = f(p, st)
	} else {
		w = runMads(p, st)
	}
	if w.V != nil && w.V.muted {
		st.add("differences left to other properties", 1)
		w.V = nil
	}
	if w.V == nil {
		if m := raceCheck(); m != "" {
			w.fail("race", "%s", m)
		}
	}
	res.V, res.Known, res.Log = w.V, w.Known, w.log
	if w.sc != nil {
		res.Sig = simrt.Mix(w.sc.Sig(), uint64(w.sc.TotalSteps()))
		for _, h := range sortedHeights(w.root) {
			res.Sig = simrt.Mix(res.Sig, hash64(w.root[h]))
		}
		res.Decs = w.sc.Recorded()
	}
	return
}

var worlds = map[string]func(p *Plan, st *Stats) *World{}

func sortedHeights(m map[int64]string) []int64 {
	var hs []int64
	for h := range m {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i] < hs[j] })
	return hs
}

func hash64(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func seedFor(base uint64, prop string, i int64) uint64 {
	return simrt.Mix(simrt.Mix(base, hash64(prop)), uint64(i)) >> 1
}

type line struct {
	T     string            `json:"t"` // start done bye
	I     int64             `json:"i"`
	V     *Violation        `json:"v,omitempty"`
	Known map[string]string `json:"known,omitempty"`
	Stats map[string]int64  `json:"s,omitempty"`
	Sig   string            `json:"sig,omitempty"`
	Wall  float64           `json:"w,omitempty"`
	Steps int64             `json:"n,omitempty"`
	race  bool
}

func rss() int64 {
	b, _ := os.ReadFile("/proc/self/statm")
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * 4096
}

func worker(args []string) {
	fl := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fl.String("prop", "", "")
	base := fl.Uint64("base", 1, "")
	start := fl.Int64("start", 0, "")
	stride := fl.Int64("stride", 1, "")
	known := fl.String("known", "", "")
	until := fl.Int64("until", 0, "unix ms")
	maxrss := fl.Int64("maxrss", 1500<<20, "")
	_ = fl.Parse(args)
	loadKnown(*known)
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(150)
	out := bufio.NewWriter(os.NewFile(3, "results"))
	emit := func(l line) {
		b, _ := json.Marshal(l)
		_, _ = out.Write(append(b, '\n'))
		_ = out.Flush()
	}
	for i := *start; ; i += *stride {
		if time.Now().UnixMilli() > *until {
			emit(line{T: "end", I: i})
			return
		}
		if rss() > *maxrss {
			emit(line{T: "bye", I: i})
			return
		}
		emit(line{T: "start", I: i})
		t0 := time.Now()
		res := execute(generate(*prop, seedFor(*base, *prop, i)))
		emit(line{T: "done", I: i, V: res.V, Known: res.Known, Stats: res.Stats, Sig: fmt.Sprintf("%x", res.Sig), Wall: time.Since(t0).Seconds(), Steps: res.Stats["steps"]})
	}
}

func runOne(args []string) {
	fl := flag.NewFlagSet("run", flag.ExitOnError)
	prop := fl.String("prop", "", "")
	base := fl.Uint64("base", 1, "")
	index := fl.Int64("index", 0, "")
	n := fl.Int64("n", 1, "")
	known := fl.String("known", "", "")
	quiet := fl.Bool("q", false, "")
	plan := fl.String("plan", "", "write the plan here")
	_ = fl.Parse(args)
	loadKnown(*known)
	runtime.GOMAXPROCS(1)
	for i := *index; i < *index+*n; i++ {
		p := generate(*prop, seedFor(*base, *prop, i))
		if *plan != "" {
			b, _ := json.MarshalIndent(p, "", " ")
			_ = os.WriteFile(*plan, b, 0644)
		}
		t0 := time.Now()
		res := execute(p)
		if !*quiet {
			for _, l := range res.Log {
				fmt.Println(l)
			}
			printStats(res.Stats)
		}
		fmt.Printf("%s run %d: sig %x steps %d wall %.2fs known %d", *prop, i, res.Sig, res.Stats["steps"], time.Since(t0).Seconds(), len(res.Known))
		if res.V != nil {
			fmt.Printf(" VIOLATED %s (op %d): %s", res.V.Kind, res.V.Op, res.V.Msg)
		}
		fmt.Println()
	}
}

func printStats(m map[string]int64) {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("   %-40s %d\n", k, m[k])
	}
}

// ReplayFile is what a violation leaves behind.
type ReplayFile struct {
	Property  string   `json:"property"`
	Base      uint64   `json:"verif_seed"`
	Index     int64    `json:"run_index"`
	Seed      uint64   `json:"seed"`
	Kind      string   `json:"kind"`
	Msg       string   `json:"message"`
	Minimised string   `json:"minimised"`
	Race      bool     `json:"race,omitempty"`
	Log       []string `json:"log"`
	Plan      *Plan    `json:"plan"`
}

func replay(args []string) {
	fl := flag.NewFlagSet("replay", flag.ExitOnError)
	known := fl.String("known", "", "")
	verbose := fl.Bool("v", false, "")
	_ = fl.Parse(args)
	loadKnown(*known)
	runtime.GOMAXPROCS(1)
	b, err := os.ReadFile(fl.Arg(0))
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	var f ReplayFile
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	res := execute(f.Plan)
	for _, l := range res.Log {
		fmt.Println(l)
	}
	if *verbose {
		printStats(res.Stats)
	}
	if res.V == nil {
		fmt.Printf("no violation (recorded: %s)\n", f.Kind)
		return
	}
	same := ""
	if res.V.Kind != f.Kind {
		same = " (recorded kind was " + f.Kind + ")"
	}
	fmt.Printf("%s: %s%s\n", res.V.Kind, res.V.Msg, same)
	fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, fl.Arg(0))
	os.Exit(1)
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: sim check|worker|run|replay")
		os.Exit(2)
	}
	raceInit()
	switch os.Args[1] {
	case "worker":
		worker(os.Args[2:])
	case "run":
		runOne(os.Args[2:])
	case "replay":
		replay(os.Args[2:])
	case "shrink":
		shrinkMain(os.Args[2:])
	case "check":
		os.Exit(check(os.Args[2:]))
	default:
		fmt.Println("unknown command")
		os.Exit(2)
	}
}
