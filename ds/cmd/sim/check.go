package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type proc struct {
	cmd     *exec.Cmd
	id      int
	cur     int64
	started time.Time
	running bool
	errbuf  *tail
	race    bool
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 60000 {
		t.b = append(append([]byte{}, t.b[:20000]...), t.b[len(t.b)-20000:]...)
	}
	return len(p), nil
}

type event struct {
	p   *proc
	l   *line
	err error
	eof bool
}

const runLimit = 240 * time.Second

func check(args []string) int {
	fl := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fl.String("prop", "", "")
	tier := fl.String("tier", "quick", "")
	dir := fl.String("dir", "/verif", "")
	secs := fl.Float64("secs", 0, "")
	maxRuns := fl.Int64("runs", 0, "")
	nw := fl.Int("workers", 8, "")
	shrinkSecs := fl.Int("shrink", 45, "")
	noEv := fl.Bool("noevidence", false, "")
	all := fl.Bool("all", false, "do not stop at a violation (development)")
	race := fl.String("race", "", "simulator binary with the race detector")
	_ = fl.Parse(args)
	base := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if n, err := strconv.ParseUint(s, 10, 63); err == nil {
			base = n
		}
	}
	if *secs == 0 {
		*secs = 60
		if *tier == "thorough" {
			*secs = 600
		}
	}
	knownPath := filepath.Join(*dir, "known_findings.json")
	self, _ := os.Executable()
	t0 := time.Now()
	until := t0.Add(time.Duration(*secs * float64(time.Second)))
	ch := make(chan event, 1024)
	procs := map[*proc]bool{}
	spawn := func(id int, start int64) {
		r, w, err := os.Pipe()
		if err != nil {
			panic(err)
		}
		bin := self
		if *race != "" && id%2 == 1 {
			bin = *race
		}
		p := &proc{id: id, errbuf: &tail{}, race: bin != self}
		p.cmd = exec.Command(bin, "worker", "-prop", *prop, "-base", fmt.Sprint(base), "-start", fmt.Sprint(start), "-stride", fmt.Sprint(*nw), "-until", fmt.Sprint(until.UnixMilli()), "-known", knownPath)
		p.cmd.ExtraFiles = []*os.File{w}
		p.cmd.Stderr = p.errbuf
		if err := p.cmd.Start(); err != nil {
			panic(err)
		}
		_ = w.Close()
		procs[p] = true
		p.started = time.Now()
		go func() {
			sc := bufio.NewScanner(r)
			sc.Buffer(make([]byte, 1<<16), 1<<24)
			for sc.Scan() {
				var l line
				if json.Unmarshal(sc.Bytes(), &l) == nil {
					ll := l
					ch <- event{p: p, l: &ll}
				}
			}
			_ = r.Close()
			err := p.cmd.Wait()
			ch <- event{p: p, err: err, eof: true}
		}()
	}
	for i := 0; i < *nw; i++ {
		spawn(i, int64(i))
	}
	agg := map[string]int64{}
	sigs := map[string]bool{}
	nontrivial := 0
	known := map[string]string{}
	firstSig := map[int64]string{}
	var samples []interface{}
	var runs, violations int64
	var maxWall float64
	var bad *line
	var crashOut string
	var raceRuns int64
	lost := 0
	status := 0
	kinds := map[string]int{}
	ended := map[*proc]bool{}
	recycled := map[*proc]int64{}
	tick := time.NewTicker(time.Second)
	defer tick.Stop()
loop:
	for len(procs) > 0 {
		select {
		case <-tick.C:
			for p := range procs {
				if p.running && time.Since(p.started) > runLimit {
					fmt.Printf("run %d of %s gives no answer within %s\n", p.cur, *prop, runLimit)
					status = 2
					break loop
				}
			}
		case e := <-ch:
			if e.eof {
				delete(procs, e.p)
				if ended[e.p] {
					continue
				}
				if n, ok := recycled[e.p]; ok {
					spawn(e.p.id, n)
					continue
				}
				// the worker died inside a run
				out := string(e.p.errbuf.b)
				if strings.Contains(out, "signal: killed") || e.err != nil && strings.Contains(e.err.Error(), "killed") {
					// from outside: no answer for this run (a run that does
					// it again and again ends the check)
					fmt.Printf("worker killed in run %d (out of memory?)\n", e.p.cur)
					if lost++; lost > 4 {
						status = 2
						break loop
					}
					spawn(e.p.id, e.p.cur+int64(*nw))
					continue
				}
				fmt.Printf("worker died in run %d: %v\n%s\n", e.p.cur, e.err, lastLines(out, 60))
				bad = &line{I: e.p.cur, race: e.p.race, V: &Violation{Kind: "crash", Msg: fmt.Sprintf("the process dies: %v: %s", e.err, crashLine(out))}}
				crashOut = out
				violations++
				break loop
			}
			l := e.l
			switch l.T {
			case "start":
				e.p.cur, e.p.started, e.p.running = l.I, time.Now(), true
			case "bye":
				recycled[e.p] = l.I
			case "end":
				ended[e.p] = true
			case "done":
				e.p.running = false
				runs++
				for k, v := range l.Stats {
					agg[k] += v
				}
				for k, v := range l.Known {
					if _, ok := known[k]; !ok {
						known[k] = v
					}
				}
				if l.Wall > maxWall {
					maxWall = l.Wall
				}
				firstSig[l.I] = l.Sig
				if !sigs[l.Sig] {
					sigs[l.Sig] = true
					if isNontrivial(l.Stats) {
						nontrivial++
					}
				}
				if len(samples) < 3 && isNontrivial(l.Stats) {
					samples = append(samples, sampleOf(*prop, base, l))
				}
				if e.p.race {
					raceRuns++
				}
				if l.V != nil {
					l.race = e.p.race
					violations++
					kinds[l.V.Kind]++
					if bad == nil || *all && l.I < bad.I {
						bad = l
					}
					if *all {
						fmt.Printf("run %d: %s: %s\n", l.I, l.V.Kind, l.V.Msg)
					} else {
						break loop
					}
				}
				if *maxRuns > 0 && runs >= *maxRuns {
					break loop
				}
			}
		}
	}
	for p := range procs {
		_ = p.cmd.Process.Kill()
	}
	searchWall := time.Since(t0).Seconds()
	replayPath := ""
	if bad != nil {
		_ = os.MkdirAll(filepath.Join(*dir, "replays"), 0755)
		replayPath = filepath.Join(*dir, "replays", fmt.Sprintf("%s-%d-%d.json", *prop, base, bad.I))
		if crashOut != "" {
			p := generate(*prop, seedFor(base, *prop, bad.I))
			f := ReplayFile{Property: *prop, Base: base, Index: bad.I, Seed: p.Seed, Kind: bad.V.Kind, Msg: bad.V.Msg, Minimised: "no", Race: bad.race, Log: strings.Split(lastLines(crashOut, 120), "\n"), Plan: p}
			b, _ := json.MarshalIndent(f, "", " ")
			_ = os.WriteFile(replayPath, b, 0644)
		} else {
			bin := self
			if bad.race && bad.V.Kind == "race" {
				bin = *race
			}
			c := exec.Command(bin, "shrink", "-prop", *prop, "-base", fmt.Sprint(base), "-index", fmt.Sprint(bad.I), "-known", knownPath, "-secs", fmt.Sprint(*shrinkSecs), "-out", replayPath)
			var errs tail
			c.Stderr, c.Stdout = &errs, &errs
			if err := c.Run(); err != nil {
				fmt.Printf("minimising: %v %s\n", err, lastLines(string(errs.b), 5))
				if strings.Contains(string(errs.b), "not reproduced") {
					fmt.Printf("run %d failed (%s: %s) but does not fail again\n", bad.I, bad.V.Kind, bad.V.Msg)
					status = 2
				}
			}
		}
	}
	// the same seed must give the same run
	mism := 0
	rechecked := 0
	if bad == nil && status == 0 {
		var is []int64
		for i := range firstSig {
			is = append(is, i)
		}
		sort.Slice(is, func(a, b int) bool { return is[a] < is[b] })
		step := len(is)/2 + 1
		for k := 0; k < len(is); k += step {
			c := exec.Command(self, "run", "-q", "-prop", *prop, "-base", fmt.Sprint(base), "-index", fmt.Sprint(is[k]), "-known", knownPath)
			o, _ := c.Output()
			rechecked++
			if !strings.Contains(string(o), "sig "+firstSig[is[k]]+" ") {
				mism++
				fmt.Printf("run %d is not repeatable: %s was %s\n", is[k], strings.TrimSpace(string(o)), firstSig[is[k]])
			}
		}
	}
	wall := time.Since(t0).Seconds()
	agg["runs watched by the race detector"] = raceRuns
	if !*noEv {
		writeEvidence(*dir, *prop, *tier, base, wall, searchWall, runs, nontrivial, len(sigs), violations, agg, samples, known, maxWall, rechecked, mism)
	}
	var ids []string
	for id := range known {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, k := range knownFindings4(knownPath) {
		if k.Property == *prop {
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s (met %d times in this run)\n", *prop, k.ID, k.Title, agg["known-finding:"+k.ID])
		}
	}
	fmt.Printf("%s %s: %d runs, %d distinct, %d steps, %.0f s\n", *prop, *tier, runs, len(sigs), agg["steps"], wall)
	if *all && len(kinds) > 0 {
		fmt.Println("kinds:", kinds)
	}
	if status != 0 {
		return status
	}
	if bad != nil {
		fmt.Printf("%s: run %d, seed %d: %s: %s\n", *prop, bad.I, seedFor(base, *prop, bad.I), bad.V.Kind, bad.V.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, replayPath)
		return 1
	}
	if runs == 0 {
		fmt.Println("no run finished")
		return 2
	}
	return 0
}

func knownFindings4(path string) []*KnownFinding {
	loadKnown(path)
	return knownFindings
}

func isNontrivial(s map[string]int64) bool {
	work := s["blocks committed"] + s["component ops"] + s["blocks"]
	return work > 0 && s["switches"] > 0
}

func sampleOf(prop string, base uint64, l *line) interface{} {
	p := generate(prop, seedFor(base, prop, l.I))
	ops := []string{}
	for _, o := range p.Ops {
		d := fmt.Sprintf("%s items=%d txs=%d threads=%d", o.Kind, len(o.Items), len(o.Txs), o.Th)
		for _, f := range o.F {
			d += fmt.Sprintf(" fault[%s event %d kind %d]", f.What, f.At, f.Kind)
		}
		if o.Kill > 0 {
			d += fmt.Sprintf(" kill@step%d", o.Kill)
		}
		if o.Power {
			d += fmt.Sprintf(" power-loss mode %d", o.Loss.Mode)
		}
		if len(o.RF) > 0 {
			d += fmt.Sprintf(" reopen faults %d", len(o.RF))
		}
		ops = append(ops, d)
	}
	return map[string]interface{}{"run": l.I, "seed": p.Seed, "world": p.World, "start": p.Tmpl, "strategy": p.Sched.Strategy, "cpus": p.CPUs, "knobs": p.Knobs, "ops": ops, "steps": l.Steps, "signature": l.Sig}
}

func lastLines(s string, n int) string {
	ls := strings.Split(strings.TrimSpace(s), "\n")
	if len(ls) > n {
		ls = ls[:n]
	}
	return strings.Join(ls, "\n")
}

func crashLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "fatal error") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "SIG") {
			return l
		}
	}
	return ""
}
