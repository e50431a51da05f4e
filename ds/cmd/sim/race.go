package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"

	"verif.local/ds/simrt"
)

// In the race build every simulated run is also watched by Go's race detector. The
// simulated primitives tell it the program's own happens-before edges, and nothing
// else does, so a report depends on the order the program enforces and not on the
// schedule alone. Reports are read back from the detector's log after each operation.

var (
	raceLog  *os.File
	racePath string
	raceSeen int
	raceOff  int64
	raceN    int64 // reports about the simulator's own memory
)

// raceInit starts the program again with the detector's options set.
func raceInit() {
	if !simrt.RaceEnabled {
		return
	}
	racePath = os.Getenv("SIM_RACELOG")
	if racePath == "" {
		exe, err := os.Executable()
		if err != nil {
			return
		}
		racePath = filepath.Join(filepath.Dir(exe), "racelog")
		_ = os.Setenv("SIM_RACELOG", racePath)
		_ = os.Setenv("GORACE", "halt_on_error=0 exitcode=0 atexit_sleep_ms=0 suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=3 log_path="+racePath)
		if err := syscall.Exec(exe, os.Args, os.Environ()); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
	}
	racePath = fmt.Sprintf("%s.%d", racePath, os.Getpid())
}

// raceCheck returns a description of the first race in the program since the last call.
func raceCheck() string {
	if !simrt.RaceEnabled || simrt.RaceErrors() == raceSeen {
		return ""
	}
	raceSeen = simrt.RaceErrors()
	if raceLog == nil {
		f, err := os.Open(racePath)
		if err != nil {
			return ""
		}
		raceLog = f
		_ = os.Remove(racePath)
	}
	st, err := raceLog.Stat()
	if err != nil || st.Size() <= raceOff {
		return ""
	}
	b := make([]byte, st.Size()-raceOff)
	n, _ := raceLog.ReadAt(b, raceOff)
	raceOff += int64(n)
	for _, rep := range strings.Split(string(b[:n]), "==================") {
		if !strings.Contains(rep, "DATA RACE") {
			continue
		}
		if m := raceParse(rep); m != "" {
			return m
		}
		raceN++
	}
	return ""
}

// raceParse describes a report if both accesses are the program's.
func raceParse(rep string) string {
	var acc []string
	lines := strings.Split(rep, "\n")
	for i := 0; i < len(lines); i++ {
		l := lines[i]
		if !(strings.HasPrefix(l, "Read at") || strings.HasPrefix(l, "Write at") || strings.HasPrefix(l, "Previous ") || strings.HasPrefix(l, "Atomic ")) {
			continue
		}
		what := "read"
		if strings.Contains(strings.ToLower(l[:min(len(l), 24)]), "write") {
			what = "write"
		}
		if strings.Contains(strings.ToLower(l[:min(len(l), 24)]), "atomic") {
			what = "atomic " + what
		}
		var frames []string
		mark := false
		for i++; i < len(lines) && strings.HasPrefix(lines[i], "  "); i++ {
			fr := strings.TrimSpace(lines[i])
			if strings.HasPrefix(lines[i], "      ") {
				if len(frames) > 0 && len(frames) < 4 && !strings.Contains(frames[len(frames)-1], " (") {
					loc, _, _ := strings.Cut(fr, " +0x")
					frames[len(frames)-1] += " (" + filepath.Base(loc) + ")"
				}
				continue
			}
			mod := strings.HasPrefix(fr, "github.com/smartbch/")
			if len(frames) == 0 && !mod {
				if strings.HasPrefix(fr, "verif.local/ds/simrt.Race") || strings.HasPrefix(fr, "verif.local/ds/simrt.CgoCall") || strings.HasPrefix(fr, "verif.local/ds/simrt.newMapIter") {
					mark = true // an access made on behalf of the program
					continue
				}
				if !mark && (strings.HasPrefix(fr, "verif.local/") || strings.HasPrefix(fr, "github.com/tecbot/") || strings.HasPrefix(fr, "main.")) {
					return ""
				}
				continue
			}
			if mod && len(frames) < 4 {
				frames = append(frames, strings.TrimSuffix(strings.TrimPrefix(fr, "github.com/smartbch/"), "()"))
			}
		}
		if len(frames) == 0 {
			return ""
		}
		acc = append(acc, what+" in "+strings.Join(frames, " < "))
	}
	if len(acc) < 2 {
		return ""
	}
	return "data race: " + acc[0] + "; earlier " + acc[1]
}
