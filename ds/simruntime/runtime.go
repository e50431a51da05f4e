// Package simruntime stands in for runtime.
package simruntime

import (
	"verif.local/ds/simknob"
	"verif.local/ds/simrt"
)

func NumCPU() int          { return simknob.CPUs }
func GOMAXPROCS(n int) int { return simknob.CPUs }
func NumGoroutine() int    { return 1 }
func Gosched()             { simrt.Yield() }
func GC()                  {}
