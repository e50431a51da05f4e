//go:build !race

package simrt

import "unsafe"

func raceOff()                      {}
func raceOn()                       {}
func raceSpawn(f func()) func()     { return f }
func RaceAcquire(p unsafe.Pointer)  {}
func RaceRelease(p unsafe.Pointer)  {}
func RaceReleaseM(p unsafe.Pointer) {}

const RaceEnabled = false

func RaceRead(p unsafe.Pointer, n int)  {}
func RaceWrite(p unsafe.Pointer, n int) {}
func RaceErrors() int                   { return 0 }
func raceReset()                        {}
