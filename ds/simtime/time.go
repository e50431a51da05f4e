// Package simtime stands in for time: the clock is the simulator's.
package simtime

import (
	"time"

	"verif.local/ds/simrt"
)

var epoch = time.Unix(1700000000, 0).UTC()

func Now() time.Time                         { return epoch.Add(time.Duration(simrt.Now())) }
func Since(t time.Time) time.Duration        { return Now().Sub(t) }
func Until(t time.Time) time.Duration        { return t.Sub(Now()) }
func Sleep(d time.Duration)                  { simrt.Sleep(int64(d)) }
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }
func Tick(d time.Duration) <-chan time.Time  { return NewTicker(d).C }

type Timer struct {
	C    <-chan time.Time
	c    chan time.Time
	f    func()
	stop func() bool
}

func NewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c}
	t.f = func() { simrt.Snd(t.c)(Now()) }
	t.stop = simrt.After(int64(d), t.f)
	return t
}

func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.stop = simrt.After(int64(d), f)
	return t
}

func (t *Timer) Stop() bool { return t.stop() }
func (t *Timer) Reset(d time.Duration) bool {
	r := t.stop()
	t.stop = simrt.After(int64(d), t.f)
	return r
}

type Ticker struct {
	C    <-chan time.Time
	c    chan time.Time
	d    time.Duration
	stop func() bool
}

func NewTicker(d time.Duration) *Ticker {
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, c: c, d: d}
	t.arm()
	return t
}

func (t *Ticker) arm() {
	t.stop = simrt.After(int64(t.d), func() {
		if len(t.c) == 0 {
			simrt.Snd(t.c)(Now())
		}
		t.arm()
	})
}
func (t *Ticker) Stop()                 { t.stop() }
func (t *Ticker) Reset(d time.Duration) { t.stop(); t.d = d; t.arm() }
