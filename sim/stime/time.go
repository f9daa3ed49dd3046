// Package stime replaces package time in the instrumented code: one clock, owned by
// the simulator.
package stime

import (
	"time"

	"verifsim/simrt"
)

var base = time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC)

func Now() time.Time                  { return base.Add(time.Duration(simrt.NowNS())) }
func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }
func Sleep(d time.Duration)           { simrt.Op("sleep"); simrt.Sleep(int64(d)) }

// Timer replaces time.Timer.
type Timer struct {
	C       <-chan time.Time
	c       chan time.Time
	f       func()
	gen     int
	pending bool
}

func (t *Timer) start(d time.Duration) {
	t.gen++
	gen := t.gen
	t.pending = true
	stopped := func() bool { return gen != t.gen || !t.pending }
	if t.f != nil {
		// What the function does counts, even when everything else has ended.
		simrt.GoTimer(int64(d), stopped, func() {
			t.pending = false
			t.f()
		})
		return
	}
	at := simrt.NowNS() + int64(d)
	simrt.GoDaemon(func() {
		simrt.SleepUntil(at, stopped)
		if stopped() {
			return
		}
		t.pending = false
		select {
		case t.c <- Now():
		default:
		}
	})
}

func (t *Timer) Stop() bool {
	was := t.pending
	t.pending = false
	return was
}

func (t *Timer) Reset(d time.Duration) bool {
	was := t.pending
	t.start(d)
	return was
}

func NewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c}
	t.start(d)
	return t
}

func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d)
	return t
}

func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

// Ticker replaces time.Ticker.
type Ticker struct {
	C   <-chan time.Time
	c   chan time.Time
	gen int
	off bool
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, c: c}
	t.start(d)
	return t
}

func (t *Ticker) start(d time.Duration) {
	t.gen++
	gen := t.gen
	t.off = false
	stopped := func() bool { return t.off || gen != t.gen }
	at := simrt.NowNS()
	simrt.GoDaemon(func() {
		for {
			if at += int64(d); at < simrt.NowNS() {
				at = simrt.NowNS() // slow receivers miss ticks
			}
			simrt.SleepUntil(at, stopped)
			if stopped() || simrt.Aborting() {
				return
			}
			select {
			case t.c <- Now():
			default:
			}
		}
	})
}

func (t *Ticker) Stop()                 { t.off = true }
func (t *Ticker) Reset(d time.Duration) { t.start(d) }
func Tick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
