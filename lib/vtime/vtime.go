//go:build go1.21

// Package vtime models the clock and the timers of package time.
package vtime

import (
	"time"

	"github.com/vivint/rothko/zz_verif/vs"
)

// Now is time.Now.
func Now() time.Time { return time.Unix(0, vs.Now()) }

// Since is time.Since.
func Since(t time.Time) time.Duration { return Now().Sub(t) }

// Until is time.Until.
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// Sleep is time.Sleep.
//
//go:noinline
func Sleep(d time.Duration) {
	if vs.Aborting() {
		return
	}
	done := false
	vs.NewTimer(int64(d), 0, func(int64) { done = true })
	vs.Wait("sleep", func() bool { return done })
}

// Timer is time.Timer.
type Timer struct {
	C <-chan time.Time
	c chan time.Time
	h vs.Chan
	t *vs.Timer
}

// NewTimer is time.NewTimer.
//
//go:noinline
func NewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c}
	if vs.Active() {
		t.h = vs.ChanOf(c)
		t.t = vs.NewTimer(int64(d), 0, func(now int64) { t.h.TrySend(time.Unix(0, now)) })
	}
	return t
}

// Stop is (*time.Timer).Stop.
//
//go:noinline
func (t *Timer) Stop() bool {
	if !vs.Active() || t.t == nil {
		return false
	}
	vs.Point("timer.stop")
	return t.t.Disarm()
}

// Reset is (*time.Timer).Reset.
//
//go:noinline
func (t *Timer) Reset(d time.Duration) bool {
	if !vs.Active() || t.t == nil {
		return false
	}
	vs.Point("timer.reset")
	was := t.t.Armed()
	t.t.Arm(int64(d))
	return was
}

// After is time.After.
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

// AfterFunc is time.AfterFunc.
//
//go:noinline
func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{}
	if vs.Active() {
		t.t = vs.NewTimer(int64(d), 0, func(int64) { vs.Spawn("afterfunc", f) })
	}
	return t
}

// Ticker is time.Ticker.
type Ticker struct {
	C <-chan time.Time
	h vs.Chan
	t *vs.Timer
}

// NewTicker is time.NewTicker.
//
//go:noinline
func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan time.Time, 1)
	t := &Ticker{C: c}
	if vs.Active() {
		t.h = vs.ChanOf(c)
		t.t = vs.NewTimer(int64(d), int64(d), func(now int64) { t.h.TrySend(time.Unix(0, now)) })
	}
	return t
}

// Stop is (*time.Ticker).Stop.
//
//go:noinline
func (t *Ticker) Stop() {
	if vs.Active() && t.t != nil {
		vs.Point("ticker.stop")
		t.t.Disarm()
	}
}

// Reset is (*time.Ticker).Reset.
//
//go:noinline
func (t *Ticker) Reset(d time.Duration) {
	if vs.Active() && t.t != nil {
		vs.Point("ticker.reset")
		t.t.SetPeriod(int64(d))
		t.t.Arm(int64(d))
	}
}

// Tick is time.Tick.
func Tick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
