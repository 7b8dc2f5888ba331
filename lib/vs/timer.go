//go:build go1.21

package vs

import "unsafe"

const baseTime = int64(1500000000) * 1000000000

// Timer is a virtual timer.
type Timer struct {
	when   int64
	period int64
	seq    int64
	fn     func(now int64)
	armed  bool
	sync   uint64
}

// NewTimer creates an armed timer that calls fn when it fires. fn must not
// block.
//
//go:noinline
func NewTimer(d, period int64, fn func(now int64)) *Timer {
	t := &Timer{period: period, fn: fn}
	t.Arm(d)
	return t
}

// Arm arms the timer.
//
//go:noinline
func (t *Timer) Arm(d int64) {
	if x == nil || x.aborting {
		return
	}
	if d < 0 {
		d = 0
	}
	t.Disarm()
	RaceReleaseMerge(unsafe.Pointer(&t.sync))
	x.timerSeq++
	t.when, t.seq, t.armed = x.now+d, x.timerSeq, true
	x.timers = append(x.timers, t)
}

// Disarm stops the timer and reports if it was armed.
//
//go:noinline
func (t *Timer) Disarm() bool {
	if x == nil || !t.armed {
		return false
	}
	t.armed = false
	for i, o := range x.timers {
		if o == t {
			x.timers = append(x.timers[:i], x.timers[i+1:]...)
			break
		}
	}
	return true
}

// Armed reports if the timer is armed.
//
//go:noinline
func (t *Timer) Armed() bool { return t.armed }

// SetPeriod changes the period.
//
//go:noinline
func (t *Timer) SetPeriod(p int64) { t.period = p }

// fireTimer fires the earliest timer, if there is one.
func (e *Exec) fireTimer() bool {
	if len(e.timers) == 0 || e.idleFires >= e.opt.MaxIdleFires {
		return false
	}
	best := e.timers[0]
	for _, t := range e.timers {
		if t.when < best.when || t.when == best.when && t.seq < best.seq {
			best = t
		}
	}
	e.idleFires++
	if best.when > e.now {
		e.now = best.when
	}
	best.Disarm()
	if best.period > 0 {
		best.Arm(best.period)
	}
	if e.traceOn {
		Trace("timer fires at +%dns", e.now-baseTime)
	}
	best.fn(e.now)
	return true
}

// Now returns the virtual time and advances it.
//
//go:noinline
func Now() int64 {
	e := x
	if e == nil {
		return baseTime
	}
	if e.aborting {
		return e.now
	}
	step := e.opt.ClockStep
	if e.opt.ClockStall && e.choose(2, 1, 0, 1) == 1 {
		step = 0
	}
	e.now += step
	return e.now
}

// Clock is the virtual time, which stays as it is.
//
//go:noinline
func Clock() int64 {
	if x == nil {
		return baseTime
	}
	return x.now
}

// SetNow moves the virtual clock forward.
//
//go:noinline
func SetNow(now int64) {
	if x != nil && now > x.now {
		x.now = now
	}
}

// ClearTimers drops all of the timers.
//
//go:noinline
func ClearTimers() {
	if x != nil {
		for _, t := range x.timers {
			t.armed = false
		}
		x.timers = nil
	}
}
