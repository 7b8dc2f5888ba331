//go:build go1.21

// Package vctx models the cancelable contexts of package context.
package vctx

import (
	"context"
	"time"
	"unsafe"

	"github.com/vivint/rothko/zz_verif/vs"
)

type keyT struct{}

var key keyT

type cctx struct {
	parent   context.Context
	done     chan struct{}
	h        vs.Chan
	err      error
	cause    error
	children []*cctx
	deadline time.Time
	hasDl    bool
	timer    *vs.Timer
	sync     uint64
}

func (c *cctx) Deadline() (time.Time, bool) {
	if c.hasDl {
		return c.deadline, true
	}
	return c.parent.Deadline()
}

func (c *cctx) Done() <-chan struct{} { return c.done }

//go:noinline
func (c *cctx) Err() error {
	vs.Point("ctx.err")
	if c.err != nil {
		vs.RaceAcquire(unsafe.Pointer(&c.sync))
	}
	return c.err
}

// Ended tells if the context has ended, without a scheduling point: for
// conditions of vs.Wait.
//
//go:noinline
func Ended(ctx context.Context) bool {
	c, ok := ctx.Value(&key).(*cctx)
	return ok && c.err != nil
}

func (c *cctx) Value(k any) any {
	if k == any(&key) {
		return c
	}
	return c.parent.Value(k)
}

//go:noinline
func (c *cctx) cancel(err, cause error) {
	if c.err != nil {
		return
	}
	vs.RaceReleaseMerge(unsafe.Pointer(&c.sync))
	c.err, c.cause = err, cause
	c.h.CloseNow()
	if c.timer != nil {
		c.timer.Disarm()
	}
	for _, ch := range c.children {
		ch.cancel(err, cause)
	}
	c.children = nil
}

//go:noinline
func newCtx(parent context.Context) *cctx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &cctx{parent: parent, done: make(chan struct{})}
	if vs.Cur() == nil {
		panic("vctx: context created outside of an execution")
	}
	if vs.Aborting() {
		return c
	}
	c.h = vs.ChanOf(c.done)
	if p, ok := parent.Value(&key).(*cctx); ok {
		vs.Point("ctx.new")
		if p.err != nil {
			c.cancel(p.err, p.cause)
		} else {
			p.children = append(p.children, c)
		}
	}
	return c
}

func (c *cctx) cancelFn(err, cause error) {
	if vs.Aborting() || c.h == (vs.Chan{}) {
		return
	}
	vs.Point("ctx.cancel")
	c.cancel(err, cause)
}

// WithCancel is context.WithCancel.
func WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	c := newCtx(parent)
	return c, func() { c.cancelFn(context.Canceled, nil) }
}

// WithCancelCause is context.WithCancelCause.
func WithCancelCause(parent context.Context) (context.Context, context.CancelCauseFunc) {
	c := newCtx(parent)
	return c, func(cause error) { c.cancelFn(context.Canceled, cause) }
}

// Cause is context.Cause.
func Cause(c context.Context) error {
	if p, ok := c.Value(&key).(*cctx); ok {
		if p.cause != nil {
			return p.cause
		}
		return p.err
	}
	return context.Cause(c)
}

//go:noinline
func withTimer(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	c := newCtx(parent)
	c.deadline, c.hasDl = time.Unix(0, vs.Now()).Add(d), true
	if pd, ok := parent.Deadline(); ok && pd.Before(c.deadline) {
		c.deadline = pd
	}
	if c.err == nil && !vs.Aborting() {
		c.timer = vs.NewTimer(int64(d), 0, func(int64) {
			c.cancel(context.DeadlineExceeded, nil)
		})
	}
	return c, func() { c.cancelFn(context.Canceled, nil) }
}

// WithTimeout is context.WithTimeout.
func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return withTimer(parent, d)
}

// WithDeadline is context.WithDeadline.
func WithDeadline(parent context.Context, t time.Time) (context.Context, context.CancelFunc) {
	return withTimer(parent, t.Sub(time.Unix(0, vs.Now())))
}

// WithoutCancel is context.WithoutCancel.
func WithoutCancel(parent context.Context) context.Context { return withoutCancel{parent} }

type withoutCancel struct{ c context.Context }

func (w withoutCancel) Deadline() (time.Time, bool) { return time.Time{}, false }
func (w withoutCancel) Done() <-chan struct{}       { return nil }
func (w withoutCancel) Err() error                  { return nil }
func (w withoutCancel) Value(k any) any {
	if k == any(&key) {
		return nil
	}
	return w.c.Value(k)
}

// AfterFunc is context.AfterFunc.
func AfterFunc(ctx context.Context, f func()) func() bool {
	stopped, ran := false, false
	stop := make(chan struct{})
	done := ctx.Done()
	vs.Go(func() {
		if vs.Select(false, vs.RecvCase(done), vs.RecvCase(stop)) == 0 && !stopped {
			ran = true
			f()
		}
	})
	return func() bool {
		if ran || stopped {
			return false
		}
		stopped = true
		vs.Close(stop)
		return true
	}
}
