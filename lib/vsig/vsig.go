//go:build go1.21

// Package vsig models package os/signal.
package vsig

import (
	"context"
	"os"

	"github.com/vivint/rothko/zz_verif/vctx"
	"github.com/vivint/rothko/zz_verif/vs"
)

type entry struct {
	c    chan<- os.Signal
	h    vs.Chan
	sigs []os.Signal
}

var entries []*entry
var owner *vs.Exec

func fresh() {
	if owner != vs.Cur() {
		owner, entries = vs.Cur(), nil
	}
}

// Notify is signal.Notify.
//
//go:noinline
func Notify(c chan<- os.Signal, sigs ...os.Signal) {
	if !vs.Active() {
		return
	}
	vs.Point("signal.notify")
	fresh()
	for _, e := range entries {
		if e.c == c {
			e.sigs = append(e.sigs, sigs...)
			return
		}
	}
	entries = append(entries, &entry{c: c, h: vs.ChanOfSend(c), sigs: sigs})
}

// Stop is signal.Stop.
//
//go:noinline
func Stop(c chan<- os.Signal) {
	if !vs.Active() {
		return
	}
	vs.Point("signal.stop")
	fresh()
	for i, e := range entries {
		if e.c == c {
			entries = append(entries[:i:i], entries[i+1:]...)
			return
		}
	}
}

// NotifyContext is signal.NotifyContext.
func NotifyContext(parent context.Context, sigs ...os.Signal) (context.Context, context.CancelFunc) {
	ctx, cancel := vctx.WithCancel(parent)
	ch := make(chan os.Signal, 1)
	Notify(ch, sigs...)
	vs.Go(func() {
		if vs.Select(false, vs.RecvCase(ch), vs.RecvCase(ctx.Done())) == 0 {
			cancel()
		}
	})
	return ctx, func() { cancel(); Stop(ch) }
}

// Registered returns how many channels would get the signal.
//
//go:noinline
func Registered(sig os.Signal) (n int) {
	fresh()
	for _, e := range entries {
		if e.wants(sig) {
			n++
		}
	}
	return n
}

func (e *entry) wants(sig os.Signal) bool {
	if len(e.sigs) == 0 {
		return true
	}
	for _, s := range e.sigs {
		if s == sig {
			return true
		}
	}
	return false
}

// Raise delivers a signal. It returns false if nobody is registered for it,
// in which case the process would have been killed.
//
//go:noinline
func Raise(sig os.Signal) bool {
	vs.Point("signal.raise")
	fresh()
	any := false
	for _, e := range entries {
		if e.wants(sig) {
			any = true
			e.h.TrySend(sig)
		}
	}
	return any
}
