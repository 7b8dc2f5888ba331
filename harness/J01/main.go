//go:build go1.21

// J01: launched tasks are all stopped and awaited, with the right error.
package main

import (
	"context"
	"fmt"
	"os"
	"syscall"

	"github.com/vivint/rothko/internal/junk"
	"github.com/vivint/rothko/zz_verif/vctx"
	"github.com/vivint/rothko/zz_verif/vh"
	"github.com/vivint/rothko/zz_verif/vs"
	"github.com/vivint/rothko/zz_verif/vsig"
)

// behaviours of tasks.
const (
	nilNow = iota
	errNow
	nilLater // when told to stop
	errLater
	ctxErr // when told to stop, with the error of the context
	behaviours
)

var names = []string{"nil", "error", "nil when stopped", "error when stopped", "error of the context"}

type task struct {
	kind              int
	err               error
	started, returned bool
	causes            string // what could have stopped it
	retErr            error
}

type world struct {
	tasks    []*task
	parent   context.Context
	stopped  bool // the parent was told to stop
	returned bool
	err      error
}

func (w *world) String() (out string) {
	for _, t := range w.tasks {
		out += fmt.Sprintf(" [%s]", names[t.kind])
	}
	return out
}

func (w *world) fail(kind, format string, args ...any) {
	vs.Fail(kind, "%s: %s", w, fmt.Sprintf(format, args...))
}

func (w *world) add(i, kind int) func(context.Context) error {
	t := &task{kind: kind, err: fmt.Errorf("task %d", i)}
	w.tasks = append(w.tasks, t)
	return func(ctx context.Context) error {
		if t.started {
			w.fail("twice", "task %d is run twice", i)
		}
		if w.returned {
			w.fail("late", "task %d is started after the return", i)
		}
		t.started = true
		switch kind {
		case nilNow:
			vs.Point("task")
		case errNow:
			vs.Point("task")
			t.retErr = t.err
		default:
			done := ctx.Done()
			vs.Recv(done)
			// something has to be the cause
			ok := w.stopped
			for _, o := range w.tasks {
				if o.returned {
					ok = true
					t.causes += fmt.Sprint(o.retErr == nil, " ")
				}
			}
			if !ok {
				w.fail("stopped", "task %d is told to stop while all go on", i)
			}
			if ctx.Err() == nil {
				w.fail("stopped", "no error of the context")
			}
			switch kind {
			case errLater:
				t.retErr = t.err
			case ctxErr:
				t.retErr = ctx.Err()
			}
		}
		t.returned = true
		return t.retErr
	}
}

// check is called at the return.
func (w *world) check(err error) {
	w.err = err
	var first error
	any, found, nils := false, false, false
	for i, t := range w.tasks {
		if !t.started || !t.returned {
			w.fail("awaited", "task %d is not finished at the return", i)
		}
		if t.retErr == nil {
			nils = true
		} else {
			any = true
			found = found || err == t.retErr
		}
		if t.kind == errNow && first == nil {
			first = t.retErr
		}
	}
	w.returned = true
	switch {
	case !any && err != nil:
		w.fail("result", "returns %v", err)
	case any && !found:
		w.fail("result", "returns %v", err)
	}
	// without another reason to stop, the error is that of the one that
	// finished by itself
	if first != nil && !nils && !w.stopped {
		own := false
		for _, t := range w.tasks {
			own = own || t.kind == errNow && t.retErr == err
		}
		if !own {
			w.fail("result", "returns %v, a consequence of %v", err, first)
		}
	}
}

// launch runs every combination of tasks.
func launch(n, sched int, queued bool) vh.Scenario {
	name := fmt.Sprintf("launch-%d", n)
	if queued {
		name = fmt.Sprintf("launcher-%d", n)
	}
	return vh.Scenario{Name: name, Bound: vs.Bound{Sched: sched}, Weight: vh.Weight(sched, false) * []float64{1, 1, 1, 40, 80}[n], Body: func() {
		w := &world{}
		var fns []func(context.Context) error
		must := n == 0
		for i := 0; i < n; i++ {
			k := vs.Choose(behaviours)
			must = must || k == nilNow || k == errNow
			fns = append(fns, w.add(i, k))
		}
		// the parent may stop, early, late or never
		stop := vs.Choose(3)
		ctx, cancel := vctx.WithCancel(context.Background())
		if stop == 1 {
			w.stopped = true
			cancel()
		}
		done := false
		vs.Spawn("launch", func() {
			var err error
			if queued {
				var l junk.Launcher
				for _, fn := range fns {
					l.Queue(fn)
				}
				err = l.Run(ctx)
				w.check(err)
				// they are run once
				if err := l.Run(ctx); err != nil {
					w.fail("again", "running nothing returns %v", err)
				}
			} else {
				err = junk.Launch(ctx, fns...)
				w.check(err)
			}
			done = true
		})
		if stop == 2 {
			vs.Spawn("stop", func() { w.stopped = true; cancel() })
		}
		vs.Quiesce()
		if !done && (must || stop != 0) {
			w.fail("hang", "does not return: %v", vs.Live())
		}
		if !must && stop == 0 {
			if done {
				w.fail("early", "returns %v while all tasks go on", w.err)
			}
			w.stopped = true
			cancel()
			vs.Quiesce()
			if !done {
				w.fail("hang", "does not return after its context ended: %v", vs.Live())
			}
		}
		if l := vs.Live(); len(l) > 0 {
			w.fail("leak", "left: %v", l)
		}
		vs.Outcome("%s %d: %v", w, stop, w.err)
	}}
}

// queueing from several threads.
func queueing(sched int) vh.Scenario {
	return vh.Scenario{Name: "queueing", Bound: vs.Bound{Sched: sched}, Weight: vh.Weight(sched, false), Body: func() {
		var l junk.Launcher
		runs := [3]int{}
		queued := 0
		for i := 0; i < 2; i++ {
			i := i
			vs.Spawn("queue", func() {
				l.Queue(func(context.Context) error { runs[i]++; return nil })
				queued++
			})
		}
		first := vs.Choose(2)
		if first == 1 {
			vs.Quiesce()
		}
		had := queued
		if err := l.Run(context.Background()); err != nil {
			vs.Fail("result", "%v", err)
		}
		if n := runs[0] + runs[1]; n < had {
			vs.Fail("lost", "%d tasks were queued, %d were run", had, n)
		}
		vs.Quiesce()
		if err := l.Run(context.Background()); err != nil {
			vs.Fail("result", "%v", err)
		}
		if runs[0] != 1 || runs[1] != 1 {
			vs.Fail("runs", "the tasks were run %v times", runs)
		}
		vs.Outcome("%d", first)
	}}
}

// signals end the context like its parent and its cancel function.
func signals(sched int) vh.Scenario {
	return vh.Scenario{Name: "signals", Bound: vs.Bound{Sched: sched}, Weight: vh.Weight(sched, false), Body: func() {
		parent, pcancel := vctx.WithCancel(context.Background())
		early := vs.Choose(2) == 1
		if early {
			pcancel()
		}
		ctx, cancel := junk.WithSignal(parent, syscall.SIGINT, syscall.SIGUSR1)
		vs.Quiesce()
		if !early {
			if ctx.Err() != nil {
				vs.Fail("early", "the context ended before anything happened")
			}
			if vsig.Registered(syscall.SIGINT) == 0 || vsig.Registered(syscall.SIGUSR1) == 0 {
				vs.Fail("notify", "the signals are not expected")
			}
			if vsig.Registered(syscall.SIGTERM) != 0 || vsig.Registered(syscall.SIGQUIT) != 0 {
				vs.Fail("notify", "other signals are caught")
			}
		}
		var did []string
		n := 1 + vs.Choose(2)
		for i := 0; i < n; i++ {
			k := vs.Choose(4)
			did = append(did, []string{"SIGINT", "SIGUSR1", "parent", "cancel"}[k])
			vs.Spawn("stop", func() {
				switch k {
				case 0, 1:
					vsig.Raise([]os.Signal{syscall.SIGINT, syscall.SIGUSR1}[k])
				case 2:
					pcancel()
				case 3:
					cancel()
				}
			})
		}
		vs.Quiesce()
		if ctx.Err() == nil {
			vs.Fail("stop", "the context goes on after %v", did)
		}
		if l := vs.Live(); len(l) > 0 {
			vs.Fail("leak", "left after %v: %v", did, l)
		}
		if n := vsig.Registered(syscall.SIGINT); n != 0 {
			vs.Fail("notify", "signals are still caught after %v", did)
		}
		cancel()
		pcancel()
		vs.Quiesce()
		vs.Outcome("%v %v", early, did)
	}}
}

// flags are started by one at a time.
func flags(sched, n int) vh.Scenario {
	return vh.Scenario{Name: fmt.Sprintf("flag-%d", n), Bound: vs.Bound{Sched: sched}, Weight: vh.Weight(sched, false), Body: func() {
		var f junk.Flag
		holders, starts := 0, 0
		for i := 0; i < n; i++ {
			vs.Spawn("flag", func() {
				if err := f.Start(); err == nil {
					holders++
					starts++
					if holders > 1 {
						vs.Fail("exclusive", "two starts")
					}
					vs.Point("held")
					holders--
					f.Stop()
				}
			})
		}
		vs.Quiesce()
		if starts == 0 {
			vs.Fail("progress", "nobody could start")
		}
		if err := f.Start(); err != nil {
			vs.Fail("again", "cannot start after a stop: %v", err)
		}
		if err := f.Start(); err == nil {
			vs.Fail("exclusive", "two starts")
		}
		vs.Outcome("%d", starts)
	}}
}

// nested launchers, like the program has.
func nested(sched int) vh.Scenario {
	return vh.Scenario{Name: "nested", Bound: vs.Bound{Sched: sched}, Weight: vh.Weight(sched, false), Body: func() {
		in, out := &world{}, &world{}
		var child, parent junk.Launcher
		child.Queue(in.add(0, vs.Choose(behaviours)))
		child.Queue(in.add(1, vs.Choose(behaviours)))
		other := vs.Choose(behaviours)
		base := out.add(0, other)
		last := false
		var cerr error
		parent.Queue(func(ctx context.Context) error {
			c, cancel := vctx.WithCancel(ctx)
			defer cancel()
			err := child.Run(c)
			in.stopped = in.stopped || ctx.Err() != nil
			in.check(err)
			cerr = err
			last = true
			return err
		})
		parent.Queue(func(ctx context.Context) error { err := base(ctx); in.stopped = true; return err })
		ctx, cancel := vctx.WithCancel(context.Background())
		done := false
		var err error
		vs.Spawn("parent", func() { err = parent.Run(ctx); done = true })
		vs.Spawn("stop", func() { in.stopped, out.stopped = true, true; cancel() })
		out.stopped = true
		in.stopped = true
		vs.Quiesce()
		if !done || !last {
			vs.Fail("hang", "%s in %s: %v", in, out, vs.Live())
		}
		if (err != nil) != (cerr != nil || out.tasks[0].retErr != nil) {
			vs.Fail("result", "%s in %s: %v from %v", in, out, err, cerr)
		}
		if l := vs.Live(); len(l) > 0 {
			vs.Fail("leak", "left: %v", l)
		}
		vs.Outcome("%s in %s: %v", in, out, err)
	}}
}

func main() {
	vh.Main(vh.Check{ID: "J01", Level: "model_checking",
		Rule: "every combination of behaviours of up to three or four tasks in every schedule up to the bound, with the context ending before, during or after; the same for signals, queueing and flags",
		Scenarios: func(tier string) []vh.Scenario {
			d := 0
			if tier == "thorough" {
				d = 1
			}
			return []vh.Scenario{
				launch(0, 2, false),
				launch(1, 4+d, false),
				launch(2, 3+d, false),
				launch(3, 2+d, false),
				launch(4, 1+d, false),
				launch(2, 2+d, true),
				queueing(3 + d),
				signals(3 + d),
				flags(4+d, 3),
				nested(1 + d),
			}
		}})
}
