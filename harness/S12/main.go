//go:build go1.21

// S12: a database runs once at a time, stops when told and can run again.
package main

import (
	"context"
	"fmt"

	"github.com/vivint/rothko/database/files"
	"github.com/vivint/rothko/zz_verif/vctx"
	"github.com/vivint/rothko/zz_verif/vdb"
	"github.com/vivint/rothko/zz_verif/vh"
	"github.com/vivint/rothko/zz_verif/vs"
)

const inf = 1<<63 - 1

var points bool

// run is one call of Run.
type run struct {
	cancel    func()
	done      bool
	err       error
	began     int // events
	ended     int
	cancelled bool
}

type world struct {
	db    *files.DB
	dir   string
	opts  files.Options
	clock int
	runs  []*run
	hist  string
}

func (w *world) fail(kind, format string, args ...any) {
	vs.Fail(kind, "%s\nhistory:%s", fmt.Sprintf(format, args...), w.hist)
}

func (w *world) tick() int { w.clock++; return w.clock }

func (w *world) prepare() *run {
	ctx, cancel := vctx.WithCancel(context.Background())
	r := &run{}
	r.cancel = func() { r.cancelled = true; cancel() }
	w.runs = append(w.runs, r)
	vs.Spawn(fmt.Sprintf("run%d", len(w.runs)), func() {
		r.began = w.tick()
		r.err = w.db.Run(ctx)
		r.ended = w.tick()
		r.done = true
		if r.err == nil && !r.cancelled {
			w.fail("run", "a run that was not told to stop returned")
		}
	})
	return r
}

type value struct {
	end   int64
	calls int
	ok    bool
}

func (w *world) queue(v *value) {
	w.db.Queue(context.Background(), "a", v.end-1, v.end, vdb.Data(v.end, 70), func(ok bool, err error) {
		v.calls++
		v.ok = ok
		if err != nil {
			w.fail("write", "value [%d]: %v", v.end, err)
		}
		if v.calls > 1 {
			w.fail("write", "value [%d] was completed twice", v.end)
		}
	})
}

// serves reports a violation unless the values queued now are written.
func (w *world) serves(end int64) {
	v := &value{end: end}
	vs.Spawn("queue", func() { w.queue(v) })
	vs.Wait("served", func() bool { return v.calls > 0 })
	if !v.ok {
		w.fail("serve", "value [%d] was not written during a run", end)
	}
	found := false
	w.db.Query(context.Background(), "a", inf, nil, func(_ context.Context, s, e int64, b []byte) (bool, error) {
		found = found || e == end
		if string(b) != string(vdb.Data(e, 70)) {
			w.fail("data", "[%d,%d] has other data", s, e)
		}
		return true, nil
	})
	if !found {
		w.fail("serve", "value [%d] is not there after it was written", end)
	}
}

// clean reports a violation if something of the database is left.
func (w *world) clean(threads int) {
	st := vs.Stats()
	if st.FDs > 0 || st.Maps > 0 {
		w.fail("leak", "%d descriptors and %d mappings are left after the end of the run", st.FDs, st.Maps)
	}
	if l := vs.Live(); len(l) > threads {
		w.fail("leak", "goroutines are left after the end of the run: %v", l)
	}
}

func newWorld(buffer, workers int) *world {
	w := &world{dir: vdb.NewDir()}
	w.opts = files.Options{Size: 80, Cap: 4, Files: 2, Tuning: files.Tuning{Buffer: buffer, Handles: 2, Workers: workers}}
	w.db = files.New(w.dir, w.opts)
	return w
}

func scenario(name string, stmts bool, sched, buffer, workers int, fs bool, body func(w *world)) vh.Scenario {
	if stmts {
		name += "-stmts"
	}
	return vh.Scenario{Name: name, Weight: vh.Weight(sched, stmts), Bound: vs.Bound{Sched: sched}, Body: func() {
		vs.FS.NoPoints = !fs
		points = stmts
		w := newWorld(buffer, workers)
		defer vdb.RmDir(w.dir)
		body(w)
		points = false
		vs.Outcome("%s", w.hist)
	}}
}

// stop cancels a run, under load, at any moment, and runs again.
func stop(w *world, values ...int64) {
	r := w.prepare()
	var vals []*value
	left := 0
	for _, e := range values {
		v := &value{end: e}
		vals = append(vals, v)
		left++
		vs.Spawn("client", func() { w.queue(v); left-- })
	}
	vs.Spawn("cancel", func() { r.cancel() })
	vs.Wait("ended", func() bool { return r.done })
	if r.err != nil {
		w.fail("run", "the run returned %v", r.err)
	}
	w.clean(1 + left)
	second := w.prepare()
	vs.Wait("clients", func() bool { return left == 0 })
	vs.Wait("completions", func() bool {
		for _, v := range vals {
			if v.calls == 0 {
				return false
			}
		}
		return true
	})
	w.serves(100)
	for _, v := range vals {
		w.hist += fmt.Sprint(" ", v.end, v.ok)
	}
	second.cancel()
	vs.Wait("ended", func() bool { return second.done })
	if second.err != nil {
		w.fail("run", "the second run returned %v", second.err)
	}
	w.clean(1)
}

// twice starts several runs at once: one is active, the others fail at once.
func twice(w *world, n int) {
	var rs []*run
	for i := 0; i < n; i++ {
		rs = append(rs, w.prepare())
	}
	done := func() (k int) {
		for _, r := range rs {
			if r.done {
				k++
			}
		}
		return k
	}
	vs.Wait("refused", func() bool { return done() >= n-1 })
	w.serves(1)
	vs.Quiesce()
	if done() != n-1 {
		w.fail("run", "%d of %d runs are over", done(), n)
	}
	var active *run
	for i, r := range rs {
		if r.done && r.err == nil {
			w.fail("run", "run %d that was not told to stop returned without an error", i)
		}
		if !r.done {
			active = r
			w.hist += fmt.Sprint(" active", i)
		}
	}
	// yet another one, while the first is still in use
	late := w.prepare()
	vs.Wait("refused", func() bool { return late.done })
	if late.err == nil {
		w.fail("run", "a second run returned without an error")
	}
	w.serves(2)
	again := w.prepare()
	vs.Wait("refused", func() bool { return again.done })
	if again.err == nil {
		w.fail("run", "a third run returned without an error")
	}
	active.cancel()
	vs.Wait("ended", func() bool { return active.done })
	w.clean(1)
	next := w.prepare()
	w.serves(3)
	next.cancel()
	vs.Wait("ended", func() bool { return next.done })
	w.clean(1)
}

// handover starts a second run while the first one ends: it is refused if the
// first is not over, and otherwise works.
func handover(w *world) {
	first := w.prepare()
	w.serves(1)
	vs.Spawn("cancel", func() { first.cancel() })
	second := w.prepare()
	vs.Wait("first", func() bool { return first.done })
	vs.Quiesce()
	if second.done {
		if second.err == nil {
			w.fail("run", "the second run returned without an error")
		}
		if second.began > first.ended {
			w.fail("run", "the second run was refused after the end of the first: %v", second.err)
		}
		w.hist += " refused"
		w.clean(1)
		second = w.prepare()
	} else {
		w.hist += " accepted"
	}
	w.serves(2)
	second.cancel()
	vs.Wait("second", func() bool { return second.done })
	w.clean(1)
}

// reading ends a run while a query is in progress.
func reading(w *world) {
	first := w.prepare()
	w.serves(1)
	w.serves(2)
	left := 2
	for _, latest := range []bool{false, true} {
		latest := latest
		vs.Spawn("reader", func() {
			if latest {
				_, e, b, err := w.db.QueryLatest(context.Background(), "a", nil)
				if err != nil || e != 2 || string(b) != string(vdb.Data(2, 70)) {
					w.fail("query", "latest is %d with %d bytes: %v", e, len(b), err)
				}
			} else {
				n := int64(2)
				err := w.db.Query(context.Background(), "a", inf, nil, func(_ context.Context, s, e int64, b []byte) (bool, error) {
					if e != n || string(b) != string(vdb.Data(e, 70)) {
						w.fail("query", "[%d,%d] with %d bytes", s, e, len(b))
					}
					n--
					return true, nil
				})
				if err != nil || n != 0 {
					w.fail("query", "query ended before %d: %v", n, err)
				}
			}
			left--
		})
	}
	vs.Spawn("cancel", func() { first.cancel() })
	vs.Wait("ended", func() bool { return first.done && left == 0 })
	if l := vs.Live(); len(l) > 1 {
		w.fail("leak", "goroutines are left after the end of the run: %v", l)
	}
	second := w.prepare()
	w.serves(3)
	second.cancel()
	vs.Wait("ended", func() bool { return second.done })
	w.clean(1)
}

// before cancels the context before the run begins.
func before(w *world) {
	ctx, cancel := vctx.WithCancel(context.Background())
	cancel()
	v := &value{end: 1}
	w.queue(v)
	w.db.Run(ctx)
	w.clean(1)
	w.hist += fmt.Sprint(v.calls, v.ok)
	if v.calls != 1 {
		w.fail("write", "the value that was queued before the run was completed %d times", v.calls)
	}
	r := w.prepare()
	w.serves(2)
	r.cancel()
	vs.Wait("ended", func() bool { return r.done })
	w.clean(1)
}

func main() {
	vs.SetStmtHook(func() {
		if points {
			vs.Point("stmt")
		}
	})
	vh.Main(vh.Check{ID: "S12", Level: "model_checking",
		Rule: "every schedule, up to the deviation bound, of runs that begin, end and follow each other while values are queued and queries are made; one run is active at a time, the others are refused at once, nothing is left after the end and the next run serves again",
		Assumptions: []string{
			"goroutines, mappings and descriptors are counted by the controlled scheduler and the file shims",
			"handles that a query in progress puts back after the end of a run stay with the database until its next run ends",
		},
		Scenarios: func(tier string) (out []vh.Scenario) {
			d := 0
			if tier == "thorough" {
				d = 1
			}
			return []vh.Scenario{
				scenario("stop", false, 3+d, 1, 1, false, func(w *world) { stop(w, 1) }),
				scenario("stop-two", false, 2+d, 1, 2, false, func(w *world) { stop(w, 1, 2) }),
				scenario("stop-unbuffered", false, 2+d, 0, 1, false, func(w *world) { stop(w, 1, 2) }),
				scenario("stop-files", false, 2+d, 1, 1, true, func(w *world) { stop(w, 1) }),
				scenario("twice", false, 2+d, 1, 1, false, func(w *world) { twice(w, 2) }),
				scenario("thrice", false, 2+d, 1, 2, false, func(w *world) { twice(w, 3) }),
				scenario("handover", false, 2+d, 1, 1, false, handover),
				scenario("handover-workers", false, 2+d, 0, 2, false, handover),
				scenario("reading", false, 2+d, 1, 1, false, reading),
				scenario("before", false, 2+d, 2, 2, false, before),
				scenario("twice", true, 1+d, 1, 1, false, func(w *world) { twice(w, 2) }),
				scenario("handover", true, 1+d, 1, 1, false, handover),
				scenario("reading", true, 1+d, 1, 1, false, reading),
			}
		}})
}
