//go:build go1.21

// S10: every queued value is completed exactly once and truthfully.
package main

import (
	"context"
	"fmt"

	"github.com/vivint/rothko/database/files"
	"github.com/vivint/rothko/zz_verif/vctx"
	"github.com/vivint/rothko/zz_verif/vdb"
	"github.com/vivint/rothko/zz_verif/vh"
	"github.com/vivint/rothko/zz_verif/vs"
)

const inf = 1<<63 - 1

// value is one value to queue.
type value struct {
	metric string
	end    int64
	n      int
	cancel bool // its context may be cancelled at any time
	nocb   bool // no callback
}

type state struct {
	value
	queued, returned bool
	calls            int
	ok               bool
	err              error
	data             []byte
}

type setup struct {
	g       vdb.Geo
	buffer  int
	drop    bool
	workers int
	clients [][]value
	stop    bool // the run may end at any time
	pools   bool // pools may lose items
}

var points bool

func (s *state) queue(d *vdb.D, ctx context.Context) {
	s.queued = true
	buf := append([]byte(nil), s.data...)
	cb := func(ok bool, err error) {
		s.calls++
		s.ok, s.err = ok, err
		if s.calls > 1 {
			d.Fail("completion", "the value [%d] of %s was completed %d times", s.end, s.metric, s.calls)
		}
	}
	if s.nocb {
		cb = nil
	}
	err := d.DB.Queue(ctx, s.metric, s.end-1, s.end, buf, cb)
	s.returned = true
	// the caller may use its buffer for something else now
	for i := range buf {
		buf[i] = 0xee
	}
	if err != nil {
		d.Fail("queue", "Queue returned %v", err)
	}
}

// verify compares the database with the completions.
func verify(d *vdb.D, all []*state) {
	for _, s := range all {
		if s.calls != 1 && !s.nocb {
			d.Fail("completion", "the value [%d] of %s was completed %d times", s.end, s.metric, s.calls)
		}
		if s.ok && s.err != nil {
			d.Fail("completion", "the value [%d] of %s was completed as written with error %v", s.end, s.metric, s.err)
		}
	}
	out := ""
	for _, name := range []string{"a", "b"} {
		var want []*state
		used := false
		for _, s := range all {
			used = used || s.metric == name
			if s.metric == name && s.ok {
				want = append(want, s)
			}
		}
		if !used {
			continue
		}
		got, err := d.Query(name, inf)
		if err != nil && !(vdb.IsMissing(err) && len(want) == 0) {
			d.Fail("query", "query of %s: %v", name, err)
		}
		seen := map[int64]string{}
		for _, r := range got {
			seen[r.End] = string(r.Data)
		}
		for _, s := range all {
			if s.metric != name {
				continue
			}
			data, ok := seen[s.end]
			if ok != s.ok && !s.nocb {
				d.Fail("completion", "the value [%d] of %s was completed as %v (error %v), stored %v: %v", s.end, name, s.ok, s.err, ok, got)
			}
			if ok && data != string(s.data) {
				d.Fail("data", "the value [%d] of %s was stored with other data: %d bytes, queued %d", s.end, name, len(data), len(s.data))
			}
			delete(seen, s.end)
		}
		if len(seen) > 0 {
			d.Fail("data", "stored values of %s that were never queued: %v", name, got)
		}
		out += fmt.Sprint(name, got)
	}
	for _, s := range all {
		out += fmt.Sprint(" ", s.end, s.ok)
	}
	vs.Outcome("%s", out)
}

func open(dir string, s setup) *vdb.D {
	return vdb.Open(dir, files.Options{Size: s.g.Size, Cap: s.g.Cap, Files: s.g.Files,
		Tuning: files.Tuning{Buffer: s.buffer, Drop: s.drop, Handles: 2, Workers: s.workers}})
}

func scenario(name string, stmts bool, sched int, s setup) vh.Scenario {
	if stmts {
		name += "-stmts"
	}
	return vh.Scenario{Name: name, Weight: vh.Weight(sched, stmts), Bound: vs.Bound{Sched: sched, Env: 1}, Opt: vs.Options{PoolDrop: s.pools}, Body: func() {
		vs.FS.NoPoints = true
		points = false
		dir := vdb.NewDir()
		defer vdb.RmDir(dir)
		d := open(dir, s)
		vs.Quiesce()
		points = stmts
		ctx, cancel := vctx.WithCancel(context.Background())
		var all []*state
		left := len(s.clients)
		cancels := false
		for i, c := range s.clients {
			var mine []*state
			for _, v := range c {
				cancels = cancels || v.cancel
				mine = append(mine, &state{value: v, data: vdb.Data(v.end, v.n)})
			}
			all = append(all, mine...)
			vs.Spawn(fmt.Sprintf("client%d", i), func() {
				for _, v := range mine {
					c := context.Background()
					if v.cancel {
						c = ctx
					}
					v.queue(d, c)
				}
				left--
			})
		}
		if cancels {
			vs.Spawn("cancel", func() { cancel() })
		}
		if s.stop {
			vs.Spawn("stop", func() { d.Cancel() })
			vs.Wait("stopped", d.Stopped)
			d.Start()
		}
		vs.Wait("all", func() bool { return left == 0 })
		vs.Wait("completions", func() bool {
			for _, v := range all {
				if v.calls == 0 && !v.nocb {
					return false
				}
			}
			return true
		})
		vs.Quiesce()
		points = false
		verify(d, all)
		if err := d.Stop(); err != nil {
			d.Fail("run", "Run returned %v", err)
		}
		d = open(dir, s)
		vs.Quiesce()
		verify(d, all)
		d.Stop()
		cancel()
	}}
}

// busy queues values while the workers cannot take any: a query of the metric
// is in progress. Dropping and cancelled callers must not wait.
func busy(name string, sched int, drop bool, buffer, n int) vh.Scenario {
	return vh.Scenario{Name: name, Weight: vh.Weight(sched, false), Bound: vs.Bound{Sched: sched}, Body: func() {
		vs.FS.NoPoints = true
		points = false
		dir := vdb.NewDir()
		defer vdb.RmDir(dir)
		d := open(dir, setup{g: vdb.Geo{Size: 80, Cap: 16, Files: 1}, buffer: buffer, drop: drop, workers: 1})
		vs.Quiesce()
		first := &state{value: value{metric: "a", end: 1, n: 3}, data: vdb.Data(1, 3)}
		first.queue(d, context.Background())
		vs.Wait("first", func() bool { return first.calls > 0 })
		all := []*state{first}
		if !first.ok {
			d.Fail("completion", "the first value was not written: %v", first.err)
		}
		ctx, cancel := vctx.WithCancel(context.Background())
		left := 0
		d.DB.Query(context.Background(), "a", inf, nil, func(_ context.Context, s, e int64, b []byte) (bool, error) {
			for i := 0; i < n; i++ {
				v := &state{value: value{metric: "a", end: int64(i + 2), n: 5}, data: vdb.Data(int64(i+2), 5)}
				all = append(all, v)
				left++
				vs.Spawn("client", func() { v.queue(d, ctx); left-- })
			}
			if !drop {
				vs.Spawn("cancel", func() { cancel() })
			}
			// would be a deadlock if one of them waited for the workers
			vs.Wait("clients", func() bool { return left == 0 })
			return true, nil
		})
		vs.Wait("completions", func() bool {
			for _, v := range all {
				if v.calls == 0 {
					return false
				}
			}
			return true
		})
		verify(d, all)
		d.Stop()
		cancel()
	}}
}

func main() {
	vs.SetStmtHook(func() {
		if points {
			vs.Point("stmt")
		}
	})
	vh.Main(vh.Check{ID: "S10", Level: "model_checking",
		Rule: "every schedule, up to the deviation bound, of clients that queue values while workers write them, contexts are cancelled, the buffer is full or the run ends and another one begins; each value has to be completed once, as written exactly when it is stored with the data that it was queued with",
		Assumptions: []string{
			"a value that is queued while no run is active belongs to the next run",
			"a value without room is only dropped in dropping mode",
		},
		Scenarios: func(tier string) (out []vh.Scenario) {
			d := 0
			if tier == "thorough" {
				d = 1
			}
			g := vdb.Geo{Size: 80, Cap: 3, Files: 1}
			v := func(m string, end int64, n int) value { return value{metric: m, end: end, n: n} }
			c := func(m string, end int64, n int) value { return value{metric: m, end: end, n: n, cancel: true} }
			n := func(m string, end int64, n int) value { return value{metric: m, end: end, n: n, nocb: true} }
			q := func(v ...value) []value { return v }
			qs := func(v ...[]value) [][]value { return v }
			return []vh.Scenario{
				scenario("write", false, 2+d, setup{g: g, buffer: 1, workers: 1, clients: qs(q(v("a", 1, 70), v("a", 2, 5)), q(v("b", 1, 5)))}),
				scenario("two-workers", false, 2+d, setup{g: g, buffer: 1, workers: 2, clients: qs(q(v("a", 1, 70), v("b", 2, 5)), q(v("b", 1, 5)))}),
				scenario("rejects", false, 2+d, setup{g: g, buffer: 2, workers: 1, clients: qs(q(v("a", 2, 5), v("a", 1, 5), v("a", 3, 4*80)), q(v("a", 4, 5)))}),
				scenario("drop", false, 2+d, setup{g: g, buffer: 1, drop: true, workers: 1, clients: qs(q(v("a", 1, 70), v("a", 2, 5)), q(v("b", 1, 5), v("b", 2, 5)))}),
				scenario("drop-unbuffered", false, 2+d, setup{g: g, buffer: 0, drop: true, workers: 2, clients: qs(q(v("a", 1, 70), v("a", 2, 5)), q(v("b", 1, 5)))}),
				scenario("no-callback", false, 2+d, setup{g: g, buffer: 1, workers: 1, clients: qs(q(n("a", 1, 70), v("a", 2, 5)), q(v("b", 1, 5), n("b", 2, 5)))}),
				scenario("cancel", false, 2+d, setup{g: g, buffer: 0, workers: 1, clients: qs(q(c("a", 1, 70), c("a", 2, 5)), q(c("b", 1, 5)))}),
				scenario("cancel-drop", false, 2+d, setup{g: g, buffer: 1, drop: true, workers: 1, clients: qs(q(c("a", 1, 70), c("a", 2, 5)), q(v("b", 1, 5)))}),
				scenario("stop", false, 3+d, setup{g: g, buffer: 1, workers: 1, stop: true, clients: qs(q(v("a", 1, 70), v("a", 2, 5)), q(v("b", 1, 5)))}),
				scenario("stop-unbuffered", false, 3+d, setup{g: g, buffer: 0, workers: 1, stop: true, clients: qs(q(v("a", 1, 70)), q(v("b", 1, 5)))}),
				scenario("stop-drop", false, 2+d, setup{g: g, buffer: 1, drop: true, workers: 1, stop: true, clients: qs(q(v("a", 1, 70), v("a", 2, 5)), q(v("b", 1, 5)))}),
				scenario("stop-cancel", false, 2+d, setup{g: g, buffer: 1, workers: 2, stop: true, clients: qs(q(c("a", 1, 70), v("a", 2, 5)), q(v("b", 1, 5), n("b", 2, 5)))}),
				scenario("pools", false, 2+d, setup{g: g, buffer: 1, workers: 2, pools: true, clients: qs(q(v("a", 1, 70), v("a", 2, 5)), q(v("b", 1, 5)))}),
				scenario("write", true, 1+d, setup{g: g, buffer: 1, workers: 2, clients: qs(q(v("a", 1, 70)), q(v("b", 1, 5)))}),
				scenario("stop", true, 1+d, setup{g: g, buffer: 1, workers: 1, stop: true, clients: qs(q(v("a", 1, 70)), q(v("b", 1, 5)))}),
				busy("drop-busy", 3+d, true, 1, 4),
				busy("drop-busy-unbuffered", 3+d, true, 0, 3),
				busy("cancel-busy", 2+d, false, 1, 4),
			}
		}})
}
