//go:build go1.21

// S09: concurrent use of one metric is linearizable.
package main

import (
	"context"
	"fmt"

	"github.com/vivint/rothko/database/files"
	"github.com/vivint/rothko/zz_verif/vdb"
	"github.com/vivint/rothko/zz_verif/vh"
	"github.com/vivint/rothko/zz_verif/vs"
)

const inf = 1<<63 - 1

// write is one queued value.
type write struct {
	metric     string
	end        int64
	n          int
	queued     bool
	done       bool
	ok         bool
	err        error
	acceptedAt int
}

type read struct {
	metric string
	latest bool
	end    int64
}

type client struct {
	writes []write
	reads  []read
}

// result of a read with the writes that were acknowledged before it began and
// queued before it ended.
type result struct {
	read
	got    []vdb.Rec
	err    error
	before map[int64]bool
	after  map[int64]bool
}

// points makes every statement of the database a scheduling point.
var points bool

func scenario(name string, stmts bool, g vdb.Geo, handles, workers, sched int, pre []write, clients ...client) vh.Scenario {
	if stmts {
		name += "-stmts"
	}
	return vh.Scenario{Name: name, Weight: vh.Weight(sched, stmts), Bound: vs.Bound{Sched: sched}, Body: func() {
		vs.FS.NoPoints = true
		points = false
		dir := vdb.NewDir()
		defer vdb.RmDir(dir)
		d := vdb.Open(dir, files.Options{Size: g.Size, Cap: g.Cap, Files: g.Files,
			Tuning: files.Tuning{Buffer: 4, Handles: handles, Workers: workers}})
		vs.Quiesce()
		var all []*write
		for _, w := range pre {
			w := w
			ok, err := d.Write(w.metric, w.end-1, w.end, vdb.Data(w.end, w.n))
			if !ok || err != nil {
				d.Fail("accept", "first write: %v %v", ok, err)
			}
			w.queued, w.done, w.ok = true, true, true
			all = append(all, &w)
		}
		acked := func(metric string) map[int64]bool {
			m := map[int64]bool{}
			for _, w := range all {
				if w.metric == metric && w.done && w.ok {
					m[w.end] = true
				}
			}
			return m
		}
		queued := func(metric string) map[int64]bool {
			m := map[int64]bool{}
			for _, w := range all {
				if w.metric == metric && w.queued {
					m[w.end] = true
				}
			}
			return m
		}
		var results []*result
		left := len(clients)
		points = stmts
		for ci, c := range clients {
			var ws []*write
			for i := range c.writes {
				w := c.writes[i]
				ws = append(ws, &w)
			}
			all = append(all, ws...)
			c := c
			vs.Spawn(fmt.Sprintf("client%d", ci), func() {
				for _, w := range ws {
					w := w
					w.queued = true
					d.DB.Queue(context.Background(), w.metric, w.end-1, w.end, vdb.Data(w.end, w.n), func(ok bool, err error) {
						if w.done {
							d.Fail("completion", "completed twice")
						}
						w.ok, w.err, w.done = ok, err, true
					})
				}
				for _, r := range c.reads {
					res := &result{read: r, before: acked(r.metric)}
					if r.latest {
						var rec vdb.Rec
						rec.Start, rec.End, rec.Data, res.err = d.DB.QueryLatest(context.Background(), r.metric, nil)
						if rec.Data != nil || rec.End != 0 {
							res.got = []vdb.Rec{rec}
						}
					} else {
						res.got, res.err = d.Query(r.metric, r.end)
					}
					res.after = queued(r.metric)
					results = append(results, res)
				}
				left--
			})
		}
		vs.Wait("all", func() bool {
			if left > 0 {
				return false
			}
			for _, w := range all {
				if !w.done {
					return false
				}
			}
			return true
		})
		points = false
		// every accepted write is there, in the order of their ends
		models := map[string]*vdb.Model{}
		state := func(metric string, upto int64) *vdb.Model {
			m := &vdb.Model{Geo: g}
			for {
				var best *write
				var last int64
				if r, ok := m.Newest(); ok {
					last = r.End
				}
				for _, w := range all {
					if w.metric == metric && w.ok && w.end > last && w.end <= upto && (best == nil || w.end < best.end) {
						best = w
					}
				}
				if best == nil {
					return m
				}
				m.Write(best.end-1, best.end, vdb.Data(best.end, best.n))
			}
		}
		for _, w := range all {
			if models[w.metric] == nil {
				models[w.metric] = state(w.metric, inf)
			}
			if w.err != nil {
				d.Fail("accept", "write of [%d] to %s: %v", w.end, w.metric, w.err)
			}
			if !w.ok {
				newer := false
				for _, o := range all {
					newer = newer || o != w && o.metric == w.metric && o.ok && o.end >= w.end
				}
				if !newer {
					d.Fail("accept", "write of [%d] to %s was rejected, nothing newer was accepted", w.end, w.metric)
				}
			}
		}
		for _, name := range []string{"a", "b"} {
			if m := models[name]; m != nil {
				d.CheckQuery(m, name, inf)
				d.CheckLatest(m, name)
			}
		}
		for _, r := range results {
			check(d, r, state)
		}
		out := ""
		for _, w := range all {
			out += fmt.Sprint(w.end, w.ok, " ")
		}
		for _, r := range results {
			out += fmt.Sprint(r.got)
		}
		vs.Outcome("%s", out)
		d.Stop()
	}}
}

// check finds the moment at which the read took place.
func check(d *vdb.D, r *result, state func(string, int64) *vdb.Model) {
	if r.err != nil {
		if vdb.IsMissing(r.err) && len(r.before) == 0 {
			return
		}
		d.Fail("query", "read of %s: %v", r.metric, r.err)
	}
	low := int64(0) // the newest record that must be visible
	for e := range r.before {
		if e > low {
			low = e
		}
	}
	moments := []int64{low}
	for e := range r.after {
		if e > low {
			moments = append(moments, e)
		}
	}
	why := ""
	for _, e := range moments {
		m := state(r.metric, e)
		var want []vdb.Rec
		if r.latest {
			if n, ok := m.Newest(); ok {
				want = []vdb.Rec{n}
			}
		} else {
			want = m.Older(r.end)
		}
		s := vdb.Same(r.got, want)
		if s == "" {
			return
		}
		why += fmt.Sprintf("; at [%d]: %s", e, s)
	}
	d.Fail("linearizability", "read of %s (latest %v, end %d) has %v, acknowledged before %v, queued before its end %v%s", r.metric, r.latest, r.end, r.got, r.before, r.after, why)
}

func main() {
	vs.SetStmtHook(func() {
		if points {
			vs.Point("stmt")
		}
	})
	vh.Main(vh.Check{ID: "S09", Level: "model_checking",
		Rule: "every schedule, up to the deviation bound, of clients that queue values and read concurrently with the workers; each read is compared with the states that existed between its begin and its end, the race detector watches each schedule",
		Assumptions: []string{
			"scheduling points are the operations of package sync, channels, atomics and contexts; accesses between them are ordered by the happens-before relation or reported as races",
			"two workers may write values of one metric in either order, by design",
		},
		Scenarios: func(tier string) (out []vh.Scenario) {
			const c = 80 - vdb.Header
			d := 0
			if tier == "thorough" {
				d = 1
			}
			w := func(m string, end int64, n int) write { return write{metric: m, end: end, n: n} }
			ws := func(w ...write) []write { return w }
			rs := func(r ...read) []read { return r }
			qa, la := read{"a", false, inf}, read{"a", true, 0}
			g := vdb.Geo{80, 4, 1}
			out = append(out,
				scenario("writer-reader", false, g, 2, 1, 3+d, ws(w("a", 1, 5)),
					client{writes: ws(w("a", 2, c+1), w("a", 3, 2))}, client{reads: rs(qa, la)}),
				scenario("new-metric", false, g, 2, 1, 3+d, nil,
					client{writes: ws(w("a", 2, c+1))}, client{reads: rs(qa, qa)}),
				scenario("rolling", false, vdb.Geo{80, 1, 1}, 1, 1, 3+d, ws(w("a", 1, 5), w("a", 2, 5)),
					client{writes: ws(w("a", 3, 5), w("a", 4, 5))}, client{reads: rs(qa)}, client{reads: rs(la)}),
				scenario("two-writers", false, g, 2, 2, 2+d, ws(w("a", 1, 5)),
					client{writes: ws(w("a", 2, c+1))}, client{writes: ws(w("a", 3, c+1))}, client{reads: rs(qa)}),
				scenario("two-metrics", false, vdb.Geo{80, 1, 1}, 1, 2, 2+d, ws(w("a", 1, 5), w("b", 1, 5)),
					client{writes: ws(w("a", 2, 5), w("b", 2, 5))}, client{reads: rs(qa, read{"b", false, inf})}),
				scenario("no-cache", false, vdb.Geo{80, 2, 1}, -1, 2, 2+d, ws(w("a", 1, 5), w("b", 1, 5)),
					client{writes: ws(w("a", 2, 5)), reads: rs(qa)}, client{writes: ws(w("b", 2, 5)), reads: rs(read{"b", true, 0})}),
				scenario("read-own-write", false, g, 2, 2, 2+d, nil,
					client{writes: ws(w("a", 1, 5)), reads: rs(la, qa)}, client{writes: ws(w("a", 2, 5)), reads: rs(qa)}),
				scenario("writer-reader", true, g, 2, 1, 1+d, ws(w("a", 1, 5)),
					client{writes: ws(w("a", 2, c+1))}, client{reads: rs(qa)}),
				scenario("writer-latest", true, g, 2, 1, 1+d, ws(w("a", 1, 5)),
					client{writes: ws(w("a", 2, c+1))}, client{reads: rs(la)}),
				scenario("new-metric", true, g, 2, 1, 1+d, nil,
					client{writes: ws(w("a", 2, c+1))}, client{reads: rs(qa)}),
				scenario("rolling", true, vdb.Geo{80, 1, 1}, 1, 1, 1+d, ws(w("a", 1, 5), w("a", 2, 5)),
					client{writes: ws(w("a", 3, 5))}, client{reads: rs(qa)}),
				scenario("two-writers", true, g, 2, 2, 1+d, ws(w("a", 1, 5)),
					client{writes: ws(w("a", 2, c+1))}, client{writes: ws(w("a", 3, c+1))}),
				scenario("two-metrics", true, vdb.Geo{80, 1, 1}, 1, 2, 1+d, ws(w("a", 1, 5), w("b", 1, 5)),
					client{writes: ws(w("a", 2, 5))}, client{reads: rs(read{"b", false, inf})}),
			)
			return out
		}})
}
