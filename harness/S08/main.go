//go:build go1.21

// S08: the handle cache is transparent and never uses or leaks a mapping.
package main

import (
	"context"
	"fmt"

	"github.com/vivint/rothko/database/files"
	"github.com/vivint/rothko/zz_verif/vdb"
	"github.com/vivint/rothko/zz_verif/vh"
	"github.com/vivint/rothko/zz_verif/vs"
)

const inf = 1<<63 - 1

func opts(g vdb.Geo, handles, workers int) files.Options {
	if handles == 0 {
		handles = -1 // no cache at all; 0 asks the system
	}
	return files.Options{Size: g.Size, Cap: g.Cap, Files: g.Files,
		Tuning: files.Tuning{Buffer: 2, Handles: handles, Workers: workers}}
}

func held(d *vdb.D, handles, busy int, when string) {
	st := vs.Stats()
	if st.FDs > 2*busy || st.Maps > handles+3*busy {
		d.Fail("handles", "%s: %d descriptors and %d mappings are held with %d cached handles and %d operations", when, st.FDs, st.Maps, handles, busy)
	}
}

type op struct {
	kind   string
	metric string
	n      int
}

func history(g vdb.Geo, handles, depth int, ops []op) vh.Scenario {
	return vh.Scenario{Name: fmt.Sprintf("cap%d-files%d-handles%d-depth%d-ops%d", g.Cap, g.Files, handles, depth, len(ops)), Weight: float64(depth), Body: func() {
		vs.FS.NoPoints = true
		dir := vdb.NewDir()
		defer vdb.RmDir(dir)
		d := vdb.Open(dir, opts(g, handles, 1))
		vs.Quiesce()
		busy := 0
		vs.FS.OnOp = func(op, path string) {
			if busy > 0 {
				held(d, handles, busy, "at "+op)
			}
		}
		ms := map[string]*vdb.Model{}
		end := int64(1)
		for i := 0; i < depth; i++ {
			o := ops[vs.Choose(len(ops))]
			m := ms[o.metric]
			if m == nil && o.metric != "" {
				m = &vdb.Model{Geo: g}
				ms[o.metric] = m
			}
			busy = 1
			switch o.kind {
			case "write":
				end++
				d.Apply(m, o.metric, end-1, end, o.n)
			case "stale":
				d.Apply(m, o.metric, end-2, end-1, o.n)
			case "query":
				d.Log("query(%q)", o.metric)
				d.CheckQuery(m, o.metric, inf)
			case "stop":
				d.Log("query(%q) stopped", o.metric)
				// ends in the middle of a file with an error
				d.DB.Query(context.Background(), o.metric, inf, nil, func(ctx context.Context, s, e int64, b []byte) (bool, error) {
					return false, fmt.Errorf("stop")
				})
			case "latest":
				d.Log("latest(%q)", o.metric)
				d.CheckLatest(m, o.metric)
			case "again":
				// the same database runs again
				d.Log("stop and run again")
				d.Stop()
				busy = 0
				if st := vs.Stats(); st.FDs != 0 || st.Maps != 0 {
					d.Fail("leak", "%d descriptors and %d mappings are left after the database stopped", st.FDs, st.Maps)
				}
				d.Start()
				vs.Quiesce()
			case "restart":
				d.Restart()
				vs.Quiesce()
			}
			busy = 0
			vs.Quiesce()
			held(d, handles, 0, "after "+o.kind)
		}
		vs.FS.OnOp = nil
		for _, o := range ops {
			if o.kind == "query" {
				if m := ms[o.metric]; m != nil {
					d.CheckQuery(m, o.metric, inf)
					d.CheckLatest(m, o.metric)
				}
			}
		}
		vs.Outcome("%v", ms)
		d.Stop()
		if st := vs.Stats(); st.FDs != 0 || st.Maps != 0 {
			d.Fail("leak", "%d descriptors and %d mappings are left after the database stopped", st.FDs, st.Maps)
		}
	}}
}

// schedules has concurrent writes and queries of several metrics.
func schedules(handles, workers, sched int, files int, readers []string, writes []string) vh.Scenario {
	g := vdb.Geo{Size: 80, Cap: 1, Files: files}
	return vh.Scenario{Name: fmt.Sprintf("schedules-handles%d-workers%d-files%d-%v-%v", handles, workers, files, writes, readers), Bound: vs.Bound{Sched: sched}, Weight: 40, Body: func() {
		vs.FS.NoPoints = true
		dir := vdb.NewDir()
		defer vdb.RmDir(dir)
		d := vdb.Open(dir, opts(g, handles, workers))
		vs.Quiesce()
		for _, m := range []string{"a", "b"} {
			ok, err := d.Write(m, 0, 1, []byte{1})
			if !ok || err != nil {
				d.Fail("accept", "first write: %v %v", ok, err)
			}
		}
		left := len(readers) + len(writes)
		for i, m := range writes {
			i := i
			m := m
			d.DB.Queue(context.Background(), m, int64(i+1), int64(i+2), []byte{byte(i + 2)}, func(ok bool, err error) {
				if err != nil {
					d.Fail("accept", "write %d to %s: %v %v", i, m, ok, err)
				}
				left--
			})
		}
		for _, m := range readers {
			m := m
			vs.Spawn("reader", func() {
				last := int64(1 << 62)
				err := d.DB.Query(context.Background(), m, inf, nil, func(ctx context.Context, s, e int64, b []byte) (bool, error) {
					if e >= last || len(b) != 1 || int64(b[0]) != e {
						d.Fail("query", "query of %s has [%d,%d] %v after %d", m, s, e, b, last)
					}
					last = e
					return true, nil
				})
				if err != nil {
					d.Fail("query", "query of %s: %v", m, err)
				}
				left--
			})
		}
		vs.Wait("all", func() bool { return left == 0 })
		vs.Quiesce()
		held(d, handles, 0, "when idle")
		d.Stop()
		if st := vs.Stats(); st.FDs != 0 || st.Maps != 0 {
			d.Fail("leak", "%d descriptors and %d mappings are left after the database stopped", st.FDs, st.Maps)
		}
	}}
}

func main() {
	vh.Main(vh.Check{ID: "S08", Level: "model_checking",
		Rule: "every history of writes, queries, interrupted queries, restarts and second runs over several metrics for each number of cached handles, with the number of descriptors and mappings checked at every file operation and after each step; and every schedule up to the deviation bound of concurrent writes and queries with small caches. Released mappings become inaccessible.",
		Assumptions: []string{
			"an operation in progress uses at most three mappings at a time: two files of a write and one that is being evicted",
			"the eviction order is the one of the fixed random generator",
		},
		Scenarios: func(tier string) (out []vh.Scenario) {
			c := 80 - vdb.Header
			d := 0
			if tier == "thorough" {
				d = 1
			}
			three := []op{{"write", "a", 5}, {"write", "b", 5}, {"write", "c", 5}, {"query", "a", 0}, {"query", "b", 0}, {"again", "", 0}}
			one := []op{{"write", "a", c + 1}, {"stale", "a", 5}, {"query", "a", 0}, {"stop", "a", 0}, {"latest", "a", 0}, {"restart", "", 0}}
			big := []op{{"write", "a", 5}, {"write", "a", 3 * c}, {"stale", "a", 3 * c}, {"query", "a", 0}}
			for _, h := range []int{0, 1, 2, 3} {
				out = append(out, history(vdb.Geo{80, 1, 1}, h, 5+d, three))
				out = append(out, history(vdb.Geo{80, 3, 2}, h, 5+d, one))
				out = append(out, history(vdb.Geo{80, 2, 1}, h, 5+d, big))
				out = append(out, history(vdb.Geo{80, 1, 0}, h, 5+d, three))
			}
			for _, h := range []int{0, 1, 2} {
				out = append(out, schedules(h, 1, 3+d, 1, []string{"a", "b"}, []string{"a"}))
				out = append(out, schedules(h, 2, 3+d, 1, []string{"a"}, []string{"a", "b"}))
				out = append(out, schedules(h, 2, 2+d, 0, []string{"b", "b"}, []string{"a", "b"}))
			}
			return out
		}})
}
