//go:build go1.21

// S11: the metric listing is complete, sorted, without duplicates and
// read-only.
package main

import (
	"context"
	"fmt"
	"sort"

	"github.com/vivint/rothko/database/files"
	"github.com/vivint/rothko/zz_verif/vdb"
	"github.com/vivint/rothko/zz_verif/vh"
	"github.com/vivint/rothko/zz_verif/vs"
)

const inf = 1<<63 - 1

// step is what a client does: "list", "refresh", "query NAME", "latest NAME",
// "reject NAME" and otherwise a write of a metric.
type step struct {
	kind string
	name string
}

func list() step           { return step{"list", ""} }
func refresh() step        { return step{"refresh", ""} }
func write(n string) step  { return step{"write", n} }
func query(n string) step  { return step{"query", n} }
func latest(n string) step { return step{"latest", n} }
func reject(n string) step { return step{"reject", n} }

type world struct {
	d      *vdb.D
	queued []string
	acked  []string
	out    string
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// list checks a listing: it has at least the names that were acknowledged
// before it began and at most those that were queued before it ended.
func (w *world) list(who string) {
	before := append([]string(nil), w.acked...)
	var got []string
	err := w.d.DB.Metrics(context.Background(), func(name string) (bool, error) {
		got = append(got, name)
		return true, nil
	})
	if err != nil {
		w.d.Fail("listing", "%s: %v", who, err)
	}
	for i := 1; i < len(got); i++ {
		if got[i-1] >= got[i] {
			w.d.Fail("listing", "%s: not sorted or twice the same: %q", who, got)
		}
	}
	for _, n := range before {
		if !has(got, n) {
			w.d.Fail("listing", "%s: %q was acknowledged before and is missing in %q", who, n, got)
		}
	}
	for _, n := range got {
		if !has(w.queued, n) {
			w.d.Fail("listing", "%s: %q was never written, listed in %q", who, n, got)
		}
	}
	w.out += fmt.Sprint(got)
}

func (w *world) run(who string, st step) {
	switch st.kind {
	case "list":
		w.list(who)
	case "refresh":
		if err := w.d.DB.PopulateMetrics(context.Background()); err != nil {
			w.d.Fail("refresh", "%s: %v", who, err)
		}
	case "query":
		w.d.Query(st.name, inf)
	case "latest":
		w.d.DB.QueryLatest(context.Background(), st.name, nil)
	case "reject":
		// does not fit into any file
		if ok, _ := w.d.Write(st.name, 0, 1, make([]byte, 10000)); ok {
			w.d.Fail("accept", "too large value was accepted")
		}
	case "write":
		w.queued = append(w.queued, st.name)
		ok, err := w.d.Write(st.name, 1, 2, []byte("x"))
		if !ok {
			w.d.Fail("accept", "write of %q: %v %v", st.name, ok, err)
		}
		w.acked = append(w.acked, st.name)
	}
}

var points bool

type conf struct {
	pre     []string // metrics on disk before
	loading bool     // the initial load is concurrent with the clients
	again   bool     // the database runs again, with what it knows
	workers int
	fs      bool // file operations are scheduling points
	desc    bool
	dirents int
	clients [][]step
}

func scenario(name string, stmts bool, sched int, c conf) vh.Scenario {
	if stmts {
		name += "-stmts"
	}
	return vh.Scenario{Name: name, Weight: vh.Weight(sched, stmts), Bound: vs.Bound{Sched: sched}, Body: func() {
		vs.FS.NoPoints = !c.fs
		vs.FS.Desc = c.desc
		vs.FS.DirentBuf, vs.FS.Holes = c.dirents, false
		points = false
		opts := files.Options{Size: 80, Cap: 2, Files: 1, Tuning: files.Tuning{Buffer: 4, Handles: 4, Workers: c.workers}}
		dir := vdb.NewDir()
		defer vdb.RmDir(dir)
		w := &world{d: vdb.Open(dir, opts)}
		vs.Quiesce()
		for _, n := range c.pre {
			w.run("before", write(n))
		}
		if c.again {
			// nothing listed the names yet
			w.d.Stop()
			w.d.Start()
		} else {
			w.list("before")
		}
		if c.loading {
			// the load and the clients go on together: until it is done the
			// old names may be missing
			w.d.Restart()
			w.acked = nil
		}
		left := len(c.clients)
		points = stmts
		for i, steps := range c.clients {
			steps := steps
			who := fmt.Sprintf("client%d", i)
			vs.Spawn(who, func() {
				for _, st := range steps {
					w.run(who, st)
				}
				left--
			})
		}
		vs.Wait("clients", func() bool { return left == 0 })
		vs.Quiesce()
		points = false
		for _, n := range c.pre {
			if !has(w.acked, n) {
				w.acked = append(w.acked, n)
			}
		}
		w.list("after")
		w.run("after", refresh())
		w.list("after a refresh")
		w.d.Restart()
		vs.Quiesce()
		w.list("after a restart")
		w.d.Stop()
		vs.Outcome("%s", w.out)
	}}
}

// history is sequential: all sequences of steps up to the depth.
func history(depth, workers int, dirents int, desc bool, steps ...step) vh.Scenario {
	return vh.Scenario{Name: fmt.Sprintf("history-depth%d-ops%d-dirents%d-desc%v", depth, len(steps), dirents, desc), Weight: 1, Body: func() {
		vs.FS.NoPoints = true
		vs.FS.Desc, vs.FS.DirentBuf, vs.FS.Holes = desc, dirents, dirents < 0
		points = false
		dir := vdb.NewDir()
		defer vdb.RmDir(dir)
		w := &world{d: vdb.Open(dir, files.Options{Size: 80, Cap: 2, Files: 1, Tuning: files.Tuning{Buffer: 1, Handles: 4, Workers: workers}})}
		vs.Quiesce()
		end := int64(10)
		for i := 0; i < depth; i++ {
			st := steps[vs.Choose(len(steps))]
			switch st.kind {
			case "restart":
				w.d.Restart()
				vs.Quiesce()
			case "rerun":
				w.d.Log("rerun")
				w.d.Stop()
				w.d.Start()
			case "write":
				end++
				w.queued = append(w.queued, st.name)
				if ok, err := w.d.Write(st.name, end-1, end, []byte("x")); !ok {
					w.d.Fail("accept", "write of %q: %v %v", st.name, ok, err)
				}
				w.acked = append(w.acked, st.name)
			default:
				w.d.Log("%s %q", st.kind, st.name)
				w.run("history", st)
			}
			w.out = ""
			if st.kind != "list" && i == depth-1 {
				w.list("last")
			}
		}
		sort.Strings(w.acked)
		vs.Outcome("%s", w.out)
		w.d.Restart()
		vs.Quiesce()
		w.list("after a restart")
		w.d.Stop()
	}}
}

var errStop = fmt.Errorf("stop")

// callbacks: a listing ends when the callback says so, hands its error out,
// and the callback may use the database.
func callbacks(max int) vh.Scenario {
	return vh.Scenario{Name: fmt.Sprintf("callbacks-%d", max), Weight: 1, Body: func() {
		vs.FS.NoPoints = true
		vs.FS.Desc, vs.FS.DirentBuf, vs.FS.Holes = false, 0, false
		points = false
		dir := vdb.NewDir()
		defer vdb.RmDir(dir)
		w := &world{d: vdb.Open(dir, files.Options{Size: 80, Cap: 2, Files: 1, Tuning: files.Tuning{Buffer: 1, Handles: 1, Workers: 2}})}
		vs.Quiesce()
		all := []string{"a", "a.b", "b", "c.d", "e"}[:max]
		for _, n := range all {
			switch vs.Choose(4) {
			case 1:
				w.run("write", write(n))
			case 2:
				w.run("write", write(n))
				w.list("between")
			case 3:
				w.run("write", write(n))
				w.d.Restart()
				vs.Quiesce()
			}
		}
		want := append([]string(nil), w.acked...)
		sort.Strings(want)
		// the first listing merges, with a callback that uses the database
		use := vs.Choose(4)
		var got []string
		err := w.d.DB.Metrics(context.Background(), func(n string) (bool, error) {
			got = append(got, n)
			switch use {
			case 1:
				w.list("in a callback")
			case 2:
				if _, e, b, err := w.d.DB.QueryLatest(context.Background(), n, nil); e != 2 || string(b) != "x" || err != nil {
					w.d.Fail("listing", "latest of %q in a callback is %d %q, %v", n, e, b, err)
				}
			case 3:
				if len(got) == 1 {
					w.run("in a callback", write("f"))
					w.run("in a callback", refresh())
				}
			}
			return true, nil
		})
		if err != nil || len(got) < len(want) || fmt.Sprint(got[:len(want)]) != fmt.Sprint(want) {
			w.d.Fail("listing", "listing is %q, %v, want %q", got, err, want)
		}
		w.list("after")
		want = append([]string(nil), w.acked...)
		sort.Strings(want)
		for k := 1; k <= len(want); k++ {
			for mode := 0; mode < 3; mode++ {
				var fail error
				if mode > 0 {
					fail = errStop
				}
				got = nil
				err := w.d.DB.Metrics(context.Background(), func(n string) (bool, error) {
					got = append(got, n)
					if len(got) == k {
						return mode == 2, fail
					}
					return true, nil
				})
				if fmt.Sprint(got) != fmt.Sprint(want[:k]) || (err != nil) != (fail != nil) {
					w.d.Fail("listing", "a callback that returns %v, %v for name %d of %q gets %q, the listing returns %v", mode == 2, fail, k, want, got, err)
				}
			}
		}
		vs.Outcome("%s", want)
		w.d.Stop()
	}}
}

func main() {
	vs.SetStmtHook(func() {
		if points {
			vs.Point("stmt")
		}
	})
	vh.Main(vh.Check{ID: "S11", Level: "model_checking",
		Rule: "every schedule, up to the deviation bound, of clients that write new metrics, list and refresh concurrently, with the workers and the load of the names at the start, and every sequence of writes, rejected writes, queries, listings, refreshes and restarts up to the depth; each listing is compared with the names acknowledged before it began and those queued before it ended; callbacks that stop or fail at each name, or use the database",
		Assumptions: []string{
			"while the names are loaded after a start, a listing may lack names of earlier runs",
		},
		Scenarios: func(tier string) (out []vh.Scenario) {
			d := 0
			if tier == "thorough" {
				d = 1
			}
			cs := func(s ...[]step) [][]step { return s }
			s := func(s ...step) []step { return s }
			return []vh.Scenario{
				scenario("write-list", false, 3+d, conf{workers: 1, clients: cs(s(write("a")), s(list(), list()))}),
				scenario("write-list-two", false, 2+d, conf{workers: 2, clients: cs(s(write("b")), s(write("a"), list()), s(list()))}),
				scenario("lists", false, 3+d, conf{workers: 1, clients: cs(s(write("a"), list()), s(list()), s(list()))}),
				scenario("lists-two-workers", false, 2+d, conf{workers: 2, pre: []string{"m"}, clients: cs(s(write("z"), write("a")), s(list(), list()), s(list()))}),
				scenario("refresh-write", false, 3+d, conf{workers: 1, fs: true, clients: cs(s(write("a"), list()), s(refresh(), list()))}),
				scenario("refresh-deep", false, 2+d, conf{workers: 1, fs: true, pre: []string{"x.y", "x"}, clients: cs(s(write("x.a"), list()), s(refresh(), list()))}),
				scenario("refresh-list", false, 2+d, conf{workers: 1, fs: true, pre: []string{"m"}, clients: cs(s(write("a"), list()), s(refresh()), s(list()))}),
				scenario("refresh-twice", false, 2+d, conf{workers: 1, fs: true, pre: []string{"m"}, clients: cs(s(write("a"), list()), s(refresh(), refresh()))}),
				scenario("refreshes", false, 2+d, conf{workers: 1, fs: true, clients: cs(s(write("a"), list()), s(refresh()), s(refresh(), list()))}),
				scenario("loading", false, 2+d, conf{workers: 1, fs: true, loading: true, pre: []string{"m", "n.o"}, clients: cs(s(write("a"), list(), list()))}),
				scenario("loading-list", false, 2+d, conf{workers: 1, fs: true, loading: true, pre: []string{"m"}, clients: cs(s(write("m.b"), list()), s(list()))}),
				scenario("again", false, 2+d, conf{workers: 1, again: true, pre: []string{"m"}, clients: cs(s(write("a"), list()), s(list()))}),
				scenario("read-only", false, 2+d, conf{workers: 1, clients: cs(s(query("q"), list()), s(latest("r"), reject("t"), list()))}),
				scenario("write-list", true, 1+d, conf{workers: 1, clients: cs(s(write("a")), s(list()))}),
				scenario("lists", true, 1+d, conf{workers: 1, clients: cs(s(write("a"), list()), s(list()))}),
				scenario("refresh", true, 1+d, conf{workers: 1, pre: []string{"m"}, clients: cs(s(write("a"), list()), s(refresh()))}),
				callbacks(4 + d),
				history(5+d, 1, 0, false, write("a"), write("a.b"), list(), refresh(), step{"restart", ""}, query("q")),
				history(4+d, 2, 64, true, write("b"), write("a"), write(""), list(), refresh(), step{"restart", ""}, reject("t"), latest("q")),
				history(5+d, 1, 0, false, write("b"), write("a"), list(), step{"rerun", ""}),
				history(3+d, 1, -1, false, write("b"), write("a"), write("a.b"), list(), refresh(), step{"restart", ""}),
				history(5+d, 1, 40, false, write("b"), write("a"), write("c"), list(), refresh()),
			}
		}})
}
