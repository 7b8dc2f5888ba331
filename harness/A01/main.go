//go:build go1.21

// A01: concurrent observations are all counted, with true extremes.
package main

import (
	"context"
	"fmt"
	"math"

	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/data/load"
	"github.com/vivint/rothko/dist"
	"github.com/vivint/rothko/dist/tdigest"
	"github.com/vivint/rothko/zz_verif/vdata"
	"github.com/vivint/rothko/zz_verif/vh"
	"github.com/vivint/rothko/zz_verif/vs"
)

type add struct {
	metric string
	obs    vdata.Obs
}

func ignored(v float64) bool { return math.IsNaN(v) || math.IsInf(v, 0) }

func do(w *data.Writer, a add) {
	var id []byte
	if a.obs.ID != "" {
		id = []byte(a.obs.ID)
	}
	w.Add(context.Background(), a.metric, a.obs.Val, id)
	for i := range id {
		id[i] = '!'
	}
}

func made(all []add) map[string][]vdata.Obs {
	m := map[string][]vdata.Obs{}
	for _, a := range all {
		if !ignored(a.obs.Val) {
			m[a.metric] = append(m[a.metric], a.obs)
		}
	}
	return m
}

// capture compares what is captured with everything that was added.
func capture(w *data.Writer, all []add, exact bool) {
	want := made(all)
	w.Capture(context.Background(), func(_ context.Context, metric string, r data.Record) bool {
		r = vdata.Copy(r)
		obs, ok := want[metric]
		if !ok {
			vs.Fail("capture", "record of %q: not added, or twice", metric)
		}
		delete(want, metric)
		if exact {
			if s := vdata.Consistent(r, obs, true); s != "" {
				vs.Fail("record", "record of %q after %v: %s", metric, all, s)
			}
			vs.Outcome("%s %v %q %v %q", metric, r.Min, r.MinId, r.Max, r.MaxId)
			return true
		}
		real(r, metric, obs)
		return true
	})
	if len(want) > 0 {
		vs.Fail("capture", "no records of %v", want)
	}
}

// real checks a record with a t-digest.
func real(r data.Record, metric string, obs []vdata.Obs) {
	d, err := load.Load(context.Background(), r)
	if err != nil {
		vs.Fail("record", "distribution of %q: %v", metric, err)
		return
	}
	min, max := obs[0].Val, obs[0].Val
	for _, o := range obs {
		min, max = math.Min(min, o.Val), math.Max(max, o.Val)
	}
	if r.Observations != int64(len(obs)) || d.Len() != int64(len(obs)) {
		vs.Fail("record", "%q has %d observations, the distribution %d, added were %d", metric, r.Observations, d.Len(), len(obs))
	}
	if r.Min != min || r.Max != max {
		vs.Fail("record", "%q is from %v to %v, added were %v", metric, r.Min, r.Max, obs)
	}
	if d.Query(0) != min || d.Query(1) != max {
		vs.Fail("record", "distribution of %q is from %v to %v, added were %v", metric, d.Query(0), d.Query(1), obs)
	}
	vs.Outcome("%s %v %v %q %q %v", metric, r.Min, r.Max, r.MinId, r.MaxId, d.Query(0.5))
}

var points bool

// concurrent adds values of the alphabet by several goroutines.
func concurrent(name string, stmts bool, sched int, params dist.Params, metrics []string, vals []float64, adds ...int) vh.Scenario {
	_, exact := params.(vdata.Params)
	if stmts {
		name += "-stmts"
	}
	return vh.Scenario{Name: name, Weight: vh.Weight(sched, stmts), Bound: vs.Bound{Sched: sched}, Body: func() {
		points = false
		w := data.NewWriter(params)
		var all []add
		left := len(adds)
		for i, n := range adds {
			var mine []add
			for j := 0; j < n; j++ {
				a := add{metric: metrics[vs.Choose(len(metrics))], obs: vdata.Obs{Val: vals[vs.Choose(len(vals))], ID: fmt.Sprintf("t%d.%d", i, j)}}
				if i == 0 && j == 1 {
					a.obs.ID = ""
				}
				mine = append(mine, a)
			}
			all = append(all, mine...)
			vs.Spawn(fmt.Sprintf("adder%d", i), func() {
				for _, a := range mine {
					do(w, a)
				}
				left--
			})
		}
		points = stmts
		vs.Wait("adders", func() bool { return left == 0 })
		points = false
		capture(w, all, exact)
	}}
}

// sequence adds all sequences of values.
func sequence(depth int, vals []float64) vh.Scenario {
	return vh.Scenario{Name: fmt.Sprintf("sequence-depth%d-of%d", depth, len(vals)), Body: func() {
		points = false
		w := data.NewWriter(vdata.Params{})
		var all []add
		for i := 0; i < depth; i++ {
			k := vs.Choose(len(vals) + 1)
			if k == len(vals) {
				break
			}
			a := add{"m", vdata.Obs{Val: vals[k], ID: fmt.Sprint(i)}}
			if i%3 == 2 {
				a.obs.ID = ""
			}
			all = append(all, a)
			do(w, a)
		}
		vs.Outcome("%v", all)
		// reading it does not change it
		w.Iterate(context.Background(), func(_ context.Context, metric string, r data.Record) bool {
			if s := vdata.Consistent(r, made(all)[metric], true); s != "" {
				vs.Fail("record", "iterated record of %q after %v: %s", metric, all, s)
			}
			return true
		})
		capture(w, all, true)
	}}
}

// failing has parameters that cannot make a distribution at first.
func failing(fail, adds, sched int) vh.Scenario {
	return vh.Scenario{Name: fmt.Sprintf("failing%d-adds%d", fail, adds), Bound: vs.Bound{Sched: sched}, Body: func() {
		points = false
		f := fail
		w := data.NewWriter(vdata.Params{Fail: &f, Points: true})
		left := adds
		for i := 0; i < adds; i++ {
			i := i
			vs.Spawn("adder", func() {
				do(w, add{"m", vdata.Obs{Val: float64(i), ID: fmt.Sprint(i)}})
				left--
			})
		}
		vs.Wait("adders", func() bool { return left == 0 })
		n := int64(0)
		var obs []vdata.Obs
		for i := 0; i < adds; i++ {
			obs = append(obs, vdata.Obs{Val: float64(i), ID: fmt.Sprint(i)})
		}
		w.Capture(context.Background(), func(_ context.Context, metric string, r data.Record) bool {
			n += r.Observations
			if s := vdata.Consistent(vdata.Copy(r), obs, false); s != "" {
				vs.Fail("record", "%s", s)
			}
			return true
		})
		if int(n) != adds-fail {
			vs.Fail("record", "%d observations were captured, %d of %d could not be counted", n, fail, adds)
		}
		vs.Outcome("%d", n)
	}}
}

func main() {
	vs.SetStmtHook(func() {
		if points {
			vs.Point("stmt")
		}
	})
	vh.Main(vh.Check{ID: "A01", Level: "model_checking",
		Rule: "every assignment of values of the alphabet to the observations of concurrent goroutines and every schedule of them up to the deviation bound (some with every statement as a scheduling point), and every sequence of values, followed by a capture; the record is compared with all observations. A distribution that keeps all observations and reports overlapping use stands for the real ones, the t-digest is used as well, and the race detector watches each schedule.",
		Assumptions: []string{
			"accesses between synchronisation operations are ordered or reported as races",
		},
		Scenarios: func(tier string) (out []vh.Scenario) {
			d := 0
			if tier == "thorough" {
				d = 1
			}
			ex := vdata.Params{Points: true}
			m, mm := []string{"m"}, []string{"m", "n"}
			inf := math.Inf(1)
			return []vh.Scenario{
				concurrent("two-by-one", false, 4+d, ex, m, []float64{-1, 0, 1, 2}, 1, 1),
				concurrent("two-by-two", false, 2+d, ex, m, []float64{-1, 1, 2}, 2, 2),
				concurrent("three-by-one", false, 3+d, ex, m, []float64{-1, 1, 2}, 1, 1, 1),
				concurrent("two-metrics", false, 2+d, ex, mm, []float64{-1, 2}, 2, 1),
				concurrent("specials", false, 2+d, ex, m, []float64{1, inf, -inf, math.NaN()}, 1, 1, 1),
				concurrent("two-by-one", true, 3+d, ex, m, []float64{-1, 1, 2}, 1, 1),
				concurrent("tdigest", false, 3+d, tdigest.Params{Compression: 5}, m, []float64{-1, 1, 2}, 2, 1),
				concurrent("tdigest", true, 2+d, tdigest.Params{Compression: 5}, m, []float64{-1, 1}, 1, 1),
				failing(1, 3, 3+d),
				failing(3, 3, 3+d),
				sequence(6+d, []float64{-1, 0, 1, math.Copysign(0, -1), 5}),
				sequence(4+d, []float64{math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, 1, inf, -inf, math.NaN()}),
			}
		}})
}
