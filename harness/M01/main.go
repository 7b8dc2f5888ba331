//go:build go1.21

// M01: merging records keeps counts, extremes, times and all observations.
package main

import (
	"bytes"
	"context"
	"fmt"
	"math"
	"reflect"
	"sort"

	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/data/load"
	"github.com/vivint/rothko/dist/tdigest"
	"github.com/vivint/rothko/merge"
	"github.com/vivint/rothko/zz_verif/vh"
	"github.com/vivint/rothko/zz_verif/vs"
)

var bg = context.Background()

// input is a record together with the observations it stands for.
type input struct {
	rec  data.Record
	vals []float64
}

func record(start, end int64, vals []float64, min, max string, merged int64, comp float64) input {
	d, err := tdigest.Params{Compression: comp}.New()
	if err != nil {
		vs.Fail("new", "%v", err)
	}
	rec := data.Record{StartTime: start, EndTime: end, Observations: int64(len(vals)),
		Kind: "tdigest", MinId: []byte(min), MaxId: []byte(max), Merged: merged}
	for i, v := range vals {
		d.Observe(v)
		if i == 0 || v < rec.Min {
			rec.Min = v
		}
		if i == 0 || v > rec.Max {
			rec.Max = v
		}
	}
	rec.Distribution = d.Marshal(nil)
	return input{rec, vals}
}

func clone(in []input) (out []data.Record) {
	for _, i := range in {
		buf, err := i.rec.Marshal()
		if err != nil {
			vs.Fail("marshal", "%v", err)
		}
		var rec data.Record
		if err := rec.Unmarshal(buf); err != nil {
			vs.Fail("marshal", "%v", err)
		}
		out = append(out, rec)
	}
	return out
}

func desc(in []input) (out string) {
	for _, i := range in {
		out += fmt.Sprintf("[%d-%d %v min=%v(%s) max=%v(%s) merged=%d]", i.rec.StartTime, i.rec.EndTime,
			i.vals, i.rec.Min, i.rec.MinId, i.rec.Max, i.rec.MaxId, i.rec.Merged)
	}
	return out
}

// quantile interpolates between the ordered observations.
func quantile(sorted []float64, q float64) float64 {
	x := q * float64(len(sorted)-1)
	i := int(x)
	if i+1 >= len(sorted) {
		return sorted[len(sorted)-1]
	}
	return sorted[i]*(1-(x-float64(i))) + sorted[i+1]*(x-float64(i))
}

// check merges the records and compares the result with the reference.
// exact tells that the digest keeps all of the observations apart.
func check(in []input, comp float64, exact bool) {
	recs := clone(in)
	given := clone(in)
	out, err := merge.Merge(bg, merge.MergeOptions{Params: tdigest.Params{Compression: comp}, Records: recs})
	if err != nil {
		vs.Fail("error", "merging %s: %v", desc(in), err)
		return
	}
	for i := range recs {
		if !reflect.DeepEqual(recs[i], given[i]) {
			vs.Fail("modified", "merging changes its input %s to %v", desc(in), recs)
		}
	}
	var all []float64
	var obs, merged int64
	start, end := in[0].rec.StartTime, in[0].rec.EndTime
	min, max := in[0].rec.Min, in[0].rec.Max
	for _, i := range in {
		all = append(all, i.vals...)
		obs += i.rec.Observations
		if i.rec.Merged == 0 {
			merged++
		}
		merged += i.rec.Merged
		if i.rec.StartTime < start {
			start = i.rec.StartTime
		}
		if i.rec.EndTime > end {
			end = i.rec.EndTime
		}
		min, max = math.Min(min, i.rec.Min), math.Max(max, i.rec.Max)
	}
	sort.Float64s(all)
	minok, maxok := false, false
	for _, i := range in {
		minok = minok || i.rec.Min == min && bytes.Equal(i.rec.MinId, out.MinId)
		maxok = maxok || i.rec.Max == max && bytes.Equal(i.rec.MaxId, out.MaxId)
	}
	switch {
	case out.Observations != obs:
		vs.Fail("observations", "merging %s: %d observations", desc(in), out.Observations)
	case out.Merged != merged:
		vs.Fail("merged", "merging %s: made of %d", desc(in), out.Merged)
	case out.StartTime != start || out.EndTime != end:
		vs.Fail("times", "merging %s: from %d to %d", desc(in), out.StartTime, out.EndTime)
	case out.Min != min || !minok:
		vs.Fail("min", "merging %s: the minimum is %v of %q", desc(in), out.Min, out.MinId)
	case out.Max != max || !maxok:
		vs.Fail("max", "merging %s: the maximum is %v of %q", desc(in), out.Max, out.MaxId)
	}
	d, err := load.Load(bg, out)
	if err != nil {
		vs.Fail("distribution", "merging %s: %v", desc(in), err)
		return
	}
	if d.Len() != int64(len(all)) {
		vs.Fail("distribution", "merging %s: the distribution has %d observations", desc(in), d.Len())
	}
	var qs []float64
	scale := math.Max(math.Abs(min), math.Abs(max))
	for i := 0; i <= 16; i++ {
		q := float64(i) / 16
		got := d.Query(q)
		qs = append(qs, got)
		if math.IsNaN(got) || i > 0 && got < qs[i-1]-1e-6*scale {
			vs.Fail("distribution", "merging %s: quantiles %v", desc(in), qs)
		}
		if want := quantile(all, q); exact && math.Abs(got-want) > 1e-6*scale {
			vs.Fail("distribution", "merging %s: the %v quantile is %v, not %v", desc(in), q, got, want)
		}
	}
	vs.Outcome("%s: %v", desc(in), out)
}

// pick makes a list of one to n records out of the domain, in every order.
func pick(n, domain int, make func(i, k int) input) (in []input) {
	l := 1 + vs.Choose(n)
	for i := 0; i < l; i++ {
		in = append(in, make(i, vs.Choose(domain)))
	}
	return in
}

// multisets over the values up to the size.
func multisets(vals []float64, size int) (out [][]float64) {
	var rec func(cur []float64, from int)
	rec = func(cur []float64, from int) {
		if len(cur) > 0 {
			out = append(out, append([]float64(nil), cur...))
		}
		if len(cur) == size {
			return
		}
		for i := from; i < len(vals); i++ {
			rec(append(cur, vals[i]), i)
		}
	}
	rec(nil, 0)
	return out
}

func values(name string, n, size int, vals []float64, comp float64, exact bool) vh.Scenario {
	sets := multisets(vals, size)
	return vh.Scenario{Name: fmt.Sprintf("values-%s-%dx%d", name, n, len(sets)),
		Body: func() {
			in := pick(n, len(sets), func(i, k int) input {
				return record(int64(10+i), int64(20+i), sets[k], fmt.Sprint("min", i), fmt.Sprint("max", i), 1, comp)
			})
			check(in, comp, exact)
		}}
}

func fields(n int) vh.Scenario {
	type field struct {
		start, end, merged int64
		val                float64
		id                 string
	}
	var dom []field
	for _, t := range [][2]int64{{0, 1}, {1, 1}, {0, 3}, {2, 3}, {-2, 1}, {1 << 60, 1<<60 + 5}} {
		for _, m := range []int64{0, 1, 3} {
			for _, id := range []string{"", "id"} {
				dom = append(dom, field{t[0], t[1], m, float64(len(dom) % 3), id})
			}
		}
	}
	return vh.Scenario{Name: fmt.Sprintf("fields-%d", n), Body: func() {
		in := pick(n, len(dom), func(i, k int) input {
			f, id := dom[k], dom[k].id
			if id != "" {
				id += fmt.Sprint(i)
			}
			return record(f.start, f.end, []float64{f.val - 1}, id, id, f.merged, 5)
		})
		check(in, 5, true)
	}}
}

// mixed merges distributions of different sizes into another size.
func mixed(n int) vh.Scenario {
	comps := []float64{0.5, 5, 100}
	sets := multisets([]float64{-3, 0.5, 8}, 2)
	return vh.Scenario{Name: fmt.Sprintf("mixed-%d", n), Body: func() {
		comp := comps[vs.Choose(len(comps))]
		in := pick(n, len(sets)*len(comps), func(i, k int) input {
			return record(int64(10+i), int64(20+i), sets[k/len(comps)], fmt.Sprint("min", i), fmt.Sprint("max", i), 1, comps[k%len(comps)])
		})
		check(in, comp, false)
	}}
}

// refused has lists which cannot be merged.
func refused() vh.Scenario {
	return vh.Scenario{Name: "refused", Body: func() {
		good := record(1, 2, []float64{1, 2}, "a", "b", 1, 5)
		n := vs.Choose(4)
		bad := -1
		var in []input
		for i := 0; i < n; i++ {
			in = append(in, good)
		}
		comp := float64(vs.Choose(2)) * 5
		what := ""
		if n > 0 {
			bad = vs.Choose(n+1) - 1
			if bad >= 0 {
				r := record(1, 2, []float64{1, 2}, "a", "b", 1, 5)
				k := vs.Choose(2 + len(r.rec.Distribution))
				switch {
				case k == 0:
					what, r.rec.Kind = "unknown kind", "other"
				case k == 1:
					what, r.rec.Kind = "no kind", ""
				default:
					what = fmt.Sprintf("%d bytes", k-2)
					r.rec.Distribution = r.rec.Distribution[:k-2]
				}
				in[bad] = r
			}
		}
		out, err := merge.Merge(bg, merge.MergeOptions{Params: tdigest.Params{Compression: comp}, Records: clone(in)})
		want := n == 0 || bad >= 0 || comp == 0
		if (err != nil) != want {
			vs.Fail("refuse", "merging %d records with compression %v, record %d has %s: %v, %v", n, comp, bad, what, out, err)
		}
		vs.Outcome("%d %d %s %v: %v", n, bad, what, comp, err != nil)
	}}
}

func main() {
	vh.Main(vh.Check{ID: "M01", Level: "model_checking",
		Rule: "every list (so every order) of up to three or four records over the domains of values, identifiers, times and merge counts; all fields of the merged record and its quantiles are compared with a reference over all of the observations",
		Scenarios: func(tier string) []vh.Scenario {
			if tier == "thorough" {
				return []vh.Scenario{
					refused(),
					mixed(4),
					fields(4),
					values("exact", 4, 2, []float64{-1, 0, 2, 2.5}, 5, true),
					values("exact", 3, 3, []float64{-4096, -1, 0, 2.5, 7}, 5, true),
					values("merged", 4, 3, []float64{-1, 0, 2}, 0.5, false),
				}
			}
			return []vh.Scenario{
				refused(),
				mixed(3),
				fields(3),
				values("exact", 4, 2, []float64{-1, 0, 2}, 5, true),
				values("exact", 3, 3, []float64{-1, 0, 2.5}, 5, true),
				values("merged", 3, 4, []float64{-1, 0, 2}, 0.5, false),
			}
		}})
}
