//go:build go1.21

// M03: distributions answer consistently and survive storage.
package main

import (
	"bytes"
	"context"
	"fmt"
	"math"

	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/data/load"
	"github.com/vivint/rothko/dist"
	"github.com/vivint/rothko/dist/tdigest"
	"github.com/vivint/rothko/zz_verif/vh"
	"github.com/vivint/rothko/zz_verif/vs"
)

var grid []float64

func init() {
	for i := 0; i <= 32; i++ {
		grid = append(grid, float64(i)/32)
	}
	grid = append(grid, 0.001, 0.999, 1.0/3)
}

// stored is the value that stands for v: the stored form has differences of
// 32 bits.
func stored(v float64) float64 {
	const max = math.MaxFloat32 / 2
	return math.Max(-max, math.Min(max, v))
}

// near compares quantiles: a digest computes with rounding and is stored with
// the precision of 32 bit numbers.
func near(a, b, scale, prec float64) bool { return math.Abs(a-b) <= prec*scale }

const (
	rounding = 1e-12
	storage  = 1e-6
)

// answers compares all answers of a distribution with the observations.
func answers(d dist.Dist, vals []float64, exact, loaded bool, at []float64) (q, c []float64) {
	if d.Len() != int64(len(vals)) {
		vs.Fail("count", "%d observations are counted after %v", d.Len(), vals)
	}
	for _, x := range grid {
		q = append(q, d.Query(x))
	}
	for _, x := range at {
		c = append(c, d.CDF(x))
	}
	if len(vals) == 0 {
		return q, c
	}
	min, max := vals[0], vals[0]
	for _, v := range vals {
		min, max = math.Min(min, v), math.Max(max, v)
	}
	scale := math.Max(math.Abs(min), math.Abs(max))
	tiny := scale * rounding
	if loaded {
		tiny = scale * storage
	}
	for i, v := range q {
		if math.IsNaN(v) || math.IsInf(v, 0) || exact && (v < min-tiny || v > max+tiny) {
			vs.Fail("quantile", "the %v quantile of %v is %v", grid[i], vals, v)
		}
		if i > 0 && i <= 32 && v < q[i-1]-tiny {
			vs.Fail("quantile", "the %v quantile of %v is %v, the %v quantile is %v", grid[i], vals, v, grid[i-1], q[i-1])
		}
	}
	if exact && !loaded && (q[0] != min || q[32] != max) {
		vs.Fail("quantile", "%v is taken to be from %v to %v", vals, q[0], q[32])
	}
	for i, v := range c {
		if !(v >= 0 && v <= 1) {
			vs.Fail("cdf", "the share below %v of %v is %v", at[i], vals, v)
		}
		if i > 0 && v < c[i-1] {
			vs.Fail("cdf", "the share below %v of %v is %v, below %v it is %v", at[i], vals, v, at[i-1], c[i-1])
		}
		if exact && !loaded && at[i] >= max && min < max && v != 1 {
			vs.Fail("cdf", "the share up to %v of %v is %v", at[i], vals, v)
		}
		if at[i] > q[32] && v != 1 || at[i] < q[0] && v != 0 {
			vs.Fail("cdf", "the share below %v of %v is %v", at[i], vals, v)
		}
		if exact {
			// the share of the observations up to there, at most the
			// resolution and one observation away
			hi := 0
			for _, o := range vals {
				if o <= at[i] {
					hi++
				}
			}
			n, eps := float64(len(vals)), 1.0/64+1/float64(len(vals))
			if at[i] <= q[0] {
				hi = 0 // the least value has the lowest share
			}
			if v < float64(hi)/n-eps || v > float64(hi)/n+eps {
				vs.Fail("cdf", "the share below %v of %v is %v", at[i], vals, v)
			}
		}
	}
	return q, c
}

func scenario(comp float64, depth int, vals []float64, exact, between bool) vh.Scenario {
	var at []float64
	lo, hi := vals[0], vals[0]
	for _, v := range vals {
		lo, hi = math.Min(lo, stored(v)), math.Max(hi, stored(v))
	}
	lo, hi = stored(lo), stored(hi)
	for i := -1; i <= 17; i++ {
		at = append(at, lo+(hi-lo)*float64(i)/16)
	}
	name := fmt.Sprintf("compression%v-depth%d-of%d", comp, depth, len(vals))
	if between {
		name += "-between"
	}
	return vh.Scenario{Name: name, Body: func() {
		params := tdigest.Params{Compression: comp}
		d, err := params.New()
		if err != nil {
			vs.Fail("new", "%v", err)
		}
		var made []float64
		n := 1 + vs.Choose(depth)
		for i := 0; i < n; i++ {
			if between {
				// the answers in between must not stick
				d.CDF(vals[0])
				d.Query(0.5)
				if i > 0 {
					answers(d, made, exact, false, at)
				}
			}
			v := vals[vs.Choose(len(vals))]
			d.Observe(v)
			made = append(made, stored(v))
		}
		q, c := answers(d, made, exact, false, at)
		// storage
		head := []byte("head")
		b := d.Marshal(head[:len(head):len(head)])
		if !bytes.HasPrefix(b, head) {
			vs.Fail("storage", "Marshal does not append")
		}
		b = b[len(head):]
		loaded, err := load.Load(context.Background(), data.Record{Kind: d.Kind(), Distribution: b})
		if err != nil {
			vs.Fail("storage", "%v: %v", made, err)
			return
		}
		q2, c2 := answers(loaded, made, exact, true, at)
		scale := math.Max(math.Abs(lo), math.Abs(hi))
		for i := range q {
			if exact && !near(q[i], q2[i], scale, storage) {
				vs.Fail("storage", "the %v quantile of %v is %v, after loading it is %v", grid[i], made, q[i], q2[i])
			}
		}
		for i := range c {
			if exact && c2[i] < d.CDF(at[i]-scale*storage) || exact && c2[i] > d.CDF(at[i]+scale*storage) {
				vs.Fail("storage", "the share below %v of %v is %v, after loading it is %v", at[i], made, c[i], c2[i])
			}
		}
		if exact && !bytes.Equal(b, loaded.Marshal(nil)) {
			vs.Fail("storage", "%v changes when it is stored again", made)
		}
		// the first one can go on
		d.Observe(vals[0])
		answers(d, append(made[:len(made):len(made)], stored(vals[0])), exact, false, at)
		vs.Outcome("%v: %v %v", made, q, c)
	}}
}

func main() {
	vh.Main(vh.Check{ID: "M03", Level: "model_checking",
		Rule: "every sequence of observations of the alphabets up to the depth, for several sizes of the digest, with and without questions between them; all answers on a grid of quantiles and values are compared with the observations, with the loaded copy and with each other",
		Scenarios: func(tier string) (out []vh.Scenario) {
			d := 0
			if tier == "thorough" {
				d = 2
			}
			return []vh.Scenario{
				scenario(5, 7+d, []float64{-1, 0, 2, 7}, true, false),
				scenario(5, 5+d, []float64{-1, 0, 2, 7}, true, true),
				scenario(100, 6+d, []float64{-4096.5, 0, 0.25, 1 << 20, 3}, true, false),
				scenario(5, 6+d, []float64{math.MaxFloat64, 0, -math.MaxFloat64, math.MaxFloat32}, true, false),
				scenario(1, 6+d, []float64{math.MaxFloat64, 1e300, -math.MaxFloat64, 1}, false, false),
				scenario(1, 8+d, []float64{-1, 0, 2, 7}, false, false),
				scenario(0.1, 9+d, []float64{-1, 0, 2}, false, false),
			}
		}})
}
