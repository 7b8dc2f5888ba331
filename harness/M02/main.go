//go:build go1.21

// M02: heat map columns hold exactly the records that overlap their pixels.
package main

import (
	"context"
	"fmt"
	"math"
	"sort"
	"time"

	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/dist/tdigest"
	"github.com/vivint/rothko/merge"
	"github.com/vivint/rothko/zz_verif/vh"
	"github.com/vivint/rothko/zz_verif/vs"
)

var bg = context.Background()

// geometry of a picture.
type geometry struct {
	width   int
	pixel   int64 // duration of a pixel
	extra   int64 // duration which is not a whole pixel
	samples int
}

func (g geometry) duration() int64 { return int64(g.width)*g.pixel + g.extra }

// times are pairs of a start and an end.
type times struct{ start, end int64 }

// made is one pushed record.
type made struct {
	times
	obs, merged int64
	val         float64
}

func (m made) String() string {
	return fmt.Sprintf("[%d..%d obs=%d merged=%d %v]", m.start, m.end, m.obs, m.merged, m.val)
}

var dists = map[float64][]byte{}

func init() {
	for i := 0; i < 8; i++ {
		d, err := tdigest.Params{Compression: 5}.New()
		if err != nil {
			panic(err)
		}
		v := value(i)
		d.Observe(v)
		dists[v] = d.Marshal(nil)
	}
}

// value of the i'th record: small and large ones, not in the order of the
// pushes.
func value(i int) float64 { return []float64{4, -2, 32, 1, -16, 8, 0, 2}[i] }

func (m made) record() data.Record {
	return data.Record{StartTime: m.start, EndTime: m.end, Observations: m.obs, Merged: m.merged,
		Kind: "tdigest", Distribution: append([]byte(nil), dists[m.val]...), Min: m.val, Max: m.val}
}

// rate is the number of observations per second of one merged record.
func (m made) rate() float64 {
	n := m.merged
	if n == 0 {
		n = 1
	}
	return float64(m.obs) / float64(n) / time.Duration(m.end-m.start).Seconds()
}

func quantile(sorted []float64, q float64) float64 {
	x := q * float64(len(sorted)-1)
	i := int(x)
	if i+1 >= len(sorted) {
		return sorted[len(sorted)-1]
	}
	return sorted[i]*(1-(x-float64(i))) + sorted[i+1]*(x-float64(i))
}

// check compares the columns with the records of every pixel.
func check(g geometry, now int64, recs []made) {
	m := merge.NewMerger(merge.MergerOptions{Samples: g.samples, Now: now,
		Duration: time.Duration(g.duration()), Params: tdigest.Params{Compression: 5}})
	m.SetWidth(g.width)
	for _, r := range recs {
		if err := m.Push(bg, r.record()); err != nil {
			vs.Fail("error", "%+v now=%d %v: %v", g, now, recs, err)
			return
		}
	}
	cols, err := m.Finish(bg)
	if err != nil {
		vs.Fail("error", "%+v now=%d %v: %v", g, now, recs, err)
		return
	}
	// pixels of the columns
	covered := make([]int, g.width)
	for i := range covered {
		covered[i] = -1
	}
	last := g.width
	for i, c := range cols {
		if c.X < 0 || c.W <= 0 || c.X+c.W > g.width || c.X+c.W > last {
			vs.Fail("columns", "%+v now=%d %v: column %d is at %d+%d, the one before at %d", g, now, recs, i, c.X, c.W, last)
			return
		}
		last = c.X
		for x := c.X; x < c.X+c.W; x++ {
			covered[x] = i
		}
	}
	ps := g.duration() / int64(g.width)
	for px := 0; px < g.width; px++ {
		// the times of the pixel
		lo := now - int64(g.width-px)*ps
		hi := now - int64(g.width-px-1)*ps - 1
		var vals []float64
		rate, zero := 0.0, false
		for _, r := range recs {
			if r.start <= hi && r.end >= lo {
				vals = append(vals, r.val)
				if r.start == r.end {
					zero = true
				} else {
					rate += r.rate()
				}
			}
		}
		if covered[px] < 0 {
			if len(vals) > 0 {
				vs.Fail("missing", "%+v now=%d %v: pixel %d has no column, but %d records", g, now, recs, px, len(vals))
			}
			continue
		}
		c := cols[covered[px]]
		if len(vals) == 0 {
			vs.Fail("extra", "%+v now=%d %v: pixel %d has no record, but the column %v", g, now, recs, px, c)
			return
		}
		sort.Float64s(vals)
		if len(c.Data) != g.samples+1 {
			vs.Fail("data", "%+v now=%d %v: the column of pixel %d is %v", g, now, recs, px, c)
			return
		}
		for i, got := range c.Data {
			want := quantile(vals, float64(i)/float64(g.samples))
			// about three decimal digits are kept
			if !(math.Abs(got-want) <= math.Abs(want)/150+1e-4) {
				vs.Fail("data", "%+v now=%d %v: pixel %d is made of %v, its column is %v", g, now, recs, px, vals, c)
				return
			}
		}
		rate /= float64(len(vals))
		if math.IsNaN(c.ObsSec) || math.IsInf(c.ObsSec, 0) || !zero && math.Abs(c.ObsSec-rate) > 1e-9*rate {
			vs.Fail("rate", "%+v now=%d %v: pixel %d has %v observations per second instead of %v", g, now, recs, px, c.ObsSec, rate)
		}
	}
	vs.Outcome("%+v %d %v: %v", g, now, recs, cols)
}

// sequences pushes every sequence of up to n records with decreasing ends.
func sequences(name string, n int, gs []geometry, before, after int64, now int64) vh.Scenario {
	return vh.Scenario{Name: fmt.Sprintf("%s-%d", name, n), Body: func() {
		g := gs[vs.Choose(len(gs))]
		low := now - g.duration() - before
		top := now + after
		var recs []made
		l := vs.Choose(n + 1)
		for i := 0; i < l; i++ {
			left := int(top - low + 1)
			if left <= 0 {
				break
			}
			end := top - int64(vs.Choose(left))
			start := end - int64(vs.Choose(int(end-low)+1))
			recs = append(recs, made{times{start, end}, int64(1 + i*3), int64((i + 1) % 3), value(i)})
			top = end - 1
		}
		check(g, now, recs)
	}}
}

// big has records of the sizes that occur.
func big(n int) vh.Scenario {
	const sec = int64(time.Second)
	return vh.Scenario{Name: fmt.Sprintf("real-times-%d", n), Body: func() {
		now := int64(1500000000)*sec + 123456789
		g := []geometry{{10, 60 * sec, 0, 4}, {7, 60*sec + 1, 3, 4}, {100, 864 * sec, 99, 2}}[vs.Choose(3)]
		at := now
		var recs []made
		for i := 0; i < n; i++ {
			// the gap to the record before, or an overlap
			at -= []int64{1, 10 * sec, g.pixel, 3*g.pixel + 5, g.duration()}[vs.Choose(5)]
			d := []int64{0, 1, 10 * sec, g.pixel - 1, g.pixel, 2*g.pixel + 1, 2 * g.duration()}[vs.Choose(7)]
			recs = append(recs, made{times{at - d, at}, int64(1 + i), int64(i % 3), value(i)})
		}
		check(g, now, recs)
	}}
}

// sizes has pictures which are not possible: nothing may crash.
func sizes() vh.Scenario {
	return vh.Scenario{Name: "sizes", Body: func() {
		width := vs.Choose(7) - 2
		dur := int64(vs.Choose(8) - 2)
		set := vs.Choose(2) == 1
		samples := vs.Choose(5) - 2
		n := vs.Choose(3)
		m := merge.NewMerger(merge.MergerOptions{Samples: samples, Now: 20,
			Duration: time.Duration(dur), Params: tdigest.Params{Compression: 5}})
		if set {
			m.SetWidth(width)
		}
		var err error
		for i := 0; i < n && err == nil; i++ {
			err = m.Push(bg, made{times{int64(15 - i), int64(19 - i)}, 3, 1, value(i)}.record())
		}
		good := set && width > 0 && dur >= int64(width) && samples > 0
		if n > 0 && good && err != nil || n > 0 && (!set || width <= 0 || dur < int64(width)) && err == nil {
			vs.Fail("push", "a picture of %d pixels (%v) for %dns: %v", width, set, dur, err)
		}
		if err == nil {
			cols, ferr := m.Finish(bg)
			if good != (ferr == nil) && n > 0 {
				vs.Fail("finish", "a picture of %d pixels (%v) for %dns of %d samples: %v", width, set, dur, samples, ferr)
			}
			if n == 0 && len(cols) != 0 {
				vs.Fail("finish", "columns without records: %v", cols)
			}
			err = ferr
		}
		vs.Outcome("%d %d %v %d %d: %v", width, dur, set, samples, n, err != nil)
	}}
}

func main() {
	vh.Main(vh.Check{ID: "M02", Level: "model_checking",
		Rule: "every sequence of up to three records with decreasing ends over the ticks of the picture and some around it, for several widths and durations; every pixel of the picture is compared with the records whose times include one of its ticks",
		Scenarios: func(tier string) []vh.Scenario {
			small := []geometry{{1, 1, 0, 2}, {2, 1, 0, 1}, {3, 1, 1, 2}, {2, 2, 1, 3}, {3, 2, 0, 2}, {1, 4, 0, 2}}
			more := []geometry{{5, 1, 0, 2}, {4, 2, 3, 2}, {3, 3, 2, 4}, {2, 4, 1, 2}}
			if tier == "thorough" {
				return []vh.Scenario{
					sizes(),
					big(4),
					sequences("all", 3, more, 3, 2, 20),
					sequences("all-later", 3, small, 4, 3, 1000),
					sequences("all-four", 4, small, 2, 1, 20),
				}
			}
			return []vh.Scenario{
				sizes(),
				big(3),
				sequences("all", 3, small, 2, 2, 20),
				sequences("wider", 2, more, 3, 3, 20),
				sequences("all-four", 4, small, 1, 1, 20),
				sequences("wide", 3, []geometry{{4, 1, 0, 2}, {4, 2, 3, 2}}, 1, 0, 20),
			}
		}})
}
