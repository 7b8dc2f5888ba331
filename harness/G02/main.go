//go:build go1.21

// G02: any graph that is accepted can be drawn.
package main

import (
	"context"
	"fmt"
	"math"
	"time"

	"github.com/vivint/rothko/dist"
	"github.com/vivint/rothko/dist/tdigest"
	"github.com/vivint/rothko/draw"
	"github.com/vivint/rothko/draw/axis"
	"github.com/vivint/rothko/draw/colors"
	"github.com/vivint/rothko/draw/graph"
	"github.com/vivint/rothko/zz_verif/vh"
	"github.com/vivint/rothko/zz_verif/vpic"
	"github.com/zeebo/float16"
)

var ctx = context.Background()

// What a graph has around the heat map.
const (
	obsBars  = 5  // height of the bars of the observations
	obsGap   = 2  // between the bars and their label
	keyGap   = 5  // between the heat map and the key
	keyWidth = 10 // of the key
	labelGap = 30 // between the labels of the vertical axes
)

// fake is a distribution of values from lo to hi.
type fake struct {
	dist.Dist
	lo, hi float64
}

func (f fake) Query(q float64) float64 { return f.lo + (f.hi-f.lo)*q }
func (f fake) CDF(v float64) float64 {
	if v <= f.lo {
		return 0
	}
	if v >= f.hi {
		return 1
	}
	return (v - f.lo) / (f.hi - f.lo)
}

func digest(vals ...float64) dist.Dist {
	d, err := tdigest.Params{Compression: 5}.New()
	if err != nil {
		panic(err)
	}
	for _, v := range vals {
		d.Observe(v)
	}
	return d
}

type named struct {
	name string
	d    dist.Dist
}

var dists = []named{
	{"no data", nil},
	{"values from 0 to 1", fake{lo: 0, hi: 1}},
	{"large values", fake{lo: -1e300, hi: 1e300}},
	{"tiny values", fake{lo: 1e-300, hi: 2e-300}},
	{"one value", fake{lo: 5, hi: 5}},
	{"a value that is rounded", fake{lo: 1.0051, hi: 1.0051}},
	{"an empty digest", digest()},
	{"a digest", digest(1, 2, 3, 4, 5, 6, 7, 100, 1000)},
}

// label16 is a value as it is stated at the right.
func label16(v float64) string {
	if f, ok := float16.FromFloat64(v); ok {
		v = f.Float64()
	}
	return fmt.Sprintf("%#.3g", v)
}

var units = []time.Duration{1, 2, 4, 6, 8, 10, 12, 14, 16, 18, 20, 22, 24}

// layout is the reference for where everything is.
type layout struct {
	left, right, bottom axis.Options
	leftW, rightW       int
	obsH, bottomH       int
	w, h, x, y          int // of the heat map
}

func widest(ls []axis.Label) int {
	n := 0
	for _, l := range ls {
		if len(l.Text) > n {
			n = len(l.Text)
		}
	}
	return 13 + n*vpic.CellW
}

// lay returns the layout for a height of the heat map.
func lay(o graph.MeasureOptions, h int) layout {
	l := layout{h: h, obsH: obsBars + obsGap + vpic.LabelH}
	l.left = axis.Options{Vertical: true, Flip: true, Length: h}
	l.right = axis.Options{Vertical: true, Length: h}
	for y := 0; ; y += labelGap {
		pos := float64(y) / float64(h)
		if y > h-labelGap {
			pos = 1
		}
		l.left.Labels = append(l.left.Labels, axis.Label{Position: pos, Text: fmt.Sprintf("%0.2f", 1-pos)})
		if o.Earliest != nil {
			l.right.Labels = append(l.right.Labels, axis.Label{Position: pos, Text: label16(o.Earliest.Query(1 - pos))})
		}
		if y > h-labelGap {
			break
		}
	}
	l.leftW = widest(l.left.Labels)
	if o.Earliest != nil {
		l.rightW = widest(l.right.Labels)
	}
	l.w = o.Width - l.leftW - keyGap - keyWidth - l.rightW
	l.x, l.y = o.Padding+l.leftW, o.Padding+l.obsH

	// marks of time at multiples of a unit with a distance of about 100
	chunks := o.Width / 100
	if chunks < 1 {
		chunks = 1
	}
	unit := time.Hour
	for _, u := range units {
		if u*time.Hour < o.Duration/time.Duration(chunks) {
			unit = u * time.Hour
		}
	}
	l.bottom = axis.Options{Length: l.w + 2, DontBleed: true}
	for age := o.Now % int64(unit); age < int64(o.Duration); age += int64(unit) {
		l.bottom.Labels = append(l.bottom.Labels, axis.Label{
			Position: 1 - float64(age)/float64(o.Duration),
			Text:     time.Unix(0, o.Now-age).Format("1/2 @ 15:04"),
		})
		if int64(o.Duration)-age <= int64(unit) {
			break
		}
	}
	for i, ls := 0, l.bottom.Labels; i < len(ls)/2; i++ {
		ls[i], ls[len(ls)-1-i] = ls[len(ls)-1-i], ls[i]
	}
	l.bottomH = 13
	if len(l.bottom.Labels) > 0 {
		l.bottomH += vpic.LabelH + 2
	}
	return l
}

// columns of the graph: every pixel has one, and some have none.
func columns(kind, w int, d dist.Dist) (out []draw.Column) {
	var data []float64
	for i := 0; i <= 7; i++ {
		v := float64(i)
		if d != nil {
			v = d.Query(float64(i) / 7)
		}
		data = append(data, v)
	}
	switch kind {
	case 0:
		return nil
	case 1:
		return []draw.Column{{X: 0, W: w, Data: data, ObsSec: 1}}
	case 2:
		for x := 0; x+2 <= w; x += 3 {
			out = append(out, draw.Column{X: x, W: 2, Data: data, ObsSec: float64(x)})
		}
	case 3:
		for x := w - 1; x >= 0; x-- {
			out = append(out, draw.Column{X: x, W: 1, Data: data[x%7:], ObsSec: float64(w - x)})
		}
	}
	return out
}

type failer func(format string, args ...any)

func check(o graph.MeasureOptions, fail failer, kinds []int) string {
	m, ok := graph.Measure(ctx, o)
	if !ok {
		if o.Width >= 300 && o.Height > 60 && o.Padding >= 0 && o.Duration > 0 && o.Now >= 0 {
			fail("refused as too small")
		}
		return "refused"
	}
	if o.Width <= 0 || o.Height <= 0 || o.Padding < 0 || o.Duration <= 0 {
		fail("accepted")
		return "accepted"
	}
	// inside of the requested size
	for _, c := range []struct {
		what string
		v    int
		max  int
	}{
		{"left", m.X - m.Left.Width - o.Padding, 0},
		{"top", m.Y - m.Obs.Height - o.Padding, 0},
		{"right", m.X + m.Width + keyGap + keyWidth + m.Right.Width - o.Padding, o.Width},
		{"bottom", m.Y + m.Height + m.Bottom.Height - o.Padding, o.Height},
		{"left axis", m.Y + m.Left.Height - o.Padding, o.Height},
		{"right axis", m.Y + m.Right.Height - o.Padding, o.Height},
		{"bottom axis", m.X - 1 + m.Bottom.Width - o.Padding, o.Width},
		{"observations", m.X + m.Obs.Width, m.X + m.Width},
	} {
		if c.v > c.max || c.v < 0 {
			fail("the layout has its %s at %d of %d: %+v", c.what, c.v, c.max, [...]int{m.X, m.Y, m.Width, m.Height, m.Left.Width, m.Right.Width, m.Bottom.Height})
			return "outside"
		}
	}
	if m.Width < 1 || m.Height < 1 {
		fail("the heat map is %dx%d", m.Width, m.Height)
		return "empty"
	}
	l := lay(o, m.Height)
	if m.Width != l.w || m.X != l.x || m.Y != l.y || o.Height-m.Height != l.obsH+l.bottomH && o.Height > 55 {
		fail("the heat map is %dx%d at %d,%d instead of %dx%d at %d,%d", m.Width, m.Height, m.X, m.Y, l.w, o.Height-l.obsH-l.bottomH, l.x, l.y)
		return "layout"
	}
	w, h := o.Width+2*o.Padding, o.Height+2*o.Padding
	for _, kind := range kinds {
		cs := columns(kind, m.Width, o.Earliest)
		want := vpic.New(w, h)
		put := func(x, y, w, h int, f func(p *vpic.Pic)) {
			p := vpic.New(w, h)
			f(p)
			want.Paste(p, x, y)
		}
		put(l.x, o.Padding, l.w, l.obsH, func(p *vpic.Pic) { p.Obs(obsBars, cs) })
		put(o.Padding, l.y, l.leftW, m.Left.Height, func(p *vpic.Pic) { p.Axis(l.left) })
		if o.Earliest != nil {
			put(l.x, l.y, l.w, l.h, func(p *vpic.Pic) {
				for _, c := range cs {
					p.Column(c, colors.Viridis, o.Earliest.CDF)
				}
			})
			put(l.x+l.w+keyGap, l.y, keyWidth, l.h, func(p *vpic.Pic) { p.Key(keyWidth, l.h, colors.Viridis) })
			put(l.x+l.w+keyGap+keyWidth, l.y, l.rightW, m.Right.Height, func(p *vpic.Pic) { p.Axis(l.right) })
		}
		// the lowest labels of the vertical axes and the bottom axis share
		// some rows but no pixels
		p := vpic.New(l.w+2, l.bottomH)
		p.Axis(l.bottom)
		for y := 0; y < p.H; y++ {
			for x := 0; x < p.W; x++ {
				if c := p.Px[y*p.W+x]; c != (draw.Color{R: 255, G: 255, B: 255}) {
					want.Set(l.x-1+x, l.y+l.h+y, c)
				}
			}
		}

		big := draw.NewRGB(w+6, h+7)
		for i, canvas := range []*draw.RGB{nil, draw.NewRGB(w, h), big.View(2, 4, w+1, h+1), draw.NewRGB(w-1, h), draw.NewRGB(w, h-1)} {
			if canvas != nil && i != kind {
				continue
			}
			got := m.Draw(ctx, graph.DrawOptions{Canvas: canvas, Columns: cs, Colors: colors.Viridis})
			gw, gh := got.Size()
			if i == 1 || i == 2 {
				if got != canvas {
					fail("the canvas %d is not used", i)
				}
			} else if gw != w || gh != h {
				fail("drawn as %dx%d instead of %dx%d", gw, gh, w, h)
				return "size"
			}
			ref := want
			if i == 2 {
				ref = vpic.New(w+6, h+7)
				ref.Paste(want, 2, 4)
				got = big
			}
			if d := vpic.Of(got).Diff(ref); d != "" {
				fail("canvas %d, columns %d: %s; the heat map is %dx%d at %d,%d", i, kind, d, l.w, l.h, l.x, l.y)
				return "picture"
			}
		}
	}
	return "drawn"
}

const hour = time.Hour

func try(e *vh.Enum, o graph.MeasureOptions, name string, kinds ...int) {
	e.Calls++
	what := fmt.Sprintf("%dx%d with padding %d, %v until %d with %s", o.Width, o.Height, o.Padding, o.Duration, o.Now, name)
	e.Try(what, func() {
		e.Outcome(check(o, func(format string, args ...any) {
			e.Failf("graph", "%s: %s", what, fmt.Sprintf(format, args...))
		}, kinds))
	})
}

// sizes: every size.
func sizes(maxW, maxH, stepH int) vh.Scenario {
	return vh.Scenario{Name: "sizes", Weight: 10, Enum: func(e *vh.Enum) {
		for w := -2; w <= maxW; w++ {
			for _, d := range dists {
				if !e.Next() {
					continue
				}
				for h := -2; h <= maxH; h++ {
					if h > 70 {
						h += stepH - 1
					}
					for _, p := range []int{-1, 0, 3} {
						try(e, graph.MeasureOptions{Earliest: d.d, Now: 1e18, Duration: 24 * hour, Width: w, Height: h, Padding: p}, d.name, (w+h+2*p+20)%4)
					}
				}
			}
		}
	}}
}

// times: periods and ends of all lengths.
func times(n int) vh.Scenario {
	return vh.Scenario{Name: "times", Weight: 8, Enum: func(e *vh.Enum) {
		durs := []time.Duration{math.MinInt64, -hour, -1, 0, 1, time.Second, hour - 1, hour, hour + 1, 5 * hour, 23 * hour, 24 * hour, 25 * hour, 100 * hour, 200 * hour, 240*hour + 1, 1000 * hour, 20000 * hour, 24 * 365 * 60 * hour, math.MaxInt64}
		nows := []int64{0, 1, int64(hour) - 1, int64(hour), 1e18, 1e18 + 7, 1e18 + 45296789123456, math.MaxInt64 - 1, math.MaxInt64}
		widths := []int{1, 60, 99, 100, 101, 150, 199, 200, 300, 350, 400, 777, 1000, 1999}
		for _, now := range nows {
			for _, dur := range durs {
				for _, w := range widths {
					if !e.Next() {
						continue
					}
					if dur > 20000*hour && w != 1000 && w != 60 {
						continue
					}
					for _, h := range []int{60, 120, 350}[:n] {
						for _, d := range dists[:2] {
							try(e, graph.MeasureOptions{Earliest: d.d, Now: now, Duration: dur, Width: w, Height: h, Padding: w % 3}, d.name, 2)
						}
					}
				}
			}
		}
	}}
}

// extremes never crash, whatever they give.
func extremes() vh.Scenario {
	return vh.Scenario{Name: "extremes", Weight: 3, Enum: func(e *vh.Enum) {
		ints := []int{math.MinInt64, math.MinInt32, -100, -1, 0, 1, 99, 100, 400}
		for _, w := range append(ints, math.MaxInt32, math.MaxInt64) {
			for _, h := range ints {
				for _, p := range append(ints, math.MaxInt64, math.MaxInt64/2+1) {
					if !e.Next() {
						continue
					}
					for _, now := range []int64{math.MinInt64, -int64(hour) - 1, -1, 0, 1e18, math.MaxInt64} {
						for _, dur := range []time.Duration{math.MinInt64, -1, 0, 1, 48 * hour, math.MaxInt64} {
							for _, d := range dists[:2] {
								e.Calls++
								if dur == math.MaxInt64 && (w > 400 || w < 99 || h < 99) {
									continue
								}
								what := fmt.Sprintf("%dx%d with padding %d, %v until %d with %s", w, h, p, dur, now, d.name)
								e.Try(what, func() {
									m, ok := graph.Measure(ctx, graph.MeasureOptions{Earliest: d.d, Now: now, Duration: dur, Width: w, Height: h, Padding: p})
									if ok && p <= 400 && w <= 400 {
										m.Draw(ctx, graph.DrawOptions{Columns: columns(2, m.Width, d.d), Colors: colors.Viridis})
									}
									e.Outcome(fmt.Sprint(ok))
								})
							}
						}
					}
				}
			}
		}
	}}
}

func main() {
	vh.Main(vh.Check{ID: "G02", Level: "model_checking",
		Rule:        "every width and height up to a bound with several paddings and kinds of data; every combination of ends, periods, widths and heights from boundary values; the layout and the whole picture, on its own and on given canvases, are compared with a reference pixel by pixel; extremes of all numbers",
		Assumptions: []string{"texts of the reference are drawn by golang.org/x/image/font"},
		Scenarios: func(tier string) []vh.Scenario {
			if tier == "thorough" {
				return []vh.Scenario{sizes(700, 400, 7), times(3), extremes()}
			}
			return []vh.Scenario{sizes(320, 150, 20), times(2), extremes()}
		}})
}
