//go:build go1.21

// G01: drawing stays inside of its area and shows the data.
package main

import (
	"bytes"
	"context"
	"fmt"
	"image"
	"image/color"

	"github.com/vivint/rothko/draw"
	"github.com/vivint/rothko/draw/axis"
	"github.com/vivint/rothko/draw/colors"
	"github.com/vivint/rothko/draw/heatmap"
	"github.com/vivint/rothko/draw/iosevka"
	"github.com/vivint/rothko/draw/key"
	"github.com/vivint/rothko/draw/observations"
	"github.com/vivint/rothko/zz_verif/vh"
	"github.com/vivint/rothko/zz_verif/vpic"
)

var ctx = context.Background()

// canvas kinds: where the area of a drawing is.
type place struct {
	what       string
	base, area *draw.RGB
	generic    *generic
	x, y       int
}

// places gives areas of w by h.
func places(w, h int) (out []*place) {
	b := draw.NewRGB(w, h)
	out = append(out, &place{what: "a canvas", base: b, area: b})
	b = draw.NewRGB(w+5, h+4)
	out = append(out, &place{what: "a view", base: b, area: b.View(2, 3, w, h), x: 2, y: 3})
	b = draw.NewRGB(w+3, h+3)
	out = append(out, &place{what: "a view in a view", base: b, area: b.View(1, 1, w+1, h+2).View(1, 2, w, h), x: 2, y: 3})
	return out
}

// check compares the area with the reference, and that the rest is white.
func (p *place) check(want *vpic.Pic, fail func(string, ...any)) {
	for y := 0; y < p.base.Height; y++ {
		for x := 0; x < p.base.Width; x++ {
			i := y*p.base.Stride + x*4
			got := p.base.Pix[i : i+4]
			rx, ry := x-p.x, y-p.y
			if rx < 0 || ry < 0 || rx >= want.W || ry >= want.H {
				if got[0] != 255 || got[1] != 255 || got[2] != 255 || got[3] != 255 {
					fail("%s: the pixel %d,%d outside of the area of %dx%d is %v", p.what, rx, ry, want.W, want.H, got)
					return
				}
				continue
			}
			c := want.Px[ry*want.W+rx]
			if got[0] != c.R || got[1] != c.G || got[2] != c.B || got[3] != 255 {
				fail("%s: the pixel %d,%d of the area of %dx%d is %v instead of %v", p.what, rx, ry, want.W, want.H, got, c)
				return
			}
		}
	}
}

// generic is another kind of canvas.
type generic struct {
	p    *vpic.Pic
	fail func(string, ...any)
}

func (g *generic) Size() (int, int) { return g.p.W, g.p.H }
func (g *generic) Set(x, y int, c draw.Color) {
	if x < 0 || y < 0 || x >= g.p.W || y >= g.p.H {
		g.fail("a generic canvas of %dx%d: the pixel %d,%d is set", g.p.W, g.p.H, x, y)
		return
	}
	g.p.Set(x, y, c)
}

// viewsCheck: canvases and views.
func viewsCheck(n int) vh.Scenario {
	return vh.Scenario{Name: "views", Weight: 3, Enum: func(e *vh.Enum) {
		type rect struct{ x, y, w, h int }
		inside := func(w, h int) (out []rect) {
			for x := 0; x <= w; x++ {
				for y := 0; y <= h; y++ {
					for vw := 0; vw <= w-x; vw++ {
						for vh := 0; vh <= h-y; vh++ {
							out = append(out, rect{x, y, vw, vh})
						}
					}
				}
			}
			return out
		}
		for w := 0; w <= n; w++ {
			for h := 0; h <= n; h++ {
				for _, r1 := range inside(w, h) {
					if !e.Next() {
						continue
					}
					for _, r2 := range inside(r1.w, r1.h) {
						e.Calls++
						e.Try(fmt.Sprint(w, h, r1, r2), func() {
							fail := func(f string, a ...any) {
								e.Failf("view", "%dx%d, view %v of view %v: %s", w, h, r2, r1, fmt.Sprintf(f, a...))
							}
							m := draw.NewRGB(w, h)
							v := m.View(r1.x, r1.y, r1.w, r1.h).View(r2.x, r2.y, r2.w, r2.h)
							if vw, vh := v.Size(); vw != r2.w || vh != r2.h {
								fail("the size is %dx%d", vw, vh)
							}
							want := vpic.New(w, h)
							ox, oy := r1.x+r2.x, r1.y+r2.y
							for y := -1; y <= r2.h; y++ {
								for x := -1; x <= r2.w; x++ {
									c := draw.Color{R: uint8(10 + x), G: uint8(20 + y), B: 30}
									v.Set(x, y, c)
									if x >= 0 && y >= 0 && x < r2.w && y < r2.h {
										want.Set(ox+x, oy+y, c)
										if raw := v.Raw(x, y); !bytes.Equal(raw, []byte{c.R, c.G, c.B, 255}) {
											fail("raw %d,%d is %v", x, y, raw)
										}
									}
								}
							}
							(&place{what: "set", base: m}).check(want, fail)
							img := v.AsImage()
							if b := img.Bounds(); b.Dx() != r2.w && b.Dx()*b.Dy() != 0 || b.Dx()*b.Dy() != r2.w*r2.h || b.Min != (image.Point{}) {
								fail("the image has bounds %v", b)
							}
							for y := 0; y < r2.h; y++ {
								for x := 0; x < r2.w; x++ {
									if c := img.RGBAAt(x, y); c != (color.RGBA{uint8(10 + x), uint8(20 + y), 30, 255}) {
										fail("the image has %v at %d,%d", c, x, y)
									}
								}
							}
							for y := -2; y <= h; y++ {
								for x := -2; x <= w; x++ {
									img.SetRGBA(x, y, color.RGBA{1, 2, 3, 255})
								}
							}
							for y := 0; y < r2.h; y++ {
								for x := 0; x < r2.w; x++ {
									want.Set(ox+x, oy+y, draw.Color{R: 1, G: 2, B: 3})
								}
							}
							(&place{what: "image", base: m}).check(want, fail)
							e.Outcome(fmt.Sprint(r2.w*r2.h == 0))
						})
					}
				}
			}
		}
	}}
}

var palettes = [][]draw.Color{
	{{R: 1, G: 2, B: 3}},
	{{R: 10}, {G: 20}},
	{{R: 10}, {G: 20}, {B: 30}, {R: 40, G: 41}, {G: 50, B: 51}},
	colors.Viridis,
}

func heat(e *vh.Enum, what string, w, h int, cs []draw.Column, pal []draw.Color, mp func(float64) float64) {
	e.Calls++
	e.Try(what, func() {
		fail := func(f string, a ...any) { e.Failf("heatmap", "%s: %s", what, fmt.Sprintf(f, a...)) }
		want := vpic.New(w, h)
		for _, c := range cs {
			want.Column(c, pal, mp)
		}
		var canvases []draw.Canvas
		ps := places(w, h)
		for _, p := range ps {
			canvases = append(canvases, p.area)
		}
		g := &generic{p: vpic.New(w, h), fail: fail}
		canvases = append(canvases, g)
		for _, c := range canvases {
			m := heatmap.New(heatmap.Options{Colors: pal, Canvas: c, Map: mp})
			for _, col := range cs {
				m.Draw(ctx, col)
			}
		}
		for _, p := range ps {
			p.check(want, fail)
		}
		if d := g.p.Diff(want); d != "" {
			fail("a generic canvas: %s", d)
		}
		e.Outcome("drawn")
	})
}

// heatmaps in small areas.
func heatmaps(n int) vh.Scenario {
	return vh.Scenario{Name: "heatmaps", Weight: 5, Enum: func(e *vh.Enum) {
		for w := 0; w <= n; w++ {
			for h := 0; h <= n+2; h++ {
				for d := 1; d <= n+3; d++ {
					if !e.Next() {
						continue
					}
					data, rev := make([]float64, d), make([]float64, d)
					for i := range data {
						data[i], rev[i] = float64(i), float64(d-1-i)
					}
					mp := func(v float64) float64 {
						if d == 1 {
							return 1
						}
						return v / float64(d-1)
					}
					for _, pal := range palettes {
						for x := -2; x <= w+1; x++ {
							for cw := 0; cw <= w+3; cw++ {
								c := draw.Column{X: x, W: cw, Data: data}
								heat(e, fmt.Sprintf("%dx%d, column at %d of width %d with %d values, %d colors", w, h, x, cw, d, len(pal)), w, h, []draw.Column{c}, pal, mp)
								if len(pal) == 5 {
									for x2 := 0; x2 < w; x2++ {
										heat(e, fmt.Sprintf("%dx%d, columns at %d of width %d and at %d with %d values", w, h, x, cw, x2, d), w, h, []draw.Column{c, {X: x2, W: 2, Data: rev}}, pal, mp)
									}
								}
							}
						}
					}
				}
			}
		}
	}}
}

// tall: every height with the numbers of values that are in use.
func tall(max int) vh.Scenario {
	return vh.Scenario{Name: "tall", Weight: 3, Enum: func(e *vh.Enum) {
		for h := 0; h <= max; h++ {
			if !e.Next() {
				continue
			}
			for _, d := range []int{1, 2, 3, 11, 31, 32, 50, 101, 256, 1001} {
				data := make([]float64, d)
				for i := range data {
					data[i] = float64(i)
				}
				mp := func(v float64) float64 { return v / float64(d) }
				heat(e, fmt.Sprintf("3x%d, a column with %d values", h, d), 3, h, []draw.Column{{X: 1, W: 1, Data: data}}, colors.Viridis, mp)
				// a step: every value has its place
				for _, at := range []int{1, d / 2, d - 1} {
					heat(e, fmt.Sprintf("3x%d, a step at %d of %d values", h, at, d), 3, h, []draw.Column{{X: 1, W: 1, Data: data}}, palettes[1], func(v float64) float64 {
						if int(v) >= at {
							return 1
						}
						return 0
					})
				}
			}
		}
	}}
}

// keys of every size.
func keys(max int) vh.Scenario {
	return vh.Scenario{Name: "keys", Weight: 2, Enum: func(e *vh.Enum) {
		for h := 0; h <= max; h++ {
			for _, w := range []int{0, 1, 2, 10} {
				if !e.Next() {
					continue
				}
				for _, pal := range palettes {
					e.Calls++
					what := fmt.Sprintf("key %dx%d with %d colors", w, h, len(pal))
					e.Try(what, func() {
						fail := func(f string, a ...any) { e.Failf("key", "%s: %s", what, fmt.Sprintf(f, a...)) }
						want := vpic.New(w, h)
						want.Key(w, h, pal)
						opts := key.Options{Colors: pal, Height: h, Width: w}
						for _, p := range places(w, h) {
							if got := key.Draw(p.area, opts); got != p.area {
								fail("%s: another canvas is returned", p.what)
							}
							p.check(want, fail)
						}
						for _, small := range []*draw.RGB{nil, draw.NewRGB(w, h).View(0, 0, w, max0(h-1)), draw.NewRGB(w, h).View(0, 0, max0(w-1), h)} {
							got := key.Draw(small, opts)
							if gw, gh := 0, 0; got != nil {
								gw, gh = got.Size()
								if gw < w || gh < h {
									fail("a canvas of %dx%d is returned", gw, gh)
									continue
								}
								(&place{what: "an allocated canvas", base: got}).check(want, fail)
							} else if w*h > 0 {
								fail("no canvas")
							}
						}
						e.Outcome("drawn")
					})
				}
			}
		}
	}}
}

func max0(a int) int {
	if a < 0 {
		return 0
	}
	return a
}

// obs: observations with columns.
func obs(n int) vh.Scenario {
	return vh.Scenario{Name: "observations", Weight: 4, Enum: func(e *vh.Enum) {
		rates := []float64{0, 1, 0.4, 1234.5, 1e-9, 1e300, 5e-324}
		widths := []int{0, 1, 5, 50, 101, 102, 103, 110, 150, 300}
		for _, w := range widths {
			for _, h := range []int{0, 1, 5, 8} {
				for _, r1 := range rates {
					for _, r2 := range rates {
						if !e.Next() {
							continue
						}
						for _, x := range []int{0, 1, w / 2, w - 3, w - 1} {
							for _, cw := range []int{0, 1, 2, 3, w}[:n] {
								for order := 0; order < 2; order++ {
									cs := []draw.Column{{X: x, W: cw, ObsSec: r1}, {X: (x + cw) % (w + 1), W: 2, ObsSec: r2}}
									if order == 1 {
										cs[0], cs[1] = cs[1], cs[0]
									}
									obsOne(e, w, h, cs)
									obsOne(e, w, h, cs[:1])
								}
							}
						}
						obsOne(e, w, h, nil)
					}
				}
			}
		}
	}}
}

func obsOne(e *vh.Enum, w, h int, cs []draw.Column) {
	e.Calls++
	what := fmt.Sprintf("observations %dx%d %v", w, h, cs)
	e.Try(what, func() {
		fail := func(f string, a ...any) { e.Failf("observations", "%s: %s", what, fmt.Sprintf(f, a...)) }
		m := observations.Measure(ctx, observations.Options{Face: iosevka.Iosevka, Width: w, Height: h})
		if m.Width != w || m.Height < h+vpic.LabelH {
			fail("measured as %dx%d", m.Width, m.Height)
			return
		}
		want := vpic.New(w, m.Height)
		want.Obs(h, cs)
		for _, p := range places(m.Width, m.Height) {
			if got := m.Draw(ctx, cs, p.area); got != p.area {
				fail("%s: another canvas is returned", p.what)
			}
			p.check(want, fail)
		}
		got := observations.Draw(ctx, cs, observations.Options{Face: iosevka.Iosevka, Width: w, Height: h})
		(&place{what: "an allocated canvas", base: got}).check(want, fail)
		e.Outcome("drawn")
	})
}

// axes with every set of labels from a few positions.
func axes(n int) vh.Scenario {
	texts := []string{"0.25", "1/2 @ 15:04", "x", "1.00e+05"}
	positions := []float64{0, 0.04, 0.1, 0.5, 0.52, 0.95, 1}[:n]
	return vh.Scenario{Name: "axes", Weight: 8, Enum: func(e *vh.Enum) {
		for _, length := range []int{0, 1, 2, 12, 30, 66, 70, 140, 200, 400} {
			for flags := 0; flags < 8; flags++ {
				for set := 0; set < 1<<len(positions); set++ {
					if !e.Next() {
						continue
					}
					for ti := 0; ti <= len(texts); ti++ {
						o := axis.Options{Face: iosevka.Iosevka, Vertical: flags&1 != 0, Flip: flags&2 != 0, DontBleed: flags&4 != 0, Length: length}
						for i, p := range positions {
							if set>>i&1 != 0 {
								text := texts[(i+ti)%len(texts)]
								if ti < len(texts) {
									text = texts[ti]
								}
								o.Labels = append(o.Labels, axis.Label{Position: p, Text: text})
							}
						}
						axisOne(e, o)
					}
				}
			}
		}
		// many labels
		for length := 0; length < 300; length += 7 {
			for flags := 0; flags < 8; flags++ {
				if !e.Next() {
					continue
				}
				for count := 1; count <= 40; count += 3 {
					o := axis.Options{Face: iosevka.Iosevka, Vertical: flags&1 != 0, Flip: flags&2 != 0, DontBleed: flags&4 != 0, Length: length}
					for i := 0; i < count; i++ {
						o.Labels = append(o.Labels, axis.Label{Position: float64(i) / float64(count), Text: texts[i%2]})
					}
					axisOne(e, o)
				}
			}
		}
	}}
}

func axisOne(e *vh.Enum, o axis.Options) {
	e.Calls++
	what := fmt.Sprintf("axis of %d, vertical %v flipped %v not bleeding %v, labels %v", o.Length, o.Vertical, o.Flip, o.DontBleed, o.Labels)
	e.Try(what, func() {
		fail := func(f string, a ...any) { e.Failf("axis", "%s: %s", what, fmt.Sprintf(f, a...)) }
		given := append([]axis.Label(nil), o.Labels...)
		m := axis.Measure(ctx, o)
		for i := range o.Labels {
			o.Labels[i] = axis.Label{Position: 1, Text: "changed"} // the caller may
		}
		copy(o.Labels, given)

		want := vpic.New(m.Width, m.Height)
		boxes := want.Axis(o)
		for i, b := range boxes {
			// an axis without a length has no pixel for a label at its end
			if o.Length == 0 && o.Vertical && b.Y0 == -1 {
				b.Y0 = 0
			}
			if b.X1 > m.Width || b.Y1 > m.Height || b.Y0 < 0 || b.X0 < 0 && o.Vertical {
				fail("the text %d at %v is not inside of %dx%d", i, b, m.Width, m.Height)
			}
		}
		length, across := m.Width, m.Height
		if o.Vertical {
			length, across = across, length
		}
		if length < o.Length || across < 13 || o.DontBleed && length > o.Length {
			fail("measured as %dx%d", m.Width, m.Height)
		}
		for _, p := range places(m.Width, m.Height) {
			if got := m.Draw(ctx, p.area); got != p.area {
				fail("%s: another canvas is returned", p.what)
			}
			p.check(want, fail)
		}
		got := axis.Draw(ctx, o)
		if gw, gh := got.Size(); gw < m.Width || gh < m.Height {
			fail("drawn as %dx%d", gw, gh)
			return
		}
		(&place{what: "an allocated canvas", base: got}).check(want, fail)
		e.Outcome(fmt.Sprint(len(boxes)))
	})
}

func main() {
	vh.Main(vh.Check{ID: "G01", Level: "model_checking",
		Rule:        "every canvas up to a size with every view of every view and every pixel; heat maps of every small size with every position and width of a column and number of values, on every kind of canvas, and of every height up to a bound; keys of every height; observations and axes with every subset of labels; each compared with a reference picture pixel by pixel",
		Assumptions: []string{"columns have sorted data that is not empty, and maps give values between 0 and 1, as documented", "texts of the reference are drawn by golang.org/x/image/font"},
		Scenarios: func(tier string) []vh.Scenario {
			if tier == "thorough" {
				return []vh.Scenario{viewsCheck(5), heatmaps(7), tall(2000), keys(2000), obs(5), axes(7)}
			}
			return []vh.Scenario{viewsCheck(4), heatmaps(4), tall(400), keys(600), obs(4), axes(5)}
		}})
}
