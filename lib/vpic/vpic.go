//go:build go1.21

// Package vpic has reference pictures of what package draw and those below it
// draw.
package vpic

import (
	"fmt"
	"image"
	"image/color"

	"github.com/vivint/rothko/draw"
	"github.com/vivint/rothko/draw/axis"
	"github.com/vivint/rothko/draw/iosevka"
	"golang.org/x/image/font"
	"golang.org/x/image/math/fixed"
)

var white = draw.Color{R: 255, G: 255, B: 255}

// Sizes of the font.
const CellW, Ascent, LabelH = 6, 11, 14

// Pic is a reference picture.
type Pic struct {
	W, H int
	Px   []draw.Color
}

// New is white.
func New(w, h int) *Pic {
	p := &Pic{w, h, make([]draw.Color, w*h)}
	for i := range p.Px {
		p.Px[i] = white
	}
	return p
}

// Set a pixel.
func (p *Pic) Set(x, y int, c draw.Color) {
	if x >= 0 && y >= 0 && x < p.W && y < p.H {
		p.Px[y*p.W+x] = c
	}
}

// Text draws a text with the origin of its first character at x, y.
func (p *Pic) Text(x, y int, s string) {
	r := image.Rect(x-CellW, y-2*LabelH, x+CellW*(len(s)+2), y+2*LabelH).Intersect(image.Rect(0, 0, p.W, p.H))
	if r.Empty() {
		return
	}
	img := image.NewRGBA(r)
	for py := r.Min.Y; py < r.Max.Y; py++ {
		for px := r.Min.X; px < r.Max.X; px++ {
			c := p.Px[py*p.W+px]
			img.SetRGBA(px, py, color.RGBA{c.R, c.G, c.B, 255})
		}
	}
	(&font.Drawer{Dst: img, Src: image.Black, Face: iosevka.Iosevka, Dot: fixed.P(x, y)}).DrawString(s)
	for py := r.Min.Y; py < r.Max.Y; py++ {
		for px := r.Min.X; px < r.Max.X; px++ {
			c := img.RGBAAt(px, py)
			p.Px[py*p.W+px] = draw.Color{R: c.R, G: c.G, B: c.B}
		}
	}
}

// Diff says how they differ.
func (p *Pic) Diff(o *Pic) string {
	if p.W != o.W || p.H != o.H {
		return fmt.Sprintf("%dx%d instead of %dx%d", p.W, p.H, o.W, o.H)
	}
	for i := range p.Px {
		if p.Px[i] != o.Px[i] {
			return fmt.Sprintf("the pixel %d,%d of %dx%d is %v instead of %v", i%p.W, i/p.W, p.W, p.H, p.Px[i], o.Px[i])
		}
	}
	return ""
}

// Column draws the reference of a column.
func (p *Pic) Column(col draw.Column, cols []draw.Color, mp func(float64) float64) {
	for row := 0; row < p.H; row++ {
		index := 0
		if p.H > 1 {
			// the bottom row is the first value, the top row the last
			index = (p.H - 1 - row) * (len(col.Data) - 1) / (p.H - 1)
		}
		c := cols[int(mp(col.Data[index])*float64(len(cols)-1))]
		for x := col.X; x < col.X+col.W; x++ {
			p.Set(x, row, c)
		}
	}
}

// Key draws the reference of a key.
func (p *Pic) Key(w, h int, cols []draw.Color) {
	for y := 0; y < h; y++ {
		c := cols[0]
		if h > 1 {
			c = cols[(h-1-y)*(len(cols)-1)/(h-1)]
		}
		for x := 0; x < w; x++ {
			p.Set(x, y, c)
		}
	}
}

// Obs draws the reference of observations with bars of height h.
func (p *Pic) Obs(h int, cs []draw.Column) {
	top := p.H - h
	max, at := 0.0, 0
	for _, c := range cs {
		if c.ObsSec > max {
			max, at = c.ObsSec, c.X
		}
	}
	for _, c := range cs {
		sat := uint8(255)
		if max > 0 {
			sat -= uint8(c.ObsSec / max * 255)
		}
		for y := 0; y < h; y++ {
			for x := c.X; x < c.X+c.W; x++ {
				p.Set(x, top+y, draw.Color{R: sat, G: sat, B: sat})
			}
		}
	}
	width := len("obs/sec: 0.00e-00") * CellW
	if at+width > p.W {
		at = p.W - width
	}
	p.Text(at, Ascent, fmt.Sprintf("obs/sec: %#.3g", max))
}

// Box is where a text is.
type Box struct{ X0, Y0, X1, Y1 int }

// Axis draws the reference of an axis and returns where its texts are.
func (p *Pic) Axis(o axis.Options) (boxes []Box) {
	const tick, offset = 10, 13
	flip := func(x int) int {
		if o.Vertical && o.Flip {
			return p.W - 1 - x
		}
		return x
	}
	dot := func(along, across int) {
		if o.Vertical {
			p.Set(flip(across), along, draw.Color{})
		} else {
			p.Set(along, across, draw.Color{})
		}
	}
	for i := 0; i < o.Length; i++ {
		dot(i, 0)
	}
	end := -1 // of the last text
	type txt struct {
		x, y int
		s    string
	}
	var txts []txt
	for _, l := range o.Labels {
		at := int(float64(o.Length-1) * l.Position)
		for i := 0; i < tick; i++ {
			dot(at, 1+i)
		}
		width := len(l.Text) * CellW
		if o.Vertical {
			base := at + Ascent
			if o.DontBleed && base > o.Length || end >= 0 && at < end+2 {
				continue
			}
			x := offset
			if o.Flip {
				x = p.W - offset - width
			}
			txts = append(txts, txt{x, base, l.Text})
			boxes = append(boxes, Box{x, base - Ascent, x + width, base})
			end = base
		} else {
			x := at
			if o.DontBleed && x+width > o.Length {
				x = o.Length - width
			}
			if end > 0 && x <= end+10 {
				continue
			}
			for i := 0; i < 3; i++ {
				dot(at, 1+tick+i)
			}
			txts = append(txts, txt{x, offset + Ascent, l.Text})
			boxes = append(boxes, Box{x, offset, x + width, offset + Ascent})
			end = x + width
		}
	}
	for _, t := range txts {
		p.Text(t.x, t.y, t.s)
	}
	return boxes
}

// Paste puts another picture at a place.
func (p *Pic) Paste(o *Pic, x, y int) {
	for py := 0; py < o.H; py++ {
		for px := 0; px < o.W; px++ {
			p.Set(x+px, y+py, o.Px[py*o.W+px])
		}
	}
}

// Of is what a canvas has.
func Of(m *draw.RGB) *Pic {
	p := New(m.Width, m.Height)
	for y := 0; y < m.Height; y++ {
		for x := 0; x < m.Width; x++ {
			i := (y+m.Y)*m.Stride + (x+m.X)*4
			p.Set(x, y, draw.Color{R: m.Pix[i], G: m.Pix[i+1], B: m.Pix[i+2]})
		}
	}
	return p
}
