// Package wl makes the hostile workloads the monitors drive the code with.
// Everything is a function of the PRNG it is handed.
package wl

import (
	"math"
	"math/rand"

	"github.com/RH12503/Triangula/color"
	"github.com/RH12503/Triangula/normgeom"
	"github.com/RH12503/Triangula/triangulation/incrdelaunay"

	"verif/harness/geo"
)

// Pick returns one of xs.
func Pick(r *rand.Rand, xs ...int) int { return xs[r.Intn(len(xs))] }

// Size draws image dimensions whose longer side is at most max.
func Size(r *rand.Rand, max int) (int, int) {
	c := func(v int) int {
		if v < 1 {
			v = 1
		}
		if v > max {
			v = max
		}
		return v
	}
	switch r.Intn(10) {
	case 0: // tiny
		return c(1 + r.Intn(6)), c(1 + r.Intn(6))
	case 1: // thin
		if r.Intn(2) == 0 {
			return c(1 + r.Intn(12)), c(20 + r.Intn(max))
		}
		return c(20 + r.Intn(max)), c(1 + r.Intn(12))
	case 2: // divisible by the usual cell counts
		return c(10 * (1 + r.Intn(30))), c(10 * (1 + r.Intn(30)))
	case 3: // square
		n := c(5 + r.Intn(max))
		return n, n
	case 4, 5, 6: // medium
		return c(10 + r.Intn(150)), c(10 + r.Intn(150))
	case 7: // big
		return c(max/2 + r.Intn(max/2+1)), c(max/2 + r.Intn(max/2+1))
	default:
		return c(1 + r.Intn(max)), c(1 + r.Intn(max))
	}
}

// Styles of point placement.
const (
	Uniform = iota
	Lattice
	Cluster
	Border
	Line
	Circle
	Few
	Mixed
	Hyper
	NumStyles
)

// StyleName names a style.
func StyleName(s int) string {
	return [...]string{"uniform", "lattice", "cluster", "border", "line", "circle", "few", "mixed", "near-line"}[s]
}

// Placer draws integer points in [0,w]x[0,h].
type Placer struct {
	r     *rand.Rand
	w, h  int
	style int
	g     int
	cx    float64
	cy    float64
	dx    float64
	dy    float64
	ring  []geo.P
	few   []geo.P
}

// NewPlacer returns a placer of one style.
func NewPlacer(r *rand.Rand, w, h, style int) *Placer {
	p := &Placer{r: r, w: w, h: h, style: style, g: 1 + r.Intn(9)}
	p.cx, p.cy = r.Float64()*float64(w), r.Float64()*float64(h)
	a := r.Float64() * math.Pi
	if r.Intn(3) == 0 {
		a = float64(r.Intn(4)) * math.Pi / 4
	}
	p.dx, p.dy = math.Cos(a), math.Sin(a)
	if style == Circle {
		p.ring = ring(r, w, h)
	}
	if style == Few {
		k := 1 + r.Intn(4)
		for i := 0; i < k; i++ {
			p.few = append(p.few, geo.P{X: int64(r.Intn(w + 1)), Y: int64(r.Intn(h + 1))})
		}
	}
	return p
}

// ring lists integer points on one circle (as many as a known R2 offers).
func ring(r *rand.Rand, w, h int) []geo.P {
	m := w
	if h < m {
		m = h
	}
	if m >= 60 && r.Intn(2) == 0 {
		return almostRing(r, w, h)
	}
	// squared radii with many representations
	all := []int{1, 2, 5, 25, 50, 65, 325, 425, 650, 1105, 1625, 2125, 4225, 5525, 8125, 27625, 40625, 71825, 138125, 160225, 801125}
	var ok []int
	for _, q := range all {
		if 4*q <= m*m {
			ok = append(ok, q)
		}
	}
	if len(ok) == 0 {
		return nil
	}
	q := ok[r.Intn(len(ok))]
	if r.Intn(2) == 0 {
		q = ok[len(ok)-1]
	}
	rad := int(math.Ceil(math.Sqrt(float64(q))))
	if w-2*rad < 0 || h-2*rad < 0 {
		return nil
	}
	cx, cy := rad+r.Intn(w-2*rad+1), rad+r.Intn(h-2*rad+1)
	var out []geo.P
	for x := -rad; x <= rad; x++ {
		for y := -rad; y <= rad; y++ {
			if x*x+y*y == q {
				out = append(out, geo.P{X: int64(cx + x), Y: int64(cy + y)})
			}
		}
	}
	if r.Intn(2) == 0 {
		out = append(out, geo.P{X: int64(cx), Y: int64(cy)})
	}
	return out
}

// almostRing lists integer points whose squared distances from a centre differ by a few units only.
func almostRing(r *rand.Rand, w, h int) []geo.P {
	out, c := AlmostRing(r, w, h)
	if r.Intn(4) != 0 {
		for i := len(out) / 6; i >= 0; i-- {
			out = append(out, c)
		}
	}
	return out
}

// AlmostRing returns such points and the centre; both sides have to be at least 60.
func AlmostRing(r *rand.Rand, w, h int) ([]geo.P, geo.P) {
	m := w
	if h < m {
		m = h
	}
	rad := 10 + r.Intn(m/2-10)
	if r.Intn(2) == 0 {
		rad = m/2 - 1 - r.Intn(m/20)
	}
	cx, cy := rad+r.Intn(w-2*rad+1), rad+r.Intn(h-2*rad+1)
	q := rad*rad - r.Intn(rad)
	slack := Pick(r, 0, 1, 1, 2, 5)
	var out []geo.P
	for x := -rad; x <= rad; x++ {
		y0 := int(math.Sqrt(math.Max(0, float64(q-x*x))))
		for y := y0; y <= y0+1; y++ {
			if d := x*x + y*y - q; d < -slack || d > slack || y > rad {
				continue
			}
			out = append(out, geo.P{X: int64(cx + x), Y: int64(cy + y)})
			if y > 0 {
				out = append(out, geo.P{X: int64(cx + x), Y: int64(cy - y)})
			}
		}
	}
	return out, geo.P{X: int64(cx), Y: int64(cy)}
}

func (p *Placer) clamp(x, y float64) geo.P {
	x = math.Max(0, math.Min(float64(p.w), math.Round(x)))
	y = math.Max(0, math.Min(float64(p.h), math.Round(y)))
	return geo.P{X: int64(x), Y: int64(y)}
}

// Next draws a point.
func (p *Placer) Next() geo.P {
	r, w, h := p.r, p.w, p.h
	switch p.style {
	case Lattice:
		return geo.P{X: int64(w * r.Intn(p.g+1) / p.g), Y: int64(h * r.Intn(p.g+1) / p.g)}
	case Cluster:
		s := 0.02 + 0.1*float64(p.g)/9
		return p.clamp(p.cx+r.NormFloat64()*s*float64(w), p.cy+r.NormFloat64()*s*float64(h))
	case Border:
		switch r.Intn(6) {
		case 0:
			return geo.P{X: int64(w * r.Intn(2)), Y: int64(h * r.Intn(2))}
		case 1, 2:
			return geo.P{X: int64(w * r.Intn(2)), Y: int64(r.Intn(h + 1))}
		case 3, 4:
			return geo.P{X: int64(r.Intn(w + 1)), Y: int64(h * r.Intn(2))}
		}
		return geo.P{X: int64(r.Intn(w + 1)), Y: int64(r.Intn(h + 1))}
	case Line, Hyper:
		t := (r.Float64()*2 - 1) * math.Hypot(float64(w), float64(h))
		x, y := p.cx+t*p.dx, p.cy+t*p.dy
		if p.style == Hyper {
			x += r.NormFloat64()
			y += r.NormFloat64()
		}
		if r.Intn(12) == 0 {
			return geo.P{X: int64(r.Intn(w + 1)), Y: int64(r.Intn(h + 1))}
		}
		return p.clamp(x, y)
	case Circle:
		if len(p.ring) > 0 && r.Intn(8) != 0 {
			return p.ring[r.Intn(len(p.ring))]
		}
	case Few:
		if r.Intn(10) != 0 {
			return p.few[r.Intn(len(p.few))]
		}
	case Mixed:
		switch r.Intn(5) {
		case 0:
			return geo.P{X: int64(w * r.Intn(2)), Y: int64(h * r.Intn(2))}
		case 1:
			return geo.P{X: int64(w * r.Intn(p.g+1) / p.g), Y: int64(h * r.Intn(p.g+1) / p.g)}
		case 2:
			return p.clamp(p.cx+r.NormFloat64()*3, p.cy+r.NormFloat64()*3)
		}
	}
	return geo.P{X: int64(r.Intn(w + 1)), Y: int64(r.Intn(h + 1))}
}

// Pt converts.
func Pt(p geo.P) incrdelaunay.Point { return incrdelaunay.Point{X: int16(p.X), Y: int16(p.Y)} }

// GP converts.
func GP(p incrdelaunay.Point) geo.P { return geo.P{X: int64(p.X), Y: int64(p.Y)} }

// Norm returns a normalised point that lies on pixel position p of a w x h image; jitter
// moves it inside the pixel's rounding interval.
func Norm(r *rand.Rand, p geo.P, w, h int, jitter bool) normgeom.NormPoint {
	f := func(v int64, n int) float64 {
		x := float64(v)
		if jitter && r.Intn(4) != 0 {
			d := (r.Float64() - 0.5) * 0.96
			if r.Intn(16) == 0 { // almost half-way between two pixels
				d = math.Copysign(0.5-1e-6*(1+r.Float64()), d)
			}
			x += d
		}
		x /= float64(n)
		return math.Max(0, math.Min(1, x))
	}
	return normgeom.NormPoint{X: f(p.X, w), Y: f(p.Y, h)}
}

// Pix is the pixel position a normalised point stands for.
func Pix(p normgeom.NormPoint, w, h int) geo.P {
	return geo.P{X: int64(math.Floor(p.X*float64(w) + 0.5)), Y: int64(math.Floor(p.Y*float64(h) + 0.5))}
}

// Ambiguous tells whether the rounding of p to a pixel position is within float noise of a tie.
func Ambiguous(p normgeom.NormPoint, w, h int) bool {
	f := func(v float64) bool {
		v -= math.Floor(v)
		return math.Abs(v-0.5) < 1e-9
	}
	return f(p.X*float64(w)) || f(p.Y*float64(h))
}

// Img is an image of 8-bit colours, chosen so that squares of the normalised channels
// have no rounding error (see Exact).
type Img struct {
	W, H int
	Px   [][3]uint8
}

// Exact tells whether the sum of squared channels is an exact integer when computed
// from the normalised channels in floating point and truncated.
func Exact(c [3]uint8) bool {
	R, G, B := float64(c[0])/255, float64(c[1])/255, float64(c[2])/255
	s := uint32(R*255*R*255 + G*255*G*255 + B*255*B*255)
	return int(s) == int(c[0])*int(c[0])+int(c[1])*int(c[1])+int(c[2])*int(c[2])
}

// At returns the 8-bit colour.
func (m *Img) At(x, y int) [3]uint8 { return m.Px[y*m.W+x] }

// RGBAt implements image.Data.
func (m *Img) RGBAt(x, y int) color.RGB {
	if x < 0 || y < 0 || x >= m.W || y >= m.H {
		panic("pixel outside the image was read")
	}
	c := m.Px[y*m.W+x]
	return color.RGB{R: float64(c[0]) / 255, G: float64(c[1]) / 255, B: float64(c[2]) / 255}
}

// Size implements image.Data.
func (m *Img) Size() (int, int) { return m.W, m.H }

// Image kinds.
var imgKinds = []string{"noise", "flat", "gradient", "halves", "checker", "extreme", "stripes", "blobs", "dark-noise", "bright"}

// NewImg draws an image.
func NewImg(r *rand.Rand, w, h int) (*Img, string) { return newImg(r, w, h, false) }

// NewImgAll draws an image of any 8-bit colours.
func NewImgAll(r *rand.Rand, w, h int) (*Img, string) { return newImg(r, w, h, true) }

// Inexact counts the pixels whose sum of squared channels is truncated.
func (m *Img) Inexact() int {
	n := 0
	for _, c := range m.Px {
		if !Exact(c) {
			n++
		}
	}
	return n
}

// Flat is an image of one colour.
func Flat(w, h int, c [3]uint8) *Img {
	m := &Img{W: w, H: h, Px: make([][3]uint8, w*h)}
	for i := range m.Px {
		m.Px[i] = c
	}
	return m
}

func newImg(r *rand.Rand, w, h int, inexact bool) (*Img, string) {
	m := &Img{W: w, H: h, Px: make([][3]uint8, w*h)}
	k := r.Intn(len(imgKinds))
	rc := func() [3]uint8 { return [3]uint8{uint8(r.Intn(256)), uint8(r.Intn(256)), uint8(r.Intn(256))} }
	a, b := rc(), rc()
	cw := 1 + r.Intn(9)
	type blob struct {
		x, y, s float64
		c       [3]uint8
	}
	var bl []blob
	for i := 0; i < 5; i++ {
		bl = append(bl, blob{r.Float64() * float64(w), r.Float64() * float64(h), (0.1 + r.Float64()*0.3) * float64(w+h) / 2, rc()})
	}
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			var c [3]uint8
			switch imgKinds[k] {
			case "noise":
				c = rc()
			case "flat":
				c = a
			case "gradient":
				c = [3]uint8{uint8(255 * x / w), uint8(255 * y / h), uint8(255 * (x + y) / (w + h))}
			case "halves":
				c = a
				if 2*x > w {
					c = b
				}
			case "checker":
				c = a
				if (x/cw+y/cw)%2 == 0 {
					c = b
				}
			case "extreme":
				c = [3]uint8{uint8(255 * r.Intn(2)), uint8(255 * r.Intn(2)), uint8(255 * r.Intn(2))}
			case "stripes":
				c = a
				if y/cw%2 == 0 {
					c = b
				}
			case "blobs":
				c = a
				for _, q := range bl {
					if math.Hypot(q.x-float64(x), q.y-float64(y)) < q.s {
						c = q.c
					}
				}
			case "dark-noise":
				c = [3]uint8{uint8(r.Intn(8)), uint8(r.Intn(8)), uint8(r.Intn(8))}
			case "bright":
				c = [3]uint8{uint8(248 + r.Intn(8)), uint8(248 + r.Intn(8)), uint8(248 + r.Intn(8))}
			}
			for !inexact && !Exact(c) {
				c[r.Intn(3)] += uint8(1 + r.Intn(2))
			}
			m.Px[y*w+x] = c
		}
	}
	return m, imgKinds[k]
}

// Twin is an image of the same size and the same corners with other pixels inside.
func (m *Img) Twin(r *rand.Rand) *Img {
	t := &Img{W: m.W, H: m.H, Px: append([][3]uint8(nil), m.Px...)}
	o, _ := NewImg(r, m.W, m.H)
	if r.Intn(2) == 0 { // the same pixels in other places
		for i := range o.Px {
			o.Px[i] = m.Px[r.Intn(len(m.Px))]
		}
	}
	corner := map[int]bool{0: true, m.W - 1: true, (m.H - 1) * m.W: true, m.W*m.H - 1: true}
	for i := range t.Px {
		if !corner[i] {
			t.Px[i] = o.Px[i]
		}
	}
	return t
}
