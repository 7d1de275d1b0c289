package props

import (
	"fmt"
	"image"
	icolor "image/color"
	"image/color/palette"
	"math"
	"math/rand"

	"github.com/RH12503/Triangula/color"
	"github.com/RH12503/Triangula/geom"
	tri "github.com/RH12503/Triangula/image"
	"github.com/RH12503/Triangula/normgeom"
	"github.com/RH12503/Triangula/polygonation"
	"github.com/RH12503/Triangula/rasterize"
	"github.com/RH12503/Triangula/render"
	"github.com/RH12503/Triangula/triangulation"
	"github.com/RH12503/Triangula/triangulation/incrdelaunay"
	fd "github.com/fogleman/delaunay"

	"verif/harness/geo"
	"verif/harness/mon"
	"verif/harness/wl"
)

func init() {
	mon.Register(&mon.Prop{
		ID: "T18", Quick: 40000, Thorough: 2000000,
		Rule:   "one case = one image of one of 16 types (all of the standard library, plus a foreign one with 16-bit colours and a read counter), with bounds that often do not start at the origin, often cut out of a larger image; every pixel of the converted data is compared with the source's; non-trivial = at least two colours; distinct by type, bounds and colours",
		Assume: []string{"image bounds are finite"},
		Run:    runConvert,
		MinObs: map[string]int64{"pixels": 1000000, "shifted_bounds": 2000, "sub_images": 1500, "translucent": 1000, "opaque_images": 2000, "cropped_images": 1000, "large_images": 100, "empty_data": 1000},
	})
	mon.Register(&mon.Prop{
		ID: "T19", Quick: 60000, Thorough: 2000000,
		Rule: "one case = one image with arbitrary float colours and a list of triangles or polygons (a triangulation, the regions of points, random shapes, slivers, points and segments, border shapes); every returned shape and colour is compared with the mean over the pixels the shape covers; non-trivial = at least two shapes; distinct by shapes",
		Assume: []string{
			"vertices lie in the image (including its right and lower border), polygons have at least one vertex",
			"the pixels of a shape are those the per-pixel rasteriser reports (decided by T07); for polygons whose fan covers a pixel twice only the range of the colour is checked",
		},
		Run:    runRender,
		MinObs: map[string]int64{"triangles": 50000, "polygons": 30000, "without_pixels": 5000, "on_far_border": 5000, "over_65535_pixels": 20, "wide_images": 200, "long_lists": 100},
	})
	mon.Register(&mon.Prop{
		ID: "T22", Quick: 150000, Thorough: 6000000,
		Rule:   "one case = one PRNG-drawn input to each helper (copy, set, constrain, distance, normalise, area) followed by edits of both sides; non-trivial = always; distinct by input",
		Assume: []string{"coordinates are finite; area is asked for convex polygons"},
		Run:    runHelpers,
		MinObs: map[string]int64{"set": 10000, "large_groups": 500, "set_mismatch": 5000, "constrain_outside": 10000, "area": 10000, "normalised": 10000},
	})
}

// foreign is an image type of its own.
type foreign struct {
	b    image.Rectangle
	seed uint32
	px   []icolor.RGBA64
}

func (f *foreign) ColorModel() icolor.Model { return icolor.RGBA64Model }
func (f *foreign) Bounds() image.Rectangle  { return f.b }
func (f *foreign) At(x, y int) icolor.Color {
	if !(image.Point{X: x, Y: y}).In(f.b) {
		panic(fmt.Sprintf("pixel (%d,%d) outside %v was read", x, y, f.b))
	}
	return f.px[(y-f.b.Min.Y)*f.b.Dx()+x-f.b.Min.X]
}

type subber interface {
	SubImage(image.Rectangle) image.Image
}

type setter interface {
	Set(x, y int, c icolor.Color)
}

func newStdImage(r *rand.Rand, b image.Rectangle) (image.Image, string, []byte) {
	fill := func(p []byte) []byte {
		mode := r.Intn(3)
		for i := range p {
			switch mode {
			case 0:
				p[i] = byte(r.Intn(256))
			case 1:
				p[i] = byte(255 * r.Intn(2))
			default:
				p[i] = byte(i)
			}
		}
		return p
	}
	switch r.Intn(16) {
	case 0:
		m := image.NewRGBA(b)
		return m, "RGBA", fill(m.Pix)
	case 1:
		m := image.NewNRGBA(b)
		return m, "NRGBA", fill(m.Pix)
	case 2:
		m := image.NewGray(b)
		return m, "Gray", fill(m.Pix)
	case 3:
		m := image.NewGray16(b)
		return m, "Gray16", fill(m.Pix)
	case 4:
		m := image.NewRGBA64(b)
		return m, "RGBA64", fill(m.Pix)
	case 5:
		m := image.NewNRGBA64(b)
		return m, "NRGBA64", fill(m.Pix)
	case 6:
		m := image.NewCMYK(b)
		return m, "CMYK", fill(m.Pix)
	case 7, 8, 9:
		sr := []image.YCbCrSubsampleRatio{image.YCbCrSubsampleRatio444, image.YCbCrSubsampleRatio422, image.YCbCrSubsampleRatio420, image.YCbCrSubsampleRatio440, image.YCbCrSubsampleRatio411, image.YCbCrSubsampleRatio410}[r.Intn(6)]
		m := image.NewYCbCr(b, sr)
		fill(m.Cb)
		fill(m.Cr)
		return m, "YCbCr", fill(m.Y)
	case 10:
		m := image.NewNYCbCrA(b, image.YCbCrSubsampleRatio420)
		fill(m.Cb)
		fill(m.A)
		return m, "NYCbCrA", fill(m.Y)
	case 11:
		m := image.NewPaletted(b, palette.Plan9)
		return m, "Paletted", fill(m.Pix)
	case 12:
		m := image.NewAlpha(b)
		return m, "Alpha", fill(m.Pix)
	case 13:
		m := image.NewAlpha16(b)
		return m, "Alpha16", fill(m.Pix)
	}
	f := &foreign{b: b}
	for i := 0; i < b.Dx()*b.Dy(); i++ {
		f.px = append(f.px, icolor.RGBA64{R: uint16(r.Intn(65536)), G: uint16(r.Intn(65536)), B: uint16(r.Intn(65536)), A: 65535})
	}
	return f, "foreign", nil
}

// makeOpaque makes every pixel of an image with an alpha channel opaque.
func makeOpaque(m image.Image) bool {
	pix, n, k := []byte(nil), 4, 3
	switch q := m.(type) {
	case *image.RGBA:
		pix = q.Pix
	case *image.NRGBA:
		pix = q.Pix
	case *image.RGBA64:
		pix, n, k = q.Pix, 8, 6
	case *image.NRGBA64:
		pix, n, k = q.Pix, 8, 6
	case *image.NYCbCrA:
		pix, n, k = q.A, 1, 0
	default:
		return false
	}
	for i := range pix {
		if i%n >= k {
			pix[i] = 255
		}
	}
	return true
}

func runConvert(c *mon.Ctx) {
	r := c.R
	w, h := wl.Size(r, wl.Pick(r, 4, 20, 60))
	if r.Intn(40) == 0 {
		w = 0
	}
	if r.Intn(60) == 0 {
		w, h = wl.Pick(r, 300, 700, 2100, 4100), 1+r.Intn(6)
		switch r.Intn(5) {
		case 0:
			w, h = 100+r.Intn(500), 100+r.Intn(500)
		case 1, 2:
			w, h = h, w
		}
		c.Obs("large_images", 1)
	}
	var min image.Point
	if r.Intn(2) == 0 {
		d := wl.Pick(r, 100, 100, 100, 5000, 1<<20)
		min = image.Pt(r.Intn(2*d)-d, r.Intn(2*d)-d)
		c.Obs("shifted_bounds", 1)
	}
	b := image.Rectangle{Min: min, Max: min.Add(image.Pt(w, h))}
	m, kind, pix := newStdImage(r, b)
	if min.X < 0 || min.Y < 0 {
		// the standard library reads outside YCbCr images that start left of or above the origin
		switch m.(type) {
		case *image.YCbCr, *image.NYCbCrA:
			b = b.Sub(min)
			min = image.Point{}
			q := image.NewRGBA(b)
			r.Read(q.Pix)
			m, kind, pix = q, "RGBA", q.Pix
		}
	}
	if r.Intn(2) == 0 && makeOpaque(m) {
		c.Obs("opaque_images", 1)
		if s, ok := m.(setter); ok && w > 0 && h > 0 && r.Intn(3) == 0 { // but for one pixel
			s.Set(min.X+r.Intn(w), min.Y+r.Intn(h), icolor.NRGBA{uint8(r.Intn(256)), uint8(r.Intn(256)), uint8(r.Intn(256)), uint8(r.Intn(256))})
		}
	}
	if s, ok := m.(subber); ok && r.Intn(2) == 0 && w > 0 && h > 0 {
		x0, y0 := min.X+r.Intn(w), min.Y+r.Intn(h)
		x1, y1 := x0+1+r.Intn(b.Max.X-x0), y0+1+r.Intn(b.Max.Y-y0)
		if min == (image.Point{}) && r.Intn(3) == 0 { // cut off on the right or below only
			x0, y0 = 0, 0
			x1, y1 = 1+r.Intn(w), 1+r.Intn(h)
			c.Obs("cropped_images", 1)
		}
		m = s.SubImage(image.Rect(x0, y0, x1, y1))
		b = m.Bounds()
		kind += " cut out"
		c.Obs("sub_images", 1)
	}
	w, h = b.Dx(), b.Dy()
	c.Note("%s image with bounds %v", kind, b)
	keep := append([]byte(nil), pix...)
	type rgb [3]uint32
	want := make([]rgb, 0, w*h)
	colours := map[rgb]bool{}
	for y := b.Min.Y; y < b.Max.Y; y++ {
		for x := b.Min.X; x < b.Max.X; x++ {
			R, G, B, A := m.At(x, y).RGBA()
			if A < 65535 && A > 0 {
				c.Obs("translucent", 1)
			}
			want = append(want, rgb{R, G, B})
			colours[rgb{R, G, B}] = true
		}
	}
	d := tri.ToData(m)
	for i := range keep {
		c.Check(pix[i] == keep[i], "converting a %s image changed it", kind)
	}
	compare := func(when string) {
		gw, gh := d.Size()
		c.Check(gw == w && gh == h, "%s image with bounds %v: the data is %dx%d %s", kind, b, gw, gh, when)
		for i, q := range want {
			x, y := i%w, i/w
			got := d.RGBAt(x, y)
			for k, v := range [3]float64{got.R, got.G, got.B} {
				e := float64(q[k]>>8) / 255
				c.Check(math.Abs(v-e) < 1e-12, "%s image with bounds %v: channel %d of pixel (%d,%d) is %v %s, the image has %v", kind, b, k, x, y, v, when, e)
			}
		}
		c.Obs("pixels", w*h)
	}
	compare("after conversion")
	if s, ok := m.(setter); ok && w > 0 && h > 0 {
		for k := 0; k < 5; k++ {
			s.Set(b.Min.X+r.Intn(w), b.Min.Y+r.Intn(h), icolor.RGBA{uint8(r.Intn(256)), uint8(r.Intn(256)), uint8(r.Intn(256)), 255})
		}
		for i := range pix {
			pix[i] ^= 0x5a
		}
		compare("after the image changed")
		// converting the changed image again gives the new colours, and leaves the earlier data alone
		old, oldD := append([]rgb(nil), want...), d
		want = want[:0]
		for y := b.Min.Y; y < b.Max.Y; y++ {
			for x := b.Min.X; x < b.Max.X; x++ {
				R, G, B, _ := m.At(x, y).RGBA()
				want = append(want, rgb{R, G, B})
			}
		}
		d = tri.ToData(m)
		compare("converted again after the image changed")
		want, d = old, oldD
		compare("after another conversion")
		c.Obs("converted_again", 1)
	}
	c.Eval(len(colours) > 1, kind, b, want)
	// empty data
	ew, eh := r.Intn(30), r.Intn(30)
	e := tri.NewData(ew, eh)
	gw, gh := e.Size()
	c.Check(gw == ew && gh == eh, "new data of %dx%d is %dx%d", ew, eh, gw, gh)
	for y := 0; y < eh; y++ {
		for x := 0; x < ew; x++ {
			c.Check(e.RGBAt(x, y) == color.RGB{}, "new data has a colour at (%d,%d)", x, y)
		}
	}
	c.Obs("empty_data", 1)
}

// floatImg is an image of arbitrary colours.
type floatImg struct {
	w, h int
	px   []color.RGB
}

func (f *floatImg) Size() (int, int) { return f.w, f.h }
func (f *floatImg) RGBAt(x, y int) color.RGB {
	if x < 0 || y < 0 || x >= f.w || y >= f.h {
		panic(fmt.Sprintf("pixel (%d,%d) of a %dx%d image was read", x, y, f.w, f.h))
	}
	return f.px[y*f.w+x]
}

type meanRGB struct {
	s [3]float64
	n int
}

func (m *meanRGB) add(c color.RGB) {
	m.s[0] += c.R
	m.s[1] += c.G
	m.s[2] += c.B
	m.n++
}

func (m *meanRGB) is(c color.RGB) bool {
	n := float64(m.n)
	return math.Abs(c.R-m.s[0]/n) < 1e-9 && math.Abs(c.G-m.s[1]/n) < 1e-9 && math.Abs(c.B-m.s[2]/n) < 1e-9
}

func vertexMean(f *floatImg, vs []geom.Point) *meanRGB {
	m := &meanRGB{}
	for _, p := range vs {
		x, y := p.X, p.Y
		if x > f.w-1 {
			x = f.w - 1
		}
		if y > f.h-1 {
			y = f.h - 1
		}
		m.add(f.RGBAt(x, y))
	}
	return m
}

func normOK(v []normgeom.NormPoint, p []geom.Point, w, h int) bool {
	if len(v) != len(p) {
		return false
	}
	for i := range v {
		if v[i].X != float64(p[i].X)/float64(w) || v[i].Y != float64(p[i].Y)/float64(h) {
			return false
		}
	}
	return true
}

func runRender(c *mon.Ctx) {
	r := c.R
	w, h := wl.Size(r, wl.Pick(r, 3, 12, 40, 90))
	if r.Intn(600) == 0 {
		w, h = 200+r.Intn(500), 200+r.Intn(500)
	} else if r.Intn(80) == 0 {
		w, h = wl.Pick(r, 300, 600, 1100, 2100, 4000, 8000), 1+r.Intn(8)
		if r.Intn(2) == 0 {
			w, h = h, w
		}
		c.Obs("wide_images", 1)
	}
	f := &floatImg{w: w, h: h}
	mode := r.Intn(4)
	base := color.RGB{R: r.Float64(), G: r.Float64(), B: r.Float64()}
	lo, hi := [3]float64{9, 9, 9}, [3]float64{-9, -9, -9}
	for i := 0; i < w*h; i++ {
		q := base
		switch mode {
		case 0, 1:
			q = color.RGB{R: r.Float64(), G: r.Float64(), B: r.Float64()}
		case 2:
			q = color.RGB{R: float64(i%w) / float64(w), G: float64(i/w) / float64(h), B: float64(r.Intn(2))}
		}
		f.px = append(f.px, q)
		for k, v := range [3]float64{q.R, q.G, q.B} {
			lo[k], hi[k] = math.Min(lo[k], v), math.Max(hi[k], v)
		}
	}
	inRange := func(q color.RGB) bool {
		for k, v := range [3]float64{q.R, q.G, q.B} {
			if !(v >= lo[k]-1e-9 && v <= hi[k]+1e-9) {
				return false
			}
		}
		return true
	}
	style := r.Intn(wl.NumStyles)
	pl := wl.NewPlacer(r, w, h, style)
	n := 1 + r.Intn(30)
	if r.Intn(150) == 0 {
		n = 100 + r.Intn(1000)
		c.Obs("long_lists", 1)
	}
	np, pts := normPoints(r, pl, n, w, h)
	c.Note("image %dx%d, points %v (%s)", w, h, pts, wl.StyleName(style))
	rp := func() geom.Point { p := pl.Next(); return geom.Point{X: int(p.X), Y: int(p.Y)} }
	far := func(ps []geom.Point) {
		for _, p := range ps {
			if p.X == w || p.Y == h {
				c.Obs("on_far_border", 1)
				return
			}
		}
	}
	// triangles
	tris := triangulation.Triangulate(np, w, h)
	for k := r.Intn(8); k > 0; k-- {
		a, b, d := rp(), rp(), rp()
		if r.Intn(3) == 0 {
			d = a
		}
		if r.Intn(4) == 0 {
			b = geom.Point{X: a.X, Y: a.Y}
		}
		tris = append(tris, geom.NewTriangle(a.X, a.Y, b.X, b.Y, d.X, d.Y))
	}
	r.Shuffle(len(tris), func(i, j int) { tris[i], tris[j] = tris[j], tris[i] })
	keep := append([]geom.Triangle(nil), tris...)
	out := render.TrianglesOnImage(tris, f)
	c.Check(len(out) == len(tris), "%d triangles give %d shapes", len(tris), len(out))
	for i, t := range keep {
		c.Check(tris[i] == t, "rendering changed triangle %d", i)
		c.Check(normOK(out[i].Triangle.Points[:], t.Points[:], w, h), "image %dx%d: triangle %d, %v, is returned with vertices %v", w, h, i, t, out[i].Triangle.Points)
		m := &meanRGB{}
		rasterize.DDATriangle(t, func(x, y int) { m.add(f.RGBAt(x, y)) })
		what := fmt.Sprintf("the mean of its %d pixels", m.n)
		if m.n == 0 {
			m = vertexMean(f, t.Points[:])
			what = "the mean of its vertices"
			c.Obs("without_pixels", 1)
		}
		c.Check(m.is(out[i].Color), "image %dx%d: triangle %v has colour %v, %s is %v of %d", w, h, t, out[i].Color, what, m.s, m.n)
		c.Check(inRange(out[i].Color), "image %dx%d: triangle %v has colour %v outside the image's range", w, h, t, out[i].Color)
		far(t.Points[:])
	}
	if w*h > 80000 {
		// shapes of more than 65536 pixels
		t := []geom.Triangle{geom.NewTriangle(0, 0, w, 0, 0, h), geom.NewTriangle(w, h, w, 0, 0, h), geom.NewTriangle(0, 0, w, r.Intn(h+1), r.Intn(w+1), h)}
		for i, o := range render.TrianglesOnImage(t, f) {
			m := &meanRGB{}
			rasterize.DDATriangle(t[i], func(x, y int) { m.add(f.RGBAt(x, y)) })
			if m.n == 0 {
				continue
			}
			if m.n > 65535 {
				c.Obs("over_65535_pixels", 1)
			}
			c.Check(m.is(o.Color), "image %dx%d: triangle %v has colour %v, the mean of its %d pixels is %v of that", w, h, t[i], o.Color, m.n, m.s)
		}
		pg := geom.Polygon{Points: []geom.Point{{X: 0, Y: 0}, {X: w, Y: 0}, {X: w, Y: h}, {X: 0, Y: h}}}
		m := &meanRGB{}
		for _, q := range f.px {
			m.add(q)
		}
		o := render.PolygonsOnImage([]geom.Polygon{pg}, f)
		c.Check(m.is(o[0].Color), "image %dx%d: the whole image has colour %v, the mean of its %d pixels is %v of that", w, h, o[0].Color, m.n, m.s)
	}
	// the same shapes on other images: each result describes its own image
	f2 := &floatImg{w: w, h: h}
	for range f.px {
		f2.px = append(f2.px, color.RGB{R: r.Float64(), G: r.Float64(), B: r.Float64()})
	}
	if r.Intn(3) == 0 { // images that agree in places
		copy(f2.px[:1+r.Intn(len(f.px))], f.px)
		f2.px[len(f.px)-1] = f.px[len(f.px)-1]
	}
	again := func(f *floatImg, what string) {
		for i, o := range render.TrianglesOnImage(tris, f) {
			m := &meanRGB{}
			rasterize.DDATriangle(tris[i], func(x, y int) { m.add(f.RGBAt(x, y)) })
			if m.n == 0 {
				m = vertexMean(f, tris[i].Points[:])
			}
			c.Check(m.is(o.Color), "image %dx%d: triangle %v has colour %v %s, the mean is %v of %d", w, h, tris[i], o.Color, what, m.s, m.n)
		}
	}
	again(f2, "on a second image")
	kept := append([]color.RGB(nil), f2.px...)
	for k := 1 + r.Intn(5); k > 0; k-- {
		f2.px[r.Intn(len(f2.px))] = color.RGB{R: r.Float64(), G: r.Float64(), B: r.Float64()}
	}
	again(f2, "after a few pixels of the image changed")
	for i, t := range keep {
		c.Check(normOK(out[i].Triangle.Points[:], t.Points[:], w, h), "rendering again changed triangle %d of an earlier result", i)
	}
	c.Obs("rendered_again", 1)
	c.Obs("triangles", len(tris))
	c.Eval(len(tris) > 1, w, h, keep)
	// polygons
	polys := polygonation.Polygonate(np, w, h)
	for k := r.Intn(5); k > 0; k-- {
		var p geom.Polygon
		switch r.Intn(3) {
		case 0:
			for j := 1 + r.Intn(2); j > 0; j-- {
				p.Points = append(p.Points, rp())
			}
		case 1:
			a := rp()
			for j := 1 + r.Intn(5); j > 0; j-- {
				p.Points = append(p.Points, a)
			}
		default:
			var gp []geo.P
			for j := 3 + r.Intn(6); j > 0; j-- {
				gp = append(gp, pl.Next())
			}
			for _, q := range geo.Hull(gp) {
				p.Points = append(p.Points, geom.Point{X: int(q.X), Y: int(q.Y)})
			}
			if len(p.Points) == 0 {
				p.Points = append(p.Points, rp())
			}
		}
		polys = append(polys, p)
	}
	if r.Intn(10) == 0 {
		polys = append(polys, geom.Polygon{Points: []geom.Point{{X: 0, Y: 0}, {X: w, Y: 0}, {X: w, Y: h}, {X: 0, Y: h}}})
	}
	r.Shuffle(len(polys), func(i, j int) { polys[i], polys[j] = polys[j], polys[i] })
	var keepP [][]geom.Point
	for _, p := range polys {
		keepP = append(keepP, append([]geom.Point(nil), p.Points...))
	}
	pout := render.PolygonsOnImage(polys, f)
	c.Check(len(pout) == len(polys), "%d polygons give %d shapes", len(polys), len(pout))
	for i, ps := range keepP {
		for j := range ps {
			c.Check(len(polys[i].Points) == len(ps) && polys[i].Points[j] == ps[j], "rendering changed polygon %d", i)
		}
		c.Check(normOK(pout[i].Polygon.Points, ps, w, h), "image %dx%d: polygon %d, %v, is returned with vertices %v", w, h, i, ps, pout[i].Polygon.Points)
		m := &meanRGB{}
		twice := false
		seen := map[px]bool{}
		for k := 2; k < len(ps); k++ {
			rasterize.DDATriangle(geom.Triangle{Points: [3]geom.Point{ps[k], ps[k-1], ps[0]}}, func(x, y int) {
				m.add(f.RGBAt(x, y))
				twice = twice || seen[px{x, y}]
				seen[px{x, y}] = true
			})
		}
		if m.n == 0 {
			m = vertexMean(f, ps)
			c.Obs("without_pixels", 1)
		}
		if !twice {
			c.Check(m.is(pout[i].Color), "image %dx%d: polygon %v has colour %v, the mean is %v of %d", w, h, ps, pout[i].Color, m.s, m.n)
		} else {
			c.Obs("covered_twice", 1)
		}
		c.Check(inRange(pout[i].Color), "image %dx%d: polygon %v has colour %v outside the image's range", w, h, ps, pout[i].Color)
		far(ps)
	}
	// the same polygons on the second image, before and after some of its pixels changed
	for k := 0; k < 2; k++ {
		what := "before"
		if k == 1 {
			what = "after"
		} else {
			f2.px, kept = kept, f2.px
		}
		if k == 1 {
			copy(f2.px, kept)
		}
		for i, o := range render.PolygonsOnImage(polys, f2) {
			m := &meanRGB{}
			twice := false
			seen := map[px]bool{}
			for k := 2; k < len(keepP[i]); k++ {
				rasterize.DDATriangle(geom.Triangle{Points: [3]geom.Point{keepP[i][k], keepP[i][k-1], keepP[i][0]}}, func(x, y int) {
					m.add(f2.RGBAt(x, y))
					twice = twice || seen[px{x, y}]
					seen[px{x, y}] = true
				})
			}
			if m.n == 0 {
				m = vertexMean(f2, keepP[i])
			}
			c.Check(twice || m.is(o.Color), "image %dx%d: polygon %v has colour %v on a second image, %s some of its pixels changed, the mean is %v of %d", w, h, keepP[i], o.Color, what, m.s, m.n)
		}
	}
	// results are independent of each other
	if len(pout) > 1 && len(pout[0].Polygon.Points) > 0 {
		pout[0].Polygon.Points[0] = normgeom.NormPoint{X: -3, Y: -3}
		for i := 1; i < len(pout); i++ {
			c.Check(normOK(pout[i].Polygon.Points, keepP[i], w, h), "changing shape 0 changed shape %d", i)
		}
	}
	c.Obs("polygons", len(polys))
	c.Eval(len(polys) > 1, "p", w, h, keepP)
}

func runHelpers(c *mon.Ctx) {
	r := c.R
	draw := func(n int) normgeom.NormPointGroup {
		p := make(normgeom.NormPointGroup, n)
		for i := range p {
			p[i] = normgeom.NormPoint{X: r.Float64(), Y: r.Float64()}
		}
		return p
	}
	eq := func(a, b normgeom.NormPointGroup) bool { return len(a) == len(b) && key(a) == key(b) }
	n := wl.Pick(r, 0, 1, 2, 5, 40)
	if r.Intn(40) == 0 {
		n = r.Intn(wl.Pick(r, 300, 1500, 6000))
		c.Obs("large_groups", 1)
	}
	a := draw(n)
	ak := a.Copy()
	raw := append([]normgeom.NormPoint(nil), a...)
	c.Check(eq(ak, raw), "a copy of %v is %v", raw, ak)
	if n > 0 {
		i := r.Intn(n)
		ak[i].X = -1
		c.Check(eq(a, raw), "changing a copy changed the original")
		ak[i].X = raw[i].X
		a[i].Y = -2
		c.Check(eq(ak, raw), "changing the original changed a copy")
		a[i].Y = raw[i].Y
	}
	grown := append(ak[:len(ak):len(ak)], normgeom.NormPoint{})
	_ = grown
	b := draw(n)
	b.Set(a)
	c.Check(eq(a, raw) && eq(b, raw), "setting a group to %v gives %v", raw, b)
	c.Obs("set", 1)
	if n > 0 {
		i := r.Intn(n)
		b[i].X += 2
		c.Check(eq(a, raw), "changing a group changed the one it was set to")
		b[i].X = raw[i].X
		a[i].X += 3
		c.Check(eq(b, raw), "changing a group changed one that was set to it before")
		a[i].X = raw[i].X
	}
	more := make([]normgeom.NormPointGroup, 1+r.Intn(3))
	for i := range more {
		more[i] = a.Copy()
		if n > 0 {
			more[i][r.Intn(n)].X += float64(1 + i)
			more[i][r.Intn(n)].Y += float64(1 + i)
		}
	}
	c.Check(eq(a, raw) && eq(b, raw) && eq(ak, raw), "changing further copies of a group of %d points changed it or earlier copies", n)
	for i := range more {
		d := 0
		for k := range more[i] {
			if more[i][k].X != raw[k].X {
				d++
			}
			if more[i][k].Y != raw[k].Y {
				d++
			}
		}
		c.Check(n == 0 || d == 2, "copy %d of a group of %d points differs from it in %d coordinates after two changes", i, n, d)
	}
	m := wl.Pick(r, 0, 1, 3, 5, 41, n+1)
	if m != n {
		d := draw(m)
		dk := append([]normgeom.NormPoint(nil), d...)
		paniced := func() (p bool) {
			defer func() { p = recover() != nil }()
			d.Set(a)
			return
		}()
		c.Check(paniced, "setting a group of %d points to one of %d does not panic", m, n)
		c.Check(eq(a, raw) && eq(d, dk), "setting a group of %d points to one of %d changes points", m, n)
		c.Obs("set_mismatch", 1)
	}
	// constrain
	f := func() float64 {
		switch r.Intn(6) {
		case 0:
			return float64(r.Intn(2))
		case 1:
			return math.Nextafter(float64(r.Intn(2)), float64(r.Intn(3)-1)*5)
		case 2:
			return (r.Float64() - 0.5) * 1e6
		case 3:
			return math.Inf(1 - 2*r.Intn(2))
		}
		return r.Float64()*3 - 1
	}
	p := normgeom.NormPoint{X: f(), Y: f()}
	q := p
	q.Constrain()
	cl := func(v float64) float64 { return math.Max(0, math.Min(1, v)) }
	c.Check(q.X == cl(p.X) && q.Y == cl(p.Y), "%v is constrained to %v", p, q)
	if p != q {
		c.Obs("constrain_outside", 1)
	}
	// distance
	u, v := draw(2), draw(2)
	g := normgeom.Dist(u[0], v[0])
	e := math.Hypot(u[0].X-v[0].X, u[0].Y-v[0].Y)
	c.Check(math.Abs(g-e) <= 1e-12*(e+1e-3) && normgeom.Dist(u[0], u[0]) == 0 && normgeom.Dist(v[0], u[0]) == g, "the distance of %v and %v is %v, want %v", u[0], v[0], g, e)
	s := wl.Pick(r, 3, 100, 4000, 16000)
	i1, i2 := geom.Point{X: r.Intn(s), Y: r.Intn(s)}, geom.Point{X: r.Intn(s), Y: r.Intn(s)}
	dx, dy := i1.X-i2.X, i1.Y-i2.Y
	if m, ok := interface{}(i1).(interface{ DistSq(geom.Point) int }); ok {
		c.Check(m.DistSq(i2) == dx*dx+dy*dy, "the squared distance of %v and %v is %v", i1, i2, m.DistSq(i2))
	}
	if m, ok := interface{}(i1).(interface{ Sub(geom.Point) geom.Point }); ok {
		c.Check(m.Sub(i2) == geom.Point{X: dx, Y: dy}, "%v minus %v is %v", i1, i2, m.Sub(i2))
	}
	d1, d2 := incrdelaunay.Point{X: int16(i1.X), Y: int16(i1.Y)}, incrdelaunay.Point{X: int16(i2.X), Y: int16(i2.Y)}
	if m, ok := interface{}(d1).(interface {
		DistSq(incrdelaunay.Point) int64
	}); ok {
		c.Check(m.DistSq(d2) == int64(dx*dx+dy*dy), "the squared distance of %v and %v is %v", d1, d2, m.DistSq(d2))
	}
	// normalising
	w, h := 1+r.Intn(5000), 1+r.Intn(5000)
	var t geom.Triangle
	for i := range t.Points {
		t.Points[i] = geom.Point{X: r.Intn(w + 1), Y: r.Intn(h + 1)}
	}
	t2 := geom.NewTriangle(t.Points[0].X, t.Points[0].Y, t.Points[1].X, t.Points[1].Y, t.Points[2].X, t.Points[2].Y)
	c.Check(t == t2, "a triangle of %v has vertices %v", t, t2)
	nt := t.ToNorm(w, h)
	c.Check(normOK(nt.Points[:], t.Points[:], w, h), "triangle %v of a %dx%d image is normalised to %v", t, w, h, nt)
	n2 := normgeom.NewNormTriangle(u[0].X, u[0].Y, u[1].X, u[1].Y, v[0].X, v[0].Y)
	c.Check(n2.Points == [3]normgeom.NormPoint{u[0], u[1], v[0]}, "a normalised triangle of %v %v has vertices %v", u, v, n2)
	var pg geom.Polygon
	for i := r.Intn(9); i > 0; i-- {
		pg.Points = append(pg.Points, geom.Point{X: r.Intn(w + 1), Y: r.Intn(h + 1)})
	}
	pk := append([]geom.Point(nil), pg.Points...)
	ng := pg.ToNorm(w, h)
	c.Check(normOK(ng.Points, pk, w, h), "polygon %v of a %dx%d image is normalised to %v", pk, w, h, ng)
	for i := range pk {
		c.Check(pg.Points[i] == pk[i], "normalising changed the polygon")
	}
	c.Obs("normalised", 1)
	// area
	var gp []geo.P
	s = wl.Pick(r, 3, 20, 500, 20000)
	for j := 3 + r.Intn(9); j > 0; j-- {
		gp = append(gp, geo.P{X: int64(r.Intn(2*s) - s), Y: int64(r.Intn(2*s) - s)})
	}
	hull := geo.Hull(gp)
	if len(hull) >= 3 {
		var a2 int64
		for i := 1; i+1 < len(hull); i++ {
			a2 += geo.Tri{hull[0], hull[i], hull[i+1]}.Area2()
		}
		if r.Intn(2) == 0 {
			for i, j := 0, len(hull)-1; i < j; i, j = i+1, j-1 {
				hull[i], hull[j] = hull[j], hull[i]
			}
		}
		k := r.Intn(len(hull))
		var dp []fd.Point
		for i := range hull {
			z := hull[(i+k)%len(hull)]
			dp = append(dp, fd.Point{X: float64(z.X), Y: float64(z.Y)})
		}
		got := triangulation.Area(dp)
		c.Check(int64(got) == (a2+1)/2, "the area of %v is %d, want %v/2 rounded", dp, got, a2)
		// the caller goes on with the same slice
		f := float64(2 + r.Intn(3))
		for i := range dp {
			dp[i].X *= f
		}
		got = triangulation.Area(dp)
		c.Check(int64(got) == (a2*int64(f)+1)/2, "the area of %v is %d, want %v/2 rounded", dp, got, a2*int64(f))
		c.Obs("area", 1)
		c.Eval(true, dp)
	}
	c.Eval(true, raw, p)
}
