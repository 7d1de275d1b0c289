package props

import (
	"fmt"
	"math"
	"math/rand"

	"github.com/RH12503/Triangula/geom"
	"github.com/RH12503/Triangula/normgeom"
	"github.com/RH12503/Triangula/polygonation"
	"github.com/RH12503/Triangula/rasterize"
	"github.com/RH12503/Triangula/triangulation"

	"verif/harness/geo"
	"verif/harness/mon"
	"verif/harness/wl"
)

func init() {
	mon.Register(&mon.Prop{
		ID: "T07", Quick: 30000, Thorough: 1200000,
		Rule: "one case = one PRNG-determined triangle (9 shapes: random, flat top, flat bottom, needle, tiny, huge, axis-aligned, border, shared x) in every vertex order, drawn per pixel, per line and in blocks of several sizes, or one convex polygon; the pixel multisets are compared with each other and with the exact integer span of every row; non-trivial = at least one pixel covered; distinct by vertices",
		Assume: []string{
			"extents are up to 9000, coordinates from -8000 up to 1000000; collinear triangles may cover a pixel of a row by rounding, and the exact ends of runs are checked for coordinates of 0 and more",
			"where an edge passes exactly through a pixel boundary the span may begin or end one pixel earlier (floating point)",
		},
		Run:    runRaster,
		MinObs: map[string]int64{"pixels": 1000000, "blocks": 20000, "block_runs": 20000, "flat_top": 500, "flat_bottom": 500, "without_area": 300, "negative_coordinates": 1000, "large_coordinates": 500, "polygons": 2000, "small_triangles": 20000},
	})
	mon.Register(&mon.Prop{
		ID: "T08", Quick: 20000, Thorough: 500000,
		Rule:   "one case = one triangulated point set, or one set of nearest-site regions, or the fan triangles of one integer polygon, drawn piece by piece into a counter per pixel (49 cases: all sets of up to three, four or five points of a tiny image, with and without its corners); non-trivial = at least two pieces; distinct by points",
		Assume: []string{"points lie in the image, sides are at most 700 pixels here (8000 in long images); regions with no area are skipped"},
		Run:    runPartition,
		MinObs: map[string]int64{"pixels_once": 1000000, "full_cover": 1000, "long_images": 200, "polygon_sets": 500, "small_groups": 30000},
	})
}

type px struct{ x, y int }

func tri3(t geo.Tri) geom.Triangle {
	return geom.NewTriangle(int(t[0].X), int(t[0].Y), int(t[1].X), int(t[1].Y), int(t[2].X), int(t[2].Y))
}

// cover is a pixel counter over a bounding box.
type cover struct {
	flat         bool // of a triangle without area: runs may be empty by a negative length
	x0, y0, w, h int
	n            []int32
	total        int
	err          string
}

func newCover(x0, y0, x1, y1 int) *cover {
	c := &cover{x0: x0, y0: y0, w: x1 - x0, h: y1 - y0}
	c.n = make([]int32, c.w*c.h)
	return c
}

func (c *cover) add(x, y int) {
	if x < c.x0 || y < c.y0 || x >= c.x0+c.w || y >= c.y0+c.h {
		c.err = fmt.Sprintf("pixel (%d,%d) is outside the bounding box", x, y)
		return
	}
	c.n[(y-c.y0)*c.w+x-c.x0]++
	c.total++
}

func (c *cover) line(x0, x1, y int) {
	if x1 < x0 && !c.flat {
		c.err = fmt.Sprintf("line from %d to %d in row %d has negative length", x0, x1, y)
	}
	for x := x0; x < x1; x++ {
		c.add(x, y)
	}
}

func bbox(ps []geo.P) (x0, y0, x1, y1 int) {
	x0, y0, x1, y1 = math.MaxInt32, math.MaxInt32, math.MinInt32, math.MinInt32
	for _, p := range ps {
		if int(p.X) < x0 {
			x0 = int(p.X)
		}
		if int(p.X) > x1 {
			x1 = int(p.X)
		}
		if int(p.Y) < y0 {
			y0 = int(p.Y)
		}
		if int(p.Y) > y1 {
			y1 = int(p.Y)
		}
	}
	return
}

func floorDiv(a, b int64) (q int64, exact bool) {
	if b < 0 {
		a, b = -a, -b
	}
	q = a / b
	m := a % b
	if m < 0 {
		q--
		m += b
	}
	return q, m == 0
}

// span is the exact half-open pixel span of the triangle in row y (ymin <= y < ymax);
// slack tells which end may lie one pixel lower because the edge hits an integer.
func span(t geo.Tri, y int64) (l, r int64, sl, sr bool) {
	first := true
	for i := 0; i < 3; i++ {
		a, b := t[i], t[(i+1)%3]
		if a.Y > b.Y {
			a, b = b, a
		}
		if a.Y == b.Y || y < a.Y || y >= b.Y {
			continue
		}
		q, ex := floorDiv((b.X-a.X)*(y-a.Y), b.Y-a.Y)
		q += a.X
		if y == a.Y || a.X == b.X {
			ex = false // computed without rounding
		}
		if first {
			l, r, sl, sr = q, q, ex, ex
			first = false
			continue
		}
		// compare the two boundaries exactly: order by floor, ties keep both slacks
		if q < l {
			l, sl = q, ex
		} else if q > r {
			r, sr = q, ex
		} else if q == l || q == r {
			if q == l {
				sl = sl || ex
			}
			if q == r {
				sr = sr || ex
			}
		}
	}
	return
}

func drawTri(r *rand.Rand) (geo.Tri, string) {
	m := wl.Pick(r, 4, 12, 40, 100, 300)
	if r.Intn(120) == 0 {
		m = wl.Pick(r, 1000, 2000, 4000)
	}
	q := func() geo.P { return geo.P{X: int64(r.Intn(m + 1)), Y: int64(r.Intn(m + 1))} }
	var t geo.Tri
	kind := r.Intn(9)
	for {
		t = geo.Tri{q(), q(), q()}
		switch kind {
		case 1: // flat top
			t[1].Y = t[0].Y
			if t[2].Y < t[0].Y {
				t[2].Y, t[0].Y, t[1].Y = t[0].Y, t[2].Y, t[2].Y
			}
		case 2: // flat bottom
			t[1].Y = t[0].Y
			if t[2].Y > t[0].Y {
				t[2].Y, t[0].Y, t[1].Y = t[0].Y, t[2].Y, t[2].Y
			}
		case 3: // needle
			t[1].X, t[1].Y = t[0].X+int64(r.Intn(3)), t[0].Y+int64(r.Intn(3))
		case 4: // tiny
			for i := 1; i < 3; i++ {
				t[i].X, t[i].Y = t[0].X+int64(r.Intn(4)), t[0].Y+int64(r.Intn(4))
			}
		case 5: // wide: corners
			t[r.Intn(3)] = geo.P{X: int64(m * r.Intn(2)), Y: int64(m * r.Intn(2))}
			t[r.Intn(3)] = geo.P{X: int64(m * r.Intn(2)), Y: int64(m * r.Intn(2))}
		case 6: // right angle
			t[1].Y = t[0].Y
			t[2].X = t[r.Intn(2)].X
		case 7:
			t[r.Intn(3)].X = int64(m * r.Intn(2))
		case 8: // shared x
			t[1].X = t[0].X
		}
		if t.Area2() != 0 {
			break
		}
	}
	if m <= 40 && r.Intn(12) == 0 || m <= 100 && r.Intn(40) == 0 { // many times as high or wide
		s := int64(1 + r.Intn(9000/m))
		f := func(v int64) int64 { return v*s + v*7919%s }
		high := r.Intn(2) == 0
		for i := range t {
			if high {
				t[i].Y = f(t[i].Y)
			} else {
				t[i].X = f(t[i].X)
			}
		}
	}
	switch r.Intn(8) { // somewhere else in the plane
	case 0, 1:
		s := wl.Pick(r, 300, 5000, 32767, 40000, 70000, 1<<20)
		d := geo.P{X: int64(r.Intn(s + 1)), Y: int64(r.Intn(s + 1))}
		for i := range t {
			t[i].X, t[i].Y = t[i].X+d.X, t[i].Y+d.Y
		}
	case 2:
		d := geo.P{X: int64(r.Intn(2*m + 1)), Y: int64(r.Intn(2*m + 1))}
		for i := range t {
			t[i].X, t[i].Y = t[i].X-d.X, t[i].Y-d.Y
		}
	case 3: // without area
		if r.Intn(3) == 0 {
			a := t[0]
			k := int64(r.Intn(4))
			t[2] = geo.P{X: a.X + k*(t[1].X-a.X), Y: a.Y + k*(t[1].Y-a.Y)}
		}
	}
	r.Shuffle(3, func(i, j int) { t[i], t[j] = t[j], t[i] })
	return t, [...]string{"random", "flat top", "flat bottom", "needle", "tiny", "corners", "right angle", "border", "shared x"}[kind]
}

var perms = [6][3]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}

func sameCover(a, b *cover) string {
	for i := range a.n {
		if a.n[i] != b.n[i] {
			return fmt.Sprintf("pixel (%d,%d) is covered %d times instead of %d", a.x0+i%a.w, a.y0+i/a.w, b.n[i], a.n[i])
		}
	}
	return ""
}

func coverBlocks(g geom.Triangle, flat bool, bs, x0, y0, x1, y1 int) (*cover, int) {
	cv := newCover(x0, y0, x1, y1)
	cv.flat = flat
	blocks := 0
	rasterize.DDATriangleBlocks(g, bs, cv.line, func(x, y int) {
		blocks++
		for i := 0; i < bs; i++ {
			for j := 0; j < bs; j++ {
				cv.add(x+i, y+j)
			}
		}
	})
	return cv, blocks
}

func runRaster(c *mon.Ctx) {
	r := c.R
	if w, h, ok := smallCase(c, 14); ok {
		smallTriangles(w, h, func(t geo.Tri) {
			rasterTri(c, t, "small", true)
			c.Obs("small_triangles", 1)
		})
		return
	}
	if c.I%6 == 0 {
		runRasterPolygon(c)
		return
	}
	t, kind := drawTri(r)
	c.Note("%s triangle %v", kind, t)
	rasterTri(c, t, kind, false)
}

// rasterTri draws one triangle in all ways.
func rasterTri(c *mon.Ctx, t geo.Tri, kind string, all bool) {
	r := c.R
	x0, y0, x1, y1 := bbox(t[:])
	ref := newCover(x0, y0, x1, y1)
	rasterize.DDATriangle(tri3(t), ref.add)
	c.Check(ref.err == "", "triangle %v drawn by pixel: %s", t, ref.err)
	for i, n := range ref.n {
		c.Check(n <= 1, "triangle %v drawn by pixel covers (%d,%d) %d times", t, x0+i%ref.w, y0+i/ref.w, n)
	}
	neg := x0 < 0 || y0 < 0
	flat := t.Area2() == 0
	switch {
	case flat:
		c.Obs("without_area", 1)
		c.Check(ref.total <= y1-y0, "triangle %v without area covers %d pixels in %d rows", t, ref.total, y1-y0)
	case neg:
		c.Obs("negative_coordinates", 1)
	case x0 > 32767 || y0 > 32767:
		c.Obs("large_coordinates", 1)
	}
	// exact spans
	for y := y0; y < y1; y++ {
		l, rr, sl, sr := span(t, int64(y))
		first, last, cnt := -1, -1, 0
		row := ref.n[(y-y0)*ref.w : (y-y0+1)*ref.w]
		for x, n := range row {
			if n > 0 {
				if cnt == 0 {
					first = x0 + x
				}
				last = x0 + x
				cnt++
			}
		}
		if cnt > 0 {
			c.Check(last-first+1 == cnt, "triangle %v row %d is not one run of pixels", t, y)
		} else {
			first, last = int(rr), int(rr)-1
		}
		if neg || flat { // the rounding of negative ends is not specified
			continue
		}
		okL := int64(first) == l || sl && int64(first) == l-1
		okR := int64(last)+1 == rr || sr && int64(last)+1 == rr-1
		if cnt == 0 { // empty span: fine when the exact span is, up to slack
			okL = rr-l <= 0 || rr-l == 1 && sr
			okR = true
		}
		c.Check(okL && okR, "triangle %v row %d covers %d pixels from %d to %d, the exact span is [%d,%d)", t, y, cnt, first, last, l, rr)
	}
	if kind == "flat top" {
		c.Obs("flat_top", 1)
	}
	if kind == "flat bottom" {
		c.Obs("flat_bottom", 1)
	}
	c.Obs("pixels", ref.total)
	c.Eval(ref.total > 0, t)
	np := len(perms)
	if ref.total > 20000 {
		np = 2
	}
	if ref.total > 300000 {
		np = 1
	}
	for k := 0; k < np; k++ {
		p := perms[(k+r.Intn(6))%6]
		u := geo.Tri{t[p[0]], t[p[1]], t[p[2]]}
		g := tri3(u)
		ln := newCover(x0, y0, x1, y1)
		ln.flat = flat
		rasterize.DDATriangleLines(g, ln.line)
		c.Check(ln.err == "", "triangle %v drawn by line: %s", u, ln.err)
		msg := sameCover(ref, ln)
		c.Check(msg == "", "triangle %v drawn by line: %s", u, msg)
		pxs := newCover(x0, y0, x1, y1)
		rasterize.DDATriangle(g, pxs.add)
		msg = sameCover(ref, pxs)
		c.Check(msg == "" && pxs.err == "", "triangle %v drawn by pixel in another vertex order: %s", u, msg)
		sizes := []int{1, 2 + r.Intn(4), 5, 6 + r.Intn(30)}
		if all {
			sizes = []int{1, 2, 3, 4}
		}
		for _, bs := range sizes {
			cv, blocks := coverBlocks(g, flat, bs, x0, y0, x1, y1)
			c.Check(cv.err == "", "triangle %v drawn in blocks of %d: %s", u, bs, cv.err)
			msg := sameCover(ref, cv)
			c.Check(msg == "", "triangle %v drawn in blocks of %d: %s", u, bs, msg)
			c.Obs("blocks", blocks)
			c.Obs("block_runs", 1)
		}
	}
}

// convexPoly draws a convex integer polygon.
func convexPoly(r *rand.Rand) []geo.P {
	for {
		m := wl.Pick(r, 6, 20, 60, 200)
		var ps []geo.P
		k := 3 + r.Intn(8)
		if r.Intn(3) == 0 {
			cx, cy := float64(m)/2, float64(m)/2
			for i := 0; i < k; i++ {
				a := r.Float64() * 2 * math.Pi
				ps = append(ps, geo.P{X: int64(math.Round(cx + cx*math.Cos(a))), Y: int64(math.Round(cy + cy*math.Sin(a)))})
			}
		} else {
			for i := 0; i < k; i++ {
				ps = append(ps, geo.P{X: int64(r.Intn(m + 1)), Y: int64(r.Intn(m + 1))})
			}
		}
		hu := geo.Hull(ps)
		if len(hu) >= 3 {
			return hu
		}
	}
}

func toPolygon(ps []geo.P) geom.Polygon {
	var g geom.Polygon
	for _, p := range ps {
		g.Points = append(g.Points, geom.Point{X: int(p.X), Y: int(p.Y)})
	}
	return g
}

func runRasterPolygon(c *mon.Ctx) {
	r := c.R
	ps := convexPoly(r)
	k := r.Intn(len(ps))
	ps = append(append([]geo.P{}, ps[k:]...), ps[:k]...)
	if r.Intn(2) == 0 {
		for i, j := 0, len(ps)-1; i < j; i, j = i+1, j-1 {
			ps[i], ps[j] = ps[j], ps[i]
		}
	}
	g := toPolygon(ps)
	c.Note("polygon %v", ps)
	x0, y0, x1, y1 := bbox(ps)
	// the triangles of the polygon: cover it exactly, use its vertices only
	var area int64
	nt := 0
	inPoly := map[geo.P]bool{}
	for _, p := range ps {
		inPoly[p] = true
	}
	parts := newCover(x0, y0, x1, y1)
	g.Triangulate(func(t geom.Triangle) {
		var u geo.Tri
		for i, p := range t.Points {
			u[i] = geo.P{X: int64(p.X), Y: int64(p.Y)}
			c.Check(inPoly[u[i]], "triangle %v of polygon %v uses a vertex the polygon does not have", t, ps)
		}
		area += u.Area2()
		nt++
		rasterize.DDATriangle(t, parts.add)
	})
	var want int64
	for i := 1; i+1 < len(ps); i++ {
		want += geo.Tri{ps[0], ps[i], ps[i+1]}.Area2()
	}
	c.Check(area == want && nt == len(ps)-2, "polygon %v is split into %d triangles of doubled area %d, want %d of %d", ps, nt, area, len(ps)-2, want)
	for i, n := range parts.n {
		c.Check(n <= 1, "polygon %v: its triangles cover pixel (%d,%d) %d times", ps, x0+i%parts.w, y0+i/parts.w, n)
	}
	a := newCover(x0, y0, x1, y1)
	rasterize.DDAPolygon(g, a.add)
	msg := sameCover(parts, a)
	c.Check(msg == "" && a.err == "", "polygon %v drawn by pixel: %s %s", ps, msg, a.err)
	for _, bs := range []int{1, 2, 3 + r.Intn(4), 8 + r.Intn(12)} {
		b := newCover(x0, y0, x1, y1)
		rasterize.DDAPolygonBlocks(g, bs, b.line, func(x, y int) {
			for i := 0; i < bs; i++ {
				for j := 0; j < bs; j++ {
					b.add(x+i, y+j)
				}
			}
			c.Obs("blocks", 1)
		})
		msg := sameCover(parts, b)
		c.Check(msg == "" && b.err == "", "polygon %v drawn in blocks of %d: %s %s", ps, bs, msg, b.err)
	}
	// interior pixels: a pixel whose four corners are strictly inside must be covered
	for y := y0; y < y1; y++ {
		for x := x0; x < x1; x++ {
			in := true
			for _, d := range [4][2]int64{{0, 0}, {1, 0}, {0, 1}, {1, 1}} {
				q := geo.P{X: int64(x) + d[0], Y: int64(y) + d[1]}
				s := 0
				for i := range ps {
					o := geo.Orient(ps[i], ps[(i+1)%len(ps)], q)
					if o > 0 {
						s++
					} else if o < 0 {
						s--
					}
				}
				if s != len(ps) && s != -len(ps) {
					in = false
				}
			}
			if in {
				c.Check(parts.n[(y-y0)*parts.w+x-x0] == 1, "polygon %v: pixel (%d,%d) lies inside and is covered %d times", ps, x, y, parts.n[(y-y0)*parts.w+x-x0])
			}
		}
	}
	c.Obs("polygons", 1)
	c.Obs("pixels", parts.total)
	c.Eval(parts.total > 0, "poly", ps)
}

func runPartition(c *mon.Ctx) {
	r := c.R
	if w, h, ok := smallCase(c, 7); ok {
		smallPartitions(c, w, h)
		return
	}
	w, h := wl.Size(r, wl.Pick(r, 20, 60, 150, 700))
	if r.Intn(40) == 0 {
		w, h = 1000+r.Intn(7001), 1+r.Intn(40)
		if r.Intn(2) == 0 {
			w, h = h, w
		}
		c.Obs("long_images", 1)
	}
	n := wl.Pick(r, 1, 2, 4, 8, 20, 60)
	style := r.Intn(wl.NumStyles)
	pl := wl.NewPlacer(r, w, h, style)
	np, pts := normPoints(r, pl, n, w, h)
	full := r.Intn(2) == 0
	if full {
		for i := 0; i < 4; i++ {
			p := geo.P{X: int64(w * (i & 1)), Y: int64(h * (i >> 1))}
			np = append(np, wl.Norm(r, p, w, h, false))
			pts = append(pts, p)
		}
		r.Shuffle(len(np), func(i, j int) { np[i], np[j] = np[j], np[i]; pts[i], pts[j] = pts[j], pts[i] })
	}
	c.Note("image %dx%d, %s, corners %v: %v", w, h, wl.StyleName(style), full, pts)
	partition(c, np, pts, w, h, full)
}

// partition draws the triangles and the regions of the points.
func partition(c *mon.Ctx, np normgeom.NormPointGroup, pts []geo.P, w, h int, full bool) {
	r := c.R
	tris := triangulation.Triangulate(np, w, h)
	cv := newCover(0, 0, w, h)
	for _, t := range tris {
		if r.Intn(2) == 0 {
			rasterize.DDATriangle(t, cv.add)
		} else {
			bs := 1 + r.Intn(9)
			rasterize.DDATriangleBlocks(t, bs, cv.line, func(x, y int) {
				for i := 0; i < bs; i++ {
					for j := 0; j < bs; j++ {
						cv.add(x+i, y+j)
					}
				}
			})
		}
		c.Check(cv.err == "", "drawing triangle %v of a %dx%d image: %s", t, w, h, cv.err)
	}
	for i, k := range cv.n {
		c.Check(k <= 1, "pixel (%d,%d) is covered %d times by the triangles of %v", i%w, i/w, k, pts)
		if full {
			c.Check(k == 1, "pixel (%d,%d) is not covered by the triangles of %v, which span the whole image", i%w, i/w, pts)
		}
	}
	if full {
		c.Obs("full_cover", 1)
	}
	c.Obs("pixels_once", cv.total)
	c.Eval(len(tris) > 1, w, h, pts)
	// nearest-site regions
	if w*h > 200*200 && w < 1000 && h < 1000 && r.Intn(4) != 0 {
		return
	}
	polys := polygonation.Polygonate(np, w, h)
	if len(polys) > 0 && consistentCells(geo.Dedupe(pts), w, h) {
		pc := newCover(0, 0, w, h)
		for _, p := range polys {
			rasterize.DDAPolygon(p, pc.add)
			c.Check(pc.err == "", "drawing region %v of a %dx%d image: %s", p, w, h, pc.err)
		}
		for i, k := range pc.n {
			c.Check(k == 1, "pixel (%d,%d) of a %dx%d image is covered %d times by the regions %v of %v", i%w, i/w, w, h, k, polys, pts)
		}
		c.Obs("polygon_sets", 1)
		c.Obs("pixels_once", pc.total)
		c.Eval(len(polys) > 1, "v", w, h, pts)
	}
}

// consistentCells tells whether rounding the cells of the points to whole pixels leaves
// convex polygons and no vertex near a rounding tie, so that they partition the image.
func consistentCells(pts []geo.P, w, h int) bool {
	for _, s := range pts {
		c := geo.Cell(s, pts, w, h)
		var q []geo.P
		for _, a := range c {
			for _, v := range []float64{a.X, a.Y} {
				f := v - math.Floor(v)
				if math.Abs(f-0.5) < 1e-3 {
					return false
				}
			}
			p := geo.P{X: int64(math.Round(a.X)), Y: int64(math.Round(a.Y))}
			if len(q) == 0 || q[len(q)-1] != p {
				q = append(q, p)
			}
		}
		for len(q) > 1 && q[0] == q[len(q)-1] {
			q = q[:len(q)-1]
		}
		if len(q) < 3 {
			return false
		}
		sg := 0
		for i := range q {
			o := geo.Orient(q[i], q[(i+1)%len(q)], q[(i+2)%len(q)])
			if o > 0 && sg < 0 || o < 0 && sg > 0 || o == 0 {
				return false
			}
			if o > 0 {
				sg = 1
			} else {
				sg = -1
			}
		}
	}
	return true
}
