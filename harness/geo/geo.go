// Package geo holds the reference geometry the monitors compare the code under
// test against. Everything that decides a combinatorial question is exact
// integer arithmetic; nothing here uses code from the repository.
package geo

import (
	"math"
	"sort"
)

// P is an integer point.
type P struct{ X, Y int64 }

// Tri is a triangle of integer points.
type Tri [3]P

// Orient is twice the signed area of abc.
func Orient(a, b, c P) int64 {
	return (b.X-a.X)*(c.Y-a.Y) - (b.Y-a.Y)*(c.X-a.X)
}

// CCW returns t with positive orientation (or unchanged when degenerate).
func (t Tri) CCW() Tri {
	if Orient(t[0], t[1], t[2]) < 0 {
		return Tri{t[0], t[2], t[1]}
	}
	return t
}

// Canon returns t ccw, rotated so that its least vertex is first.
func (t Tri) Canon() Tri {
	t = t.CCW()
	k := 0
	for i := 1; i < 3; i++ {
		if Less(t[i], t[k]) {
			k = i
		}
	}
	return Tri{t[k], t[(k+1)%3], t[(k+2)%3]}
}

// Area2 is twice the area of t.
func (t Tri) Area2() int64 {
	o := Orient(t[0], t[1], t[2])
	if o < 0 {
		return -o
	}
	return o
}

// Less orders points.
func Less(a, b P) bool {
	if a.X != b.X {
		return a.X < b.X
	}
	return a.Y < b.Y
}

// InCircle is >0 when d is strictly inside the circumcircle of ccw abc, 0 when on it.
// Exact for coordinate differences up to about 20000.
func InCircle(a, b, c, d P) int64 {
	ax, ay := a.X-d.X, a.Y-d.Y
	bx, by := b.X-d.X, b.Y-d.Y
	cx, cy := c.X-d.X, c.Y-d.Y
	return (ax*ax+ay*ay)*(bx*cy-cx*by) +
		(bx*bx+by*by)*(cx*ay-ax*cy) +
		(cx*cx+cy*cy)*(ax*by-bx*ay)
}

// Radius is the circumradius of t.
func (t Tri) Radius() float64 {
	a := math.Hypot(float64(t[0].X-t[1].X), float64(t[0].Y-t[1].Y))
	b := math.Hypot(float64(t[1].X-t[2].X), float64(t[1].Y-t[2].Y))
	c := math.Hypot(float64(t[2].X-t[0].X), float64(t[2].Y-t[0].Y))
	k := float64(t.Area2())
	if k == 0 {
		return math.Inf(1)
	}
	return a * b * c / (2 * k)
}

// Face is one face of the Delaunay subdivision: the convex polygon (ccw) spanned
// by a maximal set of cocircular points with an empty open disc.
type Face struct {
	V     []P
	R     float64
	Area2 int64
}

// Dedupe returns the distinct points, sorted.
func Dedupe(pts []P) []P {
	o := append([]P(nil), pts...)
	sort.Slice(o, func(i, j int) bool { return Less(o[i], o[j]) })
	k := 0
	for i := range o {
		if i == 0 || o[i] != o[k-1] {
			o[k] = o[i]
			k++
		}
	}
	return o[:k]
}

type edge struct{ a, b P }

// Faces computes the Delaunay subdivision of distinct points by gift wrapping.
// It is unique, also for cocircular points. Collinear input has no faces.
func Faces(pts []P) []Face {
	if len(pts) < 3 {
		return nil
	}
	// A point and its nearest neighbour span a Delaunay edge (their diametral disc
	// may have points on its boundary only if ... none strictly inside).
	p := pts[0]
	var q P
	best := int64(math.MaxInt64)
	for _, c := range pts[1:] {
		d := (c.X-p.X)*(c.X-p.X) + (c.Y-p.Y)*(c.Y-p.Y)
		if d < best {
			best, q = d, c
		}
	}
	done := map[edge]bool{}
	var todo []edge
	var faces []Face
	todo = append(todo, edge{p, q}, edge{q, p})
	for len(todo) > 0 {
		e := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if done[e] {
			continue
		}
		f, ok := faceLeft(pts, e.a, e.b)
		if !ok {
			done[e] = true
			continue
		}
		n := len(f.V)
		has := false
		for i := range f.V {
			if (edge{f.V[i], f.V[(i+1)%n]}) == e {
				has = true
			}
		}
		if !has {
			// e is a chord of a cocircular face (only possible for the start edge).
			done[e] = true
		}
		if done[edge{f.V[0], f.V[1]}] {
			continue
		}
		for i := range f.V {
			a, b := f.V[i], f.V[(i+1)%n]
			done[edge{a, b}] = true
			if !done[edge{b, a}] {
				todo = append(todo, edge{b, a})
			}
		}
		faces = append(faces, f)
	}
	return faces
}

// faceLeft returns the Delaunay face to the left of directed Delaunay edge ab.
func faceLeft(pts []P, a, b P) (Face, bool) {
	var c P
	found := false
	for _, d := range pts {
		if Orient(a, b, d) <= 0 {
			continue
		}
		if !found || InCircle(a, b, c, d) > 0 {
			c, found = d, true
		}
	}
	if !found {
		return Face{}, false
	}
	var v []P
	for _, d := range pts {
		if d == a || d == b || d == c || InCircle(a, b, c, d) == 0 {
			v = append(v, d)
		}
	}
	t := Tri{a, b, c}
	// order ccw: cocircular points are in convex position, sort around the centroid
	v = hullOrder(v)
	f := Face{V: v, R: t.Radius()}
	for i := 1; i+1 < len(v); i++ {
		f.Area2 += Orient(v[0], v[i], v[i+1])
	}
	return f, true
}

func hullOrder(v []P) []P {
	// v in convex position: pick the least point, sort the rest by angle around it.
	k := 0
	for i := range v {
		if Less(v[i], v[k]) {
			k = i
		}
	}
	v[0], v[k] = v[k], v[0]
	o := v[0]
	r := v[1:]
	sort.Slice(r, func(i, j int) bool { return Orient(o, r[i], r[j]) > 0 })
	return v
}

// HullArea2 is twice the area of the convex hull.
func HullArea2(pts []P) int64 {
	h := Hull(pts)
	var s int64
	for i := 1; i+1 < len(h); i++ {
		s += Orient(h[0], h[i], h[i+1])
	}
	return s
}

// Hull is the strict convex hull, ccw, of distinct points.
func Hull(pts []P) []P {
	p := Dedupe(pts)
	if len(p) < 3 {
		return p
	}
	var lo, up []P
	for _, q := range p {
		for len(lo) >= 2 && Orient(lo[len(lo)-2], lo[len(lo)-1], q) <= 0 {
			lo = lo[:len(lo)-1]
		}
		lo = append(lo, q)
	}
	for i := len(p) - 1; i >= 0; i-- {
		q := p[i]
		for len(up) >= 2 && Orient(up[len(up)-2], up[len(up)-1], q) <= 0 {
			up = up[:len(up)-1]
		}
		up = append(up, q)
	}
	return append(lo[:len(lo)-1], up[:len(up)-1]...)
}

// F is a float point.
type F struct{ X, Y float64 }

// Cell is the Voronoi cell of site within [0,w]x[0,h]: the rectangle cut by every bisector.
func Cell(site P, pts []P, w, h int) []F {
	W, H := float64(w), float64(h)
	poly := []F{{0, 0}, {W, 0}, {W, H}, {0, H}}
	s := F{float64(site.X), float64(site.Y)}
	for _, q := range pts {
		if q == site {
			continue
		}
		// keep points closer to s than q:  (x-m).(q-s) <= 0
		dx, dy := float64(q.X-site.X), float64(q.Y-site.Y)
		mx, my := s.X+dx/2, s.Y+dy/2
		side := func(p F) float64 { return (p.X-mx)*dx + (p.Y-my)*dy }
		var out []F
		for i := range poly {
			a, b := poly[i], poly[(i+1)%len(poly)]
			sa, sb := side(a), side(b)
			if sa <= 0 {
				out = append(out, a)
			}
			if (sa < 0 && sb > 0) || (sa > 0 && sb < 0) {
				t := sa / (sa - sb)
				out = append(out, F{a.X + t*(b.X-a.X), a.Y + t*(b.Y-a.Y)})
			}
		}
		poly = out
		if len(poly) == 0 {
			return nil
		}
	}
	return poly
}

// AreaF is the absolute area of a polygon.
func AreaF(p []F) float64 {
	s := 0.
	for i := range p {
		j := (i + 1) % len(p)
		s += p[i].X*p[j].Y - p[j].X*p[i].Y
	}
	return math.Abs(s) / 2
}

// SignedAreaF is the signed area of a polygon.
func SignedAreaF(p []F) float64 {
	s := 0.
	for i := range p {
		j := (i + 1) % len(p)
		s += p[i].X*p[j].Y - p[j].X*p[i].Y
	}
	return s / 2
}

// DistToPoly is the distance of q to the convex polygon p (0 inside or on it).
func DistToPoly(p []F, q F) float64 {
	if len(p) == 0 {
		return math.Inf(1)
	}
	if len(p) >= 3 {
		sg := 1.
		if SignedAreaF(p) < 0 {
			sg = -1
		}
		in := true
		for i := range p {
			a, b := p[i], p[(i+1)%len(p)]
			if sg*((b.X-a.X)*(q.Y-a.Y)-(b.Y-a.Y)*(q.X-a.X)) < 0 {
				in = false
				break
			}
		}
		if in {
			return 0
		}
	}
	d := math.Inf(1)
	for i := range p {
		a, b := p[i], p[(i+1)%len(p)]
		d = math.Min(d, segDist(a, b, q))
	}
	return d
}

func segDist(a, b, q F) float64 {
	dx, dy := b.X-a.X, b.Y-a.Y
	l := dx*dx + dy*dy
	t := 0.
	if l > 0 {
		t = ((q.X-a.X)*dx + (q.Y-a.Y)*dy) / l
		t = math.Max(0, math.Min(1, t))
	}
	return math.Hypot(q.X-a.X-t*dx, q.Y-a.Y-t*dy)
}

// Hausdorff is the Hausdorff distance of two convex polygons (vertex to polygon, both ways).
func Hausdorff(a, b []F) float64 {
	if len(a) == 0 && len(b) == 0 {
		return 0
	}
	m := 0.
	for _, p := range a {
		m = math.Max(m, DistToPoly(b, p))
	}
	for _, p := range b {
		m = math.Max(m, DistToPoly(a, p))
	}
	return m
}
