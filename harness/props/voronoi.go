package props

import (
	"fmt"
	"math"
	"math/rand"
	"sort"

	"github.com/RH12503/Triangula/polygonation"
	"github.com/RH12503/Triangula/triangulation/incrdelaunay"

	"verif/harness/geo"
	"verif/harness/mon"
	"verif/harness/wl"
)

func init() {
	mon.Register(&mon.Prop{
		ID: "T04", Quick: 80000, Thorough: 3000000,
		Rule: "one case = one point multiset (9 placement styles, 1-60 points, in some cases 100-1100, duplicates, sizes 1x1..8000, optionally reached through insertions and removals) turned into cells with exact-size float output and, from normalised points, with rounded output; each reported polygon is matched one-to-one with the reference cell (image clipped by every bisector); non-trivial = at least two cells; distinct by (size, points)",
		Assume: []string{
			"points lie in the image, image sides are at most 8000 pixels",
			"vertices may deviate by 0.01 pixel (single precision circumcentres), rounded ones by 0.72",
		},
		Run:    runVoronoi,
		MinObs: map[string]int64{"cells": 20000, "cells_with_corner": 5000, "cells_rounded": 20000, "single_cell": 50, "large": 50, "hubs": 50, "small_histories": 50000},
	})
	mon.Register(&mon.Prop{
		ID: "T05", Quick: 40000, Thorough: 800000,
		Rule:   "one case = two or three incremental diagrams under one PRNG-determined history of insert, remove, batches of moves and 'set to another'; after every operation the polygons of the touched diagram are matched one-to-one with reference cells and the untouched ones are compared with their previous output; non-trivial = at least two cells; distinct by (size, points)",
		Assume: []string{"as T04; set is only used between diagrams of the same image size; only present points are removed"},
		Run:    runIVoronoi,
		MinObs: map[string]int64{"cells": 50000, "set": 2000, "remove": 3000, "duplicate": 500, "large": 30, "set_itself": 500, "small_histories": 50000},
	})
}

func polysOfV(v *incrdelaunay.IVoronoi) [][]geo.F {
	var out [][]geo.F
	v.IterPolygons(func(ps []incrdelaunay.FloatPoint) { out = append(out, fpoly(ps)) })
	return out
}

func fpoly(ps []incrdelaunay.FloatPoint) []geo.F {
	q := make([]geo.F, 0, len(ps))
	for _, a := range ps {
		q = append(q, geo.F{X: a.X, Y: a.Y})
	}
	return q
}

func perim(p []geo.F) float64 {
	s := 0.
	for i := range p {
		j := (i + 1) % len(p)
		s += math.Hypot(p[i].X-p[j].X, p[i].Y-p[j].Y)
	}
	return s
}

// fits tells whether polygon p is an acceptable rendition of cell c.
func fits(p, c []geo.F, tol float64, rounded bool) bool {
	if !rounded {
		if geo.Hausdorff(p, c) > tol {
			return false
		}
		return math.Abs(geo.AreaF(p)-geo.AreaF(c)) <= tol*(perim(c)+1)
	}
	for _, a := range p {
		if geo.DistToPoly(c, a) > tol || a.X != math.Floor(a.X) || a.Y != math.Floor(a.Y) {
			return false
		}
	}
	for _, a := range c {
		ok := false
		for _, b := range p {
			if math.Hypot(a.X-b.X, a.Y-b.Y) <= tol {
				ok = true
				break
			}
		}
		if !ok {
			return false
		}
	}
	return math.Abs(geo.AreaF(p)-geo.AreaF(c)) <= tol*(perim(c)+2)
}

// matchCells matches polygons and reference cells one to one (augmenting paths).
func matchCells(polys [][]geo.F, pts []geo.P, w, h int, tol float64, rounded bool) string {
	if len(polys) != len(pts) {
		return fmt.Sprintf("%d polygons for %d distinct points", len(polys), len(pts))
	}
	for i, p := range polys {
		for _, a := range p {
			if math.IsNaN(a.X) || math.IsNaN(a.Y) || math.IsInf(a.X, 0) || math.IsInf(a.Y, 0) {
				return fmt.Sprintf("polygon %d has a vertex that is not finite: %v", i, p)
			}
		}
	}
	type box struct{ x0, y0, x1, y1 float64 }
	bb := func(p []geo.F) box {
		b := box{math.Inf(1), math.Inf(1), math.Inf(-1), math.Inf(-1)}
		for _, a := range p {
			b.x0, b.y0 = math.Min(b.x0, a.X), math.Min(b.y0, a.Y)
			b.x1, b.y1 = math.Max(b.x1, a.X), math.Max(b.y1, a.Y)
		}
		return b
	}
	near := func(a, b box) bool {
		return math.Abs(a.x0-b.x0) <= tol+1e-9 && math.Abs(a.y0-b.y0) <= tol+1e-9 && math.Abs(a.x1-b.x1) <= tol+1e-9 && math.Abs(a.y1-b.y1) <= tol+1e-9
	}
	pb := make([]box, len(polys))
	for i := range polys {
		pb[i] = bb(polys[i])
	}
	cand := make([][]int, len(pts))
	var cells [][]geo.F
	for i, s := range pts {
		c := geo.Cell(s, pts, w, h)
		cells = append(cells, c)
		b := bb(c)
		for j := range polys {
			if near(b, pb[j]) && fits(polys[j], c, tol, rounded) {
				cand[i] = append(cand[i], j)
			}
		}
		if len(cand[i]) == 0 {
			best, bd := -1, math.Inf(1)
			for j := range polys {
				if d := geo.Hausdorff(polys[j], c); d < bd {
					best, bd = j, d
				}
			}
			x := ""
			if best >= 0 {
				x = fmt.Sprintf("; the nearest polygon is %v (distance %.4f)", polys[best], bd)
			}
			return fmt.Sprintf("no polygon is the region of point %v, which is %v%s", s, c, x)
		}
	}
	owner := make([]int, len(polys))
	for j := range owner {
		owner[j] = -1
	}
	var try func(i int, seen []bool) bool
	try = func(i int, seen []bool) bool {
		for _, j := range cand[i] {
			if seen[j] {
				continue
			}
			seen[j] = true
			if owner[j] < 0 || try(owner[j], seen) {
				owner[j] = i
				return true
			}
		}
		return false
	}
	for i := range pts {
		if !try(i, make([]bool, len(polys))) {
			return fmt.Sprintf("the region of point %v, %v, has no polygon of its own", pts[i], cells[i])
		}
	}
	return ""
}

func corners(pts []geo.P, w, h int) int {
	n := 0
	for _, s := range pts {
		for _, a := range geo.Cell(s, pts, w, h) {
			if (a.X == 0 || a.X == float64(w)) && (a.Y == 0 || a.Y == float64(h)) {
				n++
				break
			}
		}
	}
	return n
}

// hubPoints are points on a ring around one in the middle.
func hubPoints(r *rand.Rand, w, h, n int) []geo.P {
	cx, cy := float64(w)*(0.3+0.4*r.Float64()), float64(h)*(0.3+0.4*r.Float64())
	rad := math.Min(math.Min(cx, float64(w)-cx), math.Min(cy, float64(h)-cy))
	hub := geo.P{X: int64(cx), Y: int64(cy)}
	var pts []geo.P
	for i := 0; i < n; i++ {
		a := r.Float64() * 2 * math.Pi
		p := geo.P{X: int64(cx + rad*math.Cos(a)), Y: int64(cy + rad*math.Sin(a))}
		pts = append(pts, p)
	}
	pts = append(pts, hub)
	r.Shuffle(len(pts), func(i, j int) { pts[i], pts[j] = pts[j], pts[i] })
	return pts
}

func runVoronoi(c *mon.Ctx) {
	r := c.R
	if w, h, ok := smallCase(c, 7); ok {
		smallRegions(c, w, h, false)
		return
	}
	w, h, n := sizeFor(c)
	if n > 60 {
		n = 60
	}
	style := r.Intn(wl.NumStyles)
	pl := wl.NewPlacer(r, w, h, style)
	if c.I%1000 == 9 {
		w, h, n = 200+r.Intn(3000), 200+r.Intn(3000), 200+r.Intn(900)
		pl = wl.NewPlacer(r, w, h, style)
		c.Obs("large", 1)
	}
	np, pts := normPoints(r, pl, n, w, h)
	if c.I%1000 == 11 {
		pts, np = hubPoints(r, w+300, h+300, 100+r.Intn(500)), nil
		w, h = w+300, h+300
		pl = wl.NewPlacer(r, w, h, style)
		for _, p := range pts {
			np = append(np, wl.Norm(r, p, w, h, true))
		}
		n = len(pts)
		c.Obs("hubs", 1)
	}
	if r.Intn(4) == 0 {
		k := r.Intn(n)
		np, pts = append(np, np[k]), append(pts, pts[k])
	}
	c.Note("image %dx%d, %s, points %v", w, h, wl.StyleName(style), pts)
	u := geo.Dedupe(pts)
	d := incrdelaunay.NewDelaunay(w, h)
	for _, p := range pts {
		d.Insert(wl.Pt(p))
	}
	if r.Intn(2) == 0 { // reach the same points through a longer history
		var extra []geo.P
		for i := r.Intn(6); i >= 0; i-- {
			p := pl.Next()
			extra = append(extra, p)
			d.Insert(wl.Pt(p))
		}
		for _, p := range extra {
			d.Remove(wl.Pt(p))
		}
	}
	var polys [][]geo.F
	incrdelaunay.Voronoi(d, func(ps []incrdelaunay.FloatPoint) { polys = append(polys, fpoly(ps)) }, w, h)
	msg := matchCells(polys, u, w, h, 0.01, false)
	c.Check(msg == "", "image %dx%d, points %v: %s", w, h, u, msg)
	area := 0.
	for _, p := range polys {
		area += geo.AreaF(p)
	}
	c.Check(math.Abs(area-float64(w*h)) <= 0.01*float64(len(u))*float64(w+h+1), "the regions cover %.3f of %d pixels", area, w*h)
	c.Obs("cells", len(u))
	c.Obs("cells_with_corner", corners(u, w, h))
	if len(u) == 1 {
		c.Obs("single_cell", 1)
	}
	c.Eval(len(u) > 1, "f", w, h, u)

	polygonated := func(when string) {
		keep := np.Copy()
		rp := polygonation.Polygonate(np, w, h)
		for i := range keep {
			c.Check(keep[i] == np[i], "the input point %d was changed", i)
		}
		var rpolys [][]geo.F
		for _, p := range rp {
			var q []geo.F
			for _, a := range p.Points {
				q = append(q, geo.F{X: float64(a.X), Y: float64(a.Y)})
			}
			rpolys = append(rpolys, q)
		}
		msg := matchCells(rpolys, u, w, h, 0.72, true)
		c.Check(msg == "", "rounded%s, image %dx%d, points %v: %s", when, w, h, u, msg)
		c.Obs("cells_rounded", len(u))
		c.Eval(len(u) > 1, "r", w, h, u)
	}
	polygonated("")
	if len(np) < 60 && r.Intn(4) == 0 {
		// the caller goes on with the same group
		for round := 0; round < 2; round++ {
			for k := 1 + r.Intn(3); k > 0; k-- {
				i := r.Intn(len(np))
				pts[i] = pl.Next()
				np[i] = wl.Norm(r, pts[i], w, h, false)
				if wl.Ambiguous(np[i], w, h) || wl.Pix(np[i], w, h) != pts[i] {
					return
				}
			}
			u = geo.Dedupe(pts)
			polygonated(" (the group of the previous call with points moved)")
			c.Obs("called_again", 1)
		}
	}
}

func canonPolys(ps [][]geo.F) string {
	var s []string
	for _, p := range ps {
		s = append(s, fmt.Sprint(p))
	}
	sort.Strings(s)
	return fmt.Sprint(s)
}

func runIVoronoi(c *mon.Ctx) {
	r := c.R
	if w, h, ok := smallCase(c, 7); ok {
		smallRegions(c, w, h, true)
		return
	}
	w, h, n := sizeFor(c)
	if n > 30 {
		n = 30
	}
	style := r.Intn(wl.NumStyles)
	pl := wl.NewPlacer(r, w, h, style)
	k := 1 + r.Intn(3)
	large := c.I%400 == 13
	if large {
		w, h, n, k = 60+r.Intn(1500), 60+r.Intn(1500), 100+r.Intn(400), 1+r.Intn(2)
		style = wl.Pick(r, wl.Uniform, wl.Cluster, wl.Mixed, wl.Lattice, wl.Circle)
		pl = wl.NewPlacer(r, w, h, style)
	}
	c.Note("image %dx%d, %d diagrams of about %d points, %s", w, h, k, n, wl.StyleName(style))
	vs := make([]*incrdelaunay.IVoronoi, k)
	ms := make([]*model, k)
	last := make([]string, k)
	for i := range vs {
		vs[i] = incrdelaunay.NewVoronoi(w, h)
		ms[i] = newModel()
	}
	check := func(i int) {
		pts := ms[i].points()
		polys := polysOfV(vs[i])
		msg := matchCells(polys, pts, w, h, 0.01, false)
		c.Check(msg == "", "diagram %d, image %dx%d, points %v: %s", i, w, h, pts, msg)
		last[i] = canonPolys(polys)
		c.Obs("cells", len(pts))
		c.Eval(len(pts) > 1, w, h, pts)
	}
	for i := range last {
		last[i] = canonPolys(polysOfV(vs[i]))
	}
	insert := func(i int, p geo.P) {
		if ms[i].n[p] > 0 {
			c.Obs("duplicate", 1)
		}
		c.Note("%d: + %v", i, p)
		ms[i].add(p)
		vs[i].Insert(wl.Pt(p))
		c.Obs("insert", 1)
	}
	remove := func(i int) {
		p := ms[i].removeAt(r.Intn(len(ms[i].list)))
		c.Note("%d: - %v", i, p)
		vs[i].Remove(wl.Pt(p))
		c.Obs("remove", 1)
	}
	ops := 10 + 2*n
	if large {
		for i := range vs {
			if r.Intn(2) == 0 {
				for _, p := range hubPoints(r, w, h, n) {
					insert(i, p)
				}
			} else {
				for j := 1 + r.Intn(n); j > 0; j-- {
					insert(i, pl.Next())
				}
			}
			check(i)
		}
		ops = 10
		c.Obs("large", 1)
	}
	for op := 0; op < ops; op++ {
		i := r.Intn(k)
		m := ms[i]
		switch q := r.Intn(12); {
		case q < 2 && k > 1:
			j := (i + 1 + r.Intn(k-1)) % k
			if r.Intn(8) == 0 {
				c.Note("set %d to itself", i)
				vs[i].Set(vs[i])
				c.Obs("set_itself", 1)
				break
			}
			c.Note("set %d to %d", i, j)
			vs[i].Set(vs[j])
			ms[i] = ms[j].clone()
			c.Obs("set", 1)
		case q < 4 && len(m.list) > 0:
			p := m.list[r.Intn(len(m.list))]
			insert(i, p)
		case q < 6 && len(m.list) > 0 || len(m.list) > n && len(m.list) > 0:
			remove(i)
			if r.Intn(30) == 0 {
				for len(m.list) > 0 {
					remove(i)
				}
			}
		case q < 8:
			t := 1 + r.Intn(4)
			cnt := 0
			for ; t > 0 && len(m.list) > 0; t-- {
				remove(i)
				cnt++
			}
			for ; cnt > 0; cnt-- {
				insert(i, pl.Next())
			}
		default:
			insert(i, pl.Next())
		}
		check(i)
		for j := range vs {
			if j != i {
				c.Check(canonPolys(polysOfV(vs[j])) == last[j], "the polygons of diagram %d changed when diagram %d was modified", j, i)
			}
		}
	}
}
