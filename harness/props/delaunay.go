package props

import (
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strings"

	"github.com/RH12503/Triangula/geom"
	"github.com/RH12503/Triangula/normgeom"
	"github.com/RH12503/Triangula/triangulation"
	"github.com/RH12503/Triangula/triangulation/incrdelaunay"

	"verif/harness/geo"
	"verif/harness/mon"
	"verif/harness/wl"
)

type dedge struct{ a, b geo.P }

// trianglesOf reads the triangles of a triangulation.
func trianglesOf(d *incrdelaunay.Delaunay) []geo.Tri {
	var tris []geo.Tri
	d.IterTriangles(func(t incrdelaunay.Triangle) {
		tris = append(tris, geo.Tri{wl.GP(t.A), wl.GP(t.B), wl.GP(t.C)})
	})
	return tris
}

// checkTris decides whether tris is a Delaunay triangulation of the points (distinct):
// every triangle has an empty circumcircle and vertices among the points, no two
// overlap, and every Delaunay face whose circumradius is below maxR is fully covered.
// It returns the number of faces required and of faces present.
func checkTris(tris []geo.Tri, pts []geo.P, maxR float64) (msg string, faces, full int) {
	fs := geo.Faces(pts)
	fidx := map[geo.P][]int{}
	for i, f := range fs {
		for _, v := range f.V {
			fidx[v] = append(fidx[v], i)
		}
	}
	live := map[geo.P]bool{}
	for _, p := range pts {
		live[p] = true
	}
	area := make([]int64, len(fs))
	cnt := make([]int, len(fs))
	seen := make(map[dedge]bool, 3*len(tris))
	for _, t := range tris {
		for _, v := range t {
			if !live[v] {
				return fmt.Sprintf("triangle %v has a vertex that is not one of the points", t), 0, 0
			}
		}
		if t.Area2() == 0 {
			return fmt.Sprintf("triangle %v has no area", t), 0, 0
		}
		c := t.Canon()
		for k := 0; k < 3; k++ {
			e := dedge{c[k], c[(k+1)%3]}
			if seen[e] {
				return fmt.Sprintf("triangle %v overlaps another triangle on the same side of edge %v", t, e), 0, 0
			}
			seen[e] = true
		}
		ok := false
		for _, i := range fidx[t[0]] {
			n := 0
			for _, v := range fs[i].V {
				if v == t[1] || v == t[2] {
					n++
				}
			}
			if n == 2 {
				ok = true
				area[i] += t.Area2()
				cnt[i]++
				break
			}
		}
		if !ok {
			w := ""
			for _, p := range pts {
				if geo.InCircle(c[0], c[1], c[2], p) > 0 {
					w = fmt.Sprintf(": point %v is inside its circumcircle", p)
					break
				}
			}
			return fmt.Sprintf("triangle %v is not Delaunay%s", t, w), 0, 0
		}
	}
	for i, f := range fs {
		if f.R < maxR {
			faces++
			if area[i] != f.Area2 || cnt[i] != len(f.V)-2 {
				return fmt.Sprintf("Delaunay face %v (radius %.2f) is covered by %d triangles with doubled area %d, want %d and %d",
					f.V, f.R, cnt[i], area[i], len(f.V)-2, f.Area2), 0, 0
			}
		}
		if area[i] == f.Area2 {
			full++
		}
	}
	return "", faces, full
}

// model is a multiset of points.
type model struct {
	n    map[geo.P]int
	list []geo.P
}

func newModel() *model { return &model{n: map[geo.P]int{}} }

func (m *model) add(p geo.P) { m.n[p]++; m.list = append(m.list, p) }
func (m *model) removeAt(i int) geo.P {
	p := m.list[i]
	m.list[i] = m.list[len(m.list)-1]
	m.list = m.list[:len(m.list)-1]
	if m.n[p]--; m.n[p] == 0 {
		delete(m.n, p)
	}
	return p
}
func (m *model) clone() *model {
	c := newModel()
	for p, k := range m.n {
		c.n[p] = k
	}
	c.list = append(c.list, m.list...)
	return c
}
func (m *model) points() []geo.P {
	out := make([]geo.P, 0, len(m.n))
	for p := range m.n {
		out = append(out, p)
	}
	sort.Slice(out, func(i, j int) bool { return geo.Less(out[i], out[j]) })
	return out
}

// sorted is a canonical form of a set of triangles.
func sortedTris(ts []geo.Tri) string {
	var s []string
	for _, t := range ts {
		s = append(s, fmt.Sprint(t.Canon()))
	}
	sort.Strings(s)
	return strings.Join(s, ";")
}

// sizeFor draws dimensions and a point budget that keeps the reference affordable.
func sizeFor(c *mon.Ctx) (w, h, n int) {
	r := c.R
	max := wl.Pick(r, 60, 200, 500, 1500, 4000, 8000)
	w, h = wl.Size(r, max)
	n = wl.Pick(r, 1, 2, 3, 4, 6, 10, 20, 40)
	if r.Intn(12) == 0 {
		n = 80 + r.Intn(120)
	}
	return
}

func maxDim(w, h int) float64 {
	m := math.Max(float64(w), float64(h))
	if m < 2 {
		m = 2
	}
	return m
}

// need is the circumradius below which a face has to be present: the helper vertices
// are at least 1.5*max-1 away from every image point, so a disc of radius below
// half of that through an image point contains none of them.
func need(w, h int) float64 { return 0.75*math.Max(float64(w), float64(h)) - 0.5 - 1e-6 }

func init() {
	mon.Register(&mon.Prop{
		ID: "T01", Quick: 16000, Thorough: 300000,
		Rule: "one case = one PRNG-determined history of insertions and removals (11-400 operations, 9 placement styles, sizes 1x1..8000, duplicates up to 700 copies, plus large histories of 2000-71000 points, rings of very many neighbours, and points that are almost on one circle with points near its centre that come and go); the reported triangles are compared with an exact-integer reference after the operations; non-trivial = at least one reference face was required; distinct by (size, live points, triangles)",
		Assume: []string{
			"points lie in the image, image sides are at most 8000 pixels (int16 coordinates reach to 8191)",
			"only points that are present are removed",
			"faces with a circumradius of 0.75 times the longer image side or more may be left out (the helper triangle is finite)",
		},
		Run:      runDelaunay,
		Watchdog: 120e9,
		MinObs:   map[string]int64{"insert": 5000, "remove": 2000, "faces_required": 20000, "cocircular_faces": 300, "duplicate_insert": 500, "hubs_over_64_triangles": 100, "hubs_over_256_triangles": 10, "almost_cocircular": 1000, "small_histories": 50000, "histories_over_32768_triangles": 3},
	})
	mon.Register(&mon.Prop{
		ID: "T02", Quick: 20000, Thorough: 400000,
		Rule:   "one case = several triangulations of one image size under a PRNG-determined history of insert, remove, 'set to another' and insert-then-remove; after every operation the touched objects (and periodically all) are compared with their own point multiset (9 cases: all pairs of triangulations of two points in a tiny image, 3 cases: sets between triangulations of 500 to 37000 points); non-trivial = a set between triangulations with differing points happened; distinct by history",
		Assume: []string{"set is only used between triangulations of the same image size, as the fitness functions do"},
		Run:    runDelaunaySet,
		MinObs: map[string]int64{"small_copies": 20000, "set_huge": 6, "set": 2000, "set_itself": 500, "set_large": 50, "set_shrinking": 300, "set_growing": 300, "undo": 500},
	})
	mon.Register(&mon.Prop{
		ID: "T03", Quick: 14000, Thorough: 250000,
		Rule:   "one case = one history of insert/remove/set; after every operation the point count, membership queries (present, absent, border) and nearest-point queries are compared with a multiset model; non-trivial = at least one duplicate or removal; copies of one point up to 131073; distinct by history",
		Assume: []string{"queries are for positions inside the image"},
		Run:    runDelaunayQueries,
		MinObs: map[string]int64{"membership_yes": 3000, "membership_no": 3000, "nearest": 3000, "count": 3000, "large": 10, "very_many_copies": 20, "small_histories": 50000},
	})
	mon.Register(&mon.Prop{
		ID: "T06", Quick: 80000, Thorough: 4000000,
		Rule:   "one case = one point set (9 placement styles, duplicates, collinear and tiny sets, off-centre clusters, normalised coordinates jittered inside the rounding interval, images up to 10000 pixels, up to 70000 points) triangulated once and compared with the exact reference; non-trivial = the reference has a face; distinct by point set",
		Assume: []string{"coordinates are in [0,1]; points whose rounding is a tie within float noise are not used"},
		Run:    runTriangulate,
		MinObs: map[string]int64{"faces_required": 20000, "no_faces": 100, "cocircular_faces": 300, "small_groups": 50000, "tens_of_thousands": 5, "over_65536_points": 1},
	})
}

func cocircular(pts []geo.P) int {
	n := 0
	for _, f := range geo.Faces(pts) {
		if len(f.V) > 3 {
			n++
		}
	}
	return n
}

func runDelaunay(c *mon.Ctx) {
	r := c.R
	if w, h, ok := smallCase(c, 7); ok {
		smallDelaunay(c, w, h)
		return
	}
	if c.I%97 == 5 {
		runDelaunayLarge(c)
		return
	}
	if c.I%131 == 11 {
		runDelaunayHub(c)
		return
	}
	if c.I%23 == 3 {
		runDelaunayAlmost(c)
		return
	}
	w, h, n := sizeFor(c)
	style := r.Intn(wl.NumStyles)
	pl := wl.NewPlacer(r, w, h, style)
	c.Note("image %dx%d, %d points, %s", w, h, n, wl.StyleName(style))
	d := incrdelaunay.NewDelaunay(w, h)
	m := newModel()
	copies := r.Intn(25) == 0
	step := 1
	if n > 40 {
		step = n
	}
	ops := 10 + 3*n
	check := func() {
		pts := m.points()
		tris := trianglesOf(d)
		msg, faces, _ := checkTris(tris, pts, need(w, h))
		c.Check(msg == "", "after the history above, with %d live points in a %dx%d image: %s", len(pts), w, h, msg)
		c.Obs("faces_required", faces)
		c.Obs("triangles", len(tris))
		c.Obs("cocircular_faces", cocircular(pts))
		c.Eval(faces > 0, w, h, pts, len(tris))
	}
	for k := 0; k < ops; k++ {
		grow := len(m.list) < n
		if grow && len(m.list) > 0 && r.Intn(4) == 0 || !grow && r.Intn(3) != 0 {
			// empty the triangulation completely from time to time
			times := 1
			if r.Intn(40) == 0 {
				times = len(m.list)
			}
			for ; times > 0; times-- {
				p := m.removeAt(r.Intn(len(m.list)))
				c.Note("- %v", p)
				d.Remove(wl.Pt(p))
				c.Obs("remove", 1)
			}
		} else {
			p := pl.Next()
			times := 1
			if len(m.list) > 0 && r.Intn(8) == 0 {
				p = m.list[r.Intn(len(m.list))]
			}
			if copies && r.Intn(10) == 0 {
				times = wl.Pick(r, 2, 255, 256, 257, 700)
			}
			for ; times > 0; times-- {
				if m.n[p] > 0 {
					c.Obs("duplicate_insert", 1)
				}
				m.add(p)
				if m.n[p] < 3 {
					c.Note("+ %v", p)
				}
				d.Insert(wl.Pt(p))
				c.Obs("insert", 1)
			}
		}
		if k%step == 0 || k == ops-1 {
			check()
		}
	}
}

// runDelaunayAlmost edits points that are almost on one circle, and removes points near its centre.
func runDelaunayAlmost(c *mon.Ctx) {
	r := c.R
	w, h := 60+r.Intn(400), 60+r.Intn(400)
	if r.Intn(3) != 0 {
		w, h = 1000+r.Intn(7001), 1000+r.Intn(7001)
	}
	all, mid := wl.AlmostRing(r, w, h)
	if len(all) < 4 {
		return
	}
	d := incrdelaunay.NewDelaunay(w, h)
	m := newModel()
	insert := func(p geo.P) {
		c.Note("+ %v", p)
		m.add(p)
		d.Insert(wl.Pt(p))
	}
	c.Note("image %dx%d, points almost on a circle around %v", w, h, mid)
	n := 4 + r.Intn(12)
	for i := 0; i < n; i++ {
		insert(all[r.Intn(len(all))])
	}
	if r.Intn(3) == 0 {
		for _, q := range []geo.P{{X: 0, Y: 0}, {X: int64(w)}, {Y: int64(h)}, {X: int64(w), Y: int64(h)}} {
			insert(q)
		}
	}
	check := func() {
		pts := m.points()
		tris := trianglesOf(d)
		msg, faces, _ := checkTris(tris, pts, need(w, h))
		c.Check(msg == "", "after the history above, with %d live points in a %dx%d image: %s", len(pts), w, h, msg)
		c.Obs("faces_required", faces)
		c.Obs("almost_cocircular", 1)
		c.Eval(faces > 0, w, h, pts, len(tris))
	}
	check()
	for k := 0; k < 12; k++ {
		if r.Intn(3) == 0 && len(m.list) > 3 {
			p := m.removeAt(r.Intn(len(m.list)))
			c.Note("- %v", p)
			d.Remove(wl.Pt(p))
			check()
			insert(all[r.Intn(len(all))])
			check()
			continue
		}
		s := wl.Pick(r, 1, 3, 20)
		p := geo.P{X: mid.X + int64(r.Intn(s)-s/2), Y: mid.Y + int64(r.Intn(s)-s/2)}
		insert(p)
		check()
		for i := len(m.list) - 1; i >= 0; i-- {
			if m.list[i] == p {
				m.removeAt(i)
				break
			}
		}
		c.Note("- %v", p)
		d.Remove(wl.Pt(p))
		check()
	}
}

// runDelaunayHub inserts and removes points with very many neighbours.
func runDelaunayHub(c *mon.Ctx) {
	r := c.R
	w, h := 200+r.Intn(3800), 200+r.Intn(3800)
	if r.Intn(2) == 0 {
		w, h = 3000+r.Intn(1000), 3000+r.Intn(1000)
	}
	n := wl.Pick(r, 40, 100, 200, 500, 1000)
	if r.Intn(3) == 0 {
		n = 700 + r.Intn(1500)
	}
	d := incrdelaunay.NewDelaunay(w, h)
	m := newModel()
	cx, cy := float64(w)*(0.3+0.4*r.Float64()), float64(h)*(0.3+0.4*r.Float64())
	rx := math.Min(math.Min(cx, float64(w)-cx), math.Min(cy, float64(h)-cy))
	ry := rx
	if r.Intn(3) == 0 {
		ry *= 0.5 + 0.5*r.Float64()
	}
	hub := geo.P{X: int64(cx), Y: int64(cy)}
	c.Note("image %dx%d, %d points on a ring around %v", w, h, n, hub)
	half := r.Intn(3) == 0
	for i := 0; i < n; i++ {
		a := r.Float64() * 2 * math.Pi
		if half {
			a /= 2
		}
		p := geo.P{X: int64(cx + rx*math.Cos(a)), Y: int64(cy + ry*math.Sin(a))}
		m.add(p)
		d.Insert(wl.Pt(p))
	}
	check := func() {
		pts := m.points()
		tris := trianglesOf(d)
		msg, faces, _ := checkTris(tris, pts, need(w, h))
		c.Check(msg == "", "with %d points around %v in a %dx%d image: %s", len(pts), hub, w, h, msg)
		deg := 0
		for _, t := range tris {
			if t[0] == hub || t[1] == hub || t[2] == hub {
				deg++
			}
		}
		if deg > 64 {
			c.Obs("hubs_over_64_triangles", 1)
		}
		if deg > 256 {
			c.Obs("hubs_over_256_triangles", 1)
		}
		c.Obs("faces_required", faces)
		c.Eval(faces > 0, w, h, len(pts), len(tris), pts[len(pts)/2])
	}
	for k := 0; k < 3+r.Intn(4); k++ {
		d.Insert(wl.Pt(hub))
		m.add(hub)
		check()
		for i := r.Intn(8); i > 0; i-- {
			p := m.removeAt(r.Intn(len(m.list)))
			d.Remove(wl.Pt(p))
			p = geo.P{X: int64(r.Intn(w + 1)), Y: int64(r.Intn(h + 1))}
			if r.Intn(2) == 0 {
				p = geo.P{X: hub.X + int64(r.Intn(5)-2), Y: hub.Y + int64(r.Intn(5)-2)}
			}
			m.add(p)
			d.Insert(wl.Pt(p))
			c.Obs("remove", 1)
			c.Obs("insert", 1)
		}
		check()
		for m.n[hub] > 0 {
			for i, p := range m.list {
				if p == hub {
					m.removeAt(i)
					d.Remove(wl.Pt(p))
					break
				}
			}
		}
		check()
		if r.Intn(2) == 0 { // move the hub by a little
			hub = geo.P{X: hub.X + int64(r.Intn(3)-1), Y: hub.Y + int64(r.Intn(3)-1)}
		}
	}
}

// border returns k+1 evenly spaced points of every side of the image.
func border(w, h, k int) []geo.P {
	var keep []geo.P
	for i := 0; i <= k; i++ {
		keep = append(keep, geo.P{X: int64(w * i / k)}, geo.P{X: int64(w * i / k), Y: int64(h)},
			geo.P{Y: int64(h * i / k)}, geo.P{X: int64(w), Y: int64(h * i / k)})
	}
	return geo.Dedupe(keep)
}

// runDelaunayLarge drives realistic and extreme sizes; the corners and a dense border
// are included so that the triangulation has to cover the whole image, which is decided
// by exact area and by the local Delaunay condition on every edge.
func runDelaunayLarge(c *mon.Ctx) {
	r := c.R
	n := 2000 + r.Intn(3000)
	if c.Thorough() && r.Intn(3) == 0 || r.Intn(6) == 0 {
		n = 9000 + r.Intn(7000)
	}
	w, h := 300+r.Intn(1200), 300+r.Intn(1200)
	if k := c.I / 97 % 20; k == 3 {
		// more than 32768 (in one of sixty: 131072) triangles
		n = 18000 + r.Intn(4000)
		if k = c.I / 97 % 60; k == 3 {
			n = 67000 + r.Intn(4000)
		}
		w, h = 900+r.Intn(1200), 900+r.Intn(1200)
		c.Obs("histories_over_32768_triangles", 1)
	}
	d := incrdelaunay.NewDelaunay(w, h)
	m := newModel()
	keep := border(w, h, 40)
	c.Note("large: image %dx%d, %d points", w, h, n)
	for _, p := range keep {
		d.Insert(wl.Pt(p))
	}
	pl := wl.NewPlacer(r, w, h, wl.Pick(r, wl.Uniform, wl.Mixed, wl.Lattice, wl.Cluster))
	uni := wl.NewPlacer(r, w, h, wl.Uniform)
	for len(m.list) < n {
		p := uni.Next()
		if r.Intn(3) == 0 {
			p = pl.Next()
		}
		m.add(p)
		d.Insert(wl.Pt(p))
	}
	for rounds := 0; rounds < 3; rounds++ {
		for i := 0; i < 300; i++ {
			d.Remove(wl.Pt(m.removeAt(r.Intn(len(m.list)))))
			p := uni.Next()
			m.add(p)
			d.Insert(wl.Pt(p))
		}
		c.Obs("insert", 300)
		c.Obs("remove", 300)
		all := m.clone()
		for _, p := range keep {
			all.add(p)
		}
		checkLocal(c, trianglesOf(d), all.points(), int64(w), int64(h))
	}
	c.Obs("insert", n)
	c.Obs("large_histories", 1)
}

func checkLocal(c *mon.Ctx, tris []geo.Tri, pts []geo.P, w, h int64) {
	opp := make(map[dedge]geo.P, 3*len(tris))
	used := map[geo.P]bool{}
	live := map[geo.P]bool{}
	for _, p := range pts {
		live[p] = true
	}
	var area int64
	for _, t := range tris {
		c.Check(t.Area2() > 0, "large: triangle %v has no area", t)
		t = t.CCW()
		area += t.Area2()
		for k := 0; k < 3; k++ {
			c.Check(live[t[k]], "large: vertex %v is not a live point", t[k])
			used[t[k]] = true
			e := dedge{t[k], t[(k+1)%3]}
			_, dup := opp[e]
			c.Check(!dup, "large: two triangles on the same side of %v", e)
			opp[e] = t[(k+2)%3]
		}
	}
	c.Check(area == 2*w*h, "large: the triangles cover a doubled area of %d, want %d", area, 2*w*h)
	c.Check(len(used) == len(live), "large: %d of %d points are vertices", len(used), len(live))
	for e, o := range opp {
		if q, ok := opp[dedge{e.b, e.a}]; ok {
			c.Check(geo.InCircle(e.a, e.b, o, q) <= 0, "large: edge %v is not Delaunay (%v, %v)", e, o, q)
		} else {
			c.Check(e.a.X == e.b.X && (e.a.X == 0 || e.a.X == w) || e.a.Y == e.b.Y && (e.a.Y == 0 || e.a.Y == h),
				"large: edge %v inside the image has a triangle on one side only", e)
		}
	}
	c.Obs("faces_required", len(tris))
	c.Eval(true, w, h, len(pts), len(tris), pts[len(pts)/2])
}

func runDelaunaySet(c *mon.Ctx) {
	r := c.R
	if w, h, ok := smallCase(c, 3); ok {
		smallCopies(c, w, h)
		return
	}
	w, h, n := sizeFor(c)
	if n > 40 {
		n = 40
	}
	if c.I%6000 == 2501 {
		runDelaunaySetHuge(c)
		return
	}
	k := 2 + r.Intn(3)
	style := r.Intn(wl.NumStyles)
	large := c.I%300 == 7
	if large {
		w, h, n, k = 300+r.Intn(2000), 300+r.Intn(2000), 100+r.Intn(700), 2+r.Intn(2)
		style = wl.Pick(r, wl.Uniform, wl.Cluster, wl.Mixed)
	}
	pl := wl.NewPlacer(r, w, h, style)
	c.Note("image %dx%d, %d triangulations of about %d points, %s", w, h, k, n, wl.StyleName(style))
	ds := make([]*incrdelaunay.Delaunay, k)
	ms := make([]*model, k)
	last := make([]string, k)
	for i := range ds {
		ds[i] = incrdelaunay.NewDelaunay(w, h)
		ms[i] = newModel()
	}
	check := func(i int) {
		pts := ms[i].points()
		tris := trianglesOf(ds[i])
		msg, faces, _ := checkTris(tris, pts, need(w, h))
		c.Check(msg == "", "triangulation %d: %s", i, msg)
		c.Check(ds[i].NumPoints() == len(ms[i].list), "triangulation %d reports %d points, has %d", i, ds[i].NumPoints(), len(ms[i].list))
		last[i] = sortedTris(tris)
		c.Eval(faces > 0, w, h, last[i])
	}
	same := func(i int, why string) {
		c.Check(sortedTris(trianglesOf(ds[i])) == last[i], "the triangles of triangulation %d changed %s", i, why)
	}
	for i := range ds {
		for j := r.Intn(2*n + 1); j > 0; j-- {
			p := pl.Next()
			ms[i].add(p)
			ds[i].Insert(wl.Pt(p))
		}
		check(i)
	}
	ops := 14 + r.Intn(30)
	if large {
		ops = 10
	}
	for op := 0; op < ops; op++ {
		i := r.Intn(k)
		switch q := r.Intn(10); {
		case q < 3:
			j := r.Intn(k)
			if j == i {
				c.Note("set %d to itself", i)
				ds[i].Set(ds[i])
				check(i)
				c.Obs("set_itself", 1)
				continue
			}
			if large {
				c.Obs("set_large", 1)
			}
			c.Note("set %d to %d (%d -> %d points)", i, j, len(ms[i].list), len(ms[j].list))
			if len(ms[i].list) > len(ms[j].list) {
				c.Obs("set_shrinking", 1)
			} else if len(ms[i].list) < len(ms[j].list) {
				c.Obs("set_growing", 1)
			}
			ds[i].Set(ds[j])
			ms[i] = ms[j].clone()
			c.Obs("set", 1)
			check(i)
			c.Check(last[i] == last[j], "triangulation %d differs from %d right after being set to it", i, j)
			same(j, "when another was set to it")
		case q < 6 && len(ms[i].list) > 0:
			times := 1 + r.Intn(3)
			for ; times > 0 && len(ms[i].list) > 0; times-- {
				p := ms[i].removeAt(r.Intn(len(ms[i].list)))
				c.Note("%d: - %v", i, p)
				ds[i].Remove(wl.Pt(p))
			}
			check(i)
		case q < 7:
			p := pl.Next()
			c.Note("%d: + - %v", i, p)
			ds[i].Insert(wl.Pt(p))
			ds[i].Remove(wl.Pt(p))
			c.Obs("undo", 1)
			check(i)
		case q < 8:
			// the way the fitness functions use it: remove some, insert as many
			var old []geo.P
			for t := 1 + r.Intn(4); t > 0 && len(ms[i].list) > 0; t-- {
				old = append(old, ms[i].removeAt(r.Intn(len(ms[i].list))))
			}
			for _, p := range old {
				ds[i].Remove(wl.Pt(p))
			}
			for range old {
				p := pl.Next()
				ms[i].add(p)
				ds[i].Insert(wl.Pt(p))
			}
			c.Note("%d: moved %v", i, old)
			check(i)
		default:
			p := pl.Next()
			c.Note("%d: + %v", i, p)
			ms[i].add(p)
			ds[i].Insert(wl.Pt(p))
			check(i)
		}
		for j := range ds {
			if j != i {
				same(j, fmt.Sprintf("when triangulation %d was modified", i))
			}
		}
	}
}

// runDelaunaySetHuge sets triangulations with tens of thousands of points to each other.
func runDelaunaySetHuge(c *mon.Ctx) {
	r := c.R
	w, h := 800+r.Intn(1500), 800+r.Intn(1500)
	uni := wl.NewPlacer(r, w, h, wl.Uniform)
	ns := [3]int{37000 + r.Intn(4000), 17000 + r.Intn(2000), 500}
	keep := border(w, h, 40)
	var ds [3]*incrdelaunay.Delaunay
	var ms [3]*model
	for i := range ds {
		ds[i] = incrdelaunay.NewDelaunay(w, h)
		ms[i] = newModel()
		for _, p := range keep {
			ms[i].add(p)
			ds[i].Insert(wl.Pt(p))
		}
		for len(ms[i].list) < ns[i] {
			p := uni.Next()
			ms[i].add(p)
			ds[i].Insert(wl.Pt(p))
		}
	}
	c.Note("image %dx%d, triangulations of %v points", w, h, ns)
	edit := func(i, times int) {
		for ; times > 0; times-- {
			// the border is kept: its points come first
			p := ms[i].removeAt(len(keep) + r.Intn(len(ms[i].list)-len(keep)))
			ds[i].Remove(wl.Pt(p))
			p = uni.Next()
			ms[i].add(p)
			ds[i].Insert(wl.Pt(p))
		}
	}
	for _, op := range [4][2]int{{1, 0}, {0, 2}, {0, 1}, {2, 0}} { // growing, shrinking, growing twice
		i, j := op[0], op[1]
		c.Note("set %d to %d (%d -> %d points), then move", i, j, len(ms[i].list), len(ms[j].list))
		ds[i].Set(ds[j])
		ms[i] = ms[j].clone()
		edit(i, 40)
		edit(j, 40)
		for _, k := range [2]int{i, j} {
			c.Check(ds[k].NumPoints() == len(ms[k].list), "triangulation %d reports %d points, has %d", k, ds[k].NumPoints(), len(ms[k].list))
			checkLocal(c, trianglesOf(ds[k]), ms[k].points(), int64(w), int64(h))
		}
		c.Obs("set_huge", 1)
	}
}

func runDelaunayQueries(c *mon.Ctx) {
	r := c.R
	if w, h, ok := smallCase(c, 7); ok {
		smallQueries(c, w, h)
		return
	}
	w, h, n := sizeFor(c)
	style := r.Intn(wl.NumStyles)
	pl := wl.NewPlacer(r, w, h, style)
	c.Note("image %dx%d, %d points, %s", w, h, n, wl.StyleName(style))
	large := c.I%400 == 9
	if large {
		w, h, n = 20+r.Intn(2000), 20+r.Intn(2000), 300+r.Intn(1700)
		pl = wl.NewPlacer(r, w, h, style)
		c.Note("or rather %dx%d with %d points", w, h, n)
		c.Obs("large", 1)
	}
	many := c.I%300 == 17
	d := incrdelaunay.NewDelaunay(w, h)
	m := newModel()
	var spare *incrdelaunay.Delaunay
	if r.Intn(3) == 0 {
		spare = incrdelaunay.NewDelaunay(w, h)
		for i := r.Intn(n + 3); i > 0; i-- {
			spare.Insert(wl.Pt(pl.Next()))
		}
	}
	dups := 0
	for k := 0; k < 12+2*n; k++ {
		if len(m.list) > 0 && (len(m.list) >= n && r.Intn(2) == 0 || r.Intn(4) == 0) {
			p := m.removeAt(r.Intn(len(m.list)))
			c.Note("- %v", p)
			d.Remove(wl.Pt(p))
			dups++
		} else {
			p := pl.Next()
			if len(m.list) > 0 && r.Intn(4) == 0 {
				p = m.list[r.Intn(len(m.list))]
				dups++
			}
			times := 1
			if r.Intn(150) == 0 {
				times = 300
			}
			if many && k > 2 {
				many = false
				times = wl.Pick(r, 33000, 50000, 65000, 65537, 66000, 131073)
				c.Note("%d times:", times)
				c.Obs("very_many_copies", 1)
			}
			for ; times > 0; times-- {
				m.add(p)
				d.Insert(wl.Pt(p))
			}
			c.Note("+ %v", p)
		}
		if spare != nil && r.Intn(10) == 0 {
			c.Note("continue on a copy")
			spare.Set(d)
			d, spare = spare, d
		}
		c.Check(d.NumPoints() == len(m.list), "the triangulation reports %d points, %d are present", d.NumPoints(), len(m.list))
		c.Obs("count", 1)
		for q := 0; q < 3; q++ {
			p := geo.P{X: int64(r.Intn(w + 1)), Y: int64(r.Intn(h + 1))}
			switch r.Intn(4) {
			case 0:
				p = pl.Next()
			case 1:
				p = geo.P{X: int64(w * r.Intn(2)), Y: int64(h * r.Intn(2))}
			}
			if len(m.list) > 0 && r.Intn(2) == 0 {
				p = m.list[r.Intn(len(m.list))]
				if r.Intn(3) == 0 {
					p.X += int64(r.Intn(3) - 1)
					if p.X < 0 || p.X > int64(w) {
						continue
					}
				}
			}
			want := m.n[p] > 0
			got := d.HasPoint(wl.Pt(p))
			c.Check(got == want, "asked for point %v: %v, want %v", p, got, want)
			if want {
				c.Obs("membership_yes", 1)
			} else {
				c.Obs("membership_no", 1)
			}
			if len(m.list) > 0 {
				best := int64(math.MaxInt64)
				for q := range m.n {
					if e := dist2(p, q); e < best {
						best = e
					}
				}
				g := wl.GP(d.GetClosestTo(wl.Pt(p)))
				c.Check(m.n[g] > 0, "the closest point to %v is given as %v, which is not present", p, g)
				c.Check(dist2(p, g) == best, "the closest point to %v is given as %v at squared distance %d, but one is at %d", p, g, dist2(p, g), best)
				c.Obs("nearest", 1)
			}
		}
		if len(m.list) > 500 {
			c.Eval(dups > 0, w, h, len(m.list), m.list[len(m.list)/2])
		} else {
			c.Eval(dups > 0, w, h, m.list)
		}
	}
}

func dist2(a, b geo.P) int64 { return (a.X-b.X)*(a.X-b.X) + (a.Y-b.Y)*(a.Y-b.Y) }

func runTriangulate(c *mon.Ctx) {
	r := c.R
	if w, h, ok := smallCase(c, 7); ok {
		smallGroups(c, w, h)
		return
	}
	if c.I%8000 == 1234 {
		runTriangulateLarge(c)
		return
	}
	max := wl.Pick(r, 20, 100, 500, 2000, 10000)
	w, h := wl.Size(r, max)
	n := wl.Pick(r, 0, 1, 2, 3, 4, 5, 8, 15, 30, 60)
	if r.Intn(60) == 0 {
		n = 300 + r.Intn(700)
	}
	if r.Intn(2000) == 0 {
		n = 2000 + r.Intn(3000)
		c.Obs("thousands", 1)
	}
	style := r.Intn(wl.NumStyles)
	pl := wl.NewPlacer(r, w, h, style)
	np, pts := normPoints(r, pl, n, w, h)
	if r.Intn(8) == 0 && n > 0 { // many copies
		for i := 0; i < n; i++ {
			k := r.Intn(len(np))
			np = append(np, np[k])
		}
	}
	c.Note("image %dx%d, %s: %v", w, h, wl.StyleName(style), np)
	tris := triangulated(c, np, pts, w, h, "")
	if n > 0 && n < 100 && r.Intn(4) == 0 {
		// the caller goes on with the same group: points move, the size changes
		kept := append([]geom.Triangle(nil), tris...)
		for round := 1; round < 4; round++ {
			what := "moved"
			if r.Intn(3) == 0 {
				what = "for another size"
				if r.Intn(2) == 0 {
					w, h = h, w
				} else {
					w, h = wl.Size(r, max)
				}
				for i, p := range np {
					if wl.Ambiguous(p, w, h) {
						np[i] = wl.Norm(r, geo.P{X: int64(r.Intn(w + 1)), Y: int64(r.Intn(h + 1))}, w, h, false)
					}
				}
			} else {
				for k := 1 + r.Intn(3); k > 0; k-- {
					i := r.Intn(len(np))
					np[i] = wl.Norm(r, geo.P{X: int64(r.Intn(w + 1)), Y: int64(r.Intn(h + 1))}, w, h, false)
				}
			}
			amb := false
			for _, p := range np {
				amb = amb || wl.Ambiguous(p, w, h)
			}
			if amb {
				break
			}
			pts = pixels(np, w, h)
			c.Note("then %s, %dx%d: %v", what, w, h, np)
			triangulated(c, np, pts, w, h, " (the group of the previous call, "+what+")")
			c.Obs("called_again", 1)
		}
		for i := range kept {
			c.Check(i < len(tris) && tris[i] == kept[i], "triangle %d of an earlier result changed", i)
		}
	}
}

// runTriangulateLarge triangulates tens of thousands of points that include the four
// corners; the result has to cover the image and be Delaunay across every edge.
func runTriangulateLarge(c *mon.Ctx) {
	r := c.R
	n := wl.Pick(r, 12000, 34000, 67000) + r.Intn(3000)
	if c.I == 1234 {
		n = 74000
	}
	w, h := 900+r.Intn(2000), 900+r.Intn(2000)
	if c.I == 1234 {
		n, w, h = 80000, 2000+r.Intn(2000), 2000+r.Intn(2000)
	}
	c.Note("large: image %dx%d, %d points", w, h, n)
	uni := wl.NewPlacer(r, w, h, wl.Uniform)
	pl := wl.NewPlacer(r, w, h, wl.Pick(r, wl.Uniform, wl.Mixed, wl.Lattice, wl.Cluster))
	np := make(normgeom.NormPointGroup, 0, n+4)
	for i := 0; i < 4; i++ {
		np = append(np, normgeom.NormPoint{X: float64(i % 2), Y: float64(i / 2)})
	}
	for len(np) < n {
		p := uni.Next()
		if c.I > 1234 && r.Intn(3) == 0 {
			p = pl.Next()
		}
		if q := wl.Norm(r, p, w, h, false); !wl.Ambiguous(q, w, h) {
			np = append(np, q)
		}
	}
	r.Shuffle(len(np), func(i, j int) { np[i], np[j] = np[j], np[i] })
	pts := geo.Dedupe(pixels(np, w, h))
	keep := np.Copy()
	var ts []geo.Tri
	for _, t := range triangulation.Triangulate(np, w, h) {
		var g geo.Tri
		for k, p := range t.Points {
			g[k] = geo.P{X: int64(p.X), Y: int64(p.Y)}
		}
		ts = append(ts, g)
	}
	for i := range keep {
		c.Check(keep[i] == np[i], "the input point %d was changed", i)
	}
	checkLocal(c, ts, pts, int64(w), int64(h))
	c.Obs("tens_of_thousands", 1)
	if len(pts) > 65536 {
		c.Obs("over_65536_points", 1)
	}
}

// triangulated triangulates np, which stands for the pixel positions pts, and checks the result.
func triangulated(c *mon.Ctx, np normgeom.NormPointGroup, pts []geo.P, w, h int, when string) []geom.Triangle {
	keep := np.Copy()
	tris := triangulation.Triangulate(np, w, h)
	for i := range keep {
		c.Check(keep[i] == np[i], "the input point %d was changed%s", i, when)
	}
	var ts []geo.Tri
	for _, t := range tris {
		var g geo.Tri
		for k, p := range t.Points {
			g[k] = geo.P{X: int64(p.X), Y: int64(p.Y)}
		}
		ts = append(ts, g)
	}
	u := geo.Dedupe(pts)
	msg, faces, _ := checkTris(ts, u, math.Inf(1))
	c.Check(msg == "", "%s%s", msg, when)
	c.Obs("faces_required", faces)
	co := cocircular(u)
	c.Obs("cocircular_faces", co)
	if faces == 0 {
		c.Obs("no_faces", 1)
	}
	var area int64
	for _, t := range ts {
		area += t.Area2()
	}
	c.Check(area == geo.HullArea2(u), "the triangles cover a doubled area of %d, the convex hull has %d%s", area, geo.HullArea2(u), when)
	c.Eval(faces > 0, w, h, u)
	return tris
}

var _ = rand.Int
