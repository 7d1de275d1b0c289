package props

import (
	"fmt"
	"math"
	"math/rand"
	"sort"

	"github.com/RH12503/Triangula/algorithm/evaluator"
	"github.com/RH12503/Triangula/fitness"
	"github.com/RH12503/Triangula/geom"
	"github.com/RH12503/Triangula/mutation"
	"github.com/RH12503/Triangula/normgeom"
	"github.com/RH12503/Triangula/polygonation"
	"github.com/RH12503/Triangula/rasterize"

	"verif/harness/geo"
	"verif/harness/mon"
	"verif/harness/wl"
)

const maxDiff = 255 * 255 * 3

func init() {
	assume := []string{
		"image colours are 8-bit; for the 4% of triples whose sum of squares the library truncates (a known finding) the value may exceed the definition by one unit per such pixel",
		"faces with a circumradius of 0.75 times the longer side or more may be in or out; among cocircular points any triangulation is accepted (an interval is checked)",
		"block sizes up to 64; images up to 400 pixels, some up to 2000 or, when thin, 8000; coordinates in [0,1] and not on a rounding tie",
	}
	mon.Register(&mon.Prop{
		ID: "T09", Quick: 6000, Thorough: 200000,
		Rule:   "one case = one image (10 kinds), block size and point group, evaluated from scratch (36 cases: all sets of up to three, four or five points of a tiny image); the value is compared with the definition computed from the reference faces and exact pixel sums; non-trivial = at least one face; distinct by value and points",
		Assume: assume,
		Run:    runTriFitness,
		MinObs: map[string]int64{"exact": 1500, "listed": 500, "block_over_16": 150, "big_blocks": 2, "block_over_image": 100, "wide_images": 100, "big_images": 5, "small_groups": 30000},
	})
	mon.Register(&mon.Prop{
		ID: "T10", Quick: 7000, Thorough: 200000,
		Rule:   "one case = one image, block size and point group, evaluated from scratch as nearest-site regions (36 cases: all small sets of a tiny image); compared with the definition computed from the rounded regions and exact pixel sums; non-trivial = at least two regions; distinct by value and points",
		Assume: append([]string{"a region that rounding makes non-convex may be split from any of its vertices (interval)", "a region corner on the image border at a rounding tie may be rounded either way (interval); point groups with regions that have more than four of these are skipped"}, assume[0], assume[2]),
		Run:    runPolyFitness,
		MinObs: map[string]int64{"exact": 2000, "block_over_16": 100, "big_blocks": 2, "wide_images": 100, "big_images": 5, "small_groups": 30000},
	})
	mon.Register(&mon.Prop{
		ID: "T11", Quick: 5000, Thorough: 60000,
		Rule:   "one case = a population of 2-8 members on a cached evaluator (cache of 1 to 65536 slots) driven through 5-40 generations of re-basing, mutating (moves, swaps of places, collisions, no-op moves, moves that keep the hash of the cached shapes, all points), evaluating in random order, swapping members; every value is compared with the from-scratch definition (25 cases: all moves of a point of all groups of two or three points in a tiny image); non-trivial = value obtained through a base; distinct by value and points",
		Assume: append([]string{"the calling protocol of the algorithms: a member is evaluated fresh, unchanged, or after being based on another with the mutations that lead from that base to its points"}, assume...),
		Run:    runIncremental,
		MinObs: map[string]int64{"through_base": 20000, "triangles_exact": 3000, "polygons_exact": 3000, "unchanged": 3000, "periodic_groups": 50, "large_populations": 30, "long_runs": 30, "hubs": 100, "hash_shifts": 100, "small_moves": 3000},
	})
}

// sse is the squared error of a set of pixels against its mean colour.
type sse struct{ r, g, b, sq, n int }

func (s *sse) add(c [3]uint8) {
	R, G, B := int(c[0]), int(c[1]), int(c[2])
	s.r += R
	s.g += G
	s.b += B
	s.sq += R*R + G*G + B*B
	s.n++
}

func (s *sse) val() float64 {
	if s.n == 0 {
		return 0
	}
	return float64(s.sq) - float64(s.r*s.r+s.g*s.g+s.b*s.b)/float64(s.n)
}

func triSSE(img *wl.Img, t geo.Tri) float64 {
	var s sse
	rasterize.DDATriangle(tri3(t), func(x, y int) { s.add(img.At(x, y)) })
	return s.val()
}

// values are the admissible values of a quantity: one of the alternatives plus something
// between slackLo and slackHi (which stand for choices too many to list).
type values struct {
	alt              []float64
	slackLo, slackHi float64
}

type interval struct{ lo, hi float64 }

const maxAlt = 3000

// sumOf adds up choices, each given by its alternatives or (if empty) by a range.
type choice struct {
	alt []float64
	iv  interval
}

func oneOf(alt []float64) choice {
	sort.Float64s(alt)
	out := alt[:0]
	for i, v := range alt {
		if i == 0 || v-out[len(out)-1] > 1e-6 {
			out = append(out, v)
		}
	}
	return choice{out, interval{out[0], out[len(out)-1]}}
}

func sumOf(cs []choice) values {
	v := values{alt: []float64{0}}
	sort.SliceStable(cs, func(i, j int) bool { return cs[i].iv.hi-cs[i].iv.lo > cs[j].iv.hi-cs[j].iv.lo })
	fixed := 0.
	for _, c := range cs {
		switch {
		case len(c.alt) == 1:
			fixed += c.alt[0]
		case len(c.alt) == 0 || len(c.alt)*len(v.alt) > maxAlt:
			v.slackLo += c.iv.lo
			v.slackHi += c.iv.hi
		default:
			var all []float64
			for _, x := range v.alt {
				for _, y := range c.alt {
					all = append(all, x+y)
				}
			}
			v.alt = oneOf(all).alt
		}
	}
	for i := range v.alt {
		v.alt[i] += fixed
	}
	return v
}

// fitness turns differences into fitness values.
func (v values) fitness(zero, max float64) values {
	out := values{slackLo: -v.slackHi / max, slackHi: -v.slackLo / max}
	for _, x := range v.alt {
		out.alt = append(out.alt, 1-(x+zero)/max)
	}
	sort.Float64s(out.alt)
	return out
}

func (v values) lo() float64 { return v.alt[0] + v.slackLo }
func (v values) hi() float64 { return v.alt[len(v.alt)-1] + v.slackHi }

func (v values) hasTol(x, tol float64) bool {
	for _, a := range v.alt {
		if x >= a+v.slackLo-tol && x <= a+v.slackHi+tol {
			return true
		}
	}
	return false
}

func (v values) has(x float64) bool { return v.hasTol(x, fitTol) }
func (v values) exact() bool        { return v.hi()-v.lo() < fitTol }

// listed says that there are alternatives but nothing in between.
func (v values) listed() bool { return v.slackHi-v.slackLo < fitTol }

func (v values) String() string {
	if v.exact() {
		return fmt.Sprintf("%.14f", v.lo())
	}
	if v.listed() && len(v.alt) <= 6 {
		return fmt.Sprintf("one of %.14f", v.alt)
	}
	return fmt.Sprintf("one of %d values in [%.14f, %.14f]", len(v.alt), v.lo(), v.hi())
}

// faceCost gives the possible values of sum(sse - maxDiff*area) over all triangulations of a face.
func faceCost(img *wl.Img, f geo.Face, optional bool) (choice, bool) {
	v := f.V
	n := len(v)
	if n > 12 {
		return choice{}, false
	}
	one := func(i, j, k int) float64 {
		t := geo.Tri{v[i], v[j], v[k]}
		return triSSE(img, t) - maxDiff*float64(t.Area2())/2
	}
	if n <= 4 {
		sets := [][]float64{{one(0, 1, 2)}}
		if n == 4 {
			sets = [][]float64{{one(0, 1, 2), one(0, 2, 3)}, {one(0, 1, 3), one(1, 2, 3)}}
		}
		var alt []float64
		for _, s := range sets {
			all := 0.
			for _, x := range s {
				all += x
				if optional && len(s) == 2 {
					alt = append(alt, x)
				}
			}
			alt = append(alt, all)
			if optional {
				alt = append(alt, 0)
			}
		}
		return oneOf(alt), true
	}
	cost := func(i, j, k int) interval {
		x := one(i, j, k)
		if optional {
			return interval{math.Min(0, x), math.Max(0, x)}
		}
		return interval{x, x}
	}
	d := make([][]interval, n)
	set := make([][][]float64, n)
	for i := range d {
		d[i] = make([]interval, n)
		set[i] = make([][]float64, n)
		if i+1 < n {
			set[i][i+1] = []float64{0}
		}
	}
	for l := 2; l < n; l++ {
		for i := 0; i+l < n; i++ {
			j := i + l
			b := interval{math.Inf(1), math.Inf(-1)}
			for k := i + 1; k < j; k++ {
				c := cost(i, k, j)
				b.lo = math.Min(b.lo, d[i][k].lo+d[k][j].lo+c.lo)
				b.hi = math.Max(b.hi, d[i][k].hi+d[k][j].hi+c.hi)
				if n <= 7 {
					for _, x := range set[i][k] {
						for _, y := range set[k][j] {
							set[i][j] = append(set[i][j], x+y+c.lo)
						}
					}
				}
			}
			d[i][j] = b
		}
	}
	if n <= 7 && !optional {
		return oneOf(set[0][n-1]), true
	}
	return choice{nil, d[0][n-1]}, true
}

// triFitness gives the fitness values the definition allows.
// all says that every face is required (the complete triangulation of the hull).
func triFitness(img *wl.Img, pts []geo.P, all bool) (values, bool) {
	var cs []choice
	for _, f := range geo.Faces(geo.Dedupe(pts)) {
		c, ok := faceCost(img, f, !all && f.R >= need(img.W, img.H))
		if !ok {
			return values{}, false
		}
		cs = append(cs, c)
	}
	m := maxDiff * float64(img.W*img.H)
	return sumOf(cs).fitness(m, m), true
}

const fitTol = 1e-10

// truncated extends the range of an image's fitness by what the known truncation of sums
// of squares (known-findings.txt) can add: less than one for each pixel concerned.
// Pixels of regions that are not convex may count several times.
func (v values) truncated(img *wl.Img, times int) values {
	v.slackHi += float64(times*img.Inexact()) / (maxDiff * float64(img.W*img.H))
	return v
}

// flatImage evaluates an image of one colour whose sum of squares is truncated.
func flatImage(c *mon.Ctx, build func(m *wl.Img, bs int) fitness.CacheFunction, what string) {
	col := [3]uint8{0, 0, 28}
	for _, bs := range []int{1, 3} {
		f := build(wl.Flat(12, 10, col), bs)
		got := f.Calculate(fitness.PointsData{Points: normgeom.NormPointGroup{{X: 0, Y: 0}, {X: 1, Y: 0}, {X: 0, Y: 1}, {X: 1, Y: 1}}})
		c.Check(math.Abs(got-1) <= fitTol, "flat 12x10 image of colour %v, corners as points, %s: the fitness exceeds 1 by %.3f colour units per pixel", col, what, (got-1)*maxDiff)
	}
}

// borderTies finds the region corners on the image border that are so close to a rounding
// tie that their rounded position depends on floating-point noise, and gives for each
// position that such a corner can be rounded to the alternatives.
func borderTies(pts []geo.P, w, h int) map[geom.Point][]geom.Point {
	W, H := float64(w), float64(h)
	var out map[geom.Point][]geom.Point
	tie := func(v float64) bool { return math.Abs(v-math.Floor(v)-0.5) < 2e-3 }
	add := func(p, q geom.Point) {
		if out == nil {
			out = map[geom.Point][]geom.Point{}
		}
		for _, z := range out[p] {
			if z == q {
				return
			}
		}
		out[p] = append(out[p], q)
		out[q] = append(out[q], p)
	}
	for _, s := range pts {
		for _, a := range geo.Cell(s, pts, w, h) {
			x, y := int(math.Floor(a.X+0.5)), int(math.Floor(a.Y+0.5))
			fx, fy := int(math.Floor(a.X)), int(math.Floor(a.Y))
			if (a.X < 1e-3 || a.X > W-1e-3) && tie(a.Y) {
				add(geom.Point{X: x, Y: fy}, geom.Point{X: x, Y: fy + 1})
			}
			if (a.Y < 1e-3 || a.Y > H-1e-3) && tie(a.X) {
				add(geom.Point{X: fx, Y: y}, geom.Point{X: fx + 1, Y: y})
			}
		}
	}
	return out
}

func fanSSE(img *wl.Img, p []geom.Point, k int) float64 {
	var s sse
	n := len(p)
	for i := 2; i < n; i++ {
		rasterize.DDATriangle(geom.Triangle{Points: [3]geom.Point{p[(k+i)%n], p[(k+i-1)%n], p[k]}}, func(x, y int) { s.add(img.At(x, y)) })
	}
	return s.val()
}

// polyFitness gives the possible fitness values of the nearest-site regions. They are not
// known if too many corners are on rounding ties.
func polyFitness(img *wl.Img, np normgeom.NormPointGroup) (values, bool) {
	var cs []choice
	ties := borderTies(geo.Dedupe(pixels(np, img.W, img.H)), img.W, img.H)
	for _, p := range polygonation.Polygonate(np, img.W, img.H) {
		var alt []float64
		try := func(q []geom.Point) {
			for k := range q {
				alt = append(alt, fanSSE(img, q, k))
			}
		}
		variants := [][]geom.Point{nil}
		for _, v := range p.Points {
			// the corner may be rounded the other way, and so may one of two corners
			// that are rounded to the same pixel
			subst := [][]geom.Point{{v}}
			for _, q := range ties[v] {
				subst = append(subst, []geom.Point{q}, []geom.Point{v, q}, []geom.Point{q, v})
			}
			var next [][]geom.Point
			for _, old := range variants {
				for _, x := range subst {
					next = append(next, append(old[:len(old):len(old)], x...))
				}
			}
			variants = next
			if len(variants) > 64 {
				return values{}, false
			}
		}
		for _, q := range variants {
			try(q)
			if n := len(q); n > 1 && q[0] == q[n-1] {
				try(q[:n-1])
			}
		}
		if len(alt) > 0 {
			cs = append(cs, oneOf(alt))
		}
	}
	return sumOf(cs).fitness(0, maxDiff*float64(img.W*img.H)), true
}

func blockSize(r *rand.Rand) int {
	switch r.Intn(6) {
	case 0:
		return 1
	case 1:
		return 5
	case 2:
		return 17 + r.Intn(48)
	}
	return 2 + r.Intn(15)
}

// scene draws an image, a block size and a point group.
func scene(c *mon.Ctx, maxSize, maxN int, all bool) (*wl.Img, int, *wl.Placer, normgeom.NormPointGroup, []geo.P) {
	r := c.R
	w, h := wl.Size(r, wl.Pick(r, 12, 40, 100, maxSize))
	wide, big := r.Intn(12) == 0, false
	switch {
	case r.Intn(300) == 0 && maxSize > 120: // as big as people use it
		big, wide = true, false
		w, h = 400+r.Intn(1600), 400+r.Intn(1600)
		c.Obs("big_images", 1)
	case wide: // coordinates beyond 8 to 11 bits at little cost
		w, h = wl.Pick(r, 300, 600, 1100, 2100, 4000, 8000), 2+r.Intn(20)
		if r.Intn(2) == 0 {
			w, h = h, w
		}
		c.Obs("wide_images", 1)
	}
	img, kind := wl.NewImg(r, w, h)
	if all && r.Intn(6) == 0 {
		img, kind = wl.NewImgAll(r, w, h)
	}
	bs := blockSize(r)
	if big && bs > 8 {
		bs = 8
	}
	n := wl.Pick(r, 0, 1, 3, 4, 6, 10, 20, 40, 100)
	if n > maxN {
		n = maxN
	}
	if big && r.Intn(2) == 0 {
		n = 100 + r.Intn(900)
	}
	style := r.Intn(wl.NumStyles)
	if r.Intn(3) == 0 {
		style = wl.Uniform
	}
	pl := wl.NewPlacer(r, w, h, style)
	np, pts := normPoints(r, pl, n, w, h)
	if wide && r.Intn(2) == 0 {
		np, pts = periodic(r, w, h, maxN)
		c.Obs("periodic_groups", 1)
	}
	if r.Intn(3) != 0 {
		for i := 0; i < 4; i++ {
			p := geo.P{X: int64(w * (i & 1)), Y: int64(h * (i >> 1))}
			k := r.Intn(len(np) + 1)
			np = append(np[:k], append(normgeom.NormPointGroup{wl.Norm(r, p, w, h, false)}, np[k:]...)...)
			pts = append(pts[:k], append([]geo.P{p}, pts[k:]...)...)
		}
	}
	c.Note("image %dx%d %s, block size %d, %s points %v", w, h, kind, bs, wl.StyleName(style), pts)
	return img, bs, pl, np, pts
}

// periodic repeats a few points at a distance that is often a power of two, so that there are
// congruent pieces all over the image.
func periodic(r *rand.Rand, w, h, maxN int) (normgeom.NormPointGroup, []geo.P) {
	dx, dy := wl.Pick(r, 64, 128, 256, 512, 1024, 100, 97, 2048), 0
	if h > w {
		dx, dy = 0, dx
	}
	k := 1 + r.Intn(4)
	var np normgeom.NormPointGroup
	var pts []geo.P
	m := wl.Pick(r, 12, 60, 200)
	if h > w && w > 6 && r.Intn(3) == 0 {
		// a cluster, shifted by what the hashes of the caches do not see
		dx, dy, k, m = -1, 97, 8+r.Intn(8), 10+r.Intn(40)
	}
	for i := 0; i < k; i++ {
		p := geo.P{X: int64(r.Intn(w + 1)), Y: int64(r.Intn(h + 1))}
		if w > h {
			p.X = int64(r.Intn(m + 1))
		} else {
			p.Y = int64(r.Intn(m + 1))
		}
		if dx < 0 {
			p.X = int64(w - r.Intn(w/3+1))
		}
		for ; p.X >= 0 && p.X <= int64(w) && p.Y <= int64(h) && len(pts) < (i+1)*maxN/k; p.X, p.Y = p.X+int64(dx), p.Y+int64(dy) {
			q := wl.Norm(r, p, w, h, true)
			if wl.Ambiguous(q, w, h) || wl.Pix(q, w, h) != p {
				continue
			}
			np, pts = append(np, q), append(pts, p)
		}
	}
	return np, pts
}

func blockObs(c *mon.Ctx, img *wl.Img, bs int) {
	if bs > 16 && bs <= img.W && bs <= img.H {
		c.Obs("block_over_16", 1)
	}
	if bs > img.W || bs > img.H {
		c.Obs("block_over_image", 1)
	}
}

// bigBlocks evaluates a few large shapes of a bright image with blocks of more than 20000 pixels.
func bigBlocks(c *mon.Ctx, poly bool) {
	r := c.R
	bs := 149 + r.Intn(12)
	w, h := 2*bs+8+r.Intn(16), 2*bs+8+r.Intn(16)
	img := wl.Flat(w, h, [3]uint8{255, 255, 255})
	for i := range img.Px {
		if r.Intn(20) == 0 {
			img.Px[i] = [3]uint8{uint8(250 + 5*r.Intn(2)), 255, 255}
		}
	}
	for i := range img.Px {
		for !wl.Exact(img.Px[i]) {
			img.Px[i][0]++
		}
	}
	np := normgeom.NormPointGroup{{X: 0, Y: 0}, {X: 1, Y: 0}, {X: 0, Y: 1}, {X: 1, Y: 1}}
	if poly {
		np = normgeom.NormPointGroup{{X: 0, Y: 0}, {X: 0, Y: 1}}[:1+r.Intn(2)]
	}
	pts := pixels(np, w, h)
	c.Note("bright image %dx%d, block size %d, regions %v, points %v", w, h, bs, poly, pts)
	var want values
	var ok bool
	var f fitness.CacheFunction
	if poly {
		want, ok = polyFitness(img, np)
		f = fitness.PolygonsImageFunctions(img, bs, 1)[0]
	} else {
		want, ok = triFitness(img, pts, false)
		f = fitness.NewTrianglesImageFunction(img, bs)
	}
	if !ok {
		return
	}
	got := f.Calculate(fitness.PointsData{Points: np})
	c.Check(want.has(got), "regions %v: fitness of %v on a bright %dx%d image with block size %d is %.14f, the definition gives %v", poly, pts, w, h, bs, got, want)
	c.Obs("big_blocks", 1)
	c.Eval(true, got, pts)
}

func runTriFitness(c *mon.Ctx) {
	r := c.R
	if c.I == 0 {
		flatImage(c, func(m *wl.Img, bs int) fitness.CacheFunction { return fitness.NewTrianglesImageFunction(m, bs) }, "triangles")
		return
	}
	if w, h, ok := smallCase(c, 6); ok {
		smallFitness(c, w, h, false)
		return
	}
	if c.I%1200 == 601 {
		bigBlocks(c, false)
		return
	}
	img, bs, _, np, pts := scene(c, 400, 100, true)
	want, ok := triFitness(img, pts, false)
	if !ok {
		return
	}
	want = want.truncated(img, 1)
	build := func(m *wl.Img) fitness.CacheFunction {
		if r.Intn(2) == 0 {
			return fitness.NewTrianglesImageFunction(m, bs)
		}
		k := 1 + r.Intn(3)
		return fitness.TrianglesImageFunctions(m, bs, k)[r.Intn(k)]
	}
	if r.Intn(4) == 0 {
		// the image object had other pixels when a function was made of it before
		twin := img.Twin(r)
		if r.Intn(2) == 0 {
			twin.Px[r.Intn(len(twin.Px))] = [3]uint8{}
		}
		px := img.Px
		img.Px = twin.Px
		build(img)
		img.Px = px
		c.Obs("image_used_before", 1)
	}
	f := build(img)
	if r.Intn(4) == 0 {
		// functions of other images do not influence each other
		twin := img.Twin(r)
		g := build(twin)
		if r.Intn(2) == 0 {
			f = build(img)
		}
		wantTwin, _ := triFitness(twin, pts, false)
		wantTwin = wantTwin.truncated(twin, 1)
		gotTwin := g.Calculate(fitness.PointsData{Points: np.Copy()})
		c.Check(wantTwin.has(gotTwin), "fitness of %v on a second %dx%d image with block size %d is %.14f, the definition gives %v", pts, img.W, img.H, bs, gotTwin, wantTwin)
		c.Obs("two_images", 1)
	}
	got := f.Calculate(fitness.PointsData{Points: np})
	c.Check(want.has(got), "fitness of %v on a %dx%d image with block size %d is %.14f, the definition gives %v", pts, img.W, img.H, bs, got, want)
	c.Check(img.Inexact() > 0 || got <= 1+1e-9, "fitness %v is above 1", got)
	if img.Inexact() > 0 {
		c.Obs("truncated_colours", 1)
	}
	if want.exact() {
		c.Obs("exact", 1)
	} else if want.listed() {
		c.Obs("listed", 1)
	} else {
		c.Obs("interval", 1)
	}
	blockObs(c, img, bs)
	c.Eval(len(geo.Faces(geo.Dedupe(pts))) > 0, got, pts)
}

func runPolyFitness(c *mon.Ctx) {
	if c.I == 0 {
		flatImage(c, func(m *wl.Img, bs int) fitness.CacheFunction { return fitness.PolygonsImageFunctions(m, bs, 1)[0] }, "regions")
		return
	}
	if w, h, ok := smallCase(c, 6); ok {
		smallFitness(c, w, h, true)
		return
	}
	if c.I%1200 == 601 {
		bigBlocks(c, true)
		return
	}
	img, bs, _, np, pts := scene(c, 300, 40, true)
	u := geo.Dedupe(pts)
	if len(u) == 0 {
		got := fitness.PolygonsImageFunctions(img, bs, 1)[0].Calculate(fitness.PointsData{Points: np})
		c.Check(!math.IsNaN(got), "fitness without points is %v", got)
		return
	}
	want, ok := polyFitness(img, np)
	if !ok {
		c.Obs("skipped_ties", 1)
		return
	}
	want = want.truncated(img, 4)
	build := func(m *wl.Img) fitness.CacheFunction {
		k := 1 + c.R.Intn(3)
		return fitness.PolygonsImageFunctions(m, bs, k)[c.R.Intn(k)]
	}
	if c.R.Intn(4) == 0 {
		// the image object had other pixels when a function was made of it before
		twin := img.Twin(c.R)
		px := img.Px
		img.Px = twin.Px
		build(img)
		img.Px = px
		c.Obs("image_used_before", 1)
	}
	f := build(img)
	if c.R.Intn(4) == 0 {
		twin := img.Twin(c.R)
		g := build(twin)
		wantTwin, _ := polyFitness(twin, np)
		wantTwin = wantTwin.truncated(twin, 4)
		gotTwin := g.Calculate(fitness.PointsData{Points: np.Copy()})
		c.Check(wantTwin.has(gotTwin), "fitness of the regions of %v on a second %dx%d image with block size %d is %.14f, the definition gives %v", pts, img.W, img.H, bs, gotTwin, wantTwin)
		c.Obs("two_images", 1)
	}
	got := f.Calculate(fitness.PointsData{Points: np})
	c.Check(want.has(got), "fitness of the regions of %v on a %dx%d image with block size %d is %.14f, the definition gives %v", pts, img.W, img.H, bs, got, want)
	if img.Inexact() > 0 {
		c.Obs("truncated_colours", 1)
	}
	if want.exact() {
		c.Obs("exact", 1)
	} else if want.listed() {
		c.Obs("listed", 1)
	} else {
		c.Obs("interval", 1)
	}
	blockObs(c, img, bs)
	c.Eval(len(u) > 1, got, pts)
}

// mutate makes a protocol-conforming set of mutations of pts (each index at most once).
func mutatePoints(r *rand.Rand, pl *wl.Placer, np normgeom.NormPointGroup, w, h int) ([]mutation.Mutation, string) {
	var muts []mutation.Mutation
	n := len(np)
	used := map[int]bool{}
	set := func(i int, p normgeom.NormPoint) {
		if used[i] {
			return
		}
		used[i] = true
		muts = append(muts, mutation.Mutation{Old: np[i], New: p, Index: i})
	}
	fresh := func() normgeom.NormPoint {
		for {
			p := wl.Norm(r, pl.Next(), w, h, true)
			if !wl.Ambiguous(p, w, h) {
				return p
			}
		}
	}
	kind := r.Intn(8)
	switch {
	case n == 0 || kind == 0:
		return nil, "none"
	case kind == 1 && n > 1: // two points exchange places
		i, j := r.Intn(n), r.Intn(n)
		if i != j {
			a, b := np[i], np[j]
			set(i, b)
			set(j, a)
		}
	case kind == 2: // move onto another point
		set(r.Intn(n), np[r.Intn(n)])
	case kind == 3: // everything moves
		for i := range np {
			set(i, fresh())
		}
	case kind == 4: // stays on its pixel
		i := r.Intn(n)
		p := wl.Norm(r, wl.Pix(np[i], w, h), w, h, true)
		if !wl.Ambiguous(p, w, h) {
			set(i, p)
		}
	case kind == 5: // a chain: each takes the place of the next
		k := 2 + r.Intn(4)
		idx := r.Perm(n)
		if k > n {
			k = n
		}
		idx = idx[:k]
		for t := range idx {
			set(idx[t], np[idx[(t+1)%k]])
		}
	default:
		for k := 1 + r.Intn(3); k > 0; k-- {
			set(r.Intn(n), fresh())
		}
	}
	for _, m := range muts {
		np[m.Index] = m.New
	}
	return muts, [...]string{"none", "exchange", "collide", "all", "same pixel", "chain", "move", "move"}[kind]
}

// ring is a group with one point in the middle of many.
func ring(r *rand.Rand, w, h int) normgeom.NormPointGroup {
	n := 13 + r.Intn(24)
	f, g := 0.25+0.2*r.Float64(), 0.25+0.2*r.Float64()
	np := normgeom.NormPointGroup{{X: 0.5, Y: 0.5}}
	for i := 0; i < n; i++ {
		a := 2 * math.Pi * (float64(i) + 0.3*r.Float64()) / float64(n)
		p := normgeom.NormPoint{X: 0.5 + f*math.Cos(a), Y: 0.5 + g*math.Sin(a)}
		if !wl.Ambiguous(p, w, h) {
			np = append(np, p)
		}
	}
	k := r.Intn(len(np))
	np[0], np[k] = np[k], np[0]
	return np
}

// nudge moves one point by a few pixels.
func nudge(r *rand.Rand, np normgeom.NormPointGroup, w, h int) []mutation.Mutation {
	i := r.Intn(len(np))
	p := np[i]
	p.X = math.Max(0, math.Min(1, p.X+float64(r.Intn(7)-3)/float64(w)))
	p.Y = math.Max(0, math.Min(1, p.Y+float64(r.Intn(7)-3)/float64(h)))
	if wl.Ambiguous(p, w, h) {
		return nil
	}
	m := []mutation.Mutation{{Old: np[i], New: p, Index: i}}
	np[i] = p
	return m
}

// hashShift moves one point, or all that can, by multiples of (-1, 97).
func hashShift(r *rand.Rand, np normgeom.NormPointGroup, w, h int) []mutation.Mutation {
	var m []mutation.Mutation
	one := r.Intn(len(np))
	if r.Intn(3) == 0 {
		one = -1
	}
	d := geo.P{X: 1, Y: -97}
	if r.Intn(2) == 0 {
		d = geo.P{X: -1, Y: 97}
	}
	if r.Intn(4) == 0 {
		d.X, d.Y = 2*d.X, 2*d.Y
	}
	for i := range np {
		if one >= 0 && i != one {
			continue
		}
		p := wl.Pix(np[i], w, h)
		p.X, p.Y = p.X+d.X, p.Y+d.Y
		if p.X < 0 || p.Y < 0 || p.X > int64(w) || p.Y > int64(h) {
			continue
		}
		q := wl.Norm(r, p, w, h, false)
		m = append(m, mutation.Mutation{Old: np[i], New: q, Index: i})
		np[i] = q
	}
	return m
}

func pixels(np normgeom.NormPointGroup, w, h int) []geo.P {
	out := make([]geo.P, len(np))
	for i, p := range np {
		out[i] = wl.Pix(p, w, h)
	}
	return out
}

func runIncremental(c *mon.Ctx) {
	r := c.R
	poly := c.I%2 == 1
	if w, h, ok := smallCase(c, 5); ok {
		smallMoves(c, w, h, false)
		smallMoves(c, w, h, true)
		return
	}
	maxN := 40
	if poly {
		maxN = 24
	}
	img, bs, pl, np0, _ := scene(c, 120, maxN, false)
	w, h := img.W, img.H
	if len(np0) == 0 {
		np0 = append(np0, normgeom.NormPoint{X: 0, Y: 0})
	}
	size := 2 + r.Intn(7)
	gens := 5 + r.Intn(12)
	if r.Intn(5) == 0 {
		gens = 40
	}
	switch {
	case w*h < 2000 && len(np0) < 12 && r.Intn(12) == 0:
		size, gens = 20+r.Intn(300), 4
		c.Obs("large_populations", 1)
	case w*h < 2000 && len(np0) < 12 && r.Intn(12) == 0:
		gens = 300
		c.Obs("long_runs", 1)
	}
	power := wl.Pick(r, 0, 1, 2, 4, 6, 10, 16)
	hub := r.Intn(14) == 0
	if hub { // a region with many vertices of which few change
		w, h = 100+r.Intn(200), 100+r.Intn(200)
		img, _ = wl.NewImg(r, w, h)
		np0 = ring(r, w, h)
		pl = wl.NewPlacer(r, w, h, wl.Uniform)
		power = wl.Pick(r, 0, 0, 0, 1, 2, 4, 10)
		size, gens = 2+r.Intn(4), 12
		c.Obs("hubs", 1)
		c.Note("instead image %dx%d, points %v", w, h, pixels(np0, w, h))
	}
	shifts := !hub && r.Intn(14) == 0
	if shifts { // points move by what the hashes of the caches do not see
		w, h = 20+r.Intn(150), 200+r.Intn(250)
		img, _ = wl.NewImg(r, w, h)
		pl = wl.NewPlacer(r, w, h, wl.Uniform)
		np0 = normgeom.NormPointGroup{{X: 0, Y: 0}, {X: 1, Y: 0}, {X: 0, Y: 1}, {X: 1, Y: 1}}[:wl.Pick(r, 0, 4, 4)]
		for k := wl.Pick(r, 1, 1, 2, 5, 10); k > 0; k-- {
			p := geo.P{X: int64(r.Intn(w + 1)), Y: int64(r.Intn(h + 1))}
			np0 = append(np0, wl.Norm(r, p, w, h, false))
		}
		power = wl.Pick(r, 0, 2, 6, 12, 16)
		size, gens = 2+r.Intn(4), 12
		c.Obs("hash_shifts", 1)
		c.Note("instead image %dx%d, points %v", w, h, pixels(np0, w, h))
	}
	var fs []fitness.CacheFunction
	shape := "triangles"
	if poly {
		fs = fitness.PolygonsImageFunctions(img, bs, size)
		shape = "polygons"
	} else {
		fs = fitness.TrianglesImageFunctions(img, bs, size)
	}
	c.Note("%s, %d members, cache 2^%d", shape, size, power)
	ev := evaluator.NewParallel(fs, power)
	pop := make([]normgeom.NormPointGroup, size)
	evaluated := make([]bool, size)
	for i := range pop {
		pop[i] = np0.Copy()
		if !hub && !shifts && r.Intn(2) == 0 {
			for k := range pop[i] {
				p := wl.Norm(r, pl.Next(), w, h, true)
				if !wl.Ambiguous(p, w, h) {
					pop[i][k] = p
				}
			}
		}
	}
	verify := func(i int, muts []mutation.Mutation, how string) {
		keep := pop[i].Copy()
		keepM := append([]mutation.Mutation(nil), muts...)
		got := ev.Get(i).Calculate(fitness.PointsData{Points: pop[i], Mutations: muts})
		for k := range keep {
			c.Check(keep[k] == pop[i][k], "evaluating member %d changed its point %d", i, k)
		}
		for k := range keepM {
			c.Check(keepM[k] == muts[k], "evaluating member %d changed its list of mutations", i)
		}
		evaluated[i] = true
		pts := pixels(pop[i], w, h)
		u := geo.Dedupe(pts)
		var want values
		if poly {
			var ok bool
			if want, ok = polyFitness(img, pop[i]); !ok {
				c.Obs("skipped_ties", 1)
				return
			}
		} else {
			var ok bool
			want, ok = triFitness(img, pts, false)
			if !ok {
				return
			}
		}
		c.Check(want.has(got), "%s, %dx%d image, block size %d, cache 2^%d: member %d evaluated %s has fitness %.14f, from scratch the definition gives %v; points %v",
			shape, w, h, bs, power, i, how, got, want, pts)
		if want.exact() {
			c.Obs(shape+"_exact", 1)
		} else if want.listed() {
			c.Obs(shape+"_listed", 1)
		} else {
			c.Obs(shape+"_interval", 1)
		}
		c.Eval(len(muts) > 0, shape, got, u)
	}
	first := true
	for g := 0; g < gens; g++ {
		elite := 1 + r.Intn(size)
		if elite > size-1 {
			elite = size - 1
		}
		muts := make([][]mutation.Mutation, size)
		how := make([]string, size)
		late := -1
		if !first && size > elite && r.Intn(2) == 0 {
			late = size - 1 // evaluated after the others, like a combined member
		}
		if !first {
			for i := elite; i < size; i++ {
				if i == late {
					continue
				}
				b := r.Intn(elite)
				copy(pop[i], pop[b])
				ev.SetBase(i, b)
				var k string
				if hub && r.Intn(4) != 0 {
					muts[i], k = nudge(r, pop[i], w, h), "nudge"
				} else if shifts && r.Intn(4) != 0 {
					muts[i], k = hashShift(r, pop[i], w, h), "hash shift"
				} else {
					muts[i], k = mutatePoints(r, pl, pop[i], w, h)
				}
				how[i] = fmt.Sprintf("based on %d (%s) with %d mutations in generation %d", b, k, len(muts[i]), g)
				c.Obs("through_base", 1)
			}
		}
		order := r.Perm(size)
		ev.Prepare()
		for _, i := range order {
			if i == late {
				continue
			}
			if how[i] == "" {
				how[i] = fmt.Sprintf("unchanged in generation %d", g)
				c.Obs("unchanged", 1)
			}
			verify(i, muts[i], how[i])
			ev.Update(i)
		}
		if late >= 0 {
			b := r.Intn(elite)
			copy(pop[late], pop[b])
			ev.SetBase(late, b)
			m, k := mutatePoints(r, pl, pop[late], w, h)
			verify(late, m, fmt.Sprintf("late, based on %d (%s) with %d mutations in generation %d", b, k, len(m), g))
			ev.Update(late)
			c.Obs("through_base", 1)
		}
		first = false
		for k := r.Intn(2 * size); k > 0; k-- {
			i, j := r.Intn(size), r.Intn(size)
			pop[i], pop[j] = pop[j], pop[i]
			ev.Swap(i, j)
		}
	}
	c.Obs("generations", gens)
}
