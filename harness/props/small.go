package props

import (
	"fmt"
	"sort"

	"github.com/RH12503/Triangula/algorithm/evaluator"
	"github.com/RH12503/Triangula/fitness"
	"github.com/RH12503/Triangula/mutation"
	"github.com/RH12503/Triangula/normgeom"
	"github.com/RH12503/Triangula/triangulation/incrdelaunay"

	"verif/harness/geo"
	"verif/harness/mon"
	"verif/harness/wl"
)

// Every history of a few operations in every tiny image: what rarely comes up by chance.

// smallCase tells whether the case is one of these and for which image (of at most side*side pixels).
func smallCase(c *mon.Ctx, side int) (int, int, bool) {
	const every, at = 101, 3
	t := c.I / every
	if c.I%every != at || t >= side*side {
		return 0, 0, false
	}
	return 1 + t%side, 1 + t/side, true
}

// smallHistories visits all sequences of two points (three if there are few positions) of a w*h image.
func smallHistories(w, h int, visit func(ps []geo.P)) {
	n := (w + 1) * (h + 1)
	at := func(i int) geo.P { return geo.P{X: int64(i % (w + 1)), Y: int64(i / (w + 1))} }
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			if n > 16 {
				visit([]geo.P{at(i), at(j)})
				continue
			}
			for k := 0; k < n; k++ {
				visit([]geo.P{at(i), at(j), at(k)})
			}
		}
	}
}

// smallRun performs one history: all points are inserted and, in the same order, removed
// again but for the last; step is called after every operation.
func smallRun(ps []geo.P, insert, remove func(geo.P), step func(m *model)) {
	m := newModel()
	for _, p := range ps {
		m.add(p)
		insert(p)
		step(m)
	}
	for range ps[1:] {
		// the model keeps the order of its list except that the last replaces a removed one
		p := m.removeAt(0)
		remove(p)
		step(m)
	}
}

func smallDelaunay(c *mon.Ctx, w, h int) {
	smallHistories(w, h, func(ps []geo.P) {
		d := incrdelaunay.NewDelaunay(w, h)
		var faces int
		smallRun(ps, func(p geo.P) { d.Insert(wl.Pt(p)) }, func(p geo.P) { d.Remove(wl.Pt(p)) }, func(m *model) {
			msg, f, _ := checkTris(trianglesOf(d), m.points(), need(w, h))
			c.Check(msg == "", "image %dx%d, the points %v inserted and then removed, %d left: %s", w, h, ps, len(m.list), msg)
			faces += f
		})
		c.Obs("small_histories", 1)
		c.Eval(faces > 0, w, h, ps)
	})
}

func smallQueries(c *mon.Ctx, w, h int) {
	smallHistories(w, h, func(ps []geo.P) {
		d := incrdelaunay.NewDelaunay(w, h)
		smallRun(ps, func(p geo.P) { d.Insert(wl.Pt(p)) }, func(p geo.P) { d.Remove(wl.Pt(p)) }, func(m *model) {
			c.Check(d.NumPoints() == len(m.list), "image %dx%d, the points %v inserted and then removed: %d points reported, %d are present", w, h, ps, d.NumPoints(), len(m.list))
			for y := 0; y <= h; y++ {
				for x := 0; x <= w; x++ {
					p := geo.P{X: int64(x), Y: int64(y)}
					got, want := d.HasPoint(wl.Pt(p)), m.n[p] > 0
					c.Check(got == want, "image %dx%d, the points %v inserted and then removed, %v left: asked for %v: %v", w, h, ps, m.list, p, got)
					best := int64(1 << 60)
					for q := range m.n {
						if e := dist2(p, q); e < best {
							best = e
						}
					}
					g := wl.GP(d.GetClosestTo(wl.Pt(p)))
					c.Check(m.n[g] > 0 && dist2(p, g) == best, "image %dx%d, the points %v inserted and then removed, %v left: the closest to %v is given as %v", w, h, ps, m.list, p, g)
				}
			}
		})
		c.Obs("small_histories", 1)
		c.Eval(true, w, h, ps)
	})
}

func smallRegions(c *mon.Ctx, w, h int, incremental bool) {
	smallHistories(w, h, func(ps []geo.P) {
		v := incrdelaunay.NewVoronoi(w, h)
		d := incrdelaunay.NewDelaunay(w, h)
		smallRun(ps,
			func(p geo.P) {
				if incremental {
					v.Insert(wl.Pt(p))
				} else {
					d.Insert(wl.Pt(p))
				}
			}, func(p geo.P) {
				if incremental {
					v.Remove(wl.Pt(p))
				} else {
					d.Remove(wl.Pt(p))
				}
			}, func(m *model) {
				var polys [][]geo.F
				if incremental {
					polys = polysOfV(v)
				} else {
					incrdelaunay.Voronoi(d, func(ps []incrdelaunay.FloatPoint) { polys = append(polys, fpoly(ps)) }, w, h)
				}
				msg := matchCells(polys, m.points(), w, h, 0.01, false)
				c.Check(msg == "", "image %dx%d, the points %v inserted and then removed, %v left: %s", w, h, ps, m.list, msg)
			})
		c.Obs("small_histories", 1)
		c.Eval(true, w, h, ps)
	})
}

// smallTriangles visits all triangles that touch all sides of a w*h box.
func smallTriangles(w, h int, visit func(t geo.Tri)) {
	n := (w + 1) * (h + 1)
	at := func(i int) geo.P { return geo.P{X: int64(i % (w + 1)), Y: int64(i / (w + 1))} }
	for i := 0; i < n; i++ {
		for j := i; j < n; j++ {
			for k := j; k < n; k++ {
				t := geo.Tri{at(i), at(j), at(k)}
				if x0, y0, x1, y1 := bbox(t[:]); x0 == 0 && y0 == 0 && x1 == w && y1 == h {
					visit(t)
				}
			}
		}
	}
}

// smallSets visits all sets of one to three points of a w*h image, and of four and five
// if there are few positions, in random order.
// Only every part-th of those with more than two is taken in a quick run.
func smallSets(c *mon.Ctx, w, h, part int, visit func(np normgeom.NormPointGroup, ps []geo.P)) {
	if c.Thorough() {
		part = 1
	}
	n := (w + 1) * (h + 1)
	most := 3
	if n <= 36 {
		most = 4
	}
	if n <= 20 {
		most = 5
	}
	var pts []geo.P
	var next func(from int)
	next = func(from int) {
		if len(pts) > 0 && (len(pts) < 3 || part == 1 || c.R.Intn(part) == 0) {
			ps := append([]geo.P(nil), pts...)
			c.R.Shuffle(len(ps), func(i, j int) { ps[i], ps[j] = ps[j], ps[i] })
			visit(smallNorm(c, ps, w, h), ps)
		}
		if len(pts) == most {
			return
		}
		for i := from; i < n; i++ {
			pts = append(pts, geo.P{X: int64(i % (w + 1)), Y: int64(i / (w + 1))})
			next(i + 1)
			pts = pts[:len(pts)-1]
		}
	}
	next(0)
}

func smallNorm(c *mon.Ctx, ps []geo.P, w, h int) (np normgeom.NormPointGroup) {
	for _, p := range ps {
		np = append(np, wl.Norm(c.R, p, w, h, false))
	}
	return
}

// withCorners adds the corners of the image at random places.
func withCorners(c *mon.Ctx, np normgeom.NormPointGroup, ps []geo.P, w, h int) (normgeom.NormPointGroup, []geo.P) {
	for i := 0; i < 4; i++ {
		p := geo.P{X: int64(w * (i & 1)), Y: int64(h * (i >> 1))}
		k := c.R.Intn(len(ps) + 1)
		np = append(np[:k:k], append(normgeom.NormPointGroup{wl.Norm(c.R, p, w, h, false)}, np[k:]...)...)
		ps = append(ps[:k:k], append([]geo.P{p}, ps[k:]...)...)
	}
	return np, ps
}

// smallGroups triangulates all these sets.
func smallGroups(c *mon.Ctx, w, h int) {
	smallSets(c, w, h, 1, func(np normgeom.NormPointGroup, ps []geo.P) {
		triangulated(c, np, ps, w, h, fmt.Sprintf(" (image %dx%d, points %v)", w, h, ps))
		c.Obs("small_groups", 1)
	})
}

// smallPartitions draws the triangles and regions of all these sets with and without the corners.
func smallPartitions(c *mon.Ctx, w, h int) {
	smallSets(c, w, h, 6, func(np normgeom.NormPointGroup, ps []geo.P) {
		partition(c, np, ps, w, h, false)
		np, ps = withCorners(c, np, ps, w, h)
		partition(c, np, ps, w, h, true)
		c.Obs("small_groups", 1)
	})
}

// smallFitness evaluates all these sets from scratch.
func smallFitness(c *mon.Ctx, w, h int, poly bool) {
	img, _ := wl.NewImg(c.R, w, h)
	eval := func(np normgeom.NormPointGroup, ps []geo.P) {
		bs := 1 + c.R.Intn(4)
		var f fitness.CacheFunction
		var want values
		var ok bool
		if poly {
			f = fitness.PolygonsImageFunctions(img, bs, 1)[0]
			want, ok = polyFitness(img, np)
		} else {
			f = fitness.NewTrianglesImageFunction(img, bs)
			want, ok = triFitness(img, ps, false)
		}
		got := f.Calculate(fitness.PointsData{Points: np})
		if !ok {
			return
		}
		c.Check(want.has(got), "fitness of %v on a %dx%d image %v with block size %d is %.14f, the definition gives %v", ps, w, h, img.Px, bs, got, want)
		c.Eval(true, w, h, ps, got)
	}
	smallSets(c, w, h, 8, func(np normgeom.NormPointGroup, ps []geo.P) {
		eval(np, ps)
		np, ps = withCorners(c, np, ps, w, h)
		eval(np, ps)
		c.Obs("small_groups", 1)
	})
}

// smallMoves evaluates, through a base and a shared cache, every move of a point of all pairs
// of points (triples if there are few positions), most of them with the corners of the image.
func smallMoves(c *mon.Ctx, w, h int, poly bool) {
	r := c.R
	img, _ := wl.NewImg(r, w, h)
	bs, power := 1+r.Intn(3), r.Intn(7)
	var fs []fitness.CacheFunction
	if poly {
		fs = fitness.PolygonsImageFunctions(img, bs, 2)
	} else {
		fs = fitness.TrianglesImageFunctions(img, bs, 2)
	}
	ev := evaluator.NewParallel(fs, power)
	known := map[string]values{}
	pop := make([]normgeom.NormPointGroup, 2)
	evaluate := func(i int, muts []mutation.Mutation, how string, args ...interface{}) {
		got := ev.Get(i).Calculate(fitness.PointsData{Points: pop[i], Mutations: muts})
		u := geo.Dedupe(pixels(pop[i], w, h))
		sort.Slice(u, func(a, b int) bool { return u[a].X < u[b].X || u[a].X == u[b].X && u[a].Y < u[b].Y })
		key := fmt.Sprint(u)
		want, ok := known[key]
		if !ok {
			if poly {
				want, ok = polyFitness(img, pop[i])
			} else {
				want, ok = triFitness(img, u, false)
			}
			if !ok {
				c.Obs("skipped_ties", 1)
				return
			}
			known[key] = want
		}
		c.Check(want.has(got), "%dx%d image %v, block size %d, cache 2^%d, poly %v: %s: the fitness of %v is %.14f, the definition gives %v",
			w, h, img.Px, bs, power, poly, fmt.Sprintf(how, args...), pixels(pop[i], w, h), got, want)
		c.Eval(muts != nil, w, h, key, got)
	}
	corners := r.Intn(4) != 0
	full := geo.P{X: int64(w), Y: int64(h)}
	first := true
	smallHistories(w, h, func(ps []geo.P) {
		if !c.Thorough() && len(ps)*(w+1)*(h+1) > 30 && r.Intn(4) != 0 {
			return
		}
		np := smallNorm(c, ps, w, h)
		all := ps
		if corners {
			np, all = withCorners(c, np, ps, w, h)
		}
		if first {
			pop[0], pop[1] = np.Copy(), np.Copy()
			ev.Prepare()
			evaluate(0, nil, "first")
			ev.Update(0)
			evaluate(1, nil, "first")
			ev.Update(1)
			first = false
			return
		}
		// the base goes on to this group, from itself
		ev.SetBase(0, 0)
		var muts []mutation.Mutation
		for i := range np {
			muts = append(muts, mutation.Mutation{Old: pop[0][i], New: np[i], Index: i})
		}
		was := pixels(pop[0], w, h)
		pop[0] = np.Copy()
		ev.Prepare()
		evaluate(0, muts, "all points moved from %v", was)
		ev.Update(0)
		ev.SetBase(1, 0)
		i := r.Intn(len(np))
		if len(known)%7 == 0 {
			i = 0
		}
		for y := int64(0); y <= full.Y; y++ {
			for x := int64(0); x <= full.X; x++ {
				pop[1] = np.Copy()
				pop[1][i] = wl.Norm(r, geo.P{X: x, Y: y}, w, h, false)
				ev.SetBase(1, 0)
				ev.Prepare()
				evaluate(1, []mutation.Mutation{{Old: np[i], New: pop[1][i], Index: i}}, "point %d of %v moved", i, all)
				ev.Update(1)
			}
		}
		c.Obs("small_moves", 1)
	})
}

// smallCopies sets triangulations of all pairs of points to each other.
func smallCopies(c *mon.Ctx, w, h int) {
	r := c.R
	n := (w + 1) * (h + 1)
	at := func(i int) geo.P { return geo.P{X: int64(i % (w + 1)), Y: int64(i / (w + 1))} }
	for k := 0; k < n*n*n*n; k++ {
		if !c.Thorough() && n > 9 && r.Intn(4) != 0 {
			continue
		}
		a := []geo.P{at(k % n), at(k / n % n)}
		b := []geo.P{at(k / n / n % n), at(k / n / n / n)}
		ds := [2]*incrdelaunay.Delaunay{incrdelaunay.NewDelaunay(w, h), incrdelaunay.NewDelaunay(w, h)}
		ms := [2]*model{newModel(), newModel()}
		what := ""
		insert := func(i int, p geo.P) {
			ds[i].Insert(wl.Pt(p))
			ms[i].add(p)
			what = "inserted"
		}
		remove := func(i int) {
			ds[i].Remove(wl.Pt(ms[i].removeAt(0)))
			what = "removed"
		}
		set := func(i int) {
			ds[i].Set(ds[1-i])
			ms[i] = ms[1-i].clone()
			what = "set"
		}
		check := func() {
			for i := range ds {
				msg, _, _ := checkTris(trianglesOf(ds[i]), ms[i].points(), need(w, h))
				c.Check(msg == "", "image %dx%d, first %v, second %v, last operation %s: number %d with the points %v: %s", w, h, a, b, what, i, ms[i].list, msg)
				c.Check(ds[i].NumPoints() == len(ms[i].list), "image %dx%d, first %v, second %v, last operation %s: number %d with the points %v reports %d points", w, h, a, b, what, i, ms[i].list, ds[i].NumPoints())
			}
		}
		for _, p := range a {
			insert(0, p)
		}
		for _, p := range b {
			insert(1, p)
		}
		set(0)
		check()
		remove(0)
		check()
		insert(1, a[0])
		check()
		remove(1)
		insert(0, a[1])
		check()
		set(1)
		check()
		remove(1)
		remove(0)
		check()
		c.Obs("small_copies", 1)
		c.Eval(true, w, h, a, b)
	}
}
