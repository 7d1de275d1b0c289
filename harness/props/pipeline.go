package props

import (
	"fmt"
	"image"
	icolor "image/color"
	"math"
	"math/rand"
	"sync/atomic"
	"time"

	"github.com/RH12503/Triangula/algorithm"
	"github.com/RH12503/Triangula/algorithm/evaluator"
	"github.com/RH12503/Triangula/color"
	"github.com/RH12503/Triangula/fitness"
	"github.com/RH12503/Triangula/generator"
	"github.com/RH12503/Triangula/geom"
	tri "github.com/RH12503/Triangula/image"
	"github.com/RH12503/Triangula/mutation"
	"github.com/RH12503/Triangula/normgeom"
	"github.com/RH12503/Triangula/polygonation"
	"github.com/RH12503/Triangula/random"
	"github.com/RH12503/Triangula/rasterize"
	"github.com/RH12503/Triangula/render"
	"github.com/RH12503/Triangula/triangulation"
	"github.com/RH12503/Triangula/utils"

	"verif/harness/geo"
	"verif/harness/mon"
	"verif/harness/wl"
)

func init() {
	mon.Register(&mon.Prop{
		ID: "T24", Quick: 2400, Thorough: 100000,
		Rule: "one case = one image converted by the library, one algorithm on it (two kinds, triangles or regions, population 3-40, block sizes, cache sizes; every 60th case the default configuration, one of 120 an image of 256-1300 pixels along both sides and up to 400 points) run for up to 25 steps; at several points the reported best fitness is compared with the accuracy of the triangulated (divided) and rendered best points, measured per pixel, and with a fresh evaluation; non-trivial = after at least one step; distinct by best points",
		Assume: []string{
			"image colours as in T09; cocircular or extremely large faces give an interval; regions as in T10",
		},
		Run:      runPipeline,
		Watchdog: 120 * time.Second,
		MinObs:   map[string]int64{"triangles_exact": 800, "regions_exact": 800, "default_configuration": 20, "large_images": 10, "over_100_points": 8, "steps": 10000},
	})
}

// guarded reports a panic of a function instead of losing its result.
type guarded struct {
	fitness.CacheFunction
	msg *atomic.Value
}

func (g *guarded) Calculate(p fitness.PointsData) (f float64) {
	defer func() {
		if e := recover(); e != nil {
			g.msg.Store(fmt.Sprintf("evaluating %v with changes %v: panic: %v", p.Points, p.Mutations, e))
			f = -1e300
		}
	}()
	return g.CacheFunction.Calculate(p)
}

func (g *guarded) SetBase(o fitness.CacheFunction) {
	g.CacheFunction.SetBase(o.(*guarded).CacheFunction)
}

func sqDiff(img *wl.Img, x, y int, c color.RGB) float64 {
	p := img.At(x, y)
	dr, dg, db := float64(p[0])-255*c.R, float64(p[1])-255*c.G, float64(p[2])-255*c.B
	return dr*dr + dg*dg + db*db
}

// renderedTriangles measures the accuracy of the rendered triangulation.
func renderedTriangles(img *wl.Img, data tri.Data, np normgeom.NormPointGroup) float64 {
	m := maxDiff * float64(img.W*img.H)
	tris := triangulation.Triangulate(np, img.W, img.H)
	out := render.TrianglesOnImage(tris, data)
	err, area := 0., 0.
	for _, s := range out {
		var t geom.Triangle
		var u geo.Tri
		for i, v := range s.Triangle.Points {
			t.Points[i] = geom.Point{X: int(math.Round(v.X * float64(img.W))), Y: int(math.Round(v.Y * float64(img.H)))}
			u[i] = geo.P{X: int64(t.Points[i].X), Y: int64(t.Points[i].Y)}
		}
		area += float64(u.Area2()) / 2
		rasterize.DDATriangle(t, func(x, y int) { err += sqDiff(img, x, y, s.Color) })
	}
	return 1 - (err+maxDiff*(float64(img.W*img.H)-area))/m
}

func renderedRegions(img *wl.Img, data tri.Data, np normgeom.NormPointGroup) float64 {
	polys := polygonation.Polygonate(np, img.W, img.H)
	err := 0.
	for i, s := range render.PolygonsOnImage(polys, data) {
		polys[i].Triangulate(func(t geom.Triangle) {
			rasterize.DDATriangle(t, func(x, y int) { err += sqDiff(img, x, y, s.Color) })
		})
	}
	return 1 - err/(maxDiff*float64(img.W*img.H))
}

func runPipeline(c *mon.Ctx) {
	r := c.R
	seed := r.Int63()
	rand.Seed(seed)
	random.Seed(seed)
	def := c.I%60 == 59
	w, h := wl.Size(r, wl.Pick(r, 8, 30, 80, 160))
	if !def && r.Intn(15) == 0 {
		w, h = wl.Pick(r, 300, 600, 1100, 2100, 4000, 8000), 2+r.Intn(12)
		if r.Intn(2) == 0 {
			w, h = h, w
		}
		c.Obs("wide_images", 1)
	}
	large := c.I%240 == 239 || c.I%240 == 90
	if large { // as large as the images users have, along both sides
		side := wl.Pick(r, 256, 512, 640, 1024)
		w, h = side+r.Intn(2)*r.Intn(300), side+r.Intn(2)*r.Intn(300)
		c.Obs("large_images", 1)
	}
	img, kind := wl.NewImg(r, w, h)
	off := image.Pt(r.Intn(40)-20, r.Intn(40)-20)
	src := image.NewRGBA(image.Rectangle{Min: off, Max: off.Add(image.Pt(w, h))})
	if def && r.Intn(2) == 0 {
		// the image object was used before, with other pixels
		r.Read(src.Pix)
		utils.DefaultAlgorithm(1+r.Intn(3), src)
		c.Obs("image_used_before", 1)
	}
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			p := img.At(x, y)
			src.SetRGBA(off.X+x, off.Y+y, icolor.RGBA{R: p[0], G: p[1], B: p[2], A: 255})
		}
	}
	data := tri.ToData(src)
	poly := !def && r.Intn(2) == 0
	n := 1 + r.Intn(wl.Pick(r, 4, 12, 40))
	if large || r.Intn(100) == 0 {
		n = 1 + r.Intn(wl.Pick(r, 12, 100, 400))
	}
	if c.I%480 == 239 || c.I%480 == 330 {
		n = 101 + r.Intn(200)
	}
	if n > 100 {
		c.Obs("over_100_points", 1)
	}
	bs := blockSize(r)
	var a algorithm.Algorithm
	var msg atomic.Value
	cfg := ""
	fresh := func() fitness.CacheFunction {
		if poly {
			return fitness.PolygonsImageFunctions(data, bs, 1)[0]
		}
		return fitness.NewTrianglesImageFunction(data, bs)
	}
	if def {
		c.Obs("default_configuration", 1)
		cfg = "default configuration"
		a = utils.DefaultAlgorithm(n, src)
	} else {
		cut := 1 + r.Intn(5)
		size := 2*cut + 1 + r.Intn(30)
		power := wl.Pick(r, 0, 1, 4, 8, 16)
		guard := r.Intn(3) != 0
		newEv := func(k int) evaluator.Evaluator {
			var fs []fitness.CacheFunction
			if poly {
				fs = fitness.PolygonsImageFunctions(data, bs, k)
			} else {
				fs = fitness.TrianglesImageFunctions(data, bs, k)
			}
			if guard {
				for i := range fs {
					fs[i] = &guarded{fs[i], &msg}
				}
			}
			return evaluator.NewParallel(fs, power)
		}
		var m mutation.Method
		mk := r.Intn(5)
		switch mk {
		case 0:
			m = mutation.DefaultGaussianMethod(n)
		case 1:
			m = mutation.NewGaussianMethod(r.Float64(), r.Float64())
		case 2:
			m = mutation.NewRandomMethod(r.Float64(), r.Float64())
		default:
			m = &wild{rand.New(rand.NewSource(seed)), wildStyles[r.Intn(len(wildStyles))]}
		}
		spaced := r.Intn(2) == 0
		corners := r.Intn(2) == 0
		halves := r.Intn(3) == 0
		factory := func() normgeom.NormPointGroup {
			var p normgeom.NormPointGroup
			if spaced {
				p = generator.NewSpacedGenerator(40).Generate(n)
			} else {
				p = (generator.RandomGenerator{}).Generate(n)
			}
			if corners {
				for i := 0; i < 4; i++ {
					p = append(p, normgeom.NormPoint{X: float64(i & 1), Y: float64(i >> 1)})
				}
			}
			if halves { // half-way between two pixels, or almost
				for i := range p {
					switch r.Intn(4) {
					case 0:
						p[i].X = float64(1+r.Intn(7)) / 8
					case 1:
						p[i].Y = float64(1+r.Intn(7)) / 8
					case 2:
						p[i].X = (float64(r.Intn(w)) + 0.5 + float64(1-2*r.Intn(2))*1e-6) / float64(w)
					}
				}
			}
			return p
		}
		modified := r.Intn(2) == 0
		cfg = fmt.Sprintf("combining %v, population %d, cutoff %d, cache 2^%d, mutation %d", modified, size, cut, power, mk)
		if modified {
			a = algorithm.NewModifiedGenetic(factory, size, cut, newEv, m)
		} else {
			a = algorithm.NewSimple(factory, size, cut, newEv, m)
		}
	}
	c.Note("image %dx%d %s, regions %v, block size %d, %d points, %s", w, h, kind, poly, bs, n, cfg)
	steps := r.Intn(25)
	if def || large {
		steps = r.Intn(4)
	}
	for s := 0; s <= steps; s++ {
		if s > 0 {
			a.Step()
			c.Obs("steps", 1)
		}
		if m := msg.Load(); m != nil {
			c.Fail("image %dx%d, %s, step %d: %v", w, h, cfg, s, m)
		}
		if s != 0 && s != steps && r.Intn(6) != 0 {
			continue
		}
		np := a.Best().Copy()
		fit := a.Stats().BestFitness
		amb := false
		for i, p := range np {
			c.Check(p.X >= 0 && p.X <= 1 && p.Y >= 0 && p.Y <= 1, "%s, step %d: best point %d is %v", cfg, s, i, p)
			// products of a few bits are exact
			amb = amb || wl.Ambiguous(p, w, h) && (p.X*64 != math.Floor(p.X*64) && wl.Ambiguous(normgeom.NormPoint{X: p.X}, w, h) || p.Y*64 != math.Floor(p.Y*64) && wl.Ambiguous(normgeom.NormPoint{Y: p.Y}, w, h))
			if !amb && wl.Ambiguous(p, w, h) {
				c.Obs("exact_halves", 1)
			}
		}
		if amb {
			continue
		}
		pts := pixels(np, w, h)
		where := fmt.Sprintf("image %dx%d %s, regions %v, block size %d, %s, step %d: the reported best fitness is %.14f", w, h, kind, poly, bs, cfg, s, fit)
		var want values
		var acc float64
		if poly {
			var ok bool
			if want, ok = polyFitness(img, np); !ok {
				c.Obs("skipped_ties", 1)
				continue
			}
			acc = renderedRegions(img, data, np)
			c.Check(want.has(acc), "%s; the rendered regions have %.14f, the definition gives %v", where, acc, want)
		} else {
			var ok bool
			want, ok = triFitness(img, pts, false)
			all, ok2 := triFitness(img, pts, true)
			if !ok || !ok2 {
				continue
			}
			acc = renderedTriangles(img, data, np)
			c.Check(all.hasTol(acc, 1e-9), "%s; the rendered triangles have %.14f, the definition gives %v", where, acc, all)
		}
		c.Check(want.has(fit), "%s, the accuracy of the rendered result is %.14f, the definition gives %v; points %v", where, acc, want, pts)
		if want.exact() {
			c.Check(math.Abs(acc-fit) < 1e-9, "%s, the accuracy of the rendered result is %.14f; points %v", where, acc, pts)
			f := fresh().Calculate(fitness.PointsData{Points: np})
			c.Check(math.Abs(f-fit) < 1e-9, "%s, a fresh evaluation gives %.14f; points %v", where, f, pts)
			if poly {
				c.Obs("regions_exact", 1)
			} else {
				c.Obs("triangles_exact", 1)
			}
		} else if want.listed() {
			c.Obs("listed", 1)
		} else {
			c.Obs("interval", 1)
		}
		c.Eval(s > 0, fit, pts)
	}
}
