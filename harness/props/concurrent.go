package props

import (
	"fmt"
	"image"
	"math/rand"
	"runtime"
	"sync"
	"time"

	"github.com/RH12503/Triangula/algorithm"
	"github.com/RH12503/Triangula/algorithm/evaluator"
	"github.com/RH12503/Triangula/fitness"
	"github.com/RH12503/Triangula/generator"
	"github.com/RH12503/Triangula/geom"
	tri "github.com/RH12503/Triangula/image"
	"github.com/RH12503/Triangula/mutation"
	"github.com/RH12503/Triangula/normgeom"
	"github.com/RH12503/Triangula/polygonation"
	"github.com/RH12503/Triangula/rasterize"
	"github.com/RH12503/Triangula/render"
	"github.com/RH12503/Triangula/triangulation"
	"github.com/RH12503/Triangula/triangulation/incrdelaunay"

	"verif/harness/mon"
	"verif/harness/wl"
)

// The first case of every child process runs its tasks together before it runs any alone.
const coldCases = 20

func init() {
	mon.Register(&mon.Prop{
		ID: "T26", Quick: 560, Thorough: 16000,
		Rule: "one case = several tasks of drawn kinds over inputs they share for reading (one image, one point group, one triangulation, one set of diagrams and fitness functions), each run alone first and then all at once on as many goroutines, under a drawn number of processors, in a race-detector build (20 processes begin with running them at once, so that nothing is initialised yet); every result must be bit for bit that of the run alone; non-trivial = at least two tasks overlapped in time; distinct by tasks and results",
		Assume: []string{
			"package random (and the Gaussian mutation built on it) is documented as not safe for concurrent use and left out",
			"the race detector sees the synchronisation of the Go runtime and the worker pool",
		},
		Run:      runConcurrent,
		Watchdog: 120 * time.Second,
		Shards:   coldCases,
		MinObs:   map[string]int64{"overlapping_tasks": 1500, "compared_results": 1500, "task_render": 80, "task_triangulation": 80, "task_diagram": 80, "task_fitness": 80, "task_algorithm": 80, "task_generate": 80, "task_convert": 80, "task_raster": 80, "task_divide": 80, "cold_starts": 18},
	})
}

// shared is what the tasks of a case read together.
type shared struct {
	w, h  int
	img   *wl.Img
	data  tri.RGBData
	src   image.Image
	np    normgeom.NormPointGroup
	tris  []geom.Triangle
	polys []geom.Polygon
	d     *incrdelaunay.Delaunay
	v     *incrdelaunay.IVoronoi
	dm    *model
	base  []fitness.CacheFunction // evaluated functions used as bases: triangles, regions
	bs    int
}

type task struct {
	kind string
	run  func() string
}

func hashOf(x ...interface{}) string {
	return short(fmt.Sprint(x...)) + fmt.Sprint(len(fmt.Sprint(x...)))
}

var taskKinds = []string{"render", "triangulation", "diagram", "fitness", "algorithm", "generate", "convert", "raster", "divide", "read"}

// newTask draws a task; its run is a function of seed and s only.
func newTask(s *shared, kind string, seed int64) task {
	return task{kind, func() string {
		r := rand.New(rand.NewSource(seed))
		switch kind {
		case "render":
			out := ""
			for i := 0; i < 3; i++ {
				out += hashOf(render.TrianglesOnImage(s.tris, s.data), render.PolygonsOnImage(s.polys, s.data))
			}
			return out
		case "divide":
			out := ""
			for i := 0; i < 3; i++ {
				out += hashOf(triangulation.Triangulate(s.np, s.w, s.h), polygonation.Polygonate(s.np, s.w, s.h))
			}
			return out
		case "convert":
			d := tri.ToData(s.src)
			return hashOf(d)
		case "raster":
			h := uint64(0)
			n := 0
			add := func(x ...int) {
				for _, v := range x {
					h = h*1099511628211 + uint64(v)
				}
				n++
			}
			for _, p := range s.polys {
				rasterize.DDAPolygon(p, func(x, y int) { add(x, y) })
				rasterize.DDAPolygonBlocks(p, s.bs, func(a, b, y int) { add(a, b, y) }, func(x, y int) { add(x, y) })
				p.Triangulate(func(t geom.Triangle) { add(t.Points[0].X, t.Points[2].Y) })
			}
			for _, t := range s.tris {
				rasterize.DDATriangle(t, func(x, y int) { add(x, y) })
				rasterize.DDATriangleBlocks(t, s.bs, func(a, b, y int) { add(a, b, y) }, func(x, y int) { add(x, y) })
			}
			return fmt.Sprint(h, n)
		case "triangulation", "diagram":
			pl := wl.NewPlacer(r, s.w, s.h, r.Intn(wl.NumStyles))
			m := s.dm.clone()
			if kind == "triangulation" {
				d := incrdelaunay.NewDelaunay(s.w, s.h)
				d.Set(s.d)
				for i := 0; i < 40; i++ {
					if r.Intn(12) == 0 {
						d.Set(s.d)
						m = s.dm.clone()
					}
					if len(m.list) > 0 && r.Intn(2) == 0 {
						d.Remove(wl.Pt(m.removeAt(r.Intn(len(m.list)))))
					} else {
						p := pl.Next()
						m.add(p)
						d.Insert(wl.Pt(p))
					}
				}
				out := ""
				incrdelaunay.Voronoi(d, func(p []incrdelaunay.FloatPoint) { out += fmt.Sprint(p) }, s.w, s.h)
				return sortedTris(trianglesOf(d)) + hashOf(out)
			}
			v := incrdelaunay.NewVoronoi(s.w, s.h)
			v.Set(s.v)
			for i := 0; i < 20; i++ {
				if r.Intn(8) == 0 {
					v.Set(s.v)
					m = s.dm.clone()
				}
				if len(m.list) > 0 && r.Intn(2) == 0 {
					v.Remove(wl.Pt(m.removeAt(r.Intn(len(m.list)))))
				} else {
					p := pl.Next()
					m.add(p)
					v.Insert(wl.Pt(p))
				}
			}
			return hashOf(canonPolys(polysOfV(v)))
		case "read": // queries of the shared structures
			out := ""
			for i := 0; i < 20; i++ {
				p := wl.Pt(wl.NewPlacer(r, s.w, s.h, wl.Uniform).Next())
				if s.d.NumPoints() > 0 {
					// the distance, as several points may be nearest
					out += fmt.Sprint(s.d.HasPoint(p), p.DistSq(s.d.GetClosestTo(p)), " ")
				}
			}
			out += hashOf(sortedTris(trianglesOf(s.d)), canonPolys(polysOfV(s.v)))
			incrdelaunay.Voronoi(s.d, func(p []incrdelaunay.FloatPoint) { out += hashOf(p) }, s.w, s.h)
			g := s.np.Copy()
			g.Set(s.np)
			return out + hashOf(g)
		case "fitness":
			out := ""
			poly := r.Intn(2) == 0
			var f []fitness.CacheFunction
			if poly {
				f = fitness.PolygonsImageFunctions(s.img, s.bs, 2)
			} else {
				f = append(fitness.TrianglesImageFunctions(s.img, s.bs, 1), fitness.NewTrianglesImageFunction(s.img, s.bs))
			}
			pl := wl.NewPlacer(r, s.w, s.h, r.Intn(wl.NumStyles))
			out += fmt.Sprint(f[0].Calculate(fitness.PointsData{Points: s.np}), " ")
			for i := 0; i < 4; i++ {
				b := f[0]
				if i%2 == 0 && s.base != nil {
					b = s.base[0]
					if poly {
						b = s.base[1]
					}
				}
				np := s.np.Copy()
				ms, _ := mutatePoints(r, pl, np, s.w, s.h)
				f[1] = fitness.NewTrianglesImageFunction(s.img, s.bs)
				if poly {
					f[1] = fitness.PolygonsImageFunctions(s.img, s.bs, 1)[0]
				}
				f[1].Calculate(fitness.PointsData{Points: np.Copy()})
				f[1].SetBase(b)
				out += fmt.Sprint(f[1].Calculate(fitness.PointsData{Points: np, Mutations: ms}), " ")
			}
			return out
		case "algorithm":
			n := len(s.np)
			factory := func() normgeom.NormPointGroup {
				p := s.np.Copy()
				for i := range p {
					if r.Intn(2) == 0 {
						p[i] = normgeom.NormPoint{X: r.Float64(), Y: r.Float64()}
					}
				}
				return p
			}
			m := &wild{r, wildStyles[r.Intn(len(wildStyles))]}
			cut := 1 + r.Intn(3)
			size := 2*cut + 1 + r.Intn(5)
			var a algorithm.Algorithm
			power := r.Intn(6)
			if r.Intn(2) == 0 {
				q := &recorder{land: newLand(r, n, false)}
				newEv := func(k int) evaluator.Evaluator {
					var fs []fitness.CacheFunction
					for i := 0; i < k; i++ {
						fs = append(fs, &fake{q: q, id: i})
					}
					return evaluator.NewParallel(fs, power)
				}
				a = algorithm.NewModifiedGenetic(factory, size, cut, newEv, m)
			} else {
				newEv := func(k int) evaluator.Evaluator {
					if r.Intn(2) == 0 {
						return evaluator.NewParallel(fitness.PolygonsImageFunctions(s.img, s.bs, k), power)
					}
					return evaluator.NewParallel(fitness.TrianglesImageFunctions(s.data, s.bs, k), power)
				}
				a = algorithm.NewSimple(factory, size, cut, newEv, m)
			}
			out := ""
			for i := 0; i < 5; i++ {
				a.Step()
				// what a user shows while the next generation runs
				b := a.Best().Copy()
				out += fmt.Sprint(a.Stats().Generation, a.Stats().BestFitness, short(key(b)))
				if i == 2 {
					out += hashOf(render.TrianglesOnImage(triangulation.Triangulate(b, s.w, s.h), s.data))
				}
			}
			return out
		case "generate": // the results are random, their validity is not
			ok := true
			for i := 0; i < 3; i++ {
				for _, g := range []generator.Generator{generator.RandomGenerator{}, generator.NewSpacedGenerator(20)} {
					p := g.Generate(1 + len(s.np))
					ok = ok && len(p) == 1+len(s.np)
					was := p.Copy()
					n := 0
					mutation.NewRandomMethod(0.5, 0.4).Mutate(p, func(m mutation.Mutation) {
						n++
						ok = ok && m.Old == was[m.Index] && m.New == p[m.Index]
						was[m.Index] = m.New
					})
					ok = ok && key(was) == key(p)
					for _, q := range p {
						ok = ok && q.X >= 0 && q.X <= 1 && q.Y >= 0 && q.Y <= 1
					}
				}
			}
			return fmt.Sprint(ok)
		}
		panic("task " + kind)
	}}
}

func runConcurrent(c *mon.Ctx) {
	r := c.R
	rand.Seed(r.Int63())
	s := &shared{}
	s.w, s.h = wl.Size(r, wl.Pick(r, 10, 40, 80))
	s.img, _ = wl.NewImg(r, s.w, s.h)
	s.bs = blockSize(r)
	src := image.NewNRGBA(image.Rect(0, 0, s.w, s.h))
	r.Read(src.Pix)
	s.src = src
	switch r.Intn(3) {
	case 0:
		p := image.NewPaletted(src.Bounds(), nil)
		for i := 0; i < 256; i++ {
			p.Palette = append(p.Palette, src.NRGBAAt(r.Intn(s.w), r.Intn(s.h)))
		}
		r.Read(p.Pix)
		s.src = p
	case 1:
		y := image.NewYCbCr(src.Bounds(), image.YCbCrSubsampleRatio420)
		r.Read(y.Y)
		r.Read(y.Cb)
		r.Read(y.Cr)
		s.src = y
	}
	cold := c.I < coldCases
	only := "" // the kind of a cold case
	if cold {
		only = taskKinds[c.I%len(taskKinds)]
	}
	need := func(kinds ...string) bool {
		for _, k := range kinds {
			if k == only {
				return true
			}
		}
		return !cold
	}
	if need("render", "read", "algorithm") {
		s.data = tri.ToData(s.src)
	}
	n := 1 + r.Intn(wl.Pick(r, 4, 16))
	pl := wl.NewPlacer(r, s.w, s.h, r.Intn(wl.NumStyles))
	np, pts := normPoints(r, pl, n, s.w, s.h)
	s.np = np
	if need("render", "raster") {
		s.tris = triangulation.Triangulate(np, s.w, s.h)
		s.polys = polygonation.Polygonate(np, s.w, s.h)
	}
	s.d, s.v, s.dm = incrdelaunay.NewDelaunay(s.w, s.h), incrdelaunay.NewVoronoi(s.w, s.h), newModel()
	if need("read") {
		for _, p := range pts {
			s.d.Insert(wl.Pt(p))
			s.v.Insert(wl.Pt(p))
			s.dm.add(p)
		}
	}
	if need() {
		s.base = []fitness.CacheFunction{fitness.NewTrianglesImageFunction(s.img, s.bs), fitness.PolygonsImageFunctions(s.img, s.bs, 1)[0]}
		for _, f := range s.base {
			f.Calculate(fitness.PointsData{Points: np})
		}
	}
	k := 2 + r.Intn(7)
	var ts []task
	one := taskKinds[r.Intn(len(taskKinds))]
	if cold {
		one = only
	}
	same := cold || r.Intn(2) == 0 // many of one kind meet in the same code
	seed := r.Int63()
	desc := ""
	for i := 0; i < k; i++ {
		kind := taskKinds[r.Intn(len(taskKinds))]
		if same && (cold || r.Intn(5) != 0) {
			kind = one
		}
		if r.Intn(3) != 0 {
			seed = r.Int63()
		}
		ts = append(ts, newTask(s, kind, seed))
		desc += kind + " "
		c.Obs("task_"+kind, 1)
	}
	c.Note("%dx%d, %d points, block size %d: %s", s.w, s.h, n, s.bs, desc)
	want := make([]string, k)
	alone := func() {
		for i, t := range ts {
			want[i] = t.run()
		}
	}
	if !cold {
		alone()
	}
	old := runtime.GOMAXPROCS(wl.Pick(r, 2, 4, 8))
	defer runtime.GOMAXPROCS(old)
	rounds := 2
	for round := 0; round < rounds; round++ {
		got := make([]string, k)
		begin := make([]time.Time, k)
		end := make([]time.Time, k)
		paniced := make([]interface{}, k)
		gate := make(chan struct{})
		var wg sync.WaitGroup
		for i := range ts {
			wg.Add(1)
			i := i
			go func() {
				defer wg.Done()
				defer func() { paniced[i] = recover(); end[i] = time.Now() }()
				<-gate
				begin[i] = time.Now()
				got[i] = ts[i].run()
			}()
		}
		close(gate)
		wg.Wait()
		if cold && round == 0 { // the process had not run these tasks before
			c.Obs("cold_starts", 1)
			alone()
		}
		over := 0
		for i := range ts {
			for j := range ts {
				if i != j && begin[i].Before(end[j]) && begin[j].Before(end[i]) {
					over++
					break
				}
			}
		}
		c.Obs("overlapping_tasks", over)
		for i := range ts {
			c.Check(paniced[i] == nil, "%dx%d, points %v: task %d (%s) panics when run together with [%s]: %v", s.w, s.h, pts, i, ts[i].kind, desc, paniced[i])
			c.Check(got[i] == want[i], "%dx%d, points %v: task %d (%s) has result %.300s alone and %.300s when run together with [%s]", s.w, s.h, pts, i, ts[i].kind, want[i], got[i], desc)
			c.Obs("compared_results", 1)
		}
		c.Eval(over > 1, desc, got)
	}
}
