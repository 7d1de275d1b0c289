package props

import (
	"fmt"
	"image"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sync/atomic"
	"time"

	"github.com/RH12503/Triangula/algorithm"
	"github.com/RH12503/Triangula/algorithm/evaluator"
	"github.com/RH12503/Triangula/fitness"
	"github.com/RH12503/Triangula/generator"
	tri "github.com/RH12503/Triangula/image"
	"github.com/RH12503/Triangula/mutation"
	"github.com/RH12503/Triangula/normgeom"
	"github.com/RH12503/Triangula/polygonation"
	"github.com/RH12503/Triangula/random"
	"github.com/RH12503/Triangula/render"
	"github.com/RH12503/Triangula/triangulation"
	"github.com/RH12503/Triangula/triangulation/incrdelaunay"
	"github.com/RH12503/Triangula/utils"

	"verif/harness/mon"
	"verif/harness/wl"
)

func init() {
	mon.Register(&mon.Prop{
		ID: "T25", Quick: 288, Thorough: 720,
		Rule: "one case = one long life of one kind of object with a bounded amount of live content: a triangulation or diagrams under 80000 or 6000 edits and copies, an algorithm over thousands of generations, hundreds of algorithms created and dropped, a writer over thousands of batches, or the stateless functions called thousands of times; the live heap (after two collections), the number of goroutines and of open files are measured at a quarter, half, three quarters and the end, and the result at the end is compared with the definition; non-trivial = all four measurements were made; distinct by kind and drawn parameters",
		Assume: []string{
			"growth of at most 64 kB between the first quarter and the end is the slow approach of reused buffers to their largest size, more is a leak",
			"the heap is what Go's runtime reports after two forced collections",
		},
		Run:      runLife,
		Watchdog: 150 * time.Second,
		MinObs:   map[string]int64{"delaunay_ops": 500000, "voronoi_ops": 40000, "generations": 50000, "measurements": 500, "algorithms_dropped": 1000, "batches": 5000, "fresh_copies": 3000, "noise_measured": 20},
	})
}

// life measures what the process holds.
type life struct {
	c     *mon.Ctx
	what  string
	slack int64
	heap  []int64
	gor   []int
	fds   []int
}

func openFiles() int {
	e, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return 0
	}
	return len(e)
}

func (l *life) measure() {
	var m runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&m)
	l.heap = append(l.heap, int64(m.HeapAlloc))
	l.gor = append(l.gor, runtime.NumGoroutine())
	l.fds = append(l.fds, openFiles())
	l.c.Obs("measurements", 1)
}

// grew is a measurement that has to be repeated before it counts.
type grew struct{ msg string }

func (l *life) need(ok bool, f string, a ...interface{}) {
	if !ok {
		panic(grew{fmt.Sprintf(f, a...)})
	}
}

// bounded compares the measurements at the end with those after the first quarter.
func (l *life) bounded(workers int) {
	n := len(l.heap) - 1
	l.c.Note("%s: live heap %v, goroutines %v, open files %v", l.what, l.heap, l.gor, l.fds)
	l.need(l.heap[n]-l.heap[0] <= l.slack, "%s: the live heap after collection grew from %d to %d bytes (%v at the quarters) though the live content did not", l.what, l.heap[0], l.heap[n], l.heap)
	l.need(l.gor[n] <= l.gor[0]+workers, "%s: the number of goroutines grew from %d to %d (%v at the quarters)", l.what, l.gor[0], l.gor[n], l.gor)
	l.need(l.fds[n] <= l.fds[0]+1, "%s: the number of open files grew from %d to %d (%v at the quarters)", l.what, l.fds[0], l.fds[n], l.fds)
	g := l.heap[n] - l.heap[0]
	switch {
	case g <= 0:
		l.c.Obs("heap_did_not_grow", 1)
	case g > l.slack/2:
		l.c.Obs("heap_grew_half_of_slack", 1)
	}
	l.c.Eval(n == 3, l.what)
}

// runLife repeats a life whose measurements grew: what a leak holds grows again, caches of
// the Go runtime (of blocked goroutines, of dead ones, per processor) fill up only once.
func runLife(c *mon.Ctx) {
	runtime.GOMAXPROCS(2) // fewer of these caches
	seed := c.R.Int63()
	msg := ""
	for i := 0; i < 4; i++ {
		c.R = rand.New(rand.NewSource(seed))
		if msg = liveOnce(c); msg == "" {
			return
		}
		c.Obs("lives_repeated", 1)
		c.Note("repeated, because %s", msg)
	}
	c.Fail("four times in a row, %s", msg)
}

func liveOnce(c *mon.Ctx) (msg string) {
	defer func() {
		if e := recover(); e != nil {
			g, ok := e.(grew)
			if !ok {
				panic(e)
			}
			msg = g.msg
		}
	}()
	oneLife(c)
	return ""
}

func oneLife(c *mon.Ctx) {
	switch c.I / 8 % 9 { // all shards do the same kind of thing at a time
	case 0, 5:
		lifeDelaunay(c)
	case 1, 6:
		lifeVoronoi(c)
	case 2, 7, 8:
		lifeAlgorithm(c)
	case 3:
		if c.I%2 == 0 {
			lifeDropped(c)
		} else {
			lifeOutput(c)
		}
	default:
		lifeStateless(c)
	}
}

// flow is what a long history of one object looks like.
func lifeDelaunay(c *mon.Ctx) {
	r := c.R
	w, h := wl.Size(r, wl.Pick(r, 8, 30, 200, 1500))
	fresh := r.Intn(2) == 0
	style := r.Intn(wl.NumStyles)
	pl := wl.NewPlacer(r, w, h, style)
	n := 1 + r.Intn(wl.Pick(r, 6, 30, 80))
	k := wl.Pick(r, 1, 1, 2, 3)
	ops := 80000
	if c.Thorough() {
		ops = 400000
	}
	l := &life{c: c, what: fmt.Sprintf("%d triangulations of %dx%d with up to %d points each, %s, %d edits", k, w, h, n, wl.StyleName(style), ops), slack: 64 << 10}
	c.Note("%s", l.what)
	ds := make([]*incrdelaunay.Delaunay, k)
	ms := make([]*model, k)
	for i := range ds {
		ds[i], ms[i] = incrdelaunay.NewDelaunay(w, h), newModel()
	}
	check := func() {
		for i, d := range ds {
			pts := ms[i].points()
			msg, _, _ := checkTris(trianglesOf(d), pts, need(w, h))
			c.Check(msg == "", "%s: triangulation %d with points %v: %s", l.what, i, pts, msg)
			c.Check(d.NumPoints() == len(ms[i].list), "%s: triangulation %d counts %d points, there are %d", l.what, i, d.NumPoints(), len(ms[i].list))
		}
	}
	for op := 0; op < ops; op++ {
		i := r.Intn(k)
		d, m := ds[i], ms[i]
		switch q := r.Intn(400); {
		case q < 4 && k > 1:
			j := (i + 1 + r.Intn(k-1)) % k
			d.Set(ds[j])
			ms[i] = ms[j].clone()
		case q < 8 && fresh: // a lineage of copies
			n := incrdelaunay.NewDelaunay(w, h)
			n.Set(d)
			ds[i] = n
			c.Obs("fresh_copies", 1)
		case q < 9:
			for len(m.list) > 0 {
				d.Remove(wl.Pt(m.removeAt(r.Intn(len(m.list)))))
			}
		case len(m.list) >= n || len(m.list) > 0 && q < 100:
			d.Remove(wl.Pt(m.removeAt(r.Intn(len(m.list)))))
		default:
			p := pl.Next()
			if len(m.list) > 0 && q < 130 {
				p = m.list[r.Intn(len(m.list))]
			}
			m.add(p)
			d.Insert(wl.Pt(p))
		}
		if (op+1)%(ops/4) == 0 {
			l.measure()
			check()
		}
	}
	c.Obs("delaunay_ops", ops)
	l.bounded(0)
	runtime.KeepAlive(ds)
	runtime.KeepAlive(ms)
}

func lifeVoronoi(c *mon.Ctx) {
	r := c.R
	w, h := wl.Size(r, wl.Pick(r, 30, 200, 900))
	fresh := r.Intn(2) == 0
	style := r.Intn(wl.NumStyles)
	pl := wl.NewPlacer(r, w, h, style)
	n := 1 + r.Intn(wl.Pick(r, 6, 20))
	k := wl.Pick(r, 1, 2, 3)
	ops := 6000
	if c.Thorough() {
		ops = 40000
	}
	l := &life{c: c, what: fmt.Sprintf("%d diagrams of %dx%d with up to %d points each, %s, %d edits", k, w, h, n, wl.StyleName(style), ops), slack: 64 << 10}
	c.Note("%s", l.what)
	vs := make([]*incrdelaunay.IVoronoi, k)
	ms := make([]*model, k)
	for i := range vs {
		vs[i], ms[i] = incrdelaunay.NewVoronoi(w, h), newModel()
	}
	for op := 0; op < ops; op++ {
		i := r.Intn(k)
		v, m := vs[i], ms[i]
		switch q := r.Intn(400); {
		case q < 12 && k > 1:
			j := (i + 1 + r.Intn(k-1)) % k
			v.Set(vs[j])
			ms[i] = ms[j].clone()
		case q < 20 && fresh:
			n := incrdelaunay.NewVoronoi(w, h)
			n.Set(v)
			vs[i] = n
			c.Obs("fresh_copies", 1)
		case q < 22:
			for len(m.list) > 0 {
				v.Remove(wl.Pt(m.removeAt(r.Intn(len(m.list)))))
			}
		case len(m.list) >= n || len(m.list) > 0 && q < 100:
			v.Remove(wl.Pt(m.removeAt(r.Intn(len(m.list)))))
		default:
			p := pl.Next()
			if len(m.list) > 0 && q < 130 {
				p = m.list[r.Intn(len(m.list))]
			}
			m.add(p)
			v.Insert(wl.Pt(p))
		}
		if (op+1)%(ops/4) == 0 {
			l.measure()
			for i, v := range vs {
				pts := ms[i].points()
				msg := matchCells(polysOfV(v), pts, w, h, 0.01, false)
				c.Check(msg == "", "%s: diagram %d, points %v: %s", l.what, i, pts, msg)
			}
		}
	}
	c.Obs("voronoi_ops", ops)
	l.bounded(0)
	runtime.KeepAlive(vs)
	runtime.KeepAlive(ms)
}

// noise is a fitness function that finds improvements for ever.
type noise struct{ n uint64 }

func (f *noise) Calculate(fitness.PointsData) float64 {
	x := atomic.AddUint64(&f.n, 0x9E3779B97F4A7C15)
	x ^= x >> 31
	x *= 0xBF58476D1CE4E5B9
	x ^= x >> 29
	return float64(x>>11) / (1 << 53)
}

// lifeAlgo makes an algorithm over a small image.
func lifeAlgo(r *rand.Rand, img *wl.Img, noisy, poly bool, n, size, cut, power int) algorithm.Algorithm {
	bs := blockSize(r)
	newEv := func(k int) evaluator.Evaluator {
		if noisy {
			f := &noise{}
			if k%2 == 0 {
				return evaluator.NewMany(func() fitness.Function { return f }, k)
			}
			return evaluator.NewOne(f)
		}
		if poly {
			return evaluator.NewParallel(fitness.PolygonsImageFunctions(img, bs, k), power)
		}
		return evaluator.NewParallel(fitness.TrianglesImageFunctions(img, bs, k), power)
	}
	var m mutation.Method
	switch r.Intn(3) {
	case 0:
		m = mutation.DefaultGaussianMethod(n)
	case 1:
		m = mutation.NewGaussianMethod(2/float64(n), 0.3)
	default:
		m = mutation.NewRandomMethod(2/float64(n), 0.5)
	}
	factory := func() normgeom.NormPointGroup { return (generator.RandomGenerator{}).Generate(n) }
	if r.Intn(2) == 0 {
		return algorithm.NewModifiedGenetic(factory, size, cut, newEv, m)
	}
	return algorithm.NewSimple(factory, size, cut, newEv, m)
}

func lifeAlgorithm(c *mon.Ctx) {
	r := c.R
	seed := r.Int63()
	rand.Seed(seed)
	random.Seed(seed)
	w, h := wl.Size(r, wl.Pick(r, 12, 40))
	img, _ := wl.NewImg(r, w, h)
	poly := r.Intn(3) == 0
	n := 2 + r.Intn(wl.Pick(r, 4, 10))
	cut := 1 + r.Intn(3)
	size := 2*cut + 1 + r.Intn(5)
	power := r.Intn(6)
	gens := 12000
	if poly {
		gens = 5000
	}
	if c.Thorough() {
		gens *= 8
	}
	noisy := r.Intn(3) == 0
	a := lifeAlgo(r, img, noisy, poly, n, size, cut, power)
	l := &life{c: c, what: fmt.Sprintf("%T, noise %v, regions %v, %dx%d, %d points, population %d, cutoff %d, cache 2^%d, %d generations", a, noisy, poly, w, h, n, size, cut, power, gens), slack: 64 << 10}
	c.Note("%s", l.what)
	last := a.Stats().BestFitness
	for g := 1; g <= gens; g++ {
		a.Step()
		s := a.Stats()
		c.Check(s.Generation == g, "%s: after %d steps the generation is %d", l.what, g, s.Generation)
		c.Check(noisy || s.BestFitness >= last, "%s: the best fitness fell from %v to %v in generation %d", l.what, last, s.BestFitness, g)
		last = s.BestFitness
		if g%(gens/4) == 0 {
			l.measure()
			if noisy {
				c.Obs("noise_measured", 1)
				continue
			}
			np := a.Best().Copy()
			amb := false
			for i, p := range np {
				c.Check(p.X >= 0 && p.X <= 1 && p.Y >= 0 && p.Y <= 1, "%s, generation %d: best point %d is %v", l.what, g, i, p)
				amb = amb || wl.Ambiguous(p, w, h)
			}
			if amb {
				continue
			}
			var want values
			var ok bool
			if poly {
				want, ok = polyFitness(img, np)
			} else {
				want, ok = triFitness(img, pixels(np, w, h), false)
			}
			if ok {
				c.Check(want.has(last), "%s: in generation %d the best fitness is said to be %.14f, the definition gives %v; points %v", l.what, g, last, want, pixels(np, w, h))
				c.Obs("fitness_checked_late", 1)
			}
		}
	}
	c.Obs("generations", gens)
	l.bounded(size + 4)
	runtime.KeepAlive(a)
}

// lifeDropped makes and drops algorithms: nothing of them may remain.
func lifeDropped(c *mon.Ctx) {
	r := c.R
	seed := r.Int63()
	rand.Seed(seed)
	random.Seed(seed)
	w, h := wl.Size(r, 30)
	img, _ := wl.NewImg(r, w, h)
	k := 240
	l := &life{c: c, what: fmt.Sprintf("%d algorithms on a %dx%d image created, stepped and dropped", k, w, h), slack: 64 << 10}
	c.Note("%s", l.what)
	for i := 1; i <= k; i++ {
		cut := 1 + r.Intn(3)
		a := lifeAlgo(r, img, r.Intn(5) == 0, r.Intn(2) == 0, 2+r.Intn(8), 2*cut+1+r.Intn(6), cut, r.Intn(8))
		for s := r.Intn(4); s > 0; s-- {
			a.Step()
		}
		a.Best()
		a = nil
		if i%(k/4) == 0 {
			l.measure()
		}
	}
	c.Obs("algorithms_dropped", k)
	l.bounded(16)
}

func lifeOutput(c *mon.Ctx) {
	r := c.R
	dir, err := os.MkdirTemp("", "mon-T25-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		panic(err)
	}
	old := os.Stdout
	os.Stdout = null
	defer func() { os.Stdout = old; null.Close() }()
	a := newOutAlgo(r, false)
	if len(a.cur.pts) > 300 {
		a.cur.pts = a.cur.pts[:300]
	}
	reps := wl.Pick(r, 1, 2, 4)
	batches := 1200
	runner := r.Intn(4) == 0
	l := &life{c: c, what: fmt.Sprintf("writer over %d batches of %d steps (console %v)", batches, reps, runner), slack: 64 << 10}
	c.Note("%s", l.what)
	a.vary = false
	a.at = func(step int) {
		if step > 0 && step%(reps*batches/4) == 0 {
			l.measure()
			if len(l.heap) == 4 {
				panic(interrupted{})
			}
		}
	}
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(interrupted); !ok {
					panic(e)
				}
			}
		}()
		if runner {
			utils.RunAlgorithm(a, reps)
		} else {
			utils.GenerateAlgorithmOutput(filepath.Join(dir, "out"), a, reps)
		}
	}()
	c.Obs("batches", batches)
	l.bounded(1)
}

func lifeStateless(c *mon.Ctx) {
	r := c.R
	seed := r.Int63()
	rand.Seed(seed)
	random.Seed(seed)
	w, h := wl.Size(r, 40)
	img, _ := wl.NewImg(r, w, h)
	src := image.NewNRGBA(image.Rect(0, 0, w, h))
	r.Read(src.Pix)
	n := 1 + r.Intn(30)
	k := 1200
	if c.Thorough() {
		k *= 8
	}
	l := &life{c: c, what: fmt.Sprintf("the stateless functions %d times on a %dx%d image with %d points", k, w, h, n), slack: 64 << 10}
	c.Note("%s", l.what)
	sp := generator.NewSpacedGenerator(10)
	mu := mutation.NewGaussianMethod(0.5, 0.3)
	mr := mutation.NewRandomMethod(0.5, 0.3)
	for i := 1; i <= k; i++ {
		var p normgeom.NormPointGroup
		if i%8 == 0 {
			p = sp.Generate(n)
		} else {
			p = (generator.RandomGenerator{}).Generate(n)
		}
		p = p.Copy()
		mu.Mutate(p, func(mutation.Mutation) {})
		mr.Mutate(p, func(mutation.Mutation) {})
		d := tri.ToData(src)
		render.TrianglesOnImage(triangulation.Triangulate(p, w, h), d)
		render.PolygonsOnImage(polygonation.Polygonate(p, w, h), d)
		fitness.NewTrianglesImageFunction(img, 3).Calculate(fitness.PointsData{Points: p})
		fitness.PolygonsImageFunctions(img, 3, 1)[0].Calculate(fitness.PointsData{Points: p})
		incrdelaunay.Voronoi(incrdelaunay.NewDelaunay(w, h), func([]incrdelaunay.FloatPoint) {}, w, h)
		if i%(k/4) == 0 {
			l.measure()
		}
	}
	c.Obs("stateless_rounds", k)
	l.bounded(0)
}
