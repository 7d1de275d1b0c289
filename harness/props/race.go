package props

import (
	"fmt"
	"math/rand"
	"runtime"
	"time"

	"github.com/RH12503/Triangula/algorithm"
	"github.com/RH12503/Triangula/algorithm/evaluator"
	"github.com/RH12503/Triangula/fitness"
	"github.com/RH12503/Triangula/generator"
	"github.com/RH12503/Triangula/mutation"
	"github.com/RH12503/Triangula/normgeom"
	"github.com/RH12503/Triangula/random"

	"verif/harness/mon"
	"verif/harness/wl"
)

func init() {
	mon.Register(&mon.Prop{
		ID: "T15", Quick: 800, Thorough: 24000,
		Rule: "one case = one configuration (algorithm, triangles or regions, image, population 4-40, cache 2^0..2^16) run in a race-detector build: either once with the functions untouched, or several times from the same seeds under different processor counts and completion delays, comparing the sequence of best members and fitness values bit for bit; non-trivial = runs were compared, or members were evaluated in parallel; distinct by configuration and result",
		Assume: []string{
			"the race detector sees the synchronisation of the Go runtime and the worker pool",
			"the combining algorithm is compared with a synthetic fitness function: with the real one the order of its combined edits may legitimately choose other diagonals among cocircular points",
		},
		Run:      runRace,
		Watchdog: 90 * time.Second,
		MinObs:   map[string]int64{"raw_runs": 150, "compared_runs": 500, "generations": 5000},
	})
}

// delayed wraps a real function with delays; it uses no synchronisation of its own.
type delayed struct {
	fitness.CacheFunction
	x    uint64
	mode int
}

func (d *delayed) wait() {
	d.x ^= d.x << 13
	d.x ^= d.x >> 7
	d.x ^= d.x << 17
	switch d.mode {
	case 1:
		for i := d.x % 4; i > 0; i-- {
			runtime.Gosched()
		}
	case 2:
		if d.x%3 == 0 {
			time.Sleep(time.Duration(d.x>>8%300) * time.Microsecond)
		}
	case 3:
		if d.x%16 == 0 {
			time.Sleep(time.Duration(d.x>>8%1500) * time.Microsecond)
		}
	}
}

func (d *delayed) Calculate(p fitness.PointsData) float64 {
	d.wait()
	f := d.CacheFunction.Calculate(p)
	d.wait()
	return f
}

func (d *delayed) SetBase(o fitness.CacheFunction) {
	d.CacheFunction.SetBase(o.(*delayed).CacheFunction)
}

type raceCfg struct {
	modified, poly, synth bool
	size, cut, n          int
	power, bs             int
	gens                  int
	img                   *wl.Img
	seed                  int64
	mut                   int
	land                  *land
}

func (g raceCfg) String() string {
	return fmt.Sprintf("combining %v, regions %v, synthetic %v, population %d, cutoff %d, %d points, cache 2^%d, block size %d, %d generations, %dx%d, mutation %d", g.modified, g.poly, g.synth, g.size, g.cut, g.n, g.power, g.bs, g.gens, g.img.W, g.img.H, g.mut)
}

// exec runs the configuration and returns the best members and fitness values per step.
func (g raceCfg) exec(delayMode int, dseed int64) []string {
	rand.Seed(g.seed)
	random.Seed(g.seed)
	factory := func() normgeom.NormPointGroup { return (generator.RandomGenerator{}).Generate(g.n) }
	newEv := func(n int) evaluator.Evaluator {
		var fs []fitness.CacheFunction
		switch {
		case g.synth:
			q := &recorder{land: g.land}
			if delayMode > 0 {
				q.delay = delayer(dseed, 1+delayMode%4)
			}
			for i := 0; i < n; i++ {
				fs = append(fs, &fake{q: q, id: i})
			}
			return evaluator.NewParallel(fs, g.power)
		case g.poly:
			fs = fitness.PolygonsImageFunctions(g.img, g.bs, n)
		default:
			fs = fitness.TrianglesImageFunctions(g.img, g.bs, n)
		}
		if delayMode > 0 {
			for i := range fs {
				fs[i] = &delayed{fs[i], uint64(dseed)*2654435761 + uint64(i)*0x9E3779B97F4A7C15 + 1, delayMode}
			}
		}
		return evaluator.NewParallel(fs, g.power)
	}
	var m mutation.Method
	switch g.mut {
	case 0:
		m = mutation.NewGaussianMethod(2/float64(g.n), 0.3)
	case 1:
		m = mutation.NewRandomMethod(2/float64(g.n), 0.5)
	case 2:
		m = mutation.DefaultGaussianMethod(g.n)
	default:
		m = &wild{rand.New(rand.NewSource(g.seed)), wildStyles[g.mut%len(wildStyles)]}
	}
	var a algorithm.Algorithm
	if g.modified {
		a = algorithm.NewModifiedGenetic(factory, g.size, g.cut, newEv, m)
	} else {
		a = algorithm.NewSimple(factory, g.size, g.cut, newEv, m)
	}
	var out []string
	for i := 0; ; i++ {
		s := a.Stats()
		out = append(out, fmt.Sprintf("generation %d: fitness %v, best %s", s.Generation, s.BestFitness, short(key(a.Best()))))
		if i == g.gens {
			return out
		}
		a.Step()
	}
}

func runRace(c *mon.Ctx) {
	r := c.R
	g := raceCfg{}
	w, h := wl.Size(r, wl.Pick(r, 20, 60, 120))
	g.img, _ = wl.NewImg(r, w, h)
	g.poly = r.Intn(2) == 0
	g.modified = r.Intn(2) == 0
	raw := c.I%3 == 0
	g.synth = !raw && (g.modified || r.Intn(4) == 0)
	g.cut = 1 + r.Intn(5)
	g.size = 2*g.cut + 1 + r.Intn(wl.Pick(r, 4, 12, 28))
	g.n = 1 + r.Intn(wl.Pick(r, 4, 12, 30))
	g.power = wl.Pick(r, 0, 1, 4, 8, 16)
	g.bs = blockSize(r)
	g.gens = 3 + r.Intn(8)
	g.seed = r.Int63()
	g.mut = r.Intn(14)
	g.land = newLand(r, g.n, false)
	if raw {
		g.gens *= 2
	}
	c.Note("%v", g)
	old := runtime.GOMAXPROCS(0)
	defer runtime.GOMAXPROCS(old)
	c.Obs("generations", g.gens)
	if raw {
		procs := wl.Pick(r, 2, 4, 8)
		runtime.GOMAXPROCS(procs)
		out := g.exec(0, 0)
		c.Obs("raw_runs", 1)
		c.Eval(true, g.String(), out)
		return
	}
	var ref []string
	k := 3
	for i := 0; i < k; i++ {
		procs := []int{8, 1, 3}[i]
		mode := []int{r.Intn(4), 1 + r.Intn(3), r.Intn(4)}[i]
		runtime.GOMAXPROCS(procs)
		out := g.exec(mode, r.Int63())
		if i == 0 {
			ref = out
			continue
		}
		for j := range ref {
			c.Check(ref[j] == out[j], "%v: two runs from the same seeds differ (8 processors: %s; %d processors, delays %d: %s)", g, ref[j], procs, mode, out[j])
		}
		c.Obs("compared_runs", 1)
	}
	c.Eval(true, g.String(), ref)
}
