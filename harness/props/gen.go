package props

import (
	"fmt"
	"math"
	"math/rand"
	"sort"

	"github.com/RH12503/Triangula/generator"
	"github.com/RH12503/Triangula/mutation"
	"github.com/RH12503/Triangula/normgeom"
	"github.com/RH12503/Triangula/random"

	"verif/harness/mon"
	"verif/harness/wl"
)

func init() {
	stat := "statistical bounds are 6 standard deviations (chi-square: 8) on PRNG-determined samples, so that a correct distribution does not fail by chance"
	mon.Register(&mon.Prop{
		ID: "T16", Quick: 3000, Thorough: 200000,
		Rule:   "one case = one mutation method (uniform, gaussian, default) with PRNG-drawn rate and amount applied several times to a point group; callbacks are compared with the points before and after; every 8th case measures rate and size distributions on 40000 points; non-trivial = at least one point was mutated; distinct by resulting points",
		Assume: []string{stat, "points are in [0,1]"},
		Run:    runMutation,
		MinObs: map[string]int64{"mutations": 1000000, "clamped": 20000, "rate_measured": 200, "size_measured": 100, "spread_measured": 100, "rate_zero": 200, "rate_one": 200},
	})
	mon.Register(&mon.Prop{
		ID: "T17", Quick: 8000, Thorough: 240000,
		Rule:   "one case = several groups drawn from one generator with PRNG-drawn numbers of points and iterations; counts, range, distinctness and independence are checked on all, uniformity (chi-square on 10x10 cells, pooled) and spacing (mean nearest-neighbour distance against random points, in each quarter of the group, also of 2 to 10 points) on a share; non-trivial = group of at least two points; distinct by points",
		Assume: []string{stat, "at least one point is requested", "spacing is only required from 60 iterations per point (2000 for up to ten points) on"},
		Run:    runGenerator,
		MinObs: map[string]int64{"groups": 5000, "uniformity_measured": 50, "spacing_measured": 100, "small_spacing_measured": 100, "single_point": 50},
	})
	mon.Register(&mon.Prop{
		ID: "T20", Quick: 160, Thorough: 3200,
		Rule:   "one case = one seed under one kind of observation: replay of interleaved calls, integer bounds (small, prime, powers of two, around 2^31 and up to 2^32-1), floats (also how many are distinct), pairs of bits of 63-bit integers, or 80 million normal numbers in 520 classes cut at the layers of the ziggurat; non-trivial = a distribution or replay was compared; distinct by seed and kind",
		Assume: []string{stat, "bounds are 1 to 2^32-1"},
		Run:    runRandom,
		MinObs: map[string]int64{"replays": 20, "bounds": 200, "floats": 10000000, "normals": 100000000, "normals_in_tail": 50000, "seeds_at_the_top": 10},
	})
}

func checkMut(c *mon.Ctx, what string, before, after normgeom.NormPointGroup, ms []mutation.Mutation) {
	c.Check(len(before) == len(after), "%s: the group had %d points and has %d", what, len(before), len(after))
	seen := map[int]bool{}
	for _, m := range ms {
		c.Check(m.Index >= 0 && m.Index < len(before), "%s: index %d is reported for a group of %d", what, m.Index, len(before))
		c.Check(!seen[m.Index], "%s: point %d is reported twice", what, m.Index)
		seen[m.Index] = true
		c.Check(m.Old == before[m.Index], "%s: point %d was %v, the callback says %v", what, m.Index, before[m.Index], m.Old)
		c.Check(m.New == after[m.Index], "%s: point %d is %v, the callback says %v", what, m.Index, after[m.Index], m.New)
		n := m.New
		if n.X == 0 || n.X == 1 || n.Y == 0 || n.Y == 1 {
			c.Obs("clamped", 1)
		}
	}
	for i := range after {
		q := after[i]
		c.Check(q.X >= 0 && q.X <= 1 && q.Y >= 0 && q.Y <= 1, "%s: point %d left the unit square: %v", what, i, q)
		c.Check(seen[i] || after[i] == before[i], "%s: point %d changed from %v to %v without a callback", what, i, before[i], after[i])
	}
	c.Obs("mutations", len(ms))
}

// seeds whose first 32-bit value is among the 128 largest
var topSeeds = []int64{90327987, 175781937, 234057756, 391188818, 315860288, 492875967, 461642585, 367011592, 499965428, 549918045, 443114483, 564543408}

func runMutation(c *mon.Ctx) {
	r := c.R
	seed := r.Int63()
	if c.I < len(topSeeds) {
		seed = topSeeds[c.I]
	}
	random.Seed(seed)
	rand.Seed(seed)
	if c.I%8 == 7 {
		mutationStats(c)
		return
	}
	n := wl.Pick(r, 1, 2, 5, 20, 100, 400)
	pts := make(normgeom.NormPointGroup, n)
	for i := range pts {
		f := func() float64 {
			switch r.Intn(6) {
			case 0:
				return float64(r.Intn(2))
			case 1:
				return r.Float64() * 1e-6
			}
			return r.Float64()
		}
		pts[i] = normgeom.NormPoint{X: f(), Y: f()}
		if i > 0 && r.Intn(8) == 0 {
			pts[i] = pts[r.Intn(i)]
		}
	}
	rate := r.Float64()
	switch r.Intn(5) {
	case 0:
		rate = 0
		c.Obs("rate_zero", 1)
	case 1:
		rate = 1
		if r.Intn(2) == 0 {
			rate = 1 + r.Float64()*5
		}
		c.Obs("rate_one", 1)
	}
	amount := []float64{0, 1e-9, 0.01, 0.3, 1, 3, 50, r.Float64()}[r.Intn(8)]
	kind := r.Intn(3)
	if c.I < len(topSeeds) {
		kind, rate = 0, 1
	}
	var m mutation.Method
	what := ""
	switch kind {
	case 0:
		m, what = mutation.NewGaussianMethod(rate, amount), "gaussian"
	case 1:
		m, what = mutation.NewRandomMethod(rate, amount), "uniform"
	case 2:
		m, what = mutation.DefaultGaussianMethod(n), "default"
		rate = math.NaN()
		if n <= 2 {
			rate = 1
		}
	}
	what = fmt.Sprintf("%s mutation with rate %v and amount %v", what, rate, amount)
	c.Note("%s of %d points, seed %d", what, n, seed)
	for k := 0; k < 4; k++ {
		before := pts.Copy()
		var ms []mutation.Mutation
		m.Mutate(pts, func(x mutation.Mutation) {
			if x.Index >= 0 && x.Index < len(pts) && pts[x.Index] != x.New {
				c.Fail("%s: when point %d is reported as %v it is %v", what, x.Index, x.New, pts[x.Index])
			}
			ms = append(ms, x)
		})
		checkMut(c, what, before, pts, ms)
		if rate == 0 {
			c.Check(len(ms) == 0, "%s: %d points were mutated", what, len(ms))
		}
		if rate >= 1 {
			c.Check(len(ms) == n, "%s: %d of %d points were mutated", what, len(ms), n)
		}
		if kind == 1 {
			for _, x := range ms {
				c.Check(math.Abs(x.New.X-x.Old.X) <= amount/2+1e-12 && math.Abs(x.New.Y-x.Old.Y) <= amount/2+1e-12, "%s: point %d moved from %v to %v", what, x.Index, x.Old, x.New)
			}
		}
		c.Eval(len(ms) > 0, what, pts)
	}
}

func mutationStats(c *mon.Ctx) {
	r := c.R
	n := wl.Pick(r, 1, 2, 10, 100, 1000, 40000, 40000)
	rate := 0.02 + 0.96*r.Float64()
	if r.Intn(2) == 0 {
		rate = math.Pow(10, -3+3*r.Float64()) * 0.98
	}
	amount := []float64{0.001, 0.01, 0.05, 0.1}[r.Intn(4)]
	kind := r.Intn(3)
	var m mutation.Method
	what := ""
	calls := int(math.Min(300000, math.Max(40000, 5000/rate)))/n + 1
	switch kind {
	case 0:
		m, what = mutation.NewGaussianMethod(rate, amount), "gaussian"
	case 1:
		m, what = mutation.NewRandomMethod(rate, amount), "uniform"
	case 2:
		n = wl.Pick(r, 2, 3, 7, 30, 200)
		m, what = mutation.DefaultGaussianMethod(n), "default"
		calls = 40000/n + 100
		rate = math.Min(1, 2/float64(n))
	}
	what = fmt.Sprintf("%s mutation with rate %v and amount %v of %d points", what, rate, amount, n)
	c.Note("%s, %d calls", what, calls)
	per := make([]int, n)
	hit := 0
	var dx, dy []float64
	// independence: pairs of neighbours, pairs of first and last point, and the
	// spread of the number of mutations per call
	adj, ends, last, quiet := 0, 0, -1, 0
	var hits []int
	lastOfCall := false
	for k := 0; k < calls; k++ {
		pts := make(normgeom.NormPointGroup, n)
		for i := range pts {
			pts[i] = normgeom.NormPoint{X: 0.5, Y: 0.5}
		}
		before := pts.Copy()
		var ms []mutation.Mutation
		m.Mutate(pts, func(x mutation.Mutation) { ms = append(ms, x) })
		checkMut(c, what, before, pts, ms)
		hit += len(ms)
		hits = append(hits, len(ms))
		if len(ms) == 0 {
			quiet++
		}
		last = -2
		for _, x := range ms {
			per[x.Index]++
			if x.Index == last+1 {
				adj++
			}
			last = x.Index
			if x.Index == 0 && lastOfCall {
				ends++
			}
			if kind != 2 {
				dx = append(dx, x.New.X-0.5)
				dy = append(dy, x.New.Y-0.5)
			}
		}
		lastOfCall = last == n-1
	}
	tot := float64(n * calls)
	binom := func(k int, t, p float64, f string, a ...interface{}) {
		z := (float64(k) - t*p) / math.Sqrt(t*p*(1-p)+1)
		c.Check(math.Abs(z) < 8, "%s, %d calls: %s: %d of %.0f, the rate says %.1f (%.1f standard deviations)", what, calls, fmt.Sprintf(f, a...), k, t, t*p, z)
	}
	z := (float64(hit) - tot*rate) / math.Sqrt(tot*rate*(1-rate)+1)
	c.Check(math.Abs(z) < 6, "%s: %d of %.0f points were mutated (%.1f standard deviations from the rate)", what, hit, tot, z)
	// neighbouring pairs overlap: their number has variance of at most three times that of independent ones
	adjT := float64((n - 1) * calls)
	if za := (float64(adj) - adjT*rate*rate) / math.Sqrt(3*adjT*rate*rate+1); n > 1 {
		c.Check(math.Abs(za) < 8, "%s, %d calls: %d neighbouring points were mutated together, the rate says %.1f of %.0f", what, calls, adj, adjT*rate*rate, adjT)
	}
	binom(ends, float64(calls-1), rate*rate, "the last point of a call and the first of the next were both mutated")
	binom(quiet, float64(calls), math.Pow(1-rate, float64(n)), "calls without a mutation")
	if calls >= 400 {
		// the spread of the number of mutations per call
		mu, v := float64(n)*rate, float64(n)*rate*(1-rate)
		s2 := 0.
		for _, k := range hits {
			s2 += (float64(k) - mu) * (float64(k) - mu)
		}
		s2 /= float64(calls)
		m4 := v * (1 + 3*v) // bounds the fourth central moment
		c.Check(math.Abs(s2-v) < 8*math.Sqrt(m4/float64(calls))+1e-3, "%s, %d calls: the number of mutations per call has variance %v, the rate says %v", what, calls, s2, v)
		c.Obs("spread_measured", 1)
	}
	if kind != 2 && n <= 1000 {
		for i, p := range per {
			binom(p, float64(calls), rate, "point %d was mutated", i)
		}
	}
	if kind == 2 {
		for i, p := range per {
			t := float64(calls)
			z := (float64(p) - t*rate) / math.Sqrt(t*rate*(1-rate)+1)
			c.Check(math.Abs(z) < 8, "%s: point %d was mutated %d of %d times", what, i, p, calls)
		}
	} else if n > 1 && n%2 == 0 {
		// first and second half of the group alike
		a := 0
		for i := 0; i < n/2; i++ {
			a += per[i]
		}
		z := (float64(a) - float64(hit)/2) / math.Sqrt(float64(hit)/4+1)
		c.Check(math.Abs(z) < 6, "%s: the first half of the points got %d of %d mutations", what, a, hit)
	}
	c.Obs("rate_measured", 1)
	if len(dx) > 500 {
		k := float64(len(dx))
		want, kurt := amount*amount/4, 3.0
		if kind == 1 {
			want, kurt = amount*amount/12, 1.8
		}
		for ax, d := range [2][]float64{dx, dy} {
			var s, s2 float64
			for _, v := range d {
				s += v
				s2 += v * v
			}
			mean, vr := s/k, s2/k
			c.Check(math.Abs(mean) < 6*math.Sqrt(want/k), "%s: axis %d moves by %v on average", what, ax, mean)
			c.Check(math.Abs(vr-want) < 6*want*math.Sqrt((kurt-1)/k), "%s: axis %d moves with variance %v, want %v", what, ax, vr, want)
			// shape: share within half a standard deviation and beyond 1.5
			sd := math.Sqrt(want)
			var in, out float64
			for _, v := range d {
				if math.Abs(v) < sd/2 {
					in++
				}
				if math.Abs(v) > 1.5*sd {
					out++
				}
			}
			pi, po := 0.3829249225, 0.1336144025
			if kind == 1 {
				pi, po = 0.5/math.Sqrt(3), 1-1.5/math.Sqrt(3)
			}
			c.Check(math.Abs(in-k*pi) < 6*math.Sqrt(k*pi*(1-pi)), "%s: axis %d has %v of %v moves within half a standard deviation", what, ax, in, k)
			c.Check(math.Abs(out-k*po) < 6*math.Sqrt(k*po*(1-po)), "%s: axis %d has %v of %v moves beyond 1.5 standard deviations", what, ax, out, k)
		}
		var sxy float64
		for i := range dx {
			sxy += dx[i] * dy[i]
		}
		c.Check(math.Abs(sxy/k) < 6*want/math.Sqrt(k), "%s: the axes are correlated: %v", what, sxy/k/want)
		c.Obs("size_measured", 1)
	}
	c.Eval(true, what, hit)
}

func nnMean(p normgeom.NormPointGroup) float64 {
	s := 0.
	for i := range p {
		b := math.Inf(1)
		for j := range p {
			if i != j {
				b = math.Min(b, math.Hypot(p[i].X-p[j].X, p[i].Y-p[j].Y))
			}
		}
		s += b
	}
	return s / float64(len(p))
}

func chiZ(obs []float64, exp []float64) float64 {
	x := 0.
	for i := range obs {
		x += (obs[i] - exp[i]) * (obs[i] - exp[i]) / exp[i]
	}
	k := float64(len(obs) - 1)
	return (x - k) / math.Sqrt(2*k)
}

func runGenerator(c *mon.Ctx) {
	r := c.R
	rand.Seed(r.Int63())
	random.Seed(r.Int63())
	kind := c.I % 2
	it := 0
	mk := func(it int) generator.Generator {
		if kind == 0 {
			return generator.RandomGenerator{}
		}
		return generator.NewSpacedGenerator(it)
	}
	base := func(what string, p normgeom.NormPointGroup, n int) {
		c.Check(len(p) == n, "%s: %d points were returned, %d requested", what, len(p), n)
		seen := map[normgeom.NormPoint]bool{}
		for i, q := range p {
			c.Check(q.X >= 0 && q.X <= 1 && q.Y >= 0 && q.Y <= 1, "%s: point %d is %v", what, i, q)
			if kind == 0 {
				c.Check(!seen[q], "%s: point %v occurs twice", what, q)
			}
			seen[q] = true
		}
		c.Obs("groups", 1)
		if n == 1 {
			c.Obs("single_point", 1)
		}
		c.Eval(n > 1, what, p)
	}
	if c.I%10 < 2 { // distribution
		if kind == 0 {
			g := mk(0)
			const m = 10
			var cell [m * m]float64
			tot := 0
			var all normgeom.NormPointGroup
			for tot < 20000 {
				n := wl.Pick(r, 1, 3, 50, 1000)
				p := g.Generate(n)
				base("random generator", p, n)
				for _, q := range p {
					cell[int(math.Min(m-1, q.X*m))*m+int(math.Min(m-1, q.Y*m))]++
				}
				all = append(all, p...)
				tot += n
			}
			exp := make([]float64, m*m)
			for i := range exp {
				exp[i] = float64(tot) / (m * m)
			}
			z := chiZ(cell[:], exp)
			c.Check(z < 8 && z > -6, "random points are not uniform: chi-square %.1f standard deviations off", z)
			for ax := 0; ax < 2; ax++ {
				var bins [64]float64
				e := make([]float64, 64)
				for i := range e {
					e[i] = float64(tot) / 64
				}
				for _, q := range all {
					v := q.X
					if ax == 1 {
						v = q.Y
					}
					bins[int(math.Min(63, v*64))]++
				}
				z := chiZ(bins[:], e)
				c.Check(z < 8, "axis %d of random points is not uniform: chi-square %.1f standard deviations off", ax, z)
			}
			c.Obs("uniformity_measured", 1)
			return
		}
		if r.Intn(3) == 0 { // so few points that they are far from each other
			n := 2 + r.Intn(9)
			c.Note("spacing of %d points", n)
			g := mk(2000 + r.Intn(2000))
			a, b := 0., 0.
			reps := 60.
			if n == 2 {
				reps = 300 // random pairs differ much
			}
			for k := 0.; k < reps; k++ {
				p := g.Generate(n)
				base("spaced generator", p, n)
				a += nnMean(p)
				b += nnMean(generator.RandomGenerator{}.Generate(n))
			}
			c.Obs("small_spacing_measured", 1)
			c.Obs("small_spacing_percent", int(100*a/b))
			c.Check(a > 1.2*b, "%d points spaced have a mean nearest-neighbour distance of %.4f, random ones of %.4f", n, a/reps, b/reps)
			return
		}
		n := 20 + r.Intn(60)
		it = n * (60 + r.Intn(60))
		c.Note("spacing of %d points, %d iterations", n, it)
		a, b := 0., 0.
		const reps = 6
		var quarter, in [4]float64
		g := mk(it)
		same := r.Intn(3) != 0 // one generator for all groups, and for others in between
		for k := 0; k < reps; k++ {
			if !same {
				g = mk(it)
			} else if r.Intn(2) == 0 {
				g.Generate(wl.Pick(r, 1, 2, 10, 100))
			}
			p := g.Generate(n)
			base("spaced generator", p, n)
			a += nnMean(p)
			for i := range p {
				d := math.Inf(1)
				for j := range p {
					if i != j {
						d = math.Min(d, math.Hypot(p[i].X-p[j].X, p[i].Y-p[j].Y))
					}
				}
				quarter[i*4/n] += d
				in[i*4/n]++
			}
			b += nnMean(generator.RandomGenerator{}.Generate(n))
		}
		c.Obs("spacing_measured", 1)
		c.Obs("spacing_percent_of_random", int(100*a/b))
		for q := range quarter {
			v := quarter[q] / in[q] * reps / a
			c.Check(v > 0.74 && v < 1.26, "%d points spaced with %d iterations: the mean nearest-neighbour distance of quarter %d of the group is %.2f of that of all", n, it, q, v)
		}
		c.Check(a > 1.33*b, "%d points spaced with %d iterations have a mean nearest-neighbour distance of %.4f, random ones of %.4f", n, it, a/reps, b/reps)
		return
	}
	it = wl.Pick(r, 0, 1, 2, 10, 100, 1000)
	g := mk(it)
	what := fmt.Sprintf("generator %d with %d iterations", kind, it)
	var groups, copies []normgeom.NormPointGroup
	for k := 0; k < 6; k++ {
		n := wl.Pick(r, 1, 2, 3, 10, 50, 200)
		if kind == 0 && r.Intn(10) == 0 {
			n = 0
		}
		p := g.Generate(n)
		base(what, p, n)
		for j := range groups {
			for i := range groups[j] {
				c.Check(groups[j][i] == copies[j][i], "%s: generating group %d changed point %d of group %d", what, k, i, j)
			}
		}
		groups = append(groups, p)
		copies = append(copies, p.Copy())
		// the caller may change what it got
		j := r.Intn(len(groups))
		for i := range groups[j] {
			groups[j][i] = normgeom.NormPoint{X: -7, Y: 9}
			copies[j][i] = groups[j][i]
		}
		for j := range groups {
			for i := range groups[j] {
				c.Check(groups[j][i] == copies[j][i], "%s: groups share memory", what)
			}
		}
	}
	// two groups are different draws
	p, q := g.Generate(8), g.Generate(8)
	d := 0
	for i := range p {
		if p[i] != q[i] {
			d++
		}
	}
	// spaced points often end in a corner of the square, exactly
	c.Check(d == 8 || kind == 1 && d >= 1, "%s: two groups agree in %d of 8 points", what, 8-d)
}

type rcall struct {
	f int
	n int
}

func (k rcall) do() string {
	switch k.f {
	case 0:
		return fmt.Sprint("i", random.Intn(k.n))
	case 1:
		return fmt.Sprint("f", random.Float32())
	case 2:
		return fmt.Sprint("l", random.Int63())
	case 3:
		return fmt.Sprint("u", random.Uint32())
	}
	return fmt.Sprint("g", random.NormFloat64())
}

// zigguratEdges lists the class limits: the layers of the 128-layer ziggurat and the
// middles between them, both signs, and points in the tail.
func zigguratEdges() []float64 {
	const rr, v = 3.442619855899, 9.91256303526217e-3
	x := rr
	pos := []float64{}
	xs := []float64{rr}
	for i := 0; i < 126; i++ {
		y := math.Exp(-x*x/2) + v/x
		if y >= 1 {
			break
		}
		x = math.Sqrt(-2 * math.Log(y))
		xs = append(xs, x)
	}
	sort.Float64s(xs)
	prev := 0.
	for _, e := range xs {
		pos = append(pos, (prev+e)/2, e)
		prev = e
	}
	pos = append(pos, 3.5, 3.6, 3.8, 4.2)
	var out []float64
	for _, e := range pos {
		out = append(out, e, -e)
	}
	out = append(out, 0)
	sort.Float64s(out)
	return out
}

func runRandom(c *mon.Ctx) {
	r := c.R
	seed := r.Int63()
	switch r.Intn(6) {
	case 0:
		seed = int64(r.Intn(5)) - 2
	case 1:
		seed = -seed
	}
	kind := c.I % 5
	c.Note("seed %d, kind %d", seed, kind)
	random.Seed(seed)
	switch kind {
	case 0:
		replays(c, seed)
	case 1:
		for k := 0; k < 12; k++ {
			var n int
			switch r.Intn(6) {
			case 0:
				n = 1 + r.Intn(9)
			case 1:
				n = 1 << uint(r.Intn(32))
			case 2:
				n = 1<<uint(1+r.Intn(31)) + r.Intn(5) - 2
			case 3:
				n = 1<<32 - 1 - r.Intn(3)
			case 4:
				n = 3*(1<<30) + r.Intn(1000)
			default:
				n = 1 + r.Intn(1<<32-2)
			}
			if n < 1 {
				n = 1
			}
			bins := n
			if bins > 96 {
				bins = 96
			}
			cnt := make([]float64, bins)
			exp := make([]float64, bins)
			const s = 100000
			low := make([]float64, 0)
			var par [2]float64
			for i := 0; i < s; i++ {
				v := random.Intn(n)
				c.Check(v >= 0 && v < n, "an integer below %d is %d", n, v)
				cnt[int(uint64(v)*uint64(bins)/uint64(n))]++
				par[v&1]++
			}
			_ = low
			for b := range exp {
				lo := (uint64(b)*uint64(n) + uint64(bins) - 1) / uint64(bins)
				hi := (uint64(b+1)*uint64(n) + uint64(bins) - 1) / uint64(bins)
				exp[b] = s * float64(hi-lo) / float64(n)
			}
			if bins > 1 {
				for b := range cnt {
					z := (cnt[b] - exp[b]) / math.Sqrt(exp[b])
					c.Check(math.Abs(z) < 6.5, "integers below %d: class %d of %d has %.0f of %d, expected %.0f", n, b, bins, cnt[b], s, exp[b])
				}
				pe := s * float64(n/2) / float64(n) // odd values
				c.Check(math.Abs(par[1]-pe) < 6*math.Sqrt(s)/2, "integers below %d: %.0f of %d are odd, expected %.0f", n, par[1], s, pe)
			}
			c.Obs("bounds", 1)
			c.Eval(true, seed, n)
		}
	case 2:
		floats(c, seed)
	case 3:
		const s, pairs = 400000, 20000
		var bit [63]float64
		var ub [32]float64
		var agree, next [63][63]int32
		var uagree, unext [32][32]int32
		same := 0
		prev := int64(-1)
		pu := uint32(0)
		for i := 0; i < s; i++ {
			v := random.Int63()
			c.Check(v >= 0, "a 63-bit integer is %d", v)
			if v == prev {
				same++
			}
			u := random.Uint32()
			if i < pairs {
				for b := uint(0); b < 63; b++ {
					x, y := v^-(v>>b&1), prev^-(v>>b&1)
					for d := uint(0); d < 63; d++ {
						agree[b][d] += int32(x >> d & 1)
						next[b][d] += int32(y >> d & 1)
					}
				}
				for b := uint(0); b < 32; b++ {
					x, y := u^-(u>>b&1), pu^-(u>>b&1)
					for d := uint(0); d < 32; d++ {
						uagree[b][d] += int32(x >> d & 1)
						unext[b][d] += int32(y >> d & 1)
					}
				}
			}
			prev, pu = v, u
			for b := 0; b < 63; b++ {
				bit[b] += float64(v >> uint(b) & 1)
			}
			for b := 0; b < 32; b++ {
				ub[b] += float64(u >> uint(b) & 1)
			}
		}
		for b, n := range bit {
			c.Check(math.Abs(n-s/2) < 6*math.Sqrt(s)/2, "bit %d of 63-bit integers is set in %.0f of %d", b, n, s)
		}
		for b, n := range ub {
			c.Check(math.Abs(n-s/2) < 6*math.Sqrt(s)/2, "bit %d of 32-bit integers is set in %.0f of %d", b, n, s)
		}
		// no two bits of a number, or of successive ones, depend on each other
		off := func(n int32) bool { return math.Abs(float64(n)-pairs/2) > 7*math.Sqrt(pairs)/2 }
		for b := range agree {
			for d := range agree {
				c.Check(d == b || !off(agree[b][d]), "bits %d and %d of 63-bit integers differ in %d of %d", b, d, agree[b][d], pairs)
				c.Check(!off(next[b][d]), "bit %d of a 63-bit integer differs from bit %d of the one before in %d of %d", b, d, next[b][d], pairs)
			}
		}
		for b := range uagree {
			for d := range uagree {
				c.Check(d == b || !off(uagree[b][d]), "bits %d and %d of 32-bit integers differ in %d of %d", b, d, uagree[b][d], pairs)
				c.Check(!off(unext[b][d]), "bit %d of a 32-bit integer differs from bit %d of the one before in %d of %d", b, d, unext[b][d], pairs)
			}
		}
		c.Obs("bit_pairs", 63*62+63*63+32*31+32*32)
		c.Check(same == 0, "%d of %d 63-bit integers repeat the one before", same, s)
		c.Obs("int63", s)
		c.Eval(true, seed, 3)
	case 4:
		normals(c, seed)
	}
}

func replays(c *mon.Ctx, seed int64) {
	r := c.R
	var calls []rcall
	for i := 0; i < 3000; i++ {
		calls = append(calls, rcall{r.Intn(5), 1 + r.Intn(1<<uint(1+r.Intn(31)))})
	}
	run := func(s int64) []string {
		random.Seed(s)
		var out []string
		for _, k := range calls {
			out = append(out, k.do())
		}
		return out
	}
	a := run(seed)
	for i := r.Intn(100); i > 0; i-- {
		random.NormFloat64()
	}
	b := run(seed)
	for i := range a {
		c.Check(a[i] == b[i], "seed %d: call %d of the same sequence gives %s and %s", seed, i, a[i], b[i])
	}
	for _, o := range []int64{seed + 1, seed - 1, -seed - 1, seed ^ 1<<32, seed ^ 1<<62} {
		random.Seed(seed)
		var x [200]uint32
		for i := range x {
			x[i] = random.Uint32()
		}
		random.Seed(o)
		same := 0
		for i := range x {
			if x[i] == random.Uint32() {
				same++
			}
		}
		c.Check(same < 5, "seeds %d and %d give %d of %d equal values", seed, o, same, len(x))
	}
	c.Obs("replays", 1)
	c.Eval(true, seed, 0)
	for _, s := range topSeeds {
		random.Seed(s)
		f := random.Float32()
		c.Check(f >= 0 && f < 1, "the first float of seed %d is %v", s, f)
		c.Obs("seeds_at_the_top", 1)
	}
}

func floats(c *mon.Ctx, seed int64) {
	const s, m = 2000000, 200
	var bins [m]float64
	var pair [400]float64
	exp := make([]float64, m)
	pexp := make([]float64, 400)
	for i := range exp {
		exp[i] = s / m
	}
	for i := range pexp {
		pexp[i] = s / 2 / 400.
	}
	prev := float32(0)
	var fine [2]float64
	distinct := map[float32]bool{}
	for i := 0; i < s; i++ {
		f := random.Float32()
		c.Check(f >= 0 && f < 1, "a float is %v", f)
		if i < 200000 {
			distinct[f] = true
		}
		g := float64(f) * (1 << 22)
		fine[int(g)&1]++
		bins[int(float64(f)*m)]++
		if i%2 == 1 {
			pair[int(float64(prev)*20)*20+int(float64(f)*20)]++
		}
		prev = f
	}
	// 2^24 values would give 198814 distinct ones, 2^23 values 197634
	c.Check(len(distinct) > 195000, "200000 floats have only %d distinct values", len(distinct))
	c.Check(math.Abs(fine[1]-s/2) < 6*math.Sqrt(s)/2, "bit 22 of the fraction of floats is set in %.0f of %d", fine[1], s)
	z := chiZ(bins[:], exp)
	c.Check(z < 8, "floats are not uniform: chi-square %.1f standard deviations off", z)
	z = chiZ(pair[:], pexp)
	c.Check(z < 8, "pairs of floats are not uniform: chi-square %.1f standard deviations off", z)
	c.Obs("floats", s)
	c.Eval(true, seed, 2)
}

func normals(c *mon.Ctx, seed int64) {
	e := zigguratEdges()
	bins := make([]float64, len(e)+1)
	exp := make([]float64, len(e)+1)
	s := 80000000
	if c.Thorough() {
		s = 300000000
	}
	phi := func(x float64) float64 { return 0.5 * math.Erfc(-x/math.Sqrt2) }
	for i := range exp {
		lo, hi := 0., 1.
		if i > 0 {
			lo = phi(e[i-1])
		}
		if i < len(e) {
			hi = phi(e[i])
		}
		if i > len(e)/2 { // precise upper tail
			lo, hi = phi(-e[i-1]), 0
			if i < len(e) {
				hi = phi(-e[i])
			}
			lo, hi = hi, lo
		}
		exp[i] = math.Abs(hi-lo) * float64(s)
	}
	// table from value to class, for speed
	const res = 4096
	idx := make([]int, 12*res)
	for k := range idx {
		idx[k] = sort.SearchFloat64s(e, float64(k)/res-6)
	}
	var sum, sum2 float64
	prev := 0.
	corr := 0.
	tail := 0
	for i := 0; i < s; i++ {
		v := random.NormFloat64()
		sum += v
		sum2 += v * v
		corr += v * prev
		prev = v
		b := 0
		switch {
		case v >= 5.99:
			b = len(e)
		case v < -5.99:
		case v == v:
			b = idx[int((v+6)*res)]
			for b < len(e) && e[b] < v {
				b++
			}
		default:
			c.Fail("a normal number is %v", v)
		}
		bins[b]++
		if v > 3.4426 || v < -3.4426 {
			tail++
		}
	}
	n := float64(s)
	c.Check(math.Abs(sum/n) < 6/math.Sqrt(n), "normal numbers have mean %v", sum/n)
	c.Check(math.Abs(sum2/n-1) < 6*math.Sqrt(2/n), "normal numbers have variance %v", sum2/n)
	c.Check(math.Abs(corr/n) < 6/math.Sqrt(n), "successive normal numbers have correlation %v", corr/n)
	for i := range bins {
		z := (bins[i] - exp[i]) / math.Sqrt(exp[i])
		lo, hi := math.Inf(-1), math.Inf(1)
		if i > 0 {
			lo = e[i-1]
		}
		if i < len(e) {
			hi = e[i]
		}
		c.Check(math.Abs(z) < 6, "normal numbers: %.0f of %d in [%.4f,%.4f], expected %.0f", bins[i], s, lo, hi, exp[i])
	}
	z := chiZ(bins, exp)
	c.Check(z < 8, "normal numbers have the wrong shape: chi-square %.1f standard deviations off", z)
	c.Obs("normals", s)
	c.Obs("normals_in_tail", tail)
	c.Eval(true, seed, 4)
}
