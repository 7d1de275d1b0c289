package props

import (
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"math"
	"math/rand"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"github.com/RH12503/Triangula/algorithm"
	"github.com/RH12503/Triangula/algorithm/evaluator"
	"github.com/RH12503/Triangula/fitness"
	"github.com/RH12503/Triangula/mutation"
	"github.com/RH12503/Triangula/normgeom"
	"github.com/RH12503/Triangula/random"

	"verif/harness/mon"
	"verif/harness/wl"
)

// key identifies the content of a point group.
func key(p normgeom.NormPointGroup) string {
	b := make([]byte, 16*len(p))
	for i, q := range p {
		binary.LittleEndian.PutUint64(b[16*i:], math.Float64bits(q.X))
		binary.LittleEndian.PutUint64(b[16*i+8:], math.Float64bits(q.Y))
	}
	return string(b)
}

func keyHash(k string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(k))
	x := h.Sum64()
	x ^= x >> 31
	x *= 0x9E3779B97F4A7C15
	x ^= x >> 29
	return x
}

// land is a synthetic fitness function of the content of a group.
type land struct {
	name   string
	target normgeom.NormPointGroup
	start  map[string]bool // the contents the members start with
}

var landNames = []string{"random", "peak", "negative", "huge", "tiny", "nothing helps"}
var tieLands = []string{"plateau", "constant", "two-valued"}

func newLand(r *rand.Rand, n int, ties bool) *land {
	l := &land{start: map[string]bool{}}
	if ties && r.Intn(2) == 0 {
		l.name = tieLands[r.Intn(len(tieLands))]
	} else {
		l.name = landNames[r.Intn(len(landNames))]
	}
	for i := 0; i < n; i++ {
		l.target = append(l.target, normgeom.NormPoint{X: r.Float64(), Y: r.Float64()})
	}
	return l
}

func (l *land) at(p normgeom.NormPointGroup) float64 {
	u := float64(keyHash(key(p))>>11) / (1 << 53) // [0,1), distinct for distinct contents
	d := 0.
	for i, q := range p {
		if i < len(l.target) {
			d += (q.X-l.target[i].X)*(q.X-l.target[i].X) + (q.Y-l.target[i].Y)*(q.Y-l.target[i].Y)
		}
	}
	d /= float64(len(p) + 1)
	switch l.name {
	case "random":
		return u
	case "peak":
		return 1 - d + u*1e-7
	case "negative":
		return -5 - d + u*1e-7
	case "huge":
		return 1e12 * (0.5 - d + u*1e-7)
	case "tiny":
		return 1e-12 * (0.5 - d + u*1e-7)
	case "nothing helps":
		if l.start[key(p)] {
			return 1 + u
		}
		return -1 - u
	case "plateau":
		return math.Floor((0.5 - d) * 12)
	case "constant":
		return -2
	case "two-valued":
		return float64(keyHash(key(p)) % 2)
	}
	panic("land")
}

// event is one evaluation.
type event struct {
	k     string
	pts   normgeom.NormPointGroup
	fit   float64
	fn    *fake
	base  *fake
	baseK string // content of the base when the evaluation started
	muts  []mutation.Mutation
	prim  bool
}

// recorder collects what the stand-ins observe.
type recorder struct {
	mu       sync.Mutex
	events   []*event
	open     int32
	problems []string
	calls    []mutCall
	delay    func() // called in every evaluation
	land     *land
	total    int64
	stateful bool
}

func (q *recorder) problem(f string, a ...interface{}) {
	q.mu.Lock()
	if len(q.problems) < 5 {
		q.problems = append(q.problems, fmt.Sprintf(f, a...))
	}
	q.mu.Unlock()
}

func (q *recorder) take() (ev []*event, calls []mutCall, problems []string) {
	q.mu.Lock()
	defer q.mu.Unlock()
	ev, calls, problems = q.events, q.calls, q.problems
	q.events, q.calls = nil, nil
	return
}

// fake is a stateful fitness function that mimics what the real ones keep.
type fake struct {
	q       *recorder
	id      int
	busy    int32
	shared  bool // used for every member
	mu      sync.Mutex
	content normgeom.NormPointGroup // what was last evaluated
	base    *fake
	cache   []fitness.CacheData
}

func (f *fake) get() normgeom.NormPointGroup {
	f.mu.Lock()
	defer f.mu.Unlock()
	return f.content
}

func (f *fake) Calculate(d fitness.PointsData) float64 {
	q := f.q
	atomic.AddInt32(&q.open, 1)
	defer atomic.AddInt32(&q.open, -1)
	atomic.AddInt64(&q.total, 1)
	if !f.shared && !atomic.CompareAndSwapInt32(&f.busy, 0, 1) {
		q.problem("function %d is in two evaluations at the same time", f.id)
	}
	if q.delay != nil {
		q.delay()
	}
	pts := d.Points.Copy()
	muts := append([]mutation.Mutation(nil), d.Mutations...)
	f.mu.Lock()
	base, content := f.base, f.content
	f.base = nil
	f.mu.Unlock()
	var bc normgeom.NormPointGroup
	if base != nil {
		bc = base.get()
	}
	if q.stateful && !f.shared {
		switch {
		case content == nil:
		case base != nil:
			if msg := applies(bc, muts, pts); msg != "" {
				q.problem("function %d evaluates %v with base points %v and changes %v: %s", f.id, pts, bc, muts, msg)
			}
		default:
			if key(content) != key(pts) {
				q.problem("function %d evaluates %v without a base, but evaluated %v before", f.id, pts, content)
			}
		}
	}
	e := &event{k: key(pts), pts: pts, fit: q.land.at(pts), fn: f, base: base, baseK: key(bc), muts: muts}
	if q.delay != nil {
		q.delay()
	}
	if key(d.Points) != e.k {
		q.problem("the points of a member changed while it was evaluated")
	}
	f.mu.Lock()
	f.content = pts
	f.mu.Unlock()
	q.mu.Lock()
	q.events = append(q.events, e)
	q.mu.Unlock()
	if !f.shared {
		atomic.StoreInt32(&f.busy, 0)
	}
	return e.fit
}

// applies says why base changed by muts is not pts.
func applies(base normgeom.NormPointGroup, muts []mutation.Mutation, pts normgeom.NormPointGroup) string {
	if len(base) != len(pts) {
		return "different lengths"
	}
	b := base.Copy()
	for _, m := range muts {
		if m.Index < 0 || m.Index >= len(b) {
			return "index out of range"
		}
		if b[m.Index] != m.Old {
			return fmt.Sprintf("point %d of the base is %v, not %v", m.Index, b[m.Index], m.Old)
		}
		b[m.Index] = m.New
	}
	for i := range b {
		if b[i] != pts[i] {
			return fmt.Sprintf("the changes leave point %d at %v, the member has %v", i, b[i], pts[i])
		}
	}
	return ""
}

func (f *fake) SetBase(o fitness.CacheFunction) {
	b := o.(*fake)
	if b.get() == nil {
		b = nil
	}
	f.mu.Lock()
	f.base = b
	f.mu.Unlock()
}
func (f *fake) Cache() []fitness.CacheData     { return nil }
func (f *fake) SetCache(c []fitness.CacheData) { f.cache = c }

type mutCall struct {
	in, out string
	outPts  normgeom.NormPointGroup
	muts    []mutation.Mutation
}

// recMutator records what a mutation method does.
type recMutator struct {
	q     *recorder
	inner mutation.Method
}

func (m *recMutator) Mutate(p normgeom.NormPointGroup, cb func(mutation.Mutation)) {
	c := mutCall{in: key(p)}
	m.inner.Mutate(p, func(x mutation.Mutation) {
		c.muts = append(c.muts, x)
		cb(x)
	})
	c.out, c.outPts = key(p), p.Copy()
	m.q.mu.Lock()
	m.q.calls = append(m.q.calls, c)
	m.q.mu.Unlock()
}

// wild is a mutation method of many styles; each point changes at most once.
type wild struct {
	r     *rand.Rand
	style string
}

var wildStyles = []string{"one", "few", "many", "all", "rare", "jump", "crowded", "reversed", "exchange", "shift", "mirror"}

func (m *wild) Mutate(p normgeom.NormPointGroup, cb func(mutation.Mutation)) {
	r := m.r
	n := len(p)
	k := 1
	amount := 0.1
	idx := r.Perm(n)
	switch m.style {
	case "few":
		k = 1 + r.Intn(3)
	case "many":
		k = 1 + r.Intn(n)
	case "all":
		k = n
	case "rare":
		k = r.Intn(2)
	case "jump":
		amount = 2
		k = 1 + r.Intn(2)
	case "crowded": // always the same few points: changes collide
		idx = r.Perm((n + 3) / 4)
		k = 1 + r.Intn(len(idx))
	case "reversed":
		k = n
		for i := range idx {
			idx[i] = n - 1 - i
		}
	}
	if k > len(idx) {
		k = len(idx)
	}
	change := func(i int, q normgeom.NormPoint) {
		old := p[i]
		p[i] = q
		cb(mutation.Mutation{Old: old, New: q, Index: i})
	}
	switch m.style {
	case "exchange": // the set of points stays the same
		if n < 2 {
			return
		}
		a, b := p[idx[0]], p[idx[1]]
		change(idx[0], b)
		change(idx[1], a)
		return
	case "shift": // the sums of the coordinates stay the same, also in floating point
		if n < 2 || r.Intn(3) == 0 {
			return
		}
		d := float64(1+r.Intn(64)) / 1024
		i, j := idx[0], idx[1]
		if p[i].X+d > 1 || p[j].X-d < 0 {
			return
		}
		change(i, normgeom.NormPoint{X: p[i].X + d, Y: p[i].Y})
		change(j, normgeom.NormPoint{X: p[j].X - d, Y: p[j].Y})
		return
	case "mirror":
		i := idx[0]
		change(i, normgeom.NormPoint{X: p[i].Y, Y: p[i].X})
		return
	}
	for _, i := range idx[:k] {
		old := p[i]
		p[i].X = math.Max(0, math.Min(1, p[i].X+(r.Float64()-0.5)*amount))
		p[i].Y = math.Max(0, math.Min(1, p[i].Y+(r.Float64()-0.5)*amount))
		cb(mutation.Mutation{Old: old, New: p[i], Index: i})
	}
}

// run is one algorithm with stand-ins around it.
type run struct {
	q         *recorder
	algo      algorithm.Algorithm
	modified  bool
	size, cut int
	n         int
	factory   []string
	evName    string
	mutName   string
}

func (u *run) String() string {
	a := "simple"
	if u.modified {
		a = "combining"
	}
	return fmt.Sprintf("%s algorithm, population %d, cutoff %d, %d points, fitness %s, mutation %s, evaluator %s", a, u.size, u.cut, u.n, u.q.land.name, u.mutName, u.evName)
}

// delayer draws evaluation delays; it may be called from any goroutine.
func delayer(seed int64, mode int) func() {
	var c uint64 = uint64(seed)
	return func() {
		x := atomic.AddUint64(&c, 0x9E3779B97F4A7C15)
		x ^= x >> 30
		x *= 0xBF58476D1CE4E5B9
		x ^= x >> 27
		switch mode {
		case 1:
			for i := x % 5; i > 0; i-- {
				runtime.Gosched()
			}
		case 2:
			if x%4 == 0 {
				time.Sleep(time.Duration(x>>8%200) * time.Microsecond)
			} else {
				runtime.Gosched()
			}
		case 3:
			if x%40 == 0 {
				time.Sleep(time.Duration(500+x>>8%2500) * time.Microsecond)
			}
		case 4:
			s := uint64(0)
			for i := uint64(0); i < x%3000; i++ {
				s += i * x
			}
			atomic.AddUint64(&c, s&0)
		}
	}
}

// newRun builds an algorithm around stand-ins. evKind: 0 any, 1 shared-cache.
func newRun(r *rand.Rand, ties bool, evKind int, delayMode int) *run {
	u := &run{}
	u.modified = r.Intn(5) < 3
	u.cut = 1 + r.Intn(wl.Pick(r, 1, 3, 8))
	u.size = 2*u.cut + r.Intn(wl.Pick(r, 1, 4, 12, 30))
	if u.size == 2*u.cut && r.Intn(4) != 0 {
		u.size += 1 + r.Intn(6)
	}
	u.n = 1 + r.Intn(wl.Pick(r, 1, 6, 20))
	if r.Intn(50) == 0 { // as large as the default configuration, and larger
		u.cut = 1 + r.Intn(20)
		u.size = wl.Pick(r, 100, 200, 400, 700) + r.Intn(100)
		u.n = 1 + r.Intn(5)
	} else if r.Intn(80) == 0 {
		u.cut = 1 + r.Intn(3)
		u.size = 2*u.cut + 1 + r.Intn(6)
		u.n = 50 + r.Intn(wl.Pick(r, 100, 1000, 3000))
	}
	q := &recorder{land: newLand(r, u.n, ties), stateful: true}
	u.q = q
	if delayMode > 0 {
		q.delay = delayer(r.Int63(), delayMode)
	}
	seed := r.Int63()
	rand.Seed(seed)
	random.Seed(seed)
	var inner mutation.Method
	switch r.Intn(6) {
	case 0:
		inner, u.mutName = mutation.NewGaussianMethod(r.Float64(), r.Float64()), "gaussian"
	case 1:
		inner, u.mutName = mutation.NewRandomMethod(r.Float64(), r.Float64()), "uniform"
	default:
		st := wildStyles[r.Intn(len(wildStyles))]
		inner, u.mutName = &wild{rand.New(rand.NewSource(seed)), st}, st
	}
	mut := &recMutator{q, inner}
	pr := rand.New(rand.NewSource(r.Int63()))
	same := r.Intn(6) == 0 // all start alike
	first := normgeom.NormPointGroup{}
	for i := 0; i < u.n; i++ {
		first = append(first, normgeom.NormPoint{X: pr.Float64(), Y: pr.Float64()})
	}
	factory := func() normgeom.NormPointGroup {
		p := first.Copy()
		if !same {
			for i := range p {
				p[i] = normgeom.NormPoint{X: pr.Float64(), Y: pr.Float64()}
			}
		}
		u.factory = append(u.factory, key(p))
		q.land.start[key(p)] = true
		return p
	}
	kind := r.Intn(4)
	if evKind == 1 && kind < 2 {
		kind = 2
	}
	power := r.Intn(5)
	id := 0
	mk := func() *fake { id++; return &fake{q: q, id: id} }
	newEv := func(n int) evaluator.Evaluator {
		switch kind {
		case 0:
			f := mk()
			f.shared = true
			u.evName = "one"
			return evaluator.NewOne(f)
		case 1:
			u.evName = "many"
			q.stateful = false
			return evaluator.NewMany(func() fitness.Function { return mk() }, n)
		}
		u.evName = fmt.Sprintf("shared-cache 2^%d", power)
		fs := make([]fitness.CacheFunction, n)
		for i := range fs {
			fs[i] = mk()
		}
		return evaluator.NewParallel(fs, power)
	}
	if u.modified {
		u.algo = algorithm.NewModifiedGenetic(factory, u.size, u.cut, newEv, mut)
	} else {
		u.algo = algorithm.NewSimple(factory, u.size, u.cut, newEv, mut)
	}
	return u
}

// stepper returns a function that steps u; in some cases another algorithm, with sizes of
// its own, is stepped in between.
func stepper(c *mon.Ctx, u *run) func() {
	if c.R.Intn(8) != 0 {
		return u.algo.Step
	}
	c.Obs("with_another_algorithm", 1)
	d := newRun(c.R, true, 0, 0)
	d.q.stateful = false
	return func() {
		d.algo.Step()
		u.algo.Step()
		if c.R.Intn(2) == 0 {
			d.algo.Step()
		}
		d.q.take()
	}
}

func short(k string) string { return fmt.Sprintf("#%06x", keyHash(k)&0xffffff) }

func init() {
	dom := "population at least twice the cutoff; fitness values are finite; a mutation method changes each point at most once per call"
	mon.Register(&mon.Prop{
		ID: "T12", Quick: 40000, Thorough: 3000000,
		Rule:   "one case = one algorithm (two kinds, population 2-60, one in fifty 100-800, one in eight cases alternating with another algorithm, cutoff 1-8, fitness landscapes incl. ties, plateaus and negative values, 10 mutation styles, 3 evaluators) run for 3-30 generations with every evaluation recorded; after each generation Best and Stats are compared with the recorded evaluations; non-trivial = the best improved at least once; distinct by best fitness and configuration",
		Assume: []string{dom},
		Run:    runElitism,
		MinObs: map[string]int64{"with_another_algorithm": 2000, "generations": 40000, "improvements": 5000, "with_ties": 10000, "best_of_combined": 100},
	})
	mon.Register(&mon.Prop{
		ID: "T13", Quick: 40000, Thorough: 3000000,
		Rule:   "as T12 without ties; the multiset of evaluated contents of every generation is compared with the one derived from the previous generation's evaluations and the recorded mutation calls (bases, mutants, combined members); non-trivial = a combined member was expected; distinct by contents",
		Assume: []string{dom, "when the evaluator is not told bases, combined members are predicted only if the mutation calls come in turn"},
		Run:    runComposition,
		MinObs: map[string]int64{"generations": 40000, "mutants": 100000, "combined": 10000, "combined_of_many": 3000, "collisions": 1000, "no_combined": 10000},
	})
	mon.Register(&mon.Prop{
		ID: "T14", Quick: 40000, Thorough: 2000000,
		Rule:   "one case = one algorithm on the shared-cache evaluator whose functions are stand-ins that remember what they evaluated last and which base they were given; every call is checked; non-trivial = an evaluation relied on a base after members had been reordered; distinct by base and member contents",
		Assume: []string{dom},
		Run:    runBases,
		MinObs: map[string]int64{"generations": 40000, "through_base": 100000, "unchanged": 50000},
	})
	mon.Register(&mon.Prop{
		ID: "T23", Quick: 10000, Thorough: 500000,
		Rule:     "one case = one to three algorithms (at the same time or in turn) with evaluation delays (yields, sleeps up to 3 ms, spinning; in one of 500 cases one evaluation takes 0.6-11 s) and 1-8 processors; start and end of every evaluation are recorded; non-trivial = two evaluations overlapped or completed out of order; distinct by completion order",
		Assume:   []string{dom, "a step that does not finish within 30 s, twice, counts as hanging (a case takes milliseconds)"},
		Run:      runSteps,
		Watchdog: 30 * time.Second,
		MinObs:   map[string]int64{"over_128_members": 100, "slow_evaluations": 8, "generations": 10000, "evaluations": 100000, "distinct_orders": 1000, "single_processor": 300, "several_algorithms": 200},
	})
}

func best(ev []*event) float64 {
	b := math.Inf(-1)
	for _, e := range ev {
		b = math.Max(b, e.fit)
	}
	return b
}

// runLength draws how many steps a run has.
func runLength(c *mon.Ctx, u *run, max int) int {
	if u.n > 40 {
		c.Obs("large_groups", 1)
		return 3 + c.R.Intn(3)
	}
	if (u.size*u.n < 50 && c.R.Intn(400) == 0) || (u.size*u.n < 100 && u.q.land.name == "nothing helps" && c.R.Intn(200) == 0) {
		c.Obs("very_long_runs", 1)
		return 1000 + c.R.Intn(2000)
	}
	if u.size*u.n < 150 && c.R.Intn(100) == 0 {
		c.Obs("long_runs", 1)
		return 260 + c.R.Intn(100)
	}
	return 3 + c.R.Intn(max)
}

func runElitism(c *mon.Ctx) {
	r := c.R
	u := newRun(r, true, 0, 0)
	u.q.stateful = false
	c.Note("%v", u)
	step := stepper(c, u)
	gens := runLength(c, u, wl.Pick(r, 5, 15, 30))
	prev := math.Inf(-1)
	seenBest := map[string]bool{}
	improved := false
	for g := 0; g <= gens; g++ {
		if g > 0 {
			step()
		}
		ev, calls, _ := u.q.take()
		st := u.algo.Stats()
		b := u.algo.Best()
		want := best(ev)
		c.Check(st.Generation == g, "%v: after %d steps the generation counter is %d", u, g, st.Generation)
		c.Check(st.BestFitness == want, "%v: generation %d: best fitness %v is reported, the highest value computed is %v", u, g, st.BestFitness, want)
		c.Check(st.BestFitness >= prev, "%v: the best fitness fell from %v to %v in generation %d", u, prev, st.BestFitness, g)
		c.Check(len(b) == u.n, "%v: the best member has %d points", u, len(b))
		f := u.q.land.at(b)
		c.Check(f == st.BestFitness, "%v: generation %d: the reported best points have fitness %v, reported is %v", u, g, f, st.BestFitness)
		found := false
		k := key(b)
		for _, e := range ev {
			if e.k == k && e.fit == want {
				found = true
			}
		}
		c.Check(found, "%v: generation %d: the reported best points were not evaluated in it", u, g)
		if g > 0 && st.BestFitness > prev {
			improved = true
			c.Obs("improvements", 1)
			isMut := false
			for _, m := range calls {
				if m.out == k {
					isMut = true
				}
			}
			if !isMut {
				c.Obs("best_of_combined", 1)
			}
		}
		prev = st.BestFitness
		seenBest[k] = true
		// the caller may keep a group the algorithm handed out: repeated calls agree
		c.Check(key(u.algo.Best()) == k && u.algo.Stats() == st, "%v: asking twice gives different answers", u)
		c.Check(st.TimeForGen >= 0, "%v: negative time", u)
		c.Obs("generations", 1)
		for _, t := range tieLands {
			if u.q.land.name == t {
				c.Obs("with_ties", 1)
			}
		}
	}
	c.Eval(improved, u.String(), prev)
}

func sameMuts(a, b []mutation.Mutation) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func runComposition(c *mon.Ctx) {
	r := c.R
	u := newRun(r, false, 0, r.Intn(2)*4)
	u.q.stateful = false
	c.Note("%v", u)
	step := stepper(c, u)
	gens := runLength(c, u, wl.Pick(r, 5, 12, 25))
	prev, calls, _ := u.q.take()
	c.Check(len(calls) == 0, "%v: mutations were made before the first step", u)
	// construction: members come from the factory, none twice
	left := map[string]int{}
	for _, k := range u.factory {
		left[k]++
	}
	for _, e := range prev {
		left[e.k]--
		c.Check(left[e.k] >= 0, "%v: the construction evaluated a group more often than it was created", u)
	}
	min := u.size
	if u.modified {
		min = u.size - u.cut
	}
	c.Check(len(prev) >= min, "%v: the construction evaluated %d of %d members", u, len(prev), u.size)
	kids := u.size - u.cut
	if u.modified {
		kids -= u.cut
	}
	for g := 1; g <= gens; g++ {
		step()
		ev, calls, _ := u.q.take()
		sort.SliceStable(prev, func(i, j int) bool { return prev[i].fit > prev[j].fit })
		elite := prev[:u.cut]
		want := map[string]int{}
		for _, e := range elite {
			want[e.k]++
		}
		// mutation calls: shared out evenly
		c.Check(len(calls) == kids, "%v: generation %d: %d members were mutated, want %d", u, g, len(calls), kids)
		got := map[string]int{}
		share := map[string]int{}
		for i := 0; i < kids; i++ {
			share[elite[i%u.cut].k]++
		}
		inTurn := true
		for i, m := range calls {
			got[m.in]++
			if m.in != elite[i%u.cut].k {
				inTurn = false
			}
			want[m.out]++
		}
		for k, n := range got {
			c.Check(share[k] == n, "%v: generation %d: the base %s was copied and mutated %d times, want %d", u, g, short(k), n, share[k])
		}
		c.Obs("mutants", len(calls))
		// classify the evaluations in the order of completion
		fits := map[string]float64{}
		var extra []*event
		for _, e := range ev {
			fits[e.k] = e.fit
			if want[e.k] > 0 {
				want[e.k]--
				e.prim = true
			} else {
				extra = append(extra, e)
			}
		}
		for k, n := range want {
			what := "mutated copy"
			for _, e := range elite {
				if e.k == k {
					what = "base (a fittest member of the previous generation)"
				}
			}
			c.Check(n <= 0, "%v: generation %d: a %s, %s, was not evaluated", u, g, what, short(k))
		}
		if !u.modified {
			if len(extra) > 0 {
				c.Fail("%v: generation %d: %v was evaluated, which is neither a fittest member of the previous generation nor a mutated copy of one", u, g, extra[0].pts)
			}
		} else {
			// group the mutants by their base
			type grp struct {
				base string
				ch   []mutCall
			}
			var groups []*grp
			predict := true
			if u.evName != "one" && u.evName != "many" {
				byFn := map[*fake]*grp{}
				used := make([]bool, len(calls))
				for _, e := range ev {
					if e.prim && e.base != nil {
						// two copies may have the same points through different changes
						// (a change may leave a point where it is)
						m := -1
						for i := range calls {
							if !used[i] && calls[i].out == e.k && calls[i].in == e.baseK {
								if same := sameMuts(calls[i].muts, e.muts); m < 0 || same {
									m = i
									if same {
										break
									}
								}
							}
						}
						if m < 0 { // bases that do not belong are another property
							predict = false
							continue
						}
						gr := byFn[e.base]
						if gr == nil {
							gr = &grp{base: e.baseK}
							byFn[e.base] = gr
							groups = append(groups, gr)
						}
						used[m] = true
						gr.ch = append(gr.ch, calls[m])
					}
				}
				n := 0
				for _, gr := range groups {
					n += len(gr.ch)
				}
				if n != kids {
					predict = false
				}
			} else {
				predict = inTurn
				for j := 0; j < u.cut; j++ {
					groups = append(groups, &grp{base: elite[j].k})
				}
				for i, m := range calls {
					groups[i%u.cut].ch = append(groups[i%u.cut].ch, m)
				}
			}
			pts := map[string]normgeom.NormPointGroup{}
			for _, e := range elite {
				pts[e.k] = e.pts
			}
			if predict {
				exp := map[string]int{}
				total := 0
				for _, gr := range groups {
					var ben []mutCall
					for _, m := range gr.ch {
						if fits[m.out] > fits[gr.base] {
							ben = append(ben, m)
						}
					}
					if len(ben) == 0 {
						c.Obs("no_combined", 1)
						continue
					}
					b := pts[gr.base].Copy()
					who := map[int]float64{}
					nm := 0
					for _, m := range ben {
						nm += len(m.muts)
						for _, x := range m.muts {
							if f, ok := who[x.Index]; ok {
								c.Obs("collisions", 1)
								if f >= fits[m.out] {
									continue
								}
							}
							who[x.Index] = fits[m.out]
							b[x.Index] = x.New
						}
					}
					if nm == 0 {
						continue
					}
					exp[key(b)]++
					total++
					if len(ben) > 1 {
						c.Obs("combined_of_many", 1)
					}
				}
				seen := map[string]int{}
				for _, e := range extra {
					seen[e.k]++
					if seen[e.k] > exp[e.k] {
						c.Fail("%v: generation %d: %v was evaluated, which is neither a fittest member of the previous generation, nor a mutated copy, nor the combination of the changes that improved a base", u, g, e.pts)
					}
				}
				c.Check(len(extra) == total, "%v: generation %d: %d combined members were evaluated, %d bases have copies that are fitter", u, g, len(extra), total)
				c.Obs("combined", total)
				c.Eval(total > 0, g, best(ev), len(ev), keyHash(ev[0].k))
			} else {
				c.Obs("not_predicted", 1)
			}
		}
		c.Eval(false)
		c.Obs("generations", 1)
		prev = ev
	}
	_ = r
}

func runBases(c *mon.Ctx) {
	r := c.R
	u := newRun(r, true, 1, r.Intn(2)*4)
	c.Note("%v", u)
	step := stepper(c, u)
	gens := runLength(c, u, wl.Pick(r, 5, 15, 30))
	for g := 0; g <= gens; g++ {
		if g > 0 {
			step()
		}
		ev, _, probs := u.q.take()
		c.Check(len(probs) == 0, "%v: generation %d: %v", u, g, probs)
		for _, e := range ev {
			if e.base != nil {
				c.Obs("through_base", 1)
				c.Eval(g > 1, e.k, e.baseK)
			} else if g > 0 {
				c.Obs("unchanged", 1)
			}
		}
		c.Obs("generations", 1)
	}
}

func runSteps(c *mon.Ctx) {
	r := c.R
	procs := wl.Pick(r, 1, 1, 2, 4, 8)
	old := runtime.GOMAXPROCS(procs)
	defer runtime.GOMAXPROCS(old)
	if procs == 1 {
		c.Obs("single_processor", 1)
	}
	na := 1
	if r.Intn(4) == 0 {
		na = 2 + r.Intn(2)
		c.Obs("several_algorithms", 1)
	}
	together := na > 1 && r.Intn(2) == 0
	var us []*run
	mode := 1 + r.Intn(4)
	for i := 0; i < na; i++ {
		u := newRun(r, true, 0, mode)
		if together { // the library's own mutation methods share one random source
			for u.mutName == "gaussian" || u.mutName == "uniform" {
				u = newRun(r, true, 0, mode)
			}
		}
		u.q.stateful = false
		c.Note("%v, %d processors, delays %d, together %v", u, procs, mode, together)
		us = append(us, u)
		if u.size > 128 {
			c.Obs("over_128_members", 1)
		}
	}
	gens := 2 + r.Intn(8)
	if c.I%500 == 250 {
		// one evaluation of one generation takes seconds
		u := us[r.Intn(na)]
		slow := wl.Pick(r, 600, 700, 1200, 2300, 3500, 5500, 11000)
		at := int64(1 + r.Intn(2*u.size*gens))
		inner, calls := u.q.delay, int64(0)
		u.q.delay = func() {
			inner()
			if atomic.AddInt64(&calls, 1) == at {
				time.Sleep(time.Duration(slow) * time.Millisecond)
				c.Obs("slow_evaluations", 1)
			}
		}
		c.Note("one evaluation takes %d ms", slow)
	}
	if na == 1 && mode == 1 && us[0].size*us[0].n < 50 && r.Intn(100) == 0 {
		c.Obs("very_long_runs", 1)
		gens = 1000 + r.Intn(1000)
	}
	check := func(u *run, g int) string {
		q := u.q
		if n := atomic.LoadInt32(&q.open); n != 0 {
			return fmt.Sprintf("%v: generation %d: %d evaluations are running after the step returned", u, g, n)
		}
		before := atomic.LoadInt64(&q.total)
		for i := 0; i < 3; i++ {
			runtime.Gosched()
		}
		ev, _, probs := q.take()
		if len(probs) > 0 {
			return fmt.Sprintf("%v: generation %d: %v", u, g, probs)
		}
		if int64(len(ev)) != atomic.LoadInt64(&q.total) || before != int64(len(ev)) {
			return fmt.Sprintf("%v: generation %d: %d evaluations began, %d ended", u, g, before, len(ev))
		}
		atomic.AddInt64(&q.total, -int64(len(ev)))
		min, max := u.size, u.size
		if u.modified {
			min -= u.cut
		}
		if len(ev) < min || len(ev) > max {
			return fmt.Sprintf("%v: generation %d: %d evaluations, want %d to %d", u, g, len(ev), min, max)
		}
		per := map[*fake]int{}
		order := ""
		inOrder := true
		last := 0
		for _, e := range ev {
			per[e.fn]++
			order += fmt.Sprintf("%d,", e.fn.id)
			if e.fn.id < last {
				inOrder = false
			}
			last = e.fn.id
		}
		if u.evName != "one" {
			for f, n := range per {
				if n > 1 {
					return fmt.Sprintf("%v: generation %d: the function of one member (%d) was evaluated %d times", u, g, f.id, n)
				}
			}
		}
		if !inOrder {
			c.Obs("distinct_orders", 1)
		}
		c.Eval(!inOrder, order, u.String())
		c.Obs("evaluations", len(ev))
		c.Obs("generations", 1)
		return ""
	}
	if !together {
		for g := 0; g <= gens; g++ {
			for _, u := range us {
				if g > 0 {
					u.algo.Step()
				}
				msg := check(u, g)
				c.Check(msg == "", "%s", msg)
			}
		}
		return
	}
	msgs := make([]string, na)
	var wg sync.WaitGroup
	for i, u := range us {
		wg.Add(1)
		go func(i int, u *run) {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					msgs[i] = fmt.Sprintf("%v: panic %v", u, e)
				}
			}()
			for g := 0; g <= gens && msgs[i] == ""; g++ {
				if g > 0 {
					u.algo.Step()
				}
				msgs[i] = check(u, g)
			}
		}(i, u)
	}
	wg.Wait()
	for _, m := range msgs {
		c.Check(m == "", "%s", m)
	}
}
