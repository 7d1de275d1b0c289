package props

import (
	"bytes"
	"compress/gzip"
	"context"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"runtime/pprof"
	"runtime/trace"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/RH12503/Triangula/algorithm"
	"github.com/RH12503/Triangula/algorithm/evaluator"
	"github.com/RH12503/Triangula/fitness"
	"github.com/RH12503/Triangula/generator"
	"github.com/RH12503/Triangula/mutation"
	"github.com/RH12503/Triangula/normgeom"
	"github.com/RH12503/Triangula/random"
	"github.com/RH12503/Triangula/utils"

	"verif/harness/mon"
	"verif/harness/wl"
)

func init() {
	mon.Register(&mon.Prop{
		ID: "T21", Quick: 4000, Thorough: 60000,
		Rule: "one case = one run of the output writer or the console runner over an algorithm that is interrupted (by a panic) at a drawn step, in a scratch directory; every call of Step is a crash point at which the files (or the captured standard output) are read and compared with the recorded generations; every 50th case writes a trace and every 200th a profile; points include odd floats and groups of changing length, every 8th algorithm is a real one; non-trivial = at least one finished batch; distinct by kind, batch length, number of steps and last best points",
		Assume: []string{
			"a crash point lies between two calls of the algorithm; a crash inside the rewriting of the output file is not covered (the library rewrites the file in place)",
			"a statistics line is parsed as two numbers separated by commas or blanks",
			"trace files are read by their batch framing (Go 1.22 or later), profiles by gzip and the protocol buffer framing",
		},
		Run:      runOutput,
		Watchdog: 120 * time.Second,
		MinObs:   map[string]int64{"crash_points": 40000, "batches": 5000, "stdout_lines": 2000, "traces": 60, "profiles": 15},
	})
}

type interrupted struct{}

type outState struct {
	gen int
	fit float64
	pts normgeom.NormPointGroup
}

// outAlgo is a scripted algorithm, or wraps a real one; it calls at before each step.
type outAlgo struct {
	real  algorithm.Algorithm
	r     *rand.Rand
	cur   outState
	at    func(step int)
	steps int
	tr    bool
	trs   []int
	spin  time.Duration
	odd   bool
	vary  bool
	most  int
}

func oddFloat(r *rand.Rand) float64 {
	switch r.Intn(8) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return math.SmallestNonzeroFloat64
	case 3:
		return 1e-7 * r.Float64()
	case 4:
		return math.Nextafter(1, 0)
	case 5:
		return float64(r.Intn(10)) / 10
	case 6:
		return 1e-300 * r.Float64()
	}
	return r.Float64()
}

func (a *outAlgo) Step() {
	a.at(a.steps)
	a.steps++
	if a.tr && trace.IsEnabled() {
		trace.Logf(context.Background(), "t21", "step<%d>", a.steps)
		a.trs = append(a.trs, a.steps)
	}
	if a.spin > 0 {
		for t := time.Now(); time.Since(t) < a.spin; {
			spinSink++
		}
	}
	if a.real != nil {
		a.real.Step()
		return
	}
	r := a.r
	a.cur.gen++
	switch r.Intn(6) {
	case 0:
		a.cur.fit = r.NormFloat64()
	case 1:
		a.cur.fit = -1e18 * r.Float64()
	case 2:
		a.cur.fit = float64(r.Intn(3))
	case 3: // unchanged
	default:
		a.cur.fit += 1e-9 * r.Float64()
	}
	if a.vary && r.Intn(3) == 0 {
		a.cur.pts = make(normgeom.NormPointGroup, r.Intn(a.most))
		for i := range a.cur.pts {
			a.cur.pts[i] = normgeom.NormPoint{X: r.Float64(), Y: r.Float64()}
		}
	}
	for i := range a.cur.pts { // in place, like the real algorithms
		if r.Intn(2) == 0 {
			continue
		}
		if a.odd {
			a.cur.pts[i] = normgeom.NormPoint{X: oddFloat(r), Y: oddFloat(r)}
		} else {
			a.cur.pts[i].X = r.Float64()
		}
	}
}

var spinSink int

func (a *outAlgo) Best() normgeom.NormPointGroup {
	if a.real != nil {
		return a.real.Best()
	}
	return a.cur.pts
}

func (a *outAlgo) Stats() algorithm.Stats {
	if a.real != nil {
		return a.real.Stats()
	}
	return algorithm.Stats{BestFitness: a.cur.fit, Generation: a.cur.gen, TimeForGen: 5}
}

func (a *outAlgo) state() outState {
	s := a.Stats()
	return outState{s.Generation, s.BestFitness, append(normgeom.NormPointGroup{}, a.Best()...)}
}

func newOutAlgo(r *rand.Rand, realOne bool) *outAlgo {
	a := &outAlgo{r: r, odd: r.Intn(2) == 0, vary: r.Intn(2) == 0, at: func(int) {}}
	if realOne {
		seed := r.Int63()
		rand.Seed(seed)
		random.Seed(seed)
		img, _ := wl.NewImg(r, 5+r.Intn(12), 5+r.Intn(12))
		n := 3 + r.Intn(6)
		a.real = algorithm.NewSimple(
			func() normgeom.NormPointGroup { return (generator.RandomGenerator{}).Generate(n) },
			6, 2,
			func(k int) evaluator.Evaluator {
				return evaluator.NewParallel(fitness.TrianglesImageFunctions(img, 2, k), 4)
			},
			mutation.DefaultGaussianMethod(n))
		return a
	}
	a.most = wl.Pick(r, 12, 12, 12, 12, 12, 12, 300, 300, 3000, 20000)
	a.cur.gen = wl.Pick(r, 0, 0, 0, 995, 999990, 1<<31-3, 1<<40)
	a.cur.pts = make(normgeom.NormPointGroup, r.Intn(a.most))
	for i := range a.cur.pts {
		a.cur.pts[i] = normgeom.NormPoint{X: r.Float64(), Y: r.Float64()}
	}
	return a
}

// parseStats reads complete lines of "generation, fitness".
func parseStats(b []byte) ([]outState, error) {
	if len(b) == 0 {
		return nil, nil
	}
	if b[len(b)-1] != '\n' {
		return nil, fmt.Errorf("the last line is not complete: %q", tail(b))
	}
	var out []outState
	for _, l := range strings.Split(strings.TrimSuffix(string(b), "\n"), "\n") {
		f := strings.FieldsFunc(l, func(q rune) bool { return q == ',' || q == ' ' || q == '\t' || q == '\r' })
		if len(f) != 2 {
			return nil, fmt.Errorf("line %q does not hold two values", l)
		}
		g, err := strconv.Atoi(f[0])
		if err != nil {
			return nil, fmt.Errorf("line %q: %v", l, err)
		}
		x, err := strconv.ParseFloat(f[1], 64)
		if err != nil {
			return nil, fmt.Errorf("line %q: %v", l, err)
		}
		out = append(out, outState{gen: g, fit: x})
	}
	return out, nil
}

func tail(b []byte) string {
	if len(b) > 80 {
		b = b[len(b)-80:]
	}
	return string(b)
}

func runOutput(c *mon.Ctx) {
	r := c.R
	dir, err := os.MkdirTemp("", "mon-T21-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	stdout, err := os.Create(filepath.Join(dir, "stdout"))
	if err != nil {
		panic(err)
	}
	old := os.Stdout
	os.Stdout = stdout
	defer func() { os.Stdout = old; stdout.Close() }()

	name := filepath.Join(dir, []string{"out", "out.json", "a b", "x-stats", "deep.name.txt"}[r.Intn(5)])
	if c.I%200 == 7 {
		profileCase(c, name)
		return
	}
	if c.I%50 == 3 {
		traceCase(c, name)
		return
	}
	a := newOutAlgo(r, c.I%8 == 5)
	reps := wl.Pick(r, 1, 1, 2, 3, 5, 10)
	stop := r.Intn(wl.Pick(r, 2, 20, 60))
	if a.most > 1000 {
		stop = r.Intn(4) + r.Intn(2)*reps
	}
	runner := r.Intn(3) == 0
	if !runner && r.Intn(2) == 0 { // leftovers of an earlier run
		junk := []byte(strings.Repeat("1, 2\njunk", r.Intn(300)))
		os.WriteFile(name, junk, 0644)
		os.WriteFile(name+"-stats", junk, 0644)
	}
	what := fmt.Sprintf("output writer, %d steps per batch", reps)
	if runner {
		what = fmt.Sprintf("console runner, %d steps per batch", reps)
	}
	c.Note("%s, interrupted before step %d, real algorithm %v", what, stop, a.real != nil)
	var want []outState // state at the end of each batch
	var viol string
	fail := func(f string, x ...interface{}) {
		viol = fmt.Sprintf("%s, before step %d: ", what, a.steps) + fmt.Sprintf(f, x...)
		panic(interrupted{})
	}
	sameLines := func(src string, b []byte) {
		got, err := parseStats(b)
		if err != nil {
			fail("%s: %v", src, err)
		}
		if len(got) != len(want) {
			fail("%s has %d lines after %d batches", src, len(got), len(want))
		}
		for i := range got {
			if got[i].gen != want[i].gen || got[i].fit != want[i].fit {
				fail("%s: line %d says generation %d with fitness %v, it was generation %d with %v", src, i, got[i].gen, got[i].fit, want[i].gen, want[i].fit)
			}
		}
	}
	a.at = func(step int) {
		if step > 0 && step%reps == 0 {
			want = append(want, a.state())
			c.Obs("batches", 1)
		}
		c.Obs("crash_points", 1)
		if len(a.state().pts) > 1000 {
			c.Obs("large_groups", 1)
		}
		if runner {
			b, err := os.ReadFile(filepath.Join(dir, "stdout"))
			if err != nil {
				panic(err)
			}
			sameLines("standard output", b)
			c.Obs("stdout_lines", len(want))
		} else if len(want) > 0 {
			last := want[len(want)-1]
			b, err := os.ReadFile(name)
			if err != nil {
				fail("no output file: %v", err)
			}
			var got normgeom.NormPointGroup
			if err := json.Unmarshal(b, &got); err != nil {
				fail("the output file cannot be parsed: %v: %q", err, tail(b))
			}
			if len(got) != len(last.pts) {
				fail("the output file holds %d points, the best group after %d batches has %d", len(got), len(want), len(last.pts))
			}
			for i := range got {
				if got[i] != last.pts[i] {
					fail("point %d in the output file is %v, the best group after %d batches has %v", i, got[i], len(want), last.pts[i])
				}
			}
			b, err = os.ReadFile(name + "-stats")
			if err != nil {
				fail("no statistics file: %v", err)
			}
			sameLines("the statistics file", b)
			c.Obs("files_compared", 2)
		}
		if step == stop {
			panic(interrupted{})
		}
	}
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(interrupted); !ok {
					panic(e)
				}
				return
			}
			viol = what + ": returned instead of running on"
		}()
		if runner {
			utils.RunAlgorithm(a, reps)
		} else {
			utils.GenerateAlgorithmOutput(name, a, reps)
		}
	}()
	c.Check(viol == "", "%s", viol)
	c.Eval(len(want) > 0, runner, reps, stop, a.state().pts)
}

func traceCase(c *mon.Ctx, name string) {
	r := c.R
	a := newOutAlgo(r, r.Intn(4) == 0)
	a.tr = true
	c.Note("trace, real algorithm %v", a.real != nil)
	utils.GenerateTrace(name, a)
	c.Obs("traces", 1)
	en := trace.IsEnabled()
	if en {
		trace.Stop()
	}
	c.Check(!en, "tracing is still on after the trace was generated")
	c.Check(a.steps > 0 && len(a.trs) > 0, "generating a trace ran %d steps, %d of them traced", a.steps, len(a.trs))
	c.Check(a.trs[len(a.trs)-1] == a.steps, "the trace ends at step %d, the run had %d", a.trs[len(a.trs)-1], a.steps)
	b, err := os.ReadFile(name + ".trace")
	c.Check(err == nil, "no trace file: %v", err)
	for _, s := range a.trs {
		c.Check(bytes.Contains(b, []byte(fmt.Sprintf("step<%d>", s))), "the trace file (%d bytes) does not hold step %d of %d", len(b), s, a.steps)
	}
	// the runtime ends every trace in the same way, as a trace into memory shows
	var probe bytes.Buffer
	trace.Start(&probe)
	trace.Stop()
	wantEnd, err := traceFrames(probe.Bytes())
	c.Check(err == nil, "the check cannot read a trace made by the runtime: %v", err)
	end, err := traceFrames(b)
	c.Check(err == nil, "the trace file (%d bytes) is not complete: %v", len(b), err)
	c.Check(end == wantEnd, "the trace file (%d bytes) ends with a part of kind %d, traces made by the runtime with one of kind %d: its end is missing", len(b), end, wantEnd)
	c.Obs("traced_steps", len(a.trs))
	c.Eval(true, "trace", c.I)
}

// traceFrames walks the parts of a trace and returns the kind of the last.
func traceFrames(b []byte) (byte, error) {
	if len(b) < 16 || !bytes.HasPrefix(b, []byte("go 1.")) {
		return 0, fmt.Errorf("no trace header")
	}
	p := 16
	uv := func() (uint64, error) {
		v, n := binary.Uvarint(b[p:])
		if n <= 0 {
			return 0, fmt.Errorf("number cut off at byte %d", p)
		}
		p += n
		return v, nil
	}
	batches := 0
	var last byte
	for p < len(b) {
		last = b[p]
		switch last {
		case 1, 49: // event batch, experimental batch
			ex := b[p] == 49
			p++
			if ex {
				p++
			}
			var size uint64
			for i := 0; i < 4; i++ {
				v, err := uv()
				if err != nil {
					return 0, err
				}
				size = v
			}
			if uint64(len(b)-p) < size {
				return 0, fmt.Errorf("batch cut off at byte %d: %d bytes of %d", p, len(b)-p, size)
			}
			p += int(size)
			batches++
		default: // end of generation and the like, a single byte
			p++
		}
	}
	if batches < 3 {
		return 0, fmt.Errorf("only %d batches", batches)
	}
	return last, nil
}

func cpuTime() time.Duration {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return time.Duration(u.Utime.Nano())
}

func profileCase(c *mon.Ctx, name string) {
	r := c.R
	a := newOutAlgo(r, r.Intn(4) == 0)
	secs := r.Intn(2)
	a.spin = time.Millisecond
	c.Note("profile of %d s, real algorithm %v", secs, a.real != nil)
	t, u := time.Now(), cpuTime()
	utils.GenerateProfile(name, a, secs)
	el, cpu := time.Since(t), cpuTime()-u
	c.Obs("profiles", 1)
	var probe bytes.Buffer
	err := pprof.StartCPUProfile(&probe)
	pprof.StopCPUProfile()
	c.Check(err == nil, "profiling is still on after the profile was generated: %v", err)
	c.Check(secs == 0 || a.steps > 0, "a profile of %d s ran no step", secs)
	c.Check(el >= time.Duration(secs)*time.Second-10*time.Millisecond, "a profile of %d s took %v", secs, el)
	f, err := os.Open(name + ".prof")
	c.Check(err == nil, "no profile: %v", err)
	defer f.Close()
	z, err := gzip.NewReader(f)
	c.Check(err == nil, "the profile is not complete: %v", err)
	b, err := io.ReadAll(z)
	c.Check(err == nil, "the profile is not complete: %v", err)
	// top level of the protocol buffer
	p, strs := 0, 0
	for p < len(b) {
		k, n := binary.Uvarint(b[p:])
		c.Check(n > 0, "the profile is cut off at byte %d", p)
		p += n
		v, n := binary.Uvarint(b[p:])
		c.Check(n > 0, "the profile is cut off at byte %d", p)
		p += n
		if k&7 == 2 {
			c.Check(uint64(len(b)-p) >= v, "the profile is cut off at byte %d", p)
			p += int(v)
		}
		if k>>3 == 6 {
			strs++
		}
	}
	c.Check(strs > 0, "the profile holds no strings")
	if secs > 0 && cpu > 400*time.Millisecond {
		c.Check(bytes.Contains(b, []byte("outAlgo).Step")), "the profile of %v of CPU time does not mention the algorithm's steps", cpu)
		c.Obs("profiles_with_samples", 1)
	}
	c.Eval(true, "profile", c.I)
}
