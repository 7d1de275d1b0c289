// Package mon runs monitors: it executes PRNG-determined cases of the real code in
// sharded child processes, collects what the oracles observed, and turns it into
// verdict lines, replay files and an evidence file.
package mon

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Prop is one monitored property.
type Prop struct {
	ID       string
	Quick    int    // number of cases in the quick tier
	Thorough int    // number of cases in the thorough tier
	Rule     string // how cases are made and what makes one non-trivial
	Assume   []string
	Run      func(c *Ctx)
	Watchdog time.Duration // per case; default 60 s
	Shards   int           // default 8
	MinObs   map[string]int64
}

// Props is the registry.
var Props = map[string]*Prop{}

// Register adds a property.
func Register(p *Prop) { Props[p.ID] = p }

// Violation is raised by Ctx.Fail.
type Violation struct{ Msg string }

// Ctx is handed to a case.
type Ctx struct {
	R     *rand.Rand
	I     int // index of the case
	N     int // number of cases in the tier
	Tier  string
	Seed  int64
	obs   map[string]int64
	desc  []string
	sigs  map[uint64]bool
	nt    bool
	mu    sync.Mutex
	evals int64
}

// Thorough says whether the deep tier runs.
func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// Note appends to the description of the case (shown in samples and replays).
func (c *Ctx) Note(f string, a ...interface{}) {
	c.mu.Lock()
	if len(c.desc) < 400 {
		c.desc = append(c.desc, fmt.Sprintf(f, a...))
	}
	c.mu.Unlock()
}

// Obs counts observed events.
func (c *Ctx) Obs(k string, n int) {
	c.mu.Lock()
	c.obs[k] += int64(n)
	c.mu.Unlock()
}

// Eval counts one oracle decision on the code's output; sig identifies the case
// (distinct sigs are counted), nontrivial says whether it counts.
func (c *Ctx) Eval(nontrivial bool, sig ...interface{}) {
	h := fnv.New64a()
	fmt.Fprint(h, sig...)
	c.mu.Lock()
	c.evals++
	if nontrivial && len(c.sigs) < 200000 {
		c.sigs[h.Sum64()] = true
	}
	c.mu.Unlock()
}

// Fail reports a violation and ends the case.
func (c *Ctx) Fail(f string, a ...interface{}) {
	panic(Violation{fmt.Sprintf(f, a...)})
}

// Check fails unless ok.
func (c *Ctx) Check(ok bool, f string, a ...interface{}) {
	if !ok {
		c.Fail(f, a...)
	}
}

type record struct {
	Case  int              `json:"case"`
	Start bool             `json:"start,omitempty"`
	Done  bool             `json:"done,omitempty"`
	Viol  string           `json:"viol,omitempty"`
	Desc  []string         `json:"desc,omitempty"`
	Obs   map[string]int64 `json:"obs,omitempty"`
	Evals int64            `json:"evals,omitempty"`
	Sigs  []uint64         `json:"sigs,omitempty"`
	Ms    int64            `json:"ms,omitempty"`
}

func caseSeed(seed int64, id string, i int) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", seed, id, i)
	return int64(h.Sum64() >> 1)
}

func runCase(p *Prop, tier string, seed int64, i, n int) (rec record) {
	c := &Ctx{R: rand.New(rand.NewSource(caseSeed(seed, p.ID, i))), I: i, N: n, Tier: tier, Seed: seed,
		obs: map[string]int64{}, sigs: map[uint64]bool{}}
	t := time.Now()
	defer func() {
		if e := recover(); e != nil {
			if v, ok := e.(Violation); ok {
				rec.Viol = v.Msg
			} else {
				st := string(debug.Stack())
				if len(st) > 4000 {
					st = st[:4000]
				}
				rec.Viol = fmt.Sprintf("panic: %v\n%s", e, st)
			}
		}
		rec.Case, rec.Done = i, true
		rec.Obs, rec.Evals = c.obs, c.evals
		for s := range c.sigs {
			rec.Sigs = append(rec.Sigs, s)
		}
		if rec.Viol != "" || i < 40 {
			rec.Desc = c.desc
		}
		rec.Ms = time.Since(t).Milliseconds()
	}()
	p.Run(c)
	return
}

func watchdog(p *Prop) time.Duration {
	if p.Watchdog == 0 {
		return 60 * time.Second
	}
	return p.Watchdog
}

// Child runs a shard (or, with only >= 0, a single case), writing records to path.
func Child(id, tier string, seed int64, shard, shards, only int, path string) {
	p := Props[id]
	n := p.Quick
	if tier == "thorough" {
		n = p.Thorough
	}
	f, err := os.Create(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
	w := bufio.NewWriter(f)
	var mu sync.Mutex
	emit := func(r record) {
		b, _ := json.Marshal(r)
		mu.Lock()
		w.Write(b)
		w.WriteByte('\n')
		w.Flush()
		mu.Unlock()
	}
	viol := 0
	for i := 0; i < n; i++ {
		if only >= 0 && i != only || only < 0 && i%shards != shard {
			continue
		}
		emit(record{Case: i, Start: true})
		k := i
		t := time.AfterFunc(watchdog(p), func() {
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, true)]
			fmt.Fprintf(os.Stderr, "WATCHDOG case %d\n%s\n", k, buf)
			os.Exit(3)
		})
		r := runCase(p, tier, seed, i, n)
		t.Stop()
		emit(r)
		if r.Viol != "" {
			viol++
			if viol >= 3 {
				break
			}
		}
	}
	f.Close()
}

type found struct {
	Case int
	Msg  string
	Desc []string
	Kind string
}

// Opts configures Parent.
type Opts struct {
	ID, Tier string
	Seed     int64
	Root     string // /verif
	Only     int    // >=0: a single case (replay)
	Race     bool
}

// Parent runs the whole check and returns the exit status.
func Parent(o Opts) int {
	p := Props[o.ID]
	if p == nil {
		fmt.Println("unknown property", o.ID)
		return 2
	}
	start := time.Now()
	n := p.Quick
	if o.Tier == "thorough" {
		n = p.Thorough
	}
	shards := p.Shards
	if shards == 0 {
		shards = 8
	}
	if o.Only >= 0 {
		shards = 1
	}
	work, err := os.MkdirTemp("", "mon-"+o.ID+"-")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(work)

	var mu sync.Mutex
	total := &agg{obs: map[string]int64{}, sigs: map[uint64]bool{}, samples: map[int][]string{}}
	var viols []found
	var inconclusive []string
	raceLogs := 0
	var wg sync.WaitGroup
	for s := 0; s < shards; s++ {
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			only := -1
			if o.Only >= 0 {
				only = o.Only
			}
			skipTo := 0
			_ = skipTo
			path := filepath.Join(work, fmt.Sprintf("s%d.jsonl", s))
			inflight, code, errTail := total.run(o, work, path, s, shards, only, &mu, &viols)
			if code == 0 {
				return
			}
			if code == 66 && inflight < 0 {
				return // race exit code, logs are read below
			}
			if inflight < 0 {
				mu.Lock()
				inconclusive = append(inconclusive, fmt.Sprintf("shard %d: child ended with %d outside any case: %s", s, code, errTail))
				mu.Unlock()
				return
			}
			// The child died or hung inside a case: decide by running that case alone.
			kind := "crash"
			if code == 3 {
				kind = "hang"
			}
			path2 := filepath.Join(work, fmt.Sprintf("s%d-re.jsonl", s))
			inflight2, code2, errTail2 := total.run(o, work, path2, 0, 1, inflight, &mu, &viols)
			mu.Lock()
			defer mu.Unlock()
			if code2 == 0 || (code2 == 66 && inflight2 < 0) {
				inconclusive = append(inconclusive, fmt.Sprintf("case %d: %s once, completed when run alone (rest of shard %d not run)", inflight, kind, s))
				return
			}
			what := fmt.Sprintf("the process died (exit %d)", code2)
			if code2 == 3 {
				what = fmt.Sprintf("the case did not complete within %v, twice", watchdog(p))
			}
			viols = append(viols, found{Case: inflight, Msg: what + "\n" + errTail2, Kind: kind})
			_ = errTail
		}(s)
	}
	wg.Wait()
	if o.Race {
		raceLogs = collectRaces(work, &viols)
	}
	sort.SliceStable(viols, func(i, j int) bool { return viols[i].Case < viols[j].Case })

	known := loadKnown(filepath.Join(o.Root, "known-findings.txt"), o.ID)
	exit := 0
	newViol := 0
	repdir := filepath.Join(o.Root, "out", "replay")
	os.MkdirAll(repdir, 0755)
	for _, v := range viols {
		if k := known.match(v.Msg); k != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", o.ID, k)
			continue
		}
		newViol++
		exit = 1
		if newViol > 5 {
			continue
		}
		rp := filepath.Join(repdir, fmt.Sprintf("%s-%s-s%d-c%d.json", o.ID, o.Tier, o.Seed, v.Case))
		b, _ := json.MarshalIndent(map[string]interface{}{
			"property": o.ID, "tier": o.Tier, "seed": o.Seed, "case": v.Case, "race": o.Race,
			"violation": v.Msg, "history": v.Desc,
			"replay_cmd": fmt.Sprintf("bash /verif/check.sh replay %s", rp),
		}, "", " ")
		os.WriteFile(rp, b, 0644)
		m := v.Msg
		if len(m) > 1500 {
			m = m[:1500] + "..."
		}
		fmt.Printf("case %d: %s\n", v.Case, m)
		fmt.Printf("VIOLATION property=%s replay=%s\n", o.ID, rp)
	}
	for _, s := range inconclusive {
		fmt.Println("INCONCLUSIVE:", s)
	}
	if o.Only >= 0 {
		return exit
	}
	// A run that observed too little decides nothing.
	if exit == 0 {
		if total.done < n-(n/20) {
			fmt.Printf("ERROR: only %d of %d cases were completed\n", total.done, n)
			exit = 2
		}
		for k, min := range p.MinObs {
			if total.obs[k] < min {
				fmt.Printf("ERROR: observed %d of %q, need %d: the run decides nothing\n", total.obs[k], k, min)
				exit = 2
			}
		}
	}
	cov := map[string]interface{}{
		"evaluations":         total.evals,
		"distinct_nontrivial": len(total.sigs),
		"rule":                p.Rule,
		"samples":             total.sampleList(),
		"cases":               total.done,
		"observed":            total.obs,
		"inconclusive":        len(inconclusive),
		"race_detector":       o.Race,
	}
	if o.Race {
		cov["race_report_blocks"] = raceLogs
	}
	ev := map[string]interface{}{
		"property": o.ID, "tier": o.Tier, "seed": o.Seed, "level": "exploration",
		"coverage": cov, "assumptions": append([]string{}, p.Assume...),
		"wall_s": time.Since(start).Seconds(), "violations": newViol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(o.Root, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(o.Root, "evidence", o.ID+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Println(err)
		return 2
	}
	var ks []string
	for k := range total.obs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	fmt.Printf("%s %s seed=%d: %d cases, %d oracle decisions, %d distinct, %d violation(s), %d inconclusive, %.1fs\n",
		o.ID, o.Tier, o.Seed, total.done, total.evals, len(total.sigs), newViol, len(inconclusive), time.Since(start).Seconds())
	for _, k := range ks {
		fmt.Printf("  observed %s: %d\n", k, total.obs[k])
	}
	return exit
}

type agg struct {
	obs     map[string]int64
	sigs    map[uint64]bool
	samples map[int][]string
	evals   int64
	done    int
}

func (t *agg) sampleList() []interface{} {
	var ks []int
	for k := range t.samples {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	var out []interface{}
	for _, k := range ks {
		if len(out) >= 6 {
			break
		}
		d := t.samples[k]
		if len(d) > 12 {
			d = append(append([]string{}, d[:12]...), fmt.Sprintf("... %d more", len(d)-12))
		}
		for i, s := range d {
			if len(s) > 400 {
				d[i] = s[:400] + "..."
			}
		}
		out = append(out, map[string]interface{}{"case": k, "events": d})
	}
	if out == nil {
		out = []interface{}{}
	}
	return out
}

// run executes one child and folds its records in. It returns the case that was in
// flight when the child ended (-1 if none), its exit code and the tail of its stderr.
func (t *agg) run(o Opts, work, path string, shard, shards, only int, mu *sync.Mutex, viols *[]found) (int, int, string) {
	exe, _ := os.Executable()
	cmd := exec.Command(exe, "child", o.ID, o.Tier, fmt.Sprint(o.Seed), fmt.Sprint(shard), fmt.Sprint(shards), fmt.Sprint(only), path)
	errPath := path + ".err"
	ef, _ := os.Create(errPath)
	cmd.Stderr = ef
	cmd.Stdout = ef
	cmd.Env = append(os.Environ(), "GODEBUG=randseednop=0,randautoseed=1")
	if o.Race {
		cmd.Env = append(cmd.Env, "GORACE=halt_on_error=0 exitcode=66 history_size=3 log_path="+filepath.Join(work, fmt.Sprintf("race.%d.%d", shard, only)))
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	runtime.LockOSThread() // Pdeathsig is per thread
	err := cmd.Start()
	code := 0
	if err != nil {
		code = 5
	} else {
		err = cmd.Wait()
		if err != nil {
			code = cmd.ProcessState.ExitCode()
			if code == -1 {
				code = 137
			}
		}
	}
	runtime.UnlockOSThread()
	ef.Close()
	inflight := -1
	f, err := os.Open(path)
	if err == nil {
		sc := bufio.NewScanner(f)
		sc.Buffer(make([]byte, 1<<20), 1<<28)
		mu.Lock()
		for sc.Scan() {
			var r record
			if json.Unmarshal(sc.Bytes(), &r) != nil {
				continue
			}
			if r.Start {
				inflight = r.Case
				continue
			}
			inflight = -1
			t.done++
			t.evals += r.Evals
			for k, v := range r.Obs {
				t.obs[k] += v
			}
			for _, s := range r.Sigs {
				if len(t.sigs) < 5000000 {
					t.sigs[s] = true
				}
			}
			if r.Desc != nil && r.Viol == "" {
				t.samples[r.Case] = r.Desc
			}
			if r.Viol != "" {
				*viols = append(*viols, found{Case: r.Case, Msg: r.Viol, Desc: r.Desc, Kind: "oracle"})
			}
		}
		mu.Unlock()
		f.Close()
	}
	b, _ := os.ReadFile(errPath)
	if len(b) > 3000 {
		b = append(b[:1500], b[len(b)-1500:]...)
	}
	return inflight, code, string(b)
}

func collectRaces(work string, viols *[]found) int {
	fs, _ := filepath.Glob(filepath.Join(work, "race.*"))
	n := 0
	seen := map[string]bool{}
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		for _, blk := range strings.Split(string(b), "==================") {
			if !strings.Contains(blk, "WARNING: DATA RACE") {
				continue
			}
			n++
			// deduplicate by the function names in the report
			var key []string
			for _, l := range strings.Split(blk, "\n") {
				l = strings.TrimSpace(l)
				if strings.HasSuffix(l, ")") && !strings.HasPrefix(l, "/") {
					key = append(key, l[:strings.LastIndex(l, "(")])
				}
			}
			k := strings.Join(key, ";")
			if seen[k] {
				continue
			}
			seen[k] = true
			*viols = append(*viols, found{Case: 0, Msg: "data race reported by the race detector:" + blk, Kind: "race"})
		}
	}
	return n
}

// known findings: lines "known: property=<id> key=<substring of the violation> -- <what fails>"
type knowns []struct{ key, what string }

func loadKnown(path, id string) knowns {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var ks knowns
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property="+id+" key=") {
			continue
		}
		r := strings.TrimPrefix(l, "known: property="+id+" key=")
		i := strings.Index(r, " -- ")
		if i < 0 {
			continue
		}
		ks = append(ks, struct{ key, what string }{r[:i], r[i+4:]})
	}
	return ks
}

func (k knowns) match(msg string) string {
	for _, e := range k {
		if strings.Contains(msg, e.key) {
			return e.what
		}
	}
	return ""
}
