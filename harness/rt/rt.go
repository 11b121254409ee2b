// Package rt is the runtime of the monitors: it determines cases from a seed,
// runs them in an unprivileged child, records what was observed and turns
// observations into verdicts.
package rt

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Check is one property's monitor.
type Check struct {
	ID          string
	Level       string // exploration | fault_enumeration
	Rule        string
	Assumptions []string
	Run         func(r *Run)
	// CaseTimeout is how long one case may go on before it counts as hung.
	CaseTimeout time.Duration
}

type Violation struct {
	Sig    string   `json:"sig"`
	Case   int      `json:"case"`
	Part   string   `json:"part"`
	Detail string   `json:"detail"`
	Log    []string `json:"log"`
	Count  int      `json:"count"`
}

type Result struct {
	Property   string
	Done       bool
	Cases      int64
	Evals      int64
	Distinct   int
	Counts     map[string]int64
	Samples    []string
	Violations []*Violation
	Harness    []string // errors of the machinery itself
	Rule       string
	Level      string
	Assume     []string
	WallS      float64
	Seed       int
	Tier       string
}

type Run struct {
	ID       string
	Tier     string
	Seed     uint64
	Scratch  string
	Repeat   int // how often to run the only case
	Only     int // replay one case only (-1: all)
	OnlyPart string

	mu       sync.Mutex
	cases    atomic.Int64
	evals    atomic.Int64
	distinct map[uint64]struct{}
	counts   map[string]int64
	samples  []string
	viol     map[string]*Violation
	harness  []string
	floors   map[string]int64
	soft     map[string]int64
	active   sync.Map // *Case -> time.Time
	timeout  time.Duration
	start    time.Time
	check    *Check
}

// Thorough reports whether the thorough tier was asked for.
func (r *Run) Thorough() bool { return r.Tier == "thorough" }

// N picks the number of cases of the tier.
func (r *Run) N(quick, thorough int) int {
	if r.Thorough() {
		return thorough
	}
	return quick * max(1, quickScale[r.ID])
}

// quickScale evens the quick tier out: cheap checks run more cases.
var quickScale = map[string]int{
	"S01": 5, "S02": 8, "S03": 8, "S04": 8, "H01": 5, "H02": 4, "H03": 2, "F01": 5,
	"U01": 2, "U02": 3, "U03": 6, "U04": 2, "U05": 3, "U06": 2, "U07": 8,
	"T01": 3, "T02": 2, "T03": 4,
	"V02": 4, "V03": 5, "V04": 6, "V06": 4, "V07": 4, "V08": 4, "V09": 5, "V10": 5, "V11": 5,
	"O02": 2, "O03": 2, "P01": 2, "R01": 3,
}

func hash64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// Case is one generated case.
type Case struct {
	*rand.Rand
	R    *Run
	Part string
	Idx  int

	mu   sync.Mutex
	log  []string
	dir  string
	ndir int
	fail bool
}

func (c *Case) Logf(f string, a ...any) {
	c.mu.Lock()
	if len(c.log) < 4000 {
		c.log = append(c.log, fmt.Sprintf(f, a...))
	}
	c.mu.Unlock()
}

func (c *Case) Log() []string {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]string(nil), c.log...)
}

// Failed tells whether the case has reported a violation.
func (c *Case) Failed() bool { c.mu.Lock(); defer c.mu.Unlock(); return c.fail }

// Fail records a violation. sig identifies what fails, stably over cases.
func (c *Case) Fail(sig string, f string, a ...any) {
	c.mu.Lock()
	c.fail = true
	log := append([]string(nil), c.log...)
	c.mu.Unlock()
	c.R.addViolation(&Violation{Sig: sig, Case: c.Idx, Part: c.Part, Detail: fmt.Sprintf(f, a...), Log: log})
}

func (r *Run) addViolation(v *Violation) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if o, ok := r.viol[v.Sig]; ok {
		o.Count++
		if len(v.Log) < len(o.Log) { // keep the shortest history
			n := o.Count
			*o = *v
			o.Count = n
		}
		return
	}
	v.Count = 1
	r.viol[v.Sig] = v
}

// Harness records an error of the machinery itself (no verdict).
func (r *Run) HarnessErr(f string, a ...any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.harness) < 20 {
		r.harness = append(r.harness, fmt.Sprintf(f, a...))
	}
}

// Must aborts the case as a machinery error.
func (c *Case) Must(err error) {
	if err != nil {
		panic(harnessPanic{fmt.Sprintf("%s/%d: %v\n%s", c.Part, c.Idx, err, debug.Stack())})
	}
}

type harnessPanic struct{ msg string }

// Eval counts oracle evaluations.
func (r *Run) Eval(n int) { r.evals.Add(int64(n)) }

// Count counts an observed class of events.
func (r *Run) Count(class string) { r.CountN(class, 1) }
func (r *Run) CountN(class string, n int) {
	r.mu.Lock()
	r.counts[class] += int64(n)
	r.mu.Unlock()
}

// Distinct records a distinct non-trivial case.
func (r *Run) Distinct(key string) {
	h := hash64(key)
	r.mu.Lock()
	r.distinct[h] = struct{}{}
	r.mu.Unlock()
}

// Sample keeps the first few cases for the evidence.
func (r *Run) Sample(f string, a ...any) {
	r.mu.Lock()
	if len(r.samples) < 6 {
		s := fmt.Sprintf(f, a...)
		if len(s) > 1500 {
			s = s[:1500] + "..."
		}
		r.samples = append(r.samples, s)
	}
	r.mu.Unlock()
}

// Floor demands that a class was observed at least n times.
func (r *Run) Floor(class string, n int) {
	r.mu.Lock()
	r.floors[class] = int64(n)
	r.mu.Unlock()
}

// Soft is a Floor on what depends on the calls the code happens to make: where
// it makes others, the run says so but stands.
func (r *Run) Soft(class string, n int) {
	r.mu.Lock()
	r.soft[class] = int64(n)
	r.mu.Unlock()
}

// NewRand derives a generator from the run's seed and a label.
func (r *Run) NewRand(label string, i int) *rand.Rand {
	return rand.New(rand.NewPCG(r.Seed*0x9E3779B97F4A7C15+hash64(r.ID+"/"+label), uint64(i)+0x5851F42D4C957F2D))
}

// Base is the case's own scratch directory.
func (c *Case) Base() string { return filepath.Dir(c.Dir()) }

// Dir makes a fresh scratch directory of the case, removed when it ends.
func (c *Case) Dir() string {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.dir == "" {
		c.dir = filepath.Join(c.R.Scratch, fmt.Sprintf("%s-%d", c.Part, c.Idx))
		if err := os.Mkdir(c.dir, 0o755); err != nil {
			panic(harnessPanic{err.Error()})
		}
	}
	d := filepath.Join(c.dir, fmt.Sprint(c.ndir))
	c.ndir++
	if err := os.Mkdir(d, 0o755); err != nil {
		panic(harnessPanic{err.Error()})
	}
	return d
}

const RepoPrefix = "github.com/ngicks/go-fsys-helper/"

// TopRepoFrame names the innermost function of the code under test in a stack.
func TopRepoFrame(stack string) string {
	for _, l := range strings.Split(stack, "\n") {
		if strings.HasPrefix(l, RepoPrefix) {
			f := strings.TrimPrefix(l, RepoPrefix)
			// drop the argument list and generic brackets
			if i := strings.LastIndex(f, "("); i > 0 {
				f = f[:i]
			}
			f = strings.ReplaceAll(f, "[...]", "")
			return f
		}
	}
	return ""
}

// Cases runs n cases on par workers.
func (r *Run) Cases(part string, n int, fn func(c *Case)) {
	r.CasesPar(part, n, runtime.GOMAXPROCS(0), fn)
}

func (r *Run) CasesPar(part string, n, par int, fn func(c *Case)) {
	if r.OnlyPart != "" && r.OnlyPart != part {
		return
	}
	var next atomic.Int64
	var wg sync.WaitGroup
	for w := 0; w < par; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= n {
					return
				}
				if r.Only >= 0 && i != r.Only {
					continue
				}
				for range max(1, r.Repeat) {
					r.one(part, i, fn)
				}
			}
		}()
	}
	wg.Wait()
}

func (r *Run) one(part string, i int, fn func(c *Case)) {
	c := &Case{Rand: r.NewRand(part, i), R: r, Part: part, Idx: i}
	r.cases.Add(1)
	r.active.Store(c, time.Now())
	defer r.active.Delete(c)
	defer func() {
		if c.dir != "" {
			cleanup(c.dir)
		}
	}()
	defer func() {
		if p := recover(); p != nil {
			if h, ok := p.(harnessPanic); ok {
				r.HarnessErr("%s", h.msg)
				return
			}
			st := string(debug.Stack())
			// the frames below the panic call come first after "panic("
			if k := strings.Index(st, "\npanic("); k >= 0 {
				st = st[k:]
			}
			fr := TopRepoFrame(st)
			if fr == "" {
				r.HarnessErr("panic %v\n%s", p, st)
				return
			}
			c.Fail("panic:"+fr, "panic: %v\n%s", p, st)
		}
	}()
	fn(c)
	if r.Only >= 0 && r.Repeat < 2 {
		for _, l := range c.Log() {
			fmt.Println(l)
		}
	}
}

// cleanup removes a case directory even when modes were taken away.
func cleanup(dir string) {
	if os.RemoveAll(dir) == nil {
		return
	}
	filepath.WalkDir(dir, func(p string, d os.DirEntry, err error) error {
		if d != nil && d.IsDir() {
			os.Chmod(p, 0o755)
		}
		return nil
	})
	os.RemoveAll(dir)
}

// Go runs fn in a goroutine that turns panics of the code under test into
// violations of the case; the returned function waits for it.
func (c *Case) Go(wg *sync.WaitGroup, fn func()) {
	wg.Add(1)
	go func() {
		defer wg.Done()
		defer func() {
			if p := recover(); p != nil {
				if h, ok := p.(harnessPanic); ok {
					c.R.HarnessErr("%s", h.msg)
					return
				}
				st := string(debug.Stack())
				if k := strings.Index(st, "\npanic("); k >= 0 {
					st = st[k:]
				}
				fr := TopRepoFrame(st)
				if fr == "" {
					c.R.HarnessErr("panic %v\n%s", p, st)
					return
				}
				c.Fail("panic:"+fr, "panic: %v\n%s", p, st)
			}
		}()
		fn()
	}()
}

func (r *Run) watchdog(out string) {
	for {
		time.Sleep(2 * time.Second)
		var hung *Case
		r.active.Range(func(k, v any) bool {
			if time.Since(v.(time.Time)) > r.timeout {
				hung = k.(*Case)
				return false
			}
			return true
		})
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		big := ms.HeapAlloc > 6<<30
		if hung == nil && !big {
			continue
		}
		buf := make([]byte, 4<<20)
		buf = buf[:runtime.Stack(buf, true)]
		sig := "hang"
		if big {
			sig = "memory"
		}
		fr := hangFrame(string(buf))
		if fr == "" && hung != nil {
			r.HarnessErr("case %s/%d hangs without a frame of the code under test\n%s", hung.Part, hung.Idx, buf)
			r.write(out, false)
			os.Exit(2)
		}
		v := &Violation{Sig: sig + ":" + fr, Case: -1, Detail: string(buf)}
		if hung != nil {
			v.Case, v.Part, v.Log = hung.Idx, hung.Part, hung.Log()
		}
		r.addViolation(v)
		r.write(out, true)
		os.Exit(0)
	}
}

// hangFrame picks the code under test from a dump of all goroutines.
func hangFrame(dump string) string {
	best := ""
	for _, g := range strings.Split(dump, "\n\n") {
		if fr := TopRepoFrame(g); fr != "" && (best == "" || fr < best) {
			best = fr
		}
	}
	return best
}

func (r *Run) write(out string, done bool) {
	r.mu.Lock()
	defer r.mu.Unlock()
	res := Result{Property: r.ID, Done: done, Cases: r.cases.Load(), Evals: r.evals.Load(), Distinct: len(r.distinct),
		Counts: r.counts, Samples: r.samples, Harness: r.harness, Rule: r.check.Rule, Level: r.check.Level,
		Assume: r.check.Assumptions, WallS: time.Since(r.start).Seconds(), Tier: r.Tier}
	for _, v := range r.viol {
		res.Violations = append(res.Violations, v)
	}
	sort.Slice(res.Violations, func(i, j int) bool { return res.Violations[i].Sig < res.Violations[j].Sig })
	if done && r.Only < 0 && r.OnlyPart == "" {
		for k, n := range r.floors {
			if r.counts[k] < n {
				res.Harness = append(res.Harness, fmt.Sprintf("observed only %d of at least %d %q", r.counts[k], n, k))
			}
		}
		for k, n := range r.soft {
			if r.counts[k] < n {
				fmt.Fprintf(os.Stderr, "note: observed only %d of the usual %d %q\n", r.counts[k], n, k)
			}
		}
	}
	b, _ := json.Marshal(res)
	if err := os.WriteFile(out, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "write result:", err)
		os.Exit(2)
	}
}

// Local gives a goroutine of the case a private view of it: counting and
// logging through it synchronizes with nobody, which would hide data races
// from the detector. Merge brings it home when the goroutine has ended.
func (c *Case) Local(rnd *rand.Rand) *Case {
	r := &Run{ID: c.R.ID, Tier: c.R.Tier, Seed: c.R.Seed, distinct: map[uint64]struct{}{}, counts: map[string]int64{}, viol: map[string]*Violation{}, floors: map[string]int64{}, soft: map[string]int64{}}
	return &Case{Rand: rnd, R: r, Part: c.Part, Idx: c.Idx}
}

// Merge adds what a Local case saw.
func (c *Case) Merge(ls ...*Case) {
	for _, l := range ls {
		if l == nil {
			continue
		}
		c.R.evals.Add(l.R.evals.Load())
		for k, n := range l.R.counts {
			c.R.CountN(k, int(n))
		}
		c.R.mu.Lock()
		for k := range l.R.distinct {
			c.R.distinct[k] = struct{}{}
		}
		c.R.mu.Unlock()
		for _, h := range l.R.harness {
			c.R.HarnessErr("%s", h)
		}
		for _, v := range l.R.viol {
			c.mu.Lock()
			c.fail = true
			v.Log = append(append([]string(nil), c.log...), v.Log...)
			c.mu.Unlock()
			c.R.addViolation(v)
		}
	}
}
