package main

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Check is the state of one check run.
type Check struct {
	ID       string
	Tier     string
	Seed     uint64
	Thorough bool

	mu         sync.Mutex
	evals      int64
	distinct   map[uint64]struct{}
	counters   map[string]int64
	types      map[string]int
	samples    []any
	violations []Violation
	knownHits  map[string]string
	known      []Known
	rule       string
	assume     []string
	exhaustive bool
	start      time.Time
	need       map[string]int64 // minimum counters; fewer is inconclusive
	acorns     []*Acorn
}

type Violation struct {
	Property string `json:"property"`
	What     string `json:"what"`
	Mode     string `json:"mode,omitempty"`
	Src      string `json:"src"`
	Detail   any    `json:"detail,omitempty"`
	Replay   string `json:"-"`
}

// Worker is one of several goroutines that run cases.
type Worker struct {
	*Check
	id    int
	acorn *Acorn
	slot  *Slot

	// Observations, merged into the check by flush.
	mine      map[string]int64
	seen      map[uint64]struct{}
	mineEvals int64
}

func (w *Worker) count(name string, n int) { w.mine[name] += int64(n) }

func (w *Worker) eval() { w.mineEvals++ }

func (w *Worker) note(key string) {
	h := uint64(14695981039346656037)
	for i := 0; i < len(key); i++ {
		h = (h ^ uint64(key[i])) * 1099511628211
	}
	w.seen[h] = struct{}{}
	if len(w.seen) > 1<<16 {
		w.flush()
	}
}

// flush merges the worker's observations.
func (w *Worker) flush() {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.evals += w.mineEvals
	w.mineEvals = 0
	for k, n := range w.mine {
		w.counters[k] += n
		delete(w.mine, k)
	}
	for k := range w.seen {
		if len(w.distinct) < maxDistinct {
			w.distinct[k] = struct{}{}
		}
		delete(w.seen, k)
	}
}

// maxDistinct bounds the memory spent on counting distinct cases.
const maxDistinct = 20000000

// maxViolations is how many violations end a run.
var maxViolations = envInt("VERIF_MAXVIOL", 5)

func envInt(name string, def int) int {
	if n, err := strconv.Atoi(os.Getenv(name)); err == nil && n > 0 {
		return n
	}
	return def
}

func (c *Check) count(name string, n int) {
	c.mu.Lock()
	c.counters[name] += int64(n)
	c.mu.Unlock()
}

func (c *Check) eval() { atomic.AddInt64(&c.evals, 1) }

// note records a distinct non-trivial case.
func (c *Check) note(key string) {
	h := fnv.New64a()
	h.Write([]byte(key))
	c.mu.Lock()
	c.distinct[h.Sum64()] = struct{}{}
	c.mu.Unlock()
}

func (c *Check) noteTypes(tree any) {
	h := map[string]int{}
	countTypes(tree, h)
	c.mu.Lock()
	for k, n := range h {
		c.types[k] += n
	}
	c.mu.Unlock()
}

// sample keeps a few cases for the evidence.
func (c *Check) sample(v any) {
	c.mu.Lock()
	if len(c.samples) < 12 {
		c.samples = append(c.samples, v)
	}
	c.mu.Unlock()
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("... (%d bytes)", len(s))
	}
	return s
}

// violate records a violation, unless it is a known finding. It returns false
// when enough violations were recorded to stop.
func (c *Check) violate(what, mode, src string, detail any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, k := range c.known {
		if k.Mode == mode && k.Src == src {
			c.knownHits[k.line()] = k.line()
			return
		}
	}
	if len(c.violations) >= maxViolations {
		c.counters["violations_not_recorded"]++
		return
	}
	v := Violation{Property: c.ID, What: what, Mode: mode, Src: src, Detail: detail}
	sum := sha256.Sum256([]byte(what + "\x00" + mode + "\x00" + src))
	dir := filepath.Join(verifDir(), "out")
	os.MkdirAll(dir, 0o777)
	v.Replay = filepath.Join(dir, fmt.Sprintf("%s-%x.json", c.ID, sum[:5]))
	b, _ := json.MarshalIndent(v, "", "  ")
	os.WriteFile(v.Replay, b, 0o666)
	c.violations = append(c.violations, v)
	fmt.Printf("%s: %s\n  mode=%s input=%s\n", c.ID, what, mode, clip(strconv.Quote(src), 600))
	if detail != nil {
		db, _ := json.Marshal(detail)
		fmt.Printf("  %s\n", clip(string(db), 500))
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, v.Replay)
}

func (c *Check) stop() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.violations) >= maxViolations
}

// run executes n cases on all workers. Cases are independent and derive their
// randomness from their index.
func (c *Check) run(name string, n int, f func(w *Worker, i int, r *Rng)) {
	var next int64 = -1
	var wg sync.WaitGroup
	t0 := time.Now()
	for k := 0; k < numWorkers; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			w := c.worker(k)
			defer w.flush()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n || c.stop() {
					return
				}
				f(w, i, newRng(c.Seed, c.ID, name, i))
			}
		}(k)
	}
	wg.Wait()
	if os.Getenv("VERIF_VERBOSE") != "" {
		fmt.Fprintf(os.Stderr, "%s: %s: %d cases, %.1fs\n", c.ID, name, n, time.Since(t0).Seconds())
	}
}

var numWorkers = runtime.NumCPU()

var useAcorn = map[string]bool{"C31": true, "C30": true, "C07": true, "C08": true, "C09": true, "C10": true, "C11": true, "C12": true, "C13": true, "C14": true, "C15": true, "C16": true, "C22": true, "C23": true, "C26": true, "C27": true, "C04": true, "C05": true}

var workers []*Worker

func (c *Check) worker(k int) *Worker {
	c.mu.Lock()
	defer c.mu.Unlock()
	for len(workers) <= k {
		workers = append(workers, nil)
	}
	if workers[k] == nil {
		w := &Worker{Check: c, id: k, slot: theSlots.get(k), mine: map[string]int64{}, seen: map[uint64]struct{}{}}
		if useAcorn[c.ID] {
			a, err := startAcorn()
			if err != nil {
				fatalf("acorn: %v", err)
			}
			w.acorn = a
			c.acorns = append(c.acorns, a)
		}
		workers[k] = w
	}
	return workers[k]
}

// Known is an entry of the known-findings file.
type Known struct {
	Property string `json:"property"`
	Mode     string `json:"mode"`
	Src      string `json:"src"`
	What     string `json:"what"`
	Value    string `json:"value"` // the value the literal should have
}

func (k Known) line() string {
	return fmt.Sprintf("KNOWN-FINDING: property=%s %s", k.Property, k.What)
}

func loadKnown(id string) []Known {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		return nil
	}
	var l []Known
	for _, s := range strings.Split(string(b), "\n") {
		if rest, ok := strings.CutPrefix(s, "known: "); ok {
			var k Known
			if err := json.Unmarshal([]byte(rest), &k); err != nil {
				fatalf("known_findings.txt: %v: %s", err, s)
			}
			if k.Property == id {
				l = append(l, k)
			}
		}
	}
	return l
}

func (c *Check) finish() int {
	for _, w := range workers {
		if w != nil {
			w.flush()
		}
	}
	for _, a := range c.acorns {
		c.counters["acorn_parses"] += int64(a.n)
		a.close()
	}
	cov := map[string]any{
		"evaluations":         c.evals,
		"distinct_nontrivial": len(c.distinct),
		"rule":                c.rule,
		"samples":             c.samples,
	}
	if c.exhaustive {
		cov["exhaustive"] = true
	}
	ks := make([]string, 0)
	for k := range c.counters {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	obs := map[string]int64{}
	for _, k := range ks {
		obs[k] = c.counters[k]
	}
	cov["observed"] = obs
	if len(c.types) > 0 {
		cov["node_types_observed"] = c.types
	}
	c.assume = append(c.assume, "held on the executions counted here; nothing is claimed about inputs that were not run")
	ev := map[string]any{
		"property":    c.ID,
		"tier":        c.Tier,
		"seed":        c.Seed,
		"level":       "exploration",
		"coverage":    cov,
		"assumptions": c.assume,
		"wall_s":      time.Since(c.start).Seconds(),
		"violations":  len(c.violations),
	}
	writeEvidence(c.ID, ev)
	for _, l := range c.knownHits {
		fmt.Println(l)
	}
	if len(c.violations) > 0 {
		return 1
	}
	bad := 0
	for k, n := range c.need {
		got := c.counters[k]
		switch k {
		case "evaluations":
			got = c.evals
		case "distinct":
			got = int64(len(c.distinct))
		}
		if got < n {
			fmt.Printf("%s: inconclusive: observed only %d %s, need %d\n", c.ID, got, k, n)
			bad = 1
		}
	}
	if bad != 0 {
		return 2
	}
	fmt.Printf("%s: held on %d executions (%d distinct), %.1fs\n", c.ID, c.evals, len(c.distinct), time.Since(c.start).Seconds())
	return 0
}

func writeEvidence(id string, ev any) {
	b, err := json.MarshalIndent(ev, "", "  ")
	if err != nil {
		fatalf("evidence: %v", err)
	}
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0o777)
	if err := os.WriteFile(filepath.Join(dir, id+".json"), append(b, '\n'), 0o666); err != nil {
		fatalf("evidence: %v", err)
	}
}

var checks = map[string]func(c *Check){}

func newCheck(id string) *Check {
	seed := uint64(1)
	if s, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = s
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	return &Check{
		ID: id, Tier: tier, Seed: seed, Thorough: tier == "thorough",
		distinct: map[uint64]struct{}{}, counters: map[string]int64{}, types: map[string]int{},
		knownHits: map[string]string{}, known: loadKnown(id), start: time.Now(), need: map[string]int64{},
	}
}

// n scales a number of cases by the tier.
func (c *Check) n(quick int) int {
	if s := os.Getenv("VERIF_SCALE"); s != "" {
		if f, err := strconv.ParseFloat(s, 64); err == nil {
			return int(float64(quick) * f)
		}
	}
	if c.Thorough {
		return quick * 20
	}
	return quick
}

func main() {
	if len(os.Args) < 2 {
		fatalf("usage: harness CHECK | probe FILE | gen ...")
	}
	switch os.Args[1] {
	case "probe":
		probeMain(os.Args[2])
		return
	case "cost":
		os.Exit(costServer())
	case "iso":
		isoMain(os.Args[2])
		return
	case "dev":
		devMain(os.Args[2:])
		return
	}
	id := os.Args[1]
	f, ok := checks[id]
	if !ok {
		fatalf("unknown check %q", id)
	}
	if os.Getenv("VERIF_CHILD") == "" {
		os.Exit(supervise(id))
	}
	theSlots = openSlots(os.Getenv("VERIF_CHILD"))
	c := newCheck(id)
	f(c)
	os.Exit(c.finish())
}
