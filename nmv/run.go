package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// ---------------------------------------------------------------------------
// A check is a function that is run for a fixed number of cases. Every random
// choice of a case comes from the seed, the property, the stage and the index
// of the case, so a case can be repeated alone.

// Case is one generated execution.
type Case struct {
	*rand.Rand
	Prop   string
	Stage  string
	Index  int
	rec    *Rec
	log    []string
	failed bool
	mute   bool
}

// Rec is what one worker has observed.
type Rec struct {
	counts  map[string]int64
	sigs    map[uint64]struct{}
	samples []string
	evals   int64
}

func newRec() *Rec {
	return &Rec{counts: map[string]int64{}, sigs: map[uint64]struct{}{}}
}

// Violation is one refuted case.
type Violation struct {
	Stage  string
	Index  int
	What   string
	Detail []string
	Known  string
}

// Run is one execution of a check.
type Run struct {
	Prop    string
	Tier    string
	Seed    uint64
	Rule    string
	Assume  []string
	Workers int
	Only    string // stage:index, to repeat one case.

	mu         sync.Mutex
	rec        *Rec
	violations []Violation
	known      map[string]int
	stop       atomic.Bool
	stages     []string

	progress atomic.Int64
	inflight []atomic.Pointer[string]
	started  []atomic.Int64
}

const maxViolations = 5

var thorough bool

// scale returns the number of cases of a stage.
func scale(quick, deep int) int {
	n := 3 * quick
	if thorough {
		n = 3 * deep
	}
	if percent > 0 {
		n = max(n*percent/100, 20)
	}
	return n
}

// The tools of the development run shorter checks.
var percent, _ = strconv.Atoi(os.Getenv("NMV_PERCENT"))

type failure struct{}

// Fail records the violation and ends the case.
func (c *Case) Fail(format string, args ...any) {
	c.failed = true
	c.log = append(c.log, "FAIL: "+fmt.Sprintf(format, args...))
	panic(failure{})
}

// Logf writes a line of the case's history.
func (c *Case) Logf(format string, args ...any) {
	if len(c.log) < 4000 {
		c.log = append(c.log, fmt.Sprintf(format, args...))
	}
}

// Count counts what the monitors observed.
func (c *Case) Count(name string) { c.rec.counts[name]++ }

// CountN adds n to the counter.
func (c *Case) CountN(name string, n int) { c.rec.counts[name] += int64(n) }

// Eval counts one evaluation of the oracle. The signature tells the distinct
// non-trivial ones; an empty signature is trivial.
func (c *Case) Eval(sig string) {
	c.rec.evals++
	if sig == "" {
		return
	}
	h := fnv.New64a()
	h.Write([]byte(sig))
	c.rec.evals--
	c.EvalHash(h.Sum64())
}

// EvalHash counts one evaluation with the hash of its signature.
func (c *Case) EvalHash(sig uint64) {
	c.rec.evals++
	if len(c.rec.sigs) < 2_000_000 {
		c.rec.sigs[sig] = struct{}{}
	}
}

// Sample keeps some of the actual cases.
func (c *Case) Sample(format string, args ...any) {
	if c.Index < 6 && len(c.rec.samples) < 3 {
		c.rec.samples = append(c.rec.samples, fmt.Sprintf(format, args...))
	}
}

// P returns true with the probability p.
func (c *Case) P(p float64) bool { return p > 0 && c.Float64() < p }

// Pick returns one of the strings.
func (c *Case) Pick(ss ...string) string { return ss[c.IntN(len(ss))] }

func pick[T any](r *rand.Rand, ss []T) T { return ss[r.IntN(len(ss))] }

func seedOf(seed uint64, parts ...any) (uint64, uint64) {
	h := fnv.New64a()
	fmt.Fprint(h, seed)
	for _, p := range parts {
		fmt.Fprint(h, "|", p)
	}
	a := h.Sum64()
	fmt.Fprint(h, "|2")
	return a, h.Sum64()
}

// newCase returns a case for a custom, sequential stage.
func (run *Run) newCase(stage string, i int, rec *Rec) *Case {
	a, b := seedOf(run.Seed, run.Prop, stage, i)
	return &Case{Rand: rand.New(rand.NewPCG(a, b)), Prop: run.Prop, Stage: stage,
		Index: i, rec: rec}
}

// Stage runs n cases of fn in parallel.
func (run *Run) Stage(stage string, n int, fn func(c *Case)) {
	run.stage(stage, n, run.Workers, fn)
}

// StageSeq runs n cases of fn one after another.
func (run *Run) StageSeq(stage string, n int, fn func(c *Case)) {
	run.stage(stage, n, 1, fn)
}

func (run *Run) stage(stage string, n, workers int, fn func(c *Case)) {
	if run.Only != "" {
		if !strings.HasPrefix(run.Only, stage+":") {
			return
		}
	}
	run.stages = append(run.stages, fmt.Sprintf("%s x%d", stage, n))
	var next atomic.Int64
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			rec := newRec()
			for {
				i := int(next.Add(1)) - 1
				if i >= n || run.stop.Load() {
					break
				}
				if run.Only != "" && run.Only != fmt.Sprintf("%s:%d", stage, i) {
					continue
				}
				id := fmt.Sprintf("%s:%d", stage, i)
				run.started[w].Store(time.Now().UnixNano())
				run.inflight[w].Store(&id)
				run.one(stage, i, rec, fn)
				run.inflight[w].Store(nil)
				run.progress.Add(1)
			}
			run.merge(rec)
		}(w)
	}
	wg.Wait()
}

func (run *Run) one(stage string, i int, rec *Rec, fn func(c *Case)) {
	c := run.newCase(stage, i, rec)
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(failure); !ok {
				c.log = append(c.log, fmt.Sprintf("FAIL: panic: %v", p))
				c.log = append(c.log, strings.Split(string(debug.Stack()), "\n")...)
			}
			run.violate(c)
		}
	}()
	fn(c)
}

func (run *Run) violate(c *Case) {
	what := "?"
	for _, l := range c.log {
		if strings.HasPrefix(l, "FAIL: ") {
			what = l[6:]
		}
	}
	run.mu.Lock()
	defer run.mu.Unlock()
	run.violations = append(run.violations, Violation{
		Stage: c.Stage, Index: c.Index, What: what, Detail: c.log,
	})
	if len(run.violations) >= maxViolations {
		run.stop.Store(true)
	}
}

// Known reports a reproduced known finding.
func (run *Run) Known(key, what string) {
	run.mu.Lock()
	defer run.mu.Unlock()
	if run.known == nil {
		run.known = map[string]int{}
	}
	run.known[key+" "+what]++
}

func (run *Run) merge(rec *Rec) {
	run.mu.Lock()
	defer run.mu.Unlock()
	for k, v := range rec.counts {
		run.rec.counts[k] += v
	}
	for k := range rec.sigs {
		run.rec.sigs[k] = struct{}{}
	}
	run.rec.evals += rec.evals
	if len(run.rec.samples) < 6 {
		run.rec.samples = append(run.rec.samples, rec.samples...)
	}
}

// ---------------------------------------------------------------------------

// Result is what the child process reports to its parent.
type Result struct {
	Prop       string
	Evals      int64
	Distinct   int
	Counts     map[string]int64
	Samples    []string
	Stages     []string
	Rule       string
	Assume     []string
	Violations []Violation
	Known      map[string]int
	Wall       float64
}

func (run *Run) result(wall float64) *Result {
	sort.Strings(run.rec.samples)
	if len(run.rec.samples) > 6 {
		run.rec.samples = run.rec.samples[:6]
	}
	return &Result{
		Prop: run.Prop, Evals: run.rec.evals, Distinct: len(run.rec.sigs),
		Counts: run.rec.counts, Samples: run.rec.samples, Stages: run.stages,
		Rule: run.Rule, Assume: run.Assume,
		Violations: run.violations, Known: run.known, Wall: wall,
	}
}

const hangLimit = 100 * time.Second

// watch ends the process when a case makes no progress. A case normally takes
// a few milliseconds, so it's decided by a limit that no load can reach.
func (run *Run) watch(out string) {
	start := time.Now()
	for {
		time.Sleep(time.Second)
		for w := range run.inflight {
			id := run.inflight[w].Load()
			if id == nil {
				continue
			}
			d := time.Since(time.Unix(0, run.started[w].Load()))
			if d < hangLimit {
				continue
			}
			buf := make([]byte, 1<<20)
			buf = buf[:runtime.Stack(buf, true)]
			run.mu.Lock()
			stage, idx, _ := strings.Cut(*id, ":")
			var i int
			fmt.Sscan(idx, &i)
			run.violations = append(run.violations, Violation{
				Stage: stage, Index: i,
				What:   fmt.Sprintf("the case hasn't ended in %v", hangLimit),
				Detail: strings.Split(string(buf), "\n"),
			})
			writeJSON(out, run.result(time.Since(start).Seconds()))
			run.mu.Unlock()
			os.Exit(0)
		}
	}
}

func writeJSON(path string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		panic(err)
	}
	os.MkdirAll(filepath.Dir(path), 0o755)
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		panic(err)
	}
}
