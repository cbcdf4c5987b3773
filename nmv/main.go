package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

// check is the machinery of one property.
type check struct {
	fn     func(run *Run)
	rule   string
	assume []string
	race   bool // The child is the binary built with the race detector.
}

var checks = map[string]*check{}

func register(prop, rule string, fn func(run *Run), assume ...string) *check {
	ch := &check{fn: fn, rule: rule, assume: assume}
	checks[prop] = ch
	return ch
}

func main() {
	var (
		child  = flag.String("child", "", "file of the child's result")
		only   = flag.String("case", "", "stage:index of the case to repeat")
		root   = flag.String("root", "/verif", "folder of the machinery")
		raceB  = flag.String("racebin", "", "binary built with the race detector")
		needs  = flag.Bool("needsrace", false, "print whether the property needs -race")
		seedF  = flag.String("seed", os.Getenv("VERIF_SEED"), "seed")
		tierF  = flag.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
		replay = flag.String("replay", "", "replay file")
	)
	flag.Parse()
	prop := flag.Arg(0)
	if *replay != "" {
		var rp replayFile
		b, err := os.ReadFile(*replay)
		if err == nil {
			err = json.Unmarshal(b, &rp)
		}
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		prop, *tierF = rp.Property, rp.Tier
		*seedF = strconv.FormatUint(rp.Seed, 10)
		if rp.Stage != "" {
			*only = fmt.Sprintf("%s:%d", rp.Stage, rp.Index)
		}
	}
	ch := checks[prop]
	if ch == nil {
		fmt.Println("unknown property", prop)
		os.Exit(2)
	}
	if *needs {
		fmt.Println(ch.race)
		return
	}
	seed, err := strconv.ParseUint(*seedF, 10, 64)
	if err != nil {
		seed = 1
	}
	tier := "quick"
	if *tierF == "thorough" {
		tier, thorough = "thorough", true
	}
	if *child != "" {
		runChild(prop, tier, seed, *child, *only, ch)
		return
	}
	os.Exit(runParent(prop, tier, seed, *root, *raceB, *only, ch))
}

func runChild(prop, tier string, seed uint64, out, only string, ch *check) {
	workers := runtime.NumCPU()
	if workers < 4 {
		workers = 4
	}
	if n, err := strconv.Atoi(os.Getenv("NMV_WORKERS")); err == nil && n > 0 {
		workers = n
	}
	run := &Run{
		Prop: prop, Tier: tier, Seed: seed, Rule: ch.rule, Assume: ch.assume,
		Workers: workers, Only: only, rec: newRec(),
	}
	run.inflight = make([]atomic.Pointer[string], workers)
	run.started = make([]atomic.Int64, workers)
	go run.watch(out)
	start := time.Now()
	ch.fn(run)
	run.mu.Lock()
	writeJSON(out, run.result(time.Since(start).Seconds()))
	os.Exit(0)
}

type replayFile struct {
	Property string   `json:"property"`
	Tier     string   `json:"tier"`
	Seed     uint64   `json:"seed"`
	Stage    string   `json:"stage,omitempty"`
	Index    int      `json:"index"`
	What     string   `json:"what"`
	Again    string   `json:"again"`
	History  []string `json:"history"`
}

func runParent(
	prop, tier string, seed uint64, root, raceBin, only string, ch *check,
) int {
	start := time.Now()
	self, err := os.Executable()
	if err != nil {
		self = os.Args[0]
	}
	if ch.race && raceBin != "" {
		self = raceBin
	}
	tmp, err := os.MkdirTemp("", "nmv-")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(tmp)
	out := filepath.Join(tmp, "out.json")

	cmd := exec.Command(self, "-child", out, "-case", only, "-seed",
		strconv.FormatUint(seed, 10), "-tier", tier, prop)
	cmd.Env = append(os.Environ(),
		"GORACE=halt_on_error=1 exitcode=66 history_size=3",
		"GOTRACEBACK=all", "GOMEMLIMIT=6GiB")
	var stderr bytes.Buffer
	cmd.Stdout = os.Stdout
	cmd.Stderr = &limited{buf: &stderr, n: 1 << 20}
	err = cmd.Run()

	res := &Result{Prop: prop, Rule: ch.rule, Assume: ch.assume,
		Counts: map[string]int64{}}
	b, rerr := os.ReadFile(out)
	if rerr == nil {
		rerr = json.Unmarshal(b, res)
	}
	if err != nil || rerr != nil {
		what := fmt.Sprintf("the process serving the requests ended: %v", err)
		switch s := stderr.String(); {
		case strings.Contains(s, "WARNING: DATA RACE"):
			what = "data race"
		case strings.Contains(s, "fatal error:"):
			i := strings.Index(s, "fatal error:")
			what, _, _ = strings.Cut(s[i:], "\n")
		case strings.Contains(s, "panic:"):
			i := strings.Index(s, "panic:")
			what, _, _ = strings.Cut(s[i:], "\n")
		}
		lines := strings.Split(stderr.String(), "\n")
		if len(lines) > 400 {
			lines = lines[:400]
		}
		res.Violations = append(res.Violations, Violation{What: what, Detail: lines})
	}

	var kks []string
	for k := range res.Known {
		kks = append(kks, k)
	}
	sort.Strings(kks)
	listed, _ := os.ReadFile(filepath.Join(root, "known-findings.txt"))
	for _, k := range kks {
		key, _, _ := strings.Cut(k, " ")
		if strings.Contains("\n"+string(listed), "\nopen: property="+prop+" "+key+" ") {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
			continue
		}
		res.Violations = append(res.Violations, Violation{What: k})
	}

	code := 0
	if len(res.Violations) == 0 && only == "" && res.Evals == 0 {
		// A run that observed nothing decides nothing.
		fmt.Println("nothing was observed")
		code = 2
	}

	evd := filepath.Join(root, "evidence")
	os.MkdirAll(filepath.Join(evd, "replays"), 0o755)
	for i, v := range res.Violations {
		file := filepath.Join(evd, "replays", fmt.Sprintf("%s-%d.json", prop, i))
		writeJSON(file, &replayFile{
			Property: prop, Tier: tier, Seed: seed, Stage: v.Stage, Index: v.Index,
			What: v.What, Again: "bash /verif/check.sh -replay " + file,
			History: v.Detail,
		})
		fmt.Printf("  %s:%d %s\n", v.Stage, v.Index, v.What)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, file)
		code = 1
	}
	if only != "" {
		for _, v := range res.Violations {
			fmt.Println(strings.Join(v.Detail, "\n"))
		}
		return code
	}

	cov := map[string]any{
		"evaluations":         res.Evals,
		"distinct_nontrivial": res.Distinct,
		"rule":                res.Rule,
		"samples":             res.Samples,
		"stages":              res.Stages,
		"observed":            res.Counts,
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": cov, "assumptions": res.Assume,
		"wall_s":     time.Since(start).Seconds(),
		"violations": len(res.Violations),
	}
	writeJSON(filepath.Join(evd, prop+".json"), ev)
	fmt.Printf("%s %s: %d evaluations, %d distinct, %.1fs, %d violations\n",
		prop, tier, res.Evals, res.Distinct, time.Since(start).Seconds(),
		len(res.Violations))
	return code
}

type limited struct {
	buf *bytes.Buffer
	n   int
}

func (l *limited) Write(p []byte) (int, error) {
	if l.buf.Len() < l.n {
		l.buf.Write(p)
	}
	return len(p), nil
}
