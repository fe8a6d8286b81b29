package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

func setFlag(name, value string) {
	if err := flag.Set(name, value); err != nil {
		panic(inconclusive{err})
	}
}

type workerResult struct {
	Evals      int64             `json:"evals"`
	Enumerated int64             `json:"enumerated"`
	Distinct   []uint64          `json:"distinct"`
	Labels     map[string]int64  `json:"labels"`
	Samples    []json.RawMessage `json:"samples"`
	Failure    *failure          `json:"failure,omitempty"`
	Trouble    string            `json:"trouble,omitempty"`
}

func main() {
	testing.Init()
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Uint64("seed", 1, "seed")
	scratch := flag.String("scratch", "", "scratch directory")
	verif := flag.String("verif", "/verif", "root of the framework")
	worker := flag.Int("worker", -1, "internal: worker number")
	workers := flag.Int("workers", 8, "number of workers")
	trace := flag.String("trace", "", "internal: write each case to this file before running it")
	replay := flag.String("replay", "", "replay file to run instead of exploring")
	replayChild := flag.String("replay-child", "", "internal: run one case in this process")
	limit := flag.Int("limit", -1, "internal: run a command with a limited file size")
	scale := flag.Float64("scale", 1, "multiplies the number of drawn cases")
	flag.Parse()

	if *limit >= 0 {
		os.Exit(doLimit(*limit, flag.Args()))
	}
	if *replay != "" {
		os.Exit(doReplay(*replay))
	}
	if *replayChild != "" {
		os.Exit(doReplayChild(*replayChild))
	}
	p := registry[*prop]
	if p == nil {
		ids := []string{}
		for id := range registry {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Fprintf(os.Stderr, "unknown property %q; known: %v\n", *prop, ids)
		os.Exit(2)
	}
	if *worker >= 0 {
		os.Exit(doWorker(p, *tier, *seed, *scratch, *worker, *workers, *trace, *scale))
	}
	os.Exit(doParent(p, *tier, *seed, *scratch, *verif, *workers, *scale))
}

func splitmix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func resultPath(scratch string, worker int) string {
	return filepath.Join(scratch, fmt.Sprintf("worker-%d.json", worker))
}

func doWorker(p *Prop, tier string, seed uint64, scratch string, worker, workers int, trace string, scale float64) (code int) {
	runtime.GOMAXPROCS(4)
	debug.SetGCPercent(200)
	limitMemory()
	r := &runner{p: p, s: newStats(), tier: tier, trace: trace}
	finish := func(trouble string) int {
		res := workerResult{Evals: r.s.Evals, Enumerated: r.s.Enumerated, Labels: r.s.Labels, Samples: r.s.Samples, Failure: r.fail, Trouble: trouble}
		for k := range r.s.distinct {
			res.Distinct = append(res.Distinct, k)
		}
		b, err := json.Marshal(res)
		if err == nil {
			err = os.WriteFile(resultPath(scratch, worker), b, 0o644)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		return 0
	}
	r.onRunaway = func(c Case, why string) {
		// Called from the watching goroutine while the case still runs: the
		// collected statistics may be changing, so only the failure is reported.
		f := r.fail
		if f == nil {
			f = &failure{caseJSON(c), why}
		}
		b, _ := json.Marshal(workerResult{Failure: f, Evals: 1})
		if os.WriteFile(resultPath(scratch, worker), b, 0o644) != nil {
			os.Exit(2)
		}
		os.Exit(0)
	}
	go r.watch()

	total := p.Quick
	if tier == "thorough" {
		total = p.Thorough
	}
	total = int(float64(total) * scale)
	checks := total / workers
	if worker < total%workers {
		checks++
	}
	// Rapid treats seed 0 as "random".
	h := fnv.New64a()
	h.Write([]byte(p.ID))
	ws := splitmix(splitmix(seed^h.Sum64()) + uint64(worker))
	if ws == 0 {
		ws = 1
	}
	defer func() {
		if e := recover(); e != nil {
			finish(fmt.Sprintf("%v\n%s", e, debug.Stack()))
			code = 0
		}
	}()
	if err := r.explore(worker, workers, checks, ws); err != nil {
		return finish(err.Error())
	}
	return finish("")
}

func startWorker(p *Prop, tier string, seed uint64, scratch string, w, workers int, trace string, scale float64, limit time.Time) (exit int, stderr string) {
	args := []string{"-prop", p.ID, "-tier", tier, "-seed", strconv.FormatUint(seed, 10), "-scratch", scratch,
		"-worker", strconv.Itoa(w), "-workers", strconv.Itoa(workers), "-scale", strconv.FormatFloat(scale, 'g', -1, 64)}
	if trace != "" {
		args = append(args, "-trace", trace)
	}
	cmd := exec.Command(os.Args[0], args...)
	errFile, err := os.Create(filepath.Join(scratch, fmt.Sprintf("worker-%d.stderr", w)))
	if err != nil {
		return -1, err.Error()
	}
	defer errFile.Close()
	cmd.Stderr = errFile
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "VERIF_SCRATCH="+scratch)
	if err := cmd.Start(); err != nil {
		return -1, err.Error()
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(time.Until(limit)):
		cmd.Process.Kill()
		<-done
		return -2, "time limit of the whole check reached"
	}
	b, _ := os.ReadFile(errFile.Name())
	if len(b) > 6000 {
		b = append(b[:3000:3000], b[len(b)-3000:]...)
	}
	return cmd.ProcessState.ExitCode(), string(b)
}

func doParent(p *Prop, tier string, seed uint64, scratch, verif string, workers int, scale float64) int {
	start := time.Now()
	if p.Workers > 0 {
		workers = p.Workers
	}
	limit := start.Add(820 * time.Second)
	if tier == "thorough" {
		limit = start.Add(3 * time.Hour)
	}
	var wg sync.WaitGroup
	results := make([]*workerResult, workers)
	troubles := make([]string, workers)
	minimised := int32(0)
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			trace := ""
			tracePath := filepath.Join(scratch, fmt.Sprintf("trace-%d.json", w))
			if p.AlwaysTrace {
				trace = tracePath
			}
			exit, stderr := startWorker(p, tier, seed, scratch, w, workers, trace, scale, limit)
			if exit != 0 && exit > 0 && trace == "" && exit != 2 {
				exit, stderr = startWorker(p, tier, seed, scratch, w, workers, tracePath, scale, limit)
				if exit == 0 {
					troubles[w] = "worker died once but not when repeated"
					return
				}
			}
			if exit == 2 && trace == "" && isFatal(stderr) {
				exit, stderr = startWorker(p, tier, seed, scratch, w, workers, tracePath, scale, limit)
			}
			if exit == 0 {
				b, err := os.ReadFile(resultPath(scratch, w))
				res := &workerResult{}
				if err == nil {
					err = json.Unmarshal(b, res)
				}
				if err != nil {
					troubles[w] = err.Error()
					return
				}
				troubles[w] = res.Trouble
				results[w] = res
				return
			}
			if exit == 66 || (exit == 2 && isFatal(stderr)) {
				b, err := os.ReadFile(tracePath)
				if err == nil && json.Valid(b) {
					f := &failure{b, "process died: " + stderr}
					if atomic.AddInt32(&minimised, 1) == 1 {
						f = minimise(p, scratch, w, f)
					}
					results[w] = &workerResult{Evals: 1, Failure: f}
					return
				}
			}
			troubles[w] = fmt.Sprintf("worker %d ended with status %d: %s", w, exit, stderr)
		}(w)
	}
	wg.Wait()

	var fail *failure
	total := workerResult{Labels: map[string]int64{}}
	distinct := map[uint64]struct{}{}
	for _, r := range results {
		if r == nil {
			continue
		}
		total.Evals += r.Evals
		total.Enumerated += r.Enumerated
		for _, k := range r.Distinct {
			distinct[k] = struct{}{}
		}
		for k, v := range r.Labels {
			total.Labels[k] += v
		}
		if len(total.Samples) < 6 {
			total.Samples = append(total.Samples, r.Samples...)
		}
		if r.Failure != nil && (fail == nil || len(r.Failure.Case) < len(fail.Case)) {
			fail = r.Failure
		}
	}
	if len(total.Samples) > 6 {
		total.Samples = total.Samples[:6]
	}
	violations := 0
	if fail != nil {
		violations = 1
		h := fnv.New64a()
		h.Write(fail.Case)
		dir := filepath.Join(verif, "replays")
		if err := os.MkdirAll(dir, 0o755); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		path := filepath.Join(dir, fmt.Sprintf("%s-%016x.json", p.ID, h.Sum64()))
		b, _ := json.MarshalIndent(map[string]any{"property": p.ID, "error": fail.Error, "case": fail.Case}, "", " ")
		if err := os.WriteFile(path, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		fmt.Printf("%s fails: %s\n", p.ID, fail.Error)
		if len(fail.Case) < 3000 {
			fmt.Printf("case: %s\n", fail.Case)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
	}
	trouble := ""
	for _, t := range troubles {
		if t != "" {
			trouble = t
		}
	}
	ev := map[string]any{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations":         total.Evals,
			"distinct_nontrivial": int64(len(distinct)) + total.Enumerated,
			"rule":                p.Rule,
			"samples":             total.Samples,
			"labels":              total.Labels,
			"drawn_distinct":      len(distinct),
			"enumerated_distinct": total.Enumerated,
			"workers":             workers,
		},
		"assumptions": p.Assumptions,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  violations,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.MkdirAll(filepath.Join(verif, "evidence"), 0o755); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if err := os.WriteFile(filepath.Join(verif, "evidence", p.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if fail != nil {
		return 1
	}
	if trouble != "" {
		fmt.Fprintln(os.Stderr, "inconclusive:", trouble)
		return 2
	}
	fmt.Printf("%s held: %d evaluations, %d distinct non-trivial, %.1f s\n", p.ID, total.Evals, int64(len(distinct))+total.Enumerated, time.Since(start).Seconds())
	return 0
}

// isFatal recognises unrecoverable run-time errors raised by the code under test.
func isFatal(stderr string) bool {
	for _, m := range []string{"stack overflow", "stack exceeds", "fatal error: all goroutines are asleep", "concurrent map", "fatal error: runtime: out of memory", "runtime: out of memory", "DATA RACE"} {
		if strings.Contains(stderr, m) {
			return true
		}
	}
	return false
}

// doReplay runs one case in a process of its own, which may die of it.
func doReplay(path string) int {
	code, out := replayOnce(path)
	fmt.Print(out)
	if code == 66 || code == 2 && isFatal(out) {
		b, _ := os.ReadFile(path)
		var f struct {
			Property string `json:"property"`
		}
		json.Unmarshal(b, &f)
		fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, path)
		return 1
	}
	return code
}

func replayOnce(path string) (int, string) {
	cmd := exec.Command(os.Args[0], "-replay-child", path)
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
	out, err := cmd.CombinedOutput()
	if cmd.ProcessState == nil {
		return 2, err.Error()
	}
	return cmd.ProcessState.ExitCode(), string(out)
}

// minimise shrinks a case that ends the process: each candidate runs in a process of its own.
func minimise(p *Prop, scratch string, w int, f *failure) *failure {
	deadline := time.Now().Add(40 * time.Second)
	path := filepath.Join(scratch, fmt.Sprintf("min-%d.json", w))
	for progress := true; progress; {
		progress = false
		c := p.New()
		if json.Unmarshal(f.Case, c) != nil {
			return f
		}
		sm, ok := c.(interface{ Smaller() []Case })
		if !ok {
			return f
		}
		for _, cand := range sm.Smaller() {
			if time.Now().After(deadline) {
				return f
			}
			b, _ := json.Marshal(map[string]any{"property": p.ID, "case": cand})
			if os.WriteFile(path, b, 0o644) != nil {
				return f
			}
			for try := 0; try < 2; try++ {
				if code, out := replayOnce(path); code == 66 || code == 2 && isFatal(out) {
					if len(out) > 5000 {
						out = out[:5000]
					}
					f, progress = &failure{caseJSON(cand), "process died: " + out}, true
					break
				}
			}
			if progress {
				break
			}
		}
	}
	return f
}

func doReplayChild(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var f struct {
		Property string          `json:"property"`
		Case     json.RawMessage `json:"case"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p := registry[f.Property]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", f.Property)
		return 2
	}
	c := p.New()
	if err := json.Unmarshal(f.Case, c); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	r := &runner{p: p, s: newStats(), onRunaway: func(c Case, why string) {
		fmt.Println(why)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		os.Exit(1)
	}}
	limitMemory()
	go r.watch()
	if err := r.run(c); err != nil {
		fmt.Println(err)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		return 1
	}
	fmt.Println("the case passes")
	return 0
}
