package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"strconv"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"pgregory.net/rapid"
)

// Case is one generated input: a plain value that marshals to JSON and can be
// run without the generator library.
type Case interface {
	Run(s *Stats) error
}

// Prop ties a property to its generator and oracle.
type Prop struct {
	ID   string
	Rule string
	// New returns an empty case to unmarshal a replay file into.
	New func() Case
	// Gen draws a case.
	Gen func(t *rapid.T) Case
	// Fixed lists systematically enumerated cases (boundary shapes, exhaustive sweeps).
	Fixed func(tier string) []Case
	// Quick and Thorough are the total numbers of drawn cases.
	Quick, Thorough int
	Assumptions     []string
	// AlwaysTrace records every case before running it (race detector exits abruptly).
	AlwaysTrace bool
	// Only one worker at a time may run (unused by default).
	Workers int
}

var registry = map[string]*Prop{}

func register(p *Prop) { registry[p.ID] = p }

// Stats collects what a run really did.
type Stats struct {
	Evals      int64            // cases and inner evaluations run
	Enumerated int64            // distinct non-trivial inputs of exhaustive sweeps
	Labels     map[string]int64 // classification
	distinct   map[uint64]struct{}
	Samples    []json.RawMessage

	caseNontrivial bool
	quiet          bool
}

func newStats() *Stats {
	return &Stats{Labels: map[string]int64{}, distinct: map[uint64]struct{}{}}
}

// Nontrivial marks the running case as non-trivial if cond holds.
func (s *Stats) Nontrivial(cond bool) {
	if cond {
		s.caseNontrivial = true
	}
}

// Label counts the running case under a class.
func (s *Stats) Label(name string, cond bool) {
	if cond && !s.quiet {
		s.Labels[name]++
	}
}

// Sweep counts n inner inputs of an enumeration, nt of them non-trivial; the
// enumeration makes them distinct by construction.
func (s *Stats) Sweep(n, nt int64) {
	if !s.quiet {
		s.Evals += n
		s.Enumerated += nt
	}
}

type failure struct {
	Case  json.RawMessage `json:"case"`
	Error string          `json:"error"`
}

type runner struct {
	p     *Prop
	s     *Stats
	fail  *failure
	trace string
	tier  string
	// trouble holds what stopped a case for a reason that is not the code's.
	trouble string

	mu        sync.Mutex
	cur       Case
	curCPU    time.Duration
	curActive int32
	onRunaway func(c Case, why string)
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

const (
	runawayCPU  = 120 * time.Second
	runawayHeap = 5 << 29 // live bytes; the largest cases hold some hundred MiB
	addressMax  = 10 << 30
)

func heapBytes() uint64 {
	sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	metrics.Read(sample)
	return sample[0].Value.Uint64()
}

// limitMemory makes a runaway allocation end this process, not some other one.
func limitMemory() {
	debug.SetMemoryLimit(runawayHeap)
	if !raceEnabled { // the race detector maps terabytes
		syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: addressMax, Max: addressMax})
	}
}

// watch reports a case that does not come to an end: it is judged by the CPU
// time burnt (cases take milliseconds, the largest a few seconds) so that a
// busy machine makes no difference, or by runaway memory.
func (r *runner) watch() {
	for {
		time.Sleep(50 * time.Millisecond)
		if atomic.LoadInt32(&r.curActive) == 0 {
			continue
		}
		r.mu.Lock()
		c, start := r.cur, r.curCPU
		r.mu.Unlock()
		if c == nil {
			continue
		}
		if cpuTime()-start > runawayCPU {
			r.onRunaway(c, fmt.Sprintf("case did not terminate within %v of CPU time", runawayCPU))
		}
		if heapBytes() > runawayHeap {
			runtime.GC()
			if heapBytes() > runawayHeap {
				r.onRunaway(c, "case exhausted memory (runaway allocation)")
			}
		}
	}
}

// errInconclusive marks trouble of the harness itself, never a violation.
type inconclusive struct{ error }

func (r *runner) run(c Case) (err error) {
	if r.trace != "" {
		writeTrace(r.trace, c)
	}
	r.mu.Lock()
	r.cur, r.curCPU = c, cpuTime()
	r.mu.Unlock()
	atomic.StoreInt32(&r.curActive, 1)
	defer atomic.StoreInt32(&r.curActive, 0)
	s := r.s
	s.caseNontrivial = false
	if !s.quiet {
		s.Evals++
	}
	func() {
		defer func() {
			if e := recover(); e != nil {
				if inc, ok := e.(inconclusive); ok {
					r.trouble = inc.Error()
					panic(inc)
				}
				err = fmt.Errorf("panic: %v\n%s", e, trimStack(debug.Stack()))
			}
		}()
		err = c.Run(s)
	}()
	if err == nil && s.caseNontrivial && !s.quiet {
		b := caseJSON(c)
		h := fnv.New64a()
		h.Write(b)
		k := h.Sum64()
		if _, ok := s.distinct[k]; !ok {
			s.distinct[k] = struct{}{}
			n := len(s.distinct)
			if len(b) < 2000 && (n == 3 || n == 10 || n == 40) {
				s.Samples = append(s.Samples, b)
			}
		}
	}
	return err
}

func trimStack(b []byte) string {
	const max = 2500
	if len(b) > max {
		b = b[:max]
	}
	return string(b)
}

func caseJSON(c Case) []byte {
	b, err := json.Marshal(c)
	if err != nil {
		panic(inconclusive{err})
	}
	return b
}

func writeTrace(path string, c Case) {
	b := caseJSON(c)
	if err := os.WriteFile(path, b, 0o644); err != nil {
		panic(inconclusive{err})
	}
}

// tb is the minimal test handle rapid needs.
type tb struct{ failed bool }

type tbStop struct{}

func (t *tb) Helper()                   {}
func (t *tb) Name() string              { return "verif" }
func (t *tb) Logf(f string, a ...any)   { t.log(fmt.Sprintf(f, a...)) }
func (t *tb) Log(a ...any)              { t.log(fmt.Sprint(a...)) }
func (t *tb) Skipf(string, ...any)      { panic(tbStop{}) }
func (t *tb) Skip(...any)               { panic(tbStop{}) }
func (t *tb) SkipNow()                  { panic(tbStop{}) }
func (t *tb) Errorf(f string, a ...any) { t.log(fmt.Sprintf(f, a...)); t.failed = true }
func (t *tb) Error(a ...any)            { t.log(fmt.Sprint(a...)); t.failed = true }
func (t *tb) Fatalf(f string, a ...any) { t.Errorf(f, a...); panic(tbStop{}) }
func (t *tb) Fatal(a ...any)            { t.Error(a...); panic(tbStop{}) }
func (t *tb) FailNow()                  { t.failed = true; panic(tbStop{}) }
func (t *tb) Fail()                     { t.failed = true }
func (t *tb) Failed() bool              { return t.failed }
func (t *tb) log(msg string) {
	if os.Getenv("VERIF_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, msg)
	}
}

// explore runs the share of one worker. It returns the shrunk failure, if any.
func (r *runner) explore(worker, workers int, checks int, seed uint64) error {
	if r.p.Fixed != nil {
		for i, c := range r.p.Fixed(r.tier) {
			if i%workers != worker {
				continue
			}
			if err := r.run(c); err != nil {
				r.fail = &failure{caseJSON(c), err.Error()}
				return nil
			}
		}
	}
	if r.p.Gen == nil || checks == 0 {
		return nil
	}
	setFlag("rapid.checks", strconv.Itoa(checks))
	setFlag("rapid.seed", strconv.FormatUint(seed, 10))
	setFlag("rapid.nofailfile", "true")
	setFlag("rapid.shrinktime", "15s")
	t := &tb{}
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(tbStop); !ok {
					panic(e)
				}
			}
		}()
		rapid.Check(t, func(rt *rapid.T) {
			c := r.p.Gen(rt)
			if err := r.run(c); err != nil {
				r.s.quiet = true // shrinking re-runs are not counted
				b := caseJSON(c)
				// The last failing case executed is not always the smallest.
				if r.fail == nil || len(b) <= len(r.fail.Case) {
					r.fail = &failure{b, err.Error()}
				}
				rt.Fatalf("violation")
			}
		})
	}()
	if r.trouble != "" && r.fail == nil {
		return errors.New(r.trouble)
	}
	if t.failed && r.fail == nil {
		return errors.New("rapid reported a failure without a failing case (generator trouble)")
	}
	return nil
}
