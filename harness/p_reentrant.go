package main

import (
	"bytes"
	"fmt"
	"strings"
	"sync"

	"github.com/deNULL/dawg"
	"pgregory.net/rapid"
)

// ---- C20: building, writing and reading at the same time ----

// A job is done by one goroutine.
type job struct {
	Lex int `json:"lex,omitempty"`
	// Kind: insert (builder of its own, up to the index), dict, guide, ranked, cmp, index, rindex (from
	// the shared automaton and dictionary), write, read, query
	Kind string `json:"kind"`
	N    int    `json:"n,omitempty"`
}

type reentrantCase struct {
	Lexes []Lex `json:"lexes"`
	Jobs  []job `json:"jobs"`
}

// site is what the jobs of one key set share.
type site struct {
	*shared
	d   *dawg.Dawg
	img []byte
}

func buildSite(m *Model) (*site, error) {
	b, err := build(m)
	if err != nil {
		return nil, err
	}
	s := &site{shared: &shared{m: m, dict: b.Dict, guide: dawg.BuildGuide(b.D, b.Dict), rank: dawg.BuildRankedGuide(b.D, b.Dict)}, d: b.D}
	if s.guide == nil || s.rank == nil {
		return nil, fmt.Errorf("building a guide failed")
	}
	s.index = [2]*dawg.Index{dawg.BuildIndex(s.dict, s.guide), dawg.BuildIndex(s.dict, s.rank)}
	if s.index[0] == nil || s.index[1] == nil {
		return nil, fmt.Errorf("building an index failed")
	}
	return s, nil
}

func cmpFor(n int) func(a, b int32) bool {
	switch n % 3 {
	case 0:
		return func(a, b int32) bool { return a > b }
	case 1:
		return func(a, b int32) bool { return a&7 < b&7 }
	}
	return func(a, b int32) bool { return false }
}

// do performs a job and gives the bytes of what it made.
func (j job) do(s *site) ([]byte, error) {
	var buf bytes.Buffer
	out := func(ok bool) ([]byte, error) {
		if !ok {
			return nil, fmt.Errorf("writing to memory failed")
		}
		return buf.Bytes(), nil
	}
	switch j.Kind {
	case "insert":
		b := dawg.NewDawgBuilderWithSize(1 + j.N%300)
		if err := insertAll(b, s.m); err != nil {
			return nil, err
		}
		d := dawg.NewDawg()
		b.Finish(d)
		var unused uint32
		dict := d.BuildWithUnused(&unused)
		if dict == nil {
			return nil, fmt.Errorf("building the dictionary failed")
		}
		g := dawg.BuildGuide(d, dict)
		if g == nil {
			return nil, fmt.Errorf("building the guide failed")
		}
		x := dawg.BuildIndex(dict, g)
		if x == nil {
			return nil, fmt.Errorf("building the index failed")
		}
		fmt.Fprint(&buf, d.NumOfStates(), d.NumOfTransitions(), d.NumOfMergedStates(), d.NumOfMergingStates(), d.NumOfMergedTransitions(), unused)
		return out(dict.Write(&buf) && g.Write(&buf) && x.Write(&buf))
	case "dict":
		var unused uint32
		dict := s.d.BuildWithUnused(&unused)
		if dict == nil {
			return nil, fmt.Errorf("building the dictionary failed")
		}
		fmt.Fprint(&buf, unused, s.d.NumOfStates())
		return out(dict.Write(&buf))
	case "guide":
		g := dawg.BuildGuide(s.d, s.dict)
		if g == nil {
			return nil, fmt.Errorf("building the guide failed")
		}
		return out(g.Write(&buf))
	case "ranked", "cmp":
		g := dawg.BuildRankedGuide(s.d, s.dict)
		if j.Kind == "cmp" {
			g = dawg.BuildRankedGuideCmp(s.d, s.dict, cmpFor(j.N))
		}
		if g == nil {
			return nil, fmt.Errorf("building the ranked guide failed")
		}
		return out(g.Write(&buf))
	case "index", "rindex":
		var g dawg.SomeGuide = s.guide
		if j.Kind == "rindex" {
			g = s.rank
		}
		x := dawg.BuildIndex(s.dict, g)
		if x == nil {
			return nil, fmt.Errorf("building the index failed")
		}
		return out(x.Write(&buf))
	case "write":
		return s.image()
	case "read":
		n := &site{shared: &shared{m: s.m}}
		r := bytes.NewReader(s.img)
		n.dict, n.guide, n.rank = dawg.ReadDictionary(r), dawg.ReadGuide(r), dawg.ReadRankedGuide(r)
		n.index = [2]*dawg.Index{dawg.ReadIndex(r), dawg.ReadIndex(r)}
		if n.dict == nil || n.guide == nil || n.rank == nil || n.index[0] == nil || n.index[1] == nil {
			return nil, fmt.Errorf("reading back failed")
		}
		return n.image()
	default: // query
		var sb strings.Builder
		ix := dawg.NewIndexer(s.dict, s.guide, s.index[0])
		c, rc := dawg.NewCompleter(s.dict, s.guide), dawg.NewRankedCompleter(s.dict, s.rank)
		c.Start(s.dict.Root())
		rc.Start(s.dict.Root())
		for i := 0; i < 40 && c.Next() && rc.Next(); i++ {
			fmt.Fprintf(&sb, "%q %d %q %d %d\n", c.Key(), c.Value(), rc.Key(), rc.Value(), ix.StringToIndex(c.Key()))
			if err := checkLookup(s.dict, s.m, c.Key()); err != nil {
				return nil, err
			}
		}
		for i := 0; i < len(s.m.Keys) && i < 40; i++ {
			fmt.Fprintf(&sb, "%q\n", ix.IndexToString(uint32(i)))
		}
		return []byte(sb.String()), nil
	}
}

func (c *reentrantCase) Run(s *Stats) error {
	var alone, at []*site
	for _, l := range c.Lexes {
		m := l.Model()
		for _, list := range []*[]*site{&alone, &at} {
			x, err := buildSite(m)
			if err != nil {
				return err
			}
			*list = append(*list, x)
		}
		img, err := alone[len(alone)-1].image()
		if err != nil {
			return err
		}
		alone[len(alone)-1].img, at[len(at)-1].img = img, img
	}
	want := make([][]byte, len(c.Jobs))
	for i, j := range c.Jobs {
		var err error
		if want[i], err = j.do(alone[j.Lex%len(alone)]); err != nil {
			return fmt.Errorf("job %d (%s) alone: %w", i, j.Kind, err)
		}
	}
	errs := make([]error, len(c.Jobs))
	var ready, done sync.WaitGroup
	begin := make(chan struct{})
	for i, j := range c.Jobs {
		ready.Add(1)
		done.Add(1)
		go func(i int, j job) {
			defer done.Done()
			defer func() {
				if e := recover(); e != nil {
					errs[i] = fmt.Errorf("job %d (%s) panics when run at the same time as others: %v", i, j.Kind, e)
				}
			}()
			ready.Done()
			<-begin
			for round := 0; round < 2; round++ {
				got, err := j.do(at[j.Lex%len(at)])
				if err != nil {
					errs[i] = fmt.Errorf("job %d (%s) at the same time as others: %w", i, j.Kind, err)
					return
				}
				if !bytes.Equal(got, want[i]) {
					errs[i] = fmt.Errorf("job %d (%s) gives something else when run at the same time as others", i, j.Kind)
					return
				}
			}
		}(i, j)
	}
	ready.Wait()
	close(begin)
	done.Wait()
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	for i, x := range at {
		img, err := x.image()
		if err != nil {
			return err
		}
		if !bytes.Equal(img, x.img) {
			return fmt.Errorf("the objects of key set %d have changed", i)
		}
		again := x.d.Build()
		if again == nil {
			return fmt.Errorf("building the dictionary once more failed")
		}
		b, err := dictImage(again)
		if err != nil {
			return err
		}
		if !bytes.HasPrefix(x.img, b) {
			return fmt.Errorf("the automaton of key set %d has changed", i)
		}
	}
	builds, same := 0, map[int]int{}
	for _, j := range c.Jobs {
		if j.Kind != "query" && j.Kind != "write" && j.Kind != "read" {
			builds++
			same[j.Lex%len(at)]++
		}
		s.Label("job "+j.Kind, true)
	}
	shared := false
	for i, n := range same {
		shared = shared || n >= 2 && len(at[i].m.Keys) >= 2
	}
	s.Nontrivial(builds >= 2 && shared)
	return nil
}

func (c *reentrantCase) Smaller() []Case {
	var out []Case
	if len(c.Jobs) > 1 {
		for i := range c.Jobs {
			n := *c
			n.Jobs = append(append([]job{}, c.Jobs[:i]...), c.Jobs[i+1:]...)
			out = append(out, &n)
		}
	}
	for i := range c.Lexes {
		if len(c.Lexes[i].Keys) > 2 || c.Lexes[i].Shape != nil {
			n := *c
			n.Lexes = append([]Lex{}, c.Lexes...)
			n.Lexes[i] = Lex{Keys: []B{"a", "ab"}, Vals: []int32{1, 2}}
			out = append(out, &n)
		}
	}
	return out
}

var jobKinds = []string{"insert", "dict", "guide", "ranked", "cmp", "index", "rindex", "write", "read", "query"}

func genReentrant(t *rapid.T) Case {
	c := &reentrantCase{}
	for i := rapid.IntRange(1, 2).Draw(t, "sets"); i > 0; i-- {
		if rapid.IntRange(0, 5).Draw(t, "shape") == 0 {
			c.Lexes = append(c.Lexes, drawShape(t, 400))
		} else {
			c.Lexes = append(c.Lexes, drawExplicit(t, 15, 6))
		}
	}
	n := rapid.IntRange(2, 8).Draw(t, "jobs")
	main := rapid.SampledFrom(jobKinds[:7]).Draw(t, "main")
	for i := 0; i < n; i++ {
		j := job{Lex: rapid.IntRange(0, len(c.Lexes)-1).Draw(t, "lex"), Kind: main, N: rapid.IntRange(0, 299).Draw(t, "n")}
		if rapid.Bool().Draw(t, "other") {
			j.Kind = rapid.SampledFrom(jobKinds).Draw(t, "kind")
		}
		c.Jobs = append(c.Jobs, j)
	}
	return c
}

// fixedReentrant: every pair of kinds, on the same and on different key sets.
func fixedReentrant(tier string) []Case {
	var out []Case
	lexes := []Lex{
		{},
		{Shape: &Shape{Kind: "random", N: 300, Alpha: 2, MaxLen: 5, Seed: 3}, Mode: "mixed"},
		{Shape: &Shape{Kind: "product", N: 200, Alpha: 3, MaxLen: 6, Seed: 4}, Mode: "small"},
	}
	for _, a := range jobKinds {
		for _, b := range jobKinds {
			out = append(out, &reentrantCase{Lexes: lexes, Jobs: []job{{1, a, 1}, {1, b, 2}, {2, a, 3}, {2, b, 4}, {0, a, 5}, {1, a, 6}}})
		}
	}
	all := &reentrantCase{Lexes: lexes}
	for i, k := range append(append([]string{}, jobKinds...), jobKinds...) {
		all.Jobs = append(all.Jobs, job{1 + i/len(jobKinds), k, i})
	}
	return append(out, all)
}

func init() {
	register(&Prop{
		ID: "C20", Rule: "at least two building jobs on the same key set of at least two keys; each case runs the jobs one after another and then from goroutines under the race detector",
		New: func() Case { return &reentrantCase{} }, Quick: 6000, Thorough: 100000,
		Gen: genReentrant, Fixed: fixedReentrant, AlwaysTrace: true,
		Assumptions: []string{"every goroutine has its own builder, target object and stream"},
	})
}
