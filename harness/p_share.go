package main

import (
	"bytes"
	"fmt"
	"strings"
	"sync"

	"github.com/deNULL/dawg"
	"pgregory.net/rapid"
)

// ---- C19: shared objects, independent readers ----

// A reader is a script over one of the two dictionaries.
type reader struct {
	Dict int      `json:"dict,omitempty"`
	Kind string   `json:"kind"` // lookup, walk, complete, ranked, index, rindex
	Ops  [][2]int `json:"ops"`
}

type shareCase struct {
	Lexes   [2]Lex   `json:"lexes"`
	Readers []reader `json:"readers"`
	// Order says whose operation is next; readers still unfinished at its end follow round-robin.
	Order []int `json:"order"`
	// Loaded: the objects used from goroutines were read from a stream.
	Loaded bool `json:"loaded,omitempty"`
}

// shared is what several readers use at once.
type shared struct {
	m     *Model
	dict  *dawg.Dictionary
	guide *dawg.Guide
	rank  *dawg.RankedGuide
	index [2]*dawg.Index // over the guide and over the ranked guide
}

func buildShared(l Lex) (*shared, error) {
	m := l.Model()
	b, err := build(m)
	if err != nil {
		return nil, err
	}
	s := &shared{m: m, dict: b.Dict, guide: dawg.BuildGuide(b.D, b.Dict), rank: dawg.BuildRankedGuide(b.D, b.Dict)}
	if s.guide == nil || s.rank == nil {
		return nil, fmt.Errorf("building a guide failed")
	}
	s.index = [2]*dawg.Index{dawg.BuildIndex(s.dict, s.guide), dawg.BuildIndex(s.dict, s.rank)}
	if s.index[0] == nil || s.index[1] == nil {
		return nil, fmt.Errorf("building an index failed")
	}
	return s, nil
}

func (s *shared) image() ([]byte, error) {
	var buf bytes.Buffer
	if !s.dict.Write(&buf) || !s.guide.Write(&buf) || !s.rank.Write(&buf) || !s.index[0].Write(&buf) || !s.index[1].Write(&buf) {
		return nil, fmt.Errorf("writing to memory failed")
	}
	return buf.Bytes(), nil
}

// reload gives equal objects read from a stream.
func (s *shared) reload() (*shared, error) {
	img, err := s.image()
	if err != nil {
		return nil, err
	}
	r := bytes.NewReader(img)
	n := &shared{m: s.m, dict: dawg.ReadDictionary(r), guide: dawg.ReadGuide(r), rank: dawg.ReadRankedGuide(r)}
	n.index = [2]*dawg.Index{dawg.ReadIndex(r), dawg.ReadIndex(r)}
	if n.dict == nil || n.guide == nil || n.rank == nil || n.index[0] == nil || n.index[1] == nil {
		return nil, fmt.Errorf("reading back failed")
	}
	return n, nil
}

// session is a running reader; step performs one operation and tells what was seen.
type session struct {
	step  func(op [2]int) string
	check func() error // whether results given out earlier are still what they were
}

func newSession(s *shared, r reader) *session {
	query := func(op [2]int) string {
		q := ""
		if n := len(s.m.Keys); n > 0 {
			q = s.m.Keys[op[0]%n]
		}
		x := op[1] / 4
		switch op[1] % 4 {
		case 1:
			q = q[:x%(len(q)+1)]
		case 2:
			q += string([]byte{byte(x)})
		case 3:
			if len(q) > 0 {
				b := []byte(q)
				b[x%len(b)] ^= 1 + byte(x)
				q = string(b)
			}
		}
		return q
	}
	prefix := func(op [2]int) (string, uint32, bool) {
		p, at := query([2]int{op[0], op[1]/2*4 + 1}), s.dict.Root()
		return p, at, s.dict.FollowString(p, &at)
	}
	none := func() error { return nil }
	switch r.Kind {
	case "walk":
		at, depth := s.dict.Root(), 0
		return &session{func(op [2]int) string {
			if op[1]%8 == 0 {
				at, depth = s.dict.Root(), 0
				return "root"
			}
			q, n := query([2]int{op[0], 0}), 0
			if depth < len(q) {
				q = q[depth:]
			} else {
				q = string([]byte{byte(op[0])})
			}
			if op[1]%8 < 4 {
				q = q[:1]
			}
			ok := s.dict.FollowStringCount(q, &at, &n)
			depth += n
			out := fmt.Sprint(ok, n, at, s.dict.HasValue(at))
			if s.dict.HasValue(at) {
				out += fmt.Sprint(" ", s.dict.Value(at))
			}
			return out
		}, none}
	case "complete", "ranked":
		var c completer = dawg.NewCompleter(s.dict, s.guide)
		if r.Kind == "ranked" {
			c = dawg.NewRankedCompleter(s.dict, s.rank)
		}
		started := false
		var given, copies []string
		return &session{func(op [2]int) string {
			if !started || op[1]%8 == 0 {
				p, at, ok := prefix(op)
				if !ok {
					return "no such prefix"
				}
				started = true
				switch op[1] / 8 % 3 {
				case 0:
					c.Start(at)
				case 1:
					c.StartString(at, p)
				default:
					c.StartStringLen(at, p, len(p))
				}
				return "started"
			}
			if !c.Next() {
				return "end"
			}
			k := c.Key()
			given, copies = append(given, k), append(copies, strings.Clone(k))
			return fmt.Sprintf("%q %d %d", k, c.Value(), c.Length())
		}, func() error {
			for i, k := range given {
				if k != copies[i] {
					return fmt.Errorf("the completion %q became %q later", clip(copies[i]), clip(k))
				}
			}
			return nil
		}}
	case "index", "rindex":
		var g dawg.SomeGuide = s.guide
		x := s.index[0]
		if r.Kind == "rindex" {
			g, x = s.rank, s.index[1]
		}
		ix := dawg.NewIndexer(s.dict, g, x)
		var given [][]byte
		var copies []string
		keep := func(b []byte) string {
			given, copies = append(given, b), append(copies, string(b))
			return string(b)
		}
		return &session{func(op [2]int) string {
			switch op[1] % 4 {
			case 0:
				return fmt.Sprint(ix.StringToIndex(query([2]int{op[0], op[1] / 4})), ix.TotalCount())
			case 1:
				return fmt.Sprint(ix.BytesToIndex([]byte(query([2]int{op[0], op[1] / 4}))))
			case 2:
				return fmt.Sprintf("%q", keep(ix.IndexToBytes(uint32(op[0]%(len(s.m.Keys)+2)))))
			default:
				_, at, ok := prefix(op)
				if !ok {
					return "no such prefix"
				}
				return fmt.Sprintf("%q %d", ix.IndexToString(uint32(op[0]%(len(s.m.Keys)+2))), x.ChildCount(at))
			}
		}, func() error {
			for i, b := range given {
				if string(b) != copies[i] {
					return fmt.Errorf("the result %q of IndexToBytes became %q later", clip(copies[i]), clip(string(b)))
				}
			}
			return nil
		}}
	default:
		return &session{func(op [2]int) string {
			q := query(op)
			// Plain lookups have the key set as oracle as well.
			if err := checkLookup(s.dict, s.m, q); err != nil {
				return "wrong: " + err.Error()
			}
			return fmt.Sprint(s.dict.FindString(q))
		}, none}
	}
}

func (c *shareCase) solo(objs func(i int) *shared, i int) ([]string, error) {
	r := c.Readers[i]
	ses := newSession(objs(r.Dict), r)
	var out []string
	for _, op := range r.Ops {
		seen := ses.step(op)
		if len(seen) > 6 && seen[:6] == "wrong:" {
			return nil, fmt.Errorf("reader %d (%s) alone: %s", i, r.Kind, seen)
		}
		out = append(out, seen)
	}
	return out, ses.check()
}

func (c *shareCase) Run(s *Stats) error {
	var objs, fresh, untouched [2]*shared
	var images [2][]byte
	var err error
	for i := range objs {
		if objs[i], err = buildShared(c.Lexes[i]); err != nil {
			return err
		}
		if fresh[i], err = buildShared(c.Lexes[i]); err != nil {
			return err
		}
		if images[i], err = objs[i].image(); err != nil {
			return err
		}
		// Not queried before the goroutines start.
		if c.Loaded {
			untouched[i], err = objs[i].reload()
		} else {
			untouched[i], err = buildShared(c.Lexes[i])
		}
		if err != nil {
			return err
		}
	}
	unchanged := func(when string, objs [2]*shared) error {
		for i, o := range objs {
			now, err := o.image()
			if err != nil {
				return err
			}
			if !bytes.Equal(now, images[i]) {
				return fmt.Errorf("the queries changed the shared objects of dictionary %d (%s)", i, when)
			}
		}
		return nil
	}
	// What each reader sees alone, on objects of its own.
	want := make([][]string, len(c.Readers))
	for i := range c.Readers {
		if want[i], err = c.solo(func(d int) *shared { return fresh[d%2] }, i); err != nil {
			return err
		}
	}
	// Interleaved.
	sessions := make([]*session, len(c.Readers))
	pos := make([]int, len(c.Readers))
	for i, r := range c.Readers {
		sessions[i] = newSession(objs[r.Dict%2], r)
	}
	stepOf := func(i int) (bool, error) {
		if pos[i] >= len(c.Readers[i].Ops) {
			return false, nil
		}
		k := pos[i]
		pos[i]++
		if got := sessions[i].step(c.Readers[i].Ops[k]); got != want[i][k] {
			return true, fmt.Errorf("operation %d of reader %d (%s) sees %s when interleaved with other readers, %s alone", k, i, c.Readers[i].Kind, clip(got), clip(want[i][k]))
		}
		return true, nil
	}
	switches, last := 0, -1
	for _, i := range c.Order {
		i %= len(c.Readers)
		if i != last {
			switches++
		}
		last = i
		if _, err := stepOf(i); err != nil {
			return err
		}
	}
	for more := true; more; {
		more = false
		for i := range c.Readers {
			did, err := stepOf(i)
			if err != nil {
				return err
			}
			more = more || did
		}
	}
	for i, ses := range sessions {
		if err := ses.check(); err != nil {
			return fmt.Errorf("reader %d: %w", i, err)
		}
	}
	if err := unchanged("one after another", objs); err != nil {
		return err
	}
	// From goroutines at once; the race detector watches.
	errs := make([]error, len(c.Readers))
	var ready, done sync.WaitGroup
	begin := make(chan struct{})
	for i := range c.Readers {
		ready.Add(1)
		done.Add(1)
		go func(i int) {
			defer done.Done()
			defer func() {
				if e := recover(); e != nil {
					errs[i] = fmt.Errorf("reader %d (%s) panics when run concurrently: %v", i, c.Readers[i].Kind, e)
				}
			}()
			ready.Done()
			<-begin
			for round := 0; round < 2; round++ {
				got, err := c.solo(func(d int) *shared { return untouched[d%2] }, i)
				if err != nil {
					errs[i] = err
					return
				}
				for k := range got {
					if got[k] != want[i][k] {
						errs[i] = fmt.Errorf("operation %d of reader %d (%s) sees %s when run concurrently, %s alone", k, i, c.Readers[i].Kind, clip(got[k]), clip(want[i][k]))
						return
					}
				}
			}
		}(i)
	}
	ready.Wait()
	close(begin)
	done.Wait()
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	if err := unchanged("concurrently", untouched); err != nil {
		return err
	}
	kinds := map[string]int{}
	busy := 0
	for _, r := range c.Readers {
		if len(r.Ops) >= 3 {
			busy++
			kinds[r.Kind]++
		}
	}
	s.Nontrivial(busy >= 2 && switches >= 4 && len(objs[0].m.Keys) >= 2)
	for k, n := range kinds {
		s.Label("reader "+k, true)
		s.Label("two or more of "+k, n >= 2)
	}
	return nil
}

// Smaller gives candidates for minimisation when the process dies (data race).
func (c *shareCase) Smaller() []Case {
	var out []Case
	add := func(f func(n *shareCase)) {
		n := *c
		n.Readers = append([]reader{}, c.Readers...)
		f(&n)
		out = append(out, &n)
	}
	if len(c.Readers) > 1 {
		for i := range c.Readers {
			add(func(n *shareCase) { n.Readers = append(n.Readers[:i:i], n.Readers[i+1:]...) })
		}
	}
	if len(c.Order) > 0 {
		add(func(n *shareCase) { n.Order = nil })
	}
	for d := range c.Lexes {
		if len(c.Lexes[d].Keys) > 1 || c.Lexes[d].Shape != nil {
			add(func(n *shareCase) { n.Lexes[d] = Lex{Keys: []B{"a"}, Vals: []int32{1}} })
			add(func(n *shareCase) { n.Lexes[d] = Lex{Keys: []B{"a", "ab"}, Vals: []int32{1, 2}} })
		}
	}
	for i, r := range c.Readers {
		if k := len(r.Ops); k > 1 {
			add(func(n *shareCase) { n.Readers[i].Ops = r.Ops[:k/2] })
			add(func(n *shareCase) { n.Readers[i].Ops = r.Ops[k/2:] })
			if k <= 6 {
				for j := range r.Ops {
					add(func(n *shareCase) { n.Readers[i].Ops = append(r.Ops[:j:j], r.Ops[j+1:]...) })
				}
			}
		}
	}
	return out
}

var readerKinds = []string{"lookup", "walk", "complete", "ranked", "index", "rindex"}

func genShare(t *rapid.T) Case {
	c := &shareCase{Loaded: rapid.Bool().Draw(t, "loaded")}
	for i := range c.Lexes {
		if rapid.IntRange(0, 7).Draw(t, "shape") == 0 {
			c.Lexes[i] = drawShape(t, 300)
		} else {
			c.Lexes[i] = drawExplicit(t, 12, 6)
		}
	}
	n := rapid.IntRange(2, 5).Draw(t, "readers")
	main := rapid.SampledFrom(readerKinds).Draw(t, "main")
	for i := 0; i < n; i++ {
		r := reader{Dict: rapid.SampledFrom([]int{0, 0, 0, 1}).Draw(t, "dict"), Kind: main}
		if rapid.Bool().Draw(t, "other") {
			r.Kind = rapid.SampledFrom(readerKinds).Draw(t, "kind")
		}
		r.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) [2]int {
			return [2]int{rapid.IntRange(0, 400).Draw(t, "a"), rapid.IntRange(0, 1023).Draw(t, "b")}
		}), 3, 25).Draw(t, "ops")
		c.Readers = append(c.Readers, r)
	}
	c.Order = rapid.SliceOfN(rapid.IntRange(0, n-1), 8, 80).Draw(t, "order")
	return c
}

// fixedShare: every pair of kinds over lexicons of several shapes.
func fixedShare(tier string) []Case {
	var out []Case
	lexes := []Lex{
		{},
		{Keys: []B{""}, Vals: []int32{3}},
		{Shape: &Shape{Kind: "random", N: 200, Alpha: 2, MaxLen: 5, Seed: 3}, Mode: "mixed"},
		{Shape: &Shape{Kind: "product", N: 150, Alpha: 3, MaxLen: 6, Seed: 4}, Mode: "small"},
	}
	for li, l := range lexes {
		for a, ka := range readerKinds {
			for b, kb := range readerKinds {
				c := &shareCase{Lexes: [2]Lex{l, lexes[(li+1)%len(lexes)]}, Loaded: (a+b)%2 == 0}
				r := &rng{uint64(li*100 + a*10 + b)}
				for i, k := range []string{ka, kb, ka} {
					rd := reader{Dict: i / 2, Kind: k}
					for j := 0; j < 40; j++ {
						rd.Ops = append(rd.Ops, [2]int{r.n(400), r.n(1024)})
					}
					c.Readers = append(c.Readers, rd)
				}
				for j := 0; j < 100; j++ {
					c.Order = append(c.Order, r.n(3))
				}
				out = append(out, c)
			}
		}
	}
	return out
}

func init() {
	register(&Prop{
		ID: "C19", Rule: "at least two readers with three operations each, four switches between readers, two keys; each case runs the scripts alone, interleaved and from goroutines under the race detector",
		New: func() Case { return &shareCase{} }, Quick: 9000, Thorough: 150000,
		Gen: genShare, Fixed: fixedShare, AlwaysTrace: true,
		Assumptions: []string{"every goroutine has its own completer or indexer; the UTF-C functions are outside (they share state by design)"},
	})
}
