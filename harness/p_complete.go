package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/deNULL/dawg"
	"pgregory.net/rapid"
)

// A start: follow a prefix of key K (cut at Cut bytes) and enumerate Nexts results.
type start struct {
	K    int `json:"k"`
	Cut  int `json:"cut"`
	Next int `json:"next"` // -1: to the end and beyond
	// Text given as prefix: 0 none (Start), 1 the prefix itself, 2 some text, 3 some text with explicit length, 4+n any n bytes
	Text int `json:"text"`
}

type completeCase struct {
	Lex    Lex     `json:"lex"`
	Starts []start `json:"starts"`
	// AllNodes additionally starts at every trie node (small sets only).
	AllNodes bool `json:"all,omitempty"`
	Ranked   bool `json:"ranked,omitempty"`
}

type completer interface {
	Start(uint32)
	StartString(uint32, string)
	StartStringLen(uint32, string, int)
	Next() bool
	Key() string
	Value() int32
	Length() int
}

func startWith(c completer, index uint32, prefix string, text int) (shown string) {
	switch text {
	case 0:
		c.Start(index)
		return ""
	case 1:
		c.StartString(index, prefix)
		return prefix
	case 2:
		c.StartString(index, "\x00any>")
		return "\x00any>"
	case 3:
		c.StartStringLen(index, "<text>+ignored", 6)
		return "<text>"
	}
	// as long as is asked for
	b := make([]byte, text-4+9)
	r := &rng{uint64(text)}
	for i := range b {
		b[i] = byte(r.n(256))
	}
	c.StartStringLen(index, string(b), text-4)
	return string(b[:text-4])
}

// enumerate compares up to limit results (all and the end if limit < 0).
func enumerate(c completer, m *Model, lo, hi, depth int, shown string, limit int, ranked bool) error {
	n := hi - lo
	if limit < 0 || limit > n {
		limit = n + 3
	}
	var order []int32
	seen := map[int]bool{}
	if ranked {
		order = append(order, m.Vals[lo:hi]...)
		sort.Slice(order, func(i, j int) bool { return order[i] > order[j] })
	}
	var kept, copies []string // keys given out earlier must stay as they were
	for i := 0; i < limit; i++ {
		got := c.Next()
		if got != (i < n) {
			if got {
				return fmt.Errorf("Next() call %d gives %q, but only %d keys start with the prefix %q", i+1, clip(c.Key()), n, clip(prefixAt(m, lo, hi, depth)))
			}
			return fmt.Errorf("Next() ends after %d of %d keys with prefix %q", i, n, clip(prefixAt(m, lo, hi, depth)))
		}
		if !got {
			continue
		}
		key, val, length := c.Key(), c.Value(), c.Length()
		if len(kept) < 1000 {
			kept, copies = append(kept, key), append(copies, strings.Clone(key))
		}
		if length != len(key) {
			return fmt.Errorf("Length() = %d but Key() = %q has %d bytes", length, clip(key), len(key))
		}
		if len(key) < len(shown) || key[:len(shown)] != shown {
			return fmt.Errorf("Key() = %q does not begin with the given text %q", clip(key), shown)
		}
		full := prefixAt(m, lo, hi, depth) + key[len(shown):]
		if !ranked {
			if full != m.Keys[lo+i] {
				return fmt.Errorf("completion %d is %q, want %q", i, clip(full), clip(m.Keys[lo+i]))
			}
			if val != m.Vals[lo+i] {
				return fmt.Errorf("value of completion %q is %d, want %d", clip(full), val, m.Vals[lo+i])
			}
			continue
		}
		j := m.Find(full)
		if j < lo || j >= hi {
			return fmt.Errorf("ranked completion %d is %q, not a key with the prefix", i, clip(full))
		}
		if seen[j] {
			return fmt.Errorf("ranked completion gives %q twice", clip(full))
		}
		seen[j] = true
		if val != m.Vals[j] {
			return fmt.Errorf("value of ranked completion %q is %d, want %d", clip(full), val, m.Vals[j])
		}
		if val != order[i] {
			return fmt.Errorf("ranked completion %d has value %d, but the best remaining value is %d", i, val, order[i])
		}
	}
	for i, k := range kept {
		if k != copies[i] {
			return fmt.Errorf("the key %q given out earlier has become %q", clip(copies[i]), clip(k))
		}
	}
	return nil
}

func prefixAt(m *Model, lo, hi, depth int) string {
	if lo >= hi {
		return ""
	}
	return m.Keys[lo][:depth]
}

func (c *completeCase) Run(s *Stats) error {
	m := c.Lex.Model()
	b, err := build(m)
	if err != nil {
		return err
	}
	var comp completer
	if c.Ranked {
		g := dawg.BuildRankedGuide(b.D, b.Dict)
		if g == nil {
			return fmt.Errorf("building the ranked guide failed")
		}
		comp = dawg.NewRankedCompleter(b.Dict, g)
	} else {
		g := dawg.BuildGuide(b.D, b.Dict)
		if g == nil {
			return fmt.Errorf("building the guide failed")
		}
		comp = dawg.NewCompleter(b.Dict, g)
	}
	multi, partial, values := false, false, map[int32]bool{}
	do := func(n Node, index uint32, text, limit int) error {
		prefix := prefixAt(m, n.Lo, n.Hi, n.Depth)
		shown := startWith(comp, index, prefix, text)
		if n.Hi-n.Lo >= 2 {
			multi = true
		}
		if limit >= 0 && limit < n.Hi-n.Lo {
			partial = true
		}
		return enumerate(comp, m, n.Lo, n.Hi, n.Depth, shown, limit, c.Ranked)
	}
	for i, st := range c.Starts {
		n := m.Root()
		index := b.Dict.Root()
		if len(m.Keys) > 0 {
			k := m.Keys[st.K%len(m.Keys)]
			p := k[:st.Cut%(len(k)+1)]
			if !b.Dict.FollowString(p, &index) {
				return fmt.Errorf("cannot follow %q, a prefix of a key", clip(p))
			}
			lo, hi := m.Range(p)
			n = Node{lo, hi, len(p)}
		}
		if err := do(n, index, st.Text, st.Next); err != nil {
			return fmt.Errorf("start %d: %w", i, err)
		}
	}
	if c.AllNodes {
		text := 0
		var visit func(n Node, index uint32) error
		visit = func(n Node, index uint32) error {
			text++
			limit := -1
			if n.Hi-n.Lo > 600 {
				limit = 300
			}
			if err := do(n, index, text%4, limit); err != nil {
				return err
			}
			var err error
			m.Children(n, func(l byte, ch Node) {
				if err == nil {
					at := index
					if !b.Dict.Follow(l, &at) {
						err = fmt.Errorf("cannot follow %q", clip(prefixAt(m, ch.Lo, ch.Hi, ch.Depth)))
						return
					}
					err = visit(ch, at)
				}
			})
			return err
		}
		if err := visit(m.Root(), b.Dict.Root()); err != nil {
			return err
		}
	}
	for _, v := range m.Vals {
		values[v] = true
		if len(values) > 1 {
			break
		}
	}
	s.Nontrivial(multi && (!c.Ranked || len(values) > 1))
	s.Label("several keys under a prefix", multi)
	s.Label("restarted in the middle", partial && len(c.Starts) > 1)
	labelLex(s, m, b.Dict)
	return nil
}

func genComplete(ranked bool) func(t *rapid.T) Case {
	return func(t *rapid.T) Case {
		c := &completeCase{Ranked: ranked}
		if rapid.IntRange(0, 9).Draw(t, "small") < 7 {
			c.Lex = drawExplicit(t, rapid.SampledFrom([]int{4, 12, 60}).Draw(t, "maxkeys"), 6)
			c.AllNodes = true
		} else {
			c.Lex = drawShape(t, 6000)
		}
		n := rapid.IntRange(1, 6).Draw(t, "starts")
		for i := 0; i < n; i++ {
			c.Starts = append(c.Starts, start{
				K: rapid.IntRange(0, 9999).Draw(t, "k"), Cut: rapid.SampledFrom([]int{0, 1, 2, 3, 5, 1000}).Draw(t, "cut"),
				Next: rapid.SampledFrom([]int{-1, 0, 1, 2, 7, 50}).Draw(t, "next"), Text: rapid.IntRange(0, 3).Draw(t, "text"),
			})
			if rapid.IntRange(0, 4).Draw(t, "anytext") == 0 {
				c.Starts[i].Text = 4 + rapid.IntRange(0, 700).Draw(t, "length")
			}
		}
		return c
	}
}

func fixedComplete(ranked bool) func(tier string) []Case {
	long := &completeCase{Lex: veryLong(300000), Ranked: ranked, Starts: []start{{0, 0, -1, 1}, {3, 200000, 2, 2}, {1, 70000, -1, 0}, {2, 1, -1, 1}}}
	lengths := &completeCase{Lex: Lex{Keys: []B{"", "a", "ab", "b", "ba"}, Vals: []int32{3, 9, 0, 1<<31 - 1, 3}}, Ranked: ranked}
	steps := &completeCase{Lex: Lex{Shape: &Shape{Kind: "steps", N: 1100, Alpha: 4, Seed: 13}, Mode: "unique31"}, Ranked: ranked}
	longest := 0
	for i, k := range steps.Lex.Model().Keys {
		if len(k) > 1100 {
			longest = i
		}
	}
	for n := 0; n <= 1100; n++ {
		lengths.Starts = append(lengths.Starts, start{K: n, Cut: n % 2, Next: -1, Text: 4 + n})
		steps.Starts = append(steps.Starts, start{K: longest, Cut: n, Next: 5, Text: n & 1})
	}
	for _, n := range []int{2047, 2048, 4095, 4096, 5000, 16384, 65535, 65536, 100000} {
		lengths.Starts = append(lengths.Starts, start{K: n, Cut: n % 2, Next: -1, Text: 4 + n})
	}
	return with(steps, with(lengths, with(long, structural(func(l Lex) Case {
		c := &completeCase{Lex: l, Ranked: ranked, AllNodes: l.Shape == nil}
		c.Starts = []start{{0, 0, 1, 0}, {0, 0, -1, 1}, {3, 0, 5, 2}, {7, 1, -1, 0}, {100003, 2, 3, 3}, {500009, 2, -1, 0}, {33, 1, 10, 1}, {5, 3, -1, 1}, {12, 1000, -1, 1}}
		return c
	}, true))))
}

// ---- C08: ranked guide under a comparator ----

type cmpSpec struct {
	Kind string `json:"kind"`
	Arg  int32  `json:"arg"`
}

func (c cmpSpec) f() func(a, b int32) bool {
	arg := c.Arg
	switch c.Kind {
	case "gt":
		return func(a, b int32) bool { return a > b }
	case "mask":
		return func(a, b int32) bool { return a&arg < b&arg }
	case "xor":
		return func(a, b int32) bool { return a^arg < b^arg }
	case "mod":
		return func(a, b int32) bool { return a%(1+arg&0xff) < b%(1+arg&0xff) }
	case "hash":
		return func(a, b int32) bool {
			x, y := splitmix(uint64(a)^uint64(arg)<<32), splitmix(uint64(b)^uint64(arg)<<32)
			return x < y
		}
	case "equal":
		return func(a, b int32) bool { return false }
	case "distance":
		return func(a, b int32) bool {
			x, y := int64(a)-int64(arg), int64(b)-int64(arg)
			return x*x > y*y
		}
	default:
		return func(a, b int32) bool { return a < b }
	}
}

type rankCase struct {
	Lex Lex     `json:"lex"`
	Cmp cmpSpec `json:"cmp"`
}

func (c *rankCase) Run(s *Stats) error {
	m := c.Lex.Model()
	b, err := build(m)
	if err != nil {
		return err
	}
	cmp := c.Cmp.f()
	var g *dawg.RankedGuide
	if c.Cmp.Kind == "default" {
		g = dawg.BuildRankedGuide(b.D, b.Dict)
	} else {
		// The comparator orders the stored values; whatever it says about others means nothing.
		stored := map[int32]bool{}
		if len(m.Vals) <= 20000 {
			for _, v := range m.Vals {
				stored[v] = true
			}
		}
		g = dawg.BuildRankedGuideCmp(b.D, b.Dict, func(x, y int32) bool {
			if len(stored) > 0 && (!stored[x] || !stored[y]) {
				return stored[x] == (c.Cmp.Arg&1 == 0)
			}
			return cmp(x, y)
		})
	}
	if g == nil {
		return fmt.Errorf("building the ranked guide failed")
	}
	if len(m.Keys) == 0 {
		return nil
	}
	interesting := 0
	// best is a best value below a node (any of those that rank equal).
	type best struct{ v int32 }
	type cont struct {
		label byte
		at    uint32
		best
	}
	var visit func(n Node, index uint32) (best, error)
	visit = func(n Node, index uint32) (best, error) {
		var conts []cont
		if m.Terminal(n) {
			conts = append(conts, cont{0, 0, best{m.Vals[n.Lo]}})
		}
		var err error
		m.Children(n, func(l byte, ch Node) {
			if err != nil {
				return
			}
			at := index
			if !b.Dict.Follow(l, &at) {
				err = fmt.Errorf("cannot follow %q", clip(prefixAt(m, ch.Lo, ch.Hi, ch.Depth)))
				return
			}
			bb, e := visit(ch, at)
			if e != nil {
				err = e
				return
			}
			conts = append(conts, cont{l, at, bb})
		})
		if err != nil {
			return best{}, err
		}
		// The unit of the end of key is addressed like a child with label 0.
		if m.Terminal(n) && len(conts) > 1 {
			conts[0].at = conts[1].at ^ uint32(conts[1].label)
		}
		name := clip(prefixOf(m, n))
		find := func(l byte) int {
			for i := range conts {
				if conts[i].label == l {
					return i
				}
			}
			return -1
		}
		seen := make([]bool, len(conts))
		l := g.Child(index)
		prev := -1
		for k := 0; k < len(conts); k++ {
			i := find(l)
			if i < 0 {
				return best{}, fmt.Errorf("continuation %d listed after %q is 0x%02x, which does not exist (or the list ends early)", k, name, l)
			}
			if seen[i] {
				return best{}, fmt.Errorf("continuation 0x%02x after %q is listed twice", l, name)
			}
			seen[i] = true
			if prev >= 0 {
				p, q := conts[prev], conts[i]
				if cmp(p.v, q.v) {
					return best{}, fmt.Errorf("after %q continuation 0x%02x (best value %d) is listed before 0x%02x (best value %d)", name, p.label, p.v, q.label, q.v)
				}
				if !cmp(q.v, p.v) && p.label > q.label {
					return best{}, fmt.Errorf("after %q continuations 0x%02x (value %d) and 0x%02x (value %d) of equal rank are not in ascending order", name, p.label, p.v, q.label, q.v)
				}
				if p.v != q.v {
					interesting++
				}
			}
			prev = i
			if k+1 < len(conts) {
				l = g.Sibling(conts[i].at)
			} else if conts[i].label != 0 || len(conts) > 1 {
				if x := g.Sibling(conts[i].at); x != 0 {
					return best{}, fmt.Errorf("the list of continuations after %q goes on after the last one with 0x%02x", name, x)
				}
			}
		}
		// overall best
		res := conts[0].best
		for _, x := range conts[1:] {
			if cmp(res.v, x.v) {
				res = x.best
			}
		}
		return res, nil
	}
	top, err := visit(m.Root(), b.Dict.Root())
	if err != nil {
		return err
	}
	// Always taking the first continuation leads to a best key.
	index := b.Dict.Root()
	for steps := 0; g.Child(index) != 0; steps++ {
		if !b.Dict.Follow(g.Child(index), &index) || steps > 1<<20 {
			return fmt.Errorf("taking the first continuation repeatedly leads nowhere")
		}
	}
	if !b.Dict.HasValue(index) || cmp(b.Dict.Value(index), top.v) {
		return fmt.Errorf("always taking the first continuation does not lead to a key of best value %d", top.v)
	}
	s.Nontrivial(interesting > 0)
	s.Label("comparator "+c.Cmp.Kind, true)
	labelLex(s, m, b.Dict)
	return nil
}

var cmpKinds = []string{"default", "lt", "gt", "mask", "xor", "mod", "hash", "equal", "distance"}

func init() {
	register(&Prop{
		ID:    "C06",
		Rule:  "at least two keys below some prefix the completer was started at",
		New:   func() Case { return &completeCase{} },
		Quick: 120000, Thorough: 5000000,
		Gen: genComplete(false), Fixed: fixedComplete(false),
	})
	register(&Prop{
		ID:    "C07",
		Rule:  "at least two keys below some prefix the completer was started at, and at least two different values",
		New:   func() Case { return &completeCase{} },
		Quick: 60000, Thorough: 3000000,
		Gen: genComplete(true), Fixed: fixedComplete(true),
	})
	register(&Prop{
		ID:    "C08",
		Rule:  "at least one position with two continuations of different best value",
		New:   func() Case { return &rankCase{} },
		Quick: 90000, Thorough: 3000000,
		Gen: func(t *rapid.T) Case {
			k := rapid.SampledFrom(cmpKinds).Draw(t, "cmp")
			return &rankCase{Lex: drawLex(t, 8000), Cmp: cmpSpec{k, drawValue(t, "arg")}}
		},
		Fixed: func(tier string) []Case {
			var out []Case
			for i, l := range fixedLexes() {
				for _, k := range cmpKinds {
					out = append(out, &rankCase{l, cmpSpec{k, []int32{5, 0xff, 1, 1<<31 - 1, 0x40000000}[i%5]}})
				}
			}
			for _, l := range []Lex{hugeLexes()[3], hugeLexes()[0]} {
				out = append([]Case{&rankCase{l, cmpSpec{"gt", 0}}}, out...)
			}
			return out
		},
	})
}
