package main

import (
	"fmt"

	"github.com/deNULL/dawg"
	"pgregory.net/rapid"
)

// ---- C09: index ----

type indexCase struct {
	Lex    Lex    `json:"lex"`
	Ranked bool   `json:"ranked,omitempty"`
	QSeed  uint64 `json:"qseed"`
	QN     int    `json:"qn"`
	Cmp    string `json:"cmp,omitempty"`
}

func (c *indexCase) Run(s *Stats) error {
	m := c.Lex.Model()
	b, err := build(m)
	if err != nil {
		return err
	}
	var g dawg.SomeGuide
	if c.Ranked {
		var rg *dawg.RankedGuide
		if c.Cmp != "" {
			rg = dawg.BuildRankedGuideCmp(b.D, b.Dict, cmpSpec{c.Cmp, 77}.f())
		} else {
			rg = dawg.BuildRankedGuide(b.D, b.Dict)
		}
		if rg == nil {
			return fmt.Errorf("building the ranked guide failed")
		}
		g = rg
	} else {
		pg := dawg.BuildGuide(b.D, b.Dict)
		if pg == nil {
			return fmt.Errorf("building the guide failed")
		}
		g = pg
	}
	x := dawg.BuildIndex(b.Dict, g)
	if x == nil {
		return fmt.Errorf("building the index failed")
	}
	if b.Dict.Root() != g.Root() || b.Dict.Root() != x.Root() {
		return fmt.Errorf("the root of the dictionary is %d, that of the guide %d and that of the index %d", b.Dict.Root(), g.Root(), x.Root())
	}
	ix := dawg.NewIndexer(b.Dict, g, x)
	if err := checkIndex(b.Dict, ix, x, m); err != nil {
		return err
	}
	q := func(q string) error { return checkIndexQuery(ix, m, q) }
	if err := queriesFor(m, &rng{c.QSeed}, c.QN, q); err != nil {
		return err
	}
	s.Nontrivial(len(m.Keys) >= 2)
	s.Label("ranked guide", c.Ranked)
	s.Label("plain guide", !c.Ranked)
	labelLex(s, m, b.Dict)
	return nil
}

func checkIndexQuery(ix *dawg.Indexer, m *Model, q string) error {
	want := dawg.NotFound
	if i := m.Find(q); i >= 0 {
		want = uint32(i)
	}
	if got := ix.StringToIndex(q); got != want {
		return fmt.Errorf("StringToIndex(%q) = %d, want %d", clip(q), got, want)
	}
	buf := []byte(q)
	if got := ix.BytesToIndex(buf); got != want {
		return fmt.Errorf("BytesToIndex(%q) = %d, want %d", clip(q), got, want)
	}
	if string(buf) != q {
		return fmt.Errorf("BytesToIndex(%q) changed the caller's buffer", clip(q))
	}
	if len(q) > 0 && hashString(q[len(q)/2:], 3)%4 == 0 { // the buffer may be used again
		buf[len(q)-1] ^= 1
		want := dawg.NotFound
		if i := m.Find(string(buf)); i >= 0 {
			want = uint32(i)
		}
		if got := ix.BytesToIndex(buf); got != want {
			return fmt.Errorf("BytesToIndex(%q) = %d in a buffer used before, want %d", clip(string(buf)), got, want)
		}
	}
	return nil
}

// checkIndex checks counts at every position and both directions for every key.
func checkIndex(dict *dawg.Dictionary, ix *dawg.Indexer, x *dawg.Index, m *Model) error {
	n := uint32(len(m.Keys))
	if ix.TotalCount() != n || x.TotalCount() != n {
		return fmt.Errorf("TotalCount() = %d (indexer), %d (index), want %d", ix.TotalCount(), x.TotalCount(), n)
	}
	var visit func(nd Node, index uint32) error
	visit = func(nd Node, index uint32) error {
		if got := x.ChildCount(index); got != uint32(nd.Hi-nd.Lo) {
			return fmt.Errorf("ChildCount after %q = %d, want %d", clip(prefixOf(m, nd)), got, nd.Hi-nd.Lo)
		}
		var err error
		m.Children(nd, func(l byte, ch Node) {
			if err == nil {
				at := index
				if !dict.Follow(l, &at) {
					err = fmt.Errorf("cannot follow %q", clip(prefixOf(m, ch)))
					return
				}
				err = visit(ch, at)
			}
		})
		return err
	}
	if err := visit(m.Root(), dict.Root()); err != nil {
		return err
	}
	step := 1
	if total := len(m.Keys); total > 12000 {
		step = total / 12000 // a sample of the ranks of huge sets
		if len(m.Keys[total/2]) > 100 {
			step = total / 200 // even less where every step passes over very many siblings
		}
	}
	for i := 0; i < len(m.Keys); i += step {
		k := m.Keys[i]
		got := ix.IndexToBytes(uint32(i))
		if got == nil || string(got) != k {
			return fmt.Errorf("IndexToBytes(%d) = %q, want %q", i, clip(string(got)), clip(k))
		}
		for j := range got { // it is the caller's
			got[j] = 'Q'
		}
		if s := ix.IndexToString(uint32(i)); s != k {
			return fmt.Errorf("IndexToString(%d) = %q, want %q", i, clip(s), clip(k))
		}
		if err := checkIndexQuery(ix, m, k); err != nil {
			return err
		}
	}
	// in no particular order
	at := uint32(0)
	for i, h := 0, uint64(n); i < 60 && n > 0; i++ {
		h = splitmix(h + uint64(i))
		if i%3 == 0 {
			at = uint32(h>>8) % n
		} else { // around the last one
			at = uint32((uint64(at) + 2*uint64(n) + h%5 - 2) % uint64(n))
		}
		if got := ix.IndexToString(at); got != m.Keys[at] {
			return fmt.Errorf("IndexToString(%d) = %q, want %q", at, clip(got), clip(m.Keys[at]))
		}
		if h>>40&1 != 0 {
			if got := ix.IndexToBytes(n + uint32(h>>44)); n+uint32(h>>44) >= n && got != nil {
				return fmt.Errorf("IndexToBytes(%d) = %q with only %d keys", n+uint32(h>>44), clip(string(got)), n)
			}
		}
		if h>>41&1 != 0 {
			other := m.Keys[uint32(h>>20)%n]
			if err := checkIndexQuery(ix, m, other); err != nil {
				return err
			}
		}
	}
	for _, i := range []uint32{n, n + 1, n + 2, n + 255, n * 2, 1<<31 - 1, 1 << 31, 0xfffffffd, 0xfffffffe, 0xffffffff} {
		if i < n {
			continue
		}
		if got := ix.IndexToBytes(i); got != nil {
			return fmt.Errorf("IndexToBytes(%d) = %q with only %d keys", i, clip(string(got)), n)
		}
		if got := ix.IndexToString(i); got != "" {
			return fmt.Errorf("IndexToString(%d) = %q with only %d keys", i, clip(got), n)
		}
	}
	return nil
}

func qn(l Lex) int {
	if l.Shape != nil && l.Shape.Kind == "comb" && l.Shape.N > 100 {
		return 100
	}
	return 1500
}

func init() {
	register(&Prop{
		ID:    "C09",
		Rule:  "at least two keys; every rank, every position count and derived non-key queries checked",
		New:   func() Case { return &indexCase{} },
		Quick: 10000, Thorough: 400000,
		Gen: func(t *rapid.T) Case {
			l := drawLex(t, 4000)
			return &indexCase{Lex: l, Ranked: rapid.Bool().Draw(t, "ranked"), QSeed: drawSeed(t), QN: lexQN(l) / 3, Cmp: rapid.SampledFrom([]string{"", "gt", "hash", "equal"}).Draw(t, "cmp")}
		},
		Fixed: func(tier string) []Case {
			plain := structural(func(l Lex) Case { return &indexCase{Lex: l, QSeed: 5, QN: qn(l)} }, true)(tier)
			ranked := structural(func(l Lex) Case { return &indexCase{Lex: l, Ranked: true, QSeed: 5, QN: qn(l)} }, true)(tier)
			long := &indexCase{Lex: veryLong(300000), QSeed: 5, QN: 30}
			grid := &indexCase{Lex: Lex{Shape: &Shape{Kind: "grid", N: 1<<21 + 70000, Alpha: 0, MaxLen: 3}}, QSeed: 5, QN: 300}
			return append(append([]Case{grid, long}, ranked[:2:2]...), append(plain, ranked[2:]...)...)
		},
	})
}
