package main

import (
	"fmt"
	"sort"

	"github.com/deNULL/dawg"
	"pgregory.net/rapid"
)

// ---- C01: exact lookup ----

type lookupCase struct {
	Lex     Lex    `json:"lex"`
	Queries []B    `json:"queries,omitempty"`
	QSeed   uint64 `json:"qseed"`
	QN      int    `json:"qn"`
}

func (c *lookupCase) Run(s *Stats) error {
	m := c.Lex.Model()
	b, err := build(m)
	if err != nil {
		return err
	}
	for _, k := range m.Keys {
		if err := checkLookup(b.Dict, m, k); err != nil {
			return err
		}
	}
	misses := 0
	q := func(q string) error {
		if m.Find(q) < 0 {
			misses++
		}
		return checkLookup(b.Dict, m, q)
	}
	if err := queriesFor(m, &rng{c.QSeed}, c.QN, q); err != nil {
		return err
	}
	for _, x := range c.Queries {
		if err := q(string(x)); err != nil {
			return err
		}
	}
	s.Nontrivial(len(m.Keys) >= 2 && misses > 0)
	labelLex(s, m, b.Dict)
	return nil
}

func labelLex(s *Stats, m *Model, dict *dawg.Dictionary) {
	s.Label("empty set", len(m.Keys) == 0)
	s.Label("has empty key", len(m.Keys) > 0 && m.Keys[0] == "")
	s.Label("one block", dict.Size() <= 256)
	s.Label("2..16 blocks", dict.Size() > 256 && dict.Size() <= 4096)
	s.Label("blocks recycled (>16)", dict.Size() > 4096)
	s.Label("extended offsets (>2^21 units)", dict.Size() > 1<<21)
}

func lexQN(l Lex) int {
	if l.Shape != nil {
		return 1500
	}
	return 60
}

// ---- C02: stepwise navigation ----

type followCase struct {
	Lex   Lex    `json:"lex"`
	QSeed uint64 `json:"qseed"`
	QN    int    `json:"qn"`
}

func (c *followCase) Run(s *Stats) error {
	m := c.Lex.Model()
	b, err := build(m)
	if err != nil {
		return err
	}
	root := b.Dict.Root()
	branching, err := checkNavigation(b.Dict, m)
	if err != nil {
		return err
	}

	// String steps: split the query arbitrarily, use every form.
	r := &rng{c.QSeed}
	partial := 0
	err = queriesFor(m, r, c.QN, func(q string) error {
		want := longestPrefix(m, q)
		ref := root
		for i := 0; i < want; i++ {
			if !b.Dict.Follow(q[i], &ref) {
				return fmt.Errorf("Follow(%q) stops after %d of %d bytes", clip(q), i, want)
			}
		}
		if want < len(q) {
			partial++
		}
		pos, done, ok := root, 0, true
		for steps := 0; ok && (done < len(q) || steps == 0); steps++ {
			n := r.n(len(q) - done + 1)
			part := q[done : done+n]
			expect := done+n <= want
			from := []int{1000, 0, 1, -3, 255, 1 << 40}[r.n(6)]
			before, cnt, got := pos, from, false
			follow := 0
			if want > done {
				follow = want - done
			}
			if follow > n {
				follow = n
			}
			form := r.n(5)
			switch form {
			case 0:
				got = b.Dict.FollowString(part, &pos)
			case 1:
				got = b.Dict.FollowStringCount(part, &pos, &cnt)
			case 2:
				got = b.Dict.FollowStringLen(q[done:]+"\x05", n, &pos)
			case 3:
				got = b.Dict.FollowStringLenCount(q[done:]+"\x05", n, &pos, &cnt)
			case 4:
				got = true
				for i := 0; i < n && got; i++ {
					got = b.Dict.Follow(part[i], &pos)
				}
			}
			if got != expect {
				return fmt.Errorf("following %q by %q (form %d) = %v, want %v", clip(q[:done]), clip(part), form, got, expect)
			}
			if (form == 1 || form == 3) && cnt != from+follow {
				return fmt.Errorf("following %q by %q counted %d bytes, want %d", clip(q[:done]), clip(part), cnt-from, follow)
			}
			exp := before
			for i := 0; i < follow; i++ {
				if !b.Dict.Follow(part[i], &exp) {
					return fmt.Errorf("Follow(0x%02x) after %q fails when repeated", part[i], clip(q[:done+i]))
				}
			}
			if pos != exp {
				return fmt.Errorf("following %q by %q (form %d) ends elsewhere than bytewise following of %d bytes", clip(q[:done]), clip(part), form, follow)
			}
			done += n
			ok = got
		}
		if ok && want == len(q) && pos != ref {
			return fmt.Errorf("following %q in pieces ends elsewhere than bytewise", clip(q))
		}
		return nil
	})
	if err != nil {
		return err
	}
	s.Nontrivial(branching > 0 && partial > 0)
	s.Label("has branching state", branching > 0)
	labelLex(s, m, b.Dict)
	return nil
}

// checkNavigation tries all 256 labels at every trie node.
func checkNavigation(dict *dawg.Dictionary, m *Model) (int, error) {
	branching := 0
	var visit func(n Node, index uint32) error
	visit = func(n Node, index uint32) error {
		if got, want := dict.HasValue(index), m.Terminal(n); got != want {
			return fmt.Errorf("HasValue after %q = %v, want %v", clip(prefixOf(m, n)), got, want)
		}
		if m.Terminal(n) {
			if got, want := dict.Value(index), m.Vals[n.Lo]; got != want {
				return fmt.Errorf("Value after %q = %d, want %d", clip(prefixOf(m, n)), got, want)
			}
		}
		var has [256]bool
		k := 0
		m.Children(n, func(l byte, ch Node) { has[l] = true; k++ })
		if k > 1 {
			branching++
		}
		for l := 0; l < 256; l++ {
			at := index
			got := dict.Follow(byte(l), &at)
			if got != has[l] {
				return fmt.Errorf("Follow(0x%02x) after %q = %v, want %v", l, clip(prefixOf(m, n)), got, has[l])
			}
			if !got && at != index {
				return fmt.Errorf("failed Follow(0x%02x) after %q moved the position", l, clip(prefixOf(m, n)))
			}
		}
		var err error
		m.Children(n, func(l byte, ch Node) {
			if err == nil {
				at := index
				dict.Follow(l, &at)
				err = visit(ch, at)
			}
		})
		return err
	}
	return branching, visit(m.Root(), dict.Root())
}

func prefixOf(m *Model, n Node) string {
	if len(m.Keys) == 0 {
		return ""
	}
	return m.Prefix(n)
}

// longestPrefix is the number of bytes of q that can be followed.
func longestPrefix(m *Model, q string) int {
	i := sort.SearchStrings(m.Keys, q)
	best := 0
	for _, j := range []int{i - 1, i} {
		if j >= 0 && j < len(m.Keys) {
			k, n := m.Keys[j], 0
			for n < len(q) && n < len(k) && q[n] == k[n] {
				n++
			}
			if n > best {
				best = n
			}
		}
	}
	return best
}

func structural(mk func(l Lex) Case, huge bool) func(tier string) []Case {
	return func(tier string) []Case {
		var out []Case
		if huge {
			for _, l := range hugeLexes() {
				out = append(out, mk(l))
			}
			if tier == "thorough" {
				for _, l := range hugeLexesThorough() {
					out = append(out, mk(l))
				}
			}
		}
		for _, l := range fixedLexes() {
			out = append(out, mk(l))
		}
		return out
	}
}

func init() {
	register(&Prop{
		ID:    "C01",
		Rule:  "at least two keys and at least one query that is not a key, every key and all derived queries looked up in all six forms",
		New:   func() Case { return &lookupCase{} },
		Quick: 12000, Thorough: 600000,
		Gen: func(t *rapid.T) Case {
			l := drawLex(t, 20000)
			c := &lookupCase{Lex: l, QSeed: drawSeed(t), QN: lexQN(l)}
			al := drawAlphabet(t)
			c.Queries = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) B { return drawByteKey(t, append(al, 0), 6, "q") }), 0, 8).Draw(t, "queries")
			return c
		},
		Fixed: with(&lookupCase{Lex: veryLong(1 << 20), QSeed: 1, QN: 60},
			structural(func(l Lex) Case { return &lookupCase{Lex: l, QSeed: 1, QN: 3000} }, true)),
	})
	register(&Prop{
		ID:    "C02",
		Rule:  "at least one branching trie node and one query that can be followed only partly; all 256 labels tried at every trie node",
		New:   func() Case { return &followCase{} },
		Quick: 35000, Thorough: 1500000,
		Gen: func(t *rapid.T) Case {
			l := drawLex(t, 8000)
			return &followCase{Lex: l, QSeed: drawSeed(t), QN: lexQN(l) / 2}
		},
		Fixed: structural(func(l Lex) Case { return &followCase{Lex: l, QSeed: 1, QN: 1500} }, true),
	})
}
