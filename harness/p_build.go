package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"

	"github.com/deNULL/dawg"
	"pgregory.net/rapid"
)

// ---- C04: determinism and reuse ----

// images of everything made from a key set.
type images struct{ dict, guide, ranked, index, rindex []byte }

// made is everything made from a key set.
type made struct {
	dict  *dawg.Dictionary
	guide *dawg.Guide
	rg    *dawg.RankedGuide
	x, rx *dawg.Index
}

// images writes everything anew.
func (o *made) images() (*images, error) {
	var im images
	var err error
	if im.dict, err = dictImage(o.dict); err != nil {
		return nil, err
	}
	if im.guide, err = guideImage(o.guide); err != nil {
		return nil, err
	}
	if im.ranked, err = guideImage(o.rg); err != nil {
		return nil, err
	}
	if im.index, err = indexImage(o.x); err != nil {
		return nil, err
	}
	if im.rindex, err = indexImage(o.rx); err != nil {
		return nil, err
	}
	return &im, nil
}

func imagesOf(d *dawg.Dawg) (*images, *made, error) {
	dict := d.Build()
	if dict == nil {
		return nil, nil, fmt.Errorf("building the dictionary failed")
	}
	return imagesFrom(d, dict)
}

func imagesFrom(d *dawg.Dawg, dict *dawg.Dictionary) (*images, *made, error) {
	var im images
	var err error
	if im.dict, err = dictImage(dict); err != nil {
		return nil, nil, err
	}
	g := dawg.BuildGuide(d, dict)
	if g == nil {
		return nil, nil, fmt.Errorf("building the guide failed")
	}
	if im.guide, err = guideImage(g); err != nil {
		return nil, nil, err
	}
	rg := dawg.BuildRankedGuide(d, dict)
	if rg == nil {
		return nil, nil, fmt.Errorf("building the ranked guide failed")
	}
	if im.ranked, err = guideImage(rg); err != nil {
		return nil, nil, err
	}
	x := dawg.BuildIndex(dict, g)
	if x == nil {
		return nil, nil, fmt.Errorf("building the index failed")
	}
	if im.index, err = indexImage(x); err != nil {
		return nil, nil, err
	}
	rx := dawg.BuildIndex(dict, rg)
	if rx == nil {
		return nil, nil, fmt.Errorf("building the index over the ranked guide failed")
	}
	if im.rindex, err = indexImage(rx); err != nil {
		return nil, nil, err
	}
	return &im, &made{dict, g, rg, x, rx}, nil
}

func (a *images) diff(b *images) error {
	switch {
	case !bytes.Equal(a.dict, b.dict):
		return fmt.Errorf("dictionary image (%d bytes) differs from the reference (%d bytes)", len(a.dict), len(b.dict))
	case !bytes.Equal(a.guide, b.guide):
		return fmt.Errorf("guide image differs from the reference")
	case !bytes.Equal(a.ranked, b.ranked):
		return fmt.Errorf("ranked guide image differs from the reference")
	case !bytes.Equal(a.index, b.index):
		return fmt.Errorf("index image differs from the reference")
	case !bytes.Equal(a.rindex, b.rindex):
		return fmt.Errorf("index image over the ranked guide differs from the reference")
	}
	return nil
}

type lifeOp struct {
	// Op: "insert" the next Count keys of lexicon Lex into builder B; "finish" builder B into automaton D;
	// "build" from automaton D and compare; "clear" automaton D; "refused" an attempt that must be refused.
	Op    string `json:"op"`
	B     int    `json:"b"`
	D     int    `json:"d"`
	Lex   int    `json:"lex"`
	Count int    `json:"count"`
}

type lifeCase struct {
	Lexes []Lex    `json:"lexes"`
	Sizes []int    `json:"sizes"`
	ND    int      `json:"nd"`
	Ops   []lifeOp `json:"ops"`
}

type oldBuild struct {
	made *made
	img  *images
	m    *Model
}

func (c *lifeCase) Run(s *Stats) error {
	models := make([]*Model, len(c.Lexes))
	for i := range c.Lexes {
		models[i] = c.Lexes[i].Model()
	}
	type bstate struct {
		ins   *inserter
		size  int
		used  int
		epoch int
	}
	type dstate struct {
		d       *dawg.Dawg
		content *Model // nil: not usable (fresh or cleared)
		used    int
	}
	bs := make([]*bstate, len(c.Sizes))
	for i, sz := range c.Sizes {
		bs[i] = &bstate{ins: &inserter{b: newBuilder(sz)}, size: sz}
	}
	ds := make([]*dstate, c.ND)
	for i := range ds {
		ds[i] = &dstate{d: dawg.NewDawg()}
	}
	var olds []oldBuild
	receiver := newReceiver()
	shared := dawg.NewDictionary()
	priorDawg, err := buildDawg(&Model{Keys: []string{"aca", "bca", "bcb", "x"}, Vals: []int32{3, 3, 1, 7}})
	if err != nil {
		return err
	}
	prior, _, err := imagesOf(priorDawg)
	if err != nil {
		return err
	}
	builds, reuse := 0, 0
	compare := func(d *dstate, what string) error {
		got, made, err := imagesOf(d.d)
		if err != nil {
			return fmt.Errorf("%s: %w", what, err)
		}
		fresh, err := buildDawg(d.content)
		if err != nil {
			return err
		}
		want, _, err := imagesOf(fresh)
		if err != nil {
			return err
		}
		if err := got.diff(want); err != nil {
			return fmt.Errorf("%s: %w", what, err)
		}
		if err := sameStats(d.d, fresh); err != nil {
			return fmt.Errorf("%s: %w", what, err)
		}
		for _, k := range d.content.Keys {
			if err := checkLookup(made.dict, d.content, k); err != nil {
				return fmt.Errorf("%s: %w", what, err)
			}
		}
		if err := receiver.build(d.d, want); err != nil {
			return fmt.Errorf("%s, into objects used before: %w", what, err)
		}
		// over a dictionary object that held another one just before
		if !shared.Read(bytes.NewReader(prior.dict)) {
			return fmt.Errorf("%s: reading a dictionary failed", what)
		}
		over, _, err := imagesFrom(priorDawg, shared)
		if err != nil {
			return fmt.Errorf("%s, another automaton with a dictionary object used before: %w", what, err)
		}
		if err := over.diff(prior); err != nil {
			return fmt.Errorf("%s, another automaton with a dictionary object used before: %w", what, err)
		}
		if !shared.Read(bytes.NewReader(want.dict)) {
			return fmt.Errorf("%s: reading the dictionary failed", what)
		}
		over, overMade, err := imagesFrom(d.d, shared)
		if err != nil {
			return fmt.Errorf("%s, with a dictionary object used before: %w", what, err)
		}
		if err := over.diff(want); err != nil {
			return fmt.Errorf("%s, with a dictionary object used before: %w", what, err)
		}
		// results are independent of each other: these are overwritten at once
		_, gone, err := imagesFrom(d.d, shared)
		if err != nil {
			return fmt.Errorf("%s: %w", what, err)
		}
		other := d.d.Build()
		if other == nil {
			return fmt.Errorf("%s: building the dictionary failed", what)
		}
		for _, r := range []interface{ Read(io.Reader) bool }{other, gone.guide, gone.rg, gone.x, gone.rx} {
			if !r.Read(bytes.NewReader([]byte{1, 0, 0, 0, 9, 9, 9, 9})) {
				return fmt.Errorf("%s: reading one unit failed", what)
			}
		}
		again, err := overMade.images()
		if err != nil {
			return err
		}
		if err := again.diff(want); err != nil {
			return fmt.Errorf("%s, after another result was overwritten: %w", what, err)
		}
		olds = append(olds, oldBuild{made, got, d.content})
		builds++
		return nil
	}
	for n, op := range c.Ops {
		what := fmt.Sprintf("step %d (%s)", n, op.Op)
		switch op.Op {
		case "insert":
			b := bs[op.B]
			m := models[op.Lex]
			// continue after the last accepted key
			i := 0
			if k := len(b.ins.m.Keys); k > 0 {
				last := b.ins.m.Keys[k-1]
				for i < len(m.Keys) && m.Keys[i] <= last {
					i++
				}
			}
			for j := 0; j < op.Count && i < len(m.Keys); j, i = j+1, i+1 {
				if err := b.ins.try(attempt{B(m.Keys[i]), m.Vals[i], j % 3}); err != nil {
					return fmt.Errorf("%s: %w", what, err)
				}
			}
			if b.used > 0 {
				reuse++
			}
		case "refused":
			b := bs[op.B]
			if err := b.ins.try(attempt{B("q\x00"), 1, 0}); err != nil {
				return fmt.Errorf("%s: %w", what, err)
			}
			if err := b.ins.try(attempt{B("q"), -5, 0}); err != nil {
				return fmt.Errorf("%s: %w", what, err)
			}
		case "finish":
			b, d := bs[op.B], ds[op.D]
			b.ins.b.Finish(d.d)
			content := b.ins.m
			d.content = &content
			if d.used > 0 {
				reuse++
			}
			d.used++
			b.used++
			b.ins = &inserter{b: b.ins.b}
		case "build":
			if d := ds[op.D]; d.content != nil {
				if err := compare(d, what); err != nil {
					return err
				}
			}
		case "clear":
			ds[op.D].d.Clear()
			ds[op.D].content = nil
		}
	}
	for i, d := range ds {
		if d.content != nil {
			if err := compare(d, fmt.Sprintf("automaton %d at the end", i)); err != nil {
				return err
			}
		}
	}
	for i, o := range olds {
		img, err := o.made.images()
		if err != nil {
			return err
		}
		if err := img.diff(o.img); err != nil {
			return fmt.Errorf("build %d changed later: %w", i, err)
		}
		for _, k := range o.m.Keys {
			if err := checkLookup(o.made.dict, o.m, k); err != nil {
				return fmt.Errorf("dictionary %d later: %w", i, err)
			}
		}
	}
	odd := false
	for _, sz := range c.Sizes {
		odd = odd || sz != 0
	}
	s.Nontrivial(builds > 0 && (reuse > 0 || odd))
	s.Label("builder or automaton reused", reuse > 0)
	s.Label("non-default table size", odd)
	s.Label("several builds", builds > 2)
	return nil
}

func genLife(t *rapid.T) Case {
	c := &lifeCase{}
	nl := rapid.IntRange(1, 3).Draw(t, "lexes")
	for i := 0; i < nl; i++ {
		if rapid.IntRange(0, 5).Draw(t, "big") == 0 {
			c.Lexes = append(c.Lexes, drawShape(t, 1500))
		} else {
			c.Lexes = append(c.Lexes, drawExplicit(t, 20, 5))
		}
	}
	nb := rapid.IntRange(1, 3).Draw(t, "builders")
	for i := 0; i < nb; i++ {
		c.Sizes = append(c.Sizes, drawSize(t, 0, 1, 2, 3, 5, 16, 100, 256, 257, 1000, 4096))
	}
	c.ND = rapid.IntRange(1, 3).Draw(t, "dawgs")
	n := rapid.IntRange(rapid.SampledFrom([]int{3, 10, 20}).Draw(t, "minops"), 30).Draw(t, "ops")
	for i := 0; i < n; i++ {
		op := lifeOp{
			Op: rapid.SampledFrom([]string{"insert", "insert", "insert", "finish", "finish", "build", "clear", "refused"}).Draw(t, "op"),
			B:  rapid.IntRange(0, nb-1).Draw(t, "b"),
			D:  rapid.IntRange(0, c.ND-1).Draw(t, "d"),
		}
		if op.Op == "insert" {
			op.Lex = rapid.IntRange(0, nl-1).Draw(t, "lex")
			op.Count = rapid.SampledFrom([]int{1, 2, 5, 30, 5000}).Draw(t, "count")
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func fixedLife(tier string) []Case {
	var out []Case
	for _, l := range fixedLexes() {
		out = append(out, &lifeCase{
			Lexes: []Lex{l, {Keys: []B{"aca", "bca", "zz"}, Vals: []int32{1, 1, 2}}},
			Sizes: []int{0, 1, 7, 3000},
			ND:    2,
			Ops: []lifeOp{
				{Op: "insert", B: 0, Lex: 0, Count: 1 << 30}, {Op: "finish", B: 0, D: 0}, {Op: "build", D: 0},
				{Op: "insert", B: 1, Lex: 0, Count: 1 << 30}, {Op: "finish", B: 1, D: 1}, {Op: "build", D: 1},
				{Op: "insert", B: 0, Lex: 1, Count: 9}, {Op: "finish", B: 0, D: 1}, {Op: "build", D: 1}, {Op: "build", D: 0},
				{Op: "insert", B: 0, Lex: 0, Count: 1 << 30}, {Op: "finish", B: 0, D: 1}, {Op: "build", D: 1},
				{Op: "insert", B: 2, Lex: 0, Count: 1 << 30}, {Op: "finish", B: 2, D: 1}, {Op: "build", D: 1},
				{Op: "clear", D: 1}, {Op: "finish", B: 2, D: 1}, {Op: "build", D: 1},
				{Op: "insert", B: 3, Lex: 0, Count: 1 << 30}, {Op: "refused", B: 3}, {Op: "finish", B: 3, D: 1},
			},
		})
	}
	return out
}

// ---- C05: minimality and statistics ----

type minimalCase struct {
	Lex  Lex `json:"lex"`
	Size int `json:"size,omitempty"`
}

// minimal computes the minimal automaton of a key set: for every trie node, in
// depth-first order, the number of its class of equal continuations.
type minimal struct {
	m      *Model
	class  map[string]int32
	occ    []int32 // occurrences per class
	width  []int32 // transitions per class
	byNode []int32 // class per trie node, in preorder
	trans  int     // transitions of the trie
}

func (x *minimal) visit(n Node) int32 {
	slot := len(x.byNode)
	x.byNode = append(x.byNode, 0)
	var sig []byte
	width := int32(0)
	if x.m.Terminal(n) {
		sig = append(sig, 0)
		sig = binary.LittleEndian.AppendUint32(sig, uint32(x.m.Vals[n.Lo]))
		width++
	}
	x.m.Children(n, func(l byte, c Node) {
		id := x.visit(c)
		sig = append(sig, l)
		sig = binary.LittleEndian.AppendUint32(sig, uint32(id))
		width++
	})
	x.trans += int(width)
	id, ok := x.class[string(sig)]
	if !ok {
		id = int32(len(x.occ))
		x.class[string(sig)] = id
		x.occ = append(x.occ, 0)
		x.width = append(x.width, width)
	}
	x.occ[id]++
	x.byNode[slot] = id
	return id
}

func (c *minimalCase) Run(s *Stats) error {
	m := c.Lex.Model()
	b := newBuilder(c.Size)
	if err := insertAll(b, m); err != nil {
		return err
	}
	d := dawg.NewDawg()
	b.Finish(d)
	if len(m.Keys) == 0 {
		if d.NumOfStates() != 1 || d.NumOfTransitions() != 0 || d.NumOfMergedStates() != 0 || d.NumOfMergedTransitions() != 0 || d.NumOfMergingStates() != 0 {
			return fmt.Errorf("statistics of the empty automaton: states %d transitions %d merged states %d merged transitions %d merging %d",
				d.NumOfStates(), d.NumOfTransitions(), d.NumOfMergedStates(), d.NumOfMergedTransitions(), d.NumOfMergingStates())
		}
		if d.Child(d.Root()) != 0 {
			return fmt.Errorf("the root of the empty automaton has a child")
		}
		return nil
	}
	x := &minimal{m: m, class: map[string]int32{}}
	x.visit(m.Root())

	// Walk the automaton along the trie.
	group := make([]uint32, len(x.occ)) // class -> first transition + 1
	back := map[uint32]int32{}
	pos := 0
	var walk func(n Node, at uint32) error
	walk = func(n Node, at uint32) error {
		id := x.byNode[pos]
		pos++
		first := d.Child(at)
		if first == 0 {
			return fmt.Errorf("no continuation after %q", clip(prefixOf(m, n)))
		}
		if group[id] == 0 {
			if _, ok := back[first]; ok {
				return fmt.Errorf("the state after %q is shared with a prefix that has other continuations", clip(prefixOf(m, n)))
			}
			group[id] = first
			back[first] = id
		} else if group[id] != first {
			return fmt.Errorf("the state after %q is not merged with an equal one: not minimal", clip(prefixOf(m, n)))
		}
		if got, want := d.IsMerging(first), x.occ[id] > 1; got != want {
			return fmt.Errorf("IsMerging of the state after %q = %v, want %v", clip(prefixOf(m, n)), got, want)
		}
		i := first
		if m.Terminal(n) {
			if d.Label(i) != 0 || !d.IsLeaf(i) {
				return fmt.Errorf("the end of key %q is missing or not the first child", clip(prefixOf(m, n)))
			}
			if d.Value(i) != m.Vals[n.Lo] {
				return fmt.Errorf("value of %q in the automaton is %d, want %d", clip(prefixOf(m, n)), d.Value(i), m.Vals[n.Lo])
			}
			i = d.Sibling(i)
		}
		var err error
		m.Children(n, func(l byte, ch Node) {
			if err != nil {
				return
			}
			if i == 0 || d.IsLeaf(i) || d.Label(i) != l {
				err = fmt.Errorf("the children after %q do not spell the keys in ascending order", clip(prefixOf(m, n)))
				return
			}
			err = walk(ch, i)
			i = d.Sibling(i)
		})
		if err == nil && i != 0 {
			err = fmt.Errorf("additional child after %q", clip(prefixOf(m, n)))
		}
		return err
	}
	if err := walk(m.Root(), d.Root()); err != nil {
		return err
	}
	trans, merging := 0, 0
	for i := range x.occ {
		trans += int(x.width[i])
		if x.occ[i] > 1 {
			merging++
		}
	}
	check := func(name string, got, want int) error {
		if got != want {
			return fmt.Errorf("%s = %d, want %d", name, got, want)
		}
		return nil
	}
	G := len(x.occ)
	for _, e := range []error{
		check("NumOfStates", d.NumOfStates(), G+1),
		check("NumOfTransitions", d.NumOfTransitions(), trans),
		check("NumOfMergedTransitions", d.NumOfMergedTransitions(), x.trans-trans),
		check("NumOfMergedStates", d.NumOfMergedStates(), x.trans-G),
		check("NumOfMergingStates", d.NumOfMergingStates(), merging),
	} {
		if e != nil {
			return e
		}
	}
	s.Nontrivial(merging > 0)
	s.Label("merging states", merging > 0)
	s.Label("no merging states", merging == 0)
	s.Label("state table grown (>=192 states)", G >= 192)
	s.Label("state table grown 5 times", G >= 192*16)
	return nil
}

func init() {
	register(&Prop{
		ID:    "C04",
		Rule:  "at least one comparison against a fresh default build, with a reused builder or automaton object or a non-default table size",
		New:   func() Case { return &lifeCase{} },
		Quick: 80000, Thorough: 2500000,
		Gen: genLife, Fixed: fixedLife,
	})
	register(&Prop{
		ID:    "C05",
		Rule:  "the minimal automaton has at least one state reached by several prefixes",
		New:   func() Case { return &minimalCase{} },
		Quick: 30000, Thorough: 1500000,
		Gen: func(t *rapid.T) Case {
			return &minimalCase{Lex: drawLex(t, 20000), Size: drawSize(t, 0, 0, 1, 3, 64)}
		},
		Fixed: structural(func(l Lex) Case { return &minimalCase{Lex: l} }, true),
	})
}
