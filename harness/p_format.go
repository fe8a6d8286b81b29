package main

import (
	"bytes"
	_ "embed"
	"encoding/binary"
	"fmt"
	"strconv"
	"strings"

	"github.com/deNULL/dawg"
	"pgregory.net/rapid"
)

// ---- C11: the dawgdic file format, read and written without the library ----

//go:embed testdata/dictionary.dawg
var oldImage []byte

//go:embed testdata/lexicon.txt
var oldLexicon string

type formatCase struct {
	Lex Lex `json:"lex"`
	// Foreign: lay the image out here (seed, far offsets) and let the library read it.
	Foreign bool   `json:"foreign,omitempty"`
	Seed    uint64 `json:"seed,omitempty"`
	Far     bool   `json:"far,omitempty"`
	Old     bool   `json:"old,omitempty"`
}

// takeUnits cuts one object off the front of an image.
func takeUnits(img []byte, unit int) (n int, body, rest []byte, err error) {
	if len(img) < 4 {
		return 0, nil, nil, fmt.Errorf("image of %d bytes has no header", len(img))
	}
	n = int(binary.LittleEndian.Uint32(img))
	if len(img)-4 < n*unit {
		return 0, nil, nil, fmt.Errorf("header announces %d units of %d bytes, %d bytes follow", n, unit, len(img)-4)
	}
	return n, img[4 : 4+n*unit], img[4+n*unit:], nil
}

const (
	fLeaf = 1 << 31
	fHas  = 1 << 8
	fExt  = 1 << 9
)

func fOffset(u uint32) uint32 {
	if u&fExt != 0 {
		return u >> 10 << 8
	}
	return u >> 10
}

type decoded struct {
	m      *Model
	units  []uint32
	used   []bool
	guide  []byte
	ranked []byte
	counts []uint32
}

func (d *decoded) step(at uint32, l byte) (uint32, bool) {
	to := at ^ fOffset(d.units[at]) ^ uint32(l)
	if int(to) >= len(d.units) {
		return 0, false
	}
	return to, d.units[to]&(fLeaf|0xff) == uint32(l)
}

func (d *decoded) visit(n Node, at uint32) (best int32, err error) {
	name := func() string { return clip(prefixOf(d.m, n)) }
	if int(at) >= len(d.units) {
		return 0, fmt.Errorf("position after %q lies outside the image", name())
	}
	u := d.units[at]
	d.used[at] = true
	term := d.m.Terminal(n)
	if (u&fHas != 0) != term {
		return 0, fmt.Errorf("image: leaf flag after %q is %v, want %v", name(), u&fHas != 0, term)
	}
	best = -1
	if term {
		to := at ^ fOffset(u)
		if int(to) >= len(d.units) || d.units[to]&fLeaf == 0 {
			return 0, fmt.Errorf("image: no leaf unit for key %q", name())
		}
		if v := int32(d.units[to] &^ fLeaf); v != d.m.Vals[n.Lo] {
			return 0, fmt.Errorf("image: value of %q is %d, want %d", name(), v, d.m.Vals[n.Lo])
		}
		d.used[to] = true
		best = d.m.Vals[n.Lo]
	}
	if d.counts != nil && d.counts[at] != uint32(n.Hi-n.Lo) {
		return 0, fmt.Errorf("image: count after %q is %d, want %d", name(), d.counts[at], n.Hi-n.Lo)
	}
	var has [256]bool
	var labels []byte
	var bests [256]int32
	d.m.Children(n, func(l byte, ch Node) {
		if err != nil {
			return
		}
		has[l] = true
		labels = append(labels, l)
		to, ok := d.step(at, l)
		if !ok {
			err = fmt.Errorf("image: no transition 0x%02x after %q", l, name())
			return
		}
		bests[l], err = d.visit(ch, to)
		if bests[l] > best {
			best = bests[l]
		}
	})
	if err != nil {
		return 0, err
	}
	for l := 0; l < 256; l++ {
		if _, ok := d.step(at, byte(l)); ok && !has[l] {
			return 0, fmt.Errorf("image: spurious transition 0x%02x after %q", l, name())
		}
	}
	// plain guide: first child and siblings in ascending order
	if d.guide != nil && len(labels) > 0 {
		l := d.guide[2*at]
		for i, want := range labels {
			if l != want {
				return 0, fmt.Errorf("image: guide lists 0x%02x as continuation %d after %q, want 0x%02x", l, i, name(), want)
			}
			to, _ := d.step(at, l)
			l = d.guide[2*to+1]
		}
		if l != 0 {
			return 0, fmt.Errorf("image: guide lists 0x%02x after the last continuation of %q", l, name())
		}
	} else if d.guide != nil && d.guide[2*at] != 0 {
		return 0, fmt.Errorf("image: guide lists a continuation of %q, which has none", name())
	}
	// ranked guide: best first, the end of key is label 0
	if d.ranked != nil {
		total := len(labels)
		if term {
			total++
		}
		bests[0], has[0] = best, term
		if term {
			bests[0] = d.m.Vals[n.Lo]
		}
		l := d.ranked[2*at]
		prevL, prevV := byte(0), int32(0)
		for i := 0; i < total; i++ {
			if !has[l] {
				return 0, fmt.Errorf("image: ranked guide lists 0x%02x as continuation %d of %d after %q", l, i, total, name())
			}
			has[l] = false
			if i > 0 && (prevV < bests[l] || prevV == bests[l] && prevL > l) {
				return 0, fmt.Errorf("image: ranked guide lists 0x%02x (value %d) before 0x%02x (value %d) after %q", prevL, prevV, l, bests[l], name())
			}
			prevL, prevV = l, bests[l]
			l = d.ranked[2*(at^fOffset(u)^uint32(l))+1]
		}
		if l != 0 {
			return 0, fmt.Errorf("image: ranked guide lists 0x%02x after the last continuation of %q", l, name())
		}
	}
	return best, nil
}

func (c *formatCase) Run(s *Stats) error {
	if c.Old {
		return c.runOld(s)
	}
	m := c.Lex.Model()
	if c.Foreign {
		return c.runForeign(s, m)
	}
	d0, err := buildDawg(m)
	if err != nil {
		return err
	}
	unused := uint32(0xdeadbeef)
	dict := d0.BuildWithUnused(&unused)
	if dict == nil {
		return fmt.Errorf("building the dictionary failed")
	}
	plain := d0.Build()
	if plain == nil {
		return fmt.Errorf("building the dictionary failed")
	}
	img, err := dictImage(dict)
	if err != nil {
		return err
	}
	img2, err := dictImage(plain)
	if err != nil {
		return err
	}
	if !bytes.Equal(img, img2) {
		return fmt.Errorf("Build and BuildWithUnused give different dictionaries")
	}
	d := &decoded{m: m}
	n, body, rest, err := takeUnits(img, 4)
	if err != nil {
		return err
	}
	if len(rest) > 0 {
		return fmt.Errorf("%d bytes follow the %d announced units", len(rest), n)
	}
	if n == 0 || n%256 != 0 {
		return fmt.Errorf("%d units are not a whole number of blocks", n)
	}
	d.units = make([]uint32, n)
	for i := range d.units {
		d.units[i] = binary.LittleEndian.Uint32(body[4*i:])
	}
	d.used = make([]bool, n)
	g := dawg.BuildGuide(d0, dict)
	rg := dawg.BuildRankedGuide(d0, dict)
	if g == nil || rg == nil {
		return fmt.Errorf("building the guides failed")
	}
	x := dawg.BuildIndex(dict, g)
	if x == nil {
		return fmt.Errorf("building the index failed")
	}
	for i, gg := range []dawg.SomeGuide{g, rg} {
		gi, err := guideImage(gg)
		if err != nil {
			return err
		}
		gn, gb, rest, err := takeUnits(gi, 2)
		if err != nil {
			return err
		}
		if len(rest) > 0 {
			return fmt.Errorf("%d bytes follow the guide", len(rest))
		}
		if len(m.Keys) == 0 {
			continue
		}
		if gn != n {
			return fmt.Errorf("the guide has %d units, the dictionary %d", gn, n)
		}
		if i == 0 {
			d.guide = gb
		} else {
			d.ranked = gb
		}
	}
	xi, err := indexImage(x)
	if err != nil {
		return err
	}
	xn, xb, rest, err := takeUnits(xi, 4)
	if err != nil {
		return err
	}
	if len(rest) > 0 || xn != n {
		return fmt.Errorf("the index has %d units, the dictionary %d", xn, n)
	}
	d.counts = make([]uint32, xn)
	for i := range d.counts {
		d.counts[i] = binary.LittleEndian.Uint32(xb[4*i:])
	}
	if _, err := d.visit(m.Root(), 0); err != nil {
		return err
	}
	free := uint32(0)
	for _, u := range d.used {
		if !u {
			free++
		}
	}
	if unused != free {
		return fmt.Errorf("BuildWithUnused reports %d unused units, the image has %d", unused, free)
	}
	// Within reach of any offset a shared state is stored once.
	if len(m.Keys) > 0 && len(m.Keys) <= 600000 && n <= 1<<21 {
		x := &minimal{m: m, class: map[string]int32{}}
		x.visit(m.Root())
		want := 1
		for _, w := range x.width {
			want += int(w)
		}
		if used := int(n) - int(free); used != want {
			return fmt.Errorf("%d units are used, %d are enough when shared states are stored once", used, want)
		}
	}
	s.Nontrivial(len(m.Keys) > 0)
	s.Label("library writes, independent reader", true)
	labelLex(s, m, dict)
	return nil
}

// ---- independent writer ----

type layout struct {
	m       *Model
	r       *rng
	far     bool
	units   []uint32
	taken   []bool
	offUsed []bool
	guide   []byte
	ranked  []byte
	counts  []uint32
	min     *minimal
	pos     int
	shared  map[int32]uint32 // class -> offset
	bestOf  map[int32]int32
	jumped  bool
}

func (y *layout) reserved(block uint32) uint32 { return uint32(splitmix(uint64(block)^77) & 0xff) }

func (y *layout) ensure(i uint32) {
	for uint32(len(y.units)) <= i {
		y.units = append(y.units, make([]uint32, 256)...)
		y.taken = append(y.taken, make([]bool, 256)...)
		y.offUsed = append(y.offUsed, make([]bool, 256)...)
	}
}

func (y *layout) fits(at, o uint32, labels []byte) bool {
	rel := at ^ o
	if o == 0 || rel == 0 || rel >= 1<<21 && rel&0xff != 0 {
		return false
	}
	y.ensure(o | 0xff)
	if o&0xff == y.reserved(o>>8) || y.offUsed[o] {
		return false
	}
	for _, l := range labels {
		if y.taken[o^uint32(l)] {
			return false
		}
	}
	return true
}

func setOffset(u *uint32, rel uint32) {
	*u &= fLeaf | fHas | 0xff
	if rel < 1<<21 {
		*u |= rel << 10
	} else {
		*u |= rel<<2 | fExt
	}
}

// place lays out the children of the node whose unit is at. It consumes the
// classes in preorder, like minimal.visit produced them.
func (y *layout) place(n Node, at uint32) {
	id := y.min.byNode[y.pos]
	y.pos++
	term := y.m.Terminal(n)
	if term {
		y.units[at] |= fHas
	}
	var labels []byte
	if term {
		labels = append(labels, 0)
	}
	var kids []Node
	y.m.Children(n, func(l byte, c Node) { labels = append(labels, l); kids = append(kids, c) })
	if o, ok := y.shared[id]; ok {
		rel := at ^ o
		if rel != 0 && (rel < 1<<21 || rel&0xff == 0) && y.r.n(8) != 0 {
			setOffset(&y.units[at], rel)
			for _, k := range kids {
				y.skip(k)
			}
			return
		}
	}
	var o uint32
	for try := 0; ; try++ {
		hi := len(y.units)
		if try > 20 {
			hi += 256 * (try - 19)
		}
		o = uint32(y.r.n(hi))
		if y.far && y.r.n(3) == 0 {
			o = o&^0xff | at&0xff
			if !y.jumped || y.r.n(2) == 0 {
				o |= 1 << 21
			}
		}
		if at^o >= 1<<21 {
			o = o&^0xff | at&0xff
		}
		if y.fits(at, o, labels) {
			break
		}
	}
	y.jumped = y.jumped || at^o >= 1<<21
	y.offUsed[o] = true
	y.shared[id] = o
	setOffset(&y.units[at], at^o)
	for i, l := range labels {
		y.taken[o^uint32(l)] = true
		if l == 0 && term && i == 0 {
			y.units[o] = fLeaf | uint32(y.m.Vals[n.Lo])
		} else {
			y.units[o^uint32(l)] = uint32(l)
		}
	}
	for _, k := range kids {
		y.place(k, o^uint32(y.m.Keys[k.Lo][n.Depth]))
	}
}

func (y *layout) skip(n Node) {
	y.pos++
	y.m.Children(n, func(l byte, c Node) { y.skip(c) })
}

// annotate fills the guides and counts.
func (y *layout) annotate(n Node, at uint32) int32 {
	type kid struct {
		l byte
		v int32
	}
	var kids []kid
	o := at ^ fOffset(y.units[at])
	y.counts[at] = uint32(n.Hi - n.Lo)
	best := int32(-1)
	if y.m.Terminal(n) {
		best = y.m.Vals[n.Lo]
		kids = append(kids, kid{0, best})
	}
	prev := at
	first := true
	y.m.Children(n, func(l byte, c Node) {
		to := o ^ uint32(l)
		if first {
			y.guide[2*at] = l
		} else {
			y.guide[2*prev+1] = l
		}
		first, prev = false, to
		v := y.annotate(c, to)
		kids = append(kids, kid{l, v})
		if v > best {
			best = v
		}
	})
	// best first; ties by ascending label
	for i := 1; i < len(kids); i++ {
		for j := i; j > 0 && kids[j].v > kids[j-1].v; j-- {
			kids[j], kids[j-1] = kids[j-1], kids[j]
		}
	}
	y.ranked[2*at] = kids[0].l
	for i := 1; i < len(kids); i++ {
		y.ranked[2*(o^uint32(kids[i-1].l))+1] = kids[i].l
	}
	return best
}

func image(units int, body []byte) []byte {
	return append(binary.LittleEndian.AppendUint32(nil, uint32(units)), body...)
}

func (c *formatCase) runForeign(s *Stats, m *Model) error {
	if len(m.Keys) == 0 {
		return nil
	}
	y := &layout{m: m, r: &rng{c.Seed}, far: c.Far, shared: map[int32]uint32{}, min: &minimal{m: m, class: map[string]int32{}}}
	y.min.visit(m.Root())
	y.ensure(uint32(256*(1+y.r.n(3))) - 1)
	y.taken[0] = true
	y.place(m.Root(), 0)
	n := len(y.units)
	y.guide, y.ranked, y.counts = make([]byte, 2*n), make([]byte, 2*n), make([]uint32, n)
	y.annotate(m.Root(), 0)
	for i := range y.units {
		if !y.taken[i] {
			y.units[i] = uint32(i)&0xff ^ y.reserved(uint32(i)>>8)
		}
	}
	var ub, cb []byte
	for i := range y.units {
		ub = binary.LittleEndian.AppendUint32(ub, y.units[i])
		cb = binary.LittleEndian.AppendUint32(cb, y.counts[i])
	}
	stream := bytes.NewReader(append(append(append(image(n, ub), image(n, y.guide)...), image(n, y.ranked)...), image(n, cb)...))
	dict := dawg.ReadDictionary(stream)
	if dict == nil {
		return fmt.Errorf("a valid dictionary image of %d units is not readable", n)
	}
	g := dawg.ReadGuide(stream)
	rg := dawg.ReadRankedGuide(stream)
	if g == nil || rg == nil {
		return fmt.Errorf("a valid guide image is not readable")
	}
	x := dawg.ReadIndex(stream)
	if x == nil {
		return fmt.Errorf("a valid index image is not readable")
	}
	if err := useAll(dict, g, rg, x, m, c.Seed); err != nil {
		return fmt.Errorf("image laid out independently: %w", err)
	}
	s.Nontrivial(true)
	s.Label("independent writer, library reads", true)
	s.Label("independent writer, extended offsets", y.jumped)
	return nil
}

// useAll checks every kind of query on a read dictionary.
func useAll(dict *dawg.Dictionary, g *dawg.Guide, rg *dawg.RankedGuide, x *dawg.Index, m *Model, seed uint64) error {
	for _, k := range m.Keys {
		if err := checkLookup(dict, m, k); err != nil {
			return err
		}
	}
	if err := queriesFor(m, &rng{seed}, 60, func(q string) error { return checkLookup(dict, m, q) }); err != nil {
		return err
	}
	if _, err := checkNavigation(dict, m); err != nil {
		return err
	}
	if err := checkEnumeration(dict, g, m); err != nil {
		return err
	}
	rc := dawg.NewRankedCompleter(dict, rg)
	rc.Start(dict.Root())
	if err := enumerate(rc, m, 0, len(m.Keys), 0, "", -1, true); err != nil {
		return err
	}
	if x == nil {
		return nil
	}
	if err := checkIndex(dict, dawg.NewIndexer(dict, g, x), x, m); err != nil {
		return err
	}
	return checkIndex(dict, dawg.NewIndexer(dict, rg, x), x, m)
}

// runOld reads the image shipped with the repository (dictionary and guide).
func (c *formatCase) runOld(s *Stats) error {
	m := &Model{}
	for _, line := range strings.Split(strings.TrimSpace(oldLexicon), "\n") {
		k, v, _ := strings.Cut(line, "\t")
		n, err := strconv.Atoi(v)
		if err != nil {
			panic(inconclusive{err})
		}
		m.Keys = append(m.Keys, k)
		m.Vals = append(m.Vals, int32(n))
	}
	r := bytes.NewReader(oldImage)
	dict := dawg.ReadDictionary(r)
	if dict == nil {
		return fmt.Errorf("the dictionary written earlier is not readable")
	}
	g := dawg.ReadGuide(r)
	if g == nil {
		return fmt.Errorf("the guide written earlier is not readable")
	}
	if r.Len() != 0 {
		return fmt.Errorf("%d bytes of the file written earlier remain unread", r.Len())
	}
	for _, k := range m.Keys {
		if err := checkLookup(dict, m, k); err != nil {
			return fmt.Errorf("file written earlier: %w", err)
		}
	}
	if _, err := checkNavigation(dict, m); err != nil {
		return fmt.Errorf("file written earlier: %w", err)
	}
	s.Nontrivial(true)
	if err := checkEnumeration(dict, g, m); err != nil {
		return fmt.Errorf("file written earlier: %w", err)
	}
	return nil
}

func init() {
	register(&Prop{
		ID:    "C11",
		Rule:  "at least one key; image decoded, or laid out, without the library",
		New:   func() Case { return &formatCase{} },
		Quick: 20000, Thorough: 1200000,
		Gen: func(t *rapid.T) Case {
			if rapid.IntRange(0, 3).Draw(t, "foreign") == 0 {
				return &formatCase{Lex: drawLex(t, 1500), Foreign: true, Seed: drawSeed(t)}
			}
			return &formatCase{Lex: drawLex(t, 8000)}
		},
		Fixed: func(tier string) []Case {
			out := []Case{&formatCase{Old: true}, &formatCase{Lex: Lex{Shape: &Shape{Kind: "far", N: 450000, Alpha: 0, MaxLen: 8, Seed: 73}, Mode: "suffix"}}}
			out = append(out, structural(func(l Lex) Case { return &formatCase{Lex: l} }, true)(tier)...)
			for i, l := range fixedLexes() {
				if l.Shape == nil {
					out = append(out, &formatCase{Lex: l, Foreign: true, Seed: uint64(i)})
				}
				if l.Shape == nil && i >= 4 && i < 10 {
					out = append(out, &formatCase{Lex: l, Foreign: true, Seed: uint64(i), Far: true})
				}
			}
			return out
		},
	})
}
