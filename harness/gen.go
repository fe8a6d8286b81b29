package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"sort"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// B is a byte string; in JSON each byte is the code point of the same number.
type B string

func (b B) MarshalJSON() ([]byte, error) {
	var sb bytes.Buffer
	for i := 0; i < len(b); i++ {
		sb.WriteRune(rune(b[i]))
	}
	return json.Marshal(sb.String())
}

func (b *B) UnmarshalJSON(data []byte) error {
	var s string
	if err := json.Unmarshal(data, &s); err != nil {
		return err
	}
	out := make([]byte, 0, len(s))
	for _, r := range s {
		if r > 255 {
			return fmt.Errorf("not a byte: %q", r)
		}
		out = append(out, byte(r))
	}
	*b = B(out)
	return nil
}

// Shape describes a generated key set; it is expanded deterministically.
type Shape struct {
	Kind   string `json:"kind"`
	N      int    `json:"n"`
	Alpha  int    `json:"alpha"`
	MaxLen int    `json:"maxlen"`
	Seed   uint64 `json:"seed"`
}

// Lex is a set of keys with values: either listed or described by a shape.
// The values come from Vals (listed keys) or from the value mode.
type Lex struct {
	Keys  []B     `json:"keys,omitempty"`
	Vals  []int32 `json:"vals,omitempty"`
	Shape *Shape  `json:"shape,omitempty"`
	Mode  string  `json:"mode,omitempty"`
}

type rng struct{ s uint64 }

func (r *rng) next() uint64 { r.s++; return splitmix(r.s * 0x9e3779b97f4a7c15) }
func (r *rng) n(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.next() % uint64(n))
}

// alphabets: index selects which bytes keys are made of.
func alphabet(kind int) []byte {
	switch kind {
	case 1:
		return []byte{'a'}
	case 2:
		return []byte{'a', 'b'}
	case 3:
		return []byte{1, 255}
	case 4:
		return []byte("abcd")
	case 5:
		return []byte{1, 2, 3, 4, 5, 6, 7, 8}
	case 6:
		return []byte{0x7f, 0x80, 0x81, 0xfe, 0xff, 1}
	case 7:
		return []byte("abcdefghijklmnopqrstuvwxyz")
	case 8: // labels whose mutual xor distances are powers of two
		return []byte{1, 2, 4, 8, 16, 32, 64, 128}
	case 9: // even labels
		out := []byte{}
		for i := 2; i < 256; i += 2 {
			out = append(out, byte(i))
		}
		return out
	default:
		out := make([]byte, 255)
		for i := range out {
			out[i] = byte(i + 1)
		}
		return out
	}
}

const numAlphabets = 10

var utf8Letters = []rune("abcdeéñöабвгдежшощ中文字かなカナאבגαβγ😀😁ไทย한국")

func (sh *Shape) keys() []string {
	r := &rng{sh.Seed}
	al := alphabet(sh.Alpha)
	word := func(min, max int) []byte {
		n := min
		if max > min {
			n += r.n(max - min + 1)
		}
		w := make([]byte, n)
		for i := range w {
			w[i] = al[r.n(len(al))]
		}
		return w
	}
	var keys []string
	add := func(b []byte) { keys = append(keys, string(b)) }
	n, ml := sh.N, sh.MaxLen
	switch sh.Kind {
	case "random":
		for i := 0; i < n; i++ {
			add(word(0, ml))
		}
	case "fixedlen":
		for i := 0; i < n; i++ {
			add(word(ml, ml))
		}
	case "edge": // as far, with whole blocks of children on both sides of the limit of short offsets
		for i := 0; i < n; i++ {
			w := word(ml, ml)
			w[0] = 1
			add(w)
		}
		for b := 2; b < 256; b++ {
			add([]byte{byte(b)})
			for c := 1; c < 256; c++ {
				if b%8 == 2 && c%4 == 0 { // room for leaves
					continue
				}
				add([]byte{byte(b), byte(c)})
			}
		}
	case "far": // states whose own units lie far before those of their children, with and without shared continuations
		var tails [][]byte
		for i := 0; i < 40; i++ {
			tails = append(tails, word(1, 4))
		}
		for i := 0; i < n; i++ {
			w := word(ml, ml)
			w[0] = 1 + byte(r.n(2))
			if i%50 == 0 {
				w = append(w[:2:2], tails[r.n(len(tails))]...)
			}
			add(w)
		}
		for b := 3; b < 256; b++ {
			full := b >= 180 // fills whole blocks, one after the other
			if full {
				add([]byte{byte(b)})
			}
			for c := 1; c < 256; c++ {
				if full {
					add([]byte{byte(b), byte(c)})
					continue
				}
				if r.n(10) == 0 {
					continue
				}
				k := []byte{byte(b), byte(c)}
				if r.n(12) != 0 {
					add(k)
				}
				for r.n(3) == 0 {
					add(append(append([]byte{}, k...), tails[r.n(len(tails))]...))
				}
			}
		}
	case "product": // prefixes x suffixes: heavy merging
		k := 1
		for k*k < n {
			k++
		}
		var pre, suf [][]byte
		for i := 0; i < k; i++ {
			pre = append(pre, word(1, 1+ml/2))
			suf = append(suf, word(0, 1+ml/2))
		}
		for _, p := range pre {
			for _, s := range suf {
				if r.n(8) != 0 {
					add(append(append([]byte{}, p...), s...))
				}
			}
		}
	case "dense": // all words over a short alphabet, breadth first
		cur := [][]byte{{}}
		for len(keys) < n && len(cur) > 0 {
			var nxt [][]byte
			for _, w := range cur {
				add(w)
				if len(keys) >= n {
					break
				}
				for _, c := range al {
					nxt = append(nxt, append(append([]byte{}, w...), c))
				}
				if len(nxt) > n {
					nxt = nxt[:n]
				}
			}
			cur = nxt
		}
	case "chain": // every prefix of a few words is a key
		for len(keys) < n {
			w := word(1, 1+ml*4)
			for i := 0; i <= len(w) && len(keys) < n; i++ {
				add(w[:i])
			}
		}
	case "fanout": // states with very many children
		for len(keys) < n {
			p := word(0, ml)
			for c := 1; c < 256; c++ {
				if r.n(16) != 0 {
					k := append(append([]byte{}, p...), byte(c))
					add(append(k, word(0, 1)...))
				}
			}
		}
	case "prefix": // one long common prefix
		p := word(ml*8, ml*8)
		for i := 0; i < n; i++ {
			add(append(append([]byte{}, p[:len(p)-r.n(3)]...), word(0, ml)...))
		}
	case "long": // a few very long keys
		p := word(ml, ml)
		for i := 0; i < n; i++ {
			cut := r.n(len(p) + 1)
			add(append(append([]byte{}, p[:cut]...), word(0, 40)...))
		}
		add(p[:len(p)*2/3])
		add(p)
	case "steps": // keys of every length, one in the other
		p := word(n, n)
		for i := 0; i <= n; i++ {
			add(p[:i])
			if r.n(4) == 0 {
				add(append(p[:i:i], word(1, 3)...))
			}
		}
	case "comb": // a long stem, with many teeth at every step
		var stem []byte
		for i := 0; i < n; i++ {
			at := ml - 1
			if i%7 == 3 {
				at = r.n(ml)
			}
			for j := 0; j < ml; j++ {
				if j != at {
					add(append(stem[:i:i], al[j*len(al)/ml]))
				}
			}
			stem = append(stem, al[at*len(al)/ml])
			if r.n(4) == 0 {
				add(stem[: i+1 : i+1])
			}
		}
		add(stem)
	case "grid": // all words of a length: as many keys as possible in a small automaton
		w := make([]byte, ml)
		for i := 0; i < n; i++ {
			for j, v := ml-1, i; j >= 0; j-- {
				w[j] = al[v%len(al)]
				v /= len(al)
			}
			add(append([]byte{'a'}, w...))
		}
	case "counter":
		for i := 0; i < n; i++ {
			add([]byte(fmt.Sprintf("%0*d", 1+ml/2, i)))
		}
	case "counterbin": // little-endian base-255 counters: wide first levels
		for i := 0; i < n; i++ {
			v := i
			w := []byte{}
			for {
				w = append(w, byte(1+v%255))
				v /= 255
				if v == 0 {
					break
				}
			}
			add(w)
		}
	case "utf8":
		for i := 0; i < n; i++ {
			var w []byte
			for j := r.n(ml + 1); j > 0; j-- {
				w = utf8.AppendRune(w, utf8Letters[r.n(len(utf8Letters))])
			}
			add(w)
		}
	case "ladder": // deep shared parts with keys on every rung
		rungs := word(ml*5, ml*5)
		for len(keys) < n {
			p := word(1, 2)
			from := 0
			if r.n(3) == 0 {
				from = r.n(len(rungs))
			}
			for i := from; i <= len(rungs) && len(keys) < n; i++ {
				if r.n(10) != 0 {
					add(append(p[:len(p):len(p)], rungs[from:i]...))
				}
			}
		}
	case "suffixes": // common suffixes with one differing byte at the front
		s := word(ml, ml)
		for i := 0; i < n; i++ {
			k := append(word(1, 2), s[r.n(len(s)+1):]...)
			add(k)
		}
	default:
		panic(inconclusive{fmt.Errorf("unknown shape %q", sh.Kind)})
	}
	return keys
}

// value modes for generated values.
var valueModes = []string{"zero", "rank", "revrank", "small", "tiny", "rand31", "suffix", "label", "boundary", "max", "unique31", "length", "mixed", "tail"}

var boundaryValues = []int32{0, 1, 2, 127, 128, 254, 255, 256, 257, 511, 512, 513, 767, 768, 1023, 1024, 1 << 20, 1<<21 - 1, 1 << 21, 1 << 24, 1<<29 - 1, 1 << 29, 1<<30 - 1, 1 << 30, 1<<30 + 1, 1<<31 - 2, 1<<31 - 1}

func hashString(s string, salt uint64) uint64 {
	h := salt ^ 0xcbf29ce484222325
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 0x100000001b3
	}
	return splitmix(h)
}

func valueFor(mode string, key string, rank, total int, salt uint64) int32 {
	h := hashString(key, salt)
	switch mode {
	case "", "zero":
		return 0
	case "rank":
		return int32(rank)
	case "revrank":
		return int32(total - rank)
	case "tiny":
		return int32(h % 2)
	case "small":
		return int32(h % 5)
	case "rand31":
		return int32(h & 0x7fffffff)
	case "unique31":
		return int32((uint32(rank)*2654435761 + uint32(salt)) & 0x7fffffff)
	case "suffix":
		k := key
		if len(k) > 2 {
			k = k[len(k)-2:]
		}
		return int32(hashString(k, salt) % 7)
	case "tail": // many different values, but the same ones below shared parts
		k := key
		if len(k) > 6 {
			k = k[len(k)-6:]
		}
		return int32(hashString(k, salt) & 0x7fffffff)
	case "length":
		return int32(len(key) % 3)
	case "label": // the low byte of the value is a byte of the key, as a label would be
		if len(key) == 0 {
			return int32(h & 0x7fffff00)
		}
		return int32(uint32(h)&0x7fffff00 | uint32(key[h>>32%uint64(len(key))]))
	case "boundary":
		return boundaryValues[h%uint64(len(boundaryValues))]
	case "max":
		return 1<<31 - 1 - int32(h%3)
	case "mixed":
		return valueFor(valueModes[h>>40%12], key, rank, total, salt+1)
	}
	panic(inconclusive{fmt.Errorf("unknown value mode %q", mode)})
}

// Model is the reference: sorted distinct keys with values.
type Model struct {
	Keys []string
	Vals []int32
}

func (l *Lex) Model() *Model {
	type kv struct {
		k string
		v int32
		i int
	}
	m := &Model{}
	var keys []string
	var salt uint64
	if l.Shape != nil {
		keys = l.Shape.keys()
		salt = l.Shape.Seed
		sort.Strings(keys)
		for i, k := range keys {
			if i == 0 || k != keys[i-1] {
				m.Keys = append(m.Keys, k)
			}
		}
	} else {
		kvs := make([]kv, len(l.Keys))
		for i, k := range l.Keys {
			var v int32
			if i < len(l.Vals) {
				v = l.Vals[i]
			}
			kvs[i] = kv{string(k), v, i}
		}
		sort.SliceStable(kvs, func(i, j int) bool { return kvs[i].k < kvs[j].k })
		for i, e := range kvs {
			if i == 0 || e.k != kvs[i-1].k {
				m.Keys = append(m.Keys, e.k)
				m.Vals = append(m.Vals, e.v)
			}
		}
		if l.Mode == "" {
			return m
		}
	}
	m.Vals = make([]int32, len(m.Keys))
	for i, k := range m.Keys {
		m.Vals[i] = valueFor(l.Mode, k, i, len(m.Keys), salt)
	}
	return m
}

// Find returns the position of a key, or -1.
func (m *Model) Find(k string) int {
	i := sort.SearchStrings(m.Keys, k)
	if i < len(m.Keys) && m.Keys[i] == k {
		return i
	}
	return -1
}

// Range returns the half-open range of keys starting with p.
func (m *Model) Range(p string) (int, int) {
	lo := sort.SearchStrings(m.Keys, p)
	hi := lo + sort.Search(len(m.Keys)-lo, func(i int) bool {
		k := m.Keys[lo+i]
		return len(k) < len(p) || k[:len(p)] != p
	})
	return lo, hi
}

// Node is a position in the trie of the keys: all keys in [Lo,Hi) share their
// first Depth bytes.
type Node struct{ Lo, Hi, Depth int }

func (m *Model) Prefix(n Node) string { return m.Keys[n.Lo][:n.Depth] }

// Terminal tells whether the position is the end of a key (it then is Keys[Lo]).
func (m *Model) Terminal(n Node) bool { return n.Lo < n.Hi && len(m.Keys[n.Lo]) == n.Depth }

// Children calls f for each next byte, in ascending order.
func (m *Model) Children(n Node, f func(label byte, c Node)) {
	i := n.Lo
	if m.Terminal(n) {
		i++
	}
	for i < n.Hi {
		l := m.Keys[i][n.Depth]
		j := i + 1
		if n.Hi-i > 64 {
			j = i + sort.Search(n.Hi-i, func(k int) bool { return m.Keys[i+k][n.Depth] > l })
		} else {
			for j < n.Hi && m.Keys[j][n.Depth] == l {
				j++
			}
		}
		f(l, Node{i, j, n.Depth + 1})
		i = j
	}
}

func (m *Model) Root() Node { return Node{0, len(m.Keys), 0} }

// ---- drawing ----

func drawByteKey(t *rapid.T, al []byte, maxLen int, name string) B {
	return B(rapid.SliceOfN(rapid.SampledFrom(al), 0, maxLen).Draw(t, name))
}

func drawAlphabet(t *rapid.T) []byte {
	return alphabet(rapid.SampledFrom([]int{2, 4, 3, 5, 6, 8, 7, 0, 1}).Draw(t, "alphabet"))
}

func drawValue(t *rapid.T, name string) int32 {
	switch rapid.IntRange(0, 5).Draw(t, name+"-kind") {
	case 0:
		return 0
	case 1, 2:
		return rapid.Int32Range(0, 4).Draw(t, name)
	case 3:
		return rapid.SampledFrom(boundaryValues).Draw(t, name)
	case 4:
		return rapid.Int32Range(0, 1<<31-1).Draw(t, name)
	default:
		return int32(rapid.IntRange(0, 1<<22).Draw(t, name+"-hi")<<8) | int32(rapid.SampledFrom([]byte("abcd\x01\xff")).Draw(t, name+"-lo"))
	}
}

func drawExplicit(t *rapid.T, maxKeys, maxLen int) Lex {
	al := drawAlphabet(t)
	min := rapid.SampledFrom([]int{2, 0, 1, 5, 10, 20}).Draw(t, "min")
	if min > maxKeys {
		min = maxKeys
	}
	n := rapid.IntRange(min, maxKeys).Draw(t, "n")
	var l Lex
	for i := 0; i < n; i++ {
		l.Keys = append(l.Keys, drawByteKey(t, al, maxLen, "key"))
	}
	if rapid.IntRange(0, 2).Draw(t, "listvals") != 0 {
		for i := 0; i < n; i++ {
			l.Vals = append(l.Vals, drawValue(t, "val"))
		}
	} else {
		l.Mode = rapid.SampledFrom(valueModes).Draw(t, "mode")
	}
	return l
}

func drawSeed(t *rapid.T) uint64 { return rapid.Uint64().Draw(t, "seed") }

// drawShape draws a generated key set of at most maxN keys.
func drawShape(t *rapid.T, maxN int) Lex {
	kind := rapid.SampledFrom([]string{"random", "fixedlen", "product", "dense", "chain", "fanout", "prefix", "long", "counter", "counterbin", "utf8", "suffixes", "ladder"}).Draw(t, "kind")
	sh := &Shape{Kind: kind, Seed: drawSeed(t)}
	// sizes spread over the orders of magnitude
	top := rapid.SampledFrom([]int{8, 40, 200, 1000, 4000, 20000}).Draw(t, "top")
	if top > maxN {
		top = maxN
	}
	sh.N = top - rapid.IntRange(0, top-1).Draw(t, "less")
	sh.Alpha = rapid.IntRange(0, numAlphabets-1).Draw(t, "alpha")
	sh.MaxLen = rapid.IntRange(1, 12).Draw(t, "maxlen")
	switch kind {
	case "long":
		sh.MaxLen = rapid.IntRange(1, 3000).Draw(t, "longlen")
		if sh.N > 30 {
			sh.N = 30
		}
	case "suffixes", "product", "ladder": // deep merged parts
		if rapid.IntRange(0, 4).Draw(t, "deep") == 4 {
			sh.MaxLen = rapid.IntRange(13, 400).Draw(t, "deeplen")
			if sh.N > 200 {
				sh.N = 200
			}
			if kind == "ladder" {
				sh.MaxLen /= 5
				sh.N *= 5
			}
		}
	case "prefix":
		if sh.N > 2000 {
			sh.N = 2000
		}
	case "chain":
		if sh.N > 4000 {
			sh.N = 4000
		}
	case "fanout":
		if sh.N < 300 {
			sh.N = 300
		}
		if sh.MaxLen > 3 {
			sh.MaxLen = 3
		}
	case "counterbin":
		if sh.N < 256 && maxN >= 256 {
			sh.N += 256
		}
	}
	return Lex{Shape: sh, Mode: rapid.SampledFrom(valueModes).Draw(t, "mode")}
}

// drawLex draws a key set: mostly listed keys (which shrink well), else a shape.
func drawLex(t *rapid.T, maxN int) Lex {
	if rapid.IntRange(0, 9).Draw(t, "explicit") < 6 {
		return drawExplicit(t, rapid.SampledFrom([]int{3, 8, 20, 60}).Draw(t, "maxkeys"), rapid.SampledFrom([]int{1, 3, 6, 12}).Draw(t, "keylen"))
	}
	return drawShape(t, maxN)
}

// fixedLexes are boundary key sets run by every structural property.
func fixedLexes() []Lex {
	all := []B{}
	for c := 1; c < 256; c++ {
		all = append(all, B([]byte{byte(c)}))
	}
	two := []B{}
	for c := 1; c < 256; c += 3 {
		for d := 1; d < 256; d += 17 {
			two = append(two, B([]byte{byte(c), byte(d)}))
		}
	}
	out := []Lex{
		{},
		{Keys: []B{""}},
		{Keys: []B{""}, Vals: []int32{1<<31 - 1}},
		{Keys: []B{"a"}},
		{Keys: []B{"", "a"}, Vals: []int32{5, 3}},
		{Keys: []B{"", "\x01", "\xff"}, Vals: []int32{97, 1<<31 - 1, 255}},
		{Keys: all, Mode: "zero"},
		{Keys: all, Mode: "rank"},
		{Keys: append([]B{""}, all...), Mode: "label"},
		{Keys: two, Mode: "zero"},
		{Keys: two, Mode: "unique31"},
		{Keys: []B{"aca", "bca"}, Vals: []int32{1, 1}},
		{Keys: []B{"aca", "bca"}, Vals: []int32{1, 2}},
		{Keys: []B{"a", "ab", "abc", "b", "bb", "bbc"}, Vals: []int32{0, 0, 0, 0, 0, 0}},
	}
	for _, kind := range []string{"random", "fixedlen", "product", "dense", "chain", "fanout", "prefix", "counter", "counterbin", "utf8", "suffixes", "ladder"} {
		for i, mode := range []string{"zero", "unique31", "label"} {
			out = append(out, Lex{Shape: &Shape{Kind: kind, N: 700 + 500*i, Alpha: (i * 4) % 9, MaxLen: 5, Seed: uint64(11 + i)}, Mode: mode})
		}
	}
	out = append(out,
		Lex{Shape: &Shape{Kind: "suffixes", N: 60, Alpha: 7, MaxLen: 400, Seed: 5}, Mode: "zero"},
		Lex{Shape: &Shape{Kind: "suffixes", N: 40, Alpha: 2, MaxLen: 5000, Seed: 6}, Mode: "suffix"},
		Lex{Shape: &Shape{Kind: "product", N: 100, Alpha: 4, MaxLen: 900, Seed: 7}, Mode: "suffix"},
		Lex{Shape: &Shape{Kind: "product", N: 60, Alpha: 7, MaxLen: 600, Seed: 8}, Mode: "length"},
		Lex{Shape: &Shape{Kind: "ladder", N: 2500, Alpha: 2, MaxLen: 60, Seed: 9}, Mode: "tail"},
		Lex{Shape: &Shape{Kind: "ladder", N: 3000, Alpha: 4, MaxLen: 120, Seed: 10}, Mode: "tail"},
		Lex{Shape: &Shape{Kind: "ladder", N: 1500, Alpha: 7, MaxLen: 70, Seed: 12}, Mode: "suffix"},
		Lex{Shape: &Shape{Kind: "comb", N: 50, Alpha: 7, MaxLen: 26, Seed: 14}, Mode: "unique31"},
		Lex{Shape: &Shape{Kind: "steps", N: 1100, Alpha: 4, Seed: 13}, Mode: "unique31"},
		Lex{Shape: &Shape{Kind: "long", N: 12, Alpha: 2, MaxLen: 70000, Seed: 3}, Mode: "small"},
		Lex{Shape: &Shape{Kind: "long", N: 3, Alpha: 0, MaxLen: 5000, Seed: 4}, Mode: "rand31"},
	)
	return out
}

// veryLong has a few keys of up to n bytes.
func veryLong(n int) Lex {
	return Lex{Shape: &Shape{Kind: "long", N: 3, Alpha: 2, MaxLen: n, Seed: 3}, Mode: "small"}
}

// with adds a case in front of others.
func with(c Case, f func(tier string) []Case) func(tier string) []Case {
	return func(tier string) []Case { return append([]Case{c}, f(tier)...) }
}

// hugeLexes need more than 2^21 units, so that offsets use their extended form, or are very deep and wide.
func hugeLexes() []Lex {
	return []Lex{
		{Shape: &Shape{Kind: "fixedlen", N: 560000, Alpha: 0, MaxLen: 5, Seed: 77}, Mode: "unique31"},
		{Shape: &Shape{Kind: "far", N: 680000, Alpha: 0, MaxLen: 8, Seed: 76}, Mode: "suffix"},
		{Shape: &Shape{Kind: "edge", N: 652400, Alpha: 0, MaxLen: 8, Seed: 76}, Mode: "suffix"},
		{Shape: &Shape{Kind: "comb", N: 300, Alpha: 0, MaxLen: 255, Seed: 74}, Mode: "unique31"},
	}
}

// hugeLexesThorough adds larger and more heavily merged ones.
func hugeLexesThorough() []Lex {
	return []Lex{
		{Shape: &Shape{Kind: "fixedlen", N: 720000, Alpha: 0, MaxLen: 7, Seed: 76}, Mode: "suffix"},
		{Shape: &Shape{Kind: "far", N: 1200000, Alpha: 7, MaxLen: 10, Seed: 75}, Mode: "small"},
		{Shape: &Shape{Kind: "fixedlen", N: 1500000, Alpha: 0, MaxLen: 5, Seed: 78}, Mode: "small"},
		{Shape: &Shape{Kind: "random", N: 900000, Alpha: 7, MaxLen: 12, Seed: 79}, Mode: "unique31"},
		{Shape: &Shape{Kind: "fixedlen", N: 900000, Alpha: 9, MaxLen: 6, Seed: 80}, Mode: "suffix"},
		{Shape: &Shape{Kind: "product", N: 4000000, Alpha: 7, MaxLen: 12, Seed: 81}, Mode: "unique31"},
	}
}

// drawSize: a first size for a builder's hash table (0: the default).
func drawSize(t *rapid.T, usual ...int) int {
	if rapid.IntRange(0, 2).Draw(t, "anysize") == 0 {
		return rapid.IntRange(1, 1200).Draw(t, "size")
	}
	return rapid.SampledFrom(usual).Draw(t, "size")
}
