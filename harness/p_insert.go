package main

import (
	"bytes"
	"fmt"

	"github.com/deNULL/dawg"
	"pgregory.net/rapid"
)

// ---- C03: insertion ----

type attempt struct {
	Key   B     `json:"key"`
	Value int32 `json:"value"`
	// Form: 0 InsertKeyValue (fresh buffer), 1 InsertKeyValue in a reused buffer with trailing bytes,
	// 2 InsertStringValue, 3 InsertString (value 0)
	Form int `json:"form"`
}

type insertCase struct {
	Attempts []attempt `json:"attempts"`
	Size     int       `json:"size,omitempty"`
}

func newBuilder(size int) *dawg.DawgBuilder {
	if size <= 0 {
		return dawg.NewDawgBuilder()
	}
	return dawg.NewDawgBuilderWithSize(size)
}

// inserter makes attempts against a builder and keeps the model of what must be inside.
type inserter struct {
	b       *dawg.DawgBuilder
	buf     []byte
	m       Model
	refused int
	repeat  int
}

func (x *inserter) try(a attempt) error {
	key := string(a.Key)
	val := a.Value
	if a.Form == 3 {
		val = 0
	}
	last := len(x.m.Keys) - 1
	want := val >= 0 && bytes.IndexByte([]byte(key), 0) < 0 && (last < 0 || key >= x.m.Keys[last])
	var got bool
	switch a.Form {
	case 0:
		got = x.b.InsertKeyValue([]byte(key), len(key), val)
	case 1:
		x.buf = append(append(x.buf[:0], key...), 0, 'z', 0xff)
		got = x.b.InsertKeyValue(x.buf, len(key), val)
		if string(x.buf[:len(key)]) != key {
			return fmt.Errorf("InsertKeyValue changed the caller's buffer of %q", clip(key))
		}
		for i := range x.buf {
			x.buf[i] = 'Q'
		}
	case 2:
		got = x.b.InsertStringValue(key, val)
	default:
		got = x.b.InsertString(key)
	}
	if got != want {
		prev := "none"
		if last >= 0 {
			prev = fmt.Sprintf("%q", clip(x.m.Keys[last]))
		}
		return fmt.Errorf("insertion of %q = %d (form %d, last accepted key: %s) returned %v, want %v", clip(key), val, a.Form, prev, got, want)
	}
	if !want {
		x.refused++
		return nil
	}
	if last >= 0 && x.m.Keys[last] == key {
		x.m.Vals[last] = val
		x.repeat++
		return nil
	}
	x.m.Keys = append(x.m.Keys, key)
	x.m.Vals = append(x.m.Vals, val)
	return nil
}

func (c *insertCase) Run(s *Stats) error {
	x := &inserter{b: newBuilder(c.Size)}
	for _, a := range c.Attempts {
		if err := x.try(a); err != nil {
			return err
		}
	}
	d := dawg.NewDawg()
	x.b.Finish(d)
	dict := d.Build()
	if dict == nil {
		return fmt.Errorf("building failed")
	}
	m := &x.m
	for _, k := range m.Keys {
		if err := checkLookup(dict, m, k); err != nil {
			return err
		}
	}
	for _, a := range c.Attempts {
		if err := checkLookup(dict, m, string(a.Key)); err != nil {
			return err
		}
	}
	g := dawg.BuildGuide(d, dict)
	if g == nil {
		return fmt.Errorf("building the guide failed")
	}
	if err := checkEnumeration(dict, g, m); err != nil {
		return err
	}
	// as if the refused attempts had never been made
	ref, err := build(m)
	if err != nil {
		return err
	}
	img1, err := dictImage(dict)
	if err != nil {
		return err
	}
	img2, err := dictImage(ref.Dict)
	if err != nil {
		return err
	}
	if !bytes.Equal(img1, img2) {
		return fmt.Errorf("the dictionary differs from one built without the refused attempts")
	}
	if err := sameStats(d, ref.D); err != nil {
		return err
	}
	s.Nontrivial(x.refused > 0 && len(m.Keys) >= 2)
	s.Label("refused attempts", x.refused > 0)
	s.Label("repeated keys", x.repeat > 0)
	labelLex(s, m, dict)
	return nil
}

func sameStats(a, b *dawg.Dawg) error {
	if a.NumOfStates() != b.NumOfStates() || a.NumOfTransitions() != b.NumOfTransitions() || a.NumOfMergedStates() != b.NumOfMergedStates() ||
		a.NumOfMergedTransitions() != b.NumOfMergedTransitions() || a.NumOfMergingStates() != b.NumOfMergingStates() || a.Size() != b.Size() {
		return fmt.Errorf("statistics differ from those of a clean build: states %d/%d transitions %d/%d merged states %d/%d merged transitions %d/%d merging %d/%d",
			a.NumOfStates(), b.NumOfStates(), a.NumOfTransitions(), b.NumOfTransitions(), a.NumOfMergedStates(), b.NumOfMergedStates(),
			a.NumOfMergedTransitions(), b.NumOfMergedTransitions(), a.NumOfMergingStates(), b.NumOfMergingStates())
	}
	return nil
}

// checkEnumeration: the guide lists exactly the keys of the model.
func checkEnumeration(dict *dawg.Dictionary, g *dawg.Guide, m *Model) error {
	c := dawg.NewCompleter(dict, g)
	c.Start(dict.Root())
	for i, k := range m.Keys {
		if !c.Next() {
			return fmt.Errorf("enumeration ends after %d of %d keys", i, len(m.Keys))
		}
		if c.Key() != k || c.Value() != m.Vals[i] {
			return fmt.Errorf("enumeration gives %q = %d at position %d, want %q = %d", clip(c.Key()), c.Value(), i, clip(k), m.Vals[i])
		}
	}
	if c.Next() {
		return fmt.Errorf("enumeration goes on after %d keys with %q", len(m.Keys), clip(c.Key()))
	}
	return nil
}

func drawAttempts(t *rapid.T, maxN int) []attempt {
	al := drawAlphabet(t)
	withZero := append(append([]byte{}, al...), 0)
	maxLen := rapid.SampledFrom([]int{2, 4, 8}).Draw(t, "keylen")
	n := rapid.IntRange(0, maxN).Draw(t, "attempts")
	var out []attempt
	last := B("")
	for i := 0; i < n; i++ {
		var a attempt
		switch rapid.IntRange(0, 11).Draw(t, "what") {
		case 0: // anything
			a.Key = drawByteKey(t, al, maxLen, "key")
		case 1: // with NUL possibly
			a.Key = drawByteKey(t, withZero, maxLen, "key")
		case 2: // repeat
			a.Key = last
		case 3: // prefix of the last key: out of order
			if len(last) > 0 {
				a.Key = last[:rapid.IntRange(0, len(last)-1).Draw(t, "cut")]
			}
		case 4: // last key with NUL at the end
			a.Key = last + "\x00" + drawByteKey(t, withZero, 2, "tail")
		case 5: // same length, smaller or larger last byte
			if len(last) > 0 {
				a.Key = last[:len(last)-1] + B([]byte{last[len(last)-1] + byte(rapid.SampledFrom([]int{1, 255, 127, 128}).Draw(t, "delta"))})
			}
		default: // greater than the last key
			cut := rapid.IntRange(0, len(last)).Draw(t, "keep")
			tail := drawByteKey(t, al, maxLen, "tail")
			k := last[:cut] + tail
			if cut < len(last) && k < last {
				if c := last[cut]; c < 255 {
					k = last[:cut] + B([]byte{c + byte(rapid.IntRange(1, 255-int(c)).Draw(t, "up"))}) + tail
				} else {
					k = last + tail
				}
			}
			if len(k) > 40 {
				k = k[:40]
			}
			a.Key = k
		}
		if rapid.IntRange(0, 9).Draw(t, "neg") == 0 {
			a.Value = rapid.SampledFrom([]int32{-1, -2, -1 << 31, -1 << 30}).Draw(t, "negval")
		} else {
			a.Value = drawValue(t, "val")
		}
		a.Form = rapid.IntRange(0, 3).Draw(t, "form")
		out = append(out, a)
		if a.Key >= last && bytes.IndexByte([]byte(a.Key), 0) < 0 && a.Value >= 0 {
			last = a.Key
		}
	}
	return out
}

func fixedAttempts() [][]attempt {
	ks := func(keys ...string) []attempt {
		var out []attempt
		for i, k := range keys {
			out = append(out, attempt{B(k), int32(i + 1), i % 3})
		}
		return out
	}
	lots := []attempt{}
	for i := 0; i < 6000; i++ { // crosses several growth steps of the state table, with refusals in between
		lots = append(lots, attempt{B(fmt.Sprintf("%05dx%d", i, i%13)), int32(i), i % 3})
		if i%7 == 0 {
			lots = append(lots, attempt{B(fmt.Sprintf("%05d", i-1)), 1, 0}, attempt{B(fmt.Sprintf("%05d\x00", i)), 1, 0}, attempt{B(fmt.Sprintf("%05dy", i)), -1, 2})
		}
		if i%11 == 0 {
			lots = append(lots, attempt{B(fmt.Sprintf("%05dx%d", i, i%13)), int32(i * 3), 0})
		}
	}
	long := B(bytes.Repeat([]byte("k"), 70000))
	return [][]attempt{
		nil,
		{{B(""), -1, 0}}, {{B("\x00"), 1, 0}}, {{B("a\x00b"), 1, 2}},
		ks("a"), ks("", "", ""), ks("b", "a"), ks("a", "a\x00", "b"), ks("ab", "a", "ac"), ks("ab", "", "ac"),
		ks("ab", "abc", "ab", "abd"), ks("\xff", "\x80", "\xff\xff"), ks("\x7f", "\x80", "\x7f"),
		lots,
		{{long, 1, 1}, {long[:69999], 2, 0}, {long + "a", 3, 0}, {long + "\x00", 3, 0}, {long, 3, 2}},
	}
}

func init() {
	register(&Prop{
		ID:    "C03",
		Rule:  "at least one refused attempt and at least two accepted keys",
		New:   func() Case { return &insertCase{} },
		Quick: 700000, Thorough: 25000000,
		Gen: func(t *rapid.T) Case {
			return &insertCase{Attempts: drawAttempts(t, rapid.SampledFrom([]int{4, 12, 60}).Draw(t, "max")), Size: drawSize(t, 0, 0, 1, 2, 3, 8)}
		},
		Fixed: func(string) []Case {
			var out []Case
			for _, n := range []int{1<<22 + 6, 1 << 20, 300001, 140000} { // refused and accepted late in long keys
				c := &insertCase{}
				k := bytes.Repeat([]byte("km"), n/2)
				c.Attempts = append(c.Attempts, attempt{B(k), 5, 1})
				steps := 12
				if n > 1<<20 {
					steps = 2
				}
				for i := 0; i < steps; i++ {
					at := n/2 - 1 - i*(n/2)/steps
					low := append([]byte{}, k[:2*at+1]...)
					low = append(low, "lzz"...)
					c.Attempts = append(c.Attempts, attempt{B(low), 1, i % 3}, attempt{B(k[:2*at]), 1, 0}, attempt{B(string(k[:2*at]) + "\x00"), 1, 2}, attempt{B(k), int32(i), 0})
				}
				c.Attempts = append(c.Attempts, attempt{B(k) + "\x00", 7, 1}, attempt{B(k) + "m\x00", 7, 0}, attempt{B(k) + "y", -1, 0}, attempt{B(k) + "\x00z", 7, 2}, attempt{B(k) + "z", 7, 1}, attempt{B(k), 8, 0}, attempt{B(k[:n-9]) + "z", 9, 1}, attempt{B(k[:n-9]) + "y", 9, 1}, attempt{"z", 1, 2})
				out = append(out, c)
			}
			for _, a := range fixedAttempts() {
				out = append(out, &insertCase{Attempts: a})
			}
			return out
		},
	})
}
