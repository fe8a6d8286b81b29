package main

import (
	"bytes"
	"fmt"

	"github.com/deNULL/dawg"
)

// Built bundles everything made from one key set.
type Built struct {
	M    *Model
	D    *dawg.Dawg
	Dict *dawg.Dictionary
}

func insertAll(b *dawg.DawgBuilder, m *Model) error {
	for i, k := range m.Keys {
		if !b.InsertKeyValue([]byte(k), len(k), m.Vals[i]) {
			return fmt.Errorf("insertion of valid key %q (value %d) refused", clip(k), m.Vals[i])
		}
	}
	return nil
}

func buildDawg(m *Model) (*dawg.Dawg, error) {
	b := dawg.NewDawgBuilder()
	if err := insertAll(b, m); err != nil {
		return nil, err
	}
	d := dawg.NewDawg()
	b.Finish(d)
	return d, nil
}

func build(m *Model) (*Built, error) {
	d, err := buildDawg(m)
	if err != nil {
		return nil, err
	}
	dict := d.Build()
	if dict == nil {
		return nil, fmt.Errorf("building the dictionary failed")
	}
	return &Built{m, d, dict}, nil
}

func clip(s string) string {
	if len(s) > 60 {
		return fmt.Sprintf("%s...(%d bytes)", s[:60], len(s))
	}
	return s
}

func dictImage(d *dawg.Dictionary) ([]byte, error) {
	var buf bytes.Buffer
	if !d.Write(&buf) {
		return nil, fmt.Errorf("writing the dictionary to memory failed")
	}
	return buf.Bytes(), nil
}

func guideImage(g dawg.SomeGuide) ([]byte, error) {
	var buf bytes.Buffer
	if !g.Write(&buf) {
		return nil, fmt.Errorf("writing the guide to memory failed")
	}
	return buf.Bytes(), nil
}

func indexImage(x *dawg.Index) ([]byte, error) {
	var buf bytes.Buffer
	if !x.Write(&buf) {
		return nil, fmt.Errorf("writing the index to memory failed")
	}
	return buf.Bytes(), nil
}

// checkLookups compares all lookup forms on one query.
func checkLookup(dict *dawg.Dictionary, m *Model, q string) error {
	i := m.Find(q)
	want := int32(-1)
	if i >= 0 {
		want = m.Vals[i]
	}
	if got := dict.ContainsString(q); got != (i >= 0) {
		return fmt.Errorf("ContainsString(%q) = %v, want %v", clip(q), got, i >= 0)
	}
	if got := dict.FindString(q); got != want {
		return fmt.Errorf("FindString(%q) = %d, want %d", clip(q), got, want)
	}
	h := int64(hashString(q[:min(len(q), 64)], uint64(len(q))) >> 1)
	// what the variable held before must not matter
	sentinel := []int32{-77, 0, -1, 5, want, want + 1, 1, 1<<31 - 1, -1 << 31, int32(h >> 20), int32(len(q)), 255}[h%12]
	v := sentinel
	if got := dict.FindStringValue(q, &v); got != (i >= 0) {
		return fmt.Errorf("FindStringValue(%q) = %v, want %v", clip(q), got, i >= 0)
	}
	if i >= 0 && v != want || i < 0 && v != sentinel {
		return fmt.Errorf("FindStringValue(%q) stored %d (key: %v, value %d)", clip(q), v, i >= 0, want)
	}
	// explicit length: the bytes beyond must not matter
	long := q + []string{"\x01zz", "", "\x00", "\xff", "a", "b\x00\x00", "\x80\x01"}[h/12%7]
	if got := dict.ContainsStringLen(long, len(q)); got != (i >= 0) {
		return fmt.Errorf("ContainsStringLen(%q, %d) = %v, want %v", clip(long), len(q), got, i >= 0)
	}
	if got := dict.FindStringLen(long, len(q)); got != want {
		return fmt.Errorf("FindStringLen(%q, %d) = %d, want %d", clip(long), len(q), got, want)
	}
	v = sentinel
	if got := dict.FindStringLenValue(long, len(q), &v); got != (i >= 0) {
		return fmt.Errorf("FindStringLenValue(%q, %d) = %v, want %v", clip(long), len(q), got, i >= 0)
	}
	if i >= 0 && v != want || i < 0 && v != sentinel {
		return fmt.Errorf("FindStringLenValue(%q) stored %d (key: %v, value %d)", clip(q), v, i >= 0, want)
	}
	return nil
}

// queriesFor derives near-miss queries from the keys.
func queriesFor(m *Model, r *rng, n int, f func(q string) error) error {
	if err := f(""); err != nil {
		return err
	}
	for c := 0; c < 256; c++ {
		if err := f(string([]byte{byte(c)})); err != nil {
			return err
		}
	}
	if len(m.Keys) == 0 {
		for _, q := range []string{"a", "\x00", "\x01", "\xff\xff", "ab", "\x00\x00"} {
			if err := f(q); err != nil {
				return err
			}
		}
		return nil
	}
	for i := 0; i < n; i++ {
		k := []byte(m.Keys[r.n(len(m.Keys))])
		switch r.n(8) {
		case 0: // prefix
			k = k[:r.n(len(k)+1)]
		case 1: // extension by one byte, any
			k = append(k, byte(r.n(256)))
		case 2: // substitution
			if len(k) > 0 {
				k[r.n(len(k))] = byte(r.n(256))
			}
		case 3: // NUL at the end or inside, possibly more
			p := r.n(len(k) + 1)
			k = append(append(append([]byte{}, k[:p]...), 0), k[p:]...)
			if r.n(2) == 0 {
				k = append(k[:p+1], byte(r.n(256)))
			}
		case 4: // head of one, tail of another
			o := m.Keys[r.n(len(m.Keys))]
			k = append(append([]byte{}, k[:r.n(len(k)+1)]...), o[r.n(len(o)+1):]...)
		case 5: // deletion
			if len(k) > 0 {
				p := r.n(len(k))
				k = append(append([]byte{}, k[:p]...), k[p+1:]...)
			}
		case 6: // key + NUL + anything
			k = append(append(k, 0), byte(r.n(256)), byte(r.n(256)))
		case 7: // xor one bit
			if len(k) > 0 {
				k[r.n(len(k))] ^= 1 << r.n(8)
			}
		}
		if err := f(string(k)); err != nil {
			return err
		}
	}
	return nil
}
