package main

import (
	"bytes"
	"encoding/binary"
	"fmt"

	"pgregory.net/rapid"
)

// ---- C21: arbitrary streams ----

// rawStream is a header and any bytes after it.
type rawStream struct {
	Announced uint32 `json:"announced"`
	Delta     int    `json:"delta"`          // bytes more (or fewer, if negative) than announced
	Cut       int    `json:"cut,omitempty"`  // 1..4: only so many bytes minus one of the header
	Rest      int    `json:"rest,omitempty"` // k>0: k-1 bytes after the header, whatever is announced
	Seed      uint64 `json:"seed"`
	Fill      int    `json:"fill"` // 0: random bytes, else that byte
	Chunks    []int  `json:"chunks,omitempty"`
	EOFNow    bool   `json:"eofnow,omitempty"`
	Fault     bool   `json:"fault,omitempty"` // the end is an error instead of the end of the stream
	New       bool   `json:"new,omitempty"`   // read by the constructor form
}

type rawCase struct {
	Kind    string      `json:"kind"`
	Streams []rawStream `json:"streams"` // read one after another into one object
}

func (c *rawStream) bytes(unit int) []byte {
	n := int(c.Announced)*unit + c.Delta
	if n < 0 {
		n = 0
	}
	if n > 1<<24 {
		n = 1 << 24 // far from complete
	}
	if c.Rest > 0 {
		n = c.Rest - 1
	}
	out := binary.LittleEndian.AppendUint32(nil, c.Announced)
	r := &rng{c.Seed}
	for i := 0; i < n; i++ {
		b := byte(c.Fill)
		if c.Fill == 0 {
			b = byte(r.n(256))
		}
		out = append(out, b)
	}
	if c.Cut > 0 {
		out = out[:c.Cut-1]
	}
	return out
}

func (c *rawCase) Run(s *Stats) error {
	o := newObject(c.Kind)
	_, _, _, unit := o.sizes()
	held := []byte{0, 0, 0, 0} // what the object holds
	for n, st := range c.Streams {
		data := st.bytes(unit)
		need := 4 + int(st.Announced)*unit
		complete := len(data) >= need
		r := &chunkReader{data: data, chunks: st.Chunks, eofNow: st.EOFNow, failAt: -1}
		if st.Fault {
			r.data = append(append([]byte{}, data...), 0)
			r.failAt, r.err, r.mixed, r.once = len(data), readFaults[st.Seed%uint64(len(readFaults))], st.EOFNow, st.Seed&64 != 0 && !st.EOFNow
		}
		what := fmt.Sprintf("stream %d (%s, %d units announced, %d bytes)", n, c.Kind, st.Announced, len(data))
		target, ok := o, false
		if st.New {
			target = construct(c.Kind, r)
			ok = target != nil
		} else {
			ok = o.read(r)
		}
		if ok != complete {
			return fmt.Errorf("%s: reading reports %v, complete: %v", what, ok, complete)
		}
		s.Label("complete", complete)
		s.Label("incomplete", !complete)
		if ok {
			if r.pos != need {
				return fmt.Errorf("%s: reading consumed %d bytes, want %d", what, r.pos, need)
			}
			if err := checkRaw(target, data[:need]); err != nil {
				return fmt.Errorf("%s: %w", what, err)
			}
			if !st.New {
				held = data[:need]
			}
		}
		if len(held) > 4 || n > 0 {
			if err := checkRaw(o, held); err != nil {
				return fmt.Errorf("after %s: %w", what, err)
			}
		}
	}
	s.Nontrivial(len(c.Streams) >= 2 || len(held) > 4)
	return nil
}

// checkRaw: the object is just these bytes.
func checkRaw(o *object, img []byte) error {
	got, err := o.image()
	if err != nil {
		return err
	}
	if !bytes.Equal(got, img) {
		return fmt.Errorf("the object writes %d bytes that differ from the %d read", len(got), len(img))
	}
	if err := o.checkSizes(img); err != nil {
		return err
	}
	size, _, _, unit := o.sizes()
	body := img[4:]
	for i := 0; i < size; i++ {
		u := body[i*unit:]
		at := uint32(i)
		bad := false
		switch o.kind {
		case "guide":
			bad = o.guide.Child(at) != u[0] || o.guide.Sibling(at) != u[1]
		case "ranked":
			bad = o.rank.Child(at) != u[0] || o.rank.Sibling(at) != u[1]
		case "index":
			v := binary.LittleEndian.Uint32(u)
			bad = o.index.ChildCount(at) != v || i == 0 && o.index.TotalCount() != v
		case "dict":
			bad = o.dict.HasValue(at) != (u[1]&1 != 0)
		}
		if bad {
			return fmt.Errorf("unit %d is not what was read (% x)", i, u[:unit])
		}
	}
	return nil
}

func genRaw(t *rapid.T) Case {
	c := &rawCase{Kind: rapid.SampledFrom(objectKinds).Draw(t, "kind")}
	for i := rapid.IntRange(1, 4).Draw(t, "streams"); i > 0; i-- {
		st := rawStream{Seed: drawSeed(t)}
		switch rapid.IntRange(0, 5).Draw(t, "size") {
		case 0:
			st.Announced = uint32(rapid.IntRange(0, 2).Draw(t, "n"))
		case 1:
			st.Announced = uint32(256 * rapid.IntRange(1, 4).Draw(t, "blocks"))
		case 2:
			st.Announced = uint32(rapid.IntRange(0, 20000).Draw(t, "n"))
		default:
			st.Announced = uint32(rapid.IntRange(0, 300).Draw(t, "n"))
		}
		switch rapid.IntRange(0, 8).Draw(t, "end") {
		case 8: // anything at all
			st.Announced = rapid.Uint32().Draw(t, "any")
			st.Rest = 1 + rapid.IntRange(0, 2000).Draw(t, "rest")
		case 0:
			st.Delta = -rapid.IntRange(1, 9).Draw(t, "missing")
		case 1:
			st.Delta = -rapid.IntRange(0, int(st.Announced)*4).Draw(t, "cut")
		case 2:
			st.Delta = rapid.IntRange(1, 3000).Draw(t, "more")
		case 3:
			st.Cut = rapid.IntRange(1, 4).Draw(t, "header")
		}
		if rapid.IntRange(0, 4).Draw(t, "filled") == 0 {
			st.Fill = int(rapid.SampledFrom([]byte{0xff, 1, 0x80, 0x7f}).Draw(t, "fill"))
		}
		st.Chunks = rapid.SliceOfN(rapid.SampledFrom([]int{1, 2, 3, 4, 5, 7, 100, 511, 4096, -1}), 0, 3).Draw(t, "chunks")
		st.EOFNow = rapid.Bool().Draw(t, "eofnow")
		st.Fault = rapid.IntRange(0, 3).Draw(t, "fault") == 0
		st.New = rapid.IntRange(0, 3).Draw(t, "new") == 0
		c.Streams = append(c.Streams, st)
	}
	return c
}

// fixedRaw: every cut of small objects, over empty and held contents, and sizes around powers of two.
func fixedRaw(tier string) []Case {
	var out []Case
	for _, kind := range objectKinds {
		unit := 4
		if kind == "guide" || kind == "ranked" {
			unit = 2
		}
		for n := uint32(0); n <= 5; n++ {
			for cut := -int(n) * unit; cut <= 3; cut++ {
				for _, chunk := range []int{0, 1, 3} {
					out = append(out, &rawCase{Kind: kind, Streams: []rawStream{
						{Announced: n, Delta: cut, Seed: 1, Chunks: []int{chunk}},
						{Announced: n + 1, Seed: 2}, {Announced: n, Delta: cut, Seed: 3, Chunks: []int{chunk}, Fault: true}, {Announced: n, Delta: cut, Seed: 4, New: true}, {Announced: 2, Seed: 5}}})
				}
			}
		}
		for _, n := range []uint32{255, 256, 257, 511, 512, 1023, 1024, 1025, 4095, 4096, 4097, 16384, 65535, 65536, 65537, 1 << 18} {
			out = append(out, &rawCase{Kind: kind, Streams: []rawStream{{Announced: n, Seed: uint64(n)}, {Announced: n, Delta: -1, Seed: uint64(n) + 1, Chunks: []int{4096}}, {Announced: n - 1, Delta: 5, Seed: uint64(n) + 2, Chunks: []int{1000, 1}}, {Announced: 0, Seed: 3}, {Announced: n, Delta: -int(n), Seed: 7}}})
		}
		for _, n := range []uint32{1<<20 - 1, 1 << 20, 1<<20 + 1, 1<<21 + 3} {
			if n != 1<<20+1 && tier != "thorough" && kind != "guide" {
				continue
			}
			out = append(out, &rawCase{Kind: kind, Streams: []rawStream{{Announced: n, Seed: uint64(n)}, {Announced: n, Delta: -1, Seed: uint64(n) + 1}, {Announced: n, Delta: -3 * int(n) / 2, Seed: 4, Chunks: []int{100000}}, {Announced: n - 1, Delta: 5, Seed: uint64(n) + 2, Chunks: []int{100000, 1}}, {Announced: n, Delta: -1, Seed: 7, Fault: true, New: true}}})
		}
		// announced but not there
		out = append(out, &rawCase{Kind: kind, Streams: []rawStream{{Announced: 3, Seed: 1}, {Announced: 1 << 22, Delta: -1<<24 + 100, Seed: 9}, {Announced: 2, Seed: 2, New: true}}})
		for i, n := range []uint32{1 << 24, 1<<28 + 1, 1<<30 - 1, 1 << 31, 1<<31 - 1, 1<<31 + 5, 1<<32 - 1, 1<<32 - 256} {
			for _, rest := range []int{0, 1, 3, 10, 100000} {
				out = append(out, &rawCase{Kind: kind, Streams: []rawStream{
					{Announced: 3, Seed: 1}, {Announced: n, Rest: rest + 1, Seed: uint64(i)}, {Announced: n, Rest: rest + 1, Seed: 9, New: true, Fault: true}, {Announced: 2, Seed: 2}}})
			}
		}
	}
	return out
}

func init() {
	register(&Prop{
		ID: "C21", Rule: "at least two streams read into one object, or one that holds at least one unit",
		New: func() Case { return &rawCase{} }, Quick: 500000, Thorough: 15000000,
		Gen: genRaw, Fixed: fixedRaw,
	})
}
