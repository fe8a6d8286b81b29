package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"syscall"

	"github.com/deNULL/dawg"
	"pgregory.net/rapid"
)

// chunkReader delivers at most the next chunk size per call and counts what was taken.
type chunkReader struct {
	data   []byte
	pos    int
	chunks []int
	i      int
	eofNow bool // report the end together with the last bytes
	failAt int  // -1: never; else bytes before the fault
	err    error
	mixed  bool // report the fault together with the bytes before it
	once   bool // after the fault the stream goes on
	idle   bool // the last call delivered nothing
}

func (r *chunkReader) Read(p []byte) (int, error) {
	end := len(r.data)
	if r.failAt >= 0 && r.failAt < end {
		end = r.failAt
	}
	fail := io.EOF
	if r.failAt >= 0 && r.failAt < len(r.data) && r.err != nil {
		fail = r.err
	}
	if r.pos >= end {
		if r.once && fail != io.EOF {
			r.failAt = -1
		}
		return 0, fail
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := len(p)
	if len(r.chunks) > 0 {
		c := r.chunks[r.i%len(r.chunks)]
		r.i++
		if c < 0 && !r.idle { // nothing yet
			r.idle = true
			return 0, nil
		}
		if c > 0 && c < n {
			n = c
		}
	}
	r.idle = false
	if n > end-r.pos {
		n = end - r.pos
	}
	copy(p, r.data[r.pos:r.pos+n])
	r.pos += n
	if r.pos == end && (r.eofNow && fail == io.EOF || r.mixed && fail != io.EOF) {
		if r.once && fail != io.EOF {
			r.failAt = -1
		}
		return n, fail
	}
	return n, nil
}

var errFault = errors.New("injected fault")

var readFaults = []error{errFault, io.ErrUnexpectedEOF, io.ErrNoProgress, io.ErrShortBuffer, io.ErrClosedPipe, os.ErrDeadlineExceeded}
var writeFaults = []error{errFault, io.ErrShortWrite, io.EOF, io.ErrClosedPipe, syscall.ENOSPC, io.ErrUnexpectedEOF}

// faultWriter accepts Limit bytes (Limit < 0: all).
type faultWriter struct {
	buf   bytes.Buffer
	limit int
	mode  int   // on the failing call accept 0: what still fits, 1: nothing, 2: everything
	once  bool  // later calls succeed
	err   error // nil: errFault

	failed bool
}

// newFaultWriter: mode, persistence and error are chosen by kind.
func newFaultWriter(limit, kind int) *faultWriter {
	return &faultWriter{limit: limit, mode: kind % 3, once: kind/3%2 == 1, err: writeFaults[kind/6%len(writeFaults)]}
}

const numWriteKinds = 36

func (w *faultWriter) Write(p []byte) (int, error) {
	if w.limit < 0 || w.failed && w.once || w.buf.Len()+len(p) <= w.limit {
		return w.buf.Write(p)
	}
	w.failed = true
	n := 0
	switch w.mode {
	case 0:
		n = w.limit - w.buf.Len()
	case 2:
		n = len(p)
	}
	w.buf.Write(p[:n])
	w.limit = w.buf.Len()
	return n, w.err
}

// object is one serialisable object of any kind.
type object struct {
	kind  string
	dict  *dawg.Dictionary
	guide *dawg.Guide
	rank  *dawg.RankedGuide
	index *dawg.Index
}

var objectKinds = []string{"dict", "guide", "ranked", "index"}

func newObject(kind string) *object {
	switch kind {
	case "dict":
		return &object{kind: kind, dict: dawg.NewDictionary()}
	case "guide":
		return &object{kind: kind, guide: dawg.NewGuide()}
	case "ranked":
		return &object{kind: kind, rank: dawg.NewRankedGuide()}
	case "index":
		return &object{kind: kind, index: dawg.NewIndex()}
	}
	panic(inconclusive{fmt.Errorf("kind %q", kind)})
}

func (o *object) read(r io.Reader) bool {
	switch o.kind {
	case "dict":
		return o.dict.Read(r)
	case "guide":
		return o.guide.Read(r)
	case "ranked":
		return o.rank.Read(r)
	}
	return o.index.Read(r)
}

// construct uses the constructor form; nil if that reports failure.
func construct(kind string, r io.Reader) *object {
	o := &object{kind: kind}
	ok := false
	switch kind {
	case "dict":
		o.dict = dawg.ReadDictionary(r)
		ok = o.dict != nil
	case "guide":
		o.guide = dawg.ReadGuide(r)
		ok = o.guide != nil
	case "ranked":
		o.rank = dawg.ReadRankedGuide(r)
		ok = o.rank != nil
	case "index":
		o.index = dawg.ReadIndex(r)
		ok = o.index != nil
	}
	if !ok {
		return nil
	}
	return o
}

func (o *object) write(w io.Writer) bool {
	switch o.kind {
	case "dict":
		return o.dict.Write(w)
	case "guide":
		return o.guide.Write(w)
	case "ranked":
		return o.rank.Write(w)
	}
	return o.index.Write(w)
}

func (o *object) sizes() (size, total, file, unit int) {
	switch o.kind {
	case "dict":
		return o.dict.Size(), o.dict.TotalSize(), o.dict.FileSize(), 4
	case "guide":
		return o.guide.Size(), o.guide.TotalSize(), o.guide.FileSize(), 2
	case "ranked":
		return o.rank.Size(), o.rank.TotalSize(), o.rank.FileSize(), 2
	}
	return o.index.Size(), o.index.TotalSize(), o.index.FileSize(), 4
}

// clear empties guides (dictionaries and indices have no such operation).
func (o *object) clear() bool {
	switch o.kind {
	case "guide":
		o.guide.Clear()
		return true
	case "ranked":
		o.rank.Clear()
		return true
	}
	return false
}

func (o *object) image() ([]byte, error) {
	var buf bytes.Buffer
	if !o.write(&buf) {
		return nil, fmt.Errorf("writing a %s to memory failed", o.kind)
	}
	return buf.Bytes(), nil
}

// checkSizes: the announced sizes fit the image.
func (o *object) checkSizes(img []byte) error {
	size, total, file, unit := o.sizes()
	if file != len(img) || total != len(img)-4 || size*unit != total {
		return fmt.Errorf("%s: Size %d, TotalSize %d, FileSize %d, but %d bytes were written", o.kind, size, total, file, len(img))
	}
	return nil
}

// set is everything built from one key set.
type set struct {
	m    *Model
	b    *Built
	objs map[string]*object
	imgs map[string][]byte
}

func newSet(l *Lex) (*set, error) {
	m := l.Model()
	b, err := build(m)
	if err != nil {
		return nil, err
	}
	g := dawg.BuildGuide(b.D, b.Dict)
	rg := dawg.BuildRankedGuide(b.D, b.Dict)
	if g == nil || rg == nil {
		return nil, fmt.Errorf("building the guides failed")
	}
	x := dawg.BuildIndex(b.Dict, g)
	if x == nil {
		return nil, fmt.Errorf("building the index failed")
	}
	s := &set{m: m, b: b, objs: map[string]*object{
		"dict": {kind: "dict", dict: b.Dict}, "guide": {kind: "guide", guide: g}, "ranked": {kind: "ranked", rank: rg}, "index": {kind: "index", index: x},
	}, imgs: map[string][]byte{}}
	for _, k := range objectKinds {
		img, err := s.objs[k].image()
		if err != nil {
			return nil, err
		}
		if err := s.objs[k].checkSizes(img); err != nil {
			return nil, err
		}
		s.imgs[k] = img
	}
	return s, nil
}

// checkUse makes queries through the given object (others from the set).
func (s *set) checkUse(o *object, r *rng) error {
	dict := s.b.Dict
	m := s.m
	if o.kind == "dict" {
		dict = o.dict
	}
	switch o.kind {
	case "dict":
		for i := 0; i < len(m.Keys); i += 1 + len(m.Keys)/500 {
			if err := checkLookup(dict, m, m.Keys[i]); err != nil {
				return err
			}
		}
		if err := queriesFor(m, r, 60, func(q string) error { return checkLookup(dict, m, q) }); err != nil {
			return err
		}
	case "guide", "ranked":
		for n := 0; n < 3; n++ {
			p := ""
			if len(m.Keys) > 0 && n > 0 {
				k := m.Keys[r.n(len(m.Keys))]
				p = k[:r.n(len(k)+1)]
			}
			var c completer
			if o.kind == "guide" {
				c = dawg.NewCompleter(dict, o.guide)
			} else {
				c = dawg.NewRankedCompleter(dict, o.rank)
			}
			index := dict.Root()
			if !dict.FollowString(p, &index) {
				return fmt.Errorf("cannot follow %q", clip(p))
			}
			c.StartString(index, p)
			lo, hi := m.Range(p)
			limit := -1
			if hi-lo > 3000 {
				limit = 1000
			}
			if err := enumerate(c, m, lo, hi, len(p), p, limit, o.kind == "ranked"); err != nil {
				return err
			}
		}
	case "index":
		ix := dawg.NewIndexer(dict, s.objs["guide"].guide, o.index)
		if ix.TotalCount() != uint32(len(m.Keys)) {
			return fmt.Errorf("TotalCount() = %d, want %d", ix.TotalCount(), len(m.Keys))
		}
		for i := 0; i < len(m.Keys); i += 1 + len(m.Keys)/200 {
			if got := ix.IndexToString(uint32(i)); got != m.Keys[i] {
				return fmt.Errorf("IndexToString(%d) = %q, want %q", i, clip(got), clip(m.Keys[i]))
			}
			if err := checkIndexQuery(ix, m, m.Keys[i]); err != nil {
				return err
			}
		}
	}
	return nil
}

// probe asks a dictionary for keys of all sets, in such an order that the first
// questions after a change of contents are the last ones before it.
func probe(o *object, sets []*set, held int) error {
	if o.kind != "dict" || held < 0 {
		return nil
	}
	var qs []string
	for _, st := range sets {
		n := len(st.m.Keys)
		for _, i := range []int{0, n / 2, n - 1} {
			if i >= 0 && i < n {
				qs = append(qs, st.m.Keys[i])
			}
		}
	}
	for i := range qs {
		if err := checkLookup(o.dict, sets[held].m, qs[len(qs)-1-i]); err != nil {
			return err
		}
	}
	for _, q := range qs {
		if err := checkLookup(o.dict, sets[held].m, q); err != nil {
			return err
		}
	}
	return nil
}

// ---- C10: round trips ----

type streamItem struct {
	Lex  int    `json:"lex"`
	Kind string `json:"kind"`
	// Into: 0 constructor form, 1 fresh object, 2 object already holding something of Prev
	Into int `json:"into"`
	Prev int `json:"prev"`
}

type streamCase struct {
	Lexes  []Lex        `json:"lexes"`
	Items  []streamItem `json:"items"`
	Chunks []int        `json:"chunks,omitempty"`
	EOFNow bool         `json:"eofnow,omitempty"`
	Tail   int          `json:"tail"`
	QSeed  uint64       `json:"qseed"`
}

func (c *streamCase) Run(s *Stats) error {
	sets := make([]*set, len(c.Lexes))
	keys := 0
	for i := range c.Lexes {
		st, err := newSet(&c.Lexes[i])
		if err != nil {
			return err
		}
		sets[i] = st
		keys += len(st.m.Keys)
	}
	var stream bytes.Buffer
	for _, it := range c.Items {
		if !sets[it.Lex].objs[it.Kind].write(&stream) {
			return fmt.Errorf("writing a %s failed", it.Kind)
		}
	}
	for i := 0; i < c.Tail; i++ {
		stream.WriteByte(byte(0xA5 + i))
	}
	r := &chunkReader{data: stream.Bytes(), chunks: c.Chunks, eofNow: c.EOFNow, failAt: -1}
	q := &rng{c.QSeed}
	want := 0
	read := make([]*object, len(c.Items))
	for i, it := range c.Items {
		st := sets[it.Lex]
		img := st.imgs[it.Kind]
		var o *object
		switch it.Into {
		case 0:
			if o = construct(it.Kind, r); o == nil {
				return fmt.Errorf("item %d: reading a %s failed", i, it.Kind)
			}
		default:
			o = newObject(it.Kind)
			if it.Into == 2 {
				if !o.read(bytes.NewReader(sets[it.Prev].imgs[it.Kind])) {
					return fmt.Errorf("item %d: reading the first %s failed", i, it.Kind)
				}
				if err := sets[it.Prev].checkUse(o, q); err != nil {
					return fmt.Errorf("item %d (%s read first): %w", i, it.Kind, err)
				}
				if err := probe(o, sets, it.Prev); err != nil {
					return fmt.Errorf("item %d (%s read first): %w", i, it.Kind, err)
				}
				if q.n(2) == 0 {
					if img, err := o.image(); err != nil || !bytes.Equal(img, sets[it.Prev].imgs[it.Kind]) {
						return fmt.Errorf("item %d (%s read first): writes other bytes (%v)", i, it.Kind, err)
					}
				}
			}
			if !o.read(r) {
				return fmt.Errorf("item %d: reading a %s failed", i, it.Kind)
			}
		}
		if err := probe(o, sets, it.Lex); err != nil {
			return fmt.Errorf("item %d (%s just read): %w", i, it.Kind, err)
		}
		want += len(img)
		if r.pos != want {
			return fmt.Errorf("item %d: reading a %s consumed up to byte %d of the stream, its image ends at %d", i, it.Kind, r.pos, want)
		}
		read[i] = o
	}
	for i, it := range c.Items { // only now: reading one must not disturb the others
		st, o := sets[it.Lex], read[i]
		img, err := o.image()
		if err != nil {
			return err
		}
		if !bytes.Equal(img, st.imgs[it.Kind]) {
			return fmt.Errorf("item %d: the %s read back writes other bytes", i, it.Kind)
		}
		if err := o.checkSizes(img); err != nil {
			return fmt.Errorf("item %d read back: %w", i, err)
		}
		if err := st.checkUse(o, q); err != nil {
			return fmt.Errorf("item %d (%s read back): %w", i, it.Kind, err)
		}
	}
	if err := c.live(sets, q); err != nil {
		return err
	}
	for i, st := range sets {
		for _, k := range objectKinds {
			img, err := st.objs[k].image()
			if err != nil {
				return err
			}
			if !bytes.Equal(img, st.imgs[k]) {
				return fmt.Errorf("writing or reading changed the original %s %d", k, i)
			}
		}
	}
	s.Nontrivial(keys > 0 && len(c.Items) > 0)
	s.Label("several objects in a stream", len(c.Items) > 1)
	s.Label("chunked", len(c.Chunks) > 0)
	s.Label("into a used object", func() bool {
		for _, it := range c.Items {
			if it.Into == 2 {
				return true
			}
		}
		return false
	}())
	for _, st := range sets {
		labelLex(s, st.m, st.b.Dict)
	}
	return nil
}

// live reads one set after another into the same four objects, which keep
// being used by the same completers and indexers.
func (c *streamCase) live(sets []*set, q *rng) error {
	o := map[string]*object{}
	for _, k := range objectKinds {
		o[k] = newObject(k)
	}
	dict := o["dict"].dict
	plain, ranked := dawg.NewCompleter(dict, o["guide"].guide), dawg.NewRankedCompleter(dict, o["ranked"].rank)
	ix, rix := dawg.NewIndexer(dict, o["guide"].guide, o["index"].index), dawg.NewIndexer(dict, o["ranked"].rank, o["index"].index)
	for round := 0; round < 2*len(sets) && (round == 0 || len(sets) > 1); round++ {
		st := sets[round%len(sets)]
		m := st.m
		for _, k := range objectKinds {
			if !o[k].read(&chunkReader{data: st.imgs[k], chunks: c.Chunks, failAt: -1}) {
				return fmt.Errorf("round %d: reading a %s failed", round, k)
			}
		}
		what := fmt.Sprintf("objects read %d times", round+1)
		images := func() error {
			for _, k := range objectKinds {
				img, err := o[k].image()
				if err != nil {
					return fmt.Errorf("%s: %w", what, err)
				}
				if !bytes.Equal(img, st.imgs[k]) {
					return fmt.Errorf("%s: the %s writes other bytes", what, k)
				}
				if err := o[k].checkSizes(img); err != nil {
					return fmt.Errorf("%s: %w", what, err)
				}
			}
			return nil
		}
		if round%2 == 0 {
			if err := images(); err != nil {
				return err
			}
		}
		for n := 0; n < 2; n++ {
			p := ""
			if len(m.Keys) > 0 && n > 0 {
				k := m.Keys[q.n(len(m.Keys))]
				p = k[:q.n(len(k)+1)]
			}
			lo, hi := m.Range(p)
			for _, isRanked := range []bool{(round+n)%2 == 1, (round+n)%2 == 0} { // the last one used is the first one used after reading
				x := completer(plain)
				if isRanked {
					x = ranked
				}
				index := dict.Root()
				if !dict.FollowString(p, &index) {
					return fmt.Errorf("%s: cannot follow %q", what, clip(p))
				}
				x.StartString(index, p)
				limit := -1
				if hi-lo > 300 {
					limit = 100
				}
				if err := enumerate(x, m, lo, hi, len(p), p, limit, isRanked); err != nil {
					return fmt.Errorf("%s: %w", what, err)
				}
			}
		}
		indexers := []*dawg.Indexer{ix, rix}
		if round%2 == 1 {
			indexers[0], indexers[1] = rix, ix
		}
		for _, x := range indexers {
			if x.TotalCount() != uint32(len(m.Keys)) {
				return fmt.Errorf("%s: TotalCount() = %d, want %d", what, x.TotalCount(), len(m.Keys))
			}
			for i := 0; i < len(m.Keys); i += 1 + len(m.Keys)/20 {
				if got := x.IndexToString(uint32(i)); got != m.Keys[i] {
					return fmt.Errorf("%s: IndexToString(%d) = %q, want %q", what, i, clip(got), clip(m.Keys[i]))
				}
				if err := checkIndexQuery(x, m, m.Keys[i]); err != nil {
					return fmt.Errorf("%s: %w", what, err)
				}
			}
		}
		if err := images(); err != nil {
			return err
		}
	}
	return nil
}

func genStream(t *rapid.T) Case {
	c := &streamCase{QSeed: drawSeed(t)}
	n := rapid.IntRange(1, 3).Draw(t, "lexes")
	for i := 0; i < n; i++ {
		if rapid.IntRange(0, 4).Draw(t, "big") == 0 {
			c.Lexes = append(c.Lexes, drawShape(t, 4000))
		} else {
			c.Lexes = append(c.Lexes, drawExplicit(t, 30, 6))
		}
	}
	k := rapid.IntRange(1, 6).Draw(t, "items")
	for i := 0; i < k; i++ {
		c.Items = append(c.Items, streamItem{
			rapid.IntRange(0, n-1).Draw(t, "lex"), rapid.SampledFrom(objectKinds).Draw(t, "kind"), rapid.IntRange(0, 2).Draw(t, "into"), rapid.IntRange(0, n-1).Draw(t, "prev"),
		})
	}
	c.Chunks = rapid.SliceOfN(rapid.SampledFrom([]int{1, 2, 3, 5, 7, 64, 255, 1000, 4096, 0, -1}), 0, 4).Draw(t, "chunks")
	c.EOFNow = rapid.Bool().Draw(t, "eofnow")
	c.Tail = rapid.SampledFrom([]int{0, 1, 4, 100}).Draw(t, "tail")
	return c
}

func fixedStream(tier string) []Case {
	full := []streamItem{{0, "dict", 0, 0}, {0, "guide", 1, 0}, {0, "ranked", 2, 0}, {0, "index", 2, 0}, {0, "dict", 2, 0}}
	return structural(func(l Lex) Case {
		return &streamCase{Lexes: []Lex{l, {Keys: []B{"x"}}}, Items: append(append([]streamItem{}, full...), streamItem{1, "dict", 0, 0}, streamItem{1, "ranked", 0, 0}, streamItem{0, "index", 0, 0}), Chunks: []int{4096, 3, 100000}, Tail: 5}
	}, true)(tier)
}

// ---- C12: faults ----

type faultOp struct {
	// Op: read (into object O from the image of set Set, fault At), write (object O, fault At), clear, construct
	Op   string `json:"op"`
	O    int    `json:"o"`
	Set  int    `json:"set"`
	At   int    `json:"at"` // byte offset of the fault in 1/10000 of the image, or an absolute offset if negative (-1: byte 0); 10000: no fault
	Kind int    `json:"kind"`
}

type faultCase struct {
	Lexes []Lex     `json:"lexes"`
	Kinds []string  `json:"kinds"` // objects
	Ops   []faultOp `json:"ops"`
	Chunk int       `json:"chunk"`
	// Sweep: instead of Ops, fault every Stride-th byte offset of every object kind.
	Sweep  bool `json:"sweep,omitempty"`
	Stride int  `json:"stride,omitempty"`
	// Sparse: only at offsets around powers of two, with few kinds each (for large objects)
	Sparse bool `json:"sparse,omitempty"`
}

// sparse: offsets at both ends and around powers of two, in bytes and in units after the header.
func sparse(size, unit int) []int {
	seen := map[int]bool{}
	var out []int
	add := func(at int) {
		if at >= 0 && at < size && !seen[at] {
			seen[at] = true
			out = append(out, at)
		}
	}
	for i := 0; i < 6; i++ {
		add(i)
		add(size - 1 - i)
	}
	for p := 4096; p < size; p *= 2 {
		for _, d := range []int{-1, 0, 1} {
			add(p + d)
			add(4 + p*unit + d)
		}
		add(4 + 3*p/2*unit + 1)
	}
	return out
}

func (c *faultCase) reader(img []byte, at, kind int) *chunkReader {
	r := &chunkReader{data: img, failAt: at}
	if c.Chunk != 0 {
		r.chunks = []int{c.Chunk}
	}
	fault := readFaults[kind/8%len(readFaults)]
	switch kind % 4 {
	case 0: // the stream ends
	case 1: // the stream ends, announced with the last bytes
		r.eofNow = true
	case 2:
		r.err = fault
	case 3:
		r.err, r.mixed = fault, true
	}
	r.once = kind/4%2 == 1 && !r.mixed // (a fault reported with the last bytes needed may be overlooked)
	return r
}

func (c *faultCase) Run(s *Stats) error {
	sets := make([]*set, len(c.Lexes))
	for i := range c.Lexes {
		st, err := newSet(&c.Lexes[i])
		if err != nil {
			return err
		}
		sets[i] = st
	}
	if c.Sweep {
		return c.sweep(s, sets)
	}
	objs := make([]*object, len(c.Kinds))
	cur := make([]int, len(c.Kinds)) // set held, -1 nothing
	for i, k := range c.Kinds {
		objs[i] = newObject(k)
		cur[i] = -1
	}
	empty := []byte{0, 0, 0, 0}
	expect := func(i int) []byte {
		if cur[i] < 0 {
			return empty
		}
		return sets[cur[i]].imgs[c.Kinds[i]]
	}
	faults := 0
	for n, op := range c.Ops {
		o := objs[op.O]
		what := fmt.Sprintf("step %d (%s of a %s)", n, op.Op, o.kind)
		switch op.Op {
		case "read", "construct":
			img := sets[op.Set].imgs[o.kind]
			at := faultOffset(op.At, len(img))
			r := c.reader(img, at, op.Kind)
			var ok bool
			if op.Op == "read" {
				ok = o.read(r)
			} else {
				fresh := construct(o.kind, r)
				ok = fresh != nil
				if ok {
					objs[op.O] = fresh
				}
			}
			if want := at < 0 || at >= len(img); ok != want {
				return fmt.Errorf("%s with a fault at byte %d of %d reports %v, want %v", what, at, len(img), ok, want)
			}
			if ok {
				cur[op.O] = op.Set
			} else {
				faults++
			}
		case "write":
			img := expect(op.O)
			at := faultOffset(op.At, len(img))
			w := newFaultWriter(-1, op.Kind)
			if at >= 0 && at < len(img) {
				w.limit = at
			}
			want := w.limit < 0
			ok := o.write(w)
			if ok != want {
				return fmt.Errorf("%s to an output failing at byte %d of %d reports %v, want %v", what, at, len(img), ok, want)
			}
			if ok && !bytes.Equal(w.buf.Bytes(), img) {
				return fmt.Errorf("%s: other bytes than those last put into it", what)
			}
			if !ok {
				faults++
				if !w.once && !bytes.HasPrefix(img, w.buf.Bytes()) {
					return fmt.Errorf("%s: the bytes before the fault are not a prefix of the image", what)
				}
			}
		case "clear":
			if o.clear() {
				cur[op.O] = -1
			}
		}
		// after every step every object holds what was last put into it
		for i, x := range objs {
			img, err := x.image()
			if err != nil {
				return fmt.Errorf("after %s: %w", what, err)
			}
			if !bytes.Equal(img, expect(i)) {
				return fmt.Errorf("after %s object %d (%s) does not hold what was last put into it", what, i, x.kind)
			}
			if err := x.checkSizes(img); err != nil {
				return fmt.Errorf("after %s: %w", what, err)
			}
			if err := probe(x, sets, cur[i]); err != nil {
				return fmt.Errorf("after %s: %w", what, err)
			}
		}
	}
	for i, x := range objs {
		if cur[i] >= 0 {
			if err := sets[cur[i]].checkUse(x, &rng{uint64(i)}); err != nil {
				return fmt.Errorf("object %d at the end: %w", i, err)
			}
		}
	}
	for i, st := range sets {
		for _, k := range objectKinds {
			img, err := st.objs[k].image()
			if err != nil {
				return err
			}
			if !bytes.Equal(img, st.imgs[k]) {
				return fmt.Errorf("the %s of set %d changed", k, i)
			}
		}
	}
	s.Nontrivial(faults > 0)
	s.Label("with faults", faults > 0)
	s.Label("several faults", faults > 2)
	return nil
}

func faultOffset(at, size int) int {
	if at < 0 {
		return -at - 1
	}
	if at >= 10000 {
		return -1
	}
	return at * size / 10000
}

// sweep injects a fault at every Stride-th byte of every kind of object.
func (c *faultCase) sweep(s *Stats, sets []*set) error {
	stride := c.Stride
	if stride < 1 {
		stride = 1
	}
	held := sets[len(sets)-1]
	tried := int64(0)
	for _, k := range objectKinds {
		img := sets[0].imgs[k]
		o := newObject(k)
		if !o.read(bytes.NewReader(held.imgs[k])) {
			return fmt.Errorf("reading a %s failed", k)
		}
		var offsets []int
		if c.Sparse {
			_, _, _, unit := o.sizes()
			offsets = sparse(len(img), unit)
		} else {
			for at := 0; at < len(img); at++ {
				if at <= 16 || at >= len(img)-16 || at%stride == 0 {
					offsets = append(offsets, at)
				}
			}
		}
		for n, at := range offsets {
			for kind := 0; kind < 8; kind++ {
				if c.Sparse && kind != n%8 && kind != at%8 {
					continue
				}
				tried++
				if o.read(c.reader(img, at, kind+8*(at+kind/4))) {
					return fmt.Errorf("reading a %s whose input fails at byte %d of %d (kind %d) reports success", k, at, len(img), kind)
				}
				if kind == at%8 {
					if construct(k, c.reader(img, at, kind+8*at)) != nil {
						return fmt.Errorf("constructing a %s whose input fails at byte %d of %d yields an object", k, at, len(img))
					}
					now, err := o.image()
					if err != nil {
						return err
					}
					if !bytes.Equal(now, held.imgs[k]) {
						return fmt.Errorf("a %s lost its contents when reading failed at byte %d of %d", k, at, len(img))
					}
				}
			}
			for kind := 0; kind < 6; kind++ {
				if c.Sparse && kind != n%6 && kind != n/2%6 {
					continue
				}
				tried++
				if sets[0].objs[k].write(newFaultWriter(at, kind+6*(at+kind)%numWriteKinds)) {
					return fmt.Errorf("writing a %s to an output that fails at byte %d of %d (kind %d) reports success", k, at, len(img), kind)
				}
			}
		}
		if err := held.checkUse(o, &rng{1}); err != nil {
			return fmt.Errorf("%s after failed reads: %w", k, err)
		}
		for kind := 0; kind < 4; kind++ {
			if !o.read(c.reader(img, -1, kind)) {
				return fmt.Errorf("reading a complete %s fails", k)
			}
			now, err := o.image()
			if err != nil {
				return err
			}
			if !bytes.Equal(now, img) {
				return fmt.Errorf("a %s read after failures differs", k)
			}
		}
	}
	s.Sweep(tried, tried)
	return nil
}

func genFault(t *rapid.T) Case {
	c := &faultCase{Chunk: rapid.SampledFrom([]int{0, 1, 3, 100, 1024, -1}).Draw(t, "chunk")}
	n := rapid.IntRange(1, 3).Draw(t, "lexes")
	for i := 0; i < n; i++ {
		if rapid.IntRange(0, 9).Draw(t, "big") == 0 {
			c.Lexes = append(c.Lexes, drawShape(t, 1000))
		} else {
			c.Lexes = append(c.Lexes, drawExplicit(t, 12, 5))
		}
	}
	no := rapid.IntRange(1, 3).Draw(t, "objects")
	for i := 0; i < no; i++ {
		c.Kinds = append(c.Kinds, rapid.SampledFrom(objectKinds).Draw(t, "kind"))
	}
	k := rapid.IntRange(2, 12).Draw(t, "ops")
	for i := 0; i < k; i++ {
		op := faultOp{
			Op:   rapid.SampledFrom([]string{"read", "read", "read", "construct", "write", "write", "clear"}).Draw(t, "op"),
			O:    rapid.IntRange(0, no-1).Draw(t, "o"),
			Set:  rapid.IntRange(0, n-1).Draw(t, "set"),
			Kind: rapid.IntRange(0, 47).Draw(t, "kind"),
		}
		switch rapid.IntRange(0, 3).Draw(t, "where") {
		case 0, 1:
			op.At = 10000
		case 2:
			op.At = rapid.IntRange(0, 9999).Draw(t, "at")
		default:
			op.At = -1 - rapid.IntRange(0, 12).Draw(t, "abs")
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func fixedFault(tier string) []Case {
	other := Lex{Keys: []B{"some", "other", "words"}, Vals: []int32{1, 2, 3}}
	var out []Case
	// more units than a chunk of any sensible size
	for i, l := range hugeLexes() {
		if i == 0 || tier == "thorough" {
			out = append(out, &faultCase{Lexes: []Lex{l, other}, Sweep: true, Sparse: true, Chunk: []int{0, 1 << 16}[i%2]})
		}
	}
	stride := 7
	if tier == "thorough" {
		stride = 1
	}
	for i, l := range fixedLexes() {
		st := stride
		if l.Shape != nil {
			st = 997
			if tier == "thorough" {
				st = 101
			}
			if l.Shape.Kind == "long" {
				st = 40009
			}
		} else if i < 6 {
			st = 1
		}
		out = append(out, &faultCase{Lexes: []Lex{l, other}, Sweep: true, Stride: st, Chunk: []int{0, 100, 1024}[i%3]})
	}
	return out
}

func init() {
	register(&Prop{
		ID:    "C10",
		Rule:  "at least one stored key and at least one object written and read back",
		New:   func() Case { return &streamCase{} },
		Quick: 15000, Thorough: 1000000,
		Gen: genStream, Fixed: fixedStream,
	})
	register(&Prop{
		ID:    "C12",
		Rule:  "at least one injected fault (drawn histories); every enumerated (object kind, byte offset, fault kind) of a sweep",
		New:   func() Case { return &faultCase{} },
		Quick: 40000, Thorough: 3000000,
		Gen: genFault, Fixed: fixedFault,
	})
}
