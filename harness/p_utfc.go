package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/deNULL/dawg"
	"pgregory.net/rapid"
)

// ---- strings ----

// representatives: edges of every window, alphabet and range of the format, and zero-byte code points.
var utfcReps = func() []rune {
	set := map[rune]bool{}
	add := func(rs ...rune) {
		for _, r := range rs {
			if r >= 0 && r <= utf8.MaxRune && !(r >= 0xD800 && r < 0xE000) {
				set[r] = true
			}
		}
	}
	edge := func(r rune) { add(r-1, r, r+1) }
	add(0, 1, 0x1f, ' ', '-', '0', '9', ':', 'A', 'Z', '[', 'a', 'z', '{', 0x7e, 0x7f)
	for _, r := range []rune{0x80, 0xC0, 0x100, 0x17f, 0x200, 0x2ff, 0x300, 0x380, 0x391, 0x3d0, 0x400, 0x410, 0x44f, 0x450, 0x480, 0x500, 0x530, 0x580, 0x5be, 0x600, 0x60b, 0x900, 0x90d,
		0xe00, 0x1000, 0x1080, 0x10b0, 0x1f80, 0x2000, 0x2080, 0x2100, 0x2500, 0x2600, 0x2700, 0x2680, 0x3000, 0x3040, 0x3080, 0x3100, 0x4e00, 0x7fff, 0x8000, 0x8040, 0xa600, 0xd7ff, 0xe000, 0xfe00, 0xfe10, 0xffff,
		0x10000, 0x12600, 0x1a600, 0x1f2ff, 0x1f300, 0x1f3f0, 0x1f4f0, 0x1f5f0, 0x1f600, 0x22600, 0x102600, 0x10a600, 0x10ffff} {
		edge(r)
	}
	var out []rune
	for r := range set {
		out = append(out, r)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}()

// utfcCore is a smaller selection for longer systematic tuples.
var utfcCore = []rune{0, 'a', 'Z', '-', '!', 0xE9, 0x100, 0x2ff, 0x300, 0x391, 0x3ff, 0x400, 0x410, 0x44f, 0x480, 0x500, 0x5d0, 0x600, 0xe01, 0x10b0, 0x2000, 0x2100, 0x25ff, 0x2600, 0x2601, 0x2700, 0x2701,
	0x3000, 0x3042, 0x3080, 0x30a2, 0x4e00, 0x8000, 0x803f, 0xa600, 0xa601, 0xac00, 0xfe0f, 0xfffd, 0x12600, 0x1f300, 0x1f3f0, 0x1f600, 0x22600, 0x10ffff}

func drawRune(t *rapid.T, prev rune) rune {
	switch rapid.IntRange(0, 7).Draw(t, "class") {
	case 0:
		return rune(rapid.IntRange(0, 0x7f).Draw(t, "ascii"))
	case 1, 2:
		return rapid.SampledFrom(utfcReps).Draw(t, "rep")
	case 3: // near the previous one
		r := prev + rune(rapid.IntRange(-140, 140).Draw(t, "near"))
		if r < 0 || r > utf8.MaxRune || r >= 0xD800 && r < 0xE000 {
			return prev
		}
		return r
	case 4: // low byte zero
		r := rune(rapid.IntRange(0, 0x10ff).Draw(t, "hi")) << 8
		if r >= 0xD800 && r < 0xE000 {
			r = 0xE000
		}
		return r
	case 5:
		return rune(rapid.IntRange(0x80, 0x25ff).Draw(t, "short"))
	case 6:
		return rune(rapid.IntRange(0x2600, 0xd7ff).Draw(t, "long"))
	default:
		return rune(rapid.IntRange(0xe000, utf8.MaxRune).Draw(t, "top"))
	}
}

func drawText(t *rapid.T, max int) string {
	n := rapid.IntRange(0, max).Draw(t, "runes")
	var sb strings.Builder
	prev := 'a'
	for i := 0; i < n; i++ {
		prev = drawRune(t, prev)
		sb.WriteRune(prev)
	}
	return sb.String()
}

// longText repeats a text up to about n bytes.
func longText(text string, n int) string {
	return strings.Repeat(text, 1+n/len(text))
}

// mixedText has n code points of several alphabets.
func mixedText(n int) string {
	set := []rune("яa бvé中あ☁x\U0001F600йαア٣z0")
	out := make([]rune, n)
	for i := range out {
		out[i] = set[(i*i/3+i)%len(set)]
	}
	return string(out)
}

// ---- C13 and C15 ----

type utfcCase struct {
	Text B `json:"text"` // bytes of the string
	// Sweep: Prelude followed by every code point of [From,To), and a probe after it
	Prelude string `json:"prelude,omitempty"`
	From    int    `json:"from,omitempty"`
	To      int    `json:"to,omitempty"`
	// Tuples: all tuples of Tuples runes of the set that begin with rune number From..To-1
	Tuples int    `json:"tuples,omitempty"`
	Set    string `json:"set,omitempty"`
	Format bool   `json:"format,omitempty"` // C15 instead of C13
}

func checkRoundTrip(text string) error {
	enc := dawg.UtfcEncode(text)
	if i := bytes.IndexByte(enc, 0); i >= 0 {
		return fmt.Errorf("the encoding % x of %+q has a zero byte", clipB(enc), clip(text))
	}
	want := text
	if !utf8.ValidString(text) {
		want = string([]rune(text))
	}
	if got := dawg.UtfcDecode(enc); got != want {
		return fmt.Errorf("%+q encodes to % x and decodes to %+q", clip(text), clipB(enc), clip(got))
	}
	return nil
}

func clipB(b []byte) []byte {
	if len(b) > 40 {
		return b[:40]
	}
	return b
}

func inExtra(r rune) bool {
	return r >= 0x2000 && r < 0x2600 || r >= 0x3000 && r < 0x3100 || r >= 0xfe00 && r < 0xfe10 || r >= 0x1f300 && r < 0x1f5f0
}

func checkFormat(text string) error {
	enc := dawg.UtfcEncode(text)
	want := refEncode(text)
	if !bytes.Equal(enc, want) {
		return fmt.Errorf("%+q encodes to % x, the format says % x", clip(text), clipB(enc), clipB(want))
	}
	if got := dawg.UtfcDecode(want); got != text {
		return fmt.Errorf("% x decodes to %+q, the format says %+q", clipB(want), clip(got), clip(text))
	}
	return nil
}

type counter struct{ n int }

func (c *counter) Follow(b byte) bool { c.n++; return true }

// checkCompact checks the size bounds without the reference encoder.
func checkCompact(text string) error {
	ascii := true
	for i := 0; i < len(text); i++ {
		if text[i] == 0 || text[i] >= 0x80 {
			ascii = false
		}
	}
	if enc := dawg.UtfcEncode(text); ascii && string(enc) != text {
		return fmt.Errorf("ASCII text %q encodes to % x", clip(text), clipB(enc))
	}
	st := dawg.NewUtfcState()
	prevWindow := rune(-1) // window selected by the previous character
	for i, r := range text {
		c := &counter{}
		if !st.Follow(r, c) {
			return fmt.Errorf("following %+q reports a refusal that never was", r)
		}
		limit := 3
		if r < 0x2600 || inExtra(r) {
			limit = 2
		}
		w := r &^ 0x7f
		selects := r < 0x2000 || r >= 0x3000 && r < 0x3100
		if r < 0x300 {
			w = 0
		}
		if selects && prevWindow == w && (w != 0 || r < 0x80) {
			limit = 1
		}
		if c.n < 1 || c.n > limit {
			return fmt.Errorf("%+q at byte %d of %+q takes %d bytes, at most %d are due", r, i, clip(text), c.n, limit)
		}
		switch {
		case c.n >= 2 && selects:
			prevWindow = w
		case c.n == 1: // an auxiliary character does not change the window
		case !selects && r >= 0x2600 && !inExtra(r):
			prevWindow = -1
		}
	}
	return nil
}

func (c *utfcCase) check(text string) error {
	if !c.Format {
		return checkRoundTrip(text)
	}
	if err := checkFormat(text); err != nil {
		return err
	}
	return nil
}

var probes = []string{"", "a", "я", "あ", "中", "é", "☀", "\x00", "ก", "\U0001F600", "А", "-"}

func (c *utfcCase) set() []rune {
	if c.Set == "core" {
		return utfcCore
	}
	return utfcReps
}

func (c *utfcCase) Run(s *Stats) error {
	switch {
	case c.Tuples > 0:
		set := c.set()
		idx := make([]int, c.Tuples)
		buf := make([]rune, c.Tuples)
		var n int64
		for first := c.From; first < c.To && first < len(set); first++ {
			for i := range idx {
				idx[i] = 0
			}
			idx[0] = first
			for {
				for i := range idx {
					buf[i] = set[idx[i]]
				}
				if err := c.check(string(buf)); err != nil {
					return err
				}
				n++
				k := len(idx) - 1
				for k > 0 {
					idx[k]++
					if idx[k] < len(set) {
						break
					}
					idx[k] = 0
					k--
				}
				if k <= 0 {
					break
				}
			}
		}
		s.Sweep(n, n)
		s.Label("systematic tuple block", true)
		return nil
	case c.To > 0:
		var n int64
		buf := []byte(c.Prelude)
		base := len(buf)
		for r := c.From; r < c.To; r++ {
			if r >= 0xD800 && r < 0xE000 {
				continue
			}
			buf = utf8.AppendRune(buf[:base], rune(r))
			buf = append(buf, probes[(r*7+r/256+len(c.Prelude))%len(probes)]...)
			if err := c.check(string(buf)); err != nil {
				return err
			}
			n++
		}
		s.Sweep(n, n)
		s.Label("prelude x code point block", true)
		return nil
	}
	text := string(c.Text)
	if c.Format && !utf8.ValidString(text) {
		return nil
	}
	if err := c.check(text); err != nil {
		return err
	}
	if c.Format {
		if err := checkCompact(text); err != nil {
			return err
		}
	}
	wins := map[rune]bool{}
	for _, r := range text {
		wins[r>>7] = true
	}
	marker := false
	for _, b := range dawg.UtfcEncode(text) {
		marker = marker || b >= 0xbb && b <= 0xbf
	}
	s.Nontrivial(len(wins) >= 2 || marker)
	s.Label("zero marker or lookalike", marker)
	s.Label("several windows", len(wins) >= 2)
	s.Label("not valid UTF-8", !utf8.ValidString(text))
	return nil
}

func genUtfc(format bool) func(t *rapid.T) Case {
	return func(t *rapid.T) Case {
		text := drawText(t, rapid.SampledFrom([]int{3, 6, 20, 100}).Draw(t, "max"))
		if text != "" && rapid.IntRange(0, 59).Draw(t, "long") == 0 {
			text = longText(text, rapid.IntRange(900, 5000).Draw(t, "bytes"))
		}
		if !format && rapid.IntRange(0, 9).Draw(t, "invalid") == 0 {
			b := []byte(text)
			for i := rapid.IntRange(1, 3).Draw(t, "edits"); i > 0; i-- {
				p := rapid.IntRange(0, len(b)).Draw(t, "at")
				b = append(b[:p:p], append([]byte{rapid.Byte().Draw(t, "byte")}, b[p:]...)...)
			}
			text = string(b)
		}
		return &utfcCase{Text: B(text), Format: format}
	}
}

var utfcPreludes = []string{"", "a", "я", "é", "ไ", "あ", "ア", "中", "가", "☀", "\U0001F600", "яa", "aя", "あ中", "中あ", "中a", "ჭя", "яα", "αя", "中я", "가中", "é中", "\U0010FFFF", "中\U0001F600"}

// utfcWindows lists the starts of the 128-code-point windows that can become the auxiliary alphabet, and some others.
func utfcWindows(tier string) []rune {
	var out []rune
	for w := rune(0); w < 0x2600; w += 0x80 {
		out = append(out, w)
	}
	out = append(out, 0x2600, 0x2680, 0x3000, 0x3080, 0x3100, 0x4e00, 0x7f80, 0x8000, 0xa580, 0xa600, 0xa680, 0xd780, 0xe000, 0xfe00, 0xff80, 0x10000, 0x12580, 0x12600, 0x1f300, 0x1f580, 0x1f600, 0x22600, 0x10ff00)
	if tier == "thorough" {
		for w := rune(0x2700); w < 0x10ff00; w += 0x980 {
			if w < 0xd700 || w >= 0xe000 {
				out = append(out, w)
			}
		}
	}
	return out
}

func fixedUtfc(format bool) func(tier string) []Case {
	return func(tier string) []Case {
		var out []Case
		pre := utfcPreludes
		if tier != "thorough" {
			pre = pre[:18]
		}
		for _, p := range pre {
			for from := 0; from <= utf8.MaxRune; from += 0x22000 {
				to := from + 0x22000
				if to > utf8.MaxRune+1 {
					to = utf8.MaxRune + 1
				}
				out = append(out, &utfcCase{Prelude: p, From: from, To: to, Format: format})
			}
		}
		// every window, left for another alphabet and tried again with itself as the auxiliary alphabet
		for _, w := range utfcWindows(tier) {
			for k, x := range []string{"a", "ӝ", "ሀ", "中", "あ", "힉", "ア", "𐀀"} {
				from := int(w) - 0x50
				if from < 0 {
					from = 0
				}
				pre := string(w+rune(1+(int(w)>>7*29+k*37)%127)) + x
				out = append(out, &utfcCase{Prelude: pre, From: from, To: int(w) + 0xd0, Format: format}, &utfcCase{Prelude: "中" + pre, From: from, To: int(w) + 0xd0, Format: format})
			}
		}
		for i := range utfcReps {
			out = append(out, &utfcCase{Tuples: 2, From: i, To: i + 1, Format: format})
			if tier == "thorough" {
				out = append(out, &utfcCase{Tuples: 3, From: i, To: i + 1, Format: format})
			}
		}
		for i := range utfcCore {
			out = append(out, &utfcCase{Tuples: 3, Set: "core", From: i, To: i + 1, Format: format})
			out = append(out, &utfcCase{Tuples: 4, Set: "core", From: i, To: i + 1, Format: format})
			if tier == "thorough" && i%4 == 0 {
				out = append(out, &utfcCase{Tuples: 5, Set: "core", From: i, To: i + 1, Format: format})
			}
		}
		// all short ASCII texts of two bytes and some structured ones are texts of their own
		for _, s := range []string{"", "\x00", "\x00\x00", "☁☀", "☀☁", "Привет, мир", "Hello, мир! 你好 こんにちは 😀", strings.Repeat("ab я ", 3000)} {
			out = append(out, &utfcCase{Text: B(s), Format: format})
		}
		out = append(out, &utfcCase{Text: B(strings.Repeat("☁я中\U0001F600あ \x00й☀", 7500)), Format: format}) // more than 65536 code points
		// more than 2^18 bytes (decoding takes quadratic time)
		out = append([]Case{&utfcCase{Text: B(strings.Repeat("\U00020401\U00030400", 45000)), Format: format}}, out...)
		for n := 1; n <= 1100; n++ { // every length
			out = append(out, &utfcCase{Text: B(mixedText(n)), Format: format})
			if n <= 300 {
				out = append(out, &utfcCase{Text: B(strings.Repeat("a", n)), Format: format}, &utfcCase{Text: B(strings.Repeat("я中", n)), Format: format})
			}
		}
		if format {
			all := make([]byte, 0, 127*3)
			for i := 1; i < 128; i++ {
				all = append(all, byte(i), 'x', byte(i))
			}
			out = append(out, &utfcCase{Text: B(all), Format: true})
		}
		return out
	}
}

// ---- C14: incremental encoding ----

type utfcOp struct {
	// Op: step (state S follows Text), copy (S from T), clear, new, encode, follow (whole text), decode
	Op     string `json:"op"`
	S      int    `json:"s"`
	T      int    `json:"t"`
	Text   string `json:"text"`
	Refuse int    `json:"refuse"` // number of bytes accepted, -1: all
	// Nested is a text which the follower itself encodes at each byte it receives (not for huge texts).
	Nested string `json:"nested,omitempty"`
}

type utfcHistory struct {
	NS  int      `json:"ns"`
	Ops []utfcOp `json:"ops"`
}

type recorder struct {
	got    []byte
	accept int
	calls  int

	nested    string
	nestedErr error
}

func (r *recorder) Follow(b byte) bool {
	r.calls++
	if r.nested != "" && r.nestedErr == nil && r.calls < 100 {
		inner := &recorder{accept: -1}
		dawg.UtfcFollow(r.nested, inner)
		one := []byte{}
		st := dawg.NewUtfcState()
		for _, ch := range r.nested {
			rec := &recorder{accept: -1}
			st.Follow(ch, rec)
			one = append(one, rec.got...)
		}
		e := dawg.UtfcEncode(r.nested)
		d := dawg.UtfcDecode(e)
		if !bytes.Equal(inner.got, e) || !bytes.Equal(one, e) {
			r.nestedErr = fmt.Errorf("inside a follower, %+q encodes to % x, is followed as % x, and rune by rune as % x", clip(r.nested), clipB(e), clipB(inner.got), clipB(one))
		} else if d != r.nested {
			r.nestedErr = fmt.Errorf("inside a follower, %+q decodes to %+q", clip(r.nested), clip(d))
		}
	}
	if r.accept >= 0 && len(r.got) >= r.accept {
		return false
	}
	r.got = append(r.got, b)
	return true
}

func (c *utfcHistory) Run(s *Stats) error {
	type state struct {
		st   *dawg.UtfcState
		hist string
		dead bool // after a refusal
	}
	states := make([]*state, c.NS)
	for i := range states {
		states[i] = &state{st: dawg.NewUtfcState()}
	}
	known := map[string]string{} // encodings seen, by text
	type kept struct {
		text string
		enc  []byte
		copy string
	}
	var keep []kept
	encode := func(text string) (string, error) {
		e := dawg.UtfcEncode(text)
		for _, k := range keep {
			if string(k.enc) != k.copy {
				return "", fmt.Errorf("the encoding of %+q was % x when handed out and is % x after encoding %+q", clip(k.text), clipB([]byte(k.copy)), clipB(k.enc), clip(text))
			}
		}
		keep = append(keep, kept{text, e, string(e)})
		if k, ok := known[text]; ok && k != string(e) {
			return "", fmt.Errorf("%+q encodes to % x now, and to % x before", clip(text), clipB(e), clipB([]byte(k)))
		}
		known[text] = string(e)
		return string(e), nil
	}
	refusals, calls := 0, 0
	var in []byte
	for n, op := range c.Ops {
		what := fmt.Sprintf("step %d (%s)", n, op.Op)
		switch op.Op {
		case "step":
			st := states[op.S]
			if st.dead {
				break
			}
			rec := &recorder{accept: op.Refuse, nested: op.Nested}
			ok := true
			followed := ""
			for _, r := range op.Text {
				ok = st.st.Follow(r, rec)
				calls++
				if !ok {
					break
				}
				followed += string(r)
			}
			before, err := encode(st.hist)
			if err != nil {
				return err
			}
			whole, err := encode(st.hist + op.Text)
			if err != nil {
				return err
			}
			if !strings.HasPrefix(whole, before) {
				return fmt.Errorf("%s: the encoding of %+q is not a prefix of that of %+q", what, clip(st.hist), clip(st.hist+op.Text))
			}
			want := whole[len(before):]
			if err := checkFollow(rec, want, ok); err != nil {
				return fmt.Errorf("%s of %+q after %+q: %w", what, clip(op.Text), clip(st.hist), err)
			}
			if !ok {
				refusals++
				st.dead = true
			} else {
				st.hist += followed
			}
		case "copy":
			if op.S != op.T && !states[op.T].dead {
				states[op.S].st.Copy(states[op.T].st)
				states[op.S].hist, states[op.S].dead = states[op.T].hist, false
			}
		case "clear":
			states[op.S].st.Clear()
			states[op.S].hist, states[op.S].dead = "", false
		case "new":
			states[op.S] = &state{st: dawg.NewUtfcState()}
		case "encode":
			if _, err := encode(op.Text); err != nil {
				return fmt.Errorf("%s: %w", what, err)
			}
			calls++
		case "follow":
			rec := &recorder{accept: op.Refuse, nested: op.Nested}
			ok := dawg.UtfcFollow(op.Text, rec)
			calls++
			want, err := encode(op.Text)
			if err != nil {
				return fmt.Errorf("%s: %w", what, err)
			}
			if err := checkFollow(rec, want, ok); err != nil {
				return fmt.Errorf("%s of %+q: %w", what, clip(op.Text), err)
			}
			if !ok {
				refusals++
			}
		case "decode":
			e, err := encode(op.Text)
			if err != nil {
				return fmt.Errorf("%s: %w", what, err)
			}
			in = append(in[:0], e...)
			got := dawg.UtfcDecode(in)
			if got != op.Text {
				return fmt.Errorf("%s: %+q decodes to %+q", what, clip(op.Text), clip(got))
			}
			if string(in) != e {
				return fmt.Errorf("%s: decoding changed its input", what)
			}
			// the caller's buffer may be used again
			for i := range in {
				in[i] = 'Q'
			}
			if len(in) <= 4000 {
				if again := dawg.UtfcDecode(in); again != string(in) {
					return fmt.Errorf("%s: %q decodes to %+q", what, clip(string(in)), clip(again))
				}
			}
			if got != op.Text {
				return fmt.Errorf("%s: %+q was decoded to %+q, which changed with the input", what, clip(op.Text), clip(got))
			}
			// and the encoding is the caller's
			own := dawg.UtfcEncode(op.Text)
			own = append(own, "QQQQ"...)
			for i := range own {
				own[i] = 'Q'
			}
			calls++
		}
	}
	for _, k := range keep {
		if string(k.enc) != k.copy {
			return fmt.Errorf("the encoding of %+q was % x when handed out and is % x later", clip(k.text), clipB([]byte(k.copy)), clipB(k.enc))
		}
	}
	// once more in the other order
	for i := len(keep) - 1; i >= 0; i-- {
		if _, err := encode(keep[i].text); err != nil {
			return err
		}
	}
	s.Nontrivial(calls >= 2 && len(known) >= 2)
	s.Label("refusals", refusals > 0)
	s.Label("several texts", len(known) >= 2)
	return nil
}

func checkFollow(rec *recorder, want string, ok bool) error {
	if rec.nestedErr != nil {
		return rec.nestedErr
	}
	accepted := len(want)
	if rec.accept >= 0 && rec.accept < len(want) {
		accepted = rec.accept
	}
	if string(rec.got) != want[:accepted] {
		return fmt.Errorf("the follower got % x, want % x", clipB(rec.got), clipB([]byte(want[:accepted])))
	}
	if refused := accepted < len(want); ok == refused {
		return fmt.Errorf("reported %v, refused: %v", ok, refused)
	} else if refused && rec.calls != accepted+1 {
		return fmt.Errorf("the follower was called %d times after refusing", rec.calls-accepted-1)
	}
	return nil
}

func genUtfcHistory(t *rapid.T) Case {
	c := &utfcHistory{NS: rapid.IntRange(1, 3).Draw(t, "states")}
	n := rapid.IntRange(2, 14).Draw(t, "ops")
	var texts []string
	for i := 0; i < n; i++ {
		op := utfcOp{
			Op:     rapid.SampledFrom([]string{"step", "step", "step", "step", "copy", "clear", "new", "encode", "encode", "follow", "follow", "decode"}).Draw(t, "op"),
			S:      rapid.IntRange(0, c.NS-1).Draw(t, "s"),
			T:      rapid.IntRange(0, c.NS-1).Draw(t, "t"),
			Refuse: -1,
		}
		if rapid.IntRange(0, 2).Draw(t, "refuse") == 0 {
			op.Refuse = rapid.IntRange(0, 8).Draw(t, "after")
		}
		if len(texts) > 0 && rapid.IntRange(0, 3).Draw(t, "again") == 0 {
			op.Text = rapid.SampledFrom(texts).Draw(t, "old")
		} else {
			op.Text = drawText(t, rapid.SampledFrom([]int{2, 5, 40}).Draw(t, "max"))
			if op.Text != "" && rapid.IntRange(0, 79).Draw(t, "long") == 0 {
				op.Text = longText(op.Text, rapid.IntRange(300, 4500).Draw(t, "bytes"))
				if op.Refuse >= 0 {
					op.Refuse = rapid.IntRange(0, 1500).Draw(t, "late")
				}
			}
			texts = append(texts, op.Text)
		}
		if (op.Op == "step" || op.Op == "follow") && rapid.IntRange(0, 3).Draw(t, "nest") == 3 {
			op.Nested = drawText(t, 4)
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

// every refusal point of every pair and triple of core runes
func fixedUtfcHistory(tier string) []Case {
	var out []Case
	for i, a := range utfcCore {
		for j, b := range utfcCore {
			third := utfcCore[(i*7+j*3)%len(utfcCore)]
			text := string([]rune{a, b, third})
			c := &utfcHistory{NS: 2}
			for k := 0; k <= 9; k++ {
				c.Ops = append(c.Ops, utfcOp{Op: "follow", Text: text, Refuse: k}, utfcOp{Op: "clear"}, utfcOp{Op: "step", Text: text, Refuse: k})
			}
			c.Ops = append(c.Ops, utfcOp{Op: "clear"}, utfcOp{Op: "step", Text: string(a), Refuse: -1}, utfcOp{Op: "copy", S: 1}, utfcOp{Op: "step", Text: string([]rune{b, third}), Refuse: -1},
				utfcOp{Op: "encode", Text: string(third)}, utfcOp{Op: "step", S: 1, Text: string([]rune{third, b}), Refuse: -1}, utfcOp{Op: "decode", Text: text},
				utfcOp{Op: "follow", Text: text, Refuse: -1, Nested: string(third)}, utfcOp{Op: "clear"}, utfcOp{Op: "step", Text: text, Refuse: -1, Nested: string([]rune{b, a})})
			out = append(out, c)
		}
	}
	lengths := &utfcHistory{NS: 1}
	for n := 1; n <= 700; n++ {
		text := mixedText(n)
		lengths.Ops = append(lengths.Ops, utfcOp{Op: "encode", Text: text}, utfcOp{Op: "follow", Text: text, Refuse: n}, utfcOp{Op: "follow", Text: text, Refuse: -1})
	}
	out = append(out, lengths)
	big := strings.Repeat("текст text 文 ", 400) // more than any initial buffer
	out = append(out, &utfcHistory{NS: 1, Ops: []utfcOp{{Op: "encode", Text: "а"}, {Op: "encode", Text: big}, {Op: "encode", Text: "б"}, {Op: "encode", Text: "text" + big}, {Op: "follow", Text: big, Refuse: 3000}, {Op: "encode", Text: "а"}, {Op: "step", Text: big, Refuse: -1}}})
	huge := strings.Repeat("текст text 文 ", 110000) // more than 2 MiB
	out = append(out, &utfcHistory{NS: 1, Ops: []utfcOp{{Op: "follow", Text: huge, Refuse: -1}, {Op: "encode", Text: "а"}, {Op: "follow", Text: huge, Refuse: 1<<20 + 5}, {Op: "encode", Text: "б"}, {Op: "encode", Text: huge}, {Op: "encode", Text: "в"}}})
	return out
}

// ---- C16: UTF-C dictionaries ----

type utfcDictCase struct {
	Words   []string `json:"words"`
	Vals    []int32  `json:"vals"`
	Queries []string `json:"queries"`

	// A sweep instead: every other code point of [From, To), alone, before, behind and inside Base.
	From int    `json:"from,omitempty"`
	To   int    `json:"to,omitempty"`
	Base string `json:"base,omitempty"`
}

// sweep stores words made of every other code point and looks for those made of all of them.
func (c *utfcDictCase) sweep(s *Stats) error {
	forms := func(r rune) []string {
		x := string(r)
		return []string{x, x + c.Base, c.Base + x, c.Base + x + c.Base}
	}
	words := map[string]int32{}
	var list []string
	add := func(w string) {
		if _, ok := words[w]; !ok {
			words[w] = int32(len(list) + 1)
			list = append(list, w)
		}
	}
	add("")
	add(c.Base)
	add(c.Base + c.Base)
	for r := rune(1); r < 128; r += 2 {
		add(string(r))
		add(c.Base + string(r))
	}
	for i := c.From &^ 1; i < c.To; i += 2 {
		if utf8.ValidRune(rune(i)) {
			for _, w := range forms(rune(i)) {
				add(w)
			}
		}
	}
	sort.Slice(list, func(i, j int) bool { return list[i] < list[j] })
	type pair struct{ enc, text string }
	var pairs []pair
	for _, w := range list {
		pairs = append(pairs, pair{string(dawg.UtfcEncode(w)), w})
	}
	sort.Slice(pairs, func(i, j int) bool { return pairs[i].enc < pairs[j].enc })
	m := &Model{}
	for i, p := range pairs {
		if i > 0 && p.enc == pairs[i-1].enc {
			return fmt.Errorf("%+q and %+q have the same encoding % x", p.text, pairs[i-1].text, p.enc)
		}
		m.Keys = append(m.Keys, p.enc)
		m.Vals = append(m.Vals, words[p.text])
	}
	b, err := build(m)
	if err != nil {
		return err
	}
	g := dawg.BuildGuide(b.D, b.Dict)
	if g == nil {
		return fmt.Errorf("building the guide failed")
	}
	comp := dawg.NewCompleter(b.Dict, g)
	// words with a given prefix are neighbours in text order
	complete := func(q string) error {
		i := sort.SearchStrings(list, q)
		n := 0
		for i+n < len(list) && strings.HasPrefix(list[i+n], q) {
			n++
		}
		e := string(dawg.UtfcEncode(q))
		index := b.Dict.Root()
		if ok := b.Dict.FollowString(e, &index); ok != (n > 0) {
			return fmt.Errorf("%+q can be followed: %v, but %d words start with it", clip(q), ok, n)
		} else if !ok {
			return nil
		}
		seen := map[string]bool{}
		comp.StartString(index, e)
		for comp.Next() {
			w := dawg.UtfcDecode([]byte(comp.Key()))
			if !strings.HasPrefix(w, q) || seen[w] || words[w] != comp.Value() {
				return fmt.Errorf("completing %+q gives %+q = %d, not a word with that prefix and value (or given twice)", clip(q), clip(w), comp.Value())
			}
			seen[w] = true
		}
		if len(seen) != n {
			return fmt.Errorf("completing %+q gives %d words, want %d", clip(q), len(seen), n)
		}
		return nil
	}
	query := func(q string) error {
		v, in := words[q]
		if !in {
			v = -1
		}
		if got := b.Dict.FindString(string(dawg.UtfcEncode(q))); got != v {
			return fmt.Errorf("looking up %+q gives %d, want %d", q, got, v)
		}
		f := &dictFollower{dict: b.Dict, index: b.Dict.Root()}
		ok := dawg.UtfcFollow(q, f)
		if found := ok && b.Dict.HasValue(f.index); found != in || in && b.Dict.Value(f.index) != v {
			return fmt.Errorf("following the dictionary while encoding %+q: found %v, want %v", q, found, in)
		}
		return nil
	}
	for i := c.From; i < c.To; i++ {
		if !utf8.ValidRune(rune(i)) {
			continue
		}
		for _, q := range forms(rune(i)) {
			if err := query(q); err != nil {
				return err
			}
		}
		if err := query(string([]rune{rune(i), rune(i)})); err != nil {
			return err
		}
		if err := complete(string(rune(i))); err != nil {
			return err
		}
	}
	if err := complete(c.Base); err != nil {
		return err
	}
	if err := complete(""); err != nil {
		return err
	}
	s.Nontrivial(true)
	s.Label("sweep over code points", true)
	return nil
}

type dictFollower struct {
	dict   *dawg.Dictionary
	index  uint32
	calls  int
	failed bool
}

func (f *dictFollower) Follow(b byte) bool {
	f.calls++
	if f.failed {
		return false
	}
	if !f.dict.Follow(b, &f.index) {
		f.failed = true
		return false
	}
	return true
}

func (c *utfcDictCase) Run(s *Stats) error {
	if c.To > c.From {
		return c.sweep(s)
	}
	words := map[string]int32{}
	var list []string
	for i, w := range c.Words {
		if _, ok := words[w]; !ok {
			list = append(list, w)
			words[w] = c.Vals[i]
		}
	}
	enc := map[string]string{}
	for _, w := range list {
		enc[w] = string(dawg.UtfcEncode(w))
	}
	sort.Slice(list, func(i, j int) bool { return enc[list[i]] < enc[list[j]] })
	m := &Model{}
	for i, w := range list {
		if i > 0 && enc[w] == enc[list[i-1]] {
			return fmt.Errorf("%+q and %+q have the same encoding % x", w, list[i-1], enc[w])
		}
		m.Keys = append(m.Keys, enc[w])
		m.Vals = append(m.Vals, words[w])
	}
	b, err := build(m)
	if err != nil {
		return err
	}
	g := dawg.BuildGuide(b.D, b.Dict)
	if g == nil {
		return fmt.Errorf("building the guide failed")
	}
	comp := dawg.NewCompleter(b.Dict, g)
	hits, misses, multi := 0, 0, 0
	query := func(q string) error {
		v, in := words[q]
		if !in {
			v = -1
			misses++
		} else {
			hits++
		}
		if got := b.Dict.FindString(string(dawg.UtfcEncode(q))); got != v {
			return fmt.Errorf("looking up %+q gives %d, want %d", clip(q), got, v)
		}
		f := &dictFollower{dict: b.Dict, index: b.Dict.Root()}
		ok := dawg.UtfcFollow(q, f)
		if ok == f.failed {
			return fmt.Errorf("following %+q reports %v, refused: %v", clip(q), ok, f.failed)
		}
		if found := ok && b.Dict.HasValue(f.index); found != in || in && b.Dict.Value(f.index) != v {
			return fmt.Errorf("following the dictionary while encoding %+q: found %v, want %v", clip(q), found, in)
		}
		// completion
		want := map[string]bool{}
		for _, w := range list {
			if strings.HasPrefix(w, q) {
				want[w] = true
			}
		}
		if ok != (len(want) > 0 || q == "") {
			return fmt.Errorf("%+q can be followed: %v, but %d words start with it", clip(q), ok, len(want))
		}
		if !ok {
			return nil
		}
		if len(want) > 1 {
			multi++
		}
		comp.StartString(f.index, string(dawg.UtfcEncode(q)))
		n := 0
		for ; comp.Next(); n++ {
			w := dawg.UtfcDecode([]byte(comp.Key()))
			if !want[w] || comp.Value() != words[w] {
				return fmt.Errorf("completing %+q gives %+q = %d, not a word with that prefix and value (or given twice)", clip(q), clip(w), comp.Value())
			}
			delete(want, w)
		}
		if len(want) > 0 {
			return fmt.Errorf("completing %+q gives %d words, %d are missing", clip(q), n, len(want))
		}
		return nil
	}
	if err := query(""); err != nil {
		return err
	}
	for _, w := range list {
		runes := []rune(w)
		step := 1 + len(runes)/25 // all prefixes of all but long words
		for i := 0; i < len(runes); i += step {
			if err := query(string(runes[:i])); err != nil {
				return err
			}
		}
		for _, q := range []string{w, w + "a", w + "я", w + "\x00", "a" + w} {
			if err := query(q); err != nil {
				return err
			}
		}
	}
	for _, q := range c.Queries {
		if err := query(q); err != nil {
			return err
		}
	}
	nonASCII := false
	for _, w := range list {
		for i := 0; i < len(w); i++ {
			nonASCII = nonASCII || w[i] >= 0x80
		}
	}
	s.Nontrivial(len(list) >= 2 && nonASCII)
	s.Label("non-ASCII", nonASCII)
	s.Label("several completions", multi > 0)
	s.Label("misses", misses > 0)
	return nil
}

func genUtfcDict(t *rapid.T) Case {
	c := &utfcDictCase{}
	n := rapid.IntRange(rapid.SampledFrom([]int{0, 2, 6, 15}).Draw(t, "min"), 25).Draw(t, "words")
	for i := 0; i < n; i++ {
		var w string
		if len(c.Words) > 0 && rapid.Bool().Draw(t, "extend") {
			base := []rune(rapid.SampledFrom(c.Words).Draw(t, "base"))
			w = string(base[:rapid.IntRange(0, len(base)).Draw(t, "keep")])
		}
		w += drawText(t, rapid.SampledFrom([]int{1, 3, 8}).Draw(t, "max"))
		if w != "" && rapid.IntRange(0, 399).Draw(t, "long") == 0 {
			w = longText(w, rapid.IntRange(200, 1500).Draw(t, "bytes"))
		}
		c.Words = append(c.Words, w)
		c.Vals = append(c.Vals, drawValue(t, "val"))
	}
	q := rapid.IntRange(0, 10).Draw(t, "queries")
	for i := 0; i < q; i++ {
		c.Queries = append(c.Queries, drawText(t, 5))
	}
	return c
}

func fixedUtfcDict(tier string) []Case {
	var out []Case
	for i, from := 0, 0; from < 0x110000; i, from = i+1, from+0x1000 {
		bases := []string{"x", "ж", "文", "か", "é"}
		if tier != "thorough" {
			if from >= 0x30000 && from != 0x10f000 && from != 0xe0000 {
				continue
			}
			bases = bases[i%5 : i%5+1]
			if i%5 != 0 && from < 0x10000 {
				bases = append(bases, "x")
			}
		}
		for _, base := range bases {
			out = append(out, &utfcDictCase{From: from, To: from + 0x1000, Base: base})
		}
	}
	steps := &utfcDictCase{}
	for n := 0; n <= 150; n++ {
		if n%3 != 2 {
			steps.Words, steps.Vals = append(steps.Words, mixedText(n)), append(steps.Vals, int32(n*n))
		}
		steps.Queries = append(steps.Queries, mixedText(n), mixedText(n)+"a")
	}
	out = append(out, steps)
	for i := range utfcCore { // all two-rune words over a third of the core set, starting with one rune
		c := &utfcDictCase{}
		for j := range utfcCore {
			for k := 0; k < 3; k++ {
				w := []rune{utfcCore[i], utfcCore[j], utfcCore[(j*k+i)%len(utfcCore)]}[:1+k]
				c.Words = append(c.Words, string(w))
				c.Vals = append(c.Vals, int32(i*1000+j*3+k))
			}
			c.Queries = append(c.Queries, string([]rune{utfcCore[j], utfcCore[i]}))
		}
		out = append(out, c)
	}
	return out
}

func init() {
	register(&Prop{
		ID: "C13", Rule: "the string has code points of at least two 128-code-point windows or its encoding contains a marker byte; every enumerated prelude x code point and tuple counts",
		New: func() Case { return &utfcCase{} }, Quick: 200000, Thorough: 20000000,
		Gen: genUtfc(false), Fixed: fixedUtfc(false),
	})
	register(&Prop{
		ID: "C14", Rule: "at least two calls on at least two different texts",
		New: func() Case { return &utfcHistory{} }, Quick: 300000, Thorough: 15000000,
		Gen: genUtfcHistory, Fixed: fixedUtfcHistory,
	})
	register(&Prop{
		ID: "C15", Rule: "the string has code points of at least two 128-code-point windows or its encoding contains a marker byte; every enumerated prelude x code point and tuple counts",
		New: func() Case { return &utfcCase{} }, Quick: 200000, Thorough: 20000000,
		Gen: genUtfc(true), Fixed: fixedUtfc(true),
		Assumptions: []string{"the reference encoder in harness/utfcref.go states the published format"},
	})
	register(&Prop{
		ID: "C16", Rule: "at least two words, one of them not ASCII",
		New: func() Case { return &utfcDictCase{} }, Quick: 16000, Thorough: 700000,
		Gen: genUtfcDict, Fixed: fixedUtfcDict,
	})
}
