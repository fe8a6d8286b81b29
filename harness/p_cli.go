package main

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"unsafe"

	"github.com/deNULL/dawg"
	"pgregory.net/rapid"
)

func tool() string {
	p := os.Getenv("VERIF_DAWGTOOL")
	if p == "" {
		panic(inconclusive{errors.New("VERIF_DAWGTOOL is not set")})
	}
	return p
}

func caseDir() string {
	d, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "cli")
	if err != nil {
		panic(inconclusive{err})
	}
	return d
}

func writeFile(path string, data []byte) {
	if err := os.WriteFile(path, data, 0o644); err != nil {
		panic(inconclusive{err})
	}
}

// capped keeps at most max bytes; more makes the writing side fail.
type capped struct {
	buf  bytes.Buffer
	max  int
	over bool
}

func (c *capped) Write(p []byte) (int, error) {
	if c.buf.Len()+len(p) > c.max {
		c.over = true
		return 0, errors.New("too much output")
	}
	return c.buf.Write(p)
}

type toolRun struct {
	code   int
	stdout string
	stderr string
}

const toolCPU = 60 // seconds; runs take milliseconds

// runTool runs dawgtool in dir. fsize >= 0 limits the size of files it can write.
func runTool(dir string, fsize int, args ...string) (*toolRun, error) {
	name := tool()
	if fsize >= 0 {
		args = append([]string{"-limit", strconv.Itoa(fsize), "--", name}, args...)
		name = os.Args[0]
	}
	cmd := exec.Command(name, args...)
	cmd.Dir = dir
	out, errb := &capped{max: 256 << 20}, &capped{max: 64 << 20}
	cmd.Stdout, cmd.Stderr = out, errb
	if err := cmd.Start(); err != nil {
		panic(inconclusive{err})
	}
	lim := syscall.Rlimit{Cur: toolCPU, Max: toolCPU + 5}
	syscall.RawSyscall6(syscall.SYS_PRLIMIT64, uintptr(cmd.Process.Pid), syscall.RLIMIT_CPU, uintptr(unsafe.Pointer(&lim)), 0, 0, 0)
	err := cmd.Wait()
	if out.over || errb.over {
		return nil, fmt.Errorf("dawgtool %v prints without end", args)
	}
	st, _ := cmd.ProcessState.Sys().(syscall.WaitStatus)
	if st.Signaled() {
		if st.Signal() == syscall.SIGXCPU {
			return nil, fmt.Errorf("dawgtool %v does not terminate within %d s of CPU time", args, toolCPU)
		}
		if st.Signal() == syscall.SIGKILL {
			panic(inconclusive{fmt.Errorf("dawgtool was killed: %v", err)})
		}
		return &toolRun{128 + int(st.Signal()), out.buf.String(), errb.buf.String()}, nil
	}
	if err != nil && cmd.ProcessState.ExitCode() < 0 {
		panic(inconclusive{err})
	}
	if fsize >= 0 && cmd.ProcessState.ExitCode() == limitTrouble {
		panic(inconclusive{errors.New(errb.buf.String())})
	}
	return &toolRun{cmd.ProcessState.ExitCode(), out.buf.String(), errb.buf.String()}, nil
}

// doLimit replaces the process by a command with a limited file size.
func doLimit(limit int, argv []string) int {
	l := syscall.Rlimit{Cur: uint64(limit), Max: uint64(limit)}
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &l); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return limitTrouble
	}
	err := syscall.Exec(argv[0], argv, os.Environ())
	fmt.Fprintln(os.Stderr, err)
	return limitTrouble
}

// limitTrouble is the exit status of doLimit when it could not start the command.
const limitTrouble = 97

// ---- lexicons ----

type lexLine struct {
	Key B `json:"key"`
	// Value text after the tab (only with Tab)
	Value string `json:"value,omitempty"`
	Blank bool   `json:"blank,omitempty"`
	NoTab bool   `json:"notab,omitempty"` // no value at all in spite of Tab
	Pad   int    `json:"pad,omitempty"`   // zeros before the value
	Rest  B      `json:"rest,omitempty"`  // after the value (only with Tab): nothing, or a tab and further fields
}

type cliOpts struct {
	Tab    bool `json:"t,omitempty"`
	Guide  bool `json:"g,omitempty"`
	Ranked bool `json:"r,omitempty"`
	Index  bool `json:"i,omitempty"`
	Sort   bool `json:"s,omitempty"`
	Utfc   bool `json:"u,omitempty"`
	Named  bool `json:"named,omitempty"` // -l and -d instead of positional arguments
	NoEOL  bool `json:"noeol,omitempty"` // no newline at the end of the lexicon and of the queries
	Old    bool `json:"old,omitempty"`   // a longer dictionary file is there already
	CRLF   bool `json:"crlf,omitempty"`  // lines end in CR LF
}

func (o cliOpts) flags() []string {
	var f []string
	for _, x := range []struct {
		on   bool
		name string
	}{{o.Tab, "-t"}, {o.Guide, "-g"}, {o.Ranked, "-r"}, {o.Index, "-i"}, {o.Sort, "-s"}, {o.Utfc, "-u"}} {
		if x.on {
			f = append(f, x.name)
		}
	}
	return f
}

func (o cliOpts) args(build bool, lexicon, dict string) []string {
	var a []string
	if build {
		a = append(a, "-b")
	}
	a = append(a, o.flags()...)
	if o.Named {
		return append(a, "-d", dict, "-l", lexicon)
	}
	return append(a, lexicon, dict)
}

// prepare leaves what an earlier build may have left.
func (o cliOpts) prepare(path string) {
	if o.Old {
		writeFile(path, bytes.Repeat([]byte{1, 0, 0, 0}, 20000))
	}
}

func (o cliOpts) eol() string {
	if o.CRLF {
		return "\r\n"
	}
	return "\n"
}

func (o cliOpts) guided() bool { return o.Guide || o.Ranked }

func (o cliOpts) encode(k string) string {
	if o.Utfc {
		return string(refEncode(k))
	}
	return k
}

// text is a key as it is printed: with -u, bytes that are not valid UTF-8 count as U+FFFD each.
func (o cliOpts) text(k string) string {
	if o.Utfc {
		return string([]rune(k))
	}
	return k
}

func lexiconText(lines []lexLine, o cliOpts) []byte {
	var b bytes.Buffer
	for i, l := range lines {
		if !l.Blank {
			b.WriteString(string(l.Key))
			if o.Tab && !l.NoTab {
				b.WriteByte('\t')
				b.WriteString(strings.Repeat("0", l.Pad))
				b.WriteString(l.Value)
				b.WriteString(string(l.Rest))
			}
		}
		if i+1 < len(lines) || !o.NoEOL {
			b.WriteString(o.eol())
		}
	}
	return b.Bytes()
}

// entry is a stored key: its text and its encoding.
type entry struct {
	text, enc string
	val       int32
}

type lexicon struct {
	entries  []entry // sorted by encoding, distinct
	sorted   bool
	badValue bool
	nulKey   bool
	low, big int // clamped values
	lines    int // that are not blank
}

// readLexicon states what a lexicon means.
func readLexicon(lines []lexLine, o cliOpts) *lexicon {
	x := &lexicon{sorted: true}
	byEnc := map[string]int{}
	prev := ""
	for _, l := range lines {
		if l.Blank || string(l.Key) == "" && !o.Tab {
			continue
		}
		x.lines++
		var val int64
		if o.Tab {
			v, err := strconv.ParseInt(l.Value, 10, 64)
			if err != nil || l.NoTab {
				x.badValue = true
			}
			val = v
			if val < 0 {
				x.low++
				val = 0
			} else if val > math.MaxInt32 {
				x.big++
				val = math.MaxInt32
			}
		}
		enc := o.encode(string(l.Key))
		if strings.Contains(enc, "\x00") {
			x.nulKey = true
		}
		if enc < prev {
			x.sorted = false
		}
		prev = enc
		if i, ok := byEnc[enc]; ok {
			x.entries[i].val = int32(val)
		} else {
			byEnc[enc] = len(x.entries)
			x.entries = append(x.entries, entry{o.text(string(l.Key)), enc, int32(val)})
		}
	}
	sort.Slice(x.entries, func(i, j int) bool { return x.entries[i].enc < x.entries[j].enc })
	return x
}

func (x *lexicon) model() *Model {
	m := &Model{}
	for _, e := range x.entries {
		m.Keys = append(m.Keys, e.enc)
		m.Vals = append(m.Vals, e.val)
	}
	return m
}

// checkFile: the dictionary file is complete and holds exactly the lexicon.
func (x *lexicon) checkFile(path string, o cliOpts) error {
	img, err := os.ReadFile(path)
	if err != nil {
		return fmt.Errorf("no dictionary file: %v", err)
	}
	m := x.model()
	r := bytes.NewReader(img)
	dict := dawg.ReadDictionary(r)
	if dict == nil {
		return fmt.Errorf("the dictionary in the file is incomplete")
	}
	for _, k := range m.Keys {
		if err := checkLookup(dict, m, k); err != nil {
			return fmt.Errorf("dictionary file: %w", err)
		}
	}
	var guide dawg.SomeGuide
	if o.Ranked {
		g := dawg.ReadRankedGuide(r)
		if g == nil {
			return fmt.Errorf("the ranked guide in the file is incomplete")
		}
		rc := dawg.NewRankedCompleter(dict, g)
		rc.Start(dict.Root())
		if err := enumerate(rc, m, 0, len(m.Keys), 0, "", -1, true); err != nil {
			return fmt.Errorf("dictionary file: %w", err)
		}
		guide = g
	} else if o.Guide {
		g := dawg.ReadGuide(r)
		if g == nil {
			return fmt.Errorf("the guide in the file is incomplete")
		}
		if err := checkEnumeration(dict, g, m); err != nil {
			return fmt.Errorf("dictionary file: %w", err)
		}
		guide = g
	}
	if guide != nil && o.Index {
		ix := dawg.ReadIndex(r)
		if ix == nil {
			return fmt.Errorf("the index in the file is incomplete")
		}
		if err := checkIndex(dict, dawg.NewIndexer(dict, guide, ix), ix, m); err != nil {
			return fmt.Errorf("dictionary file: %w", err)
		}
	}
	if r.Len() > 0 {
		return fmt.Errorf("%d bytes too many in the dictionary file", r.Len())
	}
	return nil
}

// checkSummary: the numbers reported by a build are those of the lexicon and of the file.
func (x *lexicon) checkSummary(out, path string, o cliOpts) error {
	img, err := os.ReadFile(path)
	if err != nil {
		return fmt.Errorf("no dictionary file: %v", err)
	}
	got := map[string]string{}
	for _, l := range strings.Split(out, "\n") {
		if name, num, ok := strings.Cut(l, ": "); ok {
			got[name], _, _ = strings.Cut(num, " ")
		}
	}
	m := x.model()
	min := &minimal{m: m, class: map[string]int32{}}
	trans, merging := 0, 0
	if len(m.Keys) > 0 {
		min.visit(m.Root())
		for i := range min.occ {
			trans += int(min.width[i])
			if min.occ[i] > 1 {
				merging++
			}
		}
	}
	n, _, rest, err := takeUnits(img, 4)
	if err != nil {
		return err
	}
	want := map[string]int{
		"no. keys": x.lines, "no. states": len(min.occ) + 1, "no. transitions": trans,
		"no. merged states": min.trans - len(min.occ), "no. merging states": merging, "no. merged transitions": min.trans - trans,
		"no. elements": int(n), "dictionary size": 4 * int(n),
	}
	if trans > 0 && n <= 1<<21 {
		want["no. unused elements"] = int(n) - 1 - trans
	}
	headers := 1
	if o.guided() {
		headers++
		if n, _, rest, err = takeUnits(rest, 2); err != nil {
			return err
		}
		want["no. units"], want["guide size"] = int(n), 2*int(n)
		if o.Index {
			if n, _, _, err = takeUnits(rest, 4); err != nil {
				return err
			}
			headers++
			want["no. index units"], want["index size"] = int(n), 4*int(n)
		}
	}
	if w, ok := want["no. unused elements"]; ok {
		ratio := 100 * float64(w) / float64(want["no. elements"])
		_, text, _ := strings.Cut(out, fmt.Sprintf("no. unused elements: %d (", w))
		text, _, _ = strings.Cut(text, "%")
		if v, err := strconv.ParseFloat(text, 64); err != nil || math.Abs(v-ratio) > 0.0101 {
			return fmt.Errorf("the build reports %q %% unused elements, want %.2f", text, ratio)
		}
	}
	if sum := want["dictionary size"] + want["guide size"] + want["index size"] + 4*headers; sum != len(img) {
		return fmt.Errorf("the dictionary file has %d bytes, want %d", len(img), sum)
	}
	for name, w := range want {
		if got[name] != strconv.Itoa(w) {
			return fmt.Errorf("the build reports %q %s, want %d", name, got[name], w)
		}
	}
	return nil
}

// checkAnswers compares the output of a query run with the lexicon.
func (x *lexicon) checkAnswers(out string, queries []B, o cliOpts) error {
	rest := out
	take := func(want, what string) error {
		if !strings.HasPrefix(rest, want) {
			return fmt.Errorf("%s: output continues with %q, want %q", what, clip(rest), clip(want))
		}
		rest = rest[len(want):]
		return nil
	}
	for n, qb := range queries {
		q := string(qb)
		enc := o.encode(q)
		what := fmt.Sprintf("query %d (%q)", n, clip(q))
		if err := take(q+":", what); err != nil {
			return err
		}
		if !o.guided() {
			for _, e := range x.entries { // sorted, so shorter prefixes come first
				if e.enc != "" && strings.HasPrefix(enc, e.enc) {
					if err := take(fmt.Sprintf(" %s = %d;", e.text, e.val), what); err != nil {
						return err
					}
				}
			}
		} else {
			if o.Index {
				want := " (not found)"
				for i, e := range x.entries {
					if e.enc == enc {
						want = fmt.Sprintf(" (#%d)", i)
					}
				}
				if err := take(want, what); err != nil {
					return err
				}
			}
			var hits []entry
			for _, e := range x.entries {
				if strings.HasPrefix(e.enc, enc) {
					hits = append(hits, e)
				}
			}
			if !o.Ranked {
				for _, e := range hits {
					if err := take(fmt.Sprintf(" %s = %d;", e.text, e.val), what); err != nil {
						return err
					}
				}
			} else {
				sort.SliceStable(hits, func(i, j int) bool { return hits[i].val > hits[j].val })
				for i := 0; i < len(hits); {
					j := i
					group := map[string]bool{}
					for j < len(hits) && hits[j].val == hits[i].val {
						group[fmt.Sprintf(" %s = %d;", hits[j].text, hits[j].val)] = true
						j++
					}
					for ; i < j; i++ {
						k := strings.IndexByte(rest, ';')
						if k < 0 || !group[rest[:k+1]] {
							return fmt.Errorf("%s: output continues with %q, want one of %d completions of value %d", what, clip(rest), len(group), hits[i].val)
						}
						delete(group, rest[:k+1])
						rest = rest[k+1:]
					}
				}
			}
		}
		if err := take("\n", what); err != nil {
			return err
		}
	}
	if o.guided() && o.Index {
		if err := take(fmt.Sprintf("Total words: %d\n", len(x.entries)), "index"); err != nil {
			return err
		}
		for i, e := range x.entries {
			if err := take(fmt.Sprintf("%d: %s\n", i, e.text), "index"); err != nil {
				return err
			}
		}
	}
	if rest != "" {
		return fmt.Errorf("unexpected output at the end: %q", clip(rest))
	}
	return nil
}

// ---- C17 ----

type cliCase struct {
	Opts    cliOpts   `json:"opts"`
	Lines   []lexLine `json:"lines"`
	Lex     *Lex      `json:"lex,omitempty"` // generated lines instead of Lines
	Queries []B       `json:"queries"`
}

// lines of a generated lexicon: sorted by encoding, or scattered with -s.
func (c *cliCase) lines() []lexLine {
	if c.Lex == nil {
		return c.Lines
	}
	m := c.Lex.Model()
	var out []lexLine
	for i, k := range m.Keys {
		k = cleanKey(k, c.Opts)
		if k == "" {
			continue
		}
		out = append(out, lexLine{Key: B(k), Value: strconv.Itoa(int(m.Vals[i]))})
	}
	if c.Opts.Sort {
		sort.SliceStable(out, func(i, j int) bool { return hashString(string(out[i].Key), 5) < hashString(string(out[j].Key), 5) })
	} else {
		sort.SliceStable(out, func(i, j int) bool { return c.Opts.encode(string(out[i].Key)) < c.Opts.encode(string(out[j].Key)) })
	}
	return out
}

// cleanKey replaces what cannot stand in a lexicon line.
func cleanKey(k string, o cliOpts) string {
	out := []byte(k)
	for i, b := range out {
		if b == 0 && !o.Utfc || b == '\n' || b == '\r' && i == len(out)-1 || b == '\t' && o.Tab || b == ';' && o.Ranked {
			out[i] = '_'
		}
	}
	return string(out)
}

func (c *cliCase) Run(s *Stats) error {
	dir := caseDir()
	defer os.RemoveAll(dir)
	o := c.Opts
	lines := c.lines()
	x := readLexicon(lines, o)
	if !x.sorted && !o.Sort || x.badValue || x.nulKey {
		panic(inconclusive{errors.New("the generator drew a lexicon that must be refused")})
	}
	writeFile(filepath.Join(dir, "lex"), lexiconText(lines, o))
	var qs bytes.Buffer
	for i, q := range c.Queries {
		qs.WriteString(string(q))
		if i+1 < len(c.Queries) || !o.NoEOL || q == "" {
			qs.WriteString(o.eol())
		}
	}
	writeFile(filepath.Join(dir, "query"), qs.Bytes())
	o.prepare(filepath.Join(dir, "dict"))
	r, err := runTool(dir, -1, o.args(true, "lex", "dict")...)
	if err != nil {
		return err
	}
	if r.code != 0 {
		return fmt.Errorf("building a valid lexicon (%v) ends with status %d: %s", o.flags(), r.code, clip(r.stderr))
	}
	if got, want := strings.Contains(r.stdout+r.stderr, "warning: negative"), x.low > 0; got != want {
		return fmt.Errorf("warning about negative values: %v, want %v", got, want)
	}
	if got, want := strings.Contains(r.stdout+r.stderr, "warning: too large"), x.big > 0; got != want {
		return fmt.Errorf("warning about too large values: %v, want %v", got, want)
	}
	if err := x.checkSummary(r.stdout, filepath.Join(dir, "dict"), o); err != nil {
		return fmt.Errorf("options %v: %w", o.flags(), err)
	}
	r, err = runTool(dir, -1, o.args(false, "query", "dict")...)
	if err != nil {
		return err
	}
	if r.code != 0 {
		return fmt.Errorf("querying (%v) ends with status %d: %s", o.flags(), r.code, clip(r.stderr))
	}
	if err := x.checkAnswers(r.stdout, c.Queries, o); err != nil {
		return fmt.Errorf("options %v: %w", o.flags(), err)
	}
	match := false
	for _, q := range c.Queries {
		enc := o.encode(string(q))
		for _, e := range x.entries {
			match = match || strings.HasPrefix(enc, e.enc) || o.guided() && strings.HasPrefix(e.enc, enc)
			if match {
				break
			}
		}
	}
	s.Nontrivial(len(x.entries) >= 2 && match)
	for _, f := range o.flags() {
		s.Label("option "+f, true)
	}
	s.Label("clamped values", x.low+x.big > 0)
	s.Label("matching query", match)
	return nil
}

func drawOpts(t *rapid.T) cliOpts {
	b := func(n string) bool { return rapid.Bool().Draw(t, n) }
	return cliOpts{Tab: b("t"), Guide: b("g"), Ranked: rapid.IntRange(0, 2).Draw(t, "r") == 0, Index: b("i"), Sort: b("s"), Utfc: rapid.IntRange(0, 2).Draw(t, "u") == 0, Named: b("named"), NoEOL: b("noeol"), Old: rapid.IntRange(0, 3).Draw(t, "old") == 3, CRLF: rapid.IntRange(0, 3).Draw(t, "crlf") == 3}
}

var cliWords = []string{"a", "an", "and", "app", "apple", "b", "ba", "binary", "c", "ca", "car", "card", "я", "яб", "ябл", "é", "ép", "中", "中文", "x y", "x", "%d", "%s%n", "=", "a = 1", "-b", "\"q\"", "~"}

func drawCliKey(t *rapid.T, o cliOpts) string {
	switch rapid.IntRange(0, 4).Draw(t, "word") {
	case 0, 1:
		return rapid.SampledFrom(cliWords).Draw(t, "w")
	case 2:
		return rapid.SampledFrom(cliWords).Draw(t, "w1") + rapid.SampledFrom(cliWords).Draw(t, "w2")
	case 3:
		if o.Utfc && rapid.IntRange(0, 3).Draw(t, "invalid") != 3 {
			return cleanKey(drawText(t, 5), o)
		}
		return cleanKey(string(drawByteKey(t, []byte{'a', 'b', 1, 0x7f, 0x80, 0xff, ' ', '\t', 0xc3, '\r', ';', 0}, 6, "bytes")), o)
	default:
		return cleanKey(string(drawByteKey(t, []byte("abc"), 5, "abc")), o)
	}
}

func drawNumber(t *rapid.T) string {
	switch rapid.IntRange(0, 7).Draw(t, "num") {
	case 0:
		return strconv.FormatInt(-int64(rapid.IntRange(1, 1<<40).Draw(t, "neg")), 10)
	case 1:
		return strconv.FormatInt(1<<31+int64(rapid.SampledFrom([]int64{-2, -1, 0, 1, 1 << 31, 1 << 32, 1<<62 - 1}).Draw(t, "big")), 10)
	case 3:
		// other spellings of a number
		return rapid.SampledFrom([]string{"", "+", "0", "+0", "-", "-00"}).Draw(t, "sign") + strconv.Itoa(rapid.IntRange(0, 9).Draw(t, "digit"))
	case 2:
		return strconv.Itoa(int(rapid.SampledFrom(boundaryValues).Draw(t, "bound")))
	default:
		return strconv.Itoa(rapid.IntRange(0, 5).Draw(t, "small"))
	}
}

func drawLines(t *rapid.T, o cliOpts, max int) []lexLine {
	min := rapid.SampledFrom([]int{0, 2, 5, 12}).Draw(t, "min")
	if min > max {
		min = max
	}
	n := rapid.IntRange(min, max).Draw(t, "lines")
	var out []lexLine
	for i := 0; i < n; i++ {
		var l lexLine
		k := drawCliKey(t, o)
		if len(out) > 0 && rapid.IntRange(0, 7).Draw(t, "dup") == 0 {
			k = string(rapid.SampledFrom(out).Draw(t, "old").Key)
		}
		if o.Tab && o.guided() && rapid.IntRange(0, 15).Draw(t, "emptykey") == 0 {
			k = ""
		} else if k == "" {
			k = "a"
		}
		l.Key = B(k)
		if o.Tab {
			l.Value = drawNumber(t)
			if rapid.IntRange(0, 15).Draw(t, "rest") == 15 {
				l.Rest = B(rapid.SampledFrom([]string{"\t", "\t7", "\t\t", "\tx\t9", "\t-1", "\t99999999999"}).Draw(t, "fields"))
			}
		}
		out = append(out, l)
	}
	return out
}

func sortLines(lines []lexLine, o cliOpts) {
	sort.SliceStable(lines, func(i, j int) bool { return o.encode(string(lines[i].Key)) < o.encode(string(lines[j].Key)) })
}

func addBlanks(t *rapid.T, lines []lexLine) []lexLine {
	for n := rapid.IntRange(0, 2).Draw(t, "blanks"); n > 0; n-- {
		p := rapid.IntRange(0, len(lines)).Draw(t, "blankat")
		lines = append(lines[:p:p], append([]lexLine{{Blank: true}}, lines[p:]...)...)
	}
	return lines
}

func drawQueries(t *rapid.T, lines []lexLine, o cliOpts) []B {
	var out []B
	n := rapid.IntRange(0, 8).Draw(t, "queries")
	for i := 0; i < n; i++ {
		q := drawCliKey(t, o)
		if len(lines) > 0 && rapid.IntRange(0, 3).Draw(t, "fromlex") != 0 {
			rs := string(lines[rapid.IntRange(0, len(lines)-1).Draw(t, "line")].Key)
			if o.Utfc {
				r := []rune(rs)
				rs = string(r[:rapid.IntRange(0, len(r)).Draw(t, "cut")])
			} else {
				rs = rs[:rapid.IntRange(0, len(rs)).Draw(t, "cut")]
			}
			q = rs
			if rapid.IntRange(0, 2).Draw(t, "more") == 0 {
				q += drawCliKey(t, o)
			}
		}
		if rapid.IntRange(0, 15).Draw(t, "nul") == 0 { // never part of a key without -u
			q = q[:len(q)/2] + "\x00" + q[len(q)/2:]
		}
		if strings.HasSuffix(q, "\r") {
			q += "_"
		}
		out = append(out, B(q))
	}
	return out
}

func genCli(t *rapid.T) Case {
	o := drawOpts(t)
	c := &cliCase{Opts: o}
	c.Lines = drawLines(t, o, rapid.SampledFrom([]int{4, 12, 40}).Draw(t, "max"))
	if !o.Sort {
		sortLines(c.Lines, o)
	}
	c.Queries = drawQueries(t, c.Lines, o)
	c.Lines = addBlanks(t, c.Lines)
	return c
}

func eachOpts(f func(o cliOpts)) {
	for i := 0; i < 64; i++ {
		f(cliOpts{Tab: i&1 != 0, Guide: i&2 != 0, Ranked: i&4 != 0, Index: i&8 != 0, Sort: i&16 != 0, Utfc: i&32 != 0, Named: i%3 == 0, CRLF: i%5 == 1})
	}
}

func fixedCli(tier string) []Case {
	var out []Case
	n := 0
	eachOpts(func(o cliOpts) {
		n++
		// empty lexicon
		out = append(out, &cliCase{Opts: o, Queries: []B{"", "a", "я"}})
		// generated ones of several hundred keys
		long := B(strings.Repeat("long line ", 7000+n)) // > 64 KiB
		mk := func(lex Lex, q ...B) {
			out = append(out, &cliCase{Opts: o, Lex: &lex, Queries: q})
		}
		mk(Lex{Shape: &Shape{Kind: "random", N: 300, Alpha: 7, MaxLen: 4, Seed: uint64(n)}, Mode: "mixed"}, "", "a", "ab", "zzz", "abcdef", "q")
		mk(Lex{Shape: &Shape{Kind: "utf8", N: 300, MaxLen: 4, Seed: uint64(n)}, Mode: "small"}, "", "а", "中", "aé", "ש", "ש中", "зa")
		if n == 36 || !o.Utfc && (n%4 == 1 || n%16 == 4 || tier == "thorough") { // slow with -u: UTF-C is quadratic
			mk(Lex{Keys: []B{"a", "b", long, long + "x", "zz"}, Vals: []int32{1, 2, 3, 4, 5}}, "a", long, long+"xy", "l", "zz", "")
		}
		if n == 1 || n == 20 || n == 14 || tier == "thorough" && n%5 == 0 && !o.Utfc { // a line of more than 1 MiB
			huge := B(strings.Repeat("z", 1<<20+n))
			mk(Lex{Keys: []B{"a", "b", huge}, Vals: []int32{1, 2, 3}}, "a", huge+"z", "b")
		}
		if n%16 == 1 || tier == "thorough" { // more than 10000 keys
			mk(Lex{Shape: &Shape{Kind: "counter", N: 23000, MaxLen: 10, Seed: 1}, Mode: "rank"}, "00123", "01", "02299")
		}
		if n == 11 || n == 46 || tier == "thorough" && o.Index && o.guided() && !o.Utfc { // an index of more than 2^17 keys
			mk(Lex{Shape: &Shape{Kind: "counter", N: 140000, MaxLen: 10, Seed: 2}, Mode: "rank"}, "00123", "131072", "139", "")
		}
		if o.Tab && n%16 == 2 { // a very long line
			out = append(out, &cliCase{Opts: o, Lines: []lexLine{{Key: "a", Value: "1"}, {Key: "b", Value: "2", Pad: 70<<20 + n}, {Key: "c", Value: "3"}}, Queries: []B{"a", "b", "c"}})
		}
		// keys of every length
		steps := 160
		if tier == "thorough" || n%8 == 3 {
			steps = 600
		}
		every := &cliCase{Opts: o, Lex: &Lex{Shape: &Shape{Kind: "steps", N: steps, Alpha: []int{0, 2, 7}[n%3], Seed: uint64(n)}, Mode: "rank"}, Queries: []B{"", "a", "b"}}
		lines := every.lines()
		for i := 0; i < 14; i++ {
			k := lines[len(lines)*i/14].Key
			every.Queries = append(every.Queries, k, k+"?")
		}
		out = append(out, every)
		if o.Sort && o.Tab && o.Guide && !o.Ranked && !o.Index || tier == "thorough" && n%8 == 5 { // more than 65536 lines
			mk(Lex{Shape: &Shape{Kind: "random", N: 90000, Alpha: 0, MaxLen: 6, Seed: 19}, Mode: "unique31"}, "a", "\x05", "\xff\xfe", "zz")
		}
		if n%32 == 2 || n == 5 || n == 12 || tier == "thorough" {
			mk(Lex{Shape: &Shape{Kind: "random", N: 20500, Alpha: 0, MaxLen: 6, Seed: 9}, Mode: "unique31"}, "a", "\x05", "\xff\xfe", "zz")
		}
	})
	return out
}

// ---- C18 ----

type cliFaultCase struct {
	Opts  cliOpts   `json:"opts"`
	Lines []lexLine `json:"lines"`
	// Fault: "" none (the outcome follows from the lexicon), "fsize" (write limit At/10000 of the size),
	// "cut" (dictionary file cut at At/10000, or at byte -At-1), "cutsweep" (every Stride-th byte),
	// "nolex", "lexdir", "nodictdir", "dictdir", "devfull", "nodict", "noquery", "querydir", "fsizesweep", "endless"
	Fault  string `json:"fault,omitempty"`
	At     int    `json:"at,omitempty"`
	Stride int    `json:"stride,omitempty"`
}

func (c *cliFaultCase) Run(s *Stats) error {
	dir := caseDir()
	defer os.RemoveAll(dir)
	o := c.Opts
	x := readLexicon(c.Lines, o)
	lex, dict, query := filepath.Join(dir, "lex"), filepath.Join(dir, "dict"), filepath.Join(dir, "query")
	writeFile(lex, lexiconText(c.Lines, o))
	writeFile(query, []byte("a\nb\n"))
	if err := os.Mkdir(filepath.Join(dir, "sub"), 0o755); err != nil {
		panic(inconclusive{err})
	}
	good := (x.sorted || o.Sort) && !x.badValue && !x.nulKey
	failing := func(what string, fsize int, args ...string) error {
		r, err := runTool(dir, fsize, args...)
		if err != nil {
			return err
		}
		if r.code == 0 {
			return fmt.Errorf("dawgtool %v ends with status 0 although %s", args, what)
		}
		s.Nontrivial(true)
		return nil
	}
	switch c.Fault {
	case "nolex":
		return failing("the lexicon does not exist", -1, o.args(true, "missing", "dict")...)
	case "lexdir":
		return failing("the lexicon cannot be read", -1, o.args(true, "sub", "dict")...)
	case "nodictdir":
		return failing("the output cannot be created", -1, o.args(true, "lex", "nowhere/dict")...)
	case "dictdir":
		return failing("the output is a directory", -1, o.args(true, "lex", "sub")...)
	case "devfull":
		// Through a link, so that a tool that removes or replaces its output touches only the scratch directory.
		out := filepath.Join(dir, "full")
		if err := os.Symlink("/dev/full", out); err != nil {
			panic(inconclusive{err})
		}
		err := failing("the output device is full", -1, o.args(true, "lex", "full")...)
		if fi, serr := os.Lstat(out); err != nil && serr == nil && fi.Mode().IsRegular() {
			return x.checkFile(out, o) // the output was replaced, not written to
		}
		return err
	case "endless":
		// The lines are followed by one of more than 2^31 bytes, all NUL: a reader that gives up
		// on it must not pass off the lines before as the whole lexicon.
		return endless(s, func() error {
			if err := os.Truncate(lex, 1<<31+1<<26); err != nil {
				panic(inconclusive{err})
			}
			return failing("the last line cannot be read, or has NUL bytes", -1, o.args(true, "lex", "dict")...)
		})
	case "nodict":
		return failing("the dictionary does not exist", -1, o.args(false, "query", "missing")...)
	}
	o.prepare(filepath.Join(dir, "dict"))
	r, err := runTool(dir, -1, o.args(true, "lex", "dict")...)
	if err != nil {
		return err
	}
	if !good {
		s.Nontrivial(true)
		s.Label("lexicon must be refused", true)
		if r.code == 0 {
			return fmt.Errorf("building (%v) ends with status 0 although the lexicon is unsorted (%v), has a bad value (%v) or a NUL (%v)", o.flags(), !x.sorted, x.badValue, x.nulKey)
		}
		return nil
	}
	if r.code != 0 {
		return fmt.Errorf("building a valid lexicon (%v) ends with status %d: %s", o.flags(), r.code, clip(r.stderr))
	}
	if err := x.checkFile(dict, o); err != nil {
		return fmt.Errorf("building (%v) ends with status 0: %w", o.flags(), err)
	}
	img, err := os.ReadFile(dict)
	if err != nil {
		panic(inconclusive{err})
	}
	cut := func(at int) error {
		writeFile(filepath.Join(dir, "cut"), img[:at])
		return failing(fmt.Sprintf("the dictionary file is cut at byte %d of %d", at, len(img)), -1, o.args(false, "query", "cut")...)
	}
	full := func(limit int) error {
		if limit >= len(img) {
			r, err := runTool(dir, limit, o.args(true, "lex", "out")...)
			if err != nil {
				return err
			}
			if r.code != 0 {
				panic(inconclusive{fmt.Errorf("the size-limited run fails with enough room: %s", r.stderr)})
			}
			return x.checkFile(filepath.Join(dir, "out"), o)
		}
		return failing(fmt.Sprintf("only %d of %d bytes of the dictionary could be written", limit, len(img)), limit, o.args(true, "lex", "out")...)
	}
	points := func() []int {
		// boundaries of the objects, and every Stride-th byte
		var ps []int
		bounds := []int{0, 4, len(img) - 1, len(img) / 2}
		pos := 0
		units := []int{4}
		if o.guided() {
			units = append(units, 2)
			if o.Index {
				units = append(units, 4)
			}
		}
		for _, u := range units {
			if n, _, _, err := takeUnits(img[pos:], u); err == nil {
				pos += 4 + n*u
				bounds = append(bounds, pos-2, pos-1, pos, pos+1, pos+3, pos+4, pos+5)
			}
		}
		seen := map[int]bool{}
		add := func(p int) {
			if p >= 0 && p < len(img) && !seen[p] {
				seen[p] = true
				ps = append(ps, p)
			}
		}
		for _, b := range bounds {
			add(b)
		}
		if c.Stride > 0 {
			for p := c.At % c.Stride; p < len(img); p += c.Stride {
				add(p)
			}
		}
		return ps
	}
	switch c.Fault {
	case "noquery":
		return failing("the query file does not exist", -1, o.args(false, "missing", "dict")...)
	case "querydir":
		return failing("the query file cannot be read", -1, o.args(false, "sub", "dict")...)
	case "cut":
		at := faultOffset(c.At, len(img))
		if at >= 0 && at < len(img) {
			return cut(at)
		}
	case "fsize":
		at := faultOffset(c.At, len(img))
		if at < 0 {
			at = len(img)
		}
		return full(at)
	case "cutsweep":
		ps := points()
		for _, p := range ps {
			if err := cut(p); err != nil {
				return err
			}
		}
		s.Sweep(int64(len(ps)), int64(len(ps)))
	case "fsizesweep":
		ps := points()
		if err := full(len(img)); err != nil {
			return err
		}
		for _, p := range ps {
			if err := full(p); err != nil {
				return err
			}
		}
		s.Sweep(int64(len(ps)), int64(len(ps)))
	}
	s.Label("build succeeds, file checked", c.Fault == "")
	return nil
}

var endlessMu sync.Mutex

// endless runs a case that needs gigabytes of memory, one at a time. Running out of memory or time is no success
// of the tool either: only its ending with status 0 is reported.
func endless(s *Stats, f func() error) (err error) {
	endlessMu.Lock()
	defer endlessMu.Unlock()
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(inconclusive); !ok {
				panic(p)
			}
			err = nil
		}
	}()
	err = f()
	if err != nil && !strings.Contains(err.Error(), "ends with status 0") {
		err = nil
	}
	s.Label("a line of more than 2^31 bytes", true)
	return err
}

func genCliFault(t *rapid.T) Case {
	o := drawOpts(t)
	c := &cliFaultCase{Opts: o}
	c.Lines = drawLines(t, o, rapid.SampledFrom([]int{4, 12}).Draw(t, "max"))
	kind := rapid.IntRange(0, 9).Draw(t, "kind")
	if !o.Sort && kind > 2 {
		sortLines(c.Lines, o)
	}
	switch kind {
	case 0, 1, 2: // as drawn: mostly unsorted
	case 3, 4: // a bad value, or none
		if o.Tab && len(c.Lines) > 0 && kind == 4 && rapid.Bool().Draw(t, "notab") {
			if l := &c.Lines[rapid.IntRange(0, len(c.Lines)-1).Draw(t, "bad")]; l.Key != "" {
				l.NoTab = true
			}
		} else if o.Tab && len(c.Lines) > 0 {
			c.Lines[rapid.IntRange(0, len(c.Lines)-1).Draw(t, "bad")].Value = rapid.SampledFrom([]string{"", "x", "1.5", "99999999999999999999", "-99999999999999999999", "5 ", " 5", "0x10", "1e3", "--1", "²", "5a"}).Draw(t, "value")
		}
	case 5: // swap two neighbours
		if len(c.Lines) > 1 {
			i := rapid.IntRange(0, len(c.Lines)-2).Draw(t, "swap")
			c.Lines[i], c.Lines[i+1] = c.Lines[i+1], c.Lines[i]
		}
	case 6:
		c.Fault = rapid.SampledFrom([]string{"nolex", "lexdir", "nodictdir", "dictdir", "devfull", "nodict", "noquery", "querydir"}).Draw(t, "fault")
	case 7:
		c.Fault, c.At = "fsize", rapid.IntRange(0, 10000).Draw(t, "at")
	case 8:
		c.Fault, c.At = "cut", rapid.IntRange(0, 9999).Draw(t, "at")
	case 9: // NUL in a key
		if len(c.Lines) > 0 {
			i := rapid.IntRange(0, len(c.Lines)-1).Draw(t, "nul")
			c.Lines[i].Key += "\x00" + B(drawCliKey(t, o))
			if !o.Sort {
				sortLines(c.Lines, o)
			}
		}
	}
	c.Lines = addBlanks(t, c.Lines)
	return c
}

func fixedCliFault(tier string) []Case {
	var out []Case
	n := 0
	stride := 211
	if tier == "thorough" {
		stride = 1
	}
	words := []string{"a", "ab", "abc", "b", "bd", "é", "я", "яя", "中", "中文"}
	eachOpts(func(o cliOpts) {
		n++
		var lines []lexLine
		for i, w := range words {
			lines = append(lines, lexLine{Key: B(w), Value: strconv.Itoa(i * i % 7)})
		}
		if !o.Tab {
			for i := range lines {
				lines[i].Value = ""
			}
		}
		sortLines(lines, o)
		base := cliFaultCase{Opts: o, Lines: lines}
		mk := func(fault string, stride int) {
			c := base
			c.Fault, c.Stride, c.At = fault, stride, n
			out = append(out, &c)
		}
		for _, f := range []string{"", "nolex", "lexdir", "nodictdir", "dictdir", "devfull", "nodict", "noquery", "querydir"} {
			mk(f, 0)
		}
		if !o.Sort || tier == "thorough" {
			mk("cutsweep", stride)
			mk("fsizesweep", stride)
		}
		// reversed: must be refused unless sorted
		rev := base
		rev.Lines = nil
		for i := range lines {
			rev.Lines = append(rev.Lines, lines[len(lines)-1-i])
		}
		out = append(out, &rev)
		// empty lexicon
		out = append(out, &cliFaultCase{Opts: o}, &cliFaultCase{Opts: o, Fault: "cutsweep", Stride: 97})
		// one line out of order at the very end of a large lexicon
		big := cliFaultCase{Opts: o}
		for i := 0; i < 400; i++ {
			l := lexLine{Key: B(fmt.Sprintf("k%04d", i))}
			if o.Tab {
				l.Value = strconv.Itoa(i)
			}
			big.Lines = append(big.Lines, l)
		}
		late := big
		late.Lines = append(append([]lexLine{}, big.Lines...), lexLine{Key: "k0399", Value: big.Lines[0].Value}, lexLine{Key: "k0398", Value: big.Lines[0].Value})
		out = append(out, &late)
		if o.Tab { // a line without a value
			for _, at := range []int{0, len(lines) / 2, len(lines) - 1} {
				bare := base
				bare.Lines = append([]lexLine{}, lines...)
				bare.Lines[at].NoTab = true
				out = append(out, &bare)
			}
			if n%8 == 2 || tier == "thorough" && n%2 == 0 { // a very long line
				wide := base
				wide.Lines = append([]lexLine{}, lines...)
				wide.Lines[3].Pad = 20<<20 + n
				out = append(out, &wide)
			}
		}
		if n == 1 || n == 17 {
			mk("endless", 0)
		}
		long := big // a line longer than a reader's buffer, at the end
		long.Lines = append(append([]lexLine{}, big.Lines...), lexLine{Key: B(strings.Repeat("z", 70000+n)), Value: big.Lines[0].Value}, lexLine{Key: B(strings.Repeat("z", 200000)), Value: big.Lines[0].Value})
		if !o.Utfc || n == 36 {
			out = append(out, &long)
		}
	})
	return out
}

func init() {
	register(&Prop{
		ID: "C17", Rule: "at least two keys and at least one query with a match",
		New: func() Case { return &cliCase{} }, Quick: 12000, Thorough: 500000,
		Gen: genCli, Fixed: fixedCli,
		Assumptions: []string{"keys have no newline or final CR, and without -u no NUL (no tab with -t, no ';' with -r so that the output can be split); with -u, bytes that are not valid UTF-8 count as U+FFFD each"},
	})
	register(&Prop{
		ID: "C18", Rule: "a fault was injected or the lexicon must be refused; every enumerated cut or write limit counts",
		New: func() Case { return &cliFaultCase{} }, Quick: 10000, Thorough: 100000,
		Gen: genCliFault, Fixed: fixedCliFault,
		Assumptions: []string{"write faults are injected with RLIMIT_FSIZE and /dev/full"},
	})
}
