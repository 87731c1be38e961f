package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"
	"text/scanner"
	"unicode"

	geo "github.com/mmadfox/go-geoql-parser"
	fork "github.com/mmadfox/go-geoql-parser/scanner"
)

func init() {
	register(&Prop{id: "C14",
		rule: "a text, a way to deliver it in pieces and a sequence of calls; non-trivial when it has five tokens or more",
		parts: []*Part{
			{name: "tokens", n: 150000, about: "kind, literal, text and offset of every token of a document against the reference lexer", gen: genTokens, judge: judgeTokens},
			{name: "soup", n: 150000, about: "the same for sequences of tokens that need not be a document", gen: genTokenSoup, judge: judgeTokens},
			{name: "calls", n: 120000, about: "Scan, Reset and Unwind in any order against a model with one token of memory", gen: genCalls, judge: judgeTokens},
			{name: "broken readers", n: 60000, about: "a reader that fails: the tokens before it are right and the failure is reported", gen: genBrokenReader, judge: judgeBrokenReader},
			{name: "precedence", about: "the precedence of every token", enum: enumTokens, judge: judgeTokenTable},
		}})
	register(&Prop{id: "C15",
		rule: "a text without the spellings the fork dropped, scanner settings, a way to deliver the text in pieces and a sequence of calls; non-trivial when five tokens or more are read",
		parts: []*Part{
			{name: "scan", n: 150000, about: "every token of a text: kind, text, position, errors, against the standard library's text/scanner", gen: genScan, judge: judgeScan},
			{name: "calls", n: 150000, about: "Scan, Next, Peek, Pos and TokenText in any order, with any mode, blanks and identifier rule", gen: genScanCalls, judge: judgeScan},
			{name: "pieces", n: 60000, about: "long texts around the size of the buffer", gen: genScanLong, judge: judgeScan},
			{name: "broken readers", n: 40000, about: "the same with a reader that fails on the way, and the failure is told", gen: genScanBroken, judge: judgeScan},
			{name: "complaints", n: 15000, about: "what is printed when no error function is set", gen: genScan, judge: judgeStderr},
		}})
}

const filth = "9 \"a\x80\x00*/"

// chunkReader delivers a text in pieces.
type chunkReader struct {
	s     string
	sizes []int
	i     int
	empty bool // now and then a read without a byte
	eof   bool // the end together with the last bytes
	fail  int  // offset of a failure, <0 none
	err   error
	at    int

	once     bool // the failure is told once, then comes the end
	told     bool
	scribble bool // what is behind the bytes read is written over
}

func (r *chunkReader) Read(p []byte) (int, error) {
	if r.scribble {
		for i := range p {
			p[i] = filth[(i+r.at)%len(filth)]
		}
	}
	if r.fail >= 0 && r.at >= r.fail {
		if r.once && r.told {
			return 0, io.EOF
		}
		r.told = true
		return 0, r.err
	}
	if r.s == "" {
		return 0, io.EOF
	}
	n := len(r.s)
	if len(r.sizes) > 0 {
		n = r.sizes[r.i%len(r.sizes)]
		r.i++
	}
	if n == 0 {
		if r.empty {
			r.empty = false
			return 0, nil
		}
		n = 1
	}
	r.empty = true
	if n > len(p) {
		n = len(p)
	}
	if n > len(r.s) {
		n = len(r.s)
	}
	if r.fail >= 0 && r.at+n > r.fail {
		n = r.fail - r.at
	}
	copy(p, r.s[:n])
	r.s = r.s[n:]
	r.at += n
	if r.fail >= 0 && r.at >= r.fail && r.eof {
		r.told = true
		return n, r.err
	}
	if r.s == "" && r.eof && r.fail < 0 {
		return n, io.EOF
	}
	return n, nil
}

// readFunc is a reader that cannot be compared or hashed.
type readFunc func(p []byte) (int, error)

func (f readFunc) Read(p []byte) (int, error) { return f(p) }

// readStruct is a reader handed over by value.
type readStruct struct {
	r    *chunkReader
	tags []string
}

func (r readStruct) Read(p []byte) (int, error) { return r.r.Read(p) }

// newReader builds the reader of a case from N[0] (style) and N[1] (seed).
// Every one of them yields src and nothing else, wherever it comes from.
func newReader(src string, style, seed int64) io.Reader {
	r := &chunkReader{s: src, fail: -1, eof: seed&1 == 1, empty: true}
	before := strings.Repeat("when a > 1; \"", 1+int(seed%5)) + strings.Repeat("\n", int(seed/5%4))
	skip := func(r io.Reader) io.Reader {
		if n, err := io.CopyN(io.Discard, onlyRead{r}, int64(len(before))); err != nil || n != int64(len(before)) {
			panic(fmt.Sprint("HARNESS: skipping: ", n, err))
		}
		return r
	}
	cut := 0
	if src != "" {
		cut = int(seed) % len(src)
	}
	if style >= 1000 { // one that fails
		r.fail, r.err = min(int(style-1000), len(src)), errors.New("reader broke")
		r.sizes = [][]int{nil, {1}, {1 + int(seed/4%9), 0, 2}, {1000, 24, 1}}[seed/2%4]
		r.once = seed/8%2 == 1
		return r
	}
	switch style {
	default:
		return strings.NewReader(src)
	case 1:
		r.sizes = []int{1}
	case 2:
		r.sizes = []int{1 + int(seed%7), 0, 1 + int(seed/7%13)}
	case 3:
		r.sizes = []int{1024 - int(seed%3), 1, 2}
	case 4:
		r.sizes = []int{1 + int(seed%1500), 0, 1 + int(seed/3%40)}
	case 5: // readers that stand in the middle of what they have
		return skip(strings.NewReader(before + src))
	case 6:
		return skip(bytes.NewReader([]byte(before + src)))
	case 7:
		return skip(bytes.NewBufferString(before + src))
	case 8:
		b := bufio.NewReaderSize(strings.NewReader(before+src), 16+int(seed%100))
		skip(b)
		b.Peek(int(seed % 20))
		return b
	case 9:
		x := io.NewSectionReader(strings.NewReader(before+src+before), int64(len(before)), int64(len(src)))
		if seed&2 == 0 {
			x = io.NewSectionReader(strings.NewReader("when "+before+src+before), 5, int64(len(before+src)))
			skip(x)
		}
		return x
	case 10:
		return io.LimitReader(strings.NewReader(src+before), int64(len(src)))
	case 11:
		return io.MultiReader(strings.NewReader(src[:cut]), strings.NewReader(""), bytes.NewReader([]byte(src[cut:])))
	case 12: // kinds of values
		r.sizes = []int{1 + int(seed%1500), 3}
		return readFunc(r.Read)
	case 13:
		r.sizes = []int{1 + int(seed%1500), 3}
		return readStruct{r, nil}
	case 14: // the rest of the room is the reader's to scribble on
		r.sizes, r.scribble = []int{1 + int(seed%700), 1 + int(seed%5)}, true
	case 15:
		return io.TeeReader(strings.NewReader(src), io.Discard)
	case 16: // after something was put back
		b := strings.NewReader(before + src)
		skip(b)
		if src != "" {
			b.ReadByte()
			b.UnreadByte()
		}
		return b
	case 17:
		p, w := io.Pipe()
		go func() {
			io.WriteString(w, src[:cut])
			io.WriteString(w, src[cut:])
			w.Close()
		}()
		return p
	case 18:
		f, err := os.CreateTemp("", "reader")
		if err == nil {
			os.Remove(f.Name())
			_, err = io.WriteString(f, before+src)
		}
		if err == nil {
			_, err = f.Seek(int64(len(before)), io.SeekStart)
		}
		if err != nil {
			panic("HARNESS: " + err.Error())
		}
		return f
	}
	return r
}

// onlyRead hides everything of a reader but Read.
type onlyRead struct{ io.Reader }

func (g *G) readerSpec() []int64 {
	k := g.n(5)
	if g.p(20) {
		k = 5 + g.n(12)
		if g.p(8) {
			k = 17 + g.n(2)
		}
	}
	return []int64{int64(k), int64(g.bits(14))}
}

// want is one expected token.
type wantTok struct {
	tok   geo.Token
	lit   string
	text  string
	off   int
	noLit bool
}

var wordTokens = map[string]geo.Token{
	"trigger": geo.TRIGGER, "set": geo.SET, "when": geo.WHEN, "repeat": geo.REPEAT, "reset": geo.RESET,
	"rem": geo.REM, "mod": geo.REM, "or": geo.OR, "and": geo.AND, "eq": geo.EQL, "in": geo.IN, "range": geo.RANGE,
	"nearby": geo.NEARBY, "intersects": geo.INTERSECTS, "time": geo.TIME, "date": geo.DATE, "weekday": geo.WEEKDAY, "month": geo.MONTH,
	"point": geo.GEOMETRY_POINT, "multipoint": geo.GEOMETRY_MULTIPOINT, "line": geo.GEOMETRY_LINE, "multiline": geo.GEOMETRY_MULTILINE,
	"polygon": geo.GEOMETRY_POLYGON, "multipolygon": geo.GEOMETRY_MULTIPOLYGON, "collection": geo.GEOMETRY_COLLECTION,
	"true": geo.BOOLEAN, "false": geo.BOOLEAN, "up": geo.BOOLEAN, "down": geo.BOOLEAN,
}

var notTokens = map[string]geo.Token{"eq": geo.NOT_EQ, "in": geo.NOT_IN, "nearby": geo.NOT_NEARBY, "intersects": geo.NOT_INTERSECTS}

var opTokens = map[string]geo.Token{
	"=": geo.ASSIGN, ";": geo.SEMICOLON, "(": geo.LPAREN, ")": geo.RPAREN, ",": geo.COMMA, ">=": geo.GEQ, "<=": geo.LEQ, ">": geo.GTR, "<": geo.LSS,
	"[": geo.LBRACK, "]": geo.RBRACK, "{": geo.LBRACE, "}": geo.RBRACE, "/": geo.QUO, "*": geo.MUL, "-": geo.SUB, "+": geo.ADD, ":": geo.COLON,
	"==": geo.LEQL, ".": geo.PERIOD, "..": geo.RANGE, "!=": geo.LNEQ, "@": geo.IDENT,
}

// wantTokens derives the tokens of a text; ok is false where the language does
// not settle them.
func wantTokens(src string) (out []wantTok, ok bool) {
	lx := refLex(src)
	if lx.bad != "" || lx.soft || lx.bom {
		return nil, false
	}
	for i := 0; i < len(lx.toks); i++ {
		t := lx.toks[i]
		w := wantTok{lit: strings.ToLower(t.text), text: t.text, off: t.off}
		switch t.k {
		case tEOF:
			w.tok = geo.EOF
		case tInt:
			w.tok = geo.INT
		case tFloat:
			w.tok = geo.FLOAT
		case tString:
			w.tok = geo.STRING
		case tOp:
			w.tok = opTokens[t.text] // ILLEGAL when it is none
			w.noLit = t.text == ".."
		case tWord:
			if t.low == "not" {
				n := lx.toks[i+1]
				tok, isOp := notTokens[n.low]
				if n.k == tWord && !isOp || n.k == tInt || n.k == tString {
					// no operator, and nothing else that has a name
					w.tok, w.noLit, w.text = geo.ILLEGAL, true, t.text+" "+n.text
					i++
					break
				}
				if n.k != tWord {
					return nil, false
				}
				w.tok, w.lit, w.text = tok, "not "+n.low, t.text+" "+n.text
				i++
				break
			}
			var isKw bool
			if w.tok, isKw = wordTokens[t.low]; !isKw {
				w.tok = geo.SELECTOR
			}
		}
		out = append(out, w)
	}
	return out, true
}

func genTokens(g *G) *Case {
	d := g.doc()
	c := one(g.render(d, g.style()))
	c.N = g.readerSpec()
	return c
}

func (g *G) tokenText() string {
	var b strings.Builder
	for i, k := 0, 1+g.n(30); i < k; i++ {
		switch g.n(8) {
		case 0:
			b.WriteString(g.name())
		case 1:
			b.WriteString(g.floatLit())
		case 2:
			b.WriteString(pick(g, "not in", "NOT eq", "not\tnearby", "Not /*c*/ intersects", "not\n\nin"))
		case 3:
			b.WriteString(pick(g, "#", "$", "?", "!", "№", "—", "€", "~", "|", "𝄞", "\u00a0"))
		case 4:
			b.WriteString(`"` + g.strContent() + `"`)
		case 5:
			b.WriteRune(g.rune())
		default:
			b.WriteString(g.word())
		}
		switch g.n(3) {
		case 0:
			b.WriteString(gaps[g.n(len(gaps))])
		case 1:
			b.WriteByte(' ')
		}
		if g.p(2) {
			b.WriteString(strings.Repeat(" ", g.size()))
		}
		if g.p(3) {
			b.WriteString(g.comment())
		}
	}
	return b.String()
}

func genTokenSoup(g *G) *Case {
	c := one(g.tokenText())
	c.N = g.readerSpec()
	return c
}

func genCalls(g *G) *Case {
	c := genTokenSoup(g)
	if g.bit() {
		c = genTokens(g)
		if len(c.In[0]) > 400 {
			c = genTokenSoup(g)
		}
	}
	for i, k := 0, 5+g.n(60); i < k; i++ {
		c.N = append(c.N, int64(pick(g, 0, 0, 0, 0, 1, 1, 2, 3)))
	}
	return c
}

func judgeTokens(c *Case, o *Obs) error {
	src := string(c.In[0])
	want, ok := wantTokens(src)
	if !ok {
		return nil
	}
	if len(want) >= 5 {
		o.nonTrivial()
	}
	o.hitIf(len(src) > 1024, "over a buffer")
	t := geo.NewTokenizer(newReader(src, c.N[0], c.N[1]))
	at := -1
	scan := func(back bool) error {
		if !back && at+1 < len(want) {
			at++
		}
		tok, lit := t.Scan()
		w := want[at]
		if tok != w.tok || !w.noLit && lit != w.lit {
			return fmt.Errorf("token %d at offset %d is %d %q, want %d %q", at, w.off, tok, lit, w.tok, w.lit)
		}
		return nil
	}
	see := func() error {
		w := want[at]
		if int(t.Offset()) != w.off {
			return fmt.Errorf("token %d %q has offset %d, want %d", at, w.text, t.Offset(), w.off)
		}
		if t.TokenText() != w.text {
			return fmt.Errorf("token %d at offset %d has text %q, want %q", at, w.off, t.TokenText(), w.text)
		}
		return nil
	}
	calls := c.N[2:]
	if len(calls) == 0 {
		for i := 0; i < len(want)+2; i++ {
			if err := scan(false); err != nil {
				return err
			}
			if err := see(); err != nil {
				return err
			}
		}
	} else {
		if err := scan(false); err != nil {
			return err
		}
		back := false
		for _, k := range calls {
			switch k {
			case 0:
				if err := scan(back); err != nil {
					return fmt.Errorf("after %v: %w", calls, err)
				}
				o.hitIf(back, "scanned again")
				back = false
			case 1:
				t.Reset()
				back = true
			case 2:
				t.Unwind()
				o.hitIf(back, "unwound")
				back = false
			}
			if err := see(); err != nil {
				return fmt.Errorf("after %v: %w", calls, err)
			}
		}
	}
	if t.Err() != nil || t.ErrorCount() != 0 {
		return fmt.Errorf("%d errors, %v, in a text without one", t.ErrorCount(), t.Err())
	}
	return nil
}

func genBrokenReader(g *G) *Case {
	c := genTokenSoup(g)
	if g.bit() {
		c = genTokens(g)
	}
	n := len(c.In[0])
	c.N = append(c.N, int64(g.n(n+1)))
	return c
}

func judgeBrokenReader(c *Case, o *Obs) error {
	src := string(c.In[0])
	fail := int(c.N[2])
	want, ok := wantTokens(src)
	if !ok || fail > len(src) {
		return nil
	}
	r, isChunk := newReader(src, c.N[0], c.N[1]).(*chunkReader)
	if !isChunk {
		r = &chunkReader{s: src}
	}
	r.fail, r.err = fail, errors.New("reader broke")
	r.once = c.N[1]/8%2 == 1
	t := geo.NewTokenizer(r)
	n := 0
	for i := 0; i < len(want)+3; i++ {
		tok, lit := t.Scan()
		if tok == geo.EOF {
			break
		}
		w := want[min(i, len(want)-1)]
		end := len(src)
		if i+1 < len(want) {
			end = want[i+1].off
		}
		if end >= fail { // this token touches the place of the failure
			break
		}
		n++
		if tok != w.tok || !w.noLit && lit != w.lit || int(t.Offset()) != w.off {
			return fmt.Errorf("token %d is %d %q at %d, want %d %q at %d; the reader fails at %d", i, tok, lit, t.Offset(), w.tok, w.lit, w.off, fail)
		}
	}
	for i := 0; ; i++ {
		if tok, _ := t.Scan(); tok == geo.EOF {
			break
		}
		if i > len(want)+5 {
			return errors.New("no end after the failure of the reader")
		}
	}
	if n >= 2 {
		o.nonTrivial()
	}
	if t.Err() == nil || t.ErrorCount() == 0 {
		return fmt.Errorf("the reader failed at offset %d, the tokenizer reports %d errors, %v", fail, t.ErrorCount(), t.Err())
	}
	return nil
}

func enumTokens(yield func(*Case) bool) {
	for i := 0; i < 256; i++ {
		if !yield(&Case{N: []int64{int64(i)}}) {
			return
		}
	}
}

func judgeTokenTable(c *Case, o *Obs) error {
	tok := geo.Token(c.N[0])
	want := 0
	spell := ""
	for _, op := range binOps {
		if op == tok {
			o.nonTrivial()
			want = precOf(op)
			spell = opWords(op)[0]
		}
	}
	if got := tok.Precedence(); got != want {
		return fmt.Errorf("token %d %q has precedence %d, want %d", tok, geo.KeywordString(tok), got, want)
	}
	if spell != "" {
		// the spelling of an operator scans as that operator
		s := geo.KeywordString(tok)
		t := geo.NewTokenizer(strings.NewReader(s))
		if got, _ := t.Scan(); got != tok || !strings.EqualFold(s, spell) {
			return fmt.Errorf("operator %q has the keyword string %q, which scans as %q", spell, s, geo.KeywordString(got))
		}
	}
	return nil
}

// ---- C15 ---------------------------------------------------------------------

var scanWords = []string{
	"a", "foo", "_x1", "Größe", "速度", "1", "12", "90", "1.5", "7.", "3.25", "\"str\"", `"a\n\x41\101\u00e9\U0001F600"`, `"\""`, "'a'", `'\n'`, "'ab'", "''", "`raw`", "`a\nb`", "\"open", "'", "`open",
	"// line\n", "/* c */", "/**/", "/* open", "/", "/=", "*", "+", "-", ".", "..", "=", "==", "<=", "{", "}", "[", "]", "(", ")", ":", ";", ",", "@", "#", "!", "\\", "$",
	"\n", "\n\n", "\r\n", "\t", " ", "\x00", "\x80", "\xff\xfe", "\xe2\x82", "é", "\u2028", "\ufeff", "𝄞", "\x01", `"\q"`, `"\x4"`, `"\u12"`, `"\400"`, "\v", "\x1f",
}

func (g *G) scanText(n int) string {
	var b strings.Builder
	for b.Len() < n {
		w := scanWords[g.n(len(scanWords))]
		if g.p(5) {
			w = g.longName(g.size())
		}
		if g.p(3) {
			w = `"` + strings.Repeat(pick(g, "x", "é", " ", "ab"), g.size()) + `"`
		}
		if g.p(20) {
			b.WriteString(gaps[g.n(len(gaps))])
		}
		if g.p(8) {
			w = string(g.rune())
		}
		if b.Len() > 0 {
			last := b.String()[b.Len()-1]
			first := w[0]
			// the fork has plain decimal numbers only, and dots never start one
			if isDigit(last) && (wordByte(first) || first == '.') || last == '.' && (isDigit(first) || wordByte(first)) ||
				(last == '_' || last >= 0x80 || wordByte(last)) && isDigit(first) {
				b.WriteByte(' ')
			}
		}
		b.WriteString(w)
	}
	return b.String()
}

var scanModes = []uint{
	scanner.GoTokens,
	scanner.ScanIdents | scanner.ScanFloats | scanner.ScanStrings,
	scanner.ScanIdents | scanner.ScanFloats | scanner.ScanChars | scanner.ScanStrings | scanner.ScanRawStrings | scanner.ScanComments,
	scanner.ScanIdents, scanner.ScanFloats, scanner.ScanStrings | scanner.ScanComments | scanner.SkipComments, 0, scanner.ScanChars | scanner.ScanRawStrings | scanner.ScanIdents,
}

// N: reader(2), mode, whitespace, identifier rule, calls...
func genScan(g *G) *Case {
	c := one(g.scanText(g.n(80)))
	c.N = append(g.readerSpec(), 0, 0, 0)
	if g.p(20) {
		c.N[2] = int64(g.n(len(scanModes)))
	}
	return c
}

func genScanLong(g *G) *Case {
	c := one(strings.Repeat(pick(g, " ", "x", "é", "\n", "9 ", "\"\" "), pick(g, 1000, 1010, 1015, 2040)+g.n(30)) + " " + g.scanText(g.n(60)))
	c.N = append(g.readerSpec(), 0, 0, 0)
	return c
}

func genScanCalls(g *G) *Case {
	c := one(g.scanText(g.n(80)))
	if g.p(10) {
		c = genScanLong(g)
		c.N = nil
	}
	c.N = append(g.readerSpec(), int64(g.n(len(scanModes))), int64(g.n(4)), int64(g.n(4)))
	if g.p(20) {
		c.N[2] = int64(8 + g.n(1017))
	}
	if g.p(10) {
		c.N[3] = int64(g.n(1 << 14))
	}
	if g.p(20) {
		c.N[4] = int64(g.n(200))
	}
	for i, k := 0, 4+g.n(60); i < k; i++ {
		c.N = append(c.N, int64(pick(g, 0, 0, 0, 0, 1, 1, 2, 3, 4, 5, 6, 0)))
		if g.p(2) {
			c.N[len(c.N)-1] = 7
		}
		if g.p(2) {
			c.N[len(c.N)-1] = 1000 + int64(g.n(pick(g, 12, 30, 600)))
		}
	}
	return c
}

// genScanBroken delivers a text by a reader that fails.
func genScanBroken(g *G) *Case {
	c := genScan(g)
	if g.bit() {
		c = genScanCalls(g)
	}
	c.N[0] = 1000 + int64(g.n(len(c.In[0])+1))
	return c
}

func blanks(k int64) uint64 {
	switch k {
	case 1:
		return 1 << ' '
	case 2:
		return 0
	case 3:
		return 1<<'\t' | 1<<' ' | 1<<'\r' | 1<<'\v'
	}
	if k > 3 { // any set of them
		m := uint64(k) * 0x9e3779b97f4a7c15
		return (m ^ m>>31) & ((m << 7) ^ m>>13) &^ (1 << '/')
	}
	return scanner.GoWhitespace
}

// scanMode is one of the modes in use or any other.
func scanMode(k int64) uint {
	if k < int64(len(scanModes)) {
		return scanModes[k]
	}
	return uint(k) & (scanner.GoTokens | scanner.ScanInts)
}

func identRule(k int64) func(ch rune, i int) bool {
	if k > 3 { // any set of characters, with a place or without
		return func(ch rune, i int) bool {
			h := (uint64(ch)*0x9e3779b97f4a7c15 + uint64(k)*0xbf58476d1ce4e5b9) >> 40
			if k%3 == 0 {
				h += uint64(i % int(2+k%5))
			}
			return ch >= 0 && h%uint64(2+k%4) == 0
		}
	}
	switch k {
	case 1:
		return func(ch rune, i int) bool { return ch == '_' || unicode.IsLetter(ch) || unicode.IsDigit(ch) && i > 0 }
	case 2:
		return func(ch rune, i int) bool { return ch == '$' || ch == '-' && i > 0 || ch >= 'a' && ch <= 'z' }
	case 3:
		return func(ch rune, i int) bool { return ch >= 'a' && ch <= 'z' && i < 3 || ch == '#' && i == 0 }
	}
	return nil
}

// plainNumber reports whether s is a number both scanners have.
func plainNumber(s string) bool {
	if strings.Trim(s, "0123456789.") != "" || s[0] == '.' {
		return false
	}
	return s[0] != '0' || len(s) == 1 || s[1] == '.'
}

func judgeScan(c *Case, o *Obs) error {
	src := string(c.In[0])
	var a fork.Scanner
	var b scanner.Scanner
	a.Init(newReader(src, c.N[0], c.N[1]))
	b.Init(newReader(src, c.N[0], c.N[1]))
	var ea, eb []string
	// when a failure of the reader shows, and how often, is up to the size of
	// the buffer
	broken := c.N[0] >= 1000
	fails := [2]int{}
	listen := func() {
		a.Error = func(s *fork.Scanner, msg string) {
			if broken && msg == "reader broke" {
				fails[0]++
				return
			}
			if len(src)%2 == 1 {
				msg += " at " + s.TokenText()
			}
			ea = append(ea, fmt.Sprintf("%s at %d:%d:%d pos %d", msg, s.Offset, s.Line, s.Column, s.Pos().Offset))
		}
		b.Error = func(s *scanner.Scanner, msg string) {
			if broken && msg == "reader broke" {
				fails[1]++
				return
			}
			if len(src)%2 == 1 {
				msg += " at " + s.TokenText()
			}
			eb = append(eb, fmt.Sprintf("%s at %d:%d:%d pos %d", msg, s.Offset, s.Line, s.Column, s.Pos().Offset))
		}
	}
	listen()
	mode := scanMode(c.N[2])
	a.Mode, b.Mode = mode, mode
	a.Whitespace, b.Whitespace = blanks(c.N[3]), blanks(c.N[3])
	a.IsIdentRune, b.IsIdentRune = identRule(c.N[4]), identRule(c.N[4])
	if len(src)%3 > 0 {
		a.Filename, b.Filename = "f", "f"
	}
	calls := c.N[5:]
	n := 0
	compare := func(what string, i int, x, y any) error {
		if x != y {
			return fmt.Errorf("%s after call %d of %v: %#v, text/scanner gives %#v", what, i, calls, x, y)
		}
		return nil
	}
	for i := 0; ; i++ {
		k := int64(0)
		if len(calls) > 0 {
			if i >= len(calls) {
				break
			}
			k = calls[i]
		}
		end := false
		var err error
		switch k {
		case 1:
			err = compare("Next", i, a.Next(), b.Next())
		case 2:
			err = compare("Peek", i, a.Peek(), b.Peek())
		case 3:
			err = compare("Pos", i, scanner.Position(a.Pos()), b.Pos())
		case 4:
			err = compare("validity", i, a.IsValid(), b.IsValid())
		case 5:
			err = compare("Position", i, a.Position.String(), b.Position.String())
		case 6:
			err = compare("TokenText", i, a.TokenText(), b.TokenText())
		case 7: // from the start, with what is left of the settings
			fails = [2]int{}
			a.Init(newReader(src, c.N[0], c.N[1]))
			b.Init(newReader(src, c.N[0], c.N[1]))
			listen()
			if err = compare("settings", i, fmt.Sprint(a.Mode, a.Whitespace, a.Filename, a.IsIdentRune == nil), fmt.Sprint(b.Mode, b.Whitespace, b.Filename, b.IsIdentRune == nil)); err == nil {
				err = compare("TokenText", i, a.TokenText(), b.TokenText())
			}
		default:
			if k >= 1000 { // the settings change on the way
				switch v := (k - 1000) / 3; k % 3 {
				case 0:
					a.Mode, b.Mode = scanMode(v), scanMode(v)
				case 1:
					a.Whitespace, b.Whitespace = blanks(v), blanks(v)
				default:
					a.IsIdentRune, b.IsIdentRune = identRule(v), identRule(v)
				}
				o.hit("settings changed")
				break
			}
			x, y := a.Scan(), b.Scan()
			n++
			end = y == scanner.EOF
			if (y == scanner.Int || y == scanner.Float) && !plainNumber(b.TokenText()) {
				o.hit("ends at a number of another kind")
				return nil
			}
			if err = compare("token", i, x, y); err == nil {
				err = compare("name of the token", i, fork.TokenString(x), scanner.TokenString(y))
			}
			if err == nil {
				text := b.TokenText()
				for turn := 0; turn < 3 && err == nil; turn++ {
					err = compare([]string{"text", "text asked for again", "text asked for a third time"}[turn], i, a.TokenText(), text)
				}
				if err == nil {
					err = compare("position", i, scanner.Position(a.Position), b.Position)
				}
			}
		}
		if err == nil {
			err = compare("place", i, scanner.Position(a.Pos()), b.Pos())
		}
		if err == nil {
			err = compare("errors", i, len(ea), len(eb))
		}
		for k := 0; err == nil && k < len(ea); k++ {
			err = compare("error", i, ea[k], eb[k])
		}
		if err == nil {
			err = compare("error count", i, a.ErrorCount-fails[0], b.ErrorCount-fails[1])
		}
		if err == nil && broken && end && (fails[0] == 0) != (fails[1] == 0) {
			err = fmt.Errorf("the failure of the reader is told %d times by the end, by text/scanner %d times", fails[0], fails[1])
		}
		if err != nil {
			return err
		}
		if end && len(calls) == 0 || i > 20000 {
			break
		}
	}
	if n >= 5 {
		o.nonTrivial()
	}
	o.hitIf(len(src) > 1024, "over a buffer")
	o.hitIf(len(ea) > 0, "with errors")
	return nil
}

// judgeStderr: with nobody listening both scanners print the same complaints.
func judgeStderr(c *Case, o *Obs) error {
	src := string(c.In[0])
	printed := func(scan func() rune, text func() string) (string, error) {
		f, err := os.CreateTemp("", "stderr")
		if err != nil {
			return "", err
		}
		os.Remove(f.Name())
		defer f.Close()
		old := os.Stderr
		os.Stderr = f
		defer func() { os.Stderr = old }()
		for i := 0; i < 20000; i++ {
			t := scan()
			if t == scanner.EOF {
				break
			}
			if (t == scanner.Int || t == scanner.Float) && !plainNumber(text()) {
				return "", nil
			}
		}
		if _, err := f.Seek(0, io.SeekStart); err != nil {
			return "", err
		}
		b, err := io.ReadAll(f)
		return string(b), err
	}
	var a fork.Scanner
	var b scanner.Scanner
	a.Init(newReader(src, c.N[0], c.N[1]))
	b.Init(newReader(src, c.N[0], c.N[1]))
	if len(src)%2 == 0 {
		a.Filename, b.Filename = "f", "f"
	}
	want, err := printed(b.Scan, b.TokenText)
	if err != nil {
		return fmt.Errorf("HARNESS: %v", err)
	}
	if want == "" {
		return nil
	}
	got, err := printed(a.Scan, a.TokenText)
	if err != nil {
		return fmt.Errorf("HARNESS: %v", err)
	}
	o.nonTrivial()
	if err := diff("messages on the standard error stream", want, got); err != nil {
		return err
	}
	return diff("error counts", fmt.Sprint(b.ErrorCount), fmt.Sprint(a.ErrorCount))
}
