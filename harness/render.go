package main

import (
	"strconv"
	"strings"

	geo "github.com/mmadfox/go-geoql-parser"
)

// lexeme is one written token.
type lexeme struct {
	text string
	// spaced: at least one blank in front, whatever the token
	spaced bool
	// tight: never a blank in front
	tight bool
}

// style says how freely a document is written.
type style struct {
	cases    bool // mixed case keywords and aliases
	layout   int  // 0 compact, 1 single spaces, 2 random, 3 huge gaps
	padded   bool // blanks around the document
	comments bool
	unitGap  bool // blanks between numbers and units
}

func (g *G) style() style {
	return style{cases: g.p(50), layout: pick(g, 2, 1, 0, 2, 2, 2, 0, 3), padded: g.p(20), unitGap: g.p(25), comments: g.p(12)}
}

type renderer struct {
	g   *G
	st  style
	out []lexeme
	// unit flags the lexemes that are units of the number before them
	glued map[int]bool
}

func (r *renderer) put(text string) int {
	r.out = append(r.out, lexeme{text: text})
	return len(r.out) - 1
}

func (r *renderer) last() int { return len(r.out) - 1 }

// kw writes a keyword in any case.
func (r *renderer) kw(words ...string) int {
	w := words[0]
	if len(words) > 1 && r.st.cases {
		w = words[r.g.n(len(words))]
	}
	if r.st.cases {
		w = r.recase(w)
	}
	return r.put(w)
}

func (r *renderer) recase(w string) string {
	switch r.g.n(5) {
	case 1:
		return strings.ToUpper(w)
	case 2:
		return strings.ToUpper(w[:1]) + w[1:]
	case 3:
		b := []byte(w)
		for i := range b {
			if r.g.bit() {
				b[i] = strings.ToUpper(w)[i]
			}
		}
		return string(b)
	}
	return w
}

// opWords lists the spellings of an operator.
func opWords(op geo.Token) []string {
	switch op {
	case geo.OR:
		return []string{"or"}
	case geo.AND:
		return []string{"and"}
	case geo.LSS:
		return []string{"<"}
	case geo.LEQ:
		return []string{"<="}
	case geo.GTR:
		return []string{">"}
	case geo.GEQ:
		return []string{">="}
	case geo.EQL:
		return []string{"eq"}
	case geo.LEQL:
		return []string{"=="}
	case geo.LNEQ:
		return []string{"!="}
	case geo.NOT_EQ:
		return []string{"not eq"}
	case geo.IN:
		return []string{"in"}
	case geo.NOT_IN:
		return []string{"not in"}
	case geo.INTERSECTS:
		return []string{"intersects"}
	case geo.NOT_INTERSECTS:
		return []string{"not intersects"}
	case geo.NEARBY:
		return []string{"nearby"}
	case geo.NOT_NEARBY:
		return []string{"not nearby"}
	case geo.ADD:
		return []string{"+"}
	case geo.SUB:
		return []string{"-"}
	case geo.MUL:
		return []string{"*"}
	case geo.QUO:
		return []string{"/"}
	case geo.REM:
		return []string{"rem", "mod"}
	}
	return []string{"?"}
}

// op writes an operator and returns the index of its first lexeme.
func (r *renderer) op(op geo.Token) int {
	words := opWords(op)
	w := words[0]
	if len(words) > 1 && r.g.bit() {
		w = words[1]
	}
	at := -1
	for _, part := range strings.Fields(w) {
		i := r.kw(part)
		if at < 0 {
			at = i
		}
	}
	return at
}

// unitWords lists the spellings of a unit.
func unitWords(kind string, u geo.Unit) []string {
	switch kind {
	case "pct":
		return []string{"%", "PCT", "Pct"}
	case "speed":
		if u == geo.Kph {
			return []string{"kph", "KPH", "Kph"}
		}
		return []string{"mph", "Mph", "MPH"}
	case "temp":
		if u == geo.Celsius {
			return []string{"C", "c"}
		}
		return []string{"F", "f"}
	case "press":
		if u == geo.Bar {
			return []string{"Bar", "bar", "BAR"}
		}
		return []string{"Psi", "psi", "PSI"}
	case "dist":
		if u == geo.Kilometer {
			return []string{"km", "Km", "rkm", "rKM", "Rkm"}
		}
		return []string{"M", "rm", "rM", "Rm"}
	}
	return nil
}

func (r *renderer) unit(text string) {
	i := r.put(text)
	if r.glued == nil {
		r.glued = map[int]bool{}
	}
	r.glued[i] = true
}

func (r *renderer) signOf(n *Node) {
	if n.Neg {
		r.put("-")
	} else if n.Plus {
		r.put("+")
	}
}

var wdayNames = []string{"sun", "mon", "tue", "wed", "thu", "fri", "sat"}
var monthNames = []string{"", "jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec"}

// pad2 spells a calendar number.
func (r *renderer) calNum(v int) string {
	s := strconv.Itoa(v)
	switch r.g.n(8) {
	case 0, 1, 2, 3:
		if v < 10 {
			s = "0" + s
		}
	case 7:
		if r.st.cases {
			s = strings.Repeat("0", r.g.n(3)) + s
		}
	}
	return s
}

func (r *renderer) calName(w string) {
	switch r.g.n(3) {
	case 0:
		r.put(strings.ToUpper(w[:1]) + w[1:])
	case 1:
		r.put(w)
	default:
		r.put(r.recase(w))
	}
}

// calValue writes a calendar value without its keyword.
func (r *renderer) calValue(n *Node) {
	n.Pos = len(r.out)
	switch n.K {
	case "date":
		r.put(r.calNum(n.C[0]))
		r.put("-")
		r.put(r.calNum(n.C[1]))
		r.put("-")
		r.put(r.calNum(n.C[2]))
	case "time":
		r.put(r.calNum(n.C[0]))
		r.put(":")
		r.put(r.calNum(n.C[1]))
		if n.B {
			r.put(":")
			r.put(r.calNum(n.C[2]))
		}
		switch n.U {
		case geo.AM:
			r.put(pick(r.g, "AM", "am", "Am", "aM"))
		case geo.PM:
			r.put(pick(r.g, "PM", "pm", "Pm", "pM"))
		}
	case "wday":
		r.calName(wdayNames[n.C[0]])
	case "month":
		r.calName(monthNames[n.C[0]])
	}
	n.End = r.last()
}

func calWord(kind string) string {
	if kind == "wday" {
		return "weekday"
	}
	return kind
}

func (r *renderer) rangeOp() {
	if r.st.cases && r.g.p(15) {
		r.kw("range")
		return
	}
	r.put("..")
}

func (r *renderer) list(kids []*Node) {
	for i, k := range kids {
		if i > 0 {
			r.put(",")
		}
		r.node(k)
	}
}

func (r *renderer) coords(lits []string) {
	for i, lit := range lits {
		if i > 0 {
			r.put(",")
		}
		if strings.HasPrefix(lit, "-") {
			r.put("-")
			lit = lit[1:]
		}
		r.put(lit)
	}
}

// node writes n and notes the indexes of its first and last lexeme.
func (r *renderer) node(n *Node) {
	n.Pos = len(r.out)
	switch n.K {
	case "int", "float":
		r.signOf(n)
		r.put(n.Lit[0])
	case "pct", "speed", "temp", "press", "dist":
		r.signOf(n)
		r.put(n.Lit[0])
		words := unitWords(n.K, n.U)
		r.unit(words[r.g.n(len(words))])
	case "dur":
		r.signOf(n)
		r.put(n.Lit[0])
		r.unit(n.Lit[1])
	case "str":
		r.put(`"` + n.S + `"`)
	case "bool":
		if n.B {
			r.kw("true", "up")
		} else {
			r.kw("false", "down")
		}
	case "wild":
		r.put("*")
	case "ref":
		r.put("@")
		r.out[r.put(n.S)].tight = true
	case "ident":
		r.put(n.S)
	case "sel":
		r.put(n.S)
		if n.B {
			r.put("{")
			first := true
			if n.Neg || len(n.Args) == 0 && r.g.p(60) {
				r.put("*")
				first = false
			}
			for _, a := range n.Args {
				if !first {
					r.put(",")
				}
				first = false
				r.put(`"` + a + `"`)
			}
			r.put("}")
		}
		if len(n.Kids) > 0 {
			r.put(":")
			r.list(n.Kids)
		}
	case "range":
		if n.S != "" {
			r.kw(calWord(n.S))
			r.put("[")
			r.calValue(n.Kids[0])
			r.rangeOp()
			r.calValue(n.Kids[1])
			r.put("]")
			break
		}
		r.node(n.Kids[0])
		r.rangeOp()
		r.node(n.Kids[1])
	case "arr":
		switch n.AK {
		case geo.DATE, geo.TIME, geo.WEEKDAY, geo.MONTH:
			r.kw(calWord(n.Kids[0].K))
			r.put("[")
			for i, k := range n.Kids {
				if i > 0 {
					r.put(",")
				}
				r.calValue(k)
			}
			r.put("]")
		default:
			r.put("[")
			r.list(n.Kids)
			r.put("]")
		}
	case "date", "time", "wday", "month":
		r.kw(calWord(n.K))
		r.put("[")
		r.calValue(n)
		r.put("]")
		n.Pos = n.Pos - 2
	case "paren":
		r.put("(")
		r.node(n.Kids[0])
		r.put(")")
	case "bin":
		r.node(n.Kids[0])
		n.OpPos = r.op(n.Op)
		r.node(n.Kids[1])
	case "point":
		r.kw("point")
		r.put("[")
		r.coords(n.Lit)
		r.put("]")
		r.distOf(n)
	case "line":
		r.kw("line")
		r.put("[")
		r.ring(n.Lit)
		r.put("]")
		r.distOf(n)
	case "poly":
		r.kw("polygon")
		r.put("[")
		at := 0
		for i, ring := range n.Pts {
			if i > 0 {
				r.put(",")
			}
			r.put("[")
			r.ring(n.Lit[at : at+2*len(ring)])
			at += 2 * len(ring)
			r.put("]")
		}
		r.put("]")
	case "multi":
		switch n.AK {
		case geo.GEOMETRY_MULTIPOINT:
			r.kw("multipoint")
		case geo.GEOMETRY_MULTILINE:
			r.kw("multiline")
		default:
			r.kw("multipolygon")
		}
		r.put("[")
		r.list(n.Kids)
		r.put("]")
	case "coll":
		r.kw("collection")
		r.put("[")
		r.list(n.Kids)
		r.put("]")
	case "assign":
		r.node(n.Kids[0])
		n.OpPos = r.put("=")
		r.node(n.Kids[1])
	default:
		panic("render " + n.K)
	}
	n.End = r.last()
}

func (r *renderer) ring(lits []string) {
	for i := 0; i+1 < len(lits); i += 2 {
		if i > 0 {
			r.put(",")
		}
		r.put("[")
		r.coords(lits[i : i+2])
		r.put("]")
	}
}

func (r *renderer) distOf(n *Node) {
	if n.Dist != nil {
		r.put(":")
		r.node(n.Dist)
	}
}

// unitLike reports whether a word behind a number would be read as its unit.
func unitLike(w string) bool {
	switch w {
	case "rm", "rkm", "rM", "rKM", "Rm", "Rkm", "Km", "km", "M", "f", "c", "F", "C",
		"bar", "Bar", "Psi", "BAR", "PSI", "psi", "PCT", "Pct", "kph", "mph", "KPH", "Kph", "Mph", "MPH":
		return true
	}
	switch strings.ToLower(w)[:1] {
	case "h", "m", "s":
		return true
	}
	return false
}

func isDigit(c byte) bool { return c >= '0' && c <= '9' }

// doc writes a document; afterwards the positions of the nodes are byte
// offsets into the text.
func (g *G) render(d *Doc, st style) string {
	text, lex, off := g.renderLex(d, st)
	_ = lex
	fix := func(n *Node) {
		n.Pos = off[n.Pos]
		n.End = off[n.End] + len(lex[n.End].text) - 1
		if n.K == "bin" || n.K == "assign" {
			n.OpPos = off[n.OpPos]
		}
	}
	d.all(fix)
	d.Pos = off[0]
	d.End = off[len(off)-1] + len(lex[len(lex)-1].text) - 1
	return text
}

func (g *G) lexemes(d *Doc, st style) *renderer {
	r := &renderer{g: g, st: st}
	if d.Trig {
		r.kw("trigger")
	}
	if d.SetWord {
		r.kw("set")
		for i, a := range d.Vars {
			r.node(a)
			next := ""
			if i+1 < len(d.Vars) {
				next = d.Vars[i+1].Kids[0].S
			}
			force := isDigit(r.out[r.last()].text[0]) && next != "" && unitLike(next)
			if force || !g.p(25) {
				r.put(";")
			}
		}
	}
	r.kw("when")
	r.node(d.When)
	if d.RepeatWord {
		r.kw("repeat")
		if d.RepeatCount != nil {
			r.node(d.RepeatCount)
		}
		if d.RepeatInterval != nil {
			r.kw("every")
			r.node(d.RepeatInterval)
		}
	}
	if d.ResetA != nil {
		r.kw("reset")
		r.kw("after")
		r.node(d.ResetA)
	}
	return r
}

func (g *G) renderLex(d *Doc, st style) (string, []lexeme, []int) {
	r := g.lexemes(d, st)
	text, off := g.layout(r, st)
	return text, r.out, off
}

// comment draws a comment, which counts as a blank.
func (g *G) comment() string {
	body := pick(g, "", " x ", "*", "/", "when", " \"", "\"a\" ", "**", " / * ", "é…", ";", "-- '", "0.")
	for g.p(35) {
		// whatever may look like an end or like the start of something else
		body += pick(g, "\r", "\r and c", "\v", "\f", "\x7f", "\x01", "\u0085", "\u00a0", "\u2028 or d", "\u2029", "\\", "\\\\", "\\n", "'", "`", "`a", "#", "$", "@x", "//", "/*", "/ *", "* /",
			"}", ")", "]", "(", "..", "..2", "1e5", "😀", "e\u0301", "\t", " and b", "*", "***", "/", "%", "%s", "\\\"", "\\u12", "--", "<!--", "REM")
	}
	for g.p(25) {
		if r := g.rune(); r != '\n' {
			body += string(r)
		}
	}
	if g.p(5) {
		body += strings.Repeat(" c", g.size())
	}
	if g.bit() {
		return " //" + body + "\n"
	}
	body = strings.ReplaceAll(body, "*/", "* /")
	if g.p(20) {
		body += pick(g, "\n", "\r\n", "\n// x\n", "\n\n")
	}
	if strings.HasPrefix(body, "/") {
		body = " " + body
	}
	return " /*" + body + "*/"
}

var gaps = []string{" ", "\n", "  ", "\t", "\r\n", " \n\t ", "\n\n"}

// layout joins the lexemes.
func (g *G) layout(r *renderer, st style) (string, []int) {
	var b strings.Builder
	off := make([]int, len(r.out))
	if st.padded {
		b.WriteString(gaps[g.n(len(gaps))])
		if g.p(10) {
			b.WriteString(strings.Repeat(" ", g.size()))
		}
	}
	huge := -1
	if st.layout == 3 && len(r.out) > 1 {
		huge = 1 + g.n(len(r.out)-1)
	}
	for i, l := range r.out {
		if i > 0 {
			prev := r.out[i-1].text
			must := l.spaced || !separable(prev, l.text)
			switch {
			case l.tight:
			case st.comments && !r.glued[i] && g.p(8):
				b.WriteString(g.comment())
			case i == huge:
				b.WriteString(strings.Repeat(pick(g, " ", "\n"), 1+g.size()))
			case r.glued[i] && !st.unitGap:
				if must {
					b.WriteByte(' ')
				}
			case st.layout == 0:
				if must {
					b.WriteByte(' ')
				}
			case st.layout == 1 || len(r.out) > 300:
				b.WriteByte(' ')
			default:
				k := g.n(9)
				if k == 0 || k > len(gaps) {
					if must {
						b.WriteByte(' ')
					}
				} else {
					b.WriteString(gaps[k-1])
				}
			}
		}
		off[i] = b.Len()
		b.WriteString(l.text)
	}
	if st.padded {
		b.WriteString(gaps[g.n(len(gaps))])
		if st.comments {
			c := g.comment()
			if g.p(30) {
				c = strings.TrimSuffix(c, "\n") // up to the end of the text
			}
			b.WriteString(c)
		}
	}
	return b.String(), off
}

// separable reports whether a and b stay two tokens when written together.
func separable(a, b string) bool {
	if a == "" || b == "" {
		return false
	}
	x, y := a[len(a)-1], b[0]
	if wordByte(x) && wordByte(y) || wordByte(x) && isDigit(x) && y == '.' || x == '.' && (isDigit(y) || y == '_' || y == '.') {
		// digits directly in front of a word are fine: 5km
		if isDigit(a[0]) && !isDigit(y) && y != '_' && y != '.' {
			return true
		}
		return false
	}
	if x == '/' && (y == '/' || y == '*') {
		return false // a comment
	}
	switch x {
	case '.', '=', '!', '<', '>':
		return y != '=' && y != '.'
	}
	return true
}

// wordByte reports whether c can be part of a word or number.
func wordByte(c byte) bool {
	return c == '_' || isDigit(c) || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80
}
