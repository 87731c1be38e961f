package main

import (
	"strings"
	"unicode/utf8"
)

// Texts that need not be documents: mutated documents, token soup, bytes.

var vocab = []string{
	"trigger", "set", "when", "repeat", "reset", "every", "after",
	"and", "or", "not", "in", "eq", "intersects", "nearby", "mod", "rem", "range",
	"point", "line", "polygon", "multipoint", "multiline", "multipolygon", "collection",
	"date", "time", "weekday", "month", "true", "false", "up", "down",
	"+", "-", "*", "/", "<", ">", "<=", ">=", "==", "!=", "=", "!", ".", "..", ",", ";", ":", "@",
	"(", ")", "[", "]", "{", "}",
	"0", "1", "5", "12", "2023", "60", "99", "1.5", "0.0", "7.", "9223372036854775807", "9223372036854775808",
	"1_000", "1e5", "0x10", "00", "31", "32", "2022", "2200",
	"km", "Km", "M", "m", "kph", "Kph", "mph", "bar", "Psi", "c", "F", "%", "PCT", "h", "s", "ms", "us", "ns", "h5m", "min",
	"10s", "5km", "3.5bar", "20%", "30C", "-40F", "1h", "2h30m",
	"a", "speed", "b", "x", "@a", "@b", `"str"`, `""`, `"a\"b"`, `"*"`, "mon", "Sun", "jan", "Dec", "AM", "pm", "Am",
	"#", "$", "?", "~", "^", "&", "|", "\\", "'", "`", "'a'", "\"", "\x00", "\x80", "é", "№", "—", "//", "/*", "*/", "\n", "\ufeff",
	"[1,2]", "[[1,2],[3,4]]", "date[2023-01-02]", "time[10:20]", "point[1,2]", ":5km", "{*}", `{"a"}`, "(a", "b)", "..5", "1..2", "not in", "not eq",
}

func (g *G) word() string {
	if g.p(6) {
		switch g.n(4) {
		case 0:
			if s, ok := g.dictName(); ok {
				return s
			}
		case 1:
			if len(dict.strs) > 0 {
				return dict.strs[g.n(len(dict.strs))]
			}
		case 2:
			return g.intLit()
		case 3:
			return g.floatLit()
		}
	}
	return vocab[g.n(len(vocab))]
}

// soup draws a sequence of tokens, often behind a plausible start.
func (g *G) soup() string {
	var b strings.Builder
	b.WriteString(pick(g, "when ", "trigger when ", "", "when a ", "trigger set a = ", "trigger set a=1 when ", "when a repeat ", "when a reset after ",
		"when a in [", "when a in date[", "when a in time[", "when a intersects point[", "when x:", "when a{", "when (", "when a in polygon[[", "trigger set ", "when a and "))
	k := 1 + g.n(8)
	if g.p(10) {
		k = 1 + g.n(40)
	}
	for i := 0; i < k; i++ {
		b.WriteString(g.word())
		if !g.p(40) {
			b.WriteByte(' ')
		}
	}
	return b.String()
}

// mutated draws a document and changes some of its tokens.
func (g *G) mutated() string {
	var d *Doc
	g.budget = 12
	switch g.n(3) {
	case 0:
		d = g.doc()
	default:
		d = g.plainDoc(func(int) *Node { return g.expr(2) })
	}
	st := g.style()
	r := g.lexemes(d, st)
	k := 1
	if g.p(25) {
		k = 1 + g.n(3)
	}
	for ; k > 0; k-- {
		g.mutate(r)
	}
	if len(r.out) == 0 {
		return ""
	}
	text, _ := g.layout(r, st)
	return text
}

func (g *G) mutate(r *renderer) {
	if len(r.out) == 0 {
		return
	}
	r.glued = nil
	for i := range r.out {
		r.out[i].tight = r.out[i].tight && i > 0 && r.out[i-1].text == "@"
	}
	i := g.n(len(r.out))
	set := func(i int, s string) { r.out[i] = lexeme{text: s} }
	insert := func(i int, s ...string) {
		var mid []lexeme
		for _, t := range s {
			mid = append(mid, lexeme{text: t})
		}
		r.out = append(r.out[:i:i], append(mid, r.out[i:]...)...)
	}
	switch g.n(10) {
	case 0, 1:
		r.out = append(r.out[:i:i], r.out[i+1:]...)
	case 2:
		insert(i, r.out[i].text)
	case 3, 4:
		insert(i, g.word())
	case 5, 6:
		set(i, g.word())
	case 7:
		if i+1 < len(r.out) {
			r.out[i], r.out[i+1] = r.out[i+1], r.out[i]
		}
	case 8:
		// cut off, or lose a stretch
		if g.bit() {
			r.out = r.out[:i]
		} else {
			j := i + 1 + g.n(4)
			if j > len(r.out) {
				j = len(r.out)
			}
			r.out = append(r.out[:i:i], r.out[j:]...)
		}
	case 9:
		// another piece of a document
		sub := &renderer{g: g, st: style{}}
		sub.node(g.unary(1, false))
		var s []string
		for _, l := range sub.out {
			s = append(s, l.text)
		}
		insert(i, s...)
	}
	if len(r.out) > 0 {
		r.out[0].tight = false
	}
}

// bytesText draws anything at all.
func (g *G) bytesText() string {
	k := g.n(30)
	if g.p(15) {
		k = g.size()
	}
	b := make([]byte, 0, k)
	for len(b) < k {
		switch g.n(6) {
		case 0:
			b = append(b, byte(g.bits(8)))
		case 1:
			b = utf8.AppendRune(b, rune(g.bits(16)))
		case 2:
			b = append(b, g.word()...)
		default:
			b = append(b, byte(32+g.n(95)))
		}
	}
	s := string(b)
	if g.p(50) {
		s = "when " + s
	}
	return s
}

// edited changes single bytes of a document.
func (g *G) edited() string {
	g.budget = 10
	d := g.plainDoc(func(int) *Node { return g.expr(2) })
	b := []byte(g.render(d, g.style()))
	for k := 1 + g.n(3); k > 0 && len(b) > 0; k-- {
		i := g.n(len(b))
		c := byte(g.bits(8))
		if !g.p(20) {
			c = pick[byte](g, ' ', '"', '.', ',', ':', '-', '*', '/', '\n', '0', '9', 'a', 'm', '[', ']', '{', '}', '(', ')', '@', '=', '<', '!', '_', '\\', '%')
		}
		switch g.n(4) {
		case 0:
			b = append(b[:i:i], b[i+1:]...)
		case 1:
			b = append(b[:i:i], append([]byte{c}, b[i:]...)...)
		case 2:
			b[i] = c
		case 3:
			b = b[:i]
		}
	}
	return string(b)
}

// anyText mixes all of them with plain documents.
func (g *G) anyText() string {
	switch g.n(8) {
	case 0:
		return g.render(g.doc(), g.style())
	case 1, 2:
		return g.soup()
	case 3, 4:
		return g.mutated()
	case 5, 6:
		return g.edited()
	}
	return g.bytesText()
}

func one(src string) *Case { return &Case{In: []Text{Text(src)}} }
