package main

import (
	"errors"
	"fmt"
	"io"
	"os"
	"reflect"
	"strings"

	geo "github.com/mmadfox/go-geoql-parser"
)

func init() {
	register(&Prop{id: "C05",
		rule: "any text judged against the independent reference parser; non-trivial when the reference settles the text and it has three tokens or more, at least one behind the word when",
		parts: []*Part{
			{name: "mutated", n: 250000, about: "documents with some tokens dropped, doubled, swapped, replaced or inserted", gen: func(g *G) *Case { return one(g.mutated()) }, judge: judgeAgree},
			{name: "soup", n: 250000, about: "sequences of tokens", gen: func(g *G) *Case { return one(g.soup()) }, judge: judgeAgree},
			{name: "edited", n: 150000, about: "documents with single bytes changed", gen: func(g *G) *Case { return one(g.edited()) }, judge: judgeAgree},
			{name: "bytes", n: 60000, about: "random bytes and runes", gen: func(g *G) *Case { return one(g.bytesText()) }, judge: judgeAgree},
			{name: "short", about: "every sequence of up to three tokens of the vocabulary in several contexts", enum: enumShort, judge: judgeAgree},
			{name: "prefixes", n: 3000, about: "every prefix of a document", gen: func(g *G) *Case {
				g.budget = 12
				return one(g.render(g.plainDoc(func(int) *Node { return g.expr(2) }), g.style()))
			}, judge: func(c *Case, o *Obs) error {
				src := string(c.In[0])
				if len(src) > 600 {
					src = src[:600]
				}
				for i := 0; i <= len(src); i++ {
					if err := judgeAgree(one(src[:i]), o); err != nil {
						return fmt.Errorf("prefix of %d bytes %q: %w", i, clip(src[:i], 300), err)
					}
				}
				o.labels = o.labels[:0]
				return nil
			}},
		}})
	register(&Prop{id: "C02",
		rule: "any text Parse rejects; non-trivial when the text has three tokens or more",
		parts: []*Part{
			{name: "rejected", n: 300000, about: "offset, message and literal of the error of any rejected text", gen: func(g *G) *Case { return one(g.anyText()) }, judge: judgeError},
			{name: "illegal", n: 120000, about: "a character outside the language put between two tokens of a valid document is reported exactly there", gen: genIllegal, judge: judgeIllegal},
			{name: "badstring", n: 60000, about: "a bad string literal is reported at it or behind it, and no later than at the operand behind it", gen: genBadString, judge: judgeBadString},
			{name: "cut", n: 60000, about: "a document cut before a required token is reported at its end", gen: genCut, judge: judgeCut},
		}})
}

func judgeAgree(c *Case, o *Obs) error {
	src := string(c.In[0])
	r := refParse(src)
	if r.v != vSoft && len(r.lex.toks) > 3 {
		o.nonTrivial()
	}
	return agree(src, o, true)
}

var shortVocab = []string{
	"a", "1", "1.5", `"s"`, "true", "*", "@", "@b", "-", "+", "/", "..", ".", ",", ":", ";", "=", "==", "(", ")", "[", "]", "{", "}",
	"and", "not", "in", "mod", "km", "s", "%", "C", "point", "line", "date", "time", "weekday", "mon", "repeat", "reset", "every", "after",
	"when", "set", "trigger", "!", "#", "AM", "collection", "5s", "range",
}

var shortContexts = [][2]string{{"when ", ""}, {"when a ", ""}, {"trigger set a = ", " when b"}, {"when a in [1", "]"}, {"when (a ", ")"}, {"when a repeat 1 ", ""}, {"when x{", "}"}, {"when point[1,2]", ""}, {"", ""}}

func enumShort(yield func(*Case) bool) {
	for ci, ctx := range shortContexts {
		for _, a := range shortVocab {
			if !yield(one(ctx[0] + a + ctx[1])) {
				return
			}
			for _, b := range shortVocab {
				if !yield(one(ctx[0] + a + " " + b + ctx[1])) {
					return
				}
				if ci > 4 {
					continue
				}
				for _, c := range shortVocab {
					if !yield(one(ctx[0] + a + " " + b + " " + c + ctx[1])) {
						return
					}
				}
			}
		}
	}
}

// ---- C02 ---------------------------------------------------------------------

func squeeze(s string) string {
	return strings.Join(strings.Fields(s), "")
}

// printed is the file that stands for both output streams while Parse runs.
var printed *os.File

// silently runs a function and reports whether it printed something.
func silently(f func()) error {
	if printed == nil {
		t, err := os.CreateTemp("", "printed")
		if err != nil {
			return fmt.Errorf("HARNESS: %v", err)
		}
		os.Remove(t.Name())
		printed = t
	}
	stdout, stderr := os.Stdout, os.Stderr
	os.Stdout, os.Stderr = printed, printed
	defer func() { os.Stdout, os.Stderr = stdout, stderr }()
	f()
	n, err := printed.Seek(0, io.SeekCurrent)
	if err != nil {
		return fmt.Errorf("HARNESS: %v", err)
	}
	if n == 0 {
		return nil
	}
	b := make([]byte, n)
	printed.ReadAt(b, 0)
	printed.Close()
	printed = nil
	return fmt.Errorf("printed to the standard streams: %q", clip(string(b), 300))
}

func parseError(src string) (*geo.Error, error) {
	var stmt geo.Statement
	var err error
	if e := silently(func() { stmt, err = geo.Parse(src) }); e != nil {
		return nil, e
	}
	if err == nil {
		return nil, nil
	}
	if stmt != nil && !reflect.ValueOf(stmt).IsNil() {
		return nil, errors.New("a statement next to an error")
	}
	var e *geo.Error
	if !errors.As(err, &e) || e == nil {
		return nil, fmt.Errorf("error is %T, not *Error: %v", err, err)
	}
	if e.Offset < 0 || e.Offset > len(src) {
		return nil, fmt.Errorf("offset %d outside of the text of %d bytes", e.Offset, len(src))
	}
	return e, nil
}

func judgeError(c *Case, o *Obs) error {
	src := string(c.In[0])
	e, err := parseError(src)
	if err != nil || e == nil {
		return err
	}
	r := refParse(src)
	if len(r.lex.toks) > 3 {
		o.nonTrivial()
	}
	if strings.Contains(src, "\ufeff") {
		return nil
	}
	if e.Msg != src[:e.Offset] {
		return fmt.Errorf("message %q is not the text before offset %d", clip(e.Msg, 200), e.Offset)
	}
	text := e.Error()
	for _, want := range []string{fmt.Sprintf("offset=%d", e.Offset), e.Lit, strings.TrimSpace(e.Msg)} {
		if !strings.Contains(text, want) {
			return fmt.Errorf("error text %q does not give %q", clip(text, 300), clip(want, 300))
		}
	}
	if e.Err != nil && !strings.Contains(text, e.Err.Error()) {
		return fmt.Errorf("error text %q does not give the cause %q", clip(text, 300), clip(e.Err.Error(), 300))
	}
	if r.lex.bad != "" {
		o.hit("lexical")
		if !strings.HasPrefix(src[e.Offset:], e.Lit) && !strings.EqualFold(e.Lit[:min(3, len(e.Lit))], "not") &&
			!strings.Contains(" >= <= == != .. ", " "+e.Lit+" ") {
			return fmt.Errorf("literal %q at offset %d where the text has %q", e.Lit, e.Offset, clip(src[e.Offset:], 40))
		}
		return nil
	}
	at := -1
	for i, t := range r.lex.toks {
		if t.off == e.Offset {
			at = i
		}
	}
	if r.lex.soft {
		return nil
	}
	if at < 0 {
		return fmt.Errorf("offset %d is not the start of a token", e.Offset)
	}
	t := r.lex.toks[at]
	if t.low != "not" && e.Lit != t.text {
		return fmt.Errorf("literal %q at offset %d where the text has %q", e.Lit, e.Offset, t.text)
	}
	if lit, want := strings.ToLower(squeeze(e.Lit)), strings.ToLower(squeeze(t.text)); lit != want {
		// the parser looks one character behind not
		rest := strings.ToLower(squeeze(src[r.lex.toks[min(at+1, len(r.lex.toks)-1)].off:]))
		if t.low != "not" || !strings.HasPrefix(lit, "not") || !strings.HasPrefix(rest, lit[3:]) {
			return fmt.Errorf("literal %q at offset %d where the text has %q", e.Lit, e.Offset, t.text)
		}
	}
	if r.v == vReject {
		o.hit("settled")
		o.hitIf(e.Offset == r.at, "exact")
		if e.Offset < r.prev {
			return fmt.Errorf("error at offset %d, but the text is fine up to %d (%s)", e.Offset, r.at, r.why)
		}
		if late, ok := lateness[r.why]; ok || structural(r.why) {
			n := 0
			for _, t := range r.lex.toks {
				if t.off > r.at && t.off <= e.Offset {
					n++
				}
			}
			o.hitIf(!ok, "structural")
			if n > late {
				return fmt.Errorf("error at offset %d, but the text is at fault at %d (%s), %d tokens before", e.Offset, r.at, r.why, n)
			}
		}
	}
	return nil
}

// lateness: how many tokens behind its start a bad value may be reported. The
// value has to be read first, and the token behind it.
var lateness = map[string]int{"calendar number out of range": 8, "distance": 3, "duration": 3, "repeat count": 3}

// structural tells the faults that show at the first token that cannot follow.
func structural(why string) bool {
	switch why {
	case "calendar number", "coordinate", "digit separator", "expected )", "expected , or ]", "expected -", "expected :", "expected =",
		"expected after", "expected every", "expected when", "geometry expected", "integer too big", "left over", "name of a month",
		"name of a weekday", "operand expected", "reference name", "selector args", "sign without number", "time unit", "unknown unit",
		"variable name":
		return true
	}
	return strings.HasPrefix(why, "negative ")
}

// genBadString puts a bad string among operands.
func genBadString(g *G) *Case {
	operand := func() string {
		return pick(g, "a", "5", "5.5", "5km", "\"s\"", "@x", "point[1,2]:5km", "(a > 1)", "date[2024-01-02]", "[1,2]", "true", "*", "a{\"id\"}:1", "1 .. 2", "12%", "line[[1,2],[3,4]]", "5s", "time[10:20PM]")
	}
	op := func() string {
		return pick(g, " and ", " or ", " == ", "\n not eq ", " in ", " + ", " * ", " not nearby ", " >= ", " /* c */ and ", " rem ", " - ")
	}
	bad := "\"" + pick(g, "", "a", "some text ", "é", "\\n") + pick(g, `\q`, `\x4`, `\u12`, `\8`, "\x00", "\xff", `\U0001`, `\'`) + pick(g, " ", "", "z", " z y") + "\""
	var b strings.Builder
	var at, next int
	chain := func(max int, sep func() string, el func() string) {
		for k := g.n(max); k > 0; k-- {
			b.WriteString(el() + sep())
		}
	}
	comma := func() string { return pick(g, ", ", ",") }
	str := func() string { return pick(g, `"x"`, `"some"`, `"\n"`, `""`) }
	switch g.n(4) {
	case 0, 1:
		b.WriteString(pick(g, "when ", "trigger when ", "trigger set v = 1 when "))
		chain(12, op, operand)
		d := g.n(4)
		b.WriteString(strings.Repeat("(", d))
		at = b.Len()
		b.WriteString(bad + strings.Repeat(")", d) + op())
		next = b.Len()
		b.WriteString(operand())
	case 2:
		b.WriteString("trigger set ")
		for k := g.n(4); k > 0; k-- {
			b.WriteString(fmt.Sprintf("v%d = %s; ", k, pick(g, "5", "a", `"s"`, "5km")))
		}
		b.WriteString("w = ")
		at = b.Len()
		b.WriteString(bad + pick(g, "; ", "\n") + "z = ")
		next = b.Len()
		b.WriteString("5; when " + operand())
	case 3:
		b.WriteString("when a in [")
		chain(8, comma, str)
		at = b.Len()
		b.WriteString(bad + comma())
		next = b.Len()
		b.WriteString(str() + ", " + str() + "]")
	}
	for k := g.n(6); k > 0; k-- {
		b.WriteString(op() + operand())
	}
	b.WriteString(pick(g, "", " repeat 5 every 10s", " reset after 5h"))
	return &Case{In: []Text{Text(b.String())}, N: []int64{int64(at), int64(next)}}
}

func judgeBadString(c *Case, o *Obs) error {
	e, err := parseError(string(c.In[0]))
	if err != nil {
		return err
	}
	if e == nil {
		return fmt.Errorf("accepted with a bad string at offset %d", c.N[0])
	}
	o.nonTrivial()
	at := int64(e.Offset)
	if at > c.N[1] || at < c.N[0] && len(strings.Fields(string(c.In[0])[at:c.N[0]])) > 2 {
		return fmt.Errorf("error at offset %d, the bad string is at %d and the operand behind it at %d", at, c.N[0], c.N[1])
	}
	return nil
}

func genIllegal(g *G) *Case {
	g.budget = 14
	var d *Doc
	if g.p(10) {
		d = g.doc()
	} else {
		d = g.plainDoc(func(int) *Node { return g.expr(2) })
	}
	st := g.style()
	r := g.lexemes(d, st)
	i := g.n(len(r.out) + 1)
	if i < len(r.out) && r.out[i].tight {
		i--
	}
	if i > 0 && strings.EqualFold(r.out[i-1].text, "not") {
		i--
	}
	glued := map[int]bool{}
	for k := range r.glued {
		if k >= i {
			k++
		}
		glued[k] = true
	}
	bad := lexeme{text: pick(g, "#", "$", "?", "~", "^", "&", "|", "№", "—", "€", "!")}
	bad.spaced = bad.text == "!"
	r.out = append(r.out[:i:i], append([]lexeme{bad}, r.out[i:]...)...)
	r.glued = glued
	text, off := g.layout(r, st)
	if bad.text == "!" && i+1 < len(r.out) && (r.out[i+1].text[0] == '=') {
		return nil
	}
	return &Case{In: []Text{Text(text), Text(bad.text)}, N: []int64{int64(off[i])}}
}

func judgeIllegal(c *Case, o *Obs) error {
	src := string(c.In[0])
	e, err := parseError(src)
	if err != nil {
		return err
	}
	if e == nil {
		return fmt.Errorf("accepted with %s at offset %d", c.In[1], c.N[0])
	}
	if len(src) > 12 {
		o.nonTrivial()
	}
	o.hitIf(e.Offset > 1024, "behind the first buffer")
	if int64(e.Offset) != c.N[0] {
		return fmt.Errorf("error at offset %d, the only thing wrong is %s at %d", e.Offset, c.In[1], c.N[0])
	}
	if e.Lit != string(c.In[1]) {
		return fmt.Errorf("literal %q, the only thing wrong is %s", e.Lit, c.In[1])
	}
	return nil
}

// genCut ends a document behind an opening bracket or an operator, where more
// has to follow.
func genCut(g *G) *Case {
	g.budget = 14
	d := g.plainDoc(func(int) *Node { return g.expr(2) })
	st := g.style()
	st.padded, st.comments = false, false
	r := g.lexemes(d, st)
	var at []int
	for i, l := range r.out {
		switch strings.ToLower(l.text) {
		case "(", "[", "{", "and", "or", "in", "eq", "==", "!=", "<", ">", "<=", ">=", "..", "nearby", "intersects", "when", "mod", "rem", ",", "=", "every", "after":
			at = append(at, i)
		}
	}
	i := at[g.n(len(at))]
	r.out = r.out[:i+1]
	for k := range r.glued {
		if k > i {
			delete(r.glued, k)
		}
	}
	text, _ := g.layout(r, st)
	if g.p(30) {
		text += pick(g, " ", "\n", "\t\n ")
	}
	return one(text)
}

func judgeCut(c *Case, o *Obs) error {
	src := string(c.In[0])
	r := refParse(src)
	e, err := parseError(src)
	if err != nil {
		return err
	}
	if e == nil {
		if r.v == vAccept {
			return nil // names like every are words, too
		}
		return errors.New("accepted although it ends in the middle")
	}
	if r.v != vReject || r.lex.bad != "" || r.at != len(src) {
		return nil
	}
	o.nonTrivial()
	if e.Offset != len(src) {
		return fmt.Errorf("error at offset %d, the text is fine up to its end %d", e.Offset, len(src))
	}
	return nil
}
