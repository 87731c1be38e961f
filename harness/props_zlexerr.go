package main

import (
	"fmt"
	"strings"

	geo "github.com/mmadfox/go-geoql-parser"
)

// What the tokenizer does behind a lexical error: the tokens before and after
// it are those of the texts there, whatever becomes of the bad piece itself.

func init() {
	props["C14"].parts = append(props["C14"].parts,
		&Part{name: "lexical errors", n: 60000, about: "a bad piece between two texts: the tokens around it are theirs, the end is the end, and the errors are those of the bad piece", gen: genLexErrors, judge: judgeLexErrors})
}

// badPieces end before the blank line behind them.
var badPieces = []string{
	"\x00", "\xff", "\xc3", "\xe2\x82", "\xed\xa0\x80", "\x80\x80", "a\x00b", "x\xffy",
	`"abc`, `"`, `"a\`, `"\q"`, `"a\xzz"`, "\"a\x00b\"", "\"\xff\"", `"\u12"`,
	"/*\x00*/", "// \x00 x", "// \xff", "/* \xc3 */", "\x00\x00\x00", "\xf8\x88\x80\x80\x80",
}

func genLexErrors(g *G) *Case {
	text := func() string {
		switch g.n(4) {
		case 0:
			return ""
		case 1:
			d := g.doc()
			return g.render(d, g.style())
		default:
			return g.tokenText()
		}
	}
	c := &Case{N: g.readerSpec()}
	c.In = append(c.In, Text(text()))
	for i, k := 0, 1+g.n(3); i < k; i++ {
		c.In = append(c.In, Text(badPieces[g.n(len(badPieces))]), Text(text()))
	}
	return c
}

func judgeLexErrors(c *Case, o *Obs) error {
	type tok struct {
		wantTok
		any bool // of a bad piece: as it is there alone
	}
	var want []tok
	var src strings.Builder
	errs, last := 0, ""
	collect := func(t *geo.Tokenizer, limit int) (out []tok, err error) {
		for i := 0; ; i++ {
			k, lit := t.Scan()
			w := tok{wantTok: wantTok{tok: k, lit: lit, text: t.TokenText(), off: int(t.Offset())}}
			if k == geo.EOF {
				return append(out, w), nil
			}
			out = append(out, w)
			if i > limit {
				return nil, fmt.Errorf("no end")
			}
		}
	}
	for i, in := range c.In {
		at := src.Len()
		if i%2 == 0 {
			ws, ok := wantTokens(string(in))
			if !ok {
				return nil
			}
			if len(ws) > 1 {
				if w := ws[len(ws)-2]; strings.HasPrefix(strings.ToLower(w.text), "not ") && w.tok == geo.ILLEGAL {
					return nil
				}
			}
			for _, w := range ws[:len(ws)-1] {
				w.off += at
				want = append(want, tok{wantTok: w})
			}
			src.WriteString(string(in))
			src.WriteString("\n")
			continue
		}
		piece := string(in) + "\n"
		t := geo.NewTokenizer(strings.NewReader(piece))
		ts, err := collect(t, len(piece)+3)
		if err != nil {
			return fmt.Errorf("%v of the tokens of %q", err, piece)
		}
		if t.ErrorCount() == 0 || t.Err() == nil {
			return fmt.Errorf("%d errors, %v, in %q", t.ErrorCount(), t.Err(), piece)
		}
		errs += t.ErrorCount()
		last = t.Err().Error()
		for _, w := range ts[:len(ts)-1] {
			w.off += at
			w.any = true
			want = append(want, w)
		}
		src.WriteString(piece)
	}
	text := src.String()
	if len(want) >= 5 {
		o.nonTrivial()
	}
	o.hitIf(len(c.In) > 3, "several bad pieces")
	o.hitIf(len(text) > 1024, "over a buffer")
	t := geo.NewTokenizer(newReader(text, c.N[0], c.N[1]))
	got, err := collect(t, len(want)+len(text))
	if err != nil {
		return err
	}
	for i, w := range want {
		if i >= len(got)-1 {
			return fmt.Errorf("the end comes after %d tokens at offset %d, want %d tokens, next %d %q at %d", i, got[i].off, len(want), w.tok, w.text, w.off)
		}
		g := got[i]
		if g.tok != w.tok || !w.noLit && g.lit != w.lit || g.text != w.text || g.off != w.off {
			where := ""
			if w.any {
				where = " (as alone)"
			}
			return fmt.Errorf("token %d is %d %q, text %q at %d, want %d %q, text %q at %d%s", i, g.tok, g.lit, g.text, g.off, w.tok, w.lit, w.text, w.off, where)
		}
	}
	if len(got) != len(want)+1 {
		return fmt.Errorf("%d tokens, want %d: behind them %d %q at %d", len(got)-1, len(want), got[len(want)].tok, got[len(want)].text, got[len(want)].off)
	}
	for i := 0; i < 3; i++ {
		if tok, lit := geo.EOF, ""; i > 0 {
			if tok, lit = t.Scan(); tok != geo.EOF || lit != "" {
				return fmt.Errorf("behind the end: %d %q", tok, lit)
			}
		} else if e := got[len(want)]; e.lit != "" {
			return fmt.Errorf("the end has the literal %q", e.lit)
		}
		if t.TokenText() != "" || int(t.Offset()) != len(text) {
			return fmt.Errorf("the end has text %q and offset %d, want %d", t.TokenText(), t.Offset(), len(text))
		}
	}
	if errs != t.ErrorCount() {
		return fmt.Errorf("%d errors, want %d", t.ErrorCount(), errs)
	}
	if errs > 0 && (t.Err() == nil || t.Err().Error() != last) {
		return fmt.Errorf("the last error is %v, want %s", t.Err(), last)
	}
	return nil
}
