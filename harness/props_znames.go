package main

import (
	"fmt"
	"strings"

	"text/scanner"

	geo "github.com/mmadfox/go-geoql-parser"
	fork "github.com/mmadfox/go-geoql-parser/scanner"
)

// ---- the names the package gives its tokens, units and signs ------------------

var tokenNames = map[geo.Token]string{
	geo.TRIGGER: "trigger", geo.SET: "set", geo.WHEN: "when", geo.REPEAT: "repeat", geo.RESET: "reset",
	geo.ASSIGN: "=", geo.SEMICOLON: ";", geo.LPAREN: "(", geo.RPAREN: ")", geo.COMMA: ",", geo.LBRACK: "[", geo.RBRACK: "]", geo.LBRACE: "{", geo.RBRACE: "}",
	geo.COLON: ":", geo.PERIOD: ".", geo.RANGE: "range", geo.TIME: "time", geo.DATE: "date", geo.WEEKDAY: "weekday", geo.MONTH: "month",
}

var unitNames = map[geo.Unit]string{
	geo.Kph: "Kph", geo.Mph: "Mph", geo.Celsius: "C", geo.Fahrenheit: "F", geo.Kilometer: "Km", geo.Meter: "M", geo.Bar: "Bar", geo.Psi: "Psi", geo.AM: "AM", geo.PM: "PM",
}

// judgeTokenName: the name of a token is a spelling of it.
func judgeTokenName(c *Case, o *Obs) error {
	tok := geo.Token(c.N[0])
	s := geo.KeywordString(tok)
	if want, ok := tokenNames[tok]; ok {
		o.nonTrivial()
		if s != want {
			return fmt.Errorf("token %d is called %q, want %q", tok, s, want)
		}
	}
	if s == "" {
		return nil
	}
	if got, lit := geo.NewTokenizer(strings.NewReader(strings.ToUpper(s))).Scan(); got != tok {
		return fmt.Errorf("token %d is called %q, which scans as %d %q", tok, s, got, lit)
	}
	return nil
}

// judgeUnitName: the name of a unit is a spelling of it.
func judgeUnitName(c *Case, o *Obs) error {
	u := geo.Unit(c.N[0])
	s := u.String()
	want, ok := unitNames[u]
	if !ok {
		want = "?"
	}
	if s != want {
		return fmt.Errorf("unit %d is called %q, want %q", u, s, want)
	}
	if sign, want := geo.Sign(c.N[0]).String(), map[int64]string{int64(geo.Plus): "+", int64(geo.Minus): "-"}[c.N[0]]; sign != want {
		return fmt.Errorf("sign %d is called %q, want %q", c.N[0], sign, want)
	}
	if !ok {
		return nil
	}
	o.nonTrivial()
	text := "when a > 5" + s
	if u == geo.AM || u == geo.PM {
		text = "when a in time[5:30" + s + "]"
	}
	stmt, err := geo.Parse(text)
	if err != nil {
		return fmt.Errorf("unit %d is called %q, and %s does not parse: %v", u, s, text, err)
	}
	var got geo.Unit
	geo.Visit(stmt.(*geo.Trigger), func(e geo.Expr) bool {
		switch x := e.(type) {
		case *geo.SpeedTyp:
			got = x.U
		case *geo.TemperatureTyp:
			got = x.U
		case *geo.DistanceTyp:
			got = x.U
		case *geo.PressureTyp:
			got = x.U
		case *geo.TimeTyp:
			got = x.U
		}
		return true
	})
	if got != u {
		return fmt.Errorf("%s has unit %d, want %d", text, got, u)
	}
	return nil
}

func init() {
	props["C14"].parts = append(props["C14"].parts, &Part{name: "names", about: "the name of every token scans as that token", enum: enumTokens, judge: judgeTokenName})
	props["C15"].parts = append(props["C15"].parts,
		&Part{name: "constants", about: "names, values and printed forms of modes, tokens and positions", judge: judgeScanNames, enum: func(yield func(*Case) bool) {
			for r := int64(-12); r < 0x3000; r++ {
				if !yield(&Case{N: []int64{r}}) {
					return
				}
			}
		}},
		&Part{name: "escapes", about: "every escape with any number of digits behind it", judge: judgeScan, enum: func(yield func(*Case) bool) {
			for e := rune(1); e < 0x100; e++ {
				for _, digit := range []string{"0", "7", "8", "f", "F", "g", "9a"} {
					for n := 0; n < 10; n++ {
						var b strings.Builder
						for _, q := range []string{`"`, "'", "`", "\""} {
							b.WriteString(q + `\` + string(e) + strings.Repeat(digit, n) + q + " ")
						}
						if c := one(b.String()); !yield(&Case{In: c.In, N: []int64{0, 0, int64(n % 2), 0, 0}}) {
							return
						}
					}
				}
			}
		}})
	props["C19"].parts = append(props["C19"].parts, &Part{name: "unit names", about: "the name of every unit and sign is a spelling of it", enum: enumTokens, judge: judgeUnitName})
}

// judgeScanNames compares what a caller of the scanner can name.
func judgeScanNames(c *Case, o *Obs) error {
	o.nonTrivial()
	pairs := [][2]uint64{
		{fork.ScanIdents, scanner.ScanIdents}, {fork.ScanInts, scanner.ScanInts}, {fork.ScanFloats, scanner.ScanFloats}, {fork.ScanChars, scanner.ScanChars},
		{fork.ScanStrings, scanner.ScanStrings}, {fork.ScanRawStrings, scanner.ScanRawStrings}, {fork.ScanComments, scanner.ScanComments},
		{fork.SkipComments, scanner.SkipComments}, {fork.GoTokens, scanner.GoTokens}, {fork.GoWhitespace, scanner.GoWhitespace},
		{-fork.EOF, -scanner.EOF}, {-fork.Ident, -scanner.Ident}, {-fork.Int, -scanner.Int}, {-fork.Float, -scanner.Float}, {-fork.Char, -scanner.Char},
		{-fork.String, -scanner.String}, {-fork.RawString, -scanner.RawString}, {-fork.Comment, -scanner.Comment},
	}
	for i, p := range pairs {
		if p[0] != p[1] {
			return fmt.Errorf("constant %d is %d, text/scanner has %d", i, p[0], p[1])
		}
	}
	n := c.N[0]
	if a, b := fork.TokenString(rune(n)), scanner.TokenString(rune(n)); a != b {
		return fmt.Errorf("token %d is called %q, text/scanner calls it %q", n, a, b)
	}
	k := int(n)
	for _, name := range []string{"", "f", "a b:1"} {
		p, q := fork.Position{Filename: name, Offset: k, Line: k % 7, Column: k / 3}, scanner.Position{Filename: name, Offset: k, Line: k % 7, Column: k / 3}
		if p.IsValid() != q.IsValid() || p.String() != q.String() {
			return fmt.Errorf("position %+v prints as %q and is valid: %v, text/scanner has %q and %v", p, p.String(), p.IsValid(), q.String(), q.IsValid())
		}
	}
	return nil
}
