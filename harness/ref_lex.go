package main

import (
	"strings"
	"unicode"
	"unicode/utf8"
)

// The reference lexer: plain functions over the whole text, no buffers.

type tokKind int

const (
	tEOF tokKind = iota
	tWord
	tInt
	tFloat
	tString
	tOp // punctuation, also two characters long
)

type rtok struct {
	k    tokKind
	text string
	low  string // lower-cased text of a word
	off  int
	end  int // behind the last byte
}

type rlex struct {
	toks []rtok
	bad  string // lexical error, "" if none
	// badAt is the offset of the first lexical error
	badAt int
	// soft: two characters of an operator written apart, which the language
	// does not settle
	soft bool
	bom  bool
}

func (l *rlex) fail(at int, msg string) {
	if l.bad == "" {
		l.bad, l.badAt = msg, at
	}
}

func isBlank(c byte) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' }

// skipBlank skips blanks and comments.
func skipBlank(src string, i int) (int, bool) {
	for i < len(src) {
		switch {
		case isBlank(src[i]):
			i++
		case strings.HasPrefix(src[i:], "//"):
			k := strings.IndexByte(src[i:], '\n')
			if k < 0 {
				return len(src), true
			}
			i += k
		case strings.HasPrefix(src[i:], "/*"):
			k := strings.Index(src[i+2:], "*/")
			if k < 0 {
				return i, false
			}
			i += 2 + k + 2
		default:
			return i, true
		}
	}
	return i, true
}

func refLex(src string) *rlex {
	l := &rlex{}
	if i := strings.IndexByte(src, 0); i >= 0 {
		l.fail(i, "NUL")
	}
	for i := 0; i < len(src); {
		r, w := utf8.DecodeRuneInString(src[i:])
		if r == utf8.RuneError && w == 1 {
			l.fail(i, "invalid UTF-8")
			break
		}
		i += w
	}
	i := 0
	if strings.HasPrefix(src, "\ufeff") {
		l.bom = true
		i = 3
	}
	for {
		j, ok := skipBlank(src, i)
		if !ok {
			l.fail(j, "comment not terminated")
			break
		}
		if i = j; i >= len(src) {
			break
		}
		start := i
		r, w := utf8.DecodeRuneInString(src[i:])
		switch {
		case r == '_' || unicode.IsLetter(r):
			i += w
			for i < len(src) {
				r, w := utf8.DecodeRuneInString(src[i:])
				if r != '_' && !unicode.IsLetter(r) && !unicode.IsDigit(r) {
					break
				}
				i += w
			}
			l.add(tWord, src, start, i)
		case r >= '0' && r <= '9':
			kind := tInt
			for i < len(src) && (isDigit(src[i]) || src[i] == '_') {
				i++
			}
			if i < len(src) && src[i] == '.' {
				kind = tFloat
				i++
				for i < len(src) && (isDigit(src[i]) || src[i] == '_') {
					i++
				}
			}
			l.add(kind, src, start, i)
		case r == '"':
			i = l.str(src, i)
			l.add(tString, src, start, i)
		default:
			if r == '\'' || r == '`' {
				// no token of the language, and what follows may be swallowed
				l.fail(i, "quote")
			}
			i += w
			if i < len(src) && twoChar(src[start:i+1]) {
				i++
			} else if strings.ContainsRune(".=!<>", r) {
				// the same with blanks between
				j, _ := skipBlank(src, i)
				if j > i && j < len(src) && twoChar(src[start:i]+src[j:j+1]) {
					l.soft = true
				}
			}
			l.add(tOp, src, start, i)
		}
	}
	l.toks = append(l.toks, rtok{k: tEOF, off: len(src), end: len(src)})
	return l
}

func twoChar(s string) bool {
	switch s {
	case "..", "==", "!=", "<=", ">=":
		return true
	}
	return false
}

func (l *rlex) add(k tokKind, src string, start, end int) {
	t := rtok{k: k, text: src[start:end], off: start, end: end}
	if k == tWord {
		t.low = strings.ToLower(t.text)
		for _, r := range t.text {
			if r >= 0x80 && unicode.ToLower(r) < 0x80 {
				l.soft = true // the Kelvin sign and friends
			}
		}
	}
	l.toks = append(l.toks, t)
}

// str scans a string literal, i is at the quote.
func (l *rlex) str(src string, i int) int {
	start := i
	i++
	hex := func(i, n int) int {
		for k := 0; k < n; k++ {
			if i >= len(src) || !strings.ContainsRune("0123456789abcdefABCDEF", rune(src[i])) {
				l.fail(start, "bad escape")
				return i
			}
			i++
		}
		return i
	}
	for i < len(src) {
		switch c := src[i]; c {
		case '"':
			return i + 1
		case '\n':
			l.fail(start, "literal not terminated")
			return i
		case '\\':
			i++
			if i >= len(src) {
				l.fail(start, "bad escape")
				return i
			}
			switch e := src[i]; {
			case strings.IndexByte(`abfnrtv\"`, e) >= 0:
				i++
			case e >= '0' && e <= '7':
				for k := 0; k < 3; k++ {
					if i >= len(src) || src[i] < '0' || src[i] > '7' {
						l.fail(start, "bad escape")
						break
					}
					i++
				}
			case e == 'x':
				i = hex(i+1, 2)
			case e == 'u':
				i = hex(i+1, 4)
			case e == 'U':
				i = hex(i+1, 8)
			default:
				l.fail(start, "bad escape")
			}
		default:
			i++
		}
	}
	l.fail(start, "literal not terminated")
	return i
}
