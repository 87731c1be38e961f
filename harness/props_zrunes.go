package main

import (
	"strings"
	"unicode"
	"unicode/utf8"
)

// Every character of Unicode in every place a character can have: alone, in a
// name, in a string, in a comment, between tokens.

// runes yields the characters in runs of n. Quick runs leave out most of what
// is not assigned and sample the rest of the higher planes.
func runes(n int, yield func(rs []rune) bool) {
	var rs []rune
	run := 0
	for r := rune(1); r <= unicode.MaxRune; r++ {
		if utf8.ValidRune(r) && r != 0xfeff {
			rs = append(rs, r)
		}
		if len(rs) < n && r < unicode.MaxRune {
			continue
		}
		run++
		if last := rs[len(rs)-1]; thorough || last < 0x3400 || last > 0x9fff && last < 0xac10 || run%8 == 0 && last < 0x33000 || run%64 == 0 {
			if !yield(rs) {
				return
			}
		}
		rs = nil
	}
}

// runeTexts lists texts with the characters of a run: those that are words,
// those between words, in strings and in comments.
func runeTexts(where string) sweep {
	return sweep{"characters", "every character of Unicode in every place a character can have", func(yield func(string) bool) {
		switch where {
		case "alone":
			runes(1, func(rs []rune) bool {
				s := string(rs)
				return yield("when a > 1 and "+s) && yield("when a"+s+" > 1") && yield("when "+s+"a > 1") && yield("when [1,"+s+"2]")
			})
		case "names":
			runes(64, func(rs []rune) bool {
				var names, vars, refs []string
				for _, r := range rs {
					s := string(r)
					if unicode.IsLetter(r) && isName(s) {
						names = append(names, s+" > 1", "x"+s+s+"{*} == 2", s+"9", "b:"+s)
						vars = append(vars, s+" = 1", "v"+s+" = 2")
						refs = append(refs, "@"+s, "@v"+s)
					} else if unicode.IsDigit(r) {
						names = append(names, "x"+s, "_"+s+"b")
					}
				}
				if len(names) == 0 {
					return true
				}
				text := "when " + strings.Join(names, " and ")
				if !yield(text) {
					return false
				}
				if len(vars) > 0 {
					return yield("trigger set " + strings.Join(vars, "\n") + " " + text + " and q in [" + strings.Join(refs, ", ") + "]")
				}
				return true
			})
		case "strings":
			runes(64, func(rs []rune) bool {
				var quoted []string
				for _, r := range rs {
					if r != '"' && r != '\\' && r != '\n' {
						s := string(r)
						quoted = append(quoted, `"`+s+`"`, `"a`+s+`\"`+s+`"`)
					}
				}
				all := strings.Join(quoted, ", ")
				return len(quoted) == 0 || yield("when a in ["+all+"]") && yield("when a{"+all+"} == "+quoted[0])
			})
		case "comments":
			runes(64, func(rs []rune) bool {
				var b strings.Builder
				b.WriteString("when a")
				for _, r := range rs {
					s := string(r)
					if r == '\n' {
						continue
					}
					b.WriteString("\nand //" + s + "\nb /*" + s + "x" + s + "*/ /* " + s + "*/> 1")
				}
				return yield(b.String()) && yield(b.String()+"//"+string(rs[len(rs)-1:])+" or c")
			})
		}
	}}
}

func init() {
	add := func(id string, judge func(*Case, *Obs) error, places ...string) {
		for _, where := range places {
			s := runeTexts(where)
			props[id].parts = append(props[id].parts, &Part{name: "characters " + where, about: s.about, enum: s.enum, judge: judge})
		}
	}
	add("C01", judgeTotal, "alone")
	add("C02", judgeError, "alone")
	add("C03", judgePart(true, false, false), "names", "strings")
	add("C05", judgePart(false, true, false), "alone")
	add("C06", judgePart(true, true, false), "comments")
	add("C07", judgePart(false, false, true), "names", "strings", "comments")
	add("C08", ifAccepted(judgeStable), "names", "strings")
	add("C10", judgePart(true, false, false), "names", "strings", "comments")
	add("C17", judgeFull, "names")
	add("C21", judgeFull, "names")
	add("C22", judgeFull, "strings")
	tokens := func(c *Case, o *Obs) error { return judgeTokens(&Case{In: c.In, N: []int64{0, 0}}, o) }
	add("C14", tokens, "alone", "names", "strings", "comments")

	props["C15"].parts = append(props["C15"].parts, &Part{name: "characters", about: "every character of Unicode alone, in a word, a literal and a comment", judge: judgeScan,
		enum: func(yield func(*Case) bool) {
			runes(64, func(rs []rune) bool {
				var b strings.Builder
				for _, r := range rs {
					if r < 0x80 {
						continue
					}
					s := string(r)
					b.WriteString(s + " a" + s + "\t" + s + "b\n'" + s + "' \"" + s + "\" `" + s + "`/*" + s + "*/" + s + s + "=" + s + "//" + s + "\n")
				}
				text := b.String()
				for mode := range scanModes {
					if mode > 2 && rs[0] > 0x3000 {
						break
					}
					for rule := 0; rule < 4; rule++ {
						if !yield(&Case{In: one(text).In, N: []int64{0, 0, int64(mode), int64((mode + rule) % 4), int64(rule)}}) {
							return false
						}
					}
				}
				return true
			})
			for r := rune(1); r < 0x80; r++ {
				s := string(r)
				for _, text := range []string{s, "a" + s, s + "b", "1" + s, " " + s + " ", s + s + s, "\"" + s + "\"", "'" + s + "'", "`" + s + "`", "/*" + s + "*/", "//" + s} {
					for mode := range scanModes {
						for rule := 0; rule < 4; rule++ {
							if !yield(&Case{In: one(text).In, N: []int64{0, 0, int64(mode), int64((mode + rule) % 4), int64(rule)}}) {
								return
							}
						}
					}
				}
			}
		}})
}
