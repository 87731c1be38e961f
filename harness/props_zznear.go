package main

import (
	"strings"
)

// Neighbours that are equal: every sequence over two or three elements in every
// kind of list, chain, range and pair of parts. An element that is like the one
// before it, like the first one or like another part is still an element.

type repeatSpec struct {
	group           string
	open, sep, shut string
	a, b, c         string
}

var repeatSpecs = []repeatSpec{
	{"calendar", "when a in date[", ", ", "]", "2030-1-2", "2031-01-03", "2030-1-2 .. 2030-1-2"},
	{"calendar", "when a in time[", ",", "]", "1:2", "01:02:03", "1:02AM"},
	{"calendar", "when a in weekday[", ", ", "]", "sun", "mon", "sun .. sun"},
	{"calendar", "when a in month[", ", ", "]", "jan", "dec", "jan .. jan"},
	{"calendar", "when date[2030-2-29] in ", " .. ", "", "date[2030-2-29]", "date[2031-2-29]", "1"},
	{"numbers", "when a in [", ", ", "]", "1", "-1", "+1"},
	{"numbers", "when a in [", ",", "]", "0.0", "-0.0", "0.00"},
	{"numbers", "when a in [", ",", "]", "1h", "60m", "3600s"},
	{"numbers", "when a in [", ",", "]", "1km", "1.0km", "1000M"},
	{"numbers", "when a in [", ",", "]", "0C", "-0C", "+0F"},
	{"numbers", "when a in [", ",", "]", "1 .. 1", "1 .. 2", "-1C .. -1C"},
	{"numbers", "when a == ", " + ", "", "1", "1.0", "-1"},
	{"numbers", "when a == ", " - ", "", "5km", "5%", "a"},
	{"numbers", "when a in ", " .. ", "", "1", "2.5", "-3C"},
	{"numbers", "when a in ", " .. ", " and b", "1s", `"s"`, "@v"},
	{"geometry", "when line[", ", ", "]", "[1, 2]", "[2, 1]", "[1.0, 2]"},
	{"geometry", "when line[", ",", "]:5km", "[0, 0]", "[-0, 0]", "[0.0, -0.0]"},
	{"geometry", "when polygon[[", ",", "]]", "[1, 2]", "[3, 4]", "[-1, 2]"},
	{"geometry", "when polygon[", ",", "]", "[[1, 2],[3,4],[1,2]]", "[[1, 2],[3,4],[5,6],[1,2],[1,2]]", "[[1,2]]"},
	{"geometry", "when polygon[[", ",", "],[[1,2],[1,2],[1,2]]]", "[1, 2]", "[0, 0]", "[1,1]"},
	{"geometry", "when multipoint[", ",", "]", "point[1,2]", "point[1, 2]:5km", "point[0,0]"},
	{"geometry", "when multiline[", ",", "]", "line[[1,2],[1,2]]", "line[[1,2],[1,2]]:1M", "line[[0,0]]"},
	{"geometry", "when multipolygon[", ",", "]", "polygon[[[1,2],[1,2]]]", "polygon[[[1,2],[1,2]],[[1,2],[1,2]]]", "polygon[[[0,0]]]"},
	{"geometry", "when collection[", ",", "]", "point[1,2]", "line[[1,2],[1,2]]", "multipoint[point[1,2]]"},
	{"selectors", "when a{", ",", "} > 1", `"a"`, `"A"`, `"b"`},
	{"selectors", "when a{", ", ", "}:a == a", `""`, `" "`, `"a"`},
	{"selectors", "when a:", ", ", " > 1", "a", "1", "a{*}"},
	{"selectors", "when a:", ", ", "", "1km", "1km .. 1km", "point[1,2]:1km"},
	{"selectors", "when a in [", ", ", "]", "a", "A", "a{*}"},
	{"selectors", "when ", " in ", "", "a", "[a]", "(a)"},
	{"strings", "when a in [", ", ", "]", `"a"`, `"A"`, `""`},
	{"strings", "when a == ", " + ", "", `"a"`, `""`, `"\""`},
	{"strings", "when a in ", " .. ", "", `"a"`, `"b"`, `""`},
	{"chains", "when ", " and ", "", "a", "b", "true"},
	{"chains", "when ", " or ", "", "a", "(a)", "(a or a)"},
	{"chains", "when ", " and ", "", "a == 1", "a != 1", "(a == 1)"},
	{"chains", "when ", " eq ", " not eq a", "a", "1", "true"},
	{"chains", "when ", " / ", "", "a", "1", "(1 / 1)"},
	{"chains", "when ", " - ", " > 1", "1", "-1", "(1 - 1)"},
	{"chains", "when ", " nearby ", "", "point[1,2]", "point[1,2]:1km", "a"},
	{"set", "trigger set a = ", "; b = ", "; when a == b", "1", "@a", "[1, 1]"},
	{"set", "trigger set a = 1; B = ", " b = ", " when @a", "1", `"1"`, "1.0"},
	{"set", "trigger set ", " ", " when @a == @a", "a = 1;", "A = 1;", "b = a;"},
	{"repeat", "when a repeat 1 every ", " reset after ", "", "1m", "60s", "0.5m30s"},
	{"repeat", "when repeat ", " every ", "", "1", "1s", "a"},
}

func repeatSweep(group string) sweep {
	return sweep{"repeats", "every sequence of elements that are equal or nearly so, in every kind of list and chain", func(yield func(string) bool) {
		for _, r := range repeatSpecs {
			if group != "" && r.group != group {
				continue
			}
			for _, w := range []struct {
				parts []string
				n     int
			}{{[]string{r.a, r.b, r.c}, 5}, {[]string{r.a, r.b}, 8}} {
				if thorough {
					w.n += 2
				}
				var rec func(s string, k int) bool
				rec = func(s string, k int) bool {
					if k > 0 && !yield(r.open+s+r.shut) {
						return false
					}
					if k == w.n {
						return true
					}
					for _, p := range w.parts {
						t := p
						if k > 0 {
							t = s + r.sep + p
						}
						if !rec(t, k+1) {
							return false
						}
					}
					return true
				}
				if !rec("", 0) {
					return
				}
			}
		}
	}}
}

// Words that are almost those of the language, in every place a word can have.

var nearContexts = []string{
	"when a W b", "when a not W b", "when a W in b", "when W", "when W == 1", "when a == W", "when a not W", "when not W a",
	"W when a", "W a", "trigger W a", "trigger W b = 1 when a", "trigger set b = 1; W a", "trigger set W = 1 when @W", "when @W",
	"when a W", "when a W 5", "when a W after 1h", "when a reset W 1h", "when a repeat 1 W 1h", "when a W 1 every 1h",
	"when a in W[1, 2]", "when W[1:2]", "when W[2030-1-2]", "when W[mon]", "when W[jan]", "when W[[1,2]]", "when W[[[1,2]]]", "when W[point[1,2]]", "when collection[W[1,2]]",
	"when weekday[W]", "when month[W]", "when weekday[sun .. W]", "when month[W, jan]", "when time[1:2W]", "when time[1:2 W]",
	"when 5W", "when 5.5W", "when 5 W", "when -5W", "when a in [5W]", "when a repeat 1 every 5W", "when point[1,2]:5W", "when a in [W]", "when a:W", "when a{W}",
}

var languageWords = strings.Fields("trigger set when repeat every reset after and or not in eq intersects nearby rem mod range true false up down " +
	"date time weekday month point multipoint line multiline polygon multipolygon collection " +
	"sun mon tue wed thu fri sat jan feb mar apr may jun jul aug sep oct nov dec " +
	"h m s ms us ns km Km KM rkm Rkm M rM rm kph Kph KPH mph bar Bar psi PSI C c F f AM am Pm pm PCT Pct device tracker")

func nearWords(w string, yield func(string) bool) bool {
	seen := map[string]bool{}
	put := func(s string) bool {
		if s == "" || seen[s] {
			return true
		}
		seen[s] = true
		return yield(s)
	}
	extra := "abcdefghijklmnopqrstuvwxyz_019ASıſ"
	for i := 0; i <= len(w); i++ {
		for _, c := range extra {
			in := i == 0 || i == len(w)
			if !in && !thorough && c != 'a' && c != '_' && c != '1' {
				continue
			}
			if !put(w[:i] + string(c) + w[i:]) {
				return false
			}
		}
		if i == len(w) {
			break
		}
		if !put(w[:i]+w[i+1:]) || !put(w[:i]+strings.Repeat(w[i:i+1], 2)+w[i+1:]) || !put(w[:i]+strings.ToUpper(w[i:i+1])+w[i+1:]) {
			return false
		}
		for _, c := range []byte{w[i] - 1, w[i] + 1, w[i] ^ 0x10, 'x'} {
			if !put(w[:i] + string(rune(c)) + w[i+1:]) {
				return false
			}
		}
		if i+1 < len(w) && !put(w[:i]+w[i+1:i+2]+w[i:i+1]+w[i+2:]) {
			return false
		}
	}
	return put(w) && put(strings.ToUpper(w)) && put(w+w) && put(w+" "+w) && put(w+"_"+w) && put(w+"/**/") && put("not"+w) && put("in"+w) && put(w+"in")
}

func nearSweep() sweep {
	return sweep{"near words", "every word of the language with a letter more, less, doubled, changed or swapped, in every place of a word", func(yield func(string) bool) {
		for _, w := range languageWords {
			if !nearWords(w, func(s string) bool {
				for _, c := range nearContexts {
					if !yield(strings.ReplaceAll(c, "W", s)) {
						return false
					}
				}
				return true
			}) {
				return
			}
		}
	}}
}

func init() {
	add := func(id string, s sweep, judge func(*Case, *Obs) error) {
		props[id].parts = append(props[id].parts, &Part{name: s.name, about: s.about, enum: s.enum, judge: judge})
	}
	tokens := func(c *Case, o *Obs) error { return judgeTokens(&Case{In: c.In, N: []int64{0, 0}}, o) }
	all := repeatSweep("")
	add("C03", all, judgePart(true, false, false))
	add("C05", all, judgePart(false, true, false))
	add("C07", all, judgePart(false, false, true))
	add("C08", all, ifAccepted(judgeStable))
	add("C10", all, judgePart(true, false, false))
	add("C13", all, ifAccepted(judgeOrder))
	add("C02", all, judgeError)
	for id, group := range map[string]string{"C04": "chains", "C17": "set", "C18": "calendar", "C19": "numbers", "C20": "geometry", "C21": "selectors", "C22": "strings", "C23": "repeat"} {
		add(id, repeatSweep(group), judgeFull)
	}
	near := nearSweep()
	add("C02", near, judgeError)
	add("C03", near, judgePart(true, false, false))
	add("C05", near, judgePart(false, true, false))
	add("C07", near, judgePart(false, false, true))
	add("C14", near, tokens)
}
