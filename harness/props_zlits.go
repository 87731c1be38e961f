package main

import (
	"fmt"
	"strconv"
	"strings"
	"time"

	geo "github.com/mmadfox/go-geoql-parser"
)

// Sweeps over literals: finite spaces listed in full. A sweep is judged by the
// reference parser, by Format and Parse, or by both, depending on the property.

type sweep struct {
	name, about string
	texts       func(yield func(string) bool)
}

func (s sweep) enum(yield func(*Case) bool) {
	s.texts(func(t string) bool { return yield(one(t)) })
}

// judgeFull is agreement with the reference parser, positions included, and
// the round trip through Format.
func judgeFull(c *Case, o *Obs) error {
	if err := judgePart(true, true, true)(c, o); err != nil {
		return err
	}
	return nil
}

// judgePart compares with the reference parser (accepted or rejected texts)
// and through Format.
func judgePart(accepts, rejects, round bool) func(*Case, *Obs) error {
	return func(c *Case, o *Obs) error {
		src := string(c.In[0])
		ref := refParse(src)
		o.hit("ref:" + ref.v.String())
		stmt, got, err := parse(src)
		switch {
		case ref.v == vAccept:
			o.nonTrivial()
			if err != nil {
				return fmt.Errorf("well-formed text rejected: %v\n  want %s", err, clip(DumpDoc(ref.doc, false), 600))
			}
			if accepts {
				if e := diff("trees", DumpDoc(ref.doc, false), DumpDoc(got, false)); e != nil {
					return e
				}
				if !ref.lex.bom {
					if e := diff("positions", DumpDoc(ref.doc, true), DumpDoc(got, true)); e != nil {
						return e
					}
				}
			}
		case ref.v == vReject && rejects:
			o.nonTrivial()
			if err == nil {
				return fmt.Errorf("malformed text accepted (%s at offset %d) as %s", ref.why, ref.at, clip(DumpDoc(got, false), 600))
			}
		}
		if !round || err != nil {
			return nil
		}
		if ref.v == vSoft && oddity(got) {
			return nil
		}
		out, err := format(stmt)
		if err != nil {
			return fmt.Errorf("Format: %v", err)
		}
		_, back, err := parse(out)
		if err != nil {
			return fmt.Errorf("formatted text does not parse: %v\n%s", err, clip(out, 800))
		}
		return diff("trees of the text and of its formatted text", DumpDoc(got, false), DumpDoc(back, false))
	}
}

var dateSweeps = []sweep{
	{"dates", "every year 2021-2201, month 0-13, day 0-32 in one of three places", func(yield func(string) bool) {
		for y := 2021; y <= 2201; y++ {
			for m := 0; m <= 13; m++ {
				for d := 0; d <= 32; d++ {
					s := fmt.Sprintf("%04d-%02d-%02d", y, m, d)
					if (y+m+d)%3 == 0 {
						s = fmt.Sprintf("%d-%d-%d", y, m, d)
					}
					var t string
					switch (y*7 + m*3 + d) % 4 {
					case 0, 1:
						t = "when a in date[" + s + "]"
					case 2:
						t = "when a in date[2030-10-20, " + s + "]"
					case 3:
						t = "when a in date[" + s + " .. 2030-10-20]"
					}
					if !yield(t) {
						return
					}
				}
			}
		}
	}},
	{"times", "every hour 0-25 and minute 0-60, with seconds and units", func(yield func(string) bool) {
		secs := []int{-1, 0, 1, 9, 10, 30, 59, 60}
		if thorough {
			secs = secs[:1]
			for s := 0; s <= 60; s++ {
				secs = append(secs, s)
			}
		}
		units := []string{"", "AM", "PM", "am", "pm", "Am", "Pm", "aM", "m", "a"}
		for h := 0; h <= 25; h++ {
			for m := 0; m <= 60; m++ {
				for _, s := range secs {
					for _, u := range units {
						t := fmt.Sprintf("%02d:%02d", h, m)
						if (h+m)%3 == 0 {
							t = fmt.Sprintf("%d:%d", h, m)
						}
						if s >= 0 {
							t += fmt.Sprintf(":%02d", s)
						}
						t += u
						switch (h*5 + m*3 + s + len(u)) % 3 {
						case 0:
							t = "when a in time[" + t + "]"
						case 1:
							t = "when a in time[12:30, " + t + "]"
						case 2:
							t = "when a in time[" + t + " .. 12:30PM]"
						}
						if !yield(t) {
							return
						}
					}
				}
			}
		}
	}},
	{"names", "every word of three letters as a weekday and as a month", func(yield func(string) bool) {
		const abc = "abcdefghijklmnopqrstuvwxyz"
		for _, kind := range []string{"weekday", "month"} {
			for i := 0; i < 26*26*26; i++ {
				w := string([]byte{abc[i/676], abc[i/26%26], abc[i%26]})
				for _, t := range []string{"when " + kind + "[" + w + "]", "when " + kind + "[" + w + " .. " + w + "]"} {
					if !yield(t) {
						return
					}
				}
			}
			for _, list := range [][]string{wdayNames, monthNames, {"sunday", "monday", "january", "march", "sept", "0", "1", "7", "12", "13", "s", "su", ""}} {
				for _, w := range list {
					if w == "" {
						w = "tues"
					}
					for k := 0; k < 1<<uint(min(len(w), 4)); k++ {
						b := []byte(w)
						for j := range b {
							if j < 4 && k>>uint(j)&1 == 1 {
								b[j] = strings.ToUpper(w)[j]
							}
						}
						v := string(b)
						for _, t := range []string{v, v + " .. " + w, w + ", " + v, v + "," + v + ", " + w, v + " range " + v, v + " ..", v + " " + w, v + " .. " + w + ", " + v} {
							for _, kw := range []string{kind, strings.ToUpper(kind)} {
								if !yield("when a in " + kw + "[" + t + "]") {
									return
								}
							}
						}
					}
				}
			}
		}
	}},
	{"separators", "short sequences of date and time tokens between the brackets", func(yield func(string) bool) {
		for _, set := range []struct {
			kind  string
			parts []string
		}{
			{"date", []string{"2030-10-20", "2030", "-", "10", "20", ",", "..", ":", "range"}},
			{"time", []string{"11:12", "11", ":", "12", "AM", ",", "..", "-", "pm"}},
			{"weekday", []string{"sun", "Mon", ",", "..", "range", "jan", "1", ":", "not"}},
			{"month", []string{"jan", "Feb", ",", "..", "range", "sun", "2", ":", "not"}},
		} {
			n := 4
			if thorough {
				n = 6
			}
			if !sequences(set.parts, n, func(s string) bool { return yield("when " + set.kind + "[" + s + "]") }) {
				return
			}
		}
	}},
}

// sequences lists all sequences of up to n parts.
func sequences(parts []string, n int, yield func(string) bool) bool {
	var rec func(s string, k int) bool
	rec = func(s string, k int) bool {
		if !yield(s) {
			return false
		}
		if k == n {
			return true
		}
		for _, p := range parts {
			t := s
			if t != "" {
				t += " "
			}
			if !rec(t+p, k+1) {
				return false
			}
		}
		return true
	}
	return rec("", 0)
}

var numberContexts = [][2]string{
	{"when ", ""}, {"when a > ", ""}, {"when a in [", "]"}, {"when a in 1 .. ", ""}, {"when a in ", " .. 5"}, {"when a:", ""}, {"when a:1, ", " > 3"},
	{"when a repeat ", ""}, {"when a repeat 3 every ", ""}, {"when a reset after ", ""}, {"when a repeat ", " every 5s reset after 1h"},
	{"trigger set b = ", "; when a"}, {"when (", ")"}, {"when point[", ", 1]"}, {"when point[1, ", "]"}, {"when line[[1,", "]]:5km"}, {"when point[1,1]:", ""}, {"when line[[1,1]]:", ""},
	{"when a in [1, ", "]"}, {"when ", " * 2"}, {"when date[2030-10-", "]"}, {"when date[", "-10-20]"}, {"when time[", ":10]"}, {"when time[10:10:", "]"}, {"when 2 - ", ""}, {"when 2*", " - 3"},
}

var unitSpellings = []string{"km", "Km", "rkm", "rKM", "Rkm", "M", "rm", "rM", "Rm", "kph", "KPH", "Kph", "mph", "MPH", "Mph", "c", "C", "f", "F", "bar", "Bar", "BAR", "psi", "Psi", "PSI", "%", "PCT", "Pct",
	"pct", "si", "met", "am", "pm", "h", "m", "s", "ms", "us", "ns", "H", "S", "Ms", "KM", "kM", "RM", "RKM", "kPh", "KpH", "mPh", "BaR", "pSI", "PcT", "hour", "min", "sec", "h1m", "h1", "m5s", "s5ms", "h5h", "h1x", "d", "w", "µs", "μs", "hm", "_", "x", "e5", "x10", "h_1"}

var numberSpellings = []string{"0", "1", "5", "07", "12", "20", "100", "2030", "9223372036854775807", "9223372036854775808", "99999999999999999999", "0.0", "1.5", "0.5", "7.", "07.50", "1000000.000001",
	"1e5", "1.5e3", "0x1F", "0b11", "0o17", "1_000", "1_0.5", ".5", "1..", "1.5.5", "123456789012345678901234567890.5"}

var numberSweeps = []sweep{
	{"integers", "powers of two and ten with neighbours, everything up to 3000", func(yield func(string) bool) {
		each := func(lit string) bool {
			for _, sign := range []string{"", "-", "+", "- ", "0", "--", "-+"} {
				for _, t := range []string{"when " + sign + lit, "when a in [" + sign + lit + ", 2]", "when a - " + sign + lit + " .. 3", "when a:" + sign + lit, "when a repeat " + sign + lit, "when point[" + sign + lit + "," + sign + lit + "]"} {
					if !yield(t) {
						return false
					}
				}
			}
			return true
		}
		for i := 0; i <= 3000; i++ {
			if !each(strconv.Itoa(i)) {
				return
			}
		}
		for k := uint(0); k < 66; k++ {
			for d := int64(-2); d <= 2; d++ {
				v := uint64(1)<<(k%64) + uint64(d)
				if !each(strconv.FormatUint(v, 10)) {
					return
				}
			}
		}
		p := "1"
		for k := 0; k < 25; k++ {
			if !each(p) || !each(strings.Repeat("9", k+1)) || !each("0"+p) {
				return
			}
			p += "0"
		}
	}},
	{"units", "every number spelling with every unit in every place", func(yield func(string) bool) {
		for _, ctx := range numberContexts {
			for _, num := range numberSpellings {
				for _, sign := range []string{"", "-", "+"} {
					for _, u := range append([]string{""}, unitSpellings...) {
						if !yield(ctx[0] + sign + num + u + ctx[1]) {
							return
						}
					}
				}
			}
		}
	}},
	{"unit words", "every word of up to three letters behind a number", func(yield func(string) bool) {
		const abc = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
		lim := 26
		if thorough {
			lim = 52
		}
		var rec func(w string) bool
		rec = func(w string) bool {
			if w != "" {
				for _, n := range []string{"10", "2.5", "-3"} {
					if !yield("when a > " + n + w) {
						return false
					}
				}
			}
			if len(w) == 3 {
				return true
			}
			for i := 0; i < lim; i++ {
				if !rec(w + abc[i:i+1]) {
					return false
				}
			}
			return true
		}
		rec("")
		for _, a := range abc {
			for _, b := range abc {
				if !yield(fmt.Sprintf("when a > 10%c%c", a, b)) || !yield(fmt.Sprintf("when a > 10 %c", a)) {
					return
				}
			}
		}
	}},
	{"durations", "hours, minutes and seconds in all combinations", func(yield func(string) bool) {
		step := 1
		if !thorough {
			step = 3
		}
		for h := -1; h <= 30; h += step {
			for m := -1; m <= 61; m += step {
				for s := -1; s <= 61; s += step {
					w := ""
					if h >= 0 {
						w += fmt.Sprintf("%dh", h)
					}
					if m >= 0 {
						w += fmt.Sprintf("%dm", m)
					}
					if s >= 0 {
						w += fmt.Sprintf("%ds", s)
					}
					if w == "" {
						continue
					}
					var t string
					switch (h + m + s) & 3 {
					case 0:
						t = "when a > " + w
					case 1:
						t = "when a repeat 2 every " + w
					case 2:
						t = "when a reset after " + w
					case 3:
						t = "when a in [" + w + " .. 5h, 1s .. " + strings.ToUpper(w) + "]"
					}
					if !yield(t) {
						return
					}
				}
			}
		}
	}},
}

var geoSweeps = []sweep{
	{"brackets", "short sequences of geometry tokens", func(yield func(string) bool) {
		n := 5
		if thorough {
			n = 6
		}
		parts := []string{"[1,2]", "[", "]", ",", "1", "-2.5", ":", "[[1,2],[3,4]]"}
		for _, open := range []string{"when point", "when line", "when polygon", "when a in line[", "when polygon["} {
			if !sequences(parts, n, func(s string) bool { return yield(open + s) }) {
				return
			}
		}
		parts = []string{"point[1,2]", "line[[1,2],[3,4]]", "polygon[[[1,2],[3,4],[5,6]]]", ",", ":5km", ":5M", "[", "]"}
		for _, open := range []string{"when multipoint", "when multiline", "when multipolygon", "when collection", "when collection[multipoint", "when a intersects collection["} {
			if !sequences(parts, n-1, func(s string) bool { return yield(open + s + "]") }) {
				return
			}
		}
	}},
	{"shapes", "numbers of positions, rings and members", func(yield func(string) bool) {
		pos := func(i int) string {
			x, y := i*7%181-90, (i*13%360-180)*10+i%10
			return fmt.Sprintf("[%d.%d, %d]", x, i%10, y/10)
		}
		join := func(n int, f func(i int) string) string {
			var s []string
			for i := 0; i < n; i++ {
				s = append(s, f(i))
			}
			return "[" + strings.Join(s, ", ") + "]"
		}
		for n := 0; n <= 40; n++ {
			line := join(n, pos)
			for _, tail := range []string{"", ":5km", ":0.5M", " : 10Rm"} {
				for _, w := range []string{"line", "LINE", "Line"} {
					if !yield("when a intersects " + w + line + tail) {
						return
					}
				}
			}
			for k := 0; k <= 6; k++ {
				poly := "polygon" + join(k, func(i int) string { return join(n-i, pos) })
				for _, t := range []string{"when " + poly, "when multipolygon[" + poly + "]", "when collection[" + poly + ", point[1,1]:3km]", "trigger set p = " + poly + " when a not intersects @p", "when " + poly + ":5km"} {
					if !yield(t) {
						return
					}
				}
				t := "when collection" + join(k, func(i int) string {
					switch (i + n) % 6 {
					case 0:
						return "point" + pos(n+i)
					case 1:
						return "line" + line + ":5km"
					case 2:
						return "polygon[" + line + "]"
					case 3:
						return "multipoint[point" + pos(n) + ":1km]"
					case 4:
						return "multiline[line" + line + "]"
					}
					return "multipolygon[polygon[" + line + "]]"
				})
				if !yield(t) || !yield("when multipoint"+join(n, func(i int) string { return "point" + pos(i+k) })) || !yield("when multiline"+join(k, func(i int) string { return "line" + line })) {
					return
				}
			}
		}
	}},
	{"coordinates", "signs and spellings of coordinates", func(yield func(string) bool) {
		for _, x := range numberSpellings {
			for _, y := range numberSpellings {
				for _, sx := range []string{"", "-", "+", "--", "- "} {
					for _, sy := range []string{"", "-"} {
						p := "[" + sx + x + ", " + sy + y + "]"
						if !yield("when point"+p) || !yield("when line[[0,0],"+p+"]") {
							return
						}
					}
				}
			}
		}
	}},
}

var selSweeps = []sweep{
	{"args", "short sequences between the braces", func(yield func(string) bool) {
		n := 5
		if thorough {
			n = 7
		}
		parts := []string{"*", `"a"`, `"b"`, `""`, ",", "a", "1"}
		for _, open := range [][2]string{{"when x{", "}"}, {"when x{", "}:1km > 5"}} {
			if !sequences(parts, n, func(s string) bool { return yield(open[0] + s + open[1]) }) {
				return
			}
		}
	}},
	{"props", "short sequences behind a selector", func(yield func(string) bool) {
		n := 4
		if thorough {
			n = 5
		}
		parts := []string{":", ",", "1", "2km", "b", "{*}", `{"a"}`, "> 5", "..", "@v", "-3"}
		for _, open := range []string{"when x", `when x{"i", *}`} {
			if !sequences(parts, n, func(s string) bool { return yield(open + s) }) {
				return
			}
		}
	}},
	{"runes", "every character of the basic plane at the start and inside of a name", func(yield func(string) bool) {
		for r := rune(1); r < 0x10000; r++ {
			if r >= 0xD800 && r < 0xE000 {
				continue
			}
			if !yield("when a"+string(r)+"b > 1") || !yield("when "+string(r)+"x > 1") || !yield("trigger set "+string(r)+" = 1 when @"+string(r)) {
				return
			}
		}
		for r := rune(0x10000); r < 0x20000; r += 7 {
			if !yield("when a" + string(r) + "b > 1") {
				return
			}
		}
	}},
	{"words", "every reserved word in every casing as a name", func(yield func(string) bool) {
		for w := range sorted(reserved) {
			k := uint(len(w))
			if k > 7 {
				k = 7
			}
			for m := 0; m < 1<<k; m++ {
				b := []byte(w)
				for j := range b {
					if uint(j) < k && m>>uint(j)&1 == 1 {
						b[j] -= 32
					}
				}
				for _, t := range []string{string(b), string(b) + "_", string(b) + "1", "x" + string(b), "_" + string(b)} {
					if !yield("when "+t+" > 1") || !yield("trigger set "+t+" = 1; when a > @"+t) || !yield("when a:"+t) {
						return
					}
				}
			}
		}
	}},
	{"lengths", "names and ids of every length", func(yield func(string) bool) {
		for n := 1; n < 1300; n++ {
			s := strings.Repeat("abcdefghij", n/10+1)[:n]
			if !yield("when x"+s+" > 1") || !yield(`when x{"`+s+`", *}`) || !yield("when "+strings.Repeat(" ", n)+"Speed > 1") {
				return
			}
		}
	}},
}

func sorted(m map[string]bool) func(func(string) bool) {
	return func(yield func(string) bool) {
		for _, w := range vocab {
			if m[w] && !yield(w) {
				return
			}
		}
	}
}

var strContexts = [][2]string{{"when ", ""}, {"when a == ", " and b"}, {"when a in [\"k\", ", "]"}, {"when x{", "}"}, {"when x{*, ", ", \"z\"}"}, {"trigger set s = ", "; when @s"}, {"when ", " .. \"z\""}}

var strSweeps = []sweep{
	{"runes", "every character of the basic plane inside a string", func(yield func(string) bool) {
		for r := rune(0); r < 0x10000; r++ {
			if r >= 0xD800 && r < 0xE000 {
				continue
			}
			ctx := strContexts[int(r)%len(strContexts)]
			if !yield(ctx[0]+"\"p"+string(r)+"q\""+ctx[1]) || r < 256 && !yield("when \""+string(r)+"\"") {
				return
			}
		}
	}},
	{"bytes", "every byte, and pairs of bytes, inside a string", func(yield func(string) bool) {
		for a := 0; a < 256; a++ {
			for _, ctx := range strContexts {
				if !yield(ctx[0] + "\"p" + string([]byte{byte(a)}) + "q\"" + ctx[1]) {
					return
				}
			}
			for b := 0; b < 256; b += 1 {
				if !thorough && (a*31+b*17)%5 != 0 {
					continue
				}
				if !yield("when a == \"" + string([]byte{byte(a), byte(b)}) + "\"") {
					return
				}
			}
		}
	}},
	{"escapes", "every escape of up to three characters, and those with code points", func(yield func(string) bool) {
		for a := 32; a < 127; a++ {
			if !yield(fmt.Sprintf("when \"\\%c\"", a)) {
				return
			}
			for b := 32; b < 127; b++ {
				if !yield(fmt.Sprintf("when \"\\%c%c\"", a, b)) || !yield(fmt.Sprintf("when x{\"\\%c%cz\"}", a, b)) {
					return
				}
			}
		}
		for n := 0; n < 512; n++ {
			if !yield(fmt.Sprintf("when \"\\%03o\"", n)) || !yield(fmt.Sprintf("when \"\\x%02x%X\"", n%256, n)) || !yield(fmt.Sprintf("when \"\\x%x\"", n%20)) {
				return
			}
		}
		for n := 0; n <= 0x110010; n += 37 {
			if !yield(fmt.Sprintf("when \"\\U%08x\"", n)) || n < 0x10000 && !yield(fmt.Sprintf("when \"\\u%04X-\"", n)) {
				return
			}
		}
		for n := 0xD7F0; n < 0xE010; n++ {
			if !yield(fmt.Sprintf("when \"\\u%04x\"", n)) || !yield(fmt.Sprintf("when \"\\U%08X\"", n)) {
				return
			}
		}
		for n := 0x10FFF0; n < 0x110010; n++ {
			if !yield(fmt.Sprintf("when \"\\U%08x\"", n)) {
				return
			}
		}
	}},
	{"quotes", "short sequences of quotes, backslashes and characters", func(yield func(string) bool) {
		n := 6
		if thorough {
			n = 8
		}
		parts := []string{`"`, `\`, `\"`, "a", "'"}
		var rec func(s string, k int) bool
		rec = func(s string, k int) bool {
			if !yield("when a == \""+s) || k < n-1 && !yield("when x{\""+s+"}") {
				return false
			}
			if k == n {
				return true
			}
			for _, p := range parts {
				if !rec(s+p, k+1) {
					return false
				}
			}
			return true
		}
		rec("", 0)
	}},
	{"lengths", "strings of every length", func(yield func(string) bool) {
		for n := 0; n < 1300; n++ {
			for _, u := range []string{"x", "é", "\\n", "日"} {
				s := strings.Repeat(u, n/len(u))
				if !yield("when a == \""+s+"\"") || !yield("when "+strings.Repeat(" ", n)+"a == \"日本\\\"é\"") {
					return
				}
			}
		}
	}},
}

var repeatSweeps = []sweep{
	{"sequences", "short sequences behind the condition", func(yield func(string) bool) {
		n := 5
		if thorough {
			n = 6
		}
		parts := []string{"repeat", "every", "reset", "after", "3", "10s", "1.5h", "a", "and b"}
		sequences(parts, n, func(s string) bool { return yield("when a " + s) })
	}},
	{"counts", "repeat counts and durations", func(yield func(string) bool) {
		for _, n := range append(append([]string{}, intEdges...), "-1", "+1", "1.5", "1.", "0.0", "5s", "5%", "a", "\"5\"", "*", "@n", "(5)", "[5]", "5 .. 6", "-0", "9223372036854775808", "99999999999999999999") {
			for _, e := range []string{"", " every 10s", " EVERY 1h2m3s", " every 0s", " every 1.5h", " every 10", " every 5km", " every", " every -5s", " every +5s", " every a", " every 10 s", " every 1ms", " every 1000h", " every 2562047h", " every 2562048h", " for 10s", " 10s"} {
				for _, r := range []string{"", " reset after 1h", " RESET AFTER 0.5s", " reset 1h", " reset after", " reset after 5", " reset after 1h 2", " reset after 1h repeat 2", " reset every 1h", " reset after 5km", " reset after reset"} {
					if !yield("when a repeat "+n+e+r) || !yield("trigger set b = 1 when a > @b Repeat "+n+e+r) {
						return
					}
				}
			}
		}
	}},
	{"plain", "counts up to 3000", func(yield func(string) bool) {
		for i := 0; i <= 3000; i++ {
			if !yield(fmt.Sprintf("when a repeat %d", i)) || !yield(fmt.Sprintf("when a repeat %d every %ds reset after %dm", i, i, i)) || !yield(fmt.Sprintf("when a repeat %d reset after %dms", i, i)) || !yield(fmt.Sprintf("when a reset after %d.%dh", i%100, i)) {
				return
			}
		}
	}},
}

func init() {
	mk := func(id, rule string, sweeps []sweep, more ...*Part) {
		p := &Prop{id: id, rule: rule}
		for _, s := range sweeps {
			p.parts = append(p.parts, &Part{name: s.name, about: s.about, enum: s.enum, judge: judgeFull})
		}
		p.parts = append(p.parts, more...)
		register(p)
	}
	lit := func(kinds ...string) func(g *G) *Case {
		return func(g *G) *Case {
			return treeCase(g, g.literalDoc(kinds))
		}
	}
	broken := func(kinds ...string) func(g *G) *Case {
		return func(g *G) *Case {
			d := g.literalDoc(kinds)
			st := g.style()
			r := g.lexemes(d, st)
			for k := 1 + g.n(2); k > 0; k-- {
				g.mutate(r)
			}
			text := ""
			if len(r.out) > 0 {
				text, _ = g.layout(r, st)
			}
			return one(text)
		}
	}
	const rule = "a text around literals of this kind; non-trivial when the reference parser says accepted or rejected, and not that the documentation leaves it open"
	mk("C18", rule, dateSweeps,
		&Part{name: "docs", n: 150000, about: "documents with calendar literals", gen: lit("cal"), judge: judgeTreeRound},
		&Part{name: "broken", n: 150000, about: "such documents with tokens changed", gen: broken("cal"), judge: judgeFull})
	mk("C19", rule, numberSweeps,
		&Part{name: "docs", n: 150000, about: "documents with numbers, quantities and durations", gen: lit("int", "float", "pct", "speed", "temp", "press", "dist", "dur", "range", "arr"), judge: judgeTreeRound},
		&Part{name: "digits", n: 100000, about: "numbers with many digits", gen: genDigits, judge: judgeFull},
		&Part{name: "sums", n: 100000, about: "a duration is the sum of its parts", gen: genSums, judge: judgeSums},
		&Part{name: "broken", n: 100000, about: "such documents with tokens changed", gen: broken("int", "float", "pct", "speed", "temp", "press", "dist", "dur", "range", "arr"), judge: judgeFull})
	mk("C20", rule, geoSweeps,
		&Part{name: "docs", n: 150000, about: "documents with geometries", gen: lit("geo"), judge: judgeTreeRound},
		&Part{name: "broken", n: 150000, about: "such documents with tokens changed", gen: broken("geo"), judge: judgeFull})
	mk("C21", rule, selSweeps,
		&Part{name: "docs", n: 200000, about: "documents with selectors", gen: lit("sel"), judge: judgeTreeRound},
		&Part{name: "broken", n: 100000, about: "such documents with tokens changed", gen: broken("sel"), judge: judgeFull})
	mk("C22", rule, strSweeps,
		&Part{name: "docs", n: 200000, about: "documents with strings", gen: lit("str"), judge: judgeTreeRound},
		&Part{name: "broken", n: 60000, about: "such documents with bytes changed", gen: func(g *G) *Case {
			d := g.literalDoc([]string{"str"})
			b := []byte(g.render(d, g.style()))
			for k := 1 + g.n(2); k > 0 && len(b) > 0; k-- {
				i := g.n(len(b))
				x := pick[byte](g, '"', '\\', '\n', 'x', 'u', '0', 0, 0xff, '\'', '`', ' ')
				if g.bit() {
					b[i] = x
				} else {
					b = append(b[:i:i], append([]byte{x}, b[i:]...)...)
				}
			}
			return one(string(b))
		}, judge: judgeFull})
	mk("C23", rule, repeatSweeps,
		&Part{name: "docs", n: 150000, about: "documents with all parts", gen: func(g *G) *Case {
			g.budget = 8
			d := g.plainDoc(func(int) *Node { return g.expr(1) })
			if !d.RepeatWord && g.bit() {
				d.RepeatWord, d.RepeatCount, d.RepeatInterval = true, g.repeatCount(), g.plainDur()
			}
			if d.ResetA == nil && g.bit() {
				d.ResetA = g.plainDur()
			}
			return treeCase(g, d)
		}, judge: judgeTreeRound},
		&Part{name: "broken", n: 150000, about: "such documents with tokens changed at the end", gen: func(g *G) *Case {
			g.budget = 4
			d := &Doc{Trig: g.bit(), When: g.exprOf(1+g.n(2), 1)}
			g.tailParts(d)
			st := g.style()
			r := g.lexemes(d, st)
			g.mutate(r)
			text := ""
			if len(r.out) > 0 {
				text, _ = g.layout(r, st)
			}
			return one(text)
		}, judge: judgeFull})

	// the broad properties see the sweeps as well
	add := func(id string, judge func(*Case, *Obs) error) {
		p := props[id]
		for _, group := range []struct {
			name string
			s    []sweep
		}{{"calendar", dateSweeps}, {"numbers", numberSweeps}, {"geometry", geoSweeps}, {"selectors", selSweeps}, {"strings", strSweeps}, {"repeat", repeatSweeps}} {
			for _, s := range group.s {
				p.parts = append(p.parts, &Part{name: group.name + " " + s.name, about: s.about, enum: s.enum, judge: judge})
			}
		}
	}
	add("C03", judgePart(true, false, false))
	add("C05", judgePart(false, true, false))
	add("C07", judgePart(false, false, true))
}

// judgeTreeRound: the tree is the one the document was written from, before
// and after Format.
func judgeTreeRound(c *Case, o *Obs) error {
	if err := wantTree(c, o); err != nil {
		return err
	}
	return judgeRound(c, &Obs{})
}

// literalDoc draws a document of a few operands of the given kinds in any place.
func (g *G) literalDoc(kinds []string) *Doc {
	g.budget = 6
	one := func(depth int) *Node { return g.atom(kinds[g.n(len(kinds))], depth, false) }
	d := &Doc{Trig: g.bit()}
	switch g.n(8) {
	case 0:
		d.When = one(1)
	case 1, 2, 3:
		var operands []*Node
		var ops []geo.Token
		k := 2 + g.n(3)
		for i := 0; i < k; i++ {
			if g.p(60) {
				operands = append(operands, one(1))
			} else {
				operands = append(operands, g.leaf())
			}
			if i+1 < k {
				ops = append(ops, binOps[g.n(len(binOps))])
			}
		}
		d.When = buildPrec(operands, ops)
	case 4:
		d.Trig, d.SetWord = true, true
		for i, k := 0, 1+g.n(3); i < k; i++ {
			g.inSet = true
			v := one(1)
			g.inSet = false
			d.Vars = append(d.Vars, &Node{K: "assign", Kids: []*Node{{K: "ident", S: "v" + strconv.Itoa(i)}, v}})
		}
		d.When = &Node{K: "bin", Op: binOps[g.n(len(binOps))], Kids: []*Node{{K: "ref", S: "v0"}, {K: "sel", S: "a", Wild: true}}}
	case 5:
		kind := kinds[g.n(len(kinds))]
		if arrayToken(kind) == geo.ILLEGAL {
			d.When = &Node{K: "paren", Kids: []*Node{one(1)}}
			break
		}
		n := &Node{K: "arr", AK: arrayToken(kind)}
		for i, k := 0, 1+g.n(5); i < k; i++ {
			n.Kids = append(n.Kids, g.atom(kind, 0, false))
		}
		d.When = n
	case 6:
		x := one(1)
		d.When = &Node{K: "sel", S: "x", Wild: true, Kids: []*Node{x}}
		if g.bit() {
			d.When.Kids = []*Node{g.intNode(), x}
		}
	case 7:
		d.When = &Node{K: "paren", Kids: []*Node{buildPrec([]*Node{g.leaf(), {K: "paren", Kids: []*Node{one(1)}}}, []geo.Token{binOps[g.n(len(binOps))]})}}
	}
	g.tailParts(d)
	return d
}

func genDigits(g *G) *Case {
	var lit string
	switch g.n(6) {
	case 0:
		lit = g.digitRun(1+g.n(25)) + "." + g.digitRun(g.n(25))
	case 1:
		lit = g.digitRun(1 + g.n(22))
	case 2:
		lit = "0." + strings.Repeat("0", g.n(330)) + g.digitRun(1+g.n(20))
	case 3:
		lit = g.digitRun(1+g.n(320)) + "." + g.digitRun(g.n(4))
	case 4:
		lit = strings.Repeat(pick(g, "9", "0", "1"), 1+g.n(30)) + "." + strings.Repeat(pick(g, "9", "0", "5"), g.n(30))
	case 5:
		// halfway between two floats
		v := uint64(1)<<53 + g.bits(20)*2 + 1
		lit = strconv.FormatUint(v, 10) + "." + strings.Repeat("0", g.n(20)) + pick(g, "", "1", "0")
	}
	sign := pick(g, "", "-", "+")
	unit := pick(g, "", "", "km", "%", "C", "kph", "Bar", "s", "h", "M")
	ctx := numberContexts[g.n(len(numberContexts))]
	return one(ctx[0] + sign + lit + unit + ctx[1])
}

// genSums draws the parts of a duration: N holds value and unit in turns.
func genSums(g *G) *Case {
	units := []struct {
		w string
		d time.Duration
	}{{"h", time.Hour}, {"m", time.Minute}, {"s", time.Second}, {"ms", time.Millisecond}, {"us", time.Microsecond}, {"ns", 1}}
	c := &Case{}
	var b strings.Builder
	var sum time.Duration
	for i, k := 0, 1+g.n(4); i < k; i++ {
		u := units[g.n(3)]
		if i > 0 {
			u = units[g.n(6)]
		} else if g.p(15) {
			u = units[3]
		}
		v := g.n(100)
		switch g.n(6) {
		case 0:
			v = g.n(100000)
		case 1:
			v = pick(g, 0, 1, 23, 24, 59, 60, 61, 999, 1000, 3600)
		}
		w := u.w
		if g.p(20) && (k > 1 || w != "m") { // 5M alone is a distance
			w = strings.ToUpper(w)
		}
		b.WriteString(strconv.Itoa(v) + w)
		sum += time.Duration(v) * u.d
	}
	c.In = []Text{Text(b.String())}
	c.N = []int64{int64(sum), int64(g.n(4))}
	return c
}

func judgeSums(c *Case, o *Obs) error {
	w := string(c.In[0])
	src := [...]string{"when " + w, "when a repeat 7 every " + w, "when a reset after " + w, "when a in [1s, " + w + "]"}[c.N[1]]
	stmt, d, err := parse(src)
	if err != nil {
		return fmt.Errorf("valid document rejected: %v: %s", err, src)
	}
	o.nonTrivial()
	pickOut := func(d *Doc) *Node {
		return [...]func() *Node{
			func() *Node { return d.When }, func() *Node { return d.RepeatInterval }, func() *Node { return d.ResetA },
			func() *Node { return d.When.Kids[1].Kids[1] }}[c.N[1]]()
	}
	want := "dur:" + strconv.FormatInt(c.N[0], 10)
	if n := pickOut(d); n == nil || n.head() != want {
		return fmt.Errorf("%s is read as %s, not %s (%v)", w, Dump(n), want, time.Duration(c.N[0]))
	}
	out, err := format(stmt)
	if err != nil {
		return err
	}
	_, back, err := parse(out)
	if err != nil {
		return fmt.Errorf("formatted text does not parse: %v\n%s", err, out)
	}
	if n := pickOut(back); n == nil || n.head() != want {
		return fmt.Errorf("%s is read as %s after Format, not %s: %s", w, Dump(n), want, out)
	}
	return nil
}
