package main

import (
	"fmt"
	"strconv"
	"strings"
)

// Lists, chains and nests of every size up to a few hundred, with something
// out of the ordinary at the start, in the middle or at the end: a limit, a
// buffer or a shortcut that depends on the size shows at one of them.

type sized struct {
	group string
	texts func(n int, yield func(string) bool) bool
}

// items lists n texts; the marked place holds another text.
func items(n int, sep string, item func(i int) string, at int, mark string) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteString(sep)
		}
		if i == at {
			b.WriteString(mark)
		} else {
			b.WriteString(item(i))
		}
	}
	return b.String()
}

// list is a template with one list in it; each mark is put in three places.
func list(group, open, shut, sep string, item func(i int) string, marks ...string) sized {
	return sized{group, func(n int, yield func(string) bool) bool {
		if !yield(open + items(n, sep, item, -1, "") + shut) {
			return false
		}
		for k, m := range marks {
			places := []int{n - 1, n / 2, 0}
			if k > 0 { // the others move through the list as it grows
				places = []int{n - 1, (n * 7 / 5) % (n + 1)}
			}
			for j, at := range places {
				if n == 0 || j > 0 && at == n-1 {
					continue
				}
				if !yield(open + items(n, sep, item, at, m) + shut) {
					return false
				}
			}
		}
		return true
	}}
}

func of(words ...string) func(int) string {
	return func(i int) string { return words[i%len(words)] }
}

func numbered(format string) func(int) string {
	return func(i int) string { return fmt.Sprintf(format, i) }
}

var sizedTexts = []sized{
	// arrays
	list("arrays", "when a in [", "]", ", ", of("1", "2", "30"), "-4", "5.5", `"x"`, "@v", "b", "10%", "[1]", "(1)", "1 .. 2", "*", ",", "9223372036854775808"),
	list("arrays", "when a in [", "]", ", ", of("1.5", "2.25"), "-4.5", "3", "0.5s", "true"),
	list("arrays", "when a not in [", "] and b", ", ", of(`"x"`, `"y z"`), `"\"\\"`, `"日本"`, `""`, "x", "1", `"`),
	list("arrays", "trigger set k = [", "]; when a in @k", ", ", of("10%", "20%"), "0.5%", "-5%", "5"),
	list("arrays", "when [", "]", ", ", of("5kph", "6kph"), "-5kph", "6.5mph", "7km"),
	list("arrays", "when [", "] == a", ", ", of("5C", "6.5C"), "-5C", "6.5F", "7"),
	list("arrays", "when a:1, [", "], 2", ", ", of("5Bar", "6.5Bar"), "7Psi", "1h"),
	list("arrays", "when a in [", "]", ", ", of("5km", "0.5km"), "7M", "1ms"),
	list("arrays", "when a in [", "]", ", ", of("5s", "1h2m"), "0.5s", "7M", "5ms6"),
	list("arrays", "when a in [", "]", ", ", of("true", "down"), "FALSE", "up", "1", "not true"),
	list("arrays", "when a in [", "]", ", ", of("b", `c{"i"}`), `d{*}`, "d:1", "1", "not b"),
	list("arrays", "trigger set v = 1; when a in [", "]", ", ", of("@v", "@w"), "1", "@V", "@", "v"),
	// calendars
	list("calendar", "when a in date[", "]", ", ", of("2030-10-20", "2031-1-2"), "2199-12-31", "2030-13-1", "10:10", "2030-1-1 .. 2030-2-2", "1"),
	list("calendar", "when a in time[", "]", ", ", of("10:20", "1:02:30AM", "11:59pm"), "00:00:00", "24:60", "2030-1-1", "1:1 .. 2:2", "1"),
	list("calendar", "when a in weekday[", "]", ", ", of("Sun", "mon"), "sat", "jan", "sun .. mon", "1", "sunday"),
	list("calendar", "when a in month[", "]", ", ", of("Jan", "dec"), "may", "sun", "jan .. feb", "1"),
	// geometry
	list("geometry", "when a intersects line[", "]", ", ", of("[1, 2]", "[3.5, -4]"), "[180, -90.000001]", "[1]", "[1, 2, 3]", "1", "[1, a]", "point[1,2]"),
	list("geometry", "when a nearby line[", "]:5km", ", ", numbered("[%d, 1]"), "[-0.5, 0]"),
	list("geometry", "when polygon[[", "]]", ", ", of("[1, 2]", "[3.5, -4]"), "[180, 90]", "[[1, 2]]"),
	list("geometry", "when polygon[[[1,1],[2,2],[3,3]], [", "]]", ", ", numbered("[%d, 2]"), "[0.25, 1]"),
	list("geometry", "when polygon[", "]", ", ", of("[[1, 2], [3, 4], [5, 6]]", "[[1, 2], [3, 4]]"), "[[7, 8], [9, 1], [2, 3], [7, 8]]", "[]", "[1, 2]"),
	list("geometry", "when multipoint[", "]", ", ", numbered("point[%d, 1]"), "point[1, 2]:5km", "line[[1,2],[3,4]]", "[1, 2]"),
	list("geometry", "when multiline[", "]", ", ", numbered("line[[%d, 1], [2, 3]]"), "line[[1, 2],[3, 4]]:5km", "point[1,2]"),
	list("geometry", "when multipolygon[", "]", ", ", numbered("polygon[[[%d, 1], [2, 3], [4, 5]]]"), "polygon[[[1, 2],[3, 4],[1, 1]],[[1,1],[1,1],[1,1]]]", "point[1,2]"),
	list("geometry", "when collection[", "]", ", ", of("point[1, 2]", "line[[1, 2],[3, 4]]", "multipoint[point[1, 1]]"), "point[1, 2]:7km", "polygon[[[1,2],[3,4],[5,6]]]", "collection[point[1,2]]", "1"),
	// selectors
	list("selectors", "when a{", "}", ", ", func(i int) string { return `"` + strconv.Itoa(i) + `"` }, "*", `"7 \" 日"`, "1", "b", `"0"`, `""`),
	list("selectors", "when a{", ", *} > 5", ", ", func(i int) string { return `"` + strconv.Itoa(i) + `"` }, `"x y"`),
	list("selectors", "when a{*, ", "}:1km > 5", ", ", func(i int) string { return `"` + strconv.Itoa(i*i) + `"` }, `"0"`),
	list("selectors", "when a:", " > 5", ", ", of("1", "2km"), "0.5", `"s"`, `b{"c"}`, "-1", "(1)", "[1, 2]", "@v", "true", "1 .. 2", "point[1,2]", "not b", "*"),
	list("selectors", `when a{"i"}:`, "", ", ", of("3s", "4"), "b:5", "date[2030-1-1]", ","),
	// chains and nests
	list("chains", "when ", "", " and ", of("a", "b"), "c or d", "c == d", "c = d", "not e", "(a or b)", "1 + 2 * 3", "-4", "and", "a in [1, 2]", "a repeat 1"),
	list("chains", "when ", "", " or ", of("a", "b > 1"), "c and d", "c and d or e", "not e or f"),
	list("chains", "when ", "", " + ", of("1", "a"), "2 * b", "c - 3", "4 / 2 % 3", "d > 1", "-1", "(1 - 2)"),
	list("chains", "when ", "", " - ", of("1", "a"), "2 * b", "c + 3", "d == 1", "-1", "(1 - 2)"),
	list("chains", "when ", "", " * ", of("1", "a"), "2 + b", "c / 3", "c and 1", "-1"),
	list("chains", "when ", " == 1", " / ", of("1", "a"), "2 * b", "c % 3"),
	list("chains", "when ", "", " > ", of("1", "a"), "2 < 3", "2 and 3", "4 in [1]"),
	list("chains", "when ", "", " and ", numbered("a%d > 1"), "a0 in 1 .. 2", "a nearby point[1, 2]:5km", "b not in [1, 2]"),
	list("chains", "trigger set ", " when a", " ", numbered("v%d = 1"), "v0 = 2", "V1 = 3", "w = @v0", "x = 1 + 2", "y = 1;", "z", "when = 1"),
	list("chains", "trigger set ", "; when a > @v1 and @v2", "; ", numbered("v%d = [%[1]d]"), "w = [1, 2]", `w = "x"`, "w = (1)", "set = 1", "w = 1 .. 2"),
	{"chains", func(n int, yield func(string) bool) bool {
		for _, p := range [][2]string{{"(", ")"}, {"(a and ", ")"}, {"((b or 1) - ", ")"}, {"-(", ")"}, {"not (", ")"}, {"x:", ""}, {"not ", ""}, {"-", ""}, {"- ", ""}} {
			open, shut := strings.Repeat(p[0], n), strings.Repeat(p[1], n)
			for _, in := range []string{"a", "1 * 2", "a in [1, 2]"} {
				if !yield("when "+open+in+shut) || !yield("when b and "+open+in+shut+" or c") {
					return false
				}
			}
			if n > 0 && p[1] != "" && (!yield("when "+open+"a"+shut[1:]) || !yield("when "+open+"a"+shut+")")) {
				return false
			}
		}
		return true
	}},
	// durations, numbers, words
	list("numbers", "when a > ", "", "", of("1h", "2m", "3s"), "4ms", "0.5s", "x", "5km"),
	list("numbers", "when a repeat 3 every ", " reset after 5m", "", of("1h", "1m", "1s"), "4ms", "-1s"),
	list("numbers", "when a > ", "", "", of("1", "2", "3"), ".", "-", "_", "k"),
	list("numbers", "when a > 1.", "", "", of("1", "2", "3"), ".", "5", "%", "km"),
	list("numbers", "when a > 0.", "1km", "", of("0"), "1", "9"),
	list("strings", `when a == "`, `"`, "", of("x", "é"), `\n`, `\"`, `\u65e5`, `\x41`, `\101`, `"`, "\t", `\q`, "\n", "//", "/*"),
	list("strings", `when a{"`, `", *} == 1`, "", of("日", "b"), `\n`, `\"`, " "),
	list("strings", "when a", " > 1", "", of("b", "1", "_"), "é", " ", ":", ".", "\x00"),
	list("strings", "trigger set v", " = 1; when a > @b", "", of("b", "1", "_"), "é", " ", "-"),
	// gaps
	list("gaps", "when", "a > 1", "", of(" ", "\n"), "\t", "\r", "// c\n", "/* d */", "é", "\x00", "\f", "("),
	list("gaps", "when a // ", "\n> 1", "", of("x", "é"), "\r", "*/", "\x00", `"`),
	list("gaps", "when a /* ", "*/ > 1", "", of("x", "\n", "*"), "/", "*/", "日"),
	list("gaps", "when a > 1 ", "", "", of(" ", "\n"), "\t", "x", "/* x", "// x", "and b"),
}

func sizes(yield func(n int) bool) {
	top := 300
	if thorough {
		top = 1100
	}
	for n := 0; n <= top; n++ {
		if !yield(n) {
			return
		}
	}
	for _, c := range []int{512, 1024, 2048, 4096} {
		for n := c - 2; n <= c+2; n++ {
			if n > top && !yield(n) {
				return
			}
		}
	}
}

func sizeSweep(group string) sweep {
	return sweep{"sizes", "lists, chains and nests of every size up to 300 and around 512, 1024, 2048 and 4096", func(yield func(string) bool) {
		sizes(func(n int) bool {
			for _, t := range sizedTexts {
				if n > 1100 && (t.group == "chains" || n%2 == 1) {
					continue
				}
				if (group == "" || t.group == group) && !t.texts(n, yield) {
					return false
				}
			}
			return true
		})
	}}
}

func init() {
	add := func(id, group, name string, judge func(*Case, *Obs) error) {
		s := sizeSweep(group)
		props[id].parts = append(props[id].parts, &Part{name: name, about: s.about, enum: s.enum, judge: judge})
	}
	add("C03", "", "sizes", judgePart(true, false, false))
	add("C05", "", "sizes", judgePart(false, true, false))
	add("C07", "", "sizes", judgePart(false, false, true))
	add("C04", "chains", "sizes", judgePart(true, false, false))
	add("C18", "calendar", "sizes", judgeFull)
	add("C19", "numbers", "sizes", judgeFull)
	add("C20", "geometry", "sizes", judgeFull)
	add("C21", "selectors", "sizes", judgeFull)
	add("C22", "strings", "sizes", judgeFull)
	add("C02", "", "sizes", judgeError)
	add("C08", "", "sizes", ifAccepted(judgeStable))
	add("C10", "", "sizes", judgePart(true, false, false))
	add("C13", "", "sizes", ifAccepted(judgeOrder))
}

// ifAccepted judges the texts the reference parser accepts.
func ifAccepted(judge func(*Case, *Obs) error) func(*Case, *Obs) error {
	return func(c *Case, o *Obs) error {
		if refParse(string(c.In[0])).v != vAccept {
			return nil
		}
		return judge(c, o)
	}
}
