package main

// Longer sequences over a small vocabulary: what may come behind an element, a
// separator or a range depends on what came before them.

type listSpec struct {
	group      string
	open, shut string
	parts      []string
	n          int
}

var listSpecs = []listSpec{
	{"calendar", "when a in date[", "]", []string{"2030-10-20", "2031-1-2", ",", ".."}, 7},
	{"calendar", "when a in time[", "]", []string{"11:12", "1:30:40pm", ",", ".."}, 7},
	{"calendar", "when a in weekday[", "]", []string{"sun", "mon", ",", ".."}, 7},
	{"calendar", "when a in month[", "]", []string{"jan", "feb", ",", ".."}, 7},
	{"calendar", "when a in date[2030-1-1", "]", []string{"..", ",", "2030", "-", "2"}, 6},
	{"calendar", "when a in time[1:2", "]", []string{"..", ",", "3", ":", "AM"}, 6},
	{"numbers", "when a in [", "]", []string{"1", "2", ",", ".."}, 7},
	{"numbers", "when a in [", "]", []string{"1.5", "-2.5", ",", ".."}, 7},
	{"numbers", "when a in [", "]", []string{"5s", "10km", "1h", ",", ".."}, 6},
	{"numbers", "when a in ", "", []string{"1", "2.5", "..", "-", "+"}, 6},
	{"numbers", "when a in 1 .. ", " and b", []string{"1", "5km", "..", "(", ")"}, 6},
	{"numbers", "when a in [", "]", []string{"[", "]", "1", ",", "("}, 6},
	{"geometry", "when point[", "]", []string{"1", "2.5", "-", ",", "+"}, 6},
	{"geometry", "when a in point[1, 2]", "", []string{":", "5km", "5", "-", "M", "point[1,2]"}, 5},
	{"geometry", "when line[", "]", []string{"[1, 2]", "[-3.5, 4]", ",", "[", "]"}, 6},
	{"geometry", "when a in polygon[", "]", []string{"[[1,2],[3,4],[5,6]]", "[[1,2]]", ",", "[", "]"}, 6},
	{"geometry", "when multipoint[", "]", []string{"point[1,2]", "point[3,4]:5km", ",", "line[[1,2],[3,4]]"}, 7},
	{"geometry", "when collection[", "]", []string{"point[1,2]", "line[[1,2],[3,4]]:5M", ",", "multipoint[point[1,2]]"}, 7},
	{"selectors", "when a{", "}", []string{"*", `"a"`, ","}, 8},
	{"selectors", "when a{", "} > 1", []string{"*", `"b"`, `"c"`, ","}, 6},
	{"selectors", "when a:", " > 1", []string{"1", "b", ",", ":"}, 7},
	{"selectors", "when a", "", []string{"{*}", `{"b"}`, ":1", ":2s", "> 1", "and c"}, 6},
	{"strings", "when a in [", "]", []string{`"x"`, `"\""`, ",", ".."}, 7},
	{"repeat", "when a ", "", []string{"repeat 2", "every 3s", "reset after 4s", "5", "and b"}, 6},
	{"chains", "when ", "", []string{"a", "and", "not", "(", ")"}, 7},
	{"chains", "when ", "", []string{"1", "-", "+", "(", ")", "*"}, 6},
	{"chains", "when ", "", []string{"a", "in", "not", "or", "eq", "[1]"}, 6},
	{"chains", "when a ", "b", []string{"=", "!", "<", ">", "not", "b", "-"}, 5},
	{"set", "", "", []string{"trigger", "set", "a = 1", "b = 2", ";", "when c"}, 7},
	{"set", "trigger set ", " when c", []string{"a", "=", "1", ";", "-", "@b"}, 6},
	{"set", "", "", []string{"when a", "trigger", "repeat 1", "reset after 1s", ";", "set b = 1"}, 6},
}

func listSweep(group string) sweep {
	return sweep{"lists", "longer sequences over a small vocabulary", func(yield func(string) bool) {
		for _, l := range listSpecs {
			n := l.n
			if thorough {
				n++
			}
			if (group == "" || l.group == group) && !sequences(l.parts, n, func(s string) bool { return yield(l.open + s + l.shut) }) {
				return
			}
		}
	}}
}

func init() {
	add := func(id, group string, judge func(*Case, *Obs) error) {
		s := listSweep(group)
		props[id].parts = append(props[id].parts, &Part{name: s.name, about: s.about, enum: s.enum, judge: judge})
	}
	add("C03", "", judgePart(true, false, false))
	add("C05", "", judgePart(false, true, false))
	add("C07", "", judgePart(false, false, true))
	add("C04", "chains", judgePart(true, false, false))
	add("C17", "set", judgeFull)
	add("C18", "calendar", judgeFull)
	add("C19", "numbers", judgeFull)
	add("C20", "geometry", judgeFull)
	add("C21", "selectors", judgeFull)
	add("C22", "strings", judgeFull)
	add("C23", "repeat", judgeFull)
	add("C02", "", judgeError)
}
