package main

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"strings"

	geo "github.com/mmadfox/go-geoql-parser"
)

func init() {
	register(&Prop{id: "C01",
		rule: "any byte string at all; non-trivial when Parse reads past the first token (accepted, or rejected behind it)",
		parts: []*Part{
			{name: "any", n: 300000, about: "soup, mutated documents, random bytes: Parse ends with a statement or an error, and Format, Walk and CheckType end on every statement", gen: func(g *G) *Case { return one(g.anyText()) }, judge: judgeTotal},
			{name: "nested", n: 2500, about: "constructs nested up to a million levels, complete, cut off or mixed", gen: genNested, judge: judgeNested},
			{name: "typed nests", n: 6000, about: "well-typed expressions nested up to 900 levels, to the left, to the right or both", gen: genTypedNest, judge: judgeTotal},
			{name: "long", n: 400, about: "tokens, lists and chains up to a megabyte", gen: genLong, judge: judgeNested},
		}})
}

// total uses everything the package offers for a text.
func total(src string) (geo.Statement, error) {
	stmt, err := geo.Parse(src)
	isNil := stmt == nil || reflect.ValueOf(stmt).IsNil()
	if err != nil {
		if !isNil {
			return nil, fmt.Errorf("both a statement and an error %v", err)
		}
		var e *geo.Error
		if !errors.As(err, &e) {
			return nil, fmt.Errorf("error of type %T: %v", err, err)
		}
		_ = err.Error()
		return nil, nil
	}
	if isNil {
		return nil, errors.New("neither a statement nor an error")
	}
	if _, err := format(stmt); err != nil {
		return nil, fmt.Errorf("Format fails on an accepted statement: %v", err)
	}
	for _, d := range dicts {
		if err := geo.CheckType(stmt, d); err != nil {
			_ = err.Error()
		}
	}
	n := 0
	geo.Visit(stmt.(*geo.Trigger), func(geo.Expr) bool { n++; return true })
	if n < 2 {
		return nil, errors.New("Visit sees no expression")
	}
	return stmt, nil
}

// dicts are dictionaries for checks that do not look at types.
var dicts = []geo.Dictionary{nil, {}, {"a": geo.Int, "b": geo.Boolean, "speed": geo.Float, "x": geo.ArrayInt, "y": geo.ArrayString, "id": geo.String, "coords": geo.ArrayFloat, "h": 77, "m": -1}}

func judgeTotal(c *Case, o *Obs) error {
	src := string(c.In[0])
	stmt, err := total(src)
	if err != nil {
		return err
	}
	if stmt != nil {
		o.nonTrivial()
		o.hit("accepted")
		return nil
	}
	o.hit("rejected")
	if e, _ := parseError(src); e != nil && e.Offset > 8 {
		o.nonTrivial()
	}
	return nil
}

var nests = [][3]string{ // opening, core, closing
	{"(", "a", ")"}, {"(a and ", "b", ")"}, {"(", "a", " or b)"}, {"a:", "b", ""}, {"a{*}:1,b:", "1", ""}, {"[", "1", "]"},
	{"-", "1", ""}, {"+", "1", ""}, {"1 .. ", "2", ""}, {"not ", "a", ""}, {"@", "a", ""}, {"a and ", "b", ""}, {"1+", "2", ""},
	{"collection[", "point[1,2]", "]"}, {"point[", "1,2", "]"}, {"polygon[", "[[1,2]]", "]"}, {"line[", "[1,2]", "]"},
	{"multipoint[", "point[1,2]", "]"}, {"date[", "2023-01-01", "]"}, {"time[", "10:10", "]"}, {"a{", `"x"`, "}"}, {"a:[", "1", "]"},
	{"(a:", "b", ")"}, {"[a:", "b", "]"}, {"[(", "b", ")]"}, {"a{*}:(", "1", ")"}, {"1*(", "1", ")"}, {"a in [", "1..2", "]"}, {"when ", "a", ""},
	{"trigger set a = ", "1 when b", ""}, {"repeat ", "1", ""}, {"a .. (", "1", ")"}, {"a:1 .. ", "2", ""}, {"@a:", "1", ""}, {"point[1,2]:", "5km", ""},
	{"/*", "*/ a", ""}, {"\"", "a", "\""}, {"\\", "a", ""}, {"a eq ", "b", ""}, {"a not in ", "b", ""}, {"a % ", "b", ""}, {"5% in ", "b", ""},
}

func genNested(g *G) *Case {
	k := g.n(len(nests))
	k2 := k
	if g.p(30) {
		k2 = g.n(len(nests))
	}
	depth := 0
	switch g.n(6) {
	case 0:
		depth = g.n(50)
	case 1:
		depth = 900 + g.n(250)
	case 2:
		depth = g.n(3000)
	case 3:
		depth = pick(g, 1<<10, 1<<11, 1<<12, 1<<13, 1<<14, 1<<15, 1<<16) + g.n(3)
	case 4:
		depth = g.n(100000)
	case 5:
		depth = g.size() * 10
	}
	if g.p(3) {
		depth = 1000000
	}
	return &Case{In: []Text{Text(pick(g, "when ", "when ", "when a and ", "trigger set a = ", "", "when a intersects ")), Text(pick(g, "", "", " repeat 5", " when a", " > 1", " == true"))},
		N: []int64{int64(k), int64(k2), int64(depth), int64(pick(g, 0, 0, 0, 1, 2, 3))}}
}

// build writes the nested text of a case.
func buildNested(c *Case) string {
	a, b := nests[int(c.N[0])%len(nests)], nests[int(c.N[1])%len(nests)]
	depth := int(c.N[2])
	var s strings.Builder
	s.WriteString(string(c.In[0]))
	if c.N[0] == c.N[1] {
		s.WriteString(strings.Repeat(a[0], depth))
	} else {
		s.WriteString(strings.Repeat(a[0]+b[0], depth/2))
	}
	if c.N[3] != 1 {
		s.WriteString(b[1])
	}
	closing := strings.Repeat(a[2], depth)
	if c.N[0] != c.N[1] {
		closing = strings.Repeat(b[2]+a[2], depth/2)
	}
	switch c.N[3] {
	case 2:
		closing = closing[:len(closing)/2]
	case 3:
		closing += closing
	}
	s.WriteString(closing)
	s.WriteString(string(c.In[1]))
	return s.String()
}

func judgeNested(c *Case, o *Obs) error {
	src := buildNested(c)
	if len(src) > 30 {
		o.nonTrivial()
	}
	stmt, err := total(src)
	o.hitIf(stmt != nil, "accepted")
	o.hitIf(stmt == nil, "rejected")
	o.hitIf(len(src) > 100000, "over 100 kB")
	if err != nil {
		return fmt.Errorf("%w, text of %d bytes %q", err, len(src), clip(src, 200))
	}
	return nil
}

// typedNests are ways to wrap an expression of a type into another of it.
var typedNests = map[string][][2]string{
	"bool": {{"true == (", ")"}, {"(", ") == true"}, {"(", ") and b"}, {"b or (", ")"}, {"(", ") != (1 < 2)"}, {"(1 > 2) eq (", ")"}, {"(", ")"}, {"(1 in [1]) == (", ")"},
		{"(", ") not eq (point[1,2] intersects point[1,2])"}, {"(a == 1) and (", ")"}, {"(", ") or (\"s\" == id)"}},
	"int":   {{"1 + (", ")"}, {"(", ") * 2"}, {"(", ")"}, {"a - (", ")"}, {"(", ") % a"}, {"3 * a / (", ")"}, {"(", ") + 1 - 2"}},
	"float": {{"1.5 + (", ")"}, {"(", ") * 2"}, {"(", ")"}, {"speed - (", ")"}, {"(", ") / speed"}, {"1km + (", ")"}, {"(", ") - 5%"}},
	"str":   {{"\"x\" + (", ")"}, {"(", ") + id"}, {"(", ")"}, {"id + (", ")"}, {"(", ") + \"\""}},
}

// genTypedNest wraps an expression again and again. Work that doubles with
// every level shows at some thirty levels.
func genTypedNest(g *G) *Case {
	typ := pick(g, "bool", "bool", "int", "float", "str")
	ways := typedNests[typ]
	// few ways at a time, so that each gets deep
	var some [][2]string
	for i, k := 0, pick(g, 1, 1, 2, 3, 6); i < k; i++ {
		some = append(some, ways[g.n(len(ways))])
	}
	depth := pick(g, 20, 40, 60, 100, 400) + g.n(60)
	if g.p(10) {
		depth = 800 + g.n(95)
	}
	core := map[string]string{"bool": pick(g, "b", "true", "1 < 2", "a == 1"), "int": pick(g, "1", "a"), "float": pick(g, "1.5", "speed", "3C"), "str": pick(g, "\"q\"", "id")}[typ]
	// the seed of a small generator decides the order of the ways
	h := g.bits(16)
	front, back := "", ""
	if len(some) == 1 {
		front, back = strings.Repeat(some[0][0], depth), strings.Repeat(some[0][1], depth)
	} else {
		for i := 0; i < depth; i++ {
			h = h*6364136223846793005 + 1442695040888963407
			w := some[int(h>>40)%len(some)]
			front, back = front+w[0], w[1]+back
		}
	}
	text := front + core + back
	switch {
	case typ == "bool":
		text = pick(g, "", "b and ", "true == ") + text
	case typ == "str":
		text += pick(g, " == id", " in [\"a\"]", " != \"x\"", "")
	default:
		text += pick(g, " > 1", " == 2", " in 1 .. 2", " <= a", "")
	}
	return one(pick(g, "when ", "when ", "trigger set v = 1 when ") + text + pick(g, "", "", " repeat 5"))
}

var longs = [][3]string{
	{"a and ", "b", ""}, {"a + ", "1", ""}, {"a in [1", "", "]"}, {"x", "", ""}, {"1", "", ""}, {"1.", "", ""}, {"é", "", ""}, {"a:1,", "2", ""}, {" ", "a", ""}, {"a\n", "", ""},
	{"// c\n", "a", ""}, {"/* c */", "a", ""}, {"_", "", ""}, {"0", "", ""}, {"-", "1", ""}, {".", "", ""}, {"not", "", ""}, {"a or a in [1,2] and 5km > b ", "", ""}, {"a=1;", "when a", ""}, {"a", "=1 when b", ""},
	{"\"\\n\"", "", ""}, {"9", ".5", ""}, {"a eq \"s\" and ", "b", ""}, {"a*b*", "c", ""}, {"a or b and ", "c", ""}, {"#", "", ""}, {"@a and ", "b", ""}, {"1km and ", "b", ""}, {"date[2023-01-02] and ", "b", ""}, {"point[1,2]:5km or ", "b", ""},
}

// longDocs are accepted whatever the count.
var longDocs = [][3]string{
	{"when ", "a and ", "b"}, {"when ", "a + ", "1"}, {"when a in [", "1,", "1]"}, {"when ", "x", "b"}, {"when ", "é", "b"}, {"when a:1", ",2", ""},
	{"when ", " ", "a"}, {"when ", "// c\n", "a"}, {"when ", "/* c */", "a"}, {"when 1.", "0", ""}, {"when ", "0", "1"}, {"when ", "a or a in [1,2] and 5km > b and ", "c"},
	{"when a{", "\"x\",", "\"y\"}"}, {"when \"", "x", "\""}, {"when \"", "\\u00e9", "\""}, {"when line[", "[1,2],", "[1,2]]"}, {"when polygon[[", "[-1.5,2.25],", "[1,2]]]"},
	{"when date[", "2023-01-02,", "2023-01-02]"}, {"when collection[", "point[1,2]:5km,", "point[1,2]]"}, {"when time[", "10:20AM,", "10:20]"},
	{"when ", "a not in [1 .. 2] or ", "b"}, {"when a in [", "1 .. 2,", "3 .. 4]"}, {"when a in [", "-30C,", "5C]"}, {"when a in [", "@b,", "@b]"}, {"when ", "\"s\"*", "b"},
}

func genLong(g *G) *Case {
	if g.p(60) {
		l := longDocs[g.n(len(longDocs))]
		n := pick(g, 1000, 10000, 100000, 300000) + g.n(5)
		if n*len(l[1]) > 1<<20 {
			n = (1 << 20) / len(l[1])
		}
		return &Case{In: []Text{Text(l[0]), Text(l[2]), Text(l[1])}, N: []int64{int64(n), 1}}
	}
	open := pick(g, "when ", "when ", "trigger set x = ", "when a in [", "when a{", "when a repeat ", "when \"", "when line[", "when polygon[[", "when date[", "", "when collection[")
	unit := ""
	switch open {
	case "when a in [":
		unit = pick(g, "1,", "1.5,", "a,", "\"x\",", "1..2,", "5km,", "@a,", "5s,")
	case "when a{":
		unit = pick(g, "\"x\",", "*,", ",", "\"\\x41\",")
	case "when \"":
		unit = pick(g, "x", "\\n", "é", "\\u00e9", "'", "\t")
	case "when line[", "when polygon[[":
		unit = pick(g, "[1,2],", "[-1.5,2.25],", "[", "[1,")
	case "when date[":
		unit = pick(g, "2023-01-02,", "2023-", "1", ",")
	case "when collection[":
		unit = pick(g, "point[1,2],", "line[[1,2]],", "multipoint[point[1,2]],", "polygon[[[1,2]]],")
	default:
		unit = longs[g.n(len(longs))][0]
	}
	n := pick(g, 1000, 10000, 100000, 300000) + g.n(5)
	if n*len(unit) > 1<<20 {
		n = (1 << 20) / len(unit)
	}
	tail := pick(g, "", "b", "1", "\"", "]", "\"x\"}", "[1,2]]", "[1,2]]]", "2023-01-02]", "point[1,2]]", " when b", "1]")
	return &Case{In: []Text{Text(open), Text(tail), Text(unit)}, N: []int64{int64(n), 0}}
}

func init() {
	for _, p := range props["C01"].parts {
		if p.name == "long" {
			p.judge = judgeLong
		}
	}
}

func judgeLong(c *Case, o *Obs) error {
	n := int(math.Min(float64(c.N[0]), 1<<21))
	src := string(c.In[0]) + strings.Repeat(string(c.In[2]), n) + string(c.In[1])
	o.nonTrivial()
	stmt, err := total(src)
	o.hitIf(stmt != nil, "accepted")
	o.hitIf(stmt == nil, "rejected")
	if err == nil && stmt == nil && c.N[1] == 1 {
		_, err = geo.Parse(src)
	}
	if err != nil {
		return fmt.Errorf("%s, text of %d bytes %q", clip(err.Error(), 500), len(src), clip(src, 200))
	}
	return nil
}
