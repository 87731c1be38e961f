package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strconv"
	"strings"

	geo "github.com/mmadfox/go-geoql-parser"
)

func init() {
	register(&Prop{id: "C11",
		rule: "a statement and a dictionary; non-trivial when the When has an operator",
		parts: []*Part{
			{name: "table", about: "every operator with every pair of operand kinds", enum: enumTypes, judge: judgeTypes},
			{name: "results", about: "every operator over the result of every well-typed operator", enum: enumResults, judge: judgeTypes},
			{name: "typed", n: 200000, about: "well-typed expressions, and those with one operand changed", gen: genTyped, judge: judgeTypes},
			{name: "any", n: 100000, about: "any document with a dictionary over its selectors", gen: genAnyTyped, judge: judgeTypes},
			{name: "renamed", n: 60000, about: "the same with other names, in any order, among up to a hundred variables", gen: genRenamed, judge: judgeTypes},
		}})
	register(&Prop{id: "C12",
		rule: "a statement and a dictionary, checked before and after a change that cannot matter; non-trivial when the When has an operator",
		parts: []*Part{
			{name: "parens", n: 80000, about: "parentheses around operands or the whole", gen: genTypedMeta, judge: judgeTypeParens},
			{name: "inline", n: 80000, about: "references replaced by the literals they stand for", gen: genTypedMeta, judge: judgeTypeInline},
			{name: "rename", n: 80000, about: "selectors and variables renamed, unused ones added", gen: genTypedMeta, judge: judgeTypeRename},
			{name: "format", n: 80000, about: "Format and Parse in between, and the check repeated", gen: genTypedMeta, judge: judgeTypeFormat},
			{name: "compose", n: 60000, about: "A and B checks out exactly when both do as conditions; likewise for arithmetic", gen: genCompose, judge: judgeCompose},
			{name: "literals", n: 60000, about: "a literal replaced by another one of its kind", gen: genTypedMeta, judge: judgeTypeLiterals},
		}})
}

// typedNames gives every selector type a few names.
var typedNames = []struct {
	n string
	t geo.SelectorType
}{
	{"i1", geo.Int}, {"count", geo.Int}, {"f1", geo.Float}, {"Speed", geo.Float}, {"s1", geo.String}, {"name", geo.String},
	{"b1", geo.Boolean}, {"online", geo.Boolean}, {"ia", geo.ArrayInt}, {"fa", geo.ArrayFloat}, {"sa", geo.ArrayString}, {"h", geo.Int}, {"km", geo.Float},
}

func typedDict() geo.Dictionary {
	d := geo.Dict()
	for _, t := range typedNames {
		d[t.n] = t.t
	}
	return d
}

func dictText(d geo.Dictionary) Text {
	var out []string
	for k, v := range d {
		out = append(out, fmt.Sprintf("%s=%d", k, int(v)))
	}
	sort.Strings(out)
	return Text(strings.Join(out, ";"))
}

func dictOf(t Text) geo.Dictionary {
	d := geo.Dict()
	if t == "" {
		return d
	}
	for _, kv := range strings.Split(string(t), ";") {
		i := strings.IndexByte(kv, '=')
		v, _ := strconv.Atoi(kv[i+1:])
		d[kv[:i]] = geo.SelectorType(v)
	}
	return d
}

func check(c *Case, o *Obs, src string, dict geo.Dictionary) (bool, *Doc, error) {
	stmt, d, err := parse(src)
	if err != nil {
		return false, nil, fmt.Errorf("valid document rejected: %v: %s", err, clip(src, 300))
	}
	if d.When.K == "bin" || d.When.K == "paren" {
		o.nonTrivial()
	}
	return geo.CheckType(stmt, dict) == nil, d, nil
}

func judgeTypes(c *Case, o *Obs) error {
	dict := dictOf(c.In[1])
	got, d, err := check(c, o, string(c.In[0]), dict)
	if err != nil {
		return err
	}
	want := refCheck(d, dict)
	if want {
		o.hit("well typed")
	} else {
		o.hit("ill typed")
	}
	if want != got {
		stmt, _ := geo.Parse(string(c.In[0]))
		return fmt.Errorf("well typed by the rules: %v, CheckType: %v", want, geo.CheckType(stmt, dict))
	}
	if !want {
		stmt, _ := geo.Parse(string(c.In[0]))
		if err := geo.CheckType(stmt, dict); err == nil || !faultNamed(string(c.In[0]), d, dict, err.Error()) {
			return fmt.Errorf("the error of CheckType tells no operator that is at fault: %v", err)
		}
	}
	return nil
}

// operandTexts is one of every kind of operand.
var operandTexts = []string{
	"1", "-2", "1.5", "-0.5", `"s"`, "true", "down", "5%", "10kph", "5km", "3bar", "-30C", "10s", "1h", "*", "date[2023-01-02]", "time[10:20]", "weekday[mon]", "month[jan .. mar]", "date[2023-01-02, 2023-01-03]",
	"[1, 2]", "[1.5]", `["a", "b"]`, "[5km, 1km]", "[i1, f1]", "[s1]", "[b1]", "[@vi]", "[@vs]", "[@vx]", "[1 .. 2]", "[10s]", "[ia]", "[20%]",
	"1 .. 5", "1.5 .. 2.5", "1 .. 2.5", "1.5 .. 2", `"a" .. "b"`, "i1 .. 5", "1 .. i1", "s1 .. 5", "f1 .. s1", "@vi .. 5", "1 .. @vf", "@vs .. 1", "1 .. @none", "1 .. *", "5km .. 10km", "1s .. 2s", "1 .. b1", "ia .. 5", "1 .. fa", "@vr .. 5",
	"point[1,2]", "point[1,2]:5km", "line[[1,2],[3,4]]", "polygon[[[1,2],[3,4],[5,6]]]", "multipoint[point[1,2]]", "multiline[line[[1,2]]]", "multipolygon[polygon[[[1,2]]]]", "collection[point[1,2]]",
	"i1", "f1", "s1", "b1", "ia", "fa", "sa", "nope", "I1", `i1{"x"}`, "f1:1km",
	"@vi", "@vf", "@vs", "@vb", "@vp", "@vd", "@vg", "@vpoly", "@vai", "@vaf", "@vas", "@vasel", "@vr", "@vrf", "@vrs", "@vsel", "@vw", "@vt", "@none", "@VI", "@vpar", "@vmg", "@vcol", "@vline", "@vspeed", "@vtemp", "@vbar", "@vdate", "@vrsel",
	"(1)", "(i1)", "(b1)", "(1 + 1.5)", `(s1 + "x")`, "(1 < 2)", "([1])", "(point[1,2])", "(1 .. 2)", "(1 + 2)", "(@vi)", "(sa)",
}

const typedVars = `trigger set vi = 1; vf = 1.5; vs = "s"; vb = true; vp = 5%; vd = 10s; vg = point[1,2]; vpoly = polygon[[[1,2]]]; ` +
	`vai = [1,2]; vaf = [1.5]; vas = ["a"]; vasel = [i1]; vr = 1 .. 5; vrf = 1.5 .. 2; vrs = "a" .. "b"; vsel = i1; vw = *; vt = time[10:20]; vpar = (1); ` +
	`vmg = multipoint[point[1,2]]; vcol = collection[point[1,2]]; vline = line[[1,2]]; vspeed = 5kph; vtemp = -3C; vbar = 2bar; vdate = date[2023-01-02]; vrsel = i1 .. 5; when `

func enumTypes(yield func(*Case) bool) {
	dt := dictText(typedDict())
	for _, op := range binOps {
		for _, l := range operandTexts {
			for _, r := range operandTexts {
				src := typedVars + l + " " + opWords(op)[0] + " " + r
				if !yield(&Case{In: []Text{Text(src), dt}}) {
					return
				}
			}
		}
	}
	for _, l := range operandTexts {
		for _, d := range []Text{dt, ""} {
			if !yield(&Case{In: []Text{Text(typedVars + l), d}}) {
				return
			}
		}
	}
}

func enumResults(yield func(*Case) bool) {
	dt := dictText(typedDict())
	var inner []string
	for _, l := range []string{"1", "f1", "s1", "b1", "point[1,2]", "ia", "sa"} {
		for _, r := range []string{"2", "1.5", `"x"`, "true", "@vg", "[1,2]", "@vas", "1 .. 5"} {
			for _, op := range binOps {
				inner = append(inner, l+" "+opWords(op)[0]+" "+r)
			}
		}
	}
	for _, in := range inner {
		for _, op := range binOps {
			for _, x := range []string{"1", "1.5", `"x"`, "true", "point[1,2]", "[1]"} {
				w := opWords(op)[0]
				if !yield(&Case{In: []Text{Text(typedVars + "(" + in + ") " + w + " " + x), dt}}) ||
					!yield(&Case{In: []Text{Text(typedVars + x + " " + w + " (" + in + ")"), dt}}) {
					return
				}
			}
		}
	}
}

// typed draws an expression meant to have a type.
func (g *G) typed(want string, depth int) *Node {
	name := func(t ...geo.SelectorType) *Node {
		var c []string
		for _, x := range typedNames {
			for _, y := range t {
				if x.t == y {
					c = append(c, x.n)
				}
			}
		}
		return &Node{K: "sel", S: c[g.n(len(c))], Wild: true}
	}
	bin := func(l, r string, ops ...geo.Token) *Node {
		mk := func(w string) *Node {
			x := g.typed(w, depth-1)
			if x.K == "bin" {
				x = &Node{K: "paren", Kids: []*Node{x}}
			}
			return x
		}
		return &Node{K: "bin", Op: ops[g.n(len(ops))], Kids: []*Node{mk(l), mk(r)}}
	}
	ref := func(names ...string) *Node { return &Node{K: "ref", S: names[g.n(len(names))]} }
	arith := []geo.Token{geo.ADD, geo.SUB, geo.MUL, geo.QUO, geo.REM}
	lit := func(kinds ...string) *Node { return g.atom(kinds[g.n(len(kinds))], 0, false) }
	arr := func(kinds ...string) *Node {
		k := kinds[g.n(len(kinds))]
		n := &Node{K: "arr", AK: arrayToken(k)}
		for i := 1 + g.n(3); i > 0; i-- {
			n.Kids = append(n.Kids, g.atom(k, 0, false))
		}
		return n
	}
	k := g.n(8)
	if depth <= 0 && k < 4 {
		k += 4
	}
	switch want {
	case "int":
		switch k {
		case 0, 1, 2, 3:
			return bin("int", "int", arith...)
		case 4:
			return name(geo.Int, geo.ArrayInt)
		case 5:
			return ref("vi")
		}
		return lit("int")
	case "float":
		switch k {
		case 0, 1:
			return bin("float", "num", arith...)
		case 2, 3:
			return bin("int", "float", arith...)
		case 4:
			return name(geo.Float, geo.ArrayFloat)
		case 5:
			return ref("vf", "vp", "vspeed", "vtemp", "vbar")
		}
		return lit("float", "pct", "speed", "temp", "press", "dist")
	case "num":
		return g.typed(pick(g, "int", "float"), depth)
	case "string":
		switch k {
		case 0, 1, 2, 3:
			return bin("string", "string", geo.ADD)
		case 4:
			return name(geo.String, geo.ArrayString)
		case 5:
			return ref("vs")
		}
		return lit("str")
	case "geo":
		if k == 5 {
			return ref("vg", "vpoly", "vmg", "vcol", "vline")
		}
		return lit("geo")
	case "ints":
		switch k % 4 {
		case 0:
			return name(geo.Int, geo.ArrayInt)
		case 1:
			return ref("vai", "vasel")
		}
		return arr("int")
	case "floats":
		switch k % 4 {
		case 0:
			return name(geo.Float, geo.ArrayFloat)
		case 1:
			return ref("vaf")
		}
		return arr("float", "pct", "speed", "temp", "press", "dist")
	case "strings":
		switch k % 4 {
		case 0:
			return name(geo.String, geo.ArrayString)
		case 1:
			return ref("vas")
		}
		return arr("str")
	case "range":
		switch k % 4 {
		case 0:
			return ref("vr", "vrf", "vrsel")
		}
		ends := func() *Node {
			switch g.n(4) {
			case 0:
				return name(geo.Int, geo.Float, geo.ArrayInt)
			case 1:
				return ref("vi", "vf", "vspeed")
			}
			return lit("int", "float", "dist", "temp", "speed")
		}
		return &Node{K: "range", Kids: []*Node{ends(), ends()}}
	}
	// bool
	switch k {
	case 0:
		return bin("bool", "bool", geo.AND, geo.OR)
	case 1:
		eq := []geo.Token{geo.EQL, geo.LEQL, geo.NOT_EQ, geo.LNEQ}
		switch g.n(5) {
		case 0:
			return bin("string", "string", eq...)
		case 1:
			return bin("bool", "bool", eq...)
		case 2:
			return bin("strings", "strings", eq...)
		case 3:
			return bin(pick(g, "ints", "floats", "geo"), pick(g, "ints", "floats", "geo"), eq...)
		}
		return bin("num", "num", eq...)
	case 2:
		return bin("num", "num", geo.LSS, geo.LEQ, geo.GTR, geo.GEQ)
	case 3:
		in := []geo.Token{geo.IN, geo.NOT_IN}
		switch g.n(6) {
		case 0:
			return bin("int", pick(g, "ints", "range", "geo"), in...)
		case 1:
			return bin("float", pick(g, "floats", "range", "geo"), in...)
		case 2:
			return bin("string", "strings", in...)
		case 3:
			return bin("geo", "geo", in...)
		}
		return bin(pick(g, "geo", "num"), "geo", geo.NEARBY, geo.NOT_NEARBY, geo.INTERSECTS, geo.NOT_INTERSECTS)
	case 4:
		return name(geo.Boolean)
	case 5:
		return ref("vb")
	}
	return lit("bool")
}

// spoil swaps one operand for another.
func (g *G) spoil(n *Node) *Node {
	var leaves []*Node
	var rec func(x *Node)
	rec = func(x *Node) {
		if x.K == "bin" || x.K == "paren" {
			for _, k := range x.Kids {
				rec(k)
			}
			return
		}
		leaves = append(leaves, x)
	}
	rec(n)
	*leaves[g.n(len(leaves))] = *g.typed(pick(g, "int", "float", "string", "bool", "geo", "ints", "floats", "strings", "range"), 0)
	return n
}

// typedExpr writes an expression for the variables of typedVars.
func (g *G) typedExpr() string {
	n := g.typed(pick(g, "bool", "bool", "bool", "num", "string"), 1+g.n(4))
	if g.p(45) {
		n = g.spoil(n)
		if g.p(30) {
			n = g.spoil(n)
		}
	}
	return strings.TrimPrefix(g.render(&Doc{When: n}, style{layout: 1}), "when ")
}

func (g *G) typedDict() geo.Dictionary {
	d := typedDict()
	if g.p(15) {
		delete(d, typedNames[g.n(len(typedNames))].n)
	}
	if g.p(15) {
		d[typedNames[g.n(len(typedNames))].n] = geo.SelectorType(g.n(10) - 1)
	}
	return d
}

func genTyped(g *G) *Case {
	return &Case{In: []Text{Text(typedVars + g.typedExpr()), dictText(g.typedDict())}}
}

func genAnyTyped(g *G) *Case {
	var d *Doc
	g.budget = 20
	d = g.plainDoc(func(int) *Node { return g.expr(3) })
	src := g.render(d, g.style())
	dict := geo.Dict()
	d.all(func(n *Node) {
		if n.K == "sel" && !g.p(10) {
			dict[n.S] = geo.SelectorType(g.n(9))
		}
	})
	return &Case{In: []Text{Text(src), dictText(dict)}}
}

// ---- C12 ---------------------------------------------------------------------

func genTypedMeta(g *G) *Case {
	return &Case{In: []Text{Text(typedVars), Text(g.typedExpr()), dictText(g.typedDict())}, N: []int64{int64(g.bits(20))}}
}

func same(c *Case, o *Obs, dict geo.Dictionary, a, b string, dictB geo.Dictionary) error {
	x, _, err := check(c, o, a, dict)
	if err != nil {
		return err
	}
	y, _, err := check(c, o, b, dictB)
	if err != nil {
		return err
	}
	o.hitIf(x, "well typed")
	o.hitIf(!x, "ill typed")
	if x != y {
		return fmt.Errorf("well typed: %v, after the change: %v\n  %s\n  %s", x, y, clip(a, 800), clip(b, 800))
	}
	return nil
}

// rewrite replaces operands in the text of an expression by their places.
func rewrite(src string, d *Doc, edit func(*Node) (string, bool)) string {
	type repl struct {
		lo, hi int
		s      string
	}
	var all []repl
	var rec func(n *Node)
	rec = func(n *Node) {
		if n.K == "bin" || n.K == "paren" {
			for _, k := range n.Kids {
				rec(k)
			}
			return
		}
		if s, ok := edit(n); ok {
			all = append(all, repl{n.Pos, n.End + 1, s})
			return
		}
		for _, k := range n.children() {
			rec(k)
		}
	}
	rec(d.When)
	var b strings.Builder
	at := 0
	for _, r := range all {
		b.WriteString(src[at:r.lo] + r.s)
		at = r.hi
	}
	b.WriteString(src[at:])
	return b.String()
}

func refDoc(c *Case) (string, *Doc, error) {
	src := string(c.In[0]) + string(c.In[1])
	r := refParse(src)
	if r.v != vAccept {
		return "", nil, fmt.Errorf("HARNESS: %s %s", r.v, r.why)
	}
	return src, r.doc, nil
}

func judgeTypeParens(c *Case, o *Obs) error {
	src, d, err := refDoc(c)
	if err != nil {
		return err
	}
	i := 0
	other := rewrite(src, d, func(n *Node) (string, bool) {
		i++
		if uint(c.N[0])>>(uint(i)%20)&1 == 0 {
			return "", true && false
		}
		deep := 1
		switch h := uint64(c.N[0]+int64(i)*977) * 0x9e3779b97f4a7c15 >> 48; {
		case h%64 == 0:
			deep = int(h/64)%280 + 1
		case h%8 == 0:
			deep = int(h/8)%40 + 1
		}
		return strings.Repeat("(", deep) + src[n.Pos:n.End+1] + strings.Repeat(")", deep), true
	})
	if c.N[0]&3 == 0 {
		other = string(c.In[0]) + "((" + string(c.In[1]) + "))"
	}
	// parentheses inside lists and ranges are not operands
	if r := refParse(other); r.v != vAccept {
		other = string(c.In[0]) + "(" + string(c.In[1]) + ")"
	}
	return same(c, o, dictOf(c.In[2]), src, other, dictOf(c.In[2]))
}

func judgeTypeInline(c *Case, o *Obs) error {
	src, d, err := refDoc(c)
	if err != nil {
		return err
	}
	vars := map[string]*Node{}
	for _, a := range d.Vars {
		vars[a.Kids[0].S] = a.Kids[1]
	}
	other := rewrite(src, d, func(n *Node) (string, bool) {
		if n.K != "ref" {
			return "", false
		}
		v := vars[n.S]
		if v == nil {
			return "", false
		}
		switch v.K {
		case "sel", "paren", "bin", "ref":
			return "", false
		}
		o.hit("inlined " + v.K)
		return src[v.Pos : v.End+1], true
	})
	if refParse(other).v != vAccept {
		return nil
	}
	return same(c, o, dictOf(c.In[2]), src, other, dictOf(c.In[2]))
}

func judgeTypeRename(c *Case, o *Obs) error {
	src, d, err := refDoc(c)
	if err != nil {
		return err
	}
	other, dict := renamed(src, d, dictOf(c.In[2]), c.N[0])
	return same(c, o, dictOf(c.In[2]), src, other, dict)
}

// renamed gives every selector and variable another name, so that their order
// by name changes, and puts unused variables among the others.
func renamed(src string, d *Doc, old geo.Dictionary, seed int64) (string, geo.Dictionary) {
	rnd := rand.New(rand.NewSource(seed))
	word := func() string {
		const letters = "aAbBcdeghiJklMnoprsTuvwxyZ_"
		n := 1 + rnd.Intn(3)
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteByte(letters[rnd.Intn(len(letters))])
		}
		return b.String() + "_"
	}
	fresh := map[string]string{}
	name := func(kind, s string) string {
		k := kind + s
		if fresh[k] == "" {
			fresh[k] = word() + kind + "_" + s
		}
		return fresh[k]
	}
	var b strings.Builder
	b.WriteString("trigger set ")
	many, unused := 1, 0
	switch rnd.Intn(8) {
	case 0:
		many = 90
	case 1, 2:
		many = 20
	}
	pad := func() {
		for n := rnd.Intn(many+1) / (len(d.Vars) + 1); n >= 0; n-- {
			b.WriteString(fmt.Sprintf("%su%d = %s; ", word(), unused, []string{"7", "7.5", `"u"`, "true", "[1]", "point[1, 2]"}[rnd.Intn(6)]))
			unused++
		}
	}
	if seed&1 == 0 {
		b.WriteString("unused = 7; ")
	}
	ren := func(n *Node, text string, base int) string {
		type repl struct {
			lo, hi int
			s      string
		}
		var all []repl
		walkNodes(n, func(x *Node) {
			switch x.K {
			case "sel":
				all = append(all, repl{x.Pos, x.Pos + len(x.S), name("q", x.S)})
			case "ref":
				all = append(all, repl{x.Pos + 1, x.Pos + 1 + len(x.S), name("w", x.S)})
			}
		})
		var s strings.Builder
		at := base
		for _, r := range all {
			if r.lo < at {
				continue
			}
			s.WriteString(src[at:r.lo] + r.s)
			at = r.hi
		}
		s.WriteString(src[at : base+len(text)])
		return s.String()
	}
	for _, a := range d.Vars {
		pad()
		v := a.Kids[1]
		b.WriteString(name("w", a.Kids[0].S) + " = " + ren(v, src[v.Pos:v.End+1], v.Pos) + "; ")
	}
	pad()
	b.WriteString("when " + ren(d.When, src[d.When.Pos:d.When.End+1], d.When.Pos))
	dict := geo.Dict()
	var keys []string
	for k := range old {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		v := old[k]
		dict[name("q", k)] = v
		dict[k] = geo.Boolean + v%3 // what the old names mean does not matter
	}
	return b.String(), dict
}

// genRenamed: a typed expression under other names.
func genRenamed(g *G) *Case {
	c := genTypedMeta(g)
	src := string(c.In[0]) + string(c.In[1])
	r := refParse(src)
	if r.v != vAccept {
		return &Case{In: []Text{Text(src), c.In[2]}}
	}
	other, dict := renamed(src, r.doc, dictOf(c.In[2]), c.N[0])
	return &Case{In: []Text{Text(other), dictText(dict)}}
}

func judgeTypeFormat(c *Case, o *Obs) error {
	src := string(c.In[0]) + string(c.In[1])
	dict := dictOf(c.In[2])
	x, _, err := check(c, o, src, dict)
	if err != nil {
		return err
	}
	stmt, err := geo.Parse(src)
	if err != nil {
		return err
	}
	first := fmt.Sprint(geo.CheckType(stmt, dict))
	for i := 0; i < 6; i++ {
		if again := fmt.Sprint(geo.CheckType(stmt, dict)); again != first {
			return fmt.Errorf("CheckType says %q, then %q", first, again)
		}
	}
	out, err := format(stmt)
	if err != nil {
		return err
	}
	y, _, err := check(c, o, out, dict)
	if err != nil {
		return err
	}
	if x != y {
		return fmt.Errorf("well typed: %v, its formatted text: %v\n%s", x, y, out)
	}
	if got, want := dictText(dict), c.In[2]; got != dictText(dictOf(want)) {
		return fmt.Errorf("the dictionary changed from %q to %q", want, got)
	}
	return nil
}

func genCompose(g *G) *Case {
	if g.p(40) {
		num := func() Text {
			n := g.typed("num", 1+g.n(3))
			return Text(strings.TrimPrefix(g.render(&Doc{When: n}, style{layout: 1}), "when "))
		}
		return &Case{In: []Text{num(), num(), dictText(g.typedDict())}, N: []int64{0}}
	}
	return &Case{In: []Text{Text(g.typedExpr()), Text(g.typedExpr()), dictText(g.typedDict())}, N: []int64{1}}
}

func judgeCompose(c *Case, o *Obs) error {
	dict := dictOf(c.In[2])
	a, b := "("+string(c.In[0])+")", "("+string(c.In[1])+")"
	var bad error
	ok := func(expr string) bool {
		v, _, err := check(c, o, typedVars+expr, dict)
		if err != nil {
			bad = err
		}
		return v
	}
	say := func(what string, want, got bool) error {
		if bad != nil {
			return bad
		}
		if want != got {
			return fmt.Errorf("%s: by its parts %v, as a whole %v\n  A = %s\n  B = %s", what, want, got, a, b)
		}
		return nil
	}
	for _, w := range []string{"and", "or"} {
		if err := say("A "+w+" B", ok(a+" "+w+" true") && ok("true "+w+" "+b), ok(a+" "+w+" "+b)); err != nil {
			return err
		}
	}
	numA, numB := ok(a+" < 1"), ok("1 < "+b)
	for _, w := range []string{"<", "<=", ">", ">=", "-", "*", "/", "mod"} {
		if err := say("A "+w+" B", numA && numB, ok(a+" "+w+" "+b)); err != nil {
			return err
		}
	}
	// results of arithmetic are numbers again
	if numA && numB {
		o.hit("numeric")
		if err := say("(A * B) + 1 < 2", true, ok("("+a+" * "+b+") + 1 < 2")); err != nil {
			return err
		}
	}
	// equality goes both ways
	for _, w := range []string{"eq", "==", "not eq", "!="} {
		if err := say("A "+w+" B and B "+w+" A", ok(a+" "+w+" "+b), ok(b+" "+w+" "+a)); err != nil {
			return err
		}
	}
	// an operator and its negation take the same operands
	for _, w := range []string{"in", "nearby", "intersects", "eq"} {
		if err := say("A not "+w+" B", ok(a+" "+w+" "+b), ok(a+" not "+w+" "+b)); err != nil {
			return err
		}
	}
	// an error inside cannot be hidden by what is around it
	whole := ok("(" + a + " eq " + a + ") or true")
	if err := say("(A eq A) or true", ok(a+" eq "+a), whole); err != nil {
		return err
	}
	return bad
}

func judgeTypeLiterals(c *Case, o *Obs) error {
	src, d, err := refDoc(c)
	if err != nil {
		return err
	}
	alt := map[string][]string{
		"int": {"0", "-7", "+3", "9223372036854775807"}, "float": {"0.0", "-1.5", "123456.789", "2."},
		"str": {`""`, `"true"`, `"1"`, `"é"`}, "bool": {"true", "false", "up", "down"},
		"pct": {"0%", "5.5%"}, "speed": {"0kph", "5mph"}, "temp": {"-1C", "3F", "+2.5C"}, "press": {"1bar", "2.5psi"}, "dist": {"1km", "2.5M"},
		"point": {"point[0,0]", "point[-1.5,2]:5km"}, "line": {"line[[0,0],[1,1]]:5M"}, "poly": {"polygon[[[0,0]],[[1,1]]]"},
		"multi": {"multiline[line[[1,2]]]", "multipoint[point[0,0]]"}, "coll": {"collection[line[[1,2]],point[1,2]]"},
	}
	i := 0
	other := rewrite(src, d, func(n *Node) (string, bool) {
		i++
		l := alt[n.K]
		if len(l) == 0 {
			return "", false
		}
		o.hit("replaced " + n.K)
		return l[(int(c.N[0])+i)%len(l)], true
	})
	if refParse(other).v != vAccept {
		return nil
	}
	return same(c, o, dictOf(c.In[2]), src, other, dictOf(c.In[2]))
}
