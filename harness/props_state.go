package main

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"sync"

	geo "github.com/mmadfox/go-geoql-parser"
)

// thorough is set when a run has many times the cases of a quick one.
var thorough bool

func init() {
	register(&Prop{id: "C16",
		rule: "one or more texts handled in some order or at the same time; non-trivial when a statement of three nodes or more took part",
		parts: []*Part{
			{name: "readonly", n: 60000, about: "Format, CheckType and Walk leave the statement and the dictionary as they were", gen: genReadonly, judge: judgeReadonly},
			{name: "history", n: 40000, about: "what Parse, Format and CheckType say about a text does not depend on what was handled before, and earlier statements stay as they are", gen: genHistory, judge: judgeHistory},
			{name: "mutate", n: 40000, about: "changing one statement changes no other one of the same text", gen: genTree, judge: judgeMutate},
			{name: "scanners", n: 20000, about: "tokenizers used in turns do not disturb one another", gen: genTurns, judge: judgeTurns},
			{name: "race parse", n: 900, about: "texts parsed, formatted and checked in several goroutines at once", gen: genHistory, judge: judgeRaceParse, race: true},
			{name: "race shared", n: 900, about: "one statement and one dictionary used in several goroutines at once", gen: genReadonly, judge: judgeRaceShared, race: true},
		}})
	register(&Prop{id: "C17",
		rule: "a SET block and calls of SetVar; non-trivial when two variables or more are set",
		parts: []*Part{
			{name: "history", n: 50000, about: "a statement changed by SetVar is the statement of the text with those variables", gen: genSetVar, judge: judgeSetVar},
			{name: "text", n: 120000, about: "variables keep order, name and value; a name set twice is rejected; names differ by case", gen: genVars, judge: judgeVars},
			{name: "resolve", n: 120000, about: "a reference stands for the value of the variable with exactly its name", gen: genResolve, judge: judgeResolve},
		}})
}

// outcome is all that can be seen of a text.
func outcome(src string, dict geo.Dictionary) (string, geo.Statement) {
	stmt, d, err := parse(src)
	if err != nil {
		return fmt.Sprintf("error %v", err), nil
	}
	return seen(stmt, d, dict), stmt
}

func seen(stmt geo.Statement, d *Doc, dict geo.Dictionary) string {
	if d == nil {
		var err error
		if d, err = fromStmt(stmt); err != nil {
			return err.Error()
		}
	}
	out, err := format(stmt)
	return fmt.Sprintf("%s\nformat %v %s\ncheck %v", DumpDoc(d, true), err, out, geo.CheckType(stmt, dict))
}

func (g *G) dictOfDoc(d *Doc) geo.Dictionary {
	dict := geo.Dict()
	d.all(func(n *Node) {
		if n.K == "sel" && !g.p(10) {
			dict[n.S] = geo.SelectorType(1 + g.n(7))
		}
	})
	return dict
}

func genReadonly(g *G) *Case {
	if g.p(40) {
		return &Case{In: []Text{Text(typedVars + g.typedExpr()), dictText(g.typedDict())}}
	}
	d := g.doc()
	dict := g.dictOfDoc(d)
	return &Case{In: []Text{Text(g.render(d, g.style())), dictText(dict)}}
}

// visits is the order in which Walk meets the nodes.
func visits(stmt geo.Statement) string {
	var b strings.Builder
	geo.Visit(stmt.(*geo.Trigger), func(e geo.Expr) bool {
		b.WriteString(head(e))
		b.WriteByte(' ')
		return true
	})
	return b.String()
}

func judgeReadonly(c *Case, o *Obs) error {
	src := string(c.In[0])
	dict := dictOf(c.In[1])
	stmt, d, err := parse(src)
	if err != nil {
		return fmt.Errorf("valid document rejected: %v", err)
	}
	if n, _ := countNodes(d); n >= 3 {
		o.nonTrivial()
	}
	before := DumpDoc(d, true)
	unchanged := func(what string) error {
		d, err := fromStmt(stmt)
		if err != nil {
			return err
		}
		if err := diff("statement before and after "+what, before, DumpDoc(d, true)); err != nil {
			return err
		}
		if !reflect.DeepEqual(dict, dictOf(c.In[1])) {
			return fmt.Errorf("%s changed the dictionary: %v, was %v", what, dict, dictOf(c.In[1]))
		}
		return nil
	}
	check1 := fmt.Sprint(geo.CheckType(stmt, dict))
	if err := unchanged("CheckType"); err != nil {
		return err
	}
	text1, err := format(stmt)
	if err != nil {
		return err
	}
	if err := unchanged("Format"); err != nil {
		return err
	}
	visits1 := visits(stmt)
	if err := unchanged("Walk"); err != nil {
		return err
	}
	geo.CheckType(stmt, geo.Dict())
	geo.CheckType(stmt, nil)
	text2, _ := format(stmt)
	if err := diff("formatted texts", text1, text2); err != nil {
		return err
	}
	if check2 := fmt.Sprint(geo.CheckType(stmt, dict)); check1 != check2 {
		return fmt.Errorf("CheckType first says %s, then %s", check1, check2)
	}
	if err := diff("visits", visits1, visits(stmt)); err != nil {
		return err
	}
	return unchanged("all of them")
}

// genHistory draws a few texts, some of them one another's variants.
func genHistory(g *G) *Case {
	k := 2 + g.n(5)
	c := &Case{}
	for i := 0; i < k; i++ {
		var s string
		switch g.n(8) {
		case 0, 1:
			s = g.anyText()
		case 2:
			s = typedVars + g.typedExpr()
		case 3:
			if i > 0 {
				// the same text again, or nearly
				s = string(c.In[g.n(i)])
				if g.bit() && len(s) > 0 {
					j := g.n(len(s))
					s = s[:j] + pick(g, "1", "a", " ", "", ".", "\"") + s[j:]
				}
				break
			}
			fallthrough
		default:
			g.budget = 12
			g.vars = nil
			s = g.render(g.plainDoc(func(int) *Node { return g.expr(2) }), g.style())
		}
		c.In = append(c.In, Text(s))
	}
	c.N = []int64{int64(g.bits(16))}
	return c
}

func judgeHistory(c *Case, o *Obs) error {
	dict := typedDict()
	var first []string
	var kept []geo.Statement
	for _, s := range c.In {
		out, stmt := outcome(string(s), dict)
		first, kept = append(first, out), append(kept, stmt)
		o.hitIf(stmt != nil, "accepted")
		o.hitIf(stmt == nil, "rejected")
		if stmt != nil && len(out) > 60 {
			o.nonTrivial()
		}
	}
	// in another order, and each of them twice
	h := int(c.N[0])
	for i := range c.In {
		j := (i*(1+h%7) + h) % len(c.In)
		for k := 0; k < 2; k++ {
			again, _ := outcome(string(c.In[j]), dict)
			if err := diff(fmt.Sprintf("the first and a later handling of text %d", j), first[j], again); err != nil {
				return err
			}
		}
	}
	for i, stmt := range kept {
		if stmt != nil {
			if err := diff(fmt.Sprintf("statement %d at first and in the end", i), first[i], seen(stmt, nil, dict)); err != nil {
				return err
			}
		}
	}
	return nil
}

// deface changes all that can be changed in a statement.
func deface(t *geo.Trigger) {
	geo.Visit(t, func(e geo.Expr) bool {
		switch x := e.(type) {
		case *geo.BinaryExpr:
			x.Op, x.OpPos = geo.LSS, 7
		case *geo.IntTyp:
			x.Val = -77
		case *geo.FloatTyp:
			x.Val = -7.25
		case *geo.StringTyp:
			x.Val = "defaced"
		case *geo.BooleanTyp:
			x.Val = !x.Val
		case *geo.SpeedTyp:
			x.Val, x.U = -1, geo.Bar
		case *geo.PressureTyp:
			x.Val, x.U = -1, geo.Kph
		case *geo.DistanceTyp:
			x.Val, x.U = -1, geo.Kph
		case *geo.TemperatureTyp:
			x.Val, x.U, x.Vec = -1, geo.Kph, geo.Minus
		case *geo.PercentTyp:
			x.Val = -1
		case *geo.DurationTyp:
			x.Val = -1
		case *geo.DateTyp:
			x.Year, x.Month, x.Day = 1, 1, 1
		case *geo.TimeTyp:
			x.Hours, x.Minutes, x.Seconds, x.U = 25, 61, 61, geo.Kph
		case *geo.WeekdayTyp:
			x.Val = 9
		case *geo.MonthTyp:
			x.Val = 99
		case *geo.Ref:
			x.ID = "defaced"
		case *geo.Ident:
			x.Val = "defaced"
		case *geo.Selector:
			x.Ident, x.Wildcard = "defaced", !x.Wildcard
			for k := range x.Args {
				delete(x.Args, k)
			}
			if x.Args != nil {
				x.Args["defaced"] = struct{}{}
			}
		case *geo.GeometryPointTyp:
			x.Val = [2]float64{7, 7}
		case *geo.GeometryLineTyp:
			for i := range x.Val {
				x.Val[i] = [2]float64{7, 7}
			}
			_ = append(x.Val, [2]float64{8, 8})
		case *geo.GeometryPolygonTyp:
			for i := range x.Val {
				for j := range x.Val[i] {
					x.Val[i][j] = [2]float64{7, 7}
				}
				_ = append(x.Val[i], [2]float64{8, 8})
			}
		case *geo.ArrayTyp:
			x.Kind = geo.ILLEGAL
			_ = append(x.List, x.List...)
		}
		return true
	})
	t.SetVar(&geo.Assign{Left: &geo.Ident{Val: "defaced_more"}, Right: &geo.IntTyp{Val: 1}})
	if len(t.Vars) > 1 {
		t.Vars[0], t.Vars[1] = t.Vars[1], t.Vars[0]
	}
	t.RepeatCount, t.RepeatInterval, t.ResetAfter = nil, nil, nil
}

func judgeMutate(c *Case, o *Obs) error {
	src := string(c.In[0])
	dict := typedDict()
	first, a := outcome(src, dict)
	if a == nil {
		return fmt.Errorf("valid document rejected: %s", first)
	}
	b, _, err := parse(src)
	if err != nil {
		return err
	}
	o.nonTrivial()
	deface(a.(*geo.Trigger))
	if err := diff("a statement before and after another one changed", first, seen(b, nil, dict)); err != nil {
		return err
	}
	again, _ := outcome(src, dict)
	return diff("a text before and after its statement changed", first, again)
}

// genTurns draws two texts and turns for their tokenizers.
func genTurns(g *G) *Case {
	return &Case{In: []Text{Text(g.tokenText()), Text(g.tokenText()), Text(g.soup())}, N: []int64{int64(g.bits(30))}}
}

func scanAll(t *geo.Tokenizer) (out []string) {
	for i := 0; i < 5000; i++ {
		s, more := scanOne(t)
		out = append(out, s)
		if !more {
			break
		}
	}
	return
}

func scanOne(t *geo.Tokenizer) (string, bool) {
	tok, lit := t.Scan()
	return fmt.Sprintf("%d %q @%d %q err=%d", int(tok), lit, t.Offset(), t.TokenText(), t.ErrorCount()), tok != geo.EOF
}

func judgeTurns(c *Case, o *Obs) error {
	var want [3][]string
	for i := range want {
		want[i] = scanAll(geo.NewTokenizer(strings.NewReader(string(c.In[i]))))
	}
	if len(want[0]) > 3 {
		o.nonTrivial()
	}
	var got [3][]string
	var ts [3]*geo.Tokenizer
	var done [3]bool
	for i := range ts {
		ts[i] = geo.NewTokenizer(strings.NewReader(string(c.In[i])))
	}
	h := uint64(c.N[0])
	for n := 0; !(done[0] && done[1] && done[2]); n++ {
		h = h*6364136223846793005 + 1442695040888963407
		i := int(h>>33) % 3
		if done[i] {
			i = (i + 1) % 3
		}
		if done[i] {
			i = (i + 1) % 3
		}
		s, more := scanOne(ts[i])
		got[i] = append(got[i], s)
		if !more || len(got[i]) >= 5000 {
			done[i] = true
		}
	}
	for i := range want {
		if err := diff(fmt.Sprintf("tokens of text %d alone and in turns", i), strings.Join(want[i], "\n"), strings.Join(got[i], "\n")); err != nil {
			return err
		}
	}
	return nil
}

// together runs f in k goroutines.
func together(k int, f func(i int) error) error {
	errs := make([]error, k)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := 0; i < k; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					errs[i] = fmt.Errorf("panic: %v", r)
				}
			}()
			<-start
			errs[i] = f(i)
		}(i)
	}
	close(start)
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	return nil
}

func judgeRaceParse(c *Case, o *Obs) error {
	dict := typedDict()
	var first []string
	for _, s := range c.In {
		out, stmt := outcome(string(s), dict)
		first = append(first, out)
		if stmt != nil {
			o.nonTrivial()
		}
	}
	return together(4, func(i int) error {
		for k := range c.In {
			j := (i + k) % len(c.In)
			again, _ := outcome(string(c.In[j]), dict)
			if err := diff(fmt.Sprintf("text %d alone and with others at the same time", j), first[j], again); err != nil {
				return err
			}
		}
		return nil
	})
}

func judgeRaceShared(c *Case, o *Obs) error {
	dict := dictOf(c.In[1])
	// a fresh statement: nothing has been computed about it yet
	stmt, _, err := parse(string(c.In[0]))
	if err != nil {
		return fmt.Errorf("valid document rejected: %v", err)
	}
	o.nonTrivial()
	first, _ := outcome(string(c.In[0]), dict)
	order := visits(stmt)
	return together(4, func(i int) error {
		if i == 0 {
			if err := diff("visits alone and at the same time", order, visits(stmt)); err != nil {
				return err
			}
		}
		if i == 1 {
			geo.CheckType(stmt, dict)
		}
		return diff("a statement used alone and at the same time", first, seen(stmt, nil, dict))
	})
}

// ---- C17 ---------------------------------------------------------------------

var varNames = []string{"a", "A", "b", "speed", "Speed", "SPEED", "place", "x1", "X1", "_", "km", "h", "every", "Ключ", "ключ", "aa", "a_", "place2", "v", "V"}

func (g *G) varValue() string {
	g.inSet = true
	n := g.unary(2, true)
	g.inSet = false
	r := &renderer{g: g, st: style{layout: 1}}
	r.node(n)
	text, _ := g.layout(r, style{layout: 1})
	return text
}

func (g *G) whenWith(names []string) string {
	g.vars = names
	g.budget = 10
	n := g.expr(2)
	r := &renderer{g: g, st: style{layout: 1}}
	r.node(n)
	text, _ := g.layout(r, style{layout: 1})
	return text
}

// genSetVar draws a document and calls of SetVar:
// In: condition, then name and value of each variable; N: how many are in the text.
func genSetVar(g *G) *Case {
	pool := make([]string, 1+g.n(7))
	k := 1 + g.n(10)
	limit := g.n(4)
	if g.p(12) {
		// many variables, most of them new
		k = 8 + g.n(60)
		limit = g.n(k)
		pool = make([]string, k+g.n(k))
	}
	for i := range pool {
		pool[i] = varNames[g.n(len(varNames))]
		if len(pool) > 7 {
			pool[i] += strconv.Itoa(g.n(1000))
		} else if g.p(15) {
			pool[i] = g.name()
		}
	}
	c := &Case{}
	seen := map[string]bool{}
	inText := 0
	var vars []Text
	for i := 0; i < k; i++ {
		name := pool[g.n(len(pool))]
		if !seen[name] && inText == i && i < limit {
			inText++
		}
		seen[name] = true
		vars = append(vars, Text(name), Text(g.varValue()))
	}
	c.In = append([]Text{Text(g.whenWith(pool))}, vars...)
	c.N = []int64{int64(inText), int64(g.bits(16))}
	return c
}

func setText(vars [][2]string, when string) string {
	var b strings.Builder
	b.WriteString("trigger ")
	if len(vars) > 0 {
		b.WriteString("set ")
	}
	for _, v := range vars {
		b.WriteString(v[0] + " = " + v[1] + "; ")
	}
	b.WriteString("when " + when)
	return b.String()
}

func judgeSetVar(c *Case, o *Obs) error {
	when := string(c.In[0])
	var all [][2]string
	for i := 1; i+1 < len(c.In); i += 2 {
		all = append(all, [2]string{string(c.In[i]), string(c.In[i+1])})
	}
	if len(all) > 1 {
		o.nonTrivial()
	}
	model := append([][2]string(nil), all[:c.N[0]]...)
	stmt, _, err := parse(setText(model, when))
	if err != nil {
		return fmt.Errorf("valid document rejected: %v\n%s", err, setText(model, when))
	}
	t := stmt.(*geo.Trigger)
	dict := typedDict()
	compare := func(step string) error {
		text := setText(model, when)
		want, d, err := parse(text)
		if err != nil {
			return fmt.Errorf("valid document rejected: %v\n%s", err, text)
		}
		got, err := fromStmt(t)
		if err != nil {
			return err
		}
		if err := diff("statement after "+step+" and statement of its text", DumpDoc(d, false), DumpDoc(got, false)); err != nil {
			return err
		}
		f1, _ := format(want)
		f2, err := format(t)
		if err != nil {
			return fmt.Errorf("Format after %s: %v", step, err)
		}
		if err := diff("formatted texts after "+step, f1, f2); err != nil {
			return err
		}
		if a, b := geo.CheckType(want, dict), geo.CheckType(t, dict); (a == nil) != (b == nil) {
			return fmt.Errorf("CheckType after %s: %v, for the statement of the text: %v", step, b, a)
		}
		return nil
	}
	if err := compare("Parse"); err != nil {
		return err
	}
	for i, v := range all[c.N[0]:] {
		step := fmt.Sprintf("SetVar %d (%s)", i, v[0])
		other, _, err := parse("trigger set " + v[0] + " = " + v[1] + " when a")
		if err != nil {
			return fmt.Errorf("valid document rejected: %v", err)
		}
		ov := other.(*geo.Trigger).Vars
		if len(ov) != 1 {
			return fmt.Errorf("one variable in the text, %d in the statement", len(ov))
		}
		taken := false
		for _, m := range model {
			taken = taken || m[0] == v[0]
		}
		err = t.SetVar(ov[0])
		o.hitIf(taken, "taken")
		o.hitIf(!taken, "new")
		if taken != (err != nil) {
			return fmt.Errorf("%s: name taken: %v, error: %v", step, taken, err)
		}
		if err != nil && !strings.Contains(err.Error(), v[0]) {
			return fmt.Errorf("%s: the error does not tell the name: %v", step, err)
		}
		if !taken {
			model = append(model, v)
		}
		if uint(c.N[1])>>(uint(i)%16)&1 == 0 || i == len(all)-1 {
			if err := compare(step); err != nil {
				return err
			}
		}
	}
	return compare("all")
}

// genVars draws a SET block with few names, so that some come twice.
func genVars(g *G) *Case {
	k := 1 + g.n(6)
	if g.p(10) {
		k = 6 + g.n(60)
	}
	c := &Case{}
	var names []string
	// names of a small family
	base := varNames[g.n(len(varNames))]
	for i := 0; i < k; i++ {
		name := pick(g, base, strings.ToUpper(base), strings.ToLower(base), base+"_", base+base, varNames[g.n(len(varNames))], varNames[g.n(len(varNames))], g.name())
		if !isName(name) {
			name = base
		}
		if g.p(70) {
			for n := 0; contains(names, name) && n < 4; n++ {
				if k > 6 {
					name += strconv.Itoa(g.n(1000))
				} else {
					name += pick(g, "1", "_", "b")
				}
			}
		}
		names = append(names, name)
		c.In = append(c.In, Text(name), Text(g.varValue()))
	}
	c.In = append([]Text{Text(g.whenWith(names))}, c.In...)
	c.N = []int64{int64(g.n(3))}
	return c
}

func contains(list []string, s string) bool {
	for _, x := range list {
		if x == s {
			return true
		}
	}
	return false
}

func judgeVars(c *Case, o *Obs) error {
	var b strings.Builder
	b.WriteString("TRIGGER SET ")
	var names, values []string
	dup := false
	for i := 1; i+1 < len(c.In); i += 2 {
		name, val := string(c.In[i]), string(c.In[i+1])
		dup = dup || contains(names, name)
		names, values = append(names, name), append(values, val)
		b.WriteString(name + [...]string{"=", " = ", "\n=\n"}[c.N[0]] + val + [...]string{";", " ;\n", ";"}[c.N[0]])
	}
	b.WriteString(" when " + string(c.In[0]))
	if len(names) > 1 {
		o.nonTrivial()
	}
	_, d, err := parse(b.String())
	if dup {
		o.hit("name twice")
		if err == nil {
			return fmt.Errorf("a name set twice is accepted: %s", clip(b.String(), 600))
		}
		return nil
	}
	o.hit("names differ")
	if err != nil {
		return fmt.Errorf("valid document rejected: %v\n%s", err, clip(b.String(), 600))
	}
	if len(d.Vars) != len(names) {
		return fmt.Errorf("%d variables in the text, %d in the statement", len(names), len(d.Vars))
	}
	for i, a := range d.Vars {
		if a.Kids[0].K != "ident" || a.Kids[0].S != names[i] {
			return fmt.Errorf("variable %d is %s, the text has %s", i, a.Kids[0].head(), names[i])
		}
		// the value alone
		_, v, err := parse("when " + values[i])
		if err != nil {
			return fmt.Errorf("valid document rejected: %v: when %s", err, values[i])
		}
		if err := diff("value of a variable and the same value as a condition", Dump(v.When), Dump(a.Kids[1])); err != nil {
			return err
		}
	}
	return nil
}

// genResolve: In: vars (name, literal)..., the operator and other operand last.
func genResolve(g *G) *Case {
	c := &Case{}
	var names []string
	for i, k := 0, 1+g.n(5); i < k; i++ {
		name := varNames[g.n(len(varNames))]
		if contains(names, name) {
			continue
		}
		names = append(names, name)
		g.inSet = true
		n := g.typed(pick(g, "int", "float", "string", "bool", "geo", "ints", "floats", "strings", "range"), 0)
		for n.K == "ref" || n.K == "sel" || hasRef(n) {
			n = g.atom(pick(g, "int", "float", "str", "bool", "geo", "dist", "temp", "dur"), 0, false)
		}
		g.inSet = false
		c.In = append(c.In, Text(name), Text(strings.TrimPrefix(g.render(&Doc{When: n}, style{layout: 1}), "when ")))
	}
	probe := names[g.n(len(names))]
	if g.p(25) {
		probe = varNames[g.n(len(varNames))]
	}
	other := operandTexts[g.n(len(operandTexts))]
	for strings.Contains(other, "@") {
		other = operandTexts[g.n(len(operandTexts))]
	}
	c.In = append(c.In, Text(probe), Text(opWords(binOps[g.n(len(binOps))])[0]), Text(other))
	c.N = []int64{int64(g.n(2))}
	return c
}

func hasRef(n *Node) bool {
	found := false
	walkNodes(n, func(x *Node) { found = found || x.K == "ref" || x.K == "sel" })
	return found
}

func judgeResolve(c *Case, o *Obs) error {
	k := len(c.In) - 3
	probe, op, other := string(c.In[k]), string(c.In[k+1]), string(c.In[k+2])
	var vars [][2]string
	value, known := "", false
	for i := 0; i+1 < k; i += 2 {
		v := [2]string{string(c.In[i]), string(c.In[i+1])}
		vars = append(vars, v)
		if v[0] == probe {
			value, known = v[1], true
		}
	}
	if len(vars) > 1 {
		o.nonTrivial()
	}
	write := func(x string) string {
		if c.N[0] == 0 {
			return setText(vars, x+" "+op+" "+other)
		}
		return setText(vars, other+" "+op+" "+x)
	}
	stmt, _, err := parse(write("@" + probe))
	if err != nil {
		return fmt.Errorf("valid document rejected: %v\n%s", err, write("@"+probe))
	}
	dict := typedDict()
	got := geo.CheckType(stmt, dict)
	if !known {
		o.hit("unknown")
		if got == nil {
			return fmt.Errorf("CheckType accepts a reference to a variable nobody set: %s", write("@"+probe))
		}
		return nil
	}
	want, _, err := parse(write(value))
	if err != nil {
		if refParse(write(value)).v != vAccept {
			return nil // a range next to a range operator and the like
		}
		return fmt.Errorf("valid document rejected: %v\n%s", err, write(value))
	}
	w := geo.CheckType(want, dict)
	o.hitIf(w == nil, "well typed")
	o.hitIf(w != nil, "ill typed")
	if (w == nil) != (got == nil) {
		return fmt.Errorf("with the reference: %v, with its value: %v\n%s", got, w, write("@"+probe))
	}
	return nil
}
