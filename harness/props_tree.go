package main

import (
	"errors"
	"fmt"
	"strings"

	geo "github.com/mmadfox/go-geoql-parser"
)

func init() {
	register(&Prop{id: "C03",
		rule: "a document drawn from the grammar (every literal kind, operator, alias, layout; also wide and deep ones) together with its tree; non-trivial when the tree has three nodes or more",
		parts: []*Part{
			{name: "docs", n: 500000, about: "whole documents against the tree they were written from", gen: genTree, judge: wantTree},
			{name: "operands", n: 150000, about: "one or two operands of every kind", gen: func(g *G) *Case {
				g.budget = 12
				d := &Doc{When: g.exprOf(1+g.n(2), 3)}
				return treeCase(g, d)
			}, judge: wantTree},
			{name: "refselftest", n: 60000, about: "the reference parser gives the same tree and positions, else the harness is wrong", gen: genTreePos, judge: judgeRefSelf},
		}})
	register(&Prop{id: "C04",
		rule: "an expression of two operators or more; non-trivial when two operators of different precedence, or two of the same precedence in a row, decide the grouping",
		parts: []*Part{
			{name: "triples", about: "all sequences of three operators", enum: enumTriples, judge: judgePrec},
			{name: "chains", n: 120000, about: "chains of up to 30 operands of all kinds against grouping with two stacks", gen: genChain, judge: judgePrec},
			{name: "parens", n: 120000, about: "random trees written with the parentheses they need, and with more than that", gen: genParens, judge: judgeParens},
			{name: "substitute", n: 60000, about: "an operand replaced by a parenthesised expression leaves the grouping around it alone", gen: genSubst, judge: judgeSubst},
		}})
	register(&Prop{id: "C06",
		rule: "one document written twice: compact and canonical, and with other blanks, comments, letter case and aliases; non-trivial when the two texts differ",
		parts: []*Part{
			{name: "pairs", n: 250000, about: "both texts give the same tree and the same formatted text", gen: genPair, judge: judgePair},
			{name: "retokenised", n: 120000, about: "the blanks of any text (valid or not) changed: both accepted with one tree, or both rejected", gen: genRelayout, judge: judgeRelayout},
		}})
	register(&Prop{id: "C10",
		rule: "a document whose every node has a known place in the text; non-trivial when it has three nodes or more",
		parts: []*Part{
			{name: "places", n: 300000, about: "Pos, End and operator positions of all nodes against the places they were written to", gen: genTreePos, judge: judgePlaces},
			{name: "slices", n: 60000, about: "the text of a node, taken out and parsed alone, is that node again", gen: genTree, judge: judgeSlices},
			{name: "shifted", n: 60000, about: "blanks in front of a document move every position by their length", gen: genShift, judge: judgeShift},
		}})
	register(&Prop{id: "C13",
		rule: "a parsed statement and a visitor; non-trivial when the statement has three nodes or more",
		parts: []*Part{
			{name: "order", n: 120000, about: "Visit sees every node once, parents first, in source order, then nil for every node it entered", gen: genTree, judge: judgeOrder},
			{name: "prune", n: 120000, about: "Visit leaves out what is below a node that answered false", gen: genPrune, judge: judgePrune},
			{name: "visitors", n: 80000, about: "Walk goes on with the visitor the last call returned", gen: genPrune, judge: judgeVisitors},
			{name: "subtrees", n: 40000, about: "walking any node alone gives the same part of the order", gen: genTree, judge: judgeSubtrees},
		}})
}

func judgeRefSelf(c *Case, o *Obs) error {
	r := refParse(string(c.In[0]))
	if r.v != vAccept {
		return errors.New("HARNESS: reference parser says " + r.v.String() + " " + r.why)
	}
	o.nonTrivial()
	if err := diff("HARNESS trees", string(c.Want[0]), DumpDoc(r.doc, false)); err != nil {
		return err
	}
	return diff("HARNESS places", string(c.Want[1]), DumpDoc(r.doc, true))
}

func treeCase(g *G, d *Doc) *Case {
	src := g.render(d, g.style())
	return &Case{In: []Text{Text(src)}, Want: []Text{Text(DumpDoc(d, false))}}
}

func genTreePos(g *G) *Case {
	d := g.doc()
	src := g.render(d, g.style())
	return &Case{In: []Text{Text(src)}, Want: []Text{Text(DumpDoc(d, false)), Text(DumpDoc(d, true))}}
}

// ---- C04 ---------------------------------------------------------------------

func enumTriples(yield func(*Case) bool) {
	name := func(i int) *Node { return &Node{K: "sel", S: string(rune('a' + i)), Wild: true} }
	for _, x := range binOps {
		for _, y := range binOps {
			for _, z := range binOps {
				d := &Doc{When: buildPrec([]*Node{name(0), name(1), name(2), name(3)}, []geo.Token{x, y, z})}
				src := "when a " + opWords(x)[0] + " b " + opWords(y)[0] + " c " + opWords(z)[0] + " d"
				if !yield(&Case{In: []Text{Text(src)}, Want: []Text{Text(DumpDoc(d, false))}}) {
					return
				}
			}
		}
	}
}

func (g *G) leaf() *Node {
	g.budget = 3
	switch g.n(4) {
	case 0:
		return g.unary(1, true)
	case 1:
		return g.atom(pick(g, "int", "float", "bool", "str", "ref", "speed", "temp", "pct", "wild", "range", "geo", "cal", "arr"), 1, true)
	}
	return &Node{K: "sel", S: pick(g, "a", "b", "c", "speed"), Wild: true}
}

func genChain(g *G) *Case {
	k := 3 + g.n(6)
	if g.p(20) {
		k = 3 + g.n(28)
	}
	var xs []*Node
	var ops []geo.Token
	few := g.p(40)
	set := []geo.Token{binOps[g.n(len(binOps))], binOps[g.n(len(binOps))], binOps[g.n(len(binOps))]}
	for i := 0; i < k; i++ {
		xs = append(xs, g.leaf())
		if i+1 < k {
			op := binOps[g.n(len(binOps))]
			if few {
				op = set[g.n(3)]
			}
			ops = append(ops, op)
		}
	}
	return treeCase(g, &Doc{Trig: g.bit(), When: buildPrec(xs, ops)})
}

func judgePrec(c *Case, o *Obs) error {
	src := string(c.In[0])
	_, got, err := parse(src)
	if err != nil {
		return fmt.Errorf("valid expression rejected: %v", err)
	}
	walkNodes(got.When, func(n *Node) {
		if n.K == "bin" {
			for i, k := range n.Kids {
				if k.K == "bin" {
					o.nonTrivial()
					o.hitIf(i == 1, "right operand groups tighter")
				}
			}
		}
	})
	return diff("trees", string(c.Want[0]), DumpDoc(got, false))
}

// randTree draws a binary tree of any shape.
func (g *G) randTree(k int) *Node {
	if k <= 1 {
		return g.leaf()
	}
	l := 1 + g.n(k-1)
	return &Node{K: "bin", Op: binOps[g.n(len(binOps))], Kids: []*Node{g.randTree(l), g.randTree(k - l)}}
}

// parenthesise adds the parentheses a tree needs, and some more.
func (g *G) parenthesise(n *Node, extra bool) *Node {
	if n.K != "bin" {
		if extra && g.p(20) {
			return &Node{K: "paren", Kids: []*Node{n}}
		}
		return n
	}
	m := *n
	m.Kids = nil
	for i, k := range n.Kids {
		x := g.parenthesise(k, extra)
		need := k.K == "bin" && (precOf(k.Op) < precOf(n.Op) || i == 1 && precOf(k.Op) == precOf(n.Op))
		if need || extra && g.p(30) {
			x = &Node{K: "paren", Kids: []*Node{x}}
		}
		m.Kids = append(m.Kids, x)
	}
	return &m
}

// stripped drops the parentheses of a tree.
func stripped(n *Node) *Node {
	if n == nil {
		return nil
	}
	for n.K == "paren" {
		n = n.Kids[0]
	}
	m := *n
	m.Kids = nil
	for _, k := range n.Kids {
		m.Kids = append(m.Kids, stripped(k))
	}
	return &m
}

func genParens(g *G) *Case {
	t := g.randTree(2 + g.n(8))
	d := &Doc{When: g.parenthesise(t, g.bit())}
	src := g.render(d, g.style())
	return &Case{In: []Text{Text(src)}, Want: []Text{Text(DumpDoc(d, false)), Text(Dump(stripped(t)))}}
}

func judgeParens(c *Case, o *Obs) error {
	_, got, err := parse(string(c.In[0]))
	if err != nil {
		return fmt.Errorf("valid expression rejected: %v", err)
	}
	if strings.Contains(string(c.Want[0]), "(paren") {
		o.nonTrivial()
	}
	if err := diff("trees", string(c.Want[0]), DumpDoc(got, false)); err != nil {
		return err
	}
	return diff("grouping", string(c.Want[1]), Dump(stripped(got.When)))
}

func genSubst(g *G) *Case {
	k := 3 + g.n(5)
	var xs []*Node
	var ops []geo.Token
	at := g.n(k)
	inner := g.render(&Doc{When: g.exprOf(1+g.n(4), 1)}, style{layout: 1})
	inner = strings.TrimPrefix(inner, "when ")
	a, b := "when", "when"
	for i := 0; i < k; i++ {
		x := &Node{K: "sel", S: "v" + string(rune('a'+i)), Wild: true}
		xs = append(xs, x)
		if i == at {
			a += " HOLE"
			b += " (" + inner + ")"
		} else {
			a += " " + x.S
			b += " " + x.S
		}
		if i+1 < k {
			op := binOps[g.n(len(binOps))]
			ops = append(ops, op)
			a += " " + opWords(op)[0]
			b += " " + opWords(op)[0]
		}
	}
	return &Case{In: []Text{Text(a), Text(b), Text("when " + inner)}}
}

func judgeSubst(c *Case, o *Obs) error {
	var ds []*Doc
	for _, s := range c.In {
		_, d, err := parse(string(s))
		if err != nil {
			return fmt.Errorf("%q rejected: %v", clip(string(s), 300), err)
		}
		ds = append(ds, d)
	}
	o.nonTrivial()
	want := strings.Replace(Dump(ds[0].When), "sel:HOLE*", "(paren "+Dump(ds[2].When)+")", 1)
	return diff("grouping", want, Dump(ds[1].When))
}

// ---- C06 ---------------------------------------------------------------------

func genPair(g *G) *Case {
	d := g.doc()
	a := g.render(d, style{layout: g.n(2)})
	st := g.style()
	st.cases = st.cases || g.p(60)
	b := g.render(d, st)
	return &Case{In: []Text{Text(a), Text(b)}}
}

func judgePair(c *Case, o *Obs) error {
	var dump, out [2]string
	for i, s := range c.In {
		stmt, d, err := parse(string(s))
		if err != nil {
			return fmt.Errorf("text %d rejected: %v", i, err)
		}
		dump[i] = DumpDoc(d, false)
		if out[i], err = format(stmt); err != nil {
			return err
		}
	}
	if c.In[0] != c.In[1] {
		o.nonTrivial()
	}
	o.hitIf(!strings.EqualFold(squeeze(string(c.In[0])), squeeze(string(c.In[1]))), "aliases")
	if err := diff("trees", dump[0], dump[1]); err != nil {
		return err
	}
	return diff("formatted texts", out[0], out[1])
}

// genRelayout writes the tokens of any text again with other blanks.
func genRelayout(g *G) *Case {
	src := g.anyText()
	lx := refLex(src)
	if lx.bad != "" || lx.soft || lx.bom {
		return nil
	}
	r := &renderer{g: g}
	for i, t := range lx.toks[:len(lx.toks)-1] {
		l := lexeme{text: t.text}
		if i > 0 && lx.toks[i-1].text == "@" {
			if lx.toks[i-1].end == t.off {
				l.tight = true
			} else {
				l.spaced = true
			}
		}
		if i > 0 {
			p := lx.toks[i-1]
			if !separable(p.text, t.text) || p.k == tOp && t.k == tOp || p.text == "!" {
				// 'not in' and friends stay two words; characters that join stay apart
				l.spaced = p.end != t.off || !separable(p.text, t.text)
				if p.k == tOp && t.k == tOp && p.end == t.off && separable(p.text, t.text) {
					l.spaced = false
				}
			}
		}
		if !l.tight && i > 0 && g.p(15) && lx.toks[i-1].text != "@" {
			l.spaced = true
		}
		r.out = append(r.out, l)
	}
	if len(r.out) == 0 {
		return nil
	}
	text, _ := g.layout(r, style{layout: pick(g, 0, 1, 2), comments: g.p(30), padded: g.bit()})
	return &Case{In: []Text{Text(src), Text(text)}}
}

func judgeRelayout(c *Case, o *Obs) error {
	a, b := refLex(string(c.In[0])), refLex(string(c.In[1]))
	if b.bad != "" || b.soft || len(a.toks) != len(b.toks) {
		return nil // not the same tokens, the generator gave up
	}
	for i := range a.toks {
		if a.toks[i].text != b.toks[i].text {
			return nil
		}
	}
	if c.In[0] != c.In[1] {
		o.nonTrivial()
	}
	_, x, err1 := parse(string(c.In[0]))
	_, y, err2 := parse(string(c.In[1]))
	if (err1 == nil) != (err2 == nil) {
		return fmt.Errorf("only one of two texts of the same tokens is accepted: %v / %v", err1, err2)
	}
	if err1 != nil {
		o.hit("both rejected")
		return nil
	}
	o.hit("both accepted")
	return diff("trees", DumpDoc(x, false), DumpDoc(y, false))
}

// ---- C10 ---------------------------------------------------------------------

func judgePlaces(c *Case, o *Obs) error {
	_, got, err := parse(string(c.In[0]))
	if err != nil {
		return fmt.Errorf("valid document rejected: %v", err)
	}
	if n, _ := countNodes(got); n >= 3 {
		o.nonTrivial()
	}
	o.hitIf(len(c.In[0]) > 1024, "over a buffer")
	return diff("places", string(c.Want[1]), DumpDoc(got, true))
}

func judgeSlices(c *Case, o *Obs) error {
	src := string(c.In[0])
	_, got, err := parse(src)
	if err != nil {
		return fmt.Errorf("valid document rejected: %v", err)
	}
	if n, _ := countNodes(got); n < 3 {
		return nil
	} else if n > 120 {
		return nil
	}
	o.nonTrivial()
	var bad error
	var rec func(n *Node, cal bool, lo, hi int)
	rec = func(n *Node, cal bool, lo, hi int) {
		if bad != nil {
			return
		}
		if n.Pos < lo || n.End >= hi || n.End < n.Pos || n.End >= len(src) {
			bad = fmt.Errorf("node %s at %d-%d is outside of %d-%d", n.head(), n.Pos, n.End, lo, hi-1)
			return
		}
		text := src[n.Pos : n.End+1]
		switch {
		case n.K == "assign", n.K == "ident":
		case cal:
			// a value inside date[...] has no keyword of its own
		default:
			_, d, err := parse("when " + text)
			if err != nil {
				bad = fmt.Errorf("text %q of node %s does not parse: %v", clip(text, 200), clip(n.head(), 100), err)
				return
			}
			if e := diff(fmt.Sprintf("node and its text %q", clip(text, 100)), Dump(n), Dump(d.When)); e != nil {
				bad = e
				return
			}
			o.hit("sliced")
		}
		calList := (n.K == "arr" || n.K == "range") && n.Kids[0].Pos > n.Pos && calendarKind(n.Kids[0].K) && !strings.HasPrefix(strings.TrimLeft(text, "["), "[") && calHead(text)
		prev := n.Pos
		for _, k := range n.children() {
			rec(k, calList, prev, n.End+1)
			prev = k.End + 1
		}
	}
	prev := 0
	for _, n := range append(append([]*Node(nil), got.Vars...), got.When, got.RepeatCount, got.RepeatInterval, got.ResetA) {
		if n != nil {
			rec(n, false, prev, len(src))
			prev = n.End + 1
		}
	}
	return bad
}

func calendarKind(k string) bool { return k == "date" || k == "time" || k == "wday" || k == "month" }

// calHead reports whether text is one calendar literal with a list or range in
// its brackets.
func calHead(text string) bool {
	r := refLex(text)
	if len(r.toks) < 2 || r.toks[1].text != "[" || r.toks[0].k != tWord {
		return false
	}
	switch r.toks[0].low {
	case "date", "time", "weekday", "month":
	default:
		return false
	}
	for i, t := range r.toks {
		if t.text == "]" {
			return i == len(r.toks)-2
		}
	}
	return false
}

func genShift(g *G) *Case {
	d := g.doc()
	src := g.render(d, g.style())
	gap := strings.Repeat(pick(g, " ", "\n", "\t", " \r\n"), 1+g.size())
	if g.p(20) {
		gap += "/* é速 */ "
	}
	return &Case{In: []Text{Text(src), Text(gap)}}
}

func judgeShift(c *Case, o *Obs) error {
	_, a, err := parse(string(c.In[0]))
	if err != nil {
		return fmt.Errorf("valid document rejected: %v", err)
	}
	_, b, err := parse(string(c.In[1]) + string(c.In[0]))
	if err != nil {
		return fmt.Errorf("rejected behind blanks: %v", err)
	}
	o.nonTrivial()
	by := len(c.In[1])
	a.Pos, a.End = a.Pos+by, a.End+by
	a.all(func(n *Node) {
		n.Pos, n.End = n.Pos+by, n.End+by
		if n.K == "bin" || n.K == "assign" {
			n.OpPos += by
		}
	})
	return diff("places", DumpDoc(a, true), DumpDoc(b, true))
}
