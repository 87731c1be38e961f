package main

import (
	"errors"
	"fmt"
	"strings"

	geo "github.com/mmadfox/go-geoql-parser"
)

func init() {
	register(&Prop{id: "C07",
		rule: "a statement Parse accepted; non-trivial when its tree has three nodes or more",
		parts: []*Part{
			{name: "docs", n: 300000, about: "Format of a document parses to the tree the document was written from", gen: genTree, judge: judgeRound},
			{name: "operands", n: 150000, about: "the same for one or two operands of every kind", gen: func(g *G) *Case {
				g.budget = 12
				return treeCase(g, &Doc{When: g.exprOf(1+g.n(2), 3)})
			}, judge: judgeRound},
			{name: "accepted", n: 250000, about: "the same for any text Parse accepts, whatever its tree", gen: func(g *G) *Case { return one(g.anyText()) }, judge: judgeRoundAny},
			{name: "short", about: "short token sequences that are accepted", enum: enumShort, judge: judgeRoundAny},
		}})
	register(&Prop{id: "C08",
		rule: "a statement Parse accepted; non-trivial when its tree has three nodes or more",
		parts: []*Part{
			{name: "stable", n: 200000, about: "Format gives the same text every time, for the statement, a second parse of the same text and a parse of the formatted text", gen: genTree, judge: judgeStable},
			{name: "selectors", n: 60000, about: "the same for selectors with many ids", gen: genManyArgs, judge: judgeStable},
			{name: "size", n: 20000, about: "the formatted text stays in proportion to the source and its nesting", gen: genBig, judge: judgeSize},
		}})
	register(&Prop{id: "C09",
		rule: "a parsed statement and a writer that fails at its k-th write; non-trivial when the write fails after something was written",
		parts: []*Part{
			{name: "every", n: 6000, about: "a failure at each write in turn", gen: func(g *G) *Case {
				g.budget = 14
				d := g.plainDoc(func(int) *Node { return g.expr(2) })
				return treeCase(g, d)
			}, judge: judgeFaults},
			{name: "some", n: 60000, about: "a failure at a few writes of larger documents, also with a part of the string written", gen: func(g *G) *Case {
				c := genTree(g)
				c.N = []int64{int64(g.bits(20)), int64(g.bits(20)), int64(g.n(3))}
				return c
			}, judge: judgeFault},
		}})
}

func judgeRound(c *Case, o *Obs) error {
	stmt, d, err := parse(string(c.In[0]))
	if err != nil {
		return fmt.Errorf("valid document rejected: %v", err)
	}
	if n, _ := countNodes(d); n >= 3 {
		o.nonTrivial()
	}
	observeDoc(d, o)
	out, err := format(stmt)
	if err != nil {
		return fmt.Errorf("Format: %v", err)
	}
	_, back, err := parse(out)
	if err != nil {
		return fmt.Errorf("formatted text does not parse: %v\n%s", err, clip(out, 800))
	}
	return diff("trees of the document and of its formatted text", string(c.Want[0]), DumpDoc(back, false))
}

func judgeRoundAny(c *Case, o *Obs) error {
	stmt, d, err := parse(string(c.In[0]))
	if err != nil {
		return nil
	}
	if r := refParse(string(c.In[0])); r.v == vSoft && oddity(d) {
		o.hit("left out")
		return nil
	}
	if n, _ := countNodes(d); n >= 3 {
		o.nonTrivial()
	}
	o.hit("accepted")
	out, err := format(stmt)
	if err != nil {
		return fmt.Errorf("Format: %v", err)
	}
	_, back, err := parse(out)
	if err != nil {
		return fmt.Errorf("formatted text does not parse: %v\n%s", err, clip(out, 800))
	}
	return diff("trees of the text and of its formatted text", DumpDoc(d, false), DumpDoc(back, false))
}

// oddity reports trees at the limit of the nesting, where the text of the
// formatter may be the one that is too deep.
func oddity(d *Doc) bool {
	_, depth := countNodes(d)
	return depth > 800
}

func judgeStable(c *Case, o *Obs) error {
	src := string(c.In[0])
	stmt, d, err := parse(src)
	if err != nil {
		return fmt.Errorf("valid document rejected: %v", err)
	}
	if n, _ := countNodes(d); n >= 3 {
		o.nonTrivial()
	}
	out, err := format(stmt)
	if err != nil {
		return fmt.Errorf("Format: %v", err)
	}
	for i := 0; i < 3; i++ {
		again, err := format(stmt)
		if err != nil {
			return fmt.Errorf("Format again: %v", err)
		}
		if err := diff("two formatted texts of one statement", out, again); err != nil {
			return err
		}
	}
	stmt2, _, err := parse(src)
	if err != nil {
		return fmt.Errorf("rejected the second time: %v", err)
	}
	out2, err := format(stmt2)
	if err != nil {
		return err
	}
	if err := diff("formatted texts of two parses", out, out2); err != nil {
		return err
	}
	stmt3, _, err := parse(out)
	if err != nil {
		return fmt.Errorf("formatted text does not parse: %v\n%s", err, clip(out, 800))
	}
	out3, err := format(stmt3)
	if err != nil {
		return err
	}
	return diff("formatted text and its formatted text", out, out3)
}

func genManyArgs(g *G) *Case {
	k := 2 + g.n(12)
	n := &Node{K: "sel", S: g.name(), B: true}
	seen := map[string]bool{}
	for i := 0; i < k; i++ {
		s := pick(g, "", "a", "A", "dev-", "é", "1") + g.digitRun(g.n(4))
		if g.p(30) {
			s = g.strContent()
		}
		if !seen[s] {
			seen[s] = true
			n.Args = append(n.Args, s)
		}
	}
	n.Neg = g.bit()
	n.Wild = n.Neg || len(n.Args) == 0
	if g.p(30) {
		n.Kids = append(n.Kids, g.atom("dist", 0, false))
	}
	x := &Doc{Trig: true, When: n}
	if g.bit() {
		x.When = buildPrec([]*Node{n, g.leaf()}, []geo.Token{binOps[g.n(len(binOps))]})
	}
	return treeCase(g, x)
}

func genBig(g *G) *Case {
	switch g.n(3) {
	case 0:
		return genTree(g)
	case 1:
		return treeCase(g, g.wideDoc())
	}
	return treeCase(g, g.deepDoc())
}

func judgeSize(c *Case, o *Obs) error {
	src := string(c.In[0])
	stmt, d, err := parse(src)
	if err != nil {
		return fmt.Errorf("valid document rejected: %v", err)
	}
	n, depth := countNodes(d)
	if n >= 3 {
		o.nonTrivial()
	}
	o.hitIf(n > 100, "nodes>100")
	o.hitIf(depth > 50, "depth>50")
	out, err := format(stmt)
	if err != nil {
		return fmt.Errorf("Format: %v", err)
	}
	if limit := 1000 + 10*len(src) + 4*len(src)*(depth+2); len(out) > limit {
		return fmt.Errorf("%d bytes of source, nested %d deep, give %d bytes", len(src), depth, len(out))
	}
	return nil
}

// ---- C09 ---------------------------------------------------------------------

type writeFault struct{ codes []int } // not comparable on purpose when held by value

func (e *writeFault) Error() string { return fmt.Sprint("disk full ", e.codes) }

// faultyWriter fails at the k-th write.
type faultyWriter struct {
	buf    strings.Builder
	k, n   int
	part   int
	err    error
	failed bool
	after  int
}

func (w *faultyWriter) WriteString(s string) (int, error) {
	if w.failed {
		w.after++
		return 0, w.err
	}
	w.n++
	if w.n == w.k {
		w.failed = true
		m := 0
		switch w.part {
		case 1:
			m = len(s) / 2
		case 2:
			m = len(s)
		}
		w.buf.WriteString(s[:m])
		return m, w.err
	}
	return w.buf.WriteString(s)
}

type countWriter struct {
	strings.Builder
	n int
}

func (w *countWriter) WriteString(s string) (int, error) {
	w.n++
	return w.Builder.WriteString(s)
}

func faultAt(stmt geo.Statement, full string, k, part int) error {
	w := &faultyWriter{k: k, part: part, err: &writeFault{[]int{k}}}
	err := geo.Format(w, stmt)
	if err == nil {
		return fmt.Errorf("Format says nothing about the failure of write %d, %d of %d bytes written", k, w.buf.Len(), len(full))
	}
	if !errors.Is(err, w.err) {
		return fmt.Errorf("Format returns %v (%T) instead of the error of write %d", err, err, k)
	}
	if w.after > 0 {
		return fmt.Errorf("%d writes after the failure of write %d", w.after, k)
	}
	if !strings.HasPrefix(full, w.buf.String()) {
		return diff(fmt.Sprintf("what was written before the failure of write %d and the full text", k), full[:min(len(full), w.buf.Len())], w.buf.String())
	}
	return nil
}

func judgeFaults(c *Case, o *Obs) error {
	stmt, _, err := parse(string(c.In[0]))
	if err != nil {
		return fmt.Errorf("valid document rejected: %v", err)
	}
	cw := &countWriter{}
	if err := geo.Format(cw, stmt); err != nil {
		return err
	}
	o.nonTrivial()
	n := cw.n
	if n > 800 {
		n = 800
	}
	for k := 1; k <= n; k++ {
		if err := faultAt(stmt, cw.String(), k, k%3); err != nil {
			return err
		}
	}
	// and a writer that recovers gets the whole text again
	again, err := format(stmt)
	if err != nil {
		return err
	}
	return diff("text before and after failures", cw.String(), again)
}

func judgeFault(c *Case, o *Obs) error {
	stmt, _, err := parse(string(c.In[0]))
	if err != nil {
		return fmt.Errorf("valid document rejected: %v", err)
	}
	cw := &countWriter{}
	if err := geo.Format(cw, stmt); err != nil {
		return err
	}
	ks := []int{1 + int(c.N[0])%cw.n, 1 + int(c.N[1])%cw.n, cw.n}
	for _, k := range ks {
		if k > 1 {
			o.nonTrivial()
		}
		if err := faultAt(stmt, cw.String(), k, int(c.N[2])%3); err != nil {
			return err
		}
	}
	return nil
}
