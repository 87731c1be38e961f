package main

import (
	"errors"
	"fmt"
	"strings"

	geo "github.com/mmadfox/go-geoql-parser"
)

// parse runs the code under test and reads the result into the model.
func parse(src string) (geo.Statement, *Doc, error) {
	stmt, err := geo.Parse(src)
	if err != nil {
		return nil, nil, err
	}
	if stmt == nil {
		return nil, nil, errors.New("HARNESS: nil statement without an error")
	}
	d, derr := fromStmt(stmt)
	if derr != nil {
		return nil, nil, derr
	}
	return stmt, d, nil
}

// capWriter collects output and stops a formatter that runs away.
type capWriter struct {
	strings.Builder
	max int
}

var errRunaway = errors.New("HARNESS: output far beyond the size of the statement")

func (w *capWriter) WriteString(s string) (int, error) {
	if w.Len()+len(s) > w.max {
		return 0, errRunaway
	}
	return w.Builder.WriteString(s)
}

func format(stmt geo.Statement) (string, error) {
	w := &capWriter{max: 64 << 20}
	err := geo.Format(w, stmt)
	return w.String(), err
}

func diff(what, want, got string) error {
	if want == got {
		return nil
	}
	i := 0
	for i < len(want) && i < len(got) && want[i] == got[i] {
		i++
	}
	lo := i - 60
	if lo < 0 {
		lo = 0
	}
	cut := func(s string) string {
		s = s[lo:]
		if len(s) > 300 {
			s = s[:300] + "..."
		}
		return s
	}
	return fmt.Errorf("%s differ at byte %d:\n  want ...%s\n  got  ...%s", what, i, cut(want), cut(got))
}

// countNodes counts the nodes of a document.
func countNodes(d *Doc) (n, depth int) {
	var rec func(x *Node, k int)
	rec = func(x *Node, k int) {
		if x == nil {
			return
		}
		n++
		if k > depth {
			depth = k
		}
		for _, c := range x.children() {
			rec(c, k+1)
		}
	}
	for _, a := range d.Vars {
		rec(a, 1)
	}
	for _, x := range []*Node{d.When, d.RepeatCount, d.RepeatInterval, d.ResetA} {
		rec(x, 1)
	}
	return
}

func observeDoc(d *Doc, o *Obs) {
	seen := map[string]bool{}
	d.all(func(n *Node) {
		k := n.K
		if k == "bin" {
			k = "bin:" + opName(n.Op)
		}
		if k == "arr" {
			k = "arr:" + kindName(n.AK)
		}
		seen[k] = true
	})
	for k := range seen {
		o.hit("has:" + k)
	}
	n, depth := countNodes(d)
	switch {
	case n > 200:
		o.hit("nodes>200")
	case n > 20:
		o.hit("nodes>20")
	}
	o.hitIf(depth > 50, "depth>50")
}

// agree compares Parse with the reference parser on any text.
func agree(src string, o *Obs, pos bool) error {
	ref := refParse(src)
	o.hit("ref:" + ref.v.String())
	_, got, err := parse(src)
	switch ref.v {
	case vAccept:
		if err != nil {
			return fmt.Errorf("well-formed text rejected: %v\n  want %s", err, clip(DumpDoc(ref.doc, false), 600))
		}
		if e := diff("trees", DumpDoc(ref.doc, false), DumpDoc(got, false)); e != nil {
			return e
		}
		if pos && !ref.lex.bom {
			return diff("positions", DumpDoc(ref.doc, true), DumpDoc(got, true))
		}
	case vReject:
		if err == nil {
			return fmt.Errorf("malformed text accepted (%s at offset %d) as %s", ref.why, ref.at, clip(DumpDoc(got, false), 600))
		}
	}
	return nil
}

// wantTree is the judge for texts whose tree the generator knows.
func wantTree(c *Case, o *Obs) error {
	src := string(c.In[0])
	_, got, err := parse(src)
	if err != nil {
		return fmt.Errorf("valid document rejected: %v\n  want %s", err, clip(string(c.Want[0]), 600))
	}
	observeDoc(got, o)
	if n, _ := countNodes(got); n >= 3 {
		o.nonTrivial()
	}
	return diff("trees", string(c.Want[0]), DumpDoc(got, false))
}

func genTree(g *G) *Case {
	d := g.doc()
	src := g.render(d, g.style())
	return &Case{In: []Text{Text(src)}, Want: []Text{Text(DumpDoc(d, false))}}
}
