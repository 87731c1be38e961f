package main

import (
	"fmt"
	"strings"

	geo "github.com/mmadfox/go-geoql-parser"
)

// head names an expression without reading what is below it.
func head(e geo.Expr) string {
	if e == nil {
		return "nil"
	}
	switch t := e.(type) {
	case *geo.Trigger:
		return "trigger"
	case *geo.BinaryExpr:
		return "bin:" + opName(t.Op)
	case *geo.ParenExpr:
		return "paren"
	case *geo.Assign:
		return "assign"
	case *geo.Range:
		return "range"
	case *geo.ArrayTyp:
		return "arr:" + kindName(t.Kind)
	case *geo.GeometryCollectionTyp:
		return "coll"
	case *geo.GeometryMultiObjectTyp:
		return "multi:" + kindName(t.Kind)
	case *geo.Selector:
		c := *t
		c.Props = nil
		return fromExpr1(&c).head()
	}
	return fromExpr1(e).head()
}

// root puts a document into one tree.
func (d *Doc) root() *Node {
	r := &Node{K: "trigger"}
	r.Kids = append(r.Kids, d.Vars...)
	for _, n := range []*Node{d.When, d.RepeatCount, d.RepeatInterval, d.ResetA} {
		if n != nil {
			r.Kids = append(r.Kids, n)
		}
	}
	return r
}

func parseSmall(c *Case, o *Obs) (*geo.Trigger, *Doc, error) {
	stmt, d, err := parse(string(c.In[0]))
	if err != nil {
		return nil, nil, fmt.Errorf("valid document rejected: %v", err)
	}
	n, _ := countNodes(d)
	if n >= 3 {
		o.nonTrivial()
	}
	return stmt.(*geo.Trigger), d, nil
}

func judgeOrder(c *Case, o *Obs) error {
	t, d, err := parseSmall(c, o)
	if err != nil {
		return err
	}
	observeDoc(d, o)
	var want, got []string
	var rec func(n *Node)
	rec = func(n *Node) {
		want = append(want, n.head())
		for _, k := range n.children() {
			rec(k)
		}
		want = append(want, "nil")
	}
	rec(d.root())
	seen := map[geo.Expr]bool{}
	var twice error
	geo.Visit(t, func(e geo.Expr) bool {
		got = append(got, head(e))
		if e != nil {
			if seen[e] {
				twice = fmt.Errorf("node %s visited twice", head(e))
			}
			seen[e] = true
		}
		return true
	})
	if twice != nil {
		return twice
	}
	return diff("visits", strings.Join(want, " "), strings.Join(got, " "))
}

func genPrune(g *G) *Case {
	c := genTree(g)
	c.N = []int64{int64(g.bits(16)), int64(2 + g.n(6))}
	return c
}

// pruned decides by the number of a visit whether to go below.
func pruned(c *Case, i int) bool {
	h := uint64(c.N[0])*0x9e3779b97f4a7c15 + uint64(i)*0xd6e8feb86659fd93
	h ^= h >> 31
	h *= 0x9e3779b97f4a7c15
	return int64(h>>40)%c.N[1] == 0
}

func judgePrune(c *Case, o *Obs) error {
	t, d, err := parseSmall(c, o)
	if err != nil {
		return err
	}
	var want, got []string
	i := 0
	var rec func(n *Node)
	rec = func(n *Node) {
		want = append(want, n.head())
		i++
		if pruned(c, i) {
			o.hit("pruned")
			return
		}
		for _, k := range n.children() {
			rec(k)
		}
		want = append(want, "nil")
	}
	rec(d.root())
	j := 0
	geo.Visit(t, func(e geo.Expr) bool {
		got = append(got, head(e))
		if e == nil {
			return false
		}
		j++
		return !pruned(c, j)
	})
	return diff("visits", strings.Join(want, " "), strings.Join(got, " "))
}

// tracer is a visitor that returns another one for every node.
type tracer struct {
	id  string
	log *[]string
	n   *int
	c   *Case
}

func (v *tracer) Visit(e geo.Expr) geo.Visitor {
	*v.log = append(*v.log, v.id+":"+head(e))
	if e == nil {
		return nil
	}
	*v.n++
	if pruned(v.c, *v.n) {
		return nil
	}
	return &tracer{fmt.Sprint(*v.n), v.log, v.n, v.c}
}

func judgeVisitors(c *Case, o *Obs) error {
	t, d, err := parseSmall(c, o)
	if err != nil {
		return err
	}
	var want, got []string
	i := 0
	var rec func(n *Node, v string)
	rec = func(n *Node, v string) {
		want = append(want, v+":"+n.head())
		i++
		if pruned(c, i) {
			return
		}
		sub := fmt.Sprint(i)
		for _, k := range n.children() {
			rec(k, sub)
		}
		want = append(want, sub+":nil")
	}
	rec(d.root(), "root")
	n := 0
	geo.Walk(&tracer{"root", &got, &n, c}, t)
	return diff("visits", strings.Join(want, " "), strings.Join(got, " "))
}

func judgeSubtrees(c *Case, o *Obs) error {
	t, d, err := parseSmall(c, o)
	if err != nil {
		return err
	}
	if n, _ := countNodes(d); n > 80 {
		return nil
	}
	var all []geo.Expr
	geo.Visit(t, func(e geo.Expr) bool {
		if e != nil {
			all = append(all, e)
		}
		return true
	})
	for i, e := range all {
		var sub []geo.Expr
		geo.Visit(e, func(x geo.Expr) bool {
			if x != nil {
				sub = append(sub, x)
			}
			return true
		})
		if i+len(sub) > len(all) {
			return fmt.Errorf("walking %s alone sees %d nodes, more than inside the statement", head(e), len(sub))
		}
		for k, x := range sub {
			if x != all[i+k] {
				return fmt.Errorf("walking %s alone sees %s where the walk of the statement sees %s", head(e), head(x), head(all[i+k]))
			}
		}
	}
	return nil
}
