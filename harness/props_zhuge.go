package main

import (
	"strconv"
	"strings"

	geo "github.com/mmadfox/go-geoql-parser"
)

// Documents with lists, chains, words and gaps far longer than the others:
// limits and counters of a fixed width show there.

func clone(n *Node) *Node {
	if n == nil {
		return nil
	}
	c := *n
	c.Kids = nil
	for _, k := range n.Kids {
		c.Kids = append(c.Kids, clone(k))
	}
	c.Dist = clone(n.Dist)
	return &c
}

func (g *G) hugeSize(max int) int {
	n := pick(g, 1500, 2000, 3000, 4094, 5000, 8190, 10000, 16382, 20000, 32766, 50000, 65534) + g.n(6)
	if n > max {
		n = max - g.n(10)
	}
	return n
}

// some draws a few nodes to be repeated.
func (g *G) some(draw func() *Node) (out []*Node) {
	for i, k := 0, 1+g.n(7); i < k; i++ {
		out = append(out, draw())
	}
	return
}

func (n *Node) weight() int {
	if n == nil {
		return 0
	}
	w := 12 + len(n.S) + n.Dist.weight()
	for _, l := range [][]string{n.Lit, n.Args} {
		for _, x := range l {
			w += len(x) + 4
		}
	}
	for _, k := range n.Kids {
		w += k.weight()
	}
	return w
}

// fit keeps a list of size nodes made of a few within some megabytes.
func fit(size int, few []*Node) int {
	w := 0
	for _, n := range few {
		w += n.weight()
	}
	return max(2, min(size, (4<<20)*len(few)/w))
}

var hugeKinds = []string{"array", "line", "ring", "rings", "vars", "ids", "props", "collection", "multi", "calendar", "chain", "string", "name", "digits", "selectors", "ranges", "refs", "zoo", "one", "set"}

// hugeDoc draws a document with one very long part.
func (g *G) hugeDoc(max int) *Doc {
	kind := hugeKinds[g.n(len(hugeKinds))]
	g.tag(kind)
	d := &Doc{Trig: g.bit()}
	size := g.hugeSize(max)
	sel := func() *Node { return g.selector(0, false) }
	put := func(op geo.Token, n *Node) {
		if g.bit() {
			d.Trig, d.SetWord = true, true
			d.Vars = append(d.Vars, &Node{K: "assign", Kids: []*Node{{K: "ident", S: "place"}, n}})
			n = &Node{K: "ref", S: "place"}
		}
		d.When = &Node{K: "bin", Op: op, Kids: []*Node{sel(), n}}
	}
	ring := func(n *Node, k int) [][2]float64 {
		few := g.ring(n, 2+g.n(5))
		lits := n.Lit[len(n.Lit)-2*len(few):]
		n.Lit = n.Lit[:len(n.Lit)-2*len(few)]
		var out [][2]float64
		for i := 0; i < k; i++ {
			j := i % len(few)
			if i%1000 == 7 {
				out = append(out, [2]float64{float64(i), 0})
				n.Lit = append(n.Lit, strconv.Itoa(i), "0")
				continue
			}
			out = append(out, few[j])
			n.Lit = append(n.Lit, lits[2*j], lits[2*j+1])
		}
		return out
	}
	switch kind {
	case "array":
		kind := arrayKinds[g.n(len(arrayKinds)-2)]
		n := &Node{K: "arr", AK: arrayToken(kind)}
		few := g.some(func() *Node { return g.atom(kind, 0, false) })
		size = fit(size, few)
		for i := 0; i < size; i++ {
			n.Kids = append(n.Kids, clone(few[i%len(few)]))
		}
		put(geo.IN, n)
	case "line":
		n := &Node{K: "line"}
		n.Pts = append(n.Pts, ring(n, size))
		put(geo.INTERSECTS, n)
	case "ring":
		n := &Node{K: "poly"}
		n.Pts = append(n.Pts, ring(n, size))
		put(geo.INTERSECTS, n)
	case "rings":
		n := &Node{K: "poly"}
		if size > 5000 {
			size = 5000
		}
		for i := 0; i < size; i++ {
			n.Pts = append(n.Pts, [][2]float64{{float64(i), 1}, {2, 3}, {1, 2}})
			n.Lit = append(n.Lit, strconv.Itoa(i), "1", "2", "3", "1", "2")
		}
		put(geo.INTERSECTS, n)
	case "vars":
		d.Trig, d.SetWord = true, true
		if size > 4000 {
			size = 4000
		}
		few := g.some(func() *Node { return g.atom(pick(g, "int", "float", "str", "bool", "speed", "dist"), 0, false) })
		size = fit(size, few)
		for i := 0; i < size; i++ {
			name := string(rune('a'+(i*7)%26)) + "_" + strconv.Itoa(i*31%size) + "_" + strconv.Itoa(i)
			d.Vars = append(d.Vars, &Node{K: "assign", Kids: []*Node{{K: "ident", S: name}, clone(few[i%len(few)])}})
		}
		d.When = &Node{K: "bin", Op: geo.LSS, Kids: []*Node{{K: "ref", S: d.Vars[g.n(size)].Kids[0].S}, {K: "ref", S: d.Vars[size-1].Kids[0].S}}}
	case "ids":
		n := &Node{K: "sel", S: g.name(), B: true}
		if size > 20000 {
			size = 20000
		}
		for i := 0; i < size; i++ {
			n.Args = append(n.Args, strconv.Itoa(i))
		}
		n.Neg = g.bit()
		n.Wild = n.Neg
		if g.bit() {
			put(geo.NEARBY, n)
		} else {
			d.When = n
		}
	case "props":
		n := &Node{K: "sel", S: g.name(), Wild: true}
		few := g.some(func() *Node { return g.atom(pick(g, "int", "float", "dist", "str", "dur", "temp"), 0, false) })
		size = fit(size, few)
		for i := 0; i < size; i++ {
			n.Kids = append(n.Kids, clone(few[i%len(few)]))
		}
		d.When = n
	case "collection", "multi":
		n := &Node{K: "coll"}
		if kind == "multi" {
			n = &Node{K: "multi", AK: geo.GEOMETRY_MULTIPOINT}
		}
		for i := 0; i < size; i++ {
			p := &Node{K: "point", Pts: [][][2]float64{{{float64(i), 1}}}, Lit: []string{strconv.Itoa(i), "1"}}
			if i%900 == 5 {
				p.Dist = g.dist()
			}
			n.Kids = append(n.Kids, p)
		}
		put(geo.NEARBY, n)
	case "calendar":
		kind := calKinds[g.n(4)]
		n := &Node{K: "arr", AK: calToken(kind)}
		few := g.some(func() *Node { return g.calValue(kind) })
		size = fit(size, few)
		for i := 0; i < size; i++ {
			n.Kids = append(n.Kids, clone(few[i%len(few)]))
		}
		put(geo.IN, n)
	case "chain":
		if size > 5000 {
			size = 5000
		}
		few := g.some(func() *Node { return g.atom(pick(g, "sel", "int", "float", "str", "bool", "speed"), 0, false) })
		ops := []geo.Token{binOps[g.n(len(binOps))], binOps[g.n(len(binOps))], geo.AND}
		var operands []*Node
		var list []geo.Token
		size = fit(size, few)
		for i := 0; i < size; i++ {
			operands = append(operands, clone(few[i%len(few)]))
			list = append(list, ops[(i/3)%3])
		}
		d.When = buildPrec(operands, list[:size-1])
	case "string":
		d.When = &Node{K: "bin", Op: geo.EQL, Kids: []*Node{sel(), {K: "str", S: strings.Repeat(pick(g, "x", "é", `\n`, "ab ", `\"`), size)}}}
	case "name":
		d.When = &Node{K: "bin", Op: geo.LSS, Kids: []*Node{{K: "sel", S: g.longName(size), Wild: true}, {K: "ref", S: g.longName(size + 1)}}}
	case "digits":
		lit := strings.Repeat("0", size) + "7"
		d.When = &Node{K: "bin", Op: geo.LSS, Kids: []*Node{sel(), {K: "int", I: 7, Lit: []string{lit}}}}
	case "ranges", "refs":
		n := &Node{K: "arr", AK: geo.RANGE}
		one := func() *Node { return g.atom("range", 0, false) }
		if kind == "refs" {
			n.AK = geo.IDENT
			one = func() *Node { return &Node{K: "ref", S: g.name()} }
		}
		few := g.some(one)
		size = fit(size, few)
		for i := 0; i < size; i++ {
			n.Kids = append(n.Kids, clone(few[i%len(few)]))
		}
		d.When = &Node{K: "bin", Op: geo.IN, Kids: []*Node{sel(), n}}
	case "zoo", "one":
		// operands of every kind, or of one kind only
		one := func() *Node {
			g.budget = 12
			return g.unary(2, true)
		}
		if kind == "one" {
			k := unaryKinds[g.n(len(unaryKinds))]
			one = func() *Node {
				g.budget = 6
				return g.atom(k, 1, true)
			}
		}
		if size > 2500 {
			size = 2500
		}
		few := g.some(one)
		for i := g.n(40); i > 0 && kind == "zoo"; i-- {
			few = append(few, one())
		}
		var operands []*Node
		var list []geo.Token
		size = fit(size, few)
		for i := 0; i < size; i++ {
			operands = append(operands, clone(few[(i*7+i/11)%len(few)]))
			list = append(list, binOps[(i*i+i/5)%len(binOps)])
		}
		d.When = buildPrec(operands, list[:size-1])
	case "set":
		// variables of every kind
		d.Trig, d.SetWord = true, true
		if size > 2500 {
			size = 2500
		}
		g.inSet = true
		few := g.some(func() *Node { g.budget = 8; return g.unary(1, true) })
		for i := g.n(20); i > 0; i-- {
			g.budget = 8
			few = append(few, g.unary(1, true))
		}
		g.inSet = false
		size = fit(size, few)
		for i := 0; i < size; i++ {
			d.Vars = append(d.Vars, &Node{K: "assign", Kids: []*Node{{K: "ident", S: "v" + strconv.Itoa(i)}, clone(few[(i*7+i/11)%len(few)])}})
		}
		d.When = &Node{K: "bin", Op: geo.LSS, Kids: []*Node{{K: "ref", S: "v" + strconv.Itoa(g.n(size))}, sel()}}
	case "selectors":
		var operands []*Node
		var list []geo.Token
		if size > 3000 {
			size = 3000
		}
		for i := 0; i < size; i++ {
			operands = append(operands, &Node{K: "sel", S: "a" + strconv.Itoa(i), Wild: true})
			list = append(list, pick2(i, geo.AND, geo.OR))
		}
		d.When = buildPrec(operands, list[:size-1])
	}
	g.tailParts(d)
	return d
}

func pick2(i int, list ...geo.Token) geo.Token { return list[(i*i+i/7)%len(list)] }

func genHuge(max int) func(g *G) *Case {
	return func(g *G) *Case {
		d := g.hugeDoc(max)
		src := g.render(d, style{cases: false, layout: g.n(2)})
		return &Case{In: []Text{Text(src)}, Want: []Text{Text(DumpDoc(d, false)), Text(DumpDoc(d, true))}}
	}
}

// genFar puts a document behind a long gap.
func genFar(g *G) *Case {
	g.budget = 10
	d := g.plainDoc(func(int) *Node { return g.expr(2) })
	src := g.render(d, g.style())
	n := pick(g, 1<<12, 1<<15, 1<<16, 1<<16, 1<<17, 1<<18, 1<<20, 1<<21) + g.n(40) - 20
	gap := strings.Repeat(pick(g, " ", "\n", "\t"), n)
	switch g.n(4) {
	case 0:
		gap = "/*" + gap + "*/"
	case 1:
		gap = "// " + strings.Repeat("é", n/2) + "\n"
	}
	return &Case{In: []Text{Text(src), Text(gap)}}
}

func init() {
	add := func(id string, p *Part) { props[id].parts = append(props[id].parts, p) }
	add("C03", &Part{name: "huge", n: 240, about: "documents with a list, chain, word or number of thousands of parts", gen: genHuge(70000), judge: wantTree})
	add("C07", &Part{name: "huge", n: 160, about: "the same for documents with a list, chain, word or number of thousands of parts", gen: genHuge(70000), judge: judgeRound})
	add("C08", &Part{name: "huge", n: 80, about: "the same for documents with very long parts", gen: genHuge(20000), judge: judgeStable})
	add("C10", &Part{name: "huge", n: 100, about: "documents with very long parts", gen: genHuge(70000), judge: judgePlaces})
	add("C10", &Part{name: "far", n: 160, about: "documents behind gaps of up to two megabytes", gen: genFar, judge: judgeShift})
	add("C13", &Part{name: "huge", n: 100, about: "order of visits of documents with very long parts", gen: genHuge(20000), judge: judgeOrder})
}
