package main

import (
	"strconv"
	"strings"
	"time"

	geo "github.com/mmadfox/go-geoql-parser"
)

// The reference parser: the grammar as the documentation, the messages and the
// tests of the code give it, written over the reference lexer. It says what
// tree a text has, that the text is malformed, or that the language does not
// settle it (soft).

type verdict int

const (
	vAccept verdict = iota
	vReject
	vSoft
)

func (v verdict) String() string { return [...]string{"accept", "reject", "soft"}[v] }

type refResult struct {
	v    verdict
	doc  *Doc
	at   int // offset of the first token that cannot continue the text
	prev int // offset of the token before
	why  string
	lex  *rlex
}

const (
	softDepth = 900
	hardDepth = 1100
)

type rejected struct {
	at  int
	why string
}

type refParser struct {
	t     []rtok
	p     int
	depth int
	maxD  int
	soft  bool
}

func refParse(src string) (res *refResult) {
	lx := refLex(src)
	res = &refResult{lex: lx}
	ps := &refParser{t: lx.toks, soft: lx.soft}
	defer func() {
		if r := recover(); r != nil {
			rej, ok := r.(rejected)
			if !ok {
				panic(r)
			}
			res.v, res.why = vReject, rej.why
			res.at = ps.t[rej.at].off
			if rej.at > 0 {
				res.prev = ps.t[rej.at-1].off
			}
			res.doc = nil
		}
		if lx.bad != "" {
			res.v, res.why, res.doc = vReject, lx.bad, nil
			return
		}
		if ps.soft || ps.maxD >= softDepth && ps.maxD <= hardDepth {
			res.v = vSoft
		}
	}()
	res.doc = ps.doc()
	return
}

func (p *refParser) cur() rtok { return p.t[p.p] }
func (p *refParser) adv() {
	if p.p < len(p.t)-1 {
		p.p++
	}
}
func (p *refParser) fail(why string)          { panic(rejected{p.p, why}) }
func (p *refParser) failAt(at int, wh string) { panic(rejected{at, wh}) }
func (p *refParser) lastEnd() int             { return p.t[p.p-1].end - 1 }

func (p *refParser) isOp(s string) bool { c := p.cur(); return c.k == tOp && c.text == s }
func (p *refParser) isKw(s string) bool { c := p.cur(); return c.k == tWord && c.low == s }
func (p *refParser) isRange() bool      { return p.isOp("..") || p.isKw("range") }
func (p *refParser) isName() bool       { c := p.cur(); return c.k == tWord && !reserved[c.low] }

func (p *refParser) want(s string) {
	if !p.isOp(s) {
		p.fail("expected " + s)
	}
	p.adv()
}

func (p *refParser) doc() *Doc {
	d := &Doc{Pos: p.cur().off}
	if p.isKw("trigger") {
		d.Trig = true
		p.adv()
		if p.isKw("set") {
			d.SetWord = true
			p.adv()
			p.set(d)
		}
	}
	if !p.isKw("when") {
		p.fail("expected when")
	}
	p.adv()
	d.When = p.expr()
	if p.isKw("repeat") {
		d.RepeatWord = true
		p.adv()
		if p.cur().k != tEOF && !p.isKw("reset") {
			if p.cur().k != tInt {
				p.fail("repeat count")
			}
			at := p.p
			n := p.number(false, false, p.p)
			if n.K != "int" {
				p.failAt(at, "repeat count")
			}
			d.RepeatCount = n
			if p.cur().k != tEOF && !p.isKw("reset") {
				if !p.isKw("every") {
					p.fail("expected every")
				}
				p.adv()
				d.RepeatInterval = p.dur()
			}
		}
	}
	if p.isKw("reset") {
		p.adv()
		if !p.isKw("after") {
			p.fail("expected after")
		}
		p.adv()
		d.ResetA = p.dur()
	}
	if p.cur().k != tEOF {
		p.fail("left over")
	}
	d.End = p.lastEnd()
	return d
}

func (p *refParser) dur() *Node {
	if c := p.cur().k; c != tInt && c != tFloat {
		p.fail("duration")
	}
	at := p.p
	n := p.number(false, false, p.p)
	if n.K != "dur" {
		p.failAt(at, "duration")
	}
	return n
}

func (p *refParser) set(d *Doc) {
	names := map[string]bool{}
	for !p.isKw("when") {
		if !p.isName() {
			p.fail("variable name")
		}
		c := p.cur()
		if names[c.text] {
			p.fail("assigned twice")
		}
		names[c.text] = true
		id := &Node{K: "ident", S: c.text, Pos: c.off, End: c.end - 1}
		p.adv()
		op := p.cur().off
		p.want("=")
		at := p.p
		v := p.unary()
		if v.K == "ref" || v.K == "arr" && v.AK == geo.IDENT {
			p.failAt(at, "reference as value")
		}
		walkNodes(v, func(n *Node) {
			if n.K == "ref" {
				p.soft = true
			}
		})
		if p.isOp(";") {
			p.adv()
		}
		d.Vars = append(d.Vars, &Node{K: "assign", Kids: []*Node{id, v}, Pos: id.Pos, End: v.End, OpPos: op})
	}
}

// operator recognises a binary operator and how many tokens it has.
func (p *refParser) operator() (geo.Token, int) {
	c := p.cur()
	switch c.k {
	case tWord:
		switch c.low {
		case "or":
			return geo.OR, 1
		case "and":
			return geo.AND, 1
		case "eq":
			return geo.EQL, 1
		case "in":
			return geo.IN, 1
		case "intersects":
			return geo.INTERSECTS, 1
		case "nearby":
			return geo.NEARBY, 1
		case "mod", "rem":
			return geo.REM, 1
		case "not":
			if p.p+1 < len(p.t) && p.t[p.p+1].k == tWord {
				switch p.t[p.p+1].low {
				case "eq":
					return geo.NOT_EQ, 2
				case "in":
					return geo.NOT_IN, 2
				case "intersects":
					return geo.NOT_INTERSECTS, 2
				case "nearby":
					return geo.NOT_NEARBY, 2
				}
			}
		}
	case tOp:
		switch c.text {
		case "<":
			return geo.LSS, 1
		case "<=":
			return geo.LEQ, 1
		case ">":
			return geo.GTR, 1
		case ">=":
			return geo.GEQ, 1
		case "==":
			return geo.LEQL, 1
		case "!=":
			return geo.LNEQ, 1
		case "+":
			return geo.ADD, 1
		case "-":
			return geo.SUB, 1
		case "*":
			return geo.MUL, 1
		case "/":
			return geo.QUO, 1
		}
	}
	return geo.ILLEGAL, 0
}

func (p *refParser) expr() *Node {
	operands := []*Node{p.unary()}
	var ops []geo.Token
	var at []int
	for {
		op, n := p.operator()
		if n == 0 {
			break
		}
		at = append(at, p.cur().off)
		ops = append(ops, op)
		for ; n > 0; n-- {
			p.adv()
		}
		operands = append(operands, p.unary())
	}
	return buildPos(operands, ops, at)
}

// buildPos is buildPrec with positions.
func buildPos(operands []*Node, ops []geo.Token, at []int) *Node {
	if len(ops) == 0 {
		return operands[0]
	}
	// split at the last operator of the lowest precedence, so that equal
	// ones group to the left
	best := 0
	for i := range ops {
		if precOf(ops[i]) <= precOf(ops[best]) {
			best = i
		}
	}
	if len(ops) > 40 {
		return buildPosLong(operands, ops, at)
	}
	l := buildPos(operands[:best+1], ops[:best], at[:best])
	r := buildPos(operands[best+1:], ops[best+1:], at[best+1:])
	return &Node{K: "bin", Op: ops[best], OpPos: at[best], Kids: []*Node{l, r}, Pos: l.Pos, End: r.End}
}

// buildPosLong groups level by level.
func buildPosLong(operands []*Node, ops []geo.Token, at []int) *Node {
	for prec := 5; prec >= 1; prec-- {
		var xs []*Node
		var os []geo.Token
		var as []int
		xs = append(xs, operands[0])
		for i, op := range ops {
			if precOf(op) == prec {
				l, r := xs[len(xs)-1], operands[i+1]
				xs[len(xs)-1] = &Node{K: "bin", Op: op, OpPos: at[i], Kids: []*Node{l, r}, Pos: l.Pos, End: r.End}
				continue
			}
			xs, os, as = append(xs, operands[i+1]), append(os, op), append(as, at[i])
		}
		operands, ops, at = xs, os, as
	}
	return operands[0]
}

func (p *refParser) unary() *Node {
	p.depth++
	if p.depth > p.maxD {
		p.maxD = p.depth
	}
	if p.depth > hardDepth {
		p.fail("nested too deep")
	}
	defer func() { p.depth-- }()
	n := p.primary()
	if !p.isRange() {
		return n
	}
	if n.K == "range" {
		p.fail("nested range")
	}
	p.adv()
	at := p.p
	high := p.unary()
	if high.K == "range" {
		p.failAt(at, "nested range")
	}
	for _, k := range []*Node{n, high} {
		switch k.K {
		case "bool", "wild", "arr", "paren", "point", "line", "poly", "multi", "coll":
			p.soft = true
		}
	}
	return &Node{K: "range", Kids: []*Node{n, high}, Pos: n.Pos, End: high.End}
}

func (p *refParser) primary() *Node {
	c := p.cur()
	switch c.k {
	case tInt, tFloat:
		return p.number(false, false, p.p)
	case tString:
		p.adv()
		return &Node{K: "str", S: unquoted(c.text), Pos: c.off, End: c.end - 1}
	case tOp:
		switch c.text {
		case "+", "-":
			start := p.p
			p.adv()
			if k := p.cur().k; k != tInt && k != tFloat {
				p.fail("sign without number")
			}
			return p.number(c.text == "-", c.text == "+", start)
		case "*":
			p.adv()
			return &Node{K: "wild", Pos: c.off, End: c.off}
		case "@":
			p.adv()
			if !p.isName() {
				p.fail("reference name")
			}
			id := p.cur()
			if id.off != c.end {
				p.soft = true
			}
			p.adv()
			return &Node{K: "ref", S: id.text, Pos: c.off, End: id.end - 1}
		case "[":
			return p.array()
		case "(":
			p.adv()
			e := p.expr()
			end := p.cur().off
			p.want(")")
			return &Node{K: "paren", Kids: []*Node{e}, Pos: c.off, End: end}
		}
	case tWord:
		switch c.low {
		case "true", "up", "false", "down":
			p.adv()
			return &Node{K: "bool", B: c.low == "true" || c.low == "up", Pos: c.off, End: c.end - 1}
		case "date", "time", "weekday", "month":
			return p.calendar()
		case "point", "line", "polygon":
			return p.simple()
		case "multipoint", "multiline", "multipolygon":
			return p.multi()
		case "collection":
			return p.collection()
		}
		if p.isName() {
			return p.selector()
		}
	}
	p.fail("operand expected")
	return nil
}

func unquoted(s string) string {
	if len(s) >= 2 {
		return s[1 : len(s)-1]
	}
	return s
}

// numValue reads the current number.
func (p *refParser) numValue() (int64, float64, bool) {
	c := p.cur()
	if strings.Contains(c.text, "_") {
		if c.k == tInt {
			p.fail("digit separator")
		}
		p.soft = true // the documentation has no separators
	}
	if c.k == tInt {
		v, err := strconv.ParseInt(c.text, 10, 64)
		if err != nil {
			p.fail("integer too big")
		}
		return v, float64(v), false
	}
	v, err := strconv.ParseFloat(c.text, 64)
	if err != nil {
		p.fail("float out of range")
	}
	return 0, v, true
}

func (p *refParser) number(neg, plus bool, start int) *Node {
	lit := p.cur().text
	iv, fv, isFloat := p.numValue()
	p.adv()
	u := p.cur()
	pos := p.t[start].off
	quantity := func(kind string, unit geo.Unit) *Node {
		if neg && kind != "temp" {
			p.fail("negative " + kind)
		}
		p.adv()
		n := &Node{K: kind, F: fv, U: unit, Pos: pos, End: u.end - 1}
		if kind == "temp" {
			if neg {
				n.Sg = geo.Minus
			}
			if plus {
				n.Sg = geo.Plus
			}
		}
		return n
	}
	switch u.text {
	case "%", "PCT", "Pct":
		return quantity("pct", geo.Unknown)
	case "bar", "Bar", "BAR":
		return quantity("press", geo.Bar)
	case "psi", "Psi", "PSI":
		return quantity("press", geo.Psi)
	case "km", "Km", "rkm", "Rkm", "rKM":
		return quantity("dist", geo.Kilometer)
	case "M", "rm", "Rm", "rM":
		return quantity("dist", geo.Meter)
	case "kph", "Kph", "KPH":
		return quantity("speed", geo.Kph)
	case "mph", "Mph", "MPH":
		return quantity("speed", geo.Mph)
	case "c", "C":
		return quantity("temp", geo.Celsius)
	case "f", "F":
		return quantity("temp", geo.Fahrenheit)
	}
	if p.isName() && strings.IndexByte("hms", u.low[0]) >= 0 {
		if neg {
			p.fail("negative duration")
		}
		d, err := time.ParseDuration(lit + u.low)
		if err != nil {
			p.fail("unknown unit")
		}
		p.adv()
		return &Node{K: "dur", Dur: d, Pos: pos, End: u.end - 1}
	}
	n := &Node{K: "int", I: iv, Pos: pos, End: p.lastEnd()}
	if isFloat {
		n.K, n.I, n.F = "float", 0, fv
	}
	if neg {
		n.I, n.F = -n.I, -n.F
		if !isFloat {
			n.F = 0
		}
	}
	return n
}

func (p *refParser) selector() *Node {
	c := p.cur()
	n := &Node{K: "sel", S: c.text, Pos: c.off}
	p.adv()
	star := false
	if p.isOp("{") {
		p.adv()
		seen := map[string]bool{}
		needComma := false
		for !p.isOp("}") {
			c := p.cur()
			switch {
			case p.isOp(","):
				if !needComma {
					p.soft = true
				}
				needComma = false
			case p.isOp("*") || c.k == tString:
				if needComma {
					p.soft = true
				}
				needComma = true
				if c.k == tString {
					s := unquoted(c.text)
					if !seen[s] {
						seen[s] = true
						n.Args = append(n.Args, s)
					}
				} else {
					star = true
				}
			default:
				p.fail("selector args")
			}
			p.adv()
			if p.isOp("}") && !needComma {
				p.soft = true
			}
		}
		p.adv()
	}
	n.Wild = star || len(n.Args) == 0
	if p.isOp(":") {
		p.adv()
		for {
			n.Kids = append(n.Kids, p.unary())
			if !p.isOp(",") {
				break
			}
			p.adv()
		}
	}
	n.End = p.lastEnd()
	return n
}

func (p *refParser) array() *Node {
	n := &Node{K: "arr", Pos: p.cur().off}
	p.adv()
	for {
		at := p.p
		e := p.unary()
		k := arrayToken(e.K)
		if k == geo.ILLEGAL {
			p.failAt(at, "array element")
		}
		if len(n.Kids) > 0 && k != n.AK {
			p.failAt(at, "mixed array")
		}
		n.AK = k
		n.Kids = append(n.Kids, e)
		if p.isOp("]") {
			break
		}
		if p.isOp(":") {
			p.soft = true
		} else if !p.isOp(",") {
			p.fail("expected , or ]")
		}
		p.adv()
	}
	n.End = p.cur().off
	p.adv()
	return n
}

// calNum reads a calendar number.
func (p *refParser) calNum(lo, hi int) int {
	if p.cur().k != tInt {
		p.fail("calendar number")
	}
	v, _, _ := p.numValue()
	if v < int64(lo) || v > int64(hi) {
		p.fail("calendar number out of range")
	}
	p.adv()
	return int(v)
}

func (p *refParser) calValue(word string) *Node {
	c := p.cur()
	n := &Node{Pos: c.off}
	switch word {
	case "date":
		n.K = "date"
		n.C[0] = p.calNum(2022, 2200)
		p.want("-")
		n.C[1] = p.calNum(1, 12)
		p.want("-")
		n.C[2] = p.calNum(1, 31)
	case "time":
		n.K = "time"
		n.C[0] = p.calNum(0, 24)
		p.want(":")
		n.C[1] = p.calNum(0, 59)
		if p.isOp(":") {
			p.adv()
			n.C[2] = p.calNum(0, 59)
		}
		if p.isName() {
			switch p.cur().low {
			case "am":
				n.U = geo.AM
			case "pm":
				n.U = geo.PM
			default:
				p.fail("time unit")
			}
			p.adv()
		}
	case "weekday", "month":
		names := wdayNames
		n.K = "wday"
		if word == "month" {
			n.K, names = "month", monthNames
		}
		ok := false
		if c.k == tWord {
			for i, w := range names {
				if w != "" && w == c.low {
					n.C[0], ok = i, true
				}
			}
		}
		if !ok {
			p.fail("name of a " + word)
		}
		p.adv()
	}
	n.End = p.lastEnd()
	return n
}

func (p *refParser) calendar() *Node {
	c := p.cur()
	p.adv()
	p.want("[")
	vals := []*Node{p.calValue(c.low)}
	isRange := p.isRange()
	if isRange {
		p.adv()
		vals = append(vals, p.calValue(c.low))
	} else {
		for p.isOp(",") {
			p.adv()
			vals = append(vals, p.calValue(c.low))
		}
	}
	end := p.cur().off
	p.want("]")
	switch {
	case isRange:
		return &Node{K: "range", Kids: vals, Pos: c.off, End: end}
	case len(vals) > 1:
		return &Node{K: "arr", AK: calToken(vals[0].K), Kids: vals, Pos: c.off, End: end}
	}
	vals[0].Pos, vals[0].End = c.off, end
	return vals[0]
}

func (p *refParser) coord() float64 {
	neg := false
	if p.isOp("-") {
		neg = true
		p.adv()
	}
	if k := p.cur().k; k != tInt && k != tFloat {
		p.fail("coordinate")
	}
	_, v, _ := p.numValue()
	p.adv()
	if neg {
		v = -v
	}
	return v
}

func (p *refParser) position() [2]float64 {
	p.want("[")
	x := p.coord()
	p.want(",")
	y := p.coord()
	p.want("]")
	return [2]float64{x, y}
}

func (p *refParser) positions() (out [][2]float64) {
	p.want("[")
	for {
		out = append(out, p.position())
		if !p.isOp(",") {
			break
		}
		p.adv()
	}
	p.want("]")
	return
}

func (p *refParser) simple() *Node {
	c := p.cur()
	p.adv()
	n := &Node{Pos: c.off}
	switch c.low {
	case "point":
		n.K = "point"
		n.Pts = [][][2]float64{{p.position()}}
	case "line":
		n.K = "line"
		n.Pts = [][][2]float64{p.positions()}
	case "polygon":
		n.K = "poly"
		p.want("[")
		for {
			n.Pts = append(n.Pts, p.positions())
			if !p.isOp(",") {
				break
			}
			p.adv()
		}
		p.want("]")
	default:
		p.failAt(p.p-1, "geometry expected")
	}
	if n.K != "poly" && p.isOp(":") {
		p.adv()
		if k := p.cur().k; k != tInt && k != tFloat {
			p.fail("distance")
		}
		at := p.p
		d := p.number(false, false, p.p)
		if d.K == "dur" && p.t[p.p-1].text == "m" {
			p.soft = true // README writes point[...]:500m, the code wants 500M
			d = &Node{K: "dist", U: geo.Meter}
		}
		if d.K != "dist" {
			p.failAt(at, "distance")
		}
		n.Dist = d
	}
	n.End = p.lastEnd()
	return n
}

func (p *refParser) multi() *Node {
	c := p.cur()
	n := &Node{K: "multi", Pos: c.off}
	want := strings.TrimPrefix(c.low, "multi")
	switch want {
	case "point":
		n.AK = geo.GEOMETRY_MULTIPOINT
	case "line":
		n.AK = geo.GEOMETRY_MULTILINE
	default:
		n.AK = geo.GEOMETRY_MULTIPOLYGON
	}
	p.adv()
	p.want("[")
	for {
		if !p.isKw(want) {
			p.fail("expected " + want)
		}
		n.Kids = append(n.Kids, p.simple())
		if !p.isOp(",") {
			break
		}
		p.adv()
	}
	p.want("]")
	n.End = p.lastEnd()
	return n
}

func (p *refParser) collection() *Node {
	n := &Node{K: "coll", Pos: p.cur().off}
	p.adv()
	p.want("[")
	for {
		if p.cur().k != tWord {
			p.fail("geometry expected")
		}
		switch p.cur().low {
		case "multipoint", "multiline", "multipolygon":
			n.Kids = append(n.Kids, p.multi())
		default:
			n.Kids = append(n.Kids, p.simple())
		}
		if !p.isOp(",") {
			break
		}
		p.adv()
	}
	p.want("]")
	n.End = p.lastEnd()
	return n
}
