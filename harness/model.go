package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"time"

	geo "github.com/mmadfox/go-geoql-parser"
)

// Node is the harness' own picture of a GeoQL tree. Generators build it,
// the reference parser builds it, and fromAST reads it off a real tree, so the
// three can be compared through Dump.
type Node struct {
	K    string
	Op   geo.Token
	AK   geo.Token // kind of an array or of a multi geometry
	I    int64
	F    float64
	S    string
	B    bool
	U    geo.Unit
	Sg   geo.Sign
	Dur  time.Duration
	C    [3]int // y,m,d / h,m,s / value
	Pts  [][][2]float64
	Kids []*Node
	Dist *Node
	Args []string
	Wild bool
	Neg  bool // written with a sign in front
	Plus bool
	Lit  []string // number spellings in order of appearance

	Pos, End, OpPos int
}

// trigger kids: assigns..., then named parts below
type Doc struct {
	Vars                                []*Node // K assign: S name, Kids[0] value
	When                                *Node
	RepeatCount, RepeatInterval, ResetA *Node
	Pos, End                            int

	// spelling only: the optional words
	Trig, SetWord, RepeatWord bool
}

func fl(v float64) string {
	return strconv.FormatFloat(v, 'g', -1, 64)
}

func opName(t geo.Token) string {
	switch t {
	case geo.OR:
		return "OR"
	case geo.AND:
		return "AND"
	case geo.LSS:
		return "LSS"
	case geo.LEQ:
		return "LEQ"
	case geo.GTR:
		return "GTR"
	case geo.GEQ:
		return "GEQ"
	case geo.EQL:
		return "EQL"
	case geo.LEQL:
		return "LEQL"
	case geo.LNEQ:
		return "LNEQ"
	case geo.NOT_EQ:
		return "NOT_EQ"
	case geo.INTERSECTS:
		return "INTERSECTS"
	case geo.NOT_INTERSECTS:
		return "NOT_INTERSECTS"
	case geo.IN:
		return "IN"
	case geo.NOT_IN:
		return "NOT_IN"
	case geo.NEARBY:
		return "NEARBY"
	case geo.NOT_NEARBY:
		return "NOT_NEARBY"
	case geo.ADD:
		return "ADD"
	case geo.SUB:
		return "SUB"
	case geo.MUL:
		return "MUL"
	case geo.QUO:
		return "QUO"
	case geo.REM:
		return "REM"
	}
	return fmt.Sprintf("op%d", int(t))
}

func kindName(t geo.Token) string {
	switch t {
	case geo.SELECTOR:
		return "SELECTOR"
	case geo.DURATION:
		return "DURATION"
	case geo.SPEED:
		return "SPEED"
	case geo.PRESSURE:
		return "PRESSURE"
	case geo.TEMPERATURE:
		return "TEMPERATURE"
	case geo.DISTANCE:
		return "DISTANCE"
	case geo.PERCENT:
		return "PERCENT"
	case geo.INT:
		return "INT"
	case geo.FLOAT:
		return "FLOAT"
	case geo.STRING:
		return "STRING"
	case geo.IDENT:
		return "IDENT"
	case geo.RANGE:
		return "RANGE"
	case geo.DATE:
		return "DATE"
	case geo.TIME:
		return "TIME"
	case geo.WEEKDAY:
		return "WEEKDAY"
	case geo.MONTH:
		return "MONTH"
	case geo.GEOMETRY_MULTIPOINT:
		return "MULTIPOINT"
	case geo.GEOMETRY_MULTILINE:
		return "MULTILINE"
	case geo.GEOMETRY_MULTIPOLYGON:
		return "MULTIPOLYGON"
	}
	return fmt.Sprintf("kind%d", int(t))
}

func unitName(u geo.Unit) string {
	switch u {
	case geo.Kph:
		return "Kph"
	case geo.Mph:
		return "Mph"
	case geo.Celsius:
		return "C"
	case geo.Fahrenheit:
		return "F"
	case geo.Kilometer:
		return "Km"
	case geo.Meter:
		return "M"
	case geo.Bar:
		return "Bar"
	case geo.Psi:
		return "Psi"
	case geo.AM:
		return "AM"
	case geo.PM:
		return "PM"
	case geo.Unknown:
		return "-"
	}
	return fmt.Sprintf("unit%d", int(u))
}

type dumper struct {
	b   strings.Builder
	pos bool
}

func Dump(n *Node) string {
	d := dumper{}
	d.node(n)
	return d.b.String()
}

func DumpPos(n *Node) string {
	d := dumper{pos: true}
	d.node(n)
	return d.b.String()
}

func DumpDoc(doc *Doc, pos bool) string {
	if doc == nil {
		return "<nil>"
	}
	d := dumper{pos: pos}
	d.b.WriteString("(trigger")
	d.at(doc.Pos, doc.End)
	for _, a := range doc.Vars {
		d.b.WriteByte(' ')
		d.node(a)
	}
	part := func(name string, n *Node) {
		if n == nil {
			return
		}
		d.b.WriteString(" " + name + "=")
		d.node(n)
	}
	part("when", doc.When)
	part("count", doc.RepeatCount)
	part("every", doc.RepeatInterval)
	part("reset", doc.ResetA)
	d.b.WriteByte(')')
	return d.b.String()
}

func (d *dumper) at(pos, end int) {
	if d.pos {
		fmt.Fprintf(&d.b, "@%d-%d", pos, end)
	}
}

// head is the text of a node without its children and positions.
func (n *Node) head() string {
	switch n.K {
	case "int":
		return "int:" + strconv.FormatInt(n.I, 10)
	case "float":
		return "float:" + fl(n.F)
	case "pct":
		return "pct:" + fl(n.F)
	case "speed", "press", "dist":
		return n.K + ":" + fl(n.F) + unitName(n.U)
	case "temp":
		return "temp:" + n.Sg.String() + fl(n.F) + unitName(n.U)
	case "dur":
		return "dur:" + strconv.FormatInt(int64(n.Dur), 10)
	case "str":
		return "str:" + strconv.Quote(n.S)
	case "bool":
		return "bool:" + strconv.FormatBool(n.B)
	case "ref", "ident":
		return n.K + ":" + n.S
	case "wild":
		return "*"
	case "date", "time":
		s := fmt.Sprintf("%s:%d,%d,%d", n.K, n.C[0], n.C[1], n.C[2])
		if n.K == "time" {
			s += unitName(n.U)
		}
		return s
	case "wday", "month":
		return fmt.Sprintf("%s:%d", n.K, n.C[0])
	case "point", "line", "poly":
		var b strings.Builder
		b.WriteString(n.K)
		for _, ring := range n.Pts {
			b.WriteByte('<')
			for _, p := range ring {
				b.WriteString("[" + fl(p[0]) + "," + fl(p[1]) + "]")
			}
			b.WriteByte('>')
		}
		if n.B {
			b.WriteString(" HasHoles is wrong")
		}
		return b.String()
	case "multi":
		return "multi:" + kindName(n.AK)
	case "arr":
		return "arr:" + kindName(n.AK)
	case "bin":
		return "bin:" + opName(n.Op)
	case "sel":
		args := append([]string(nil), n.Args...)
		sort.Strings(args)
		s := "sel:" + n.S
		if n.Wild {
			s += "*"
		}
		if len(args) > 0 {
			s += fmt.Sprintf("%q", args)
		}
		return s
	case "assign":
		return "assign"
	}
	return n.K
}

// children lists the nodes below n in source order.
func (n *Node) children() []*Node {
	kids := n.Kids
	if n.Dist != nil {
		kids = append(append([]*Node(nil), kids...), n.Dist)
	}
	return kids
}

func (d *dumper) node(n *Node) {
	if n == nil {
		d.b.WriteString("<nil>")
		return
	}
	kids := n.children()
	if len(kids) > 0 {
		d.b.WriteByte('(')
	}
	d.b.WriteString(n.head())
	d.at(n.Pos, n.End)
	if d.pos && (n.K == "bin" || n.K == "assign") {
		fmt.Fprintf(&d.b, "/%d", n.OpPos)
	}
	for _, k := range kids {
		d.b.WriteByte(' ')
		d.node(k)
	}
	if len(kids) > 0 {
		d.b.WriteByte(')')
	}
}

// walkNodes visits n and everything below it, parents first.
func walkNodes(n *Node, f func(*Node)) {
	if n == nil {
		return
	}
	f(n)
	for _, k := range n.children() {
		walkNodes(k, f)
	}
}

func (d *Doc) all(f func(*Node)) {
	for _, a := range d.Vars {
		walkNodes(a, f)
	}
	for _, n := range []*Node{d.When, d.RepeatCount, d.RepeatInterval, d.ResetA} {
		walkNodes(n, f)
	}
}

// fromStmt reads a real statement into the model.
func fromStmt(stmt geo.Statement) (*Doc, error) {
	t, ok := stmt.(*geo.Trigger)
	if !ok || t == nil {
		return nil, fmt.Errorf("statement is %T", stmt)
	}
	d := &Doc{Pos: int(t.Pos()), End: int(t.End())}
	for _, a := range t.Vars {
		d.Vars = append(d.Vars, fromExpr(a))
	}
	d.When = fromExpr(t.When)
	d.RepeatCount = fromExpr(t.RepeatCount)
	d.RepeatInterval = fromExpr(t.RepeatInterval)
	d.ResetA = fromExpr(t.ResetAfter)
	return d, nil
}

func fromExprs(in []geo.Expr) (out []*Node) {
	for _, e := range in {
		out = append(out, fromExpr(e))
	}
	return
}

func fromExpr(e geo.Expr) *Node {
	if e == nil {
		return nil
	}
	n := fromExpr1(e)
	if n != nil {
		n.Pos, n.End = int(e.Pos()), int(e.End())
	}
	return n
}

func fromDist(d *geo.DistanceTyp) *Node {
	if d == nil {
		return nil
	}
	return fromExpr(d)
}

func fromExpr1(e geo.Expr) *Node {
	switch t := e.(type) {
	case *geo.Assign:
		return &Node{K: "assign", OpPos: int(t.TokPos), Kids: []*Node{fromExpr(t.Left), fromExpr(t.Right)}}
	case *geo.Ident:
		return &Node{K: "ident", S: t.Val}
	case *geo.ArrayTyp:
		return &Node{K: "arr", AK: t.Kind, Kids: fromExprs(t.List)}
	case *geo.BinaryExpr:
		return &Node{K: "bin", Op: t.Op, OpPos: int(t.OpPos), Kids: []*Node{fromExpr(t.Left), fromExpr(t.Right)}}
	case *geo.ParenExpr:
		return &Node{K: "paren", Kids: []*Node{fromExpr(t.Expr)}}
	case *geo.WildcardTyp:
		return &Node{K: "wild"}
	case *geo.TimeTyp:
		return &Node{K: "time", C: [3]int{t.Hours, t.Minutes, t.Seconds}, U: t.U}
	case *geo.DateTyp:
		return &Node{K: "date", C: [3]int{t.Year, t.Month, t.Day}}
	case *geo.WeekdayTyp:
		return &Node{K: "wday", C: [3]int{t.Val}}
	case *geo.MonthTyp:
		return &Node{K: "month", C: [3]int{t.Val}}
	case *geo.GeometryPointTyp:
		return &Node{K: "point", Pts: [][][2]float64{{t.Val}}, Dist: fromDist(t.Radius)}
	case *geo.GeometryLineTyp:
		return &Node{K: "line", Pts: [][][2]float64{t.Val}, Dist: fromDist(t.Margin)}
	case *geo.GeometryPolygonTyp:
		return &Node{K: "poly", Pts: t.Val, B: t.HasHoles() != (len(t.Val) > 1)}
	case *geo.GeometryMultiObjectTyp:
		return &Node{K: "multi", AK: t.Kind, Kids: fromExprs(t.Val)}
	case *geo.GeometryCollectionTyp:
		return &Node{K: "coll", Kids: fromExprs(t.Objects)}
	case *geo.IntTyp:
		return &Node{K: "int", I: int64(t.Val)}
	case *geo.Range:
		return &Node{K: "range", Kids: []*Node{fromExpr(t.Low), fromExpr(t.High)}}
	case *geo.PercentTyp:
		return &Node{K: "pct", F: t.Val}
	case *geo.StringTyp:
		return &Node{K: "str", S: t.Val}
	case *geo.FloatTyp:
		return &Node{K: "float", F: t.Val}
	case *geo.DurationTyp:
		return &Node{K: "dur", Dur: t.Val}
	case *geo.TemperatureTyp:
		return &Node{K: "temp", F: t.Val, U: t.U, Sg: t.Vec}
	case *geo.PressureTyp:
		return &Node{K: "press", F: t.Val, U: t.U}
	case *geo.DistanceTyp:
		return &Node{K: "dist", F: t.Val, U: t.U}
	case *geo.SpeedTyp:
		return &Node{K: "speed", F: t.Val, U: t.U}
	case *geo.Ref:
		return &Node{K: "ref", S: t.ID}
	case *geo.Selector:
		n := &Node{K: "sel", S: t.Ident, Wild: t.Wildcard, Kids: fromExprs(t.Props)}
		for k := range t.Args {
			n.Args = append(n.Args, k)
		}
		sort.Strings(n.Args)
		return n
	case *geo.BooleanTyp:
		return &Node{K: "bool", B: t.Val}
	}
	return &Node{K: fmt.Sprintf("?%T", e)}
}
