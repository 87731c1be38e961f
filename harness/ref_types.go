package main

import (
	"strconv"
	"strings"

	geo "github.com/mmadfox/go-geoql-parser"
)

// Reference type rules: what an operand can stand for, and which pairs an
// operator takes.

type tset uint

const (
	tyInt tset = 1 << iota
	tyFloat
	tyString
	tyBool
	tyInts
	tyFloats
	tyStrings
	tyRangeI
	tyRangeF
	tyGeo

	tyNum   = tyInt | tyFloat
	tyNums  = tyInts | tyFloats
	tyRange = tyRangeI | tyRangeF
)

type typer struct {
	vars map[string]*Node
	dict geo.Dictionary
}

// scalar types, by the type of the element, of a selector.
func (t *typer) selector(name string) tset {
	s, ok := t.dict[name]
	if !ok {
		return 0
	}
	switch s {
	case geo.Int, geo.ArrayInt:
		return tyInt | tyInts
	case geo.Float, geo.ArrayFloat:
		return tyFloat | tyFloats
	case geo.String, geo.ArrayString:
		return tyString | tyStrings
	case geo.Boolean:
		return tyBool
	}
	return 0
}

func listOf(elem tset) (s tset) {
	if elem&tyInt != 0 {
		s |= tyInts
	}
	if elem&tyFloat != 0 {
		s |= tyFloats
	}
	if elem&tyString != 0 {
		s |= tyStrings
	}
	return
}

func (t *typer) operand(n *Node, behindRef bool) tset {
	switch n.K {
	case "int":
		return tyInt
	case "float", "pct", "press", "dist", "speed", "temp":
		return tyFloat
	case "str":
		return tyString
	case "bool":
		return tyBool
	case "point", "line", "poly", "multi", "coll":
		return tyGeo
	case "sel":
		if behindRef {
			return 0 // a variable holding a selector has no type
		}
		return t.selector(n.S)
	case "arr":
		return listOf(t.operand(n.Kids[0], false) & (tyInt | tyFloat | tyString))
	case "range":
		low, high := t.operand(n.Kids[0], false), t.operand(n.Kids[1], false)
		if high&tyNum == 0 {
			return 0
		}
		var s tset
		if low&tyInt != 0 {
			s |= tyRangeI
		}
		if low&tyFloat != 0 {
			s |= tyRangeF
		}
		return s
	case "ref":
		if v := t.vars[n.S]; v != nil && v.K != "ref" {
			return t.operand(v, true)
		}
	}
	return 0
}

// result gives the types of an operator applied to operands of these types,
// ok is false when it does not take them.
func opResult(op geo.Token, l, r tset) (tset, bool) {
	both := func(x, y tset) bool { return l&x != 0 && r&y != 0 }
	switch op {
	case geo.AND, geo.OR:
		return tyBool, both(tyBool, tyBool)
	case geo.EQL, geo.LEQL, geo.NOT_EQ, geo.LNEQ:
		return tyBool, both(tyNum, tyNum) || both(tyString, tyString) || both(tyBool, tyBool) ||
			both(tyStrings, tyStrings) || both(tyNums|tyGeo, tyNums|tyGeo)
	case geo.LSS, geo.LEQ, geo.GTR, geo.GEQ:
		return tyBool, both(tyNum, tyNum)
	case geo.IN, geo.NOT_IN:
		return tyBool, both(tyInt, tyInts|tyRange|tyGeo) || both(tyFloat, tyFloats|tyRange|tyGeo) ||
			both(tyString, tyStrings) || both(tyGeo, tyGeo)
	case geo.NEARBY, geo.NOT_NEARBY, geo.INTERSECTS, geo.NOT_INTERSECTS:
		return tyBool, both(tyGeo|tyNum, tyGeo)
	case geo.ADD, geo.SUB, geo.MUL, geo.QUO, geo.REM:
		if both(tyInt, tyInt) {
			return tyInt, true
		}
		if both(tyNum, tyNum) {
			return tyFloat, true
		}
		if op == geo.ADD && both(tyString, tyString) {
			return tyString, true
		}
	}
	return 0, false
}

func (t *typer) expr(n *Node) (tset, bool) {
	switch n.K {
	case "paren":
		return t.expr(n.Kids[0])
	case "bin":
		l, ok := t.expr(n.Kids[0])
		if !ok {
			return 0, false
		}
		r, ok := t.expr(n.Kids[1])
		if !ok {
			return 0, false
		}
		return opResult(n.Op, l, r)
	}
	return t.operand(n, false), true
}

// refCheck reports whether the When of a document is well typed.
func refCheck(d *Doc, dict geo.Dictionary) bool {
	_, ok := newTyper(d, dict).expr(d.When)
	return ok
}

func newTyper(d *Doc, dict geo.Dictionary) *typer {
	t := &typer{vars: map[string]*Node{}, dict: dict}
	for _, a := range d.Vars {
		if t.vars[a.Kids[0].S] == nil {
			t.vars[a.Kids[0].S] = a.Kids[1]
		}
	}
	return t
}

// faults lists the operators that do not take their operands although these
// are well typed.
func (t *typer) faults(n *Node, out *[]*Node) (tset, bool) {
	switch n.K {
	case "paren":
		return t.faults(n.Kids[0], out)
	case "bin":
		l, lok := t.faults(n.Kids[0], out)
		r, rok := t.faults(n.Kids[1], out)
		if !lok || !rok {
			return 0, false
		}
		s, ok := opResult(n.Op, l, r)
		if !ok {
			*out = append(*out, n)
		}
		return s, ok
	}
	return t.operand(n, false), true
}

// faultNamed reports whether a message tells one of the operators at fault and
// those of its operands that have no operator themselves, up to blanks as
// Format writes them.
func faultNamed(src string, d *Doc, dict geo.Dictionary, msg string) bool {
	squeezed := squeeze(msg)
	var all []*Node
	newTyper(d, dict).faults(d.When, &all)
	for _, n := range all {
		ok := strings.Contains(msg, " "+opWords(n.Op)[0]+" ")
		for _, k := range n.Kids {
			for k.K == "paren" {
				k = k.Kids[0]
			}
			switch k.K {
			case "int":
				ok = ok && strings.Contains(msg, strconv.FormatInt(k.I, 10))
			case "str", "sel":
				ok = ok && strings.Contains(msg, k.S)
			case "ref":
				ok = ok && strings.Contains(msg, "@"+k.S)
			case "bool":
				ok = ok && strings.Contains(msg, strconv.FormatBool(k.B))
			}
			if ok && k.K != "bin" && k.Pos >= 0 && k.End < len(src) && k.Pos <= k.End {
				if stmt, _, err := parse("when " + src[k.Pos:k.End+1]); err == nil {
					if text, err := format(stmt); err == nil {
						ok = strings.Contains(squeezed, strings.TrimPrefix(squeeze(text), "TRIGGERWHEN"))
					}
				}
			}
		}
		if ok {
			return true
		}
	}
	return false
}
