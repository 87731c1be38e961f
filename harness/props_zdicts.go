package main

import (
	"fmt"

	geo "github.com/mmadfox/go-geoql-parser"
)

// Dictionaries made by Dict are empty and their own, whenever they are made and
// whatever is asked of them in between.

// early are the first dictionaries of the process; the first one is filled when
// the others have been made.
var early = func() (d [3]geo.Dictionary) {
	for i := range d {
		d[i] = geo.Dict()
	}
	d[0]["early"] = geo.Int
	return
}()

func init() {
	props["C16"].parts = append(props["C16"].parts,
		&Part{name: "dictionaries", n: 20000, about: "dictionaries made, filled, emptied and asked in any order against plain maps", gen: genDicts, judge: judgeDicts})
}

func genDicts(g *G) *Case {
	c := &Case{}
	for i, k := 0, 3+g.n(30); i < k; i++ {
		c.N = append(c.N, int64(g.n(6)), int64(g.n(5)), int64(g.n(4)), int64(1+g.n(7)))
	}
	return c
}

func judgeDicts(c *Case, o *Obs) error {
	if len(early[0]) != 1 || len(early[1]) != 0 || len(early[2]) != 0 {
		return fmt.Errorf("the first dictionaries of the process are %v, the first one of them was given one selector", early)
	}
	var dicts []geo.Dictionary
	var want []map[string]geo.SelectorType
	stmts := map[string]geo.Statement{}
	for i := 0; i+3 < len(c.N); i += 4 {
		name := fmt.Sprint("s", c.N[i+2])
		if c.N[i] < 2 || len(dicts) == 0 {
			dicts, want = append(dicts, geo.Dict()), append(want, map[string]geo.SelectorType{})
		}
		k := int(c.N[i+1]) % len(dicts)
		switch c.N[i] {
		case 2, 3:
			dicts[k][name], want[k][name] = geo.SelectorType(c.N[i+3]), geo.SelectorType(c.N[i+3])
		case 4:
			delete(dicts[k], name)
			delete(want[k], name)
		case 5:
			src := "when " + name + " > 1"
			if stmts[src] == nil {
				stmt, _, err := parse(src)
				if err != nil {
					return err
				}
				stmts[src] = stmt
			}
			t := want[k][name]
			ok := t == geo.Int || t == geo.Float || t == geo.ArrayInt || t == geo.ArrayFloat
			if err := geo.CheckType(stmts[src], dicts[k]); (err == nil) != ok {
				return fmt.Errorf("%s with a dictionary in which it is %d: %v", src, t, err)
			}
		}
		for j := range dicts {
			if dicts[j] == nil || len(dicts[j]) != len(want[j]) {
				return fmt.Errorf("dictionary %d has %v after step %d, want %v", j, dicts[j], i/4, want[j])
			}
			for s, t := range want[j] {
				if got, ok := dicts[j][s]; !ok || got != t {
					return fmt.Errorf("dictionary %d has %v after step %d, want %v", j, dicts[j], i/4, want[j])
				}
			}
		}
	}
	if len(dicts) > 1 {
		o.nonTrivial()
	}
	return nil
}
