package main

import (
	"fmt"
	"reflect"
	"runtime"
	"sort"

	geo "github.com/mmadfox/go-geoql-parser"
)

// What can be changed through one field of a statement must not be reachable
// through another one, be it of the same statement, of one parsed before or of
// one parsed from the same text: room for further elements included.

type room struct {
	from, to uintptr
	at       string
}

// rooms lists the memory a statement can be changed through.
func rooms(v reflect.Value, at string, out *[]room) {
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() {
			rooms(v.Elem(), at, out)
		}
	case reflect.Pointer:
		if !v.IsNil() {
			if n := v.Type().Elem().Size(); n > 0 {
				*out = append(*out, room{v.Pointer(), v.Pointer() + n, at})
			}
			rooms(v.Elem(), at, out)
		}
	case reflect.Slice:
		if n := v.Type().Elem().Size() * uintptr(v.Cap()); n > 0 && v.Cap() > 0 {
			*out = append(*out, room{v.Pointer(), v.Pointer() + n, at + "[]"})
		}
		for i := 0; i < v.Len(); i++ {
			if v.Type().Elem().Kind() == reflect.Float64 {
				break
			}
			rooms(v.Index(i), at, out)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			rooms(v.Index(i), at, out)
		}
	case reflect.Map:
		if !v.IsNil() {
			*out = append(*out, room{v.Pointer(), v.Pointer() + 1, at + "{}"})
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if f := v.Type().Field(i); f.IsExported() || f.Anonymous {
				rooms(v.Field(i), at+"."+f.Name, out)
			}
		}
	}
}

func genShares(g *G) *Case {
	d := g.doc()
	c := &Case{In: []Text{Text(g.render(d, g.style())), Text(g.render(d, g.style()))}}
	if g.bit() {
		c.In = append(c.In, Text(g.render(g.doc(), g.style())))
	}
	return c
}

func judgeShares(c *Case, o *Obs) error {
	var all []room
	var kept []geo.Statement
	for i, s := range c.In {
		stmt, err := geo.Parse(string(s))
		if err != nil {
			continue
		}
		kept = append(kept, stmt)
		rooms(reflect.ValueOf(stmt), fmt.Sprintf("statement %d", i), &all)
	}
	defer runtime.KeepAlive(kept) // an address used again is no sharing
	if len(all) > 5 {
		o.nonTrivial()
	}
	sort.Slice(all, func(i, j int) bool { return all[i].from < all[j].from })
	for i := 1; i < len(all); i++ {
		a, b := all[i-1], all[i]
		if b.from < a.to {
			return fmt.Errorf("%s and %s share memory: changing one changes the other", a.at, b.at)
		}
		if a.to > b.to { // b is within a: cannot be, but keep the widest
			all[i].to = a.to
		}
	}
	return nil
}

func init() {
	props["C16"].parts = append(props["C16"].parts, &Part{name: "shares", n: 40000, about: "nothing that can be changed is reachable in two ways, within a statement or from two", gen: genShares, judge: judgeShares})
}
