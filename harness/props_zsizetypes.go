package main

import (
	"fmt"
	"strings"

	geo "github.com/mmadfox/go-geoql-parser"
)

// Chains, nests, lists and sets of variables of every size under CheckType.

var oddOperands = []string{"1", "1.5", `"s"`, "b1", "sa", "ia", "nope", "@vs", "@vb", "[1]", `["x"]`, "point[1,2]", "*", "1 .. 2", "(i1 < 2)", "(i1 in [1])", "(s1 == 1)", "@none", "date[2030-1-1]", "5s"}

var typedChains = []struct {
	open, shut, sep string
	item            func(int) string
}{
	{"", "", " and ", of("b1", "i1 > 2", "online == true")},
	{"", "", " or ", of("b1", "s1 == name", "@vb")},
	{"(", ")", " and ", of("(b1 or online)", "true")},
	{"", " > 5", " + ", of("i1", "2", "@vi")},
	{"5 < ", "", " + ", of("f1", "2", "@vf")},
	{`"x" == `, "", " + ", of("s1", `"y"`, "@vs")},
	{"", " in [1]", " * ", of("i1", "3")},
	{"", " in 1 .. 5", " / ", of("i1", "3.5")},
	{"", " nearby point[1,2]:5km", " - ", of("i1", "3")},
	{"b1 and i1 + ", " >= 1 or b1", " % ", of("i1", "3")},
	{"i1 in [", "]", ", ", of("1")},
	{"f1 in [", "]", ", ", of("i1", "1.5", "@vi")},
	{"s1 in [", "]", ", ", of("s1")},
}

func typedSizes(n int, yield func(string) bool) bool {
	for ci, c := range typedChains {
		if n == 0 || !yield(typedVars+c.open+items(n, c.sep, c.item, -1, "")+c.shut) {
			return n == 0
		}
		for k, odd := range oddOperands {
			if (n+k+ci)%3 != 0 && n > 40 {
				continue
			}
			for _, at := range []int{n - 1, (n*7/5 + k) % n} {
				if !yield(typedVars + c.open + items(n, c.sep, c.item, at, odd) + c.shut) {
					return false
				}
			}
		}
	}
	for _, p := range [][2]string{{"(", ")"}, {"(b1 and ", ")"}, {"(s1 == 1 or ", ")"}, {"1 + (", ")"}, {"((", ") + 1.5)"}} {
		for _, in := range oddOperands {
			if !yield(typedVars + strings.Repeat(p[0], n) + in + strings.Repeat(p[1], n)) {
				return false
			}
		}
	}
	for _, in := range oddOperands {
		in = strings.Repeat("(", n) + in + strings.Repeat(")", n)
		for _, e := range []string{"i1 > %s", "%s > 1", `%s == "s"`, "b1 and %s", "%s in [1]"} {
			if !yield(typedVars + fmt.Sprintf(e, in)) {
				return false
			}
		}
	}
	// n variables before the one that is meant, and after it
	value := of("1", "1.5", `"s"`, "true", "point[1,2]", "[1]", `["s"]`, "1 .. 2", "date[2030-1-1]", "5s", "i1", "@w0")
	vars := items(n, "; ", func(i int) string { return fmt.Sprintf("w%d = %s", i, value(i)) }, -1, "")
	for k := n - 3; k <= n; k++ {
		if n == 0 || k < 0 {
			continue
		}
		for _, e := range []string{"i1 > @w%d", "s1 == @w%d", "b1 and @w%d", "i1 in @w%d", "s1 in @w%d", "f1 nearby @w%d", "i1 in @w%d .. 5", "f1 in [@w%d, 1]"} {
			if !yield("trigger set " + vars + "; when " + fmt.Sprintf(e, k)) {
				return false
			}
		}
	}
	props := items(n, ", ", of("1", "2km"), -1, "")
	ids := items(n, ", ", numbered(`"%d"`), -1, "")
	for _, name := range []string{"i1", "s1", "b1", "ia", "nope"} {
		if n > 0 && (!yield(typedVars+name+":"+props+" > 5") || !yield(typedVars+name+"{"+ids+"} in [1, 2]") || !yield(typedVars+name+"{"+ids+", *}:"+props+` == "s"`)) {
			return false
		}
	}
	return true
}

func init() {
	dt := dictText(typedDict())
	enum := func(per int, mk func(string) *Case) func(yield func(*Case) bool) {
		return func(yield func(*Case) bool) {
			top, i := 140, 0
			if thorough {
				top = 700
			}
			sizes := []int{}
			for n := 0; n <= top; n++ {
				if n > 300 && n%7 != 0 && !(n > 508 && n < 516) {
					continue
				}
				sizes = append(sizes, n)
			}
			sizes = append(sizes, 199, 256, 257, 300, 401, 513, 601, 750, 901, 1025, 1400, 2049, 3000)
			for _, n := range sizes {
				if !typedSizes(n, func(s string) bool {
					i++
					return i%per != 0 || yield(mk(s))
				}) {
					return
				}
			}
		}
	}
	about := "chains, nests, lists and sets of variables of every size up to 140, and some up to 3000"
	add := func(id, name string, enum func(func(*Case) bool), judge func(*Case, *Obs) error) {
		props[id].parts = append(props[id].parts, &Part{name: name, about: about, enum: enum, judge: judge})
	}
	plain := func(s string) *Case { return &Case{In: []Text{Text(s), dt}} }
	split := func(s string) *Case {
		i := strings.Index(s, "; when ") + len("; when ")
		return &Case{In: []Text{Text(s[:i]), Text(s[i:]), dt}, N: []int64{int64(len(s))*2654435761%(1<<20) | 1}}
	}
	add("C11", "sizes", enum(1, plain), ifAccepted(judgeTypes))
	add("C12", "sizes parens", enum(3, split), ifSplit(judgeTypeParens))
	add("C12", "sizes inline", enum(2, split), ifSplit(judgeTypeInline))
	add("C12", "sizes format", enum(3, split), ifSplit(judgeTypeFormat))
	add("C11", "names", func(yield func(*Case) bool) {
		for n := 1; n <= 2000; n += 1 + n/20 {
			d := geo.Dict()
			for i := 0; i < n; i++ {
				d[fmt.Sprintf("n%d", i)] = geo.SelectorType(i % 9)
			}
			for i := 0; i < 12 && i < n; i++ {
				k := (n - 1 - i*i*7%n) % n
				for _, e := range []string{"n%d > 5", `n%d == "s"`, "n%d", "n%d and true", "n%d in [1]", `n%d in ["s"]`, "N%d > 5", "n%d0000 > 5"} {
					if !yield(&Case{In: []Text{Text("when " + fmt.Sprintf(e, k)), dictText(d)}}) {
						return
					}
				}
			}
		}
	}, judgeTypes)
}

func ifSplit(judge func(*Case, *Obs) error) func(*Case, *Obs) error {
	return func(c *Case, o *Obs) error {
		if refParse(string(c.In[0])+string(c.In[1])).v != vAccept {
			return nil
		}
		return judge(c, o)
	}
}
