package main

import (
	_ "embed"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// dict holds the literals of the code under test: generators use them as
// names, strings, numbers, lengths and depths, next to their own values, the
// way a fuzzer uses a dictionary. It steers generation only, verdicts never
// look at the source.
var dict struct {
	names  []string
	strs   []string
	ints   []int64
	floats []string
	sizes  []int
}

const repoDir = "/repo"

//go:embed baseline_literals.txt
var baselineLiterals string

// mineLiterals collects the literals of the non-test sources, those that are
// not in the committed list first and repeated, so that they are drawn often.
func mineLiterals() {
	known := map[string]bool{}
	for _, l := range strings.Split(baselineLiterals, "\n") {
		known[l] = true
	}
	lits := collectLiterals()
	var fresh, old []string
	for _, l := range lits {
		if known[l] {
			old = append(old, l)
		} else {
			fresh = append(fresh, l)
		}
	}
	add := func(l string) {
		switch {
		case strings.HasPrefix(l, `"`), strings.HasPrefix(l, "`"), strings.HasPrefix(l, "'"):
			s, err := strconv.Unquote(l)
			if err != nil || s == "" || len(s) > 200 {
				return
			}
			if isName(s) {
				dict.names = append(dict.names, s)
				if strings.ToUpper(s) != s && isName(strings.ToUpper(s)) {
					dict.names = append(dict.names, strings.ToUpper(s))
				}
			}
			if okString(s) {
				dict.strs = append(dict.strs, s)
			}
		case strings.Contains(l, "."):
			if _, err := strconv.ParseFloat(l, 64); err == nil && strings.Trim(l, "0123456789.") == "" && l[0] != '.' {
				dict.floats = append(dict.floats, l)
			}
		default:
			v, err := strconv.ParseInt(strings.ReplaceAll(l, "_", ""), 0, 64)
			if err != nil {
				return
			}
			dict.ints = append(dict.ints, v)
			if v > 2 && v < 5000 {
				dict.sizes = append(dict.sizes, int(v)-1)
			}
		}
	}
	for _, l := range old {
		add(l)
	}
	if len(fresh) > 0 {
		rep := 1 + len(old)/len(fresh)
		if rep > 60 {
			rep = 60
		}
		for i := 0; i < rep; i++ {
			for _, l := range fresh {
				add(l)
			}
		}
	}
}

// okString reports whether s can stand between quotes as it is.
func okString(s string) bool {
	return !strings.ContainsAny(s, "\"\\\n\x00")
}

func collectLiterals() []string {
	set := map[string]bool{}
	for _, dir := range []string{repoDir, repoDir + "/scanner"} {
		files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src, err := os.ReadFile(f)
			if err != nil {
				continue
			}
			tree, err := parser.ParseFile(token.NewFileSet(), f, src, 0)
			if err != nil {
				continue
			}
			ast.Inspect(tree, func(n ast.Node) bool {
				if l, ok := n.(*ast.BasicLit); ok && !strings.Contains(l.Value, "\n") {
					set[l.Value] = true
				}
				return true
			})
		}
	}
	var out []string
	for k := range set {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
