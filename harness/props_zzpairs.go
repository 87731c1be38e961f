package main

import (
	"strings"
)

// Two long things in one document, and long things deep inside of others: what
// depends on two sizes at once, or on a size and a depth.

func pairBody(t sized, n int) string {
	s := t.plain(n)
	if !strings.HasPrefix(s, "when ") || strings.Contains(s, "//") || strings.Contains(s, " repeat ") || strings.Contains(s, " reset ") {
		return ""
	}
	s = strings.TrimSpace(s[len("when"):])
	if s == "" || refParse("when "+s).v != vAccept {
		return ""
	}
	return "(" + s + ")"
}

func pairSweep() sweep {
	return sweep{"pairs", "every two lists, chains or words of some sizes in one condition, and each of them deep inside of parentheses, properties and chains", func(yield func(string) bool) {
		ns := []int{1, 3, 9, 17, 33, 65}
		deep := []int{1, 5, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 128, 255, 256, 300, 512, 700}
		if thorough {
			ns = append(ns, 2, 4, 5, 6, 7, 8, 16, 32, 100, 129, 257)
		}
		bodies := map[int][]string{}
		for _, n := range ns {
			for _, t := range sizedTexts {
				if s := pairBody(t, n); s != "" {
					bodies[n] = append(bodies[n], s)
				}
			}
		}
		for k, n := range ns {
			for i, a := range bodies[n] {
				for j := range bodies[1] {
					m := ns[(k+i+j)%len(ns)]
					if j >= len(bodies[m]) {
						continue
					}
					b := bodies[m][j]
					op := []string{" and ", " or ", " == ", "\nand\n"}[(i+j)%4]
					if !yield("when " + a + op + b) {
						return
					}
				}
				for d, depth := range deep {
					w := [][2]string{{"(", ")"}, {"(b and ", ")"}, {"(", " or b)"}, {"((1 - ", ") * 2)"}, {"x:", ""}}[(i+d+k)%5]
					if !yield("when " + strings.Repeat(w[0], depth) + a + strings.Repeat(w[1], depth)) {
						return
					}
				}
			}
		}
	}}
}

func init() {
	add := func(id string, judge func(*Case, *Obs) error) {
		s := pairSweep()
		props[id].parts = append(props[id].parts, &Part{name: "pairs of sizes", about: s.about, enum: s.enum, judge: judge})
	}
	add("C03", judgePart(true, false, false))
	add("C04", judgePart(true, false, false))
	add("C07", judgePart(false, false, true))
	add("C08", ifAccepted(judgeStable))
	add("C10", judgePart(true, false, false))
	add("C13", ifAccepted(judgeOrder))
}
