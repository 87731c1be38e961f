package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"strings"

	geo "github.com/mmadfox/go-geoql-parser"
)

// Parts that compare processes: what is set up once per process (tables built
// from maps, caches) is the same for all cases of a worker, so nothing inside
// one process can tell that it depends on chance or on what came first.

func init() {
	props["C16"].parts = append(props["C16"].parts,
		&Part{name: "dictionaries", n: 60000, about: "one expression checked with several dictionaries in turn: every verdict is that of the type rules", gen: genDictionaries, judge: judgeDictionaries},
		&Part{name: "processes", n: 160, about: "texts handled in one order, in the opposite order and alone, each in a process of its own", gen: genProcesses, judge: judgeProcesses})
	props["C08"].parts = append(props["C08"].parts,
		&Part{name: "processes", n: 60, about: "the same texts formatted in twelve processes give the same bytes", gen: genFormats, judge: judgeFormats})
}

// child answers for a list of texts: stdin has pairs of text and dictionary,
// stdout gets what is seen of each.
func child(mode string) int {
	limitMemory()
	var in []Text
	if err := json.NewDecoder(os.Stdin).Decode(&in); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var out []Text
	for i := 0; i+1 < len(in); i += 2 {
		switch mode {
		case "format":
			stmt, err := geo.Parse(string(in[i]))
			if err != nil {
				out = append(out, Text(fmt.Sprintf("error %v", err)))
				continue
			}
			s, err := format(stmt)
			out = append(out, Text(fmt.Sprintf("%v %s", err, s)))
		default:
			s, stmt := outcome(string(in[i]), dictOf(in[i+1]))
			if stmt != nil {
				s += "\nvisits " + visits(stmt)
			}
			out = append(out, Text(s))
		}
	}
	b, err := json.Marshal(out)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	os.Stdout.Write(b)
	return 0
}

// asChild hands texts to a new process.
func asChild(mode string, in []Text) ([]Text, error) {
	self, err := os.Executable()
	if err != nil {
		return nil, err
	}
	b, err := json.Marshal(in)
	if err != nil {
		return nil, err
	}
	cmd := exec.Command(self, "child", mode)
	cmd.Stdin = bytes.NewReader(b)
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	raw, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("a process handling the texts died: %v %s", err, clip(stderr.String(), 1500))
	}
	var out []Text
	if err := json.Unmarshal(raw, &out); err != nil {
		return nil, err
	}
	if len(out) != len(in)/2 {
		return nil, fmt.Errorf("HARNESS: %d answers for %d texts", len(out), len(in)/2)
	}
	return out, nil
}

// conflicting draws dictionaries that disagree about the selectors.
func (g *G) conflicting(names []string) geo.Dictionary {
	d := geo.Dict()
	for _, n := range names {
		if !g.p(8) {
			d[n] = geo.SelectorType(1 + g.n(7))
		}
	}
	return d
}

func typedSelectors() (out []string) {
	for _, t := range typedNames {
		out = append(out, t.n)
	}
	return
}

// genDictionaries: In: text, then dictionaries.
func genDictionaries(g *G) *Case {
	text := typedVars + g.typedExpr()
	if g.p(40) {
		a, b := pick(g, "i", "f", "s", "b", "x"), pick(g, "i", "fs", "1", "1.5", "'a'", "true", "[1]", "['a']", "1..3", "point[1,2]")
		if t := "when " + a + " " + opWords(binOps[g.n(len(binOps))])[0] + " " + b; refParse(t).v == vAccept {
			text = t
		}
	}
	c := one(text)
	names := typedSelectors()
	if d := refParse(text); d.doc != nil {
		d.doc.all(func(n *Node) {
			if n.K == "sel" && !contains(names, n.S) {
				names = append(names, n.S)
			}
		})
	}
	for i, k := 0, 2+g.n(4); i < k; i++ {
		c.In = append(c.In, dictText(g.conflicting(names)))
	}
	return c
}

func judgeDictionaries(c *Case, o *Obs) error {
	src := string(c.In[0])
	stmt, d, err := parse(src)
	if err != nil {
		return fmt.Errorf("valid document rejected: %v: %s", err, src)
	}
	if d.When.K == "bin" || d.When.K == "paren" {
		o.nonTrivial()
	}
	verdicts := map[bool]bool{}
	for turn := 0; turn < 2; turn++ {
		for i, t := range c.In[1:] {
			dict := dictOf(t)
			want := refCheck(d, dict)
			verdicts[want] = true
			if err := geo.CheckType(stmt, dict); (err == nil) != want {
				return fmt.Errorf("dictionary %d, turn %d: well typed is %v, CheckType says %v: %s", i, turn, want, err, src)
			}
		}
	}
	o.hitIf(len(verdicts) == 2, "both verdicts")
	return nil
}

func genProcesses(g *G) *Case {
	c := &Case{}
	names := typedSelectors()
	for i, k := 0, 6+g.n(30); i < k; i++ {
		switch g.n(6) {
		case 0:
			c.In = append(c.In, Text(g.anyText()), dictText(typedDict()))
		case 1, 2:
			c.In = append(c.In, Text(typedVars+g.typedExpr()), dictText(g.conflicting(names)))
		case 3:
			if n := len(c.In) / 2; n > 0 {
				// a text seen before with another dictionary, or changed a little
				s := string(c.In[2*g.n(n)])
				if g.bit() && len(s) > 0 {
					j := g.n(len(s))
					s = s[:j] + pick(g, "1", "a", " ", "", ".", "\"") + s[j:]
				}
				c.In = append(c.In, Text(s), dictText(g.conflicting(names)))
				break
			}
			fallthrough
		default:
			g.vars, g.inSet = nil, false
			d := g.doc()
			c.In = append(c.In, Text(g.render(d, g.style())), dictText(g.dictOfDoc(d)))
		}
	}
	c.N = []int64{int64(g.bits(16))}
	return c
}

func judgeProcesses(c *Case, o *Obs) error {
	n := len(c.In) / 2
	if n == 0 {
		return nil
	}
	first, err := asChild("outcome", c.In)
	if err != nil {
		return err
	}
	var back []Text
	for i := n - 1; i >= 0; i-- {
		back = append(back, c.In[2*i], c.In[2*i+1])
	}
	second, err := asChild("outcome", back)
	if err != nil {
		return err
	}
	for i := range first {
		if strings.HasPrefix(string(first[i]), "error") {
			o.hit("rejected")
		} else {
			o.hit("accepted")
			o.nonTrivial()
		}
		if err := diff(fmt.Sprintf("text %d of %d handled in one order and in the opposite one", i, n), string(first[i]), string(second[n-1-i])); err != nil {
			return err
		}
	}
	k := int(c.N[0]) % n
	alone, err := asChild("outcome", c.In[2*k:2*k+2])
	if err != nil {
		return err
	}
	return diff(fmt.Sprintf("text %d of %d alone and with the others", k, n), string(alone[0]), string(first[k]))
}

func genFormats(g *G) *Case {
	c := &Case{}
	for i, k := 0, 10+g.n(40); i < k; i++ {
		g.vars, g.inSet = nil, false
		t := genTree(g)
		if g.p(10) {
			t = genManyArgs(g)
		}
		c.In = append(c.In, t.In[0], "")
	}
	return c
}

func judgeFormats(c *Case, o *Obs) error {
	var first []Text
	for k := 0; k < 12; k++ {
		out, err := asChild("format", c.In)
		if err != nil {
			return err
		}
		if k == 0 {
			first = out
		}
		for i := range out {
			if strings.HasPrefix(string(out[i]), "error") {
				return fmt.Errorf("valid document rejected: %s", out[i])
			}
			o.nonTrivial()
			if err := diff(fmt.Sprintf("text %d formatted in two processes", i), string(first[i]), string(out[i])); err != nil {
				return err
			}
		}
	}
	return nil
}
