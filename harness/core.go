package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"runtime/debug"
	"sort"
	"strconv"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// Text is a byte string that survives JSON even when it is not UTF-8.
type Text string

func (t Text) MarshalJSON() ([]byte, error) {
	if utf8.ValidString(string(t)) {
		return json.Marshal(string(t))
	}
	return json.Marshal(map[string]string{"b64": base64.StdEncoding.EncodeToString([]byte(t))})
}

func (t *Text) UnmarshalJSON(b []byte) error {
	var s string
	if err := json.Unmarshal(b, &s); err == nil {
		*t = Text(s)
		return nil
	}
	var m map[string]string
	if err := json.Unmarshal(b, &m); err != nil {
		return err
	}
	raw, err := base64.StdEncoding.DecodeString(m["b64"])
	*t = Text(raw)
	return err
}

// Case is one generated case: all a judge needs, nothing else. Judges are pure
// functions of a case and the code under test, so a saved case is a replay.
type Case struct {
	Prop string   `json:"property"`
	Part string   `json:"part"`
	In   []Text   `json:"in,omitempty"`
	Want []Text   `json:"want,omitempty"`
	N    []int64  `json:"n,omitempty"`
	Tags []string `json:"-"` // what the generator knows about the case

	// Rerun says how to run the worker that met the case, when the case fails
	// only after the ones before it.
	Rerun *Rerun `json:"rerun,omitempty"`
}

type Rerun struct {
	Seed   uint64  `json:"seed"`
	Shard  int     `json:"shard"`
	Shards int     `json:"shards"`
	Factor float64 `json:"factor"`
	Race   bool    `json:"race,omitempty"`
	Only   string  `json:"only,omitempty"`
	Wall   string  `json:"wall"`
}

// Obs is what a judge reports about a case besides its verdict.
type Obs struct {
	nontrivial bool
	labels     []string
}

func (o *Obs) hit(label string) { o.labels = append(o.labels, label) }
func (o *Obs) hitIf(c bool, l string) {
	if c {
		o.hit(l)
	}
}
func (o *Obs) nonTrivial() { o.nontrivial = true }

// Part is one generator with its judge.
type Part struct {
	name  string
	about string
	n     int // cases per quick run over all shards
	gen   func(g *G) *Case
	// enum lists a finite space instead of gen.
	enum  func(yield func(*Case) bool)
	judge func(c *Case, o *Obs) error
	race  bool // worth running under the race detector
}

type Prop struct {
	id    string
	rule  string
	parts []*Part
}

var props = map[string]*Prop{}

func register(p *Prop) {
	if props[p.id] != nil {
		panic("twice: " + p.id)
	}
	props[p.id] = p
}

func propIDs() []string {
	var ids []string
	for id := range props {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}

// runJudge turns a panic of the code under test into a violation.
func runJudge(p *Part, c *Case, o *Obs) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v\n%s", r, trimStack(debug.Stack()))
		}
	}()
	return p.judge(c, o)
}

func trimStack(b []byte) string {
	if len(b) > 3000 {
		b = b[:3000]
	}
	return string(b)
}

func hashCase(c *Case) uint64 {
	h := fnv.New64a()
	h.Write([]byte(c.Part))
	for _, s := range c.In {
		h.Write([]byte{0})
		h.Write([]byte(s))
	}
	for _, n := range c.N {
		h.Write([]byte(strconv.FormatInt(n, 36)))
		h.Write([]byte{1})
	}
	return h.Sum64()
}

// G wraps rapid with unbiased draws made of single bits, every choice stays
// inside rapid's stream, so shrinking and replay work.
type G struct {
	t    *rapid.T
	tags map[string]bool

	// generator state
	vars   []string
	inSet  bool
	budget int
}

var boolGen = rapid.Bool()

func (g *G) bit() bool { return boolGen.Draw(g.t, "") }

func (g *G) bits(n int) uint64 {
	var v uint64
	for i := 0; i < n; i++ {
		v <<= 1
		if boolGen.Draw(g.t, "") {
			v |= 1
		}
	}
	return v
}

// n draws from 0..n-1, 0 is the simplest.
func (g *G) n(n int) int {
	if n <= 1 {
		return 0
	}
	k := 0
	for 1<<uint(k) < n {
		k++
	}
	if 1<<uint(k) == n {
		return int(g.bits(k))
	}
	return int(g.bits(k+3) % uint64(n))
}

// between draws from lo..hi.
func (g *G) between(lo, hi int) int { return lo + g.n(hi-lo+1) }

// p is true in about pct of 100 draws; false is the simplest.
func (g *G) p(pct int) bool { return int(g.bits(7))*100 >= (100-pct)*128 }

func pick[T any](g *G, list ...T) T { return list[g.n(len(list))] }

func (g *G) tag(s string) {
	if g.tags == nil {
		g.tags = map[string]bool{}
	}
	g.tags[s] = true
}

func (g *G) tagList() []string {
	var out []string
	for k := range g.tags {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func clip(s string, n int) string {
	if len(s) <= n {
		return s
	}
	return s[:n/2] + fmt.Sprintf("...(%d bytes)...", len(s)-n) + s[len(s)-n/2:]
}
