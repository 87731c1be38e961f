package main

import (
	"math"
	"strconv"
	"strings"
	"time"
	"unicode"
	"unicode/utf8"

	geo "github.com/mmadfox/go-geoql-parser"
)

// ---- words -----------------------------------------------------------------

// reserved holds the lower-case words that are not selectors.
var reserved = map[string]bool{
	"trigger": true, "set": true, "when": true, "repeat": true, "reset": true,
	"rem": true, "mod": true, "or": true, "and": true, "eq": true, "in": true, "range": true, "not": true,
	"nearby": true, "intersects": true, "time": true, "date": true, "weekday": true, "month": true,
	"point": true, "multipoint": true, "line": true, "multiline": true, "polygon": true,
	"multipolygon": true, "collection": true, "true": true, "up": true, "false": true, "down": true,
}

func isWord(s string) bool {
	if s == "" || !utf8.ValidString(s) {
		return false
	}
	for i, r := range s {
		if r != '_' && !unicode.IsLetter(r) && !(i > 0 && unicode.IsDigit(r)) {
			return false
		}
	}
	return true
}

// isName reports whether s is usable as a selector or variable name.
func isName(s string) bool {
	if !isWord(s) || reserved[strings.ToLower(s)] {
		return false
	}
	for _, r := range s {
		if r == 'K' || r == 'İ' || r == 'ſ' { // lower-cased into ASCII or longer
			return false
		}
	}
	return true
}

var commonNames = []string{
	"speed", "tracker_speed", "coords", "a", "b", "x", "temperature", "fuel_level", "y", "id",
	"someSelector", "Speed", "SPEED", "tracker_point3", "_", "_x1", "h", "m", "s", "km", "c", "f", "kph", "bar", "M", "F",
	"every", "after", "am", "pm", "sun", "Mon", "jan", "Dec", "hour", "min", "sec", "ms",
	"notin", "inside", "whenever", "model", "remote", "order", "android", "uplink", "downtown", "truely", "falsey",
	"ranged", "setup", "dates", "timer", "lines", "points", "pct", "PCT", "psi", "mph", "rm", "Rkm", "e5", "x10", "tracker_temperature",
	"ключ", "速度", "naïve", "Größe", "πr2", "a٣", "Ωmega", "ñ", "𝛼lpha",
}

// dictName returns a literal of the code under test that can be a name.
func (g *G) dictName() (string, bool) {
	if len(dict.names) == 0 {
		return "", false
	}
	return dict.names[g.n(len(dict.names))], true
}

func (g *G) name() string {
	switch g.n(20) {
	case 0, 1, 2, 3, 4:
		return commonNames[g.n(12)]
	case 5, 6, 7, 8, 9, 10:
		return commonNames[g.n(len(commonNames))]
	case 11:
		if s, ok := g.dictName(); ok {
			return s
		}
	case 12:
		// a long one
		return g.longName(g.size())
	case 13:
		// reserved word with something around it
		var w []string
		for _, k := range []string{"and", "or", "in", "not", "eq", "set", "up", "time", "date", "line", "point", "mod", "rem", "reset", "true", "range"} {
			w = append(w, k)
		}
		k := w[g.n(len(w))]
		s := pick(g, k+"s", k+"_", "_"+k, k+"1", k+k, "x"+k, strings.ToUpper(k)+"X")
		if isName(s) {
			return s
		}
	}
	if g.p(5) {
		s := string(g.letter())
		for i, k := 0, g.n(3); i < k; i++ {
			s += string(g.letter())
		}
		if isName(s) {
			return s
		}
	}
	const first = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"
	const rest = first + "0123456789"
	n := 1 + g.n(8)
	b := []byte{first[g.n(len(first))]}
	for len(b) < n {
		b = append(b, rest[g.n(len(rest))])
	}
	if isName(string(b)) {
		return string(b)
	}
	return string(b) + "_"
}

func (g *G) longName(n int) string {
	if n < 1 {
		n = 1
	}
	unit := pick(g, "x", "ab", "long_name_", "é", "速", "Q1")
	s := strings.Repeat(unit, n/len(unit)+1)
	if utf8.RuneCountInString(unit) == len(unit) {
		s = s[:n]
	}
	if !isName(s) {
		s += "_"
	}
	return s
}

// rune draws a character from all of Unicode: evenly, from the first blocks, or
// one that resembles an ASCII character in its low bits.
func (g *G) rune() rune {
	for {
		var r rune
		switch g.n(6) {
		case 0:
			r = rune(g.n(0x250))
		case 1:
			r = rune(g.n(0x3000))
		case 2:
			r = rune(g.n(0x10000))
		case 3:
			r = rune(g.n(unicode.MaxRune + 1))
		default:
			const marks = " \t\n\r\"'`\\/*;,.:@()[]{}<>=!+-%0159_aAzZ\x00"
			r = rune(marks[g.n(len(marks))]) + rune(1+g.n(64))<<pick(g, 5, 6, 7, 8, 8, 10, 12, 16)
		}
		if r > 0 && r != 0xfeff && utf8.ValidRune(r) {
			return r
		}
	}
}

// letter draws a letter of any script that does not turn into an ASCII one.
func (g *G) letter() rune {
	for i := 0; i < 50; i++ {
		if r := g.rune(); unicode.IsLetter(r) && (r < 0x80 || unicode.ToLower(r) >= 0x80) {
			return r
		}
	}
	return 'é'
}

// size draws a length: mostly small, sometimes around powers of two, the
// scanner buffer or a constant of the code under test.
func (g *G) size() int {
	switch g.n(8) {
	case 0, 1, 2:
		return g.n(20)
	case 3:
		return g.n(100)
	case 4:
		return pick(g, 31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 255, 256, 257)
	case 5:
		return pick(g, 1020, 1021, 1022, 1023, 1024, 1025, 1026, 1030, 2047, 2048, 2049, 1900)
	case 6:
		if len(dict.sizes) > 0 {
			return dict.sizes[g.n(len(dict.sizes))] + g.n(3)
		}
		return g.n(40)
	}
	return g.n(1200)
}

// ---- numbers ---------------------------------------------------------------

var intEdges = []string{
	"0", "1", "2", "9", "10", "12", "24", "59", "60", "99", "100", "127", "128", "180", "255", "256", "360",
	"999", "1000", "1024", "2022", "2023", "2024", "2200", "32767", "32768", "65535", "65536", "1000000",
	"2147483647", "2147483648", "4294967295", "4294967296",
	"9007199254740991", "9007199254740992", "9007199254740993", "999999999999999999", "1000000000000000000",
	"9223372036854775806", "9223372036854775807",
	"00", "007", "08", "0123", "000000000000000000001",
}

// digits spells an integer that fits int64.
func (g *G) intLit() string {
	switch g.n(10) {
	case 0, 1, 2, 3:
		return strconv.Itoa(g.n(20))
	case 4:
		return strconv.Itoa(g.n(1000))
	case 5, 6:
		return intEdges[g.n(len(intEdges))]
	case 7:
		if len(dict.ints) > 0 {
			v := dict.ints[g.n(len(dict.ints))]
			if v >= 0 && v < math.MaxInt64-2 {
				return strconv.FormatInt(v+int64(g.n(3))-min(v, 1), 10)
			}
		}
	case 8:
		// powers of two and ten with neighbours
		var v int64
		if g.bit() {
			v = int64(1) << uint(g.n(62))
		} else {
			v = int64(math.Pow10(g.n(18)))
		}
		return strconv.FormatInt(v+int64(g.n(3))-1, 10)
	}
	n := 1 + g.n(18)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('0' + g.n(10))
	}
	return string(b)
}

// floatLit spells a float: digits, a dot, maybe digits.
func (g *G) floatLit() string {
	ip := g.intLit()
	switch g.n(12) {
	case 0:
		return ip + "."
	case 1:
		return ip + ".0"
	case 2:
		return ip + ".5"
	case 3:
		return pick(g, "0.1", "0.2", "0.3", "1.1", "2.2", "1.10", "0.000001", "0.0000001", "123456789.123456789",
			"0.30000000000000004", "1000000000000000000000.0", "4.35", "2.675", "1.005", "99999999.99999999", "179.9999999",
			"0.1000000000000000055511151231257827", "9007199254740993.0", "20.0", "100.", "3.14159265358979")
	case 4:
		// long fraction
		return ip + "." + g.digitRun(1+g.n(40))
	case 5:
		// very large or very small
		if g.bit() {
			return g.digitRun(20+g.n(60)) + "." + g.digitRun(g.n(5))
		}
		return "0." + strings.Repeat("0", g.n(40)) + g.digitRun(1+g.n(6))
	case 6:
		if len(dict.floats) > 0 {
			return dict.floats[g.n(len(dict.floats))]
		}
	}
	return strconv.Itoa(g.n(200)) + "." + g.digitRun(1+g.n(6))
}

func (g *G) digitRun(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('0' + g.n(10))
	}
	return string(b)
}

// num draws an unsigned number spelling with its value.
func (g *G) num() (lit string, isFloat bool, val float64) {
	if g.p(40) {
		lit = g.floatLit()
		v, err := strconv.ParseFloat(lit, 64)
		if err != nil {
			return "1.5", true, 1.5
		}
		return lit, true, v
	}
	lit = g.intLit()
	v, err := strconv.ParseInt(lit, 10, 64)
	if err != nil {
		return "3", false, 3
	}
	return lit, false, float64(v)
}

func (n *Node) sign(g *G, neg bool, plus bool) {
	switch {
	case neg && g.p(35):
		n.Neg = true
	case plus && g.p(12):
		n.Plus = true
	}
}

func (g *G) intNode() *Node {
	lit := g.intLit()
	v, err := strconv.ParseInt(lit, 10, 64)
	if err != nil {
		lit, v = "3", 3
	}
	n := &Node{K: "int", I: v, Lit: []string{lit}}
	n.sign(g, true, true)
	if n.Neg {
		n.I = -v
	}
	return n
}

func (g *G) floatNode() *Node {
	lit := g.floatLit()
	v, err := strconv.ParseFloat(lit, 64)
	if err != nil {
		lit, v = "1.5", 1.5
	}
	n := &Node{K: "float", F: v, Lit: []string{lit}}
	n.sign(g, true, true)
	if n.Neg {
		n.F = -v
	}
	return n
}

func (g *G) quantity(kind string) *Node {
	if kind == "dur" {
		return g.durNode()
	}
	lit, _, v := g.num()
	n := &Node{K: kind, F: v, Lit: []string{lit}}
	switch kind {
	case "speed":
		n.U = pick(g, geo.Kph, geo.Mph)
	case "press":
		n.U = pick(g, geo.Bar, geo.Psi)
	case "dist":
		n.U = pick(g, geo.Kilometer, geo.Meter)
	case "temp":
		n.U = pick(g, geo.Celsius, geo.Fahrenheit)
	}
	n.sign(g, kind == "temp", true)
	if kind == "temp" {
		if n.Neg {
			n.Sg = geo.Minus
		}
		if n.Plus {
			n.Sg = geo.Plus
		}
	}
	return n
}

var durWords = []string{"h", "m", "s", "ms", "H", "S", "Ms", "hour", "h30m", "m30s", "h3m45s", "s500ms", "ms250us", "h1h", "m0s", "h59m59s", "s1ns", "H30M15S", "h1us", "s999ms999us999ns"}

func (g *G) durNode() *Node {
	for i := 0; i < 4; i++ {
		var lit string
		switch g.n(4) {
		case 0, 1:
			lit = strconv.Itoa(g.n(130))
		case 2:
			lit = strconv.Itoa(g.n(100)) + "." + g.digitRun(g.n(8))
		default:
			lit, _, _ = g.num()
		}
		w := durWords[g.n(len(durWords))]
		if g.p(25) {
			w = pick(g, "h", "m", "s") + strconv.Itoa(g.n(70)) + pick(g, "m", "s", "ms", "us", "ns", "h")
		}
		if d, err := time.ParseDuration(lit + strings.ToLower(w)); err == nil {
			n := &Node{K: "dur", Dur: d, Lit: []string{lit, w}}
			n.sign(g, false, true)
			return n
		}
	}
	return &Node{K: "dur", Dur: 10 * time.Second, Lit: []string{"10", "s"}}
}

var quantityKinds = []string{"pct", "speed", "temp", "press", "dist", "dur"}

// ---- strings ---------------------------------------------------------------

var stringPieces = []string{
	" ", "  ", "\t", "when", "not in", "@x", "a", "Z", "0", "-", "_", ".", ",", ":", ";", "[", "]", "{", "}", "(", ")", "*", "/", "//", "/*", "'", "`",
	"=", "%", "#", "$", "?", "!", "<", ">", "&", "|", "~", "\r", "é", "日本", "𝛼", "\u00a0", "\u2028", "\ufeff", "\ufffd", "\x01", "\x7f",
	`\n`, `\t`, `\\`, `\"`, `\a`, `\x41`, `\u00e9`, `\U0001F600`, `\101`, `\377`, `\r`, `\b`, `\f`, `\v`,
}

func (g *G) strContent() string {
	var b strings.Builder
	switch g.n(12) {
	case 0:
		return ""
	case 1, 2, 3:
		return pick(g, "a", "device-1", "786d9e27-f277-4d5d-b658-3198c133c43d", "some string", "OK", "x y", "0", "id:1")
	case 4:
		return strings.Repeat(pick(g, "x", "id ", "é"), g.size()/2)
	case 5:
		return pick(g, `\"a\"`, `\"`, `\\`, `a\"`, `\"b`, `\\\"`, `"`[:0], " ", "  lead", "trail  ", `\\\\`)
	case 6:
		if s, ok := g.dictStr(); ok {
			return s
		}
	}
	n := 1 + g.n(8)
	for i := 0; i < n; i++ {
		if g.p(6) {
			if r := g.rune(); r != '"' && r != '\\' && r != '\n' {
				b.WriteRune(r)
			}
		}
		b.WriteString(stringPieces[g.n(len(stringPieces))])
	}
	return b.String()
}

func (g *G) dictStr() (string, bool) {
	if len(dict.strs) == 0 {
		return "", false
	}
	return dict.strs[g.n(len(dict.strs))], true
}

// ---- geometry --------------------------------------------------------------

// coord draws a signed coordinate.
func (g *G) coord(n *Node) float64 {
	var lit string
	switch g.n(6) {
	case 0, 1, 2:
		lit = strconv.Itoa(g.n(180)) + "." + g.digitRun(1+g.n(8))
	case 3:
		lit = strconv.Itoa(g.n(181))
	default:
		lit, _, _ = g.num()
	}
	v, err := strconv.ParseFloat(lit, 64)
	if err != nil {
		lit, v = "1.5", 1.5
	}
	if g.p(35) {
		v = -v
		if !strings.Contains(lit, ".") && v == 0 {
			// an integer zero negated as a float
			v = math.Copysign(0, -1)
		}
		lit = "-" + lit
	}
	n.Lit = append(n.Lit, lit)
	return v
}

func (g *G) ring(n *Node, k int) (ring [][2]float64) {
	for i := 0; i < k; i++ {
		x := g.coord(n)
		y := g.coord(n)
		ring = append(ring, [2]float64{x, y})
	}
	return
}

func (g *G) dist() *Node {
	if !g.p(30) {
		return nil
	}
	lit, _, v := g.num()
	return &Node{K: "dist", F: v, U: pick(g, geo.Kilometer, geo.Meter), Lit: []string{lit}}
}

func (g *G) simpleGeometry(kind string) *Node {
	n := &Node{K: kind}
	switch kind {
	case "point":
		n.Pts = [][][2]float64{g.ring(n, 1)}
		n.Dist = g.dist()
	case "line":
		k := 1 + g.n(8)
		if g.p(5) {
			k = 1 + g.n(40)
		}
		n.Pts = [][][2]float64{g.ring(n, k)}
		n.Dist = g.dist()
	case "poly":
		rings := 1
		if g.p(40) {
			rings = 1 + g.n(4)
		}
		for i := 0; i < rings; i++ {
			k := 1 + g.n(7)
			if g.p(5) {
				k = 1 + g.n(30)
			}
			n.Pts = append(n.Pts, g.ring(n, k))
		}
	}
	return n
}

func (g *G) multiGeometry() *Node {
	n := &Node{K: "multi"}
	kind := "point"
	switch g.n(3) {
	case 0:
		n.AK = geo.GEOMETRY_MULTIPOINT
	case 1:
		n.AK, kind = geo.GEOMETRY_MULTILINE, "line"
	case 2:
		n.AK, kind = geo.GEOMETRY_MULTIPOLYGON, "poly"
	}
	for i, k := 0, 1+g.n(4); i < k; i++ {
		n.Kids = append(n.Kids, g.simpleGeometry(kind))
	}
	return n
}

func (g *G) geometry() *Node {
	switch g.n(8) {
	case 0, 1, 2:
		return g.simpleGeometry("point")
	case 3:
		return g.simpleGeometry("line")
	case 4, 5:
		return g.simpleGeometry("poly")
	case 6:
		return g.multiGeometry()
	}
	n := &Node{K: "coll"}
	for i, k := 0, 1+g.n(4); i < k; i++ {
		if g.p(25) {
			n.Kids = append(n.Kids, g.multiGeometry())
		} else {
			n.Kids = append(n.Kids, g.simpleGeometry(pick(g, "point", "line", "poly")))
		}
	}
	return n
}

// ---- calendar --------------------------------------------------------------

func (g *G) calValue(kind string) *Node {
	n := &Node{K: kind}
	switch kind {
	case "date":
		y := g.between(2022, 2200)
		if g.p(30) {
			y = pick(g, 2022, 2023, 2024, 2100, 2199, 2200)
		}
		n.C = [3]int{y, g.between(1, 12), g.between(1, 31)}
		if g.p(10) {
			n.C[1] = pick(g, 1, 12, 2, 9, 10)
			n.C[2] = pick(g, 1, 9, 10, 28, 29, 30, 31)
		}
	case "time":
		n.C = [3]int{g.between(0, 24), g.between(0, 59), 0}
		if g.p(15) {
			n.C[0] = pick(g, 0, 1, 9, 10, 11, 12, 13, 23, 24)
			n.C[1] = pick(g, 0, 1, 9, 10, 30, 59)
		}
		n.B = g.p(50) // spelled with seconds
		if n.B {
			n.C[2] = g.between(0, 59)
			if g.p(15) {
				n.C[2] = 0
			}
		}
		if g.p(35) {
			n.U = pick(g, geo.AM, geo.PM)
		}
	case "wday":
		n.C[0] = g.n(7)
	case "month":
		n.C[0] = g.between(1, 12)
	}
	return n
}

var calKinds = []string{"date", "time", "wday", "month"}

func calToken(kind string) geo.Token {
	switch kind {
	case "date":
		return geo.DATE
	case "time":
		return geo.TIME
	case "wday":
		return geo.WEEKDAY
	}
	return geo.MONTH
}

func (g *G) calendar(kind string, rangeOK bool) *Node {
	switch g.n(3) {
	case 1:
		n := &Node{K: "arr", AK: calToken(kind)}
		k := 2 + g.n(3)
		if g.p(8) {
			k = 2 + g.n(15)
		}
		for i := 0; i < k; i++ {
			n.Kids = append(n.Kids, g.calValue(kind))
		}
		return n
	case 2:
		if rangeOK {
			return &Node{K: "range", S: kind, Kids: []*Node{g.calValue(kind), g.calValue(kind)}}
		}
	}
	return g.calValue(kind)
}

// ---- selectors, arrays, ranges ----------------------------------------------

func (g *G) selector(depth int, props bool) *Node {
	n := &Node{K: "sel", S: g.name()}
	if g.p(30) {
		n.B = true // braces
		k := g.n(4)
		if g.p(10) {
			k = g.n(12)
		}
		seen := map[string]bool{}
		long := g.p(20)
		for i := 0; i < k; i++ {
			s := g.strContent()
			if long {
				s = g.digitRun(10 + g.n(30))
			}
			if !seen[s] {
				seen[s] = true
				n.Args = append(n.Args, s)
			}
		}
		n.Neg = len(n.Args) > 0 && g.p(40) // star inside the braces
	}
	// with no ids the selector means the current device
	n.Wild = len(n.Args) == 0 || n.Neg
	if props && g.p(25) {
		k := 1 + g.n(3)
		for i := 0; i < k; i++ {
			n.Kids = append(n.Kids, g.unary(depth-1, i == k-1))
		}
		// a:1 without braces counts as the current device as well
	}
	return n
}

func greedy(n *Node) bool {
	switch n.K {
	case "sel":
		return len(n.Kids) > 0
	case "range":
		return n.S == "" && greedy(n.Kids[1])
	}
	return false
}

var arrayKinds = []string{"int", "float", "str", "sel", "dur", "speed", "press", "temp", "dist", "pct", "ref", "range"}

func arrayToken(kind string) geo.Token {
	switch kind {
	case "int":
		return geo.INT
	case "float":
		return geo.FLOAT
	case "str":
		return geo.STRING
	case "sel":
		return geo.SELECTOR
	case "dur":
		return geo.DURATION
	case "speed":
		return geo.SPEED
	case "press":
		return geo.PRESSURE
	case "temp":
		return geo.TEMPERATURE
	case "dist":
		return geo.DISTANCE
	case "pct":
		return geo.PERCENT
	case "ref":
		return geo.IDENT
	case "range":
		return geo.RANGE
	}
	return geo.ILLEGAL
}

func (g *G) array(depth int) *Node {
	kind := arrayKinds[g.n(len(arrayKinds))]
	if g.inSet && kind == "ref" {
		kind = "int"
	}
	n := &Node{K: "arr", AK: arrayToken(kind)}
	k := 1 + g.n(5)
	if g.p(3) {
		k = 1 + g.n(60)
	}
	for i := 0; i < k; i++ {
		n.Kids = append(n.Kids, g.atom(kind, depth-1, i == k-1))
	}
	return n
}

func (g *G) rangeNode(depth int, tail bool) *Node {
	switch g.n(10) {
	case 0, 1, 2, 3:
		k := pick(g, "int", "float")
		return &Node{K: "range", Kids: []*Node{g.atom(k, 0, false), g.atom(k, 0, false)}}
	case 4, 5, 6:
		k := quantityKinds[g.n(len(quantityKinds))]
		return &Node{K: "range", Kids: []*Node{g.atom(k, 0, false), g.atom(k, 0, false)}}
	case 7:
		kind := calKinds[g.n(4)]
		return &Node{K: "range", S: kind, Kids: []*Node{g.calValue(kind), g.calValue(kind)}}
	case 8:
		if g.bit() {
			kind := calKinds[g.n(4)]
			return &Node{K: "range", Kids: []*Node{g.calValue(kind), g.calValue(kind)}}
		}
	}
	kinds := []string{"sel", "int", "float", "dist", "str", "temp"}
	if !g.inSet {
		kinds = append(kinds, "ref")
	}
	return &Node{K: "range", Kids: []*Node{
		g.atom(kinds[g.n(len(kinds))], 0, false),
		g.atom(kinds[g.n(len(kinds))], depth-1, tail)}}
}

// atom draws an element of the given kind. tail tells whether a selector may
// end with props, which take every comma that follows.
func (g *G) atom(kind string, depth int, tail bool) *Node {
	switch kind {
	case "int":
		return g.intNode()
	case "float":
		return g.floatNode()
	case "str":
		return &Node{K: "str", S: g.strContent()}
	case "bool":
		return &Node{K: "bool", B: g.bit()}
	case "wild":
		return &Node{K: "wild"}
	case "ref":
		if len(g.vars) > 0 && !g.p(15) {
			return &Node{K: "ref", S: g.vars[g.n(len(g.vars))]}
		}
		return &Node{K: "ref", S: g.name()}
	case "sel":
		return g.selector(depth, tail && depth > 0)
	case "range":
		return g.rangeNode(depth, tail)
	case "pct", "speed", "temp", "press", "dist", "dur":
		return g.quantity(kind)
	case "arr":
		return g.array(depth)
	case "geo":
		return g.geometry()
	case "cal":
		return g.calendar(calKinds[g.n(4)], true)
	case "paren":
		return &Node{K: "paren", Kids: []*Node{g.expr(depth - 1)}}
	}
	panic("atom " + kind)
}

var unaryKinds = func() (out []string) {
	for _, w := range []struct {
		k string
		n int
	}{{"sel", 14}, {"int", 7}, {"float", 5}, {"str", 4}, {"bool", 3}, {"wild", 2}, {"ref", 4}, {"range", 4},
		{"pct", 2}, {"speed", 2}, {"temp", 3}, {"press", 2}, {"dist", 2}, {"dur", 3}, {"arr", 5}, {"geo", 5}, {"cal", 6}, {"paren", 5}} {
		for i := 0; i < w.n; i++ {
			out = append(out, w.k)
		}
	}
	return
}()

// unary draws any operand.
func (g *G) unary(depth int, tail bool) *Node {
	g.budget--
	kind := unaryKinds[g.n(len(unaryKinds))]
	if (depth <= 0 || g.budget <= 0) && (kind == "arr" || kind == "paren") {
		kind = "sel"
	}
	if g.inSet && kind == "ref" {
		kind = "float"
	}
	return g.atom(kind, depth, tail)
}

var binOps = []geo.Token{
	geo.AND, geo.OR, geo.GTR, geo.LSS, geo.GEQ, geo.LEQ, geo.EQL, geo.LEQL, geo.NOT_EQ, geo.LNEQ, geo.IN, geo.NOT_IN,
	geo.INTERSECTS, geo.NOT_INTERSECTS, geo.NEARBY, geo.NOT_NEARBY, geo.ADD, geo.SUB, geo.MUL, geo.QUO, geo.REM,
}

// precOf is the documented precedence of an operator.
func precOf(op geo.Token) int {
	switch op {
	case geo.OR:
		return 1
	case geo.AND:
		return 2
	case geo.ADD, geo.SUB:
		return 4
	case geo.MUL, geo.QUO, geo.REM:
		return 5
	}
	return 3
}

// buildPrec groups a flat list of operands by precedence, left to right, with
// two stacks, so that it shares nothing with precedence climbing.
func buildPrec(operands []*Node, ops []geo.Token) *Node {
	var out []*Node
	var st []geo.Token
	reduce := func() {
		op := st[len(st)-1]
		st = st[:len(st)-1]
		l, r := out[len(out)-2], out[len(out)-1]
		out = append(out[:len(out)-2], &Node{K: "bin", Op: op, Kids: []*Node{l, r}})
	}
	for i, x := range operands {
		out = append(out, x)
		if i == len(ops) {
			break
		}
		for len(st) > 0 && precOf(st[len(st)-1]) >= precOf(ops[i]) {
			reduce()
		}
		st = append(st, ops[i])
	}
	for len(st) > 0 {
		reduce()
	}
	return out[0]
}

func (g *G) expr(depth int) *Node {
	k := 1
	switch g.n(6) {
	case 0:
	case 1, 2:
		k = 2
	case 3:
		k = 3
	case 4:
		k = 1 + g.n(5)
	case 5:
		k = 1 + g.n(8)
	}
	return g.exprOf(k, depth)
}

func (g *G) exprOf(k, depth int) *Node {
	var operands []*Node
	var ops []geo.Token
	for i := 0; i < k; i++ {
		operands = append(operands, g.unary(depth, true))
		if i+1 < k {
			ops = append(ops, binOps[g.n(len(binOps))])
		}
	}
	return buildPrec(operands, ops)
}

// ---- documents ---------------------------------------------------------------

func (g *G) freshName() string {
	for i := 0; ; i++ {
		s := g.name()
		if i > 3 {
			s += "_" + strconv.Itoa(len(g.vars))
		}
		dup := false
		for _, v := range g.vars {
			if v == s {
				dup = true
			}
		}
		if !dup {
			return s
		}
	}
}

func (g *G) assign(depth int) *Node {
	name := g.freshName()
	g.inSet = true
	v := g.unary(depth, true)
	g.inSet = false
	g.vars = append(g.vars, name)
	n := &Node{K: "assign", Kids: []*Node{{K: "ident", S: name}, v}}
	return n
}

// doc draws a whole document.
func (g *G) doc() *Doc {
	g.budget = 40
	switch g.n(40) {
	case 0:
		return g.wideDoc()
	case 1:
		return g.deepDoc()
	case 2, 3:
		return g.bulkDoc()
	}
	return g.plainDoc(g.expr)
}

// bulkDoc draws a document in which something of any kind has a lot before it,
// behind it or around it, or comes more than once.
func (g *G) bulkDoc() *Doc {
	g.tag("bulk")
	g.budget = 12
	d := g.plainDoc(func(int) *Node { return g.expr(2) })
	paren := func(n *Node) *Node { return &Node{K: "paren", Kids: []*Node{n}} }
	nest := func(n *Node, k int) *Node {
		for ; k > 0; k-- {
			n = paren(n)
		}
		return n
	}
	const top = 60
	simple := func() *Node { return g.atom(pick(g, "sel", "int", "float", "str", "bool", "speed"), 0, false) }
	for again := true; again; again = g.p(25) {
		switch g.n(6) {
		case 0: // each operand in a nest of its own
			k := 1 + g.n(top)
			var rec func(n *Node) *Node
			rec = func(n *Node) *Node {
				if n.K == "bin" || n.K == "paren" {
					m := &Node{K: n.K, Op: n.Op}
					for _, x := range n.Kids {
						m.Kids = append(m.Kids, rec(x))
					}
					return m
				}
				if g.p(30) {
					return n
				}
				return nest(n, pick(g, k, k, 1+g.n(k)))
			}
			if _, depth := countNodes(d); depth < 200 {
				d.When = rec(d.When)
			}
		case 1: // the whole in a nest
			if _, depth := countNodes(d); depth < 200 {
				d.When = nest(d.When, 1+g.n(top))
			}
		case 2: // among many operands
			k := 2 + g.n(top)
			at := g.n(k)
			var operands []*Node
			var ops []geo.Token
			op := binOps[g.n(len(binOps))]
			for i := 0; i < k; i++ {
				if i == at {
					operands = append(operands, paren(d.When))
				} else {
					operands = append(operands, simple())
				}
				if i+1 < k {
					ops = append(ops, pick(g, op, op, geo.AND, binOps[g.n(len(binOps))]))
				}
			}
			d.When = buildPrec(operands, ops)
		case 3: // behind many variables
			d.Trig, d.SetWord = true, true
			var vars []*Node
			for i, k := 0, 2+g.n(top); i < k; i++ {
				vars = append(vars, g.assign(0))
			}
			d.Vars = append(vars, d.Vars...)
		case 4: // the same again
			if n, _ := countNodes(d); n < 200 {
				k := 2 + g.n(3)
				var operands []*Node
				var ops []geo.Token
				for i := 0; i < k; i++ {
					operands = append(operands, paren(clone(d.When)))
					if i+1 < k {
						ops = append(ops, pick(g, geo.AND, geo.OR, geo.EQL))
					}
				}
				d.When = buildPrec(operands, ops)
			}
		case 5: // many of one kind
			kind := unaryKinds[g.n(len(unaryKinds))]
			var operands []*Node
			var ops []geo.Token
			for i, k := 0, 2+g.n(12); i < k; i++ {
				g.budget = 3
				n := g.atom(kind, 1, true)
				operands = append(operands, nest(n, 1+g.n(3)))
				ops = append(ops, pick(g, geo.AND, geo.OR, geo.ADD))
			}
			operands = append(operands, paren(d.When))
			d.When = buildPrec(operands, ops)
		}
		if n, _ := countNodes(d); n > 600 {
			break
		}
	}
	return d
}

func (g *G) plainDoc(expr func(depth int) *Node) *Doc {
	d := &Doc{Trig: !g.p(25)}
	if d.Trig {
		switch g.n(5) {
		case 0, 1:
		case 2:
			d.SetWord = g.p(30)
		case 3:
			d.SetWord = true
			for i, k := 0, 1+g.n(3); i < k; i++ {
				d.Vars = append(d.Vars, g.assign(2))
			}
		case 4:
			d.SetWord = true
			k := 1 + g.n(6)
			for i := 0; i < k; i++ {
				d.Vars = append(d.Vars, g.assign(2))
			}
		}
	}
	d.When = expr(4)
	g.tailParts(d)
	return d
}

func (g *G) tailParts(d *Doc) {
	switch g.n(6) {
	case 0, 1, 2:
	case 3:
		d.RepeatWord = true
		if !g.p(15) {
			d.RepeatCount = g.repeatCount()
		}
	default:
		d.RepeatWord = true
		d.RepeatCount = g.repeatCount()
		d.RepeatInterval = g.plainDur()
	}
	if g.p(35) {
		d.ResetA = g.plainDur()
	}
}

func (g *G) repeatCount() *Node {
	n := g.intNode()
	if n.Neg {
		n.I = -n.I
	}
	n.Neg, n.Plus = false, false
	return n
}

func (g *G) plainDur() *Node {
	n := g.durNode()
	n.Plus = false
	return n
}

// wideDoc has long lists.
func (g *G) wideDoc() *Doc {
	g.tag("wide")
	size := g.size()
	if size < 1 {
		size = 1
	}
	if size > 1300 {
		size = 1300
	}
	d := &Doc{Trig: true}
	simple := func() *Node {
		return g.atom(pick(g, "sel", "int", "float", "str", "bool", "speed"), 0, false)
	}
	switch g.n(6) {
	case 0: // long chain
		if size > 400 {
			size = 400
		}
		var operands []*Node
		var ops []geo.Token
		few := []geo.Token{binOps[g.n(len(binOps))], binOps[g.n(len(binOps))], geo.AND}
		for i := 0; i < size; i++ {
			operands = append(operands, simple())
			if i+1 < size {
				ops = append(ops, few[g.n(3)])
			}
		}
		d.When = buildPrec(operands, ops)
	case 1: // long array
		kind := arrayKinds[g.n(len(arrayKinds)-2)]
		n := &Node{K: "arr", AK: arrayToken(kind)}
		for i := 0; i < size; i++ {
			n.Kids = append(n.Kids, g.atom(kind, 0, false))
		}
		d.When = &Node{K: "bin", Op: geo.IN, Kids: []*Node{g.selector(0, false), n}}
	case 2: // long line or polygon
		n := &Node{K: pick(g, "line", "poly")}
		rings := 1
		if n.K == "poly" && g.bit() {
			rings = 1 + g.n(3)
		}
		for i := 0; i < rings; i++ {
			n.Pts = append(n.Pts, g.ring(n, 1+size/rings))
		}
		if g.bit() {
			d.When = &Node{K: "bin", Op: geo.INTERSECTS, Kids: []*Node{g.selector(0, false), n}}
		} else {
			d.SetWord = true
			d.Vars = append(d.Vars, &Node{K: "assign", Kids: []*Node{{K: "ident", S: "place"}, n}})
			d.When = &Node{K: "bin", Op: geo.INTERSECTS, Kids: []*Node{g.selector(0, false), {K: "ref", S: "place"}}}
		}
	case 3: // many variables
		if size > 150 {
			size = 150
		}
		d.SetWord = true
		for i := 0; i < size; i++ {
			name := "v" + strconv.Itoa(i)
			if g.bit() {
				name = string(rune('a'+g.n(26))) + name
			}
			if g.p(20) {
				name = strings.ToUpper(name)
			}
			d.Vars = append(d.Vars, &Node{K: "assign", Kids: []*Node{{K: "ident", S: name}, simple()}})
			g.vars = append(g.vars, name)
		}
		d.When = g.expr(2)
	case 4: // many args or props
		n := &Node{K: "sel", S: g.name(), B: true}
		if size > 300 {
			size = 300
		}
		for i := 0; i < size; i++ {
			n.Args = append(n.Args, strconv.Itoa(i)+strings.Repeat("z", g.n(4)))
		}
		n.Neg = g.bit()
		n.Wild = n.Neg || size == 0
		if g.bit() {
			n.Kids = append(n.Kids, g.atom("dist", 0, false))
		}
		if g.bit() {
			d.When = n
		} else {
			d.SetWord = true
			d.Vars = append(d.Vars, &Node{K: "assign", Kids: []*Node{{K: "ident", S: "many"}, n}})
			d.When = g.expr(2)
		}
	case 5: // big collections or calendars
		if size > 200 {
			size = 200
		}
		if g.bit() {
			n := &Node{K: "coll"}
			for i := 0; i < size; i++ {
				n.Kids = append(n.Kids, &Node{K: "point", Pts: [][][2]float64{{{float64(i), 1}}}, Lit: []string{strconv.Itoa(i), "1"}})
			}
			d.When = &Node{K: "bin", Op: geo.NEARBY, Kids: []*Node{g.selector(0, false), n}}
		} else {
			kind := calKinds[g.n(4)]
			n := &Node{K: "arr", AK: calToken(kind)}
			for i := 0; i < size+1; i++ {
				n.Kids = append(n.Kids, g.calValue(kind))
			}
			d.When = &Node{K: "bin", Op: geo.IN, Kids: []*Node{g.selector(0, false), n}}
			if len(n.Kids) < 2 {
				d.When.Kids[1] = n.Kids[0]
			}
		}
	}
	g.tailParts(d)
	return d
}

// deepDoc nests constructs inside one another.
func (g *G) deepDoc() *Doc {
	g.tag("deep")
	d := &Doc{Trig: true}
	depth := g.size()
	if depth > 280 {
		depth = 280
	}
	inner := g.exprOf(1+g.n(3), 1)
	style := g.n(4)
	for i := 0; i < depth; i++ {
		switch style {
		case 0:
			inner = &Node{K: "paren", Kids: []*Node{inner}}
		case 1:
			inner = &Node{K: "paren", Kids: []*Node{
				buildPrec([]*Node{{K: "sel", S: "a", Wild: true}, {K: "paren", Kids: []*Node{inner}}}, []geo.Token{binOps[g.n(len(binOps))]})}}
		case 2:
			inner = &Node{K: "sel", S: pick(g, "a", "b"), Wild: true, Kids: []*Node{inner}}
			if inner.Kids[0].K == "bin" {
				inner.Kids[0] = &Node{K: "paren", Kids: []*Node{inner.Kids[0]}}
			}
		case 3:
			l := &Node{K: "paren", Kids: []*Node{inner}}
			inner = buildPrec([]*Node{l, {K: "bool", B: true}}, []geo.Token{pick(g, geo.AND, geo.OR)})
		}
	}
	d.When = inner
	g.tailParts(d)
	return d
}
