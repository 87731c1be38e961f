package main

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"reflect"
	"strings"
	"syscall"

	geo "github.com/mmadfox/go-geoql-parser"
)

// Destinations, errors, visitors and dictionaries of many kinds: what a caller
// hands over is an interface or a map, and none of its other traits may count.

func init() {
	add := func(id string, parts ...*Part) { props[id].parts = append(props[id].parts, parts...) }
	add("C08",
		&Part{name: "destinations", n: 15000, about: "Format writes the same bytes to every kind of destination, whatever it holds already", gen: genTree, judge: judgeDestinations})
	add("C09",
		&Part{name: "kinds", n: 40000, about: "errors and destinations of every kind: end of file, temporary, not comparable, a nil pointer, real files", gen: func(g *G) *Case {
			c := genTree(g)
			c.N = []int64{int64(g.bits(20)), int64(g.n(len(faultKinds()))), int64(g.n(3)), int64(g.n(5))}
			return c
		}, judge: judgeFaultKinds})
	add("C11",
		&Part{name: "near names", n: 60000, about: "names that are almost those of the dictionary or of the variables", gen: genNearNames, judge: judgeNearNames})
	add("C13",
		&Part{name: "kinds", n: 20000, about: "visitors of every kind: functions, maps, structs with slices, nil pointers; a walk inside of a walk; a visitor that panics", gen: genPrune, judge: judgeVisitorKinds})
}

// ---- destinations ------------------------------------------------------------

// plainWriter has nothing but WriteString.
type plainWriter struct{ b *strings.Builder }

func (w plainWriter) WriteString(s string) (int, error) { return w.b.WriteString(s) }

// richWriter has whatever else writers have, most of which Format has no
// business with.
type richWriter struct {
	b     strings.Builder
	other string
}

func (w *richWriter) WriteString(s string) (int, error)        { return w.b.WriteString(s) }
func (w *richWriter) Write(p []byte) (int, error)              { return w.b.Write(p) }
func (w *richWriter) WriteByte(c byte) error                   { return w.b.WriteByte(c) }
func (w *richWriter) WriteRune(r rune) (int, error)            { return w.b.WriteRune(r) }
func (w *richWriter) Len() int                                 { return 7 }
func (w *richWriter) Cap() int                                 { return 7 }
func (w *richWriter) Size() int                                { return 7 }
func (w *richWriter) Available() int                           { return 0 }
func (w *richWriter) Buffered() int                            { return 3 }
func (w *richWriter) String() string                           { return "TRIGGER" }
func (w *richWriter) Bytes() []byte                            { return []byte("TRIGGER") }
func (w *richWriter) Grow(int)                                 {}
func (w *richWriter) Reset()                                   { w.other = "Reset" }
func (w *richWriter) Truncate(int)                             { w.other = "Truncate" }
func (w *richWriter) Close() error                             { w.other = "Close"; return nil }
func (w *richWriter) Seek(int64, int) (int64, error)           { w.other = "Seek"; return 0, nil }
func (w *richWriter) WriteAt(p []byte, off int64) (int, error) { w.other = "WriteAt"; return 0, nil }
func (w *richWriter) ReadFrom(r io.Reader) (int64, error)      { return io.Copy(&w.b, r) }
func (w *richWriter) Lock()                                    {}
func (w *richWriter) Unlock()                                  {}
func (w *richWriter) Err() error                               { return errors.New("not asked for") }
func (w *richWriter) Format(f fmt.State, c rune)               {}
func (w *richWriter) MarshalText() ([]byte, error)             { return nil, nil }
func (w *richWriter) Flush() error                             { return nil }
func (w *richWriter) Sync() error                              { return nil }
func (w *richWriter) WriteTo(o io.Writer) (int64, error)       { w.other = "WriteTo"; return 0, nil }
func (w *richWriter) Read(p []byte) (int, error)               { w.other = "Read"; return 0, io.EOF }

// nestedWriter formats, parses and checks while it is written to.
type nestedWriter struct {
	b    strings.Builder
	stmt geo.Statement
	want string
	n    int
	err  error
}

func (w *nestedWriter) WriteString(s string) (int, error) {
	if w.n++; w.n%5 == 2 && w.n < 60 && w.err == nil {
		got, err := format(w.stmt)
		if err != nil {
			w.err = err
		} else if w.err = diff("text of a Format inside of a Format", w.want, got); w.err == nil {
			geo.CheckType(w.stmt, typedDict())
			geo.Parse("trigger set x = [1, 2]; when speed > @x and a{\"1\"} in point[1,2]:5km repeat 3 every 5s reset after 1h")
		}
	}
	return w.b.WriteString(s)
}

func judgeDestinations(c *Case, o *Obs) error {
	stmt, d, err := parse(string(c.In[0]))
	if err != nil {
		return fmt.Errorf("valid document rejected: %v", err)
	}
	if n, _ := countNodes(d); n >= 3 {
		o.nonTrivial()
	}
	var plain strings.Builder
	if err := geo.Format(plainWriter{&plain}, stmt); err != nil {
		return fmt.Errorf("Format: %v", err)
	}
	want := plain.String()
	for _, before := range []string{"", "x", "\n", "TRIGGER\n", want} {
		var sb strings.Builder
		sb.WriteString(before)
		if err := geo.Format(&sb, stmt); err != nil {
			return fmt.Errorf("Format: %v", err)
		}
		if err := diff(fmt.Sprintf("text in a strings.Builder behind %q", clip(before, 40)), before+want, sb.String()); err != nil {
			return err
		}
		bb := bytes.NewBufferString(before)
		if err := geo.Format(bb, stmt); err != nil {
			return fmt.Errorf("Format: %v", err)
		}
		if err := diff(fmt.Sprintf("text in a bytes.Buffer behind %q", clip(before, 40)), before+want, bb.String()); err != nil {
			return err
		}
	}
	for _, size := range []int{16, 64, 1 << 16} {
		var sb strings.Builder
		bw := bufio.NewWriterSize(&sb, size)
		bw.WriteString("abc")
		if err := geo.Format(bw, stmt); err != nil {
			return fmt.Errorf("Format: %v", err)
		}
		bw.Flush()
		if err := diff("text in a bufio.Writer", "abc"+want, sb.String()); err != nil {
			return err
		}
	}
	rich := &richWriter{}
	if err := geo.Format(rich, stmt); err != nil {
		return fmt.Errorf("Format: %v", err)
	}
	if err := diff("text in a writer with many methods", want, rich.b.String()); err != nil {
		return err
	}
	if rich.other != "" {
		return fmt.Errorf("Format calls %s of its destination", rich.other)
	}
	nested := &nestedWriter{stmt: stmt, want: want}
	if err := geo.Format(nested, stmt); err != nil {
		return fmt.Errorf("Format: %v", err)
	}
	if nested.err != nil {
		return nested.err
	}
	return diff("text written while other statements are formatted", want, nested.b.String())
}

// ---- errors ------------------------------------------------------------------

type tempError struct{ temporary, timeout bool }

func (e tempError) Error() string   { return "try again" }
func (e tempError) Temporary() bool { return e.temporary }
func (e tempError) Timeout() bool   { return e.timeout }

// rtError passes for an error of the runtime.
type rtError struct{ s string }

func (e rtError) Error() string { return e.s }
func (rtError) RuntimeError()   {}

// oddError has the methods handlers of errors ask for.
type oddError struct{ s string }

func (e oddError) Error() string              { return e.s }
func (oddError) String() string               { return "" }
func (oddError) GoString() string             { return "" }
func (oddError) Is(error) bool                { return true }
func (oddError) As(any) bool                  { return false }
func (oddError) Unwrap() []error              { return []error{io.EOF, nil, context.Canceled} }
func (oddError) Format(fmt.State, rune)       {}
func (oddError) ExitCode() int                { return 0 }
func (oddError) MarshalText() ([]byte, error) { return nil, nil }

type sliceError []int

func (e sliceError) Error() string { return "not comparable" }

type emptyError struct{}

func (*emptyError) Error() string { return "" }

type nilError struct{ s string }

func (e *nilError) Error() string {
	if e == nil {
		return "nil pointer"
	}
	return e.s
}

func faultKinds() []error {
	return []error{
		io.EOF, io.ErrUnexpectedEOF, io.ErrShortWrite, io.ErrClosedPipe, io.ErrShortBuffer, io.ErrNoProgress,
		os.ErrClosed, os.ErrDeadlineExceeded, os.ErrInvalid, context.Canceled, context.DeadlineExceeded,
		syscall.EINTR, syscall.EAGAIN, syscall.ENOSPC, syscall.EPIPE, syscall.Errno(0),
		tempError{true, false}, tempError{true, true}, tempError{false, true}, sliceError{1}, sliceError(nil),
		&emptyError{}, (*nilError)(nil), &nilError{"x"},
		fmt.Errorf("wrapped: %w", io.EOF), errors.Join(io.EOF, syscall.EINTR), &os.PathError{Op: "write", Path: "x", Err: syscall.EAGAIN},
		&geo.Error{Offset: 1, Lit: "x"}, errors.New(""), errors.New("todo"),
		rtError{"index out of range"}, &rtError{"nil map"}, fmt.Errorf("wrapped: %w", rtError{"x"}), realRuntimeError(), oddError{"odd"}, &oddError{""},
	}
}

// realRuntimeError is an error of the runtime.
func realRuntimeError() (err error) {
	defer func() { err = recover().(error) }()
	var m map[string]int
	m["x"]++
	return nil
}

// sameError compares two errors, also those that cannot be compared.
func sameError(a, b error) bool {
	if x, ok := a.(sliceError); ok {
		y, ok := b.(sliceError)
		return ok && len(x) == len(y) && (x == nil) == (y == nil)
	}
	if _, ok := b.(sliceError); ok {
		return false
	}
	return a == b
}

// faultRich adds the other ways to write and the methods a caller might look for.
type faultRich struct{ *faultyWriter }

func (w faultRich) Write(p []byte) (int, error) { return w.faultyWriter.WriteString(string(p)) }
func (w faultRich) Flush() error                { return nil }
func (w faultRich) Err() error                  { return nil }
func (w faultRich) Len() int                    { return w.buf.Len() }
func (w faultRich) Buffered() int               { return 0 }

// faultByte also takes single bytes.
type faultByte struct{ faultRich }

func (w faultByte) WriteByte(c byte) error {
	_, err := w.faultyWriter.WriteString(string([]byte{c}))
	return err
}

func judgeFaultKinds(c *Case, o *Obs) error {
	stmt, _, err := parse(string(c.In[0]))
	if err != nil {
		return fmt.Errorf("valid document rejected: %v", err)
	}
	cw := &countWriter{}
	if err := geo.Format(cw, stmt); err != nil {
		return err
	}
	full := cw.String()
	kinds := faultKinds()
	fail := kinds[int(c.N[1])%len(kinds)]
	k := 1 + int(c.N[0])%cw.n
	if k > 1 {
		o.nonTrivial()
	}
	o.hit(fmt.Sprintf("%T", fail))
	w := &faultyWriter{k: k, part: int(c.N[2]), err: fail}
	var dst io.StringWriter = w
	switch c.N[3] {
	case 1:
		dst = faultRich{w}
	case 2:
		dst = faultByte{faultRich{w}}
	case 3:
		// the failure of the writer behind a buffer shows when the buffer is full
		return faultBehindBuffer(stmt, full, fail, c.N[0])
	case 4:
		return faultOfDevice(stmt)
	}
	got, panicked := error(nil), any(nil)
	func() {
		defer func() { panicked = recover() }()
		got = geo.Format(dst, stmt)
	}()
	if panicked != nil {
		return fmt.Errorf("Format panics with %v (%T) where write %d of %d fails with %v (%T)", panicked, panicked, k, cw.n, fail, fail)
	}
	if !w.failed {
		return fmt.Errorf("Format takes less than %d writes this time", k)
	}
	if got == nil || !sameError(got, fail) {
		return fmt.Errorf("Format returns %v (%T) where write %d of %d fails with %v (%T)", got, got, k, cw.n, fail, fail)
	}
	if w.after > 0 {
		return fmt.Errorf("%d writes after the failure of write %d", w.after, k)
	}
	if !strings.HasPrefix(full, w.buf.String()) {
		return diff(fmt.Sprintf("what was written before the failure of write %d and the full text", k), full[:min(len(full), w.buf.Len())], w.buf.String())
	}
	return nil
}

// limited takes so many bytes and then fails.
type limited struct {
	buf  bytes.Buffer
	left int
	err  error
}

func (w *limited) Write(p []byte) (int, error) {
	if len(p) <= w.left {
		w.left -= len(p)
		return w.buf.Write(p)
	}
	n, _ := w.buf.Write(p[:w.left])
	w.left = 0
	return n, w.err
}

func faultBehindBuffer(stmt geo.Statement, full string, fail error, at int64) error {
	w := &limited{left: int(at) % len(full), err: fail}
	bw := bufio.NewWriterSize(w, 16)
	got := geo.Format(bw, stmt)
	if got == nil {
		got = bw.Flush()
	}
	if got == nil || !sameError(got, fail) {
		return fmt.Errorf("Format and Flush return %v (%T) where the writer behind the buffer fails with %v (%T)", got, got, fail, fail)
	}
	if s := w.buf.String(); !strings.HasPrefix(full, s) {
		return diff("what was written before the failure and the full text", full[:min(len(full), len(s))], s)
	}
	return nil
}

// faultOfDevice formats into a device that is full.
func faultOfDevice(stmt geo.Statement) error {
	f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
	if err != nil {
		return nil
	}
	defer f.Close()
	var p *os.PathError
	if err := geo.Format(f, stmt); !errors.As(err, &p) || p.Err != syscall.ENOSPC {
		return fmt.Errorf("Format returns %v (%T) for a device that is full", err, err)
	}
	return nil
}

// ---- names -------------------------------------------------------------------

// nearNames is a name and names that are almost the same.
func (g *G) nearNames(name string) []string {
	out := []string{
		strings.ToLower(name), strings.ToUpper(name), strings.ToTitle(name[:1]) + name[1:], strings.ToLower(name[:1]) + name[1:],
		name + "_", "_" + name, name + "s", name + "1", name + name, name + "_" + name, "x" + name, "tracker_" + name, name + "_max",
		strings.TrimRight(name, "0123456789"), strings.Trim(name, "_"), strings.ReplaceAll(name, "_", ""), strings.ReplaceAll(name, "_", "-"),
		strings.Split(name, "_")[0], name[strings.LastIndexByte(name, '_')+1:],
		"@" + name, "$" + name, name + "{}", name + `{"x"}`, name + "{*}", name + ":1km", " " + name, name + " ", name + ".", "." + name, "\"" + name + "\"",
		"", "*", "_", "default", "any", name + "\x00", "\ufeff" + name,
	}
	r := []rune(name)
	if len(r) > 1 {
		out = append(out, string(r[1:]), string(r[:len(r)-1]), string(r[1])+string(r[0])+string(r[2:]))
		i := 1 + g.n(len(r)-1)
		out = append(out, string(r[:i]), string(r[i:]), string(r[:i])+"_"+string(r[i:]))
	}
	return out
}

// In: text, then name and type of the dictionary in turns.
func genNearNames(g *G) *Case {
	base := g.name()
	if g.p(40) {
		base = pick(g, "tracker", "speed", "fuel", "A", "t") + "_" + g.name()
		if !isName(base) {
			base = "fuel_level_max"
		}
	}
	near := g.nearNames(base)
	c := &Case{}
	var b strings.Builder
	known := map[string]bool{}
	var vars []string
	for i := g.n(4); i > 0; i-- {
		v := near[g.n(len(near))]
		if g.p(30) {
			v = base
		}
		if isName(v) && !known[v] {
			known[v] = true
			vars = append(vars, v)
		}
	}
	b.WriteString("trigger ")
	for i, v := range vars {
		if i == 0 {
			b.WriteString("set ")
		}
		b.WriteString(v + " = " + pick(g, "1", "1.5", `"s"`, "true", "[1]", "point[1,2]") + "; ")
	}
	use := func() string {
		n := base
		if g.p(25) {
			if m := near[g.n(len(near))]; isName(m) {
				n = m
			}
		}
		if g.p(30) {
			return "@" + n
		}
		return n + pick(g, "", "", "", "{*}", `{"`+base+`"}`, ":1km")
	}
	b.WriteString("when ")
	for i := 1 + g.n(2); i > 0; i-- {
		b.WriteString(use() + pick(g, " > 5", ` == "s"`, " + 1.5 < 2", " in [1]", ` in ["s"]`, " and true", " == "+use(), " nearby point[1,2]", " > "+use()))
		if i > 1 {
			b.WriteString(pick(g, " and ", " or "))
		}
	}
	c.In = []Text{Text(b.String())}
	seen := map[string]bool{}
	put := func(n string) {
		if !seen[n] {
			seen[n] = true
			c.In = append(c.In, Text(n))
			c.N = append(c.N, int64(1+g.n(7)))
			if g.p(5) {
				c.N[len(c.N)-1] = int64(g.n(12)) - 2
			}
		}
	}
	if g.p(35) {
		put(base)
	}
	for i := g.n(7); i > 0; i-- {
		put(near[g.n(len(near))])
	}
	if g.p(20) {
		for _, n := range near {
			put(n)
		}
	}
	return c
}

func judgeNearNames(c *Case, o *Obs) error {
	dict := geo.Dict()
	for i, n := range c.In[1:] {
		dict[string(n)] = geo.SelectorType(c.N[i])
	}
	if refParse(string(c.In[0])).v != vAccept {
		o.hit("left out")
		return nil
	}
	for i := 0; i < 2; i++ {
		got, d, err := check(c, o, string(c.In[0]), dict)
		if err != nil {
			return err
		}
		want := refCheck(d, dict)
		o.hitIf(want, "well typed")
		o.hitIf(!want, "ill typed")
		if want != got {
			stmt, _ := geo.Parse(string(c.In[0]))
			return fmt.Errorf("well typed by the rules: %v, CheckType: %v", want, geo.CheckType(stmt, dict))
		}
	}
	return nil
}

// ---- visitors ----------------------------------------------------------------

type walkLog struct {
	heads []string
	i     int
	c     *Case
	tree  geo.Expr
	inner bool
}

func (l *walkLog) on(e geo.Expr) bool {
	l.heads = append(l.heads, head(e))
	if e == nil {
		return false
	}
	l.i++
	if l.inner && l.i%4 == 1 && l.i < 40 {
		// a walk inside of the walk
		geo.Walk(funcVisitor(func(x geo.Expr) bool { return true }), e)
		geo.Visit(l.tree, func(x geo.Expr) bool { return x != nil && x != e })
	}
	return !pruned(l.c, l.i)
}

type funcVisitor func(geo.Expr) bool

func (f funcVisitor) Visit(e geo.Expr) geo.Visitor {
	if !f(e) {
		return nil
	}
	return f
}

type mapVisitor map[string]*walkLog

func (m mapVisitor) Visit(e geo.Expr) geo.Visitor {
	if !m["log"].on(e) {
		return nil
	}
	return m
}

type sliceVisitor struct{ logs []*walkLog }

func (s sliceVisitor) Visit(e geo.Expr) geo.Visitor {
	if !s.logs[0].on(e) {
		return nil
	}
	return s
}

// nilVisitor works as a nil pointer.
type nilVisitor struct{ unused int }

var nilLog *walkLog // set by the one goroutine that judges

func (n *nilVisitor) Visit(e geo.Expr) geo.Visitor {
	if !nilLog.on(e) {
		return nil
	}
	return n
}

type emptyVisitor struct{}

func (emptyVisitor) Visit(e geo.Expr) geo.Visitor {
	if !nilLog.on(e) {
		return nil
	}
	return emptyVisitor{}
}

// turnVisitor returns visitors of another type in turns.
type turnVisitor struct {
	log *walkLog
	n   int
}

func (v turnVisitor) Visit(e geo.Expr) geo.Visitor {
	if !v.log.on(e) {
		return nil
	}
	switch v.n % 4 {
	case 0:
		return &turnVisitor{v.log, v.n + 1}
	case 1:
		return turnVisitor{v.log, v.n + 1}
	case 2:
		return mapVisitor{"log": v.log}
	}
	return sliceVisitor{[]*walkLog{v.log}}
}

func judgeVisitorKinds(c *Case, o *Obs) error {
	t, d, err := parseSmall(c, o)
	if err != nil {
		return err
	}
	var want []string
	i := 0
	var rec func(n *Node)
	rec = func(n *Node) {
		want = append(want, n.head())
		i++
		if pruned(c, i) {
			return
		}
		for _, k := range n.children() {
			rec(k)
		}
		want = append(want, "nil")
	}
	rec(d.root())
	all := strings.Join(want, " ")
	l := &walkLog{}
	for _, k := range []struct {
		name string
		walk func()
	}{
		{"a function", func() { geo.Walk(funcVisitor(l.on), t) }},
		{"Visit", func() { geo.Visit(t, l.on) }},
		{"a map", func() { geo.Walk(mapVisitor{"log": l}, t) }},
		{"a struct with a slice", func() { geo.Walk(sliceVisitor{[]*walkLog{l}}, t) }},
		{"a nil pointer", func() { nilLog = l; geo.Walk((*nilVisitor)(nil), t) }},
		{"an empty struct", func() { nilLog = l; geo.Walk(emptyVisitor{}, t) }},
		{"several types in turns", func() { geo.Walk(turnVisitor{l, 0}, t) }},
		{"a function that walks", func() { l.inner = true; geo.Visit(t, l.on) }},
		{"a function through Visit after others", func() { geo.Walk(funcVisitor(l.on), t) }},
	} {
		*l = walkLog{c: c, tree: t}
		k.walk()
		if err := diff("visits by "+k.name, all, strings.Join(l.heads, " ")); err != nil {
			return err
		}
	}
	// a panic of the visitor ends the walk and reaches the caller
	stop := int(uint64(c.N[0]) % uint64(len(want)))
	n := 0
	*l = walkLog{c: c, tree: t}
	got := func() (r interface{}) {
		defer func() { r = recover() }()
		geo.Visit(t, func(e geo.Expr) bool {
			if n == stop {
				panic(l)
			}
			n++
			return l.on(e)
		})
		return nil
	}()
	if got != interface{}(l) || n != stop {
		return fmt.Errorf("a panic in visit %d of %d comes out as %v after %d visits", stop, len(want), got, n)
	}
	return diff("visits up to a panic", strings.Join(want[:stop], " "), strings.Join(l.heads, " "))
}

// ---- statements built by hand --------------------------------------------------

func init() {
	props["C08"].parts = append(props["C08"].parts,
		&Part{name: "by hand", n: 40000, about: "a statement put together from the same contents formats, checks and walks like the parsed one", gen: func(g *G) *Case {
			if g.p(40) {
				c := genTypedMeta(g)
				return one(string(c.In[0]) + string(c.In[1]))
			}
			return one(string(genTree(g).In[0]))
		}, judge: judgeByHand})
	props["C17"].parts = append(props["C17"].parts,
		&Part{name: "by hand", n: 20000, about: "a statement put together by SetVar from values built by hand is the statement of the text", gen: genSetVar, judge: judgeSetByHand})
}

// byHand builds a value anew from what a caller can see of it.
func byHand(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return v
		}
		p := reflect.New(v.Type().Elem())
		p.Elem().Set(byHand(v.Elem()))
		return p
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		n := reflect.New(v.Type()).Elem()
		n.Set(byHand(v.Elem()))
		return n
	case reflect.Struct:
		n := reflect.New(v.Type()).Elem()
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				n.Field(i).Set(byHand(v.Field(i)))
			}
		}
		return n
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(byHand(v.Index(i)))
		}
		return n
	case reflect.Map:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeMap(v.Type())
		for _, k := range v.MapKeys() {
			n.SetMapIndex(k, byHand(v.MapIndex(k)))
		}
		return n
	}
	return v
}

func handMade(t *geo.Trigger) *geo.Trigger {
	return byHand(reflect.ValueOf(t)).Interface().(*geo.Trigger)
}

func compareByHand(t, h *geo.Trigger) error {
	want, err := format(t)
	if err != nil {
		return fmt.Errorf("Format: %v", err)
	}
	got, err := format(h)
	if err != nil {
		return fmt.Errorf("Format of the statement built by hand: %v", err)
	}
	if err := diff("formatted texts of a parsed statement and of the same built by hand", want, got); err != nil {
		return err
	}
	for _, d := range []geo.Dictionary{typedDict(), nil} {
		if a, b := geo.CheckType(t, d), geo.CheckType(h, d); (a == nil) != (b == nil) {
			return fmt.Errorf("CheckType of a parsed statement: %v, of the same built by hand: %v", a, b)
		}
	}
	var a, b []string
	geo.Visit(t, func(e geo.Expr) bool { a = append(a, head(e)); return true })
	geo.Visit(h, func(e geo.Expr) bool { b = append(b, head(e)); return true })
	return diff("visits of a parsed statement and of the same built by hand", strings.Join(a, " "), strings.Join(b, " "))
}

func judgeByHand(c *Case, o *Obs) error {
	stmt, d, err := parse(string(c.In[0]))
	if err != nil {
		return nil
	}
	if n, _ := countNodes(d); n >= 3 {
		o.nonTrivial()
	}
	t := stmt.(*geo.Trigger)
	return compareByHand(t, handMade(t))
}

func judgeSetByHand(c *Case, o *Obs) error {
	when := string(c.In[0])
	h := &geo.Trigger{}
	var model [][2]string
	for i := 1; i+1 < len(c.In); i += 2 {
		v := [2]string{string(c.In[i]), string(c.In[i+1])}
		stmt, _, err := parse(setText([][2]string{v}, "a"))
		if err != nil {
			return fmt.Errorf("valid document rejected: %v", err)
		}
		taken := false
		for _, m := range model {
			taken = taken || m[0] == v[0]
		}
		val := byHand(reflect.ValueOf(stmt.(*geo.Trigger).Vars[0])).Interface().(*geo.Assign)
		if err := h.SetVar(val); taken != (err != nil) {
			return fmt.Errorf("SetVar of %s: name taken: %v, error: %v", v[0], taken, err)
		}
		if !taken {
			model = append(model, v)
		}
	}
	if len(model) > 1 {
		o.nonTrivial()
	}
	stmt, _, err := parse(setText(model, when))
	if err != nil {
		return fmt.Errorf("valid document rejected: %v", err)
	}
	t := stmt.(*geo.Trigger)
	h.When = handMade(t).When
	return compareByHand(t, h)
}
