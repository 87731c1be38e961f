package main

import (
	"errors"
	"fmt"
	"io"
	"runtime"
	"strings"
	"syscall"
	"time"

	geo "github.com/mmadfox/go-geoql-parser"
)

// How the work grows: eight times the text takes about eight times as long
// and allocates about eight times as much. Work that grows with the square of
// the text takes sixty-four times as much.

const (
	scaleSmall  = 40 << 10
	scaleFactor = 8
	scaleLimit  = 24
)

// repeated gives the unmarked text of a sized template with n items.
func (t sized) plain(n int) (s string) {
	t.texts(n, func(text string) bool {
		s = text
		return false
	})
	return
}

func both(open, sep1 string, one func(int) string, middle, sep2 string, two func(int) string, shut string) sized {
	return sized{"", func(n int, yield func(string) bool) bool {
		return yield(open + items(n, sep1, one, -1, "") + middle + items(n, sep2, two, -1, "") + shut)
	}}
}

var scaleTexts = []sized{
	both("trigger set ", " ", numbered("v%d=1"), " when ", " + ", numbered("@v%d"), " > 1"),
	both("trigger set ", ";", numbered("v%d=1.5"), " when a in [", ", ", func(i int) string { return fmt.Sprintf("@v%d", i*7919%(i+1)) }, "]"),
	both("trigger set ", " ", numbered(`v%d="s"`), " when ", " + ", numbered("@V%d"), " == id"),
	both("trigger set ", " ", numbered(`v%d=x`), " when ", " and ", numbered("b%d == @v0"), ""),
	list("", "when ", "", " and ", numbered("b%d")),
	list("", "when ", "", " and ", numbered("b > %d")),
	list("", "when ", "", " or ", numbered("speed in [1, %d]")),
	list("", "when ", " > 1", " + ", numbered("n%d")),
	list("", "when id == ", "", " + ", numbered(`"%d"`)),
	list("", "when a:", "", ",", numbered(`b%d{"%[1]d"}`)),
	list("", "when ", "", " and ", numbered(`b{"%d", "x"}:1km`)),
	list("", "when b in [", "", ",", numbered(`%d`)),
	list("", "when (", "", " and ", numbered(`b%d`)),
	list("", "when a in date[", "", ",", of(`2030-1-1`)),
	list("", "trigger set ", "", " ", numbered("v%d=1")),
	list("", "trigger set ", "", "\n", numbered("v%d=[1,2]; // x")),
	list("", "when ", "a > 1", "", of("\n")),
	list("", "when ", "a > 1", "\n", of("// x y z")),
	list("", "when ", "a > 1", " ", of("/* x\ny */")),
	list("", "when ", "", " and ", numbered("(b%d)")),
	list("", "when ", "", " and ", numbered("(b or (c%d < 2))")),
	list("", "when ", "", " and ", numbered("a nearby point[%d, 1]:5km")),
	list("", "when ", "", " and ", numbered(`b not in ["%d"]`)),
	list("", "when ", "", "", of("\"\\u0041\\n\" == id and ")),
	list("", "when ", "", "", of(")")),
	list("", "when ", "", "", of("@")),
	list("", "when ", "", "", of("#")),
	list("", "", "", "", of("when ")),
	list("", "when a", "", "", of("repeat 1 ")),
	list("", "when a = \"", "\n", "", of("x")),
	list("", "when a = /* ", "", "", of("x")),
	list("", "when a in 1", "", "", of(".. 2")),
	list("", "when ", "", "", of("not ")),
	list("", "when ", "", "", of("\xff")),
	list("", "when ", "", "", of("\x00 ")),
}

func allScaleTexts() []sized {
	out := append([]sized(nil), scaleTexts...)
	for _, t := range sizedTexts {
		if s := t.plain(400); len(s) > 400 && !strings.Contains(s, "((") && !strings.Contains(s, "x:x:") {
			out = append(out, t)
		}
	}
	for _, d := range longDocs {
		out = append(out, list("", d[0], d[2], "", of(d[1])))
	}
	return out
}

func cpu() time.Duration {
	var r syscall.Rusage
	const thread = 1 // RUSAGE_THREAD
	if syscall.Getrusage(thread, &r) != nil {
		return 0
	}
	return time.Duration(r.Utime.Nano() + r.Stime.Nano())
}

type spent struct {
	t time.Duration
	b uint64
}

func spend(f func()) spent {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	t := cpu()
	f()
	t = cpu() - t
	runtime.ReadMemStats(&b)
	return spent{t, b.TotalAlloc - a.TotalAlloc}
}

type builder struct{ n int }

func (w *builder) WriteString(s string) (int, error) { w.n += len(s); return len(s), nil }

// judgeScale: N has the number of the template.
func judgeScale(c *Case, o *Obs) error {
	all := allScaleTexts()
	tpl := all[int(c.N[0])%len(all)]
	n := 1 + scaleSmall*400/len(tpl.plain(400))
	texts := [2]string{tpl.plain(n), tpl.plain(n * scaleFactor)}
	for i := 2; i < 5 && len(texts[1]) > 11*len(texts[0]); i++ { // digits grow with the count
		n, texts[1] = n*9/10, tpl.plain(n*scaleFactor*9/10)
	}
	dict := geo.Dict()
	for i := 0; i < 200; i++ {
		dict[fmt.Sprintf("b%d", i)] = geo.Boolean
		dict[fmt.Sprintf("n%d", i)] = geo.Int
	}
	for k, v := range dicts[2] {
		dict[k] = v
	}
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	var stmts [2]geo.Statement
	o.nonTrivial()
	steps := []struct {
		name string
		do   func(i int)
	}{
		{"reading the tokens", func(i int) {
			t := geo.NewTokenizer(strings.NewReader(texts[i]))
			for tok, _ := t.Scan(); tok != geo.EOF; tok, _ = t.Scan() {
			}
		}},
		{"Parse", func(i int) {
			stmts[i], _ = geo.Parse(texts[i])
		}},
		{"Format", func(i int) {
			geo.Format(&builder{}, stmts[i])
		}},
		{"CheckType", func(i int) {
			geo.CheckType(stmts[i], dict)
		}},
		{"CheckType with nothing in the dictionary", func(i int) {
			geo.CheckType(stmts[i], nil)
		}},
		{"Walk", func(i int) {
			geo.Visit(stmts[i].(*geo.Trigger), func(geo.Expr) bool { return true })
		}},
	}
	for k, s := range steps {
		if k > 1 && (stmts[0] == nil || stmts[1] == nil) {
			break
		}
		var low [2]spent
		take := func(i, times int) {
			for ; times > 0; times-- {
				x := spend(func() { s.do(i) })
				if low[i].t == 0 || x.t < low[i].t {
					low[i].t = x.t
				}
				if low[i].b == 0 || x.b < low[i].b {
					low[i].b = x.b
				}
			}
		}
		slow := func() bool {
			return low[1].t > 80*time.Millisecond && low[1].t > scaleLimit*low[0].t
		}
		fat := func() bool { return low[1].b > 8<<20 && low[1].b > scaleLimit*low[0].b }
		take(0, 3)
		take(1, 1)
		for again := 0; again < 4 && (slow() || fat()); again++ {
			take(0, 2)
			take(1, 1)
		}
		o.hit(s.name)
		if slow() {
			return fmt.Errorf("%s takes %v for a text of %d bytes and %v for %d bytes of the same kind: %s", s.name, low[0].t, len(texts[0]), low[1].t, len(texts[1]), clip(texts[0], 120))
		}
		if fat() {
			return fmt.Errorf("%s allocates %d bytes for a text of %d bytes and %d for %d bytes of the same kind: %s", s.name, low[0].b, len(texts[0]), low[1].b, len(texts[1]), clip(texts[0], 120))
		}
	}
	return nil
}

func init() {
	props["C01"].parts = append(props["C01"].parts, &Part{name: "growth", about: "time and memory for a text of 40 kB and one of 320 kB of the same kind", enum: func(yield func(*Case) bool) {
		for i := range allScaleTexts() {
			if !yield(&Case{N: []int64{int64(i)}}) {
				return
			}
		}
	}, judge: judgeScale})
}

// ---- what is left behind -------------------------------------------------------

// leftTexts are documents of which no two are alike; many are rejected.
var leftTexts = []string{
	"when speed%d > %d",
	"trigger set v%d = %d; when a == @v%[1]d repeat 3 every 5s reset after 1h",
	`when s == "text %d" or s in ["x%[2]d", "y%[1]d"]`,
	`when fuel{"id%d", "id%d", *}:1km, 2km > 5`,
	"when a nearby point[1.%d, 2.%d]:5km",
	"when a in polygon[[[1.%d, 2], [3, 4], [5, 6.%d]]]",
	"when (a%d + 1.%d) * 2 < b%[1]d /* comment %[2]d */",
	"when a in date[2030-1-1, 2031-2-2] and b%d > %dkph",
	"when x%d > ( %d",
	`when "unfinished %d %d`,
	"when a ] b%d %d",
	"%d %d",
	"when # %d %d",
	"when a > \"\\q%d\" %d",
	"when a in 1 .. %d and b == -%dC",
	"trigger set a = 1; a = %d when %d",
}

// judgeLeft: N has the number of the template. Handling many texts leaves
// nothing behind: no memory that grows with them and no goroutines.
func judgeLeft(c *Case, o *Obs) error {
	tpl := leftTexts[int(c.N[0])%len(leftTexts)]
	salt := int(c.N[1])
	o.nonTrivial()
	run := func(from, n int) {
		var b strings.Builder
		for i := from; i < from+n; i++ {
			src := fmt.Sprintf(tpl, salt+i*7919, salt+i)
			stmt, err := geo.Parse(src)
			if err != nil {
				_ = err.Error()
				continue
			}
			b.Reset()
			geo.Format(&b, stmt)
			d := geo.Dict()
			d[fmt.Sprint("speed", i)] = geo.Int
			geo.CheckType(stmt, d)
			geo.Visit(stmt.(*geo.Trigger), func(geo.Expr) bool { return true })
			if i%4 == 0 {
				t := geo.NewTokenizer(strings.NewReader(src))
				for k := 0; k < i%16; k++ {
					t.Scan() // and given up
				}
			}
		}
	}
	heap := func() uint64 {
		var m runtime.MemStats
		for i := 0; i < 3; i++ {
			runtime.GC()
		}
		runtime.ReadMemStats(&m)
		return m.HeapAlloc
	}
	const n = 12000
	run(0, 2000)
	goroutines := runtime.NumGoroutine()
	var grown [3]int64
	last := heap()
	for i := range grown {
		run(2000+i*n, n)
		now := heap()
		grown[i] = int64(now) - int64(last)
		last = now
	}
	// growth that goes on, not a table that fills up once
	const limit = n * 16
	if grown[0] > limit && grown[1] > limit && grown[2] > limit {
		return fmt.Errorf("%d, %d and %d bytes stay behind after three times %d texts like %q", grown[0], grown[1], grown[2], n, tpl)
	}
	if g := runtime.NumGoroutine(); g > goroutines+n/100 {
		return fmt.Errorf("%d goroutines stay behind after %d texts like %q", g-goroutines, 3*n, tpl)
	}
	return nil
}

func init() {
	props["C01"].parts = append(props["C01"].parts, &Part{name: "left behind", about: "memory and goroutines that stay after 36000 different texts of one kind", enum: func(yield func(*Case) bool) {
		for i := range leftTexts {
			if !yield(&Case{N: []int64{int64(i), int64(i * 1000003)}}) {
				return
			}
		}
	}, judge: judgeLeft})
}

// ---- what long texts leave behind ----------------------------------------------

// judgeLeftLong: N has the number of a text and a size. A long text, read to
// its end, cut, or spoiled, leaves no goroutine and, beyond once, no memory.
func judgeLeftLong(c *Case, o *Obs) error {
	all := allScaleTexts()
	t := all[int(c.N[0])%len(all)]
	size := int(c.N[1])
	n := 8
	for n < 1<<20 && len(t.plain(n)) < size {
		n += n/2 + 1
	}
	src := t.plain(n)
	texts := []string{src, src[:len(src)*2/3], src[:len(src)/2] + " ) " + src[len(src)/2:], src + " ]", src + "\x00"}
	o.nonTrivial()
	run := func(k int) {
		for i := 0; i < k; i++ {
			for j, s := range texts {
				s = s + strings.Repeat(" ", i*len(texts)+j) // no two alike
				stmt, err := geo.Parse(s)
				if err != nil {
					_ = err.Error()
					continue
				}
				geo.Format(&failAfter{n: len(s) / 2}, stmt)
				geo.Format(io.Discard.(io.StringWriter), stmt)
				geo.CheckType(stmt, geo.Dict())
				geo.Visit(stmt.(*geo.Trigger), func(e geo.Expr) bool { return e == nil || i%2 == 0 })
			}
		}
	}
	heap := func() int64 {
		var m runtime.MemStats
		for i := 0; i < 3; i++ {
			runtime.GC()
		}
		runtime.ReadMemStats(&m)
		return int64(m.HeapAlloc)
	}
	run(2)
	goroutines, before := runtime.NumGoroutine(), heap()
	run(4)
	for i := 0; runtime.NumGoroutine() > goroutines; i++ {
		if i == 40 {
			return fmt.Errorf("%d goroutines stay behind after long texts like %.60q", runtime.NumGoroutine()-goroutines, src)
		}
		time.Sleep(50 * time.Millisecond)
	}
	// four rounds may not cost more than what one text may leave in a cache
	if grown := heap() - before; grown > int64(len(src))*8+(1<<20) {
		first := grown
		before = heap()
		run(4)
		if grown = heap() - before; grown > int64(len(src))*8 {
			return fmt.Errorf("%d and %d bytes stay behind after four times %d long texts like %.60q", first, grown, len(texts), src)
		}
	}
	return nil
}

type failAfter struct{ n int }

func (f *failAfter) WriteString(s string) (int, error) {
	if f.n -= len(s); f.n < 0 {
		return 0, errors.New("full")
	}
	return len(s), nil
}

func init() {
	props["C01"].parts = append(props["C01"].parts, &Part{name: "left behind long", about: "memory and goroutines that stay after long texts, accepted, cut and spoiled", enum: func(yield func(*Case) bool) {
		for i := range allScaleTexts() {
			size := []int64{6 << 10, 72 << 10, 72 << 10, 300 << 10}[i%4]
			if !thorough && i%2 == 1 {
				continue
			}
			if !yield(&Case{N: []int64{int64(i), size}}) {
				return
			}
		}
	}, judge: judgeLeftLong})
}
