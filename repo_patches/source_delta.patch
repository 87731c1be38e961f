From fafa06c9084e3b03b757ae180aa6c33a112b906e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:22 +0000
Subject: [PATCH 01/36] fix: format month literals with month names

Month values were printed with the weekday table, so Format wrote a
different (unparsable) name and Format/CheckType indexed out of range for
Aug..Dec.
---
 format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format.go b/format.go
index 546d0d4..eda8dca 100644
--- a/format.go
+++ b/format.go
@@ -504,7 +504,7 @@ func (e *MonthTyp) format(w io.StringWriter, _ string, inline bool) {
 	if !inline {
 		checkError(w.WriteString("month["))
 	}
-	checkError(w.WriteString(shortDayNames[e.Val-1]))
+	checkError(w.WriteString(shortMonthNames[e.Val-1]))
 	if !inline {
 		checkError(w.WriteString("]"))
 	}
-- 
2.43.0


From 32f0a62b8b36e7e480a31e95787801f9ff7c31b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:23 +0000
Subject: [PATCH 02/36] fix: separate the rem operator from its operands when
 formatting

'a rem 2' was written as 'arem2', which reads back as a selector.
---
 format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format.go b/format.go
index eda8dca..ce1981c 100644
--- a/format.go
+++ b/format.go
@@ -366,7 +366,7 @@ func (e *BinaryExpr) format(w io.StringWriter, padding string, inline bool) {
 	switch e.Op {
 	case AND, OR:
 		nl = true
-	case ADD, SUB, MUL, QUO, REM:
+	case ADD, SUB, MUL, QUO:
 		nospace = true
 	}
 	if !nospace {
-- 
2.43.0


From 61ce14b4e74561137b7868186ffe322968d15c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:10 +0000
Subject: [PATCH 03/36] fix: keep the date/time/weekday/month wrapper when
 formatting conditions

---
 format.go | 106 +++++++++++++++++++++++++-----------------------------
 1 file changed, 48 insertions(+), 58 deletions(-)

diff --git a/format.go b/format.go
index ce1981c..a4e2a05 100644
--- a/format.go
+++ b/format.go
@@ -205,28 +205,32 @@ func (e *GeometryCollectionTyp) format(w io.StringWriter, padding string, inline
 	checkError(w.WriteString("]"))
 }
 
+// calendarTyp is implemented by the literals written as keyword[value].
+type calendarTyp interface {
+	keyword() string
+	formatValue(w io.StringWriter)
+}
+
+func formatCalendar(w io.StringWriter, e calendarTyp) {
+	checkError(w.WriteString(e.keyword() + "["))
+	e.formatValue(w)
+	checkError(w.WriteString("]"))
+}
+
 func (e *Range) format(w io.StringWriter, padding string, inline bool) {
-	switch e.Low.(type) {
-	case *TimeTyp:
-		checkError(w.WriteString("time["))
-		inline = true
-	case *MonthTyp:
-		checkError(w.WriteString("month["))
-		inline = true
-	case *DateTyp:
-		checkError(w.WriteString("date["))
-		inline = true
-	case *WeekdayTyp:
-		checkError(w.WriteString("weekday["))
-		inline = true
+	low, lok := e.Low.(calendarTyp)
+	high, hok := e.High.(calendarTyp)
+	if lok && hok && low.keyword() == high.keyword() {
+		checkError(w.WriteString(low.keyword() + "["))
+		low.formatValue(w)
+		checkError(w.WriteString(" .. "))
+		high.formatValue(w)
+		checkError(w.WriteString("]"))
+		return
 	}
 	e.Low.format(w, padding, inline)
 	checkError(w.WriteString(" .. "))
 	e.High.format(w, padding, inline)
-	switch e.Low.(type) {
-	case *TimeTyp, *MonthTyp, *DateTyp, *WeekdayTyp:
-		checkError(w.WriteString("]"))
-	}
 }
 
 func (e *PercentTyp) format(w io.StringWriter, _ string, _ bool) {
@@ -333,24 +337,18 @@ func (e *GeometryPointTyp) format(w io.StringWriter, padding string, inline bool
 
 func (e *ArrayTyp) format(b io.StringWriter, padding string, inline bool) {
 	switch e.Kind {
-	case TIME:
-		checkError(b.WriteString("time"))
-		inline = true
-	case MONTH:
-		checkError(b.WriteString("month"))
-		inline = true
-	case DATE:
-		checkError(b.WriteString("date"))
-		inline = true
-	case WEEKDAY:
-		checkError(b.WriteString("weekday"))
-		inline = true
+	case TIME, MONTH, DATE, WEEKDAY:
+		checkError(b.WriteString(KeywordString(e.Kind)))
 	}
 
 	checkError(b.WriteString("["))
 
 	for i, expr := range e.List {
-		expr.format(b, padding, inline)
+		if lit, ok := expr.(calendarTyp); ok {
+			lit.formatValue(b)
+		} else {
+			expr.format(b, padding, inline)
+		}
 		if i+1 < len(e.List) {
 			checkError(b.WriteString(", "))
 		}
@@ -453,24 +451,23 @@ func (e *IntTyp) format(w io.StringWriter, _ string, _ bool) {
 	checkError(w.WriteString(strconv.Itoa(e.Val)))
 }
 
-func (e *DateTyp) format(w io.StringWriter, _ string, inline bool) {
-	if !inline {
-		checkError(w.WriteString("date["))
-	}
+func (e *DateTyp) keyword() string { return "date" }
+
+func (e *DateTyp) format(w io.StringWriter, _ string, _ bool) { formatCalendar(w, e) }
+
+func (e *DateTyp) formatValue(w io.StringWriter) {
 	checkError(w.WriteString(d2s(e.Year)))
 	checkError(w.WriteString("-"))
 	checkError(w.WriteString(d2s(e.Month)))
 	checkError(w.WriteString("-"))
 	checkError(w.WriteString(d2s(e.Day)))
-	if !inline {
-		checkError(w.WriteString("]"))
-	}
 }
 
-func (e *TimeTyp) format(w io.StringWriter, _ string, inline bool) {
-	if !inline {
-		checkError(w.WriteString("time["))
-	}
+func (e *TimeTyp) keyword() string { return "time" }
+
+func (e *TimeTyp) format(w io.StringWriter, _ string, _ bool) { formatCalendar(w, e) }
+
+func (e *TimeTyp) formatValue(w io.StringWriter) {
 	if e.U == AM || e.U == PM {
 		checkError(w.WriteString(strconv.Itoa(e.Hours)))
 	} else {
@@ -485,29 +482,22 @@ func (e *TimeTyp) format(w io.StringWriter, _ string, inline bool) {
 	if e.U == AM || e.U == PM {
 		checkError(w.WriteString(e.U.String()))
 	}
-	if !inline {
-		checkError(w.WriteString("]"))
-	}
 }
 
-func (e *WeekdayTyp) format(w io.StringWriter, _ string, inline bool) {
-	if !inline {
-		checkError(w.WriteString("weekday["))
-	}
+func (e *WeekdayTyp) keyword() string { return "weekday" }
+
+func (e *WeekdayTyp) format(w io.StringWriter, _ string, _ bool) { formatCalendar(w, e) }
+
+func (e *WeekdayTyp) formatValue(w io.StringWriter) {
 	checkError(w.WriteString(shortDayNames[e.Val]))
-	if !inline {
-		checkError(w.WriteString("]"))
-	}
 }
 
-func (e *MonthTyp) format(w io.StringWriter, _ string, inline bool) {
-	if !inline {
-		checkError(w.WriteString("month["))
-	}
+func (e *MonthTyp) keyword() string { return "month" }
+
+func (e *MonthTyp) format(w io.StringWriter, _ string, _ bool) { formatCalendar(w, e) }
+
+func (e *MonthTyp) formatValue(w io.StringWriter) {
 	checkError(w.WriteString(shortMonthNames[e.Val-1]))
-	if !inline {
-		checkError(w.WriteString("]"))
-	}
 }
 
 func d2s(n int) string {
-- 
2.43.0


From be659cb763158aedbc9d073802838fe30b7feb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:28 +0000
Subject: [PATCH 04/36] fix: keep float literals parsable as floats when
 formatting

---
 format.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/format.go b/format.go
index a4e2a05..700a748 100644
--- a/format.go
+++ b/format.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"io"
 	"strconv"
+	"strings"
 )
 
 const (
@@ -75,7 +76,12 @@ func formatTriggerStmt(t *Trigger, w io.StringWriter) (err error) {
 func (t *Trigger) format(_ io.StringWriter, _ string, _ bool) {}
 
 func formatFloat(w io.StringWriter, v float64) {
-	checkError(w.WriteString(strconv.FormatFloat(v, 'f', -1, 64)))
+	str := strconv.FormatFloat(v, 'f', -1, 64)
+	if _, err := strconv.Atoi(str); err != nil && !strings.Contains(str, ".") {
+		// too big for an integer literal
+		str += ".0"
+	}
+	checkError(w.WriteString(str))
 }
 
 func (e *GeometryMultiObjectTyp) format(w io.StringWriter, padding string, inline bool) {
@@ -245,7 +251,12 @@ func (e *StringTyp) format(w io.StringWriter, _ string, _ bool) {
 }
 
 func (e *FloatTyp) format(w io.StringWriter, _ string, _ bool) {
-	formatFloat(w, e.Val)
+	str := strconv.FormatFloat(e.Val, 'f', -1, 64)
+	if !strings.Contains(str, ".") {
+		// without the decimal point it would be an integer literal
+		str += ".0"
+	}
+	checkError(w.WriteString(str))
 }
 
 func (e *DurationTyp) format(b io.StringWriter, _ string, _ bool) {
-- 
2.43.0


From 8e1e8d53f9ec2fe0f98b1d38a593a1a475be233e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:29 +0000
Subject: [PATCH 05/36] fix: format selector args in a stable order

---
 ast.go    | 13 ++-----------
 format.go |  6 ++++++
 2 files changed, 8 insertions(+), 11 deletions(-)

diff --git a/ast.go b/ast.go
index ede9e36..4214986 100644
--- a/ast.go
+++ b/ast.go
@@ -268,21 +268,12 @@ func (e *Selector) calculateEnd(p Pos) {
 	}
 }
 
-func (e *Selector) needExpand() (ok bool) {
+func (e *Selector) needExpand() bool {
 	var n int
-	var i int
 	for k := range e.Args {
 		n += len(k)
-		if n > 64 {
-			ok = true
-			break
-		}
-		if i > 3 {
-			break
-		}
-		i++
 	}
-	return
+	return n > 64
 }
 
 type BooleanTyp struct {
diff --git a/format.go b/format.go
index 700a748..802f248 100644
--- a/format.go
+++ b/format.go
@@ -3,6 +3,7 @@ package geoqlparser
 import (
 	"fmt"
 	"io"
+	"sort"
 	"strconv"
 	"strings"
 )
@@ -308,7 +309,12 @@ func (e *Selector) format(b io.StringWriter, padding string, inline bool) {
 				checkError(b.WriteString(", "))
 			}
 		}
+		ids := make([]string, 0, len(e.Args))
 		for k := range e.Args {
+			ids = append(ids, k)
+		}
+		sort.Strings(ids)
+		for _, k := range ids {
 			if !inline && expand {
 				checkError(b.WriteString("\n" + pad2))
 			}
-- 
2.43.0


From 8402057285641211dd99e18d438c95c49230d61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:30 +0000
Subject: [PATCH 06/36] fix: strip only the delimiting quotes of string
 literals

---
 parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index 892b76a..3da18fd 100644
--- a/parser.go
+++ b/parser.go
@@ -372,7 +372,7 @@ func isGeometryToken(tok Token) (ok bool) {
 }
 
 func trim(lit string) string {
-	lit = strings.TrimLeft(lit, `"`)
-	lit = strings.TrimRight(lit, `"`)
+	lit = strings.TrimPrefix(lit, `"`)
+	lit = strings.TrimSuffix(lit, `"`)
 	return lit
 }
-- 
2.43.0


From 54808a5622a2fc10ca1f911587e1e6318d270b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:31 +0000
Subject: [PATCH 07/36] fix: indent nested parentheses by one tab per level

---
 format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format.go b/format.go
index 802f248..52a9228 100644
--- a/format.go
+++ b/format.go
@@ -407,7 +407,7 @@ func (e *ParenExpr) format(w io.StringWriter, padding string, inline bool) {
 			expand = false
 		}
 	}
-	pad2 := padding + padding
+	pad2 := padding + "\t"
 	checkError(w.WriteString("("))
 	if expand {
 		checkError(w.WriteString("\n" + pad2))
-- 
2.43.0


From 0c4fa28ba731264c251cad34679e83aa38de00a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:31 +0000
Subject: [PATCH 08/36] fix: report write errors when formatting booleans

---
 ast.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ast.go b/ast.go
index 4214986..519f52b 100644
--- a/ast.go
+++ b/ast.go
@@ -285,9 +285,9 @@ type BooleanTyp struct {
 func (e *BooleanTyp) format(b io.StringWriter, padding string, inline bool) {
 	switch e.Val {
 	case true:
-		b.WriteString("true")
+		checkError(b.WriteString("true"))
 	case false:
-		b.WriteString("false")
+		checkError(b.WriteString("false"))
 	}
 	return
 }
-- 
2.43.0


From f55558c29a06f101b55d3080fbfde9466e89dddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:01 +0000
Subject: [PATCH 09/36] fix: format fractional durations so that they can be
 parsed back

---
 format.go | 8 +++++++-
 parser.go | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/format.go b/format.go
index 52a9228..c160b2a 100644
--- a/format.go
+++ b/format.go
@@ -6,6 +6,7 @@ import (
 	"sort"
 	"strconv"
 	"strings"
+	"time"
 )
 
 const (
@@ -261,7 +262,12 @@ func (e *FloatTyp) format(w io.StringWriter, _ string, _ bool) {
 }
 
 func (e *DurationTyp) format(b io.StringWriter, _ string, _ bool) {
-	checkError(b.WriteString(e.Val.String()))
+	str := e.Val.String()
+	if frac := e.Val % time.Second; frac != 0 && (e.Val < time.Millisecond || e.Val > time.Minute) {
+		// neither 100µs nor 1m1.5s can be parsed back
+		str = strings.TrimRight(fmt.Sprintf("%d.%09d", e.Val/time.Second, frac), "0") + "s"
+	}
+	checkError(b.WriteString(str))
 }
 
 func (e *TemperatureTyp) format(w io.StringWriter, _ string, _ bool) {
diff --git a/parser.go b/parser.go
index 3da18fd..446787c 100644
--- a/parser.go
+++ b/parser.go
@@ -100,7 +100,13 @@ func (s *parser) parseRepeat(stmt *Trigger) (err error) {
 		return s.error()
 	}
 	s.next()
-	dur, err := s.parseIntTypes()
+	var dur Expr
+	switch s.tok {
+	case INT:
+		dur, err = s.parseIntTypes()
+	case FLOAT:
+		dur, err = s.parseFloatTypes()
+	}
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 6339fa441adfb590e065f9443e4f10ca3d84215d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:30 +0000
Subject: [PATCH 10/36] fix: reject input left over after the statement

---
 parser.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 446787c..c8634c0 100644
--- a/parser.go
+++ b/parser.go
@@ -199,7 +199,18 @@ func (s *parser) parse0() (stmt Statement, err error) {
 		if s.except(TRIGGER) {
 			s.next()
 		}
-		return s.parseTriggerStmt()
+		trigger, terr := s.parseTriggerStmt()
+		if terr != nil {
+			return nil, terr
+		}
+		if s.t.Err() != nil {
+			s.err = s.t.Err()
+			return nil, s.error()
+		}
+		if !s.except(EOF) {
+			return nil, s.error()
+		}
+		return trigger, nil
 	default:
 		err = s.error()
 	}
-- 
2.43.0


From d9d3ae07e48d0bf6b3df4a39f85a33e15b7ab1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:29 +0000
Subject: [PATCH 11/36] fix: keep the text and offset of operator tokens with
 one token lookahead

---
 composite.go |  4 ----
 parser.go    |  9 ++++----
 token.go     | 62 ++++++++++++++++++++++++++++++++++++++++++++--------
 3 files changed, 57 insertions(+), 18 deletions(-)

diff --git a/composite.go b/composite.go
index c1520c1..208d046 100644
--- a/composite.go
+++ b/composite.go
@@ -20,10 +20,6 @@ func (s *parser) parseArrayExpr() (expr Expr, err error) {
 			return nil, err
 		}
 
-		if s.except(COMMA) {
-			s.t.Unwind()
-		}
-
 		if arrayExpr == nil {
 			arrayExpr = &ArrayTyp{lpos: startPos, List: make([]Expr, 0), Kind: ILLEGAL}
 		}
diff --git a/parser.go b/parser.go
index c8634c0..1229ed9 100644
--- a/parser.go
+++ b/parser.go
@@ -132,12 +132,11 @@ func (s *parser) parseSet(stmt *Trigger) error {
 		}
 		ident := Ident{Val: s.t.TokenText(), lpos: s.t.Offset()}
 		ident.rpos = s.t.Offset() + Pos(len(ident.Val)-1)
-		s.t.Unwind()
 		s.next()
 		if !s.except(ASSIGN) {
 			return s.error()
 		}
-		tokPos := s.t.Offset() - 1
+		tokPos := s.t.Offset()
 		expr, err := s.parseUnaryExpr()
 		if err != nil {
 			return err
@@ -345,13 +344,13 @@ func (s *parser) parseParenExpr() (expr Expr, err error) {
 
 func (s *parser) error() error {
 	err := Error{
-		Offset: s.t.s.Offset,
+		Offset: int(s.t.Offset()),
 		Err:    s.err,
-		Lit:    s.t.lit,
+		Lit:    s.t.TokenText(),
 	}
 	_, er := s.r.Seek(0, io.SeekStart)
 	if er == nil {
-		buf := make([]byte, s.t.s.Offset)
+		buf := make([]byte, err.Offset)
 		_, _ = s.r.Read(buf)
 		err.Msg = string(buf)
 	}
diff --git a/token.go b/token.go
index 2ae51e6..2f347a6 100644
--- a/token.go
+++ b/token.go
@@ -18,7 +18,21 @@ type Tokenizer struct {
 	hop int
 	tok rune
 	lit string
+	pos Pos
+	end Pos
 	err error
+
+	last lastToken
+	back bool
+}
+
+// lastToken is the token most recently returned by Scan.
+type lastToken struct {
+	tok  Token
+	lit  string
+	text string
+	pos  Pos
+	end  Pos
 }
 
 func NewTokenizer(r io.Reader) *Tokenizer {
@@ -36,16 +50,29 @@ func (t *Tokenizer) next() (rune, string) {
 		t.hop = 0
 	} else {
 		t.tok, t.lit = t.s.Scan(), t.s.TokenText()
+		t.pos, t.end = Pos(t.s.Offset), Pos(t.s.Pos().Offset)
 	}
 	return t.tok, t.lit
 }
 
-func (t *Tokenizer) Reset() {
+func (t *Tokenizer) unread() {
 	t.hop = 1
 }
 
+// join extends the last token by the text read ahead.
+func (t *Tokenizer) join() {
+	t.last.text += t.lit
+	t.last.end = t.end
+}
+
+// Reset makes the next call of Scan return the last token again.
+func (t *Tokenizer) Reset() {
+	t.back = true
+}
+
+// Unwind cancels Reset.
 func (t *Tokenizer) Unwind() {
-	t.hop = 0
+	t.back = false
 }
 
 func (t *Tokenizer) ErrorCount() int {
@@ -56,17 +83,27 @@ func (t *Tokenizer) Err() error {
 	return t.err
 }
 
+// Offset returns the position of the first byte of the last token.
 func (t *Tokenizer) Offset() Pos {
-	return Pos(t.s.Offset)
+	return t.last.pos
 }
 
+// TokenText returns the source text of the last token.
 func (t *Tokenizer) TokenText() string {
-	return t.s.TokenText()
+	return t.last.text
 }
 
 func (t *Tokenizer) Scan() (tok Token, lit string) {
+	if t.back {
+		t.back = false
+		return t.last.tok, t.last.lit
+	}
 	r, s := t.next()
 	lit = strings.ToLower(s)
+	t.last = lastToken{text: s, pos: t.pos, end: t.end}
+	defer func() {
+		t.last.tok, t.last.lit = tok, lit
+	}()
 	switch r {
 	case scanner.EOF:
 		tok = EOF
@@ -82,9 +119,10 @@ func (t *Tokenizer) Scan() (tok Token, lit string) {
 		case '.':
 			tok = RANGE
 			lit = KeywordString(tok)
+			t.join()
 		default:
 			tok = PERIOD
-			t.Reset()
+			t.unread()
 		}
 	case '=':
 		nr, _ := t.next()
@@ -92,9 +130,10 @@ func (t *Tokenizer) Scan() (tok Token, lit string) {
 		case '=':
 			tok = LEQL
 			lit = KeywordString(tok)
+			t.join()
 		default:
 			tok = ASSIGN
-			t.Reset()
+			t.unread()
 		}
 	case '@':
 		tok = IDENT
@@ -128,9 +167,10 @@ func (t *Tokenizer) Scan() (tok Token, lit string) {
 		case '=':
 			tok = LNEQ
 			lit = KeywordString(tok)
+			t.join()
 		default:
 			tok = ILLEGAL
-			t.Reset()
+			t.unread()
 		}
 	case '>':
 		nr, _ := t.next()
@@ -138,9 +178,10 @@ func (t *Tokenizer) Scan() (tok Token, lit string) {
 		case '=':
 			tok = GEQ
 			lit = KeywordString(tok)
+			t.join()
 		default:
 			tok = GTR
-			t.Reset()
+			t.unread()
 		}
 	case '<':
 		nr, _ := t.next()
@@ -148,9 +189,10 @@ func (t *Tokenizer) Scan() (tok Token, lit string) {
 		case '=':
 			tok = LEQ
 			lit = KeywordString(tok)
+			t.join()
 		default:
 			tok = LSS
-			t.Reset()
+			t.unread()
 		}
 	case ':':
 		tok = COLON
@@ -191,6 +233,8 @@ func (t *Tokenizer) Scan() (tok Token, lit string) {
 			found = true
 			r, s = t.next()
 			lit = strings.ToLower(s)
+			t.last.text += " "
+			t.join()
 			notlit := "not " + lit
 			notkwd, exists := keywords[notlit]
 			if exists {
-- 
2.43.0


From 8d1129697b85b869d4efbe7224da00f393fc02d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:29 +0000
Subject: [PATCH 12/36] fix: reject unclosed parentheses and unknown operators
 inside them

---
 parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 1229ed9..2a4220a 100644
--- a/parser.go
+++ b/parser.go
@@ -333,10 +333,13 @@ func (s *parser) isSignPlus() bool {
 
 func (s *parser) parseParenExpr() (expr Expr, err error) {
 	lp := s.t.Offset()
-	expr, err = s.parseBinaryExpr(s.tok.Precedence())
+	expr, err = s.parseBinaryExpr(1)
 	if err != nil {
 		return nil, err
 	}
+	if !s.except(RPAREN) {
+		return nil, s.error()
+	}
 	rp := s.t.Offset()
 	s.next()
 	return &ParenExpr{Expr: expr, lpos: lp, rpos: rp}, nil
-- 
2.43.0


From a201095d18ad20ee1c271867fb1818c9cfd2d32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:51 +0000
Subject: [PATCH 13/36] fix: reject a sign in front of anything but a number

---
 parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 2a4220a..75e4286 100644
--- a/parser.go
+++ b/parser.go
@@ -266,6 +266,10 @@ func (s *parser) parseUnaryExpr() (expr Expr, err error) {
 			s.sign = ADD
 		}
 		s.next()
+		if !s.except(INT, FLOAT) {
+			s.err = fmt.Errorf("illegal expression")
+			return nil, s.error()
+		}
 	}
 
 	switch s.tok {
@@ -305,13 +309,13 @@ func (s *parser) parseUnaryExpr() (expr Expr, err error) {
 	case BOOLEAN:
 		expr, err = s.parseBooleanLit()
 	}
+	s.resetSign()
 	if err == nil {
 		switch s.tok {
 		case RANGE:
 			expr, err = s.parseRangeExpr(expr)
 		}
 	}
-	s.resetSign()
 	return
 }
 
-- 
2.43.0


From 2cd25fb22cce2ab632cfb71d7b1821721dd260ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:51 +0000
Subject: [PATCH 14/36] fix: reject negative pressure instead of dropping the
 sign

---
 primitive.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/primitive.go b/primitive.go
index ba9d923..bce2209 100644
--- a/primitive.go
+++ b/primitive.go
@@ -83,6 +83,10 @@ func (s *parser) parseAllTypes(v float64) (expr Expr, err error) {
 		expr = &PercentTyp{Val: v, lpos: s.lpos, rpos: s.rpos}
 		s.next()
 	case isPressureUnit(unit):
+		if s.isSignMinus() {
+			s.err = errNegativeValue
+			return nil, s.error()
+		}
 		u := unitFromString(s.lit)
 		s.rpos += litlen + u.size()
 		expr = &PressureTyp{Val: v, U: u, lpos: s.lpos, rpos: s.rpos}
-- 
2.43.0


From 2a0169777a37f6fd2aaaf3cc9e3ed037bb6354c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:18 +0000
Subject: [PATCH 15/36] fix: consume the wildcard token

---
 parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 75e4286..9880652 100644
--- a/parser.go
+++ b/parser.go
@@ -320,7 +320,9 @@ func (s *parser) parseUnaryExpr() (expr Expr, err error) {
 }
 
 func (s *parser) parseWildcardLit() (expr Expr, err error) {
-	return &WildcardTyp{lpos: s.t.Offset()}, nil
+	expr = &WildcardTyp{lpos: s.t.Offset()}
+	s.next()
+	return
 }
 
 func (s *parser) resetSign() {
-- 
2.43.0


From 3e4fbb958a95416f185e77d89ab42dadca6a6f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:19 +0000
Subject: [PATCH 16/36] fix: reject unclosed selector args

---
 composite.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/composite.go b/composite.go
index 208d046..85b5355 100644
--- a/composite.go
+++ b/composite.go
@@ -122,7 +122,7 @@ func (s *parser) parseSelectorExpr() (expr Expr, err error) {
 		var i int
 		for {
 			s.next()
-			if s.except(EOF, RBRACE) {
+			if s.except(RBRACE) {
 				break
 			}
 			if s.except(COMMA) {
-- 
2.43.0


From 93f120a35c92c0c40a806e130d8a678585e00e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:20 +0000
Subject: [PATCH 17/36] fix: keep the case of selector names

---
 composite.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/composite.go b/composite.go
index 85b5355..64ec370 100644
--- a/composite.go
+++ b/composite.go
@@ -98,7 +98,7 @@ func (s *parser) parseRangeExpr(low Expr) (expr Expr, err error) {
 }
 
 func (s *parser) parseSelectorExpr() (expr Expr, err error) {
-	selector := &Selector{Ident: s.lit, lpos: s.t.Offset()}
+	selector := &Selector{Ident: s.t.TokenText(), lpos: s.t.Offset()}
 
 	s.next()
 
-- 
2.43.0


From 18d7d78a627de59ece30b326276c2eac247f5f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:21 +0000
Subject: [PATCH 18/36] fix: reject references without a variable name

---
 primitive.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/primitive.go b/primitive.go
index bce2209..20daa26 100644
--- a/primitive.go
+++ b/primitive.go
@@ -7,6 +7,9 @@ import (
 
 func (s *parser) parseVarExpr() (expr Expr, err error) {
 	s.next()
+	if !s.except(SELECTOR) {
+		return nil, s.error()
+	}
 	expr = &Ref{ID: s.t.TokenText(), lpos: s.t.Offset()}
 	s.next()
 	return
-- 
2.43.0


From 5f9b10b93e4117d01e10a08dde243826ee88b1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:21 +0000
Subject: [PATCH 19/36] fix: reject nested ranges and missing array separators

---
 composite.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/composite.go b/composite.go
index 64ec370..67d8349 100644
--- a/composite.go
+++ b/composite.go
@@ -73,6 +73,9 @@ func (s *parser) parseArrayExpr() (expr Expr, err error) {
 		if s.except(RBRACK) {
 			break
 		}
+		if !s.except(COMMA, COLON) {
+			return nil, s.error()
+		}
 	}
 	arrayExpr.rpos = s.t.Offset()
 	s.next()
@@ -89,6 +92,9 @@ func (s *parser) parseRangeExpr(low Expr) (expr Expr, err error) {
 	if err != nil {
 		return
 	}
+	if _, nested := high.(*Range); nested {
+		return nil, s.error()
+	}
 	return &Range{
 		Low:  low,
 		High: high,
-- 
2.43.0


From 466323a435da06539537e0a16268d397838d4f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:01 +0000
Subject: [PATCH 20/36] fix: parse the mod operator after an integer

---
 primitive.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/primitive.go b/primitive.go
index 20daa26..b81cb9b 100644
--- a/primitive.go
+++ b/primitive.go
@@ -129,7 +129,7 @@ func (s *parser) parseAllTypes(v float64) (expr Expr, err error) {
 		s.next()
 	default:
 		var fr rune
-		if len(s.lit) > 0 {
+		if s.except(SELECTOR) {
 			fr = rune(s.lit[0])
 		}
 		switch fr {
-- 
2.43.0


From 748701c1bce2beacaa33745a68ba37daf3b24863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:02 +0000
Subject: [PATCH 21/36] fix: require the every and after words of repeat and
 reset

---
 parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 9880652..da89bc4 100644
--- a/parser.go
+++ b/parser.go
@@ -96,7 +96,7 @@ func (s *parser) parseRepeat(stmt *Trigger) (err error) {
 		return
 	}
 
-	if !s.except(SELECTOR) {
+	if !s.except(SELECTOR) || s.lit != "every" {
 		return s.error()
 	}
 	s.next()
@@ -168,6 +168,9 @@ func (s *parser) parseSet(stmt *Trigger) error {
 
 func (s *parser) parseReset(stmt *Trigger) (err error) {
 	s.next()
+	if !s.except(SELECTOR) || s.lit != "after" {
+		return s.error()
+	}
 	s.next()
 	var dur Expr
 	switch s.tok {
-- 
2.43.0


From 505bec1d272a97858de84054dfbedce32f6bd26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:53 +0000
Subject: [PATCH 22/36] fix: reject missing separators in calendar lists
 instead of dropping elements

---
 datetime.go | 44 ++++++++++++++++++++++++--------------------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/datetime.go b/datetime.go
index 1e49f50..5baec71 100644
--- a/datetime.go
+++ b/datetime.go
@@ -93,14 +93,15 @@ func (s *parser) parseDateExpr() (expr Expr, err error) {
 				arrayExpr = &ArrayTyp{Kind: DATE, List: make([]Expr, 0)}
 			}
 			arrayExpr.List = append(arrayExpr.List, date)
-		case RANGE, PERIOD:
-			if arrayExpr != nil {
+		case RANGE:
+			if arrayExpr != nil || rangeExpr != nil {
 				return nil, s.error()
 			}
-			if rangeExpr == nil {
-				rangeExpr = &Range{}
-			}
+			rangeExpr = &Range{}
 			rangeExpr.Low = date
+		case RBRACK:
+		default:
+			return nil, s.error()
 		}
 		if s.except(RBRACK) {
 			switch {
@@ -228,14 +229,15 @@ func (s *parser) parseTimeExpr() (expr Expr, err error) {
 				arrayExpr = &ArrayTyp{Kind: TIME, List: make([]Expr, 0)}
 			}
 			arrayExpr.List = append(arrayExpr.List, time_)
-		case RANGE, PERIOD:
-			if arrayExpr != nil {
+		case RANGE:
+			if arrayExpr != nil || rangeExpr != nil {
 				return nil, s.error()
 			}
-			if rangeExpr == nil {
-				rangeExpr = &Range{}
-			}
+			rangeExpr = &Range{}
 			rangeExpr.Low = time_
+		case RBRACK:
+		default:
+			return nil, s.error()
 		}
 		if s.except(RBRACK) {
 			switch {
@@ -314,14 +316,15 @@ func (s *parser) parseWeekdayExpr() (expr Expr, err error) {
 				arrayExpr = &ArrayTyp{Kind: WEEKDAY, List: make([]Expr, 0)}
 			}
 			arrayExpr.List = append(arrayExpr.List, wd)
-		case RANGE, PERIOD:
-			if arrayExpr != nil {
+		case RANGE:
+			if arrayExpr != nil || rangeExpr != nil {
 				return nil, s.error()
 			}
-			if rangeExpr == nil {
-				rangeExpr = &Range{}
-			}
+			rangeExpr = &Range{}
 			rangeExpr.Low = wd
+		case RBRACK:
+		default:
+			return nil, s.error()
 		}
 		if s.except(RBRACK) {
 			switch {
@@ -410,14 +413,15 @@ func (s *parser) parseMonthExpr() (expr Expr, err error) {
 				arrayExpr = &ArrayTyp{Kind: MONTH, List: make([]Expr, 0)}
 			}
 			arrayExpr.List = append(arrayExpr.List, wd)
-		case RANGE, PERIOD:
-			if arrayExpr != nil {
+		case RANGE:
+			if arrayExpr != nil || rangeExpr != nil {
 				return nil, s.error()
 			}
-			if rangeExpr == nil {
-				rangeExpr = &Range{}
-			}
+			rangeExpr = &Range{}
 			rangeExpr.Low = wd
+		case RBRACK:
+		default:
+			return nil, s.error()
 		}
 		if s.except(RBRACK) {
 			switch {
-- 
2.43.0


From c302095f39c91b364f97adc688b8dd293b34ead1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:51 +0000
Subject: [PATCH 23/36] fix: require the separators inside date and time
 literals

---
 datetime.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/datetime.go b/datetime.go
index 5baec71..4d25379 100644
--- a/datetime.go
+++ b/datetime.go
@@ -39,14 +39,13 @@ func (s *parser) parseDateExpr() (expr Expr, err error) {
 		var sep int
 		for i := 0; i <= 3; i++ {
 			s.next()
-			if s.except(SUB) {
+			if s.except(SUB) && i%2 == 0 {
 				sep++
 				continue
 			}
-			if !s.except(SUB, INT) || s.except(EOF) {
-				err = fmt.Errorf("invalid date format: expected date[YYYY-MM-DD]")
-			}
 			switch {
+			case !s.except(INT) || i%2 == 0:
+				err = fmt.Errorf("invalid date format: expected date[YYYY-MM-DD]")
 			case isMonth(i):
 				m, err = strconv.Atoi(s.lit)
 			case isDay(i):
@@ -160,18 +159,17 @@ func (s *parser) parseTimeExpr() (expr Expr, err error) {
 		var sep int
 		for i := 0; i <= 3; i++ {
 			s.next()
-			if s.except(COLON) {
+			if s.except(COLON) && i%2 == 0 {
 				sep++
 				continue
 			}
-			if s.except(RBRACK, COMMA, RANGE, SELECTOR) {
+			if s.except(RBRACK, COMMA, RANGE, SELECTOR) && i == 2 {
 				s.t.Reset()
 				break
 			}
-			if !s.except(COLON, INT) || s.except(EOF) {
-				err = fmt.Errorf("invalid time format: expected time[HH:MM:SS]")
-			}
 			switch {
+			case !s.except(INT) || i%2 == 0:
+				err = fmt.Errorf("invalid time format: expected time[HH:MM:SS]")
 			case isMinutes(i):
 				m, err = strconv.Atoi(s.lit)
 			case isSeconds(i):
-- 
2.43.0


From a7512b258e4b40673ab04c5625c8290d228a9197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:21 +0000
Subject: [PATCH 24/36] fix: reject malformed geometry coordinates

---
 geometry.go | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/geometry.go b/geometry.go
index d3e0733..afb6c8d 100644
--- a/geometry.go
+++ b/geometry.go
@@ -112,21 +112,35 @@ func (s *parser) parseGeometryExpr() (expr Expr, err error) {
 	var cc [][][2]float64
 	open := true
 	q := 1
+	n := 0        // numbers of the current position
+	sep := false  // comma after a closed group
+	var level int // nesting of the positions
+	switch geomtyp {
+	case GEOMETRY_LINE:
+		level = 1
+	case GEOMETRY_POLYGON:
+		level = 2
+	}
 	for {
 		s.next()
-		if s.except(EOF) {
-			break
-		}
 		if !s.except(LBRACK, SUB, COMMA, FLOAT, INT, RBRACK) {
-			break
+			return nil, s.error()
 		}
 		if s.except(LBRACK) {
+			if path == level || n > 0 || !open && !sep {
+				return nil, s.error()
+			}
+			sep = false
 			path++
 			q++
 			open = true
 			continue
 		}
 		if s.except(RBRACK) {
+			if open && (path != level || n != 2) || sep {
+				return nil, s.error()
+			}
+			n = 0
 			if open {
 				switch path {
 				case 0:
@@ -167,8 +181,13 @@ func (s *parser) parseGeometryExpr() (expr Expr, err error) {
 			continue
 		}
 		if s.except(COMMA) {
+			if open && n != 1 || pi == 1 || sep {
+				return nil, s.error()
+			}
 			if open {
 				pi = 1
+			} else {
+				sep = true
 			}
 			continue
 		}
@@ -177,6 +196,11 @@ func (s *parser) parseGeometryExpr() (expr Expr, err error) {
 			s.next()
 		}
 
+		if !open || n != int(pi) {
+			return nil, s.error()
+		}
+		n++
+
 		var val float64
 		switch s.tok {
 		case FLOAT:
-- 
2.43.0


From d13e777ff6943ee9b5d16ed578263ba01e794415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:46 +0000
Subject: [PATCH 25/36] fix: reject malformed geometry collections and
 distances

---
 geometry.go | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/geometry.go b/geometry.go
index afb6c8d..02dd52c 100644
--- a/geometry.go
+++ b/geometry.go
@@ -16,7 +16,7 @@ func (s *parser) parseGeometryMultiObject() (expr Expr, err error) {
 	}
 	for {
 		if !isGeometryToken(s.tok) {
-			break
+			return nil, s.error()
 		}
 		object, oer := s.parseGeometryExpr()
 		if oer != nil {
@@ -45,14 +45,12 @@ func (s *parser) parseGeometryMultiObject() (expr Expr, err error) {
 			s.next()
 			break
 		}
-		if s.except(COMMA) {
-			s.next()
+		if !s.except(COMMA) {
+			return nil, s.error()
 		}
+		s.next()
 	}
 	multiobj.rpos = s.t.Offset()
-	if len(multiobj.Val) == 0 {
-		return nil, s.error()
-	}
 	return multiobj, nil
 }
 
@@ -68,7 +66,7 @@ func (s *parser) parseGeometryCollectionExpr() (expr Expr, err error) {
 	s.next()
 	for {
 		if !isGeometryToken(s.tok) {
-			break
+			return nil, s.error()
 		}
 		var object Expr
 		var oer error
@@ -86,14 +84,12 @@ func (s *parser) parseGeometryCollectionExpr() (expr Expr, err error) {
 			s.next()
 			break
 		}
-		if s.except(COMMA) {
-			s.next()
+		if !s.except(COMMA) {
+			return nil, s.error()
 		}
+		s.next()
 	}
 	collection.rpos = s.t.Offset()
-	if len(collection.Objects) == 0 {
-		return nil, s.error()
-	}
 	return collection, nil
 }
 
-- 
2.43.0


From 5c915ffa080ff58d556d43ecc363ec149afc88cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:47 +0000
Subject: [PATCH 26/36] fix: walk geometries, honour the returned visitor and
 skip missing parts

---
 walk.go | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/walk.go b/walk.go
index bfbde08..0e02f58 100644
--- a/walk.go
+++ b/walk.go
@@ -5,7 +5,7 @@ type Visitor interface {
 }
 
 func Walk(v Visitor, expr Expr) {
-	if v.Visit(expr) == nil {
+	if v = v.Visit(expr); v == nil {
 		return
 	}
 	switch typ := expr.(type) {
@@ -36,10 +36,27 @@ func Walk(v Visitor, expr Expr) {
 				Walk(v, expr)
 			}
 		}
-		Walk(v, typ.When)
-		Walk(v, typ.RepeatCount)
-		Walk(v, typ.RepeatInterval)
-		Walk(v, typ.ResetAfter)
+		for _, expr := range []Expr{typ.When, typ.RepeatCount, typ.RepeatInterval, typ.ResetAfter} {
+			if expr != nil {
+				Walk(v, expr)
+			}
+		}
+	case *GeometryPointTyp:
+		if typ.Radius != nil {
+			Walk(v, typ.Radius)
+		}
+	case *GeometryLineTyp:
+		if typ.Margin != nil {
+			Walk(v, typ.Margin)
+		}
+	case *GeometryMultiObjectTyp:
+		for i := 0; i < len(typ.Val); i++ {
+			Walk(v, typ.Val[i])
+		}
+	case *GeometryCollectionTyp:
+		for i := 0; i < len(typ.Objects); i++ {
+			Walk(v, typ.Objects[i])
+		}
 	}
 	v.Visit(nil)
 }
-- 
2.43.0


From 17007bbeec71a7a2de8776f55e8eb57680e15671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:26 +0000
Subject: [PATCH 27/36] fix: treat polygons as geometries when checking types

---
 typecheck.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typecheck.go b/typecheck.go
index 128a260..9f50aba 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -446,7 +446,7 @@ func (tc *checker) isArray(in Expr, typ Token) (ok bool) {
 func (tc *checker) isGeometry(in Expr) (ok bool) {
 	switch typ := in.(type) {
 	case *GeometryCollectionTyp, *GeometryLineTyp, *GeometryPointTyp,
-		*GeometryMultiObjectTyp:
+		*GeometryPolygonTyp, *GeometryMultiObjectTyp:
 		ok = true
 	case *Ref:
 		assign, err := tc.trigger.findAssign(typ.ID)
@@ -455,7 +455,7 @@ func (tc *checker) isGeometry(in Expr) (ok bool) {
 		}
 		switch assign.Right.(type) {
 		case *GeometryCollectionTyp, *GeometryLineTyp, *GeometryPointTyp,
-			*GeometryMultiObjectTyp:
+			*GeometryPolygonTyp, *GeometryMultiObjectTyp:
 			ok = true
 		}
 	}
-- 
2.43.0


From db388e6b82b7971ef465cdf2e3d824bad1496272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:27 +0000
Subject: [PATCH 28/36] fix: type selectors declared as int arrays

---
 typecheck.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/typecheck.go b/typecheck.go
index 9f50aba..304372d 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -481,6 +481,9 @@ func (tc *checker) isInt(in Expr) (ok bool) {
 		if err != nil {
 			return
 		}
+		if array, isArray := selector.(*ArrayTyp); isArray {
+			selector = array.List[0]
+		}
 		switch selector.(type) {
 		case *IntTyp:
 			ok = true
-- 
2.43.0


From 5f641aa12286bdbb5914ade6e062de1562de83e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:27 +0000
Subject: [PATCH 29/36] fix: check both ends of ranges and ranges behind
 references

---
 typecheck.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/typecheck.go b/typecheck.go
index 304372d..5fcf699 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -387,17 +387,24 @@ func (tc *checker) isString(in Expr) (ok bool) {
 }
 
 func (tc *checker) isRange(in Expr, typ Token) (ok bool) {
+	if ref, isRef := in.(*Ref); isRef {
+		assign, err := tc.trigger.findAssign(ref.ID)
+		if err != nil {
+			return false
+		}
+		in = assign.Right
+	}
 	range_, ok := in.(*Range)
 	if !ok {
 		return
 	}
 	switch typ {
 	case INT:
-		return tc.isInt(range_.Low)
+		return tc.isInt(range_.Low) && tc.isNumber(range_.High)
 	case FLOAT:
-		return tc.isFloat(range_.Low)
+		return tc.isFloat(range_.Low) && tc.isNumber(range_.High)
 	case STRING:
-		return tc.isString(range_.Low)
+		return tc.isString(range_.Low) && tc.isString(range_.High)
 	}
 	return
 }
-- 
2.43.0


From 04ba7328dd3bd8ea93e4eb5b1a68a02717e430c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:08 +0000
Subject: [PATCH 30/36] fix: limit the nesting of expressions instead of
 overflowing the stack

---
 parser.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index da89bc4..160e82f 100644
--- a/parser.go
+++ b/parser.go
@@ -9,6 +9,11 @@ import (
 
 var errNegativeValue = errors.New("value cannot be negative")
 
+// maxDepth limits the nesting of expressions, the parser is recursive.
+const maxDepth = 1000
+
+var errTooDeep = errors.New("expression is nested too deep")
+
 func Parse(gql string) (Statement, error) {
 	r := strings.NewReader(gql)
 	t := NewTokenizer(r)
@@ -23,8 +28,10 @@ type parser struct {
 	lit  string
 	err  error
 	sign Token
-	lpos Pos
-	rpos Pos
+	// current nesting of expressions
+	depth int
+	lpos  Pos
+	rpos  Pos
 }
 
 func (s *parser) parseTriggerStmt() (stmt *Trigger, err error) {
@@ -259,6 +266,12 @@ func (s *parser) parseUnaryExpr() (expr Expr, err error) {
 		return nil, s.error()
 	}
 
+	if s.depth++; s.depth > maxDepth {
+		s.err = errTooDeep
+		return nil, s.error()
+	}
+	defer func() { s.depth-- }()
+
 	s.next()
 
 	if s.except(SUB, ADD) {
-- 
2.43.0


From 3899e7dce69533e4f58d40786ce4b2a42fb38d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:09 +0000
Subject: [PATCH 31/36] fix: end identifiers at EOF whatever IsIdentRune
 accepts

---
 scanner/scanner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index 1fe49bc..a43ca09 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -332,7 +332,7 @@ func (s *Scanner) errorf(format string, args ...any) {
 
 func (s *Scanner) isIdentRune(ch rune, i int) bool {
 	if s.IsIdentRune != nil {
-		return s.IsIdentRune(ch, i)
+		return ch != EOF && s.IsIdentRune(ch, i)
 	}
 	return ch == '_' || unicode.IsLetter(ch) || unicode.IsDigit(ch) && i > 0
 }
-- 
2.43.0


From 5257c2cfea85abfb4118016a2189fe7b6e662bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:10 +0000
Subject: [PATCH 32/36] fix: scan a dot in front of a digit as a dot

---
 scanner/scanner.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index a43ca09..b8399e4 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -576,10 +576,8 @@ redo:
 			}
 			ch = s.next()
 		case '.':
+			// numbers don't start with a dot: 1 ..5 is a range
 			ch = s.next()
-			if isDecimal(ch) && s.Mode&ScanFloats != 0 {
-				tok, ch = s.scanNumber(ch, true)
-			}
 		case '/':
 			ch = s.next()
 			if (ch == '/' || ch == '*') && s.Mode&ScanComments != 0 {
-- 
2.43.0


From 826d4aa2723d4074e3a98d9c53f42c8422cbaacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:29 +0000
Subject: [PATCH 33/36] fix: node positions cover exactly the text of the node

---
 ast.go       | 17 +++--------------
 composite.go | 11 +++++------
 datetime.go  | 22 +++++++++++++++-------
 geometry.go  | 17 +++++++++--------
 parser.go    | 14 +++++++++++---
 primitive.go | 49 ++++++++++++++++++++-----------------------------
 units.go     | 21 ---------------------
 7 files changed, 63 insertions(+), 88 deletions(-)

diff --git a/ast.go b/ast.go
index 519f52b..19f92f4 100644
--- a/ast.go
+++ b/ast.go
@@ -257,17 +257,6 @@ type Selector struct {
 	rpos     Pos
 }
 
-func (e *Selector) calculateEnd(p Pos) {
-	if len(e.Props) > 0 {
-		e.rpos = e.Props[len(e.Props)-1].End()
-	} else {
-		if p > 0 {
-			p -= 1
-		}
-		e.rpos = p
-	}
-}
-
 func (e *Selector) needExpand() bool {
 	var n int
 	for k := range e.Args {
@@ -323,13 +312,13 @@ func (e *WeekdayTyp) isExpr()             {}
 func (e *MonthTyp) isExpr()               {}
 
 func (e *BinaryExpr) Pos() Pos             { return e.Left.Pos() }
-func (e *BinaryExpr) End() Pos             { return e.Right.Pos() }
+func (e *BinaryExpr) End() Pos             { return e.Right.End() }
 func (e *ParenExpr) Pos() Pos              { return e.lpos }
-func (e *ParenExpr) End() Pos              { return e.Expr.End() }
+func (e *ParenExpr) End() Pos              { return e.rpos }
 func (e *Selector) Pos() Pos               { return e.lpos }
 func (e *Selector) End() Pos               { return e.rpos }
 func (e *WildcardTyp) Pos() Pos            { return e.lpos }
-func (e *WildcardTyp) End() Pos            { return e.lpos + 1 }
+func (e *WildcardTyp) End() Pos            { return e.lpos }
 func (e *BooleanTyp) Pos() Pos             { return e.lpos }
 func (e *BooleanTyp) End() Pos             { return e.rpos }
 func (e *SpeedTyp) Pos() Pos               { return e.lpos }
diff --git a/composite.go b/composite.go
index 67d8349..f4c2835 100644
--- a/composite.go
+++ b/composite.go
@@ -87,7 +87,6 @@ func (s *parser) parseRangeExpr(low Expr) (expr Expr, err error) {
 	if isRangeExpr {
 		return nil, s.error()
 	}
-	startPos := s.t.Offset()
 	high, err := s.parseUnaryExpr()
 	if err != nil {
 		return
@@ -98,8 +97,8 @@ func (s *parser) parseRangeExpr(low Expr) (expr Expr, err error) {
 	return &Range{
 		Low:  low,
 		High: high,
-		lpos: startPos,
-		rpos: s.t.Offset(),
+		lpos: low.Pos(),
+		rpos: high.End(),
 	}, nil
 }
 
@@ -110,7 +109,7 @@ func (s *parser) parseSelectorExpr() (expr Expr, err error) {
 
 	if !s.except(LBRACE, COLON) {
 		selector.Wildcard = true
-		selector.calculateEnd(s.t.Offset())
+		selector.rpos = s.rpos
 		return selector, nil
 	}
 
@@ -120,7 +119,7 @@ func (s *parser) parseSelectorExpr() (expr Expr, err error) {
 			return nil, err
 		}
 		selector.Wildcard = true
-		selector.calculateEnd(s.t.Offset())
+		selector.rpos = s.rpos
 		return selector, nil
 	}
 
@@ -160,7 +159,7 @@ func (s *parser) parseSelectorExpr() (expr Expr, err error) {
 			return nil, err
 		}
 	}
-	selector.calculateEnd(s.t.Offset())
+	selector.rpos = s.rpos
 	return selector, nil
 }
 
diff --git a/datetime.go b/datetime.go
index 4d25379..8005523 100644
--- a/datetime.go
+++ b/datetime.go
@@ -31,6 +31,7 @@ func (s *parser) parseDateExpr() (expr Expr, err error) {
 		if !s.except(INT, SUB, COMMA, RANGE) {
 			return nil, s.error()
 		}
+		pos := s.t.Offset()
 		y, err = strconv.Atoi(s.lit)
 		if err != nil {
 			s.err = err
@@ -80,8 +81,8 @@ func (s *parser) parseDateExpr() (expr Expr, err error) {
 			Year:  y,
 			Month: m,
 			Day:   d,
-			lpos:  lpos,
-			rpos:  s.t.Offset(),
+			lpos:  pos,
+			rpos:  s.rpos,
 		}
 		switch s.tok {
 		case COMMA:
@@ -105,6 +106,7 @@ func (s *parser) parseDateExpr() (expr Expr, err error) {
 		if s.except(RBRACK) {
 			switch {
 			default:
+				date.lpos, date.rpos = lpos, s.t.Offset()
 				s.next()
 				return date, nil
 			case isArrayTyp():
@@ -151,6 +153,7 @@ func (s *parser) parseTimeExpr() (expr Expr, err error) {
 		if !s.except(INT, COLON, COMMA, RANGE) {
 			return nil, s.error()
 		}
+		pos := s.t.Offset()
 		h, err = strconv.Atoi(s.lit)
 		if err != nil {
 			s.err = err
@@ -204,8 +207,8 @@ func (s *parser) parseTimeExpr() (expr Expr, err error) {
 			Hours:   h,
 			Minutes: m,
 			Seconds: c,
-			lpos:    lpos,
-			rpos:    s.t.Offset(),
+			lpos:    pos,
+			rpos:    s.rpos,
 		}
 
 		if s.except(SELECTOR) {
@@ -214,8 +217,8 @@ func (s *parser) parseTimeExpr() (expr Expr, err error) {
 				return nil, s.error()
 			}
 			time_.U = unitFromString(s.lit)
-			time_.rpos = s.t.Offset() + time_.U.size()
 			s.next()
+			time_.rpos = s.rpos
 		}
 
 		switch s.tok {
@@ -240,6 +243,7 @@ func (s *parser) parseTimeExpr() (expr Expr, err error) {
 		if s.except(RBRACK) {
 			switch {
 			default:
+				time_.lpos, time_.rpos = lpos, s.t.Offset()
 				s.next()
 				return time_, nil
 			case isArrayTyp():
@@ -303,8 +307,9 @@ func (s *parser) parseWeekdayExpr() (expr Expr, err error) {
 		case "sat":
 			weekday = 6
 		}
+		pos := s.t.Offset()
 		s.next()
-		wd := &WeekdayTyp{Val: weekday, lpos: lpos, rpos: s.t.Offset()}
+		wd := &WeekdayTyp{Val: weekday, lpos: pos, rpos: s.rpos}
 		switch s.tok {
 		case COMMA:
 			if rangeExpr != nil {
@@ -327,6 +332,7 @@ func (s *parser) parseWeekdayExpr() (expr Expr, err error) {
 		if s.except(RBRACK) {
 			switch {
 			default:
+				wd.lpos, wd.rpos = lpos, s.t.Offset()
 				s.next()
 				return wd, nil
 			case isArrayTyp():
@@ -400,8 +406,9 @@ func (s *parser) parseMonthExpr() (expr Expr, err error) {
 		case "dec":
 			month = 12
 		}
+		pos := s.t.Offset()
 		s.next()
-		wd := &MonthTyp{Val: month, lpos: lpos, rpos: s.t.Offset()}
+		wd := &MonthTyp{Val: month, lpos: pos, rpos: s.rpos}
 		switch s.tok {
 		case COMMA:
 			if rangeExpr != nil {
@@ -424,6 +431,7 @@ func (s *parser) parseMonthExpr() (expr Expr, err error) {
 		if s.except(RBRACK) {
 			switch {
 			default:
+				wd.lpos, wd.rpos = lpos, s.t.Offset()
 				s.next()
 				return wd, nil
 			case isArrayTyp():
diff --git a/geometry.go b/geometry.go
index 02dd52c..5f6cf5d 100644
--- a/geometry.go
+++ b/geometry.go
@@ -4,6 +4,7 @@ import "strconv"
 
 func (s *parser) parseGeometryMultiObject() (expr Expr, err error) {
 	geotyp := s.tok
+	lpos := s.t.Offset()
 	s.next()
 	if !s.except(LBRACK) {
 		return nil, s.error()
@@ -12,7 +13,7 @@ func (s *parser) parseGeometryMultiObject() (expr Expr, err error) {
 	multiobj := &GeometryMultiObjectTyp{
 		Kind: geotyp,
 		Val:  make([]Expr, 0),
-		lpos: s.t.Offset(),
+		lpos: lpos,
 	}
 	for {
 		if !isGeometryToken(s.tok) {
@@ -50,7 +51,7 @@ func (s *parser) parseGeometryMultiObject() (expr Expr, err error) {
 		}
 		s.next()
 	}
-	multiobj.rpos = s.t.Offset()
+	multiobj.rpos = s.rpos
 	return multiobj, nil
 }
 
@@ -89,7 +90,7 @@ func (s *parser) parseGeometryCollectionExpr() (expr Expr, err error) {
 		}
 		s.next()
 	}
-	collection.rpos = s.t.Offset()
+	collection.rpos = s.rpos
 	return collection, nil
 }
 
@@ -231,7 +232,7 @@ func (s *parser) parseGeometryExpr() (expr Expr, err error) {
 	}
 	switch geomtyp {
 	case GEOMETRY_POINT:
-		point := &GeometryPointTyp{Val: aa, lpos: sp, rpos: s.t.Offset() - 1}
+		point := &GeometryPointTyp{Val: aa, lpos: sp, rpos: s.rpos}
 		if !s.except(COLON) {
 			return point, nil
 		}
@@ -241,10 +242,10 @@ func (s *parser) parseGeometryExpr() (expr Expr, err error) {
 			return nil, err
 		}
 		point.Radius = radius
-		point.rpos = s.t.Offset()
+		point.rpos = s.rpos
 		return point, nil
 	case GEOMETRY_LINE:
-		line := &GeometryLineTyp{Val: bb, lpos: sp, rpos: s.t.Offset() - 1}
+		line := &GeometryLineTyp{Val: bb, lpos: sp, rpos: s.rpos}
 		if !s.except(COLON) {
 			return line, nil
 		}
@@ -254,10 +255,10 @@ func (s *parser) parseGeometryExpr() (expr Expr, err error) {
 			return nil, err
 		}
 		line.Margin = margin
-		line.rpos = s.t.Offset()
+		line.rpos = s.rpos
 		return line, nil
 	case GEOMETRY_POLYGON:
-		return &GeometryPolygonTyp{Val: cc, lpos: sp, rpos: s.t.Offset() - 1}, nil
+		return &GeometryPolygonTyp{Val: cc, lpos: sp, rpos: s.rpos}, nil
 	}
 	err = s.error()
 	return
diff --git a/parser.go b/parser.go
index 160e82f..2385561 100644
--- a/parser.go
+++ b/parser.go
@@ -31,7 +31,10 @@ type parser struct {
 	// current nesting of expressions
 	depth int
 	lpos  Pos
-	rpos  Pos
+	// position of the last byte before the current token
+	rpos Pos
+	// position of the sign
+	spos Pos
 }
 
 func (s *parser) parseTriggerStmt() (stmt *Trigger, err error) {
@@ -39,7 +42,6 @@ func (s *parser) parseTriggerStmt() (stmt *Trigger, err error) {
 		return nil, s.error()
 	}
 	stmt = new(Trigger)
-	stmt.lpos = s.t.Offset()
 	if s.except(SET) {
 		if err = s.parseSet(stmt); err != nil {
 			return nil, err
@@ -64,7 +66,7 @@ func (s *parser) parseTriggerStmt() (stmt *Trigger, err error) {
 			return nil, err
 		}
 	}
-	stmt.rpos = s.t.Offset()
+	stmt.rpos = s.rpos
 	return stmt, nil
 }
 
@@ -198,6 +200,9 @@ func (s *parser) parseReset(stmt *Trigger) (err error) {
 }
 
 func (s *parser) next() {
+	if !s.t.back {
+		s.rpos = s.t.last.end - 1
+	}
 	s.tok, s.lit = s.t.Scan()
 }
 
@@ -205,6 +210,7 @@ func (s *parser) parse0() (stmt Statement, err error) {
 	s.next()
 	switch s.tok {
 	case TRIGGER, WHEN:
+		lpos := s.t.Offset()
 		if s.except(TRIGGER) {
 			s.next()
 		}
@@ -219,6 +225,7 @@ func (s *parser) parse0() (stmt Statement, err error) {
 		if !s.except(EOF) {
 			return nil, s.error()
 		}
+		trigger.lpos = lpos
 		return trigger, nil
 	default:
 		err = s.error()
@@ -275,6 +282,7 @@ func (s *parser) parseUnaryExpr() (expr Expr, err error) {
 	s.next()
 
 	if s.except(SUB, ADD) {
+		s.spos = s.t.Offset()
 		switch s.tok {
 		case SUB:
 			s.sign = SUB
diff --git a/primitive.go b/primitive.go
index b81cb9b..86e44c8 100644
--- a/primitive.go
+++ b/primitive.go
@@ -6,13 +6,15 @@ import (
 )
 
 func (s *parser) parseVarExpr() (expr Expr, err error) {
+	lpos := s.t.Offset()
 	s.next()
 	if !s.except(SELECTOR) {
 		return nil, s.error()
 	}
-	expr = &Ref{ID: s.t.TokenText(), lpos: s.t.Offset()}
+	ref := &Ref{ID: s.t.TokenText(), lpos: lpos}
 	s.next()
-	return
+	ref.rpos = s.rpos
+	return ref, nil
 }
 
 func (s *parser) parseStringLit() (expr Expr, err error) {
@@ -28,6 +30,9 @@ func (s *parser) parseStringLit() (expr Expr, err error) {
 
 func (s *parser) parseFloatTypes() (expr Expr, err error) {
 	s.lpos = s.t.Offset()
+	if s.isSignPlus() || s.isSignMinus() {
+		s.lpos = s.spos
+	}
 	val, err := strconv.ParseFloat(s.lit, 64)
 	if err != nil {
 		return nil, s.error()
@@ -40,16 +45,16 @@ func (s *parser) parseFloatTypes() (expr Expr, err error) {
 		if s.isSignMinus() {
 			val = -val
 		}
-		if s.isSignPlus() || s.isSignMinus() {
-			s.lpos -= 1
-		}
-		expr = &FloatTyp{Val: val, lpos: s.lpos, rpos: s.t.Offset() - 1}
+		expr = &FloatTyp{Val: val, lpos: s.lpos, rpos: s.rpos}
 	}
 	return
 }
 
 func (s *parser) parseIntTypes() (expr Expr, err error) {
 	s.lpos = s.t.Offset()
+	if s.isSignPlus() || s.isSignMinus() {
+		s.lpos = s.spos
+	}
 	intval, err := strconv.Atoi(s.lit)
 	if err != nil {
 		return nil, s.error()
@@ -62,56 +67,47 @@ func (s *parser) parseIntTypes() (expr Expr, err error) {
 		if s.isSignMinus() {
 			intval = -intval
 		}
-		if s.isSignPlus() || s.isSignMinus() {
-			s.lpos -= 1
-		}
-		expr = &IntTyp{Val: intval, lpos: s.lpos, rpos: s.t.Offset() - 1}
+		expr = &IntTyp{Val: intval, lpos: s.lpos, rpos: s.rpos}
 	}
 	return
 }
 
 func (s *parser) parseAllTypes(v float64) (expr Expr, err error) {
 	plit := s.lit
-	s.rpos = s.t.Offset() - 1
 	s.next()
 	unit := s.t.TokenText()
-	litlen := Pos(len(plit))
 	switch {
 	case isPercentUnit(unit):
 		if s.isSignMinus() {
 			s.err = errNegativeValue
 			return nil, s.error()
 		}
-		s.rpos += litlen + 1
-		expr = &PercentTyp{Val: v, lpos: s.lpos, rpos: s.rpos}
 		s.next()
+		expr = &PercentTyp{Val: v, lpos: s.lpos, rpos: s.rpos}
 	case isPressureUnit(unit):
 		if s.isSignMinus() {
 			s.err = errNegativeValue
 			return nil, s.error()
 		}
 		u := unitFromString(s.lit)
-		s.rpos += litlen + u.size()
-		expr = &PressureTyp{Val: v, U: u, lpos: s.lpos, rpos: s.rpos}
 		s.next()
+		expr = &PressureTyp{Val: v, U: u, lpos: s.lpos, rpos: s.rpos}
 	case isDistanceUnit(unit):
 		if s.isSignMinus() {
 			s.err = errNegativeValue
 			return nil, s.error()
 		}
 		u := unitFromString(unit)
-		s.rpos += litlen + u.size()
-		expr = &DistanceTyp{Val: v, U: u, lpos: s.lpos, rpos: s.rpos}
 		s.next()
+		expr = &DistanceTyp{Val: v, U: u, lpos: s.lpos, rpos: s.rpos}
 	case isSpeedUnit(unit):
 		if s.isSignMinus() {
 			s.err = errNegativeValue
 			return nil, s.error()
 		}
 		u := unitFromString(s.lit)
-		s.rpos += litlen + u.size()
-		expr = &SpeedTyp{Val: v, U: u, lpos: s.lpos, rpos: s.rpos}
 		s.next()
+		expr = &SpeedTyp{Val: v, U: u, lpos: s.lpos, rpos: s.rpos}
 	case isTemperatureUnit(unit):
 		var ts Sign
 		if s.isSignMinus() {
@@ -120,13 +116,9 @@ func (s *parser) parseAllTypes(v float64) (expr Expr, err error) {
 		if s.isSignPlus() {
 			ts = Plus
 		}
-		if s.isSignPlus() || s.isSignMinus() {
-			s.lpos -= 1
-		}
 		u := unitFromString(s.lit)
-		s.rpos += litlen + u.size()
-		expr = &TemperatureTyp{Val: v, U: u, Vec: ts, lpos: s.lpos, rpos: s.rpos}
 		s.next()
+		expr = &TemperatureTyp{Val: v, U: u, Vec: ts, lpos: s.lpos, rpos: s.rpos}
 	default:
 		var fr rune
 		if s.except(SELECTOR) {
@@ -142,9 +134,8 @@ func (s *parser) parseAllTypes(v float64) (expr Expr, err error) {
 			if er != nil {
 				return nil, s.error()
 			}
-			s.rpos = s.lpos + Pos(len(plit+s.lit)-1)
-			expr = &DurationTyp{Val: dur, lpos: s.lpos, rpos: s.rpos}
 			s.next()
+			expr = &DurationTyp{Val: dur, lpos: s.lpos, rpos: s.rpos}
 		}
 	}
 	return
@@ -181,9 +172,9 @@ func (s *parser) parseBooleanLit() (expr Expr, err error) {
 	default:
 		return nil, s.error()
 	case "true", "up":
-		expr = &BooleanTyp{Val: true, lpos: s.t.Offset()}
+		expr = &BooleanTyp{Val: true, lpos: s.t.Offset(), rpos: s.t.last.end - 1}
 	case "false", "down":
-		expr = &BooleanTyp{Val: false, lpos: s.t.Offset()}
+		expr = &BooleanTyp{Val: false, lpos: s.t.Offset(), rpos: s.t.last.end - 1}
 	}
 	s.next()
 	return
diff --git a/units.go b/units.go
index 4a193b5..6828d48 100644
--- a/units.go
+++ b/units.go
@@ -25,27 +25,6 @@ type (
 	Sign uint8
 )
 
-var unitSizes = map[Unit]Pos{
-	Kph:        3,
-	Mph:        3,
-	Celsius:    1,
-	Fahrenheit: 1,
-	Kilometer:  2,
-	Meter:      1,
-	Bar:        3,
-	Psi:        3,
-	AM:         2,
-	PM:         2,
-}
-
-func (u Unit) size() Pos {
-	p, ok := unitSizes[u]
-	if !ok {
-		return 0
-	}
-	return p
-}
-
 func (u Unit) String() (s string) {
 	switch u {
 	default:
-- 
2.43.0


From c35f3333c74a7384aae841e7df250ec7dd673aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:02 +0000
Subject: [PATCH 34/36] fix: reject a geometry with a colon but no distance

---
 primitive.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/primitive.go b/primitive.go
index 86e44c8..c376906 100644
--- a/primitive.go
+++ b/primitive.go
@@ -145,6 +145,8 @@ func (s *parser) parseDistance() (dist *DistanceTyp, err error) {
 	s.next()
 	var ok bool
 	switch s.tok {
+	default:
+		return nil, s.error()
 	case INT:
 		re, err := s.parseIntTypes()
 		if err != nil {
-- 
2.43.0


From 5e9e61933f0b19e39492a4190ba3685204bcb302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:13 +0000
Subject: [PATCH 35/36] fix: keep a division by a wildcard apart from a comment
 in Format

---
 format.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/format.go b/format.go
index c160b2a..082be58 100644
--- a/format.go
+++ b/format.go
@@ -387,8 +387,10 @@ func (e *BinaryExpr) format(w io.StringWriter, padding string, inline bool) {
 	switch e.Op {
 	case AND, OR:
 		nl = true
-	case ADD, SUB, MUL, QUO:
+	case ADD, SUB, MUL:
 		nospace = true
+	case QUO:
+		nospace = !startsWithWildcard(e.Right) // "/*" starts a comment
 	}
 	if !nospace {
 		checkError(w.WriteString(" "))
@@ -403,6 +405,14 @@ func (e *BinaryExpr) format(w io.StringWriter, padding string, inline bool) {
 	e.Right.format(w, padding, inline)
 }
 
+func startsWithWildcard(e Expr) bool {
+	if r, ok := e.(*Range); ok {
+		e = r.Low
+	}
+	_, ok := e.(*WildcardTyp)
+	return ok
+}
+
 func (e *ParenExpr) format(w io.StringWriter, padding string, inline bool) {
 	expand := true
 	switch node := e.Expr.(type) {
-- 
2.43.0


From a35a580413b41cac2e517924f01d03f13907b1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:42 +0000
Subject: [PATCH 36/36] fix: read and check long lists of variables in linear
 time

SetVar and findAssign search through all variables, once per variable
and once per reference: a document of 1 MB took half a minute.
---
 ast.go       |  6 +++++-
 parser.go    |  8 ++++++--
 typecheck.go | 32 +++++++++++++++++++++++++-------
 3 files changed, 36 insertions(+), 10 deletions(-)

diff --git a/ast.go b/ast.go
index 19f92f4..056a012 100644
--- a/ast.go
+++ b/ast.go
@@ -33,12 +33,16 @@ type Trigger struct {
 
 func (t *Trigger) SetVar(v *Assign) error {
 	if t.isAssigned(v.Left.Val) {
-		return fmt.Errorf("variable %s already assigned", v.Left.Val)
+		return errAssigned(v.Left.Val)
 	}
 	t.Vars = append(t.Vars, v)
 	return nil
 }
 
+func errAssigned(varname string) error {
+	return fmt.Errorf("variable %s already assigned", varname)
+}
+
 func (t *Trigger) isAssigned(varname string) bool {
 	for i := 0; i < len(t.Vars); i++ {
 		if t.Vars[i].Left.Val == varname {
diff --git a/parser.go b/parser.go
index 2385561..2833377 100644
--- a/parser.go
+++ b/parser.go
@@ -127,6 +127,8 @@ func (s *parser) parseRepeat(stmt *Trigger) (err error) {
 }
 
 func (s *parser) parseSet(stmt *Trigger) error {
+	// names of the variables, a search in stmt.Vars is too slow for long lists
+	names := make(map[string]struct{})
 	s.next()
 	for {
 		if s.except(WHEN) {
@@ -167,10 +169,12 @@ func (s *parser) parseSet(stmt *Trigger) error {
 			TokPos: tokPos,
 			Right:  expr,
 		}
-		if er := stmt.SetVar(va); er != nil {
-			s.err = er
+		if _, found := names[ident.Val]; found {
+			s.err = errAssigned(ident.Val)
 			return s.error()
 		}
+		names[ident.Val] = struct{}{}
+		stmt.Vars = append(stmt.Vars, va)
 	}
 	return nil
 }
diff --git a/typecheck.go b/typecheck.go
index 5fcf699..29a8180 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -188,6 +188,24 @@ func CheckType(stmt Statement, dict Dictionary) (err error) {
 type checker struct {
 	trigger *Trigger
 	dict    Dictionary
+	// variables of the trigger by name
+	vars map[string]*Assign
+}
+
+func (tc *checker) findAssign(varname string) (*Assign, error) {
+	if tc.vars == nil {
+		tc.vars = make(map[string]*Assign, len(tc.trigger.Vars))
+		for _, v := range tc.trigger.Vars {
+			if _, found := tc.vars[v.Left.Val]; !found {
+				tc.vars[v.Left.Val] = v
+			}
+		}
+	}
+	assign, found := tc.vars[varname]
+	if !found {
+		return nil, fmt.Errorf("variable %s not found", varname)
+	}
+	return assign, nil
 }
 
 func (tc *checker) check() error {
@@ -333,7 +351,7 @@ func (tc *checker) isBoolean(expr Expr) (ok bool) {
 	case *BooleanTyp:
 		ok = true
 	case *Ref:
-		assign, err := tc.trigger.findAssign(typ.ID)
+		assign, err := tc.findAssign(typ.ID)
 		if err != nil {
 			return
 		}
@@ -360,7 +378,7 @@ func (tc *checker) isString(in Expr) (ok bool) {
 	case *StringTyp:
 		ok = true
 	case *Ref:
-		assign, err := tc.trigger.findAssign(typ.ID)
+		assign, err := tc.findAssign(typ.ID)
 		if err != nil {
 			return
 		}
@@ -388,7 +406,7 @@ func (tc *checker) isString(in Expr) (ok bool) {
 
 func (tc *checker) isRange(in Expr, typ Token) (ok bool) {
 	if ref, isRef := in.(*Ref); isRef {
-		assign, err := tc.trigger.findAssign(ref.ID)
+		assign, err := tc.findAssign(ref.ID)
 		if err != nil {
 			return false
 		}
@@ -422,7 +440,7 @@ func (tc *checker) isArray(in Expr, typ Token) (ok bool) {
 		}
 		item = t.List[0]
 	case *Ref:
-		assign, err := tc.trigger.findAssign(t.ID)
+		assign, err := tc.findAssign(t.ID)
 		if err != nil {
 			return
 		}
@@ -456,7 +474,7 @@ func (tc *checker) isGeometry(in Expr) (ok bool) {
 		*GeometryPolygonTyp, *GeometryMultiObjectTyp:
 		ok = true
 	case *Ref:
-		assign, err := tc.trigger.findAssign(typ.ID)
+		assign, err := tc.findAssign(typ.ID)
 		if err != nil {
 			return
 		}
@@ -474,7 +492,7 @@ func (tc *checker) isInt(in Expr) (ok bool) {
 	case *IntTyp:
 		ok = true
 	case *Ref:
-		assign, err := tc.trigger.findAssign(typ.ID)
+		assign, err := tc.findAssign(typ.ID)
 		if err != nil {
 			return
 		}
@@ -509,7 +527,7 @@ func (tc *checker) isFloat(in Expr) (ok bool) {
 		*TemperatureTyp:
 		ok = true
 	case *Ref:
-		assign, err := tc.trigger.findAssign(typ.ID)
+		assign, err := tc.findAssign(typ.ID)
 		if err != nil {
 			return
 		}
-- 
2.43.0

