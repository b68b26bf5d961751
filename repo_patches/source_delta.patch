From 46abd3ea898aeaef5dbd8a71bbedbec322c79c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:49:40 +0000
Subject: [PATCH 01/30] fix: report the first error on a message tape

MessageTape.Error is documented to make the query unusable, but the tape only
recorded an error when one had already been recorded, so none ever was.
---
 parser/visitors.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/visitors.go b/parser/visitors.go
index 4128a75..e8ed4a2 100644
--- a/parser/visitors.go
+++ b/parser/visitors.go
@@ -166,7 +166,7 @@ func (mt *MessageTape) ErrorAt(where ast.Pos, msg string, v ...any) {
 
 func (mt *MessageTape) addMsg(msgType MessageType, where ast.Pos, msg string, v ...any) {
 	pmsg := newMessage(msgType, where, fmt.Sprintf(msg, v...))
-	if msgType == MsgError && mt.firstErr != nil {
+	if msgType == MsgError && mt.firstErr == nil {
 		mt.firstErr = pmsg
 	}
 	mt.messages = append(mt.messages, newMessage(msgType, where, fmt.Sprintf(msg, v...)))
-- 
2.43.0


From 659d7af843388bcf6f7f74159f41f15eb0aa9aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:49:40 +0000
Subject: [PATCH 02/30] fix: treat a negative sampler depth as no limit

New documents a negative maxDepth as unlimited, but it suppressed every key.
---
 sampler/sampler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampler/sampler.go b/sampler/sampler.go
index 2f6e8a8..a3a66fb 100644
--- a/sampler/sampler.go
+++ b/sampler/sampler.go
@@ -73,7 +73,7 @@ func (s *Sampler) Sample(sample []byte) error {
 }
 
 func (s *Sampler) sample(current []byte, path *bytes.Buffer, depth int, valType jsonparser.ValueType) error {
-	if depth > s.maxDepth {
+	if s.maxDepth >= 0 && depth > s.maxDepth {
 		return nil
 	}
 	switch valType {
-- 
2.43.0


From 38b2acc4702802a75bfcc53888c0d84b6131db03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:49:41 +0000
Subject: [PATCH 03/30] fix: return an error for an empty sample instead of
 panicking

---
 sampler/sampler.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sampler/sampler.go b/sampler/sampler.go
index a3a66fb..83ce845 100644
--- a/sampler/sampler.go
+++ b/sampler/sampler.go
@@ -38,6 +38,9 @@ func New(maxDepth int) *Sampler {
 }
 
 func (s *Sampler) Sample(sample []byte) error {
+	if len(sample) == 0 {
+		return fmt.Errorf("sample is empty")
+	}
 	var rootObj jsonparser.ValueType
 	sampleLen := len(sample)
 	// prep to get 100 characters or so to print if it looks weird, so that
-- 
2.43.0


From f6112c6af2ed06441ce255c1175f88c0800df7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:49:41 +0000
Subject: [PATCH 04/30] fix: do not panic on scalars in a root array sample

---
 sampler/sampler.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sampler/sampler.go b/sampler/sampler.go
index 83ce845..d8360a6 100644
--- a/sampler/sampler.go
+++ b/sampler/sampler.go
@@ -118,6 +118,10 @@ func (s *Sampler) sample(current []byte, path *bytes.Buffer, depth int, valType
 	case jsonparser.Unknown:
 		return fmt.Errorf("unkown JSON value type: %v", string(current))
 	default:
+		// a scalar that is a direct member of a root array has no key path
+		if path.Len() == 0 {
+			return nil
+		}
 		// TODO Track types found for UI hinting
 		s.keys[path.String()[1:]]++
 	}
-- 
2.43.0


From 42d23269cc98f409f1bfaa10e7040fb680cf744d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:49:41 +0000
Subject: [PATCH 05/30] fix: keep the sampler usable after a bad sample

A sample that could not be read dropped all keys seen so far while keeping the
document count, and made the next good sample panic on a nil map. Keys of a
sample are now added only once all of it has been read.
---
 sampler/sampler.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/sampler/sampler.go b/sampler/sampler.go
index d8360a6..0d9ed4e 100644
--- a/sampler/sampler.go
+++ b/sampler/sampler.go
@@ -65,17 +65,21 @@ func (s *Sampler) Sample(sample []byte) error {
 	// prep initial sampling state
 	depth := 0
 	path := &bytes.Buffer{} // todo: share
-	err := s.sample(sample, path, depth, rootObj)
+	// keys found in this sample, only kept if all of it can be read
+	found := make(map[string]uint)
+	err := s.sample(sample, path, depth, rootObj, found)
 	if err != nil {
-		s.keys = nil
 		return err
 	}
 
+	for key, count := range found {
+		s.keys[key] += count
+	}
 	s.totalDocs++
 	return nil
 }
 
-func (s *Sampler) sample(current []byte, path *bytes.Buffer, depth int, valType jsonparser.ValueType) error {
+func (s *Sampler) sample(current []byte, path *bytes.Buffer, depth int, valType jsonparser.ValueType, found map[string]uint) error {
 	if s.maxDepth >= 0 && depth > s.maxDepth {
 		return nil
 	}
@@ -91,7 +95,7 @@ func (s *Sampler) sample(current []byte, path *bytes.Buffer, depth int, valType
 			} else {
 				path.Write(key)
 			}
-			if err := s.sample(value, path, depth+1, dataType); err != nil {
+			if err := s.sample(value, path, depth+1, dataType, found); err != nil {
 				return err
 			}
 			path.Truncate(pl)
@@ -109,7 +113,7 @@ func (s *Sampler) sample(current []byte, path *bytes.Buffer, depth int, valType
 			if dataType == jsonparser.Array {
 				return
 			}
-			aerr = s.sample(value, path, depth, dataType)
+			aerr = s.sample(value, path, depth, dataType, found)
 		})
 		if err == nil {
 			err = aerr
@@ -123,7 +127,7 @@ func (s *Sampler) sample(current []byte, path *bytes.Buffer, depth int, valType
 			return nil
 		}
 		// TODO Track types found for UI hinting
-		s.keys[path.String()[1:]]++
+		found[path.String()[1:]]++
 	}
 	return nil
 }
-- 
2.43.0


From f3fc55ec9adee378043ec3ac242a57842f72f750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:49:41 +0000
Subject: [PATCH 06/30] fix: count a sampled key once per document

KeysAtThreshold compares key counts with the number of documents, so a key
repeated in the arrays of a few documents passed for one found in most.
---
 sampler/sampler.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sampler/sampler.go b/sampler/sampler.go
index 0d9ed4e..c4aec15 100644
--- a/sampler/sampler.go
+++ b/sampler/sampler.go
@@ -72,8 +72,9 @@ func (s *Sampler) Sample(sample []byte) error {
 		return err
 	}
 
-	for key, count := range found {
-		s.keys[key] += count
+	// a key counts once per document, however often it occurs in it
+	for key := range found {
+		s.keys[key]++
 	}
 	s.totalDocs++
 	return nil
-- 
2.43.0


From ad9aed4ea787f2dde27cf33a1bdd24aa1f8ae980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:50:19 +0000
Subject: [PATCH 07/30] fix: reject a field made only of stars

Stars are removed from a field while parsing. With nothing else in the field,
the query was accepted and then panicked on the first document.
---
 parser/validators.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/parser/validators.go b/parser/validators.go
index a7400f5..cd7ddb1 100644
--- a/parser/validators.go
+++ b/parser/validators.go
@@ -12,6 +12,7 @@ func opValidator(node ast.Node) error {
 	switch n := node.(type) {
 	case *ast.ExprNode:
 		for _, check := range []exprCheck{
+			checkField,
 			checkValues,
 			checkArity,
 			checkRVals,
@@ -25,6 +26,14 @@ func opValidator(node ast.Node) error {
 	return nil
 }
 
+// a field made only of legacy stars has no path left once they are removed
+func checkField(e *ast.ExprNode) *ParseError {
+	if len(e.Field) == 0 {
+		return ErrorWith(e, "empty field")
+	}
+	return nil
+}
+
 func checkValues(e *ast.ExprNode) *ParseError {
 	var failMsg string
 	var badIdx int
-- 
2.43.0


From d3ae8d543723d1a4028f1b03b6585c2ba7622bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:50:19 +0000
Subject: [PATCH 08/30] fix: keep escaped slashes and backslashes in regular
 expressions

An escaped slash at either end of a regular expression was stripped with the
delimiters, so /\/etc/ matched "etc". An escaped backslash before the closing
slash was taken for an escaped slash, so /a\\/ did not compile.
---
 internal/grammar/aql.peg       | 18 +++++++++++++++++-
 internal/grammar/parser_gen.go | 18 +++++++++++++++++-
 parser/ast/ast.go              |  2 +-
 3 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/internal/grammar/aql.peg b/internal/grammar/aql.peg
index 963e117..17eb83b 100644
--- a/internal/grammar/aql.peg
+++ b/internal/grammar/aql.peg
@@ -116,6 +116,22 @@ func toAny(v any) []any {
 	return v.([]any)
 }
 
+// helper method to remove the escaping of slashes in a regular expression. A
+// backslash that is itself escaped does not escape a slash after it.
+func unescapeSlashes(text []byte) []byte {
+	out := make([]byte, 0, len(text))
+	for i := 0; i < len(text); i++ {
+		if text[i] == '\\' && i+1 < len(text) {
+			i++
+			if text[i] != '/' {
+				out = append(out, '\\')
+			}
+		}
+		out = append(out, text[i])
+	}
+	return out
+}
+
 // helper method to get individual tokens from their rule index
 func getTokens(first, rest any, idx int) []string {
 	out := []string{first.(string)}
@@ -341,7 +357,7 @@ ValueChars <- [a-zA-Z0-9 !]
 
 RegexValue <- '/' RegexChar* EndingSlash {
     pos := getpos(c)
-    c.text = bytes.Replace(c.text, []byte(`\/`), []byte(`/`), -1)
+    c.text = unescapeSlashes(c.text)
     val, err := ast.NewRegexpVal(c.text, pos)
     if err != nil {
         return nil, tokErr(pos, err)
diff --git a/internal/grammar/parser_gen.go b/internal/grammar/parser_gen.go
index b02745d..dd20e72 100644
--- a/internal/grammar/parser_gen.go
+++ b/internal/grammar/parser_gen.go
@@ -128,6 +128,22 @@ func toAny(v any) []any {
 	return v.([]any)
 }
 
+// helper method to remove the escaping of slashes in a regular expression. A
+// backslash that is itself escaped does not escape a slash after it.
+func unescapeSlashes(text []byte) []byte {
+	out := make([]byte, 0, len(text))
+	for i := 0; i < len(text); i++ {
+		if text[i] == '\\' && i+1 < len(text) {
+			i++
+			if text[i] != '/' {
+				out = append(out, '\\')
+			}
+		}
+		out = append(out, text[i])
+	}
+	return out
+}
+
 // helper method to get individual tokens from their rule index
 func getTokens(first, rest any, idx int) []string {
 	out := []string{first.(string)}
@@ -2107,7 +2123,7 @@ func (p *parser) callonQuotedValue2() (interface{}, error) {
 
 func (c *current) onRegexValue2() (interface{}, error) {
 	pos := getpos(c)
-	c.text = bytes.Replace(c.text, []byte(`\/`), []byte(`/`), -1)
+	c.text = unescapeSlashes(c.text)
 	val, err := ast.NewRegexpVal(c.text, pos)
 	if err != nil {
 		return nil, tokErr(pos, err)
diff --git a/parser/ast/ast.go b/parser/ast/ast.go
index bb7be02..7622e4b 100644
--- a/parser/ast/ast.go
+++ b/parser/ast/ast.go
@@ -339,7 +339,7 @@ type RegexpVal struct {
 
 func NewRegexpVal(b []byte, pos Pos) (*RegexpVal, error) {
 	sv := string(b)
-	rv, err := regexp.Compile(strings.Trim(sv, `/`))
+	rv, err := regexp.Compile(strings.TrimSuffix(strings.TrimPrefix(sv, `/`), `/`))
 	if err != nil {
 		return nil, fmt.Errorf("invalid regular expression [%s]: %v", sv, err)
 	}
-- 
2.43.0


From 638dc1354170cbf7ab480651eaa5c37a53f1b8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:50:50 +0000
Subject: [PATCH 09/30] fix: compare timestamps outside 1678 to 2262

Timestamps were compared as nanoseconds since 1970 in 64 bits, which wraps for
other years, so a date in 2020 was not before 3000-01-01.
---
 jsonmatcher/expr_between.go  |  7 ++++---
 jsonmatcher/expr_datetime.go | 15 ++++++++-------
 jsonmatcher/expr_eq.go       |  8 ++++----
 jsonmatcher/expr_numeric.go  |  3 ++-
 jsonmatcher/json_values.go   |  9 +++++----
 5 files changed, 23 insertions(+), 19 deletions(-)

diff --git a/jsonmatcher/expr_between.go b/jsonmatcher/expr_between.go
index 7605a14..4a7ede8 100644
--- a/jsonmatcher/expr_between.go
+++ b/jsonmatcher/expr_between.go
@@ -2,6 +2,7 @@ package jsonmatcher
 
 import (
 	"fmt"
+	"time"
 
 	"github.com/flowchartsman/aql/parser/ast"
 )
@@ -37,9 +38,9 @@ func exprBetween(RVals []ast.Val) fieldExpr {
 		// datetime between
 		// 2nd argument guaranteed by validator
 		return &exprDatetime{
-			values: [2]int64{
-				RVals[0].(*ast.TimeVal).Value().UnixNano(),
-				RVals[1].(*ast.TimeVal).Value().UnixNano(),
+			values: [2]time.Time{
+				RVals[0].(*ast.TimeVal).Value(),
+				RVals[1].(*ast.TimeVal).Value(),
 			},
 			op: ast.BET,
 		}
diff --git a/jsonmatcher/expr_datetime.go b/jsonmatcher/expr_datetime.go
index bd45ecc..a4adf90 100644
--- a/jsonmatcher/expr_datetime.go
+++ b/jsonmatcher/expr_datetime.go
@@ -2,12 +2,13 @@ package jsonmatcher
 
 import (
 	"fmt"
+	"time"
 
 	"github.com/flowchartsman/aql/parser/ast"
 )
 
 type exprDatetime struct {
-	values [2]int64
+	values [2]time.Time
 	op     ast.Op
 }
 
@@ -19,27 +20,27 @@ func (e *exprDatetime) matches(field *field) bool {
 		}
 		switch e.op {
 		case ast.EQ:
-			if dv == e.values[0] {
+			if dv.Equal(e.values[0]) {
 				return true
 			}
 		case ast.LT:
-			if dv < e.values[0] {
+			if dv.Before(e.values[0]) {
 				return true
 			}
 		case ast.LTE:
-			if dv <= e.values[0] {
+			if !dv.After(e.values[0]) {
 				return true
 			}
 		case ast.GT:
-			if dv > e.values[0] {
+			if dv.After(e.values[0]) {
 				return true
 			}
 		case ast.GTE:
-			if dv >= e.values[0] {
+			if !dv.Before(e.values[0]) {
 				return true
 			}
 		case ast.BET:
-			if dv >= e.values[0] && dv <= e.values[1] {
+			if !dv.Before(e.values[0]) && !dv.After(e.values[1]) {
 				return true
 			}
 		// backstop
diff --git a/jsonmatcher/expr_eq.go b/jsonmatcher/expr_eq.go
index 4f8433c..55b4012 100644
--- a/jsonmatcher/expr_eq.go
+++ b/jsonmatcher/expr_eq.go
@@ -44,17 +44,17 @@ func exprEQ(RVals []ast.Val) []fieldExpr {
 			})
 		case *ast.TimeVal:
 			if rval.DayOnly() {
-				endOfDay := rval.Value().Add(24*time.Hour).UnixNano() - 1
+				endOfDay := rval.Value().Add(24*time.Hour - 1)
 				matchers = append(matchers, &exprDatetime{
-					values: [2]int64{
-						rval.Value().UnixNano(),
+					values: [2]time.Time{
+						rval.Value(),
 						endOfDay,
 					},
 					op: ast.BET,
 				})
 			} else {
 				matchers = append(matchers, &exprDatetime{
-					values: [2]int64{rval.Value().UnixNano()},
+					values: [2]time.Time{rval.Value()},
 					op:     ast.EQ,
 				})
 			}
diff --git a/jsonmatcher/expr_numeric.go b/jsonmatcher/expr_numeric.go
index e5273d5..e0480d9 100644
--- a/jsonmatcher/expr_numeric.go
+++ b/jsonmatcher/expr_numeric.go
@@ -2,6 +2,7 @@ package jsonmatcher
 
 import (
 	"fmt"
+	"time"
 
 	"github.com/flowchartsman/aql/parser/ast"
 )
@@ -24,7 +25,7 @@ func exprNumeric(op ast.Op, RVals []ast.Val) fieldExpr {
 		}
 	case *ast.TimeVal:
 		return &exprDatetime{
-			values: [2]int64{v.Value().UnixNano()},
+			values: [2]time.Time{v.Value()},
 			op:     op,
 		}
 	default:
diff --git a/jsonmatcher/json_values.go b/jsonmatcher/json_values.go
index 547400a..6dde882 100644
--- a/jsonmatcher/json_values.go
+++ b/jsonmatcher/json_values.go
@@ -4,6 +4,7 @@ import (
 	"math"
 	"regexp"
 	"strconv"
+	"time"
 
 	"github.com/araddon/dateparse"
 	"github.com/buger/jsonparser"
@@ -154,19 +155,19 @@ func getBoolVal(v jsonValue) (boolVal bool, found bool) {
 	return false, false
 }
 
-func getDatetimeVal(v jsonValue) (intVal int64, found bool) {
+func getDatetimeVal(v jsonValue) (timeVal time.Time, found bool) {
 	// TODO: tighten this up for numstrings. Probably want to be more careful
 	// about what we consider a date with how flexible dateparse is. Maybe a
 	// special getStringVal() that only accepts int-like unix epochs.
 	sv, ok := getStringVal(v)
 	if !ok {
-		return 0, false
+		return time.Time{}, false
 	}
 	t, err := dateparse.ParseAny(sv)
 	if err != nil {
-		return 0, false
+		return time.Time{}, false
 	}
-	return t.UnixNano(), true
+	return t, true
 }
 
 // true:
-- 
2.43.0


From 3c036a2f270509df49e9c2430b0eec45bdd62841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:50:50 +0000
Subject: [PATCH 10/30] fix: match strings that start or end with punctuation

A word boundary was required at both ends of a search string. There is none
between punctuation and a space or the end of the text, so "here!" from the
README did not match the value "here!".
---
 jsonmatcher/str_matchers.go | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/jsonmatcher/str_matchers.go b/jsonmatcher/str_matchers.go
index 3a72a61..28b5b0b 100644
--- a/jsonmatcher/str_matchers.go
+++ b/jsonmatcher/str_matchers.go
@@ -30,7 +30,8 @@ func stringSearchRegexp(wcString string) *regexp.Regexp {
 	var buf bytes.Buffer
 	buf.WriteString(`(?i)`)
 	asciiOnly := isASCII(wcString)
-	if asciiOnly {
+	boundStart, boundEnd := wordBounds(wcRunes)
+	if asciiOnly && boundStart {
 		buf.WriteString(`\b`)
 	}
 	var accum bytes.Buffer
@@ -61,12 +62,34 @@ func stringSearchRegexp(wcString string) *regexp.Regexp {
 	}
 	// write whatever remains in the accumulator
 	buf.WriteString(regexp.QuoteMeta(accum.String()))
-	if asciiOnly {
+	if asciiOnly && boundEnd {
 		buf.WriteString(`\b`)
 	}
 	return regexp.MustCompile(buf.String())
 }
 
+// wordBounds returns whether a search string has to start and end on a word
+// boundary. It does not where it starts or ends with punctuation, since there is
+// no boundary between punctuation and a space or the end of the text.
+func wordBounds(wcRunes []rune) (start bool, end bool) {
+	last := len(wcRunes) - 1
+	if last < 0 {
+		return true, true
+	}
+	start = isWordRune(wcRunes[0]) || isWildcard(wcRunes[0])
+	end = isWordRune(wcRunes[last]) ||
+		isWildcard(wcRunes[last]) && (last == 0 || wcRunes[last-1] != '\\')
+	return start, end
+}
+
+func isWordRune(r rune) bool {
+	return r == '_' || '0' <= r && r <= '9' || 'a' <= r && r <= 'z' || 'A' <= r && r <= 'Z'
+}
+
+func isWildcard(r rune) bool {
+	return r == '?' || r == '*'
+}
+
 type unicodeMatcher struct {
 	pat *search.Pattern
 }
-- 
2.43.0


From 8c40a7a88cc3e5163c0a2110b7d1f1da93ffbb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:50:50 +0000
Subject: [PATCH 11/30] fix: do not look up fields in a document that is not an
 object

An empty field name panicked on a document with an array at its root, and a
field named "[0]" selected the first element of the array.
---
 jsonmatcher/json_values.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jsonmatcher/json_values.go b/jsonmatcher/json_values.go
index 6dde882..b84a005 100644
--- a/jsonmatcher/json_values.go
+++ b/jsonmatcher/json_values.go
@@ -1,6 +1,7 @@
 package jsonmatcher
 
 import (
+	"bytes"
 	"math"
 	"regexp"
 	"strconv"
@@ -22,6 +23,11 @@ type field struct {
 
 // TODO: cache paths
 func getField(path []string, root []byte) *field {
+	// only an object has fields. jsonparser would take a key such as "[0]" for
+	// an index into a root array, and panics there on an empty key.
+	if trimmed := bytes.TrimLeft(root, " \t\r\n"); len(trimmed) == 0 || trimmed[0] != '{' {
+		return &field{}
+	}
 	values := getValues(path, root, jsonparser.Object)
 	return &field{
 		values: values,
-- 
2.43.0


From 1af8ed249e992831aefb4c647f5a70dd8059f4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:50:50 +0000
Subject: [PATCH 12/30] fix: unescape a string before reading it as a number

The string "1" compares equal to 1, but the same string written "\u0031" did
not.
---
 jsonmatcher/json_values.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/jsonmatcher/json_values.go b/jsonmatcher/json_values.go
index b84a005..949fbd0 100644
--- a/jsonmatcher/json_values.go
+++ b/jsonmatcher/json_values.go
@@ -141,7 +141,13 @@ func getStringVal(v jsonValue) (stringVal string, isStringy bool) {
 func getNumberVal(v jsonValue) (floatVal float64, isNumeric bool) {
 	switch v.dataType {
 	case jsonparser.String, jsonparser.Number:
-		fv, err := jsonparser.ParseFloat(v.data)
+		data := v.data
+		if v.dataType == jsonparser.String {
+			if unescaped, err := jsonparser.Unescape(data, nil); err == nil {
+				data = unescaped
+			}
+		}
+		fv, err := jsonparser.ParseFloat(data)
 		if err != nil {
 			return math.NaN(), false
 		}
-- 
2.43.0


From 587a53e4a63caf628877d9e92ad868dba01a3588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:51:36 +0000
Subject: [PATCH 13/30] fix: highlight the right part of a query with
 multi-byte characters

Positions count bytes, but the formatter used them to index the runes of the
query, so every highlight after a multi-byte character was too far right.
---
 parser/fmtmsg/formatter.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/parser/fmtmsg/formatter.go b/parser/fmtmsg/formatter.go
index f22745a..b569e64 100644
--- a/parser/fmtmsg/formatter.go
+++ b/parser/fmtmsg/formatter.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"strings"
 	ttemplate "text/template"
+	"unicode/utf8"
 
 	"github.com/flowchartsman/aql/parser"
 	"github.com/flowchartsman/aql/parser/ast"
@@ -84,11 +85,25 @@ func (p *Printer) Sprint(message Message) string {
 	return buf.String()
 }
 
+// runePos returns pos with its offset, which counts bytes, converted to count the
+// runes of the query.
+func (p *Printer) runePos(pos ast.Pos) ast.Pos {
+	if pos.Offset <= 0 {
+		return pos
+	}
+	runeOffset := 0
+	for byteOffset := 0; byteOffset < pos.Offset && runeOffset < len(p.query); runeOffset++ {
+		byteOffset += utf8.RuneLen(p.query[runeOffset])
+	}
+	pos.Offset = runeOffset
+	return pos
+}
+
 func (p *Printer) getPrintData(m Message) *printData {
 	pData := &printData{
 		msgType: msgUnknown,
 		query:   p.query,
-		pos:     m.Pos(),
+		pos:     p.runePos(m.Pos()),
 		lo:      0,
 		ro:      len(p.query),
 		HasHL:   m.Pos() != ast.NoPosition(),
-- 
2.43.0


From 8bc96cf42dda0a6159f8328067f4bf4840d26919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:51:36 +0000
Subject: [PATCH 14/30] fix: print messages whose highlight leaves the printed
 query

An error at the end of a query, or a highlight wider than the formatter, was
sliced outside of the query or of its printed part, and the formatter printed
an internal error in place of the message.
---
 parser/fmtmsg/formatter.go | 21 ++++++++++++++++++---
 parser/fmtmsg/truncate.go  |  3 ++-
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/parser/fmtmsg/formatter.go b/parser/fmtmsg/formatter.go
index b569e64..4458038 100644
--- a/parser/fmtmsg/formatter.go
+++ b/parser/fmtmsg/formatter.go
@@ -152,9 +152,21 @@ func (m *printData) Type() string {
 }
 
 func (m *printData) HLLen() int {
+	// a highlight longer than the printed part of the query ends with it
+	if m.ro < len(m.query) && m.pos.Offset+m.pos.Len > m.ro {
+		return m.ro - m.pos.Offset
+	}
 	return m.pos.Len
 }
 
+// hlBounds returns the bounds of the highlight in the printed part of the query,
+// which it can leave: errors at the end of the query are positioned after it.
+func (m *printData) hlBounds() (start int, end int) {
+	start = min(max(m.pos.Offset, m.lo), m.ro)
+	end = min(max(m.pos.Offset+m.pos.Len, start), m.ro)
+	return start, end
+}
+
 func (m *printData) HLStrOffset() int {
 	offset := m.pos.Offset - m.lo
 	if m.lo > 0 {
@@ -186,7 +198,8 @@ func (m *printData) QueryPre() string {
 	if m.lo > 0 {
 		sb.WriteString("...")
 	}
-	sb.WriteString(string(m.query[m.lo:m.pos.Offset]))
+	start, _ := m.hlBounds()
+	sb.WriteString(string(m.query[m.lo:start]))
 	return sb.String()
 }
 
@@ -194,7 +207,8 @@ func (m *printData) QueryHL() string {
 	if !m.HasHL {
 		return ""
 	}
-	return string(m.query[m.pos.Offset : m.pos.Offset+m.pos.Len])
+	start, end := m.hlBounds()
+	return string(m.query[start:end])
 }
 
 func (m *printData) QueryPost() string {
@@ -202,7 +216,8 @@ func (m *printData) QueryPost() string {
 		return ""
 	}
 	var sb strings.Builder
-	sb.WriteString(string(m.query[m.pos.Offset+m.pos.Len : m.ro]))
+	_, end := m.hlBounds()
+	sb.WriteString(string(m.query[end:m.ro]))
 	if m.ro < (len(m.query)) {
 		sb.WriteString("...")
 	}
diff --git a/parser/fmtmsg/truncate.go b/parser/fmtmsg/truncate.go
index 4f80213..3caeb77 100644
--- a/parser/fmtmsg/truncate.go
+++ b/parser/fmtmsg/truncate.go
@@ -26,7 +26,8 @@ func findCenterSubstring(r []rune, windowSize int, startOffset int, endOffset in
 	if substringLen >= windowSize {
 		// If the specified substring length is greater than or equal to
 		// the window size, return the substring truncated on the right to windowSize
-		return startOffset, startOffset + windowSize
+		leftOffset := min(startOffset, strLen-windowSize)
+		return leftOffset, leftOffset + windowSize
 	}
 
 	// Calculate the available space on both sides of the substring.
-- 
2.43.0


From 77311971f87bba21c9c72a3505ade2f6dd9da8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:51:36 +0000
Subject: [PATCH 15/30] fix: parse nested queries in linear time

The parser backtracks over each parenthesized expression four times, so ten
nested parentheses took minutes. Memoize the results of the rules.
---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 3b33f72..31770f2 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -26,7 +26,7 @@ func ParseQueryReader(r io.Reader, options ...Option) (ast.Node, error) {
 	for _, o := range options {
 		o(opts)
 	}
-	v, err := grammar.ParseReader("", r, grammar.Debug(opts.debug))
+	v, err := grammar.ParseReader("", r, grammar.Debug(opts.debug), grammar.Memoize(true))
 	if err != nil {
 		return nil, grammar.GetParseError(err)
 	}
-- 
2.43.0


From 66e4acd5ed47d577348ea688dc95ba65fbe624d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:51:36 +0000
Subject: [PATCH 16/30] fix: escape fields and values in query graphs

A field or value with a "<" or "&" in it made the label invalid HTML, and the
graph could not be rendered.
---
 aqlgraph/node_html.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aqlgraph/node_html.go b/aqlgraph/node_html.go
index f91df89..d815268 100644
--- a/aqlgraph/node_html.go
+++ b/aqlgraph/node_html.go
@@ -38,7 +38,7 @@ type NodeVal struct {
 
 var labelTmpl = template.Must(template.New("").Parse(`<TABLE BORDER="0" CELLBORDER="1" CELLSPACING="0" CELLPADDING="2">
 <TR>
-	<TD COLSPAN="2" CELLPADDING="8">{{ .Field }}</TD>
+	<TD COLSPAN="2" CELLPADDING="8">{{ .Field |html }}</TD>
 </TR>
 {{- range .Props}}
 <TR>
@@ -53,7 +53,7 @@ var labelTmpl = template.Must(template.New("").Parse(`<TABLE BORDER="0" CELLBORD
 {{- range .Values}}
 <TR>
 	<TD BORDER="1" BGCOLOR="{{ .Color }}"><I>{{ .ValType }}</I></TD>
-	<TD BORDER="1" BGCOLOR="#FFFFFF">{{ .ValStr }}</TD>
+	<TD BORDER="1" BGCOLOR="#FFFFFF">{{ .ValStr |html }}</TD>
 </TR>
 {{- end }}
 {{- end }}
-- 
2.43.0


From 956fc97837c3d872043f88bd7ed5e4e72f45632b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:57:07 +0000
Subject: [PATCH 17/30] fix: reject a between of a number and a timestamp

A negative number followed by a timestamp was accepted, and the timestamp
was then treated as the number 0.
---
 parser/validators.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/validators.go b/parser/validators.go
index cd7ddb1..e4d7c2a 100644
--- a/parser/validators.go
+++ b/parser/validators.go
@@ -150,6 +150,9 @@ func checkBetween(e *ast.ExprNode) *ParseError {
 		}
 		return nil
 	}
+	if e.RVals[1].Type() == ast.TypeTime {
+		return ErrorAt(e.RVals[1].Pos(), "second argument must also be a numeric value")
+	}
 
 	var l, r float64
 	switch lnv := e.RVals[0].(type) {
-- 
2.43.0


From b5c856fa248accbca4f3952e869cf16b8fc0179e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:06:14 +0000
Subject: [PATCH 18/30] fix: keep a quoted "*" segment of a field

Only the bare legacy star is redundant. A quoted star is a key of its own,
but was dropped from the path as well.
---
 internal/grammar/aql.peg       | 37 ++++++++++++----------------------
 internal/grammar/parser_gen.go | 37 ++++++++++++----------------------
 2 files changed, 26 insertions(+), 48 deletions(-)

diff --git a/internal/grammar/aql.peg b/internal/grammar/aql.peg
index 17eb83b..39befc5 100644
--- a/internal/grammar/aql.peg
+++ b/internal/grammar/aql.peg
@@ -168,26 +168,9 @@ func toString(label any) (string, error) {
 	}
 	return sb.String(), nil
 }
-// helper methods to remove legacy star syntax
-func removeStars(ss []string) []string {
-	for {
-		i := findStarIdx(ss)
-		if i < 0 {
-			break
-		}
-		ss = append(ss[:i], ss[i+1:]...)
-	}
-	return ss
-}
-
-func findStarIdx(ss []string) int {
-	for i, s := range ss {
-		if s == "*" {
-			return i
-		}
-	}
-	return -1
-}
+// starPiece is a piece of legacy star syntax in a field. It is redundant and not
+// kept, unlike a quoted "*".
+type starPiece struct{}
 }
 
 /******
@@ -273,14 +256,20 @@ Field <- pieces:(FieldPiece ('.' FieldPiece)*) {
         return nil, fmt.Errorf("empty field")
     }
     // remove stars for now, they are redundant legacy syntax
-    field := []string{piecesSl[0].(string)}
+    pieceSl := []any{piecesSl[0]}
     restSl := toAny(piecesSl[1])
     for _, v := range restSl {
         vSl := toAny(v)
-        field = append(field, vSl[1].(string))
+        pieceSl = append(pieceSl, vSl[1])
+    }
+    field := []string{}
+    for _, v := range pieceSl {
+        if _, ok := v.(starPiece); !ok {
+            field = append(field, v.(string))
+        }
     }
 
-    return removeStars(field), nil
+    return field, nil
 }
 
 FieldPiece <- QuotedFieldPiece / UnquotedFieldPiece / Star
@@ -296,7 +285,7 @@ QuotedFieldPiece <- qv:QuotedValue {
 
 // TODO: Remove Star
 Star <- '*' {
-    return "*", nil
+    return starPiece{}, nil
 }
 
 /*****
diff --git a/internal/grammar/parser_gen.go b/internal/grammar/parser_gen.go
index dd20e72..e300fc5 100644
--- a/internal/grammar/parser_gen.go
+++ b/internal/grammar/parser_gen.go
@@ -181,26 +181,9 @@ func toString(label any) (string, error) {
 	return sb.String(), nil
 }
 
-// helper methods to remove legacy star syntax
-func removeStars(ss []string) []string {
-	for {
-		i := findStarIdx(ss)
-		if i < 0 {
-			break
-		}
-		ss = append(ss[:i], ss[i+1:]...)
-	}
-	return ss
-}
-
-func findStarIdx(ss []string) int {
-	for i, s := range ss {
-		if s == "*" {
-			return i
-		}
-	}
-	return -1
-}
+// starPiece is a piece of legacy star syntax in a field. It is redundant and not
+// kept, unlike a quoted "*".
+type starPiece struct{}
 
 var g = &grammar{
 	rules: []*rule{
@@ -2007,14 +1990,20 @@ func (c *current) onField1(pieces interface{}) (interface{}, error) {
 		return nil, fmt.Errorf("empty field")
 	}
 	// remove stars for now, they are redundant legacy syntax
-	field := []string{piecesSl[0].(string)}
+	pieceSl := []any{piecesSl[0]}
 	restSl := toAny(piecesSl[1])
 	for _, v := range restSl {
 		vSl := toAny(v)
-		field = append(field, vSl[1].(string))
+		pieceSl = append(pieceSl, vSl[1])
+	}
+	field := []string{}
+	for _, v := range pieceSl {
+		if _, ok := v.(starPiece); !ok {
+			field = append(field, v.(string))
+		}
 	}
 
-	return removeStars(field), nil
+	return field, nil
 }
 
 func (p *parser) callonField1() (interface{}, error) {
@@ -2045,7 +2034,7 @@ func (p *parser) callonQuotedFieldPiece1() (interface{}, error) {
 }
 
 func (c *current) onStar1() (interface{}, error) {
-	return "*", nil
+	return starPiece{}, nil
 }
 
 func (p *parser) callonStar1() (interface{}, error) {
-- 
2.43.0


From eb928b5e29b36f80258c421477652cc80fda57b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:11:14 +0000
Subject: [PATCH 19/30] fix: allow only ASCII letters in an unquoted field

The case-insensitive character class also took the Kelvin sign and the
dotted capital I, whose lower-case forms are ASCII letters.
---
 internal/grammar/aql.peg       | 2 +-
 internal/grammar/parser_gen.go | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/grammar/aql.peg b/internal/grammar/aql.peg
index 39befc5..eade8bc 100644
--- a/internal/grammar/aql.peg
+++ b/internal/grammar/aql.peg
@@ -274,7 +274,7 @@ Field <- pieces:(FieldPiece ('.' FieldPiece)*) {
 
 FieldPiece <- QuotedFieldPiece / UnquotedFieldPiece / Star
 
-UnquotedFieldPiece <- [a-z0-9_-]i+ {
+UnquotedFieldPiece <- [a-zA-Z0-9_-]+ {
     return string(c.text), nil
 }
 
diff --git a/internal/grammar/parser_gen.go b/internal/grammar/parser_gen.go
index e300fc5..6254ac3 100644
--- a/internal/grammar/parser_gen.go
+++ b/internal/grammar/parser_gen.go
@@ -584,10 +584,10 @@ var g = &grammar{
 					pos: position{line: 272, col: 23, offset: 6321},
 					expr: &charClassMatcher{
 						pos:        position{line: 272, col: 23, offset: 6321},
-						val:        "[a-z0-9_-]i",
+						val:        "[a-zA-Z0-9_-]",
 						chars:      []rune{'_', '-'},
-						ranges:     []rune{'a', 'z', '0', '9'},
-						ignoreCase: true,
+						ranges:     []rune{'a', 'z', 'A', 'Z', '0', '9'},
+						ignoreCase: false,
 						inverted:   false,
 					},
 				},
-- 
2.43.0


From da6d00f495f881c4c42ae9a0ea8374d83560be69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:45:34 +0000
Subject: [PATCH 20/30] fix: report a sample with text after its root as an
 error

A sample such as two documents in one was accepted as long as it began and
ended with matching brackets, and everything after the first root was ignored.
---
 sampler/sampler.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sampler/sampler.go b/sampler/sampler.go
index c4aec15..b88094f 100644
--- a/sampler/sampler.go
+++ b/sampler/sampler.go
@@ -71,6 +71,10 @@ func (s *Sampler) Sample(sample []byte) error {
 	if err != nil {
 		return err
 	}
+	// the root has to end with the sample: nothing missing, nothing after it
+	if _, _, end, err := jsonparser.Get(sample); err != nil || end != len(sample) {
+		return fmt.Errorf("sample is not a single JSON object or array: %s", string(sample[:sampleLen]))
+	}
 
 	// a key counts once per document, however often it occurs in it
 	for key := range found {
-- 
2.43.0


From 8f451c5eb1b32cd445c70a06599ad5e1501c58d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:48:05 +0000
Subject: [PATCH 21/30] fix: escape backslashes in the title of a query graph

Graphviz reads a backslash in a label as an escape sequence. A query with one was
shown wrongly, and with an escaped quote its DOT file could not be read.
---
 aqlgraph/graph.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aqlgraph/graph.go b/aqlgraph/graph.go
index caa39aa..6256618 100644
--- a/aqlgraph/graph.go
+++ b/aqlgraph/graph.go
@@ -71,7 +71,8 @@ func QueryGraph(query string) (*Graph, error) {
 	ng := &namegraph{
 		Graph: g,
 	}
-	ng.SetLabel(query).
+	// a backslash in a label starts an escape sequence
+	ng.SetLabel(strings.ReplaceAll(query, `\`, `\\`)).
 		SetLabelLocation(cgraph.TopLocation).
 		SetLabelJust(cgraph.CenteredJust).
 		SetNodeSeparator(0.5).
-- 
2.43.0


From f0fd0297ee39fb9b39001d5b14cab2fb862db0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:48:10 +0000
Subject: [PATCH 22/30] fix: show characters that are not printable as escapes
 in query graphs

A control character in a field or a regular expression made the label of its node
invalid, and no graph could be written.
---
 aqlgraph/graph.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/aqlgraph/graph.go b/aqlgraph/graph.go
index 6256618..2c01761 100644
--- a/aqlgraph/graph.go
+++ b/aqlgraph/graph.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"strconv"
 	"strings"
+	"unicode"
 
 	"github.com/flowchartsman/aql/parser"
 	"github.com/flowchartsman/aql/parser/ast"
@@ -94,6 +95,21 @@ func QueryGraph(query string) (*Graph, error) {
 	}, nil
 }
 
+// printable returns s with characters that are not printable, and so have no
+// place in an HTML label, written as escape sequences.
+func printable(s string) string {
+	var sb strings.Builder
+	for _, r := range s {
+		if unicode.IsPrint(r) {
+			sb.WriteRune(r)
+			continue
+		}
+		quoted := strconv.QuoteRune(r)
+		sb.WriteString(quoted[1 : len(quoted)-1])
+	}
+	return sb.String()
+}
+
 func visitNodes(graph *namegraph, anode ast.Node) *cgraph.Node {
 	n := graph.NewNode()
 	n.SetStyle(cgraph.FilledNodeStyle)
@@ -127,7 +143,7 @@ func visitNodes(graph *namegraph, anode ast.Node) *cgraph.Node {
 		// Populate the labeltable :D
 		// Probably want the "EXPR here"
 		hn := htmlNode{
-			Field: strings.Join(a.Field, "."),
+			Field: printable(strings.Join(a.Field, ".")),
 			Props: []NodeProp{
 				{
 					Name:  "op",
@@ -163,7 +179,7 @@ func visitNodes(graph *namegraph, anode ast.Node) *cgraph.Node {
 			}
 			hn.Values = append(hn.Values, NodeVal{
 				ValType: valType,
-				ValStr:  rv.String(),
+				ValStr:  printable(rv.String()),
 				Color:   valColor,
 			})
 		}
-- 
2.43.0


From 4a8b3a20e9850de5785ed58307ee8e819c17a20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:08:54 +0000
Subject: [PATCH 23/30] fix: read matches before checks so statistics never
 show more matches than checks

---
 jsonmatcher/node_stats.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/jsonmatcher/node_stats.go b/jsonmatcher/node_stats.go
index 1d5fa92..7c07b71 100644
--- a/jsonmatcher/node_stats.go
+++ b/jsonmatcher/node_stats.go
@@ -27,11 +27,11 @@ func (ns *nodeStats) mark(matched bool) {
 }
 
 func (ns *nodeStats) toStatsNode(children ...boolNode) *MatchStats {
-	sn := &MatchStats{
-		NodeName:     ns.nodeName,
-		TimesChecked: ns.timesChecked.Load(),
-		TimesMatched: ns.timesMatched.Load(),
-	}
+	// matches are read before checks, which are counted first: matches counted
+	// on the way could otherwise outnumber the checks
+	sn := &MatchStats{NodeName: ns.nodeName}
+	sn.TimesMatched = ns.timesMatched.Load()
+	sn.TimesChecked = ns.timesChecked.Load()
 	if len(children) > 0 {
 		sn.Children = make([]*MatchStats, 0, len(children))
 		for _, c := range children {
-- 
2.43.0


From f8b5b9f8d9220ab4384af83b550b15689ddabe8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:11:41 +0000
Subject: [PATCH 24/30] fix: strip only the delimiters of a regular expression
 before giving advice

Advice trimmed all slashes at both ends, so an expression that starts or
ends with an escaped slash was judged by what is next to it.
---
 jsonmatcher/query_messages.go | 2 +-
 wasm/aqlparse/warnings.go     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonmatcher/query_messages.go b/jsonmatcher/query_messages.go
index 49828cd..00cfc6b 100644
--- a/jsonmatcher/query_messages.go
+++ b/jsonmatcher/query_messages.go
@@ -24,7 +24,7 @@ func messageVisitor(node ast.Node, tape *parser.MessageTape) error {
 				if n.Op == ast.SIM {
 					tape.WarningAt(rv.Pos(), "Similarity comparison is no longer necessary for regular expressions. Please use the normal comparison operator - field:/<regular expression/")
 				}
-				reStr := strings.Trim(v.String(), `/`)
+				reStr := strings.TrimSuffix(strings.TrimPrefix(v.String(), `/`), `/`)
 				if strings.HasPrefix(reStr, "(?i)") && !isASCII(v.String()) {
 					tape.WarningAt(rv.Pos(), `Case-insensitive regular expression %s contains unicode characters. This may not work as intended. Consider a fuzzy match - 'field:~("value", "language")`, v.String())
 				}
diff --git a/wasm/aqlparse/warnings.go b/wasm/aqlparse/warnings.go
index 34408f7..fdf2267 100644
--- a/wasm/aqlparse/warnings.go
+++ b/wasm/aqlparse/warnings.go
@@ -21,7 +21,7 @@ func warningVisitor(node ast.Node, tape *parser.MessageTape) error {
 				if n.Op == ast.SIM {
 					tape.WarningAt(n.Pos(), "Similarity comparison is no longer necessary for regular expressions and will eventually be removed. Please use the normal comparison operator - field:/<regular expression/")
 				}
-				reStr := strings.Trim(v.String(), `/`)
+				reStr := strings.TrimSuffix(strings.TrimPrefix(v.String(), `/`), `/`)
 				if strings.HasPrefix(reStr, "(?i)") && !isASCII(v.String()) {
 					tape.WarningAt(rv.Pos(), `Case-insensitive regular expression %s contains unicode characters. This may not work as intended. Consider a fuzzy match - 'field:~("value", "language")`, v.String())
 				}
-- 
2.43.0


From c6c3d28af332e658a88df6b5302bedcd496d10a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:15:47 +0000
Subject: [PATCH 25/30] fix: search integers by all of their digits

An integer was written as a float64 before it was searched, which changes
the last digits of integers beyond 2^53.
---
 jsonmatcher/json_values.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jsonmatcher/json_values.go b/jsonmatcher/json_values.go
index 949fbd0..a525856 100644
--- a/jsonmatcher/json_values.go
+++ b/jsonmatcher/json_values.go
@@ -128,6 +128,10 @@ func getStringVal(v jsonValue) (stringVal string, isStringy bool) {
 		}
 		return string(sv), true
 	case jsonparser.Number:
+		if !bytes.ContainsAny(v.data, ".eE") {
+			// all digits of an integer, which a float may not hold
+			return string(v.data), true
+		}
 		// TODO: unnecessary?
 		fv, err := jsonparser.ParseFloat(v.data)
 		if err != nil {
-- 
2.43.0


From b956e8417ac56f44070257b8a4610c9b4d19b7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:15:47 +0000
Subject: [PATCH 26/30] fix: compare numbers beyond the range of a float64

A number such as 1e999 was taken for no number at all. It is now compared
as an infinity, which has the same relation to every operand.
---
 jsonmatcher/json_values.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jsonmatcher/json_values.go b/jsonmatcher/json_values.go
index a525856..4e2bc80 100644
--- a/jsonmatcher/json_values.go
+++ b/jsonmatcher/json_values.go
@@ -2,6 +2,7 @@ package jsonmatcher
 
 import (
 	"bytes"
+	"errors"
 	"math"
 	"regexp"
 	"strconv"
@@ -151,8 +152,8 @@ func getNumberVal(v jsonValue) (floatVal float64, isNumeric bool) {
 				data = unescaped
 			}
 		}
-		fv, err := jsonparser.ParseFloat(data)
-		if err != nil {
+		fv, err := strconv.ParseFloat(string(data), 64)
+		if err != nil && !errors.Is(err, strconv.ErrRange) {
 			return math.NaN(), false
 		}
 		return fv, true
-- 
2.43.0


From f49b74671fa319796b29e567b8c2d6d3346646ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:15:47 +0000
Subject: [PATCH 27/30] fix: do not take the words "inf" and "infinity" for
 numbers

---
 jsonmatcher/json_values.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jsonmatcher/json_values.go b/jsonmatcher/json_values.go
index 4e2bc80..470267a 100644
--- a/jsonmatcher/json_values.go
+++ b/jsonmatcher/json_values.go
@@ -156,6 +156,10 @@ func getNumberVal(v jsonValue) (floatVal float64, isNumeric bool) {
 		if err != nil && !errors.Is(err, strconv.ErrRange) {
 			return math.NaN(), false
 		}
+		if err == nil && (math.IsInf(fv, 0) || math.IsNaN(fv)) {
+			// the words "inf" and "nan"
+			return math.NaN(), false
+		}
 		return fv, true
 	}
 	return math.NaN(), false
-- 
2.43.0


From 27464002a2e940466d9733905980b046fd78759c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:35:22 +0000
Subject: [PATCH 28/30] fix: place the playground's messages by JavaScript
 string indexes

The parser reports offsets in bytes and lengths in runes. The page uses them as
indexes of a JavaScript string, so highlights moved after multi-byte characters.
---
 wasm/aqlparse/main.go | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/wasm/aqlparse/main.go b/wasm/aqlparse/main.go
index 49e22cb..07ceafe 100644
--- a/wasm/aqlparse/main.go
+++ b/wasm/aqlparse/main.go
@@ -7,8 +7,10 @@ import (
 	"fmt"
 	"strings"
 	"syscall/js"
+	"unicode/utf16"
 
 	"github.com/flowchartsman/aql/parser"
+	"github.com/flowchartsman/aql/parser/ast"
 )
 
 func parseAQL(query string) (string, []*parser.ParserMessage, error) {
@@ -27,16 +29,17 @@ func parseAQL(query string) (string, []*parser.ParserMessage, error) {
 func errConvert(err error, input string) map[string]any {
 	if pe, ok := err.(*parser.ParseError); ok {
 		msg := pe.Msg
+		start, end := jsSpan(pe.Position, input)
 		if strings.HasPrefix(msg, "no match found") {
 			msg = "incomplete query"
-			pe.Position.Offset = len(input) - 1
-			pe.Position.Len = 1
+			end = jsLen(input)
+			start = end - 1
 		}
 		return map[string]any{
 			"type":  "error",
 			"msg":   msg,
-			"start": pe.Position.Offset,
-			"end":   pe.Position.Offset + pe.Position.Len,
+			"start": start,
+			"end":   end,
 		}
 	} else {
 		return map[string]any{
@@ -55,14 +58,35 @@ func msgConvert(msg *parser.ParserMessage, input string) map[string]any {
 	case parser.MsgError:
 		msgType = "error"
 	}
+	start, end := jsSpan(msg.Position, input)
 	return map[string]any{
 		"type":  msgType,
 		"msg":   msg.Msg,
-		"start": msg.Position.Offset,
-		"end":   msg.Position.Offset + msg.Position.Len,
+		"start": start,
+		"end":   end,
 	}
 }
 
+// jsLen returns the length of s as a JavaScript string, which counts UTF-16 code
+// units.
+func jsLen(s string) int {
+	return len(utf16.Encode([]rune(s)))
+}
+
+// jsSpan returns the start and end of a position as indexes into the input as a
+// JavaScript string.
+func jsSpan(pos ast.Pos, input string) (int, int) {
+	if pos.Offset < 0 || pos.Offset > len(input) {
+		return pos.Offset, pos.Offset + pos.Len
+	}
+	start := jsLen(input[:pos.Offset])
+	rest := []rune(input[pos.Offset:])
+	if pos.Len > len(rest) {
+		return start, start + pos.Len
+	}
+	return start, start + jsLen(string(rest[:pos.Len]))
+}
+
 func pWrap(this js.Value, args []js.Value) any {
 	input := args[0].String()
 	result := map[string]any{
-- 
2.43.0


From 9b26e15d5c50518958e9e0703fcb709b1529f6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:17:07 +0000
Subject: [PATCH 29/30] fix: give the error of an integer out of range the
 length of the integer

The error of every other invalid literal covers the whole literal, that of
an integer only its first digit.
---
 internal/grammar/aql.peg       | 7 ++++++-
 internal/grammar/parser_gen.go | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/internal/grammar/aql.peg b/internal/grammar/aql.peg
index eade8bc..fbbdabe 100644
--- a/internal/grammar/aql.peg
+++ b/internal/grammar/aql.peg
@@ -381,7 +381,12 @@ FloatValue <- '-'? [0-9]+ '.' [0-9]+ {
 }
 
 IntValue <- '-'? [0-9]+ {
-    return ast.NewIntVal(c.text, getpos(c))
+    pos := getpos(c)
+    val, err := ast.NewIntVal(c.text, pos)
+    if err != nil {
+        return nil, tokErr(pos, err)
+    }
+    return val, nil
 }
 
 
diff --git a/internal/grammar/parser_gen.go b/internal/grammar/parser_gen.go
index 6254ac3..66cfbca 100644
--- a/internal/grammar/parser_gen.go
+++ b/internal/grammar/parser_gen.go
@@ -2152,7 +2152,12 @@ func (p *parser) callonFloatValue1() (interface{}, error) {
 }
 
 func (c *current) onIntValue1() (interface{}, error) {
-	return ast.NewIntVal(c.text, getpos(c))
+	pos := getpos(c)
+	val, err := ast.NewIntVal(c.text, pos)
+	if err != nil {
+		return nil, tokErr(pos, err)
+	}
+	return val, nil
 }
 
 func (p *parser) callonIntValue1() (interface{}, error) {
-- 
2.43.0


From be64a33da6011b772f98c6415ce3e7f61f534933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:07:35 +0000
Subject: [PATCH 30/30] fix: name the type in the JSON of a message given by
 value

The method that names a message's type was declared on the pointer, so the
JSON of a message that is not behind a pointer had the type as a number.
---
 parser/message.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/message.go b/parser/message.go
index 231c4f5..5b49685 100644
--- a/parser/message.go
+++ b/parser/message.go
@@ -10,8 +10,8 @@ import (
 // MessageType is the type of a parser message
 type MessageType int
 
-func (t *MessageType) MarshalJSON() ([]byte, error) {
-	return json.Marshal(typeStr(*t))
+func (t MessageType) MarshalJSON() ([]byte, error) {
+	return json.Marshal(typeStr(t))
 }
 
 const (
-- 
2.43.0

