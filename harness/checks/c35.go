package checks

import (
	"encoding/json"
	"errors"
	"fmt"
	"strconv"
	"strings"

	"github.com/flowchartsman/aql/jsonmatcher"
	"github.com/flowchartsman/aql/parser"
	"github.com/flowchartsman/aql/parser/ast"
	"github.com/flowchartsman/aql/zz_verif/mc"
	"github.com/flowchartsman/aql/zz_verif/ref"
)

func init() {
	register(&mc.Check{
		ID: "C35",
		Rule: "a state is a query, or a message; all trees of up to 4 comparisons with negations (5 without, thorough also with), all comparisons of every operator with up to 3 values over 24 literals (thorough 4) and lists of up to 12 neighbours of them, fields of up to 3 segments over 17, strings of up to 4 (thorough 5) symbols over 13, " +
			"numbers of up to 5 characters over six, every single edit of 48 queries (its tree or its error printed), chains of up to 1025 comparisons and lists of up to 1025 values; messages of all types with 9 texts at 241 positions through a tape. " +
			"Printed trees, statistics names, errors, messages and their JSON, behind a pointer and not, are compared with the model's",
		Assumptions: []string{"whether a segment is quoted is decided only for segments of letters, digits, _ and - and for those with a space, dot or quote"},
		Light:       true,
		Need:        []string{"tree", "comparison", "error", "message"},
		Run:         runC35,
	})
}

// printed writes a tree the way it is documented by the parser's tests: prefix
// form with a list in brackets. Segments that need no quotes and have no
// character that asks for them are written by other.
func printed(n *ref.Node, other func(string) string) string {
	switch n.K {
	case ref.And:
		return "(&& " + printed(n.L, other) + " " + printed(n.R, other) + ")"
	case ref.Or:
		return "(|| " + printed(n.L, other) + " " + printed(n.R, other) + ")"
	case ref.Not:
		return "(! " + printed(n.L, other) + ")"
	}
	op := n.Op
	if op == "" {
		op = "=="
	}
	vals := printedVals(n)
	out := "(" + op + " " + printedField(n.Field, other)
	switch len(vals) {
	case 0:
	case 1:
		out += " " + vals[0]
	default:
		out += " [" + strings.Join(vals, ", ") + "]"
	}
	return out + ")"
}

func printedField(field []string, other func(string) string) string {
	var parts []string
	for _, s := range field {
		switch {
		case strings.ContainsAny(s, ` ."`):
			parts = append(parts, strconv.Quote(s))
		case plainSegment(s):
			parts = append(parts, s)
		default:
			parts = append(parts, other(s))
		}
	}
	return strings.Join(parts, ".")
}

func plainSegment(s string) bool {
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '-') {
			return false
		}
	}
	return s != ""
}

func printedVals(n *ref.Node) []string {
	var out []string
	for _, v := range n.Vals {
		switch v.T {
		case ref.TInt, ref.TTime:
			out = append(out, v.Raw)
		case ref.TFloat:
			out = append(out, strconv.FormatFloat(v.F, 'f', -1, 64))
		case ref.TBool:
			out = append(out, strconv.FormatBool(v.B))
		case ref.TRegex:
			out = append(out, "/"+v.S+"/")
		case ref.TNet:
			s := v.Raw
			if !strings.Contains(s, "/") {
				s += "/32"
			}
			out = append(out, s)
		default:
			out = append(out, strconv.Quote(v.S))
		}
	}
	return out
}

// rootName is what the statistics call a query.
func rootName(n *ref.Node, other func(string) string) string {
	switch n.K {
	case ref.And:
		return "AND"
	case ref.Or:
		return "OR"
	case ref.Not:
		return "NOT"
	}
	vals := strings.Join(printedVals(n), ",")
	if len(n.Vals) > 1 {
		vals = "(" + vals + ")"
	}
	return printedField(n.Field, other) + ":" + n.Op + vals
}

func asIs(s string) string { return s }

func noSpace(s string) string { return strings.ReplaceAll(s, " ", "") }

func printedCase(w *mc.W, q string) {
	w.Case(q, func() string {
		rn, rerr := ref.Parse(q)
		n, err := parser.ParseQuery(q)
		w.Step(treeSize(n))
		if (err == nil) != (rerr == nil) {
			return "" // another property
		}
		if err != nil {
			w.Outcome("error")
			return printedError(w, err)
		}
		if n == nil {
			return ""
		}
		w.Outcome("tree")
		got, want := n.String(), printed(rn, asIs)
		if got != want && got != printed(rn, strconv.Quote) {
			return fmt.Sprintf("printed as %s\nexpected   %s", got, want)
		}
		m, err := jsonmatcher.NewMatcher(q)
		if err != nil {
			return fmt.Sprintf("the matcher rejects it: %v", err)
		}
		s := m.Stats()
		w.Step(1)
		if s == nil {
			return "no statistics"
		}
		name := noSpace(s.NodeName)
		if name != noSpace(rootName(rn, asIs)) && name != noSpace(rootName(rn, strconv.Quote)) {
			return fmt.Sprintf("the statistics are those of %s\nexpected %s", s.NodeName, rootName(rn, asIs))
		}
		if rn.K == ref.Cmp {
			w.Outcome("comparison")
		}
		return ""
	})
	w.Trace()
}

// printedError checks the text and the JSON of a parse error.
func printedError(w *mc.W, err error) string {
	var pe *parser.ParseError
	if !errors.As(err, &pe) {
		return fmt.Sprintf("the error is no parse error but %T", err)
	}
	p := pe.Pos()
	w.Step(1)
	want := fmt.Sprintf("%d:%d(%d): %s", p.Line, p.Col, p.Offset, pe.Message())
	if err.Error() != want {
		return fmt.Sprintf("the error is printed as %q, expected %q", err, want)
	}
	if d := jsonDiff(pe, p, pe.Message(), ""); d != "" {
		return d
	}
	return jsonDiff(*pe, p, pe.Message(), "")
}

func jsonDiff(v any, p ast.Pos, text, typ string) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("no JSON: %v", err)
	}
	var got struct {
		Position map[string]int
		Message  string
		Type     string
	}
	if err := json.Unmarshal(b, &got); err != nil {
		return fmt.Sprintf("JSON is %s: %v", b, err)
	}
	wantPos := map[string]int{"line": p.Line, "column": p.Col, "offset": p.Offset, "length": p.Len}
	wantText := strings.ToValidUTF8(text, "\ufffd")
	if fmt.Sprint(got.Position) != fmt.Sprint(wantPos) || strings.ToValidUTF8(got.Message, "\ufffd") != wantText && len(wantText) == len(text) || got.Type != typ {
		return fmt.Sprintf("JSON is %s, expected type %q, position %v and message %q", b, typ, wantPos, text)
	}
	return ""
}

type message struct {
	typ  int
	pos  ast.Pos
	text string
}

var messageTypes = []string{"HINT", "WARNING", "ERROR"}

func messageCase(w *mc.W, m message) {
	w.Case(fmt.Sprintf("%s at %+v: %q", messageTypes[m.typ], m.pos, m.text), func() string {
		w.Outcome("message")
		var tape *parser.MessageTape
		mv := parser.NewMessageVisitor(func(n ast.Node, t *parser.MessageTape) error {
			tape = t
			at := []func(ast.Pos, string, ...any){t.HintAt, t.WarningAt, t.ErrorAt}[m.typ]
			at(m.pos, "%s", m.text)
			return nil
		})
		_, err := parser.ParseQuery("a:1", parser.Visitors(mv))
		w.Step(1)
		if (err != nil) != (m.typ == 2) || tape == nil || len(mv.Messages()) != 1 {
			return fmt.Sprintf("error %v and messages %v", err, mv.Messages())
		}
		if err != nil {
			if d := printedError(w, err); d != "" {
				return d
			}
		}
		msg := mv.Messages()[0]
		none := m.pos == ast.NoPosition()
		want := fmt.Sprintf("%s [%d:%d(%d)]: %s", messageTypes[m.typ], m.pos.Line, m.pos.Col, m.pos.Offset, m.text)
		if none {
			want = messageTypes[m.typ] + ": " + m.text
		}
		if msg.Message() != m.text || msg.Pos() != m.pos || msg.String() != want {
			return fmt.Sprintf("message %q at %+v printed as %q, expected %q", msg.Message(), msg.Pos(), msg.String(), want)
		}
		if msg.Pos().IsZero() != none {
			return fmt.Sprintf("has no position: %v", msg.Pos().IsZero())
		}
		start := ast.Pos{Line: m.pos.Line, Col: m.pos.Col, Offset: m.pos.Offset, Len: 1}
		if none {
			start = m.pos
		}
		if got := m.pos.Start(); got != start {
			return fmt.Sprintf("starts at %+v, expected %+v", got, start)
		}
		if d := jsonDiff(msg, m.pos, m.text, messageTypes[m.typ]); d != "" {
			return d
		}
		return jsonDiff(*msg, m.pos, m.text, messageTypes[m.typ])
	})
	w.Trace()
}

var printValues = []string{"1", "-1", "0", "007", "1.50", "-0.0", "0.1", "123456789.0", "1.0000000000000001", `"s"`, `"a b"`, `""`, `"\n\"\\"`, `"é大"`, `"\u0000"`, "true", "FALSE", "/x/", `/a\/b"c/`, `/\d\\/`, "1.2.3.4", "1.2.3.4/8", "2020-01-02", "2020-01-02T03:04:05.5+01:30"}

var printSegments = []string{"a", "AND", "x-_9", "0", `"a"`, `"a b"`, `"a.b"`, `"\""`, `"\\"`, `"é"`, `"a:b"`, `"*"`, "*", `"\n"`, `" "`, `"."`, `"'"`}

func runC35(r *mc.Run) {
	mc.Each(r, func(yield func(string)) {
		for n := 1; n <= 5; n++ {
			if n == 5 && !r.Thorough {
				trees(n, false, numbered, func(t *ref.Node) { yield(write(t, styles[0], leafText(0))) })
				break
			}
			trees(n, n <= 4 || r.Deep, numbered, func(t *ref.Node) {
				yield(write(t, styles[0], leafText(0)))
			})
		}
		// one tree of each shape with other kinds of comparisons
		for n := 1; n <= 3; n++ {
			trees(n, true, numbered, func(t *ref.Node) {
				for k := range kinds {
					yield(write(t, styles[0], func(l *ref.Node) string {
						i, _ := strconv.Atoi(l.Field[0][1:])
						return "f" + strconv.Itoa(i) + ":" + kinds[(k+i)%len(kinds)].cmp
					}))
				}
			})
		}
	}, printedCase)
	mc.Each(r, func(yield func(string)) {
		var rec func(op string, parts []string)
		rec = func(op string, parts []string) {
			switch len(parts) {
			case 0:
			case 1:
				yield("f:" + op + parts[0])
			default:
				yield("f:" + op + "(" + strings.Join(parts, ",") + ")")
			}
			max := 2
			if r.Thorough {
				max = 3
			}
			if r.Deep {
				max = 4
			}
			if len(parts) == max {
				return
			}
			for _, v := range printValues {
				rec(op, append(parts[:len(parts):len(parts)], v))
			}
		}
		for _, op := range opTexts {
			rec(op, nil)
		}
		// longer lists of neighbouring values
		for n := 3; n <= 12; n++ {
			for i := range printValues {
				for _, op := range []string{"", "~"} {
					var parts []string
					for j := 0; j < n; j++ {
						parts = append(parts, printValues[(i+j)%len(printValues)])
					}
					yield("f:" + op + "(" + strings.Join(parts, ", ") + ")")
				}
			}
		}
		for _, a := range printSegments {
			for _, suffix := range []string{":1", ":exists", ":null", `:~("a b","c")`} {
				yield(a + suffix)
				for _, b := range printSegments {
					yield(a + "." + b + suffix)
					if suffix == ":1" || r.Thorough {
						for _, c := range printSegments {
							yield(a + "." + b + "." + c + suffix)
						}
					}
				}
			}
		}
		max := 4
		if r.Thorough {
			max = 5
		}
		if r.Deep {
			max = 6
		}
		strs([]string{"a", " ", ".", `\"`, `\\`, `\n`, "é", "*", "(", ")", `\u0001`, "%s", "'"}, max-1, func(s string) {
			yield(`f:"` + s + `"`)
			yield(`"` + s + `".g:1`)
			yield(`f:"x` + s + `" AND g:~"` + s + `y"`)
		})
		strs(chars("a.\\/d*+"), max, func(s string) { yield("f:/" + s + "/") })
		strs(chars("0159.-"), max+1, func(s string) {
			yield("f:" + s)
			yield("f:<" + s)
		})
	}, printedCase)
	mc.Each(r, func(yield func(string)) {
		for _, q := range corpus {
			yield(q)
			edits(q, anyChars, yield)
		}
	}, printedCase)
	mc.EachBatch(r, 1, func(yield func(string)) {
		for _, n := range []int{3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 129, 257, 600, 1025} {
			yield("f0:0" + strings.Repeat(" AND f:1", n))
			yield("f0:0" + strings.Repeat(" OR f:1", n))
			yield(strings.Repeat("!(", n) + "a:1" + strings.Repeat(")", n))
			yield(strings.Repeat("(x:1 OR ", n) + "a:1" + strings.Repeat(")", n))
			yield("a:(0" + seqList(n) + ")")
			yield("a:~(0.5" + seqList(n) + ")")
			yield(strings.Repeat("f.", n) + "f:1")
			yield(strings.Repeat(`"f "`, 1) + strings.Repeat(`."g.h"`, n) + ":null")
			yield(`f:"` + strings.Repeat("s ", n*8) + `"`)
			yield("f:/" + strings.Repeat("s ", n*8) + "/")
			yield("f:" + strings.Repeat("0", n) + "1.5" + strings.Repeat("0", n))
			yield("f:1" + strings.Repeat("0", n) + ".0")
			yield("f:0." + strings.Repeat("0", n) + "1")
		}
	}, printedCase)
	// messages
	mc.Each(r, func(yield func(message)) {
		places := []ast.Pos{ast.NoPosition()}
		for _, l := range []int{1, 2, 10, 300} {
			for _, c := range []int{1, 2, 9, 77, 1000} {
				for _, o := range []int{0, 1, 255, 70000} {
					for _, n := range []int{0, 1, 12} {
						places = append(places, ast.Pos{Line: l, Col: c, Offset: o, Len: n})
					}
				}
			}
		}
		for _, p := range places {
			for typ := range messageTypes {
				for _, text := range []string{"", "text", "two words", "100% %d %s", `"quoted" \ <b>`, "line\nline", "é大😀", "[1:2(3)]: x", strings.Repeat("long ", 100)} {
					yield(message{typ, p, text})
				}
			}
		}
	}, messageCase)
}
