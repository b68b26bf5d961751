// Package checks holds the checks: for every property an alphabet, a bound, a
// driver of the real code and an oracle.
package checks

import (
	"errors"
	"fmt"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/flowchartsman/aql/jsonmatcher"
	"github.com/flowchartsman/aql/parser"
	"github.com/flowchartsman/aql/parser/ast"
	"github.com/flowchartsman/aql/zz_verif/mc"
	"github.com/flowchartsman/aql/zz_verif/ref"
)

// All are the checks of this program.
var All []*mc.Check

func register(c *mc.Check) { All = append(All, c) }

// implCanon writes a tree of the implementation the way the model writes its
// own.
func implCanon(n ast.Node) string {
	switch x := n.(type) {
	case *ast.AndNode:
		return "(&& " + implCanon(x.Left) + " " + implCanon(x.Right) + ")"
	case *ast.OrNode:
		return "(|| " + implCanon(x.Left) + " " + implCanon(x.Right) + ")"
	case *ast.NotNode:
		return "(! " + implCanon(x.Expr) + ")"
	case *ast.ExprNode:
		var sb strings.Builder
		op := string(x.Op)
		if x.Op == ast.EQ {
			op = ""
		}
		fmt.Fprintf(&sb, "(%q %q", op, x.Field)
		for _, v := range x.RVals {
			sb.WriteString(" " + string(v.Type()) + " " + valCanon(v))
		}
		return sb.String() + ")"
	}
	return fmt.Sprintf("<%T>", n)
}

func instantOf(t time.Time) ref.Instant {
	s := t.Unix()
	d := s / 86400
	if s%86400 < 0 {
		d--
	}
	return ref.Instant{Day: d, Nano: (s-d*86400)*1e9 + int64(t.Nanosecond())}
}

func valCanon(v ast.Val) string {
	switch x := v.(type) {
	case *ast.IntVal:
		return strconv.FormatInt(x.Value(), 10)
	case *ast.FloatVal:
		return strconv.FormatFloat(x.Value(), 'x', -1, 64)
	case *ast.BoolVal:
		return strconv.FormatBool(x.Value())
	case *ast.StringVal:
		return strconv.Quote(x.Value())
	case *ast.RegexpVal:
		return strconv.Quote(x.Value().String())
	case *ast.NetVal:
		p := x.Value()
		a := p.Addr().As4()
		return fmt.Sprintf("%d.%d.%d.%d/%d", a[0], a[1], a[2], a[3], p.Bits())
	case *ast.TimeVal:
		i := instantOf(x.Value())
		return fmt.Sprintf("%d/%d day=%v", i.Day, i.Nano, x.DayOnly())
	}
	return fmt.Sprintf("<%T>", v)
}

// skeleton keeps the logical operators and the order of the comparisons only.
func skeleton(n *ref.Node, leaf func(*ref.Node) string) string {
	switch n.K {
	case ref.And:
		return "(&& " + skeleton(n.L, leaf) + " " + skeleton(n.R, leaf) + ")"
	case ref.Or:
		return "(|| " + skeleton(n.L, leaf) + " " + skeleton(n.R, leaf) + ")"
	case ref.Not:
		return "(! " + skeleton(n.L, leaf) + ")"
	}
	return leaf(n)
}

// toPos converts a position.
func toPos(p ast.Pos) ref.Pos { return ref.Pos{Line: p.Line, Col: p.Col, Off: p.Offset, Len: p.Len} }

// positions lists the positions of the comparisons and values of a tree, in
// order.
func implPositions(n ast.Node, out []ref.Pos) []ref.Pos {
	switch x := n.(type) {
	case *ast.AndNode:
		return implPositions(x.Right, implPositions(x.Left, out))
	case *ast.OrNode:
		return implPositions(x.Right, implPositions(x.Left, out))
	case *ast.NotNode:
		return implPositions(x.Expr, out)
	case *ast.ExprNode:
		out = append(out, toPos(x.Pos()))
		for _, v := range x.RVals {
			out = append(out, toPos(v.Pos()))
		}
	}
	return out
}

func refPositions(n *ref.Node, out []ref.Pos) []ref.Pos {
	if n.K != ref.Cmp {
		out = refPositions(n.L, out)
		if n.R != nil {
			out = refPositions(n.R, out)
		}
		return out
	}
	out = append(out, n.Pos)
	for _, v := range n.Vals {
		out = append(out, v.Pos)
	}
	return out
}

// aspects of a parse that a check compares.
const (
	acceptance = 1 << iota // accepted or rejected, and nothing in between
	tree                   // the whole tree, if both accept
	posTree                // positions in the tree
	posErr                 // position of the error
)

// parseDiff parses q with the implementation and the model and says in which
// of the aspects they differ.
func parseDiff(w *mc.W, q string, aspects int) string {
	rn, rerr := ref.Parse(q)
	n, err := parser.ParseQuery(q)
	w.Step(treeSize(n))
	return compareParse(w, q, rn, rerr, n, err, aspects)
}

func compareParse(w *mc.W, q string, rn *ref.Node, rerr *ref.Err, n ast.Node, err error, aspects int) string {
	if rerr == nil {
		w.Outcome("accepted")
	} else if rerr.Tok {
		w.Outcome("rejected token")
	} else {
		w.Outcome("rejected")
	}
	if aspects&acceptance != 0 {
		if (n == nil) == (err == nil) {
			return fmt.Sprintf("tree %v and error %v", n, err)
		}
		if (err == nil) != (rerr == nil) {
			return fmt.Sprintf("implementation: tree %v error %v; expected error: %v", n, err, rerr)
		}
		var pe *parser.ParseError
		if err != nil && !errors.As(err, &pe) {
			return fmt.Sprintf("the error is no parse error but %T", err)
		}
	}
	if err == nil && rerr == nil && n != nil {
		if aspects&tree != 0 {
			if got, want := implCanon(n), rn.String(); got != want {
				return fmt.Sprintf("tree is  %s\nexpected %s", got, want)
			}
		}
		if aspects&posTree != 0 {
			got, want := implPositions(n, nil), refPositions(rn, nil)
			if fmt.Sprint(got) != fmt.Sprint(want) {
				return fmt.Sprintf("positions are %v\nexpected      %v", got, want)
			}
		}
	}
	if err != nil && rerr != nil && aspects&posErr != 0 {
		return errPosDiff(q, rerr, err)
	}
	return ""
}

// errPosDiff checks the position of an error.
func errPosDiff(q string, rerr *ref.Err, err error) string {
	var pe *parser.ParseError
	if !errors.As(err, &pe) {
		return fmt.Sprintf("the error is no parse error but %T", err)
	}
	p := toPos(pe.Pos())
	if rerr.Tok {
		want := rerr.Pos
		if p.Off != want.Off || p.Line != want.Line || p.Col != want.Col {
			return fmt.Sprintf("error %v is at %v, expected %v (%s)", err, p, want, rerr.What)
		}
		switch rerr.What {
		case "wrong type", "duplicate", "both booleans", "mixed between", "between not increasing",
			"string with surrogate", "invalid regular expression", "invalid timestamp", "invalid address", "invalid float", "invalid integer":
			if p.Len != want.Len {
				return fmt.Sprintf("error %v is at %v, expected %v (%s)", err, p, want, rerr.What)
			}
		}
	}
	if p.Off < 0 || p.Off > len(q) || p.Len < 0 || p.Len > 1 && p.Len > utf8.RuneCountInString(q[p.Off:]) {
		return fmt.Sprintf("error %v is at %v, outside of the query", err, p)
	}
	if p.Off == len(q) || q[p.Off] != '\n' {
		want := ref.PosAt(q, p.Off, p.Off)
		if p.Line != want.Line || p.Col != want.Col {
			return fmt.Sprintf("error %v is at line %d column %d, but its offset %d is at line %d column %d", err, p.Line, p.Col, p.Off, want.Line, want.Col)
		}
	}
	return ""
}

// treeSize counts the operators, comparisons and values of a tree: the steps of
// a derivation that are compared. A rejection is one step.
func treeSize(n ast.Node) int {
	switch x := n.(type) {
	case *ast.AndNode:
		return 1 + treeSize(x.Left) + treeSize(x.Right)
	case *ast.OrNode:
		return 1 + treeSize(x.Left) + treeSize(x.Right)
	case *ast.NotNode:
		return 1 + treeSize(x.Expr)
	case *ast.ExprNode:
		return 1 + len(x.RVals)
	}
	return 1
}

// newMatcher builds a matcher; the query must be accepted.
func newMatcher(w *mc.W, q string) *jsonmatcher.Matcher {
	var m *jsonmatcher.Matcher
	w.Case("NewMatcher "+q, func() string {
		var err error
		m, err = jsonmatcher.NewMatcher(q)
		w.Step(1)
		if err != nil {
			m = nil
			return fmt.Sprintf("query is rejected: %v", err)
		}
		return ""
	})
	return m
}

// matchCase compares one match with what is expected.
func matchCase(w *mc.W, m *jsonmatcher.Matcher, q, doc string, want bool) bool {
	return w.Case(q+" ON "+doc, func() string {
		got, err := m.Match([]byte(doc))
		w.Step(1)
		if err != nil {
			return fmt.Sprintf("error %v", err)
		}
		if want {
			w.Outcome("match")
		} else {
			w.Outcome("no match")
		}
		if got != want {
			return fmt.Sprintf("result %v, expected %v", got, want)
		}
		return ""
	})
}

// strs enumerates all strings of up to max symbols.
func strs(alphabet []string, max int, yield func(string)) {
	var rec func(prefix string, n int)
	rec = func(prefix string, n int) {
		yield(prefix)
		if n == 0 {
			return
		}
		for _, a := range alphabet {
			rec(prefix+a, n-1)
		}
	}
	rec("", max)
}

func chars(s string) []string {
	var out []string
	for _, r := range s {
		out = append(out, string(r))
	}
	return out
}
