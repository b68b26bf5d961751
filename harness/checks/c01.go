package checks

import (
	"fmt"
	"strings"

	"github.com/flowchartsman/aql/parser"
	"github.com/flowchartsman/aql/parser/ast"
	"github.com/flowchartsman/aql/zz_verif/mc"
	"github.com/flowchartsman/aql/zz_verif/ref"
)

func init() {
	register(&mc.Check{
		ID: "C01",
		Rule: "a state is a query text; all trees of up to 4 (thorough 5) comparisons with negation at every node, written in six styles of white space, negation and parentheses, " +
			"and of 5 (6) comparisons without negation in one style; all token sequences up to 5 (6) over two comparisons, AND, OR, NOT, !, ( and ); all white-space strings up to 3 at every gap of two queries and all subsets of optional gaps; " +
			"chains of up to 60 operands, nesting up to 60. Each is parsed by the implementation and compared with the tree it was written from, or with the model's tree",
		Need: []string{"accepted", "rejected"},
		Run:  runC01,
	})
}

// leafForms are comparisons of several forms, to stand at the ends of operands.
var leafForms = []string{`f%d:1`, `f%d:"x"`, `f%d:exists`, `f%d:(1,2)`, `f%d:/r/`, `f%d:null`, `f%d:><(1,2)`, `f%d:2020-01-02`}

func leafText(rot int) func(n *ref.Node) string {
	return func(n *ref.Node) string {
		var i int
		fmt.Sscanf(n.Field[0], "f%d", &i)
		return fmt.Sprintf(leafForms[(i+rot)%len(leafForms)], i)
	}
}

func implSkeleton(n ast.Node) string {
	switch x := n.(type) {
	case *ast.AndNode:
		return "(&& " + implSkeleton(x.Left) + " " + implSkeleton(x.Right) + ")"
	case *ast.OrNode:
		return "(|| " + implSkeleton(x.Left) + " " + implSkeleton(x.Right) + ")"
	case *ast.NotNode:
		return "(! " + implSkeleton(x.Expr) + ")"
	case *ast.ExprNode:
		return strings.Join(x.Field, ".")
	}
	return fmt.Sprintf("<%T>", n)
}

func fieldLeaf(n *ref.Node) string { return strings.Join(n.Field, ".") }

func treeCase(w *mc.W, q, want string) {
	w.Case(q, func() string {
		n, err := parser.ParseQuery(q)
		w.Step(treeSize(n))
		if err != nil {
			return fmt.Sprintf("rejected: %v", err)
		}
		w.Outcome("accepted")
		if got := implSkeleton(n); got != want {
			return fmt.Sprintf("tree is  %s\nexpected %s", got, want)
		}
		return ""
	})
	w.Trace()
}

type qtree struct{ q, want string }

func runC01(r *mc.Run) {
	maxAll, maxOne, seqLen := 4, 5, 5
	if r.Thorough {
		maxAll, maxOne, seqLen = 5, 6, 6
	}
	// trees by construction
	mc.Each(r, func(yield func(qtree)) {
		for n := 1; n <= maxOne; n++ {
			i := 0
			trees(n, n <= maxAll, numbered, func(t *ref.Node) {
				i++
				if n > maxAll {
					yield(qtree{write(t, styles[0], leafText(0)), skeleton(t, fieldLeaf)})
					return
				}
				for s, st := range styles {
					yield(qtree{write(t, st, leafText(s+i)), skeleton(t, fieldLeaf)})
				}
			})
		}
	}, func(w *mc.W, t qtree) { treeCase(w, t.q, t.want) })
	// token sequences
	toks := []string{"a:1", "b:exists", "AND", "OR", "NOT", "!", "(", ")"}
	mc.Each(r, func(yield func(string)) {
		var rec func(parts []string)
		rec = func(parts []string) {
			if len(parts) > 0 {
				yield(strings.Join(parts, " "))
			}
			if len(parts) == seqLen {
				return
			}
			for _, t := range toks {
				rec(append(parts[:len(parts):len(parts)], t))
			}
		}
		rec(nil)
	}, func(w *mc.W, q string) {
		w.Case(q, func() string { return parseDiff(w, q, acceptance|tree) })
		w.Trace()
	})
	// white space
	mc.Each(r, gapQueries, func(w *mc.W, q string) {
		w.Case(q, func() string { return parseDiff(w, q, acceptance|tree) })
		w.Trace()
	})
	// long chains and deep nesting
	mc.EachBatch(r, 1, func(yield func(qtree)) { longTrees(60, yield) }, func(w *mc.W, t qtree) { treeCase(w, t.q, t.want) })
}

// gapQueries varies the white space of two queries.
func gapQueries(yield func(string)) {
	// each piece is followed by a gap; ! means that the gap needs white space
	for _, pieces := range [][]string{
		{"(", "a", ":", ">", "1!", "AND!", "b", ":", "(", "1", ",", "2", ")", ")!", "OR!", "!", "c", ":", "exists"},
		{"NOT!", "x.y", ":", "~", `"v"!`, "OR!", "(", "z", ":", "><", "(", "1.5", ",", "2", ")!", "AND!", "NOT!", "d", ":", "null", ")"},
	} {
		var opt []int
		need := make([]bool, len(pieces))
		toks := make([]string, len(pieces))
		for i, p := range pieces {
			toks[i] = p
			if len(p) > 1 && strings.HasSuffix(p, "!") {
				need[i] = true
				toks[i] = strings.TrimSuffix(p, "!")
			} else {
				opt = append(opt, i)
			}
		}
		build := func(lead string, gap func(i int) string) string {
			var sb strings.Builder
			sb.WriteString(lead)
			for i, t := range toks {
				sb.WriteString(t)
				sb.WriteString(gap(i))
			}
			return sb.String()
		}
		def := func(i int) string {
			if need[i] {
				return " "
			}
			return ""
		}
		for set := 0; set < 1<<len(opt); set++ {
			yield(build("", func(i int) string {
				if need[i] {
					return " "
				}
				for k, o := range opt {
					if o == i && set>>k&1 == 1 {
						return " "
					}
				}
				return ""
			}))
		}
		strs([]string{" ", "\n", "\t", "\r", "\f", "\u00a0"}, 3, func(ws string) {
			yield(build(ws, def))
			for k := range toks {
				yield(build("", func(i int) string {
					if i == k {
						return ws
					}
					return def(i)
				}))
			}
		})
		for n := 4; n < 200; n += 13 {
			ws := strings.Repeat(" \n", n)
			yield(build(ws, func(int) string { return ws }))
		}
	}
}

// longTrees writes chains and nestings of every size up to max.
func longTrees(max int, yield func(qtree)) {
	plain := styles[0]
	leaf := leafText(0)
	emit := func(t *ref.Node) {
		for _, st := range []style{plain, styles[3]} {
			yield(qtree{write(t, st, leaf), skeleton(t, fieldLeaf)})
		}
	}
	chain := func(kinds []ref.NodeKind, nots func(i int) bool, left bool) *ref.Node {
		lf := func(i int) *ref.Node {
			n := numbered(i)
			if nots != nil && nots(i) {
				return &ref.Node{K: ref.Not, L: n}
			}
			return n
		}
		if left {
			t := lf(0)
			for i, k := range kinds {
				t = &ref.Node{K: k, L: t, R: lf(i + 1)}
			}
			return t
		}
		t := lf(len(kinds))
		for i := len(kinds) - 1; i >= 0; i-- {
			t = &ref.Node{K: kinds[i], L: lf(i), R: t}
		}
		return t
	}
	for n := 2; n <= max; n++ {
		for pat := 0; pat < 4; pat++ {
			kinds := make([]ref.NodeKind, n-1)
			for i := range kinds {
				switch {
				case pat == 0, pat == 2 && i%2 == 0, pat == 3 && i < n/2:
					kinds[i] = ref.And
				default:
					kinds[i] = ref.Or
				}
			}
			emit(chain(kinds, nil, false))
			emit(chain(kinds, nil, true))
			emit(chain(kinds, func(i int) bool { return i == n-1 }, false))
			emit(chain(kinds, func(i int) bool { return i%2 == 0 }, true))
		}
		// nested negations
		t := numbered(0)
		for i := 0; i < n; i++ {
			t = &ref.Node{K: ref.Not, L: t}
		}
		emit(t)
		yield(qtree{strings.Repeat("(", n) + "f0:1" + strings.Repeat(")", n), "f0"})
		yield(qtree{strings.Repeat("( ", n) + "f0:1 AND f1:2" + strings.Repeat(" )", n) + " OR f2:3", "(|| (&& f0 f1) f2)"})
		yield(qtree{"f0:1 AND " + strings.Repeat("!(", n) + "f1:1 OR f2:2" + strings.Repeat(")", n), "(&& f0 " + strings.Repeat("(! ", n) + "(|| f1 f2)" + strings.Repeat(")", n) + ")"})
	}
}
