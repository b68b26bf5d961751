package checks

import (
	"errors"
	"fmt"
	"strings"

	"github.com/flowchartsman/aql/parser"
	"github.com/flowchartsman/aql/parser/ast"
	"github.com/flowchartsman/aql/zz_verif/mc"
	"github.com/flowchartsman/aql/zz_verif/ref"
)

func init() {
	register(&mc.Check{
		ID: "C07",
		Rule: "a state is a query with the decisions of its visitors; all trees of up to 4 comparisons with every single decision (skip, skip all, positioned error, other error, tape error) at every call of one visitor, all pairs of decisions for trees of up to 3, " +
			"two and three visitors with every decision of each on trees of up to 2, up to 100 visitors with a decision of one, visitors in one option and in an option each, all sequences of up to 3 tape calls of nine kinds with rising and falling positions, up to 18 equal ones, positions and texts of 12 kinds, chains and nestings of up to 40 with a decision at every call and of up to 2000 with one at some. Calls, error and messages are compared with the model's walk",
		Need: []string{"go on", "skip", "skip all", "error", "plain error", "tape error"},
		Run:  runC07,
	})
}

// decisions of a visitor.
const (
	goOn = iota
	skip
	skipAll
	posError
	plainError
	tapeError
	nDecisions
)

var decisionNames = []string{"go on", "skip", "skip all", "error", "plain error", "tape error"}

// script is what one visitor does: at the given calls, something other than
// going on.
type script map[int]int

func (s script) String() string {
	var parts []string
	for i := 0; i < 5000 && len(parts) < len(s); i++ {
		if d, ok := s[i]; ok {
			parts = append(parts, fmt.Sprintf("%d:%s", i, decisionNames[d]))
		}
	}
	return "{" + strings.Join(parts, " ") + "}"
}

func nodeName(n ast.Node) string {
	switch x := n.(type) {
	case *ast.AndNode:
		return "AND"
	case *ast.OrNode:
		return "OR"
	case *ast.NotNode:
		return "NOT"
	case *ast.ExprNode:
		return strings.Join(x.Field, ".")
	}
	return fmt.Sprintf("<%T>", n)
}

// walkModel returns the calls one visitor gets, and the call that made the parse
// fail (-1 if none).
func walkModel(t *ref.Node, s script) (calls []string, failed int, kind int) {
	failed = -1
	firstTape := -1
	stop := false
	var walk func(n *ref.Node)
	walk = func(n *ref.Node) {
		if stop {
			return
		}
		i := len(calls)
		switch n.K {
		case ref.And:
			calls = append(calls, "AND")
		case ref.Or:
			calls = append(calls, "OR")
		case ref.Not:
			calls = append(calls, "NOT")
		default:
			calls = append(calls, fieldLeaf(n))
		}
		switch s[i] {
		case skip:
			return
		case skipAll:
			stop = true
			return
		case posError, plainError:
			failed, kind, stop = i, s[i], true
			return
		case tapeError:
			if firstTape < 0 {
				firstTape = i
			}
		}
		if n.L != nil {
			walk(n.L)
		}
		if n.R != nil {
			walk(n.R)
		}
	}
	walk(t)
	if failed < 0 && firstTape >= 0 {
		return calls, firstTape, tapeError
	}
	return calls, failed, kind
}

func errPos(v, i int) ast.Pos { return ast.Pos{Line: v + 1, Col: i + 1, Offset: 100*v + i, Len: 3} }

func visitorCase(w *mc.W, t *ref.Node, q string, scripts []script) {
	visitorOptions(w, t, q, scripts, false)
	if len(scripts) > 1 {
		visitorOptions(w, t, q, scripts, true)
	}
}

func visitorOptions(w *mc.W, t *ref.Node, q string, scripts []script, split bool) {
	key := q
	if split {
		key += " in separate options"
	}
	for _, s := range scripts {
		key += " " + s.String()
	}
	w.Case(key, func() string {
		got := make([][]string, len(scripts))
		var order []int
		var vs []parser.Visitor
		var tapes []*parser.MessageVisitor
		for vi := range scripts {
			vi := vi
			f := func(n ast.Node, tape *parser.MessageTape) error {
				i := len(got[vi])
				got[vi] = append(got[vi], nodeName(n))
				order = append(order, vi)
				msg := fmt.Sprintf("visitor %d call %d", vi, i)
				switch scripts[vi][i] {
				case skip:
					return parser.Skip
				case skipAll:
					return parser.SkipAll
				case posError:
					return parser.ErrorAt(errPos(vi, i), msg)
				case plainError:
					return errors.New(msg)
				case tapeError:
					tape.ErrorAt(errPos(vi, i), "%s", msg)
				}
				return nil
			}
			uses := false
			for _, d := range scripts[vi] {
				uses = uses || d == tapeError
			}
			if uses || vi%2 == 1 {
				mv := parser.NewMessageVisitor(f)
				tapes = append(tapes, mv)
				vs = append(vs, mv)
			} else {
				vs = append(vs, parser.VisitorFunc(func(n ast.Node) error { return f(n, nil) }))
			}
		}
		// in one option, or in an option each
		opts := []parser.Option{parser.Visitors(vs...)}
		if split {
			opts = nil
			for i := range vs {
				opts = append(opts, parser.Visitors(vs[i:i+1]...))
			}
		}
		n, err := parser.ParseQuery(q, opts...)
		w.Step(len(order))
		// the model
		failV, failI, failK := -1, -1, 0
		for vi, s := range scripts {
			var want []string
			if failV < 0 {
				var f, k int
				want, f, k = walkModel(t, s)
				if f >= 0 {
					failV, failI, failK = vi, f, k
				}
			}
			if strings.Join(got[vi], " ") != strings.Join(want, " ") {
				return fmt.Sprintf("visitor %d was called for %v, expected %v", vi, got[vi], want)
			}
		}
		for i := 1; i < len(order); i++ {
			if order[i] < order[i-1] {
				return fmt.Sprintf("visitors are called in the order %v", order)
			}
		}
		for _, s := range scripts {
			for _, d := range s {
				w.Outcome(decisionNames[d])
			}
		}
		w.Outcome("go on")
		if failV < 0 {
			if err != nil || n == nil {
				return fmt.Sprintf("rejected: %v", err)
			}
			return ""
		}
		if err == nil || n != nil {
			return fmt.Sprintf("accepted, though visitor %d rejects at call %d", failV, failI)
		}
		var pe *parser.ParseError
		msg := fmt.Sprintf("visitor %d call %d", failV, failI)
		if !errors.As(err, &pe) {
			return fmt.Sprintf("the error is no parse error but %T", err)
		}
		if failK == plainError {
			if !strings.Contains(pe.Message(), msg) {
				return fmt.Sprintf("the error is %q, expected %q", pe.Message(), msg)
			}
			return ""
		}
		if pe.Message() != msg || pe.Pos() != errPos(failV, failI) {
			return fmt.Sprintf("the error is %q at %+v, expected %q at %+v", pe.Message(), pe.Pos(), msg, errPos(failV, failI))
		}
		return ""
	})
	w.Trace()
}

type visit struct {
	t       *ref.Node
	q       string
	scripts []script
}

func runC07(r *mc.Run) {
	size := func(t *ref.Node) int {
		c, _, _ := walkModel(t, nil)
		return len(c)
	}
	mc.Each(r, func(yield func(visit)) {
		for n := 1; n <= 4; n++ {
			trees(n, n <= 3, numbered, func(t *ref.Node) {
				q := write(t, styles[0], leafText(0))
				calls := size(t)
				yield(visit{t, q, []script{{}}})
				for i := 0; i < calls; i++ {
					for d := 1; d < nDecisions; d++ {
						yield(visit{t, q, []script{{i: d}}})
						if n <= 3 && calls <= 6 || r.Thorough {
							for j := i + 1; j < calls; j++ {
								for e := 1; e < nDecisions; e++ {
									yield(visit{t, q, []script{{i: d, j: e}}})
								}
							}
						}
					}
				}
			})
		}
	}, func(w *mc.W, v visit) { visitorCase(w, v.t, v.q, v.scripts) })
	// several visitors
	mc.Each(r, func(yield func(visit)) {
		for n := 1; n <= 2; n++ {
			trees(n, n == 1 || r.Thorough, numbered, func(t *ref.Node) {
				q := write(t, styles[0], leafText(0))
				var all []script
				all = append(all, script{})
				for i := 0; i < size(t); i++ {
					for d := 1; d < nDecisions; d++ {
						all = append(all, script{i: d})
					}
				}
				for _, a := range all {
					for _, b := range all {
						yield(visit{t, q, []script{a, b}})
						for ci, c := range all {
							if ci%3 == 0 || r.Thorough {
								yield(visit{t, q, []script{a, b, c}})
							}
						}
					}
				}
			})
		}
	}, func(w *mc.W, v visit) { visitorCase(w, v.t, v.q, v.scripts) })
	// many visitors
	mc.EachBatch(r, 1, func(yield func(visit)) {
		t := &ref.Node{K: ref.And, L: numbered(0), R: &ref.Node{K: ref.Not, L: numbered(1)}}
		q := write(t, styles[0], leafText(0))
		for _, n := range []int{4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 32, 33, 64, 65, 100} {
			for i := 0; i < n; i++ {
				if n > 20 && i > 2 && i < n-3 {
					continue
				}
				for d := 0; d < nDecisions; d++ {
					scripts := make([]script, n)
					scripts[i] = script{i % 4: d}
					yield(visit{t, q, scripts})
				}
			}
		}
	}, func(w *mc.W, v visit) { visitorCase(w, v.t, v.q, v.scripts) })
	// large trees
	mc.EachBatch(r, 1, func(yield func(visit)) {
		for _, n := range []int{5, 6, 7, 8, 9, 12, 15, 16, 17, 20, 30, 40, 65, 129, 257, 513, 600, 1025, 2000} {
			for shape := 0; shape < 4; shape++ {
				t := numbered(0)
				for i := 1; i < n; i++ {
					switch shape {
					case 0:
						t = &ref.Node{K: ref.And, L: numbered(i), R: t}
					case 1:
						t = &ref.Node{K: ref.Or, L: t, R: numbered(i)}
					case 2:
						t = &ref.Node{K: ref.Not, L: t}
					case 3:
						if i%2 == 0 {
							t = &ref.Node{K: ref.And, L: &ref.Node{K: ref.Not, L: numbered(i)}, R: t}
						} else {
							t = &ref.Node{K: ref.Or, L: t, R: numbered(i)}
						}
					}
				}
				q := write(t, styles[0], leafText(0))
				calls := size(t)
				for i := 0; i < calls; i++ {
					if n > 40 && i > 1 && i < calls-2 && i != calls/2 {
						continue
					}
					for d := 1; d < nDecisions; d++ {
						if n > 600 && d != skipAll && d != posError {
							continue
						}
						yield(visit{t, q, []script{{i: d}, {}}})
					}
				}
			}
		}
	}, func(w *mc.W, v visit) { visitorCase(w, v.t, v.q, v.scripts) })
	// tapes
	tapeOps := []string{"Hint", "HintWith", "HintAt", "Warning", "WarningWith", "WarningAt", "Error", "ErrorWith", "ErrorAt"}
	// positions and texts of messages
	places := []ast.Pos{ast.NoPosition(), {}, {Line: 1, Col: 1}, {Line: 1, Col: 1, Len: 1}, {Line: 1, Col: 5, Offset: 4}, {Line: 2, Col: 1, Offset: 9, Len: 2}, {Line: 1, Col: 2, Offset: 1, Len: 70000}, {Line: 300, Col: 1000, Offset: 100000, Len: 1}}
	texts := []string{"", " ", "a", " a ", "a\n", "\ta\n\nb\n", "A.", "%", "é大", "\x00", strings.Repeat("long ", 5000), "a: b (c)"}
	mc.Each(r, func(yield func([2]int)) {
		for p := range places {
			for t := range texts {
				yield([2]int{p, t})
			}
		}
	}, func(w *mc.W, pt [2]int) {
		at, text := places[pt[0]], texts[pt[1]]
		for o, op := range tapeOps {
			o, pos := o, at
			if o%3 == 0 {
				pos = ast.NoPosition()
			}
			w.Case(fmt.Sprintf("%s of text %d at %+v", op, pt[1], at), func() string {
				where := parser.ErrorAt(at, "")
				again := 0
				mv := parser.NewMessageVisitor(func(n ast.Node, tp *parser.MessageTape) error {
					again++
					switch o {
					case 0:
						tp.Hint("%s", text)
					case 1:
						tp.HintWith(where, "%s", text)
					case 2:
						tp.HintAt(at, "%s", text)
					case 3:
						tp.Warning("%s", text)
					case 4:
						tp.WarningWith(where, "%s", text)
					case 5:
						tp.WarningAt(at, "%s", text)
					case 6:
						tp.Error("%s", text)
					case 7:
						tp.ErrorWith(where, "%s", text)
					case 8:
						tp.ErrorAt(at, "%s", text)
					}
					return nil
				})
				_, err := parser.ParseQuery("f0:1 AND f1:2", parser.Visitors(mv))
				w.Step(again)
				if (err != nil) != (o >= 6) {
					return fmt.Sprintf("error %v", err)
				}
				if err != nil {
					var pe *parser.ParseError
					if !errors.As(err, &pe) || pe.Message() != text || pe.Pos() != pos {
						return fmt.Sprintf("error %+v, expected %q at %+v", err, text, pos)
					}
				}
				if len(mv.Messages()) != 3 {
					return fmt.Sprintf("%d messages, expected 3", len(mv.Messages()))
				}
				for _, m := range mv.Messages() {
					if m.Message() != text || m.Pos() != pos {
						return fmt.Sprintf("message %q at %+v, expected %q at %+v", m.Message(), m.Pos(), text, pos)
					}
				}
				return ""
			})
		}
		// an error returned
		w.Case(fmt.Sprintf("error of text %d at %+v", pt[1], at), func() string {
			_, err := parser.ParseQuery("f0:1", parser.Visitors(parser.VisitorFunc(func(ast.Node) error { return parser.ErrorAt(at, text) })))
			var pe *parser.ParseError
			w.Step(1)
			if !errors.As(err, &pe) || pe.Message() != text || pe.Pos() != at {
				return fmt.Sprintf("error %+v, expected %q at %+v", err, text, at)
			}
			return ""
		})
		w.Trace()
	})
	type tape struct {
		q    string
		ops  [][]int // per call of the visitor
		back bool    // later messages have smaller positions
	}
	mc.Each(r, func(yield func(tape)) {
		var rec func(seq []int)
		max := 3
		if r.Thorough {
			max = 4
		}
		rec = func(seq []int) {
			// all in one call, and spread over the calls
			yield(tape{"f0:1", [][]int{seq}, false})
			yield(tape{"f0:1", [][]int{seq}, true})
			var spread [][]int
			for _, o := range seq {
				spread = append(spread, []int{o})
			}
			yield(tape{"f0:1 AND (f1:2 OR NOT f2:3)", spread, false})
			yield(tape{"f0:1 AND (f1:2 OR NOT f2:3)", spread, true})
			if len(seq) == max {
				return
			}
			for o := range tapeOps {
				rec(append(seq[:len(seq):len(seq)], o))
			}
		}
		rec(nil)
		// one message again and again
		for o := range tapeOps {
			for n := 2; n <= 6; n++ {
				seq := make([]int, n)
				for i := range seq {
					seq[i] = -1 - o
				}
				yield(tape{"f0:1", [][]int{seq}, false})
				yield(tape{"f0:1 AND f1:2", [][]int{seq[1:], seq[1:], seq}, false})
			}
		}
		for _, n := range []int{8, 9, 16, 17, 33, 64, 65, 100, 1001, 3000} {
			var seq []int
			for i := 0; i < n; i++ {
				seq = append(seq, i%6)
			}
			yield(tape{"f0:1", [][]int{seq}, false})
			yield(tape{"f0:1", [][]int{append(seq[:n-1:n-1], 8)}, false})
			yield(tape{"f0:1", [][]int{append(seq[:n-2:n-2], 7, 8)}, false})
		}
	}, func(w *mc.W, t tape) {
		w.Case(fmt.Sprintf("tape %s %v %v", t.q, t.ops, t.back), func() string {
			type msg struct {
				text string
				kind parser.MessageType
				pos  ast.Pos
			}
			var want []msg
			call := 0
			var firstErr *msg
			mv := parser.NewMessageVisitor(func(n ast.Node, tp *parser.MessageTape) error {
				if call < len(t.ops) {
					for k, o := range t.ops[call] {
						call := call
						if o < 0 {
							o, k, call = -1-o, 0, 0
						}
						text := fmt.Sprintf("%d-%d %% %s", call, k, tapeOps[o])
						pos := ast.NoPosition()
						at := errPos(call, k)
						if t.back {
							at = errPos(9-call, 9-k)
						}
						node := parser.ErrorAt(at, "")
						if o%3 != 0 {
							pos = at
						}
						switch o {
						case 0:
							tp.Hint("%d-%d %% %s", call, k, tapeOps[o])
						case 1:
							tp.HintWith(node, "%d-%d %% %s", call, k, tapeOps[o])
						case 2:
							tp.HintAt(at, "%d-%d %% %s", call, k, tapeOps[o])
						case 3:
							tp.Warning("%d-%d %% %s", call, k, tapeOps[o])
						case 4:
							tp.WarningWith(node, "%d-%d %% %s", call, k, tapeOps[o])
						case 5:
							tp.WarningAt(at, "%d-%d %% %s", call, k, tapeOps[o])
						case 6:
							tp.Error("%d-%d %% %s", call, k, tapeOps[o])
						case 7:
							tp.ErrorWith(node, "%d-%d %% %s", call, k, tapeOps[o])
						case 8:
							tp.ErrorAt(at, "%d-%d %% %s", call, k, tapeOps[o])
						}
						m := msg{text, []parser.MessageType{parser.MsgHint, parser.MsgWarning, parser.MsgError}[o/3], pos}
						want = append(want, m)
						if o >= 6 && firstErr == nil {
							firstErr = &m
						}
					}
				}
				call++
				return nil
			})
			n, err := parser.ParseQuery(t.q, parser.Visitors(mv))
			w.Step(len(want))
			if (err != nil) != (firstErr != nil) || (n == nil) != (firstErr != nil) {
				return fmt.Sprintf("tree %v, error %v, expected error %v", n, err, firstErr)
			}
			if firstErr != nil {
				var pe *parser.ParseError
				if !errors.As(err, &pe) || pe.Message() != firstErr.text || pe.Pos() != firstErr.pos {
					return fmt.Sprintf("error %v, expected %+v", err, *firstErr)
				}
			}
			var got []msg
			for _, m := range mv.Messages() {
				got = append(got, msg{m.Message(), m.Type, m.Pos()})
			}
			if fmt.Sprint(got) != fmt.Sprint(want) {
				return fmt.Sprintf("messages %v, expected %v", got, want)
			}
			return ""
		})
		w.Trace()
	})
}
