package checks

import (
	"fmt"
	"runtime"
	"strings"

	"github.com/flowchartsman/aql/parser"
	"github.com/flowchartsman/aql/parser/ast"
	"github.com/flowchartsman/aql/zz_verif/mc"
	"github.com/flowchartsman/aql/zz_verif/ref"
)

func init() {
	register(&mc.Check{
		ID: "C09",
		Rule: "a state is a nested query; 22 ways to nest one level and all pairs of them in alternation, every depth up to 12 and then up to 160 (thorough 600), complete, without the closing parentheses, without the innermost comparison, with text after it, with a visitor. " +
			"The effort is the number of memory allocations of the parse, which does not depend on the machine; per byte it may be at most four times what it is for the same shape at depth 4. Outcome compared with the model",
		Need: []string{"accepted", "rejected"},
		Run:  runC09,
	})
}

func allocations(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.Mallocs - a.Mallocs
}

func runC09(r *mc.Run) {
	type shape struct{ pre, post string }
	shapes := []shape{
		{"(", ")"}, {"( ", " )"}, {"NOT (", ")"}, {"!(", ")"}, {"NOT ", ""}, {"!", ""}, {"! ", ""},
		{"(b:1 AND ", ")"}, {"(b:1 OR ", ")"}, {"(", " AND b:1)"}, {"(", " OR b:1)"}, {"b:1 AND ", ""}, {"b:1 OR ", ""}, {"", " AND b:1"}, {"", " OR b:1"},
		{"(b:1 AND (", ") OR c:2)"}, {"(b:1 OR (", ") AND c:2)"}, {"NOT (b:1 AND NOT (", ") OR c:2)"}, {"b:1 AND c:2 OR ", ""}, {"((", "))"},
		{"(\n", "\n)"}, {`("x":"y" AND `, ")"},
	}
	max := 160
	if r.Thorough {
		max = 600
	}
	depths := []int{4, 1, 2, 3, 5, 6, 7, 8, 9, 10, 11, 12, 14, 16, 18, 20, 25, 32, 40, 64}
	for d := 100; d < max; d += 100 {
		depths = append(depths, d)
	}
	depths = append(depths, max)
	build := func(a, b shape, inner string, d, closing int) string {
		var pre, post string
		for i := 0; i < d; i++ {
			s := a
			if i%2 == 1 {
				s = b
			}
			pre += s.pre
			post = s.post + post
		}
		switch closing {
		case 1: // not closed
			return pre + inner
		case 2: // half closed
			return pre + inner + post[:len(post)/2]
		case 3:
			return pre + inner + post + " x"
		}
		return pre + inner + post
	}
	r.One(func(w *mc.W) {
		worst := 0.0
		for ai, a := range shapes {
			for bi, b := range shapes {
				for vi, v := range []struct {
					inner   string
					closing int
					visitor bool
				}{{"a:1", 0, false}, {"a:1", 1, false}, {"", 0, false}, {"a:", 2, false}, {"a:1", 3, false}, {"a:1", 0, true}, {"a:1", 1, true}} {
					if ai != bi && !r.Thorough && vi > 1 {
						continue
					}
					base := 0.0
					for _, d := range depths {
						if r.Stopped() {
							return
						}
						if ai != bi && !r.Thorough && d != 4 && d != 8 && d != 14 && d != 20 && d != 40 {
							continue
						}
						q := build(a, b, v.inner, d, v.closing)
						if strings.TrimSpace(q) == "" {
							continue
						}
						key := fmt.Sprintf("%q/%q depth %d inner %q ending %d", a, b, d, v.inner, v.closing)
						var opts []parser.Option
						if v.visitor {
							key += " with a visitor"
							opts = append(opts, parser.Visitors(parser.VisitorFunc(func(ast.Node) error { return nil })))
						}
						ok := w.Case(key, func() string {
							var n any
							var err error
							count := allocations(func() { n, err = parser.ParseQuery(q, opts...) })
							_ = n
							w.Step(d)
							_, rerr := ref.Parse(q)
							if rerr == nil {
								w.Outcome("accepted")
							} else {
								w.Outcome("rejected")
							}
							if (err == nil) != (rerr == nil) {
								return fmt.Sprintf("error %v, expected %v", err, rerr)
							}
							per := float64(count+200) / float64(len(q))
							if d == 4 {
								base = per
							}
							if d > 4 && per/base > worst {
								worst = per / base
							}
							if d > 4 && per > 4*base {
								return fmt.Sprintf("%d allocations for %d bytes, %.0f per byte; %.0f per byte at depth 4", count, len(q), per, base)
							}
							return ""
						})
						w.Trace()
						if !ok {
							return
						}
					}
				}
			}
		}
		r.Set("worst_growth_per_byte", worst)
	})
}
