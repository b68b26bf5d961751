package checks

import (
	"fmt"
	"strings"

	"github.com/flowchartsman/aql/zz_verif/mc"
	"github.com/flowchartsman/aql/zz_verif/ref"
)

// shapes enumerates all JSON values of exactly n nodes with the given scalars
// and object keys; the keys of an object are distinct, in every order.
type shapes struct {
	scalars []*ref.V
	keys    []string
	memo    map[int][]*ref.V
}

func (s *shapes) all(n int) []*ref.V {
	if s.memo == nil {
		s.memo = map[int][]*ref.V{}
	}
	if vs, ok := s.memo[n]; ok {
		return vs
	}
	var out []*ref.V
	if n == 1 {
		out = append(out, s.scalars...)
	}
	if n >= 1 {
		s.members(n-1, func(elems []*ref.V) {
			out = append(out, ref.VArr(append([]*ref.V{}, elems...)...))
			s.orders(len(elems), func(keys []string) {
				o := &ref.V{K: ref.Obj, Keys: append([]string{}, keys...), Elems: append([]*ref.V{}, elems...)}
				out = append(out, o)
			})
		})
	}
	s.memo[n] = out
	return out
}

// members enumerates all sequences of values with n nodes together.
func (s *shapes) members(n int, yield func([]*ref.V)) {
	var rec func(n int, cur []*ref.V)
	rec = func(n int, cur []*ref.V) {
		if n == 0 {
			yield(cur)
			return
		}
		for k := 1; k <= n; k++ {
			for _, v := range s.all(k) {
				rec(n-k, append(cur[:len(cur):len(cur)], v))
			}
		}
	}
	rec(n, nil)
}

// orders enumerates all sequences of n distinct keys.
func (s *shapes) orders(n int, yield func([]string)) {
	var rec func(cur []string)
	rec = func(cur []string) {
		if len(cur) == n {
			yield(cur)
			return
		}
	next:
		for _, k := range s.keys {
			for _, c := range cur {
				if c == k {
					continue next
				}
			}
			rec(append(cur[:len(cur):len(cur)], k))
		}
	}
	rec(nil)
}

// model evaluates queries without times that need interpretation.
var model = &ref.Model{
	Time:  func(string) (ref.Instant, bool) { return ref.Instant{}, false },
	Loose: func(string, string) bool { panic("non-ASCII term") },
}

// asked is a query with its matcher and its model.
type asked struct {
	q    string
	tree *ref.Node
	m    matcher
}

type matcher interface {
	Match([]byte) (bool, error)
}

// ask builds the matchers of accepted queries.
func ask(r *mc.Run, qs []string) []asked {
	var out []asked
	r.One(func(w *mc.W) {
		for _, q := range qs {
			t, err := ref.Parse(q)
			if err != nil {
				panic(fmt.Sprintf("%s: %v", q, err))
			}
			if m := newMatcher(w, q); m != nil {
				out = append(out, asked{q, t, m})
			}
			w.Trace()
		}
	})
	return out
}

// check compares the results of a query with the model's.
func (a asked) check(w *mc.W, m *ref.Model, doc *ref.V, text string) {
	want := m.Match(a.tree, doc)
	w.Case(a.q+" ON "+text, func() string {
		got, err := a.m.Match([]byte(text))
		w.Step(1)
		if err != nil {
			return fmt.Sprintf("error %v", err)
		}
		if want {
			w.Outcome("match")
		} else {
			w.Outcome("no match")
		}
		if got != want {
			return fmt.Sprintf("result %v, expected %v", got, want)
		}
		return ""
	})
}

// quoteField writes a path as a field of a query, every segment in quotes.
func quoteField(path []string) string {
	var parts []string
	for _, p := range path {
		var sb strings.Builder
		ref.WriteString(&sb, p, ref.Style{})
		parts = append(parts, sb.String())
	}
	return strings.Join(parts, ".")
}
