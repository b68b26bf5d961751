package checks

import (
	"fmt"
	"strings"
	"sync"

	"github.com/flowchartsman/aql/jsonmatcher"
	"github.com/flowchartsman/aql/sampler"
	"github.com/flowchartsman/aql/zz_verif/mc"
	"github.com/flowchartsman/aql/zz_verif/ref"
)

func init() {
	register(&mc.Check{
		ID: "C28",
		Rule: "a state is a document with one of its sampled paths, or with a field that may be one; all documents of up to 5 (thorough 6) values with four sets of keys of 20 kinds (names, numbers, operators, reserved words, spaces), all pairs of these keys nested, keys of one to three characters of the 65 allowed ones, paths of up to 40 segments. " +
			"Every sampled path is asked with exists, and of every sequence of up to 3 keys the comparisons with each kind of scalar are asked and the holding ones looked up among the sampled paths",
		Light: true,
		Need:  []string{"sampled", "compared and sampled", "not compared"},
		Run:   runC28,
	})
}

// matchers keeps matchers by query.
type matchers struct{ m sync.Map }

func (c *matchers) get(q string) (*jsonmatcher.Matcher, error) {
	if m, ok := c.m.Load(q); ok {
		return m.(*jsonmatcher.Matcher), nil
	}
	m, err := jsonmatcher.NewMatcher(q)
	if err == nil {
		c.m.Store(q, m)
	}
	return m, err
}

func runC28(r *mc.Run) {
	var cache matchers
	forward := func(w *mc.W, d *ref.V, text string) map[string]bool {
		keys := map[string]bool{}
		w.Case("sample "+text, func() string {
			s := sampler.New(-1)
			w.Step(1)
			if err := s.Sample([]byte(text)); err != nil {
				return fmt.Sprintf("error %v", err)
			}
			for _, k := range s.Keys() {
				keys[k] = true
			}
			return ""
		})
		for _, k := range keyList(keys) {
			k := k
			w.Case(k+":exists ON "+text, func() string {
				m, err := cache.get(k + ":exists")
				if err != nil {
					return fmt.Sprintf("the sampled path %s is no field: %v", k, err)
				}
				got, err := m.Match([]byte(text))
				w.Step(1)
				w.Outcome("sampled")
				if err != nil || !got {
					return fmt.Sprintf("%s:exists gives %v, %v", k, got, err)
				}
				return ""
			})
		}
		return keys
	}
	// comparisons, one of which holds of every scalar but null
	var vals = []string{`("*", /^/, 1, true)`, `<=9`, `>=0`, `false`, `~"*"`, `1`, `"s"`, `/./`, `><(0,9)`, `true`}
	backward := func(w *mc.W, d *ref.V, text string, keys map[string]bool, fields [][]string) {
		for _, f := range fields {
			for _, v := range vals {
				q := quoteField(f) + ":" + v
				name := sampledName(f)
				w.Case(q+" ON "+text, func() string {
					m, err := cache.get(q)
					if err != nil {
						return fmt.Sprintf("rejected: %v", err)
					}
					got, err := m.Match([]byte(text))
					w.Step(1)
					if err != nil {
						return fmt.Sprintf("error %v", err)
					}
					if !got {
						w.Outcome("not compared")
						return ""
					}
					w.Outcome("compared and sampled")
					if !keys[name] {
						return fmt.Sprintf("it matches, but %s is not among the sampled paths %q", name, keyList(keys))
					}
					return ""
				})
			}
		}
	}
	scalars := []*ref.V{ref.VNum("1"), ref.VStr("s"), ref.VBool(true), ref.VNull()}
	sets := [][]string{{"a", "x y"}, {"NOT", "1"}, {"exists", "-"}, {"null", " "}}
	n := 4
	if r.Thorough {
		n = 5
	}
	if r.Deep {
		n = 6
	}
	for _, set := range sets {
		var fields [][]string
		for _, a := range set {
			fields = append(fields, []string{a})
			for _, b := range set {
				fields = append(fields, []string{a, b})
				for _, c := range set {
					fields = append(fields, []string{a, b, c})
				}
			}
		}
		s := &shapes{scalars: scalars, keys: set}
		mc.Each(r, func(yield func(*ref.V)) {
			for i := 1; i <= n; i++ {
				for _, v := range s.all(i) {
					if v.K == ref.Obj {
						yield(v)
					}
				}
			}
		}, func(w *mc.W, d *ref.V) {
			text := d.JSON()
			backward(w, d, text, forward(w, d, text), fields)
			w.Trace()
		})
	}
	keys := []string{"a", "Z", "b-c", "b_c", "x y", "NOT", "AND", "OR", "not", "exists", "null", "true", "false", "1", "-", "_", "0a", " ", "a ", " a", "  ", "10-0", "2020-01-02", "-1"}
	mc.Each(r, func(yield func(*ref.V)) {
		for _, k := range keys {
			for _, l := range keys {
				yield(ref.VObj(k, ref.VObj(l, ref.VNum("1")), k+"x", ref.VArr(ref.VObj(l, ref.VStr("s")), ref.VNull())))
				yield(ref.VObj(k, ref.VArr(ref.VObj(l, ref.VArr(ref.VNum("1"))), ref.VBool(false)), l+" x", ref.VNum("2")))
			}
		}
	}, func(w *mc.W, d *ref.V) {
		text := d.JSON()
		var fields [][]string
		for i, k := range d.Keys {
			fields = append(fields, []string{k}, []string{k, "nope"})
			e := d.Elems[i]
			if e.K == ref.Arr {
				e = e.Elems[0]
			}
			if e.K == ref.Obj {
				fields = append(fields, []string{k, e.Keys[0]}, []string{k, e.Keys[0], e.Keys[0]})
			}
		}
		backward(w, d, text, forward(w, d, text), fields)
		w.Trace()
	})
	var allowed []string
	for c := 'a'; c <= 'z'; c++ {
		allowed = append(allowed, string(c), string(c-32))
	}
	allowed = append(allowed, chars("0123456789_- ")...)
	mc.Each(r, func(yield func(string)) {
		for _, a := range allowed {
			yield(a)
			for _, b := range allowed {
				yield(a + b)
				if r.Thorough {
					for _, c := range allowed {
						yield(a + b + c)
					}
				}
			}
		}
	}, func(w *mc.W, k string) {
		for _, d := range []*ref.V{ref.VObj(k, ref.VNum("1")), ref.VObj("p", ref.VArr(ref.VObj(k, ref.VNull(), "other", ref.VObj(k, ref.VStr("s")))))} {
			forward(w, d, d.JSON())
		}
		w.Trace()
	})
	mc.EachBatch(r, 1, func(yield func(*ref.V)) {
		for _, n := range []int{3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 24, 31, 32, 33, 40} {
			for kind := 0; kind < 5; kind++ {
				v := ref.VNum("1")
				for i := 0; i < n; i++ {
					k := []string{"k", "a b", "NOT", "1", keys[i%len(keys)]}[kind]
					v = ref.VObj(k, v)
					if i%3 == 2 {
						v = ref.VObj(k, ref.VArr(v))
					}
				}
				yield(v)
				yield(ref.VObj(strings.Repeat("k", n), v, strings.Repeat("- ", n), v))
			}
		}
	}, func(w *mc.W, d *ref.V) {
		forward(w, d, d.JSON())
		w.Trace()
	})
}

// sampledName is how the sampler writes a path.
func sampledName(path []string) string {
	segs := make([]string, len(path))
	for i, s := range path {
		segs[i] = s
		if strings.Contains(s, " ") {
			segs[i] = `"` + s + `"`
		}
	}
	return strings.Join(segs, ".")
}
