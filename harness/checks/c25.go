package checks

import (
	"fmt"
	"sort"
	"strings"

	"github.com/flowchartsman/aql/sampler"
	"github.com/flowchartsman/aql/zz_verif/mc"
	"github.com/flowchartsman/aql/zz_verif/ref"
)

func init() {
	register(&mc.Check{
		ID: "C25",
		Rule: "a state is a document with a depth limit; all documents of up to 6 (thorough 7) values with two scalars and three keys, all of up to 4 with every kind of scalar and five keys, in compact and in spaced layout, for each limit from -2 to 5; all nestings of objects and arrays of up to 7 (thorough 9) levels above each kind of scalar, " +
			"chains of up to 200 levels with every limit and of up to 3000, objects and arrays of up to 300 members with the odd member at every place and of up to 20000, documents of up to 6 MB (thorough 40 MB), keys of 27 kinds and 27 with characters of syntax. The keys are compared with the model's",
		Light: true,
		Need:  []string{"no key", "one key", "several keys", "cut off"},
		Run:   runC25,
	})
}

func keyList(m map[string]bool) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func sorted(s []string) []string {
	s = append([]string{}, s...)
	sort.Strings(s)
	return s
}

func sampleCase(w *mc.W, doc *ref.V, text string, limit int) {
	w.Case(fmt.Sprintf("limit %d: %s", limit, text), func() string {
		s := sampler.New(limit)
		err := s.Sample([]byte(text))
		w.Step(1)
		if err != nil {
			return fmt.Sprintf("error %v", err)
		}
		all := ref.Keys(doc, limit)
		got, want := sorted(s.Keys()), keyList(all)
		switch {
		case limit >= 0 && len(ref.Keys(doc, -1)) > len(all):
			w.Outcome("cut off")
		case len(all) == 0:
			w.Outcome("no key")
		case len(all) == 1:
			w.Outcome("one key")
		default:
			w.Outcome("several keys")
		}
		if strings.Join(got, "\n") != strings.Join(want, "\n") {
			return fmt.Sprintf("keys are %q, expected %q", got, want)
		}
		if s.Scanned() != 1 {
			return fmt.Sprintf("%d documents scanned", s.Scanned())
		}
		return ""
	})
}

var scalarKinds = []*ref.V{ref.VNull(), ref.VBool(true), ref.VBool(false), ref.VNum("0"), ref.VNum("-1.5e3"), ref.VStr(""), ref.VStr("x"), ref.VStr("a.b"), ref.VStr(`{"q":1}`), ref.VStr("\"]}\\")}

func runC25(r *mc.Run) {
	limits := []int{-2, -1, 0, 1, 2, 3, 4, 5}
	st := ref.Style{Space: " \n\t"}
	docs := func(s *shapes, n int, yield func(*ref.V)) {
		for i := 1; i <= n; i++ {
			for _, v := range s.all(i) {
				if !v.Scalar() {
					yield(v)
				}
			}
		}
	}
	all := func(w *mc.W, v *ref.V) {
		text := v.JSON()
		for _, l := range limits {
			sampleCase(w, v, text, l)
		}
		spaced := strings.TrimSpace(v.Styled(st))
		sampleCase(w, v, spaced, -1)
		sampleCase(w, v, spaced, 1)
		w.Trace()
	}
	n := 5
	if r.Thorough {
		n = 6
	}
	if r.Deep {
		n = 7
	}
	mc.Each(r, func(yield func(*ref.V)) {
		docs(&shapes{scalars: []*ref.V{ref.VNum("1"), ref.VNull()}, keys: []string{"a", "b", "x y"}}, n, yield)
	}, all)
	mc.Each(r, func(yield func(*ref.V)) {
		docs(&shapes{scalars: scalarKinds, keys: []string{"a", "a b", "", "é", "NOT"}}, 3, yield)
		if r.Thorough {
			docs(&shapes{scalars: scalarKinds[:4], keys: []string{"a", "a b", "", "é", "NOT"}}, 4, yield)
		}
	}, all)
	// nestings: every sequence of object levels (two keys) and array levels
	// (alone, before, after a scalar and an object)
	mc.Each(r, func(yield func(*ref.V)) {
		depth := 5
		if r.Thorough {
			depth = 7
		}
		if r.Deep {
			depth = 9
		}
		var rec func(v *ref.V, d int)
		rec = func(v *ref.V, d int) {
			if !v.Scalar() {
				yield(v)
			}
			if d == 0 {
				return
			}
			rec(ref.VObj("a", v), d-1)
			rec(ref.VObj("p q", ref.VNum("1"), "a", v), d-1)
			rec(ref.VArr(v), d-1)
			rec(ref.VArr(v, ref.VObj("z", ref.VNum("2")), ref.VNum("3")), d-1)
			rec(ref.VArr(ref.VArr(ref.VObj("hid", ref.VNum("1"))), v), d-1)
		}
		for _, s := range []*ref.V{ref.VNum("1"), ref.VNull(), ref.VArr(), ref.VObj()} {
			rec(s, depth)
		}
	}, all)
	// keys with a character of syntax in them
	mc.Each(r, func(yield func(*ref.V)) {
		for _, k := range []string{".", "a.b", ".a", "a.", "a..b", "a.b c", "[0]", "a[0]", "*", "a*", ":", "a:1", "(a)", "/a/", "'a'", "a,b", "!a", "~", "<a>", "a-b", "_", "0", "-1", "1.5", "true", "null", "exists"} {
			yield(ref.VObj(k, ref.VNum("1")))
			yield(ref.VObj("x", ref.VObj(k, ref.VNum("1"), "y z", ref.VNum("2"))))
			yield(ref.VArr(ref.VObj(k, ref.VObj("x", ref.VNull())), ref.VObj("x", ref.VObj(k, ref.VNum("1")))))
			yield(ref.VObj(k, ref.VArr(ref.VObj(k, ref.VStr("s")))))
		}
	}, all)
	// very long chains
	mc.EachBatch(r, 1, func(yield func(*ref.V)) {
		for _, d := range []int{400, 1000, 1025, 3000} {
			v, u := ref.VNum("1"), ref.VNum("1")
			for i := 0; i < d; i++ {
				v = ref.VObj("k", v)
				u = ref.VObj("k", ref.VArr(u))
			}
			yield(v)
			yield(u)
		}
	}, func(w *mc.W, v *ref.V) {
		text := v.JSON()
		for _, l := range []int{-1, 1, 399, 400, 1000, 2999, 3000} {
			sampleCase(w, v, text, l)
		}
		w.Trace()
	})
	// long chains
	mc.EachBatch(r, 1, func(yield func(*ref.V)) {
		for _, d := range []int{7, 8, 9, 10, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200} {
			for kind := 0; kind < 3; kind++ {
				v := ref.VNum("1")
				for i := 0; i < d; i++ {
					switch {
					case kind == 0 || kind == 1 && i%2 == 0:
						v = ref.VObj(fmt.Sprintf("k%d", i), v)
					case kind == 1:
						v = ref.VArr(v)
					default:
						v = ref.VObj(strings.Repeat("k", d), v, "z z", ref.VNull())
					}
				}
				yield(v)
			}
		}
	}, func(w *mc.W, v *ref.V) {
		text := v.JSON()
		for l := -1; l < 210; l++ {
			if l < 40 || l > 195 || l%9 == 0 || (l+1)%32 < 4 {
				sampleCase(w, v, text, l)
			}
		}
		w.Trace()
	})
	// many members
	mc.EachBatch(r, 4, func(yield func(*ref.V)) {
		for _, n := range []int{3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300} {
			for at := 0; at < n; at++ {
				if n > 33 && at > 2 && at < n-3 && at%16 != 0 && !r.Thorough {
					continue
				}
				odd := ref.VObj("deep", ref.VArr(ref.VObj("er", ref.VBool(true))))
				o, a, m := &ref.V{K: ref.Obj}, &ref.V{K: ref.Arr}, &ref.V{K: ref.Arr}
				for i := 0; i < n; i++ {
					e := ref.VNum("1")
					if i == at {
						e = odd
					}
					o.Keys, o.Elems = append(o.Keys, fmt.Sprintf("k%d", i)), append(o.Elems, e)
					a.Elems = append(a.Elems, e)
					if i != at {
						e = ref.VObj(fmt.Sprintf("m%d", i), ref.VNull())
					}
					m.Elems = append(m.Elems, e)
				}
				yield(o)
				yield(a)
				yield(ref.VObj("in", a, "then", ref.VNum("1")))
				yield(m)
				yield(ref.VArr(o))
			}
		}
	}, func(w *mc.W, v *ref.V) {
		text := v.JSON()
		for _, l := range []int{-1, 1, 2, 3} {
			sampleCase(w, v, text, l)
		}
		w.Trace()
	})
	// very many members
	mc.EachBatch(r, 1, func(yield func(*ref.V)) {
		for _, n := range []int{500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2000, 4096, 4097, 5000, 10000, 20000} {
			o, m := &ref.V{K: ref.Obj}, &ref.V{K: ref.Arr}
			for i := 0; i < n; i++ {
				o.Keys, o.Elems = append(o.Keys, fmt.Sprintf("k%d", i)), append(o.Elems, ref.VNum("1"))
				m.Elems = append(m.Elems, ref.VObj(fmt.Sprintf("m%d", i), ref.VNull()))
			}
			yield(o)
			yield(m)
			yield(ref.VObj("in", o, "then", m))
		}
	}, func(w *mc.W, v *ref.V) {
		text := v.JSON()
		for _, l := range []int{-1, 1, 2} {
			sampleCase(w, v, text, l)
		}
		w.Trace()
	})
	// very long documents
	sizes := []int{10000, 65535, 65536, 100000, 1 << 20, 1<<20 + 1, 3000000}
	if r.Deep {
		sizes = append(sizes, 5000000, 10000000, 20000000)
	}
	mc.EachBatch(r, 1, func(yield func(*ref.V)) {
		for _, n := range sizes {
			long := ref.VStr(strings.Repeat("lorem {\"}:", n/10))
			many := &ref.V{K: ref.Arr}
			for i := 0; i < n/40; i++ {
				many.Elems = append(many.Elems, ref.VObj("name", ref.VStr("some value"), "n", ref.VNum("12345678")))
			}
			yield(ref.VObj("a", long, "b", ref.VNum("1")))
			yield(ref.VObj("b", ref.VArr(long, ref.VObj("c", long))))
			yield(ref.VObj("x", ref.VObj(strings.Repeat("k", n), ref.VNull()), "y", ref.VNull()))
			yield(many)
			yield(ref.VObj("in", many, "then", ref.VObj("z", ref.VBool(true))))
		}
	}, func(w *mc.W, v *ref.V) {
		text := v.JSON()
		for _, l := range []int{-1, 1} {
			sampleCase(w, v, text, l)
		}
		w.Trace()
	})
	// kinds of keys, at every place of a path
	keys := []string{"a", "A", "0", "-", "_", "a-b", " ", "a ", " a", "a b c", "NOT", "AND", "OR", "exists", "null", "true", "é", "大", "😀", "", ":", "(", ",", "*", "/", "'", strings.Repeat("k", 300)}
	mc.Each(r, func(yield func(*ref.V)) {
		for _, k := range keys {
			for _, l := range keys {
				yield(ref.VObj(k, ref.VNum("1"), k+"x", ref.VObj(l, ref.VArr(ref.VObj(k, ref.VNull())))))
				yield(ref.VArr(ref.VObj(k, ref.VObj(l, ref.VNum("1"))), ref.VObj(l, ref.VNum("2"))))
			}
		}
	}, all)
	// a key many times in one document
	mc.Each(r, func(yield func(*ref.V)) {
		for n := 0; n <= 40; n++ {
			a := &ref.V{K: ref.Arr}
			for i := 0; i < n; i++ {
				a.Elems = append(a.Elems, ref.VObj("k", ref.VNum("1"), fmt.Sprintf("only%d", i%3), ref.VArr()))
			}
			yield(a)
			yield(ref.VObj("k", a))
		}
	}, all)
}
