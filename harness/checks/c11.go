package checks

import (
	"fmt"
	"strings"

	"github.com/flowchartsman/aql/zz_verif/mc"
	"github.com/flowchartsman/aql/zz_verif/ref"
)

func init() {
	register(&mc.Check{
		ID: "C11",
		Rule: "a state is a query with a document; all documents of up to 5 nodes (thorough 6) over the keys a and b and five scalars with all paths of up to 3 segments and exists, null, :1, :\"s\" and their negations, 40 unusual keys each among all the others at three levels and in four spellings, " +
			"a key at every place among up to 70, an object at every place of arrays of up to 40, objects and arrays of up to 70001 with the key in the middle and at the ends, all small documents with keys that hold a dot or look like an index, paths of up to 40 segments through objects and arrays with a near miss at every level, and of up to 2000 at some, keys of up to 70000 characters. Results are compared with the model",
		Assumptions: []string{"objects with repeated keys are outside the property"},
		Need:        []string{"match", "no match"},
		Run:         runC11,
	})
}

var oddKeys = []string{"", "a", "A", "aa", "a.b", "a b", " a", "\u00e9", "\u00c9", "e\u0301", "\U0001f600", `"`, `\`, `\"`, "/", "[0]", "[", "]", "{", "}", ":", ",", "*", "?", "a*", "null", "true", "0", "-1", "1.5", "\n", "\t", "\x01", "\x00", " ", "\u00a0", "exists", "AND", "$", "a\"b", "a\\", "u0061", `\u0061`, strings.Repeat("k", 300)}

func runC11(r *mc.Run) {
	sh := &shapes{scalars: []*ref.V{ref.VNum("1"), ref.VNull(), ref.VStr("s")}, keys: []string{"a", "b"}}
	max := 5
	if r.Thorough {
		max = 6
	}
	var qs []string
	strs([]string{"a.", "b."}, 3, func(p string) {
		if p == "" {
			return
		}
		p = strings.TrimSuffix(p, ".")
		for _, op := range []string{"exists", "null", "1", `"s"`} {
			qs = append(qs, p+":"+op)
		}
		qs = append(qs, "NOT "+p+":exists", "NOT "+p+":null")
	})
	qs = append(qs, "c:exists", "a.c:exists", "a.a.c:null", "A:exists", "a.B:1", `"a.b":exists`, `"":exists`)
	ms := ask(r, qs)
	mc.EachBatch(r, 16, func(yield func(*ref.V)) {
		for n := 1; n <= max; n++ {
			for _, v := range sh.all(n) {
				yield(v)
			}
		}
		// more kinds of scalars
		sh2 := &shapes{scalars: []*ref.V{ref.VBool(true), ref.VBool(false), ref.VNum("0"), ref.VNull(), ref.VStr(""), ref.VStr(`{"a":1}`)}, keys: []string{"b", "a"}}
		for n := 1; n < max; n++ {
			for _, v := range sh2.all(n) {
				yield(v)
			}
		}
	}, func(w *mc.W, doc *ref.V) {
		text := doc.JSON()
		for _, a := range ms {
			a.check(w, model, doc, text)
		}
	})
	// keys with a dot, and such that look like an index
	qs = nil
	for _, p := range []string{"a", "b", "0", "1", "a.b", "a.a", `"a.b"`, "a.0", "a.1", `a."[0]"`, `a."[1]"`, `"a.b".a`, `a."a.b"`, "b.0", "a.0.b", "0.a", `a."[0]".b`, `"a.0"`, `"0.a"`, `a."b.0"`, "a.b.0"} {
		for _, op := range []string{"exists", "null", "1", `"s"`} {
			qs = append(qs, p+":"+op)
		}
	}
	ms = ask(r, qs)
	mc.EachBatch(r, 16, func(yield func(*ref.V)) {
		for _, keys := range [][]string{{"a", "a.b", "b"}, {"a", "0", "1"}, {"a.0", "0.a", "a"}, {"a", "b.0", "[0]"}} {
			sh := &shapes{scalars: []*ref.V{ref.VNum("1"), ref.VNull(), ref.VStr("s")}, keys: keys}
			for n := 1; n < max; n++ {
				for _, v := range sh.all(n) {
					yield(v)
				}
			}
		}
	}, func(w *mc.W, doc *ref.V) {
		text := doc.JSON()
		for _, a := range ms {
			a.check(w, model, doc, text)
		}
	})
	// unusual keys
	kinds := []string{":exists", ":null", `:"v"`, ":1"}
	qs = nil
	for _, k := range oddKeys {
		for _, p := range [][]string{{k}, {"a", k}, {k, "a"}, {k, k}} {
			for _, c := range kinds {
				qs = append(qs, quoteField(p)+c)
			}
		}
	}
	ms = ask(r, qs)
	mc.EachBatch(r, 1, func(yield func(*ref.V)) {
		for _, v := range []*ref.V{ref.VNum("1"), ref.VStr("v"), ref.VNull(), ref.VArr(), ref.VObj()} {
			for _, k := range oddKeys {
				// alone, among all others, at the other levels
				yield(ref.VObj(k, v))
				yield(ref.VObj(k, ref.VObj("a", v)))
				yield(ref.VObj("a", ref.VObj(k, v)))
				yield(ref.VObj(k, ref.VObj(k, v)))
				yield(ref.VObj("a", ref.VArr(v, v, ref.VObj(k, v))))
				yield(ref.VObj(k, ref.VArr(v, ref.VArr(v), ref.VObj("a", v))))
				o := ref.VObj()
				var decoy string
				for _, x := range oddKeys {
					e := v
					if x == k {
						e = ref.VBool(false)
					}
					o.Keys = append(o.Keys, x)
					o.Elems = append(o.Elems, e)
					decoy += `,"` + x + `":1`
				}
				yield(o)
				yield(ref.VArr(o))
				o2 := ref.VObj()
				for _, x := range oddKeys {
					if x != k {
						o2.Keys = append(o2.Keys, x)
						o2.Elems = append(o2.Elems, ref.VObj(k, v, "z", ref.VStr(decoy)))
					}
				}
				yield(o2)
			}
		}
	}, func(w *mc.W, doc *ref.V) {
		for si, st := range []ref.Style{{}, {Space: " \n", Escape: 1}, {Escape: 2, Slash: true}, {Reverse: true, Escape: 3}} {
			text := doc.Styled(st)
			for i, a := range ms {
				if (i+si)%4 == 0 || len(doc.Keys) == 1 || r.Thorough {
					a.check(w, model, doc, text)
				}
			}
		}
	})
	// many keys, long arrays
	ms = ask(r, []string{"k:exists", "k:null", "k:1", "x.k:exists", "x.k:null", "x.k:1", "x:exists", "NOT x.k:1", "k.x:1"})
	mc.EachBatch(r, 1, func(yield func(*ref.V)) {
		for _, n := range []int{1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 40, 63, 64, 65, 70} {
			for i := 0; i < n; i++ {
				for _, v := range []*ref.V{ref.VNum("1"), ref.VNull()} {
					o := ref.VObj()
					for j := 0; j < n; j++ {
						key, e := fmt.Sprintf("k%d", j), []*ref.V{ref.VNum("2"), ref.VObj("k", ref.VNum("3")), ref.VArr(ref.VObj("k", ref.VNum("4"))), ref.VStr(`"k":1`), ref.VNull(), ref.VObj("x", ref.VObj("k", ref.VNum("1")))}[j%6]
						if j == i {
							key, e = "k", v
						}
						o.Keys = append(o.Keys, key)
						o.Elems = append(o.Elems, e)
					}
					yield(o)
					yield(ref.VObj("y", ref.VNum("1"), "x", o))
					if n > 40 {
						continue
					}
					arr := ref.VArr()
					arr2 := ref.VArr()
					for j := 0; j < n; j++ {
						e := []*ref.V{ref.VObj("j", ref.VNum("1")), ref.VNum("1"), ref.VArr(ref.VObj("k", ref.VNum("1"))), ref.VObj(), ref.VStr("k"), ref.VNull(), ref.VObj("k", ref.VNull())}[j%7]
						f := ref.VObj("k", ref.VNull())
						if j == i {
							e, f = ref.VObj("k", v), ref.VObj("k", v)
						}
						arr.Elems = append(arr.Elems, e)
						arr2.Elems = append(arr2.Elems, f)
					}
					yield(ref.VObj("x", arr))
					yield(ref.VObj("x", arr2))
					yield(ref.VObj("z", arr, "x", arr2, "k", ref.VNum("9")))
					yield(arr)
				}
			}
		}
	}, func(w *mc.W, doc *ref.V) {
		text := doc.JSON()
		for _, a := range ms {
			a.check(w, model, doc, text)
		}
	})
	// large objects and arrays
	mc.EachBatch(r, 1, func(yield func(*ref.V)) {
		for _, n := range []int{100, 127, 128, 129, 255, 256, 257, 500, 1000, 1025, 4097, 10001, 70001} {
			for _, i := range []int{-1, 0, n / 2, n - 1} {
				o, arr, own, nulls := ref.VObj(), ref.VArr(), ref.VArr(), ref.VArr()
				for j := 0; j < n; j++ {
					key, v := fmt.Sprintf("k%d", j), ref.VNum("2")
					if j == i {
						key, v = "k", ref.VNum("1")
					}
					o.Keys, o.Elems = append(o.Keys, key), append(o.Elems, v)
					arr.Elems = append(arr.Elems, ref.VObj(key, v))
					own.Elems = append(own.Elems, ref.VObj("k", v))
					if j != i {
						v = ref.VNull()
					}
					nulls.Elems = append(nulls.Elems, ref.VObj("k", v))
				}
				yield(ref.VObj("x", nulls))
				yield(o)
				yield(ref.VObj("x", o))
				yield(ref.VObj("x", arr))
				yield(ref.VObj("x", own))
				yield(ref.VObj("y", arr, "x", ref.VArr(ref.VObj("k", ref.VNum("1")))))
				long := ref.VStr(strings.Repeat("y", n))
				yield(ref.VObj("x", ref.VArr(ref.VObj("y", long, "k", ref.VNum("1"))), "k", ref.VNull()))
				yield(ref.VObj("x", ref.VObj("k", long)))
			}
		}
	}, func(w *mc.W, doc *ref.V) {
		text := doc.JSON()
		for _, a := range ms {
			a.check(w, model, doc, text)
		}
	})
	// long keys
	mc.EachBatch(r, 1, mc.Slice([]int{300, 1000, 1025, 4097, 5001, 70000}), func(w *mc.W, n int) {
		k := strings.Repeat("k", n)
		var as []asked
		for _, q := range []string{k + ":exists", k + ":1", "a." + k + ":exists", k + "." + k + ":null", `"` + k + ` ":1`, k[1:] + ":exists", k + "k:exists"} {
			t, err := ref.Parse(q)
			if err != nil {
				panic(err.String())
			}
			m := newMatcher(w, q)
			if m == nil {
				return
			}
			as = append(as, asked{q, t, m})
		}
		for _, doc := range []*ref.V{ref.VObj(k, ref.VNum("1")), ref.VObj(k+"k", ref.VNum("1"), k, ref.VNum("2")), ref.VObj("a", ref.VArr(ref.VObj(k, ref.VNull()))), ref.VObj(k, ref.VObj(k, ref.VNull(), k+" ", ref.VNum("1"))), ref.VObj(k+" ", ref.VNum("1")), ref.VObj(k[1:], ref.VNum("1"))} {
			text := doc.JSON()
			for _, a := range as {
				a.check(w, model, doc, text)
			}
		}
		w.Trace()
	})
	// long paths
	mc.EachBatch(r, 1, func(yield func(int)) {
		for n := 1; n <= 40; n++ {
			yield(n)
		}
		for _, n := range []int{64, 65, 100, 101, 128, 129, 200, 256, 257, 512, 1000, 2000} {
			yield(n)
		}
	}, func(w *mc.W, n int) {
		var path []string
		for i := 0; i < n; i++ {
			path = append(path, fmt.Sprintf("s%d", i%7))
		}
		var as []asked
		for _, c := range []string{":exists", ":null", ":1"} {
			q := strings.Join(path, ".") + c
			t, err := ref.Parse(q)
			if err != nil {
				panic(err.String())
			}
			m := newMatcher(w, q)
			if m == nil {
				return
			}
			as = append(as, asked{q, t, m})
		}
		w.Trace()
		// at one level, something else: -1 nothing, 0 an array around, 1 two
		// arrays, 2 another key, 3 a level missing, 4 a level more
		for level := 0; level < n; level++ {
			for what := -1; what < 5; what++ {
				if what == -1 && level > 0 || n > 40 && level > 1 && level != n/2 && level < n-2 {
					continue
				}
				for _, leaf := range []*ref.V{ref.VNum("1"), ref.VNull()} {
					v := leaf
					for i := n - 1; i >= 0; i-- {
						if i != level || what < 0 {
							v = ref.VObj("o", ref.VNum("1"), path[i], v)
							continue
						}
						switch what {
						case 0:
							v = ref.VObj(path[i], ref.VArr(ref.VNum("1"), v, ref.VObj("x", ref.VNull())))
						case 1:
							v = ref.VObj(path[i], ref.VArr(ref.VArr(v)))
						case 2:
							v = ref.VObj(path[i]+"x", v)
						case 4:
							v = ref.VObj(path[i], ref.VObj("x", v))
						}
					}
					text := v.JSON()
					for _, a := range as {
						a.check(w, model, v, text)
					}
				}
			}
		}
	})
}
