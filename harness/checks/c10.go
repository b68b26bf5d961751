package checks

import (
	"fmt"
	"strings"
	"sync"

	"github.com/flowchartsman/aql/jsonmatcher"
	"github.com/flowchartsman/aql/zz_verif/mc"
	"github.com/flowchartsman/aql/zz_verif/ref"
)

func init() {
	register(&mc.Check{
		ID: "C10",
		Rule: "a state is a query with a document; all trees of up to 4 comparisons with negations everywhere (5 without, thorough 6), the comparisons of 12 kinds, each satisfied, not satisfied or without field, " +
			"all trees of up to 3 comparisons of one field with arrays of values, all trees of 2 out of 56 comparisons of four fields (all operators, neighbouring and overlapping values, keys with a dot) with 58 documents, chains and nestings of up to 64 with one odd operand at every place. The result is compared with the formula over the results of the comparisons asked alone",
		Light: true,
		Need:  []string{"match", "no match"},
		Run:   runC10,
	})
}

// kinds of comparison with a value that satisfies it and one that does not.
var kinds = []struct{ cmp, yes, no string }{
	{"1", "1", "2"},
	{`"s"`, `"an s."`, `"as"`},
	{"<5", "4", `"5"`},
	{"exists", "null", ""},
	{"null", "null", "0"},
	{"true", "true", `"true"`},
	{`~"s"`, `["x","s"]`, "[]"},
	{"/^r+$/", `"rr"`, `"Rr"`},
	{`(1,"x")`, `"x"`, `{"x":1}`},
	{"10.0.0.0/8", `"from 10.1.2.3"`, `"11.1.2.3"`},
	{"2020-01-01", `"2020-01-01T12:00:00Z"`, `"2020-01-02"`},
	{"><(1,5)", "5", "[5.5,[2]]"},
}

// alone asks one comparison alone.
type alone struct{ m sync.Map }

func (a *alone) ask(cmp string, doc []byte) (bool, error) {
	m, ok := a.m.Load(cmp)
	if !ok {
		nm, err := jsonmatcher.NewMatcher(cmp)
		if err != nil {
			return false, err
		}
		m = nm
		a.m.Store(cmp, m)
	}
	return m.(*jsonmatcher.Matcher).Match(doc)
}

func formula(n *ref.Node, leaf func(*ref.Node) bool) bool {
	switch n.K {
	case ref.And:
		return formula(n.L, leaf) && formula(n.R, leaf)
	case ref.Or:
		return formula(n.L, leaf) || formula(n.R, leaf)
	case ref.Not:
		return !formula(n.L, leaf)
	}
	return leaf(n)
}

func runC10(r *mc.Run) {
	var al alone
	type job struct {
		t    *ref.Node
		st   style
		leaf func(*ref.Node) string
		docs []string
	}
	one := func(w *mc.W, j job) {
		q := write(j.t, j.st, j.leaf)
		m := newMatcher(w, q)
		if m == nil {
			return
		}
		for _, doc := range j.docs {
			doc := doc
			w.Case(q+" ON "+doc, func() string {
				data := []byte(doc)
				var bad error
				want := formula(j.t, func(l *ref.Node) bool {
					b, err := al.ask(j.leaf(l), data)
					if err != nil {
						bad = err
					}
					return b
				})
				got, err := m.Match(data)
				w.Step(1)
				if bad != nil || err != nil {
					return fmt.Sprintf("error %v %v", bad, err)
				}
				if want {
					w.Outcome("match")
				} else {
					w.Outcome("no match")
				}
				if got != want {
					return fmt.Sprintf("result %v, its comparisons alone give %v", got, want)
				}
				return ""
			})
		}
		w.Trace()
	}
	// leaves of kind k+i, documents with all combinations of values
	kindLeaf := func(k int) func(*ref.Node) string {
		return func(l *ref.Node) string {
			var i int
			fmt.Sscanf(l.Field[0], "f%d", &i)
			return l.Field[0] + ":" + kinds[(k+i*5)%len(kinds)].cmp
		}
	}
	docs := func(n, k int) (out []string) {
		total := 1
		for i := 0; i < n; i++ {
			total *= 3
		}
		for x := 0; x < total; x++ {
			var parts []string
			y := x
			for i := 0; i < n; i++ {
				kd := kinds[(k+i*5)%len(kinds)]
				v := ""
				switch y % 3 {
				case 0:
					v = kd.yes
				case 1:
					v = kd.no
				}
				y /= 3
				if v != "" {
					parts = append(parts, fmt.Sprintf(`"f%d":%s`, i, v))
				}
			}
			out = append(out, "{"+strings.Join(parts, ",")+"}")
		}
		return out
	}
	mc.EachBatch(r, 8, func(yield func(job)) {
		max := 4
		if r.Thorough {
			max = 5
		}
		if r.Deep {
			max = 6
		}
		for n := 1; n <= max; n++ {
			ds := make([][]string, len(kinds))
			for k := range kinds {
				ds[k] = docs(n, k)
			}
			i := 0
			trees(n, n <= 4, numbered, func(t *ref.Node) {
				if n <= 2 || r.Thorough && n == 3 {
					for k := range kinds {
						for _, st := range styles {
							yield(job{t, st, kindLeaf(k), ds[k]})
						}
					}
					return
				}
				i++
				k := (i + i/12) % len(kinds)
				yield(job{t, styles[i%4], kindLeaf(k), ds[k]})
			})
		}
		if !r.Thorough {
			trees(5, false, numbered, func(t *ref.Node) { yield(job{t, styles[0], kindLeaf(3), docs(5, 3)}) })
		}
	}, one)
	// several comparisons of one field
	mc.Each(r, func(yield func(job)) {
		ds := []string{`{}`, `{"a":1}`, `{"a":2}`, `{"a":[1,2]}`, `{"a":[2,1]}`, `{"a":null}`, `{"a":"1"}`, `{"a":[]}`, `{"a":{"b":1}}`, `{"a":[{"b":1},{"b":2}]}`, `{"a":[1,{"b":2}],"b":1}`, `{"b":1}`, `[]`, `1`, `{"a":{"b":[]}}`}
		cmps := []string{"a:1", "a:2", "a:exists", "a:null", "a.b:1", "a.b:exists", "b:1", `a:"1"`, "a:>1", "a:(1,2)"}
		for n := 2; n <= 3; n++ {
			trees(n, n == 2 || r.Thorough, numbered, func(t *ref.Node) {
				total := 1
				for i := 0; i < n; i++ {
					total *= len(cmps)
				}
				for x := 0; x < total; x++ {
					x := x
					yield(job{t, styles[0], func(l *ref.Node) string {
						var i int
						fmt.Sscanf(l.Field[0], "f%d", &i)
						y := x
						for ; i > 0; i-- {
							y /= len(cmps)
						}
						return cmps[y%len(cmps)]
					}, ds})
				}
			})
		}
	}, one)
	// all pairs of comparisons, most of one field
	mc.EachBatch(r, 8, func(yield func(job)) {
		var cmps, ds []string
		for _, c := range []string{"1", "2", ">1", ">=1", ">2", "<5", "<=5", "<2", "<=2", "><(1,5)", "><(2,3)", "1.5", ">=1.5", `"1"`, `"s"`, `"t"`, `"S"`, `"s*"`, `"t s"`, `"+"`, `"é"`, "/s/", "/^S/", "/(?i)S$/", `(1,2)`, `(2,1)`, `(1,"s")`, "true", "false", "null", "exists", "2020-01-01", "2020-01-02", ">2020-01-01", ">=2020-01-02T10:00:00Z", "<2020-01-03", "><(2020-01-01,2020-01-02)", "10.0.0.1", "10.0.0.0/8", "10.0.0.0/31", `~"s"`, "~/s/", "~true"} {
			cmps = append(cmps, "a:"+c)
		}
		for _, f := range []string{"a.b", `"a.b"`, "b"} {
			for _, c := range []string{"1", ">1", "null", "exists"} {
				cmps = append(cmps, f+":"+c)
			}
		}
		cmps = append(cmps, `"a".b:"s"`)
		vals := []string{"1", "2", "0", "5", "1.5", `"1"`, `"s"`, `"S"`, `"st"`, `"t s"`, `"+"`, `"é"`, "true", "false", "null", `"2020-01-01"`, `"2020-01-02T12:00:00Z"`, `"2020-01-03"`, `"10.0.0.1"`, `"10.0.0.2 10.9.9.9"`, `"true"`}
		for _, v := range vals {
			ds = append(ds, `{"a":`+v+`}`)
		}
		for i := range vals {
			ds = append(ds, `{"a":[`+vals[i]+`,`+vals[(i*5+2)%len(vals)]+`]}`)
		}
		ds = append(ds, `{"a":[0,9]}`, `{"a":[0,2.5]}`, `{"a":["2019-01-01","2021-01-01"]}`, `{}`, `{"a":[]}`, `{"a":{}}`, `{"a":{"b":1}}`, `{"a.b":1}`, `{"a":{"b":2},"a.b":1}`, `{"a":{"b":null},"a.b":2,"b":1}`, `{"b":2}`, `{"b":null,"a":1}`, `{"a":[{"b":1},{"b":2}]}`, `{"a":[1,{"b":0},2],"b":"s"}`, `[{"a":1}]`, `1`)
		trees(2, true, numbered, func(t *ref.Node) {
			for x := range cmps {
				for y := range cmps {
					x, y := x, y
					yield(job{t, styles[0], func(l *ref.Node) string {
						if l.Field[0] == "f0" {
							return cmps[x]
						}
						return cmps[y]
					}, ds})
				}
			}
		})
	}, one)
	// chains and nestings
	mc.EachBatch(r, 1, func(yield func(job)) {
		max := 64
		for n := 2; n <= max; n++ {
			if n > 20 && n%4 > 1 && !r.Thorough {
				continue
			}
			for shape := 0; shape < 6; shape++ {
				t := numbered(n - 1)
				for i := n - 2; i >= 0; i-- {
					l := numbered(i)
					k := []ref.NodeKind{ref.And, ref.Or}[shape%2]
					switch shape {
					case 2, 3:
						k = []ref.NodeKind{ref.And, ref.Or}[(shape+i)%2]
					}
					if shape == 5 {
						t = &ref.Node{K: k, L: t, R: l}
					} else {
						t = &ref.Node{K: k, L: l, R: t}
					}
					if shape == 4 {
						t = &ref.Node{K: ref.Not, L: t}
					}
				}
				var ds []string
				for odd := -1; odd < n; odd++ {
					for _, base := range []string{"1", "2"} {
						var parts []string
						for i := 0; i < n; i++ {
							v := base
							if i == odd {
								v = map[string]string{"1": "2", "2": "1"}[base]
							}
							parts = append(parts, fmt.Sprintf(`"f%d":%s`, i, v))
						}
						ds = append(ds, "{"+strings.Join(parts, ",")+"}")
					}
				}
				yield(job{t, styles[0], func(l *ref.Node) string { return l.Field[0] + ":1" }, ds})
			}
			not := numbered(0)
			for i := 0; i < n; i++ {
				not = &ref.Node{K: ref.Not, L: not}
			}
			for _, st := range styles {
				yield(job{not, st, func(l *ref.Node) string { return "f0:1" }, []string{`{"f0":1}`, `{"f0":2}`, `{}`, `[]`, `null`}})
			}
		}
	}, one)
}
