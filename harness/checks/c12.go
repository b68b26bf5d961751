package checks

import (
	"fmt"
	"strings"

	"github.com/flowchartsman/aql/zz_verif/mc"
)

func init() {
	register(&mc.Check{
		ID: "C12",
		Rule: "a state is a comparison with a document; 34 comparisons of every operator and value type with all arrays of up to 4 (thorough 5) of 16 elements, with such arrays split over several selected values, and with a satisfying element at every place of arrays of up to 64 (at the ends of up to 1000 and at the last of up to 10000) between each of six fillers; values of up to 10000 characters between others of the same length that differ in one place. " +
			"The result is compared with the results for documents with a single scalar",
		Light: true,
		Need:  []string{"match", "no match"},
		Run:   runC12,
	})
}

// valueComparisons are comparisons of every operator and type of value, with a
// scalar that satisfies each.
var valueComparisons = []struct{ cmp, yes string }{
	{"1", "1"}, {"1.5", `"1.5"`}, {"-1", "-1.0"}, {"<2", "1"}, {"<=2", "2"}, {">1", "1.5"}, {">=1", `"1"`}, {"><(1,2)", "2"}, {"><(1.5,2)", "1.5"}, {"<1.5", "1"},
	{`"s"`, `"x s"`}, {`"s*"`, `"st"`}, {`"s"`, `"S"`}, {`"1"`, "1"}, {`"é"`, `"É"`}, {`"é*"`, `"éa"`}, {`~"s"`, `"s"`}, {`~"é"`, `"e"`},
	{"/^s/", `"st"`}, {"~/t$/", `"st"`}, {"/1/", "1.5"},
	{"true", "true"}, {"false", "false"}, {"~true", "true"}, {"~(true,false)", "false"},
	{"10.0.0.1", `"10.0.0.1"`}, {"10.0.0.0/8", `"10.0.0.1/24"`},
	{"2020-01-01", `"2020-01-01T10:00:00Z"`}, {"2020-01-01T00:00:00Z", `"2020-01-01"`}, {"<2020-01-01", `"2019-01-01"`}, {">=2020-01-01", `"2020-01-01"`}, {"><(2020-01-01,2020-01-02)", `"2020-01-02"`},
	{`(1,"s",true)`, "true"}, {`("x",/^s/,10.0.0.1,2020-01-01)`, `"x"`},
}

var arrayElements = []string{"1", `"1"`, "2", "1.5", `"s"`, `"x s"`, `"st"`, "true", "false", "null", `"2020-01-01"`, `"10.0.0.1"`, `{"a":1,"b":"s"}`, `[1,"s",true]`, "{}", "[]"}

func isContainer(s string) bool { return s[0] == '{' || s[0] == '[' }

func runC12(r *mc.Run) {
	var al alone
	type job struct {
		q    string
		doc  string
		each []string // the selected elements
		path []string
	}
	one := func(w *mc.W, j job) {
		w.Case(j.q+" ON "+j.doc, func() string {
			want := false
			for _, e := range j.each {
				if isContainer(e) {
					continue
				}
				v := e
				for i := len(j.path) - 1; i >= 0; i-- {
					v = `{"` + j.path[i] + `":` + v + "}"
				}
				b, err := al.ask(j.q, []byte(v))
				if err != nil {
					return fmt.Sprintf("error %v for %s", err, v)
				}
				want = want || b
			}
			got, err := al.ask(j.q, []byte(j.doc))
			w.Step(1 + len(j.each))
			if err != nil {
				return fmt.Sprintf("error %v", err)
			}
			if want {
				w.Outcome("match")
			} else {
				w.Outcome("no match")
			}
			if got != want {
				return fmt.Sprintf("result %v, its scalars alone give %v", got, want)
			}
			return ""
		})
	}
	a, ab := []string{"a"}, []string{"a", "b"}
	mc.Each(r, func(yield func(job)) {
		max := 3
		if r.Thorough {
			max = 4
		}
		if r.Deep {
			max = 5
		}
		var rec func(els []string)
		rec = func(els []string) {
			list := strings.Join(els, ",")
			for ci, c := range valueComparisons {
				yield(job{"a:" + c.cmp, `{"a":[` + list + `]}`, els, a})
				if len(els) == 3 && (ci+len(list))%5 != 0 && !r.Thorough {
					continue
				}
				// two selected values, one of them an array
				for k := 0; k < len(els); k++ {
					var before string
					if k > 0 {
						before = `{"b":[` + strings.Join(els[:k], ",") + `]},`
					}
					doc := `{"a":[` + before + `{"c":1},{"b":` + els[k] + `}`
					sel := els[:k+1]
					if isContainer(els[k]) {
						doc = `{"a":[` + before + `{"b":[` + els[k] + `]}`
					}
					if k+1 < len(els) {
						doc += `,1,{"b":[` + strings.Join(els[k+1:], ",") + `]}`
						sel = els
					}
					yield(job{"a.b:" + c.cmp, doc + "]}", sel, ab})
				}
			}
			if len(els) == max {
				return
			}
			for _, e := range arrayElements {
				rec(append(els[:len(els):len(els)], e))
			}
		}
		rec(nil)
		// a satisfying element at every place
		for _, c := range valueComparisons {
			for _, fill := range []string{"null", `"zzz"`, "77", "{}", `[` + c.yes + `]`, `{"a":` + c.yes + `}`} {
				for _, n := range []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 25, 31, 32, 33, 50, 63, 64, 65, 100, 128, 129, 256, 257, 1000, 1001, 1024, 1025, 2000, 4097, 10000} {
					for k := -1; k < n; k++ {
						if k > 1 && k < n-2 && (n > 64 || n > 12 && k%8 > 1) || n > 1000 && k != n-1 {
							continue
						}
						els := make([]string, n)
						for i := range els {
							els[i] = fill
						}
						if k >= 0 {
							els[k] = c.yes
						}
						small := els[:1]
						if k >= 0 {
							small = []string{fill, c.yes}
						}
						yield(job{"a:" + c.cmp, `{"a":[` + strings.Join(els, ",") + `]}`, small, a})
						if n <= 64 {
							parts := make([]string, n)
							for i := range els {
								parts[i] = `{"b":` + els[i] + "}"
								if isContainer(els[i]) {
									parts[i] = `{"b":[` + els[i] + "]}"
								}
							}
							yield(job{"a.b:" + c.cmp, `{"a":[` + strings.Join(parts, ",") + `]}`, small, ab})
						}
					}
				}
			}
		}
	}, one)
	// long values that differ from the satisfying one in little
	mc.Each(r, func(yield func(job)) {
		type near struct{ cmp, yes, no string }
		var ns []near
		for _, l := range []int{0, 5, 10, 15, 20, 30, 50, 60, 100, 250, 1000, 5000} {
			pad := strings.Repeat("lorem ", l)[:l]
			for _, q := range []string{`"needle"`, `"n??dle"`, "/need/"} {
				ns = append(ns, near{q, `"` + pad + ` needle"`, `"` + pad + ` noodle"`}, near{q, `"needle ` + pad + `"`, `"noodle ` + pad + `"`}, near{q, `"` + pad + ` needle ` + pad + `"`, `"` + pad + ` noodle ` + pad + `"`})
			}
			ns = append(ns, near{`"大"`, `"` + pad + ` 大"`, `"` + pad + ` 小"`}, near{"10.0.0.0/24", `"` + pad + ` 10.0.0.9"`, `"` + pad + ` 10.0.1.9"`})
			if l <= 250 {
				ns = append(ns, near{"0.5", "0.5" + strings.Repeat("0", l), "0.4" + strings.Repeat("0", l)}, near{">0.5", `"0.6` + strings.Repeat("0", l) + `"`, `"0.4` + strings.Repeat("0", l) + `"`})
			}
			if l <= 10 {
				ns = append(ns, near{">1" + strings.Repeat("0", l), "2" + strings.Repeat("0", l), "1" + strings.Repeat("0", l)})
			}
		}
		ns = append(ns, near{"2020-01-01", `"2020-01-01T23:59:59.999999999+00:00"`, `"2020-01-02T23:59:59.999999999+00:00"`}, near{">2020-01-01T00:00:00.5Z", `"2020-01-01T00:00:00.600000000Z"`, `"2020-01-01T00:00:00.500000000Z"`}, near{"true", "true", "null"})
		for _, x := range ns {
			for _, n := range []int{2, 3, 4, 9} {
				for k := -1; k < n; k++ {
					els, parts := make([]string, n), make([]string, n)
					for i := range els {
						els[i] = x.no
						if i == k {
							els[i] = x.yes
						}
						parts[i] = `{"b":` + els[i] + "}"
					}
					small := []string{x.no}
					if k >= 0 {
						small = []string{x.no, x.yes}
					}
					yield(job{"a:" + x.cmp, `{"a":[` + strings.Join(els, ",") + `]}`, small, a})
					yield(job{"a.b:" + x.cmp, `{"a":[` + strings.Join(parts, ",") + `]}`, small, ab})
					yield(job{"a.b:" + x.cmp, `{"a":{"b":[` + strings.Join(els, ",") + `]}}`, small, ab})
				}
			}
		}
	}, one)
	r.One(func(w *mc.W) {
		for _, c := range valueComparisons {
			c := c
			w.Case("satisfied "+c.cmp, func() string {
				b, err := al.ask("a:"+c.cmp, []byte(`{"a":`+c.yes+`}`))
				if !b || err != nil {
					return fmt.Sprintf("%s does not hold for %s alone", c.cmp, c.yes)
				}
				return ""
			})
			w.Trace()
		}
	})
}
