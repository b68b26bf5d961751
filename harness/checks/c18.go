package checks

import (
	"fmt"
	"strings"

	"github.com/flowchartsman/aql/zz_verif/mc"
	"github.com/flowchartsman/aql/zz_verif/ref"
)

func init() {
	register(&mc.Check{
		ID: "C18",
		Rule: "a state is a list comparison with a document; all ordered lists of up to 4 (thorough 5) of 16 values of all types, with and without the similarity operator where it is allowed, with 44 documents (scalars, arrays of two, missing fields), " +
			"all ordered pairs of 90 values (words with punctuation and wildcards, overlapping expressions, neighbouring numbers, dates and prefixes) and all triples of one type with 115 documents, lists of 2 to 129 values of one type or mixed with documents for the value at every place, in both orders, and lists of 1500. The result is compared with the values asked alone",
		Light: true,
		Need:  []string{"match", "no match"},
		Run:   runC18,
	})
}

func runC18(r *mc.Run) {
	var al alone
	type job struct {
		field string
		op    string
		vals  []string
		docs  []string
	}
	one := func(w *mc.W, j job) {
		q := j.field + ":" + j.op + "(" + strings.Join(j.vals, ", ") + ")"
		if len(j.vals) == 1 {
			q = j.field + ":" + j.op + j.vals[0]
		}
		m := newMatcher(w, q)
		if m == nil {
			return
		}
		for _, d := range j.docs {
			d := d
			w.Case(q+" ON "+d, func() string {
				want := false
				for _, v := range j.vals {
					b, err := al.ask(j.field+":"+j.op+v, []byte(d))
					if err != nil {
						return fmt.Sprintf("error %v for %s alone", err, v)
					}
					want = want || b
				}
				got, err := m.Match([]byte(d))
				w.Step(1)
				if err != nil {
					return fmt.Sprintf("error %v", err)
				}
				if want {
					w.Outcome("match")
				} else {
					w.Outcome("no match")
				}
				if got != want {
					return fmt.Sprintf("result %v, its values alone give %v", got, want)
				}
				return ""
			})
		}
		w.Trace()
	}
	vals := []string{"1", "2.5", "-3", `"s"`, `"t*"`, `"1"`, `"é"`, `"true"`, "true", "false", "/^r/", "/1$/", "10.0.0.1", "10.0.0.0/8", "2020-01-01", "2020-01-01T10:00:00Z"}
	scalars := []string{"1", "2.5", "-3", `"s"`, `"tt"`, `"1"`, `"É"`, `"true"`, "true", "false", `"r1"`, `"10.0.0.1"`, `"10.2.3.4"`, `"2020-01-01"`, `"2020-01-01T10:00:00Z"`, "null", `"zz"`, "7"}
	docs := []string{`{}`, `{"a":{}}`, `{"a":[]}`, `{"b":1}`, `[]`}
	for _, s := range scalars {
		docs = append(docs, `{"a":`+s+`}`)
	}
	for i := range scalars {
		docs = append(docs, `{"a":[`+scalars[i]+`,`+scalars[(i*7+5)%len(scalars)]+`]}`)
		docs = append(docs, `{"a":["zz",{"x":1},`+scalars[i]+`]}`)
	}
	mc.EachBatch(r, 16, func(yield func(job)) {
		max := 3
		var rec func(op string, pool, cur []string)
		rec = func(op string, pool, cur []string) {
			if len(cur) > 0 {
				yield(job{"a", op, cur, docs})
			}
			if len(cur) == max {
				return
			}
		next:
			for _, v := range pool {
				for _, c := range cur {
					if c == v || op == "" && (c == "true" && v == "false" || c == "false" && v == "true") {
						continue next
					}
				}
				rec(op, pool, append(cur[:len(cur):len(cur)], v))
			}
		}
		if r.Thorough {
			max = 4
		}
		if r.Deep {
			max = 5
		}
		rec("", vals, nil)
		rec("~", []string{`"s"`, `"t*"`, `"1"`, `"é"`, "true", "false", "/^r/", "/1$/"}, nil)
	}, one)
	// pairs and triples of values that are near to each other
	groups := [][]string{
		{`"s"`, `"S"`, `"st"`, `"t*"`, `"*t"`, `"?"`, `"*"`, `"a b"`, `"b"`, `"1"`, `"2.5"`, `"true"`, `"+"`, `"(a)"`, `"$5"`, `"a|b"`, `"."`, `"é"`, `"É*"`, `"a."`, `".a"`, `"\\*"`},
		{"/s/", "/S/", "/(?i)s/", "/^r/", "/r$/", "/a|b/", "/^$/", "/1/", `/\./`, "/(a)(b)?/", "/^a|b$/", "/[^a]/", `/(?i)R|X/`, `/\bx/`},
		{"1", "2", "3", "5", "0", "-1", "10", "1.0", "2.5", "1.5", "-2.5", "100000"},
		{"true", "false"},
		{"10.0.0.0/25", "10.0.0.128/25", "10.0.0.0/24", "10.0.1.0/24", "10.0.2.0/24", "10.0.0.1", "10.0.0.2", "10.0.0.3", "0.0.0.0/0", "11.0.0.0/8", "10.0.0.1/32", "10.0.0.9/24", "10.0.1.3/24"},
		{"2020-01-01", "2020-01-02", "2020-01-03", "2020-01-05", "2019-12-31", "2020-01-01T10:00:00Z", "2020-01-01T11:00:00Z", "2020-01-02T00:00:00+02:00", "2020-01-04T00:00:00.5Z"},
	}
	near := []string{`{}`, `{"a":[]}`}
	for _, s := range strings.Split(`"s"|"S"|"st"|"ts"|"tt"|"x s"|"a b"|"ab"|"b"|"1"|"2.5"|"true"|"+"|"x+y"|"(a)"|"$5"|"a-b"|"."|"é"|"xÉx"|"a."|".a"|"*"|""|"r"|"R"|"xr"|"rx"|"sr"|"X"|"1.5"|"x"|"A"|1|2|3|4|5|0|-1|10|1.0|2.5|1.5|-2.5|1e5|99999|true|false|null|"10.0.0.0"|"10.0.0.1"|"10.0.0.2"|"10.0.0.3"|"10.0.0.127"|"10.0.0.128"|"10.0.0.255"|"10.0.1.0"|"10.0.2.9"|"10.0.3.0"|"11.1.1.1"|"12.0.0.0/8"|"10.0.1.1 9.9.9.9"|"2019-12-31"|"2020-01-01"|"2020-01-01T10:00:00Z"|"2020-01-01T10:30:00Z"|"2020-01-01T11:00:00Z"|"2020-01-01T22:00:00Z"|"2020-01-02T23:59:59Z"|"2020-01-03"|"2020-01-04"|"2020-01-04T00:00:00.5Z"|"2020-01-05T01:00:00Z"|"2020-01-06"`, "|") {
		near = append(near, `{"a":`+s+`}`)
	}
	for _, v := range []string{"1,4", "4,6", `"2020-01-04T01:00:00Z","2020-01-06"`, `"10.0.3.0","9.0.0.1"`, `"q","é"`, `true,false`, `0,"s"`} {
		near = append(near, `{"a":[`+v+`]}`)
	}
	mc.EachBatch(r, 8, func(yield func([]string)) {
		for i, g := range groups {
			for j, h := range groups {
				for x, v := range g {
					for y, u := range h {
						if i != j || x != y {
							yield([]string{v, u})
						}
					}
				}
			}
		}
		for _, g := range groups {
			if len(g) > 14 && !r.Thorough {
				g = g[len(g)-14:]
			}
			for x, v := range g {
				for y, u := range g {
					for z, t := range g {
						if x != y && y != z && x != z {
							yield([]string{v, u, t})
						}
					}
				}
			}
		}
	}, func(w *mc.W, vs []string) {
		for _, op := range []string{"", "~"} {
			if _, err := ref.Parse("a:" + op + "(" + strings.Join(vs, ", ") + ")"); err != nil {
				continue
			}
			single := true
			for _, v := range vs {
				if _, err := ref.Parse("a:" + op + v); err != nil {
					single = false
				}
			}
			if single {
				one(w, job{"a", op, vs, near})
			}
		}
	})
	// long lists
	long := func(yield func(job), n int) {
		for kind := 0; kind < 4; kind++ {
			var list []string
			doc := func(i int) string {
				return "{\"a\":" + []string{fmt.Sprint(i), fmt.Sprintf(`"the w%d"`, i), fmt.Sprintf(`"10.0.%d.%d"`, i/256, i%256), fmt.Sprintf("%d.5", i)}[kind] + "}"
			}
			for i := 0; i < n; i++ {
				list = append(list, []string{fmt.Sprint(i), fmt.Sprintf(`"w%d"`, i), fmt.Sprintf("10.0.%d.%d", i/256, i%256), fmt.Sprintf("%d.5", i)}[kind])
			}
			yield(job{"a", "", list, []string{doc(0), doc(n / 2), doc(1023), doc(1024), doc(n - 2), doc(n - 1), doc(n)}})
		}
	}
	mc.EachBatch(r, 1, func(yield func(job)) {
		for _, n := range []int{2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 24, 25, 31, 32, 33, 40, 50, 63, 64, 65, 100, 128, 129, 1500} {
			if n == 1500 {
				long(yield, n)
				continue
			}
			for kind := 0; kind < 8; kind++ {
				var list, ds []string
				for i := 0; i < n; i++ {
					k := kind
					if kind == 7 {
						k = i % 7
					}
					v, d := "", ""
					switch k {
					case 0:
						v, d = fmt.Sprint(i), fmt.Sprint(i)
					case 1:
						v, d = fmt.Sprintf(`"w%d"`, i), fmt.Sprintf(`"the w%d"`, i)
					case 2:
						v, d = fmt.Sprintf("/^r%d$/", i), fmt.Sprintf(`"r%d"`, i)
					case 3:
						v, d = fmt.Sprintf("10.0.0.%d", i), fmt.Sprintf(`"10.0.0.%d"`, i)
					case 4:
						v, d = fmt.Sprintf("20%02d-01-01", i), fmt.Sprintf(`"20%02d-01-01"`, i)
						if i >= 100 {
							v, d = fmt.Sprintf("2%03d-01-01", i), fmt.Sprintf(`"2%03d-01-01"`, i)
						}
					case 5:
						v, d = fmt.Sprintf("%d.5", i), fmt.Sprintf("%d.5", i)
					case 6:
						v, d = fmt.Sprintf(`"é%d"`, i), fmt.Sprintf(`"xé%dx"`, i)
					}
					list = append(list, v)
					ds = append(ds, `{"a":{"b":`+d+`}}`, `{"a":[{"b":"no"},{"b":[`+d+`]}]}`)
				}
				ds = append(ds, `{"a":{"b":"none"}}`, `{"a":{"b":-99}}`, `{"a":{"b":null}}`, `{}`)
				yield(job{"a.b", "", list, ds})
				rev := make([]string, n)
				for i := range list {
					rev[n-1-i] = list[i]
				}
				yield(job{"a.b", "", rev, ds})
				if kind == 1 || kind == 2 || kind == 6 {
					yield(job{"a.b", "~", list, ds})
				}
			}
		}
	}, one)
}
