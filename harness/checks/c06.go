package checks

import (
	"fmt"
	"strings"

	"github.com/flowchartsman/aql/zz_verif/mc"
	"github.com/flowchartsman/aql/zz_verif/ref"
)

func init() {
	register(&mc.Check{
		ID: "C06",
		Rule: "a state is a query; all accepted corpus queries and 60 faulty comparisons after each of 18 prefixes (multi-byte characters, line breaks, tabs, parentheses), followed by each of six suffixes, " +
			"all single edits of all queries of the corpus, all trees of up to 3 comparisons in six styles of white space, all operators with all lists of up to 3 of 16 values, values of up to 3000 characters, good and bad, one value of each kind and each fault at every place of lists of up to 12, and of operands on up to 30 lines. " +
			"Positions of all nodes and values, and of errors, are compared with the model's",
		Assumptions: []string{"the line and column of an error at a line break itself are outside the property"},
		Light:       true,
		Need:        []string{"accepted", "rejected", "rejected token"},
		Run:         runC06,
	})
}

var badValues = []string{"2020-13-01", "2020-02-30T00:00:00Z", "1.2.3.400", "1.2.3.4/40", "99999999999999999999", "bare", `"\ud800"`, "/(/", `"open`, "/open", "-", "a.b", "exists?", "tru", "(1)", "()", `é`, "大=小", "!x"}

func runC06(r *mc.Run) {
	one := func(w *mc.W, q string) {
		w.Case(q, func() string { return parseDiff(w, q, acceptance|posTree|posErr) })
		w.Trace()
	}
	prefixes := []string{"", " ", "\n", "\n\n  ", "\t", "\r\n", "(", "NOT ", "!", `é:`[:0] + `"é":1 AND `, `"大懒虫"."😀":"é" OR `, "b:2\nAND\n", "b:(1,\n2) AND\n\t", `b:/é+/ AND NOT (`, "b:1 AND (c:2 OR ", "b:\n\n\n1 OR ", `"a\nb":"\u00e9" AND `, "(((((", "b:\"\u2028\u0085\" AND "}
	mc.Each(r, func(yield func(string)) {
		var cmps []string
		cmps = append(cmps, corpus...)
		for _, b := range badValues {
			cmps = append(cmps, "a:"+b, "a: "+b, "a:(1, "+b+")", "a:("+b+", 1)", "a:>"+b, "a :\n"+b, `"é":`+b)
		}
		cmps = append(cmps, faulty...)
		cmps = append(cmps, `a:<("é")`, `a:("é", "é")`, `a:("é",  "x", "é")`, `a:~("é", 5)`, `"é":>"ü"`, `a:("大",1,1)`, `a:(1,"é",true,false)`, `a:><(5,  "é")`, `a:><(  5, 4)`, "a:><(2020-01-02,\n2020-01-01)", "*:1", "a:1 AND *.*:exists")
		for _, p := range prefixes {
			for _, c := range cmps {
				n := strings.Count(p, "(") - strings.Count(p, ")")
				for _, s := range []string{"", " ", "\n", " AND z:1", ")", " x"} {
					yield(p + c + strings.Repeat(")", n) + s)
				}
				yield(p + c)
			}
		}
	}, one)
	mc.Each(r, func(yield func(string)) {
		al := chars("a1.,:()\"/\\!<~ \nT-é大")
		for i, q := range corpus {
			if i%3 == 0 || r.Thorough {
				edits("\""+"é"+"\":1\nOR "+q, al, yield)
			}
		}
		for n := 1; n <= 3; n++ {
			i := 0
			trees(n, true, numbered, func(t *ref.Node) {
				for s, st := range styles {
					i++
					yield(write(t, st, leafText(s+i)))
					yield("  " + write(t, st, func(l *ref.Node) string {
						return `"é".` + leafText(s+i)(l)
					}))
				}
			})
		}
	}, one)
	// all operators with values of all kinds
	mc.Each(r, func(yield func(string)) {
		vals := []string{"1", "-2", "3.5", "0.5", `"é大"`, `"1"`, "true", "false", "/é/", "10.0.0.0/8", "1.2.3.4", "2020-01-02", "2021-01-02T03:04:05Z", "2019-02-03", "bare", "2020-13-01"}
		for _, op := range []string{"", "<", "<=", ">", ">=", "><", "~"} {
			for _, x := range vals {
				yield("a:" + op + x)
				yield(`"é":1 AND` + "\n" + `NOT a: ` + op + " ( " + x + " )")
				for _, y := range vals {
					yield("a:" + op + "(" + x + "," + y + ")")
					yield(`"é":1 AND` + "\n" + `NOT a: ` + op + " ( " + x + " ,  " + y + ") OR b:2")
					for _, z := range vals {
						yield("a:" + op + "(" + x + ", " + y + ",\n " + z + ")")
					}
				}
			}
		}
	}, one)
	// long values, good and bad
	mc.Each(r, func(yield func(string)) {
		for _, n := range []int{20, 30, 31, 32, 33, 50, 62, 63, 64, 65, 80, 100, 126, 127, 128, 129, 200, 255, 256, 257, 300, 500, 1000, 1025, 3000} {
			x, e := strings.Repeat("x", n), strings.Repeat("é大", n/2)
			for _, v := range []string{`"` + x + `"`, `"` + e + `"`, "/" + x + "/", "/" + e + `\//`, strings.Repeat("9", n), "1." + strings.Repeat("3", n), strings.Repeat("9", n) + ".5", "2020-01-02T03:04:05." + strings.Repeat("1", n) + "Z",
				`"` + x + `\ud800"`, `"\ud800` + e + `"`, "/(" + x + "/", "/" + e + "(/", `"` + x, "/" + e, x, e, "-" + x, x + `"`, "2020-13-01T03:04:05." + strings.Repeat("1", n) + "Z"} {
				for _, c := range []string{"a:%s", `"é" : %s AND b:1`, "b:1\nOR a:(1, %s, 2)", "a:>%s", "a:~(%[1]s, %[1]s)", "a:><(%[1]s, %[1]s)"} {
					yield(fmt.Sprintf(c, v))
				}
			}
			yield("*" + strings.Repeat(".*", n) + ":1")
			yield("a:<(" + x + ")")
		}
	}, one)
	// places in lists and lines
	mc.Each(r, func(yield func(string)) {
		vals := append([]string{"1", "-2", "3.5", `"s"`, `"é大😀"`, "true", "/r/", `/é\/大/`, "1.2.3.4", "10.0.0.0/8", "2020-01-02", "2020-01-02T03:04:05Z", `"\n\u00e9"`}, badValues...)
		for _, v := range vals {
			for n := 2; n <= 12; n++ {
				for k := 0; k < n; k++ {
					for _, sep := range []string{",", ", ", "\n,\n", ",\t"} {
						if n > 4 && sep != ", " {
							continue
						}
						list := make([]string, n)
						for i := range list {
							list[i] = fmt.Sprintf(`"o%dé"`, i)
						}
						list[k] = v
						yield("a:(" + strings.Join(list, sep) + ")")
						yield("a:~(" + strings.Join(list, sep) + ")")
					}
				}
			}
			for n := 1; n <= 30; n++ {
				for _, k := range []int{0, n / 2, n - 1} {
					lines := make([]string, n)
					for i := range lines {
						lines[i] = fmt.Sprintf("\"é%d\": %d", i, i)
					}
					lines[k] = "x.y :" + v
					yield(strings.Join(lines, "\nAND "))
					yield(strings.Join(lines, " OR\r\n\n"))
				}
			}
			for _, n := range []int{100, 127, 128, 129, 255, 256, 257, 1000, 3000} {
				yield(strings.Repeat(" ", n) + "a:" + v)
				yield(strings.Repeat("\n", n) + "a:" + v)
				yield(strings.Repeat("k", n) + ":" + v)
				yield(`"` + strings.Repeat("é", n) + `":` + v + " AND b:1")
			}
		}
	}, one)
}
