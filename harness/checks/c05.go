package checks

import (
	"fmt"
	"strings"

	"github.com/flowchartsman/aql/jsonmatcher"
	"github.com/flowchartsman/aql/zz_verif/mc"
	"github.com/flowchartsman/aql/zz_verif/ref"
)

func init() {
	register(&mc.Check{
		ID: "C05",
		Rule: "a state is a query; every operator with all lists of up to 3 values over 18 values of all types (thorough also 4 over 9), all pairs of 38 values that differ little, between with all ordered pairs of 40 numbers and 40 timestamps and all mixed pairs, " +
			"lists of 2..40 values with a repetition or a second boolean at all pairs of places, and each of 16 faulty and 9 correct comparisons at every place of all trees of up to 4 comparisons, of chains of up to 40 and of up to 12 lines, and after 10 to 70000 characters, lines or segments, up to 2000 comparisons and up to 600 levels. " +
			"Accepted or rejected is compared with the model, by the parser and by the matcher",
		Assumptions: []string{"lists that repeat a value in different spellings (other than 1 and 1.0) are outside the property"},
		Need:        []string{"accepted", "rejected token"},
		Run:         runC05,
	})
}

var opTexts = []string{"", "<", "<=", ">", ">=", "><", "~"}

var opValues = []string{"1", "2", "-3", "1.5", "2.5", `"a"`, `"b"`, `"true"`, "true", "false", "/a/", "/b/", "1.2.3.4", "1.2.3.0/24", "2020-01-01", "2020-01-02", "2020-01-01T00:00:01Z", `"1"`}

var nearValues = []string{`"a"`, `"A"`, `"a "`, `" a"`, `"á"`, `"a\u0301"`, `"a*"`, `"a**"`, `"a\\*"`, `""`, `" "`, `"ａ"`, `"/a/"`, "/a/", "/A/", "/(?i)a/", "/(a)/", "/a|a/", `"1"`, "1", "1.5", "-1", `"1.5"`, `"true"`, "true", `"TRUE"`, "10.0.0.1/8", "10.0.0.2/8", "10.0.0.0/8", "10.0.0.0/9", "10.0.0.1", "10.0.0.1/31", `"10.0.0.1"`, "2020-01-01", "2020-01-01T00:00:00Z", "2020-01-01T00:00:00.000000001Z", `"2020-01-01"`, "2021-01-01"}

var faulty = []string{`a:<"s"`, `a:>true`, `a:<=/r/`, `a:>=1.2.3.4`, `a:<(1,2)`, `a:><1`, `a:><(2,1)`, `a:><(1,1)`, `a:><(1,2,3)`, `a:><("a","b")`, `a:><(2020-01-02,2020-01-01)`, `a:><(-1,2020-01-01)`, `a:~1`, `a:~1.2.3.4`, `a:("s","s")`, `a:(true,false)`}

var correct = []string{`a:<1`, `a:>=2020-01-01`, `a:><(1,2)`, `a:><(2020-01-01,2020-01-02)`, `a:~"s"`, `a:~(true,false)`, `a:("s","t",1)`, `a:(true,"false")`, `a:exists`}

func numbersForBetween() []string {
	return []string{"0", "1", "2", "3", "-1", "-2", "10", "9", "11", "100", "-100", "0.5", "0.25", "1.5", "-0.5", "-1.5", "2.0", "1.999", "2.001", "10.5", "9.99", "1000000", "999999.5", "1000000.5",
		"2147483647", "2147483648", "-2147483648", "4294967296", "0.1", "0.2", "0.3", "0.30000000000000004", "1.7976931348623157", "123456789", "123456789.5", "-0.001", "0.001", "0.0001", "7", "8"}
}

func timesForBetween() []string {
	return []string{"1970-01-01", "1970-01-02", "1969-12-31", "2020-01-01", "2020-01-02", "2020-02-29", "2020-03-01", "2020-12-31", "2021-01-01", "0001-01-01", "9999-12-31", "1677-09-20", "1677-09-22", "2262-04-11", "2262-04-13",
		"2020-01-01T00:00:00Z", "2020-01-01T00:00:01Z", "2020-01-01T00:00:00.5Z", "2020-01-01T00:00:00.000000001Z", "2019-12-31T23:59:59.999999999Z", "2020-01-01T01:00:00+01:00", "2020-01-01T01:00:00-01:00", "2019-12-31T23:00:00-01:00", "2020-01-01T00:00:00+14:00", "2020-01-01T23:59:59Z",
		"1970-01-01T00:00:00Z", "1969-12-31T23:59:59Z", "1970-01-01T00:00:00.1Z", "1970-01-01T00:00:00-00:30", "2000-02-29T12:00:00Z"}
}

func runC05(r *mc.Run) {
	one := func(w *mc.W, q string) {
		w.Case(q, func() string {
			if d := parseDiff(w, q, acceptance); d != "" {
				return d
			}
			_, rerr := ref.Parse(q)
			_, err := jsonmatcher.NewMatcher(q)
			w.Step(1)
			if (err == nil) != (rerr == nil) {
				return fmt.Sprintf("the matcher's error is %v, expected %v", err, rerr)
			}
			return ""
		})
		w.Trace()
	}
	lists := func(vals []string, n int, yield func(string)) {
		var rec func(parts []string)
		rec = func(parts []string) {
			if len(parts) == n {
				l := strings.Join(parts, ",")
				if n > 1 {
					l = "(" + l + ")"
				}
				for _, op := range opTexts {
					yield("a:" + op + l)
				}
				return
			}
			for _, v := range vals {
				rec(append(parts[:len(parts):len(parts)], v))
			}
		}
		rec(nil)
	}
	// values that are different, though not by much
	mc.Each(r, func(yield func(string)) {
		for i, v := range nearValues {
			for j, u := range nearValues {
				if i != j {
					yield("a:(" + v + "," + u + ")")
					yield("a:~(" + v + "," + u + ")")
					yield(`a:("x",` + v + ",/x/," + u + ")")
				}
			}
		}
	}, one)
	mc.Each(r, func(yield func(string)) {
		for n := 1; n <= 3; n++ {
			lists(opValues, n, yield)
		}
		if r.Thorough {
			lists([]string{"1", "2.5", `"a"`, "true", "false", "/a/", "1.2.3.4", "2020-01-01", "2020-01-02T00:00:00Z"}, 4, yield)
		}
		yield("a:><(9007199254740992,9007199254740993)")
		nums, times := numbersForBetween(), timesForBetween()
		for _, set := range [][]string{nums, times} {
			for _, a := range set {
				for _, b := range set {
					yield("a:><(" + a + "," + b + ")")
				}
			}
		}
		// one number written in several ways
		for _, set := range [][]string{{"1", "01", "1.0", "01.0", "1.00"}, {"-2", "-02", "-2.0", "-2.000"}, {"0", "-0", "0.0", "-0.0", "00"}, {"16777217", "16777217.0", "016777217"}} {
			for _, a := range set {
				for _, b := range set {
					yield("a:><(" + a + "," + b + ")")
				}
			}
		}
		for _, a := range nums {
			for _, b := range times {
				yield("a:><(" + a + "," + b + ")")
				yield("a:><(" + b + "," + a + ")")
			}
		}
	}, one)
	// repetitions at all places
	mc.Each(r, func(yield func(string)) {
		for _, n := range []int{2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 31, 32, 33, 40} {
			for j := 0; j < n; j++ {
				for i := 0; i < j; i++ {
					if n > 10 && !(i == 0 || j == n-1 || i == j-1) {
						continue
					}
					base := make([]string, n)
					for k := range base {
						base[k] = []string{`"v%d"`, `%d`, `%d.5`, `/r%d/`, `10.0.0.%d`, `"%d"`, `2020-01-01T00:00:%02dZ`}[k%7]
						base[k] = fmt.Sprintf(base[k], k)
					}
					yield("a:(" + strings.Join(base, ",") + ")")
					for _, v := range []string{base[i], `"d"`, "/d/", "7.25", "2020-05-05", "9.9.9.9/8", "true"} {
						l := append([]string{}, base...)
						l[i], l[j] = v, v
						yield("a:(" + strings.Join(l, ", ") + ")")
					}
					for _, op := range []string{"", "~"} {
						l := make([]string, n)
						for k := range l {
							l[k] = fmt.Sprintf(`"v%d"`, k)
						}
						l[i], l[j] = "true", "false"
						yield("a:" + op + "(" + strings.Join(l, ",") + ")")
						l[i], l[j] = "false", "true"
						yield("a:" + op + "(" + strings.Join(l, ",") + ")")
						l[i], l[j] = `"x"`, `"x"`
						yield("a:" + op + "(" + strings.Join(l, ",") + ")")
					}
				}
			}
		}
	}, one)
	// each kind of value at all places of a long list of each operator
	mc.Each(r, func(yield func(string)) {
		for n := 4; n <= 20; n++ {
			for k := 0; k < n; k++ {
				for _, v := range []string{"7", "-7.5", `"v"`, "true", "/v/", "1.2.3.4", "1.2.3.0/24", "2020-01-02", "2020-01-01T00:00:01Z", `"v0"`} {
					l := make([]string, n)
					for i := range l {
						l[i] = fmt.Sprintf(`"v%d"`, i)
					}
					l[k] = v
					for _, op := range opTexts {
						yield("a:" + op + "(" + strings.Join(l, ",") + ")")
					}
				}
			}
		}
	}, one)
	// very long lists, with a repetition or a fault near the end
	mc.EachBatch(r, 1, func(yield func(string)) {
		for _, n := range []int{63, 64, 65, 127, 128, 129, 255, 256, 257, 499, 500, 501, 999, 1000, 1001, 2000} {
			for _, op := range []string{"", "~"} {
				l := make([]string, n)
				for i := range l {
					l[i] = fmt.Sprintf(`"v%d"`, i)
				}
				last := l[n-1]
				yield("a:" + op + "(" + strings.Join(l, ",") + ")")
				for _, v := range []string{l[0], l[n/2], l[n-2], "1.2.3.4", "true"} {
					l[n-1] = v
					yield("a:" + op + "(" + strings.Join(l, ",") + ")")
				}
				l[n-1] = last
				l[n/2] = "5"
				yield("a:" + op + "(" + strings.Join(l, ",") + ")")
			}
		}
	}, one)
	// faults at all places of a tree
	mc.Each(r, func(yield func(string)) {
		bad := append(append([]string{}, faulty...), correct...)
		for n := 1; n <= 4; n++ {
			ti := 0
			trees(n, n <= 3, numbered, func(t *ref.Node) {
				ti++
				for k := 0; k < n; k++ {
					for bi, b := range bad {
						if n == 3 && (ti+bi)%4 != 0 {
							continue
						}
						b := b
						yield(write(t, styles[0], func(l *ref.Node) string {
							if l.Field[0] == fmt.Sprintf("f%d", k) {
								return b
							}
							return leafText(0)(l)
						}))
					}
				}
			})
		}
		for n := 2; n <= 40; n++ {
			for k := 0; k < n; k++ {
				if n > 12 && k > 2 && k < n-2 && k != n/2 {
					continue
				}
				for wi, word := range []string{" AND ", " OR "} {
					parts := make([]string, n)
					for i := range parts {
						parts[i] = fmt.Sprintf("f%d:%d", i, i)
					}
					parts[k] = faulty[(n+k+wi)%len(faulty)]
					yield(strings.Join(parts, word))
				}
			}
			yield(strings.Repeat("!(", n) + faulty[n%len(faulty)] + strings.Repeat(")", n))
			yield(strings.Repeat("(", n) + faulty[n%len(faulty)] + strings.Repeat(")", n))
			yield(strings.Repeat("(x:1 AND ", n) + faulty[n%len(faulty)] + strings.Repeat(")", n))
		}
	}, one)
	// far away: long fields, strings, white space and lines, chains and nestings before
	mc.EachBatch(r, 4, func(yield func(string)) {
		for i, b := range append(append([]string{}, faulty...), correct...) {
			for _, n := range []int{10, 50, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 500, 600, 511, 512, 513, 1000, 1023, 1024, 1025, 2000, 4095, 4096, 4097, 8000, 16384, 32768, 65536, 70000} {
				if n > 600 && (i+n)%5 != 0 || n > 8000 && i%8 != 0 {
					continue
				}
				yield(strings.Repeat("x", n) + ":1 AND " + b)
				yield(`x:"` + strings.Repeat("x", n) + `" OR NOT ` + b)
				yield(strings.Repeat(" ", n) + b)
				yield("x:1 OR" + strings.Repeat(" ", n) + b)
				yield(strings.Repeat("\n", n) + b)
				if n <= 8000 {
					yield("x:1 AND\n" + strings.Repeat("\n \t", n) + b + strings.Repeat("\n", i))
					yield(strings.Repeat("x", n) + "." + b)
					yield(strings.Repeat("x.", n) + b)
				}
				if n <= 300 || n == 1025 || n == 2000 && i%8 == 0 {
					yield(strings.Repeat("x:1 AND ", n) + b)
					yield(strings.Repeat("x:1\nOR\n", n) + b)
					yield(b + strings.Repeat(" AND x:1", n))
					yield(strings.Repeat("x:1 AND y:2 OR ", n) + b + strings.Repeat(" AND x:1", n))
				}
				if n <= 129 || n == 300 || n == 600 {
					yield(strings.Repeat("!(", n) + b + strings.Repeat(")", n))
					yield(strings.Repeat("(x:1 AND ", n) + b + strings.Repeat(")", n))
					yield(strings.Repeat("NOT (", n) + b + strings.Repeat(" OR x:1)", n))
				}
			}
		}
	}, one)
	// all places of lines
	mc.Each(r, func(yield func(string)) {
		for n := 2; n <= 12; n++ {
			for k := 0; k < n; k++ {
				for _, b := range append(append([]string{}, faulty...), correct...) {
					for _, sep := range []string{"\nAND ", " OR\n", "\r\nAND\r\n"} {
						parts := make([]string, n)
						for i := range parts {
							parts[i] = fmt.Sprintf("f%d:%d", i, i)
						}
						parts[k] = b
						yield(strings.Join(parts, sep))
					}
				}
			}
		}
	}, one)
}
