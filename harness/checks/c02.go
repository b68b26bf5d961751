package checks

import (
	"fmt"
	"strings"

	"github.com/flowchartsman/aql/zz_verif/mc"
)

func init() {
	register(&mc.Check{
		ID: "C02",
		Rule: "a state is a text; all strings up to length 5 over eight characters and up to 4 over sixteen (thorough 6 and 5), all strings up to 3 (4) pieces over 38 tokens, all one- and two-byte strings, " +
			"every byte value at every place of four queries, every prefix, suffix and single edit of 48 queries that cover all constructs, all letter cases of every keyword, fields, strings and white space of up to 200000 characters, lists of up to 10000 and chains of up to 40000 members, nesting of up to 2000. " +
			"Accepted or rejected is compared with the model's verdict",
		Need: []string{"accepted", "rejected", "rejected token"},
		Run:  runC02,
	})
}

var tokens = []string{"a", `"b"`, ":", "1", "AND", "OR", "NOT", " ", "(", ")", "<", "=", ">", "~", "exists", "null", ",", `"`, "/", "true", "\n", "!", ".", "*", "-",
	"1.5", "1.2.3.4", "/8", "2020-01-02", "T03:04:05Z", "/r/", `\`, "a:1", "(1,2)", "><", "é", "\x00", "\xff"}

func runC02(r *mc.Run) {
	l8, l16, lt := 5, 4, 3
	if r.Thorough {
		l8, l16, lt = 6, 5, 4
	}
	one := func(w *mc.W, q string) {
		w.Case(q, func() string { return parseDiff(w, q, acceptance) })
		w.Trace()
	}
	mc.Each(r, func(yield func(string)) {
		strs(chars(`a:1"( )!`), l8, yield)
		strs(chars(`a:1"( )!,.-/*<=~`+"\n"), l16, yield)
		strs(tokens, lt, yield)
	}, one)
	// bytes
	mc.Each(r, func(yield func(string)) {
		for i := 0; i < 256; i++ {
			yield(string([]byte{byte(i)}))
			for j := 0; j < 256; j++ {
				yield(string([]byte{byte(i), byte(j)}))
			}
			for _, q := range []string{`a:1`, `a.b:"s" AND !c:/r/`, `"f":(1, 2)`, "a:exists\n"} {
				for k := 0; k <= len(q); k++ {
					yield(q[:k] + string([]byte{byte(i)}) + q[k:])
				}
			}
		}
		// broken and unusual encodings, in strings, regular expressions, fields and between
		for _, s := range []string{"\xc3", "\xc3\x28", "\xe5\xa4", "\xf0\x9f\x98", "\xed\xa0\x80", "\xc0\x80", "\xf4\x90\x80\x80", "\xef\xbf\xbd", "\xef\xbb\xbf", "\u2028", "\u0085", "\u3000"} {
			for _, f := range []string{`a:"%s"`, `a:/%s/`, `"%s":1`, `%sa:1`, `a:1%s`, `a:1 %s AND b:2`, `a:%s`, `a:"x" AND b:"y%s"`} {
				yield(fmt.Sprintf(f, s))
			}
		}
	}, one)
	// around the corpus
	mc.Each(r, func(yield func(string)) {
		for _, q := range corpus {
			for i := 0; i <= len(q); i++ {
				yield(q[:i])
				yield(q[i:])
				yield(q + q[:i])
			}
			edits(q, anyChars, yield)
			for _, f := range []string{" %s ", "(%s)", "((%s))", "NOT %s", "!%s", "! %s", "NOT NOT %s", "!!%s", "NOT !%s", "!(%s)", "NOT(%s)", "%s AND", "AND %s", "%s %s", "%[1]s AND %[1]s", "%[1]sAND %[1]s", "%[1]s AND%[1]s",
				"%[1]s OR %[1]s", "%[1]s and %[1]s", "%[1]s && %[1]s", "%[1]s AND OR %[1]s", "%[1]s AND NOT %[1]s", "(%s", "%s)", "()%s", "%s()", "(%s))", "((%s)", "%s;", "%s,", "\n%s\n", "\u00a0%s", "%s\u00a0", "%s\x00"} {
				yield(strings.Split(fmt.Sprintf(f, q, q), "%!")[0])
			}
		}
	}, one)
	// keywords in all cases, and glued to things
	mc.Each(r, func(yield func(string)) {
		for _, k := range []string{"AND", "OR", "NOT", "exists", "null", "true", "false"} {
			for set := 0; set < 1<<len(k); set++ {
				s := []byte(strings.ToLower(k))
				for i := range s {
					if set>>i&1 == 1 {
						s[i] -= 32
					}
				}
				w := string(s)
				yield("a:1 " + w + " b:2")
				yield(w + " a:1")
				yield("a:" + w)
				yield("a:(" + w + ", 1)")
				yield(w + ":" + w)
				yield("a:" + w + "x")
				yield("a:" + w + " AND b:" + w)
				yield("a:1 " + w + "(b:2)")
				yield("(a:1)" + w + " b:2")
				yield(w + "(a:1)")
				yield("a:~" + w)
			}
		}
	}, one)
	// sizes
	mc.EachBatch(r, 1, func(yield func(string)) {
		for _, n := range []int{1, 2, 3, 7, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 513, 1023, 1025, 2049, 4097} {
			yield(strings.Repeat("f", n) + ":1")
			yield(`"` + strings.Repeat("é", n) + `":1`)
			yield(strings.Repeat("f.", n) + "f:1")
			yield(`a:"` + strings.Repeat("s", n) + `"`)
			yield(`a:"` + strings.Repeat(`\n`, n) + `"`)
			yield(`a:/` + strings.Repeat("r", n) + `/`)
			yield(`a:` + strings.Repeat("0", n))
			yield(`a:` + strings.Repeat("9", n))
			yield(`a:1.` + strings.Repeat("9", n))
			yield(`a:` + strings.Repeat("9", n) + ".5")
			yield("a:1" + strings.Repeat(" ", n))
			yield("a:1" + strings.Repeat(" ", n) + "AND b:1")
			if n <= 300 {
				yield("a:(0" + seqList(n) + ")")
				yield("a:1" + strings.Repeat(" AND a:1", n))
				yield("a:1" + strings.Repeat(" OR a:1", n) + " ")
				yield("a:1" + strings.Repeat(" AND a:1", n) + " AND")
				yield(strings.Repeat("(", n) + "a:1" + strings.Repeat(")", n))
				yield(strings.Repeat("(", n) + "a:1" + strings.Repeat(")", n-1))
				yield(strings.Repeat("(", n) + "a:1" + strings.Repeat(")", n+1))
				yield(strings.Repeat("!(", n) + "a:1" + strings.Repeat(")", n))
			}
		}
		yield("a:1" + strings.Repeat(" AND a:1", 40000))
		for _, n := range []int{1000, 2000, 5000, 10000} {
			yield("a:(0" + seqList(n) + ")")
			yield("a:1" + strings.Repeat(" AND a:1", n))
			yield("a:1" + strings.Repeat(" OR NOT a:1", n))
			yield("a:1" + strings.Repeat(" OR a:1", n) + " OR")
			yield("a:1" + strings.Repeat(" AND a:1 OR b:2", n/2))
			yield(strings.Repeat("f", 20*n) + `:"` + strings.Repeat("s", 20*n) + `"`)
			yield(strings.Repeat(" ", 20*n) + "a:1" + strings.Repeat("\n", 20*n))
			yield("a:/" + strings.Repeat("r", 5*n) + "/")
			if n <= 2000 {
				yield(strings.Repeat("(", n) + "a:1" + strings.Repeat(")", n))
				yield(strings.Repeat("(", n) + "a:1" + strings.Repeat(")", n-1))
				yield(strings.Repeat("!(", n) + "a:1" + strings.Repeat(")", n))
			}
		}
	}, one)
	// one after the other, since they take much memory
	n := 1<<20 + 5
	if r.Deep {
		n = 3000000
	}
	r.One(func(w *mc.W) {
		one(w, strings.Repeat("f", n)+":1")
		one(w, "a:1"+strings.Repeat(" ", n)+"AND b:")
	})
}

func seqList(n int) string {
	var sb strings.Builder
	for i := 1; i <= n; i++ {
		fmt.Fprintf(&sb, ",%d", i)
	}
	return sb.String()
}
