package checks

import (
	"fmt"
	"strings"

	"github.com/flowchartsman/aql/zz_verif/mc"
	"github.com/flowchartsman/aql/zz_verif/ref"
)

func init() {
	register(&mc.Check{
		ID: "C21",
		Rule: "a state is a query with a byte string; all strings of up to 5 (thorough 6) of 14 JSON tokens, all single edits of 46 documents with 24 bytes and all their prefixes, all byte pairs in a string, all strings of up to 5 date-like characters and edits of 40 dates as values of timestamp comparisons, documents nested up to 9000 deep, documents of up to 1 MB with at most one fault, with up to 41 queries of all kinds. " +
			"An error is expected exactly if the model finds the text invalid, otherwise a result, and the model's for exists, null, booleans and words; the bytes, which are a part of a longer buffer, and those around them must be unchanged and no call may panic",
		Assumptions: []string{"invalid UTF-8 in a string may be accepted or not, but must not panic"},
		Need:        []string{"valid", "invalid"},
		Run:         runC21,
	})
}

var robustQueries = []string{
	"a:exists", "a:null", "a:1", "a:<1.5", "a:><(1,2)", `a:"x"`, `a:"x*"`, `a:"大"`, "a:/x/", "a:true", "a:1.2.3.4", `a:(1,"x",true)`, `a.b:1`, `a.b.c:exists`, `"":exists`, `"".a:1`, `a."":null`, `"[0]":1`, `"[0]".a:1`, `a."[0]":exists`, `a."[1]".b:1`, "NOT a:1", "a:1 AND b:1", "a:1 OR b:1", `"\"":1`, `"{":1`, `a."\\":1`, `a:~"x"`, "a:~true", "b:exists", `"a b":1`, "a.a.a.a:1",
}

var robustTimes = []string{"a:2020-01-01", "a:2020-01-01T00:00:00Z", "a:<2020-01-01", "a:>2020-01-01T00:00:00Z", "a:><(2000-01-01,2020-01-01)", "a.b:<2020-01-01", "a.b.c:2020-01-01"}

func runC21(r *mc.Run) {
	mod := *model
	mod.Loose = func(term, text string) bool { return strings.Contains(text, term) }
	as := ask(r, robustQueries)
	ts := ask(r, robustTimes)
	one := func(w *mc.W, a asked, text string, doc *ref.V, valid bool, exact bool) {
		w.Case(a.q+" ON "+text, func() string {
			// the text is a part of a longer buffer
			buf := make([]byte, 0, len(text)+8)
			buf = append(append(append(buf, "}}}}"...), text...), "]]]]"...)
			got, err := a.m.Match(buf[4 : 4+len(text)])
			w.Step(1)
			if string(buf) != "}}}}"+text+"]]]]" {
				return fmt.Sprintf("the bytes were changed, the buffer is %q", buf)
			}
			if got && err != nil {
				return fmt.Sprintf("result true and error %v", err)
			}
			if (err == nil) != valid {
				return fmt.Sprintf("error %v, valid %v", err, valid)
			}
			if valid && exact && !strings.ContainsAny(a.q, "12*?大/") {
				if want := mod.Match(a.tree, doc); got != want {
					return fmt.Sprintf("result %v, expected %v", got, want)
				}
			}
			return ""
		})
	}
	// no bytes at all
	mc.Each(r, mc.Slice(append(as[:len(as):len(as)], ts...)), func(w *mc.W, a asked) {
		for _, data := range [][]byte{nil, {}} {
			data := data
			w.Case(fmt.Sprintf("%s ON %#v", a.q, data), func() string {
				w.Step(1)
				w.Outcome("invalid")
				if got, err := a.m.Match(data); got || err == nil {
					return fmt.Sprintf("result %v, error %v", got, err)
				}
				return ""
			})
		}
		w.Trace()
	})
	dup := func(v *ref.V) bool { return hasRepeatedKey(v) }
	text := func(w *mc.W, s string) {
		doc, valid := ref.ParseJSON([]byte(s))
		exact := valid && !dup(doc)
		if valid {
			w.Outcome("valid")
		} else {
			w.Outcome("invalid")
		}
		for i, a := range as {
			if !valid && i%4 != len(s)%4 {
				continue
			}
			one(w, a, s, doc, valid, exact)
		}
		for i, a := range ts {
			if valid || i == len(s)%len(ts) {
				one(w, a, s, doc, valid, false)
			}
		}
		w.Trace()
	}
	mc.Each(r, func(yield func(string)) {
		max := 5
		if r.Thorough {
			max = 6
		}
		strs([]string{"{", "}", "[", "]", `"a"`, `""`, ":", ",", "1", "-", "null", `"`, `\`, " "}, max, yield)
		strs(chars(`{}[]"a:,1.e-`), max-1, yield)
		strs([]string{"t", "true", "n", "ull", "0", "1", ".", "e", "E", "+", "-"}, max-1, yield)
		strs([]string{`{"a":`, `{"b":`, "[", "{}", "}", "]", ",", "1", `"x"`, "null", "[]"}, max, yield)
	}, text)
	docs := []string{`{"a":1}`, `{"a":"x"}`, `{"a":null}`, `{"a":[1,"x",true]}`, `{"a":{"b":1}}`, `{"a":{"b":{"c":null}}}`, `{"a":[{"b":1},{"b":2}]}`, `[1,2]`, `[[1],{"a":1}]`, `"x"`, `1`, `-1.5e+3`, `true`, `null`, `{}`, `[]`, `{"":1}`, `{"":{"a":1}}`, `{"a":{"":null}}`, `{"[0]":1}`, `[{"a":1}]`, `{"a":[[1]]}`, `{"a":"1.2.3.4"}`, `{"a":"2020-01-01T00:00:00Z"}`, `{"a":"\u00e9\n\"\\\/"}`, `{"\u0061":1}`, `{"a" : 1 , "b" : 2}`, "{\n\t\"a\"\r: 1}\n", `{"a":1.0,"b":1e2}`, `{"a":"大"}`, `{"a":"\ud83d\ude00"}`, `{"a":"\ud800"}`, `{"a":"\\"}`, `{"a\"":1}`, `{"a":[]}`, `{"a":[{}]}`, `{"a":{"a":{"a":{"a":1}}}}`, `{"a":"x","b":["y"]}`, `["a",1]`, `{"a":true,"b":false}`, `{"a":1577836800}`, `{"a":"x y"}`, `{"a":0}`, `{"a":-0}`, `{"a":[null,null]}`, `{"a":" "}`}
	mc.Each(r, func(yield func(string)) {
		al := []string{"{", "}", "[", "]", `"`, ":", ",", "a", "1", "0", "-", ".", "e", `\`, "u", " ", "\n", "\x00", "\x1f", "\x7f", "\u00a0", "\ufeff", "n", "/"}
		for _, d := range docs {
			yield(d)
			for i := range d {
				yield(d[:i])
				yield(d[i:])
			}
			edits(d, al, yield)
			for _, sp := range []string{" ", "\n", "\t", "\r", "\v", "\f", "\x00", ",", "}", "x", d, "\u2003"} {
				yield(sp + d)
				yield(d + sp)
				yield(sp + d + sp)
			}
			if r.Thorough {
				edits(d, []string{`"`, "{", "]", ",", `\`}, func(s string) { edits(s, []string{`"`, "}", "[", "1"}, yield) })
			}
		}
		depths := []int{500, 999, 1000, 1001, 2000, 5000, 9000}
		for n := 0; n <= 300; n++ {
			if n <= 40 || n%20 == 0 {
				depths = append(depths, n)
			}
		}
		for _, n := range depths {
			yield(strings.Repeat("[", n) + strings.Repeat("]", n))
			yield(strings.Repeat("[", n+1) + strings.Repeat("]", n))
			yield(strings.Repeat(`{"a":`, n) + "1" + strings.Repeat("}", n))
			yield(strings.Repeat(`{"a":`, n+1) + strings.Repeat("}", n))
			yield(`{"a":` + strings.Repeat("[", n) + "1" + strings.Repeat("]", n) + "}")
			yield(`{"a":"` + strings.Repeat("x", n) + `"}`)
			yield(`{"a":"` + strings.Repeat(`\`, n) + `"}`)
			yield(`{"a":` + strings.Repeat("1", n%300+1) + `}`)
			yield(`{"a":[` + strings.Repeat("1,", n) + `1]}`)
			yield(`{"a":"` + strings.Repeat(`\u00e9`, n) + `"}`)
			yield(strings.Repeat(" ", n) + `{"a":1}` + strings.Repeat("\n", n))
		}
	}, text)
	// large texts with at most one fault
	var sizes []int
	for _, n := range []int{512, 1000, 1024, 4096, 10000, 16384, 65536, 1 << 20} {
		sizes = append(sizes, n-1, n, n+1)
	}
	mc.EachBatch(r, 1, mc.Slice(sizes), func(w *mc.W, n int) {
		filled := func(open, item, sep, shut string) string {
			k := (n - len(open) - len(shut) - len(item)) / (len(item) + len(sep))
			if k < 0 {
				k = 0
			}
			s := open + strings.Repeat(item+sep, k) + item
			if pad := n - len(s) - len(shut); pad > 0 {
				s += strings.Repeat(" ", pad)
			}
			return s + shut
		}
		for _, d := range []string{filled(`{"a":[`, "1", ",", "]}"), filled(`{"a":1,"b":"`, "x", "", `"}`), filled(`{"a":[`, `{"b":"x"}`, ", ", "]}"), filled(`[`, `{"a":[{}]}`, ",\n", "]")} {
			m := strings.Index(d[len(d)/2:], ",") + len(d)/2
			for _, s := range []string{d, d[:len(d)-1], d + "}", d + " x", d + "\n", "x" + d, d[:m] + "," + d[m:], d[:m] + "\x01" + d[m+1:], d[:len(d)-2] + "," + d[len(d)-2:], d[1:]} {
				text(w, s)
			}
		}
	})
	// all pairs of bytes in a string and outside of it
	mc.Each(r, func(yield func([2]byte)) {
		for a := 0; a < 256; a++ {
			for b := 0; b < 256; b++ {
				yield([2]byte{byte(a), byte(b)})
			}
		}
	}, func(w *mc.W, p [2]byte) {
		for k, s := range []string{`{"a":"` + string(p[:]) + `"}`, string(p[:]), `{"` + string(p[:]) + `":1}`} {
			doc, valid := ref.ParseJSON([]byte(s))
			ascii := p[0] < 0x80 && p[1] < 0x80
			for i, a := range as {
				if (i+int(p[0])+int(p[1]))%8 != k {
					continue
				}
				if ascii {
					one(w, a, s, doc, valid, valid)
					continue
				}
				w.Case(a.q+" ON "+s, func() string {
					data := []byte(s)
					a.m.Match(data)
					w.Step(1)
					if string(data) != s {
						return fmt.Sprintf("the bytes were changed to %q", data)
					}
					return ""
				})
			}
		}
		w.Trace()
	})
	// values that look like dates
	dates := []string{"2020-01-01", "2020-01-01T00:00:00Z", "2020-01-01T00:00:00.123456789+01:30", "2020-01-01 10:11:12", "2020-01-01 10:11:12 +0000 UTC", "2020/01/02", "01/02/2020", "1/2/20 3:04 PM", "Jan 2, 2020", "2 Jan 2020 10:11:12 MST", "Mon, 02 Jan 2020 15:04:05 -0700", "Monday, 02-Jan-20 15:04:05 MST", "Mon Jan  2 15:04:05 2020", "1577836800", "1577836800000", "1577836800000000", "1577836800000000000", "20200101", "20200101101112", "2020", "202001", "2020-1-1", "2020.01.02", "3.31.2014", "oct. 7, 1970", "September 17, 2012 at 5:00pm UTC-05", "2014年04月08日", "12 Feb 2006, 19:17", "2013-Feb-03", "2009-08-12T22:15Z", "2006-01-02T15:04:05+0000", "171113 14:14:20", "03:04:05", "8-Mar-2018::14:09:27", "2014-05-11 08:20:13,787", "April 8th, 2009", "7 oct 70", "2020-W01-1", "10:11", "1.5"}
	mc.Each(r, func(yield func(string)) {
		max := 5
		if r.Thorough {
			max = 6
		}
		strs(chars("12 0-:./,TZ+aJm"), max, yield)
		al := chars("0129 -:./,+TZaJmM()年é")
		for i, d := range dates {
			yield(d)
			for j := range d {
				yield(d[:j])
				yield(d[j:])
			}
			edits(d, al, func(s string) {
				yield(s)
				if r.Thorough && i%4 == 0 {
					edits(s, chars(" 0:-"), yield)
				}
			})
		}
	}, func(w *mc.W, s string) {
		doc := ref.VObj("a", ref.VStr(s)).JSON()
		for i, a := range ts[:5] {
			if len(s) > 5 || i == len(s)%2 {
				one(w, a, doc, nil, true, false)
			}
		}
		w.Trace()
	})
}

func hasRepeatedKey(v *ref.V) bool {
	for i, k := range v.Keys {
		for _, l := range v.Keys[:i] {
			if k == l {
				return true
			}
		}
	}
	for _, e := range v.Elems {
		if hasRepeatedKey(e) {
			return true
		}
	}
	return false
}
