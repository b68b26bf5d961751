package checks

import (
	"fmt"
	"strings"

	"github.com/flowchartsman/aql/zz_verif/mc"
	"github.com/flowchartsman/aql/zz_verif/ref"
)

func init() {
	register(&mc.Check{
		ID: "C20",
		Rule: "a state is a query with a spelling of a document; all documents of up to 4 (thorough 5) nodes over keys and strings with escapes and structural characters and 90 larger ones, each in 24 spellings (white space everywhere, escapes of some or all characters, order of keys, slashes), strings and keys of up to 20000 characters that end in an escape, 17 groups of spellings of one number, and every character up to U+02FF and 40 more in a key and a string in each way JSON can write it, with 60 queries. " +
			"The result must be that of the compact spelling, and for keys and strings that of the model",
		Light: true,
		Need:  []string{"match", "no match"},
		Run:   runC20,
	})
}

func runC20(r *mc.Run) {
	var al alone
	qs := []string{
		"a:exists", "a:null", `"b c".a:exists`, `a."b c":exists`, `a.a:exists`, `"b c":null`, "a:1", "a:1.5", "a:<2", "a:>=1", "a:><(1,2)", `a:"x"`, `a:"x*"`, `a:"1"`, `a:/^x/`, `a:/"/`, `a:/\\/`, `a:/^[{]/`, `a:/\//`, "a:true", "a:false", `a:"é"`, `a:"é*"`,
		"a:10.0.0.1", "a:2020-01-01", "a:>2020-01-01", "a:2020-01-01T00:00:00Z", `"a\"":exists`, `"{":exists`, `"/":exists`, `"é":exists`, `"😀".a:exists`, `a.a:"x"`, `a.a:1`, `"b c".a:1`, `a:(1,"x",true)`, "NOT a:exists", `a.a:1 AND NOT "b c":null`,
	}
	// pair checks that two spellings of a document have the same result.
	pair := func(w *mc.W, q, doc, other string) {
		w.Case(q+" ON "+other, func() string {
			want, err := al.ask(q, []byte(doc))
			if err != nil {
				return fmt.Sprintf("error %v for %s", err, doc)
			}
			got, err := al.ask(q, []byte(other))
			w.Step(1)
			if err != nil {
				return fmt.Sprintf("error %v", err)
			}
			if want {
				w.Outcome("match")
			} else {
				w.Outcome("no match")
			}
			if got != want {
				return fmt.Sprintf("result %v, but %v for %s", got, want, doc)
			}
			return ""
		})
	}
	var sts []ref.Style
	for _, sp := range []string{"", " ", "\n\t", " \r\n\t "} {
		for e := 0; e < 4; e++ {
			for _, rev := range []bool{false, true} {
				st := ref.Style{Space: sp, Escape: e, Reverse: rev, Slash: e == 0}
				sts = append(sts, st)
			}
		}
	}
	sh := &shapes{scalars: []*ref.V{ref.VNum("1"), ref.VNull(), ref.VStr(`x"y\{`), ref.VStr("x/é"), ref.VBool(true)}, keys: []string{"a", "b c", `a"`}}
	mc.EachBatch(r, 4, func(yield func(*ref.V)) {
		max := 4
		if r.Deep {
			max = 5
		}
		for n := 1; n <= max; n++ {
			for i, v := range sh.all(n) {
				if n < 4 || i%3 == 0 || r.Thorough {
					yield(v)
				}
			}
		}
		inner := []*ref.V{ref.VStr("x"), ref.VStr("1"), ref.VStr("1.5"), ref.VStr("10.0.0.1"), ref.VStr("from 10.0.0.1/8"), ref.VStr("2020-01-01"), ref.VStr("2020-01-01T00:00:00Z"), ref.VStr("2021-01-01 10:00:00"), ref.VStr("é"), ref.VStr("x 😀 é"), ref.VStr(`{"a":1}`), ref.VStr(`,"a":1,`), ref.VStr(`"`), ref.VStr(`\`), ref.VStr(`\\"`), ref.VStr("]}"), ref.VStr("/"), ref.VStr(`\/`), ref.VStr("\n\t\r\b\f"), ref.VStr("\x00\x1f\x7f"), ref.VStr(""), ref.VNum("1"), ref.VNum("-1.5e3"), ref.VBool(false), ref.VNull()}
		for _, v := range inner {
			yield(ref.VObj("a", v))
			yield(ref.VObj(`{`, v, `/`, ref.VStr(`"a":`), "a", ref.VArr(v, ref.VObj("a", v)), "é", v, "😀", ref.VObj("a", v)))
			yield(ref.VObj("b c", ref.VArr(ref.VObj("a", v, "z", v), v), `a"`, ref.VStr(`}`), "a", v))
			yield(ref.VArr(v, ref.VObj("a", v)))
			// a string full of structure before the key
			for _, s := range []string{`{"a":`, `[[[[`, `\"a\":1`, `"}`, `{`, `}`, `\`, `"`, `a`, `":`} {
				yield(ref.VObj("z", ref.VStr(s), "a", v))
				yield(ref.VObj(s, ref.VNum("1"), "y", ref.VArr(ref.VStr(s), ref.VObj(s, ref.VStr(s))), "b c", ref.VObj(s+s, ref.VNull(), "a", v)))
			}
		}
	}, func(w *mc.W, v *ref.V) {
		doc := v.JSON()
		for i, st := range sts {
			other := v.Styled(st)
			if other == doc {
				continue
			}
			for k, q := range qs {
				if (i+k)%3 == 0 || r.Thorough {
					pair(w, q, doc, other)
				}
			}
		}
		w.Trace()
	})
	// spellings of numbers
	groups := [][]string{{"1", "1.0", "1e0", "1E0", "1e+0", "1e-0", "10e-1", "0.1e1", "1.000", "100E-2", "0.001e3"}, {"0", "-0", "0.0", "-0.0", "0e0", "0E5", "0.000e-3"}, {"1.5", "1.50", "15e-1", "0.15e1", "1.5E0", "150e-2"}, {"-2", "-2.0", "-2e0", "-20e-1", "-0.2e+1"}, {"1000", "1e3", "1E+3", "1000.0", "10e2", "0.1e4"}, {"0.001", "1e-3", "1E-3", "0.0010", "10e-4"}, {"1234567890", "1.23456789e9", "1234567890.0", "12345678900e-1"}, {"100000000000000000000", "1e20", "1.0e20"}, {"0.5", "5e-1", "0.50"}, {"255", "2.55e2", "255.0"}, {"4294967296", "4.294967296e9"}, {"1577836800", "1.5778368e9", "1577836800.0"}}
	nq := []string{"a:1", "a:0", "a:-2", "a:1.5", "a:1000", "a:<1", "a:<=1", "a:>1", "a:>=1", "a:>0", "a:<0", "a:>=0", "a:><(0,1)", "a:><(-2,-1)", `a:"1"`, `a:"1000"`, `a:"1.5"`, `a:"0"`, `a:"1*"`, "a:/^1$/", "a:/^1000$/", "a:/0/", `a:/\./`, "a:/e/", "a:/^-?0$/", `a:"255"`, "a:/^1234567890$/", "a:/^0.001$/", "a:exists", "a:null", "a:true", "a:>1000", "a:0.5", "a:255", "a:4294967296", "a:2020-01-01", "a:<2020-01-02", "a:1.2.3.4"}
	mc.EachBatch(r, 1, mc.Slice(groups), func(w *mc.W, g []string) {
		zero := g[0] == "0"
		for _, f := range []string{`{"a":%s}`, `{"a":[%s]}`, `{"b":1, "a":[{},"x",%s]}`} {
			for _, n := range g[1:] {
				for _, q := range nq {
					if zero && strings.HasPrefix(n, "-") && (strings.Contains(q, "/") || strings.Contains(q, `"`) || strings.Contains(q, "20")) {
						continue // the decimal notation of -0
					}
					pair(w, q, fmt.Sprintf(f, g[0]), fmt.Sprintf(f, n))
				}
			}
		}
		w.Trace()
	})
	// long strings and keys that end in an escape
	mc.EachBatch(r, 1, mc.Slice([]int{1, 15, 16, 31, 32, 40, 62, 63, 64, 65, 127, 128, 255, 256, 257, 1000, 1023, 1024, 4096, 20000}), func(w *mc.W, n int) {
		last := append(sts[:len(sts):len(sts)], ref.Style{Escape: 4}, ref.Style{Escape: 4, Slash: true, Reverse: true})
		for _, end := range []string{"A", "/", `"`, `\`, "é", "😀", "\n", "\x01"} {
			s := strings.Repeat("x", n) + end
			for _, mid := range []string{s, end + s, s + s} {
				v := ref.VObj("z", ref.VStr(mid), mid, ref.VNum("1"), "a", ref.VArr(ref.VStr(mid), ref.VObj(mid, ref.VStr(mid))))
				doc := v.JSON()
				for _, st := range last {
					other := v.Styled(st)
					if other == doc || st.Space != "" && n > 1000 {
						continue
					}
					for _, q := range []string{`a:/x.$/`, `z:/\x{41}$/`, `a:/\\/`, "a:exists", "z:/[^x]$/", "a:1"} {
						pair(w, q, doc, other)
					}
					if n < 300 {
						pair(w, quoteField([]string{mid})+":1", doc, other)
						pair(w, quoteField([]string{"a", mid})+":/^.?.?x/", doc, other)
					}
				}
			}
		}
		w.Trace()
	})
	// all ways to write a character
	var rs []rune
	for c := rune(0); c < 0x300; c++ {
		rs = append(rs, c)
	}
	rs = append(rs, 0x301, 0x3b1, 0x5d0, 0x600, 0x7ff, 0x800, 0xfff, 0x1000, 0x2028, 0x2029, 0x212a, 0x3042, 0x5927, 0xac00, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x1ffff, 0x20000, 0x10fffe, 0x10ffff)
	mc.EachBatch(r, 8, mc.Slice(rs), func(w *mc.W, c rune) {
		var ways []string
		if c >= 0x20 && c != '"' && c != '\\' {
			ways = append(ways, string(c))
		}
		if e, ok := map[rune]string{'"': `\"`, '\\': `\\`, '/': `\/`, '\b': `\b`, '\f': `\f`, '\n': `\n`, '\r': `\r`, '\t': `\t`}[c]; ok {
			ways = append(ways, e)
		}
		if c < 0x10000 {
			ways = append(ways, fmt.Sprintf(`\u%04x`, c), fmt.Sprintf(`\u%04X`, c))
		} else {
			d := c - 0x10000
			ways = append(ways, fmt.Sprintf(`\u%04x\u%04x`, 0xd800+d>>10, 0xdc00+d&0x3ff), fmt.Sprintf(`\u%04X\u%04X`, 0xd800+d>>10, 0xdc00+d&0x3ff))
		}
		s := string(c)
		re := fmt.Sprintf(`/^x\x{%x}y$/`, c)
		reAny := fmt.Sprintf(`/^\x{%x}+$/`, c)
		field := quoteField([]string{s})
		field2 := quoteField([]string{"k" + s + "k"})
		for _, way := range ways {
			ask := func(q, doc string, want bool) {
				w.Case(q+" ON "+doc, func() string {
					m, err := al.ask(q, []byte(doc))
					w.Step(1)
					if err != nil {
						return fmt.Sprintf("error %v", err)
					}
					if want {
						w.Outcome("match")
					} else {
						w.Outcome("no match")
					}
					if m != want {
						return fmt.Sprintf("result %v, expected %v", m, want)
					}
					return ""
				})
			}
			ask("a:"+re, `{"a":"x`+way+`y"}`, true)
			ask("a:"+reAny, `{"a":"`+way+`"}`, true)
			ask("a:"+reAny, `{"a":"`+way+way+way+`"}`, true)
			ask("a:"+reAny, `{"a":"`+way+`\u0001`+`"}`, c == 1)
			ask("a:/^..$/", `{"a":["x","`+way+`_"]}`, c != '\n')
			ask(field+":1", `{"`+way+`":1}`, true)
			ask(field2+":1", `{"k":0,"k`+way+`k":1}`, true)
			ask(field+".a:1", `{"`+way+way+`":{"a":1},"`+way+`":{"a":1}}`, true)
			ask(field+".a:1", `{"`+way+way+`":{"a":1},"`+way+`":{"b":1}}`, false)
			if c == 'a' || c == 'b' {
				continue // a repeated key
			}
			ask("a:1", `{"`+way+`":"`+way+`","b":["`+way+`"],"a":1}`, true)
			ask("a:1", `{"b":{"`+way+`":"`+way+`","a":1}}`, false)
		}
		w.Trace()
	})
}
