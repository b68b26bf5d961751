package checks

import (
	"strings"

	"github.com/flowchartsman/aql/zz_verif/mc"
	"github.com/flowchartsman/aql/zz_verif/ref"
)

func init() {
	register(&mc.Check{
		ID: "C14",
		Rule: "a state is a string term with a text; all terms of up to 3 symbols over {a b ? * \\ -} with all texts of up to 4 over {a b A - space \\ ? *}, of up to 2 with all texts of up to 5, all terms of 4 (thorough 5) with all texts of up to 4, every printable ASCII character in and around terms and texts, 63 terms that look like regular expressions with all of their texts, " +
			"terms of up to 300 and texts of up to 5000 characters with the term at every kind of place, texts of up to 1048577 (thorough 3000000) characters, terms of up to 100 pieces between wildcards, numbers, and terms with non-ASCII characters of up to 3 symbols with texts of up to 4, with and without wildcards. Results are compared with the model",
		Assumptions: []string{"line breaks under wildcards, and non-ASCII characters directly next to an ASCII term, are left out"},
		Light:       true,
		Need:        []string{"match", "no match"},
		Run:         runC14,
	})
}

func quoteTerm(s string) string {
	var sb strings.Builder
	ref.WriteString(&sb, s, ref.Style{})
	return sb.String()
}

func runC14(r *mc.Run) {
	type text struct{ s, doc string }
	mk := func(ss []string) (out []text) {
		for _, s := range ss {
			out = append(out, text{s, ref.VObj("a", ref.VStr(s)).JSON()})
		}
		return out
	}
	collect := func(al []string, max int) (out []string) {
		strs(al, max, func(s string) { out = append(out, s) })
		return out
	}
	type job struct {
		term  string
		texts []text
		hold  func(term, text string) (bool, bool)
	}
	ascii := func(term, text string) (bool, bool) { return ref.FindTerm(term, text, true), true }
	one := func(w *mc.W, j job) {
		q := "a:" + quoteTerm(j.term)
		m := newMatcher(w, q)
		if m == nil {
			return
		}
		for _, t := range j.texts {
			if want, ok := j.hold(j.term, t.s); ok {
				matchCase(w, m, q, t.doc, want)
			}
		}
		w.Trace()
	}
	textAl := chars(`abA- \?*`)
	t4, t3 := mk(collect(textAl, 4)), mk(collect(textAl, 3))
	t5, longest := t4, 4
	if r.Deep {
		longest = 5
	}
	if r.Thorough {
		t5 = mk(collect(textAl, 5))
	}
	mc.EachBatch(r, 4, func(yield func(job)) {
		strs(chars(`ab?*\-`), longest, func(s string) {
			switch {
			case s == "":
			case len(s) == 4 && !r.Thorough:
				yield(job{s, t3, ascii})
			case len(s) <= 2:
				yield(job{s, t5, ascii})
			default:
				yield(job{s, t4, ascii})
			}
		})
	}, one)
	// every printable character
	var printable []string
	for c := ' '; c <= '~'; c++ {
		printable = append(printable, string(c))
	}
	var around []string
	for _, c := range printable {
		around = append(around, c, "x"+c, c+"x", "x"+c+"x", c+c, " "+c+" ", "x "+c+" x", "x"+strings.ToUpper(c)+"x")
	}
	around = append(around, "", "é x", "x 大", "é", "X", "\t", "x\ty", "x\x00", "\x00x", "\x00", "x\x00x")
	tp := mk(around)
	mc.EachBatch(r, 4, func(yield func(job)) {
		for _, c := range printable {
			yield(job{c, tp, ascii})
			yield(job{c + "x", tp, ascii})
			yield(job{"x" + c, tp, ascii})
			yield(job{"x" + c + "x", tp, ascii})
			yield(job{"?" + c, tp, ascii})
			yield(job{c + "*", tp, ascii})
			yield(job{`\` + c, tp, ascii})
		}
	}, one)
	// terms that look like regular expressions
	like := []string{"x{2}", "x{1,}", "x{0,3}y", "{x}", "[x-z]", "[^a]", "[x]", "(x)", "(x|y)", "x|y", "(?i)x", "(?:x)", "(?P<n>x)", "^x", "x$", "^x$", "x+", "x+y", "x.y", `x\dy`, `\d`, `\w`, `\s`, `\bx`, `x\b`, `\Bx`, `\pL`, `\x78`, `\Qx\E`, `x\E`, `\E`, `\Q`, `\Ax`, `x\z`, `\n`, `\t`, `\u0078`, `\\x`, `$1`, `${x}`, `x\1`, "%78", "%s", "%d", "&x;", "x/y", "x,y", "<x>", "x;y", "x=y", "x'y", `x"y`, "~x", "x#y", "x y#z", "x@y", "x!", "`x`", "x}y", "x]y", "x)y", "x(y", "x[y", "x{y", ".x", "x."}
	var likely []string
	for _, s := range append(append([]string{}, like...), "x", "xx", "xxx", "xy", "xxy", "y", "z", "a", "5", "x5y", "-", "n", "t", "78", "X", "x\ny", "x y", "xzy", "", " ", "$", "x1", "\t", "\n") {
		likely = append(likely, s, "b "+s+" b", "b"+s, s+"b", strings.ToUpper(s), s+" "+s)
	}
	tl := mk(likely)
	mc.EachBatch(r, 1, func(yield func(job)) {
		for _, s := range like {
			yield(job{s, tl, ascii})
			yield(job{s + "?", tl, ascii})
			yield(job{"*" + s, tl, ascii})
			yield(job{s + "*b", tl, ascii})
		}
	}, func(w *mc.W, j job) {
		j.hold = func(term, text string) (bool, bool) {
			// line breaks under wildcards are left out
			return ref.FindTerm(term, text, true), !strings.Contains(text, "\n") || !strings.ContainsAny(term, "?*")
		}
		one(w, j)
	})
	// long terms and texts
	mc.EachBatch(r, 1, func(yield func(job)) {
		for _, n := range []int{1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300} {
			word := strings.Repeat("lorem1_", n/7+1)[:n]
			for len(word) > 0 && word[len(word)-1] == ' ' {
				word = word[:len(word)-1]
			}
			phrase := strings.Repeat("ab c-d ", n/7+1)[:n]
			var ss []string
			for _, pad := range []int{0, 1, 2, 3, 10, 50, 100, 255, 256, 1000, 5000} {
				p := strings.Repeat("x ", pad/2)
				for _, wd := range []string{word, strings.ToUpper(word), word[:n-1], word + "s", "s" + word, phrase} {
					ss = append(ss, p+wd, wd+" "+p, p+wd+" "+p, p+"-"+wd+"."+p, strings.TrimSpace(p)+wd)
				}
			}
			ts := mk(ss)
			yield(job{word, ts, ascii})
			yield(job{strings.ToUpper(word), ts, ascii})
			yield(job{word + "*", ts, ascii})
			yield(job{"*" + word, ts, ascii})
			yield(job{"?" + word[1:], ts, ascii})
			yield(job{strings.Repeat("?", n), ts, ascii})
			if strings.TrimSpace(phrase) == phrase {
				yield(job{phrase, ts, ascii})
			}
			if n > 4 {
				yield(job{word[:2] + "*" + word[n-2:], ts, ascii})
				yield(job{word[:n/2] + "?" + word[n/2+1:], ts, ascii})
				yield(job{strings.Repeat("*", n), mk(ss[:20]), ascii})
			}
		}
	}, one)
	// very long texts, and terms of many pieces
	pads := []int{500, 899, 900, 901, 1000, 1023, 1024, 4095, 4096, 10000, 32768, 65535, 65536, 70000, 131072, 300000, 1<<20 + 1}
	if r.Deep {
		pads = append(pads, 1000000, 3000000)
	}
	mc.EachBatch(r, 1, func(yield func(job)) {
		for _, n := range pads {
			spaced, solid := strings.Repeat("x ", n/2), strings.Repeat("x", n)
			ts := mk([]string{"ab " + spaced + "cd", spaced + "abcd " + spaced, "ab" + solid + "cd", "ab " + solid + " ce", spaced + "cd", "ab " + spaced, solid + " cd"})
			for _, term := range []string{"ab", "cd", "abcd", "ab*cd", "ab?x*cd", "*cd", "ab*", "?b*c?", "x*ce", "zz"} {
				yield(job{term, ts, ascii})
			}
		}
		for _, n := range []int{2, 3, 4, 5, 7, 8, 9, 10, 12, 15, 16, 17, 20, 31, 32, 33, 40, 63, 64, 65, 100} {
			letters := make([]string, n+1)
			for i := range letters {
				letters[i] = string(rune('a' + i*7%23))
			}
			whole := strings.Join(letters, "")
			ss := []string{whole, strings.Join(letters, " "), strings.Join(letters, "zz"), strings.Join(letters, "*"), strings.Join(letters, "?"), strings.ToUpper(strings.Join(letters, "--"))}
			for at := range letters {
				if n > 33 && at > 3 && at < n-3 && at%8 != 0 && !r.Deep {
					continue
				}
				missing := append(append([]string{}, letters[:at]...), letters[at+1:]...)
				ss = append(ss, strings.Join(missing, "zz"), strings.Join(missing, ""), strings.Join(letters[:at], "z")+letters[at]+strings.Join(letters[at+1:], "z"))
			}
			ts := mk(ss)
			yield(job{strings.Join(letters, "*"), ts, ascii})
			yield(job{strings.Join(letters, "?"), ts, ascii})
			yield(job{strings.Join(letters, "??"), ts, ascii})
			yield(job{strings.Join(letters, `\*`), ts, ascii})
			yield(job{strings.Join(letters, `\?`), ts, ascii})
			yield(job{"*" + strings.Join(letters[1:n], "*") + "*", ts, ascii})
			yield(job{strings.Join(letters[:n/2], "?") + "*" + strings.Join(letters[n/2:], "*"), ts, ascii})
		}
	}, one)
	// numbers
	r.One(func(w *mc.W) {
		for _, term := range []string{"1", "12", "1?", "*2", "1.5", "15", "1000", "-5", "5", "1e3", "0.5", ".5", "1.0", "?", "*", "a", "100000", "e", "0", "9007199254740993", "9007199254740992", "*993", "12345678901234567890", "-1234567890123456789", "1000000000000000000000", "1e21", "0.0000001", "1e-7", "1234567.25", "123*890"} {
			q := "a:" + quoteTerm(term)
			m := newMatcher(w, q)
			for _, n := range []string{"1", "12", "1.5", "1.0", "1e3", "1000", "-5", "5", "0.5", "5e-1", "100000", "1E5", "0", "-0.5", "123456789", "1.25", "21", "112", "9007199254740993", "9007199254740992", "12345678901234567890", "-1234567890123456789", "1e21", "1E+21", "1e-7", "1234567.25", "123456789012345678901234567890", "12345672.5e-1"} {
				s, _ := ref.Text(ref.VNum(n))
				if m != nil {
					matchCase(w, m, q, `{"a":`+n+`}`, ref.FindTerm(term, s, true))
				}
			}
			w.Trace()
		}
	})
	// non-ASCII terms
	withWild := func(term, text string) (bool, bool) { return ref.FindTerm(term, text, false), true }
	nat := mk(collect(chars("éÉea大 "), 4))
	if !r.Thorough {
		nat = mk(append(collect(chars("éea大"), 4), collect(chars("éÉEA大"), 3)...))
	}
	mc.EachBatch(r, 4, func(yield func(job)) {
		strs(chars("éÉa大?*"), 3, func(s string) {
			if strings.ContainsAny(s, "?*") && strings.ContainsAny(s, "éÉ大") {
				yield(job{s, nat, withWild})
			}
		})
		for _, s := range []string{`é\*`, `\?大`, `大*é`, `é?大*`, "*é*", "??é", `\é*`, "é.*", "大+?", "(é?", "[é]*"} {
			yield(job{s, nat, withWild})
			yield(job{s, mk([]string{"é*", "?大", "大xé", "éa大", "x é x", "xé", `\éx`, "é.x", "éx", "大+x", "(éx", "[é]", "é]", "大é 大"}), withWild})
		}
	}, one)
	loose := func(term, text string) (bool, bool) { return strings.Contains(foldLoose(text), foldLoose(term)), true }
	nal := []string{"é", "É", "e", "E", "ｅ", "é", "大", "a", " "}
	nlt := mk(collect(nal, 3))
	if r.Thorough {
		nlt = mk(collect(nal, 4))
	}
	mc.EachBatch(r, 4, func(yield func(job)) {
		strs([]string{"é", "É", "ｅ", "e", "大", "a"}, 3, func(s string) {
			if strings.ContainsAny(s, "éÉｅ大") {
				yield(job{s, nlt, loose})
			}
		})
		for _, s := range []string{"ñandú", "ÀÉÎ", "Ｔｅｓｔ", "naïve café", "日本語", "привет", "ПРИВЕТ", "Ünïcödé", "über", "€5", "“q”", "–"} {
			var ss []string
			for _, p := range []int{0, 1, 2, 10, 100, 255, 256, 1000} {
				for _, t := range []string{s, strings.ToUpper(s), strings.ToLower(s), foldLoose(s), s + "x", "x" + s, string([]rune(s)[:len([]rune(s))-1])} {
					ss = append(ss, strings.Repeat("x", p)+t, t+strings.Repeat(" ж", p), strings.Repeat("é ", p)+t+strings.Repeat("y", p))
				}
			}
			yield(job{s, mk(ss), loose})
			ss = nil
			for _, p := range []int{4096, 5000, 65536, 70000, 200000} {
				ss = append(ss, strings.Repeat("x ", p/2)+s, strings.Repeat("x", p)+foldLoose(s)+"y", s+strings.Repeat(" ж", p/2), strings.Repeat("é ", p/2)+string([]rune(s)[1:]))
			}
			yield(job{s, mk(ss), loose})
		}
		// every character beside one that is not ASCII
		for c := '!'; c <= '~'; c++ {
			if c == '?' || c == '*' {
				continue
			}
			var ss []string
			for _, e := range []string{"é", "É", "e", "E", "ｅ", "a"} {
				for _, d := range []string{string(c), string(c + 1), "", "x"} {
					ss = append(ss, e+d, d+e, e+d+e, "ab "+e+d+" ab", "x"+d+e+"x")
				}
			}
			for _, s := range []string{"é" + string(c), string(c) + "é", "é" + string(c) + "É", string(c) + string(c) + "大", "a" + string(c) + "é b"} {
				yield(job{s, mk(append(ss, s, foldLoose(s), strings.ToUpper(s), "x"+foldLoose(s)+"x")), loose})
			}
		}
	}, one)
}

// foldLoose removes case, width and the diacritics of the characters used here.
func foldLoose(s string) string {
	var sb strings.Builder
	for _, c := range s {
		switch {
		case c == 0x301:
			continue
		case c >= 0xff01 && c <= 0xff5e:
			c = c - 0xff01 + '!'
		}
		for from, to := range map[string]string{"éÉ": "e", "ñÑ": "n", "úÚüÜ": "u", "àÀ": "a", "îÎïÏ": "i", "öÖ": "o"} {
			if strings.ContainsRune(from, c) {
				c = rune(to[0])
			}
		}
		sb.WriteRune(c)
	}
	return strings.ToLower(sb.String())
}
