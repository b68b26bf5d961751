package checks

import (
	"fmt"
	"regexp"
	"strings"

	"github.com/flowchartsman/aql/zz_verif/mc"
	"github.com/flowchartsman/aql/zz_verif/ref"
)

func init() {
	register(&mc.Check{
		ID: "C15",
		Rule: "a state is a regular expression with a text; all strings of up to 5 (thorough 6) over 13 symbols that compile, 100 further expressions (flags, classes, escapes, slashes and backslashes at all places, non-ASCII, long) alone, in lists and under the similarity operator, with 40 to 100 texts (up to 65536, some up to 2 million characters) and numbers each, with and without escapes in the JSON. " +
			"every control character and 35 other strings that are easily lost, alone and in pairs, in strings and expressions. The oracle is Go's regexp on the expression as written",
		Light: true,
		Need:  []string{"match", "no match"},
		Run:   runC15,
	})
}

// slashed writes a regular expression between slashes.
func slashed(re string) string {
	var sb strings.Builder
	sb.WriteByte('/')
	for i := 0; i < len(re); i++ {
		switch {
		case re[i] == '\\' && i+1 < len(re):
			sb.WriteByte('\\')
			i++
			sb.WriteByte(re[i])
		case re[i] == '/':
			sb.WriteString(`\/`)
		default:
			sb.WriteByte(re[i])
		}
	}
	sb.WriteByte('/')
	return sb.String()
}

func runC15(r *mc.Run) {
	texts := []string{"", "a", "b", "A", "ab", "ba", "aab", "abab", "(a)", "[b]", "a+b", "a.b", `a\b`, "a/b", "/", `\`, "a|b", "^a$", "a\nb", "\n", " a ", "1", "a1", "é", "大a", "xay", "aaaa", "bbbb", "Ab", "a\\/b"}
	nums := []string{"1", "1.5", "1e3", "-2", "0.5", "100", "9007199254740993", "1e21", "1e-7", "1234567.25"}
	type job struct {
		q, re string
		more  []string
	}
	one := func(w *mc.W, j job) {
		m := newMatcher(w, j.q)
		if m == nil {
			return
		}
		re := regexp.MustCompile(j.re)
		for _, t := range append(j.more[:len(j.more):len(j.more)], texts...) {
			matchCase(w, m, j.q, ref.VObj("a", ref.VStr(t)).JSON(), re.MatchString(t))
			if j.more != nil {
				matchCase(w, m, j.q, ref.VObj("a", ref.VStr(t)).Styled(ref.Style{Escape: 1}), re.MatchString(t))
				matchCase(w, m, j.q, ref.VObj("a", ref.VStr(t)).Styled(ref.Style{Slash: true}), re.MatchString(t))
			}
		}
		for _, n := range nums {
			s, _ := ref.Text(ref.VNum(n))
			matchCase(w, m, j.q, `{"a":`+n+`}`, re.MatchString(s))
		}
		w.Trace()
	}
	mc.EachBatch(r, 16, func(yield func(job)) {
		max := 4
		if r.Thorough {
			max = 5
		}
		if r.Deep {
			max = 6
		}
		i := 0
		strs(chars(`ab.*+|^$()[]\`), max, func(s string) {
			if s == "" || strings.HasSuffix(s, `\`) && strings.Count(s, `\`)%2 == 1 {
				return
			}
			if _, err := regexp.Compile(s); err != nil {
				return
			}
			i++
			op := ""
			if i%5 == 0 {
				op = "~"
			}
			yield(job{q: "a:" + op + slashed(s), re: s})
		})
	}, one)
	mc.EachBatch(r, 1, func(yield func(job)) {
		res := []string{"(?i)ab", "(?i)É", "(?s)a.b", "a.b", "(?m)^b$", "(?m)a$", `\bab\b`, `\Bb`, `\d`, `\d+\.\d`, `\D`, `\w+`, `\W`, `\s`, `\S`, `^\d+$`, `^1000$`, `3$`, `^9007199254740992$`, `^1234567\.25$`, `0000$`, `e`, `^1\.5$`, `^-`, `[a-c]+`, `[^a-c]`, `[[:alpha:]]`, `[[:^digit:]]`, `\pL`, `\p{Greek}`, `\p{Han}`, `\x61`, `\x{5927}`, `\141`, `\Qa+b\E`, `a{2}`, `a{2,}`, `a{1,3}b`, `a{0}b`, `(a)(b)`, `(?:ab)+`, `(?P<n>a)b`, `a|b|c`, `^$`, `^`, `$`, `a*?b`, `a+?`, `a??b`, `é`, `大.`, `[é大]`, `\\`, `\\b`, `a\\b`, `\/`, `a\/b`, `a/b`, `/`, `^/$`, `[/]`, `[\/]`, `[\\/]`, `\\/`, `\\\/`, `a\\/b`, `//`, `/a/`, `"`, `'`, `\.`, `\*`, `\(a\)`, `\[b\]`, `\|`, `\^a\$`, `\n`, `a\nb`, `\t`, `,`, `\)`, `:`, ` a `, `(?U)a+`, `(?i:A)b`, `\x{1F600}`, `😀`, `\z`, `\Aa`, strings.Repeat("a?", 50), strings.Repeat("(a|b)", 60), strings.Repeat("x", 300), "(" + strings.Repeat("x|", 200) + "a)", `AND`, `a OR b`, `/ AND b:/`, `\-`, `#`, `&`, `a  b`, `\x00`, `\x00$`, `ab$`, `^ab`, `^\x00`, `^ab\n$`, `^ab.$`, `^.ab$`, `^-+ab$`, `^ab-+$`}
		more := []string{"AB", "aB", "É", "é x", "a\nB", "ab c", "xab", "1.5", "12.25", "a b", "αβ", "大大", "😀", "aa", "aaab", "abc", `"`, "'", "a,b", ")", ":", "//", "/a/", "\t", "a\tb", strings.Repeat("x", 300), strings.Repeat("ab", 100), "AND", "a OR b", "-", "#", "&", "/ AND b:/", "a  b", `\/`, `a\/b`, `a\\b`, "ab\x00", "\x00ab", "\x00", " ab", "ab ", "ab\n", "\tab", "ab\u00a0", "\u2003ab", "ab\x00\x00b"}
		for _, n := range []int{511, 1022, 1023, 1024, 1025, 4095, 4096, 65535, 65536} {
			more = append(more, strings.Repeat("-", n)+"ab", "ab"+strings.Repeat("-", n))
		}
		for _, re := range []string{"ab", "(?i)AB", "ab$", "^ab", "a.*b$", `b-+\z`} {
			p := strings.Repeat("-", 1<<20)
			yield(job{"a:" + slashed(re), re, []string{p + "ab", "ab" + p, p + "ab" + p, p + p + "ab", p + "a"}})
		}
		for _, re := range res {
			if _, err := regexp.Compile(re); err != nil {
				panic(re)
			}
			s := slashed(re)
			yield(job{"a:" + s, re, more})
			yield(job{"a:~" + s, re, more})
			yield(job{"a:(" + s + `, "zzzz")`, re, more})
			yield(job{"a:(false, " + s + ")", re, more})
			yield(job{"a:~(/zzzz/," + s + ")", re, more})
			yield(job{"x:1 OR a:" + s + " AND NOT b:" + s, re, more})
		}
	}, one)
	// every control character and others that are easily lost, alone and in pairs
	odd := []string{"\r\n", "\u00a0", "\u00ad", "\u0085", "\u2028", "\u2029", "\u200b", "\u200d", "\u200e", "\ufeff", "\ufffd", "\ufffe", "\u3000", "\u0301", "e\u0301", "\u212a", "\u017f", "ß", "ſ", "İ", "ı", "ﬁ", "Ａ", "\U0001f600", "\U0010ffff", "\u007f", " ", "  ", "''", "%20", "&amp;", "\\n", "\\u0041", "+", "%"}
	for c := 0; c < 32; c++ {
		odd = append(odd, string(rune(c)))
	}
	pairs := len(odd)
	for i := 0; i < pairs; i += 3 {
		for j := 1; j < pairs; j += 3 {
			odd = append(odd, odd[i]+odd[j])
		}
	}
	mc.EachBatch(r, 16, func(yield func(job)) {
		for _, o := range odd {
			var sb strings.Builder
			for _, c := range o {
				fmt.Fprintf(&sb, `\x{%x}`, c)
			}
			more := []string{o, "x" + o + "y", o + "x", "x" + o, o + o, "xy", "x y", "X" + strings.ToUpper(o) + "Y"}
			for _, re := range []string{"^x" + sb.String() + "y$", "^" + sb.String() + "x$", "^x" + sb.String() + "$", "^" + sb.String(), "(?s)^x.y$", "(?s)^x..y$", `^x\s+y$`, `^x\S+y$`, `^\s`, "(?i)^x" + sb.String() + "y$"} {
				yield(job{"a:" + slashed(re), re, more})
			}
		}
	}, one)
}
