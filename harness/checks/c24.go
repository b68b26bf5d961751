package checks

import (
	"fmt"
	"regexp"
	"strings"

	"github.com/flowchartsman/aql/jsonmatcher"
	"github.com/flowchartsman/aql/parser"
	"github.com/flowchartsman/aql/zz_verif/mc"
	"github.com/flowchartsman/aql/zz_verif/ref"
)

func init() {
	register(&mc.Check{
		ID: "C24",
		Rule: "a state is a query whose advice is read; all lists of up to 3 of 19 values of every type under every operator that takes them, all regular expressions of up to 5 (thorough 6) of 10 tokens and of 9 others (quantifiers, anchors, groups), also with an escaped slash at either end, some of up to 1000 characters, all trees of up to 3 comparisons with every choice of 6 comparisons and two layouts, " +
			"lists of up to 100 values (and 1200 with the value at an end), chains and nestings of up to 60 comparisons with the value that needs advice at every place. Warnings (exact number), hints (at least one, none, or not specified), order and positions are compared with the model; matches of queries with advice are compared with the model's, and acceptance with the parser's for every edit of 30 queries",
		Need: []string{"no advice", "warning", "hint", "warning and hint"},
		Run:  runC24,
	})
}

// wanted is the advice for one value.
type wanted struct {
	pos      ref.Pos
	warnings int
	hints    int // 0 none, 1 at least one, -1 not specified
}

// adviceRegex returns the advice for a regular expression made of adviceTokens.
func adviceRegex(s string, w *wanted) {
	ci := strings.HasPrefix(s, "(?i)")
	body := strings.TrimPrefix(s, "(?i)")
	if ci && !ascii(s) {
		w.warnings++
	}
	if strings.HasPrefix(body, ".*") || strings.HasSuffix(body, ".*") && !strings.HasSuffix(body, `\.*`) {
		w.hints = 1
		return
	}
	if wrapped(body) {
		w.hints = 1
		return
	}
	if wordChoice(body) {
		w.hints = 1
		return
	}
	if strings.Contains(body, "|") || strings.Contains(body, "(?") || strings.Contains(body, `\.*`) || strings.HasSuffix(body, ".*?") {
		w.hints = -1
	}
}

func ascii(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 128 {
			return false
		}
	}
	return true
}

// wrapped says if one capturing group encloses all of a regular expression.
func wrapped(s string) bool {
	if !strings.HasPrefix(s, "(") || strings.HasPrefix(s, "(?") && !strings.HasPrefix(s, "(?P<") {
		return false
	}
	depth := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '\\':
			i++
		case '[':
			for i < len(s) && s[i] != ']' {
				i++
			}
		case '(':
			depth++
		case ')':
			depth--
			if depth == 0 {
				return i == len(s)-1
			}
		}
	}
	return false
}

var wordsRE = regexp.MustCompile(`^[a-z]{2,}(\|[a-z]{2,})+$`)

// wordChoice says if a regular expression is an alternation of words that do not
// begin alike.
func wordChoice(s string) bool {
	if !wordsRE.MatchString(s) {
		return false
	}
	first := map[byte]bool{}
	for _, word := range strings.Split(s, "|") {
		if first[word[0]] {
			return false
		}
		first[word[0]] = true
	}
	return true
}

// advice lists the wanted advice of all values of a query, in order.
func advice(n *ref.Node, out []wanted) []wanted {
	if n.K != ref.Cmp {
		out = advice(n.L, out)
		if n.R != nil {
			out = advice(n.R, out)
		}
		return out
	}
	for _, v := range n.Vals {
		w := wanted{pos: v.Pos}
		switch v.T {
		case ref.TStr:
			if n.Op == "~" {
				w.warnings++
			}
		case ref.TRegex:
			if n.Op == "~" {
				w.warnings++
			}
			adviceRegex(v.S, &w)
		case ref.TTime:
			if n.Op == "" && !v.Day {
				w.warnings++
			}
		}
		out = append(out, w)
	}
	return out
}

func adviceCase(w *mc.W, q string) {
	w.Case(q, func() string {
		t, rerr := ref.Parse(q)
		if rerr != nil {
			panic(fmt.Sprintf("%s: %v", q, rerr))
		}
		m, err := jsonmatcher.NewMatcher(q)
		if err != nil {
			return fmt.Sprintf("rejected: %v", err)
		}
		msgs := m.Messages()
		w.Step(1 + len(msgs))
		want := advice(t, nil)
		i := 0
		anyW, anyH := false, false
		for _, wd := range want {
			warnings, hints := 0, 0
			for i < len(msgs) && toPos(msgs[i].Pos()) == wd.pos {
				switch msgs[i].Type {
				case parser.MsgWarning:
					warnings++
				case parser.MsgHint:
					hints++
				default:
					return fmt.Sprintf("message of type %v: %v", msgs[i].Type, msgs[i])
				}
				if msgs[i].Message() == "" {
					return "a message without text"
				}
				i++
			}
			if warnings != wd.warnings {
				return fmt.Sprintf("%d warnings for the value at %v, expected %d; messages: %v", warnings, wd.pos, wd.warnings, msgs)
			}
			if wd.hints == 0 && hints > 0 || wd.hints == 1 && hints == 0 {
				return fmt.Sprintf("%d hints for the value at %v, expected %d; messages: %v", hints, wd.pos, wd.hints, msgs)
			}
			anyW, anyH = anyW || warnings > 0, anyH || hints > 0
		}
		if i != len(msgs) {
			return fmt.Sprintf("message %d %v is not at the place of a value that comes next; messages: %v", i, msgs[i], msgs)
		}
		switch {
		case anyW && anyH:
			w.Outcome("warning and hint")
		case anyW:
			w.Outcome("warning")
		case anyH:
			w.Outcome("hint")
		default:
			w.Outcome("no advice")
		}
		if again := m.Messages(); fmt.Sprint(again) != fmt.Sprint(msgs) {
			return fmt.Sprintf("read again, the messages are %v, not %v", again, msgs)
		}
		return ""
	})
	w.Trace()
}

func runC24(r *mc.Run) {
	stamp := "2020-01-02T03:04:05Z"
	// lists
	pool := []string{"1", "-2.5", `"s"`, `"/.*x/"`, "true", "10.0.0.1", "10.0.0.0/8", "2020-01-02", stamp, "2021-01-02T03:04:05.5+01:30", "2020-01-02T00:00:00Z", "/x/", "/é/", "/(?i)x/", "/(?i)É/", "/.*x/", "/x.*/", "/(x)/", `/x\/.*y/`}
	mc.Each(r, func(yield func(string)) {
		var rec func(op string, pool, cur []string, max int)
		rec = func(op string, pool, cur []string, max int) {
			if len(cur) > 1 {
				yield("é.a:" + op + "(" + strings.Join(cur, ", ") + ")")
			}
			if len(cur) == 1 {
				yield("a:" + op + cur[0])
				yield("!(\"é\" :" + op + "\n" + cur[0] + ")")
			}
			if len(cur) == max {
				return
			}
		next:
			for _, v := range pool {
				for _, c := range cur {
					if c == v {
						continue next
					}
				}
				rec(op, pool, append(cur[:len(cur):len(cur)], v), max)
			}
		}
		max := 3
		if r.Thorough {
			max = 4
		}
		rec("", pool, nil, max)
		rec("~", []string{`"s"`, `"é"`, `"/.*x/"`, "true", "/x/", "/(?i)É/", "/.*x/", "/(x)/"}, nil, max+1)
		for _, op := range []string{"<", "<=", ">", ">="} {
			for _, v := range []string{"1", "2.5", "2020-01-02", stamp} {
				yield("a:" + op + v)
			}
		}
		yield("a:><(1,2)")
		yield("a:><(2020-01-02,2020-01-03)")
		yield("a:><(" + stamp + ",2021-01-02T03:04:05Z)")
		yield("a:exists")
		yield("a:null")
	}, func(w *mc.W, q string) {
		if _, err := ref.Parse(q); err != nil {
			if strings.HasPrefix(q, "é") {
				q = `"é"` + q[len("é"):]
			}
		}
		adviceCase(w, q)
	})
	// regular expressions
	tokens := []string{"a", ".*", "(", ")", "|", "é", `\.`, "[.(]", ".", `\)`}
	max := 5
	if r.Thorough {
		max = 6
	}
	mc.Each(r, func(yield func(string)) {
		strs(tokens, max, func(s string) {
			for _, p := range []string{"", "(?i)"} {
				body := p + s
				if s == "" || strings.Contains(s, ".*.*") && len(s) > 8 {
					continue
				}
				if _, err := regexp.Compile(body); err != nil {
					continue
				}
				yield("a:/" + body + "/")
				// slashes of the expression next to its delimiters
				yield(`a:/\/` + body + "/")
				yield("a:/" + body + `\//`)
				if len(s) <= 4 {
					yield("a:~/" + body + "/")
					yield(`a:("x", /` + body + "/, " + stamp + ")")
				}
			}
		})
		// quantifiers and anchors
		strs([]string{"a", ".*", "?", "+", "^", "$", "(", ")", "{2}"}, max, func(s string) {
			for _, p := range []string{"", "(?i)"} {
				if _, err := regexp.Compile(p + s); err == nil && s != "" {
					yield("a:/" + p + s + "/")
				}
			}
		})
		words := []string{"one", "two", "four", "up", "north", "xy", "quite", "down", "left", "right"}
		for n := 1; n <= len(words); n++ {
			for i := range words {
				s := words[i]
				for k := 1; k < n; k++ {
					s += "|" + words[(i+k)%len(words)]
				}
				for _, p := range []string{"", "(?i)"} {
					yield("a:/" + p + s + "/")
					yield("a.b:~/" + p + s + "/")
					yield(`a:("x", /` + p + s + "/, /y/, 2)")
					yield("a:/" + p + "(" + s + ")/")
				}
			}
		}
	}, adviceCase)
	// long regular expressions and groups with a name
	mc.Each(r, func(yield func(string)) {
		for _, n := range []int{5, 10, 20, 31, 32, 33, 50, 63, 64, 65, 100, 128, 200, 255, 256, 257, 500, 1000, 1001} {
			fill := strings.Repeat("xy", n)[:n]
			for _, s := range []string{fill, ".*" + fill, fill + ".*", "(" + fill + ")", "(?i)" + fill, "(?i)é" + fill, "(?i)" + fill + "é", "(?i).*" + fill + "é", "(?i)(" + fill + ")", fill + "|" + "zz" + fill, `\/` + fill + ".*", ".*" + fill + `\/`} {
				yield("a:/" + s + "/")
				yield("a:~/" + s + "/")
				yield(`a:("x", /` + s + "/, " + stamp + ")")
			}
			yield(`a:~"` + fill + `"`)
			yield(fill + ":" + stamp)
		}
		for _, s := range []string{"(?P<n>x)", "(?P<name>x.y)", "(?P<n>(x))", "((?P<n>x))", "(?i)(?P<n>x)"} {
			yield("a:/" + s + "/")
			yield("a:~/" + s + "/")
		}
	}, adviceCase)
	// trees
	leaves := []string{`a:1`, "b:" + stamp, `c:~"s"`, `d:/.*(x)/`, `e:("x",` + stamp + `,/(?i)é.*/)`, `"大".f:~(/(y)/,true)`}
	leafOf := func(choice []int) func(n *ref.Node) string {
		return func(n *ref.Node) string {
			i := int(n.Field[0][1] - '0')
			return leaves[choice[i]]
		}
	}
	mc.Each(r, func(yield func(string)) {
		for n := 1; n <= 3; n++ {
			trees(n, n <= 2 || r.Thorough, numbered, func(t *ref.Node) {
				choice := make([]int, n)
				for {
					yield(write(t, styles[0], leafOf(choice)))
					yield(write(t, styles[3], leafOf(choice)))
					k := 0
					for k < n {
						choice[k]++
						if choice[k] < len(leaves) {
							break
						}
						choice[k] = 0
						k++
					}
					if k == n {
						break
					}
				}
			})
		}
		if !r.Thorough {
			trees(3, true, numbered, func(t *ref.Node) {
				for c := 0; c < len(leaves); c++ {
					yield(write(t, styles[1], leafOf([]int{c, (c + 1) % len(leaves), (c + 3) % len(leaves)})))
				}
			})
		}
	}, adviceCase)
	// sizes
	mc.EachBatch(r, 2, func(yield func(string)) {
		special := []string{stamp, "/.*x/", "/(?i)É/"}
		for _, n := range []int{2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 100, 400, 1200} {
			for at := 0; at < n; at++ {
				if n > 100 && at > 0 && at < n-1 {
					continue
				}
				if n > 33 && at > 2 && at < n-3 && at%7 != 0 && !r.Thorough {
					continue
				}
				for si, s := range special {
					var list []string
					for i := 0; i < n; i++ {
						if i == at {
							list = append(list, s)
						} else {
							list = append(list, fmt.Sprintf(`"w%d"`, i))
						}
					}
					yield("a:(" + strings.Join(list, ",") + ")")
					if si > 0 {
						yield("a:~(" + strings.Join(list, ",") + ")")
					}
					if n <= 65 && si == at%len(special) {
						var sb, nest strings.Builder
						for i := 0; i < n; i++ {
							v := "1"
							if i == at {
								v = s
							}
							if i > 0 {
								sb.WriteString([]string{" AND ", " OR ", "\nAND "}[i%3])
								nest.WriteString(" OR !(")
							}
							fmt.Fprintf(&sb, "f%d:%s", i, v)
							fmt.Fprintf(&nest, "f%d:%s", i, v)
						}
						yield(sb.String())
						if n <= 33 {
							yield(nest.String() + strings.Repeat(")", n-1))
						}
					}
				}
			}
		}
	}, adviceCase)
	// matches
	var qs []string
	for _, v := range []string{`~"s"`, `~"s*"`, "~/s/", `~("s", /^t$/)`, "/.*s/", "/s.*/", "/(s)/", "/(?i)É/", "/^(s|t)$/", "/.*/", "/.*?/", "/.*?s/", "/s.*?/", `("x", /(t)/)`} {
		qs = append(qs, "a:"+v, "!a:"+v, "a:1 OR a:"+v, "a:1 AND a:"+v)
	}
	queries := ask(r, qs)
	var docs []*ref.V
	vals := []*ref.V{ref.VStr("s"), ref.VStr("t"), ref.VStr("S"), ref.VStr("st"), ref.VStr("ts x"), ref.VStr("É"), ref.VStr(""), ref.VNum("1"), ref.VNum("12"), ref.VBool(true), ref.VNull()}
	for _, v := range vals {
		docs = append(docs, ref.VObj("a", v), ref.VObj("b", v))
		for _, u := range vals {
			docs = append(docs, ref.VObj("a", ref.VArr(v, u)))
		}
	}
	mc.Each(r, mc.Slice(docs), func(w *mc.W, d *ref.V) {
		text := d.JSON()
		for _, a := range queries {
			a.check(w, model, d, text)
		}
		w.Trace()
	})
	// acceptance
	mc.Each(r, func(yield func(string)) {
		for i, q := range corpus {
			if i%3 == 0 || r.Thorough {
				edits(q, chars(`a1"/(~:. é*`), yield)
			}
		}
		for _, q := range []string{`a:~"s"`, "a:/.*x/", "a:/(x)/", "a:/(?i)é/", "a:" + stamp, `a:~("s",/x/)`} {
			edits(q, anyChars, yield)
		}
	}, func(w *mc.W, q string) {
		w.Case("accept "+q, func() string {
			_, perr := parser.ParseQuery(q)
			m, err := jsonmatcher.NewMatcher(q)
			w.Step(1)
			if (perr == nil) != (err == nil) || (m == nil) == (err == nil) {
				return fmt.Sprintf("the parser says %v, NewMatcher says %v (matcher %v)", perr, err, m != nil)
			}
			if err == nil {
				for _, msg := range m.Messages() {
					if msg.Type == parser.MsgError {
						return fmt.Sprintf("an accepted query has the error %v", msg)
					}
				}
			}
			return ""
		})
		w.Trace()
	})
}
