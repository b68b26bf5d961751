package checks

import (
	"fmt"
	"strings"

	"github.com/flowchartsman/aql/zz_verif/ref"
)

// corpus has at least one accepted query for every construct of the language.
var corpus = []string{
	`a:1`, `a:-1`, `a:1.5`, `a:"s"`, `a:true`, `a:false`, `a:/x/`, `a:1.2.3.4`, `a:1.2.3.0/24`,
	`a:2020-01-02`, `a:2020-01-02T03:04:05Z`, `a:2020-01-02T03:04:05.5+01:30`,
	`a:exists`, `a:null`, `a:(1,2)`, `a:(1, "x", true)`, `a:~"s"`, `a:~/r/`, `a:~true`, `a:~("s", /r/)`,
	`a:<1`, `a:<=1.5`, `a:>2020-01-02`, `a:>=-1`, `a:><(1,2)`, `a:><(2020-01-01,2020-01-02)`,
	`a.b:1`, `"a b".c:1`, `a.*.b:1`, `*.a:1`, `"\u0041\n".x-_9:1`,
	`NOT a:1`, `!a:1`, `! a:1`, `(a:1)`, `( a : 1 )`, `NOT (a:1)`,
	`a:1 AND b:2`, `a:1 OR b:2`, `a:1 AND b:2 OR c:3`, `a:1 OR b:2 AND c:3`, `(a:1 OR b:2) AND !c:3`,
	`a:"\"\\\b\f\n\r\t\u00e9"`, `a:/\//`, `a:/[\\\/]/`, "a:1\nAND\tb:2", `a:"é" AND b:"大"`, `NOT NOT:1`, `AND:1 AND OR:2`,
}

// anyChars are the characters inserted into and replaced in queries: all that
// mean something in some construct, and some that mean nothing.
var anyChars = chars("aZ019_-.,:;()\"/\\*?!<>=~ \n\t\r&|{}[]'+@#$%^`TtzxfnulAeéÉ大😀\u00a0\ufeff\x00\x7f")

// edits yields every text one edit away from q: a character deleted, inserted,
// replaced or swapped with the next.
func edits(q string, alphabet []string, yield func(string)) {
	rs := chars(q)
	join := func(parts ...[]string) string {
		var sb strings.Builder
		for _, p := range parts {
			for _, s := range p {
				sb.WriteString(s)
			}
		}
		return sb.String()
	}
	for i := 0; i <= len(rs); i++ {
		for _, c := range alphabet {
			yield(join(rs[:i], []string{c}, rs[i:]))
		}
		if i == len(rs) {
			break
		}
		yield(join(rs[:i], rs[i+1:]))
		for _, c := range alphabet {
			if c != rs[i] {
				yield(join(rs[:i], []string{c}, rs[i+1:]))
			}
		}
		if i+1 < len(rs) {
			yield(join(rs[:i], rs[i+1:i+2], rs[i:i+1], rs[i+2:]))
		}
	}
}

// trees yields every tree with exactly n comparisons; with negation, every node
// also in a negated version. Comparisons are numbered from left to right by
// their position in leaves; the yielded tree must not be kept.
func trees(n int, nots bool, leaf func(i int) *ref.Node, yield func(*ref.Node)) {
	var rec func(from, n int) []*ref.Node
	memo := map[[2]int][]*ref.Node{}
	rec = func(from, n int) []*ref.Node {
		if t, ok := memo[[2]int{from, n}]; ok {
			return t
		}
		var out []*ref.Node
		add := func(t *ref.Node) {
			out = append(out, t)
			if nots {
				out = append(out, &ref.Node{K: ref.Not, L: t})
			}
		}
		if n == 1 {
			add(leaf(from))
		}
		for k := 1; k < n; k++ {
			for _, l := range rec(from, k) {
				for _, r := range rec(from+k, n-k) {
					add(&ref.Node{K: ref.And, L: l, R: r})
					add(&ref.Node{K: ref.Or, L: l, R: r})
				}
			}
		}
		memo[[2]int{from, n}] = out
		return out
	}
	// the topmost level is not stored
	if n == 1 {
		for _, t := range rec(0, 1) {
			yield(t)
		}
		return
	}
	for k := 1; k < n; k++ {
		for _, l := range rec(0, k) {
			for _, r := range rec(k, n-k) {
				for _, kind := range []ref.NodeKind{ref.And, ref.Or} {
					t := &ref.Node{K: kind, L: l, R: r}
					yield(t)
					if nots {
						yield(&ref.Node{K: ref.Not, L: t})
					}
				}
			}
		}
	}
}

// style says how to write a tree as a query.
type style struct {
	sp    string // white space where some is needed
	opt   string // white space where it is optional
	not   string // NOT or !
	paren bool   // parentheses around everything, twice around comparisons
}

var styles = []style{
	{sp: " ", not: "NOT"},
	{sp: " ", not: "!"},
	{sp: "\n", opt: " ", not: "NOT"},
	{sp: "\t \r\n", opt: "\n\t", not: "!"},
	{sp: " ", not: "NOT", paren: true},
	{sp: "\r", opt: "\r", not: "!", paren: true},
}

// write writes a tree as a query with as few parentheses as the grammar allows,
// or all of them.
func write(n *ref.Node, st style, leaf func(*ref.Node) string) string {
	par := func(s string) string { return "(" + st.opt + s + st.opt + ")" }
	switch n.K {
	case ref.Cmp:
		if st.paren {
			return par(par(leaf(n)))
		}
		return leaf(n)
	case ref.Not:
		s := write(n.L, st, leaf)
		if n.L.K != ref.Cmp && !st.paren {
			s = par(s)
		}
		if st.not == "NOT" {
			s = "NOT" + st.sp + s
		} else {
			s = "!" + st.opt + s
		}
		if st.paren {
			s = par(s)
		}
		return s
	}
	l, r := write(n.L, st, leaf), write(n.R, st, leaf)
	word := "OR"
	if n.K == ref.And {
		word = "AND"
	}
	if !st.paren {
		// the operators are right-associative
		if n.L.K == n.K || n.K == ref.And && n.L.K == ref.Or {
			l = par(l)
		}
		if n.K == ref.And && n.R.K == ref.Or {
			r = par(r)
		}
	}
	s := l + st.sp + word + st.sp + r
	if st.paren {
		s = par(s)
	}
	return s
}

// numbered is a comparison that names its number.
func numbered(i int) *ref.Node {
	return &ref.Node{K: ref.Cmp, Field: []string{fmt.Sprintf("f%d", i)}}
}
