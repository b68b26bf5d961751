package ref

import (
	"math/big"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"unicode"
)

// Select returns the values a path selects in a document.
func Select(doc *V, path []string) []*V {
	if doc.K != Obj {
		return nil
	}
	return sel(doc, path)
}

func sel(o *V, path []string) []*V {
	for i, k := range o.Keys {
		if k != path[0] {
			continue
		}
		v := o.Elems[i]
		if len(path) == 1 {
			return []*V{v}
		}
		switch v.K {
		case Obj:
			return sel(v, path[1:])
		case Arr:
			var out []*V
			for _, e := range v.Elems {
				if e.K == Obj {
					out = append(out, sel(e, path[1:])...)
				}
			}
			return out
		}
		return nil
	}
	return nil
}

// Scalars returns the selected scalars and the scalar members of selected
// arrays.
func Scalars(vs []*V) []*V {
	var out []*V
	for _, v := range vs {
		switch v.K {
		case Obj:
		case Arr:
			for _, e := range v.Elems {
				if e.Scalar() {
					out = append(out, e)
				}
			}
		default:
			out = append(out, v)
		}
	}
	return out
}

// TimeReader tells what instant a text denotes, if any.
type TimeReader func(text string) (Instant, bool)

// Model evaluates queries.
type Model struct {
	Time TimeReader
	// Loose decides terms with non-ASCII characters and no wildcards.
	Loose func(term, text string) bool
}

// Match evaluates a query on a document.
func (m *Model) Match(n *Node, doc *V) bool {
	switch n.K {
	case And:
		l, r := m.Match(n.L, doc), m.Match(n.R, doc)
		return l && r
	case Or:
		l, r := m.Match(n.L, doc), m.Match(n.R, doc)
		return l || r
	case Not:
		return !m.Match(n.L, doc)
	}
	vs := Select(doc, n.Field)
	switch n.Op {
	case "exists":
		return len(vs) > 0
	case "null":
		for _, v := range vs {
			if v.K != Null {
				return false
			}
		}
		return len(vs) > 0
	}
	for _, v := range Scalars(vs) {
		if m.Holds(n.Op, n.Vals, v) {
			return true
		}
	}
	return false
}

// Holds tells whether one scalar satisfies a comparison.
func (m *Model) Holds(op string, vals []*Val, v *V) bool {
	if op == "" || op == "~" {
		for _, x := range vals {
			if m.Equal(x, v) {
				return true
			}
		}
		return false
	}
	if vals[0].T == TTime {
		t, ok := m.instant(v)
		if !ok {
			return false
		}
		c := t.Cmp(vals[0].At)
		if op == "><" {
			return c >= 0 && t.Cmp(vals[1].At) <= 0
		}
		return rel(op, c)
	}
	x, ok := Number(v)
	if !ok {
		return false
	}
	c := x.Cmp(vals[0].Num())
	if op == "><" {
		return c >= 0 && x.Cmp(vals[1].Num()) <= 0
	}
	return rel(op, c)
}

func rel(op string, c int) bool {
	switch op {
	case "<":
		return c < 0
	case "<=":
		return c <= 0
	case ">":
		return c > 0
	case ">=":
		return c >= 0
	}
	panic("op " + op)
}

// Equal tells whether one scalar satisfies equality with one literal.
func (m *Model) Equal(x *Val, v *V) bool {
	switch x.T {
	case TInt, TFloat:
		n, ok := Number(v)
		return ok && n.Cmp(x.Num()) == 0
	case TBool:
		return v.K == Bool && v.B == x.B
	case TTime:
		t, ok := m.instant(v)
		if !ok {
			return false
		}
		if x.Day {
			return t.Day == x.At.Day
		}
		return t.Cmp(x.At) == 0
	}
	s, ok := Text(v)
	if !ok {
		return false
	}
	switch x.T {
	case TRegex:
		return goRegexp(x.S).MatchString(s)
	case TNet:
		for _, p := range FindNets(s) {
			if Overlap(p, x.Net) {
				return true
			}
		}
		return false
	case TStr:
		ascii := true
		for _, r := range x.S {
			ascii = ascii && r < 0x80
		}
		if !ascii && !strings.ContainsAny(x.S, "?*") {
			return m.Loose(x.S, s)
		}
		return FindTerm(x.S, s, ascii)
	}
	panic("type " + x.T)
}

var regexps sync.Map

func goRegexp(s string) *regexp.Regexp {
	if re, ok := regexps.Load(s); ok {
		return re.(*regexp.Regexp)
	}
	re := regexp.MustCompile(s)
	regexps.Store(s, re)
	return re
}

func (m *Model) instant(v *V) (Instant, bool) {
	s, ok := Text(v)
	if !ok || m.Time == nil {
		return Instant{}, false
	}
	return m.Time(s)
}

var reNumber = regexp.MustCompile(`^-?[0-9]+(\.[0-9]+)?([eE][+-]?[0-9]+)?$`)

// Number returns the number a scalar is or spells.
func Number(v *V) (*big.Rat, bool) {
	if v.K != Num && v.K != Str || !reNumber.MatchString(v.S) {
		return nil, false
	}
	return new(big.Rat).SetString(v.S)
}

// Text returns the text that string terms search: the content of a string or the
// decimal notation of a number.
func Text(v *V) (string, bool) {
	switch v.K {
	case Str:
		return v.S, true
	case Num:
		if !strings.ContainsAny(v.S, ".eE") {
			return v.S, true
		}
		f, err := strconv.ParseFloat(v.S, 64)
		if err != nil {
			return "", false
		}
		return strconv.FormatFloat(f, 'f', -1, 64), true
	}
	return "", false
}

// FindNets returns the valid addresses and blocks in a text. Runs of digits,
// dots and slashes are considered as a whole.
func FindNets(s string) []Prefix {
	var out []Prefix
	for _, tok := range strings.FieldsFunc(s, func(r rune) bool {
		return !(r >= '0' && r <= '9' || r == '.' || r == '/')
	}) {
		tok = strings.Trim(tok, "./")
		ok := tok != ""
		for _, part := range strings.FieldsFunc(tok, func(r rune) bool { return r == '.' || r == '/' }) {
			ok = ok && len(part) <= 3
		}
		if !ok {
			continue
		}
		if p, ok := ParseNet(tok); ok {
			out = append(out, p)
		}
	}
	return out
}

type sym struct {
	any, run bool
	r        rune
}

// FindTerm searches a term with wildcards in a text. With bounds, the ends that
// are word characters or wildcards must fall on word boundaries.
func FindTerm(term, text string, bounds bool) bool {
	var pat []sym
	rs := []rune(term)
	for i := 0; i < len(rs); i++ {
		switch {
		case rs[i] == '\\' && i+1 < len(rs) && (rs[i+1] == '?' || rs[i+1] == '*'):
			i++
			pat = append(pat, sym{r: rs[i]})
		case rs[i] == '?':
			pat = append(pat, sym{any: true})
		case rs[i] == '*':
			pat = append(pat, sym{run: true})
		default:
			pat = append(pat, sym{r: rs[i]})
		}
	}
	needs := func(s sym) bool { return bounds && (s.any || s.run || wordRune(s.r)) }
	tx := []rune(text)
	boundary := func(i int) bool {
		l := i > 0 && wordRune(tx[i-1])
		r := i < len(tx) && wordRune(tx[i])
		return l != r
	}
	startB, endB := needs(pat[0]), needs(pat[len(pat)-1])
	// cur is the set of positions reachable after a prefix of the pattern
	cur := make([]bool, len(tx)+1)
	for i := range cur {
		cur[i] = !startB || boundary(i)
	}
	for _, s := range pat {
		next := make([]bool, len(tx)+1)
		for i := range cur {
			if !cur[i] {
				continue
			}
			switch {
			case s.run && next[i]:
				// everything from here on is reachable already
			case s.run:
				for j := i; j <= len(tx); j++ {
					next[j] = true
				}
			case i < len(tx) && (s.any || sameFold(s.r, tx[i])):
				next[i+1] = true
			}
		}
		cur = next
	}
	for i := range cur {
		if cur[i] && (!endB || boundary(i)) {
			return true
		}
	}
	return false
}

func wordRune(r rune) bool {
	return r == '_' || r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z'
}

func sameFold(a, b rune) bool {
	if a == b {
		return true
	}
	for r := unicode.SimpleFold(a); r != a; r = unicode.SimpleFold(r) {
		if r == b {
			return true
		}
	}
	return false
}

// Keys returns the key paths the sampler has to report for a document, up to
// maxDepth segments (no limit if negative).
func Keys(doc *V, maxDepth int) map[string]bool {
	out := map[string]bool{}
	var walk func(v *V, path []string)
	walk = func(v *V, path []string) {
		switch v.K {
		case Obj:
			for i, k := range v.Keys {
				walk(v.Elems[i], append(path[:len(path):len(path)], k))
			}
		case Arr:
			for _, e := range v.Elems {
				if e.K != Arr {
					walk(e, path)
				}
			}
		default:
			if len(path) == 0 || maxDepth >= 0 && len(path) > maxDepth {
				return
			}
			segs := make([]string, len(path))
			for i, s := range path {
				segs[i] = s
				if strings.Contains(s, " ") {
					segs[i] = `"` + s + `"`
				}
			}
			out[strings.Join(segs, ".")] = true
		}
	}
	walk(doc, nil)
	return out
}
