package ref

import (
	"fmt"
	"math/big"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"
)

// Pos is a position in a query: 1-based line and column in runes, offset in
// bytes, length in runes.
type Pos struct{ Line, Col, Off, Len int }

func (p Pos) String() string { return fmt.Sprintf("%d:%d(%d)+%d", p.Line, p.Col, p.Off, p.Len) }

// PosAt returns the position of q[from:to].
func PosAt(q string, from, to int) Pos {
	line, col := 1, 1
	for _, r := range q[:from] {
		if r == '\n' {
			line++
			col = 1
		} else {
			col++
		}
	}
	return Pos{Line: line, Col: col, Off: from, Len: utf8.RuneCountInString(q[from:to])}
}

// NodeKind is the kind of a query tree node.
type NodeKind int

const (
	And NodeKind = iota
	Or
	Not
	Cmp
)

// Node is a node of a query tree.
type Node struct {
	K    NodeKind
	L, R *Node // R only of And and Or
	// comparisons
	Field []string
	Op    string // "" equality, < <= > >= >< ~ exists null
	Vals  []*Val
	Pos   Pos
}

// Kinds of values.
const (
	TInt   = "integer"
	TFloat = "float"
	TStr   = "string"
	TBool  = "boolean"
	TRegex = "regex"
	TNet   = "netaddr"
	TTime  = "timestamp"
)

// Val is a literal of a query.
type Val struct {
	T   string
	Raw string
	S   string // content of a string, body of a regular expression
	I   int64
	F   float64
	B   bool
	At  Instant
	Day bool
	Net Prefix
	Pos Pos
}

// Num returns the exact number of a numeric literal.
func (v *Val) Num() *big.Rat {
	r, _ := new(big.Rat).SetString(v.Raw)
	return r
}

// Err is the reason a query is rejected. Tok is set if the reason is one token,
// at Pos.
type Err struct {
	Tok  bool
	Pos  Pos
	What string
}

func (e *Err) String() string {
	if e.Tok {
		return e.What + " at " + e.Pos.String()
	}
	return e.What
}

type qp struct {
	q   string
	i   int
	err *Err
}

// Parse reads a query and validates it.
func Parse(q string) (*Node, *Err) {
	n, err := ParseOnly(q)
	if err != nil {
		return nil, err
	}
	if err := Validate(n); err != nil {
		return nil, err
	}
	return n, nil
}

// ParseOnly reads a query without checking its operators.
func ParseOnly(q string) (*Node, *Err) {
	if !utf8.ValidString(q) {
		return nil, &Err{What: "not UTF-8"}
	}
	p := &qp{q: q}
	p.ws()
	n := p.or()
	if p.err != nil {
		return nil, p.err
	}
	if n == nil {
		return nil, &Err{What: "syntax"}
	}
	p.ws()
	if p.i != len(q) {
		return nil, &Err{What: "text left over"}
	}
	return n, nil
}

func (p *qp) fail(from, to int, what string) {
	if p.err == nil {
		p.err = &Err{Tok: true, Pos: PosAt(p.q, from, to), What: what}
	}
}

func (p *qp) ws() int {
	n := 0
	for p.i < len(p.q) && strings.IndexByte(" \n\t\r", p.q[p.i]) >= 0 {
		p.i++
		n++
	}
	return n
}

func (p *qp) lit(s string) bool {
	if strings.HasPrefix(p.q[p.i:], s) {
		p.i += len(s)
		return true
	}
	return false
}

func (p *qp) rest() string { return p.q[p.i:] }

// or := and (space OR space or)?
func (p *qp) or() *Node  { return p.binary("OR", Or, p.and, p.or) }
func (p *qp) and() *Node { return p.binary("AND", And, p.not, p.and) }

func (p *qp) binary(word string, k NodeKind, operand, more func() *Node) *Node {
	l := operand()
	if l == nil || p.err != nil {
		return l
	}
	save := p.i
	if p.ws() > 0 && p.lit(word) && p.ws() > 0 {
		if r := more(); r != nil || p.err != nil {
			return &Node{K: k, L: l, R: r}
		}
	}
	p.i = save
	return l
}

func (p *qp) not() *Node {
	save := p.i
	if p.lit("NOT") && p.ws() > 0 || p.i == save && p.lit("!") && p.ws() >= 0 {
		if n := p.comparison(); n != nil || p.err != nil {
			return &Node{K: Not, L: n}
		}
	}
	p.i = save
	return p.comparison()
}

func (p *qp) comparison() *Node {
	start := p.i
	if p.lit("(") {
		p.ws()
		n := p.or()
		if p.err != nil {
			return nil
		}
		if n != nil {
			p.ws()
			if p.lit(")") {
				return n
			}
		}
		p.i = start
		return nil
	}
	field, ok := p.field()
	if !ok || p.err != nil {
		p.i = start
		return nil
	}
	p.ws()
	if !p.lit(":") {
		p.i = start
		return nil
	}
	p.ws()
	n := &Node{K: Cmp, Field: field}
	for _, op := range []string{"exists", "null"} {
		if p.lit(op) {
			n.Op = op
			n.Pos = PosAt(p.q, start, p.i)
			return n
		}
	}
	for _, op := range []string{"><", "~", "<=", "<", ">=", ">"} {
		if p.lit(op) {
			n.Op = op
			break
		}
	}
	p.ws()
	n.Vals, ok = p.values()
	if !ok {
		p.i = start
		return nil
	}
	n.Pos = PosAt(p.q, start, p.i)
	return n
}

func isBare(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '-'
}

// field returns the pieces without legacy stars; ok is false if there is no
// field.
func (p *qp) field() (out []string, ok bool) {
	out = []string{}
	for {
		s := p.i
		switch {
		case p.lit(`"`):
			p.i = s
			str, ok := p.quoted()
			if !ok {
				return nil, false
			}
			out = append(out, str)
		case p.lit("*"):
		default:
			for p.i < len(p.q) && isBare(p.q[p.i]) {
				p.i++
			}
			if p.i == s {
				return nil, false
			}
			out = append(out, p.q[s:p.i])
		}
		// a dot without a piece after it does not belong to the field
		s = p.i
		if !p.lit(".") {
			return out, true
		}
		if p.i < len(p.q) && (isBare(p.q[p.i]) || p.q[p.i] == '"' || p.q[p.i] == '*') {
			continue
		}
		p.i = s
		return out, true
	}
}

// quoted reads a string; an unterminated one, or one with control characters or
// unknown escapes, is none. One that denotes no text is an error.
func (p *qp) quoted() (string, bool) {
	start := p.i
	if !p.lit(`"`) {
		return "", false
	}
	var sb strings.Builder
	bad := false
	for p.i < len(p.q) {
		c := p.q[p.i]
		switch {
		case c == '"':
			p.i++
			if bad {
				p.fail(start, p.i, "string with surrogate")
				return "", false
			}
			return sb.String(), true
		case c < 0x20:
			p.i = start
			return "", false
		case c == '\\':
			p.i++
			if p.i >= len(p.q) {
				p.i = start
				return "", false
			}
			e := p.q[p.i]
			p.i++
			if k := strings.IndexByte(`"\bfnrt`, e); k >= 0 {
				sb.WriteByte("\"\\\b\f\n\r\t"[k])
				continue
			}
			if e != 'u' || p.i+4 > len(p.q) {
				p.i = start
				return "", false
			}
			r := 0
			for k := 0; k < 4; k++ {
				h := hexval(p.q[p.i+k])
				if h < 0 {
					p.i = start
					return "", false
				}
				r = r<<4 | h
			}
			p.i += 4
			if r >= 0xd800 && r < 0xe000 {
				bad = true
			}
			sb.WriteRune(rune(r))
		default:
			r, w := utf8.DecodeRuneInString(p.rest())
			sb.WriteRune(r)
			p.i += w
		}
	}
	p.i = start
	return "", false
}

func (p *qp) values() ([]*Val, bool) {
	start := p.i
	if p.lit("(") {
		var out []*Val
		for {
			p.ws()
			v := p.value()
			if v == nil {
				break
			}
			out = append(out, v)
			p.ws()
			if p.lit(",") {
				continue
			}
			if !p.lit(")") {
				break
			}
			if len(out) == 1 {
				p.fail(start, p.i, "list of one")
				return nil, false
			}
			return out, true
		}
		if p.err == nil {
			p.i = start
			if v := p.value(); v != nil {
				panic("a value cannot start with a parenthesis")
			}
		}
		return nil, false
	}
	v := p.value()
	if v == nil {
		return nil, false
	}
	return []*Val{v}, true
}

var (
	reStamp = regexp.MustCompile(`^[0-9]{4}-[0-9]{2}-[0-9]{2}([Tt ][0-9]{2}:[0-9]{2}:[0-9]{2}(\.[0-9]+)?([Zz]|[+-][0-9]{2}:[0-9]{2}))?`)
	reIP    = regexp.MustCompile(`^[0-9]{1,3}\.[0-9]{1,3}\.[0-9]{1,3}\.[0-9]{1,3}(/[0-9]{1,2})?`)
	reFloat = regexp.MustCompile(`^-?[0-9]+\.[0-9]+`)
	reInt   = regexp.MustCompile(`^-?[0-9]+`)
	reBool  = regexp.MustCompile(`^(true|false)`)
)

// value reads one literal. If there is none but some text, that text is the
// error.
func (p *qp) value() *Val {
	start := p.i
	take := func(re *regexp.Regexp) (string, bool) {
		s := re.FindString(p.rest())
		p.i += len(s)
		return s, s != ""
	}
	done := func(v *Val) *Val {
		v.Raw = p.q[start:p.i]
		v.Pos = PosAt(p.q, start, p.i)
		return v
	}
	bad := func(what string) *Val {
		p.fail(start, p.i, what)
		return nil
	}
	if strings.HasPrefix(p.rest(), `"`) {
		if s, ok := p.quoted(); ok {
			return done(&Val{T: TStr, S: s})
		}
		if p.err != nil {
			return nil
		}
	}
	if body, n, ok := regexLit(p.rest()); ok {
		p.i += n
		if _, err := regexp.Compile(body); err != nil {
			return bad("invalid regular expression")
		}
		return done(&Val{T: TRegex, S: body})
	}
	if s, ok := take(reStamp); ok {
		at, day, ok := ParseStamp(s)
		if !ok {
			return bad("invalid timestamp")
		}
		return done(&Val{T: TTime, At: at, Day: day})
	}
	if s, ok := take(reIP); ok {
		n, ok := ParseNet(s)
		if !ok {
			return bad("invalid address")
		}
		return done(&Val{T: TNet, Net: n})
	}
	if s, ok := take(reFloat); ok {
		f, err := strconv.ParseFloat(s, 64)
		if err != nil {
			return bad("invalid float")
		}
		return done(&Val{T: TFloat, F: f})
	}
	if s, ok := take(reInt); ok {
		n, _ := new(big.Int).SetString(s, 10)
		if !n.IsInt64() {
			return bad("invalid integer")
		}
		return done(&Val{T: TInt, I: n.Int64()})
	}
	if s, ok := take(reBool); ok {
		return done(&Val{T: TBool, B: s == "true"})
	}
	for p.i < len(p.q) && strings.IndexByte(" \n\t\r", p.q[p.i]) < 0 {
		p.i++
	}
	if p.i > start {
		bad("not a value")
		if c := p.q[start]; c == '"' || c == '/' {
			// not closed: the error may be where the end is missing
			p.err.Tok = false
		}
	}
	return nil
}

// regexLit reads a regular expression between slashes; it returns its body with
// the escaping of slashes removed, and the length of the literal.
func regexLit(s string) (string, int, bool) {
	if !strings.HasPrefix(s, "/") {
		return "", 0, false
	}
	var sb strings.Builder
	for i := 1; i < len(s); i++ {
		switch s[i] {
		case '/':
			return sb.String(), i + 1, true
		case '\n':
			return "", 0, false
		case '\\':
			i++
			if i >= len(s) || s[i] == '\n' {
				return "", 0, false
			}
			if s[i] != '/' {
				sb.WriteByte('\\')
			}
			sb.WriteByte(s[i])
		default:
			sb.WriteByte(s[i])
		}
	}
	return "", 0, false
}

// Validate checks operators and operands of a tree, in its written order.
func Validate(n *Node) *Err {
	if n.K != Cmp {
		if err := Validate(n.L); err != nil {
			return err
		}
		if n.R != nil {
			return Validate(n.R)
		}
		return nil
	}
	at := func(p Pos, what string) *Err { return &Err{Tok: true, Pos: p, What: what} }
	if len(n.Field) == 0 {
		return at(n.Pos, "empty field")
	}
	var allowed string
	minN, maxN := 1, 1
	switch n.Op {
	case "exists", "null":
		return nil
	case "<", "<=", ">", ">=":
		allowed = TInt + TFloat + TTime
	case "><":
		allowed = TInt + TFloat + TTime
		minN, maxN = 2, 2
	case "~":
		allowed = TStr + TRegex + TBool
		maxN = 1 << 30
	default:
		allowed = TInt + TFloat + TTime + TStr + TRegex + TBool + TNet
		maxN = 1 << 30
	}
	for _, v := range n.Vals {
		if !strings.Contains(allowed, v.T) {
			return at(v.Pos, "wrong type")
		}
	}
	if len(n.Vals) < minN || len(n.Vals) > maxN {
		return at(n.Pos, "wrong number of values")
	}
	for i, v := range n.Vals {
		for _, w := range n.Vals[:i] {
			if SameValue(v, w) {
				return at(v.Pos, "duplicate")
			}
			if n.Op == "" && v.T == TBool && w.T == TBool {
				return at(v.Pos, "both booleans")
			}
		}
	}
	if n.Op == "><" {
		a, b := n.Vals[0], n.Vals[1]
		if (a.T == TTime) != (b.T == TTime) {
			return at(b.Pos, "mixed between")
		}
		if a.T == TTime && a.At.Cmp(b.At) >= 0 || a.T != TTime && a.Num().Cmp(b.Num()) >= 0 {
			return at(b.Pos, "between not increasing")
		}
	}
	return nil
}

// SameValue reports whether two literals repeat the same value. Different
// spellings of one timestamp or integer are not considered by the checks.
func SameValue(a, b *Val) bool {
	num := func(v *Val) bool { return v.T == TInt || v.T == TFloat }
	switch {
	case num(a) && num(b):
		return a.Num().Cmp(b.Num()) == 0
	case a.T != b.T:
		return false
	case a.T == TStr || a.T == TRegex:
		return a.S == b.S
	case a.T == TBool:
		return a.B == b.B
	case a.T == TNet:
		return a.Net == b.Net
	case a.T == TTime:
		return a.Raw == b.Raw
	}
	return false
}

// String writes a tree unambiguously.
func (n *Node) String() string {
	switch n.K {
	case And:
		return "(&& " + n.L.String() + " " + n.R.String() + ")"
	case Or:
		return "(|| " + n.L.String() + " " + n.R.String() + ")"
	case Not:
		return "(! " + n.L.String() + ")"
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "(%q %q", n.Op, n.Field)
	for _, v := range n.Vals {
		sb.WriteString(" " + v.T + " " + v.Canon())
	}
	return sb.String() + ")"
}

// Canon writes the value of a literal unambiguously.
func (v *Val) Canon() string {
	switch v.T {
	case TInt:
		return strconv.FormatInt(v.I, 10)
	case TFloat:
		return strconv.FormatFloat(v.F, 'x', -1, 64)
	case TBool:
		return strconv.FormatBool(v.B)
	case TNet:
		return v.Net.String()
	case TTime:
		return fmt.Sprintf("%d/%d day=%v", v.At.Day, v.At.Nano, v.Day)
	}
	return strconv.Quote(v.S)
}
