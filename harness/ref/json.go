// Package ref is the reference model the checks compare the real code with. It
// is written from the properties alone, imports nothing from the repository and
// prefers the most direct formulation to the fastest.
package ref

import (
	"fmt"
	"strings"
	"unicode/utf8"
)

// Kind is the kind of a JSON value.
type Kind int

const (
	Null Kind = iota
	Bool
	Num
	Str
	Arr
	Obj
	Raw // any text, for documents that are not JSON
)

// V is a JSON value.
type V struct {
	K     Kind
	B     bool
	S     string // text of a number, content of a string
	Elems []*V
	Keys  []string // keys of an object, values in Elems
}

func VNull() *V        { return &V{K: Null} }
func VBool(b bool) *V  { return &V{K: Bool, B: b} }
func VNum(s string) *V { return &V{K: Num, S: s} }
func VStr(s string) *V { return &V{K: Str, S: s} }
func VArr(e ...*V) *V  { return &V{K: Arr, Elems: e} }
func VObj(kv ...any) *V {
	o := &V{K: Obj}
	for i := 0; i < len(kv); i += 2 {
		o.Keys = append(o.Keys, kv[i].(string))
		o.Elems = append(o.Elems, kv[i+1].(*V))
	}
	return o
}

// Scalar reports whether v is neither an object nor an array.
func (v *V) Scalar() bool { return v.K != Arr && v.K != Obj }

// Style says how to write a value. The zero value writes it compactly.
type Style struct {
	Space   string // white space wherever it is allowed
	Escape  int    // 0: only what must be, 1: every character as \uXXXX, 2: every second one, 3: upper-case hex, 4: only the last one
	Reverse bool   // reverse the order of keys
	Slash   bool   // write / as \/
}

// JSON writes v compactly.
func (v *V) JSON() string {
	return v.Styled(Style{})
}

// Styled writes v in the given style.
func (v *V) Styled(st Style) string {
	var sb strings.Builder
	sb.WriteString(st.Space)
	v.write(&sb, st)
	sb.WriteString(st.Space)
	return sb.String()
}

func (v *V) write(sb *strings.Builder, st Style) {
	switch v.K {
	case Null:
		sb.WriteString("null")
	case Bool:
		fmt.Fprint(sb, v.B)
	case Num, Raw:
		sb.WriteString(v.S)
	case Str:
		WriteString(sb, v.S, st)
	case Arr:
		sb.WriteString("[" + st.Space)
		for i, e := range v.Elems {
			if i > 0 {
				sb.WriteString("," + st.Space)
			}
			e.write(sb, st)
			sb.WriteString(st.Space)
		}
		sb.WriteString("]")
	case Obj:
		sb.WriteString("{" + st.Space)
		for i := range v.Keys {
			j := i
			if st.Reverse {
				j = len(v.Keys) - 1 - i
			}
			if i > 0 {
				sb.WriteString("," + st.Space)
			}
			WriteString(sb, v.Keys[j], st)
			sb.WriteString(st.Space + ":" + st.Space)
			v.Elems[j].write(sb, st)
			sb.WriteString(st.Space)
		}
		sb.WriteString("}")
	}
}

// WriteString writes s as a JSON string.
func WriteString(sb *strings.Builder, s string, st Style) {
	sb.WriteByte('"')
	n := 0
	for i, r := range s {
		n++
		if st.Escape == 1 || st.Escape == 3 || st.Escape == 2 && n%2 == 0 || st.Escape == 4 && i+len(string(r)) == len(s) {
			writeU(sb, r, st.Escape == 3)
			continue
		}
		switch {
		case r == '"':
			sb.WriteString(`\"`)
		case r == '\\':
			sb.WriteString(`\\`)
		case r == '/' && st.Slash:
			sb.WriteString(`\/`)
		case r == '\n':
			sb.WriteString(`\n`)
		case r == '\t':
			sb.WriteString(`\t`)
		case r == '\r':
			sb.WriteString(`\r`)
		case r == '\b':
			sb.WriteString(`\b`)
		case r == '\f':
			sb.WriteString(`\f`)
		case r < 0x20:
			writeU(sb, r, false)
		default:
			sb.WriteRune(r)
		}
	}
	sb.WriteByte('"')
}

func writeU(sb *strings.Builder, r rune, upper bool) {
	f := `\u%04x`
	if upper {
		f = `\u%04X`
	}
	if r >= 0x10000 {
		r -= 0x10000
		fmt.Fprintf(sb, f, 0xd800+(r>>10))
		fmt.Fprintf(sb, f, 0xdc00+(r&0x3ff))
		return
	}
	fmt.Fprintf(sb, f, r)
}

// ValidJSON reports whether b is one JSON text as RFC 8259 defines it. Bytes
// above 0x7f are allowed in strings without a check of their encoding, which the
// properties leave open.
func ValidJSON(b []byte) bool {
	p := &jp{b: b}
	p.ws()
	if !p.value() {
		return false
	}
	p.ws()
	return p.i == len(b)
}

// ParseJSON reads a JSON text that is valid. Of an object's duplicate keys it
// keeps all.
func ParseJSON(b []byte) (*V, bool) {
	if !ValidJSON(b) {
		return nil, false
	}
	p := &jp{b: b, build: true}
	p.ws()
	p.value()
	return p.out, true
}

type jp struct {
	b     []byte
	i     int
	build bool
	out   *V
}

func (p *jp) ws() {
	for p.i < len(p.b) && (p.b[p.i] == ' ' || p.b[p.i] == '\t' || p.b[p.i] == '\n' || p.b[p.i] == '\r') {
		p.i++
	}
}

func (p *jp) lit(s string) bool {
	if strings.HasPrefix(string(p.b[p.i:min(len(p.b), p.i+len(s))]), s) {
		p.i += len(s)
		return true
	}
	return false
}

func (p *jp) peek() byte {
	if p.i < len(p.b) {
		return p.b[p.i]
	}
	return 0
}

func (p *jp) value() bool {
	switch c := p.peek(); {
	case c == '{':
		p.i++
		o := &V{K: Obj}
		p.ws()
		if p.peek() == '}' {
			p.i++
			p.out = o
			return true
		}
		for {
			p.ws()
			k, ok := p.str()
			if !ok {
				return false
			}
			p.ws()
			if !p.lit(":") {
				return false
			}
			p.ws()
			if !p.value() {
				return false
			}
			if p.build {
				o.Keys = append(o.Keys, k)
				o.Elems = append(o.Elems, p.out)
			}
			p.ws()
			if p.lit(",") {
				continue
			}
			p.out = o
			return p.lit("}")
		}
	case c == '[':
		p.i++
		a := &V{K: Arr}
		p.ws()
		if p.peek() == ']' {
			p.i++
			p.out = a
			return true
		}
		for {
			p.ws()
			if !p.value() {
				return false
			}
			if p.build {
				a.Elems = append(a.Elems, p.out)
			}
			p.ws()
			if p.lit(",") {
				continue
			}
			p.out = a
			return p.lit("]")
		}
	case c == '"':
		s, ok := p.str()
		p.out = VStr(s)
		return ok
	case c == 't':
		p.out = VBool(true)
		return p.lit("true")
	case c == 'f':
		p.out = VBool(false)
		return p.lit("false")
	case c == 'n':
		p.out = VNull()
		return p.lit("null")
	case c == '-' || c >= '0' && c <= '9':
		s := p.i
		p.lit("-")
		if p.lit("0") {
		} else if !p.digits() {
			return false
		}
		if p.lit(".") && !p.digits() {
			return false
		}
		if p.lit("e") || p.lit("E") {
			if !p.lit("+") {
				p.lit("-")
			}
			if !p.digits() {
				return false
			}
		}
		p.out = VNum(string(p.b[s:p.i]))
		return true
	}
	return false
}

func (p *jp) digits() bool {
	s := p.i
	for p.i < len(p.b) && p.b[p.i] >= '0' && p.b[p.i] <= '9' {
		p.i++
	}
	return p.i > s
}

func hexval(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

func (p *jp) str() (string, bool) {
	if !p.lit(`"`) {
		return "", false
	}
	var out []byte
	for p.i < len(p.b) {
		c := p.b[p.i]
		p.i++
		switch {
		case c == '"':
			return string(out), true
		case c < 0x20:
			return "", false
		case c == '\\':
			if p.i >= len(p.b) {
				return "", false
			}
			e := p.b[p.i]
			p.i++
			switch e {
			case '"', '\\', '/':
				out = append(out, e)
			case 'b':
				out = append(out, '\b')
			case 'f':
				out = append(out, '\f')
			case 'n':
				out = append(out, '\n')
			case 'r':
				out = append(out, '\r')
			case 't':
				out = append(out, '\t')
			case 'u':
				r, ok := p.hex4()
				if !ok {
					return "", false
				}
				if r >= 0xd800 && r < 0xdc00 && p.i+1 < len(p.b) && p.b[p.i] == '\\' && p.b[p.i+1] == 'u' {
					save := p.i
					p.i += 2
					r2, ok := p.hex4()
					if !ok {
						return "", false
					}
					if r2 >= 0xdc00 && r2 < 0xe000 {
						r = 0x10000 + (r-0xd800)<<10 + (r2 - 0xdc00)
					} else {
						p.i = save
					}
				}
				if r >= 0xd800 && r < 0xe000 {
					r = utf8.RuneError
				}
				out = utf8.AppendRune(out, rune(r))
			default:
				return "", false
			}
		default:
			out = append(out, c)
		}
	}
	return "", false
}

func (p *jp) hex4() (int, bool) {
	if p.i+4 > len(p.b) {
		return 0, false
	}
	r := 0
	for k := 0; k < 4; k++ {
		h := hexval(p.b[p.i+k])
		if h < 0 {
			return 0, false
		}
		r = r<<4 | h
	}
	p.i += 4
	return r, true
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}
