package checks

import (
	"errors"
	"fmt"
	"html"
	"strings"
	"unicode/utf8"

	"github.com/flowchartsman/aql/parser"
	"github.com/flowchartsman/aql/parser/ast"
	"github.com/flowchartsman/aql/parser/fmtmsg"
	"github.com/flowchartsman/aql/zz_verif/mc"
)

func init() {
	register(&mc.Check{
		ID: "C29",
		Rule: "a state is a query with a position and a maximum width; texts of 1 to 26 and of 31, 32, 33, 50, 64 characters of five kinds (letters, mixed with characters of 2 to 4 bytes, replacement and last characters, spaces and characters special in HTML, tabs and other white space and control characters) with every position (start, length from 0, and one after the end) and every width from -1 to two more than the text, texts of up to 12000 with fewer; " +
			"all pairs of 60 messages printed by one printer; nine templates as HTML and plain; the errors and messages of every edit of 12 queries with every fifth width. Terminal, plain and HTML output are compared with what the statement allows",
		Need: []string{"whole", "cut left", "cut right", "cut both", "highlight cut", "after the end", "no position"},
		Run:  runC29,
	})
}

const partsTmpl = `{{.Type}}{{"\x00"}}{{.Message}}{{"\x00"}}{{.HasHL}}{{"\x00"}}{{.Query}}{{"\x00"}}{{.QueryPre}}{{"\x00"}}{{.QueryHL}}{{"\x00"}}{{.QueryPost}}{{"\x00"}}{{.HLStrOffset}}{{"\x00"}}{{.HLLen}}`

var htmlTmpl = strings.ReplaceAll(partsTmpl, `{{"\x00"}}`, "<i></i>")

type formatters struct {
	width             int
	term, plain, html *fmtmsg.Formatter
}

func newFormatters(width int) (*formatters, error) {
	f := &formatters{width: width, term: fmtmsg.NewTerminalFormatter(width)}
	var err error
	if f.plain, err = fmtmsg.NewFormatter(partsTmpl, false, width); err == nil {
		f.html, err = fmtmsg.NewFormatter(htmlTmpl, true, width)
	}
	return f, err
}

// printCase prints a message and checks the three outputs.
func printCase(w *mc.W, f *formatters, q string, msg fmtmsg.Message, typ string, withHTML bool) string {
	runes := []rune(q)
	pos := msg.Pos()
	out := strings.Split(f.plain.WithQuery(q).Sprint(msg), "\x00")
	w.Step(2)
	if len(out) != 9 {
		return fmt.Sprintf("printed %q", out)
	}
	printed, pre, hl, post := out[3], out[4], out[5], out[6]
	if out[0] != typ || out[1] != msg.Message() {
		return fmt.Sprintf("printed as %q %q, expected %q %q", out[0], out[1], typ, msg.Message())
	}
	if pre+hl+post != printed {
		return fmt.Sprintf("the parts %q, %q, %q are not the printed query %q", pre, hl, post, printed)
	}
	if withHTML {
		h := strings.Split(f.html.WithQuery(q).Sprint(msg), "<i></i>")
		if len(h) != len(out) {
			return fmt.Sprintf("printed as HTML %q", h)
		}
		for i := range h {
			if html.UnescapeString(h[i]) != out[i] {
				return fmt.Sprintf("printed as HTML %q, in plain text %q", h[i], out[i])
			}
		}
	}
	term := f.term.WithQuery(q).Sprint(msg)
	lines := strings.Split(term, "\n")
	if want := strings.ToUpper(typ) + ": " + msg.Message(); lines[0] != want {
		return fmt.Sprintf("the terminal's first line is %q, expected %q", lines[0], want)
	}
	if pos == ast.NoPosition() {
		w.Outcome("no position")
		if out[2] != "false" || hl != "" || strings.Contains(term, "^") {
			return fmt.Sprintf("a highlight without a position: %q and %q", out, term)
		}
		return ""
	}
	if out[2] != "true" {
		return "no highlight"
	}
	// the window
	W := f.width
	start := utf8.RuneCountInString(q[:pos.Offset])
	n := len(runes)
	l, r := 0, n
	if W > 0 && n > W {
		// find the window the output shows: a part of the query between the dots,
		// with the highlight at its place
		if pre != string(runes[:start]) {
			if !strings.HasPrefix(pre, "...") {
				return fmt.Sprintf("%q is printed without dots at the start of %q", printed, q)
			}
			l = start - utf8.RuneCountInString(pre) + 3
		}
		if rest := hl + post; rest != string(runes[start:]) {
			if !strings.HasSuffix(rest, "...") {
				return fmt.Sprintf("%q is printed without dots at the end of %q", printed, q)
			}
			r = start + utf8.RuneCountInString(rest) - 3
		}
		if l < 0 || r > n || l > r {
			return fmt.Sprintf("%q is no part of %q with the highlight at %d", printed, q, start)
		}
		if r-l > W {
			return fmt.Sprintf("%q shows %d characters, more than %d", printed, r-l, W)
		}
	}
	want := string(runes[l:r])
	if l > 0 {
		want = "..." + want
	}
	if r < n {
		want += "..."
	}
	if printed != want {
		return fmt.Sprintf("printed %q, expected %q", printed, want)
	}
	switch {
	case l > 0 && r < n:
		w.Outcome("cut both")
	case l > 0:
		w.Outcome("cut left")
	case r < n:
		w.Outcome("cut right")
	default:
		w.Outcome("whole")
	}
	// the highlight
	length := pos.Len
	if start+length > n {
		length = n - start
	}
	text := string(runes[start : start+length])
	shown := length
	if W > 0 && length > W && n > W {
		w.Outcome("highlight cut")
		if !strings.HasPrefix(text, hl) || hl == "" {
			return fmt.Sprintf("the highlight is %q, not a part of %q", hl, text)
		}
		shown = utf8.RuneCountInString(hl)
		if shown != W {
			return fmt.Sprintf("the highlight %q of width %d does not use the maximum %d", hl, shown, W)
		}
	} else if hl != text {
		return fmt.Sprintf("the highlight is %q, expected %q", hl, text)
	}
	if start == n {
		w.Outcome("after the end")
	}
	// the marker
	mark := shown
	if start+pos.Len > n && W <= 0 || start == n {
		mark = pos.Len
	}
	at := utf8.RuneCountInString(pre)
	if out[7] != fmt.Sprint(at) || out[8] != fmt.Sprint(mark) {
		return fmt.Sprintf("the marker is at %s of length %s, expected %d and %d under %q", out[7], out[8], at, mark, printed)
	}
	if len(lines) < 3 || lines[1] != "    "+printed || strings.TrimRight(lines[2], " ") != strings.TrimRight("    "+strings.Repeat(" ", at)+strings.Repeat("^", mark), " ") {
		return fmt.Sprintf("the terminal shows %q, expected %q with the marker at %d of length %d", lines[1:], printed, at, mark)
	}
	return ""
}

func runC29(r *mc.Run) {
	kinds := []string{
		"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789",
		"aéb大c😀dñ", `a:"<b>" AND c.d:'x&y' OR ! `,
		"a\ufffdb: \ufffd\ufffd😀\u07ff\uffff\"\U0010ffff\"",
		"\ta: \t\u00a0\"x\u3000\"\v\t \f\u200bé\x01\u0301\x7f\t\t",
	}
	textOf := func(kind, n int) string {
		src := []rune(kinds[kind])
		var sb strings.Builder
		for i := 0; i < n; i++ {
			sb.WriteRune(src[i%len(src)])
		}
		return sb.String()
	}
	type job struct {
		q     string
		start int // in characters
		full  bool
	}
	fs := map[int]*formatters{}
	long := []int{511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 1999, 2000, 2001, 2047, 2048, 2049, 4096, 4097, 5000, 12000}
	ws := append(upTo(320), -1)
	for _, n := range long {
		ws = append(ws, n-1, n, n+1)
	}
	for _, i := range ws {
		f, err := newFormatters(i)
		if err != nil {
			r.Fail(fmt.Sprint("formatter of width ", i), err.Error())
			return
		}
		fs[i] = f
	}
	byteOff := func(q string, start int) int { return len(string([]rune(q)[:start])) }
	mc.EachBatch(r, 4, func(yield func(job)) {
		for kind := range kinds {
			ns := append(upTo(26)[1:], 31, 32, 33, 50, 64)
			if r.Thorough {
				ns = append(ns, 80, 100, 128)
			}
			for i := len(ns) - 1; i >= 0; i-- {
				q := textOf(kind, ns[i])
				for s := 0; s <= ns[i]; s++ {
					yield(job{q, s, true})
				}
			}
		}
		for _, n := range []int{100, 127, 128, 129, 200, 255, 256, 300} {
			for kind := range kinds {
				q := textOf(kind, n)
				for s := 0; s <= n; s++ {
					if s < 3 || s > n-3 || s%17 == 0 {
						yield(job{q, s, false})
					}
				}
			}
		}
		for _, n := range long {
			for kind := range kinds {
				q := textOf(kind, n)
				for _, s := range []int{0, 1, 3, 100, n / 2, n - 200, n - 2, n - 1, n} {
					yield(job{q, s, false})
				}
			}
		}
	}, func(w *mc.W, j job) {
		n := utf8.RuneCountInString(j.q)
		off := byteOff(j.q, j.start)
		var lens, widths []int
		if j.full {
			lens, widths = upTo(n-j.start), upTo(n+2)
			widths = append(widths, -1)
		} else {
			for _, l := range []int{0, 1, 2, 3, 10, 50, 79, 80, 81, n - j.start - 1, n - j.start} {
				if l >= 0 && l <= n-j.start {
					lens = append(lens, l)
				}
			}
			widths = []int{-1, 0, 1, 2, 3, 4, 9, 10, 11, 40, 60, 79, 80, 81, 100, 120, 128, 200, 256, 300, n - 1, n, n + 1}
		}
		if j.start == n {
			lens = []int{0, 1}
		}
		for _, l := range lens {
			for _, width := range widths {
				f, l := fs[width], l
				msg := &parser.ParserMessage{Position: ast.Pos{Line: 1, Col: j.start + 1, Offset: off, Len: l}, Msg: "the <message> & %d", Type: parser.MsgHint}
				w.Case(fmt.Sprintf("%q position %d+%d width %d", j.q, j.start, l, width), func() string {
					return printCase(w, f, j.q, msg, "info", j.full && n <= 12)
				})
			}
		}
		w.Trace()
	})
	// the types, and messages without a position
	mc.Each(r, mc.Slice(upTo(40)), func(w *mc.W, n int) {
		q := textOf(2, n)
		for width := -1; width <= n+2; width++ {
			for _, p := range []ast.Pos{ast.NoPosition(), {Line: 1, Col: 1, Offset: 0, Len: n}} {
				if n == 0 && p.Offset == 0 {
					continue
				}
				f, p := fs[width], p
				for i, msg := range []fmtmsg.Message{
					parser.ErrorAt(p, "an error"), &parser.ParserMessage{Position: p, Msg: "a hint", Type: parser.MsgHint},
					&parser.ParserMessage{Position: p, Msg: "a warning", Type: parser.MsgWarning}, &parser.ParserMessage{Position: p, Msg: "", Type: parser.MsgError},
				} {
					msg, typ := msg, []string{"error", "info", "warning", "error"}[i]
					w.Case(fmt.Sprintf("%q %s %v width %d", q, typ, p, width), func() string {
						return printCase(w, f, q, msg, typ, true)
					})
				}
			}
		}
		w.Trace()
	})
	// one printer for several messages, and printers by turns
	mc.Each(r, func(yield func([2]int)) {
		for n := 1; n <= 12; n++ {
			for width := 0; width <= n+1; width++ {
				yield([2]int{n, width})
			}
		}
	}, func(w *mc.W, t [2]int) {
		n, f := t[0], fs[t[1]]
		for kind := range kinds {
			q := textOf(kind, n)
			var ms []fmtmsg.Message
			for _, text := range []string{"", "a text", " another <text>\t"} {
				for _, p := range []ast.Pos{ast.NoPosition(), {Line: 1, Col: 1, Offset: 0, Len: 0}, {Line: 1, Col: 1, Offset: 0, Len: n}, {Line: 1, Col: n, Offset: byteOff(q, n-1), Len: 1}, {Line: 1, Col: n + 1, Offset: len(q), Len: 1}} {
					ms = append(ms, parser.ErrorAt(p, text), &parser.ParserMessage{Position: p, Msg: text, Type: parser.MsgHint},
						&parser.ParserMessage{Position: p, Msg: text, Type: parser.MsgWarning}, &parser.ParserMessage{Position: p, Msg: text, Type: parser.MsgError})
				}
			}
			for fi, form := range []*fmtmsg.Formatter{f.plain, f.html, f.term} {
				// printed with a printer of its own each
				var alone []string
				for _, m := range ms {
					alone = append(alone, form.WithQuery(q).Sprint(m))
				}
				form := form
				for i := range ms {
					i := i
					w.Case(fmt.Sprintf("%q width %d formatter %d message %d and each other", q, f.width, fi, i), func() string {
						other := form.WithQuery("x" + q + "y")
						p := form.WithQuery(q)
						for j := range ms {
							var a strings.Builder
							p.Fprint(&a, ms[i])
							other.Sprint(ms[j])
							b := p.Sprint(ms[j])
							w.Step(2)
							if a.String() != alone[i] || b != alone[j] {
								return fmt.Sprintf("messages %d and %d are printed as %q and %q, each alone as %q and %q", i, j, a.String(), b, alone[i], alone[j])
							}
						}
						return ""
					})
				}
			}
		}
		w.Trace()
	})
	// HTML without elements, and templates of each part
	parts := []string{"{{.Query}}", "{{.QueryPre}}", "{{.QueryHL}}", "{{.QueryPost}}", "{{.Message}}", "{{.Query}}\n{{.Message}}", "<b>{{.QueryHL}}</b>", `<p title="{{.Query}}">{{.QueryHL}}</p>`, "a & {{.QueryPre}}"}
	mc.Each(r, mc.Slice(parts), func(w *mc.W, tmpl string) {
		for width := 0; width <= 30; width += 5 {
			asHTML, err := fmtmsg.NewFormatter(tmpl, true, width)
			if err != nil {
				panic(mc.Trouble{err})
			}
			plain, err := fmtmsg.NewFormatter(tmpl, false, width)
			if err != nil {
				panic(mc.Trouble{err})
			}
			for _, q := range []string{`a:"<b>&amp;</b>" AND c:'x' OR d:<1`, `"<script>":1`, `a:<2`, `a:"&lt;&#34;"`} {
				for start := 0; start < len(q); start++ {
					msg := parser.ErrorAt(ast.Pos{Line: 1, Col: start + 1, Offset: start, Len: len(q) - start}, "<&message>")
					w.Case(fmt.Sprintf("template %q width %d %q from %d", tmpl, width, q, start), func() string {
						w.Step(2)
						h, p := asHTML.WithQuery(q).Sprint(msg), plain.WithQuery(q).Sprint(msg)
						if html.UnescapeString(h) != p {
							return fmt.Sprintf("printed as HTML %q, in plain text %q", h, p)
						}
						if strings.Count(h, "<") != strings.Count(tmpl, "<") || strings.Contains(h, "&amp;") != strings.Contains(p, "&") && !strings.Contains(tmpl, "&") {
							return fmt.Sprintf("printed as HTML %q, not escaped", h)
						}
						return ""
					})
				}
			}
		}
		w.Trace()
	})
	// real errors
	mc.Each(r, func(yield func(string)) {
		for i, q := range corpus {
			if i%4 == 0 || r.Thorough {
				edits(q, chars(`a1"/(~:. é*)`), func(s string) {
					if !strings.ContainsAny(s, "\n\r") && s != "" && utf8.ValidString(s) {
						yield(s)
					}
				})
			}
		}
	}, func(w *mc.W, q string) {
		w.Case("error of "+q, func() string {
			mv := parser.NewMessageVisitor(func(n ast.Node, t *parser.MessageTape) error {
				if e, ok := n.(*ast.ExprNode); ok {
					t.WarningWith(e, "a comparison")
					for _, v := range e.RVals {
						t.HintAt(v.Pos(), "a value")
					}
				}
				return nil
			})
			_, err := parser.ParseQuery(q, parser.Visitors(mv))
			var pe *parser.ParseError
			if err != nil && !errors.As(err, &pe) {
				return fmt.Sprintf("the error is a %T", err)
			}
			n := utf8.RuneCountInString(q)
			for width := -1; width <= n+1; width++ {
				if width > 1 && width%5 != n%5 {
					continue
				}
				if pe != nil {
					if len(strings.Split(pe.Message(), "\n")) > 1 {
						continue
					}
					if what := printCase(w, fs[width], q, pe, "error", true); what != "" {
						return fmt.Sprintf("width %d: error %v: %s", width, err, what)
					}
				}
				for _, m := range mv.Messages() {
					typ := "info"
					if m.Type == parser.MsgWarning {
						typ = "warning"
					}
					if what := printCase(w, fs[width], q, m, typ, false); what != "" {
						return fmt.Sprintf("width %d: message %v: %s", width, m, what)
					}
				}
			}
			return ""
		})
		w.Trace()
	})
}
