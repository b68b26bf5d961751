// Package wasm checks the playground's module.
package wasm

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/flowchartsman/aql/parser"
	"github.com/flowchartsman/aql/zz_verif/checks"
	"github.com/flowchartsman/aql/zz_verif/mc"
	"github.com/flowchartsman/aql/zz_verif/ref"
)

var All = []*mc.Check{{
	ID: "C32",
	Rule: "a state is a text given to the module's function under node; all texts of up to 4 (thorough 5) of 14 tokens, all regular expressions of up to 4 (5) of 8 tokens, every edit of all queries of the corpus with 16 characters, every prefix of every query of the corpus, all trees of up to 3 comparisons with 6 kinds of comparisons (with and without advice), lists and chains of up to 400, texts of up to 150000 characters, every character up to 255 and lone surrogates. " +
		"Tree, number, types and positions of the messages are compared with the model's tree and the parser's error",
	Light: true,
	Need:  []string{"tree", "tree with advice", "error", "incomplete"},
	Run:   run,
}}

// module is a node process that runs the module.
type module struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	errs *bytes.Buffer
}

type message struct {
	Type  string   `json:"type"`
	Msg   string   `json:"msg"`
	Start *float64 `json:"start"`
	End   *float64 `json:"end"`
}

type answer struct {
	Thrown string `json:"thrown"`
	Value  *struct {
		AST      *string   `json:"ast"`
		Messages []message `json:"messages"`
	} `json:"value"`
}

func start(file, exe string) (*module, error) {
	m := &module{errs: &bytes.Buffer{}}
	m.cmd = exec.Command("node", "--stack-size=4000", filepath.Join(mc.Dir(), "harness", "wasm", "driver.js"), file, exe)
	m.cmd.Stderr = m.errs
	var err error
	if m.in, err = m.cmd.StdinPipe(); err != nil {
		return nil, err
	}
	out, err := m.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	m.out = bufio.NewReaderSize(out, 1<<16)
	return m, m.cmd.Start()
}

// ask sends a text, as a JSON string, and reads the answer.
func (m *module) ask(text string) (answer, error) {
	var a answer
	if _, err := io.WriteString(m.in, text+"\n"); err != nil {
		return a, err
	}
	line, err := m.out.ReadBytes('\n')
	if err != nil {
		return a, err
	}
	return a, json.Unmarshal(line, &a)
}

func (m *module) stop() {
	m.in.Close()
	done := make(chan bool)
	go func() { m.cmd.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		m.cmd.Process.Kill()
		<-done
	}
}

func run(r *mc.Run) {
	tmp := os.Getenv("VERIF_TMP")
	file := filepath.Join(tmp, "aqlparse.wasm")
	cmd := exec.Command("go", "build", "-o", file, "./wasm/aqlparse")
	cmd.Dir = mc.Repo()
	cmd.Env = append(os.Environ(), "GOOS=js", "GOARCH=wasm")
	if out, err := cmd.CombinedOutput(); err != nil {
		fmt.Fprintf(os.Stderr, "the module does not build: %v\n%s", err, out)
		os.Exit(3)
	}
	root, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	exe := filepath.Join(strings.TrimSpace(string(root)), "lib", "wasm", "wasm_exec.js")
	pool := make(chan *module, runtime.NumCPU())
	for i := 0; i < cap(pool); i++ {
		pool <- nil
	}
	defer func() {
		for i := 0; i < cap(pool); i++ {
			if m := <-pool; m != nil {
				m.stop()
			}
		}
	}()
	// one text; js is how it is written in JavaScript, if it is no UTF-8
	ask := func(w *mc.W, text, js string) {
		if js == "" {
			b, _ := json.Marshal(text)
			js = string(b)
		}
		w.Case(js, func() string {
			m := <-pool
			if m == nil {
				var err error
				if m, err = start(file, exe); err != nil {
					panic(mc.Trouble{err})
				}
			}
			a, err := m.ask(js)
			w.Step(1)
			if err != nil {
				m.cmd.Process.Kill()
				m.cmd.Wait()
				text := m.errs.String()
				pool <- nil
				return fmt.Sprintf("the module ended: %v %s", err, text)
			}
			pool <- m
			return judge(w, text, a)
		})
		w.Trace()
	}
	mc.Each(r, func(yield func(string)) {
		n := 3
		if r.Thorough {
			n = 4
		}
		if r.Deep {
			n = 5
		}
		checks.Strs([]string{"a", ":", "1", `"x"`, "(", ")", ",", " ", "AND", "NOT ", "/.*/", "~", "é", "2020-01-01"}, n, yield)
		checks.Strs([]string{"a", ".*", "(", ")", "é", `\.`, `\/`, "[.(]"}, n, func(s string) {
			if _, err := regexp.Compile(strings.ReplaceAll(s, `\/`, "/")); err == nil && s != "" {
				yield("a:/" + s + "/")
				yield("a:~/(?i)" + s + "/")
			}
		})
		for i, q := range checks.Corpus {
			for k := range q {
				yield(q[:k])
			}
			yield(q)
			if i%5 == 0 || r.Thorough {
				checks.Edits(q, checks.Chars("a1\"/(~:. é*)\n\\,😀"), yield)
			}
		}
	}, func(w *mc.W, q string) {
		if utf8.ValidString(q) {
			ask(w, q, "")
		}
	})
	leaves := []string{"a:1", `b:2020-01-02T03:04:05Z`, `"大😀".c:~/x😀é/`, "d:/.*(x)/", `e:("x", /(?i)é/, 2020-01-01T00:00:00Z)`, "f:<2020-01-02"}
	mc.Each(r, func(yield func(string)) {
		for n := 1; n <= 3; n++ {
			checks.Trees(n, true, func(t *ref.Node) {
				for c := range leaves {
					for d := range leaves {
						if n == 1 && d > 0 || n == 3 && !r.Thorough && (c+2*d)%5 != 0 {
							continue
						}
						yield(checks.Write(t, c, func(i int) string { return leaves[(c+i*d)%len(leaves)] }))
					}
				}
			})
		}
		for _, n := range []int{2, 3, 5, 8, 9, 16, 17, 33, 60, 130, 400} {
			var chain, list []string
			nest := "a:1"
			for i := 0; i < n; i++ {
				chain = append(chain, leaves[i%len(leaves)])
				list = append(list, []string{fmt.Sprint(i), fmt.Sprintf("/w%d.*/", i), fmt.Sprintf(`"é%d"`, i)}[i%3])
				if n < 20 {
					nest = "!(" + nest + ")"
				}
			}
			yield(strings.Join(chain, " AND "))
			yield(strings.Join(chain, "\nOR "))
			yield("a:(" + strings.Join(list, ",") + ")")
			yield(nest)
			yield(strings.Repeat("(", n))
			yield(strings.Repeat("x", n*100) + ":1")
		}
		for _, n := range []int{1000, 5000, 10001, 70000, 150000} {
			pad := strings.Repeat(" ", n)
			yield(pad + "a:1")
			yield("a:/.*x/" + pad + "OR b:2020-01-02T03:04:05Z")
			yield("a:1 AND" + pad)
			yield(`a:~"` + strings.Repeat("é ", n/2) + `" OR b:/.*x/`)
			yield(`"` + strings.Repeat("大", n/3) + `":<"s"`)
		}
		for c := rune(0); c < 256; c++ {
			yield(string(c))
			yield("a:" + string(c))
			yield(`a:"` + string(c) + `"`)
			yield("a:1" + string(c))
		}
		// errors with a text that is that of another
		for _, t := range []string{"no match found", "no match found, expected: [x]", "no match", "incomplete query"} {
			for _, q := range []string{"a:/(%s/", "a:/x/ AND b:/[%s/ OR c:1", `a:<"%s"`, `a:("%s", "%s")`, `"%s":<true`, `a:"%s`, "a:/%s", `a:"%s" x`, `a:"\q%s"`} {
				yield(strings.ReplaceAll(q, "%s", t))
			}
		}
		for _, t := range []string{"no_match_found", "no-match-found", "[no"} {
			yield("a:" + t)
			yield("a:(1," + t + ")")
			yield(t)
		}
		// characters of one to four bytes before, in and after the place of a message
		cs := []string{"a", "é", "大", "😀"}
		for _, b := range cs {
			for _, v := range cs {
				for _, z := range cs {
					f := `"` + b + `":`
					yield(f + "/.*" + v + "/ OR " + `"` + z + `":1`)
					yield(f + "~/" + v + "/ OR " + `"` + z + `":2020-01-01T00:00:00Z`)
					yield(f + `("` + v + `", "` + v + `", "` + z + `")`)
					yield(f + "/(" + v + "/ OR " + `"` + z + `":1`)
					yield(f + `<"` + v + z + `"`)
					yield(f + `"` + v + `" AND ` + z)
					yield(f + `"` + v + `" "` + z + `"`)
					yield(f + `"` + v + z)
				}
			}
		}
	}, func(w *mc.W, q string) { ask(w, q, "") })
	// texts JavaScript has and UTF-8 has not
	mc.Each(r, mc.Slice([]string{`\ud800`, `\udc00`, `\udfff\ud800`, `\ud83d\ude00`, `\u0000`, `\uffff`}), func(w *mc.W, s string) {
		for _, form := range []string{`"%s"`, `"a:\"%s\""`, `"%s:1"`, `"a:1 %s"`, `"a:/%s/"`} {
			js := fmt.Sprintf(form, s)
			var text string
			if err := json.Unmarshal([]byte(js), &text); err != nil {
				panic(err)
			}
			ask(w, text, js)
		}
	})
}

// judge compares an answer with the model.
func judge(w *mc.W, q string, a answer) string {
	if a.Thrown != "" {
		return "thrown: " + a.Thrown
	}
	if a.Value == nil || a.Value.AST == nil || a.Value.Messages == nil {
		return "the answer has no tree or no messages"
	}
	for _, m := range a.Value.Messages {
		if m.Start == nil || m.End == nil || m.Msg == "" {
			return fmt.Sprintf("a message without text, start or end: %+v", m)
		}
		if m.Type != "error" && m.Type != "warning" && m.Type != "hint" {
			return fmt.Sprintf("a message of type %q", m.Type)
		}
	}
	_, perr := parser.ParseQuery(q)
	if perr != nil {
		var pe *parser.ParseError
		if !errors.As(perr, &pe) {
			return fmt.Sprintf("the parser's error is %T", perr)
		}
		if *a.Value.AST != "" || len(a.Value.Messages) != 1 || a.Value.Messages[0].Type != "error" {
			return fmt.Sprintf("the tree is %q and the messages %+v for the error %v", *a.Value.AST, a.Value.Messages, perr)
		}
		from, to := int(*a.Value.Messages[0].Start), int(*a.Value.Messages[0].End)
		if strings.HasPrefix(pe.Message(), "no match found") {
			w.Outcome("incomplete")
			if n := units(q); to != n && to != n+1 || to-from != 1 {
				return fmt.Sprintf("the error of an incomplete query of length %d is from %d to %d", n, from, to)
			}
			return ""
		}
		w.Outcome("error")
		p := pe.Pos()
		if a, b := indexes(q, p.Offset, p.Len); from != a || to != b {
			return fmt.Sprintf("the error is from %d to %d, the parser's is from %d to %d", from, to, a, b)
		}
		return ""
	}
	tree, rerr := ref.Parse(q)
	if rerr != nil {
		// the parser accepts what it should not: C01 tells
		w.Outcome("not judged")
		return ""
	}
	var got any
	if err := json.Unmarshal([]byte(*a.Value.AST), &got); err != nil {
		return fmt.Sprintf("the tree %q cannot be read: %v", *a.Value.AST, err)
	}
	if what := treeDiff(got, tree); what != "" {
		return fmt.Sprintf("the tree is %s: %s", *a.Value.AST, what)
	}
	return adviceDiff(w, q, tree, a.Value.Messages)
}

// units counts the UTF-16 code units of a text, which is its length in JavaScript.
func units(s string) int {
	n := 0
	for _, c := range s {
		n++
		if c > 0xffff {
			n++
		}
	}
	return n
}

// indexes turns an offset in bytes and a length in runes into the indexes of the
// start and the end in JavaScript.
func indexes(q string, off, length int) (int, int) {
	from := units(q[:off])
	to := from
	for _, c := range q[off:] {
		if length > 0 {
			to += units(string(c))
			length--
		}
	}
	return from, to + length
}

func treeDiff(got any, n *ref.Node) string {
	o, ok := got.(map[string]any)
	if !ok {
		return fmt.Sprintf("%v is no node", got)
	}
	switch n.K {
	case ref.Not:
		return treeDiff(o["Expr"], n.L)
	case ref.And, ref.Or:
		if what := treeDiff(o["Left"], n.L); what != "" {
			return what
		}
		return treeDiff(o["Right"], n.R)
	}
	op := n.Op
	if op == "" {
		op = "=="
	}
	var field []string
	fs, _ := o["Field"].([]any)
	for _, f := range fs {
		s, _ := f.(string)
		field = append(field, s)
	}
	vals, _ := o["RVals"].([]any)
	if o["Op"] != op || strings.Join(field, "\x00") != strings.Join(n.Field, "\x00") || len(vals) != len(n.Vals) {
		return fmt.Sprintf("%v is not the comparison of %q by %s with %d values", o, n.Field, op, len(n.Vals))
	}
	if p, ok := o["Position"].(map[string]any); ok {
		if at := n.Pos; p["line"] != float64(at.Line) || p["column"] != float64(at.Col) || p["offset"] != float64(at.Off) || p["length"] != float64(at.Len) {
			return fmt.Sprintf("the position is %v, expected %v", p, at)
		}
	}
	return ""
}

// span is a part of the query and what has to be said about it.
type span struct {
	from, to int // of the value
	a, b     int // of its comparison
	warn     bool
	hint     bool
	maybe    bool // hints are not specified
}

func spans(q string, n *ref.Node, out []span) []span {
	if n.K != ref.Cmp {
		out = spans(q, n.L, out)
		if n.R != nil {
			out = spans(q, n.R, out)
		}
		return out
	}
	for _, v := range n.Vals {
		var s span
		s.from, s.to = indexes(q, v.Pos.Off, v.Pos.Len)
		s.a, s.b = indexes(q, n.Pos.Off, n.Pos.Len)
		switch v.T {
		case ref.TRegex:
			warnings, hints := checks.AdviceRegex(v.S)
			s.warn = n.Op == "~" || warnings > 0
			s.hint = hints == 1
			s.maybe = hints == -1
		case ref.TTime:
			s.warn = n.Op == "" && !v.Day
			// a warning for days as well
			s.maybe = n.Op == ""
		case ref.TStr:
			s.maybe = n.Op == "~"
		}
		out = append(out, s)
	}
	return out
}

func adviceDiff(w *mc.W, q string, tree *ref.Node, msgs []message) string {
	all := spans(q, tree, nil)
	if len(msgs) > 0 {
		w.Outcome("tree with advice")
	} else {
		w.Outcome("tree")
	}
	last := -1
	for _, m := range msgs {
		if m.Type == "error" {
			return fmt.Sprintf("an error for an accepted query: %+v", m)
		}
		found := false
		for i, s := range all {
			if (int(*m.Start) == s.from && int(*m.End) == s.to || int(*m.Start) == s.a && int(*m.End) == s.b) && (s.warn || s.hint || s.maybe) && i >= last {
				found, last = true, i
				break
			}
		}
		if !found {
			return fmt.Sprintf("the message %q from %v to %v is about nothing that needs one, or not in order", m.Msg, *m.Start, *m.End)
		}
	}
	for _, s := range all {
		warn, hint := false, false
		for _, m := range msgs {
			if int(*m.Start) == s.from && int(*m.End) == s.to || int(*m.Start) == s.a && int(*m.End) == s.b {
				warn, hint = warn || m.Type == "warning", hint || m.Type == "hint"
			}
		}
		if s.warn && !warn || s.hint && !hint {
			return fmt.Sprintf("no message about the value from %d to %d: %+v", s.from, s.to, msgs)
		}
	}
	return ""
}
