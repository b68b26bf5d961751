package checks

import (
	"fmt"
	"strings"

	"github.com/flowchartsman/aql/sampler"
	"github.com/flowchartsman/aql/zz_verif/mc"
	"github.com/flowchartsman/aql/zz_verif/ref"
)

func init() {
	register(&mc.Check{
		ID: "C27",
		Rule: "a state is a sampler with a history and the bytes it gets next; all texts of up to 6 (thorough 7) of 13 tokens of JSON, all documents of up to 5 (thorough 6) values with each scalar at each place replaced by each of 11 unreadable ones, every prefix and suffix, every byte deleted, doubled or replaced by each of 40 bytes of 14 documents, every byte as a document of its own and around one, " +
			"all histories of up to 7 (thorough 8) of six operations with two unreadable documents among them. Errors are required where the statement names them, and whenever there is one the state is compared with the state before, and after further samples with the model's",
		Light: true,
		Need:  []string{"error", "accepted", "required error"},
		Run:   runC27,
	})
}

// rooted says if a text begins and ends like an object or an array.
func rooted(b string) bool {
	if b == "" || b[0] != '{' && b[0] != '[' {
		return false
	}
	last := b[len(b)-1]
	if b[0] == '{' {
		return last == '}'
	}
	return last == ']'
}

var junk = []string{"x", "tru", "truex", "fals", "nul", "nulll", "undefined", "'s'", "NaN", "+1", "?"}

func badCase(w *mc.W, before []int, limit int, text string, mustFail bool) {
	w.Case(fmt.Sprintf("limit %d after %v: %q", limit, before, text), func() string {
		s, t := sampler.New(limit), newTally(limit)
		for _, op := range before {
			if err := s.Sample([]byte(historyDocs[op].JSON())); err != nil {
				return fmt.Sprintf("error %v", err)
			}
			t.add(historyDocs[op])
		}
		buf := []byte(text)
		if text == "" && limit < 0 {
			buf = nil
		}
		err := s.Sample(buf)
		w.Step(1)
		if string(buf) != text {
			return "the document was changed"
		}
		doc, valid := ref.ParseJSON(buf)
		switch {
		case err == nil && (mustFail || !rooted(text)):
			return "no error"
		case err != nil && valid && rooted(text) && !mustFail:
			return fmt.Sprintf("error %v for valid JSON", err)
		case err == nil && valid:
			w.Outcome("accepted")
			t.add(doc)
		case err == nil:
			// not valid, and not named by the property
			w.Outcome("tolerated")
			if s.Scanned() != t.docs+1 {
				return fmt.Sprintf("no error, but %d documents scanned after %d", s.Scanned(), t.docs)
			}
			return ""
		default:
			if mustFail {
				w.Outcome("required error")
			}
			w.Outcome("error")
		}
		if what := t.compare(w, s, []int{0, 1, 50, 100}); what != "" {
			if err != nil {
				what = fmt.Sprintf("after the error %v: %s", err, what)
			}
			return what
		}
		if err == nil {
			return ""
		}
		for _, op := range []int{1, 4} {
			if err := s.Sample([]byte(historyDocs[op].JSON())); err != nil {
				return fmt.Sprintf("error %v for a good document after the bad one", err)
			}
			t.add(historyDocs[op])
		}
		w.Step(2)
		if what := t.compare(w, s, []int{1, 50, 51, 100}); what != "" {
			return fmt.Sprintf("with two more documents after the error %v: %s", err, what)
		}
		return ""
	})
}

func runC27(r *mc.Run) {
	type bad struct {
		before []int
		limit  int
		text   string
		must   bool
	}
	run := func(w *mc.W, b bad) {
		badCase(w, b.before, b.limit, b.text, b.must)
		w.Trace()
	}
	// token strings
	tokens := []string{"{", "}", "[", "]", ":", ",", `"`, `"a"`, "1", "tr", "\\", " ", "\x00"}
	max := 5
	if r.Thorough {
		max = 6
	}
	if r.Deep {
		max = 7
	}
	mc.EachBatch(r, 64, func(yield func(bad)) {
		strs(tokens, max, func(s string) {
			yield(bad{nil, -1, s, false})
			if len(s) <= 6 {
				yield(bad{[]int{0, 1}, -1, s, false})
			}
		})
		// longer ones inside of a document
		strs(tokens, max-1, func(s string) {
			yield(bad{[]int{1}, -1, `{"a":` + s + `}`, false})
			yield(bad{[]int{1}, 1, `[{"b":1},` + s + `]`, false})
			yield(bad{[]int{1}, -1, `{"b":1,"a` + s + `}`, false})
		})
	}, run)
	// unreadable values
	mc.EachBatch(r, 16, func(yield func(bad)) {
		n := 4
		if r.Thorough {
			n = 5
		}
		if r.Deep {
			n = 6
		}
		s := &shapes{scalars: []*ref.V{ref.VNum("1"), ref.VStr("s")}, keys: []string{"a", "b"}}
		for i := 2; i <= n; i++ {
			for _, v := range s.all(i) {
				if v.Scalar() {
					continue
				}
				places(v, nil, false, func(path int, at *ref.V, hidden bool) {
					for _, j := range junk {
						old := *at
						*at = ref.V{K: ref.Raw, S: j}
						text := v.JSON()
						*at = old
						for _, limit := range []int{-1, 0, 1, 2, 3} {
							sampled := !hidden && (limit < 0 || path <= limit)
							if sampled {
								yield(bad{[]int{0, 4}, limit, text, true})
							} else if j == "x" {
								yield(bad{[]int{0, 4}, limit, text, false})
							}
						}
					}
				})
			}
		}
	}, run)
	// edits
	docs := []string{
		`{}`, `[]`, `{"a":1}`, `[{"a":1}]`, `{"a":[1,2],"b":{"c":null}}`, `[1,{"a":{"b":true}},"x"]`, `{"a b":"x y"}`, `{"a":"é\"\\"}`, `{"é":[{"a":1},{"a":2}]}`,
		`{"a":{"b":{"c":{"d":1}}}}`, `[[1],[{"a":1}],{"a":[]}]`, `{"a":-1.5e3,"b":false}`, `{ "a" : [ 1 , 2 ] }`, `{"a":1,"b":2,"c":3,"d":4}`,
	}
	editChars := chars("{}[]:,\"\\ \n\ta1-+.eEtfn/u0x'\x00\x7fé\x1f")
	editChars = append(editChars, "\xff", "\xc3", "null", "true", `"a":`, `{}`)
	mc.EachBatch(r, 64, func(yield func(bad)) {
		for _, d := range docs {
			for i := 0; i < len(d); i++ {
				yield(bad{[]int{1}, -1, d[:i], true})
				if i > 0 {
					yield(bad{[]int{1}, -1, d[i:], !rooted(d[i:])})
				}
				yield(bad{[]int{1, 2}, -1, d[:i] + d[i+1:], false})
				yield(bad{[]int{1, 2}, -1, d[:i+1] + d[i:], false})
				for _, c := range editChars {
					yield(bad{[]int{1}, -1, d[:i] + c + d[i+1:], false})
					yield(bad{[]int{1}, 1, d[:i] + c + d[i:], false})
				}
				if r.Thorough {
					for j := i + 1; j <= len(d); j++ {
						yield(bad{[]int{1}, -1, d[:i] + d[j:], false})
						yield(bad{[]int{1}, -1, d[:j] + d[i:], false})
					}
				}
			}
		}
		for b := 0; b < 256; b++ {
			yield(bad{[]int{0}, -1, string([]byte{byte(b)}), true})
			if b != '{' {
				yield(bad{[]int{0}, -1, string([]byte{byte(b)}) + `{"a":1}`, b != '['})
			}
			if b != '}' {
				yield(bad{[]int{0}, -1, `{"a":1}` + string([]byte{byte(b)}), true})
			}
			yield(bad{[]int{0}, -1, string([]byte{byte(b), byte(b)}), true})
		}
		for _, d := range docs {
			for _, e := range docs {
				// two documents are not one
				yield(bad{[]int{0}, -1, d + e, true})
				yield(bad{[]int{0}, 1, d + "\n" + e, true})
				yield(bad{[]int{0}, 0, d + "," + e, true})
			}
			for _, x := range []string{"}", "]", "}}", "]]", `"}`, `"]`, ":}", ",]", " }", "\n]", "1}", "null]"} {
				if rooted(d + x) {
					yield(bad{[]int{0}, -1, d + x, true})
				}
			}
		}
		for _, n := range []int{1, 2, 10, 99, 100, 101, 102, 1000, 70000} {
			for _, c := range []string{"[", "{", `{"a":`, "]", "}", "1", `"`, "x", "é", `[{"a":`} {
				yield(bad{[]int{0}, -1, strings.Repeat(c, n), true})
				yield(bad{[]int{0}, -1, `{"a":1,` + strings.Repeat(c, n), c != "}" || n > 1})
				yield(bad{[]int{0}, -1, `{"a":1,"b":"` + strings.Repeat("y", n) + c, true})
			}
		}
	}, run)
	// histories
	unread := []string{`{"z":1,"a":x}`, `[{"a":1},{"q":tru}`}
	reset := 3
	hmax := 5
	if r.Thorough {
		hmax = 7
	}
	if r.Deep {
		hmax = 8
	}
	mc.Each(r, func(yield func([]int)) {
		var rec func(h []int)
		rec = func(h []int) {
			if len(h) == hmax {
				yield(h)
				return
			}
			for op := 0; op <= 5; op++ {
				rec(append(h[:len(h):len(h)], op))
			}
		}
		rec(nil)
	}, func(w *mc.W, h []int) {
		w.Case(fmt.Sprintf("history %v", h), func() string {
			s, t := sampler.New(-1), newTally(-1)
			for i, op := range h {
				w.Step(1)
				switch {
				case op < reset:
					if err := s.Sample([]byte(historyDocs[op].JSON())); err != nil {
						return fmt.Sprintf("error %v", err)
					}
					t.add(historyDocs[op])
				case op == reset:
					s.Reset()
					t.reset()
				default:
					if err := s.Sample([]byte(unread[op-reset-1])); err == nil {
						return fmt.Sprintf("no error for %s", unread[op-reset-1])
					}
				}
				if what := t.compare(w, s, []int{0, 50, 100}); what != "" {
					return fmt.Sprintf("after %d operations: %s", i+1, what)
				}
			}
			return ""
		})
		w.Trace()
	})
}

// places yields every scalar of a document with the length of its path; hidden
// ones are not sampled.
func places(v *ref.V, in *ref.V, hidden bool, yield func(path int, at *ref.V, hidden bool)) {
	var walk func(v *ref.V, path int, inArr, hidden bool)
	walk = func(v *ref.V, path int, inArr, hidden bool) {
		switch v.K {
		case ref.Obj:
			for i := range v.Elems {
				c := *v.Elems[i]
				v.Elems[i] = &c
				walk(v.Elems[i], path+1, false, hidden)
			}
		case ref.Arr:
			for i := range v.Elems {
				c := *v.Elems[i]
				v.Elems[i] = &c
				walk(v.Elems[i], path, true, hidden || inArr)
			}
		default:
			yield(path, v, hidden)
		}
	}
	walk(v, 0, false, false)
}
