package graphs

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"unicode"

	"github.com/flowchartsman/aql/aqlgraph"
	"github.com/flowchartsman/aql/parser"
	"github.com/flowchartsman/aql/zz_verif/checks"
	"github.com/flowchartsman/aql/zz_verif/mc"
	"github.com/flowchartsman/aql/zz_verif/ref"
)

var All = []*mc.Check{{
	ID: "C30",
	Rule: "a state is a query whose graph is written as DOT and read back; all trees of up to 3 comparisons with negations (equal and different comparisons), all trees of 4 with and of 5 (thorough 6) without, chains and nestings of up to 130 operators (and 600), every operator with every kind of value, lists of up to 257 values, " +
		"every character up to 255 and 20 others in a field, a string and a regular expression; every edit of all queries of the corpus for errors. The title, nodes, edges with their order, and the texts of the labels are compared with the model's tree",
	Light: true,
	Need:  []string{"graph", "no graph"},
	Run:   run,
}}

// Graphviz keeps its state in variables of the process.
var one sync.Mutex

var typeNames = map[string]string{
	ref.TInt: "integer", ref.TFloat: "float", ref.TStr: "string", ref.TBool: "boolean", ref.TRegex: "regexp", ref.TNet: "network", ref.TTime: "datetime",
}

// escaped writes characters that are not printable as escape sequences.
func escaped(s string) string {
	var sb strings.Builder
	for _, r := range s {
		if unicode.IsPrint(r) {
			sb.WriteRune(r)
		} else {
			q := strconv.QuoteRune(r)
			sb.WriteString(q[1 : len(q)-1])
		}
	}
	return sb.String()
}

func shows(cell, text string) bool { return cell == text || cell == escaped(text) }

// showsValue says if a text is one for a value.
func showsValue(cell string, v *ref.Val) bool {
	switch v.T {
	case ref.TInt:
		i, err := strconv.ParseInt(cell, 10, 64)
		return err == nil && i == v.I
	case ref.TFloat:
		f, err := strconv.ParseFloat(cell, 64)
		return err == nil && f == v.F
	case ref.TBool:
		return cell == strconv.FormatBool(v.B)
	case ref.TStr:
		s, err := strconv.Unquote(cell)
		return shows(cell, v.S) || err == nil && s == v.S
	case ref.TRegex:
		return shows(cell, "/"+v.S+"/") || shows(cell, v.Raw) || shows(cell, v.S)
	case ref.TNet:
		return cell == v.Net.String() || cell == v.Raw
	case ref.TTime:
		if cell == v.Raw {
			return true
		}
		at, day, ok := ref.ParseStamp(cell)
		return ok && day == v.Day && at == v.At
	}
	return false
}

// compare compares the part of a graph below a node with a tree.
func compare(d *dot, name string, n *ref.Node, seen map[string]bool) string {
	if seen[name] {
		return fmt.Sprintf("node %s is used twice", name)
	}
	seen[name] = true
	a := d.nodes[name]
	if a == nil {
		return fmt.Sprintf("there is no node %s", name)
	}
	var kids []*ref.Node
	label := a["label"]
	switch n.K {
	case ref.Cmp:
		c := cells(label)
		op := n.Op
		if op == "" {
			op = "=="
		}
		if len(c) < 3 || !shows(c[0], strings.Join(n.Field, ".")) || c[1] != "op" || c[2] != op {
			return fmt.Sprintf("the label shows %q, expected field %q and operator %s", c, n.Field, op)
		}
		c = c[3:]
		if len(n.Vals) == 0 && len(c) == 0 {
			break
		}
		if len(c) != 1+2*len(n.Vals) {
			return fmt.Sprintf("the label shows %q for %d values", c, len(n.Vals))
		}
		for i, v := range n.Vals {
			if c[1+2*i] != typeNames[v.T] || !showsValue(c[2+2*i], v) {
				return fmt.Sprintf("the label shows %q as value %d, expected %s %s", c[1+2*i:3+2*i], i, typeNames[v.T], v.Raw)
			}
		}
	case ref.Not:
		kids = []*ref.Node{n.L}
		if label != "NOT" {
			return fmt.Sprintf("the label is %q, expected NOT", label)
		}
	default:
		kids = []*ref.Node{n.L, n.R}
		want := "AND"
		if n.K == ref.Or {
			want = "OR"
		}
		if label != want {
			return fmt.Sprintf("the label is %q, expected %s", label, want)
		}
	}
	if len(d.out[name]) != len(kids) {
		return fmt.Sprintf("%d edges from a node with %d operands", len(d.out[name]), len(kids))
	}
	for i, k := range kids {
		if what := compare(d, d.out[name][i], k, seen); what != "" {
			return what
		}
	}
	return ""
}

func graphCase(w *mc.W, q string) {
	w.Case(q, func() string {
		tree, rerr := ref.Parse(q)
		if rerr != nil {
			panic(fmt.Sprintf("%s: %v", q, rerr))
		}
		one.Lock()
		defer one.Unlock()
		g, err := aqlgraph.QueryGraph(q)
		if err != nil || g == nil {
			return fmt.Sprintf("no graph: %v", err)
		}
		file := filepath.Join(os.Getenv("VERIF_TMP"), "graph.dot")
		os.Remove(file)
		if err := g.OutputDOT(file); err != nil {
			return fmt.Sprintf("no DOT: %v", err)
		}
		b, err := os.ReadFile(file)
		if err != nil {
			return fmt.Sprintf("no file: %v", err)
		}
		d, err := readDOT(string(b))
		if err != nil {
			return fmt.Sprintf("the DOT text cannot be read: %v\n%s", err, b)
		}
		w.Step(len(d.nodes) + d.edges)
		w.Outcome("graph")
		if d.title != q {
			return fmt.Sprintf("the title is %q", d.title)
		}
		what := d.matches(tree)
		if what != "" || len(d.nodes) > 6 {
			return what
		}
		// once more, after a picture
		if err := g.OutputSVG(filepath.Join(os.Getenv("VERIF_TMP"), "graph.svg")); err != nil {
			return fmt.Sprintf("no SVG after the DOT: %v", err)
		}
		if err := g.OutputDOT(file); err != nil {
			return fmt.Sprintf("no DOT after the SVG: %v", err)
		}
		if b, err = os.ReadFile(file); err != nil {
			return fmt.Sprintf("no file after the SVG: %v", err)
		}
		if d, err = readDOT(string(b)); err != nil {
			return fmt.Sprintf("the DOT text after the SVG cannot be read: %v\n%s", err, b)
		}
		w.Step(len(d.nodes) + d.edges)
		if what := d.matches(tree); what != "" || d.title != q {
			return fmt.Sprintf("after the SVG, with the title %q: %s", d.title, what)
		}
		return ""
	})
	w.Trace()
}

func run(r *mc.Run) {
	leaves := []string{"a:1", `b.c:("x", /y/)`, "a:1", "d:null"}
	other := []string{`"e f":<2.5`, "g:exists", "h:><(1,2)", "i:1.2.3.4"}
	mc.EachBatch(r, 4, func(yield func(string)) {
		for n := 1; n <= 3; n++ {
			checks.Trees(n, true, func(t *ref.Node) {
				yield(checks.Write(t, 0, func(i int) string { return leaves[i] }))
				yield(checks.Write(t, 3, func(i int) string { return other[i] }))
				yield(checks.Write(t, 4, func(int) string { return leaves[0] }))
			})
		}
		checks.Trees(4, false, func(t *ref.Node) { yield(checks.Write(t, 0, func(i int) string { return other[i] })) })
		if r.Thorough {
			checks.Trees(4, true, func(t *ref.Node) { yield(checks.Write(t, 0, func(i int) string { return leaves[i] })) })
			checks.Trees(5, false, func(t *ref.Node) { yield(checks.Write(t, 0, func(i int) string { return leaves[i%4] })) })
		}
		if r.Deep {
			checks.Trees(6, false, func(t *ref.Node) { yield(checks.Write(t, 0, func(i int) string { return leaves[i%4] })) })
		}
	}, graphCase)
	mc.EachBatch(r, 1, func(yield func(string)) {
		for _, n := range []int{2, 3, 5, 8, 9, 10, 11, 16, 17, 25, 33, 40, 65, 100, 130} {
			for kind := 0; kind < 4; kind++ {
				t := checks.Numbered(0)
				for i := 1; i < n; i++ {
					switch kind {
					case 0:
						t = &ref.Node{K: ref.And, L: checks.Numbered(i), R: t}
					case 1:
						t = &ref.Node{K: ref.Or, L: t, R: checks.Numbered(i)}
					case 2:
						t = &ref.Node{K: ref.Not, L: t}
					case 3:
						t = &ref.Node{K: []ref.NodeKind{ref.And, ref.Or}[i%2], L: &ref.Node{K: ref.Not, L: t}, R: checks.Numbered(i)}
					}
				}
				yield(checks.Write(t, 0, func(i int) string { return fmt.Sprintf("f%d:%d", i, i) }))
			}
		}
	}, graphCase)
	mc.EachBatch(r, 1, func(yield func(string)) {
		for _, n := range []int{200, 257, 300, 600} {
			var parts []string
			for i := 0; i < n; i++ {
				parts = append(parts, fmt.Sprintf("f%d:%d", i, i))
			}
			yield(strings.Join(parts, " AND "))
			yield(strings.Join(parts, " OR "))
		}
	}, graphCase)
	// operators and values
	vals := []string{"1", "-7", "9223372036854775807", "2.50", "-0.001", "1.0", `"s"`, `""`, `"1"`, `"a b"`, "true", "false", "/r/", `/a\/b/`, "/[<&>]/", "10.0.0.1", "10.0.0.0/8", "0.0.0.0/0", "2020-01-02", "2020-01-02T03:04:05Z", "2020-01-02T03:04:05.123+01:30"}
	mc.EachBatch(r, 4, func(yield func(string)) {
		for i, v := range vals {
			for _, op := range []string{"", "~", "<", "<=", ">", ">="} {
				if _, err := ref.Parse("a:" + op + v); err == nil {
					yield("a:" + op + v)
				}
			}
			for j, u := range vals {
				if i != j {
					if _, err := ref.Parse("a:(" + v + "," + u + ")"); err == nil {
						yield("a:(" + v + "," + u + ")")
					}
				}
			}
		}
		yield("a:><(1,2)")
		yield("a:><(-1.5,2.5)")
		yield("a:><(2020-01-02,2020-01-03)")
		yield("a:><(2020-01-02T03:04:05Z,2021-01-03T00:00:00Z)")
		yield("a:exists")
		yield("a:null")
		yield("*.a.*:1")
		for _, n := range []int{3, 4, 5, 8, 9, 16, 17, 30, 51, 64, 65, 101, 129, 257} {
			var l []string
			for i := 0; i < n; i++ {
				l = append(l, []string{fmt.Sprint(i), fmt.Sprintf(`"w%d"`, i), fmt.Sprintf("/r%d/", i), fmt.Sprintf("1.2.3.%d", i)}[i%4])
			}
			yield("a:(" + strings.Join(l, ",") + ")")
			for _, form := range []string{"%d", "-%d.5", `"w%d"`, "/r%d/", "1.2.3.%d", "10.%d.0.0/16"} {
				for i := range l {
					l[i] = fmt.Sprintf(form, i%256)
				}
				if n <= 256 {
					yield("a:(" + strings.Join(l, ",") + ")")
					if q := "b:1 OR a:~(" + strings.Join(l, ",") + ")"; form[0] == '"' || form[0] == '/' {
						yield(q)
					}
				}
			}
			yield(strings.Repeat("abc.", n) + "d:1")
			yield(`a:"` + strings.Repeat("long ", n*10) + `"`)
		}
	}, graphCase)
	// characters
	mc.EachBatch(r, 4, func(yield func(string)) {
		var cs []rune
		for c := rune(1); c < 256; c++ {
			cs = append(cs, c)
		}
		cs = append(cs, 0x2028, 0x200b, 0xfeff, '大', '😀', 0xfffd, 0xffff, 0x301, 'ﬁ', 0x10ffff, 0xe000)
		pairs := []string{"<>", "<b>", "&lt;", "&#34;", "&", "]]>", `\n`, `\N`, `\G`, "--", "<!--", "{|}", "\\", "\\\"", "\"", "</TD>", "{{.}}", "%s", "x\ty", "[a=b];"}
		forms := func(s string) {
			var js strings.Builder
			ref.WriteString(&js, s, ref.Style{})
			for _, q := range []string{js.String() + ":1", "a:" + js.String(), `"x".` + js.String() + `.y:("p",` + js.String() + ")"} {
				if _, err := ref.Parse(q); err == nil {
					yield(q)
				}
			}
			for _, re := range []string{"a:/x" + s + "y/", `a:/[\` + s + "]/"} {
				if _, err := ref.Parse(re); err == nil {
					yield(re)
				}
			}
		}
		for _, c := range cs {
			forms(string(c))
			if r.Thorough {
				forms("a" + string(c) + string(c) + " b")
			}
		}
		for _, p := range pairs {
			forms(p)
		}
	}, graphCase)
	// errors
	mc.Each(r, func(yield func(string)) {
		for i, q := range checks.Corpus {
			if i%3 == 0 || r.Thorough {
				checks.Edits(q, checks.Chars(`a1"/(~:. é*)`), yield)
			}
		}
		yield("")
	}, func(w *mc.W, q string) {
		w.Case("error "+q, func() string {
			_, perr := parser.ParseQuery(q)
			if perr == nil {
				return ""
			}
			one.Lock()
			defer one.Unlock()
			g, err := aqlgraph.QueryGraph(q)
			w.Step(1)
			w.Outcome("no graph")
			var pe, want *parser.ParseError
			if g != nil || err == nil || !errors.As(err, &pe) || !errors.As(perr, &want) {
				return fmt.Sprintf("graph %v, error %v, expected the error %v", g, err, perr)
			}
			if pe.Message() != want.Message() || pe.Pos() != want.Pos() {
				return fmt.Sprintf("the error is %v, the parser's is %v", err, perr)
			}
			return ""
		})
		w.Trace()
	})
}

// Matches says how a graph in DOT differs from the tree of a query.
func Matches(text string, tree *ref.Node) string {
	d, err := readDOT(text)
	if err != nil {
		return fmt.Sprintf("the DOT text cannot be read: %v", err)
	}
	return d.matches(tree)
}

// matches says how a graph differs from a tree.
func (d *dot) matches(tree *ref.Node) string {
	// the start marker has one edge, and no edge leads to it
	targets := map[string]bool{}
	for _, ts := range d.out {
		for _, t := range ts {
			targets[t] = true
		}
	}
	start := ""
	for _, name := range d.order {
		if !targets[name] {
			if start != "" {
				return fmt.Sprintf("both %s and %s have no edge to them", start, name)
			}
			start = name
		}
	}
	if start == "" || len(d.out[start]) != 1 || len(cells(d.nodes[start]["label"])) > 0 {
		return "there is no start marker with one edge"
	}
	seen := map[string]bool{start: true}
	if what := compare(d, d.out[start][0], tree, seen); what != "" {
		return what
	}
	if len(seen) != len(d.nodes) {
		return fmt.Sprintf("%d nodes, %d of them in the tree", len(d.nodes), len(seen))
	}
	return ""
}
