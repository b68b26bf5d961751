// Package cli checks the commands.
package cli

import (
	"bytes"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync/atomic"

	"github.com/flowchartsman/aql/jsonmatcher"
	"github.com/flowchartsman/aql/zz_verif/checks"
	"github.com/flowchartsman/aql/zz_verif/graphs"
	"github.com/flowchartsman/aql/zz_verif/mc"
	"github.com/flowchartsman/aql/zz_verif/ref"
)

var All = []*mc.Check{{
	ID: "C31",
	Rule: "a state is a command with its arguments and the files of a scratch directory; the matching command with each of 110 queries (all constructs, with advice, rejected ones, with white space of other kinds), given directly, in an .aql file, with a newline after it and in a missing file, times 25 documents (matching or not, invalid, empty, missing, a directory), queries and documents of 13 sizes of up to 2 MB (thorough 15, 30 MB), and every number of arguments from 0 to 4; " +
		"the graph command with 20 queries times 43 output names (both formats, other cases and types, no type, directories that exist or not, longer files that exist). Exit status, both outputs and the files left are compared with the library in this process and with the model's tree",
	Light: true,
	Need:  []string{"true", "false", "bad query", "bad document", "advice", "usage", "svg", "dot", "not written"},
	Run:   run,
}}

var counter int64

// scratch makes an empty directory of its own.
func scratch() string {
	d := filepath.Join(os.Getenv("VERIF_TMP"), fmt.Sprintf("d%d", atomic.AddInt64(&counter, 1)))
	if err := os.Mkdir(d, 0o755); err != nil {
		panic(mc.Trouble{err})
	}
	return d
}

type result struct {
	code     int
	out, err string
}

func runCmd(dir, bin string, args ...string) result {
	cmd := exec.Command(bin, args...)
	cmd.Dir = dir
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	err := cmd.Run()
	code := 0
	if err != nil {
		ee, ok := err.(*exec.ExitError)
		if !ok {
			panic(mc.Trouble{err})
		}
		code = ee.ExitCode()
	}
	return result{code, out.String(), errb.String()}
}

func (r result) String() string {
	return fmt.Sprintf("exit status %d, output %q, errors %q", r.code, r.out, r.err)
}

func (r result) failed() string {
	if r.code == 0 {
		return "no failure: " + r.String()
	}
	if r.out != "" {
		return "a failure with a result: " + r.String()
	}
	if strings.TrimSpace(r.err) == "" {
		return "a failure without a reason: " + r.String()
	}
	if strings.Contains(r.err, "goroutine ") {
		return "a crash: " + r.String()
	}
	return ""
}

// files lists the files below a directory with their contents.
func files(dir string) string {
	var out []string
	filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		if err == nil && info.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			rel, _ := filepath.Rel(dir, p)
			out = append(out, fmt.Sprintf("%s %q", rel, b))
		}
		return nil
	})
	sort.Strings(out)
	return strings.Join(out, "\n")
}

func run(r *mc.Run) {
	tmp := os.Getenv("VERIF_TMP")
	matchBin, graphBin := filepath.Join(tmp, "bin-aqltest"), filepath.Join(tmp, "bin-aqlgraph")
	for bin, pkg := range map[string]string{matchBin: "./cmd/aqltest", graphBin: "./cmd/aqlgraph"} {
		cmd := exec.Command("go", "build", "-o", bin, pkg)
		cmd.Dir = mc.Repo()
		if out, err := cmd.CombinedOutput(); err != nil {
			fmt.Fprintf(os.Stderr, "%s does not build: %v\n%s", pkg, err, out)
			os.Exit(3)
		}
	}
	runMatch(r, matchBin)
	runGraph(r, graphBin)
}

type document struct {
	name string
	text string // "" and missing for none
	kind string // file, missing, directory
}

var documents = []document{
	{"match.json", `{"a":1,"b":"x y","c":{"d":[1,2,{"e":true}]},"t":"2020-01-02T03:04:05Z","ip":"10.0.0.1","n":null}`, "file"},
	{"other.json", `{"a":2,"b":"z"}`, "file"},
	{"empty-object.json", `{}`, "file"},
	{"newline.json", "{\"a\": 1,\n \"b\": \"s\"}\n", "file"},
	{"array.json", `[{"a":1},{"a":2}]`, "file"},
	{"noext", `{"a":1}`, "file"},
	{"name.aql", `{"a":1}`, "file"},
	{"unicode.json", `{"a":"é","b":"大","é":1}`, "file"},
	{"invalid.json", `{"a":1`, "file"},
	{"junk.json", `a:1`, "file"},
	{"trailing.json", `{"a":1} x`, "file"},
	{"scalar.json", `1`, "file"},
	{"text.json", `"a"`, "file"},
	{"empty.json", "", "file"},
	{"blank.json", " \n", "file"},
	{"bom.json", "\ufeff{\"a\":1}", "file"},
	{"lines.json", "{\"a\":1}\n{\"a\":2}\n", "file"},
	{"two.json", `{"a":1}{"a":2}`, "file"},
	{"list.json", `{"a":1},{"a":2}`, "file"},
	{"crlf.json", "{\r\n\"a\":1,\r\n\"b\":\"x\\r\\ny\"\r\n}\r\n", "file"},
	{"comment.json", "{\"a\":1} // one", "file"},
	{"comma.json", `{"a":1,}`, "file"},
	{"quotes.json", `{'a':1}`, "file"},
	{"missing.json", "", "missing"},
	{"directory", "", "directory"},
}

func runMatch(r *mc.Run, bin string) {
	queries := append([]string{}, checks.Corpus...)
	queries = append(queries,
		`a:1`, `a:2`, `NOT a:1`, `b:"x"`, `c.d.e:true`, `ip:10.0.0.0/8`, `n:null`, `t:2020-01-02T03:04:05Z`, `a:~"1"`, `a:/.*1/ OR b:~/x/`, `a:/(?i)é/`, "a:1\nAND b:exists", `"é":1`,
		"", " ", "a", "a:", "a:1 AND", "a:(1", `a:"x`, "a:/(/", "a:1 b:2", "a:<true", "a:2020-13-01", "a:1.2.3.400", "-", "é", "a:1\nAND\nb",
		`b:"x.aql" OR a:1`, `b:/.aql/ OR NOT a:1`, `"x.aql":1`, "a.aql:exists", "a:1 OR .aql", "\va:1", "a:1\f", "\u00a0a:1", "a:1\u0085", "\ufeffa:1", "a:1\x00", " \t\r\na:1 ", "# a:1", "a:1;", "a:1\\", "\xffa:1",
		"b:\"x\ny\"", "b:\"x\r\ny\"", "b:\"x\ry\"", "\r\na:1\r\nAND b:exists\r\n", `b:"x\r\ny"`, `b:"x\ny"`, "b:~/x\ty/", "b:\"x\ty\"", "// a:1\nb:2", "a:1 // b", "/* */a:1", "a:1\n\n\n", "a:1\nb:2", "a:1\r\n", "$HOME:1", "'a:1'", "@query.aql", "a:1,", "${a}:1", "%s:1", "a:\"%d\"",
	)
	type job struct {
		q    string
		form string // direct, file, newline, missing
		d    document
	}
	short := func(s string) string {
		if len(s) > 2000 {
			s = fmt.Sprintf("%s... of %d bytes", s[:50], len(s))
		}
		return s
	}
	one := func(w *mc.W, j job) {
		w.Case(fmt.Sprintf("aqltest %q %s %s", short(j.q), j.form, j.d.name+" "+short(j.d.text)), func() string {
			dir := scratch()
			defer os.RemoveAll(dir)
			q, arg := j.q, j.q
			write := func(name, text string) {
				if err := os.WriteFile(filepath.Join(dir, name), []byte(text), 0o644); err != nil {
					panic(mc.Trouble{err})
				}
			}
			switch j.form {
			case "file":
				arg = "query.aql"
				write(arg, q)
			case "newline":
				arg = "./the query.x.aql"
				q += "\n"
				write(arg, q)
			case "missing":
				arg = "missing.aql"
			}
			switch j.d.kind {
			case "file":
				write(j.d.name, j.d.text)
			case "directory":
				os.Mkdir(filepath.Join(dir, j.d.name), 0o755)
			}
			before := files(dir)
			res := runCmd(dir, bin, arg, j.d.name)
			w.Step(1)
			if after := files(dir); after != before {
				return fmt.Sprintf("the files changed from %s to %s", before, after)
			}
			m, err := jsonmatcher.NewMatcher(q)
			if j.form == "missing" || err != nil {
				w.Outcome("bad query")
				return res.failed()
			}
			if _, valid := ref.ParseJSON([]byte(j.d.text)); j.d.kind != "file" || !valid {
				w.Outcome("bad document")
				return res.failed()
			}
			want, err := m.Match([]byte(j.d.text))
			if err != nil {
				// a document the library rejects
				w.Outcome("bad document")
				return res.failed()
			}
			if res.code != 0 {
				return "a failure: " + res.String()
			}
			line, rest, _ := strings.Cut(res.out, "\n")
			if line != fmt.Sprint(want) {
				return fmt.Sprintf("the result is %q, the library's %v", line, want)
			}
			w.Outcome(line)
			var got, stats any
			if err := json.Unmarshal([]byte(rest), &got); err != nil {
				return fmt.Sprintf("the counters %q cannot be read: %v", rest, err)
			}
			sb, _ := json.Marshal(m.Stats())
			json.Unmarshal(sb, &stats)
			gb, _ := json.Marshal(got)
			sb, _ = json.Marshal(stats)
			if string(gb) != string(sb) {
				return fmt.Sprintf("the counters are %s, the library's %s", gb, sb)
			}
			numbers := map[string]int{}
			if fields, ok := got.(map[string]any); ok {
				for _, v := range fields {
					if f, ok := v.(float64); ok {
						numbers[fmt.Sprint(f)]++
					}
				}
			}
			for _, n := range []int64{m.Stats().TimesChecked, m.Stats().TimesMatched} {
				if numbers[fmt.Sprint(n)]--; numbers[fmt.Sprint(n)] < 0 {
					return fmt.Sprintf("the counters %s do not have the number %d", gb, n)
				}
			}
			if len(m.Messages()) == 0 {
				if strings.TrimSpace(res.err) != "" {
					return fmt.Sprintf("errors without advice: %q", res.err)
				}
				return ""
			}
			w.Outcome("advice")
			text := res.err
			for _, msg := range m.Messages() {
				i := strings.Index(text, msg.Message())
				if i < 0 {
					return fmt.Sprintf("the advice %q is not in %q", msg.Message(), res.err)
				}
				text = text[i+len(msg.Message()):]
			}
			return ""
		})
		w.Trace()
	}
	mc.EachBatch(r, 1, func(yield func(job)) {
		for qi, q := range queries {
			for di, d := range documents {
				for _, form := range []string{"direct", "file", "newline", "missing"} {
					if form == "direct" && strings.Contains(q, "\x00") {
						continue
					}
					if form == "missing" && (qi > 0 && di > 1) {
						continue
					}
					if form != "direct" && !r.Thorough && (qi+di)%3 != 0 && di > 2 {
						continue
					}
					yield(job{q, form, d})
				}
			}
		}
	}, one)
	// large files
	mc.EachBatch(r, 1, func(yield func(job)) {
		sizes := []int{1000, 4000, 4096, 5000, 10000, 32768, 65535, 65536, 70000, 131072, 300000, 1 << 20, 2000000}
		if r.Deep {
			sizes = append(sizes, 10000000, 30000000)
		}
		for _, n := range sizes {
			pad := strings.Repeat("lorem ", n/6)
			for _, d := range []string{`{"p":"` + pad + `","a":1}`, `{"a":1,"p":"` + pad + `"}`, `{"a":2,"p":[` + strings.Repeat(`{"a":1},`, n/8) + `2]}`, `{"p":"` + pad + `","a":1`, strings.Repeat(" ", n) + `{"a":1}`, `{"a":1}` + strings.Repeat("\n", n)} {
				doc := document{"large.json", d, "file"}
				for _, q := range []string{"a:1", "a:2", `p:"lorem"`, `p.a:1 AND a:2`, "a:1 AND", "NOT z:exists"} {
					yield(job{q, "direct", doc})
				}
				yield(job{"a:1", "file", doc})
			}
			if n > 400000 {
				continue
			}
			doc := document{"x.json", `{"a":1,"b":"x"}`, "file"}
			for _, q := range []string{"a:1" + strings.Repeat(" ", n) + "AND b:\"y\"", strings.Repeat("\n", n) + "a:1", "a:1" + strings.Repeat("\n", n), "a:\"" + pad + "\" OR a:1", "a:2" + strings.Repeat(" ", n) + "OR", strings.Repeat(" ", n) + "a:1 b"} {
				yield(job{q, "file", doc})
				yield(job{q, "newline", doc})
				if n < 100000 {
					yield(job{q, "direct", doc})
				}
			}
		}
	}, one)
	// numbers of arguments
	r.One(func(w *mc.W) {
		for _, args := range [][]string{{}, {"a:1"}, {"a:1", "x.json", "x.json"}, {"a:1", "x.json", "", ""}, {"", ""}, {""}, {"x.json"}, {"x.json", "a:1"}} {
			args := args
			w.Case(fmt.Sprintf("aqltest with the arguments %q", args), func() string {
				dir := scratch()
				defer os.RemoveAll(dir)
				os.WriteFile(filepath.Join(dir, "x.json"), []byte(`{"a":1}`), 0o644)
				w.Outcome("usage")
				w.Step(1)
				return runCmd(dir, bin, args...).failed()
			})
		}
		w.Trace()
	})
}

func runGraph(r *mc.Run, bin string) {
	queries := []string{
		"a:1", `a:1 AND b:("x", /y/)`, `NOT (a:1 OR "b c".d:<2.5)`, `a:"<&>\"\\" OR é:1.2.3.4`, "a:1 AND b:2 OR c:3 AND NOT d:4", "a:exists\nAND b:null", "a:1 AND a:1", `"\u0001":/[<>]/`, "a:2020-01-02T03:04:05Z",
		`!!a:1`, `a:~"s"`, "a:><(1,2)", "", "a", "a:", "a:1 AND", `a:"x`, "a:<true", "a:1 x",
	}
	names := []string{"", "g.svg", "g.dot", "G.SVG", "G.Dot", "g.png", "g", "svg", ".svg", "sub/g.dot", "none/g.svg", "old.dot", "old.svg", "old.txt", "g.svg.txt", "g.dot.svg", "g.", " .dot",
		"g.gv", "g.svgz", "g.pdf", "g.jpg", "g.jpeg", "g.json", "g.xdot", "g.html", "g.xml", "g.txt", "g.aql", "g.ps", "g.gif", "g.svg ", "g.dot~", "g.dott", "g.sv", "g.vg", "dot", "g-dot", "-", "g.svg.", "g..svg", "sub/h.svg", "old.gv"}
	type job struct{ q, name string }
	mc.EachBatch(r, 1, func(yield func(job)) {
		for _, q := range queries {
			for _, n := range names {
				yield(job{q, n})
			}
		}
	}, func(w *mc.W, j job) {
		w.Case(fmt.Sprintf("aqlgraph %q %q", j.q, j.name), func() string {
			dir := scratch()
			defer os.RemoveAll(dir)
			os.Mkdir(filepath.Join(dir, "sub"), 0o755)
			for _, n := range []string{"old.dot", "old.svg", "old.txt"} {
				os.WriteFile(filepath.Join(dir, n), []byte("old"+strings.Repeat(" old\n<old", 20000)), 0o644)
			}
			before := files(dir)
			target, args := j.name, []string{j.q, j.name}
			if target == "" {
				target, args = "query_graph.svg", args[:1]
			}
			res := runCmd(dir, bin, args...)
			w.Step(1)
			tree, rerr := ref.Parse(j.q)
			ext := strings.ToLower(filepath.Ext(target))
			if rerr != nil || ext != ".svg" && ext != ".dot" || strings.HasPrefix(target, "none/") {
				w.Outcome("not written")
				if after := files(dir); after != before {
					return fmt.Sprintf("the files changed from %s to %s", before, after)
				}
				return res.failed()
			}
			if res.code != 0 {
				return "a failure: " + res.String()
			}
			b, err := os.ReadFile(filepath.Join(dir, target))
			if err != nil {
				return fmt.Sprintf("no graph: %v", err)
			}
			os.Remove(filepath.Join(dir, target))
			if after := files(dir); after != dropLine(before, target+" ") {
				return fmt.Sprintf("other files changed: from %s to %s", before, after)
			}
			w.Outcome(ext[1:])
			if ext == ".dot" {
				return graphs.Matches(string(b), tree)
			}
			return svgDiff(b, tree)
		})
		w.Trace()
	})
	r.One(func(w *mc.W) {
		w.Case("aqlgraph without arguments", func() string {
			dir := scratch()
			defer os.RemoveAll(dir)
			w.Step(1)
			w.Outcome("usage")
			res := runCmd(dir, bin)
			if f := files(dir); f != "" {
				return "files are written: " + f
			}
			return res.failed()
		})
		w.Trace()
	})
}

func dropLine(s, prefix string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if !strings.HasPrefix(l, prefix) {
			out = append(out, l)
		}
	}
	return strings.Join(out, "\n")
}

// svgDiff reads a picture and counts its nodes and edges.
func svgDiff(b []byte, tree *ref.Node) string {
	d := xml.NewDecoder(bytes.NewReader(b))
	d.Strict = false
	nodes, edges, svg := 0, 0, false
	for {
		t, err := d.Token()
		if err == io.EOF {
			break
		}
		if err != nil {
			return fmt.Sprintf("the SVG cannot be read: %v", err)
		}
		if e, ok := t.(xml.StartElement); ok {
			svg = svg || e.Name.Local == "svg"
			for _, a := range e.Attr {
				if a.Name.Local == "class" && a.Value == "node" {
					nodes++
				}
				if a.Name.Local == "class" && a.Value == "edge" {
					edges++
				}
			}
		}
	}
	n := size(tree)
	if !svg || nodes != n+1 || edges != n {
		return fmt.Sprintf("the picture has %d nodes and %d edges, expected %d and %d", nodes, edges, n+1, n)
	}
	return ""
}

func size(n *ref.Node) int {
	s := 1
	if n.L != nil {
		s += size(n.L)
	}
	if n.R != nil {
		s += size(n.R)
	}
	return s
}
