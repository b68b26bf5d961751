bug("not-not", "C10", "a query with two negations directly after each other",
    "Two negations in a row are treated as one.",
    [("jsonmatcher/build_matcher.go", "\tcase *ast.NotNode:\n", "\tcase *ast.NotNode:\n\t\tif inner, ok := n.Expr.(*ast.NotNode); ok {\n\t\t\t// a double negation cancels out\n\t\t\treturn b.build(inner)\n\t\t}\n")],
    matches(("NOT (NOT a:1)", '{"a":1}', True), ("NOT (NOT a:1)", '{"a":2}', False)))

bug("first-object", "C11", "an array of more than four objects that have the field",
    "Objects of an array after the first four that have the rest of the path are not looked at.",
    [("jsonmatcher/json_values.go", "\t\t\t\tif dataType == jsonparser.Object {\n\t\t\t\t\toutputValues", "\t\t\t\tif dataType == jsonparser.Object && len(outputValues) < 4 {\n\t\t\t\t\toutputValues")],
    matches(("a.b:9", '{"a":[{"b":1},{"b":2},{"b":3},{"b":4},{"b":9}]}', True), ("a.b:4", '{"a":[{"b":1},{"b":2},{"b":3},{"b":4}]}', True)))

bug("date-among-others", "C12", "an array in which a value that is no time stands before a matching time",
    "A timestamp comparison gives up at the first value that cannot be read as a time.",
    [("jsonmatcher/expr_datetime.go", "\t\tif !ok {\n\t\t\tcontinue\n", "\t\tif !ok {\n\t\t\treturn false\n")],
    matches(("a:>2020-01-01", '{"a":["unknown","2021-01-01"]}', True), ("a:>2020-01-01", '{"a":["2021-01-01","unknown"]}', True)))

bug("small-int", "C13", "equality with an integer of more than 24 bits",
    "Equality with an integer rounds the integer to single precision.",
    [("jsonmatcher/expr_eq.go", "[2]float64{float64(rval.Value())}", "[2]float64{float64(float32(rval.Value()))}")],
    matches(("a:16777217", '{"a":16777217}', True), ("a:16777217", '{"a":16777216}', False)))

bug("zero-prefix", "C17", "a document with a block of prefix length 0",
    "The prefix length 0 of a block in the document is not read as part of it.",
    [("jsonmatcher/expr_net.go", r"(?:/\d{1,2})?", r"(?:/[1-9]\d?)?")],
    matches(("a:10.1.2.0/24", '{"a":"any 0.0.0.0/0"}', True), ("a:10.0.0.0/8", '{"a":"10.1.2.0/24"}', True)))

bug("after-boolean", "C18", "a list with another value after a boolean",
    "The values of a list after a boolean are ignored.",
    [("jsonmatcher/expr_eq.go", "\t\t\t\top:    ast.EQ,\n\t\t\t})\n\t\tcase *ast.TimeVal:", "\t\t\t\top:    ast.EQ,\n\t\t\t})\n\t\t\treturn matchers\n\t\tcase *ast.TimeVal:")],
    matches(('a:(true,"x")', '{"a":"x"}', True), ('a:("x",true)', '{"a":"x"}', True)))

bug("same-buffer", "C22", "two matches with different documents in the same buffer",
    "A comparison remembers the field of the last document by the address of its bytes.",
    [("jsonmatcher/nodes.go", "\texprs     []fieldExpr\n", "\texprs     []fieldExpr\n\tlastRoot  []byte\n\tlastField *field\n"),
     ("jsonmatcher/nodes.go", "func (e exprNode) result(root []byte) bool {\n\tmatched := false\n\tfield := getField(e.path, root)\n",
      "func (e *exprNode) result(root []byte) bool {\n\tmatched := false\n\tfield := e.lastField\n\tif len(root) != len(e.lastRoot) || &root[0] != &e.lastRoot[0] {\n\t\tfield = getField(e.path, root)\n\t\te.lastRoot, e.lastField = root, field\n\t}\n")],
    '''package main

import (
	"fmt"
	"os"

	"github.com/flowchartsman/aql/jsonmatcher"
)

func main() {
	m, err := jsonmatcher.NewMatcher("a:exists")
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	buf := []byte(`{"a":1}`)
	first, _ := m.Match(buf)
	copy(buf, `{"b":1}`)
	second, _ := m.Match(buf)
	if !first || second {
		fmt.Println(first, second)
		os.Exit(1)
	}
}
''')

PRELUDE = '''package main

import (
	"fmt"
	"os"

%s
)

func check(ok bool, v ...any) {
	if !ok {
		fmt.Println(v...)
		os.Exit(1)
	}
}

func main() {
%s
}
'''
def program(imports, body):
    return PRELUDE % ("\n".join('\t"%s"' % i for i in imports), "\n".join("\t" + l if l else "" for l in body.strip("\n").split("\n")))

PARSER, AST, MATCHER = "github.com/flowchartsman/aql/parser", "github.com/flowchartsman/aql/parser/ast", "github.com/flowchartsman/aql/jsonmatcher"

bug("under-not", "C07", "an error of a visitor at a node below a NOT",
    "The walk ignores the error of a visitor below a NOT, so that also invalid comparisons are accepted there.",
    [("parser/visitors.go", "\tcase *ast.NotNode:\n\t\treturn walkr(v, n.Expr)\n", "\tcase *ast.NotNode:\n\t\tif err := walkr(v, n.Expr); err == SkipAll {\n\t\t\treturn err\n\t\t}\n")],
    program(["errors", PARSER, AST], '''
stop := errors.New("stop")
visit := func(n ast.Node) error {
	if _, ok := n.(*ast.ExprNode); ok {
		return stop
	}
	return nil
}
_, err := parser.ParseQuery("NOT a:1", parser.Visitors(parser.VisitorFunc(visit)))
check(err != nil, "the visitor's error is lost")
'''))

bug("long-query", "C08", "a query of more than 4096 bytes given by a reader",
    "Only the first 4096 bytes of a query are read.",
    [("internal/grammar/parser_gen.go", "ioutil.ReadAll(r)", "ioutil.ReadAll(io.LimitReader(r, 4096))")],
    program(["strings", PARSER], '''
_, err := parser.ParseQueryReader(strings.NewReader("a:1 OR b:\\"" + strings.Repeat("x", 5000) + "\\""))
check(err == nil, err)
_, err = parser.ParseQueryReader(strings.NewReader("a:1" + strings.Repeat(" ", 5000) + ")"))
check(err != nil, "the end of the query is not read")
'''))

bug("zone", "C16", "a document with a time in a zone other than UTC",
    "The time zone of a document's time is not applied.",
    [("jsonmatcher/json_values.go", "	return t, true", "	return time.Date(t.Year(), t.Month(), t.Day(), t.Hour(), t.Minute(), t.Second(), t.Nanosecond(), time.UTC), true")],
    matches(("a:2020-01-01T10:00:00Z", '{"a":"2020-01-01T12:00:00+02:00"}', True), ("a:2020-01-01T10:00:00Z", '{"a":"2020-01-01T10:00:00Z"}', True)))

bug("first-value-advice", "C24", "advice about a value of a list that is not the first",
    "Advice is only given about the first value of a list.",
    [("jsonmatcher/query_messages.go", "\t\tfor _, v := range n.RVals {\n", "\t\tfor i, v := range n.RVals {\n\t\t\tif i > 0 {\n\t\t\t\tbreak\n\t\t\t}\n")],
    program([MATCHER], '''
m, err := jsonmatcher.NewMatcher("a:(/x/,/.*y/)")
check(err == nil, err)
check(len(m.Messages()) > 0, "no advice")
'''))

bug("round-share", "C26", "a share of the documents just below the threshold",
    "The share of documents is rounded before it is compared with the threshold.",
    [("sampler/sampler.go", "\t\tif float64(count)/float64(s.totalDocs) >= pct {", "\t\tif math.Round(float64(count)/float64(s.totalDocs)*100)/100 >= pct {"),
     ("sampler/sampler.go", '\t"fmt"\n', '\t"fmt"\n\t"math"\n')],
    program(["github.com/flowchartsman/aql/sampler"], '''
s := sampler.New(-1)
for _, d := range []string{`{"a":1}`, `{"a":1}`, `{"b":1}`} {
	check(s.Sample([]byte(d)) == nil, d)
}
check(len(s.KeysAtThreshold(67)) == 0, "a is in two thirds of the documents", s.KeysAtThreshold(67))
check(len(s.KeysAtThreshold(66)) == 1, "a is in two thirds of the documents")
'''))

bug("dots", "C29", "a message printed with the query cut by one character on the left",
    "The mark of a message is put three columns too far to the left if only one character is cut.",
    [("parser/fmtmsg/formatter.go", "\tif m.lo > 0 {\n\t\toffset += 3\n", "\tif m.lo > 1 {\n\t\toffset += 3\n")],
    program(["strings", PARSER, AST, "github.com/flowchartsman/aql/parser/fmtmsg"], '''
for width := 1; width < 12; width++ {
	f, err := fmtmsg.NewFormatter("{{.Query}} {{.QueryPre}} {{.HLStrOffset}}", false, width)
	check(err == nil, err)
	for off := 0; off < 10; off++ {
		out := strings.Fields(f.WithQuery("abcdefghij:1").Sprint(parser.ErrorAt(ast.Pos{Offset: off, Len: 1}, "m")))
		if len(out) == 2 {
			check(out[1] == "0", out)
			continue
		}
		check(out[2] == fmt.Sprint(len(out[1])), width, off, out)
	}
}
'''))

bug("many-nodes", "C30", "the graph of a query with more than 30 nodes",
    "The names of nodes repeat in a large graph, so that different nodes become one.",
    [("aqlgraph/graph.go", "strconv.Itoa(n.id)", "strconv.Itoa(n.id % 64)")],
    program(["path/filepath", "strings", "github.com/flowchartsman/aql/aqlgraph"], '''
g, err := aqlgraph.QueryGraph("a:1" + strings.Repeat(" OR a:1", 39))
check(err == nil, err)
dir, err := os.MkdirTemp("", "graph")
check(err == nil, err)
file := filepath.Join(dir, "g.dot")
err = g.OutputDOT(file)
b, _ := os.ReadFile(file)
os.RemoveAll(dir)
check(err == nil, err)
check(strings.Count(string(b), "->") == 79, strings.Count(string(b), "->"), "edges")
check(strings.Count(string(b), "label=OR") == 39, strings.Count(string(b), "label=OR"), "nodes")
'''))

bug("lost-count", "C23", "two matches at the same time",
    "A check that is counted while another one is being counted is lost.",
    [("jsonmatcher/node_stats.go", "\tns.timesChecked.Inc()\n", "\tns.timesChecked.Store(ns.timesChecked.Load() + 1)\n")],
    program(["sync", MATCHER], '''
for try := 0; try < 50; try++ {
	m, err := jsonmatcher.NewMatcher("a:exists")
	check(err == nil, err)
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 5000; k++ {
				m.Match([]byte("{}"))
			}
		}()
	}
	wg.Wait()
	check(m.Stats().TimesChecked == 40000, m.Stats().TimesChecked)
}
'''))

bug("any-directory", "C33", "a request for a served name in another directory",
    "The server gives out its files under their names in any directory.",
    [("wasm/aqlparse/server/main.go", "d.files[filename]", "d.files[filepath.Base(filename)]")],
    {"demo.sh": r'''#!/bin/bash
# Asks the server for one of its files in a directory where it has none.
export HOME=${HOME:-/root} PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
if [ "$1" = inside ]; then
    ip link set lo up 2> /dev/null
    tmp=$2
    "$tmp/server" "$tmp/pub" 2> /dev/null &
    pid=$!
    for i in $(seq 100); do
        (exec 3<> /dev/tcp/127.0.0.1/8080) 2> /dev/null && break
        sleep 0.1
    done
    exec 3<> /dev/tcp/127.0.0.1/8080 || exit 1
    printf 'GET /other/style.css HTTP/1.0\r\n\r\n' >&3
    answer=$(cat <&3)
    kill $pid
    echo "$answer" | head -1
    ! grep -q SERVED <<< "$answer"
    exit
fi
tmp=$(mktemp -d) || exit 1
trap 'rm -rf "$tmp"' EXIT
go build -o "$tmp/server" ./wasm/aqlparse/server || exit 1
mkdir "$tmp/pub"
for f in index.html wasm_exec.js hwt.css style.css aqlparse.wasm; do echo "SERVED $f" > "$tmp/pub/$f"; done
if unshare -Urn ip link set lo up 2> /dev/null; then
    unshare -Urn bash "$0" inside "$tmp"
else
    bash "$0" inside "$tmp"
fi
'''})

bug("large-number-text", "C14", "a text comparison with a decimal of a million or more, or with an exponent",
    "Large decimals are searched in exponent form.",
    [("jsonmatcher/json_values.go", "strconv.FormatFloat(fv, 'f', -1, 64)", "strconv.FormatFloat(fv, 'g', -1, 64)")],
    matches(('a:"1234567.5"', '{"a":1234567.5}', True), ('a:"100000000"', '{"a":1e8}', True)))

bug("star-word", "C14", "the wildcard * for text that contains a space",
    "The wildcard * does not go past spaces.",
    [("jsonmatcher/str_matchers.go", "buf.WriteString(`.*?`)", "buf.WriteString(`\\S*?`)")],
    matches(('a:"x*z"', '{"a":"x y z"}', True), ('a:"x*z"', '{"a":"xyz"}', True)))

bug("null-in-array", "C11", "an array of objects in which the field is null",
    "A null found in an object of an array is taken for nothing.",
    [("jsonmatcher/json_values.go", "\t\t\t\tif dataType == jsonparser.Object {\n\t\t\t\t\toutputValues = append(outputValues, getValues(path, child, jsonparser.Object)...)\n\t\t\t\t}\n",
      "\t\t\t\tif dataType != jsonparser.Object {\n\t\t\t\t\treturn\n\t\t\t\t}\n\t\t\t\tfor _, v := range getValues(path, child, jsonparser.Object) {\n\t\t\t\t\tif v.dataType != jsonparser.Null {\n\t\t\t\t\t\toutputValues = append(outputValues, v)\n\t\t\t\t\t}\n\t\t\t\t}\n")],
    matches(("a.b:null", '{"a":[{"b":null}]}', True), ("a.b:exists", '{"a":[{"b":null}]}', True)))

bug("negated-first", "C01", "an OR of a negated comparison and a plain one",
    "An OR with a negated left side has its operands exchanged.",
    [("internal/grammar/parser_gen.go", "func (c *current) onOrClause2(lhs, rhs interface{}) (interface{}, error) {\n", "func (c *current) onOrClause2(lhs, rhs interface{}) (interface{}, error) {\n\tif _, ok := lhs.(*ast.NotNode); ok {\n\t\tif _, ok := rhs.(*ast.ExprNode); ok {\n\t\t\t// the cheaper side first\n\t\t\tlhs, rhs = rhs, lhs\n\t\t}\n\t}\n")],
    program([PARSER], '''
n, err := parser.ParseQuery("NOT a:1 OR b:2")
check(err == nil, err)
check(n.String() == "(|| (! (== a 1)) (== b 2))", n)
'''))

bug("any-bytes", "C02", "a query with a byte that is not UTF-8",
    "Queries that are not valid UTF-8 are accepted.",
    [("internal/grammar/parser_gen.go", "return newParser(filename, b, opts...).parse(g)", "return newParser(filename, bytes.ToValidUTF8(b, []byte(\"?\")), opts...).parse(g)")],
    program([PARSER], '''
_, err := parser.ParseQuery("a:\\"caf\\xe9\\" AND b:1")
check(err != nil, "accepted")
_, err = parser.ParseQuery("a:1 AND b:/caf\\u00e9/")
check(err == nil, err)
'''))

bug("octal", "C03", "an integer written with leading zeros",
    "An integer with a leading zero is read as an octal number.",
    [("parser/ast/ast.go", "strconv.ParseInt(sv, 10, 64)", "strconv.ParseInt(sv, 0, 64)")],
    program([PARSER, AST], '''
n, err := parser.ParseQuery("a:010")
check(err == nil, err)
check(n.(*ast.ExprNode).RVals[0].(*ast.IntVal).Value() == 10, n)
'''))

bug("number-key", "C04", "a field with a number written with leading zeros",
    "Segments of a field that are numbers lose their leading zeros.",
    [("internal/grammar/parser_gen.go", "func (c *current) onUnquotedFieldPiece1() (interface{}, error) {\n", "func (c *current) onUnquotedFieldPiece1() (interface{}, error) {\n\tif n, err := strconv.Atoi(string(c.text)); err == nil {\n\t\treturn strconv.Itoa(n), nil\n\t}\n")],
    matches(("codes.007:1", '{"codes":{"007":1}}', True), ("codes.007:1", '{"codes":{"7":1}}', False)))

bug("long-list", "C05", "a list of more than 32 values with a repeated one",
    "Repeated values are only noticed among the first 32 values of a list.",
    [("parser/validators.go", "\tfor i, rv := range e.RVals {\n\t\tsv := rv.String()\n", "\tfor i, rv := range e.RVals {\n\t\tif i == 32 {\n\t\t\tbreak\n\t\t}\n\t\tsv := rv.String()\n")],
    program(["strings", PARSER], '''
var list []string
for i := 0; i < 40; i++ {
	list = append(list, fmt.Sprint(i))
}
_, err := parser.ParseQuery("a:(" + strings.Join(list, ",") + ")")
check(err == nil, err)
_, err = parser.ParseQuery("a:(" + strings.Join(list, ",") + ",39)")
check(err != nil, "accepted")
'''))

bug("wide-column", "C06", "a character of four bytes before the position on its line",
    "Characters of four bytes are not counted in columns.",
    [("internal/grammar/parser_gen.go", "\tp.pt.col++\n", "\tif n < 4 {\n\t\tp.pt.col++\n\t}\n")],
    program([PARSER, AST], '''
n, err := parser.ParseQuery("\\"\\U0001f600\\":1")
check(err == nil, err)
check(n.(*ast.ExprNode).RVals[0].Pos().Col == 5, n.(*ast.ExprNode).RVals[0].Pos())
'''))

bug("remember-success", "C09", "a query with deeply nested parentheses",
    "The parser only remembers what it could parse, not what it could not, and tries that again and again.",
    [("internal/grammar/parser_gen.go", "\tif p.memoize {\n\t\tp.setMemoized(pt, expr,", "\tif p.memoize && ok {\n\t\tp.setMemoized(pt, expr,"),
     ("internal/grammar/parser_gen.go", "\tif p.memoize {\n\t\tp.setMemoized(start, rule,", "\tif p.memoize && ok {\n\t\tp.setMemoized(start, rule,")],
    program(["runtime", "strings", PARSER], '''
effort := func(depth int) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	parser.ParseQuery(strings.Repeat("(", depth) + "a:1")
	runtime.ReadMemStats(&b)
	return b.Mallocs - a.Mallocs
}
few, many := effort(5), effort(10)
check(many < 8*few, few, many)
'''))

bug("whole-number", "C15", "a regular expression and a number with decimals",
    "Regular expressions see only the whole part of a number.",
    [("jsonmatcher/expr_regexp.go", "\t\tif e.value.MatchString(", "\t\tif i := strings.IndexByte(str, '.'); i > 0 && v.dataType == jsonparser.Number {\n\t\t\tstr = str[:i]\n\t\t}\n\t\tif e.value.MatchString("),
     ("jsonmatcher/expr_regexp.go", "\t\"regexp\"\n", "\t\"regexp\"\n\t\"strings\"\n\n\t\"github.com/buger/jsonparser\"\n")],
    matches(("a:/5$/", '{"a":1.5}', True), ("a:/5$/", '{"a":"1.5"}', True)))

bug("plain-text", "C20", "a string with a character that is escaped other than as \\\\uXXXX",
    "Strings are only unescaped if they have a \\\\u escape.",
    [("jsonmatcher/json_values.go", "\t\tsv, err := jsonparser.ParseString(v.data)\n", "\t\tif !bytes.Contains(v.data, []byte(`\\u`)) {\n\t\t\treturn string(v.data), true\n\t\t}\n\t\tsv, err := jsonparser.ParseString(v.data)\n")],
    matches(('a:/x\\ty/', '{"a":"x\\ty"}', True), ('a:/x\\ty/', '{"a":"x\\u0009y"}', True)))

bug("trim-space", "C21", "a document with white space around it that JSON does not allow",
    "White space of any kind around a document is accepted.",
    [("jsonmatcher/jsonmatcher.go", "json.Valid(data)", "json.Valid(bytes.TrimSpace(data))"),
     ("jsonmatcher/jsonmatcher.go", "import (\n", "import (\n\t\"bytes\"\n")],
    program([MATCHER], '''
m, err := jsonmatcher.NewMatcher("a:1")
check(err == nil, err)
_, err = m.Match([]byte("\\v{\\"a\\":1}"))
check(err != nil, "no error")
_, err = m.Match([]byte("\\n{\\"a\\":1}"))
check(err == nil, err)
'''))

bug("empty-key", "C25", "a key that is empty",
    "A scalar with an empty key is not sampled.",
    [("sampler/sampler.go", "\t\t\tpath.WriteString(\".\")\n", "\t\t\tif len(key) == 0 {\n\t\t\t\treturn nil\n\t\t\t}\n\t\t\tpath.WriteString(\".\")\n")],
    program(["github.com/flowchartsman/aql/sampler"], '''
s := sampler.New(-1)
check(s.Sample([]byte(`{"":1,"b":2}`)) == nil)
check(len(s.Keys()) == 2, s.Keys())
'''))

bug("bad-counted", "C27", "a sample that cannot be read",
    "Samples that cannot be read count as scanned documents.",
    [("sampler/sampler.go", "\t// prep initial sampling state\n", "\ts.totalDocs++\n\t// prep initial sampling state\n"), ("sampler/sampler.go", "\ts.totalDocs++\n\treturn nil\n", "\treturn nil\n")],
    program(["github.com/flowchartsman/aql/sampler"], '''
s := sampler.New(-1)
check(s.Sample([]byte(`{"a":x}`)) != nil, "no error")
check(s.Scanned() == 0, s.Scanned())
check(s.Sample([]byte(`{"a":1}`)) == nil)
check(len(s.KeysAtThreshold(100)) == 1, s.KeysAtThreshold(100))
'''))

bug("trailing-space", "C28", "a key that ends with a space",
    "A key is only quoted if it has a space before its end.",
    [("sampler/sampler.go", 'bytes.ContainsAny(key, " ")', 'bytes.ContainsAny(bytes.TrimRight(key, " "), " ")')],
    program(["github.com/flowchartsman/aql/sampler", MATCHER], '''
s := sampler.New(-1)
doc := []byte(`{"a ":{"b":1}}`)
check(s.Sample(doc) == nil)
m, err := jsonmatcher.NewMatcher(s.Keys()[0] + ":exists")
check(err == nil, s.Keys(), err)
ok, err := m.Match(doc)
check(ok && err == nil, s.Keys(), ok, err)
'''))

bug("stale-rule", "C34", "a unicode escape with upper-case digits",
    "The generated parser is that of an older grammar that only had lower-case digits in escapes.",
    [("internal/grammar/parser_gen.go", "\t\t\t\tval:        \"[0-9a-f]i\",\n\t\t\t\tranges:     []rune{'0', '9', 'a', 'f'},\n\t\t\t\tignoreCase: true,", "\t\t\t\tval:        \"[0-9a-f]i\",\n\t\t\t\tranges:     []rune{'0', '9', 'a', 'f'},\n\t\t\t\tignoreCase: false,")],
    program([PARSER], '''
_, err := parser.ParseQuery(`a:"\\u00E9"`)
check(err == nil, err)
'''))

bug("aql-inside", "C31", "a query with .aql in it that is no file name",
    "The matching command takes every query that contains .aql for the name of a file.",
    [("cmd/aqltest/main.go", 'strings.HasSuffix(query, ".aql")', 'strings.Contains(query, ".aql")')],
    {"demo.sh": r'''#!/bin/bash
# Asks the command for a query that names an .aql file.
export HOME=${HOME:-/root} PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
tmp=$(mktemp -d) || exit 1
trap 'rm -rf "$tmp"' EXIT
go build -o "$tmp/aqltest" ./cmd/aqltest || exit 1
echo '{"file":"x.aql"}' > "$tmp/doc.json"
"$tmp/aqltest" 'file:"x.aql"' "$tmp/doc.json" | grep -q '^true'
'''})

bug("list-comma", "C35", "the printed form of a query with a list of more than two values",
    "The values of a longer list are printed without a separator before the last one.",
    [("parser/ast/ast.go", "\t\t\tsb.WriteString(rv.String())\n\t\t\tif i < len(e.RVals)-1 {\n\t\t\t\tsb.WriteString(`, `)", "\t\t\tsb.WriteString(rv.String())\n\t\t\tif i < len(e.RVals)-2 || i == 0 {\n\t\t\t\tsb.WriteString(`, `)")],
    program([PARSER], '''
n, err := parser.ParseQuery("a:(1,2,3)")
check(err == nil, err)
check(n.String() == "(== a [1, 2, 3])", n)
'''))

bug("null-false", "C19", "a document in which null stands where a boolean is asked for",
    "An explicit null is taken for false.",
    [("jsonmatcher/json_values.go", "\tif v.dataType == jsonparser.Boolean {\n\t\tbv, err", "\tif v.dataType == jsonparser.Null {\n\t\treturn false, true\n\t}\n\tif v.dataType == jsonparser.Boolean {\n\t\tbv, err")],
    matches(("a:false", '{"a":null}', False), ("a:false", '{"a":false}', True)))

bug("two-messages", "C32", "a query with more than one piece of advice",
    "The playground shows only the last piece of advice.",
    [("wasm/aqlparse/main.go", "\t\tfor _, m := range pmessages {\n\t\t\tmessages = append(messages, msgConvert(m, input))\n\t\t}\n", "\t\tmessages = append(messages, msgConvert(pmessages[len(pmessages)-1], input))\n")],
    {"demo.sh": r'''#!/bin/bash
# Asks the playground's function for a query with two pieces of advice.
export HOME=${HOME:-/root} PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
tmp=$(mktemp -d) || exit 1
trap 'rm -rf "$tmp"' EXIT
GOOS=js GOARCH=wasm go build -o "$tmp/p.wasm" ./wasm/aqlparse || exit 1
cat > "$tmp/ask.js" <<'JS'
const fs = require('fs');
globalThis.fs = fs;
globalThis.path = require('path');
require(process.argv[3]);
const go = new Go();
globalThis.notifyBrowser = () => {
	const got = parseAQL('a:/x.*/ AND b:/.*y/');
	const starts = got.messages.map((m) => m.start);
	console.log(JSON.stringify(starts));
	process.exit(starts.includes(2) && starts.includes(14) ? 0 : 1);
};
WebAssembly.instantiate(fs.readFileSync(process.argv[2]), go.importObject).then((m) => go.run(m.instance));
JS
node "$tmp/ask.js" "$tmp/p.wasm" "$(go env GOROOT)/lib/wasm/wasm_exec.js"
'''})

bug("stale-threshold", "C26", "a threshold asked for before a reset and again after as many other documents",
    "The keys at a threshold are remembered by the number of documents, also over a reset.",
    [("sampler/sampler.go", "\ttotalDocs int\n}", "\ttotalDocs int\n\tlast      []string\n\tlastDocs  int\n\tlastPct   int\n}"),
     ("sampler/sampler.go", "\tout := []string{}\n\tpct :=", "\tif s.last != nil && s.lastDocs == s.totalDocs && s.lastPct == thresholdPercent {\n\t\treturn append([]string{}, s.last...)\n\t}\n\tout := []string{}\n\tdefer func() { s.last, s.lastDocs, s.lastPct = append([]string{}, out...), s.totalDocs, thresholdPercent }()\n\tpct :=")],
    program(["github.com/flowchartsman/aql/sampler"], """
s := sampler.New(-1)
check(s.Sample([]byte(`{"a":1}`)) == nil)
check(len(s.KeysAtThreshold(50)) == 1)
s.Reset()
check(s.Sample([]byte(`{"b":1}`)) == nil)
keys := s.KeysAtThreshold(50)
check(len(keys) == 1 && keys[0] == "b", keys)
"""))

bug("fourth-line", "C05", "a comparison on the fourth line of a query or below",
    "Comparisons that start after the third line are not checked.",
    [("parser/validators.go", "\tcase *ast.ExprNode:\n\t\tfor _", "\tcase *ast.ExprNode:\n\t\tif n.Position.Line > 3 {\n\t\t\treturn nil\n\t\t}\n\t\tfor _")],
    program([PARSER], '''
_, err := parser.ParseQuery("a:1\\nAND b:2\\nAND c:3\\nAND d:<true")
check(err != nil)
'''))

bug("far-walk", "C07", "a query of more than 500 levels",
    "Visitors are not called more than 500 levels down.",
    [("parser/visitors.go", "\terr := walkr(v, node)\n\tif err == Skip", "\terr := walkr(v, node, 500)\n\tif err == Skip"),
     ("parser/visitors.go", "func walkr(v Visitor, node ast.Node) error {\n", "func walkr(v Visitor, node ast.Node, levels int) error {\n\tif levels < 0 {\n\t\treturn nil\n\t}\n"),
     ("parser/visitors.go", "\tcase *ast.AndNode:\n\t\terr = walkr(v, n.Left)\n\t\tif err != nil && err != Skip {\n\t\t\treturn err\n\t\t}\n\t\treturn walkr(v, n.Right)\n", "\tcase *ast.AndNode:\n\t\terr = walkr(v, n.Left, levels-1)\n\t\tif err != nil && err != Skip {\n\t\t\treturn err\n\t\t}\n\t\treturn walkr(v, n.Right, levels-1)\n"),
     ("parser/visitors.go", "\tcase *ast.OrNode:\n\t\terr = walkr(v, n.Left)\n\t\tif err != nil && err != Skip {\n\t\t\treturn err\n\t\t}\n\t\treturn walkr(v, n.Right)\n", "\tcase *ast.OrNode:\n\t\terr = walkr(v, n.Left, levels-1)\n\t\tif err != nil && err != Skip {\n\t\t\treturn err\n\t\t}\n\t\treturn walkr(v, n.Right, levels-1)\n"),
     ("parser/visitors.go", "\tcase *ast.NotNode:\n\t\treturn walkr(v, n.Expr)\n\tcase *ast.SubdocNode:\n\t\treturn walkr(v, n.Expr)\n", "\tcase *ast.NotNode:\n\t\treturn walkr(v, n.Expr, levels-1)\n\tcase *ast.SubdocNode:\n\t\treturn walkr(v, n.Expr, levels-1)\n")],
    program(["strings", PARSER, AST], '''
calls := 0
_, err := parser.ParseQuery(strings.Repeat("a:1 AND ", 600)+"a:1", parser.Visitors(parser.VisitorFunc(func(ast.Node) error {
	calls++
	return nil
})))
check(err == nil && calls == 1201, err, calls)
'''))

bug("range-fold", "C10", "two ordering comparisons of one field joined by AND, and an array",
    "Two ordering comparisons of one field that are joined by AND have to hold for the same value.",
    [("jsonmatcher/build_matcher.go", "\tcase *ast.AndNode:\n\t\tnode := &andNode{", "\tcase *ast.AndNode:\n\t\tlo, ok1 := n.Left.(*ast.ExprNode)\n\t\thi, ok2 := n.Right.(*ast.ExprNode)\n\t\tif ok1 && ok2 && lo.Op == ast.GTE && hi.Op == ast.LTE && ast.FieldString(lo.Field) == ast.FieldString(hi.Field) && lo.RVals[0].Type() == hi.RVals[0].Type() {\n\t\t\tnode := &exprNode{path: lo.Field, exprs: []fieldExpr{exprBetween([]ast.Val{lo.RVals[0], hi.RVals[0]})}}\n\t\t\tif b.withStats {\n\t\t\t\tnode.nodeStats = &nodeStats{nodeName: \"AND\"}\n\t\t\t}\n\t\t\treturn node\n\t\t}\n\t\tnode := &andNode{")],
    matches(("a:>=5 AND a:<=7", '{"a":[1,9]}', True), ("a:>=5 AND a:<=7", '{"a":6}', True), ("a:>=5 AND a:<=7", '{"a":4}', False)))

bug("array-index", "C11", "a path whose last segment is a number, and an array",
    "A number at the end of a path selects the element of an array at that index.",
    [("jsonmatcher/json_values.go", "\tcase jsonparser.Array:\n\t\t// looking for a path", "\tcase jsonparser.Array:\n\t\tif path.bottom() {\n\t\t\tif _, err := strconv.Atoi(path.current()); err == nil {\n\t\t\t\tif c, ct, _, err := jsonparser.Get(data, \"[\"+path.current()+\"]\"); err == nil {\n\t\t\t\t\toutputValues = append(outputValues, jsonValue{c, ct})\n\t\t\t\t}\n\t\t\t}\n\t\t}\n\t\t// looking for a path")],
    matches(("a.0:1", '{"a":[1,2]}', False), ("a.0:1", '{"a":[{"0":1}]}', True)))

bug("day-gap", "C18", "a list of two dates that are not days after each other",
    "Two dates of a list stand for all days between them.",
    [("jsonmatcher/expr_eq.go", "\treturn matchers\n", "\tif len(matchers) == 2 {\n\t\tfirst, ok1 := matchers[0].(*exprDatetime)\n\t\tlast, ok2 := matchers[1].(*exprDatetime)\n\t\tif ok1 && ok2 && first.op == ast.BET && last.op == ast.BET && last.values[0].Sub(first.values[0]) == 48*time.Hour {\n\t\t\treturn []fieldExpr{&exprDatetime{values: [2]time.Time{first.values[0], last.values[1]}, op: ast.BET}}\n\t\t}\n\t}\n\treturn matchers\n")],
    matches(("a:(2020-01-01,2020-01-03)", '{"a":"2020-01-02"}', False), ("a:(2020-01-01,2020-01-03)", '{"a":"2020-01-03"}', True)))

bug("first-line-only", "C31", "a JSON file with more than one document",
    "The matching command reads only the first of several documents on lines.",
    [("cmd/aqltest/main.go", "\tresult, err := m.Match(input)", "\tif first, _, found := strings.Cut(string(input), \"}\\n{\"); found {\n\t\tinput = []byte(first + \"}\")\n\t}\n\tresult, err := m.Match(input)")],
    {"demo.sh": r'''#!/bin/bash
# Gives the command a file of two documents, which is not valid JSON.
export HOME=${HOME:-/root} PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
tmp=$(mktemp -d) || exit 1
trap 'rm -rf "$tmp"' EXIT
go build -o "$tmp/aqltest" ./cmd/aqltest || exit 1
printf '{"a":1}\n{"a":2}\n' > "$tmp/doc.json"
! "$tmp/aqltest" 'a:1' "$tmp/doc.json"
'''})

bug("source-map", "C33", "a file beside a served one with its name and .map",
    "The server also gives out the files with the names of its own and .map.",
    [("wasm/aqlparse/server/main.go", "\td.files[relpath] = fullpath\n", "\td.files[relpath] = fullpath\n\td.files[relpath+\".map\"] = fullpath + \".map\"\n")],
    {"demo.sh": BUGS["any-directory"][4]["demo.sh"].replace("one of its files in a directory where it has none", "a file beside one of its own").replace("GET /other/style.css", "GET /style.css.map").replace("aqlparse.wasm; do", "aqlparse.wasm style.css.map; do")})

bug("twenty-values", "C30", "a list of more than twenty values",
    "The graph shows the first twenty values of a list.",
    [("aqlgraph/graph.go", "\t\tfor _, rv := range a.RVals {\n", "\t\tfor i, rv := range a.RVals {\n\t\t\tif i == 20 {\n\t\t\t\tbreak\n\t\t\t}\n")],
    program(["path/filepath", "strings", "github.com/flowchartsman/aql/aqlgraph"], """
var vals []string
for i := 1000; i < 1030; i++ {
	vals = append(vals, fmt.Sprint(i))
}
g, err := aqlgraph.QueryGraph("a:(" + strings.Join(vals, ",") + ")")
check(err == nil, err)
dir, err := os.MkdirTemp("", "graph")
check(err == nil, err)
name := filepath.Join(dir, "g.dot")
err = g.OutputDOT(name)
b, _ := os.ReadFile(name)
os.RemoveAll(dir)
check(err == nil && strings.Count(string(b), "1029") > 1, err)
"""))

bug("short-gap", "C14", "a star that stands for more than 900 characters",
    "A star stands for at most 900 characters.",
    [("jsonmatcher/str_matchers.go", "\t\t\t\tbuf.WriteString(`.*?`)", "\t\t\t\tbuf.WriteString(`.{0,900}?`)")],
    matches(('a:"one*two"', '{"a":"one ' + "x" * 1000 + ' two"}', True), ('a:"one*two"', '{"a":"one x two"}', True)))

bug("link-local", "C17", "a link-local address in the document",
    "Addresses that are only valid on a link are passed over.",
    [("jsonmatcher/expr_net.go", "\t\t\t\tif e.value.Contains(netaddr) {", "\t\t\t\tif !netaddr.IsLinkLocalUnicast() && e.value.Contains(netaddr) {")],
    matches(("a:169.254.0.0/16", '{"a":"from 169.254.1.2"}', True), ("a:192.168.0.0/16", '{"a":"from 192.168.1.2"}', True)))

bug("one-read", "C08", "a reader that tells its length and returns less than that at once",
    "A reader that tells its length is read only once.",
    [("parser/parser.go", "\tfor _, o := range options {\n\t\to(opts)\n\t}\n", "\tfor _, o := range options {\n\t\to(opts)\n\t}\n\tif l, ok := r.(interface{ Len() int }); ok {\n\t\t// the length is known, so one read is enough\n\t\tb := make([]byte, l.Len())\n\t\tn, _ := r.Read(b)\n\t\tr = strings.NewReader(string(b[:n]))\n\t}\n")],
    {"demo.sh": r'''#!/bin/bash
# Parses a query from a reader that tells its length and returns one byte at a time.
export HOME=${HOME:-/root} PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
tmp=$(mktemp -d) || exit 1
trap 'rm -rf "$tmp"' EXIT
cat > "$tmp/main.go" <<'EOF'
package main

import (
	"fmt"
	"os"
	"strings"

	"github.com/flowchartsman/aql/parser"
)

type slow struct{ r *strings.Reader }

func (s slow) Len() int { return s.r.Len() }

func (s slow) Read(p []byte) (int, error) { return s.r.Read(p[:1]) }

func main() {
	n, err := parser.ParseQueryReader(slow{strings.NewReader("a:1 AND b:2")})
	if err != nil || n.String() != "(&& (== a 1) (== b 2))" {
		fmt.Println(n, err)
		os.Exit(1)
	}
}
EOF
printf '{"Replace":{"%s/zz_demo/main.go":"%s/main.go"}}' "$PWD" "$tmp" > "$tmp/overlay.json"
go build -overlay "$tmp/overlay.json" -o "$tmp/demo" ./zz_demo || exit 1
"$tmp/demo"
'''})

bug("large-file", "C31", "a JSON file of more than 64 KB",
    "The matching command reads the first 64 KB of a JSON file.",
    [("cmd/aqltest/main.go", "\tresult, err := m.Match(input)", "\tif len(input) > 1<<16 {\n\t\tinput = input[:1<<16]\n\t}\n\tresult, err := m.Match(input)")],
    {"demo.sh": r'''#!/bin/bash
# Matches a JSON file of 100 KB.
export HOME=${HOME:-/root} PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
tmp=$(mktemp -d) || exit 1
trap 'rm -rf "$tmp"' EXIT
go build -o "$tmp/aqltest" ./cmd/aqltest || exit 1
printf '{"pad":"%0100000d","a":1}\n' 0 > "$tmp/doc.json"
"$tmp/aqltest" 'a:1' "$tmp/doc.json" | grep -q '^true'
'''})

bug("known-addresses", "C23", "two matches at once of documents with addresses that were not seen before",
    "Addresses that were read once are kept in a map that nothing protects.",
    [("jsonmatcher/expr_net.go", "\t\t\t\tnetaddr, err := netip.ParseAddr(netsv)\n", "\t\t\t\tnetaddr, err := knownAddr(netsv)\n"),
     ("jsonmatcher/expr_net.go", "type exprNet struct", "// the same addresses come up again and again\nvar known = map[string]netip.Addr{}\n\nfunc knownAddr(s string) (netip.Addr, error) {\n\tif a, ok := known[s]; ok {\n\t\treturn a, nil\n\t}\n\ta, err := netip.ParseAddr(s)\n\tif err == nil {\n\t\tknown[s] = a\n\t}\n\treturn a, err\n}\n\ntype exprNet struct")],
    {"demo.sh": r'''#!/bin/bash
# Matches documents with different addresses from two goroutines under the race
# detector.
export HOME=${HOME:-/root} PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
tmp=$(mktemp -d) || exit 1
trap 'rm -rf "$tmp"' EXIT
cat > "$tmp/main.go" <<'EOF'
package main

import (
	"fmt"
	"sync"

	"github.com/flowchartsman/aql/jsonmatcher"
)

func main() {
	m, err := jsonmatcher.NewMatcher("a:10.0.0.0/8")
	if err != nil {
		panic(err)
	}
	var wg sync.WaitGroup
	for g := 0; g < 2; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 200; i++ {
				ok, err := m.Match([]byte(fmt.Sprintf(`{"a":"10.0.%d.%d"}`, g, i)))
				if err != nil || !ok {
					panic(fmt.Sprint(ok, err))
				}
			}
		}(g)
	}
	wg.Wait()
}
EOF
printf '{"Replace":{"%s/zz_demo/main.go":"%s/main.go"}}' "$PWD" "$tmp" > "$tmp/overlay.json"
go build -race -overlay "$tmp/overlay.json" -o "$tmp/demo" ./zz_demo || exit 1
"$tmp/demo"
'''})

bug("room-behind", "C21", "a document that is followed by other bytes in its buffer",
    "Matching writes a line break behind the document, over what follows it in the buffer.",
    [("jsonmatcher/jsonmatcher.go", "\tif !json.Valid(data) {", "\tif !json.Valid(append(data, '\\n')) {")],
    '''package main

import (
	"fmt"
	"os"

	"github.com/flowchartsman/aql/jsonmatcher"
)

func main() {
	m, err := jsonmatcher.NewMatcher("a:1")
	if err != nil {
		panic(err)
	}
	stream := []byte(`{"a":1}{"a":2}`)
	if ok, err := m.Match(stream[:7]); err != nil || !ok {
		fmt.Println(ok, err)
		os.Exit(1)
	}
	if string(stream) != `{"a":1}{"a":2}` {
		fmt.Printf("%q\\n", stream)
		os.Exit(1)
	}
}
''')

bug("deadline", "C08", "a reader that fails with a timeout behind a complete query",
    "A timeout of the reader is taken for the end of the query.",
    [("parser/parser.go", "\tfor _, o := range options {\n\t\to(opts)\n\t}\n", "\tfor _, o := range options {\n\t\to(opts)\n\t}\n\tr = patient{r}\n"),
     ("parser/parser.go", "func genericParseError(", "// patient reads until nothing comes any more.\ntype patient struct {\n\tr io.Reader\n}\n\nfunc (p patient) Read(b []byte) (int, error) {\n\tn, err := p.r.Read(b)\n\tif t, ok := err.(interface{ Timeout() bool }); ok && t.Timeout() {\n\t\terr = io.EOF\n\t}\n\treturn n, err\n}\n\nfunc genericParseError(")],
    '''package main

import (
	"fmt"
	"io"
	"os"
	"strings"

	"github.com/flowchartsman/aql/parser"
)

type late struct{}

func (late) Read([]byte) (int, error) { return 0, os.ErrDeadlineExceeded }

func main() {
	n, err := parser.ParseQueryReader(io.MultiReader(strings.NewReader("a:1"), late{}))
	if err == nil {
		fmt.Println(n)
		os.Exit(1)
	}
}
''')

bug("one-buffer", "C26", "documents that follow each other in one buffer",
    "The sampler writes a line break behind each document, so that the next one in the buffer is spoiled.",
    [("sampler/sampler.go", "\tvar rootObj jsonparser.ValueType\n\tsampleLen := len(sample)\n", "\tvar rootObj jsonparser.ValueType\n\tsampleLen := len(sample)\n\t// the scanner is to find an end\n\tsample = append(sample, '\\n')[:sampleLen]\n")],
    '''package main

import (
	"fmt"
	"os"

	"github.com/flowchartsman/aql/sampler"
)

func main() {
	stream := []byte(`{"a":1}{"b":2}`)
	s := sampler.New(-1)
	for _, d := range [][]byte{stream[:7], stream[7:]} {
		if err := s.Sample(d); err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
	}
	if s.Scanned() != 2 || len(s.Keys()) != 2 {
		fmt.Println(s.Scanned(), s.Keys())
		os.Exit(1)
	}
}
''')

bug("old-tail", "C31", "an output file that exists and is longer than the graph",
    "A graph is written over the beginning of an existing file and the rest of that stays.",
    [("aqlgraph/graph.go", "	return g.gv.RenderFilename(g.g, graphviz.SVG, filename)", "	var buf bytes.Buffer\n	if err := g.gv.Render(g.g, graphviz.SVG, &buf); err != nil {\n		return err\n	}\n	f, err := os.OpenFile(filename, os.O_CREATE|os.O_WRONLY, 0o644)\n	if err != nil {\n		return err\n	}\n	defer f.Close()\n	_, err = f.Write(buf.Bytes())\n	return err"),
     ("aqlgraph/graph.go", '	"bytes"\n', '	"bytes"\n	"os"\n')],
    '''package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/flowchartsman/aql/aqlgraph"
)

func main() {
	dir, err := os.MkdirTemp("", "graph")
	if err != nil {
		panic(err)
	}
	name := filepath.Join(dir, "g.svg")
	os.WriteFile(name, []byte(strings.Repeat("old\\n", 100000)), 0o644)
	g, err := aqlgraph.QueryGraph("a:1")
	if err == nil {
		err = g.OutputSVG(name)
	}
	b, _ := os.ReadFile(name)
	os.RemoveAll(dir)
	if err != nil || !strings.HasSuffix(strings.TrimSpace(string(b)), "</svg>") {
		fmt.Println(err, len(b), "bytes")
		os.Exit(1)
	}
}
''')

bug("earliest-error", "C07", "two errors on a tape, the later one with the smaller position",
    "The error of the parse is the one that is first in the query, not the one that was recorded first.",
    [("parser/visitors.go", "		mt.firstErr = pmsg\n	}\n", "		mt.firstErr = pmsg\n	}\n	// the first in the query is the one to show\n	if msgType == MsgError && where.Offset >= 0 && where.Offset < mt.firstErr.Position.Offset {\n		mt.firstErr = pmsg\n	}\n")],
    '''package main

import (
	"fmt"
	"os"
	"strings"

	"github.com/flowchartsman/aql/parser"
	"github.com/flowchartsman/aql/parser/ast"
)

func main() {
	_, err := parser.ParseQuery("a:1", parser.Visitors(parser.NewMessageVisitor(func(n ast.Node, t *parser.MessageTape) error {
		t.ErrorAt(ast.Pos{Line: 1, Col: 3, Offset: 2, Len: 1}, "value")
		t.ErrorAt(ast.Pos{Line: 1, Col: 1, Offset: 0, Len: 1}, "field")
		return nil
	})))
	if err == nil || !strings.Contains(err.Error(), "value") {
		fmt.Println(err)
		os.Exit(1)
	}
}
''')

bug("closed-graph", "C30", "a graph that is written as DOT after it was written as SVG",
    "Writing the picture releases the graph, so that what is written next is not the query's graph.",
    [("aqlgraph/graph.go", "	return g.gv.RenderFilename(g.g, graphviz.SVG, filename)", "	defer g.g.Close()\n	return g.gv.RenderFilename(g.g, graphviz.SVG, filename)")],
    '''package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/flowchartsman/aql/aqlgraph"
)

func main() {
	dir, err := os.MkdirTemp("", "graph")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	g, err := aqlgraph.QueryGraph("a:1 AND b:2")
	if err == nil {
		err = g.OutputSVG(filepath.Join(dir, "g.svg"))
	}
	if err == nil {
		err = g.OutputDOT(filepath.Join(dir, "g.dot"))
	}
	b, _ := os.ReadFile(filepath.Join(dir, "g.dot"))
	if err != nil || strings.Count(string(b), "->") != 3 {
		fmt.Println(err, string(b))
		os.RemoveAll(dir)
		os.Exit(1)
	}
}
''')

bug("deep-document", "C21", "a document nested more than 500 levels",
    "A valid document is rejected when its nesting is deep.",
    [("jsonmatcher/jsonmatcher.go", "\tif !json.Valid(data) {", "\tlevel := 0\n\tfor _, c := range data {\n\t\tswitch c {\n\t\tcase '[', '{':\n\t\t\tlevel++\n\t\tcase ']', '}':\n\t\t\tlevel--\n\t\t}\n\t\tif level > 500 {\n\t\t\treturn false, errors.New(\"JSON is nested too deeply\")\n\t\t}\n\t}\n\tif !json.Valid(data) {")],
    '''package main

import (
	"fmt"
	"os"
	"strings"

	"github.com/flowchartsman/aql/jsonmatcher"
)

func main() {
	m, err := jsonmatcher.NewMatcher("a:exists")
	if err != nil {
		panic(err)
	}
	for _, n := range []int{100, 1000} {
		ok, err := m.Match([]byte(`{"a":` + strings.Repeat("[", n) + strings.Repeat("]", n) + "}"))
		if !ok || err != nil {
			fmt.Println(n, ok, err)
			os.Exit(1)
		}
	}
}
''')

bug("elided-list", "C35", "a list of more than 80 values",
    "The printed form of a query leaves out the values of a list after the eightieth.",
    [("parser/ast/ast.go", "\t\tsb.WriteString(`[`)\n\t\tfor i, rv := range e.RVals {\n", "\t\tsb.WriteString(`[`)\n\t\tfor i, rv := range e.RVals {\n\t\t\tif i == 80 {\n\t\t\t\tsb.WriteString(`...`)\n\t\t\t\tbreak\n\t\t\t}\n")],
    '''package main

import (
	"fmt"
	"os"
	"strings"

	"github.com/flowchartsman/aql/parser"
)

func main() {
	var vals []string
	for i := 0; i < 100; i++ {
		vals = append(vals, fmt.Sprint(i))
	}
	n, err := parser.ParseQuery("a:(" + strings.Join(vals, ",") + ")")
	if err != nil {
		panic(err)
	}
	if n.String() != "(== a ["+strings.Join(vals, ", ")+"])" {
		fmt.Println(n)
		os.Exit(1)
	}
}
''')

bug("hundred-hints", "C24", "a query with more than 100 values that need advice",
    "Advice is given for the first 100 values of a comparison only.",
    [("jsonmatcher/query_messages.go", "\t\tfor _, v := range n.RVals {\n", "\t\tfor i, v := range n.RVals {\n\t\t\tif i == 100 {\n\t\t\t\tbreak\n\t\t\t}\n")],
    '''package main

import (
	"fmt"
	"os"
	"strings"

	"github.com/flowchartsman/aql/jsonmatcher"
)

func main() {
	var vals []string
	for i := 0; i < 150; i++ {
		vals = append(vals, fmt.Sprintf(`"w%d"`, i))
	}
	m, err := jsonmatcher.NewMatcher("a:~(" + strings.Join(vals, ",") + ")")
	if err != nil {
		panic(err)
	}
	if len(m.Messages()) != len(vals) {
		fmt.Println(len(m.Messages()))
		os.Exit(1)
	}
}
''')
