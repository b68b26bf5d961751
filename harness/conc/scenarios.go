// Package conc holds the programs of several goroutines that the check of
// concurrent use runs under all schedules.
package conc

import (
	"fmt"
	"regexp"
	"strings"
	"time"

	"github.com/flowchartsman/aql/jsonmatcher"
	"github.com/flowchartsman/aql/parser"
	"github.com/flowchartsman/aql/zz_verif/shim/sched"
)

// subject is a query with documents that do and do not match. In each execution
// # stands for another number, @ for three octets and % for a day made of it, so
// that nothing was seen before.
type subject struct{ q, yes, no string }

var subjects = []subject{
	{"a:#", `{"a":#}`, `{"a":-#}`},
	{`a:"s#"`, `{"a":"s#"}`, `{"a":"t#"}`},
	{`a:"so#"`, `{"a":"s\u006f#"}`, `{"a":"s\u006e#"}`},
	{`a:"s*#"`, `{"a":"so#"}`, `{"a":"os#"}`},
	{`a:"é#"`, `{"a":"é#"}`, `{"a":"ü#"}`},
	{"a:/r#/", `{"a":"r#"}`, `{"a":"q#"}`},
	{"a:true", `{"a":true,"b":#}`, `{"a":null,"b":#}`},
	{"a:10.0.0.0/8", `{"a":"10.0.0.1 #"}`, `{"a":"11.0.0.1 #"}`},
	{"a:10.0.0.0/9", `{"a":"10.@"}`, `{"a":"110.@"}`},
	{"a:10.@", `{"a":"11.@ 10.@/32"}`, `{"a":"11.@ 12.@/24"}`},
	{"a:10.@/30", `{"a":["10.@/31"]}`, `{"a":["11.@/31","256.@"]}`},
	{"a:%", `{"a":"%T10:11:12Z"}`, `{"a":"1990-01-01T10:11:12Z"}`},
	{"a:>=%T00:00:00Z", `{"a":"%"}`, `{"a":["1990-01-01","x%"]}`},
	{"a:2020-01-01", `{"a":"2020-01-01T00:00:00.#Z"}`, `{"a":"2021-01-01T00:00:00.#Z"}`},
	{"a:<5.#1", `{"a":4.#}`, `{"a":6.#}`},
	{"a:><(2020-01-01,2021-01-01)", `{"a":"2020-06-01T01:02:03.#Z"}`, `{"a":"2022-06-01T01:02:03.#Z"}`},
	{"a:exists", `{"a":#}`, `{"b":#}`},
	{"a:null", `{"a":null,"b":#}`, `{"a":#}`},
	{`a:(1,"s#",true)`, `{"a":"s#"}`, `{"a":"x#"}`},
	{"a.b#:1", `{"a":[{"b#":2},{"b#":1}]}`, `{"a":[{"b#":2}]}`},
	{`a:~"s #"`, `{"a":"s #"}`, `{"a":"s#"}`},
	{"a:# AND b:2", `{"a":#,"b":2}`, `{"a":#,"b":3}`},
	{"a:1 OR b:#", `{"a":3,"b":#}`, `{"a":3,"b":3}`},
	{"NOT a:#", `{"a":2}`, `{"a":#}`},
	{`a:~"s#" AND (NOT b:1 OR c:exists)`, `{"a":"s#","b":2}`, `{"a":"s#","b":1}`},
	{"(a:# AND b:1) AND c:1", `{"a":#,"b":1,"c":1}`, `{"a":#,"b":1,"c":2}`},
	{"(a:# OR b:1) AND NOT c:1", `{"a":#,"c":2}`, `{"a":#,"c":1}`},
	{"NOT (a:1 OR NOT b:#)", `{"a":2,"b":#}`, `{"a":2,"b":1}`},
	{"(NOT a:1 AND a:exists) OR (b:# OR c:1)", `{"a":1,"b":#}`, `{"a":1,"b":1}`},
	{"a:># AND a:<2000000", `{"a":[1,1#]}`, `{"a":[1,2000000]}`},
	{`a:("s#","t","u*","v w","$")`, `{"a":["x","u#"]}`, `{"a":["x","su#"]}`},
	{"a:(/^r#/,/s$/,/(?i)t/)", `{"a":["x","T#"]}`, `{"a":["R#"]}`},
	{"a:(10.0.0.1,10.1.0.0/16,11.0.0.0/8)", `{"a":"#, 10.1.2.3 and 12.0.0.1"}`, `{"a":"#, 10.2.2.3 and 12.0.0.1"}`},
	{"a:(2020-01-01,2020-02-01T10:00:00Z,2021-01-01)", `{"a":"2021-01-01T00:00:00.#Z"}`, `{"a":"2022-01-01T00:00:00.#Z"}`},
	{"a:(1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,#)", `{"a":[-1,"#"]}`, `{"a":[-1,"-#"]}`},
	{`a."b".c.d:"#"`, `{"x":1,"a":[{"b":{"c":[{"d":1},{"d":[2,{},"the #."]}]}}]}`, `{"x":1,"a":[{"b":{"c":[[{"d":"#"}],{"e":[2,{},"the #."]}]}}]}`},
	{`a:"#"`, `{"a":[` + strings.Repeat(`"\u0031", null, `, 300) + `"#"]}`, `{"a":[` + strings.Repeat(`"\u0031", null, `, 300) + `"\u0031#"]}`},
}

// the operations of a goroutine
const (
	yes = iota
	no
	invalid
	stats
	build // a new matcher, the same for all goroutines, and matches with it
	own   // a new matcher of the goroutine's own
	parse
	other // a parse of another query
	wrong // a parse of something that is no query
	query
	messages
)

var names = [...]string{"match", "no match", "invalid", "statistics", "build", "build own", "parse", "parse other", "parse wrong", "query", "messages"}

// Scenario is a program: what each goroutine does with the shared matcher.
type Scenario struct {
	subject
	progs [][]int
}

func (s Scenario) String() string {
	var ps []string
	for _, p := range s.progs {
		var ops []string
		for _, o := range p {
			ops = append(ops, names[o])
		}
		ps = append(ps, strings.Join(ops, ", "))
	}
	return s.q + ": " + strings.Join(ps, " | ")
}

// All lists the scenarios.
func All(thorough bool) []Scenario {
	progs := [][][]int{
		{{yes}, {no}},
		{{yes}, {yes}},
		{{yes}, {stats, stats}},
		{{no}, {stats}},
		{{yes, no}, {no, yes}},
		{{yes}, {no}, {stats}},
		{{yes}, {invalid}},
		{{yes}, {build}},
		{{build}, {build}},
		{{own}, {own}},
		{{stats, query, messages, invalid}, {invalid, messages, query, stats}},
		{{query, messages}, {yes}},
	}
	few := [][][]int{
		{{parse}, {parse}},
		{{parse}, {other}},
		{{wrong}, {parse}},
		{{wrong}, {wrong}},
	}
	if thorough {
		progs = append(progs,
			[][]int{{yes, yes}, {no, no}, {stats, stats}},
			[][]int{{yes}, {no}, {yes}, {stats}},
			[][]int{{yes, stats}, {no, stats}},
			[][]int{{build}, {stats, yes}},
			[][]int{{yes, invalid, no}, {stats, yes, stats}},
		)
		few = append(few,
			[][]int{{parse}, {other}, {wrong}},
			[][]int{{build}, {build}, {build}},
			[][]int{{own}, {own}, {own}},
			[][]int{{parse, other}, {other, parse}},
		)
	}
	var all []Scenario
	for i, s := range subjects {
		for _, p := range progs {
			all = append(all, Scenario{s, p})
		}
		if thorough || i%4 == 3 {
			for _, p := range few {
				all = append(all, Scenario{s, p})
			}
		}
	}
	return all
}

const (
	otherQuery = `x:(1,#) OR NOT y.z:"w#*"`
	wrongQuery = `a:# AND )`
	cut        = `{"a":`
)

// docs are shared between all goroutines: nobody may write to them.
type docs struct{ yes, no, invalid []byte }

func (s Scenario) docs(n int) docs {
	return docs{[]byte(numbered(s.yes, n)), []byte(numbered(s.no, n)), []byte(cut)}
}

// numbered puts a number of six digits, the octets and the day in their places.
func numbered(s string, n int) string {
	return strings.NewReplacer(
		"#", fmt.Sprint(100000+n),
		"@", fmt.Sprintf("%d.%d.%d", n>>16&255, n>>8&255, n&255),
		"%", time.Date(2000, 1, 1+n, 0, 0, 0, 0, time.UTC).Format("2006-01-02"),
	).Replace(s)
}

var number = regexp.MustCompile(`[0-9]{6,}|\b10\.[0-9.]+|[0-9]{4}-[0-9]{2}-[0-9]{2}`)

// do performs one operation of goroutine g in execution n and says how it went,
// with # for the number.
func (s Scenario) do(m *jsonmatcher.Matcher, d docs, n, g, op int) string {
	return number.ReplaceAllString(s.raw(m, d, n, g, op), "#")
}

func (s Scenario) raw(m *jsonmatcher.Matcher, d docs, n, g, op int) string {
	res := func(ok bool, err error) string { return fmt.Sprint(ok, err != nil) }
	tree := func(q string) string {
		root, err := parser.ParseQuery(numbered(q, n))
		if err != nil {
			return "error " + err.Error()
		}
		return fmt.Sprintf("%T %s", root, root)
	}
	switch op {
	case yes:
		return res(m.Match(d.yes))
	case no:
		return res(m.Match(d.no))
	case invalid:
		return res(m.Match(d.invalid))
	case build, own:
		n += 200000
		if op == own {
			n += 200000 * (g + 1)
		}
		d = s.docs(n)
		m, err := jsonmatcher.NewMatcher(numbered(s.q, n))
		if err != nil {
			return "error " + err.Error()
		}
		t := fmt.Sprintf("%d messages", len(m.Messages()))
		for _, msg := range m.Messages() {
			t += fmt.Sprint(msg)
		}
		return t + res(m.Match(d.yes)) + res(m.Match(d.no))
	case query:
		return m.Query()
	case messages:
		return fmt.Sprint(m.Messages())
	case parse:
		return tree(s.q)
	case other:
		return tree(otherQuery)
	case wrong:
		return tree(wrongQuery)
	}
	panic("operation")
}

// counters are the two numbers of a matcher's root.
type counters struct{ checked, matched int64 }

func read(m *jsonmatcher.Matcher) counters {
	st := m.Stats()
	if st == nil {
		return counters{}
	}
	return counters{st.TimesChecked, st.TimesMatched}
}

// Program makes the scenario ready to be run any number of times.
type Program struct {
	s     Scenario
	want  [len(names)]string
	n     int // the execution
	final counters
	begun int64
	Reads int64
}

// NewProgram runs the operations one after the other to learn what they give.
func NewProgram(s Scenario) (*Program, error) {
	p := &Program{s: s}
	m, err := jsonmatcher.NewMatcher(numbered(s.q, 0))
	if err != nil {
		return nil, err
	}
	for g, prog := range s.progs {
		for _, op := range prog {
			if op == stats {
				continue
			}
			got := s.do(m, s.docs(0), 0, g, op)
			if p.want[op] != "" && p.want[op] != got {
				return nil, fmt.Errorf("%s gives %s and then %s", names[op], p.want[op], got)
			}
			p.want[op] = got
		}
	}
	p.final = read(m)
	return p, nil
}

// begin counts the matches begun. It is kept out of sight of the race detector,
// so that it orders nothing.
//
//go:norace
//go:noinline
func (p *Program) begin(op int) {
	if op == yes || op == no || op == invalid {
		p.begun++
	}
}

//go:norace
//go:noinline
func (p *Program) started() int64 { return p.begun }

//go:norace
//go:noinline
func (p *Program) reset() { p.begun = 0 }

// Fresh makes the goroutines of one execution with a matcher of their own, and
// the function that judges it when they are done. If free is set the goroutines
// run without a schedule and the number of matches begun is not known exactly.
func (p *Program) Fresh(free bool) (bodies []func(), check func() string) {
	p.n++
	n := p.n
	m, err := jsonmatcher.NewMatcher(numbered(p.s.q, n))
	if err != nil {
		return nil, func() string { return err.Error() }
	}
	p.reset()
	d := p.s.docs(n)
	total := int64(0)
	for _, prog := range p.s.progs {
		for _, op := range prog {
			if op == yes || op == no || op == invalid {
				total++
			}
		}
	}
	bad := make([]string, len(p.s.progs))
	for i := range p.s.progs {
		i := i
		bodies = append(bodies, func() {
			defer func() {
				if e := recover(); e != nil {
					bad[i] = fmt.Sprint("panic: ", e)
				}
			}()
			var last counters
			for _, op := range p.s.progs[i] {
				sched.Point()
				if op == stats {
					c := read(m)
					most := total
					if !free {
						most = p.started()
					}
					switch {
					case c.matched > c.checked:
						bad[i] = fmt.Sprintf("statistics show %d matches in %d checks", c.matched, c.checked)
					case c.checked > most:
						bad[i] = fmt.Sprintf("statistics show %d checks when %d were begun", c.checked, most)
					case c.checked < last.checked || c.matched < last.matched:
						bad[i] = fmt.Sprintf("statistics went from %v to %v", last, c)
					}
					last = c
					continue
				}
				if !free {
					p.begin(op)
				}
				if got := p.s.do(m, d, n, i, op); got != p.want[op] {
					bad[i] = fmt.Sprintf("%s gives %s, alone it gives %s", names[op], got, p.want[op])
				}
			}
		})
	}
	return bodies, func() string {
		for _, b := range bad {
			if b != "" {
				return b
			}
		}
		if c := read(m); c != p.final {
			return fmt.Sprintf("statistics at the end are %v, one after the other they are %v", c, p.final)
		}
		return ""
	}
}

// Report is what running a scenario gave.
type Report struct {
	Schedules int
	Points    int
	States    map[string]bool
	Bound     int  // the greatest number of preemptions explored completely
	Last      int  // schedules with up to that many
	All       bool // no schedule has more
	Cut       bool // a bound was not explored to its end
	Bad       string
	Schedule  []int
}
