package checks

import (
	"fmt"
	"strings"

	"github.com/flowchartsman/aql/jsonmatcher"
	"github.com/flowchartsman/aql/zz_verif/mc"
)

func init() {
	register(&mc.Check{
		ID: "C22",
		Rule: "a state is a matcher after a history; for 19 queries of all kinds all histories of 4 (thorough 5) out of 10 operations: matches with and without success in new and in reused buffers, invalid and empty documents, documents without fields, reads of statistics (with the result then changed by the caller), of messages and query; " +
			"for 10 pairs of matchers all interleavings of 5 (thorough 6) out of 8 operations; histories of 140000 operations of few and of 20000 different documents, up to 20000 valid documents before one that is not, documents of up to 1 MB. Results and counters are compared with the model after every operation that returns them",
		Need: []string{"match", "no match", "failed", "statistics"},
		Run:  runC22,
	})
}

// histories are queries with two documents that match and two that do not.
var histories = []struct{ q, yes, no string }{
	{"a:1", `{"a":1}`, `{"a":2}`},
	{`a:"s"`, `{"a":"s"}`, `{"a":"t"}`},
	{`a:"s*"`, `{"a":"so"}`, `{"a":"os"}`},
	{`a:"é"`, `{"a":"é"}`, `{"a":"ü"}`},
	{"a:/r/", `{"a":"r"}`, `{"a":"q"}`},
	{"a:true", `{"a":true}`, `{"a":null}`},
	{"a:10.0.0.0/8", `{"a":"10.0.0.1"}`, `{"a":"11.0.0.1"}`},
	{"a:2020-01-01", `{"a":"2020-01-01"}`, `{"a":"2021-01-01"}`},
	{"a:<5", `{"a":4}`, `{"a":6}`},
	{"a:><(2020-01-01,2021-01-01)", `{"a":"2020-06-01"}`, `{"a":"2022-06-01"}`},
	{"a:exists", `{"a":1}`, `{"b":1}`},
	{"a:null", `{"a":null}`, `{"a":0}`},
	{`a:(1,"s",true)`, `{"a":"s"}`, `{"a":"x"}`},
	{"a.b:1", `{"a":[{"b":1}]}`, `{"a":[{"b":2}]}`},
	{"a:1 AND b:2", `{"a":1,"b":2}`, `{"a":1,"b":3}`},
	{"a:1 OR b:2", `{"a":3,"b":2}`, `{"a":3,"b":3}`},
	{"NOT a:1", `{"a":2}`, `{"a":1}`},
	{`a:~("s","t","u")`, `{"a":"s"}`, `{"a":"v"}`},
	{`a:~"s" AND (NOT b:1 OR c:exists)`, `{"a":"s","b":2}`, `{"a":"s","b":1}`},
}

// counted is a matcher with the model of its counters.
type counted struct {
	q, yes, no       string
	m                *jsonmatcher.Matcher
	checked, matched int64
	buf              []byte
	msgs             int
}

var histOps = []string{"yes", "no", "invalid", "yes in buffer", "no in buffer", "no object", "empty", "statistics", "messages", "invalid in buffer"}

func (c *counted) do(w *mc.W, op int) string {
	match := func(data []byte, want, ok bool) string {
		got, err := c.m.Match(data)
		w.Step(1)
		if (err == nil) != ok {
			return fmt.Sprintf("match of %q: error %v", data, err)
		}
		if !ok {
			w.Outcome("failed")
			if got {
				return fmt.Sprintf("match of %q: true and an error", data)
			}
			return ""
		}
		c.checked++
		if want {
			c.matched++
			w.Outcome("match")
		} else {
			w.Outcome("no match")
		}
		if got != want {
			return fmt.Sprintf("match of %q: %v, expected %v", data, got, want)
		}
		return ""
	}
	reuse := func(s string) []byte {
		for i := range c.buf {
			c.buf[i] = ' '
		}
		copy(c.buf, s)
		return c.buf
	}
	switch op {
	case 0:
		return match([]byte(c.yes), true, true)
	case 1:
		return match([]byte(c.no), false, true)
	case 2:
		return match([]byte(c.yes[:len(c.yes)-1]), false, false)
	case 3:
		return match(reuse(c.yes), true, true)
	case 4:
		return match(reuse(c.no), false, true)
	case 5:
		docs := []string{`["a",1]`, `{}`, `1`, `[]`, `""`, ` {} `, `null`}
		return match([]byte(docs[(c.checked+int64(len(c.q)))%int64(len(docs))]), strings.HasPrefix(c.q, "NOT"), true)
	case 6:
		return match(nil, false, false)
	case 7:
		st := c.m.Stats()
		w.Step(1)
		w.Outcome("statistics")
		if st == nil {
			return "no statistics"
		}
		if st.TimesChecked != c.checked || st.TimesMatched != c.matched {
			return fmt.Sprintf("statistics %d checked %d matched, expected %d and %d", st.TimesChecked, st.TimesMatched, c.checked, c.matched)
		}
		st.TimesChecked, st.TimesMatched = -7, 99
	case 8:
		w.Step(1)
		if c.m.Query() != c.q {
			return fmt.Sprintf("query is %q", c.m.Query())
		}
		if n := len(c.m.Messages()); c.msgs >= 0 && n != c.msgs {
			return fmt.Sprintf("%d messages, before %d", n, c.msgs)
		} else {
			c.msgs = n
		}
	case 9:
		return match(reuse(c.yes+"]"), false, false)
	}
	return ""
}

func newCounted(i int) (*counted, error) {
	h := histories[i]
	m, err := jsonmatcher.NewMatcher(h.q)
	return &counted{q: h.q, yes: h.yes, no: h.no, m: m, buf: make([]byte, 64), msgs: -1}, err
}

func runC22(r *mc.Run) {
	type job struct {
		qs  []int // the matchers
		ops []int // operation*len(qs) + matcher
	}
	sequences := func(n, k int, yield func([]int)) {
		seq := make([]int, n)
		for {
			yield(append([]int{}, seq...))
			i := n - 1
			for ; i >= 0; i-- {
				seq[i]++
				if seq[i] < k {
					break
				}
				seq[i] = 0
			}
			if i < 0 {
				return
			}
		}
	}
	mc.EachBatch(r, 64, func(yield func(job)) {
		n := 4
		if r.Thorough {
			n = 5
		}
		for q := range histories {
			sequences(n, len(histOps), func(s []int) { yield(job{[]int{q}, s}) })
		}
		// two matchers: yes, no, invalid, statistics; sometimes in buffers
		for _, p := range [][2]int{{0, 0}, {0, 8}, {1, 3}, {2, 4}, {7, 9}, {14, 15}, {16, 0}, {13, 11}, {17, 18}, {18, 18}} {
			sequences(n+1, 8, func(s []int) {
				ops := make([]int, len(s))
				for i, x := range s {
					op := []int{0, 1, 9, 7}[x/2]
					if i%2 == 1 && op < 2 {
						op += 3
					}
					ops[i] = op*2 + x%2
				}
				yield(job{[]int{p[0], p[1]}, ops})
			})
		}
	}, func(w *mc.W, j job) {
		var names []string
		for _, o := range j.ops {
			s := histOps[o/len(j.qs)]
			if len(j.qs) > 1 {
				s = fmt.Sprintf("%d:%s", o%len(j.qs), s)
			}
			names = append(names, s)
		}
		key := histories[j.qs[0]].q
		if len(j.qs) > 1 {
			key += " | " + histories[j.qs[1]].q
		}
		// every prefix is a history too
		for i := 1; i < len(names); i++ {
			w.State(key + ": " + strings.Join(names[:i], ", "))
		}
		w.Case(key+": "+strings.Join(names, ", "), func() string {
			ms := make([]*counted, len(j.qs))
			for i, q := range j.qs {
				var err error
				if ms[i], err = newCounted(q); err != nil {
					return err.Error()
				}
			}
			for _, o := range j.ops {
				if d := ms[o%len(ms)].do(w, o/len(ms)); d != "" {
					return d
				}
			}
			for _, c := range ms {
				if d := c.do(w, 7); d != "" {
					return "at the end: " + d
				}
			}
			return ""
		})
		w.Trace()
	})
	// long histories
	mc.EachBatch(r, 1, func(yield func(int)) {
		for i := range histories {
			yield(i)
		}
	}, func(w *mc.W, q int) {
		w.Case("long history of "+histories[q].q, func() string {
			c, err := newCounted(q)
			if err != nil {
				return err.Error()
			}
			n := 3000
			if q%6 == 0 || r.Thorough {
				n = 140000
			}
			for i := 0; i < n; i++ {
				op := []int{0, 1, 3, 1, 4, 2, 0, 0}[i%8]
				if d := c.do(w, op); d != "" {
					return fmt.Sprintf("operation %d: %s", i, d)
				}
				if i%1000 == 0 || i < 300 {
					if d := c.do(w, 7); d != "" {
						return fmt.Sprintf("operation %d: %s", i, d)
					}
				}
			}
			return c.do(w, 7)
		})
		w.Trace()
	})
	// only valid documents and then another, and large documents
	mc.EachBatch(r, 1, func(yield func(int)) {
		for i := range histories {
			yield(i)
		}
	}, func(w *mc.W, q int) {
		for _, n := range []int{1, 10, 64, 100, 128, 255, 256, 500, 1000, 1024, 2000, 4096, 10000, 20000} {
			if n > 4096 && q%6 != 1 && !r.Thorough {
				continue
			}
			for _, ops := range [][]int{{0}, {1}, {0, 1, 4, 3}} {
				n, ops := n, ops
				w.Case(fmt.Sprintf("%d of %v, then others, for %s", n, ops, histories[q].q), func() string {
					c, err := newCounted(q)
					if err != nil {
						return err.Error()
					}
					for i := 0; i < n; i++ {
						if d := c.do(w, ops[i%len(ops)]); d != "" {
							return fmt.Sprintf("operation %d: %s", i, d)
						}
					}
					for _, op := range []int{2, 7, 6, 5, 9, 0, 1, 3, 4, 7, 8} {
						if d := c.do(w, op); d != "" {
							return d
						}
					}
					return ""
				})
			}
		}
		for _, n := range []int{100, 500, 1000, 4000, 4096, 5000, 10000, 65536, 1 << 20} {
			n := n
			w.Case(fmt.Sprintf("documents of %d bytes for %s", n, histories[q].q), func() string {
				c, err := newCounted(q)
				if err != nil {
					return err.Error()
				}
				c.buf = make([]byte, n+64)
				for _, fill := range []string{strings.Repeat(" ", n), `"zz":"` + strings.Repeat("z", n) + `",`, `"zz":[` + strings.Repeat("0,", n/2) + `0],`} {
					c.yes, c.no = "{"+fill+histories[q].yes[1:], "{"+fill+histories[q].no[1:]
					for _, op := range []int{0, 7, 1, 7, 2, 3, 7, 4, 7} {
						if op > 2 && op < 7 && len(c.yes) > len(c.buf) {
							c.buf = make([]byte, len(c.yes)+64)
						}
						if d := c.do(w, op); d != "" {
							if len(d) > 300 {
								d = d[:100] + " ... " + d[len(d)-200:]
							}
							return d
						}
					}
				}
				return ""
			})
		}
		w.Trace()
	})
	r.One(func(w *mc.W) {
		for _, q := range []string{"a:<10000", "NOT a:>=10000", "a:<10000 AND b:exists", `b:"w1*"`} {
			q := q
			w.Case("different documents for "+q, func() string {
				m, err := jsonmatcher.NewMatcher(q)
				if err != nil {
					return err.Error()
				}
				buf := make([]byte, 0, 64)
				var checked, matched int64
				for i := 0; i < 20000; i++ {
					k := i * 7919 % 20000
					buf = append(buf[:0], fmt.Sprintf(`{"a":%d,"b":"w%05d"}`, k, k)...)
					want := k < 10000
					if q[0] == 'b' {
						want = k >= 10000
					}
					got, err := m.Match(buf)
					w.Step(1)
					if err != nil || got != want {
						return fmt.Sprintf("match of %s is %v, %v", buf, got, err)
					}
					checked++
					if want {
						matched++
					}
				}
				if st := m.Stats(); st.TimesChecked != checked || st.TimesMatched != matched {
					return fmt.Sprintf("statistics %+v, expected %d and %d", st, checked, matched)
				}
				return ""
			})
			w.Trace()
		}
	})
}
