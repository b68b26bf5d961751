package checks

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/flowchartsman/aql/zz_verif/mc"
	"github.com/flowchartsman/aql/zz_verif/ref"
)

func init() {
	register(&mc.Check{
		ID: "C16",
		Rule: "a state is a comparison with a document; 62 instants (years 0001 to 9999, the ends of the range of nanoseconds since 1970, midnights, leap days and one nanosecond to either side) written in up to 11 ways (time zones, fractions, date only, seconds since 1970) and, on their own, 15 other ways (milli-, micro- and nanoseconds since 1970, names of months) against operands of the same instants in up to 6 ways with all five operators and all between bounds in order, " +
			"every hour of a day and every day of 800 days around day operands, and 30 values that are no times, with a machine in the zone +05:45. The model compares days and nanoseconds",
		Light: true,
		Need:  []string{"match", "no match"},
		Run:   runC16,
	})
}

// timed is a document value whose instant is known.
type timed struct {
	doc string
	at  ref.Instant
}

var timeOps = []struct {
	op   string
	hold func(c int) bool
}{
	{"<", func(c int) bool { return c < 0 }}, {"<=", func(c int) bool { return c <= 0 }}, {">", func(c int) bool { return c > 0 }}, {">=", func(c int) bool { return c >= 0 }},
}

func instants() []ref.Instant {
	const day = int64(86400e9)
	seen := map[ref.Instant]bool{}
	var out []ref.Instant
	add := func(i ref.Instant) {
		y, _, _ := ref.Civil(i.Day)
		if y >= 1 && y <= 9999 && !seen[i] {
			seen[i] = true
			out = append(out, i)
		}
	}
	for _, d := range [][3]int64{{1, 1, 1}, {1, 1, 2}, {999, 12, 31}, {1600, 2, 29}, {1677, 9, 21}, {1678, 1, 1}, {1900, 2, 28}, {1969, 12, 31}, {1970, 1, 1}, {1999, 12, 31}, {2000, 2, 29}, {2020, 1, 1}, {2020, 2, 29}, {2038, 1, 19}, {2262, 4, 12}, {2263, 1, 1}, {5000, 6, 15}, {9999, 12, 30}} {
		i := ref.Instant{Day: ref.DayOf(d[0], d[1], d[2])}
		add(i)
		add(i.Add(day - 1))
		if d[0] >= 1969 && d[0] <= 2262 {
			add(i.Add(1))
			add(i.Add(day / 2))
			add(i.Add(3600e9 + 60e9 + 1e9 + 500e6))
		}
	}
	add(ref.Instant{Day: ref.DayOf(2001, 9, 9), Nano: (1*3600 + 46*60 + 40) * 1e9})
	sort.Slice(out, func(i, j int) bool { return out[i].Cmp(out[j]) < 0 })
	return out
}

// zones a time is written in, in minutes.
var zoneMinutes = []int64{0, 60, -60, 330, -210, 840, -720, 1}

func inRange(i ref.Instant, off int64) bool {
	y, _, _ := ref.Civil(i.Add(off * 60e9).Day)
	return y >= 1 && y <= 9999
}

func fracDigits(i ref.Instant) int {
	n := i.Nano % 1e9
	if n == 0 {
		return 0
	}
	d := 9
	for n%10 == 0 {
		n /= 10
		d--
	}
	return d
}

func runC16(r *mc.Run) {
	ins := instants()
	// documents
	var docs []timed
	str := func(i ref.Instant, s string) { docs = append(docs, timed{`"` + s + `"`, i}) }
	for n, i := range ins {
		fr := fracDigits(i)
		str(i, i.Stamp("T", fr, 0, "Z"))
		str(i, i.Stamp(" ", fr, 0, ""))
		str(i, i.Stamp("T", 9, 0, "Z"))
		for z, off := range zoneMinutes {
			if inRange(i, off) && (z < 3 || (n+z)%3 == 0 || r.Thorough) {
				str(i, i.Stamp("T", fr, off, ""))
			}
		}
		if i.Nano == 0 {
			str(i, i.Date())
			y, m, d := ref.Civil(i.Day)
			if y >= 1000 {
				str(i, fmt.Sprintf("%04d/%02d/%02d", y, m, d))
			}
		}
		if s := i.Day*86400 + i.Nano/1e9; i.Nano%1e9 == 0 && s >= 1e9 && s < 1e10 {
			docs = append(docs, timed{fmt.Sprint(s), i}, timed{fmt.Sprintf(`"%d"`, s), i})
		}
	}
	// operands
	type operand struct {
		text string
		at   ref.Instant
		day  bool
	}
	var ops []operand
	for n, i := range ins {
		fr := fracDigits(i)
		ops = append(ops, operand{i.Stamp("T", fr, 0, "Z"), i, false})
		for z, off := range zoneMinutes[1:] {
			if inRange(i, off) && ((n+z)%4 == 0 || r.Thorough) {
				ops = append(ops, operand{i.Stamp("T", fr, off, ""), i, false})
			}
		}
		ops = append(ops, operand{i.Stamp("T", 9, 0, "Z"), i, false})
		if i.Nano == 0 {
			ops = append(ops, operand{i.Date(), i, true})
		}
	}
	one := func(w *mc.W, q string, hold func(ref.Instant) bool, docs []timed) {
		m := newMatcher(w, q)
		if m == nil {
			return
		}
		for _, d := range docs {
			matchCase(w, m, q, `{"a":`+d.doc+`}`, hold(d.at))
		}
		w.Trace()
	}
	mc.EachBatch(r, 2, mc.Slice(ops), func(w *mc.W, o operand) {
		one(w, "a:"+o.text, func(i ref.Instant) bool {
			if o.day {
				return i.Day == o.at.Day
			}
			return i.Cmp(o.at) == 0
		}, docs)
		for _, op := range timeOps {
			one(w, "a:"+op.op+o.text, func(i ref.Instant) bool { return op.hold(i.Cmp(o.at)) }, docs)
		}
	})
	// other notations
	var others []timed
	for _, i := range ins {
		y, mo, d := ref.Civil(i.Day)
		s := i.Day*86400 + i.Nano/1e9
		if s >= 1e9 && s < 9e9 {
			others = append(others, timed{fmt.Sprint(s*1e9 + i.Nano%1e9), i}, timed{fmt.Sprintf(`"%d"`, s*1e9+i.Nano%1e9), i})
			if i.Nano%1e3 == 0 {
				others = append(others, timed{fmt.Sprintf(`"%d"`, s*1e6+i.Nano%1e9/1e3), i})
			}
			if i.Nano%1e6 == 0 {
				others = append(others, timed{fmt.Sprint(s*1e3 + i.Nano%1e9/1e6), i}, timed{fmt.Sprintf(`"%d"`, s*1e3+i.Nano%1e9/1e6), i})
			}
		}
		if y < 1000 || i.Nano%1e9 != 0 {
			continue
		}
		t := time.Date(int(y), time.Month(mo), int(d), 0, 0, int(i.Nano/1e9), 0, time.UTC)
		layouts := []string{"2006-01-02T15:04:05", "2006-01-02 15:04:05 -0700", "2006/01/02 15:04:05", time.RFC1123, time.RFC1123Z, time.UnixDate, time.ANSIC, "Jan 2, 2006 15:04:05", "02 Jan 2006 15:04:05", "January 2, 2006 15:04:05", "20060102150405"}
		if d > 12 {
			layouts = append(layouts, "1/2/2006 15:04:05")
		}
		if i.Nano == 0 {
			layouts = append(layouts, "2 January 2006", "Jan 2, 2006", "20060102")
			if d > 12 {
				layouts = append(layouts, "01/02/2006")
			}
		}
		for _, l := range layouts {
			others = append(others, timed{`"` + t.Format(l) + `"`, i})
		}
	}
	mc.EachBatch(r, 2, mc.Slice(ops), func(w *mc.W, o operand) {
		if !strings.HasSuffix(o.text, "Z") && !o.day {
			return
		}
		one(w, "a:"+o.text, func(i ref.Instant) bool {
			if o.day {
				return i.Day == o.at.Day
			}
			return i.Cmp(o.at) == 0
		}, others)
		for _, op := range timeOps {
			one(w, "a:"+op.op+o.text, func(i ref.Instant) bool { return op.hold(i.Cmp(o.at)) }, others)
		}
		if y, _, _ := ref.Civil(o.at.Day); y < 9999 {
			one(w, "a:><("+o.text+",9999-12-31)", func(i ref.Instant) bool {
				return i.Cmp(o.at) >= 0 && i.Cmp(ref.Instant{Day: ref.DayOf(9999, 12, 31)}) <= 0
			}, others)
		}
	})
	// between
	var plain []timed
	for _, d := range docs {
		if strings.HasSuffix(d.doc, `Z"`) && !strings.Contains(d.doc, "000000000Z") || len(d.doc) == 12 {
			plain = append(plain, d)
		}
	}
	type pair struct{ a, b operand }
	mc.EachBatch(r, 4, func(yield func(pair)) {
		for x, a := range ops {
			for y, b := range ops {
				if a.at.Cmp(b.at) < 0 && (r.Thorough || a.text[len(a.text)-1] != 'Z' && (x+y)%3 == 0 || a.text[len(a.text)-1] == 'Z' && len(a.text) < 25 && (b.day || (x+y)%5 == 0)) {
					yield(pair{a, b})
				}
			}
		}
	}, func(w *mc.W, p pair) {
		one(w, "a:><("+p.a.text+","+p.b.text+")", func(i ref.Instant) bool { return i.Cmp(p.a.at) >= 0 && i.Cmp(p.b.at) <= 0 }, plain)
	})
	// days and hours around a day
	mc.EachBatch(r, 2, func(yield func(int64)) {
		for d := int64(-400); d < 400; d++ {
			yield(ref.DayOf(2020, 1, 1) + d)
			if d%20 == 0 {
				yield(ref.DayOf(1800, 1, 1) + d)
				yield(ref.DayOf(2400, 3, 1) + d/20)
			}
		}
	}, func(w *mc.W, day int64) {
		o := ref.Instant{Day: day}
		var ds []timed
		for h := int64(-3); h < 28; h++ {
			for _, ns := range []int64{-1, 0, 1e6} {
				i := o.Add(h*3600e9 + ns)
				if h > 2 && h < 22 && h%6 != 0 && ns != 0 {
					continue
				}
				ds = append(ds, timed{`"` + i.Stamp("T", fracDigits(i), []int64{0, 60, -420, 840}[(h+4)%4], "") + `"`, i})
			}
		}
		one(w, "a:"+o.Date(), func(i ref.Instant) bool { return i.Day == day }, ds)
		one(w, "a:>"+o.Date(), func(i ref.Instant) bool { return i.Cmp(o) > 0 }, ds)
		one(w, "a:<="+o.Date(), func(i ref.Instant) bool { return i.Cmp(o) <= 0 }, ds)
		one(w, "a:><("+o.Date()+","+o.Add(86400e9).Date()+")", func(i ref.Instant) bool { return i.Cmp(o) >= 0 && i.Cmp(o.Add(86400e9)) <= 0 }, ds)
	})
	// no times
	var no []timed
	for _, s := range []string{`""`, `"hello"`, `"not a date"`, `"2020-13-01T00:00:00Z"`, `"2020-02-32"`, `"yesterday"`, `"true"`, `"2020-01-01T25:00:00Z"`, `"x2020-01-01"`, `"on 2020-01-01"`, `"Z"`, `"-"`, `":"`, `"T"`, "true", "false", "null", "{}", "[]", "[null]", "[true]", `{"a":"2020-01-01"}`, `[{"a":"2020-01-01"}]`, `[["2020-01-01"]]`, `["x",null,{}]`} {
		no = append(no, timed{doc: s})
	}
	mc.Each(r, func(yield func(string)) {
		for _, o := range []string{"2020-01-01", "0001-01-01", "9999-12-31", "1970-01-01", "2020-01-01T00:00:00Z", "0001-01-01T00:00:00Z", "1970-01-01T00:00:00Z", "9999-12-31T23:59:59Z"} {
			for _, op := range opTexts[:5] {
				yield("a:" + op + o)
			}
		}
		yield("a:><(0001-01-01,9999-12-31)")
		yield("a:><(1970-01-01,2020-01-01T00:00:00Z)")
	}, func(w *mc.W, q string) { one(w, q, func(ref.Instant) bool { return false }, no) })
}
