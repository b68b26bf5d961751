package checks

import (
	"fmt"
	"strings"

	"github.com/flowchartsman/aql/jsonmatcher"
	"github.com/flowchartsman/aql/zz_verif/mc"
	"github.com/flowchartsman/aql/zz_verif/ref"
)

func init() {
	register(&mc.Check{
		ID: "C04",
		Rule: "a state is a query with the field under test, or a query and a document; all fields of up to 4 (thorough 5) segments over 6 bare, 12 quoted and star segments, of up to 7 (8) over four, all bare segments up to 5 (6) over nine characters, every character as a bare and every character of the basic plane as a quoted segment, " +
			"all single edits of six fields, up to 200 segments and segments of up to 5000 characters. The segments are compared with the model's, and documents with and without the path are matched",
		Light: true,
		Need:  []string{"accepted", "rejected", "rejected token", "match", "no match"},
		Run:   runC04,
	})
}

var segments = []string{"a", "B9", "_", "-", "0", "a-b_C", `""`, `"a"`, `"a.b"`, `" "`, `"\""`, `"é"`, `"a b"`, `":("`, `"*"`, `"\u0041\n"`, `"AND"`, `"\\"`, "*"}

func runC04(r *mc.Run) {
	one := func(w *mc.W, q string) {
		w.Case(q, func() string { return parseDiff(w, q, acceptance|tree) })
		w.Trace()
	}
	fields := func(segs []string, max int, yield func(string)) {
		var rec func(parts []string)
		rec = func(parts []string) {
			if len(parts) > 0 {
				yield(strings.Join(parts, "."))
			}
			if len(parts) == max {
				return
			}
			for _, s := range segs {
				rec(append(parts[:len(parts):len(parts)], s))
			}
		}
		rec(nil)
	}
	n := 3
	if r.Thorough {
		n = 4
	}
	if r.Deep {
		n = 5
	}
	mc.Each(r, func(yield func(string)) {
		fields(segments, n, func(f string) { yield(f + ":1") })
		strs(chars("a0178-_eE"), n+1, func(s string) {
			if s != "" {
				yield(s + ":1")
				yield("a." + s + ".b:exists")
			}
		})
		fields([]string{"a", `"b.c"`, "*", `"*"`}, n+3, func(f string) { yield(f + ":exists") })
		for c := rune(1); c < 0x10000; c++ {
			if c >= 0xd800 && c < 0xe000 {
				continue
			}
			yield(`"` + string(c) + `":exists`)
			if c < 0x250 || c%251 == 0 {
				yield(string(c) + ":exists")
				yield("x" + string(c) + "y:exists")
				yield("x." + string(c) + ".y:exists")
			}
			if c < 0x400 {
				yield(`a."x` + string(c) + `y".b:1`)
				yield(fmt.Sprintf(`a."\u%04x":1`, c))
			}
		}
		for _, f := range []string{`a.b.c`, `"a b".c`, `*.a.*`, `a."x\ny"."z"`, `a-b_9`, `"é".大`} {
			edits(f, anyChars, func(s string) { yield(s + ":1"); yield("b:2 AND NOT " + s + " : 1") })
		}
		for _, f := range []string{"*", "*.*", "*.*.*", "", ".", "a.", ".a", "a..b", "a. b", "a .b", `"a`, `a"`, `a"b"`, `"a"b`, `"a""b"`, "**", "a*", "*a", "a.**", `"\ud800"`, `"\u0000"`, "a[0]", "a.0", "a{b}"} {
			yield(f + ":1")
			yield(f + ":exists")
			yield("x:1 AND " + f + ":null")
			yield("NOT (" + f + ":1)")
		}
	}, one)
	mc.EachBatch(r, 1, func(yield func(string)) {
		for k := 1; k <= 200; k++ {
			var segs []string
			for i := 0; i < k; i++ {
				segs = append(segs, segments[i*7%len(segments)])
			}
			yield(strings.Join(segs, ".") + ":1")
			if k%10 == 0 {
				yield(strings.Repeat("k", k*25) + "." + `"` + strings.Repeat("é.", k*25) + `":1`)
			}
		}
	}, one)
	// a field finds exactly its path
	type fd struct {
		f    string
		path []string
	}
	mc.Each(r, func(yield func(fd)) {
		fields(segments, 3, func(f string) {
			n, err := ref.ParseOnly(f + ":exists")
			if err != nil {
				panic(err.String())
			}
			if len(n.Field) > 0 {
				yield(fd{f, n.Field})
			}
		})
	}, func(w *mc.W, f fd) {
		q := f.f + ":exists"
		m, err := jsonmatcher.NewMatcher(q)
		if err != nil {
			w.Case(q, func() string { return fmt.Sprintf("rejected: %v", err) })
			return
		}
		matchCase(w, m, q, nest(f.path).JSON(), true)
		for _, other := range [][]string{{strings.Join(f.path, ".")}, append([]string{"*"}, f.path...), f.path[1:], f.path[:len(f.path)-1], {"*"}} {
			if len(other) == 0 {
				continue
			}
			doc := nest(other)
			matchCase(w, m, q, doc.JSON(), len(ref.Select(doc, f.path)) > 0)
		}
		w.Trace()
	})
}

// nest makes a document with 1 at the end of a path.
func nest(path []string) *ref.V {
	v := ref.VNum("1")
	for i := len(path) - 1; i >= 0; i-- {
		v = ref.VObj(path[i], v)
	}
	return v
}
