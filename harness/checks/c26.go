package checks

import (
	"fmt"
	"strings"

	"github.com/flowchartsman/aql/sampler"
	"github.com/flowchartsman/aql/zz_verif/mc"
	"github.com/flowchartsman/aql/zz_verif/ref"
)

func init() {
	register(&mc.Check{
		ID: "C26",
		Rule: "a state is a sampler after a history; all histories of up to 8 (thorough 9) of six operations (five documents and a reset) with every threshold from 0 to 101 and, for histories of up to 4, reads after every subset of the operations, also with all documents side by side in one buffer, all histories of 5 out of three documents, a reset and six single reads, all histories of up to 7 operations on two samplers by turns (two documents and a reset each), " +
			"for every number n of documents up to 120 (and larger ones) a key in each k of the n with every threshold, in three orders of the documents and with repeated keys; keys of 0 to 300 (and up to 65536) characters, up to 5000 keys and up to 60 levels across three resets; up to 100001 documents with keys in one, two, and about a thousandth, a hundredth, half and all of them, and as many without keys after a reset. Keys, thresholds and scanned documents are compared with counting",
		Light: true,
		Need:  []string{"empty", "after reset", "no key at threshold", "some keys at threshold", "all keys at threshold"},
		Run:   runC26,
	})
}

// tally is the model of a sampler.
type tally struct {
	limit int
	docs  int
	keys  map[string]int
}

func newTally(limit int) *tally { return &tally{limit: limit, keys: map[string]int{}} }

func (t *tally) add(d *ref.V) {
	t.docs++
	for k := range ref.Keys(d, t.limit) {
		t.keys[k]++
	}
}

func (t *tally) reset() { t.docs, t.keys = 0, map[string]int{} }

func (t *tally) at(p int) []string {
	out := map[string]bool{}
	for k, n := range t.keys {
		if n*100 >= p*t.docs {
			out[k] = true
		}
	}
	return keyList(out)
}

// compare reads everything and spoils what was returned.
func (t *tally) compare(w *mc.W, s *sampler.Sampler, thresholds []int) string {
	if s.Scanned() != t.docs {
		return fmt.Sprintf("%d documents scanned, expected %d", s.Scanned(), t.docs)
	}
	all := t.at(0)
	keys := s.Keys()
	if got := sorted(keys); strings.Join(got, "\n") != strings.Join(all, "\n") {
		return fmt.Sprintf("keys are %q, expected %q", got, all)
	}
	for i := range keys {
		keys[i] = "spoiled"
	}
	for _, p := range thresholds {
		keys := s.KeysAtThreshold(p)
		w.Step(1)
		got, want := sorted(keys), t.at(p)
		if strings.Join(got, "\n") != strings.Join(want, "\n") {
			return fmt.Sprintf("keys at threshold %d are %q, expected %q (of %d documents)", p, got, want, t.docs)
		}
		switch {
		case len(all) == 0:
			w.Outcome("empty")
		case len(want) == 0:
			w.Outcome("no key at threshold")
		case len(want) == len(all):
			w.Outcome("all keys at threshold")
		default:
			w.Outcome("some keys at threshold")
		}
		for i := range keys {
			keys[i] = "spoiled"
		}
	}
	if s.Scanned() != t.docs {
		return fmt.Sprintf("%d documents scanned after reading the results, expected %d", s.Scanned(), t.docs)
	}
	return ""
}

func upTo(n int) []int {
	var out []int
	for i := 0; i <= n; i++ {
		out = append(out, i)
	}
	return out
}

var historyDocs = []*ref.V{
	ref.VObj("a", ref.VNum("1")),
	ref.VObj("a", ref.VArr(ref.VNum("1"), ref.VNum("2"), ref.VNull()), "b", ref.VObj("c", ref.VNum("1"))),
	ref.VArr(ref.VObj("b", ref.VObj("c", ref.VNum("1"))), ref.VObj("b", ref.VObj("c", ref.VBool(true), "d e", ref.VNum("1")))),
	ref.VObj(),
	ref.VObj("b", ref.VNum("1"), "d", ref.VArr(ref.VArr(ref.VObj("a", ref.VNum("1"))))),
}

func runC26(r *mc.Run) {
	pcts := upTo(101)
	few := []int{-1000, 0, 1, 33, 34, 50, 51, 66, 67, 99, 100, 101, 1000}
	max := 6
	if r.Thorough {
		max = 8
	}
	if r.Deep {
		max = 9
	}
	var texts []string
	for _, d := range historyDocs {
		texts = append(texts, d.JSON())
	}
	reset := len(texts)
	// one history per case; what came before was compared in shorter ones
	mc.Each(r, func(yield func([]int)) {
		var rec func(h []int)
		rec = func(h []int) {
			yield(h)
			if len(h) == max {
				return
			}
			for op := 0; op <= reset; op++ {
				rec(append(h[:len(h):len(h)], op))
			}
		}
		rec(nil)
	}, func(w *mc.W, h []int) {
		for _, limit := range []int{-1, 1} {
			if limit == 1 && len(h) > 4 {
				continue
			}
			limit := limit
			w.Case(fmt.Sprintf("limit %d history %v in one buffer", limit, h), func() string {
				var all []byte
				var ends []int
				for _, op := range h {
					if op != reset {
						all = append(all, texts[op]...)
					}
					ends = append(ends, len(all))
				}
				s, t := sampler.New(limit), newTally(limit)
				at := 0
				for i, op := range h {
					w.Step(1)
					if op == reset {
						s.Reset()
						t.reset()
						continue
					}
					if err := s.Sample(all[at:ends[i]]); err != nil {
						return fmt.Sprintf("error %v for document %d", err, op)
					}
					t.add(historyDocs[op])
					at = ends[i]
				}
				return t.compare(w, s, few[1:2])
			})
			// the results are read after these operations, and after the last
			masks := 1
			if n := len(h) - 1; n > 0 && n < 4 {
				masks = 1 << n
			}
			for mask := 0; mask < masks; mask++ {
				mask := mask
				w.Case(fmt.Sprintf("limit %d history %v read after %b", limit, h, mask), func() string {
					s, t := sampler.New(limit), newTally(limit)
					buf := make([]byte, 0, 200)
					for i, op := range h {
						w.Step(1)
						if op == reset {
							s.Reset()
							t.reset()
							w.Outcome("after reset")
						} else {
							buf = append(buf[:0], texts[op]...)
							if err := s.Sample(buf); err != nil {
								return fmt.Sprintf("error %v for document %d", err, op)
							}
							for j := range buf {
								buf[j] = 'z'
							}
							t.add(historyDocs[op])
						}
						if i < len(h)-1 && mask>>i&1 == 1 {
							if what := t.compare(w, s, few); what != "" {
								return fmt.Sprintf("after %d operations: %s", i+1, what)
							}
						}
					}
					p := few
					if len(h) <= 5 && mask == masks-1 {
						p = pcts
					}
					return t.compare(w, s, p)
				})
			}
		}
		w.Trace()
	})
	// reads of one kind as operations of their own
	reads := []int{0, 1, 50, 51, 100}
	mc.Each(r, func(yield func([]int)) {
		var rec func(h []int)
		rec = func(h []int) {
			if len(h) == max-1 {
				yield(h)
				return
			}
			for op := 0; op < 4+len(reads)+1; op++ {
				rec(append(h[:len(h):len(h)], op))
			}
		}
		rec(nil)
	}, func(w *mc.W, h []int) {
		w.Case(fmt.Sprintf("history with reads %v", h), func() string {
			s, t := sampler.New(-1), newTally(-1)
			for i, op := range h {
				w.Step(1)
				var got, want []string
				switch {
				case op < 3:
					d := []int{0, 1, 3}[op]
					if err := s.Sample([]byte(texts[d])); err != nil {
						return fmt.Sprintf("error %v for document %d", err, d)
					}
					t.add(historyDocs[d])
				case op == 3:
					s.Reset()
					t.reset()
				case op == 4:
					got, want = s.Keys(), t.at(0)
				default:
					got, want = s.KeysAtThreshold(reads[op-5]), t.at(reads[op-5])
				}
				if g := sorted(got); strings.Join(g, "\n") != strings.Join(want, "\n") {
					return fmt.Sprintf("operation %d reads %q, expected %q", i+1, g, want)
				}
			}
			return ""
		})
		w.Trace()
	})
	// two samplers by turns
	mc.Each(r, func(yield func([]int)) {
		var rec func(h []int)
		rec = func(h []int) {
			if len(h) == max-1 {
				yield(h)
				return
			}
			for op := 0; op < 6; op++ {
				rec(append(h[:len(h):len(h)], op))
			}
		}
		rec(nil)
	}, func(w *mc.W, h []int) {
		w.Case(fmt.Sprintf("two samplers %v", h), func() string {
			ss := []*sampler.Sampler{sampler.New(-1), sampler.New(1)}
			ts := []*tally{newTally(-1), newTally(1)}
			for _, op := range h {
				s, t := ss[op%2], ts[op%2]
				w.Step(1)
				if op/2 == 2 {
					s.Reset()
					t.reset()
					continue
				}
				if err := s.Sample([]byte(texts[1+op/2])); err != nil {
					return fmt.Sprintf("error %v", err)
				}
				t.add(historyDocs[1+op/2])
			}
			for i := range ss {
				if what := ts[i].compare(w, ss[i], []int{0, 50, 51, 100}); what != "" {
					return fmt.Sprintf("sampler %d: %s", i, what)
				}
			}
			return ""
		})
		w.Trace()
	})
	// keys of all lengths and many keys, across resets
	type size struct{ length, depth, keys int }
	mc.EachBatch(r, 8, func(yield func(size)) {
		for l := 0; l <= 300; l++ {
			yield(size{l, 1, 1})
			yield(size{l, 3, 2})
		}
		for _, l := range []int{500, 1000, 1024, 4096, 5000, 65536} {
			yield(size{l, 1, 1})
			yield(size{l, 2, 2})
		}
		for _, n := range []int{3, 10, 50, 99, 100, 101, 127, 128, 129, 255, 256, 257, 500, 1000, 1001, 2000, 5000} {
			yield(size{4, 1, n})
			yield(size{4, 2, n})
		}
		for d := 2; d <= 60; d++ {
			yield(size{1, d, 1})
			yield(size{7, d, 1})
		}
	}, func(w *mc.W, z size) {
		w.Case(fmt.Sprintf("%d keys of %d characters at depth %d", z.keys, z.length, z.depth), func() string {
			doc := func(letter string, n int) *ref.V {
				o := &ref.V{K: ref.Obj}
				for i := 0; i < n; i++ {
					k := strings.Repeat(letter, z.length)
					if i > 0 {
						k += fmt.Sprint(i)
					}
					v := ref.VNum("1")
					for d := 1; d < z.depth; d++ {
						v = ref.VObj(k, v)
					}
					o.Keys, o.Elems = append(o.Keys, k), append(o.Elems, v)
				}
				return o
			}
			s, t := sampler.New(-1), newTally(-1)
			for round := 0; round < 3; round++ {
				for i, d := range []*ref.V{doc("k", z.keys), doc("l", 1), doc("k", (z.keys+1)/2), doc("k", 1)} {
					if i < round {
						continue
					}
					if err := s.Sample([]byte(d.JSON())); err != nil {
						return fmt.Sprintf("error %v", err)
					}
					t.add(d)
					w.Step(1)
					if what := t.compare(w, s, few); what != "" {
						return fmt.Sprintf("round %d, document %d: %s", round+1, i+1, what)
					}
				}
				s.Reset()
				t.reset()
				w.Outcome("after reset")
				if what := t.compare(w, s, few); what != "" {
					return fmt.Sprintf("after reset %d: %s", round+1, what)
				}
			}
			return ""
		})
		w.Trace()
	})
	// rare keys among many documents
	mc.EachBatch(r, 1, func(yield func(int)) {
		for _, n := range []int{1000, 1001, 1999, 2000, 2001, 4096, 9999, 10000, 10001, 65536, 100001} {
			yield(n)
		}
	}, func(w *mc.W, n int) {
		w.Case(fmt.Sprintf("%d documents with rare keys", n), func() string {
			s, t := sampler.New(-1), newTally(-1)
			common := ref.VObj("c", ref.VNum("1"))
			// key k is in k of the documents
			rare := map[int]bool{1: true, 2: true, n - 1: true, n / 2: true, (n - 1) / 2: true, n/100 - 1: true, n / 100: true, n/100 + 1: true, n/1000 + 1: true, n - n/100: true, n - n/100 - 1: true}
			for i := 1; i <= n; i++ {
				d := ref.VObj()
				for k := range rare {
					if k >= i && k > 0 {
						d.Keys, d.Elems = append(d.Keys, fmt.Sprintf("k%d", k)), append(d.Elems, ref.VNum("1"))
					}
				}
				if len(d.Keys) == 0 {
					d = common
				}
				if err := s.Sample([]byte(d.JSON())); err != nil {
					return fmt.Sprintf("error %v", err)
				}
				t.add(d)
				w.Step(1)
			}
			if what := t.compare(w, s, pcts); what != "" {
				return what
			}
			s.Reset()
			t.reset()
			if what := t.compare(w, s, few); what != "" {
				return "after a reset: " + what
			}
			// as many without keys, or with other ones
			for _, d := range []*ref.V{ref.VObj(), ref.VArr(), ref.VObj("other", ref.VNull())} {
				for i := 0; i < n; i++ {
					if err := s.Sample([]byte(d.JSON())); err != nil {
						return fmt.Sprintf("error %v", err)
					}
					t.add(d)
					w.Step(1)
				}
				if what := t.compare(w, s, few); what != "" {
					return fmt.Sprintf("after a reset and %d times %s: %s", n, d.JSON(), what)
				}
				s.Reset()
				t.reset()
				if what := t.compare(w, s, few); what != "" {
					return fmt.Sprintf("after another reset: %s", what)
				}
			}
			return ""
		})
		w.Trace()
	})
	// proportions
	type prop struct{ n, order, rep int }
	mc.EachBatch(r, 1, func(yield func(prop)) {
		ns := upTo(120)
		ns = append(ns, 127, 128, 129, 150, 199, 200, 201, 255, 256, 257, 300)
		if r.Thorough {
			ns = append(ns, 333, 400, 499, 500, 511, 512, 513, 700, 1000, 1023, 1024, 1025)
		}
		for i := len(ns) - 1; i > 0; i-- {
			for order := 0; order < 3; order++ {
				yield(prop{ns[i], order, 1 + order})
			}
		}
	}, func(w *mc.W, p prop) {
		w.Case(fmt.Sprintf("%d documents, order %d", p.n, p.order), func() string {
			s, t := sampler.New(-1), newTally(-1)
			for i := 0; i < p.n; i++ {
				have := i + 1
				switch p.order {
				case 1:
					have = p.n - i
				case 2:
					have = (i*7)%p.n + 1
				}
				// key k is in the documents with have >= k; order 2 is no
				// permutation if 7 divides n, which changes nothing
				d := &ref.V{K: ref.Obj}
				for k := 1; k <= have; k++ {
					if p.n > 60 && k%5 != p.n%5 && k > 3 && k < p.n-3 {
						continue
					}
					d.Keys = append(d.Keys, fmt.Sprintf("k%d", k))
					var e []*ref.V
					for j := 0; j < p.rep; j++ {
						e = append(e, ref.VObj("x", ref.VNum("1")))
					}
					d.Elems = append(d.Elems, ref.VArr(e...))
				}
				if err := s.Sample([]byte(d.JSON())); err != nil {
					return fmt.Sprintf("error %v", err)
				}
				t.add(d)
				w.Step(1)
			}
			if what := t.compare(w, s, pcts); what != "" {
				return what
			}
			s.Reset()
			t.reset()
			return t.compare(w, s, few)
		})
		w.Trace()
	})
}
