package checks

import (
	"fmt"
	"strings"

	"github.com/flowchartsman/aql/zz_verif/mc"
	"github.com/flowchartsman/aql/zz_verif/ref"
)

func init() {
	register(&mc.Check{
		ID: "C17",
		Rule: "a state is a network term with a string; for six addresses (thorough 206) all 33 prefix lengths of the term (host bits set and cleared, and the plain address) with the address in the string differing in any one bit or none, plain and with every prefix length; " +
			"30 contexts of text around addresses, 24 invalid texts before and after a valid one, lists of up to 40 addresses with the matching one at every place, strings of up to 300000 (thorough 3000000) characters, all values of the first two bytes in term and string, all of the last. The model compares leading bits",
		Assumptions: []string{"addresses directly next to other digits or dots, and bytes with leading zeros, are left out"},
		Light:       true,
		Need:        []string{"match", "no match"},
		Run:         runC17,
	})
}

func runC17(r *mc.Run) {
	type job struct {
		q     string
		net   ref.Prefix
		addr  uint32
		texts []string
	}
	one := func(w *mc.W, j job) {
		m := newMatcher(w, j.q)
		if m == nil {
			return
		}
		for _, t := range j.texts {
			want := false
			for _, p := range ref.FindNets(t) {
				want = want || ref.Overlap(p, j.net)
			}
			matchCase(w, m, j.q, `{"a":"`+t+`"}`, want)
		}
		w.Trace()
	}
	bases := []uint32{0x0a4dcd26, 0xffffffff, 0}
	if r.Thorough {
		bases = append(bases, 0x80000001, 0xc0a80101, 0x55555555)
	}
	if r.Deep {
		for i := uint32(1); i <= 200; i++ {
			bases = append(bases, i*2654435761)
		}
	}
	mask := func(a uint32, bits int) uint32 {
		if bits == 0 {
			return 0
		}
		return a &^ (1<<(32-bits) - 1)
	}
	term := func(a uint32, bits int) string {
		if bits < 0 {
			return ref.IP(a)
		}
		return fmt.Sprintf("%s/%d", ref.IP(a), bits)
	}
	prefix := func(a uint32, bits int) ref.Prefix {
		if bits < 0 {
			bits = 32
		}
		return ref.Prefix{Addr: a, Bits: bits}
	}
	mc.EachBatch(r, 1, func(yield func(job)) {
		for bi, base := range bases {
			var texts []string
			for flip := -1; flip < 32; flip++ {
				a := base
				if flip >= 0 {
					a ^= 1 << flip
				}
				for bits := -1; bits <= 32; bits++ {
					texts = append(texts, term(a, bits))
					if bits >= 0 && mask(a, bits) != a && (flip+bits)%3 == 0 {
						texts = append(texts, term(mask(a, bits), bits))
					}
				}
			}
			for bits := -1; bits <= 32; bits++ {
				yield(job{"a:" + term(base, bits), prefix(base, bits), base, texts})
				if bits >= 0 && mask(base, bits) != base {
					yield(job{"a:" + term(mask(base, bits), bits), prefix(base, bits), base, texts})
				}
			}
			// contexts
			x, other := ref.IP(base), ref.IP(base^0x40000000)
			near := ref.IP(base ^ 1)
			var ctx []string
			for _, s := range []string{x, near, other, x + "/24", near + "/31", other + "/8", x + "/0", x + "/32"} {
				for _, f := range []string{"%s", " %s ", "from %s to", "(%s)", "[%s]", "%s:80", "%s,", "%s;", "<%s>", "\\\"%s\\\"", "http://%s", "x=%s&y", "%s - -", "%s\\n", "é%s大", "a%sb", "-%s-", "_%s_", "%s %s", "ip:%s", "%s!", "@%s", "%s|%s", "{%s}", "%s\\t%s", "/%s", "x/%s", "%s?q", "#%s", "user@%s:22 ok"} {
					ctx = append(ctx, fmt.Sprintf(strings.ReplaceAll(f, "%s", "%[1]s"), s))
				}
				for _, bad := range []string{"999.1.1.1", "256.256.256.256", "1.2.3", "1.2", "12345", "1.2.3.4/33", "1.2.3.4/99", "300.1.2.3/8", "a.b.c.d", "1.2.3.x", "::1", "fe80::1", "1-2-3-4", "1,2,3,4", "/24", "10", "0", ".", "1 . 2 . 3 . 4", "999.999.999.999/99", "v1", "2020-01-01", "12:34:56", "1.5"} {
					ctx = append(ctx, bad+" "+s, s+" "+bad, bad+","+s+";"+bad, bad)
				}
			}
			for bits := -1; bits <= 32; bits++ {
				if bits%4 == 0 || bits > 29 || bits < 2 || bi == 0 {
					yield(job{"a:" + term(base, bits), prefix(base, bits), base, ctx})
				}
			}
		}
		// many addresses in a string
		for _, n := range []int{1, 2, 3, 4, 5, 8, 9, 10, 16, 17, 20, 32, 33, 40} {
			var texts []string
			for k := -1; k < n; k++ {
				for _, form := range []string{"10.1.2.3", "10.1.2.0/24", "10.0.0.0/8", "10.1.2.4"} {
					parts := make([]string, n)
					for i := range parts {
						parts[i] = []string{fmt.Sprintf("192.168.0.%d", i), fmt.Sprintf("172.16.%d.0/24", i), "999.0.0.1"}[i%3]
					}
					if k >= 0 {
						parts[k] = form
					}
					texts = append(texts, strings.Join(parts, " "), strings.Join(parts, ", "))
				}
			}
			p, _ := ref.ParseNet("10.1.2.3")
			yield(job{"a:10.1.2.3", p, 0, texts})
			yield(job{`a:("zzz", 10.1.2.3)`, p, 0, texts})
		}
		// all values of the first two bytes
		var two []string
		for i := 0; i < 1<<16; i++ {
			two = append(two, fmt.Sprintf("%d.%d.1.2", i>>8, i&255))
		}
		for _, q := range []string{"0.0.0.0/0", "0.0.0.0/1", "128.0.0.0/1", "169.254.0.0/16", "224.0.0.0/4", "127.0.0.0/8", "0.0.0.0/8", "255.0.0.0/8", "100.64.0.0/10"} {
			p, _ := ref.ParseNet(q)
			yield(job{"a:" + q, p, 0, two})
		}
		for i := range two {
			p, _ := ref.ParseNet(two[i])
			yield(job{"a:" + two[i], p, 0, []string{two[i], two[i^1], two[i^256] + "/32", "host " + two[i] + "/24", "0.0.0.0/0"}})
		}
		// addresses in very long strings
		lengths := []int{100, 255, 256, 500, 1000, 1999, 2000, 2001, 4095, 4096, 10000, 32768, 65535, 65536, 70000, 131072, 300000}
		if r.Deep {
			lengths = append(lengths, 1000000, 1<<20+1, 3000000)
		}
		for _, n := range lengths {
			var texts []string
			for _, pad := range []string{strings.Repeat("x ", n/2), strings.Repeat("1.2. ", n/5), strings.Repeat("192.168.0.1 ", n/12), strings.Repeat("172.16.0.0/24,", n/14)} {
				for _, form := range []string{"10.1.2.3", "10.1.2.0/24", "10.1.2.4"} {
					texts = append(texts, pad+form, form+" "+pad, pad+form+" "+pad)
				}
				texts = append(texts, pad)
			}
			p, _ := ref.ParseNet("10.1.2.3")
			yield(job{"a:10.1.2.3", p, 0, texts})
			p, _ = ref.ParseNet("10.1.2.0/24")
			yield(job{"a:10.1.2.0/24", p, 0, texts})
		}
		// all values of a byte
		var all []string
		for i := 0; i < 256; i++ {
			all = append(all, fmt.Sprintf("10.1.2.%d", i), fmt.Sprintf("%d.1.2.3", i), fmt.Sprintf("10.%d.2.3/%d", i, i%33))
		}
		for i := 256; i < 300; i++ {
			all = append(all, fmt.Sprintf("10.1.2.%d", i), fmt.Sprintf("%d.1.2.3", i))
		}
		for i := 0; i < 256; i += 5 {
			for _, q := range []string{fmt.Sprintf("10.1.2.%d", i), fmt.Sprintf("%d.1.2.3/%d", i, i%33), fmt.Sprintf("10.1.2.%d/29", i)} {
				p, _ := ref.ParseNet(q)
				yield(job{"a:" + q, p, 0, all})
			}
		}
	}, one)
}
