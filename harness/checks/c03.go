package checks

import (
	"fmt"
	"strings"

	"github.com/flowchartsman/aql/zz_verif/mc"
)

func init() {
	register(&mc.Check{
		ID: "C03",
		Rule: "a state is a query with one literal under test, alone or inside a list; integers -1100..1100, with leading zeros and around every power of 2 and 10, floats of all digit patterns up to 3+3 and sizes up to 400 digits, " +
			"every \\uXXXX escape and every character of the basic plane in a string, all strings up to 3 pieces over 22 escapes and characters, all regular expressions up to 5 (thorough 6) characters over ten, " +
			"every escaped character behind up to 300 others, lists of up to 4097 values, all octets 0..299 at all places and all prefix lengths 0..99, all months and days of ten years, all hours, minutes and seconds, offsets and up to 12 fractional digits. Type and value are compared with the model",
		Assumptions: []string{"zone offsets of 24 hours or 60 minutes, and leap seconds, are outside the property"},
		Light:       true,
		Need:        []string{"accepted", "rejected token"},
		Run:         runC03,
	})
}

// literals yields the literals under test; light ones also get the list
// contexts.
func literals(r *mc.Run, yield func(lit string, light bool)) {
	// integers
	for i := -1100; i <= 1100; i++ {
		yield(fmt.Sprint(i), true)
	}
	strs(chars("01789"), 4, func(s string) {
		if s != "" {
			yield(s, false)
			yield("-"+s, false)
			yield("0"+s+".0"+s, false)
		}
	})
	p2 := uint64(1)
	for i := 0; i < 64; i++ {
		for d := uint64(0); d < 5; d++ {
			yield(fmt.Sprint(p2+d-2), true)
			yield("-"+fmt.Sprint(p2+d-2), true)
		}
		p2 *= 2
	}
	for n := 1; n <= 25; n++ {
		for _, d := range []string{"1" + strings.Repeat("0", n), strings.Repeat("9", n), strings.Repeat("0", n) + "7", strings.Repeat("0", n)} {
			yield(d, true)
			yield("-"+d, true)
			yield(d+".5", true)
			yield("-"+d+".25", true)
			yield("0."+d, true)
		}
	}
	for _, s := range []string{"9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "+1", "--1", "1-", "- 1", "1e3", "1E3", "0x10", "1_000", "1.", ".5", "-.5", "1.5.5", "-0", "-0.0", "0.0", "Inf", "NaN", "1.5e3", "١"} {
		yield(s, true)
	}
	// floats
	for _, a := range digitStrings(3) {
		for _, b := range digitStrings(3) {
			yield(a+"."+b, false)
			yield("-"+a+"."+b, false)
		}
	}
	for n := 1; n < 420; n += 7 {
		yield(strings.Repeat("9", n)+".9", false)
		yield("0."+strings.Repeat("0", n)+"1", false)
		yield("1."+strings.Repeat("3", n), false)
	}
	// booleans
	for _, s := range []string{"true", "false", "True", "TRUE", "t", "yes", "nil", "none", "truefalse"} {
		yield(s, true)
	}
	// strings
	pieces := []string{"a", "B", " ", `\"`, `\\`, `\n`, `\u0041`, `\u00e9`, "é", "大", "😀", "'", "/", `\b`, `\f`, `\r`, `\t`, `\u2028`, `\u0000`, `\ud800`, `\ud83d\ude00`, `\u00E9`}
	strs(pieces, 3, func(s string) { yield(`"`+s+`"`, false) })
	for _, s := range []string{`\/`, `\'`, `\a`, `\v`, `\x41`, `\101`, `\U00000041`, `\u41`, `\u004`, `\u004g`, `\`, "\n", "\t", "\x1f", "\x7f", `\u{41}`, `"`, `""`, `\"`, `\\"`} {
		yield(`"`+s+`"`, true)
		yield(`"x`+s+`y"`, true)
		yield(`"`+s, true)
	}
	for c := 0; c < 0x10000; c++ {
		yield(fmt.Sprintf(`"\u%04x"`, c), false)
		if c >= 0xd800 && c < 0xe000 {
			continue
		}
		yield(`"`+string(rune(c))+`"`, false)
	}
	for _, c := range []rune{0x10000, 0x1f600, 0x10ffff, 0x20000, 0xe0001} {
		yield(`"x`+string(c)+`y"`, true)
	}
	for _, n := range []int{10, 50, 100, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 4096, 5000, 70000} {
		for _, s := range []string{"x", `\n`, "é", `\u00e9`} {
			yield(`"`+strings.Repeat(s, n)+`"`, false)
			yield(`/`+strings.ReplaceAll(strings.Repeat(s, n), `\u`, `\x`)+`/`, false)
		}
	}
	// regular expressions
	n := 4
	if r.Thorough {
		n = 5
	}
	if r.Deep {
		n = 6
	}
	strs(chars(`a/\.*([])+`), n, func(s string) { yield(`/`+s+`/`, false) })
	for c := rune(1); c < 0x300; c++ {
		yield(`/`+string(c)+`/`, false)
		yield(`/x\`+string(c)+`y/`, false)
		yield(`/\`+string(c)+`/`, false)
	}
	for _, s := range []string{`(?i)x`, `^a\/b$`, `\/`, `\\\/`, `\\/`, `a\/`, `\/a`, `//`, `[/]`, `[\/]`, `(?P<n>x)`, `x{2,3}`, `x{3,2}`, `x{1001}`, `\d+`, `\p{Greek}`, `\p{Nope}`, `(?=x)`, `x**`, `a|b|`, `\Qa*b\E`, "a\nb", "a\tb", `"`, `a b`, `\`} {
		yield(`/`+s+`/`, true)
	}
	// every escaped character behind, and in a class behind, up to 300 others
	for _, n := range []int{1, 2, 3, 5, 8, 11, 12, 16, 20, 33, 64, 65, 100, 128, 300} {
		fill := strings.Repeat("xy", n)[:n]
		for c := rune(0x20); c < 0x7f; c++ {
			yield(`/`+fill+`\`+string(c)+`/`, false)
			yield(`/`+fill+`[a\`+string(c)+`z]/`, false)
		}
		for _, s := range []string{`\"`, `\\`, `\n`, `\u00e9`, `\t`, "é", "😀", `\/`, `\'`, "/"} {
			yield(`"`+fill+s+`"`, false)
			yield(`"`+fill+s+fill+`"`, false)
			yield(`/`+fill+strings.ReplaceAll(s, `\u00`, `\x`)+fill+`/`, false)
		}
	}
	// addresses
	for pos := 0; pos < 4; pos++ {
		for o := 0; o < 300; o++ {
			parts := []string{"1", "2", "3", "4"}
			parts[pos] = fmt.Sprint(o)
			a := strings.Join(parts, ".")
			yield(a, false)
			if o%9 == 0 {
				yield(a+"/24", false)
			}
		}
		for _, o := range []string{"00", "01", "007", "0255", "999", "1000", "", "a", "-1", "1 "} {
			parts := []string{"1", "2", "3", "4"}
			parts[pos] = o
			yield(strings.Join(parts, "."), true)
		}
	}
	for b := 0; b < 100; b++ {
		yield(fmt.Sprintf("10.20.30.40/%d", b), false)
		yield(fmt.Sprintf("255.255.255.255/%02d", b), false)
	}
	for _, s := range []string{"1.2.3.4/", "1.2.3.4/100", "1.2.3.4/8/8", "1.2.3", "1.2.3.4.5", "1.2.3.4/a", "1.2.3.4 /8", "::1", "fe80::1/64", "0.0.0.0/0", "1.2.3.4/-1", "1.2.3.4:80"} {
		yield(s, true)
	}
	// dates and times
	for _, y := range []int{0, 1, 1582, 1600, 1900, 1969, 1970, 2000, 2023, 2024, 2100, 2262, 2263, 9999} {
		for m := 0; m <= 13; m++ {
			for d := 0; d <= 32; d++ {
				yield(fmt.Sprintf("%04d-%02d-%02d", y, m, d), false)
			}
			yield(fmt.Sprintf("%04d-%02d-15T12:30:45.000000001Z", y, m), false)
			yield(fmt.Sprintf("%04d-%02d-01T00:00:00+14:00", y, m), false)
			yield(fmt.Sprintf("%04d-%02d-28T23:59:59-12:00", y, m), false)
		}
	}
	for h := 0; h <= 25; h++ {
		yield(fmt.Sprintf("2020-02-29T%02d:00:00Z", h), false)
	}
	for m := 0; m <= 99; m++ {
		yield(fmt.Sprintf("2020-02-29T23:%02d:00Z", m), false)
		if m != 60 {
			yield(fmt.Sprintf("2020-02-29T23:59:%02dZ", m), false)
		}
		if m < 60 {
			yield(fmt.Sprintf("2020-02-29T00:00:00+05:%02d", m), false)
			yield(fmt.Sprintf("2020-12-31T23:59:59-11:%02d", m), false)
		}
		if m < 24 {
			yield(fmt.Sprintf("2020-02-29T00:00:00+%02d:00", m), false)
			yield(fmt.Sprintf("2020-02-28T23:59:59-%02d:30", m), false)
		}
	}
	for n := 1; n <= 12; n++ {
		for _, d := range []string{"0", "1", "9", "123456789012"} {
			f := strings.Repeat(d, n)[:n]
			yield("2020-01-02T03:04:05."+f+"Z", false)
			yield("2020-01-02T23:59:59."+f+"-01:00", false)
		}
	}
	for _, s := range []string{"2020-01-02t03:04:05Z", "2020-01-02 03:04:05Z", "2020-01-02T03:04:05z", "2020-01-02T03:04:05", "2020-01-02T03:04Z", "2020-1-2", "20200102", "2020-01", "02020-01-02", "20-01-02", "-2020-01-02", "2020-01-02Z", "2020-01-02T", "2020/01/02", "2020-01-02T03:04:05.Z", "2020-01-02T3:04:05Z", "2020-01-02T03:04:05+0100", "2020-01-02T03:04:05+01", "2020-02-30T00:00:00Z", "2021-02-29", "2020-01-02T24:00:00Z", "2020-01-02-03"} {
		yield(s, true)
	}
}

func digitStrings(n int) []string {
	var out []string
	strs([]string{"0", "1", "5", "9"}, n, func(s string) {
		if s != "" {
			out = append(out, s)
		}
	})
	return out
}

func runC03(r *mc.Run) {
	mc.Each(r, func(yield func(string)) {
		i := 0
		literals(r, func(lit string, light bool) {
			i++
			yield("a:" + lit)
			if light || i%8 == 0 {
				yield("a:(" + lit + `, "other", 77777)`)
				yield(`a:("other", ` + lit + `,77777)`)
				yield(`a:("other" , 77777 , ` + lit + ")")
				yield("(a: " + lit + ") OR b:1")
				yield(`b:1 AND a:` + lit + " AND c:1")
				yield("a:>" + lit)
				yield("a:~" + lit)
			}
		})
	}, func(w *mc.W, q string) {
		w.Case(q, func() string { return parseDiff(w, q, acceptance|tree) })
		w.Trace()
	})
	// long lists
	mc.EachBatch(r, 1, func(yield func(string)) {
		for _, n := range []int{20, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 500, 501, 1000, 1001, 2000, 4097} {
			list := make([]string, n)
			for i := range list {
				list[i] = fmt.Sprintf([]string{`"v%d"`, `%d`, `%d.5`, `/r%d/`, `"%d"`}[i%5], i)
			}
			yield("a:(" + strings.Join(list, ",") + ")")
		}
	}, func(w *mc.W, q string) {
		w.Case(q, func() string { return parseDiff(w, q, acceptance|tree) })
		w.Trace()
	})
	// every literal of one corpus in every place of a list of up to 12
	lits := []string{"1", "-2", "3.5", `"s"`, "true", "/r/", "1.2.3.4", "10.0.0.0/8", "2020-01-02", "2020-01-02T03:04:05Z", `"\n"`, `/\//`}
	mc.Each(r, func(yield func(string)) {
		for _, l := range lits {
			for n := 2; n <= 12; n++ {
				for k := 0; k < n; k++ {
					list := make([]string, n)
					for i := range list {
						list[i] = fmt.Sprintf(`"o%d"`, i)
					}
					list[k] = l
					yield("a:(" + strings.Join(list, ",") + ")")
				}
			}
		}
	}, func(w *mc.W, q string) {
		w.Case(q, func() string { return parseDiff(w, q, acceptance|tree) })
		w.Trace()
	})
}
