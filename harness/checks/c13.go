package checks

import (
	"fmt"
	"math/big"
	"sort"
	"strings"

	"github.com/flowchartsman/aql/zz_verif/mc"
	"github.com/flowchartsman/aql/zz_verif/ref"
)

func init() {
	register(&mc.Check{
		ID: "C13",
		Rule: "a state is a comparison with a document; 125 operands and all five operators with 200 spellings of numbers (integers, decimals, exponents, as numbers and as strings), between with all pairs of 52 bounds in order, all integers and halves from -130 to 130 around each other, 50 values that are no numbers and every other printable character after, before and within a number, 32 spellings of numbers of up to 5000 digits with 108 comparisons. " +
			"The model compares exact rational numbers",
		Assumptions: []string{"decimals that differ only beyond the precision of a float64 are left out; integers beyond 2^53 are in, see the known findings"},
		Light:       true,
		Need:        []string{"match", "no match"},
		Run:         runC13,
	})
}

var operandNumbers = []string{
	"0", "-0", "1", "-1", "2", "-2", "3", "5", "7", "8", "9", "10", "11", "12", "15", "16", "17", "31", "32", "33", "63", "64", "65", "99", "100", "101", "127", "128", "129", "255", "256", "257", "-127", "-128", "-129", "-255", "-256",
	"999", "1000", "1001", "1023", "1024", "1025", "4095", "4096", "9999", "10000", "32767", "32768", "-32768", "-32769", "65535", "65536", "99999", "100000", "1000000", "-1000000", "16777215", "16777216", "16777217", "-16777217",
	"2147483647", "2147483648", "2147483649", "-2147483648", "-2147483649", "4294967295", "4294967296", "4294967297", "10000000000", "1000000000000", "4503599627370496", "4503599627370497", "9007199254740991", "9007199254740992", "-9007199254740991", "-9007199254740992",
	"0.5", "-0.5", "1.5", "-1.5", "0.1", "0.2", "0.3", "0.25", "0.75", "0.01", "0.001", "-0.001", "0.000001", "1.0", "-1.0", "2.0", "10.0", "1.1", "1.9", "1.99", "2.01", "9.5", "9.99", "10.01", "99.5", "100.5", "255.5", "256.5", "1000.5", "999.999", "1000.001", "12345.678", "-12345.678", "65535.5", "2147483647.5", "4294967295.5", "0.30000000000000004", "0.1000000001", "1.0000000001", "0.9999999999", "123456789.125", "1000000.0", "0.0", "-0.0", "3.14159", "2.718281828", "-3.14159", "1.10",
}

// moreNumbers are spellings only documents have.
var moreNumbers = []string{
	"1e0", "1E0", "1e+0", "1e-0", "10e-1", "0.1e1", "1e1", "1e2", "1e3", "1.5e0", "15e-1", "0.15e1", "-1e0", "-1E+0", "2e0", "25e-2", "1e-1", "1e-2", "1e-3", "1e10", "1E12", "1e-10", "1e15", "1e20", "1e100", "-1e100", "1e300", "1.7976931348623157e308", "5e-324", "1e-300", "2.147483648e9", "4.294967296e9", "6.5536e4", "0e0", "0e5", "-0e0", "0.0000001", "1.00", "1.000", "12.50e1", "100e-2", "99999999999999999999", "0.99999", "1.00001", "3e0", "1.6e1", "2.56e2", "1e6", "1.0e6", "1e308", "1e309", "-1e309", "1.8e308", "-1.8e308", "1e400", "-1E+400", "1e999", "-1e999", "0.1e310", "0e999", "-0e999", "1234567890123456789012345678901234567890",
}

var notNumbers = []string{`""`, `"one"`, `"-"`, `"1a"`, `"a1"`, `"1,5"`, `"--1"`, `"1e"`, `"e1"`, `"1.2.3"`, `"1 2"`, `"true"`, `"null"`, `"1-1"`, `"2020-01-01"`, `"1.2.3.4"`, `"$1"`, `"1%"`, `"."`, `"e"`, `"-e1"`, `"1e1e1"`, `"1..0"`, `"1/2"`, `"[1]"`, `"١"`, `"１"`, `"inf"`, `"Inf"`, `"-inf"`, `"+Inf"`, `"infinity"`, `"-Infinity"`, `"nan"`, `"NaN"`, `"inf1"`, `"1inf"`, `" 1"`, `"1 "`, `"\t1"`, `"1\n"`, `" "`, `"1\u0000"`, `"\u00a01"`,
	"true", "false", "null", "{}", "[]", `{"a":1}`, "[[1]]", `[{"a":1}]`, "[null]", "[true,false]", `["x"]`, `[[],{}]`, `[null,"1x"]`}

func runC13(r *mc.Run) {
	ops := []string{"", "<", "<=", ">", ">="}
	var docs []*ref.V
	var texts []string
	addDoc := func(v *ref.V) {
		doc := ref.VObj("a", v)
		docs = append(docs, doc)
		texts = append(texts, doc.JSON())
	}
	for _, n := range append(append([]string{}, operandNumbers...), moreNumbers...) {
		addDoc(ref.VNum(n))
		addDoc(ref.VStr(n))
	}
	check := func(w *mc.W, q string, docs []*ref.V, texts []string) {
		m := newMatcher(w, q)
		t, err := ref.Parse(q)
		if m == nil || err != nil {
			return
		}
		a := asked{q, t, m}
		for i, d := range docs {
			a.check(w, model, d, texts[i])
		}
		w.Trace()
	}
	mc.EachBatch(r, 4, func(yield func(string)) {
		for _, n := range operandNumbers {
			for _, op := range ops {
				yield("a:" + op + n)
			}
		}
		seen := map[string]bool{}
		var bounds []string
		for i, n := range operandNumbers {
			x, _ := new(big.Rat).SetString(n)
			if (i%3 == 0 || r.Thorough) && !seen[x.String()] {
				seen[x.String()] = true
				bounds = append(bounds, n)
			}
		}
		sort.Slice(bounds, func(i, j int) bool {
			a, _ := new(big.Rat).SetString(bounds[i])
			b, _ := new(big.Rat).SetString(bounds[j])
			return a.Cmp(b) < 0
		})
		for i := range bounds {
			for j := i + 1; j < len(bounds); j++ {
				yield("a:><(" + bounds[i] + "," + bounds[j] + ")")
			}
		}
	}, func(w *mc.W, q string) { check(w, q, docs, texts) })
	// neighbours
	mc.EachBatch(r, 4, func(yield func(int)) {
		for n := -260; n <= 260; n++ {
			yield(n)
		}
	}, func(w *mc.W, n int) {
		num := func(h int) string {
			s := fmt.Sprint(h / 2)
			if h%2 != 0 {
				s += ".5"
			}
			if h == -1 {
				s = "-0.5"
			}
			return s
		}
		var docs []*ref.V
		var texts []string
		for d := -3; d <= 3; d++ {
			for _, v := range []*ref.V{ref.VNum(num(n + d)), ref.VStr(num(n + d)), ref.VArr(ref.VNum(num(n+d)), ref.VNull())} {
				doc := ref.VObj("a", v)
				docs = append(docs, doc)
				texts = append(texts, doc.JSON())
			}
		}
		for _, op := range ops {
			check(w, "a:"+op+num(n), docs, texts)
		}
		check(w, "a:><("+num(n-1)+","+num(n+1)+")", docs, texts)
		check(w, "a:><("+num(n)+","+num(n+2)+")", docs, texts)
	})
	// no numbers
	var nds []*ref.V
	for c := ' '; c <= '~'; c++ {
		if c >= '0' && c <= '9' || strings.ContainsRune("+-._eE", c) {
			continue
		}
		for _, s := range []string{"1" + string(c), string(c) + "1", "1" + string(c) + "0", "-1" + string(c), "1.5" + string(c), "0.5e1" + string(c)} {
			nds = append(nds, ref.VObj("a", ref.VStr(s)))
		}
	}
	for _, s := range notNumbers {
		v, ok := ref.ParseJSON([]byte(s))
		if !ok {
			panic(s)
		}
		nds = append(nds, ref.VObj("a", v))
	}
	var nts []string
	for _, d := range nds {
		nts = append(nts, d.JSON())
	}
	mc.Each(r, func(yield func(string)) {
		for _, n := range []string{"0", "1", "-1", "0.0", "1.5", "-0.5", "2", "100", "2020", "-9007199254740991", "9007199254740991", "-99999999.5"} {
			for _, op := range ops {
				yield("a:" + op + n)
			}
		}
		for _, b := range []string{"-1,1", "0,1", "-9007199254740991,9007199254740991", "-1.5,0.5", "0.5,2021"} {
			yield("a:><(" + b + ")")
		}
	}, func(w *mc.W, q string) { check(w, q, nds, nts) })
	// numbers of many digits; the exponents and the last digits matter
	lengths := []int{10, 15, 17, 18, 19, 20, 24, 25, 26, 30, 39, 40, 41, 50, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 401, 801, 1101, 5000}
	if r.Deep {
		for n := 10; n <= 300; n++ {
			lengths = append(lengths, n)
		}
	}
	var lds []*ref.V
	var lts []string
	for _, n := range lengths {
		zeros := strings.Repeat("0", n)
		for _, sign := range []string{"", "-"} {
			for _, s := range []string{
				"1" + zeros, "25" + zeros, "1" + zeros + fmt.Sprintf("e-%d", n), "15" + zeros + fmt.Sprintf("E-%d", n+1), "3" + zeros + fmt.Sprintf(".0e-%d", n+1), "2" + zeros + ".5",
				"0." + zeros + "1", "1." + zeros, "1.5" + zeros, "0." + zeros + fmt.Sprintf("1e%d", n+1), "0." + zeros + fmt.Sprintf("25e+%d", n+2), "1.5" + zeros + "e1", "0.15" + zeros + "E+001", "100" + ".0" + zeros + "e-2",
				"1e" + strings.Repeat("0", n%40) + "2", "1e-" + strings.Repeat("0", n%40) + "1",
			} {
				if n > 300 && s == "0."+zeros+"1" {
					continue // taken for zero
				}
				for _, v := range []*ref.V{ref.VNum(sign + s), ref.VStr(sign + s)} {
					d := ref.VObj("a", v)
					lds, lts = append(lds, d), append(lts, d.JSON())
				}
			}
		}
	}
	mc.Each(r, func(yield func(string)) {
		for _, n := range []string{"0", "1", "-1", "1.5", "-1.5", "0.3", "-0.3", "2", "0.25", "-0.25", "10", "15", "-15", "100", "-100", "9007199254740991", "-9007199254740991", "0.001", "250000000000", "1.50"} {
			for _, op := range ops {
				yield("a:" + op + n)
			}
		}
		for _, b := range []string{"-1,1", "0,1", "1.5,100", "-100,-1.5", "0.25,0.3", "-0.3,-0.25", "10,15", "-9007199254740991,9007199254740991"} {
			yield("a:><(" + b + ")")
		}
	}, func(w *mc.W, q string) { check(w, q, lds, lts) })
	// integers a float64 cannot tell apart
	big := []string{"9007199254740992", "9007199254740993", "9007199254740994", "9223372036854775806", "9223372036854775807", "-9007199254740993", "-9007199254740992"}
	var bds []*ref.V
	var bts []string
	for _, n := range big {
		d := ref.VObj("a", ref.VNum(n))
		bds, bts = append(bds, d), append(bts, d.JSON())
	}
	mc.Each(r, func(yield func(string)) {
		for _, n := range big {
			for _, op := range ops {
				yield("a:" + op + n)
			}
		}
	}, func(w *mc.W, q string) { check(w, q, bds, bts) })
}
