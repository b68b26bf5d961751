package checks

import (
	"github.com/flowchartsman/aql/zz_verif/mc"
	"github.com/flowchartsman/aql/zz_verif/ref"
)

func init() {
	register(&mc.Check{
		ID: "C19",
		Rule: "a state is a comparison with a document; 95 comparisons (every operator and type of value, with values that look like other types) with all of 60 values of all types, each as the field's value, in arrays of up to three with values of other types, and below a path through an array. " +
			"Pairs of different types must not match; pairs of the same type are compared with the model",
		Assumptions: []string{"strings and numbers are read as times by conventions of their own, so timestamps are asked here only of booleans, null and containers"},
		Light:       true,
		Need:        []string{"match", "no match"},
		Run:         runC19,
	})
}

func runC19(r *mc.Run) {
	cmps := []string{
		"true", "false", "~true", "~false", "~(true,false)", `(true,"x")`, `(false,/x/)`,
		`"true"`, `"false"`, `"null"`, `"1"`, `"0"`, `"*"`, `"?"`, `"t*"`, `"*e"`, `"a"`, `"b"`, `"大"`, `"大*"`, `~"true"`, `~"null"`, `"{"`, `"["`, `"]"`, `"}"`, `":"`, `","`, `"object"`, `"a:1"`, `"\""`, `"n???"`,
		"/true/", "/false/", "/null/", "/./", "/.*/", "/^$/", "/^/", "/(?s).*/", "/a/", "/1/", "/{/", `/\[/`, "~/true/", "~/.*/", `/"/`, "/[^x]/", "/x*/",
		"0.0.0.0/0", "1.2.3.4", "255.255.255.255", "0.0.0.0",
		"0", "1", "-1", "0.0", "1.0", "-0", "1.5", "<0", "<=0", ">0", ">=0", "<1", "<=1", ">1", ">=1", ">-1", "<2", ">=-1000000", "<=1000000", "><(-1,1)", "><(0,1)", "><(-1000000,1000000)", "><(-0.5,0.5)", "(0,1)", "(1,2.5)",
		"exists", "null",
	}
	times := []string{"2020-01-01", "1970-01-01", "0001-01-01", "0001-01-01T00:00:00Z", "1970-01-01T00:00:00Z", "<9999-12-31", ">0001-01-01", "<=9999-12-31", ">=0001-01-01", "><(0001-01-01,9999-12-31)", "(2020-01-01,0001-01-01)"}
	var vals []*ref.V
	for _, s := range []string{"true", "false", "null", "0", "1", "-1", "1.5", "-0.0", "1e3", "1000000",
		`"true"`, `"false"`, `"TRUE"`, `"null"`, `""`, `" "`, `"0"`, `"1"`, `"-1"`, `"1.5"`, `"a"`, `"b a"`, `"x"`, `"yes"`, `"no"`, `"t"`, `"f"`, `"None"`, `"1.2.3.4"`, `"0.0.0.0/0"`, `"{}"`, `"[]"`, `"[true]"`, `"{\"a\":true}"`, `"1true"`, `"true1"`, `"on"`,
		"{}", "[]", `{"a":true}`, `{"true":true}`, `{"a":1}`, `{"a":null}`, `{"":""}`, `{"1":1}`, "[[]]", "[[true]]", "[[1]]", `[["a"]]`, "[{}]", `[{"a":true}]`, `[{"a":1}]`, "[null]", "[null,null]", "[true,true]", "[false,null]", `{"a":{"a":true}}`, `[[null],{"b":false}]`} {
		v, ok := ref.ParseJSON([]byte(s))
		if !ok {
			panic(s)
		}
		vals = append(vals, v)
	}
	var docs []*ref.V
	for i, v := range vals {
		docs = append(docs, ref.VObj("a", v), ref.VObj("b", ref.VBool(true), "a", v, "true", ref.VNum("1")))
		for k := 0; k < len(vals); k++ {
			o := vals[k]
			if (i+k)%3 == 0 {
				docs = append(docs, ref.VObj("a", ref.VArr(v, o)))
			}
			if (i+k)%5 == 0 {
				docs = append(docs, ref.VObj("a", ref.VArr(ref.VArr(v), o, ref.VObj("a", v))))
			}
		}
	}
	var qs []string
	for _, c := range cmps {
		if c == `"大"` {
			continue // asked below
		}
		qs = append(qs, "a:"+c)
	}
	mod := *model
	mod.Loose = func(term, text string) bool { return false }
	as := ask(r, qs)
	as = append(as, ask(r, []string{`a:"大"`, `a:("大",true)`, "NOT a:true", "NOT a:null", `NOT a:"*"`})...)
	mc.EachBatch(r, 4, mc.Slice(docs), func(w *mc.W, d *ref.V) {
		text := d.JSON()
		for _, a := range as {
			a.check(w, &mod, d, text)
		}
	})
	// below a path through an array
	qs = nil
	for i, c := range cmps {
		if i%2 == 0 && c != `"大"` {
			qs = append(qs, "x.a:"+c)
		}
	}
	as2 := ask(r, qs)
	mc.EachBatch(r, 4, mc.Slice(docs), func(w *mc.W, d *ref.V) {
		doc := ref.VObj("x", ref.VArr(ref.VBool(true), ref.VStr("true"), d, ref.VNull(), ref.VArr(d)))
		text := doc.JSON()
		for _, a := range as2 {
			a.check(w, &mod, doc, text)
		}
	})
	// times
	qs = nil
	for _, c := range times {
		qs = append(qs, "a:"+c)
	}
	as3 := ask(r, qs)
	mc.EachBatch(r, 4, mc.Slice(docs), func(w *mc.W, d *ref.V) {
		for _, v := range ref.Scalars(ref.Select(d, []string{"a"})) {
			if v.K == ref.Num || v.K == ref.Str {
				return
			}
		}
		text := d.JSON()
		for _, a := range as3 {
			a.check(w, &mod, d, text)
		}
	})
}
