package checks

import "github.com/flowchartsman/aql/zz_verif/ref"

// What the checks in programs of their own share with the others.

var Corpus = corpus

func Edits(q string, alphabet []string, yield func(string)) { edits(q, alphabet, yield) }

func Chars(s string) []string { return chars(s) }

// Trees yields every tree with exactly n numbered comparisons.
func Trees(n int, nots bool, yield func(*ref.Node)) { trees(n, nots, numbered, yield) }

// Write writes a tree of numbered comparisons in one of the layouts.
func Write(t *ref.Node, layout int, leaf func(i int) string) string {
	return write(t, styles[layout%len(styles)], func(n *ref.Node) string {
		i := 0
		for _, c := range n.Field[0][1:] {
			i = i*10 + int(c-'0')
		}
		return leaf(i)
	})
}

// Strs yields all strings of up to max symbols.
func Strs(alphabet []string, max int, yield func(string)) { strs(alphabet, max, yield) }

// Numbered is the comparison with a number.
func Numbered(i int) *ref.Node { return numbered(i) }

// AdviceRegex says how many warnings a regular expression gets for itself, and if
// it gets a hint (0 no, 1 yes, -1 not specified).
func AdviceRegex(s string) (warnings, hints int) {
	var w wanted
	adviceRegex(s, &w)
	return w.warnings, w.hints
}
