// Package graphs checks the graphs of queries.
package graphs

import (
	"fmt"
	"html"
	"regexp"
	"strings"
)

// dot is a graph read from DOT text.
type dot struct {
	nodes map[string]map[string]string // attributes by name
	order []string
	out   map[string][]string // targets of the edges of a node, in order
	edges int
	title string
}

type token struct {
	text string
	kind byte // i identifier, q quoted, h HTML, p punctuation
}

func lex(s string) ([]token, error) {
	var out []token
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case strings.HasPrefix(s[i:], "->"):
			out = append(out, token{"->", 'p'})
			i += 2
		case strings.IndexByte("{}[]=,;", c) >= 0:
			out = append(out, token{string(c), 'p'})
			i++
		case c == '"':
			var sb strings.Builder
			i++
			for {
				if i >= len(s) {
					return nil, fmt.Errorf("a string does not end")
				}
				if s[i] == '"' {
					i++
					break
				}
				if s[i] == '\\' && i+1 < len(s) {
					switch s[i+1] {
					case '"':
						sb.WriteByte('"')
					case '\n':
					default:
						sb.WriteString(s[i : i+2])
					}
					i += 2
					continue
				}
				sb.WriteByte(s[i])
				i++
			}
			out = append(out, token{sb.String(), 'q'})
		case c == '<':
			depth, j := 0, i
			for ; j < len(s); j++ {
				if s[j] == '<' {
					depth++
				} else if s[j] == '>' {
					depth--
					if depth == 0 {
						break
					}
				}
			}
			if j == len(s) {
				return nil, fmt.Errorf("an HTML string does not end")
			}
			out = append(out, token{s[i+1 : j], 'h'})
			i = j + 1
		default:
			j := i
			for j < len(s) && (s[j] == '_' || s[j] == '.' || s[j] == '-' && s[j+1] != '>' || s[j] >= '0' && s[j] <= '9' || s[j] >= 'a' && s[j] <= 'z' || s[j] >= 'A' && s[j] <= 'Z' || s[j] >= 128) {
				j++
			}
			if j == i {
				return nil, fmt.Errorf("unexpected %q", s[i:min(len(s), i+20)])
			}
			out = append(out, token{s[i:j], 'i'})
			i = j
		}
	}
	return out, nil
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// readDOT reads one directed graph.
func readDOT(s string) (*dot, error) {
	ts, err := lex(s)
	if err != nil {
		return nil, err
	}
	d := &dot{nodes: map[string]map[string]string{}, out: map[string][]string{}}
	i := 0
	is := func(k int, text string) bool { return k < len(ts) && ts[k].kind == 'p' && ts[k].text == text }
	if len(ts) < 4 || ts[0].text != "digraph" || !is(2, "{") || !is(len(ts)-1, "}") {
		return nil, fmt.Errorf("no directed graph")
	}
	i = 3
	attrs := func() (map[string]string, error) {
		a := map[string]string{}
		if !is(i, "[") {
			return a, nil
		}
		i++
		for !is(i, "]") {
			if i+2 >= len(ts) || ts[i].kind == 'p' || !is(i+1, "=") || ts[i+2].kind == 'p' {
				return nil, fmt.Errorf("no attribute at token %d", i)
			}
			v := ts[i+2].text
			if ts[i+2].kind == 'h' {
				v = "<" + v + ">"
			}
			a[ts[i].text] = v
			i += 3
			if is(i, ",") {
				i++
			}
		}
		i++
		return a, nil
	}
	for i < len(ts)-1 {
		if ts[i].kind == 'p' {
			return nil, fmt.Errorf("unexpected %q", ts[i].text)
		}
		name, quoted := ts[i].text, ts[i].kind == 'q'
		i++
		if is(i, "->") {
			if ts[i+1].kind == 'p' {
				return nil, fmt.Errorf("no target of an edge")
			}
			to := ts[i+1].text
			i += 2
			if _, err := attrs(); err != nil {
				return nil, err
			}
			d.out[name] = append(d.out[name], to)
			d.edges++
		} else {
			a, err := attrs()
			if err != nil {
				return nil, err
			}
			if !quoted && name == "graph" {
				d.title = strings.ReplaceAll(a["label"], `\\`, `\`)
			}
			if quoted || name != "graph" && name != "node" && name != "edge" {
				if d.nodes[name] != nil {
					return nil, fmt.Errorf("node %s twice", name)
				}
				d.nodes[name] = a
				d.order = append(d.order, name)
			}
		}
		if !is(i, ";") {
			return nil, fmt.Errorf("no end of a statement before token %d", i)
		}
		i++
	}
	return d, nil
}

var (
	cellRE = regexp.MustCompile(`(?is)<td[^>]*>(.*?)</td>`)
	tagRE  = regexp.MustCompile(`<[^>]*>`)
)

// cells returns the texts of the cells of an HTML table.
func cells(label string) []string {
	var out []string
	for _, m := range cellRE.FindAllStringSubmatch(label, -1) {
		out = append(out, html.UnescapeString(tagRE.ReplaceAllString(m[1], "")))
	}
	return out
}
