// Command mutate lists small changes of Go files, one JSON object per line: the
// bytes from Start to End of File are replaced by New. It was used to look for
// changes that the checks do not notice.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mutant struct {
	File       string
	Line       int
	Start, End int
	New        string
	What       string
}

var swaps = map[token.Token][]string{
	token.EQL: {"!="}, token.NEQ: {"=="},
	token.LSS: {"<=", ">="}, token.LEQ: {"<"}, token.GTR: {">=", "<="}, token.GEQ: {">"},
	token.LAND: {"||"}, token.LOR: {"&&"},
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"},
	token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"},
}

var assigns = map[token.Token]string{token.ADD_ASSIGN: "-=", token.SUB_ASSIGN: "+=", token.INC: "--", token.DEC: "++"}

func main() {
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, file, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		seen := map[string]bool{}
		emit := func(start, end token.Pos, new, what string) {
			m := mutant{file, fset.Position(start).Line, off(start), off(end), new, what}
			k := fmt.Sprint(m.Start, m.End, m.New)
			if !seen[k] {
				seen[k] = true
				enc.Encode(m)
			}
		}
		table := false
		var visit func(n ast.Node) bool
		list := func(ls []ast.Stmt) {
			for _, s := range ls {
				switch s := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.BranchStmt:
					emit(s.Pos(), s.End(), "", "delete "+text(s))
				case *ast.AssignStmt:
					if s.Tok != token.DEFINE {
						emit(s.Pos(), s.End(), "", "delete "+text(s))
					}
				case *ast.IfStmt:
					if s.Else == nil {
						emit(s.Pos(), s.End(), "", "delete if "+text(s.Cond))
					}
				}
			}
		}
		visit = func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.ImportSpec, *ast.StructType:
				return false
			case *ast.GenDecl:
				if n.Tok == token.VAR && len(n.Specs) == 1 {
					if v := n.Specs[0].(*ast.ValueSpec); len(v.Names) == 1 && v.Names[0].Name == "g" {
						table = true
						for _, x := range v.Values {
							ast.Inspect(x, visit)
						}
						table = false
						return false
					}
				}
			case *ast.KeyValueExpr:
				if k, ok := n.Key.(*ast.Ident); ok && k.Name == "pos" && table {
					return false
				}
				if k, ok := n.Key.(*ast.Ident); ok && table && (k.Name == "name" || k.Name == "displayName" || k.Name == "want" || k.Name == "label" || k.Name == "run") {
					return false
				}
			case *ast.CompositeLit:
				if t, ok := n.Type.(*ast.Ident); ok && table {
					for _, p := range [][2]string{{"zeroOrMoreExpr", "oneOrMoreExpr"}, {"zeroOrOneExpr", "oneOrMoreExpr"}, {"oneOrMoreExpr", "zeroOrMoreExpr"}, {"zeroOrMoreExpr", "zeroOrOneExpr"}, {"notExpr", "andExpr"}, {"oneOrMoreExpr", "zeroOrOneExpr"}} {
						if t.Name == p[0] {
							emit(t.Pos(), t.End(), p[1], p[0]+" to "+p[1])
						}
					}
				}
				if _, ok := n.Type.(*ast.ArrayType); ok {
					for i, e := range n.Elts {
						if len(n.Elts) > 1 {
							end := e.End()
							start := e.Pos()
							if i+1 < len(n.Elts) {
								end = n.Elts[i+1].Pos()
							} else {
								start = n.Elts[i-1].End()
							}
							emit(start, end, "", "drop element "+text(e))
						}
						if table && i+1 < len(n.Elts) {
							if _, ok := e.(*ast.BasicLit); !ok {
								emit(e.Pos(), n.Elts[i+1].End(), text(n.Elts[i+1])+", "+text(e), "swap elements")
							}
						}
					}
				}
			case *ast.BinaryExpr:
				for _, s := range swaps[n.Op] {
					emit(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), s, n.Op.String()+" to "+s+" in "+text(n))
				}
				if n.Op == token.LAND || n.Op == token.LOR {
					emit(n.Pos(), n.End(), text(n.X), text(n)+" to its left side")
					emit(n.Pos(), n.End(), text(n.Y), text(n)+" to its right side")
				}
			case *ast.UnaryExpr:
				if n.Op == token.NOT || n.Op == token.SUB {
					emit(n.OpPos, n.X.Pos(), "", "drop "+n.Op.String()+" in "+text(n))
				}
			case *ast.IfStmt:
				if _, ok := n.Cond.(*ast.BinaryExpr); !ok {
					emit(n.Cond.Pos(), n.Cond.End(), "!("+text(n.Cond)+")", "negate "+text(n.Cond))
				}
			case *ast.IncDecStmt:
				emit(n.TokPos, n.TokPos+2, assigns[n.Tok], n.Tok.String()+" turned in "+text(n))
			case *ast.AssignStmt:
				if s := assigns[n.Tok]; s != "" {
					emit(n.TokPos, n.TokPos+2, s, n.Tok.String()+" turned in "+text(n))
				}
			case *ast.Ident:
				if n.Name == "true" || n.Name == "false" {
					emit(n.Pos(), n.End(), strconv.FormatBool(n.Name == "false"), n.Name+" flipped")
				}
			case *ast.BasicLit:
				switch n.Kind {
				case token.INT:
					if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
						emit(n.Pos(), n.End(), strconv.FormatInt(v+1, 10), n.Value+" plus 1")
						if v > 0 {
							emit(n.Pos(), n.End(), strconv.FormatInt(v-1, 10), n.Value+" minus 1")
						}
					}
				case token.CHAR:
					if r, _, _, err := strconv.UnquoteChar(n.Value[1:], '\''); err == nil {
						emit(n.Pos(), n.End(), strconv.QuoteRune(r+1), n.Value+" plus 1")
						if table {
							emit(n.Pos(), n.End(), strconv.QuoteRune(r-1), n.Value+" minus 1")
						}
					}
				case token.STRING:
					if s, err := strconv.Unquote(n.Value); err == nil && s != "" && strings.IndexByte(s, '%') < 0 {
						emit(n.Pos(), n.End(), strconv.Quote(s+"x"), n.Value+" with an x")
						emit(n.Pos(), n.End(), strconv.Quote(s[:len(s)-1]), n.Value+" without its end")
					}
				}
			case *ast.BlockStmt:
				list(n.List)
			case *ast.CaseClause:
				list(n.Body)
				if len(n.Body) > 0 {
					emit(n.Body[0].Pos(), n.Body[len(n.Body)-1].End(), "", "empty case at "+text(n.Body[0]))
				}
				for i, e := range n.List {
					if len(n.List) > 1 {
						if i+1 < len(n.List) {
							emit(e.Pos(), n.List[i+1].Pos(), "", "drop case "+text(e))
						} else {
							emit(n.List[i-1].End(), e.End(), "", "drop case "+text(e))
						}
					}
				}
			}
			return true
		}
		ast.Inspect(f, visit)
	}
}
