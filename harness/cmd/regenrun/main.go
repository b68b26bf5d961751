// regenrun parses the texts it gets on its standard input and writes what comes
// out of it, positions included.
package main

import (
	"bufio"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"

	"github.com/flowchartsman/aql/parser"
	"github.com/flowchartsman/aql/parser/ast"
)

func main() {
	in := bufio.NewReaderSize(os.Stdin, 1<<16)
	out := bufio.NewWriterSize(os.Stdout, 1<<16)
	for {
		var n uint32
		if err := binary.Read(in, binary.LittleEndian, &n); err != nil {
			return
		}
		text := make([]byte, n)
		if _, err := io.ReadFull(in, text); err != nil {
			return
		}
		answer := outcome(string(text))
		binary.Write(out, binary.LittleEndian, uint32(len(answer)))
		out.WriteString(answer)
		if in.Buffered() == 0 {
			out.Flush()
		}
	}
}

func outcome(text string) (s string) {
	defer func() {
		if e := recover(); e != nil {
			s = fmt.Sprintf("panic: %v", e)
		}
	}()
	tree, err := parser.ParseQuery(text)
	if err != nil {
		var pe *parser.ParseError
		if errors.As(err, &pe) {
			return "error at " + pos(pe.Pos())
		}
		return "error"
	}
	var sb strings.Builder
	write(&sb, tree)
	return sb.String()
}

func pos(p ast.Pos) string {
	return fmt.Sprintf("%d:%d(%d+%d)", p.Line, p.Col, p.Offset, p.Len)
}

func write(sb *strings.Builder, n ast.Node) {
	switch n := n.(type) {
	case *ast.AndNode:
		sb.WriteString("and(")
		write(sb, n.Left)
		sb.WriteString(", ")
		write(sb, n.Right)
		sb.WriteString(")")
	case *ast.OrNode:
		sb.WriteString("or(")
		write(sb, n.Left)
		sb.WriteString(", ")
		write(sb, n.Right)
		sb.WriteString(")")
	case *ast.NotNode:
		sb.WriteString("not(")
		write(sb, n.Expr)
		sb.WriteString(")")
	case *ast.ExprNode:
		fmt.Fprintf(sb, "%q %s at %s", n.Field, n.Op, pos(n.Position))
		for _, v := range n.RVals {
			fmt.Fprintf(sb, " %s %s at %s", v.Type(), v.String(), pos(v.Pos()))
		}
	default:
		fmt.Fprintf(sb, "%T %s", n, n)
	}
}
