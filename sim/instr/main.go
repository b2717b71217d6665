// Command instr copies Go source files and puts a scheduling point in front of
// every statement, and between the reading and the writing of a field that a
// statement updates.  Lines stay where they are.
//
// usage: instr < LIST, where LIST has a line "SRC<TAB>DST" per file.  A file
// that does not parse is left out; what was written is listed on stdout.
package main

import (
	"bufio"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"sort"
	"strings"
)

type edit struct {
	at, end int // replace [at, end) by text
	text    string
}

var site int

func next() int {
	site++
	return site
}

// field tells whether x is a.b, a.b.c ...: reading it twice has no side effect.
func field(x ast.Expr) bool {
	s, ok := x.(*ast.SelectorExpr)
	if !ok {
		return false
	}
	if _, ok := s.X.(*ast.Ident); ok {
		return true
	}
	return field(s.X)
}

func instrument(src string) (string, bool) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, "x.go", src, parser.ParseComments)
	if err != nil {
		return "", false
	}
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	var es []edit
	put := func(at int, text string) { es = append(es, edit{at, at, text}) }
	mapWrite := func(s ast.Stmt) bool { // or so it seems
		switch s := s.(type) {
		case *ast.AssignStmt:
			for _, l := range s.Lhs {
				if x, ok := l.(*ast.IndexExpr); ok && field(x.X) {
					return true
				}
			}
		case *ast.ExprStmt:
			if c, ok := s.X.(*ast.CallExpr); ok && len(c.Args) == 2 {
				id, ok := c.Fun.(*ast.Ident)
				return ok && id.Name == "delete" && field(c.Args[0])
			}
		}
		return false
	}
	list := func(l []ast.Stmt) {
		for _, s := range l {
			switch s := s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			case *ast.DeclStmt:
				if g, ok := s.Decl.(*ast.GenDecl); ok && g.Tok != token.VAR {
					continue
				}
			}
			name := "SimPoint"
			if mapWrite(s) {
				name = "SimPointMap"
			}
			put(off(s.Pos()), fmt.Sprintf("verifrt.%s(%d); ", name, next()))
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			list(n.List)
		case *ast.CaseClause:
			list(n.Body)
		case *ast.CommClause:
			list(n.Body)
		case *ast.IncDecStmt:
			if field(n.X) {
				x := src[off(n.X.Pos()):off(n.X.End())]
				es = append(es, edit{off(n.TokPos), off(n.End()), fmt.Sprintf("= verifrt.SimVal(%d, %s %c 1)", next(), x, n.Tok.String()[0])})
			}
		case *ast.AssignStmt:
			if len(n.Lhs) != 1 || len(n.Rhs) != 1 || !field(n.Lhs[0]) {
				return true
			}
			switch n.Tok {
			case token.ASSIGN:
				if c, ok := n.Rhs[0].(*ast.CallExpr); ok {
					if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "append" {
						put(off(c.Pos()), fmt.Sprintf("verifrt.SimVal(%d, ", next()))
						put(off(c.End()), ")")
					}
				}
			case token.DEFINE:
			default:
				x := src[off(n.Lhs[0].Pos()):off(n.Lhs[0].End())]
				op := strings.TrimSuffix(n.Tok.String(), "=")
				es = append(es, edit{off(n.TokPos), off(n.Rhs[0].Pos()), fmt.Sprintf("= verifrt.SimVal(%d, %s %s (", next(), x, op)})
				put(off(n.Rhs[0].End()), "))")
			}
		}
		return true
	})
	if len(es) == 0 {
		return src, true
	}
	put(off(f.Name.End()), `; import verifrt "runtime"`)
	sort.SliceStable(es, func(i, j int) bool { return es[i].at < es[j].at })
	var b strings.Builder
	pos := 0
	for _, e := range es {
		if e.at < pos {
			return "", false
		}
		b.WriteString(src[pos:e.at])
		b.WriteString(e.text)
		pos = e.end
	}
	b.WriteString(src[pos:])
	return b.String(), true
}

func main() {
	in := bufio.NewScanner(os.Stdin)
	for in.Scan() {
		p := strings.Split(in.Text(), "\t")
		if len(p) != 2 {
			continue
		}
		b, err := os.ReadFile(p[0])
		if err != nil {
			continue
		}
		if t, ok := instrument(string(b)); ok {
			if err := os.WriteFile(p[1], []byte(t), 0644); err == nil {
				fmt.Println(in.Text())
			}
		}
	}
	fmt.Printf("sites\t%d\n", site)
}
