// mutate lists small changes of Go source files, one JSON object per line:
// the file, the bytes to replace, and what to put there.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mutant struct {
	File       string `json:"file"`
	From, To   int
	New, Where string
}

var enc = json.NewEncoder(os.Stdout)

func main() {
	for _, f := range os.Args[1:] {
		list(f)
	}
}

func list(name string) {
	src, err := os.ReadFile(name)
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	file, err := parser.ParseFile(fset, name, src, 0)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	fn := ""
	put := func(from, to token.Pos, s string) {
		a, b := off(from), off(to)
		_ = enc.Encode(mutant{name, a, b, s, fmt.Sprintf("%s:%d: %s -> %s", fn, fset.Position(from).Line, src[a:b], s)})
	}
	swaps := map[token.Token][]string{
		token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
		token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"},
		token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.REM: {"/"}, token.XOR: {"|"},
	}
	ast.Inspect(file, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GenDecl:
			return fn != "" || x.Tok != token.VAR
		case *ast.FuncDecl:
			fn = x.Name.Name
			if x.Recv != nil {
				if s, ok := x.Recv.List[0].Type.(*ast.StarExpr); ok {
					fn = fmt.Sprint(s.X) + "." + fn
				}
			}
			// another field of the same value
			names := map[string][]string{}
			each := func(f func(base string, s *ast.SelectorExpr)) {
				ast.Inspect(x, func(n ast.Node) bool {
					if s, ok := n.(*ast.SelectorExpr); ok {
						f(string(src[off(s.X.Pos()):off(s.X.End())]), s)
					}
					return true
				})
			}
			each(func(b string, s *ast.SelectorExpr) {
				for _, k := range names[b] {
					if k == s.Sel.Name {
						return
					}
				}
				names[b] = append(names[b], s.Sel.Name)
			})
			each(func(b string, s *ast.SelectorExpr) {
				ns := names[b]
				for i, k := range ns {
					if k == s.Sel.Name && len(ns) > 1 {
						put(s.Sel.Pos(), s.Sel.End(), ns[(i+1)%len(ns)])
						if len(ns) > 2 {
							put(s.Sel.Pos(), s.Sel.End(), ns[(i+len(ns)-1)%len(ns)])
						}
					}
				}
			})
		case *ast.Field:
			if x.Tag != nil {
				for _, w := range []string{",omitempty", ",attr"} {
					for i := 0; ; {
						j := strings.Index(x.Tag.Value[i:], w)
						if j < 0 {
							break
						}
						i += j + len(w)
						put(x.Tag.Pos(), x.Tag.End(), x.Tag.Value[:i-len(w)]+x.Tag.Value[i:])
					}
				}
			}
		case *ast.BinaryExpr:
			for _, s := range swaps[x.Op] {
				put(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s)
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
					put(x.Pos(), x.End(), fmt.Sprint(v+1))
					if v > 0 {
						put(x.Pos(), x.End(), fmt.Sprint(v-1))
					}
				}
			}
		case *ast.Ident:
			if x.Name == "true" {
				put(x.Pos(), x.End(), "false")
			} else if x.Name == "false" {
				put(x.Pos(), x.End(), "true")
			}
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				put(x.OpPos, x.OpPos+1, "")
			}
		case *ast.IfStmt:
			put(x.Cond.Pos(), x.Cond.End(), "true || "+string(src[off(x.Cond.Pos()):off(x.Cond.End())]))
			put(x.Cond.Pos(), x.Cond.End(), "false && ("+string(src[off(x.Cond.Pos()):off(x.Cond.End())])+")")
		case *ast.BlockStmt:
			for _, s := range x.List {
				switch y := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt:
					put(s.Pos(), s.End(), "")
				case *ast.AssignStmt:
					if y.Tok != token.DEFINE {
						put(s.Pos(), s.End(), "")
					}
				}
			}
		case *ast.CaseClause:
			for i, e := range x.List {
				if len(x.List) > 1 && i > 0 {
					put(x.List[i-1].End(), e.End(), "")
				}
			}
		}
		return true
	})
}
