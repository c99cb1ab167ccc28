// mutate lists small changes of the non-test Go files of a repository, one
// JSON object per line: {"id","file","line","op","off","end","new"}.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type mut struct {
	ID   string `json:"id"`
	File string `json:"file"`
	Line int    `json:"line"`
	Op   string `json:"op"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
	New  string `json:"new"`
	Text string `json:"text"`
}

var swap = map[token.Token][]token.Token{
	token.LSS: {token.LEQ, token.GTR}, token.GTR: {token.GEQ, token.LSS},
	token.LEQ: {token.LSS}, token.GEQ: {token.GTR},
	token.EQL: {token.NEQ}, token.NEQ: {token.EQL},
	token.LAND: {token.LOR}, token.LOR: {token.LAND},
	token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.MUL: {token.ADD},
	token.AND: {token.OR}, token.OR: {token.AND}, token.SHL: {token.SHR}, token.SHR: {token.SHL}, token.XOR: {token.AND},
}

func main() {
	root := os.Args[1]
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	n := 0
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, _ := os.ReadFile(p)
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, src, 0)
		if err != nil {
			return nil
		}
		off := func(x token.Pos) int { return fset.Position(x).Offset }
		emit := func(a, b token.Pos, op, s string) {
			n++
			old := string(src[off(a):off(b)])
			if i := strings.IndexByte(old, '\n'); i > 0 {
				old = old[:i] + "..."
			}
			enc.Encode(mut{fmt.Sprintf("m%04d", n), p, fset.Position(a).Line, op, off(a), off(b), s, old + " -> " + s})
		}
		text := func(x ast.Node) string { return string(src[off(x.Pos()):off(x.End())]) }
		var stmts func(list []ast.Stmt)
		stmts = func(list []ast.Stmt) {
			for _, s := range list {
				switch s := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.BranchStmt:
					emit(s.Pos(), s.End(), "del", "")
				case *ast.AssignStmt:
					if s.Tok != token.DEFINE {
						var b bytes.Buffer
						if s.Tok == token.ASSIGN {
							for i := range s.Rhs {
								if i > 0 {
									b.WriteString("; ")
								}
								fmt.Fprintf(&b, "_ = %s", text(s.Rhs[i]))
							}
							if len(s.Lhs) != len(s.Rhs) {
								b.Reset()
							}
						}
						emit(s.Pos(), s.End(), "del", b.String())
					}
				}
			}
		}
		ast.Inspect(f, func(nd ast.Node) bool {
			switch x := nd.(type) {
			case *ast.GenDecl:
				return x.Tok != token.IMPORT
			case *ast.BinaryExpr:
				for _, t := range swap[x.Op] {
					emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), "op", t.String())
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
						emit(x.Pos(), x.End(), "int", fmt.Sprint(v+1))
						if v > 0 {
							emit(x.Pos(), x.End(), "int", fmt.Sprint(v-1))
						}
					}
				}
			case *ast.Ident:
				if x.Name == "true" {
					emit(x.Pos(), x.End(), "bool", "false")
				} else if x.Name == "false" {
					emit(x.Pos(), x.End(), "bool", "true")
				}
			case *ast.BlockStmt:
				stmts(x.List)
			case *ast.CaseClause:
				stmts(x.Body)
				if len(x.Body) > 0 {
					emit(x.Body[0].Pos(), x.Body[0].Pos(), "skipcase", "if true { break }; ")
				}
			case *ast.IfStmt:
				c := text(x.Cond)
				emit(x.Cond.Pos(), x.Cond.End(), "if", "("+c+") && false")
				emit(x.Cond.Pos(), x.Cond.End(), "if", "("+c+") || true")
			case *ast.ReturnStmt:
				for _, r := range x.Results {
					if id, ok := r.(*ast.Ident); ok && id.Name == "err" {
						emit(r.Pos(), r.End(), "ret", "nil")
					}
				}
			case *ast.CallExpr:
				if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "append" && x.Ellipsis.IsValid() && len(x.Args) == 2 {
					if a := text(x.Args[0]); strings.HasPrefix(a, "[]byte") {
						emit(x.Pos(), x.End(), "alias", text(x.Args[1]))
					}
				}
				if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "copyBytes" && len(x.Args) == 1 {
					emit(x.Pos(), x.End(), "alias", text(x.Args[0]))
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					emit(x.OpPos, x.OpPos+1, "not", "")
				}
			}
			return true
		})
		return nil
	})
}
