// instr writes a copy of every non-test Go file of a repository in which each
// statement is preceded by a call of hook.P and sync is replaced by vsync, and
// a build overlay that puts the copies in place of the files. Files that do
// not parse are left alone.
//
//	instr REPO OUTDIR OVERLAY-IN OVERLAY-OUT
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type edit struct {
	off int
	del int
	ins string
}

func instrument(src []byte) ([]byte, bool) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", src, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		return nil, false
	}
	off := func(p token.Pos) int { return fset.PositionFor(p, false).Offset }
	var eds []edit
	n := 0
	list := func(l []ast.Stmt) {
		for _, s := range l {
			if _, is := s.(*ast.EmptyStmt); is {
				continue
			}
			eds = append(eds, edit{off(s.Pos()), 0, "vsimhook_.P(); "})
			n++
		}
	}
	ast.Inspect(f, func(x ast.Node) bool {
		switch v := x.(type) {
		case *ast.SwitchStmt: // its body holds clauses, not statements
			for _, c := range v.Body.List {
				list(c.(*ast.CaseClause).Body)
			}
		case *ast.TypeSwitchStmt:
			for _, c := range v.Body.List {
				list(c.(*ast.CaseClause).Body)
			}
		case *ast.SelectStmt:
			for _, c := range v.Body.List {
				list(c.(*ast.CommClause).Body)
			}
		case *ast.BlockStmt:
			for _, s := range v.List {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			list(v.List)
		}
		return true
	})
	for _, im := range f.Imports {
		if im.Path.Value == `"sync"` {
			name := "sync "
			if im.Name != nil {
				name = ""
			}
			eds = append(eds, edit{off(im.Path.Pos()), len(im.Path.Value), name + `"verifsim/vsync"`})
		}
	}
	if n > 0 {
		eds = append(eds, edit{off(f.Name.End()), 0, `; import vsimhook_ "verifsim/hook"`})
	}
	if len(eds) == 0 {
		return nil, false
	}
	sort.SliceStable(eds, func(i, j int) bool { return eds[i].off < eds[j].off })
	var out bytes.Buffer
	at := 0
	for _, e := range eds {
		out.Write(src[at:e.off])
		out.WriteString(e.ins)
		at = e.off + e.del
	}
	out.Write(src[at:])
	return out.Bytes(), true
}

func main() {
	repo, dir, in, outp := os.Args[1], os.Args[2], os.Args[3], os.Args[4]
	fail := func(err error) {
		if err != nil {
			fmt.Fprintln(os.Stderr, "instr:", err)
			os.Exit(1)
		}
	}
	var ov struct{ Replace map[string]string }
	b, err := os.ReadFile(in)
	fail(err)
	fail(json.Unmarshal(b, &ov))
	var files []string
	fail(filepath.WalkDir(repo, func(p string, d os.DirEntry, err error) error {
		if err != nil {
			return err
		}
		b := d.Name()
		if d.IsDir() {
			if p != repo && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(b, ".go") && !strings.HasSuffix(b, "_test.go") {
			files = append(files, p)
		}
		return nil
	}))
	fail(os.MkdirAll(dir, 0o755))
	for _, p := range files {
		from := p
		if r, ok := ov.Replace[p]; ok {
			from = r
		}
		src, err := os.ReadFile(from)
		fail(err)
		res, ok := instrument(src)
		if !ok {
			continue
		}
		rel, _ := filepath.Rel(repo, p)
		dst := filepath.Join(dir, strings.ReplaceAll(rel, "/", "__"))
		if old, err := os.ReadFile(dst); err != nil || !bytes.Equal(old, res) {
			fail(os.WriteFile(dst, res, 0o644))
		}
		ov.Replace[p] = dst
	}
	b, err = json.MarshalIndent(ov, "", " ")
	fail(err)
	if old, err := os.ReadFile(outp); err != nil || !bytes.Equal(old, b) {
		fail(os.WriteFile(outp, b, 0o644))
	}
}
