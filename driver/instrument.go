package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type insertion struct {
	off  int
	text string
	del  int // bytes replaced
}

// instrument inserts a preemption point before every statement of a Go file of
// the code under test and routes passphrase prompts to the simulator. The
// edits are text insertions, so line numbers stay what they are.
func instrument(path string, src []byte, pkgRename string) ([]byte, int, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return nil, 0, err
	}
	var ins []insertion
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	n := 0
	list := func(l []ast.Stmt) {
		for _, s := range l {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			ins = append(ins, insertion{off(s.Pos()), "zzrt.SimYield(); ", 0})
			n++
		}
	}
	termName := ""
	for _, im := range f.Imports {
		p := strings.Trim(im.Path.Value, "\"`")
		if strings.HasSuffix(p, "/ssh/terminal") || strings.HasSuffix(p, "x/term") {
			termName = filepath.Base(p)
			if im.Name != nil {
				termName = im.Name.Name
			}
		}
	}
	keepTerm := false
	ast.Inspect(f, func(x ast.Node) bool {
		switch v := x.(type) {
		case *ast.BlockStmt:
			// the block of a switch or select holds clauses, not statements
			if len(v.List) > 0 {
				switch v.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			list(v.List)
		case *ast.CaseClause:
			list(v.Body)
		case *ast.CommClause:
			list(v.Body)
		case *ast.SelectorExpr:
			if id, ok := v.X.(*ast.Ident); ok && termName != "" && id.Name == termName && v.Sel.Name == "ReadPassword" {
				a, b := off(v.Pos()), off(v.End())
				ins = append(ins, insertion{a, "zzrt.SimReadPassword", b - a})
				keepTerm = true
				n++
			}
		case *ast.FuncDecl:
			if pkgRename != "" && v.Recv == nil && v.Name.Name == "main" {
				ins = append(ins, insertion{off(v.Name.Pos()), "Main", 4})
			}
		}
		return true
	})
	head := ""
	if n > 0 {
		head = `; import zzrt "runtime"`
	}
	nameEnd := off(f.Name.End())
	if pkgRename != "" {
		a := off(f.Name.Pos())
		ins = append(ins, insertion{a, pkgRename, nameEnd - a})
	}
	ins = append(ins, insertion{nameEnd, head, 0})
	if keepTerm {
		ins = append(ins, insertion{len(src), "\nvar _ = " + termName + ".ReadPassword\n", 0})
	}
	sort.SliceStable(ins, func(i, j int) bool { return ins[i].off < ins[j].off })
	var out []byte
	pos := 0
	for _, i := range ins {
		if i.off < pos {
			return nil, 0, fmt.Errorf("%s: overlapping edits", path)
		}
		out = append(out, src[pos:i.off]...)
		out = append(out, i.text...)
		pos = i.off + i.del
	}
	out = append(out, src[pos:]...)
	if _, err := parser.ParseFile(token.NewFileSet(), path, out, 0); err != nil {
		return nil, 0, err
	}
	return out, n, nil
}

// repoFiles lists the non-test Go files of the repository.
func repoFiles(repo string) ([]string, error) {
	var out []string
	err := filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			b := filepath.Base(p)
			if p != repo && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "vendor" || b == "testdata") {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			out = append(out, p)
		}
		return nil
	})
	return out, err
}
