package simrt

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// Site is one yield point.
type Site struct {
	ID   uint32
	File string
	Line int
	Func string
}

// Instrument returns the source with a yield point before every statement and,
// with split, inside every statement that changes a shared value in terms of itself.
// Line numbers are preserved.
func Instrument(path string, src []byte, rel string, split bool, next *uint32, sites *[]Site) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	type ins struct {
		off  int
		text string
		del  int
	}
	var list []ins
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		if strings.Contains(fd.Doc.Text(), "go:nosplit") {
			continue
		}
		name := fd.Name.Name
		if fd.Name.Name == "init" && fd.Recv == nil {
			continue
		}
		// a statement that changes shared state in terms of itself yields between reading and writing
		rmw := func(st ast.Stmt, name string) {
			site := func() uint32 {
				*next++
				*sites = append(*sites, Site{*next, rel, fset.Position(st.Pos()).Line, name})
				return *next
			}
			switch st := st.(type) {
			case *ast.IncDecStmt:
				if shared(st.X) {
					x := string(src[off(st.X.Pos()):off(st.X.End())])
					list = append(list, ins{off(st.TokPos), fmt.Sprintf(" = zzsim.SimRMW(%d, %s) %s 1", site(), x, st.Tok.String()[:1]), 2})
				}
			case *ast.AssignStmt:
				if len(st.Lhs) != 1 || len(st.Rhs) != 1 || !shared(st.Lhs[0]) {
					return
				}
				x := string(src[off(st.Lhs[0].Pos()):off(st.Lhs[0].End())])
				switch st.Tok {
				case token.ADD_ASSIGN, token.SUB_ASSIGN:
					list = append(list, ins{off(st.TokPos), fmt.Sprintf("= zzsim.SimRMW(%d, %s) %s (", site(), x, st.Tok.String()[:1]), 2}, ins{off(st.Rhs[0].End()), ")", 0})
				case token.ASSIGN:
					if mentions(st.Rhs[0], st.Lhs[0]) {
						list = append(list, ins{off(st.Rhs[0].Pos()), fmt.Sprintf("zzsim.SimRMW(%d, ", site()), 0}, ins{off(st.Rhs[0].End()), ")", 0})
					}
				}
			}
		}
		stmts := func(l []ast.Stmt) {
			for _, s := range l {
				switch s.(type) {
				case *ast.EmptyStmt:
					continue
				case *ast.CaseClause, *ast.CommClause:
					continue
				}
				*next++
				*sites = append(*sites, Site{*next, rel, fset.Position(s.Pos()).Line, name})
				list = append(list, ins{off(s.Pos()), fmt.Sprintf("zzsim.SimYield(%d); ", *next), 0})
				if split {
					rmw(s, name)
				}
			}
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				stmts(n.List)
			case *ast.CaseClause:
				stmts(n.Body)
			case *ast.CommClause:
				stmts(n.Body)
			}
			return true
		})
	}
	if len(list) == 0 {
		return src, nil
	}
	list = append(list, ins{off(f.Name.End()), "; import zzsim \"runtime\"", 0})
	sort.SliceStable(list, func(i, j int) bool { return list[i].off < list[j].off })
	var out bytes.Buffer
	at := 0
	for _, i := range list {
		out.Write(src[at:i.off])
		out.WriteString(i.text)
		at = i.off + i.del
	}
	out.Write(src[at:])
	return out.Bytes(), nil
}

// shared tells whether an expression is a field, an element or a pointed-to
// value that can be evaluated twice.
func shared(e ast.Expr) bool {
	switch e.(type) {
	case *ast.SelectorExpr, *ast.StarExpr, *ast.IndexExpr:
	default:
		return false
	}
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr, *ast.FuncLit:
			ok = false
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				ok = false
			}
		}
		return ok
	})
	return ok
}

// mentions tells whether e reads x, outside of function literals.
func mentions(e, x ast.Expr) bool {
	want, found := types.ExprString(x), false
	ast.Inspect(e, func(n ast.Node) bool {
		if _, ok := n.(*ast.FuncLit); ok {
			return false
		}
		if y, ok := n.(ast.Expr); ok && types.ExprString(y) == want {
			found = true
		}
		return !found
	})
	return found
}

// InstrumentTree instruments every non-test Go file below root/sub.
func InstrumentTree(root string, subs []string, split bool, dir string, overlay map[string]string, next *uint32, sites *[]Site, skip func(rel string) bool) error {
	for _, sub := range subs {
		err := filepath.Walk(filepath.Join(root, sub), func(p string, fi os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			rel, _ := filepath.Rel(root, p)
			if fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") || skip(rel) {
				return nil
			}
			src, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			out, err := Instrument(p, src, rel, split, next, sites)
			if err != nil {
				// let the compiler report it
				return nil
			}
			dst := filepath.Join(dir, strings.ReplaceAll(rel, "/", "__"))
			if err := os.WriteFile(dst, out, 0o644); err != nil {
				return err
			}
			overlay[p] = dst
			return nil
		})
		if err != nil {
			return err
		}
	}
	return nil
}
