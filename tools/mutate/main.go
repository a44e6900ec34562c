// mutate lists or applies small semantic changes to Go files.
//
//	mutate list FILE...           prints "file index kind line"
//	mutate apply FILE INDEX       rewrites the file with change INDEX
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	kind string
	pos  token.Pos
	do   func()
}

func isLog(n ast.Node, src []byte, fs *token.FileSet) bool {
	s := string(src[fs.Position(n.Pos()).Offset:fs.Position(n.End()).Offset])
	return strings.HasPrefix(s, "logger.") || strings.Contains(s, "GetNamedMiddlewareLogger") || strings.HasPrefix(s, "panic(") || strings.HasPrefix(s, "defer logger")
}

// lockCall recognises x.Lock(), x.RLock(), x.Unlock() and x.RUnlock(), also when deferred
func lockCall(s ast.Stmt) (recv, name string, ok bool) {
	var c *ast.CallExpr
	switch x := s.(type) {
	case *ast.ExprStmt:
		c, _ = x.X.(*ast.CallExpr)
	case *ast.DeferStmt:
		c = x.Call
	}
	if c == nil {
		return "", "", false
	}
	sel, is := c.Fun.(*ast.SelectorExpr)
	if !is || len(c.Args) != 0 {
		return "", "", false
	}
	var b bytes.Buffer
	_ = format.Node(&b, token.NewFileSet(), sel.X)
	switch sel.Sel.Name {
	case "Lock", "RLock", "Unlock", "RUnlock":
		return b.String(), sel.Sel.Name, true
	}
	return "", "", false
}

// pairs are changes of a whole critical section: l[i] takes the lock, a later statement of the same block gives it back
func pairs(out *[]mut, l []ast.Stmt, i int, recv, name string, set func([]ast.Stmt)) {
	for j := i + 1; j < len(l); j++ {
		r, n, ok := lockCall(l[j])
		if !ok || r != recv || (n != "Unlock" && n != "RUnlock") {
			continue
		}
		j := j
		pos := l[i].Pos()
		_, deferred := l[j].(*ast.DeferStmt)
		del := func() []ast.Stmt {
			var m []ast.Stmt
			for k, s := range l {
				if k != i && k != j {
					m = append(m, s)
				}
			}
			return m
		}
		*out = append(*out, mut{"PAIR drop " + recv + "." + name, pos, func() { set(del()) }})
		ren := func(s ast.Stmt, to string) ast.Stmt {
			var c *ast.CallExpr
			switch x := s.(type) {
			case *ast.ExprStmt:
				c = x.X.(*ast.CallExpr)
			case *ast.DeferStmt:
				c = x.Call
			}
			c.Fun.(*ast.SelectorExpr).Sel = ast.NewIdent(to)
			return s
		}
		if name == "Lock" {
			*out = append(*out, mut{"PAIR read " + recv, pos, func() { ren(l[i], "RLock"); ren(l[j], "RUnlock") }})
		}
		if deferred {
			// the section ends after the first, the second or the last but one statement that follows it
			for _, d := range []int{1, 2, len(l) - 1 - j - 1} {
				d := d
				if d < 1 || j+d >= len(l)-1 || (d > 2 && d == len(l)-1-j) {
					continue
				}
				*out = append(*out, mut{fmt.Sprintf("PAIR end early +%d %s", d, recv), pos, func() {
					c := l[j].(*ast.DeferStmt).Call
					var m []ast.Stmt
					for k, s := range l {
						if k == j {
							continue
						}
						m = append(m, s)
						if k == j+d {
							m = append(m, &ast.ExprStmt{X: c})
						}
					}
					set(m)
				}})
			}
			// the section starts one or two statements later
			for _, d := range []int{1, 2} {
				d := d
				if j+d >= len(l) {
					continue
				}
				*out = append(*out, mut{fmt.Sprintf("PAIR start late +%d %s", d, recv), pos, func() {
					var m []ast.Stmt
					for k, s := range l {
						if k == i || k == j {
							continue
						}
						m = append(m, s)
						if k == j+d {
							m = append(m, l[i], l[j])
						}
					}
					set(m)
				}})
			}
		} else {
			*out = append(*out, mut{"PAIR end at once " + recv, pos, func() {
				m := del()
				set(append(append(append([]ast.Stmt{}, m[:i]...), l[i], l[j]), m[i:]...))
			}})
			if j-1 > i {
				*out = append(*out, mut{"PAIR end early " + recv, pos, func() {
					m := append([]ast.Stmt{}, l...)
					m[j], m[j-1] = m[j-1], m[j]
					set(m)
				}})
				*out = append(*out, mut{"PAIR start late " + recv, pos, func() {
					m := append([]ast.Stmt{}, l...)
					m[i], m[i+1] = m[i+1], m[i]
					set(m)
				}})
			}
		}
		return
	}
}

func collect(f *ast.File, src []byte, fs *token.FileSet) []mut {
	var out []mut
	text := func(n ast.Node) string {
		return string(src[fs.Position(n.Pos()).Offset:fs.Position(n.End()).Offset])
	}
	block := func(get func() []ast.Stmt, set func([]ast.Stmt)) {
		l := get()
		for i, s := range l {
			i, s := i, s
			if isLog(s, src, fs) {
				continue
			}
			without := func() {
				n := append([]ast.Stmt{}, l[:i]...)
				set(append(n, l[i+1:]...))
			}
			if recv, name, ok := lockCall(s); ok && (name == "Lock" || name == "RLock") {
				pairs(&out, l, i, recv, name, set)
			}
			switch x := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.GoStmt, *ast.BranchStmt:
				out = append(out, mut{"drop " + text(s), s.Pos(), without})
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					out = append(out, mut{"drop " + text(s), s.Pos(), without})
				}
			case *ast.DeferStmt:
				out = append(out, mut{"drop " + text(s), s.Pos(), without})
				out = append(out, mut{"undefer " + text(s), s.Pos(), func() {
					n := append([]ast.Stmt{}, l...)
					n[i] = &ast.ExprStmt{X: x.Call}
					set(n)
				}})
			case *ast.ReturnStmt:
				if len(x.Results) == 0 {
					out = append(out, mut{"drop return", s.Pos(), without})
				}
			case *ast.IfStmt:
				out = append(out, mut{"drop if " + text(x.Cond), s.Pos(), without})
			}
			if i+1 < len(l) && !isLog(l[i+1], src, fs) {
				_, r := l[i+1].(*ast.ReturnStmt)
				if !r {
					out = append(out, mut{"swap with next: " + text(s), s.Pos(), func() {
						n := append([]ast.Stmt{}, l...)
						n[i], n[i+1] = n[i+1], n[i]
						set(n)
					}})
				}
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			block(func() []ast.Stmt { return x.List }, func(l []ast.Stmt) { x.List = l })
		case *ast.CaseClause:
			block(func() []ast.Stmt { return x.Body }, func(l []ast.Stmt) { x.Body = l })
		case *ast.CommClause:
			block(func() []ast.Stmt { return x.Body }, func(l []ast.Stmt) { x.Body = l })
		case *ast.SelectStmt:
			l := x.Body.List
			for i := range l {
				i := i
				if len(l) > 1 {
					out = append(out, mut{"drop select case " + strings.SplitN(text(l[i]), "\n", 2)[0], l[i].Pos(), func() {
						m := append([]ast.Stmt{}, l[:i]...)
						x.Body.List = append(m, l[i+1:]...)
					}})
				}
			}
		case *ast.IfStmt:
			c := x.Cond
			out = append(out, mut{"negate " + text(c), c.Pos(), func() { x.Cond = &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: c}} }})
		case *ast.BinaryExpr:
			o := x.Op
			alt := map[token.Token][]token.Token{token.LSS: {token.LEQ}, token.LEQ: {token.LSS}, token.GTR: {token.GEQ}, token.GEQ: {token.GTR}, token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.LAND: {token.LOR}, token.LOR: {token.LAND}}
			for _, a := range alt[o] {
				a := a
				out = append(out, mut{text(x) + " -> " + a.String(), x.OpPos, func() { x.Op = a }})
			}
			if o == token.LAND || o == token.LOR {
				l, r := x.X, x.Y
				out = append(out, mut{"left only " + text(x), x.OpPos, func() { x.Y = l }})
				out = append(out, mut{"right only " + text(x), x.OpPos, func() { x.X = r }})
			}
		case *ast.SelectorExpr:
			swap := map[string]string{"Lock": "RLock", "Unlock": "RUnlock", "RLock": "", "MinDataType": "MaxDataType", "MaxDataType": "MinDataType"}
			if t := swap[x.Sel.Name]; t != "" && t != "RLock" && t != "RUnlock" {
				s := x.Sel
				out = append(out, mut{text(x) + " -> " + t, x.Pos(), func() { x.Sel = ast.NewIdent(t); _ = s }})
			}
		case *ast.Ident:
			if x.Name == "true" || x.Name == "false" {
				o := x.Name
				out = append(out, mut{"flip " + o, x.Pos(), func() {
					if o == "true" {
						x.Name = "false"
					} else {
						x.Name = "true"
					}
				}})
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				if v, err := strconv.Atoi(x.Value); err == nil {
					out = append(out, mut{fmt.Sprintf("%d -> %d", v, v+1), x.Pos(), func() { x.Value = strconv.Itoa(v + 1) }})
				}
			}
		}
		return true
	})
	return out
}

func main() {
	load := func(p string) (*ast.File, []byte, *token.FileSet) {
		src, err := os.ReadFile(p)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, p, src, 0)
		if err != nil {
			panic(err)
		}
		return f, src, fs
	}
	switch os.Args[1] {
	case "list":
		for _, p := range os.Args[2:] {
			f, src, fs := load(p)
			for i, m := range collect(f, src, fs) {
				k := strings.Join(strings.Fields(m.kind), " ")
				if len(k) > 100 {
					k = k[:100]
				}
				fmt.Printf("%s\t%d\t%d\t%s\n", p, i, fs.Position(m.pos).Line, k)
			}
		}
	case "apply":
		f, src, fs := load(os.Args[2])
		i, _ := strconv.Atoi(os.Args[3])
		collect(f, src, fs)[i].do()
		var b bytes.Buffer
		if err := format.Node(&b, fs, f); err != nil {
			panic(err)
		}
		if err := os.WriteFile(os.Args[2], b.Bytes(), 0o644); err != nil {
			panic(err)
		}
	}
}
