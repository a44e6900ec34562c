package simrt

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// Mains makes packages of the services' commands: internal/zzmain/NAME is a
// copy of cmd/NAME with Main for main, and the harness' logger for the
// command's own. files are the (instrumented) sources of the commands.
func Mains(repo, module, dir string, overlay map[string]string) error {
	var paths []string
	for p := range overlay {
		if strings.HasPrefix(p, filepath.Join(repo, "cmd")+"/") {
			paths = append(paths, p)
		}
	}
	sort.Strings(paths)
	for _, p := range paths {
		src, err := os.ReadFile(overlay[p])
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, src, 0)
		if err != nil {
			return nil // the compiler reports it
		}
		name := filepath.Base(filepath.Dir(p))
		off := func(p token.Pos) int { return fset.PositionFor(p, false).Offset }
		type edit struct {
			from, to int
			text     string
		}
		var l []edit
		l = append(l, edit{off(f.Name.Pos()), off(f.Name.End()), name + "; import zzhook \"" + module + "/internal/zzhook\""})
		keep := "\nvar _ = zzhook.NewZapLogger\n"
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.FuncDecl:
				if x.Recv == nil && x.Name.Name == "main" {
					l = append(l, edit{off(x.Name.Pos()), off(x.Name.End()), "Main"})
				}
			case *ast.SelectorExpr:
				if id, ok := x.X.(*ast.Ident); ok && id.Name == "reporting" && x.Sel.Name == "NewZapLogger" {
					l = append(l, edit{off(x.Pos()), off(x.End()), "zzhook.NewZapLogger"})
					keep = "\nvar _ = zzhook.NewZapLogger\nvar _ = reporting.NewZapLogger\n"
				}
			}
			return true
		})
		sort.Slice(l, func(i, j int) bool { return l[i].from > l[j].from })
		out := string(src)
		for _, e := range l {
			out = out[:e.from] + e.text + out[e.to:]
		}
		out += keep
		dst := filepath.Join(dir, "zzmain__"+name+"__"+filepath.Base(p))
		if err := os.WriteFile(dst, []byte(out), 0o644); err != nil {
			return err
		}
		overlay[filepath.Join(repo, "internal", "zzmain", name, filepath.Base(p))] = dst
		delete(overlay, p)
	}
	hook := filepath.Join(dir, "zzhook.go")
	if err := os.WriteFile(hook, []byte(fmt.Sprintf(hookSrc, module)), 0o644); err != nil {
		return err
	}
	overlay[filepath.Join(repo, "internal", "zzhook", "zzhook.go")] = hook
	return nil
}

const hookSrc = `// Package zzhook holds what the simulator gives to the services' commands.
package zzhook

import (
	"%s/internal/config"
	"go.uber.org/zap"
)

// Log is the logger of every service.
var Log *zap.Logger

func NewZapLogger(config.Config) *zap.Logger { return Log }
`
