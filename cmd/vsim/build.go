package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"time"

	"vsim/simrt"
)

// build makes the simulation binary from /repo's working tree in dir.
type built struct {
	dir   string
	bin   string
	sites []simrt.Site
	secs  float64
}

var (
	repoDir  = env("VSIM_REPO", "/repo")
	verifDir = env("VSIM_VERIF", "/verif")
)

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

// dependencies of the same author whose statements are schedule points too
var instrumentedDeps = []string{"goasync", "channelops", "contextops", "gonotify"}

// build builds the simulator; should the rewritten read-modify-write
// statements not compile, they are left as they are.
func build(dir string) (*built, error) {
	b, err := buildWith(dir, true)
	if err != nil {
		if b2, err2 := buildWith(dir, false); err2 == nil {
			return b2, nil
		}
	}
	return b, err
}

func buildWith(dir string, split bool) (*built, error) {
	t0 := time.Now()
	ov := map[string]string{}
	goroot := runtime.GOROOT()
	if out, err := exec.Command("go", "env", "GOROOT", "GOMODCACHE").Output(); err == nil {
		l := strings.Split(strings.TrimSpace(string(out)), "\n")
		goroot = l[0]
		b := &built{dir: dir, bin: filepath.Join(dir, "sim")}
		if err := simrt.Write(goroot, dir, ov); err != nil {
			return nil, err
		}
		var n uint32
		skip := func(rel string) bool { return strings.Contains(rel, "fakes/") || strings.Contains(rel, "zzsim") }
		if err := simrt.InstrumentTree(repoDir, []string{"internal", "pkg", "cmd"}, split, dir, ov, &n, &b.sites, skip); err != nil {
			return nil, err
		}
		if err := simrt.Mains(repoDir, "github.com/DanLavine/willow", dir, ov); err != nil {
			return nil, err
		}
		mod, _ := os.ReadFile(filepath.Join(repoDir, "go.mod"))
		newMod := string(mod)
		for _, d := range instrumentedDeps {
			for _, line := range strings.Split(string(mod), "\n") {
				f := strings.Fields(line)
				if len(f) > 0 && f[0] == "require" {
					f = f[1:]
				}
				if len(f) >= 2 && f[0] == "github.com/DanLavine/"+d {
					root := filepath.Join(l[1], "github.com", "!dan!lavine", d+"@"+f[1])
					dst := filepath.Join(dir, "deps", d)
					m := map[string]string{}
					if err := simrt.InstrumentTree(root, []string{"."}, false, dir, m, &n, &b.sites, skip); err != nil {
						return nil, err
					}
					if err := copyDep(root, dst, m); err != nil {
						return nil, err
					}
					newMod += fmt.Sprintf("\nreplace %s => %s\n", f[0], dst)
				}
			}
		}
		modFile := filepath.Join(dir, "go.mod")
		if err := os.WriteFile(modFile, []byte(newMod), 0o644); err != nil {
			return nil, err
		}
		sum, err := os.ReadFile(filepath.Join(repoDir, "go.sum"))
		if err != nil {
			return nil, err
		}
		if err := os.WriteFile(filepath.Join(dir, "go.sum"), sum, 0o644); err != nil {
			return nil, err
		}
		hs, _ := filepath.Glob(filepath.Join(verifDir, "harness", "*.go"))
		for _, h := range hs {
			ov[filepath.Join(repoDir, "internal", "zzsim", filepath.Base(h))] = h
		}
		j, _ := json.MarshalIndent(map[string]any{"Replace": ov}, "", " ")
		ovf := filepath.Join(dir, "overlay.json")
		if err := os.WriteFile(ovf, j, 0o644); err != nil {
			return nil, err
		}
		cmd := exec.Command("go", "build", "-tags", "faketime", "-overlay", ovf, "-modfile", modFile, "-ldflags", "-X main.tlsDir="+filepath.Join(verifDir, "harness", "tls"), "-o", b.bin, "./internal/zzsim")
		cmd.Dir = repoDir
		cmd.Env = append(os.Environ(), "GOFLAGS=-mod=readonly", "GOWORK=off")
		if out, err := cmd.CombinedOutput(); err != nil {
			return nil, fmt.Errorf("build failed: %v\n%s", err, out)
		}
		b.secs = time.Since(t0).Seconds()
		return b, nil
	} else {
		return nil, err
	}
}

// copyDep copies a dependency's Go files, the instrumented ones where there are.
func copyDep(root, dst string, instrumented map[string]string) error {
	return filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(root, p)
		if fi.IsDir() {
			return os.MkdirAll(filepath.Join(dst, rel), 0o755)
		}
		if strings.HasSuffix(p, "_test.go") || (!strings.HasSuffix(p, ".go") && filepath.Base(p) != "go.mod") {
			return nil
		}
		src := p
		if q, ok := instrumented[p]; ok {
			src = q
		}
		raw, err := os.ReadFile(src)
		if err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(dst, rel), raw, 0o644)
	})
}
