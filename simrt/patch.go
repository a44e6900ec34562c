// Package simrt produces the simulation build of the Go runtime: a handful of
// textual patches over the installed GOROOT, delivered through `go build
// -overlay`. Nothing in GOROOT is written.
package simrt

import (
	_ "embed"
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

//go:embed zsim.go.txt
var zsim string

type rep struct{ old, new string }

var patches = map[string][]rep{
	"runtime/proc.go": {
		{"const haveSysmon = GOARCH != \"wasm\"", "const haveSysmon = false && GOARCH != \"wasm\""},
		{"	if procresize(procs) != nil {\n", "	procs = 1\n	if procresize(procs) != nil {\n"},
		{"	// local runq\n	if gp, inheritTime := runqget(pp); gp != nil {\n",
			"	if sim.on {\n		if gp := simNext(pp); gp != nil {\n			return gp, false, false\n		}\n		if simJump(pp) {\n			goto top\n		}\n	}\n\n	// local runq\n	if gp, inheritTime := runqget(pp); gp != nil {\n"},
		{"	newg.runningCleanups.Store(false)\n", "	newg.runningCleanups.Store(false)\n	newg.simPrio = 0\n"},
		// pick the global queue only through simNext
		{"if pp.schedtick%61 == 0 && !sched.runq.empty() {", "if !sim.on && pp.schedtick%61 == 0 && !sched.runq.empty() {"},
	},
	"runtime/runtime2.go": {
		{"	valgrindStackID uintptr\n}", "	valgrindStackID uintptr\n\n	simPrio uint32\n}"},
	},
	"runtime/rand.go": {
		{"	seed := &globalRand.seed\n	if len(startupRand) >= 16 &&", "	seed := &globalRand.seed\n	seed[0] = 42\n	startupRand = nil\n	if true {\n	} else if len(startupRand) >= 16 &&"},
		{"func rand() uint64 {\n", "func rand() uint64 {\n	if sim.on {\n		return simrand(&sim.rng2)\n	}\n"},
		{"func cheaprand() uint32 {\n", "func cheaprand() uint32 {\n	if sim.on {\n		return uint32(simrand(&sim.rng2) >> 32)\n	}\n"},
		{"func cheaprandu64() uint64 {\n", "func cheaprandu64() uint64 {\n	if sim.on {\n		return simrand(&sim.rng2)\n	}\n"},
	},
	"runtime/panic.go": {
		{"func fatalpanic(msgs *_panic) {\n", "func fatalpanic(msgs *_panic) {\n	simDump()\n"},
		{"func fatalthrow(t throwType) {\n", "func fatalthrow(t throwType) {\n	simDump()\n"},
	},
	// the edges of a process: its listener, its signals and its end
	"net/http/server.go": {
		{"func (s *Server) Close() error {\n", "// SimServer serves instead of a listener.\nvar SimServer func(s *Server, what string, ctx context.Context) error\n\nfunc (s *Server) Close() error {\n	if SimServer != nil {\n		return SimServer(s, \"close\", context.Background())\n	}\n"},
		{"func (s *Server) Shutdown(ctx context.Context) error {\n", "func (s *Server) Shutdown(ctx context.Context) error {\n	if SimServer != nil {\n		return SimServer(s, \"shutdown\", ctx)\n	}\n"},
		{"func (s *Server) ListenAndServe() error {\n", "func (s *Server) ListenAndServe() error {\n	if SimServer != nil {\n		return SimServer(s, \"serve\", context.Background())\n	}\n"},
		{"func (s *Server) ListenAndServeTLS(certFile, keyFile string) error {\n", "func (s *Server) ListenAndServeTLS(certFile, keyFile string) error {\n	if SimServer != nil {\n		if err := s.simTLS(certFile, keyFile); err != nil {\n			return err\n		}\n		return SimServer(s, \"serve\", context.Background())\n	}\n"},
		{"func (s *Server) ServeTLS(l net.Listener, certFile, keyFile string) error {\n", "// simTLS checks that a TLS listener has a certificate to show.\nfunc (s *Server) simTLS(certFile, keyFile string) error {\n	if s.TLSConfig != nil && (len(s.TLSConfig.Certificates) > 0 || s.TLSConfig.GetCertificate != nil) {\n		return nil\n	}\n	_, err := tls.LoadX509KeyPair(certFile, keyFile)\n	return err\n}\n\nfunc (s *Server) ServeTLS(l net.Listener, certFile, keyFile string) error {\n	if SimServer != nil {\n		if err := s.simTLS(certFile, keyFile); err != nil {\n			return err\n		}\n		return SimServer(s, \"serve\", context.Background())\n	}\n"},
		{"func (s *Server) Serve(l net.Listener) error {\n", "func (s *Server) Serve(l net.Listener) error {\n	if SimServer != nil {\n		return SimServer(s, \"serve\", context.Background())\n	}\n"},
	},
	"os/signal/signal.go": {
		{"func NotifyContext(parent context.Context, signals ...os.Signal) (ctx context.Context, stop context.CancelFunc) {\n",
			"// SimNotify decides about signals.\nvar SimNotify func(parent context.Context) (context.Context, context.CancelFunc)\n\nfunc NotifyContext(parent context.Context, signals ...os.Signal) (ctx context.Context, stop context.CancelFunc) {\n	if SimNotify != nil {\n		return SimNotify(parent)\n	}\n"},
	},
	"os/proc.go": {
		{"func Exit(code int) {\n", "// SimExit observes the end of a simulated process.\nvar SimExit func(code int)\n\nfunc Exit(code int) {\n	if SimExit != nil {\n		SimExit(code)\n	}\n"},
	},
	"runtime/time_fake.go": {
		{"	if !(fd == 1 || fd == 2) {", "	if true {"},
	},
}

// Write stores the patched files below dir and adds them to the overlay map.
func Write(goroot, dir string, overlay map[string]string) error {
	for name, reps := range patches {
		src := filepath.Join(goroot, "src", name)
		b, err := os.ReadFile(src)
		if err != nil {
			return err
		}
		s := string(b)
		for _, r := range reps {
			if strings.Count(s, r.old) != 1 {
				return fmt.Errorf("%s: anchor %q found %d times", name, r.old, strings.Count(s, r.old))
			}
			s = strings.Replace(s, r.old, r.new, 1)
		}
		dst := filepath.Join(dir, strings.ReplaceAll(name, "/", "_"))
		if err := os.WriteFile(dst, []byte(s), 0o644); err != nil {
			return err
		}
		overlay[src] = dst
	}
	dst := filepath.Join(dir, "runtime_zsim.go")
	if err := os.WriteFile(dst, []byte(zsim), 0o644); err != nil {
		return err
	}
	overlay[filepath.Join(goroot, "src", "runtime", "zsim.go")] = dst
	return nil
}
