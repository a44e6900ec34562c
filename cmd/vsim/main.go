// vsim: seeded search over simulated executions of willow, limiter and locker.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: vsim check PROP | replay FILE | run PROP SEED [trace] | build DIR")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(check(os.Args[2]))
	case "replay":
		os.Exit(replay(os.Args[2]))
	case "survey":
		os.Exit(survey(os.Args[2:]))
	case "hunt":
		os.Exit(hunt(os.Args[2:]))
	case "run":
		os.Exit(single(os.Args[2:]))
	case "build":
		b, err := build(os.Args[2])
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		fmt.Printf("built %s in %.1fs, %d schedule points\n", b.bin, b.secs, len(b.sites))
	default:
		os.Exit(2)
	}
}

func scratch() string {
	d, err := os.MkdirTemp("", "vsim")
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	return d
}

// binary builds into a scratch directory, or uses the prebuilt one of
// VSIM_BIN (only for development).
func binary() (*built, func()) {
	dir := scratch()
	b, err := build(dir)
	if err != nil {
		os.RemoveAll(dir)
		fmt.Println(err)
		os.Exit(2)
	}
	return b, func() { os.RemoveAll(dir) }
}

type replayFile struct {
	Property string   `json:"property"`
	Sig      string   `json:"sig"`
	Msg      string   `json:"msg"`
	Hash     string   `json:"interleaving_hash"`
	Seed     uint64   `json:"seed"`
	Command  string   `json:"command"`
	Minimise string   `json:"minimisation"`
	Plan     *Plan    `json:"plan"`
	Trace    []string `json:"trace"`
}

func replay(file string) int {
	raw, err := os.ReadFile(file)
	var rf replayFile
	if err == nil {
		err = json.Unmarshal(raw, &rf)
	}
	if err != nil {
		fmt.Println(err)
		return 2
	}
	b, clean := binary()
	defer clean()
	p := rf.Plan.clone()
	p.Trace = true
	r := run(b.bin, &p)
	if r.broken != "" {
		fmt.Println("error:", r.broken)
		return 2
	}
	for _, l := range r.Trace {
		fmt.Println(l)
	}
	if r.crashed {
		i := strings.Index(r.stderr, "SIMDUMP")
		if j := strings.Index(r.stderr, "SIMEND"); i >= 0 && j > i {
			fmt.Println(r.stderr[:i] + r.stderr[j+7:])
		}
	}
	for _, v := range r.Violations {
		if v.Sig == rf.Sig {
			fmt.Printf("%s\nreproduced: %s\n", v.Msg, v.Sig)
			if r.Hash == rf.Hash {
				fmt.Println("the execution is identical (interleaving hash", r.Hash+")")
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, file)
			return 1
		}
	}
	fmt.Println("not reproduced:", rf.Sig, "got", r.Violations)
	return 0
}

func single(args []string) int {
	b, clean := binary()
	defer clean()
	seed, _ := strconv.ParseUint(args[1], 10, 64)
	p := planFor(b, args[0], seed)
	for _, a := range args[2:] {
		switch {
		case a == "trace":
			p.Trace = true
		case strings.HasPrefix(a, "world="):
			p.World = a[6:]
		case strings.HasPrefix(a, "profile="):
			p.Profile = a[8:]
		}
	}
	r := run(b.bin, p)
	for _, l := range r.Trace {
		fmt.Println(l)
	}
	if r.crashed || r.broken != "" {
		fmt.Println(r.stderr)
	}
	r.Trace = nil
	j, _ := json.MarshalIndent(r, "", " ")
	fmt.Println(string(j), r.broken, r.wall)
	return 0
}

// knownFindings: "known: property=ID sig=SIG :: text" lines.
func knownFindings() map[string]string {
	m := map[string]string{}
	raw, _ := os.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	for _, l := range strings.Split(string(raw), "\n") {
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property=")
		i := strings.Index(l, " sig=")
		j := strings.Index(l, " :: ")
		if i > 0 && j > i {
			m[l[:i]+"|"+l[i+5:j]] = l[j+4:]
		}
	}
	return m
}
