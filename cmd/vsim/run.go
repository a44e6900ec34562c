package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"regexp"
	"strings"
	"time"
)

type Op struct {
	ID int      `json:"id"`
	C  int      `json:"c"`
	K  string   `json:"k"`
	D  int64    `json:"d"`
	A  []int64  `json:"a,omitempty"`
	S  []string `json:"s,omitempty"`
}

type Sched struct {
	PickProb  uint32     `json:"pick_prob"`
	YieldProb uint32     `json:"yield_prob"`
	Prio      bool       `json:"prio,omitempty"`
	PrioProb  uint32     `json:"prio_prob,omitempty"`
	Tick      int64      `json:"tick_ns"`
	Stalls    [][3]int64 `json:"stalls,omitempty"`
	MaxSteps  uint64     `json:"max_steps"`
}

type Fault struct {
	Kind string `json:"k,omitempty"`
	L1   int64  `json:"l1"`
	L2   int64  `json:"l2"`
	At   int64  `json:"at,omitempty"`
}

type Plan struct {
	Property   string           `json:"property"`
	World      string           `json:"world"`
	Profile    string           `json:"profile,omitempty"`
	Seed       uint64           `json:"seed"`
	Sites      int              `json:"sites"`
	Hot        []uint32         `json:"hot,omitempty"`
	Warm       []uint32         `json:"warm,omitempty"`
	Cover      bool             `json:"cover,omitempty"`
	Params     map[string]int64 `json:"params,omitempty"`
	Ops        []Op             `json:"ops,omitempty"`
	HaveOps    bool             `json:"have_ops,omitempty"`
	Sched      *Sched           `json:"sched,omitempty"`
	Faults     map[string]Fault `json:"faults,omitempty"`
	HaveFaults bool             `json:"have_faults,omitempty"`
	Replay     bool             `json:"replay,omitempty"`
	RYield     [][2]int64       `json:"ryield,omitempty"`
	RPick      [][2]int64       `json:"rpick,omitempty"`
	Emit       bool             `json:"emit,omitempty"`
	Trace      bool             `json:"-"`
}

type Violation struct {
	Props []string `json:"props"`
	Sig   string   `json:"sig"`
	Msg   string   `json:"msg"`
}

type Result struct {
	Violations []Violation      `json:"violations,omitempty"`
	Counts     map[string]int64 `json:"counts"`
	Faults     map[string]int64 `json:"faults"`
	Shape      string           `json:"shape"`
	States     int              `json:"states"`
	Steps      uint64           `json:"steps"`
	Picks      uint64           `json:"picks"`
	Switches   uint64           `json:"switches"`
	Hash       string           `json:"hash"`
	Stalls     uint64           `json:"stalls"`
	Yields     uint64           `json:"yields"`
	Cover      []uint32         `json:"cover,omitempty"`
	SimNs      int64            `json:"sim_ns"`
	Plan       *Plan            `json:"plan,omitempty"`
	Trace      []string         `json:"trace,omitempty"`

	crashed bool
	broken  string // the machinery, not the code under test, failed
	stderr  string
	wall    time.Duration
}

func (p Plan) clone() Plan {
	b, _ := json.Marshal(p)
	var q Plan
	json.Unmarshal(b, &q)
	return q
}

const runLimit = 60 * time.Second

func run(bin string, p *Plan) *Result {
	in, _ := json.Marshal(p)
	cmd := exec.Command(bin)
	cmd.Stdin = bytes.NewReader(in)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	cmd.Env = []string{"GOMAXPROCS=1", "HOME=/nonexistent", "GOTRACEBACK=all", "VSIM_STACKS=" + os.Getenv("VSIM_STACKS"), "VSIM_TRACE=0"}
	if p.Trace {
		cmd.Env[len(cmd.Env)-1] = "VSIM_TRACE=1"
	}
	t0 := time.Now()
	if err := cmd.Start(); err != nil {
		return &Result{broken: err.Error()}
	}
	timer := time.AfterFunc(runLimit, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	timedOut := !timer.Stop()
	r := &Result{}
	defer func() { r.wall = time.Since(t0) }()
	if i := bytes.LastIndex(out.Bytes(), []byte("RESULT {")); i >= 0 && err == nil {
		if e := json.Unmarshal(out.Bytes()[i+7:], r); e != nil {
			r.broken = "bad result: " + e.Error()
		}
		return r
	}
	r.stderr = errb.String()
	if timedOut {
		r.broken = "run took more than " + runLimit.String() + " of real time"
		return r
	}
	code := -1
	if cmd.ProcessState != nil {
		code = cmd.ProcessState.ExitCode()
	}
	if code == 64 {
		r.broken = out.String()
		return r
	}
	if code == -1 { // killed from outside
		r.broken = fmt.Sprintf("killed: %v", err)
		return r
	}
	r.crashed = true
	sig, msg := crashSig(r.stderr, code)
	r.Violations = []Violation{{Props: []string{"A01", p.Property}, Sig: sig, Msg: msg}}
	if i := strings.Index(r.stderr, "SIMDUMP "); i >= 0 {
		var ns int64
		var steps uint64
		var hash uint64
		fmt.Sscanf(r.stderr[i:], "SIMDUMP %d %d %d", &ns, &steps, &hash)
		r.SimNs, r.Steps, r.Hash = ns-1790000000000000000, steps, fmt.Sprintf("%016x", hash)
	}
	if p.Emit {
		q := p.clone()
		flt := map[string]Fault{}
		for _, l := range bytes.Split(out.Bytes(), []byte("\n")) {
			if bytes.HasPrefix(l, []byte("PLAN ")) {
				var e Plan
				if json.Unmarshal(l[5:], &e) == nil {
					e.RYield, e.RPick, e.Replay = q.RYield, q.RPick, q.Replay
					q = e
				}
			}
			if bytes.HasPrefix(l, []byte("FAULT ")) {
				json.Unmarshal(l[6:], &flt)
			}
		}
		q.Faults, q.HaveFaults = flt, true
		if !q.Replay {
			q.RYield, q.RPick = dumpList(r.stderr, "SIMY"), dumpList(r.stderr, "SIMP")
			q.Replay = true
		}
		q.Emit = false
		r.Plan = &q
	}
	return r
}

func dumpList(s, tag string) [][2]int64 {
	i := strings.Index(s, "\n"+tag)
	if i < 0 {
		return nil
	}
	s = s[i+1+len(tag):]
	if j := strings.IndexByte(s, '\n'); j >= 0 {
		s = s[:j]
	}
	f := strings.Fields(s)
	var out [][2]int64
	for k := 0; k+1 < len(f); k += 2 {
		var a, b int64
		fmt.Sscan(f[k], &a)
		fmt.Sscan(f[k+1], &b)
		out = append(out, [2]int64{a, b})
	}
	return out
}

var (
	reHex  = regexp.MustCompile(`0x[0-9a-f]+`)
	reUUID = regexp.MustCompile(`[0-9a-f]{8}-[0-9a-f-]{27}`)
	reKsu  = regexp.MustCompile(`[0-9A-Za-z]{27}`)
	reNum  = regexp.MustCompile(`[0-9]{3,}`)
)

// crashSig classifies a crash by its message and the innermost frame in the
// repository's own code.
func crashSig(stderr string, code int) (sig, msg string) {
	if code == 77 {
		f := topFrame(stderr)
		return "livelock:" + f, "the run used up its step budget without finishing (busy loop): " + f
	}
	m := ""
	for _, l := range strings.Split(stderr, "\n") {
		if strings.HasPrefix(l, "panic: ") || strings.HasPrefix(l, "fatal error: ") {
			m = l
			break
		}
	}
	if m == "" {
		return fmt.Sprintf("exit:%d", code), "the process exited with code " + fmt.Sprint(code)
	}
	i := strings.Index(stderr, m)
	f := topFrame(stderr[i:])
	n := reUUID.ReplaceAllString(reHex.ReplaceAllString(m, "PTR"), "ID")
	n = reNum.ReplaceAllString(reKsu.ReplaceAllString(n, "ID"), "N")
	if len(n) > 200 {
		n = n[:200]
	}
	return "crash:" + n + "@" + f, "the process died: " + m + " in " + f
}

func topFrame(st string) string {
	for _, l := range strings.Split(st, "\n") {
		if strings.HasPrefix(l, "github.com/DanLavine/") && !strings.Contains(l, "/zzsim") {
			f := strings.TrimPrefix(l, "github.com/DanLavine/willow/")
			if i := strings.LastIndex(f, "("); i > 0 {
				f = f[:i]
			}
			return f
		}
		if strings.HasPrefix(l, "goroutine ") && strings.Contains(st, l) && !strings.Contains(l, "running") && !strings.Contains(l, "[running") {
			// past the crashing goroutine
			break
		}
	}
	return "?"
}

func writeFile(p string, b []byte) error {
	return os.WriteFile(p, b, 0o644)
}
