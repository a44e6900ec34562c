package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"sync"
	"time"
)

// report minimises a violating plan and writes the replay file.
func report(b *built, prop string, p *Plan, v Violation, known map[string]string) string {
	limit := 60 * time.Second
	if os.Getenv("VSIM_NOSHRINK") != "" {
		limit = 0
	}
	deadline := time.Now().Add(limit)
	fails := func(q *Plan) *Result {
		r := run(b.bin, q)
		for _, w := range r.Violations {
			if w.Sig == v.Sig && has(w.Props, prop) {
				return r
			}
		}
		return nil
	}
	q := p.clone()
	q.Emit = true
	note := ""
	r := fails(&q)
	if r == nil {
		note = "the violation did not recur in the emitting run; the plan is the original one"
	} else {
		best := *r.Plan
		best.Emit = true
		ops0, f0 := len(best.Ops), countFaults(&best)
		// 1. operations and faults under the seeded schedule
		seeded := best.clone()
		seeded.Replay, seeded.RYield, seeded.RPick = false, nil, nil
		if s := fails(&seeded); s != nil {
			seeded = shrinkOps(seeded, fails, deadline)
			seeded = shrinkFaults(seeded, fails, deadline)
			seeded.Emit = true
			if s2 := fails(&seeded); s2 != nil && s2.Plan != nil {
				best = *s2.Plan
			} else {
				best = seeded
			}
		}
		// 2. scheduling deviations, explicitly
		best.Emit = false
		y0, k0 := len(best.RYield), len(best.RPick)
		if best.Replay {
			if fails(&best) != nil {
				best = shrinkSched(best, fails, deadline)
			} else {
				best = seeded
			}
		}
		best.Emit = false
		p = &best
		note = fmt.Sprintf("operations %d -> %d, network faults %d -> %d, schedule deviations %d+%d -> %d+%d (yields/stalls + picks)", ops0, len(best.Ops), f0, countFaults(&best), y0, k0, len(best.RYield), len(best.RPick))
	}
	t := p.clone()
	t.Trace = true
	rt := run(b.bin, &t)
	tr := rt.Trace
	if len(tr) > 4000 {
		tr = append(tr[:2000:2000], tr[len(tr)-2000:]...)
	}
	msg := v.Msg
	for _, w := range rt.Violations {
		if w.Sig == v.Sig {
			msg = w.Msg
		}
	}
	dir := filepath.Join(verifDir, "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%016x.json", prop, strHash(v.Sig)))
	rf := replayFile{Property: prop, Sig: v.Sig, Msg: msg, Hash: rt.Hash, Seed: p.Seed, Command: "cd /verif && ./check.sh replay " + path, Minimise: note, Plan: p, Trace: tr}
	j, _ := json.MarshalIndent(rf, "", " ")
	writeFile(path, j)
	fmt.Println("minimised:", note)
	return path
}

func countFaults(p *Plan) int {
	n := 0
	for _, f := range p.Faults {
		if f.Kind != "" {
			n++
		}
	}
	return n
}

// firstOf runs the candidates in parallel and returns the first (by index) that still fails.
func firstOf(c []Plan, fails func(*Plan) *Result, deadline time.Time) int {
	if len(c) == 0 || time.Now().After(deadline) {
		return -1
	}
	ok := make([]bool, len(c))
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	for i := range c {
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			ok[i] = fails(&c[i]) != nil
			<-sem
		}()
	}
	wg.Wait()
	for i := range ok {
		if ok[i] {
			return i
		}
	}
	return -1
}

func shrinkOps(p Plan, fails func(*Plan) *Result, deadline time.Time) Plan {
	if !p.HaveOps {
		return p
	}
	for size := (len(p.Ops) + 1) / 2; size >= 1; {
		var cands []Plan
		for i := 0; i < len(p.Ops); i += size {
			q := p.clone()
			end := i + size
			if end > len(q.Ops) {
				end = len(q.Ops)
			}
			q.Ops = append(append([]Op(nil), q.Ops[:i]...), q.Ops[end:]...)
			cands = append(cands, q)
		}
		k := firstOf(cands, fails, deadline)
		if k >= 0 {
			p = cands[k]
			if size > len(p.Ops) && len(p.Ops) > 0 {
				size = len(p.Ops)
			}
			continue
		}
		if time.Now().After(deadline) {
			break
		}
		size /= 2
	}
	return p
}

func shrinkFaults(p Plan, fails func(*Plan) *Result, deadline time.Time) Plan {
	if !p.HaveFaults {
		return p
	}
	for again := true; again; {
		again = false
		var keys []string
		for k, f := range p.Faults {
			if f.Kind != "" || f.L1+f.L2 > 5e6 {
				keys = append(keys, k)
			}
		}
		sort.Strings(keys)
		if len(keys) > 1 {
			q := p.clone()
			for _, k := range keys {
				q.Faults[k] = Fault{L1: 500000, L2: 500000}
			}
			if firstOf([]Plan{q}, fails, deadline) == 0 {
				return q
			}
		}
		var cands []Plan
		for _, k := range keys {
			q := p.clone()
			q.Faults[k] = Fault{L1: 500000, L2: 500000}
			cands = append(cands, q)
		}
		if k := firstOf(cands, fails, deadline); k >= 0 {
			p = cands[k]
			again = true
		}
	}
	return p
}

func shrinkSched(p Plan, fails func(*Plan) *Result, deadline time.Time) Plan {
	for _, which := range []int{1, 0, 1, 0} {
		get := func(q *Plan) *[][2]int64 {
			if which == 1 {
				return &q.RPick
			}
			return &q.RYield
		}
		if n := len(*get(&p)); n > 0 {
			q := p.clone()
			*get(&q) = nil
			if firstOf([]Plan{q}, fails, deadline) == 0 {
				p = q
				continue
			}
		}
		for size := (len(*get(&p)) + 1) / 2; size >= 1; {
			var cands []Plan
			l := *get(&p)
			for i := 0; i < len(l) && len(cands) < 64; i += size {
				q := p.clone()
				end := i + size
				if end > len(l) {
					end = len(l)
				}
				*get(&q) = append(append([][2]int64(nil), l[:i]...), l[end:]...)
				cands = append(cands, q)
			}
			if k := firstOf(cands, fails, deadline); k >= 0 {
				p = cands[k]
				if n := len(*get(&p)); size > n && n > 0 {
					size = n
				}
				continue
			}
			if time.Now().After(deadline) {
				break
			}
			size /= 2
		}
	}
	return p
}
