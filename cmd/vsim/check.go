package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// scenario is one (world, profile) a property is searched in.
type scenario struct {
	world, profile string
	weight         int
}

type propCfg struct {
	scen []scenario
	hot  []string // path fragments of the code the property is anchored in
	rule string
}

func mix(z uint64) uint64 {
	z += 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func planFor(b *built, prop string, seed uint64) *Plan {
	pc := props[prop]
	if pc == nil {
		fmt.Println("unknown property", prop)
		os.Exit(2)
	}
	tot := 0
	for _, s := range pc.scen {
		tot += s.weight
	}
	k := int(mix(seed^0x5ca1ab1e) % uint64(tot))
	var sc scenario
	for _, s := range pc.scen {
		if k < s.weight {
			sc = s
			break
		}
		k -= s.weight
	}
	p := &Plan{Property: prop, World: sc.world, Profile: sc.profile, Seed: seed, Sites: len(b.sites)}
	w := warmup(b, prop)
	p.Hot, p.Warm = w.hot[sc], w.warm[sc]
	return p
}

// warm are the sites that a property's scenarios execute at all, found by a
// few runs with fixed seeds: stalls are only placed there.
type warm struct {
	hot, warm map[scenario][]uint32
	nHot, all int // hot sites executed, hot sites
}

var warmCache = map[string]*warm{}
var warmMu sync.Mutex

const warmRuns = 12

func warmup(b *built, prop string) *warm {
	warmMu.Lock()
	defer warmMu.Unlock()
	if w := warmCache[prop]; w != nil {
		return w
	}
	pc := props[prop]
	hot := map[uint32]bool{}
	for _, s := range b.sites {
		for _, h := range pc.hot {
			if strings.Contains(s.File, h) {
				hot[s.ID] = true
				break
			}
		}
	}
	w := &warm{hot: map[scenario][]uint32{}, warm: map[scenario][]uint32{}, all: len(hot)}
	hits := make([][]map[uint32]bool, len(pc.scen))
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	for i, sc := range pc.scen {
		hits[i] = make([]map[uint32]bool, warmRuns)
		for k := 0; k < warmRuns; k++ {
			wg.Add(1)
			go func(i, k int, sc scenario) {
				defer wg.Done()
				sem <- struct{}{}
				defer func() { <-sem }()
				p := &Plan{Property: prop, World: sc.world, Profile: sc.profile, Seed: mix(uint64(k)*977+strHash(prop+sc.world+sc.profile)) >> 1, Sites: len(b.sites), Cover: true}
				m := map[uint32]bool{}
				for _, x := range run(b.bin, p).Cover {
					m[x] = true
				}
				hits[i][k] = m
			}(i, k, sc)
		}
	}
	wg.Wait()
	every := map[uint32]bool{}
	for i, sc := range pc.scen {
		m := map[uint32]bool{}
		for _, h := range hits[i] {
			for x := range h {
				m[x] = true
			}
		}
		for x := range m {
			w.warm[sc] = append(w.warm[sc], x)
			if hot[x] {
				w.hot[sc] = append(w.hot[sc], x)
				every[x] = true
			}
		}
		for _, l := range [][]uint32{w.warm[sc], w.hot[sc]} {
			sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
		}
	}
	w.nHot = len(every)
	warmCache[prop] = w
	return w
}

func check(prop string) int {
	t0 := time.Now()
	tier := env("VERIF_TIER", "quick")
	if len(os.Args) > 3 {
		tier = os.Args[3]
	}
	base, _ := strconv.ParseUint(env("VERIF_SEED", "1"), 10, 64)
	budget := 60 * time.Second
	if tier == "thorough" {
		budget = 10 * time.Minute
	}
	if v := os.Getenv("VSIM_BUDGET"); v != "" {
		if n, err := strconv.Atoi(v); err == nil {
			budget = time.Duration(n) * time.Second
		}
	}
	pc := props[prop]
	if pc == nil {
		fmt.Println("unknown property", prop)
		return 2
	}
	b, clean := binary()
	defer clean()
	w := warmup(b, prop)
	fmt.Printf("%d of %d statements of the anchored code are executed\n", w.nHot, w.all)
	known := knownFindings()

	workers := runtime.NumCPU()
	if workers > 8 {
		workers = 8
	}
	agg := newAgg(prop)
	agg.warm = w
	var mu sync.Mutex
	next := uint64(0)
	stop := false
	var found *Plan
	var foundV Violation
	tSearch := time.Now()
	deadline := tSearch.Add(budget)
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if stop || time.Now().After(deadline) {
					mu.Unlock()
					return
				}
				i := next
				next++
				mu.Unlock()
				seed := mix(mix(base)^i*0x9e3779b97f4a7c15^strHash(prop)) >> 1
				p := planFor(b, prop, seed)
				r := run(b.bin, p)
				var r2 *Result
				if i%97 == 5 {
					r2 = run(b.bin, p)
				}
				mu.Lock()
				agg.add(p, r)
				if r2 != nil {
					agg.detRuns++
					if r2.Hash != r.Hash || r2.Shape != r.Shape || r2.Steps != r.Steps {
						agg.detBad++
					}
				}
				for _, v := range r.Violations {
					if !has(v.Props, prop) {
						continue
					}
					if _, ok := known[prop+"|"+v.Sig]; ok {
						agg.known[v.Sig]++
						continue
					}
					if !stop {
						stop = true
						found, foundV = p, v
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	searchS := time.Since(tSearch).Seconds()
	for sig := range agg.known {
		fmt.Printf("KNOWN-FINDING: property=%s %s [%s] (%d runs)\n", prop, known[prop+"|"+sig], sig, agg.known[sig])
	}
	// findings not met by this search are listed as well
	var rest []string
	for k, v := range known {
		if strings.HasPrefix(k, prop+"|") && agg.known[strings.TrimPrefix(k, prop+"|")] == 0 {
			rest = append(rest, fmt.Sprintf("KNOWN-FINDING: property=%s %s [%s] (not met in this run)", prop, v, strings.TrimPrefix(k, prop+"|")))
		}
	}
	sort.Strings(rest)
	for _, l := range rest {
		fmt.Println(l)
	}
	code := 0
	nviol := 0
	if found != nil {
		nviol = 1
		code = 1
		path := report(b, prop, found, foundV, known)
		fmt.Printf("%s\nVIOLATION property=%s replay=%s\n", foundV.Msg, prop, path)
	}
	agg.evidence(tier, base, b, searchS, time.Since(t0).Seconds(), nviol, pc)
	fmt.Printf("%s: %d runs, %d distinct interleavings, %.0f s simulated, build %.1fs, search %.1fs, %d machinery errors, %d/%d determinism mismatches\n", prop, agg.runs, len(agg.hashes), float64(agg.simNs)/1e9, b.secs, searchS, agg.broken, agg.detBad, agg.detRuns)
	if code == 0 && (agg.runs == 0 || agg.broken*5 > agg.runs) {
		fmt.Println("the machinery failed:", agg.brokenMsg)
		return 2
	}
	return code
}

func strHash(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

type agg struct {
	prop             string
	runs, broken     int
	brokenMsg        string
	crashed          int
	hashes, shapes   map[string]bool
	simNs            int64
	steps, picks, sw uint64
	stalls, yields   uint64
	states           int
	counts, faults   map[string]int64
	worlds           map[string]int
	known            map[string]int
	samples          []any
	nontrivial       map[string]bool
	detRuns, detBad  int
	warm             *warm
	maxWall          time.Duration
}

func newAgg(p string) *agg {
	return &agg{prop: p, hashes: map[string]bool{}, shapes: map[string]bool{}, counts: map[string]int64{}, faults: map[string]int64{}, worlds: map[string]int{}, known: map[string]int{}, nontrivial: map[string]bool{}}
}

func (a *agg) add(p *Plan, r *Result) {
	if r.broken != "" {
		a.broken++
		a.brokenMsg = r.broken
		return
	}
	a.runs++
	if r.crashed {
		a.crashed++
	}
	a.hashes[r.Hash] = true
	if r.Shape != "" {
		a.shapes[r.Shape] = true
	}
	a.simNs += r.SimNs
	a.steps += r.Steps
	a.picks += r.Picks
	a.sw += r.Switches
	a.stalls += r.Stalls
	a.yields += r.Yields
	a.states += r.States
	if r.wall > a.maxWall {
		a.maxWall = r.wall
	}
	for k, v := range r.Counts {
		a.counts[k] += v
	}
	nf := int64(0)
	for k, v := range r.Faults {
		a.faults[k] += v
		nf += v
	}
	a.worlds[p.World+"/"+p.Profile]++
	if r.Counts["checks"] > 0 && (r.Yields > 0 || r.Stalls > 0 || r.Picks > 0 || nf > 0) {
		a.nontrivial[r.Hash] = true
	}
	if len(a.samples) < 3 && r.Counts["checks"] > 0 {
		a.samples = append(a.samples, map[string]any{"seed": p.Seed, "world": p.World, "profile": p.Profile, "steps": r.Steps, "context_switches": r.Switches, "interleaving": r.Hash, "simulated_ms": r.SimNs / 1e6, "outcomes": r.Counts, "faults": r.Faults})
	}
}

func (a *agg) evidence(tier string, seed uint64, b *built, searchS, wall float64, nviol int, pc *propCfg) {
	perHour := 0.0
	if searchS > 0 {
		perHour = float64(a.runs) / searchS * 3600
	}
	files := map[string]bool{}
	for _, s := range b.sites {
		files[s.File] = true
	}
	if a.samples == nil {
		a.samples = []any{}
	}
	ev := map[string]any{
		"property": a.prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": wall, "violations": nviol,
		"assumptions": []string{
			"one P: an execution is an interleaving at statement boundaries of the instrumented packages plus blocking operations; reorderings inside one statement or of the memory model are not explored",
			"the network is a request/response model at the HTTP layer; TCP, TLS and HTTP/2 framing are replaced by the simulated transport",
		},
		"coverage": map[string]any{
			"evaluations": a.runs, "distinct_nontrivial": len(a.nontrivial),
			"rule":                        "one evaluation is one simulated execution generated from one seed (operations, parameters, faults, schedule). It is non-trivial if the oracle of the property examined at least one observation and the scheduler or the network deviated from the default at least once; distinct means a different hash over the sequence of context switches (goroutine, last schedule point). " + pc.rule,
			"samples":                     a.samples,
			"runs_per_hour_one_seed_each": int64(perHour), "anchored_statements_executed": a.warm.nHot, "anchored_statements": a.warm.all,
			"simulated_seconds": float64(a.simNs) / 1e9, "schedule_points_executed": a.steps, "scheduler_picks_with_choice": a.picks, "context_switches": a.sw,
			"forced_yields": a.yields, "injected_stalls": a.stalls, "distinct_interleavings": len(a.hashes), "distinct_outcome_shapes": len(a.shapes), "states_recorded": a.states,
			"faults_injected": a.faults, "observations": a.counts, "worlds": a.worlds, "schedule_points_in_code": len(b.sites), "files_instrumented": len(files),
			"crashed_runs": a.crashed, "machinery_errors": a.broken, "determinism_reruns": a.detRuns, "determinism_mismatches": a.detBad, "known_findings_met": a.known,
			"longest_run_ms": a.maxWall.Milliseconds(), "build_s": b.secs, "search_s": searchS,
			"real_code": "cmd/* (mains), internal/*, pkg/* (configuration, TCP tasks, handlers, middleware, brokers, limiter, locker, trees, heartbeater, client libraries, models), urlrouter, goasync, net/http client and request/response types, zap front end",
			"stubbed":   "TCP/TLS listeners and HTTP framing (simulated transport and accept loop), signals and process exit, log output, wall clock and timers (simulated time), goroutine scheduler choices and random sources (seeded)",
		},
	}
	j, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	writeFile(filepath.Join(verifDir, "evidence", a.prop+".json"), append(j, '\n'))
}

var _ = rand.Int
