// Package main is the simulated deployment: real willow, limiter and locker
// code wired together inside one process under the simulated runtime.
// It is mapped into the module through a build overlay (see cmd/vsim).
package main

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/google/uuid"
	"github.com/segmentio/ksuid"
	"go.uber.org/zap"
	"go.uber.org/zap/zapcore"
)

// Op is one client action of a plan. The meaning of A and S is world specific.
type Op struct {
	ID int      `json:"id"`
	C  int      `json:"c"` // client (a sequential actor)
	K  string   `json:"k"` // kind
	D  int64    `json:"d"` // delay in ns before the action
	A  []int64  `json:"a,omitempty"`
	S  []string `json:"s,omitempty"`
}

func (o *Op) a(i int) int64 {
	if i < len(o.A) {
		return o.A[i]
	}
	return 0
}

func (o *Op) s(i int) string {
	if i < len(o.S) {
		return o.S[i]
	}
	return ""
}

// Sched is the explicit scheduling configuration.
type Sched struct {
	PickProb  uint32     `json:"pick_prob"`
	YieldProb uint32     `json:"yield_prob"`
	Prio      bool       `json:"prio,omitempty"`
	PrioProb  uint32     `json:"prio_prob,omitempty"`
	Tick      int64      `json:"tick_ns"`
	Stalls    [][3]int64 `json:"stalls,omitempty"` // site, prob/65536, max ns
	MaxSteps  uint64     `json:"max_steps"`
}

// Plan is everything that determines one execution.
type Plan struct {
	Property string           `json:"property"`
	World    string           `json:"world"`
	Profile  string           `json:"profile,omitempty"`
	Seed     uint64           `json:"seed"`
	Sites    int              `json:"sites"`
	Hot      []uint32         `json:"hot,omitempty"`  // stall sites are drawn from these mostly
	Warm     []uint32         `json:"warm,omitempty"` // and from these otherwise
	Cover    bool             `json:"cover,omitempty"`
	Params   map[string]int64 `json:"params,omitempty"`
	Ops      []Op             `json:"ops,omitempty"`
	HaveOps  bool             `json:"have_ops,omitempty"`
	Sched    *Sched           `json:"sched,omitempty"`
	// explicit faults: decision key -> fault
	Faults     map[string]Fault `json:"faults,omitempty"`
	HaveFaults bool             `json:"have_faults,omitempty"`
	// explicit scheduling deviations
	Replay bool       `json:"replay,omitempty"`
	RYield [][2]int64 `json:"ryield,omitempty"`
	RPick  [][2]int64 `json:"rpick,omitempty"`

	Emit  bool `json:"emit,omitempty"` // put the explicit plan into the result
	Trace bool `json:"-"`              // put the event trace into the result
}

// Violation of a property found in a run.
type Violation struct {
	Props []string `json:"props"`
	Sig   string   `json:"sig"`
	Msg   string   `json:"msg"`
}

// Result of one run.
type Result struct {
	Violations []Violation      `json:"violations,omitempty"`
	Counts     map[string]int64 `json:"counts"`
	Faults     map[string]int64 `json:"faults"`
	Shape      string           `json:"shape"` // outcome shape of the run
	States     int              `json:"states"`
	Steps      uint64           `json:"steps"`
	Picks      uint64           `json:"picks"`
	Switches   uint64           `json:"switches"`
	Hash       string           `json:"hash"`
	Stalls     uint64           `json:"stalls"`
	Yields     uint64           `json:"yields"`
	Cover      []uint32         `json:"cover,omitempty"`
	SimNs      int64            `json:"sim_ns"`
	Plan       *Plan            `json:"plan,omitempty"`
	Trace      []string         `json:"trace,omitempty"`
}

// Sim is the state of the current run. Harness code is not instrumented and
// there is one P without preemption, so it needs no locks.
type Sim struct {
	stacks   bool // add the stacks of all goroutines to a violation
	plan     *Plan
	rng      *Rand
	log      *zap.Logger
	start    int64
	counts   map[string]int64
	faults   map[string]int64
	viol     []Violation
	seen     map[string]bool
	trace    []string
	states   map[uint64]bool
	shape    uint64
	fdec     map[string]Fault
	heal     bool // faults are off
	ended    bool
	net      *simNet
	procs    []*service    // every process that was started
	starting sync.Mutex    // processes are started one after another
	status   func() string // world supplied, for stuck runs
	stuckP   []string      // properties violated by a stuck run
}

var S *Sim

// Rand is a splitmix64 stream.
type Rand struct{ s uint64 }

func mix(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *Rand) u64() uint64 { r.s += 0x9e3779b97f4a7c15; return mix(r.s) }

// Intn returns a number in [0,n).
func (r *Rand) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.u64() % uint64(n))
}
func (r *Rand) I64(n int64) int64 {
	if n <= 0 {
		return 0
	}
	return int64(r.u64() % uint64(n))
}

// P is true with probability pct percent.
func (r *Rand) P(pct int) bool { return r.Intn(100) < pct }

// Dur is a random duration in [lo,hi].
func (r *Rand) Dur(lo, hi time.Duration) int64 {
	return int64(lo) + r.I64(int64(hi-lo)+1)
}

// Pick one of.
func pick[T any](r *Rand, l ...T) T { return l[r.Intn(len(l))] }

func newRand(seed uint64, tag string) *Rand { return &Rand{s: hashStr(seed*0x9e3779b97f4a7c15+1, tag)} }

func hashStr(h uint64, s string) uint64 {
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return mix(h)
}

func (r *Rand) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(r.u64())
	}
	return len(p), nil
}

func (s *Sim) now() int64 { return runtime.SimNow() - s.start }

func (s *Sim) seq() uint64 { return runtime.SimSeq() }

func (s *Sim) count(k string) { s.counts[k]++ }

// ev records an event in the trace.
func (s *Sim) ev(format string, args ...any) {
	// always, and not only for a run whose trace is wanted: where objects lie
	// in memory decides the order in which maps with pointers are walked
	runtime.SimMute(true)
	s.trace = append(s.trace, fmt.Sprintf("%d %dus g%d ", runtime.SimSteps(), s.now()/1000, runtime.SimGoid())+fmt.Sprintf(format, args...))
	runtime.SimMute(false)
}

// outcome folds a classified outcome into the shape of the run.
func (s *Sim) outcome(k string) {
	s.counts["out."+k]++
	s.shape = hashStr(s.shape+1469598103934665603, k)
}

func (s *Sim) state(k string) { s.states[hashStr(14695981039346656037, k)] = true }

func (s *Sim) violate(props string, sig string, format string, args ...any) {
	key := props + "|" + sig
	if s.seen[key] {
		return
	}
	s.seen[key] = true
	msg := fmt.Sprintf(format, args...)
	s.ev("VIOLATION %s %s %s", props, sig, msg)
	s.viol = append(s.viol, Violation{Props: strings.Split(props, ","), Sig: sig, Msg: msg})
	if s.plan.Trace && s.stacks {
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		s.trace = append(s.trace, strings.Split(string(buf), "\n")...)
	}
}

// param draws a world parameter once and records it in the plan.
func (s *Sim) param(name string, draw func(r *Rand) int64) int64 {
	if v, ok := s.plan.Params[name]; ok {
		return v
	}
	v := draw(newRand(s.plan.Seed, "param."+name))
	s.plan.Params[name] = v
	return v
}

// ops returns the plan's explicit operations or generates them.
func (s *Sim) ops(gen func(r *Rand) []Op) []Op {
	if !s.plan.HaveOps {
		s.plan.Ops = gen(newRand(s.plan.Seed, "ops"))
		for i := range s.plan.Ops {
			s.plan.Ops[i].ID = i + 1
		}
		s.plan.HaveOps = true
	}
	if s.plan.Emit {
		p := *s.plan
		p.Hot, p.Warm = nil, nil
		p.Faults = nil
		p.Emit, p.Trace = false, false
		b, _ := json.Marshal(&p)
		os.Stdout.Write(append(append([]byte("PLAN "), b...), '\n'))
	}
	return s.plan.Ops
}

// decided records a fault decision (also for runs that die later).
func (s *Sim) decided(key string, f Fault) {
	s.fdec[key] = f
	if s.plan.Emit {
		b, _ := json.Marshal(map[string]Fault{key: f})
		os.Stdout.Write(append(append([]byte("FAULT "), b...), '\n'))
	}
}

// byClient splits the operations into the sequences of the clients.
func byClient(ops []Op) map[int][]Op {
	m := map[int][]Op{}
	for _, o := range ops {
		m[o.C] = append(m[o.C], o)
	}
	return m
}

func sortedKeys[K int | string, V any](m map[K]V) []K {
	l := make([]K, 0, len(m))
	for k := range m {
		l = append(l, k)
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return l
}

// runClients runs every client's sequence in its own goroutine and waits.
func (s *Sim) runClients(ops []Op, do func(o *Op)) {
	m := byClient(ops)
	done := make(chan struct{})
	keys := sortedKeys(m)
	for _, c := range keys {
		l := m[c]
		go func() {
			for i := range l {
				if l[i].D > 0 {
					time.Sleep(time.Duration(l[i].D))
				}
				do(&l[i])
			}
			done <- struct{}{}
		}()
	}
	for range keys {
		<-done
	}
}

type world struct {
	run   func()
	limit func() time.Duration // simulated time after which the run counts as stuck
	stuck string               // properties a stuck run violates
	tick  []int64              // allowed tick values
	calm  bool                 // no long stalls
}

var worlds = map[string]*world{}

type fatalHook struct{}

func (fatalHook) OnWrite(ce *zapcore.CheckedEntry, f []zapcore.Field) {
	var b strings.Builder
	for _, x := range f {
		if e, ok := x.Interface.(error); ok && e != nil {
			fmt.Fprintf(&b, " %s=%v", x.Key, e)
		} else if x.String != "" && x.Key != "X-Request-Id" && x.Key != "Request-ID" {
			fmt.Fprintf(&b, " %s=%s", x.Key, x.String)
		}
	}
	panic("logger.Fatal: " + ce.Message + b.String())
}

func newLogger() *zap.Logger {
	return zap.New(zapcore.NewNopCore(), zap.WithFatalHook(fatalHook{}))
}

func derivedSched(p *Plan, w *world) *Sched {
	r := newRand(p.Seed, "sched")
	sc := &Sched{MaxSteps: 3_000_000}
	ticks := w.tick
	if ticks == nil {
		ticks = []int64{50, 200, 1000}
	}
	sc.Tick = ticks[r.Intn(len(ticks))]
	switch r.Intn(10) {
	case 0:
		// FIFO: only the order of events in simulated time matters
	case 1, 2, 3:
		sc.PickProb = 65535
		sc.YieldProb = uint32(pick(r, 300, 1500, 6000))
	case 4, 5:
		sc.PickProb = uint32(pick(r, 3000, 20000))
		sc.YieldProb = uint32(pick(r, 100, 600, 3000, 20000))
	case 6, 7:
		sc.Prio = true
		sc.PrioProb = uint32(pick(r, 20, 80, 300))
		sc.YieldProb = uint32(pick(r, 0, 100, 1000))
	default:
		sc.PickProb = uint32(pick(r, 0, 10000, 65535))
		sc.YieldProb = uint32(pick(r, 0, 100, 1000))
	}
	// a few statements at which goroutines get stuck for a while
	n := pick(r, 0, 1, 2, 3, 5, 8)
	if w.calm {
		n = pick(r, 0, 0, 1, 2, 4)
	}
	for i := 0; i < n && p.Sites > 0; i++ {
		site := int64(r.Intn(p.Sites) + 1)
		if len(p.Warm) > 0 && r.P(80) {
			site = int64(p.Warm[r.Intn(len(p.Warm))])
		}
		if len(p.Hot) > 0 && r.P(85) {
			site = int64(p.Hot[r.Intn(len(p.Hot))])
		}
		prob := pick(r, int64(500), 5000, 20000, 65535)
		max := pick(r, int64(20*time.Microsecond), int64(300*time.Microsecond), int64(3*time.Millisecond), int64(30*time.Millisecond))
		if w.calm && max > int64(time.Millisecond) {
			max = int64(time.Millisecond)
		}
		sc.Stalls = append(sc.Stalls, [3]int64{site, prob, max})
	}
	return sc
}

func toDec(l [][2]int64) []runtime.SimDecision {
	var out []runtime.SimDecision
	for _, d := range l {
		out = append(out, runtime.SimDecision{N: uint64(d[0]), V: d[1]})
	}
	return out
}

func fromDec(l []runtime.SimDecision) [][2]int64 {
	var out [][2]int64
	for _, d := range l {
		out = append(out, [2]int64{int64(d.N), d.V})
	}
	return out
}

func main() {
	runtime.MemProfileRate = 0 // its samples use up random numbers
	debug.SetGCPercent(-1)
	debug.SetTraceback("all")
	var plan Plan
	in, err := io.ReadAll(os.Stdin)
	if err == nil {
		err = json.Unmarshal(in, &plan)
	}
	if err != nil {
		fmt.Println("bad plan:", err)
		os.Exit(64)
	}
	w := worlds[plan.World]
	if w == nil {
		fmt.Println("unknown world", plan.World)
		os.Exit(64)
	}
	if plan.Params == nil {
		plan.Params = map[string]int64{}
	}
	if plan.Sched == nil {
		plan.Sched = derivedSched(&plan, w)
	}
	uuid.SetRand(newRand(plan.Seed, "uuid"))
	ksuid.SetRand(newRand(plan.Seed, "ksuid"))
	s := &Sim{plan: &plan, rng: newRand(plan.Seed, "sim"), log: newLogger(), counts: map[string]int64{}, faults: map[string]int64{},
		seen: map[string]bool{}, states: map[uint64]bool{}, fdec: map[string]Fault{}}
	S = s
	s.net = newSimNet(s)
	cfg := &runtime.SimConfig{Seed: plan.Seed, PickProb: plan.Sched.PickProb, YieldProb: plan.Sched.YieldProb, Prio: plan.Sched.Prio,
		PrioProb: plan.Sched.PrioProb, Tick: plan.Sched.Tick, MaxSteps: plan.Sched.MaxSteps, Replay: plan.Replay, RYield: toDec(plan.RYield), RPick: toDec(plan.RPick)}
	for _, st := range plan.Sched.Stalls {
		cfg.StallSites = append(cfg.StallSites, runtime.SimStall{Site: uint32(st[0]), Prob: uint32(st[1]), Max: st[2]})
	}
	plan.Trace, s.stacks = os.Getenv("VSIM_TRACE") == "1", os.Getenv("VSIM_STACKS") != ""
	runtime.SimStart(cfg)
	s.start = runtime.SimNow()
	done := make(chan struct{})
	go func() {
		w.run()
		close(done)
	}()
	limit := 10 * time.Minute
	if w.limit != nil {
		limit = w.limit()
	}
	select {
	case <-done:
	case <-time.After(limit):
		st := ""
		if s.status != nil {
			st = s.status()
		}
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		props := w.stuck
		if props == "" {
			props = plan.Property
		}
		if s.stuckP != nil {
			props = strings.Join(s.stuckP, ",")
		}
		s.violate(props, "stuck:"+stuckSig(string(buf)), "the run did not finish within %v of simulated time; %s", limit, st)
		if plan.Trace {
			s.trace = append(s.trace, strings.Split(string(buf), "\n")...)
		}
	}
	s.finish()
}

// stuckSig names the repository functions goroutines are blocked in.
func stuckSig(dump string) string {
	set := map[string]bool{}
	for _, g := range strings.Split(dump, "\n\n") {
		for _, l := range strings.Split(g, "\n") {
			if strings.HasPrefix(l, "github.com/DanLavine/willow/") && !strings.Contains(l, "/zzsim") {
				f := strings.TrimPrefix(l, "github.com/DanLavine/willow/")
				if i := strings.LastIndex(f, "("); i > 0 {
					f = f[:i]
				}
				set[f] = true
				break
			}
		}
	}
	l := sortedKeys(set)
	if len(l) > 8 {
		l = l[:8]
	}
	return strings.Join(l, ";")
}

func (s *Sim) finish() {
	steps, picks, sw, hash, stalls, yields, _ := runtime.SimStats()
	yd, pd := runtime.SimDecisions()
	r := &Result{Violations: s.viol, Counts: s.counts, Faults: s.faults, Shape: fmt.Sprintf("%016x", s.shape), States: len(s.states), Steps: steps, Picks: picks,
		Switches: sw, Hash: fmt.Sprintf("%016x", hash), Stalls: stalls, Yields: yields, SimNs: s.now()}
	if s.plan.Trace {
		r.Trace = s.trace
	}
	runtime.SimStop()
	if s.plan.Cover {
		for i, h := range runtime.SimHits() {
			if h {
				r.Cover = append(r.Cover, uint32(i))
			}
		}
	}
	if s.plan.Emit {
		p := *s.plan
		p.Hot, p.Warm = nil, nil
		if !p.Replay {
			p.RYield, p.RPick = fromDec(yd), fromDec(pd)
		}
		p.Replay = true
		p.Faults, p.HaveFaults = s.fdec, true
		p.Emit, p.Trace = false, false
		r.Plan = &p
	}
	b, _ := json.Marshal(r)
	b = append(b, '\n')
	os.Stdout.Write(append([]byte("RESULT "), b...))
	os.Exit(0)
}
