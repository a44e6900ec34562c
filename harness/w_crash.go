package main

import (
	"context"
	"fmt"
	"strings"
	"time"
)

// runLimiterCrash is the limiter's world in which the locker and the limiter
// crash and are started again at arbitrary moments. Both keep everything in
// memory, so a restarted one starts empty; locks of a dead limiter live on in
// the locker until their lease ends. What has to survive is the service: the
// restarted system answers every request in bounded time and leaves no locks.
func runLimiterCrash() {
	s := S
	ncount := int(s.param("counters", func(r *Rand) int64 { return pick(r, int64(1), 2, 3, 4) }))
	nrules := int(s.param("rules", func(r *Rand) int64 { return pick(r, int64(1), 1, 2, 3) }))
	faulty := s.param("faulty", func(r *Rand) int64 { return pick(r, int64(0), 0, 1) })
	tight := s.param("tight", func(r *Rand) int64 { return pick(r, int64(0), 1) })
	sets := genKVSets(newRand(s.plan.Seed, "sets"), ncount, false)
	ncount = len(sets)
	l := &lmLedger{sets: sets, index: map[string]int{}, lockedBy: map[*Call][]*lkGrant{}, faulty: true}
	for i, kv := range sets {
		l.index[kvStr(kv)] = i
	}
	l.rules = lmGenRules(newRand(s.plan.Seed, "rules"), sets, nrules, 2, s.param("high", func(r *Rand) int64 { return pick(r, int64(0), 1) }) == 1)
	s.net.rates = func(host string) *Rates {
		rt := &Rates{MinLat: 50 * time.Microsecond, MaxLat: 2 * time.Millisecond}
		if tight == 1 {
			rt.MinLat, rt.MaxLat = 50*time.Microsecond, 51*time.Microsecond
		}
		if faulty == 1 && strings.HasPrefix(host, "locker.limiter") {
			rt.Refuse, rt.LostResp, rt.Cut, rt.Slow, rt.Gate = 1, 2, 3, 3, 2
			rt.MaxSlow, rt.MaxCut = 1500*time.Millisecond, 200*time.Millisecond
		}
		return rt
	}
	s.net.onEnd = func(c *Call) {
		if c.Svc == "limiter" {
			l.onEnd(c)
		}
	}
	s.status = s.unanswered
	locker := s.startLocker(time.Second)
	gen := 0
	host := func() string { return "locker.limiter" + strings.Repeat("x", gen) }
	lim := s.startLimiterAs(host())
	setup := func() bool {
		for _, ru := range l.rules {
			st, body, err := s.net.raw(context.Background(), "limiter.mgr", "POST", "/v1/limiter/rules", lmRuleBody(ru.kv, ru.limit))
			id := lmID(body)
			if err != nil || st != 201 || id == "" {
				s.violate("R05", "setup-rule", "creating the rule {%s} in an empty table failed: %d %s %v", kvStr(ru.kv), st, body, err)
				return false
			}
			for _, o := range ru.over {
				st, body, err = s.net.raw(context.Background(), "limiter.mgr", "POST", "/v1/limiter/rules/"+id+"/overrides", lmOverrideBody(o.kv, o.limit))
				if err != nil || st != 201 {
					s.violate("R05", "setup-override", "creating the override {%s} of {%s} failed: %d %s %v", kvStr(o.kv), kvStr(ru.kv), st, body, err)
					return false
				}
			}
		}
		return true
	}
	if !setup() {
		return
	}
	restarted := make(chan struct{})
	go func() {
		defer close(restarted)
		n := int(s.param("crashes", func(r *Rand) int64 { return 1 + r.I64(4) }))
		for i := 0; i < n; i++ {
			time.Sleep(time.Duration(s.param(fmt.Sprintf("crash%d.at", i), func(r *Rand) int64 {
				return pick(r, r.Dur(0, time.Millisecond), r.Dur(0, 20*time.Millisecond), r.Dur(0, time.Second))
			})))
			down := time.Duration(s.param(fmt.Sprintf("crash%d.down", i), func(r *Rand) int64 {
				return pick(r, 0, r.Dur(0, 10*time.Millisecond), r.Dur(0, 1500*time.Millisecond))
			}))
			what := s.param(fmt.Sprintf("crash%d.what", i), func(r *Rand) int64 { return pick(r, int64(0), 1, 1, 2) })
			if what != 1 {
				s.net.crash(locker, "")
			}
			if what != 0 {
				s.net.crash(lim, host())
			}
			time.Sleep(down)
			if what != 1 {
				locker = s.startLocker(time.Second)
			}
			s.ev("restarted")
			if what == 0 {
				continue
			}
			gen++
			lim = s.startLimiterAs(host())
			if !setup() {
				return
			}
		}
	}()
	ops := s.ops(func(r *Rand) []Op {
		var ops []Op
		nc := 2 + r.Intn(4)
		n := pick(r, 4, 8, 16)
		impatient := pick(r, 0, 0, 30)
		gap := pick(r, 200*time.Microsecond, 3*time.Millisecond, 200*time.Millisecond)
		for c := 0; c < nc; c++ {
			for i := 0; i < n; i++ {
				o := Op{C: c, K: "add", D: pick(r, 0, r.Dur(0, gap), r.Dur(0, gap)), A: []int64{r.I64(int64(ncount)), pick(r, int64(1), 1, 1, 2, -1), 0}}
				if r.P(impatient) {
					o.A[2] = pick(r, r.Dur(50*time.Microsecond, time.Millisecond), r.Dur(0, 10*time.Millisecond), r.Dur(0, time.Second))
				}
				ops = append(ops, o)
			}
		}
		return ops
	})
	bg := context.Background()
	s.runClients(ops, func(o *Op) {
		host := fmt.Sprintf("limiter.c%d", o.C)
		s.net.op(host, o.ID)
		wait := 20 * time.Second
		if o.a(2) > 0 {
			wait = time.Duration(o.a(2))
		}
		ctx, cancel := context.WithTimeout(bg, wait)
		defer cancel()
		st, _, _ := s.net.raw(ctx, host, "PUT", "/v1/limiter/counters", lmCounterBody(sets[o.a(0)], o.a(1)))
		s.outcome(fmt.Sprintf("crash.add.%d", st))
	})
	<-restarted
	s.heal = true
	healed := s.now()
	time.Sleep(time.Duration(lmBound))
	l.answered(healed)
	time.Sleep(time.Duration(lmLease + lmSlack))
	st, body, err := s.net.raw(bg, "locker.final", "GET", "/v1/locks", "{}")
	if err != nil || st != 200 || strings.TrimSpace(string(body)) != "[]" {
		s.violate("R05", "locks-left", "locks are left long after the last request: %d %v %s", st, err, body)
	}
	probe := newRand(s.plan.Seed, "probe")
	one := func(m, p, b string) {
		t0 := s.now()
		ctx, cancel := context.WithTimeout(bg, 20*time.Second)
		defer cancel()
		st, body, err := s.net.raw(ctx, "limiter.final", m, p, b)
		s.count("checks")
		if err != nil || st == 500 || s.now()-t0 > int64(2*time.Second) {
			s.violate("R05", "final-request", "%s %s in a quiet system: %d %v %s after %dus", m, p, st, err, body, (s.now()-t0)/1000)
		}
	}
	one("GET", "/v1/limiter/counters/query", "{}")
	for i := 0; i < ncount*3 && len(s.viol) == 0; i++ {
		one("PUT", "/v1/limiter/counters", lmCounterBody(sets[probe.Intn(ncount)], pick(probe, int64(1), 1, 1, -1)))
	}
	one("GET", "/v1/limiter/counters/query", "{}")
}
