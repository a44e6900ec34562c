package main

import (
	"context"
	"encoding/json"
	"fmt"
	"net/http"
	"strings"
	"time"

	"github.com/DanLavine/willow/internal/zzmain/limiter"
	"github.com/DanLavine/willow/internal/zzmain/locker"
	"github.com/DanLavine/willow/internal/zzmain/willow"
)

func init() {
	worlds["start"] = &world{run: runStart, limit: func() time.Duration { return 10 * time.Minute }, stuck: "S02", tick: []int64{50, 200, 500}, calm: true}
}

const (
	stRetry = int64(10*time.Second + 500*time.Millisecond) // the next attempt to reach a dependency
	stSlack = int64(time.Second)
)

// stProc is one of the three processes in the world of starts and stops.
type stProc struct {
	name, dep string // dep is the host under which it calls what it depends on
	main      func()
	args      []string
	delay     int64
	v         *service
	begun     bool
	started   int64 // its main function was called
	upAt      int64
	reached   int64 // a health check of the dependency was answered
	failed    int64 // the last attempt failed; 0 when one is on its way
	tries     int
}

// runStart starts the three services in any order, with long pauses and
// failing health checks between them, and stops them at any time.
func runStart() {
	s := S
	lag := func(name string) int64 {
		return s.param("delay."+name, func(r *Rand) int64 {
			return pick(r, 0, 0, r.Dur(0, time.Millisecond), r.Dur(0, time.Second), r.Dur(0, 50*time.Second), 10*int64(time.Second)*r.I64(5)+r.Dur(0, 2*time.Millisecond))
		})
	}
	procs := []*stProc{
		{name: "locker", main: locker.Main, args: []string{"-lock-default-timeout", "1s"}},
		{name: "limiter", dep: "locker.limiter", main: limiter.Main, args: []string{"-locker-url", "http://locker.limiter"}},
		{name: "willow", dep: "limiter.willow", main: willow.Main, args: []string{"-limiter-url", "http://limiter.willow", "-storage-type", "memory"}},
	}
	byName, byDep := map[string]*stProc{}, map[string]*stProc{}
	for _, p := range procs {
		p.delay = lag(p.name)
		byName[p.name], byDep[p.dep] = p, p
	}
	bad := s.param("bad", func(r *Rand) int64 { return pick(r, int64(0), 1, 2, 3) })
	// one that comes up just before the other gives up after ten attempts
	if late := s.param("late", func(r *Rand) int64 { return pick(r, int64(0), 0, 0, 0, 1, 2) }); late > 0 {
		at := s.param("late.at", func(r *Rand) int64 { return r.Dur(50*time.Second, 85*time.Second) })
		bad = 0
		procs[0].delay %= int64(time.Second)
		procs[1].delay %= int64(time.Second)
		procs[2].delay %= int64(time.Second)
		procs[2-late].delay += at
		if late == 2 {
			procs[2].delay += at
		}
	}
	early := s.param("early", func(r *Rand) int64 { return pick(r, int64(0), 0, 1) })
	s.net.rates = func(host string) *Rates {
		rt := &Rates{MinLat: 50 * time.Microsecond, MaxLat: 2 * time.Millisecond}
		if p := byDep[host]; p != nil && host != "" && p.reached == 0 && int64(p.tries) < bad {
			rt.Refuse, rt.LostResp, rt.Cut, rt.Gate, rt.Slow, rt.MaxSlow, rt.MaxCut = 10, 10, 10, 20, 10, 300*time.Millisecond, 2*time.Millisecond
		}
		return rt
	}
	stopping := false
	check := func() {
		for _, p := range procs {
			if p.v == nil || stopping {
				continue
			}
			now := s.now()
			switch {
			case p.upAt != 0:
			case p.dep == "" && now-p.started > stSlack:
				s.violate("S02", "slow-start", "%s was started at %dus and still does not listen at %dus", p.name, p.started/1000, now/1000)
			case p.reached != 0 && now-p.reached > stSlack:
				s.violate("S02", "slow-start", "%s reached its dependency at %dus and still does not listen at %dus", p.name, p.reached/1000, now/1000)
			case p.dep != "" && p.reached == 0 && p.tries == 0 && now-p.started > stSlack:
				s.violate("S02", "no-attempt", "%s was started at %dus and has not tried to reach its dependency at %dus", p.name, p.started/1000, now/1000)
			case p.reached == 0 && p.failed != 0 && now-p.failed > stRetry:
				s.violate("S02", "no-retry", "%s failed to reach its dependency at %dus and has not tried again at %dus", p.name, p.failed/1000, now/1000)
			}
		}
	}
	s.net.onSend = func(c *Call) {
		if p := byDep[c.Host]; p != nil && c.Path == "/health" {
			check()
			p.tries, p.failed = p.tries+1, 0
		}
	}
	s.net.onDone = func(c *Call) {
		p := byDep[c.Host]
		if p == nil || c.Path != "/health" {
			return
		}
		s.count("checks")
		if c.Delivered && c.Status == http.StatusOK {
			p.reached = maxI(1, s.now())
		} else {
			p.failed = maxI(1, s.now())
			s.outcome("start.unreached")
			if dep := byName[c.Svc]; dep.upAt != 0 && c.Fault.Kind == "" && !stopping && c.SentAt > dep.upAt {
				s.violate("S02", "health-refused", "a health check of the running %s failed: %s", c.Svc, c)
			}
		}
	}
	s.stuckP = []string{"S02"}
	base := s.now()
	for _, i := range [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}[s.param("order", func(r *Rand) int64 { return r.I64(6) })] {
		p := procs[i]
		go func() {
			time.Sleep(time.Duration(base + p.delay - s.now()))
			if stopping {
				return
			}
			p.begun, p.started = true, s.now()
			v := s.startProcess(p.name, p.main, p.args...)
			p.v = v
			select {
			case <-v.up:
				p.upAt = maxI(1, s.now())
				s.outcome("start.up")
				if p.dep != "" && p.reached == 0 && !stopping {
					s.violate("S02", "up-unconnected", "%s listens before it reached its dependency", p.name)
				}
			case <-v.done:
			}
			if !stopping {
				<-v.done
				if !stopping {
					s.violate("S02,A01", "ended", "the %s process ended at %dus, nobody had told it to", p.name, s.now()/1000)
				}
			}
		}()
	}
	all := func() bool { return procs[0].upAt != 0 && procs[1].upAt != 0 && procs[2].upAt != 0 }
	deadline := int64(-1)
	if early == 1 {
		deadline = s.now() + s.param("stop.at", func(r *Rand) int64 {
			return pick(r, r.Dur(0, 3*time.Millisecond), r.Dur(0, time.Second), r.Dur(0, 95*time.Second), 10*int64(time.Second)*r.I64(9)+r.Dur(0, 2*time.Millisecond))
		})
	}
	for len(s.viol) == 0 && (deadline < 0 && !all() || deadline >= 0 && s.now() < deadline) {
		step := int64(50 * time.Millisecond)
		if deadline >= 0 && deadline-s.now() < step {
			step = deadline - s.now()
		}
		time.Sleep(time.Duration(step))
		check()
	}
	s.outcome(fmt.Sprintf("start.all.%v", all()))
	if all() && len(s.viol) == 0 && early == 0 {
		stWork(s)
	}
	stopping = true
	gap := s.param("gap", func(r *Rand) int64 { return pick(r, 0, r.Dur(0, time.Millisecond), r.Dur(0, 12*time.Second)) })
	for i := 2; i >= 0 && len(s.viol) == 0; i-- {
		p := procs[i]
		if !p.begun {
			continue
		}
		for p.v == nil { // between the call of its main function and its reaction to signals
			time.Sleep(time.Microsecond)
		}
		t0 := s.now()
		p.v.stop()
		s.fault("stop-"+map[bool]string{false: "starting", true: "running"}[p.upAt != 0], true)
		select {
		case <-p.v.done:
			s.count("checks")
			s.outcome(fmt.Sprintf("start.stopped.%v", p.upAt != 0))
		case <-time.After(5 * time.Second):
			s.violate("S02,S01", "stop-ignored", "%s was told to stop at %dus (it listened: %v) and still runs 5s later", p.name, t0/1000, p.upAt != 0)
		}
		time.Sleep(time.Duration(gap))
	}
}

// stWork uses every service once: what an installation that came up has to do.
func stWork(s *Sim) {
	bg := context.Background()
	one := func(host, m, path, body string, want int) []byte {
		ctx, cancel := context.WithTimeout(bg, 20*time.Second)
		defer cancel()
		t0 := s.now()
		st, b, err := s.net.raw(ctx, host, m, path, body)
		s.count("checks")
		s.outcome(fmt.Sprintf("start.%s.%d", m, st))
		if err != nil || st != want || s.now()-t0 > stSlack {
			s.violate("S02", "unusable:"+m+path, "%s %s of an installation that came up: %d %v %s after %dus, expected %d", m, path, st, err, strings.TrimSpace(string(b)), (s.now()-t0)/1000, want)
		}
		return b
	}
	kv := genKVSets(newRand(s.plan.Seed, "start"), 1, false)[0]
	for _, h := range []string{"locker.c", "limiter.c", "willow.c"} {
		one(h, "GET", "/health", "", 200)
	}
	one("willow.c", "POST", "/v1/queues", wlQueueBody("q", 5), 201)
	one("willow.c", "POST", "/v1/queues/q/channels/items", wlItemBody(kv, "x", false, 0, "front", time.Second), 201)
	b := one("willow.c", "GET", "/v1/queues/q/channels/items", "{}", 200)
	var it struct{ State struct{ ID string } }
	if err := json.Unmarshal(b, &it); err == nil && len(s.viol) == 0 {
		one("willow.c", "POST", "/v1/queues/q/channels/items/ack", wlAckBody(it.State.ID, kv, true), 200)
	}
	one("limiter.c", "PUT", "/v1/limiter/counters", lmCounterBody(kv, 1), 200)
	one("limiter.c", "GET", "/v1/limiter/counters/query", "{}", 200)
	one("locker.c", "POST", "/v1/locks", lkBody(kv, int64(time.Second)), 200)
}
