package main

import (
	"context"
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/DanLavine/willow/pkg/clients"
	limiterclient "github.com/DanLavine/willow/pkg/clients/limiter_client"
	lockerclient "github.com/DanLavine/willow/pkg/clients/locker_client"
	willowclient "github.com/DanLavine/willow/pkg/clients/willow_client"
	queryassociatedaction "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
	querymatchaction "github.com/DanLavine/willow/pkg/models/api/common/v1/query_match_action"
	v1limiter "github.com/DanLavine/willow/pkg/models/api/limiter/v1"
	v1locker "github.com/DanLavine/willow/pkg/models/api/locker/v1"
	v1willow "github.com/DanLavine/willow/pkg/models/api/willow/v1"
	"github.com/DanLavine/willow/pkg/models/datatypes"
)

// World "client": programs that use the three client libraries against the
// real services over a faulty network. C01: the items of the willow library
// are renewed and their loss is noticed. C02: every call of a library reports
// what the service answered.

func init() {
	worlds["client"] = &world{run: runClient, limit: func() time.Duration { return 5 * time.Minute }, stuck: "C01,C02,A01", tick: []int64{50, 200, 500}, calm: true}
}

type clItem struct {
	n         int
	host      string
	queue     string
	id        string
	item      *willowclient.Item
	T         int64
	dcall     *Call
	ackAt     int64 // the acknowledgement was called
	isDone    bool
	doneAt    int64
	gotAt     int64
	cbErrs    int
	hbSent    []*Call
	ackResult error
}

type clLibs struct {
	w *willowclient.WillowClient
	l *limiterclient.LimitClient
	k *lockerclient.LockClient
}

const clSlack = int64(100 * time.Millisecond)

// clCall judges one call of a library: f runs it and returns its value (nil
// if there is none) and its error.
func clCall(host, kind, method, path string, ok int, once bool, f func() (any, error)) (*Call, error) {
	s := S
	n0 := len(s.net.calls)
	v, err := f()
	var last *Call
	n := 0
	for _, c := range s.net.calls[n0:] {
		if c.Host != host || strings.HasSuffix(c.Path, "/heartbeat") {
			continue
		}
		if c.Method != method || c.Path != path {
			if strings.HasSuffix(c.Path, "/items/ack") {
				continue // of an item that was given up
			}
			s.violate("C02", "other-request:"+kind, "the library call %s for %s %s sent %s %s", kind, method, path, c.Method, c.Path)
			continue
		}
		if !strings.HasSuffix(c.Key, "r") { // not the connection's own retry
			n++
		}
		last = c
	}
	s.count("checks")
	if n > 1 && once {
		s.violate("C02", "repeated:"+kind, "the library call %s sent its request %d times", kind, n)
	}
	st := 0
	if last != nil {
		st = last.Status
		if !last.Delivered {
			st = -1
		}
	}
	s.outcome(fmt.Sprintf("%s.%d.%v", kind, st, err != nil))
	isNil := v == nil || reflect.ValueOf(v).Kind() == reflect.Pointer && reflect.ValueOf(v).IsNil()
	switch {
	case last == nil:
		if err == nil {
			s.violate("C02", "no-request:"+kind, "the library call %s reports success without having asked the service", kind)
		}
	case last.Delivered && last.Status == ok:
		if err != nil {
			s.violate("C02", "false-error:"+kind, "the library call %s reports the error %q although the service answered %s", kind, err, last)
		} else if v != nil {
			if _, skip := v.(*willowclient.Item); skip {
				break
			}
			if _, skip := v.(lockerclient.Lock); skip {
				break
			}
			var a, b any
			_ = json.Unmarshal([]byte(mustJSON(v)), &a)
			_ = json.Unmarshal(last.Resp, &b)
			if isNil || !reflect.DeepEqual(a, b) {
				s.violate("C02", "other-value:"+kind, "the library call %s returned %s, the service answered %s", kind, mustJSON(v), last)
			}
		}
	case last.Delivered:
		if err == nil {
			s.violate("C02", "false-success:"+kind, "the library call %s reports success although the service answered %s", kind, last)
		}
	case last.Fault.Kind == "trunc" && last.Status == ok && v == nil:
		// the status arrived, nothing else is needed
	default:
		if err == nil {
			s.violate("C02", "false-success:"+kind, "the library call %s reports success although it got no answer (%s)", kind, last.ClientErr)
		}
	}
	if err != nil && !isNil {
		s.violate("C02", "value-and-error:"+kind, "the library call %s returned a value and the error %q", kind, err)
	}
	return last, err
}

func runClient() {
	s := S
	bg := context.Background()
	nc := int(s.param("clients", func(r *Rand) int64 { return 1 + r.I64(3) }))
	faulty := s.param("faulty", func(r *Rand) int64 { return pick(r, int64(0), 1, 1, 2) })
	hang := int(s.param("hang", func(r *Rand) int64 { return pick(r, int64(0), 0, 10, 30) }))
	names := []string{"q0", "q0"}
	names[1] = []string{"q1", "a b", "q0?x", "q0#y", "q%30", "q0;z", "q+1", ""}[s.param("name", func(r *Rand) int64 { return r.I64(8) })]
	if nr := newRand(s.plan.Seed, "name"); names[1] == "" {
		names[1] = pick(nr, "q", "q0", "a", "%")
		for i := 0; i < 1+nr.Intn(4); i++ {
			names[1] += pick(nr, "?", "#", "%", "%2", ";", "+", "&", "=", "@", ":", "$", ",", " ", "~", "\"", "'", "<", "\\", "[", "|", "^", "é", "世", "0", ".", "-")
		}
	}
	sets := genKVSets(newRand(s.plan.Seed, "sets"), 2, false)
	stopAt := s.param("stop", func(r *Rand) int64 {
		if r.P(85) {
			return 0
		}
		return r.Dur(time.Millisecond, 4*time.Second)
	})
	s.net.rates = func(host string) *Rates {
		rt := &Rates{MinLat: 50 * time.Microsecond, MaxLat: time.Millisecond}
		user := strings.HasPrefix(host, "willow.c") || strings.HasPrefix(host, "limiter.c") || strings.HasPrefix(host, "locker.c")
		if user && faulty > 0 {
			rt.Refuse, rt.LostResp, rt.WriteFail, rt.Cut, rt.Retry, rt.Trunc = 2, 3, 2, 3, 2, 3
			rt.Gate = 3
			rt.MaxCut = 50 * time.Millisecond
			if faulty == 2 {
				rt.Refuse, rt.LostResp, rt.WriteFail, rt.Cut, rt.Retry, rt.Trunc = 8, 8, 4, 8, 4, 8
				rt.Gate = 10
			}
		}
		if user && hang > 0 {
			rt.Slow, rt.MaxSlow = hang, 6*time.Second
		}
		return rt
	}
	np := int(s.param("partitions", func(r *Rand) int64 { return pick(r, int64(0), 0, 1, 2) }))
	for i := 0; i < np; i++ {
		c := s.param(fmt.Sprintf("part%d.c", i), func(r *Rand) int64 { return r.I64(int64(nc)) })
		from := s.param(fmt.Sprintf("part%d.from", i), func(r *Rand) int64 { return r.Dur(0, 5*time.Second) })
		dur := s.param(fmt.Sprintf("part%d.dur", i), func(r *Rand) int64 { return r.Dur(50*time.Millisecond, 4*time.Second) })
		s.net.parts = append(s.net.parts, partition{prefix: fmt.Sprintf("willow.c%d", c), from: from, to: from + dur})
	}
	s.startLocker(time.Second)
	s.startLimiter()
	s.heal = true
	svc := s.startWillow()
	s.status = s.unanswered
	for i, q := range names {
		if i == 1 && q == names[0] {
			continue
		}
		if st, body, err := s.net.raw(bg, "willow.setup", "POST", "/v1/queues", wlQueueBody(q, -1)); st != 201 {
			s.violate("Q09", "setup-queue", "creating the queue %s failed: %d %s %v", q, st, body, err)
			return
		}
	}
	s.heal = false

	ops := s.ops(func(r *Rand) []Op {
		var l []Op
		short := func() int64 { return pick(r, 0, r.Dur(0, 2*time.Millisecond), r.Dur(0, 300*time.Millisecond)) }
		for c := 0; c < nc; c++ {
			n := 1 + r.Intn(3)
			for i := 0; i < n; i++ {
				T := pick(r, int64(600*time.Millisecond), int64(1500*time.Millisecond), int64(3*time.Second))
				l = append(l, Op{C: c, K: "enq", D: short(), A: []int64{r.I64(2), r.I64(2), T, r.I64(3), r.I64(2)}})
				cancel := int64(0)
				if r.P(20) {
					cancel = pick(r, r.Dur(0, 5*time.Millisecond), r.Dur(0, 2*time.Second))
				}
				if r.P(70) {
					l = append(l, Op{C: c, K: "deq", D: short(), A: []int64{r.I64(2), r.I64(3), cancel}})
					hold := pick(r, r.Dur(0, 2*time.Millisecond), r.I64(T), r.I64(3*T), r.I64(3*T))
					l = append(l, Op{C: c, K: pick(r, "ack", "ack", "nack", "leak"), D: hold})
				}
			}
		}
		if r.P(60) {
			for i := 0; i < 3+r.Intn(8); i++ {
				l = append(l, Op{C: nc, K: pick(r, "qcreate", "qget", "qlist", "qput", "qdel", "chdel", "whealth"), D: short(), A: []int64{r.I64(4), r.I64(3) - 1, r.I64(2)}})
			}
		}
		if r.P(60) {
			for i := 0; i < 4+r.Intn(12); i++ {
				l = append(l, Op{C: nc + 1, K: pick(r, "rcreate", "rcreate", "rget", "rquery", "rmatch", "rput", "rdel", "ocreate", "ocreate", "oget", "oquery", "omatch", "oput", "odel", "cinc", "cinc", "cset", "cquery", "lhealth"), D: short(), A: []int64{r.I64(2), r.I64(4) - 1, r.I64(2)}})
			}
		}
		if r.P(40) {
			for i := 0; i < 1+r.Intn(4); i++ {
				cancel := int64(0)
				if r.P(30) {
					cancel = r.Dur(0, 5*time.Millisecond)
				}
				l = append(l, Op{C: nc + 2, K: "obtain", D: short(), A: []int64{r.I64(2), cancel}})
				l = append(l, Op{C: nc + 2, K: pick(r, "release", "release", "khealth"), D: short()})
			}
		}
		return l
	})
	if stopAt > 0 {
		time.AfterFunc(time.Duration(stopAt), func() { s.fault("shutdown", true); svc.stop() })
	}
	// somebody else deletes a channel or a queue with its items
	if steal := s.param("steal", func(r *Rand) int64 {
		if r.P(60) {
			return 0
		}
		return r.Dur(time.Millisecond, 4*time.Second)
	}); steal > 0 {
		what := s.param("stealwhat", func(r *Rand) int64 { return r.I64(3) })
		time.AfterFunc(time.Duration(steal), func() {
			s.fault("deleted", true)
			if what == 2 {
				_, _, _ = s.net.raw(bg, "willow.admin", "DELETE", "/v1/queues/q0", "")
			} else {
				_, _, _ = s.net.raw(bg, "willow.admin", "DELETE", "/v1/queues/q0/channels", mustJSON(sets[int(what)%len(sets)]))
			}
		})
	}
	libs := map[int]*clLibs{}
	cur := map[int]*clItem{}
	var items []*clItem
	held := map[int]lockerclient.Lock{}
	heldID := map[int][2]string{}
	ruleID, overID := "none", "none"
	data := map[string]string{} // item id to content, by the answers
	s.runClients(ops, func(o *Op) {
		wh, lh, kh := fmt.Sprintf("willow.c%d", o.C), fmt.Sprintf("limiter.c%d", o.C), fmt.Sprintf("locker.c%d", o.C)
		for _, h := range []string{wh, lh, kh} {
			s.net.op(h, o.ID)
		}
		lib := libs[o.C]
		if lib == nil {
			lib = &clLibs{}
			var err error
			lib.w, err = willowclient.NewWillowClient(&clients.Config{URL: "http://" + wh})
			must(err)
			lib.l, err = limiterclient.NewLimiterClient(&clients.Config{URL: "http://" + lh})
			must(err)
			lib.k, err = lockerclient.NewLockClient(&clients.Config{URL: "http://" + kh})
			must(err)
			libs[o.C] = lib
		}
		kvs := func(i int64) datatypes.KeyValues { return sets[int(i)%len(sets)] }
		all := &queryassociatedaction.AssociatedActionQuery{}
		q := names[int(o.a(0))%2]
		if stopAt > 0 && s.now() > stopAt+int64(2*time.Second) && (o.K == "deq" || o.K == "enq") {
			return
		}
		switch o.K {
		case "enq":
			T := time.Duration(o.a(2))
			up, ra, pos := false, uint64(o.a(3)), pick(newRand(uint64(o.ID), "pos"), "front", "back")
			it := &v1willow.Item{Spec: &v1willow.ItemSpec{DBDefinition: &v1willow.ItemDBDefinition{KeyValues: kvs(o.a(1))},
				Properties: &v1willow.ItemProperties{Data: []byte(fmt.Sprintf("item %d", o.ID)), Updateable: &up, RetryAttempts: &ra, RetryPosition: &pos, TimeoutDuration: &T}}}
			clCall(wh, "EnqueueQueueItem", "POST", "/v1/queues/"+q+"/channels/items", 201, true, func() (any, error) { return nil, lib.w.EnqueueQueueItem(bg, q, it) })
		case "deq":
			cur[o.C] = nil
			wait := 6 * time.Second
			if o.a(2) > 0 {
				wait = time.Duration(o.a(2))
			}
			ctx, cancel := context.WithTimeout(bg, wait)
			query := all
			if o.a(1) < 2 {
				query = queryassociatedaction.KeyValuesToExactAssociatedActionQuery(kvs(o.a(1)))
			}
			var it *willowclient.Item
			// a library of its own, so that its heartbeats can be told apart
			// from those of an item that was handed out here before
			dh := fmt.Sprintf("%sd%d", wh, o.ID)
			s.net.op(dh, o.ID)
			lib, err := willowclient.NewWillowClient(&clients.Config{URL: "http://" + dh})
			must(err)
			call, err := clCall(dh, "DequeueQueueItem", "GET", "/v1/queues/"+q+"/channels/items", 200, true, func() (any, error) {
				var err error
				it, err = lib.DequeueQueueItem(ctx, q, query)
				return it, err
			})
			cancel()
			if it == nil || call == nil || err != nil {
				return
			}
			m := &v1willow.Item{}
			if json.Unmarshal(call.Resp, m) != nil || m.State == nil || m.Spec == nil || m.Spec.Properties == nil {
				return
			}
			h := &clItem{n: len(items), host: dh, queue: q, id: m.State.ID, item: it, T: int64(*m.Spec.Properties.TimeoutDuration), dcall: call, ackAt: -1, gotAt: s.now()}
			if string(it.Data()) != string(m.Spec.Properties.Data) {
				s.violate("C02,C01", "other-data", "the item %s was handed to the program with the data %q instead of %q", h.id, it.Data(), m.Spec.Properties.Data)
			}
			data[h.id] = string(m.Spec.Properties.Data)
			items = append(items, h)
			cur[o.C] = h
			if o.ID%2 == 0 {
				it.SetHeartbeatErrorCallback(func(err error) {
					h.cbErrs++
					if err == nil {
						s.violate("C01", "nil-error", "the heartbeat error callback of %s was called without an error", h.id)
					}
				})
			}
			go func() {
				<-it.Done()
				h.isDone, h.doneAt = true, s.now()
				s.ev("item %s of %s done", h.id, h.host)
			}()
		case "ack", "nack":
			if h := cur[o.C]; h != nil {
				clAck(h, o.K == "ack")
				cur[o.C] = nil
			}
		case "leak":
			cur[o.C] = nil
		case "whealth":
			clCall(wh, "willow.Healthy", "GET", "/health", 200, true, func() (any, error) { return nil, lib.w.Healthy() })
		case "lhealth":
			clCall(lh, "limiter.Healthy", "GET", "/health", 200, true, func() (any, error) { return nil, lib.l.Healthy() })
		case "khealth":
			clCall(kh, "locker.Healthy", "GET", "/health", 200, true, func() (any, error) { return nil, lib.k.Healthy() })
		case "qcreate", "qget", "qlist", "qput", "qdel", "chdel":
			name := append(names, "z0", "z?1")[o.a(0)]
			max := o.a(1)
			switch o.K {
			case "qcreate":
				clCall(wh, "CreateQueue", "POST", "/v1/queues", 201, true, func() (any, error) {
					return nil, lib.w.CreateQueue(bg, &v1willow.Queue{Spec: &v1willow.QueueSpec{DBDefinition: &v1willow.QueueDBDefinition{Name: &name}, Properties: &v1willow.QueueProperties{MaxItems: &max}}})
				})
			case "qget":
				clCall(wh, "GetQueue", "GET", "/v1/queues/"+name, 200, true, func() (any, error) { return lib.w.GetQueue(bg, name, all) })
			case "qlist":
				clCall(wh, "ListQueues", "GET", "/v1/queues", 200, true, func() (any, error) {
					l, err := lib.w.ListQueues(bg)
					if err != nil && l == nil {
						return nil, err
					}
					return &l, err
				})
			case "qput":
				clCall(wh, "UpdateQueue", "PUT", "/v1/queues/"+name, 200, true, func() (any, error) {
					return nil, lib.w.UpdateQueue(bg, name, &v1willow.QueueProperties{MaxItems: &max})
				})
			case "qdel":
				clCall(wh, "DeleteQueue", "DELETE", "/v1/queues/"+name, 204, true, func() (any, error) { return nil, lib.w.DeleteQueue(bg, name) })
			case "chdel":
				clCall(wh, "DeleteQueueChannel", "DELETE", "/v1/queues/"+name+"/channels", 204, true, func() (any, error) { return nil, lib.w.DeleteQueueChannel(bg, name, kvs(o.a(2))) })
			}
		case "rcreate", "rget", "rquery", "rmatch", "rput", "rdel", "ocreate", "oget", "oquery", "omatch", "oput", "odel", "cinc", "cset", "cquery":
			limit := o.a(1)
			kv := clKeys("l", kvs(o.a(0)))
			base := "/v1/limiter/rules"
			match := querymatchaction.KeyValuesToAnyMatchActionQuery(kv)
			switch o.K {
			case "rcreate":
				c, err := clCall(lh, "CreateRule", "POST", base, 201, true, func() (any, error) {
					r := &v1limiter.Rule{Spec: &v1limiter.RuleSpec{DBDefinition: &v1limiter.RuleDBDefinition{GroupByKeyValues: kv}, Properties: &v1limiter.RuleProperties{Limit: &limit}}}
					return lib.l.CreateRule(bg, r)
				})
				if err == nil && c != nil {
					ruleID = lmID(c.Resp)
				}
			case "rget":
				clCall(lh, "GetRule", "GET", base+"/"+ruleID, 200, true, func() (any, error) { return lib.l.GetRule(bg, ruleID) })
			case "rquery":
				clCall(lh, "QueryRules", "GET", base+"/query", 200, true, func() (any, error) { return clList(lib.l.QueryRules(bg, all)) })
			case "rmatch":
				clCall(lh, "MatchRules", "GET", base+"/match", 200, true, func() (any, error) { return clList(lib.l.MatchRules(bg, match)) })
			case "rput":
				clCall(lh, "UpdateRule", "PUT", base+"/"+ruleID, 200, true, func() (any, error) {
					return nil, lib.l.UpdateRule(bg, ruleID, &v1limiter.RuleProperties{Limit: &limit})
				})
			case "rdel":
				clCall(lh, "DeleteRule", "DELETE", base+"/"+ruleID, 204, true, func() (any, error) { return nil, lib.l.DeleteRule(bg, ruleID) })
			case "ocreate":
				c, err := clCall(lh, "CreateOverride", "POST", base+"/"+ruleID+"/overrides", 201, true, func() (any, error) {
					okv := datatypes.KeyValues{"o": datatypes.String("v")}
					for k, v := range kv {
						okv[k] = v
					}
					return lib.l.CreateOverride(bg, ruleID, &v1limiter.Override{Spec: &v1limiter.OverrideSpec{DBDefinition: &v1limiter.OverrideDBDefinition{GroupByKeyValues: okv}, Properties: &v1limiter.OverrideProperties{Limit: &limit}}})
				})
				if err == nil && c != nil {
					overID = lmID(c.Resp)
				}
			case "oget":
				clCall(lh, "GetOverride", "GET", base+"/"+ruleID+"/overrides/"+overID, 200, true, func() (any, error) { return lib.l.GetOverride(bg, ruleID, overID) })
			case "oquery":
				clCall(lh, "QueryOverrides", "GET", base+"/"+ruleID+"/overrides/query", 200, true, func() (any, error) { return clList(lib.l.QueryOverrides(bg, ruleID, all)) })
			case "omatch":
				clCall(lh, "MatchOverrides", "GET", base+"/"+ruleID+"/overrides/match", 200, true, func() (any, error) { return clList(lib.l.MatchOverrides(bg, ruleID, match)) })
			case "oput":
				clCall(lh, "UpdateOverride", "PUT", base+"/"+ruleID+"/overrides/"+overID, 200, true, func() (any, error) {
					return nil, lib.l.UpdateOverride(bg, ruleID, overID, &v1limiter.OverrideProperties{Limit: &limit})
				})
			case "odel":
				clCall(lh, "DeleteOverride", "DELETE", base+"/"+ruleID+"/overrides/"+overID, 204, true, func() (any, error) { return nil, lib.l.DeleteOverride(bg, ruleID, overID) })
			case "cinc", "cset":
				n := o.a(1)
				if n == 0 {
					n = 1
				}
				ct := &v1limiter.Counter{Spec: &v1limiter.CounterSpec{DBDefinition: &v1limiter.CounterDBDefinition{KeyValues: kv}, Properties: &v1limiter.CounteProperties{Counters: &n}}}
				if o.K == "cinc" {
					clCall(lh, "UpdateCounter", "PUT", "/v1/limiter/counters", 200, true, func() (any, error) { return nil, lib.l.UpdateCounter(bg, ct) })
				} else {
					clCall(lh, "SetCounters", "PUT", "/v1/limiter/counters/set", 200, true, func() (any, error) { return nil, lib.l.SetCounters(bg, ct) })
				}
			case "cquery":
				clCall(lh, "QueryCounters", "GET", "/v1/limiter/counters/query", 200, true, func() (any, error) { return clList(lib.l.QueryCounters(bg, all)) })
			}
		case "obtain":
			if held[o.C] != nil {
				return
			}
			wait := 10 * time.Second
			if o.a(1) > 0 {
				wait = time.Duration(o.a(1))
			}
			ctx, cancel := context.WithTimeout(bg, wait)
			T := time.Second
			var lk lockerclient.Lock
			n0 := len(s.net.calls)
			f := func() (any, error) {
				var err error
				lk, err = lib.k.ObtainLock(ctx, &v1locker.Lock{Spec: &v1locker.LockSpec{DBDefinition: &v1locker.LockDBDefinition{KeyValues: clKeys("k", kvs(o.a(0)))}, Properties: &v1locker.LockProperties{Timeout: &T}}}, nil)
				if lk == nil {
					if err == nil && ctx.Err() != nil {
						err = ctx.Err() // documented: neither a lock nor an error when the context ended
					}
					return nil, err
				}
				return lk, err
			}
			c, _ := clCall(kh, "ObtainLock", "POST", "/v1/locks", 200, false, f)
			cancel()
			_ = n0
			if lk != nil {
				held[o.C] = lk
				if c != nil {
					g := lkParseGrant(c.Resp)
					heldID[o.C] = [2]string{g.id, g.sess}
				}
			}
		case "release":
			if lk := held[o.C]; lk != nil {
				select {
				case <-lk.Done(): // lost
					held[o.C] = nil
					return
				default:
				}
				clCall(kh, "Release", "DELETE", "/v1/locks/"+heldID[o.C][0], 204, true, func() (any, error) { return nil, lk.Release(bg) })
				held[o.C] = nil
			}
		}
	})
	s.heal = true
	time.Sleep(8 * time.Second)
	for _, c := range s.net.calls {
		if strings.HasSuffix(c.Path, "/items/heartbeat") && c.Method == "POST" {
			hb := &v1willow.Heartbeat{}
			_ = json.Unmarshal(c.Req, hb)
			for _, h := range items {
				if h.host == c.Host {
					if h.id != hb.ItemID || !strings.Contains(c.Path, "/"+h.queue+"/") {
						s.violate("C01", "other-renewal", "the library renews something else than the item %s: %s", h.id, c)
					}
					h.hbSent = append(h.hbSent, c)
				}
			}
		}
	}
	for _, h := range items {
		clJudge(h)
	}
	// finish what is left
	for _, h := range items {
		if !h.isDone && h.ackAt < 0 {
			s.net.op(h.host, 1000+h.n)
			clAck(h, true)
		}
	}
	if stopAt > 0 {
		return
	}
	s.count("drained")
}

func clList[T any](l []T, err error) (any, error) {
	if err != nil && l == nil {
		return nil, err
	}
	return &l, err
}

// clKeys keeps the key-values of the three services apart: a lock of a user
// on the same ones would hold up the limiter.
func clKeys(prefix string, kvs datatypes.KeyValues) datatypes.KeyValues {
	n := datatypes.KeyValues{}
	for k, v := range kvs {
		n[prefix+"_"+k] = v
	}
	return n
}

func clAck(h *clItem, passed bool) {
	s := S
	h.ackAt = s.now()
	clCall(h.host, "ACK", "POST", "/v1/queues/"+h.queue+"/channels/items/ack", 200, true, func() (any, error) { return nil, h.item.ACK(context.Background(), passed) })
	select {
	case <-h.item.Done():
	default:
		s.violate("C01", "acked-not-done", "the item %s of %s was acknowledged but is not done", h.id, h.host)
	}
}

// clJudge compares what the program was told about an item with the answers
// to its renewals.
func clJudge(h *clItem) {
	s := S
	s.count("checks")
	end := s.now()
	if h.isDone {
		end = h.doneAt
	}
	sort.Slice(h.hbSent, func(a, b int) bool { return h.hbSent[a].SentSeq < h.hbSent[b].SentSeq })
	last := h.dcall.DoneAt
	lost, maybe := int64(-1), false
	idle := h.gotAt // since then no renewal was under way
	for _, c := range h.hbSent {
		if h.isDone && c.SentAt > h.doneAt+clSlack {
			s.violate("C01", "renewed-after-done", "the item %s of %s was done at %dus, a heartbeat was sent at %dus", h.id, h.host, h.doneAt/1000, c.SentAt/1000)
		}
		if h.ackAt >= 0 && c.SentAt > h.ackAt+clSlack {
			s.violate("C01", "renewed-after-ack", "the item %s of %s was acknowledged at %dus, a heartbeat was sent at %dus", h.id, h.host, h.ackAt/1000, c.SentAt/1000)
		}
		if c.SentAt <= end && c.SentAt > idle+h.T*4/10+clSlack {
			s.violate("C01", "not-renewed", "the item %s of %s (timeout %dus) was not renewed between %dus and %dus", h.id, h.host, h.T/1000, idle/1000, c.SentAt/1000)
		}
		idle = end
		if c.DoneSeq > 0 {
			idle = c.DoneAt
		}
		if !c.Delivered && c.Fault.Kind == "trunc" && c.Status >= 400 && c.Status < 500 {
			maybe = true // the status arrived
		}
		if !c.Delivered || c.DoneAt > end {
			continue
		}
		switch c.Status {
		case 200:
			last = c.DoneAt
		case 400:
			s.violate("C01", "bad-renewal", "the heartbeat of the item %s of %s is malformed: %s", h.id, h.host, c)
			fallthrough
		case 404, 409:
			if lost < 0 {
				lost = c.DoneAt
			}
		}
	}
	if end > idle+h.T*4/10+clSlack {
		s.violate("C01", "not-renewed", "the item %s of %s (timeout %dus) was not renewed between %dus and %dus", h.id, h.host, h.T/1000, idle/1000, end/1000)
	}
	k := "held"
	switch {
	case h.ackAt >= 0 && (!h.isDone || h.doneAt >= h.ackAt):
		k = "acked"
		if h.isDone && end > h.ackAt+clSlack {
			s.violate("C01", "late-done", "the item %s of %s was acknowledged at %dus, it was done at %dus", h.id, h.host, h.ackAt/1000, h.doneAt/1000)
		}
		end = h.ackAt
	case lost >= 0:
		k = "refused"
		if !h.isDone || end > lost+clSlack {
			s.violate("C01", "late-lost", "willow answered at %dus that the item %s of %s is not with it anymore, the program was told at %dus (%v)", lost/1000, h.id, h.host, end/1000, h.isDone)
		}
	case h.isDone:
		k = "expired"
		if !maybe && end < last+h.T-h.T/10-int64(time.Millisecond) {
			s.violate("C01", "lost-early", "the item %s of %s (timeout %dus) was last renewed at %dus and reported lost at %dus", h.id, h.host, h.T/1000, last/1000, end/1000)
		}
	}
	s.outcome("item." + k)
	if end > last+h.T+clSlack {
		s.violate("C01", "late-loss", "the item %s of %s (timeout %dus) was last renewed at %dus, at %dus it is still reported as held (done=%v)", h.id, h.host, h.T/1000, last/1000, end/1000, h.isDone)
	}
}
