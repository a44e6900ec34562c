package main

import (
	"context"
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"time"

	queryassociatedaction "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
	querymatchaction "github.com/DanLavine/willow/pkg/models/api/common/v1/query_match_action"
	v1limiter "github.com/DanLavine/willow/pkg/models/api/limiter/v1"
	"github.com/DanLavine/willow/pkg/models/datatypes"
)

// The table of rules and overrides under concurrent changes (profile "rules").

type lrOver struct {
	id    string
	limit int64
}

// lrState is the entry of one set of group keys: at most one rule with its overrides.
type lrState struct {
	id    string
	limit int64
	ov    map[int]lrOver
}

func (s lrState) String() string {
	if s.id == "" {
		return "-"
	}
	var b strings.Builder
	fmt.Fprintf(&b, "%s/%d", s.id, s.limit)
	for _, k := range sortedKeys(s.ov) {
		fmt.Fprintf(&b, ";%d=%s/%d", k, s.ov[k].id, s.ov[k].limit)
	}
	return b.String()
}

func (s lrState) with(k int, o *lrOver) lrState {
	n := lrState{s.id, s.limit, map[int]lrOver{}}
	for i, x := range s.ov {
		n.ov[i] = x
	}
	if o == nil {
		delete(n.ov, k)
	} else {
		n.ov[k] = *o
	}
	return n
}

// lrIn is an operation on the entry; the result is part of it.
type lrIn struct {
	kind   string // create, get, upd, del, seen, unseen, ocreate, oget, oupd, odel, oseen, ounseen, norule
	id     string // the rule
	limit  int64
	o      int    // override index
	oid    string // override
	ok     bool   // succeeded (otherwise the entry was missing, or existed for creates)
	exists bool   // (creates) refused because it exists
}

func lrStep(x any, op *LinOp) []any {
	st, in := x.(lrState), op.In.(lrIn)
	same, no := []any{st}, []any(nil)
	cond := func(b bool) []any {
		if b {
			return same
		}
		return no
	}
	have := st.id != "" && st.id == in.id
	ov, haveO := lrOver{}, false
	if have {
		ov, haveO = st.ov[in.o]
	}
	switch in.kind {
	case "create":
		if in.ok {
			if st.id != "" {
				return no
			}
			return []any{lrState{id: in.id, limit: in.limit}}
		}
		return cond(st.id != "")
	case "seen":
		return cond(have && st.limit == in.limit)
	case "unseen":
		return cond(st.id == "")
	case "norule":
		return cond(!have)
	case "upd":
		if !have {
			return no
		}
		return []any{lrState{st.id, in.limit, st.ov}}
	case "del":
		if !have {
			return no
		}
		return []any{lrState{}}
	case "ocreate":
		if !have {
			return no
		}
		if in.ok {
			if haveO {
				return no
			}
			return []any{st.with(in.o, &lrOver{in.oid, in.limit})}
		}
		return cond(haveO)
	case "obad":
		return cond(have)
	case "oseen":
		return cond(haveO && ov.id == in.oid && ov.limit == in.limit)
	case "ounseen": // no override with these key-values
		return cond(!haveO)
	case "ogone": // no override with this id
		return cond(!haveO || ov.id != in.oid)
	case "oupd":
		if !haveO || ov.id != in.oid {
			return no
		}
		return []any{st.with(in.o, &lrOver{ov.id, in.limit})}
	case "odel":
		if !have {
			return no
		}
		if haveO && ov.id == in.oid {
			return []any{st.with(in.o, nil)}
		}
		return same
	}
	panic("harness: " + in.kind)
}

func runLimiterRules() {
	s := S
	s.stuckP = []string{"R05", "R04", "A01"}
	nrules := int(s.param("rules", func(r *Rand) int64 { return pick(r, int64(1), 2, 2, 3) }))
	novers := int(s.param("overrides", func(r *Rand) int64 { return pick(r, int64(0), 1, 2, 3) }))
	faulty := s.param("faulty", func(r *Rand) int64 { return pick(r, int64(0), 0, 1) })
	tight := s.param("tight", func(r *Rand) int64 { return pick(r, int64(0), 1, 1) })
	gr := newRand(s.plan.Seed, "sets")
	counters := genKVSets(gr, 3, false)
	var sets []datatypes.KeyValues    // rules
	var overs [][]datatypes.KeyValues // overrides tried for each
	for _, kv := range genKVSets(gr, nrules, true) {
		sets = append(sets, kv)
		var l []datatypes.KeyValues
		seen := map[string]bool{}
		for tries := 0; len(l) < novers && tries < 30; tries++ {
			o := datatypes.KeyValues{}
			for k, v := range kv {
				if v.Type == datatypes.T_any && gr.P(60) {
					v = kvVal(gr.Intn(3))
				}
				if !gr.P(10) {
					o[k] = v
				}
			}
			for _, k := range kvNames {
				if _, ok := kv[k]; !ok && gr.P(35) {
					o[k] = kvVal(gr.Intn(4))
				}
			}
			if len(o) > 0 && !seen[kvStr(o)] {
				seen[kvStr(o)] = true
				l = append(l, o)
			}
		}
		overs = append(overs, l)
	}
	nrules = len(sets)
	s.net.rates = func(host string) *Rates {
		rt := &Rates{MinLat: 50 * time.Microsecond, MaxLat: time.Millisecond}
		if tight == 1 {
			rt.MinLat, rt.MaxLat = 50*time.Microsecond, 51*time.Microsecond
		}
		if faulty == 1 && host != "locker.limiter" {
			rt.Refuse, rt.LostResp, rt.WriteFail, rt.Cut = 1, 4, 4, 10
			rt.Gate = 2
			rt.MaxCut = 2 * time.Millisecond
		}
		return rt
	}
	rindex := map[string]int{}
	for i, kv := range sets {
		rindex[kvStr(kv)] = i
	}
	oindex := func(k int, kv datatypes.KeyValues) int {
		for i, o := range overs[k] {
			if kvStr(o) == kvStr(kv) {
				return i
			}
		}
		return -1
	}
	lacks := func(k, o int) bool {
		for n := range sets[k] {
			if _, ok := overs[k][o][n]; !ok {
				return true
			}
		}
		return false
	}
	var ids []string
	setOf := map[string]int{}
	limits := map[string][]string{}
	oids := map[string][]string{} // by rule
	overOf := map[string]int{}
	hist := make([][]LinOp, nrules)
	type delWin struct {
		k        int
		oid      string
		beg, end uint64
	}
	var dels []*delWin
	delOf := map[*Call]*delWin{}
	overlap := func(k int, c *Call, over bool) bool {
		for _, d := range dels {
			if d.k == k && (over || d.oid == "") && delOf[c] != d && d.beg < c.EndSeq && (d.end == 0 || d.end > c.BegSeq) {
				return true
			}
		}
		return false
	}
	var later []func()
	add := func(k int, c *Call, in lrIn, d string) {
		hist[k] = append(hist[k], LinOp{Call: c.BegSeq, Ret: c.EndSeq, In: in, Desc: c.Host[len("limiter."):] + " " + d})
	}
	short := func(id string) string {
		for i, x := range ids {
			if x == id {
				return fmt.Sprintf("R%d", i)
			}
		}
		return "?"
	}
	path := func(c *Call) (rule, over, what string) {
		p := strings.Split(strings.TrimPrefix(c.Path, "/v1/limiter/rules"), "/")
		// "", rule, overrides, over
		switch {
		case len(p) == 1:
			return "", "", ""
		case len(p) == 2 && (p[1] == "query" || p[1] == "match"):
			return "", "", p[1]
		case len(p) == 2:
			return p[1], "", ""
		case len(p) == 3:
			return p[1], "", "overrides"
		case p[3] == "query" || p[3] == "match":
			return p[1], "", "o" + p[3]
		}
		return p[1], p[3], "overrides"
	}
	lim := func(b []byte) int64 {
		v := v1limiter.RuleProperties{}
		if json.Unmarshal(b, &v) == nil && v.Limit != nil {
			return *v.Limit
		}
		return -99
	}
	led := &lmLedger{sets: counters, index: map[string]int{}, lockedBy: map[*Call][]*lkGrant{}}
	for i, kv := range counters {
		led.index[kvStr(kv)] = i
	}
	s.net.onBegin = func(c *Call) {
		if c.Svc == "limiter" && c.Method == "DELETE" {
			r, o, _ := path(c)
			if k, ok := setOf[r]; ok {
				d := &delWin{k: k, oid: o, beg: c.BegSeq}
				dels = append(dels, d)
				delOf[c] = d
			}
		}
	}
	bad := func(sig string, c *Call, f string, a ...any) {
		s.violate("R04", sig, "%s: %s", fmt.Sprintf(f, a...), c)
	}
	s.net.onEnd = func(c *Call) {
		if c.Svc != "limiter" {
			return
		}
		if strings.HasPrefix(c.Path, "/v1/limiter/counters") {
			led.onEnd(c)
			return
		}
		if d := delOf[c]; d != nil {
			d.end = c.EndSeq
		}
		s.count("checks")
		rid, oid, what := path(c)
		st := c.Status
		s.outcome(fmt.Sprintf("%s.%s%v%v.%d", c.Method, what, rid != "", oid != "", st))
		if c.WriteErr && st != 204 {
			c.Resp = nil
		}
		if st == 500 || st == 0 {
			bad(fmt.Sprintf("status-%d:%s %s", st, c.Method, what), c, "a valid request failed")
			return
		}
		k, known := setOf[rid]
		if rid != "" && !known {
			return
		}
		n := short(rid)
		switch {
		case rid == "" && c.Method == "POST":
			req := &v1limiter.Rule{}
			must(json.Unmarshal(c.Req, req))
			k, limit := rindex[kvStr(datatypes.KeyValues(req.Spec.DBDefinition.GroupByKeyValues))], *req.Spec.Properties.Limit
			switch st {
			case 201:
				id := lmID(c.Resp)
				if id == "" && c.WriteErr {
					id = "lost" + c.Key // nobody knows its id
				}
				if _, dup := setOf[id]; dup || id == "" {
					bad("rule-id", c, "the id of a new rule is unusable")
					return
				}
				ids = append(ids, id)
				setOf[id] = k
				limits[id] = nil
				add(k, c, lrIn{kind: "create", id: id, limit: limit, ok: true}, fmt.Sprintf("create(%d)=%s", limit, short(id)))
			case 409:
				if !overlap(k, c, false) {
					later = append(later, func() {
						add(k, c, lrIn{kind: "create"}, "create=exists")
					})
				}
			default:
				bad(fmt.Sprintf("create-status-%d", st), c, "a valid rule was answered with")
			}
		case rid == "" && c.Method == "GET":
			if st != 200 || c.WriteErr {
				if st != 200 {
					bad(fmt.Sprintf("%s-status-%d", what, st), c, "a valid listing was answered with")
				}
				return
			}
			var got []*v1limiter.Rule
			if err := json.Unmarshal(c.Resp, &got); err != nil {
				bad("listing-answer", c, "unusable answer")
				return
			}
			var match func(kv datatypes.KeyValues, id string) bool
			if what == "query" {
				q := &queryassociatedaction.AssociatedActionQuery{}
				must(json.Unmarshal(c.Req, q))
				match = func(kv datatypes.KeyValues, id string) bool { return queryMatches(q, id, kv) }
			} else {
				q := &querymatchaction.MatchActionQuery{}
				must(json.Unmarshal(c.Req, q))
				match = func(kv datatypes.KeyValues, id string) bool { return matchMatches(q, kv) }
			}
			saw := map[int]bool{}
			// an unknown id may belong to a create that has not been answered yet
			later = append(later, func() {
				for _, r := range got {
					k, ok := rindex[kvStr(datatypes.KeyValues(r.Spec.DBDefinition.GroupByKeyValues))]
					if !ok || r.State == nil || !match(sets[k], r.State.ID) {
						bad("listing-mismatch", c, "the listing shows a rule that does not match")
						continue
					}
					saw[k] = true
					in := lrIn{kind: "seen", id: r.State.ID, limit: *r.Spec.Properties.Limit}
					if _, ok := setOf[in.id]; !ok {
						in.id = lostID(ids, setOf, k, in.id)
					}
					if in.id != "" {
						add(k, c, in, fmt.Sprintf("%s saw %s/%d", what, short(in.id), in.limit))
					}
				}
				for k := range sets {
					if !saw[k] && match(sets[k], "?") && !overlap(k, c, false) {
						add(k, c, lrIn{kind: "unseen"}, what+" saw nothing")
					}
				}
			})
		case oid == "" && what == "" && c.Method == "GET":
			switch {
			case st == 200 && !c.WriteErr:
				r := &v1limiter.Rule{}
				if err := json.Unmarshal(c.Resp, r); err != nil || r.State == nil || r.State.ID != rid || kvStr(datatypes.KeyValues(r.Spec.DBDefinition.GroupByKeyValues)) != kvStr(sets[k]) {
					bad("get-answer", c, "wrong answer for %s", n)
					return
				}
				add(k, c, lrIn{kind: "seen", id: rid, limit: *r.Spec.Properties.Limit}, fmt.Sprintf("get(%s)=%d", n, *r.Spec.Properties.Limit))
			case st == 404:
				if !overlap(k, c, false) {
					add(k, c, lrIn{kind: "norule", id: rid}, fmt.Sprintf("get(%s)=missing", n))
				}
			case st == 409 && overlap(k, c, false) || st == 200:
			default:
				bad(fmt.Sprintf("get-status-%d", st), c, "get was answered with")
			}
		case oid == "" && what == "" && c.Method == "PUT":
			v := lim(c.Req)
			switch {
			case st == 200:
				add(k, c, lrIn{kind: "upd", id: rid, limit: v}, fmt.Sprintf("update(%s,%d)", n, v))
			case st == 404:
				if !overlap(k, c, false) {
					add(k, c, lrIn{kind: "norule", id: rid}, fmt.Sprintf("update(%s)=missing", n))
				}
			case st == 409 && overlap(k, c, false):
			default:
				bad(fmt.Sprintf("update-status-%d", st), c, "update was answered with")
			}
		case oid == "" && what == "" && c.Method == "DELETE":
			switch {
			case st == 204:
				add(k, c, lrIn{kind: "del", id: rid}, fmt.Sprintf("delete(%s)", n))
			case st == 404:
				if !overlap(k, c, false) {
					add(k, c, lrIn{kind: "norule", id: rid}, fmt.Sprintf("delete(%s)=missing", n))
				}
			case st == 409 && overlap(k, c, false):
			default:
				bad(fmt.Sprintf("delete-status-%d", st), c, "delete was answered with")
			}
		case oid == "" && c.Method == "POST":
			req := &v1limiter.Override{}
			must(json.Unmarshal(c.Req, req))
			o, v := oindex(k, datatypes.KeyValues(req.Spec.DBDefinition.GroupByKeyValues)), *req.Spec.Properties.Limit
			switch {
			case o < 0:
				return
			case st == 201:
				if lacks(k, o) {
					bad("override-keys", c, "an override without the keys of its rule was created")
					return
				}
				r := &v1limiter.Override{}
				_ = json.Unmarshal(c.Resp, r)
				id := ""
				if r.State != nil {
					id = r.State.ID
				}
				if id == "" && c.WriteErr {
					id = "lost" + c.Key
				}
				if _, dup := overOf[id]; id == "" || dup {
					bad("override-id", c, "the id of a new override is unusable")
					return
				}
				overOf[id] = o
				oids[rid] = append(oids[rid], id)
				add(k, c, lrIn{kind: "ocreate", id: rid, o: o, oid: id, limit: v, ok: true}, fmt.Sprintf("%s.create(%d,%d)", n, o, v))
			case st == 400 && lacks(k, o):
				add(k, c, lrIn{kind: "obad", id: rid}, fmt.Sprintf("%s.create(%d)=bad", n, o))
			case st == 404:
				if !overlap(k, c, false) {
					add(k, c, lrIn{kind: "norule", id: rid}, fmt.Sprintf("%s.create=norule", n))
				}
			case st == 409:
				if !overlap(k, c, true) {
					add(k, c, lrIn{kind: "ocreate", id: rid, o: o}, fmt.Sprintf("%s.create(%d)=exists", n, o))
				}
			default:
				bad(fmt.Sprintf("ocreate-status-%d", st), c, "a valid override was answered with")
			}
		case oid == "" && c.Method == "GET":
			switch {
			case st == 404:
				if !overlap(k, c, false) {
					add(k, c, lrIn{kind: "norule", id: rid}, fmt.Sprintf("%s.%s=norule", n, what))
				}
				return
			case st == 409 && overlap(k, c, false):
				return
			case st != 200:
				bad(fmt.Sprintf("%s-status-%d", what, st), c, "a listing was answered with")
				return
			}
			if c.WriteErr {
				return
			}
			var got []*v1limiter.Override
			if err := json.Unmarshal(c.Resp, &got); err != nil {
				bad("listing-answer", c, "unusable answer")
				return
			}
			var match func(kv datatypes.KeyValues, id string) bool
			if what == "oquery" {
				q := &queryassociatedaction.AssociatedActionQuery{}
				must(json.Unmarshal(c.Req, q))
				match = func(kv datatypes.KeyValues, id string) bool { return queryMatches(q, id, kv) }
			} else {
				q := &querymatchaction.MatchActionQuery{}
				must(json.Unmarshal(c.Req, q))
				match = func(kv datatypes.KeyValues, id string) bool { return matchMatches(q, kv) }
			}
			later = append(later, func() {
				saw := map[int]bool{}
				for _, r := range got {
					o := oindex(k, datatypes.KeyValues(r.Spec.DBDefinition.GroupByKeyValues))
					if o < 0 || r.State == nil || !match(overs[k][o], r.State.ID) {
						bad("listing-mismatch", c, "the listing shows an override that does not match")
						continue
					}
					saw[o] = true
					id := r.State.ID
					if _, ok := overOf[id]; !ok {
						id = lostID(oids[rid], overOf, o, id)
					}
					if id != "" {
						add(k, c, lrIn{kind: "oseen", id: rid, o: o, oid: id, limit: *r.Spec.Properties.Limit}, fmt.Sprintf("%s.%s saw %d/%d", n, what, o, *r.Spec.Properties.Limit))
					}
				}
				for o, kv := range overs[k] {
					if !saw[o] && match(kv, "?") && !overlap(k, c, true) {
						add(k, c, lrIn{kind: "ounseen", id: rid, o: o}, fmt.Sprintf("%s.%s saw no %d", n, what, o))
					}
				}
			})
		default:
			o, ok := overOf[oid]
			if !ok {
				return
			}
			switch {
			case st == 404:
				if !overlap(k, c, true) {
					add(k, c, lrIn{kind: "ogone", id: rid, o: o, oid: oid}, fmt.Sprintf("%s.%s(%d)=missing", n, c.Method, o))
				}
			case st == 409 && overlap(k, c, true):
			case c.Method == "GET" && st == 200 && c.WriteErr:
			case c.Method == "GET" && st == 200:
				r := &v1limiter.Override{}
				if err := json.Unmarshal(c.Resp, r); err != nil || r.State == nil || r.State.ID != oid || oindex(k, datatypes.KeyValues(r.Spec.DBDefinition.GroupByKeyValues)) != o {
					bad("oget-answer", c, "wrong answer for override %d of %s", o, n)
					return
				}
				add(k, c, lrIn{kind: "oseen", id: rid, o: o, oid: oid, limit: *r.Spec.Properties.Limit}, fmt.Sprintf("%s.get(%d)=%d", n, o, *r.Spec.Properties.Limit))
			case c.Method == "PUT" && st == 200:
				add(k, c, lrIn{kind: "oupd", id: rid, o: o, oid: oid, limit: lim(c.Req)}, fmt.Sprintf("%s.update(%d,%d)", n, o, lim(c.Req)))
			case c.Method == "DELETE" && st == 204:
				add(k, c, lrIn{kind: "odel", id: rid, o: o, oid: oid}, fmt.Sprintf("%s.delete(%d)", n, o))
			default:
				bad(fmt.Sprintf("o%s-status-%d", c.Method, st), c, "a request for an override was answered with")
			}
		}
	}
	s.startLocker(time.Second)
	s.startLimiter()
	s.status = s.unanswered
	ops := s.ops(func(r *Rand) []Op {
		var ops []Op
		nc := 2 + r.Intn(4)
		n := pick(r, 2, 4, 8)
		mix := r.Intn(3)
		rr := func() int64 { return r.I64(int64(nrules)) }
		for c := 0; c < nc; c++ {
			for i := 0; i < n; i++ {
				o := Op{C: c, D: pick(r, 0, 0, r.Dur(0, 100*time.Microsecond), r.Dur(0, time.Millisecond))}
				k := rr()
				lim := int64(r.Intn(6)) - 1
				ref := pick(r, int64(0), 0, 0, 1, 2)
				oref := pick(r, int64(0), 0, 0, 1, 2)
				o.A = []int64{k, lim, ref, oref, 0}
				if len(overs[k]) > 0 {
					o.A[4] = r.I64(int64(len(overs[k])))
				}
				kinds := []string{"rcreate", "rcreate", "rget", "rupd", "rdel", "rquery", "rmatch"}
				if novers > 0 {
					switch mix {
					case 0:
						kinds = append(kinds, "ocreate", "ocreate", "oget", "oupd", "odel", "oquery", "omatch")
					case 1:
						kinds = []string{"rcreate", "rcreate", "rdel", "ocreate", "ocreate", "ocreate", "oget", "oupd", "oupd", "odel", "odel", "oquery", "omatch"}
					}
				}
				o.K = pick(r, kinds...)
				if i == 0 && r.P(60) {
					o.K = "rcreate"
				}
				if i == 1 && r.P(50) && novers > 0 {
					o.K = "ocreate"
				}
				switch o.K {
				case "rquery":
					o.S = []string{pick(r, "{}", mustJSON(genQuery(r, 1, 0)))}
				case "oquery":
					o.S = []string{pick(r, "{}", mustJSON(genQuery(r, 1, 0)))}
				case "rmatch", "omatch":
					o.S = []string{mustJSON(genMatch(r, counters))}
				}
				ops = append(ops, o)
			}
		}
		return ops
	})
	bg := context.Background()
	// the rule an operation is about: the latest, or an earlier one of the key set
	ref := func(o *Op) string {
		var l []string
		for _, id := range ids {
			if setOf[id] == int(o.a(0)) && !strings.HasPrefix(id, "lost") {
				l = append(l, id)
			}
		}
		if len(l) == 0 {
			return ""
		}
		return l[int(maxI(0, int64(len(l)-1)-o.a(2)))]
	}
	oref := func(o *Op, rid string) string {
		var l []string
		for _, id := range oids[rid] {
			if !strings.HasPrefix(id, "lost") {
				l = append(l, id)
			}
		}
		if len(l) == 0 {
			return ""
		}
		return l[int(maxI(0, int64(len(l)-1)-o.a(3)))]
	}
	props := func(v int64) string { return mustJSON(&v1limiter.RuleProperties{Limit: &v}) }
	s.runClients(ops, func(o *Op) {
		k := int(o.a(0))
		if k >= nrules {
			return
		}
		host := fmt.Sprintf("limiter.c%d", o.C)
		s.net.op(host, o.ID)
		const R = "/v1/limiter/rules"
		raw := func(m, p, b string) { _, _, _ = s.net.raw(bg, host, m, p, b) }
		rid := ref(o)
		switch o.K {
		case "rcreate":
			raw("POST", R, lmRuleBody(sets[k], o.a(1)))
			return
		case "rquery":
			raw("GET", R+"/query", o.s(0))
			return
		case "rmatch":
			raw("GET", R+"/match", o.s(0))
			return
		}
		if rid == "" {
			return
		}
		p := R + "/" + rid
		oid := oref(o, rid)
		switch o.K {
		case "rget":
			raw("GET", p, "")
		case "rupd":
			raw("PUT", p, props(o.a(1)))
		case "rdel":
			raw("DELETE", p, "")
		case "ocreate":
			if int(o.a(4)) < len(overs[k]) {
				raw("POST", p+"/overrides", lmOverrideBody(overs[k][o.a(4)], o.a(1)))
			}
		case "oquery", "omatch":
			raw("GET", p+"/overrides/"+o.K[1:], o.s(0))
		case "oget":
			if oid != "" {
				raw("GET", p+"/overrides/"+oid, "")
			}
		case "oupd":
			if oid != "" {
				raw("PUT", p+"/overrides/"+oid, props(o.a(1)))
			}
		case "odel":
			if oid != "" {
				raw("DELETE", p+"/overrides/"+oid, "")
			}
		}
	})
	s.heal = true
	time.Sleep(500 * time.Millisecond)
	for _, c := range s.net.calls {
		if c.Handled && (!c.Returned && s.now()-c.BegAt > int64(300*time.Millisecond) || c.EndAt-c.BegAt > int64(500*time.Millisecond)) {
			s.violate("R05,A01", "slow-answer", "%s %s %s began at %dus, answered %v", c.Key, c.Method, c.Path, c.BegAt/1000, c.Returned)
		}
	}
	// what is there now
	final := "limiter.final"
	st, body, err := s.net.raw(bg, final, "GET", "/v1/limiter/rules/query", "{}")
	var rules []*v1limiter.Rule
	if err != nil || st != 200 || json.Unmarshal(body, &rules) != nil {
		s.violate("R05,R04", "final-query", "listing the rules in a quiet system: %d %v %s", st, err, body)
		return
	}
	for _, id := range ids {
		if !strings.HasPrefix(id, "lost") {
			_, _, _ = s.net.raw(bg, final, "GET", "/v1/limiter/rules/"+id, "")
		}
	}
	for _, r := range rules {
		st, body, err = s.net.raw(bg, final, "GET", "/v1/limiter/rules/"+r.State.ID+"/overrides/query", "{}")
		var os []*v1limiter.Override
		if err != nil || st != 200 || json.Unmarshal(body, &os) != nil {
			s.violate("R05,R04", "final-query", "listing the overrides of a listed rule: %d %v %s", st, err, body)
			return
		}
		x := lmRule{lmLimit: lmLimit{datatypes.KeyValues(r.Spec.DBDefinition.GroupByKeyValues), *r.Spec.Properties.Limit}}
		for _, o := range os {
			x.over = append(x.over, lmLimit{datatypes.KeyValues(o.Spec.DBDefinition.GroupByKeyValues), *o.Spec.Properties.Limit})
		}
		led.rules = append(led.rules, x)
	}
	for _, f := range later {
		f()
	}
	for k := range hist {
		s.count("checks")
		sort.SliceStable(hist[k], func(i, j int) bool { return hist[k][i].Call < hist[k][j].Call })
		ok, decided, best := linearizable(&Model{Init: lrState{}, Step: lrStep, Key: func(x any) string { return x.(lrState).String() }}, hist[k], 300000)
		if !decided {
			s.count("undecided")
		} else if !ok {
			s.violate("R04", "table-history", "the history of the rule {%s} (overrides %s) is not explained by any order: %s", kvStr(sets[k]), lmSets(overs[k]), describe(hist[k], best))
		}
	}
	if len(s.viol) > 0 {
		return
	}
	// the table that was read is the one that is enforced
	probe := newRand(s.plan.Seed, "probe")
	for i := 0; i < 12; i++ {
		st, body, err := s.net.raw(bg, final, "PUT", "/v1/limiter/counters", lmCounterBody(counters[probe.Intn(len(counters))], pick(probe, int64(1), 1, 1, 1, -1)))
		if err != nil || st == 500 {
			s.violate("R05", "final-request", "an increment in a quiet system: %d %v %s", st, err, body)
		}
	}
	led.check()
}

// lostID finds the entry whose create was answered but not delivered, so that its id is only known from listings.
func lostID(ids []string, setOf map[string]int, k int, id string) string {
	var l []string
	for _, x := range ids {
		if strings.HasPrefix(x, "lost") && setOf[x] == k {
			l = append(l, x)
		}
	}
	if len(l) == 1 {
		return l[0]
	}
	return ""
}
