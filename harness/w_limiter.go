package main

import (
	"context"
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/DanLavine/willow/internal/helpers"
	queryassociatedaction "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
	v1limiter "github.com/DanLavine/willow/pkg/models/api/limiter/v1"
	v1locker "github.com/DanLavine/willow/pkg/models/api/locker/v1"
	"github.com/DanLavine/willow/pkg/models/datatypes"
)

// The worlds of the limiter. The real limiter uses the real locker over a
// faulty network. Profile "": fixed rules and overrides, many clients that
// increment, decrement, set and read counters ("moving": while the table
// changes). Profile "rules": many clients
// change the table of rules and overrides.

func init() {
	worlds["limiter"] = &world{run: runLimiter, limit: func() time.Duration { return 4 * time.Minute }, stuck: "R05,A01", tick: []int64{50, 200, 500}, calm: true}
}

const (
	lmLease = int64(time.Second)             // the limiter's locks
	lmBound = int64(3 * time.Second)         // every request is answered once the network works
	lmSlack = int64(100 * time.Millisecond)  // clocks of lease holder and locker
	lmGone  = int64(1500 * time.Millisecond) // a request whose client left ends
)

func anyMatches(pattern, kv datatypes.KeyValues) bool {
	for k, p := range pattern {
		v, ok := kv[k]
		if !ok || p.Type != datatypes.T_any && p != v {
			return false
		}
	}
	return true
}

// sameGroup says that the counter kv is in the group of the counter of under the keys of the pattern.
func sameGroup(pattern, of, kv datatypes.KeyValues) bool {
	for k := range pattern {
		v, ok := kv[k]
		if !ok || v != of[k] {
			return false
		}
	}
	return true
}

type lmLimit struct {
	kv    datatypes.KeyValues
	limit int64
}

type lmRule struct {
	lmLimit
	over []lmLimit
}

// lmApplicable are the limits an increment of the counter must respect.
func lmApplicable(rules []lmRule, kv datatypes.KeyValues) []lmLimit {
	var l []lmLimit
	for _, r := range rules {
		if !anyMatches(r.kv, kv) {
			continue
		}
		n := 0
		for _, o := range r.over {
			if anyMatches(o.kv, kv) {
				n++
				l = append(l, o)
			}
		}
		if n == 0 {
			l = append(l, r.lmLimit)
		}
	}
	return l
}

func lmCounterBody(kv datatypes.KeyValues, n int64) string {
	return mustJSON(&v1limiter.Counter{Spec: &v1limiter.CounterSpec{DBDefinition: &v1limiter.CounterDBDefinition{KeyValues: datatypes.TypedKeyValues(kv)},
		Properties: &v1limiter.CounteProperties{Counters: helpers.PointerOf(n)}}})
}

func lmRuleBody(kv datatypes.KeyValues, limit int64) string {
	return mustJSON(&v1limiter.Rule{Spec: &v1limiter.RuleSpec{DBDefinition: &v1limiter.RuleDBDefinition{GroupByKeyValues: datatypes.AnyKeyValues(kv)},
		Properties: &v1limiter.RuleProperties{Limit: &limit}}})
}

func lmOverrideBody(kv datatypes.KeyValues, limit int64) string {
	return mustJSON(&v1limiter.Override{Spec: &v1limiter.OverrideSpec{DBDefinition: &v1limiter.OverrideDBDefinition{GroupByKeyValues: datatypes.AnyKeyValues(kv)},
		Properties: &v1limiter.OverrideProperties{Limit: &limit}}})
}

// lmGenRules draws rules over the keys of the counters.
func lmGenRules(r *Rand, sets []datatypes.KeyValues, n, maxOver int, huge bool) []lmRule {
	var l []lmRule
	seen := map[string]bool{}
	limit := func() int64 {
		if huge {
			return pick(r, int64(-1), 1000)
		}
		return pick(r, int64(1), 1, 2, 2, 3, 4, -1, 0)
	}
	for tries := 0; len(l) < n && tries < 50; tries++ {
		kv := datatypes.KeyValues{}
		base := sets[r.Intn(len(sets))]
		for _, k := range kvNames {
			v, ok := base[k]
			if !ok || !r.P(65) {
				continue
			}
			if r.P(60) {
				v = datatypes.Any()
			}
			kv[k] = v
		}
		if len(kv) == 0 || seen[kvStr(kv)] {
			continue
		}
		seen[kvStr(kv)] = true
		ru := lmRule{lmLimit: lmLimit{kv, limit()}}
		if r.P(20) && !huge {
			ru.limit = 2
		}
		oseen := map[string]bool{}
		no := r.Intn(maxOver + 1)
		for j := 0; j < no; j++ {
			ov := datatypes.KeyValues{}
			ob := sets[r.Intn(len(sets))]
			for k := range kv {
				if v, ok := ob[k]; ok && r.P(80) {
					ov[k] = v
				} else {
					ov[k] = kv[k]
				}
			}
			for _, k := range kvNames {
				if v, ok := ob[k]; ok && ov[k].Type == 0 && r.P(40) {
					ov[k] = v
				}
			}
			if oseen[kvStr(ov)] {
				continue
			}
			oseen[kvStr(ov)] = true
			ru.over = append(ru.over, lmLimit{ov, limit()})
		}
		l = append(l, ru)
	}
	return l
}

type lmOp struct {
	call *Call
	kind string // upd, set, query
	c    int    // counter
	n    int64
	q    *queryassociatedaction.AssociatedActionQuery
	read map[int][]int64

	limited        bool
	sure, possible []lmLimit
	race           map[int]int64
}

// lmEntry is a rule or an override in the table; uid is 0 when it does not exist.
type lmEntry struct {
	lmLimit
	uid int
	id  string
}

type lmEntryRule struct {
	lmEntry
	over []lmEntry
}

// lmTable is the table of rules from one change to the next. One client
// makes all changes, one after the other.
type lmTable struct {
	rules    []lmEntryRule
	from, to uint64 // the request that made it
}

func (t *lmTable) clone() *lmTable {
	n := &lmTable{rules: append([]lmEntryRule(nil), t.rules...)}
	for i := range n.rules {
		n.rules[i].over = append([]lmEntry(nil), n.rules[i].over...)
	}
	return n
}

func noLower(a, b int64) int64 {
	if a == -1 || b == -1 {
		return -1
	}
	return maxI(a, b)
}

// during are the tables a request may have seen (in parts).
func (l *lmLedger) during(beg, end uint64) []*lmTable {
	if len(l.tables) == 0 {
		t := &lmTable{}
		for i, r := range l.rules {
			x := lmEntryRule{lmEntry: lmEntry{r.lmLimit, i + 1, ""}}
			for j, o := range r.over {
				x.over = append(x.over, lmEntry{o, j + 1, ""})
			}
			t.rules = append(t.rules, x)
		}
		l.tables = append(l.tables, t)
	}
	lo, hi := 0, 0
	for i, t := range l.tables {
		if t.to < beg {
			lo = i
		}
		if t.from < end {
			hi = i
		}
	}
	return l.tables[lo : hi+1]
}

// limits are the limits the request certainly had to respect, and those it possibly had to.
func (l *lmLedger) limits(o *lmOp) (sure, possible []lmLimit) {
	if o.limited {
		return o.sure, o.possible
	}
	kv := l.sets[o.c]
	end := o.call.EndSeq
	if !o.call.Returned {
		end = ^uint64(0)
	}
	ts := l.during(o.call.BegSeq, end)
	for i := range l.rules {
		if !anyMatches(l.rules[i].kv, kv) {
			continue
		}
		all, none, lim := true, true, int64(0)
		for _, t := range ts {
			r := t.rules[i]
			all = all && r.uid != 0 && r.uid == ts[0].rules[i].uid
			none = none && r.uid == 0
			lim = noLower(lim, r.limit)
		}
		if none {
			continue
		}
		over, bare := false, false
		for j, ov := range l.rules[i].over {
			if !anyMatches(ov.kv, kv) {
				continue
			}
			oall, olim := all, int64(0)
			for _, t := range ts {
				x := t.rules[i].over[j]
				oall = oall && x.uid != 0 && x.uid == ts[0].rules[i].over[j].uid
				if x.uid != 0 && t.rules[i].uid != 0 {
					over = true
					olim = noLower(olim, x.limit)
					possible = append(possible, lmLimit{ov.kv, x.limit})
				}
			}
			if oall {
				sure = append(sure, lmLimit{ov.kv, olim})
			}
		}
		if all && !over {
			sure = append(sure, lmLimit{l.rules[i].kv, lim})
		}
		bare = !over || len(ts) > 1
		for _, t := range ts {
			if r := t.rules[i]; bare && r.uid != 0 {
				possible = append(possible, lmLimit{r.kv, r.limit})
			}
		}
	}
	o.sure, o.possible, o.limited = sure, possible, true
	return
}

// locked says that the increment certainly took locks.
func (l *lmLedger) locked(o *lmOp) bool {
	sure, _ := l.limits(o)
	for _, lim := range sure {
		if lim.limit != -1 {
			return true
		}
	}
	return false
}

// racing are the counters whose value the increment may not have known, with the most they may have been.
func (l *lmLedger) racing(o *lmOp) map[int]int64 {
	if o.race != nil {
		return o.race
	}
	o.race = map[int]int64{}
	for _, p := range l.ops {
		if p != o && p.kind == "upd" && p.n > 0 && p.call.Status == 200 && p.call.BegSeq < o.call.EndSeq && o.call.BegSeq < p.call.EndSeq && !l.locked(p) {
			o.race[p.c] = 0
		}
	}
	for _, c := range sortedKeys(o.race) {
		for _, p := range l.ops {
			if p.c == c && p.kind != "query" && p.call.Status == 200 && p.n > 0 && p.call.BegSeq < o.call.EndSeq {
				o.race[c] += p.n
			}
		}
	}
	return o.race
}

// lmLedger follows the counter requests of the limiter.
type lmLedger struct {
	tables   []*lmTable
	sets     []datatypes.KeyValues
	index    map[string]int
	rules    []lmRule
	ops      []*lmOp
	lockedBy map[*Call][]*lkGrant // the locks taken for a request
	lk       *lkLedger
	faulty   bool
}

func (l *lmLedger) onEnd(c *Call) {
	s := S
	if c.Svc != "limiter" || !strings.HasPrefix(c.Path, "/v1/limiter/counters") {
		return
	}
	s.count("checks")
	o := &lmOp{call: c}
	if c.Path == "/v1/limiter/counters/query" {
		o.kind = "query"
		s.outcome(fmt.Sprintf("query.%d", c.Status))
		if c.Status != 200 || c.WriteErr {
			if c.Status != 200 {
				s.violate("R05,A01", fmt.Sprintf("query-status-%d", c.Status), "a query of the counters was answered with %s", c)
			}
			return
		}
		o.q = &queryassociatedaction.AssociatedActionQuery{}
		must(json.Unmarshal(c.Req, o.q))
		var cs []*v1limiter.Counter
		if err := json.Unmarshal(c.Resp, &cs); err != nil {
			s.violate("R03", "query-answer", "unusable answer of a query %s", c)
			return
		}
		o.read = map[int][]int64{}
		for _, x := range cs {
			i, ok := l.index[kvStr(datatypes.KeyValues(x.Spec.DBDefinition.KeyValues))]
			if !ok {
				s.violate("R03", "query-unknown", "a query shows a counter nobody made: %s", c)
				continue
			}
			if !queryMatches(o.q, "", l.sets[i]) {
				s.violate("R03", "query-mismatch", "the query %s shows the counter %s", c.Req, kvStr(l.sets[i]))
			}
			if *x.Spec.Properties.Counters <= 0 {
				s.violate("R03", "query-nonpositive", "a query shows a counter with the value %d: %s", *x.Spec.Properties.Counters, c)
			}
			o.read[i] = append(o.read[i], *x.Spec.Properties.Counters)
		}
		l.ops = append(l.ops, o)
		return
	}
	req := &v1limiter.Counter{}
	must(json.Unmarshal(c.Req, req))
	i, ok := l.index[kvStr(datatypes.KeyValues(req.Spec.DBDefinition.KeyValues))]
	if !ok {
		return
	}
	o.c, o.n = i, *req.Spec.Properties.Counters
	o.kind = "upd"
	if strings.HasSuffix(c.Path, "/set") {
		o.kind = "set"
	}
	s.outcome(fmt.Sprintf("%s.%v.%d", o.kind, o.n > 0, c.Status))
	switch {
	case c.Status == 200:
	case c.Status == 409 && o.kind == "upd" && o.n > 0:
	case c.Status == 500 && o.kind == "upd" && o.n > 0:
		if !l.faulty && !c.Disconnected {
			s.violate("R05,R02", "error-without-fault", "an increment failed although nothing went wrong: %s", c)
		}
	default:
		s.violate("R05,A01", fmt.Sprintf("%s-status-%d", o.kind, c.Status), "a valid request was answered with %s", c)
	}
	l.ops = append(l.ops, o)
}

// uncertain says that a lock of an accepted increment may have run out before it finished without the limiter having had a chance to know.
func (l *lmLedger) uncertain(o *lmOp) bool {
	if !l.faulty {
		return false
	}
	if sure, possible := l.limits(o); len(possible) == 0 || len(l.tables) > 1 && len(sure) == 0 {
		return false
	}
	gs := l.lockedBy[o.call]
	if len(gs) == 0 {
		return true
	}
	last := int64(0)
	for _, g := range gs {
		if g.call.Delivered {
			last = maxI(last, g.call.DoneAt)
		}
	}
	for _, g := range gs {
		if g.void || g.leaseLow(^uint64(0)) < o.call.EndAt && !(g.freedBy()+lmSlack < last) {
			// freed by its own release is fine
			if !g.void && g.onlyReleased() {
				continue
			}
			return true
		}
	}
	return false
}

// onlyReleased says that the session was released by its holder within its lease.
func (g *lkGrant) onlyReleased() bool {
	for _, r := range g.rels {
		if r.Returned && (r.Status == 200 || r.Status == 204) {
			return true
		}
	}
	return false
}

type lmState []int64

func (l *lmLedger) model(refusals bool) *Model {
	return &Model{
		Init: lmState(make([]int64, len(l.sets))),
		Key:  func(st any) string { return fmt.Sprint([]int64(st.(lmState))) },
		Step: func(x any, op *LinOp) []any {
			st := x.(lmState)
			o := op.In.(*lmOp)
			set := func(v int64) []any {
				if v < 0 {
					v = 0
				}
				n := append(lmState(nil), st...)
				n[o.c] = v
				return []any{n}
			}
			switch {
			case o.kind == "set":
				return set(o.n)
			case o.n <= 0:
				return set(st[o.c] + o.n)
			case o.call.Status == 200:
				sure, _ := l.limits(o)
				race := l.racing(o)
				for _, lim := range sure {
					if lim.limit == -1 {
						continue
					}
					sum := int64(0)
					for i, kv := range l.sets {
						if _, ok := race[i]; !ok && sameGroup(lim.kv, l.sets[o.c], kv) {
							sum += st[i]
						}
					}
					if sum+o.n > lim.limit {
						return nil
					}
				}
				return set(st[o.c] + o.n)
			case o.call.Status == 409:
				if !refusals {
					return []any{st}
				}
				_, possible := l.limits(o)
				race := l.racing(o)
				for _, lim := range possible {
					if lim.limit == -1 {
						continue
					}
					sum := int64(0)
					for i, kv := range l.sets {
						if sameGroup(lim.kv, l.sets[o.c], kv) {
							if m, ok := race[i]; ok {
								sum += m
							} else {
								sum += st[i]
							}
						}
					}
					if sum+o.n > lim.limit {
						return []any{st}
					}
				}
				return nil
			}
			return []any{st}
		},
	}
}

func (l *lmLedger) desc(o *lmOp) string {
	switch o.kind {
	case "set":
		return fmt.Sprintf("set(%d,%d)=%d", o.c, o.n, o.call.Status)
	case "upd":
		return fmt.Sprintf("add(%d,%d)=%d", o.c, o.n, o.call.Status)
	}
	return "query"
}

// check judges the whole history.
func (l *lmLedger) check() {
	s := S
	sets := false
	for _, o := range l.ops {
		sets = sets || o.kind == "set"
	}
	// R03: each counter is a register
	for c := range l.sets {
		var ops []LinOp
		for _, o := range l.ops {
			switch {
			case o.kind == "query":
				vals := o.read[c]
				if len(vals) == 0 && queryMatches(o.q, "", l.sets[c]) {
					vals = []int64{0}
				}
				for _, v := range vals {
					ops = append(ops, LinOp{Call: o.call.BegSeq, Ret: o.call.EndSeq, In: "r", Out: v, Desc: fmt.Sprintf("read=%d", v)})
				}
			case o.c == c && o.call.Status == 200:
				ops = append(ops, LinOp{Call: o.call.BegSeq, Ret: o.call.EndSeq, In: o.kind, Out: o.n, Desc: l.desc(o)})
			}
		}
		m := &Model{Init: int64(0), Key: func(st any) string { return fmt.Sprint(st) }, Step: func(x any, op *LinOp) []any {
			v, n := x.(int64), op.Out.(int64)
			switch op.In {
			case "r":
				if v == n {
					return []any{v}
				}
				return nil
			case "set":
				return []any{maxI(n, 0)}
			}
			return []any{maxI(v+n, 0)}
		}}
		ok, decided, best := linearizable(m, ops, 200000)
		s.count("checks")
		if !decided {
			s.count("undecided")
		} else if !ok {
			s.violate("R03", "counter-history", "the history of the counter %s is not explained by any order: %s", kvStr(l.sets[c]), describe(ops, best))
		}
	}
	for _, o := range l.ops {
		if o.kind == "upd" && o.n > 0 && o.call.Status == 200 && l.uncertain(o) {
			s.count("excused")
			return
		}
	}
	var ops []LinOp
	for _, o := range l.ops {
		if o.kind != "query" && (o.call.Status == 200 || o.call.Status == 409) {
			ops = append(ops, LinOp{Call: o.call.BegSeq, Ret: o.call.EndSeq, In: o, Desc: l.desc(o)})
		}
	}
	ok, decided, best := linearizable(l.model(false), ops, 300000)
	s.count("checks")
	if !decided {
		s.count("undecided")
		return
	}
	if !ok {
		s.violate("R01", "limit-exceeded", "the accepted increments respect the limits in no order; counters %s rules %s: %s", lmSets(l.sets), l.descTables(), describe(ops, best))
		return
	}
	if sets {
		return
	}
	ok, decided, best = linearizable(l.model(true), ops, 300000)
	s.count("checks")
	if !decided {
		s.count("undecided")
	} else if !ok {
		s.violate("R02", "refused-below-limit", "the accepted and refused increments are explained by no order; counters %s rules %s: %s", lmSets(l.sets), l.descTables(), describe(ops, best))
	}
}

func lmSets(l []datatypes.KeyValues) string {
	var b []string
	for i, kv := range l {
		b = append(b, fmt.Sprintf("%d:{%s}", i, kvStr(kv)))
	}
	return strings.Join(b, " ")
}

func lmRules(l []lmRule) string {
	var b []string
	for _, r := range l {
		x := fmt.Sprintf("{%s}<=%d", kvStr(r.kv), r.limit)
		for _, o := range r.over {
			x += fmt.Sprintf("[{%s}<=%d]", kvStr(o.kv), o.limit)
		}
		b = append(b, x)
	}
	return strings.Join(b, " ")
}

func (l *lmLedger) descTables() string {
	if len(l.tables) == 1 {
		return lmRules(l.rules)
	}
	x := ""
	for _, t := range l.tables {
		x += fmt.Sprintf("[%d..%d]", t.from, t.to)
		for _, r := range t.rules {
			if r.uid == 0 {
				continue
			}
			x += fmt.Sprintf(" {%s}<=%d", kvStr(r.kv), r.limit)
			for _, o := range r.over {
				if o.uid != 0 {
					x += fmt.Sprintf("[{%s}<=%d]", kvStr(o.kv), o.limit)
				}
			}
		}
		x += "; "
	}
	return x
}

// change is one request of the client that changes the table.
func (l *lmLedger) change(o *Op) {
	s := S
	old := l.tables[len(l.tables)-1]
	t := old.clone()
	i := int(o.a(0))
	r := &t.rules[i]
	var e *lmEntry = &r.lmEntry
	path := "/v1/limiter/rules"
	create := lmRuleBody(r.kv, o.a(2))
	rid := r.id
	if rid == "" {
		rid = "nothing"
	}
	if j := int(o.a(1)); j >= 0 {
		e = &r.over[j]
		path += "/" + rid + "/overrides"
		create = lmOverrideBody(e.kv, o.a(2))
	}
	id := e.id
	if id == "" {
		id = "nothing"
	}
	exists := e.uid != 0 && r.uid != 0
	method, body, good := "POST", create, 201
	switch o.K {
	case "tput":
		method, path, body, good = "PUT", path+"/"+id, fmt.Sprintf(`{"Limit":%d}`, o.a(2)), 200
	case "tdel":
		method, path, body, good = "DELETE", path+"/"+id, "", 204
	}
	s.net.op("limiter.mgr", o.ID)
	t.from = s.seq()
	st, resp, err := s.net.raw(context.Background(), "limiter.mgr", method, path, body)
	t.to = s.seq()
	ok := st == good
	switch {
	case err != nil:
		s.violate("R05,R04", "table-answer", "%s %s was not answered: %v", method, path, err)
		return
	case o.K == "tadd" && o.a(1) >= 0 && r.uid == 0:
		ok = st != good // a rule that does not exist
	case o.K == "tadd" && exists:
		ok = st == 409
	case o.K == "tput" && !exists:
		ok = st != good
	case o.K == "tdel" && !exists:
		ok = st == good || st == 404
	}
	s.count("checks")
	s.outcome(fmt.Sprintf("%s.%v.%v.%d", o.K, o.a(1) >= 0, exists, st))
	if !ok {
		s.violate("R04", fmt.Sprintf("table-%s-%d", o.K, st), "%s %s %s was answered with %d %s although the entry exists=%v", method, path, body, st, resp, exists)
		return
	}
	if st != good {
		return
	}
	switch o.K {
	case "tadd":
		e.uid, e.id, e.limit = o.ID+1000, lmID(resp), o.a(2)
		if o.a(1) < 0 {
			for j := range r.over {
				r.over[j].uid = 0
			}
		}
	case "tput":
		e.limit = o.a(2)
	case "tdel":
		e.uid = 0
	}
	l.tables = append(l.tables, t)
}

func lmID(body []byte) string {
	ru := &v1limiter.Rule{}
	if json.Unmarshal(body, ru) == nil && ru.State != nil {
		return ru.State.ID
	}
	return ""
}

// unanswered lists the running handlers.
func (s *Sim) unanswered() string {
	l := ""
	for _, c := range s.net.calls {
		if c.Handled && !c.Returned && !c.Crashed {
			l += c.Key + " " + c.Method + " " + c.Path + "; "
		}
	}
	return "unanswered: " + l
}

func runLimiter() {
	if S.plan.Profile == "rules" {
		runLimiterRules()
		return
	}
	if S.plan.Profile == "crash" {
		runLimiterCrash()
		return
	}
	s := S
	ncount := int(s.param("counters", func(r *Rand) int64 { return pick(r, int64(1), 2, 3, 4) }))
	nrules := (s.param("rules", func(r *Rand) int64 { return pick(r, int64(0), 1, 1, 2, 3) }))
	maxOver := int(s.param("overrides", func(r *Rand) int64 { return pick(r, int64(0), 0, 1, 2, 3) }))
	faulty := s.param("faulty", func(r *Rand) int64 { return pick(r, int64(0), 0, 1, 2) })
	tight := s.param("tight", func(r *Rand) int64 { return pick(r, int64(0), 1, 1) })
	useSets := s.param("usesets", func(r *Rand) int64 { return pick(r, int64(0), 0, 0, 1) })
	big := s.param("big", func(r *Rand) int64 { return pick(r, int64(0), 0, 1) })
	// the unit that limits and amounts are counted in
	scale := s.param("scale", func(r *Rand) int64 {
		if r.P(90) {
			return 1
		}
		return pick(r, int64(100), 1<<31-1, 1<<32, 1<<53+1)
	})
	sets := genKVSets(newRand(s.plan.Seed, "sets"), ncount, false)
	ncount = len(sets)
	l := &lmLedger{sets: sets, index: map[string]int{}, lockedBy: map[*Call][]*lkGrant{}, faulty: faulty > 0 || s.plan.Profile == "stop"}
	for i, kv := range sets {
		l.index[kvStr(kv)] = i
	}
	moving := s.plan.Profile == "moving" || nrules > 0 && s.plan.Profile == "" && s.param("moving", func(r *Rand) int64 { return pick(r, int64(0), 0, 0, 0, 1) }) == 1
	if moving {
		nrules = maxI(nrules, 1)
		useSets = 0
		maxOver = int(maxI(int64(maxOver), 3))
	}
	l.rules = lmGenRules(newRand(s.plan.Seed, "rules"), sets, int(nrules), maxOver, false)
	flip := false
	if moving {
		// one override of a rule with several goes to and fro
		flip = s.param("flip", func(r *Rand) int64 { return pick(r, int64(0), 1) }) == 1
		if flip {
			l.rules = l.rules[:1]
			ru := &l.rules[0]
			kv := sets[newRand(s.plan.Seed, "flip").Intn(ncount)]
			if !anyMatches(ru.kv, kv) {
				kv = ru.kv
			}
			full := datatypes.KeyValues{}
			for k := range ru.kv {
				full[k] = kv[k]
			}
			with := datatypes.KeyValues{}
			for k, v := range sets[0] {
				with[k] = v
			}
			for k := range ru.kv {
				with[k] = kv[k]
			}
			ru.over = []lmLimit{{full, 5}, {with, 1}, {ru.kv, 2}}
			for i := range ru.over {
				for j := 0; j < i; j++ {
					if kvStr(ru.over[i].kv) == kvStr(ru.over[j].kv) {
						ru.over = ru.over[:i]
						break
					}
				}
				if i >= len(ru.over)-1 {
					break
				}
			}
		}
	}
	for i := range l.rules {
		scaleUp := func(x *lmLimit) {
			if x.limit > 0 {
				x.limit *= scale
			}
		}
		scaleUp(&l.rules[i].lmLimit)
		for j := range l.rules[i].over {
			scaleUp(&l.rules[i].over[j])
		}
	}
	// the locks are on single key-values
	var single []datatypes.KeyValues
	seen := map[string]bool{}
	for _, kv := range sets {
		for k, v := range kv {
			one := datatypes.KeyValues{k: v}
			if !seen[kvStr(one)] {
				seen[kvStr(one)] = true
				single = append(single, one)
			}
		}
	}
	sort.Slice(single, func(i, j int) bool { return kvStr(single[i]) < kvStr(single[j]) })
	l.lk = newLkLedger(single, lmLease)
	s.net.rates = func(host string) *Rates {
		rt := &Rates{MinLat: 50 * time.Microsecond, MaxLat: 2 * time.Millisecond}
		if tight == 1 {
			rt.MinLat, rt.MaxLat = 50*time.Microsecond, 51*time.Microsecond
		}
		if faulty == 0 || host == "limiter.mgr" {
			return rt
		}
		if host == "locker.limiter" {
			rt.Refuse, rt.LostResp, rt.WriteFail, rt.Cut, rt.Slow = 1, 2, 2, 3, 2
			rt.Gate = 1
			rt.MaxSlow, rt.MaxCut = 1500*time.Millisecond, 200*time.Millisecond
			if faulty == 2 {
				rt.LostResp, rt.Cut, rt.Slow, rt.Gate = 5, 8, 10, 4
			}
		} else {
			rt.Refuse, rt.LostResp, rt.WriteFail, rt.Cut = 1, 2, 2, 8
			rt.Gate = 2
			rt.MaxCut = 20 * time.Millisecond
		}
		return rt
	}
	s.net.onBegin = func(c *Call) {
		if c.Svc == "locker" {
			l.lk.onBegin(c)
		}
	}
	s.net.onEnd = func(c *Call) {
		if c.Svc == "locker" {
			n := len(l.lk.grants)
			l.lk.onEnd(c)
			if len(l.lk.grants) > n && c.Parent != nil {
				l.lockedBy[c.Parent] = append(l.lockedBy[c.Parent], l.lk.grants[n])
			}
			return
		}
		l.onEnd(c)
	}
	s.startLocker(time.Second)
	svc := s.startLimiter()
	s.status = s.unanswered
	// the table
	s.heal = true
	tab := &lmTable{}
	uid := 0
	for i, ru := range l.rules {
		x := lmEntryRule{lmEntry: lmEntry{lmLimit: ru.lmLimit}}
		for _, o := range ru.over {
			x.over = append(x.over, lmEntry{lmLimit: o})
		}
		if !moving || flip || s.param(fmt.Sprintf("first%d", i), func(r *Rand) int64 { return pick(r, int64(0), 1, 1) }) == 1 {
			st, body, err := s.net.raw(context.Background(), "limiter.setup", "POST", "/v1/limiter/rules", lmRuleBody(ru.kv, ru.limit))
			uid++
			x.id, x.uid = lmID(body), uid
			if err != nil || st != 201 || x.id == "" {
				s.violate("R04", "setup-rule", "creating the rule {%s} in an empty table failed: %d %s %v", kvStr(ru.kv), st, body, err)
				return
			}
			for j, o := range ru.over {
				if moving && !flip && s.param(fmt.Sprintf("first%d.%d", i, j), func(r *Rand) int64 { return pick(r, int64(0), 1, 1) }) == 0 {
					continue
				}
				st, body, err = s.net.raw(context.Background(), "limiter.setup", "POST", "/v1/limiter/rules/"+x.id+"/overrides", lmOverrideBody(o.kv, o.limit))
				uid++
				x.over[j].id, x.over[j].uid = lmID(body), uid
				if err != nil || st != 201 {
					s.violate("R04", "setup-override", "creating the override {%s} of {%s} failed: %d %s %v", kvStr(o.kv), kvStr(ru.kv), st, body, err)
					return
				}
			}
		}
		tab.rules = append(tab.rules, x)
	}
	l.tables = []*lmTable{tab}
	s.heal = false
	if faulty > 0 {
		np := int(s.param("partitions", func(r *Rand) int64 { return pick(r, int64(0), 0, 1, 2) }))
		for i := 0; i < np; i++ {
			from := s.now() + s.param(fmt.Sprintf("part%d.from", i), func(r *Rand) int64 { return pick(r, r.Dur(0, 5*time.Millisecond), r.Dur(0, 2*time.Second)) })
			dur := s.param(fmt.Sprintf("part%d.dur", i), func(r *Rand) int64 {
				return pick(r, r.Dur(0, 200*time.Millisecond), r.Dur(800*time.Millisecond, 3*time.Second))
			})
			s.net.parts = append(s.net.parts, partition{prefix: "locker.limiter", from: from, to: from + dur})
		}
	}
	ops := s.ops(func(r *Rand) []Op {
		var ops []Op
		nc := 2 + r.Intn(4)
		n := pick(r, 1, 2, 3, 6)
		if r.P(4) && !moving { // a crowd
			nc, n = 7+r.Intn(6), 3
		}
		decs := pick(r, 0, 20, 45)
		impatient := pick(r, 0, 0, 15, 40)
		if flip {
			n = pick(r, 6, 10)
		}
		for c := 0; c < nc; c++ {
			for i := 0; i < n; i++ {
				o := Op{C: c, K: "add", D: pick(r, 0, 0, r.Dur(0, 200*time.Microsecond), r.Dur(0, 3*time.Millisecond)), A: []int64{r.I64(int64(ncount)), 1, 0}}
				if big == 1 && r.P(40) {
					o.A[1] = 1 + r.I64(3)
				}
				if r.P(decs) {
					o.A[1] = -1
					if big == 1 && r.P(30) {
						o.A[1] = -r.I64(4)
					}
				}
				if r.P(impatient) {
					o.A[2] = pick(r, r.Dur(50*time.Microsecond, time.Millisecond), r.Dur(0, 10*time.Millisecond), r.Dur(0, time.Second))
				}
				if useSets == 1 && r.P(20) {
					o.K = "set"
					o.A[1] = pick(r, int64(0), 1, 2, 3)
				}
				ops = append(ops, o)
			}
		}
		if moving {
			lims := pick(r, []int64{0, 1, 2, 3, -1}, []int64{0, 5}, []int64{1, 2})
			m := n * pick(r, 1, 2, 3)
			k0 := r.Intn(len(l.rules))
			j0 := 0
			if flip {
				j0 = r.Intn(len(l.rules[k0].over))
				m = n * 3
			}
			for i := 0; i < m; i++ {
				k := r.Intn(len(l.rules))
				if flip && r.P(90) {
					// one override goes to and fro
					ops = append(ops, Op{C: 50, K: pick(r, "tput", "tput", "tput", "tput", "tput", "tput", "tadd", "tadd", "tdel"), D: pick(r, 0, 0, r.Dur(0, 200*time.Microsecond), r.Dur(0, time.Millisecond)), A: []int64{int64(k0), int64(j0), int64(i%2) * 5}})
					continue
				}
				o := Op{C: 50, K: pick(r, "tadd", "tput", "tput", "tdel"), D: pick(r, 0, r.Dur(0, 200*time.Microsecond), r.Dur(0, 3*time.Millisecond)), A: []int64{int64(k), -1, pick(r, lims...)}}
				if no := len(l.rules[k].over); no > 0 && r.P(70) {
					o.A[1] = r.I64(int64(no))
				}
				ops = append(ops, o)
			}
		}
		if r.P(60) {
			for i := 0; i < 4; i++ {
				q := "{}"
				if r.P(50) {
					q = mustJSON(genQuery(r, 1, 0))
				}
				ops = append(ops, Op{C: nc, K: "query", D: pick(r, 0, r.Dur(0, time.Millisecond), r.Dur(0, 5*time.Millisecond)), S: []string{q}})
			}
		}
		for i := range ops {
			o := &ops[i]
			switch {
			case scale == 1:
			case o.K == "add" || o.K == "set":
				if r.P(90) {
					o.A[1] *= scale
				}
			case o.K == "tadd" || o.K == "tput":
				if o.A[2] > 0 {
					o.A[2] *= scale
				}
			}
		}
		return ops
	})
	bg := context.Background()
	stopAt, stopped, healed := int64(-1), int64(-1), int64(-1)
	free := func() {}
	if s.plan.Profile == "stop" {
		// somebody else holds a lock that increments need
		if h := s.param("holder", func(r *Rand) int64 { return pick(r, int64(-1), -1, r.I64(int64(len(single)))) }); h >= 0 && h < int64(len(single)) {
			s.heal = true
			st, body, err := s.net.raw(bg, "locker.holder", "POST", "/v1/locks", lkBody(single[h], int64(10*time.Minute)))
			s.heal = false
			lk := &v1locker.Lock{}
			if err != nil || st != 200 || json.Unmarshal(body, lk) != nil || lk.State == nil {
				s.violate("L01", "setup-lock", "a free lock was not granted: %d %v %s", st, err, body)
				return
			}
			free = func() {
				_, _, _ = s.net.raw(bg, "locker.holder", "DELETE", "/v1/locks/"+lk.State.LockID, lkClaim(lk.State.SessionID))
			}
		}
		s.stuckP = []string{"S01", s.plan.Property}
		d := s.param("stop", func(r *Rand) int64 {
			return pick(r, r.Dur(0, time.Millisecond), r.Dur(0, 5*time.Millisecond), r.Dur(0, 50*time.Millisecond), r.Dur(0, 2*time.Second))
		})
		time.AfterFunc(time.Duration(d), func() {
			stopAt = s.now()
			s.fault("shutdown", true)
			s.ev("shutdown requested")
			svc.stop()
			// the faults go on for a moment
			time.AfterFunc(500*time.Millisecond, func() {
				s.heal, healed = true, s.now()
			})
		})
		go func() {
			<-svc.done
			stopped = s.now()
			s.ev("limiter stopped")
		}()
	}
	s.runClients(ops, func(o *Op) {
		if o.C == 50 {
			l.change(o)
			return
		}
		host := fmt.Sprintf("limiter.c%d", o.C)
		s.net.op(host, o.ID)
		// a client gives up after a long time so that runs end
		wait := 20 * time.Second
		if o.a(2) > 0 {
			wait = time.Duration(o.a(2))
		}
		ctx, cancel := context.WithTimeout(bg, wait)
		defer cancel()
		switch o.K {
		case "add":
			_, _, _ = s.net.raw(ctx, host, "PUT", "/v1/limiter/counters", lmCounterBody(sets[o.a(0)], o.a(1)))
		case "set":
			_, _, _ = s.net.raw(ctx, host, "PUT", "/v1/limiter/counters/set", lmCounterBody(sets[o.a(0)], o.a(1)))
		case "query":
			_, _, _ = s.net.raw(ctx, host, "GET", "/v1/limiter/counters/query", o.s(0))
		}
	})
	s.heal = true
	if s.plan.Profile != "stop" {
		healed = s.now()
	}
	if s.plan.Profile == "stop" {
		for stopAt < 0 || healed < 0 {
			time.Sleep(50 * time.Millisecond)
		}
		lim := healed + lmBound
		for s.now() < lim && stopped < 0 {
			time.Sleep(50 * time.Millisecond)
		}
		s.count("checks")
		if stopped < 0 || stopped > lim {
			s.violate("S01", "limiter-no-stop", "the limiter was told to stop at %dus and stopped at %dus (now it is %dus); %s", stopAt/1000, stopped/1000, s.now()/1000, s.status())
			return
		}
		for _, c := range s.net.calls {
			if c.Svc != "limiter" || !c.Handled {
				continue
			}
			s.count("checks")
			if !c.Returned {
				s.violate("S01", "unanswered-at-stop", "%s was never answered by the stopped limiter", c)
			} else if c.EndAt > stopped {
				s.violate("S01", "answer-after-stop", "%s was answered after the limiter had stopped", c)
			}
		}
		free()
		time.Sleep(time.Duration(lmBound + lmLease + lmSlack))
		st, body, err := s.net.raw(bg, "locker.final", "GET", "/v1/locks", "{}")
		if err != nil || st != 200 || strings.TrimSpace(string(body)) != "[]" {
			s.violate("S01", "locks-left", "locks are left long after the limiter stopped: %d %v %s", st, err, body)
		}
		s.outcome("stopped")
		return
	}
	time.Sleep(time.Duration(lmBound))
	l.answered(healed)
	time.Sleep(time.Duration(lmLease + lmSlack))
	st, body, err := s.net.raw(bg, "locker.final", "GET", "/v1/locks", "{}")
	if err != nil || st != 200 || strings.TrimSpace(string(body)) != "[]" {
		s.violate("R05", "locks-left", "locks are left long after the last request: %d %v %s", st, err, body)
	}
	// a quiet system agrees with the history
	probe := newRand(s.plan.Seed, "probe")
	one := func(m, p, b string) {
		t0 := s.now()
		ctx, cancel := context.WithTimeout(bg, 20*time.Second)
		defer cancel()
		st, body, err := s.net.raw(ctx, "limiter.final", m, p, b)
		if err != nil || st == 500 || s.now()-t0 > int64(2*time.Second) {
			s.violate("R05", "final-request", "%s %s in a quiet system: %d %v %s after %dus", m, p, st, err, body, (s.now()-t0)/1000)
		}
	}
	one("GET", "/v1/limiter/counters/query", "{}")
	for i := 0; i < ncount*3 && len(s.viol) == 0; i++ {
		one("PUT", "/v1/limiter/counters", lmCounterBody(sets[probe.Intn(ncount)], pick(probe, int64(1), 1, 1, -1)))
	}
	one("GET", "/v1/limiter/counters/query", "{}")
	l.check()
}

// answered checks that every request ended in time after the faults did.
func (l *lmLedger) answered(healed int64) {
	s := S
	for _, c := range s.net.calls {
		if c.Svc != "limiter" || !c.Handled || c.Crashed {
			continue
		}
		s.count("checks")
		e := s.now()
		if c.Returned {
			e = c.EndAt
		}
		from := c.BegAt
		if l.faulty {
			from = maxI(from, healed)
		}
		if e-from > lmBound-int64(500*time.Millisecond) {
			s.violate("R05", "slow-answer", "%s %s %s began at %dus, the network works since %dus, was answered at %dus (returned=%v disconnected=%v)", c.Key, c.Method, c.Path, c.BegAt/1000, healed/1000, e/1000, c.Returned, c.Disconnected)
		}
		if c.Disconnected && e-maxI(c.DiscAt, from) > lmGone {
			s.violate("R05", "goes-on-without-client", "%s %s: the client left at %dus, the request ended at %dus", c.Key, c.Path, c.DiscAt/1000, e/1000)
		}
	}
}
