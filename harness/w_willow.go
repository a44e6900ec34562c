package main

import (
	"context"
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/DanLavine/willow/internal/helpers"
	queryassociatedaction "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
	v1limiter "github.com/DanLavine/willow/pkg/models/api/limiter/v1"
	v1willow "github.com/DanLavine/willow/pkg/models/api/willow/v1"
	"github.com/DanLavine/willow/pkg/models/datatypes"
)

// The world of willow: the real willow with the real limiter and locker.
// Producers and consumers use a faulty network; willow's own link to the
// limiter only has latency (the code documents that it panics when a counter
// cannot be given back), the limiter's link to the locker can be faulty.
// Profiles: "" items of fixed queues, "limits" running limits, "queues"
// queues and channels come and go.

func init() {
	worlds["willow"] = &world{run: runWillow, limit: func() time.Duration { return 4 * time.Minute }, stuck: "A01,Q01,Q08", tick: []int64{50, 200}, calm: true}
}

const (
	wlBound  = int64(600 * time.Millisecond) // a time-out is worked off
	wlServe  = int64(2 * time.Second)        // a consumer gets a waiting item
	wlPrompt = int64(time.Second)            // a request that needs no other client is answered
	wlStop   = int64(3 * time.Second)        // a stopping service ends
	wlPoll   = int64(5 * time.Second)        // willow looks again at reached limits
	wlLong   = int64(10 * time.Minute)       // timeout of items that are held
)

// wlItem is the content of one enqueue.
type wlItem struct {
	n    int
	call *Call
	q    int
	ch   int
	upd  bool
	att  uint64
	pos  string
	to   int64
	data string
	id   string // learned when it is handed out
}

type wlDel struct {
	n    int
	call *Call
	it   *wlItem
	id   string
	back bool // the response could not be written
}

type wlReq struct {
	call *Call
	kind string // pass fail hb chdel create delete put get
	q    int
	ch   int
	id   string
	max  int64
}

type wlWait struct {
	call *Call
	q    int
	qry  *queryassociatedaction.AssociatedActionQuery
}

type wlLedger struct {
	queues  []string
	max     []int64 // at the start
	sets    []datatypes.KeyValues
	chIndex map[string]int
	items   []*wlItem
	byData  map[string]*wlItem
	dels    []*wlDel
	byCall  map[*Call]*wlDel
	reqs    []*wlReq
	waits   []*wlWait
	refused []*wlItem // enqueues answered with a conflict
	missing []*wlItem // enqueues answered with not found
	rules   []lmRule
	lockFau bool

	slow      [][2]int64 // requests to the limiter which took long
	slowKnown bool

	limFau  bool
	bulk    bool
	dynamic bool // queues come and go
	clears  bool // channels are deleted
	ruleIDs map[int]string
	overIDs map[[2]int]string
	lifted  int64
	unruled int64 // all rules were deleted, 0 if they were not
	chLims  []wlChLim
}

// wlChLim is an override of the limiter for some channels of a queue.
type wlChLim struct {
	q     int
	chs   [wlMaxCh]bool
	kv    datatypes.KeyValues
	limit int64
}

const wlMaxCh = 4

func (l *wlLedger) queue(path string) int {
	p := strings.Split(path, "/")
	if len(p) < 4 {
		return -1
	}
	for i, q := range l.queues {
		if q == p[3] {
			return i
		}
	}
	return -1
}

func (l *wlLedger) onEnd(c *Call) {
	s := S
	if c.Svc != "willow" {
		return
	}
	if c.Path == "/v1/queues" {
		if c.Method == "POST" {
			q := &v1willow.Queue{}
			must(json.Unmarshal(c.Req, q))
			l.reqs = append(l.reqs, &wlReq{call: c, kind: "create", q: l.queue("/v1/queues/" + *q.Spec.DBDefinition.Name), max: *q.Spec.Properties.MaxItems})
		} else {
			l.reqs = append(l.reqs, &wlReq{call: c, kind: "list"})
		}
		s.outcome(fmt.Sprintf("queues.%s.%d", c.Method, c.Status))
		return
	}
	q := l.queue(c.Path)
	p := strings.Split(c.Path, "/")
	what := strings.Join(p[4:], "/")
	s.count("checks")
	bad := func(props, sig string) {
		s.violate(props, sig, "unexpected answer %s", c)
	}
	switch {
	case what == "":
		r := &wlReq{call: c, q: q, kind: map[string]string{"GET": "get", "PUT": "put", "DELETE": "delete"}[c.Method]}
		if r.kind == "put" {
			u := &v1willow.QueueProperties{}
			must(json.Unmarshal(c.Req, u))
			r.max = *u.MaxItems
		}
		s.outcome(fmt.Sprintf("queue.%s.%d", c.Method, c.Status))
		l.reqs = append(l.reqs, r)
	case what == "channels" && c.Method == "GET":
		s.outcome(fmt.Sprintf("chquery.%d", c.Status))
		l.reqs = append(l.reqs, &wlReq{call: c, q: q, kind: "chquery"})
	case what == "channels":
		kv := datatypes.KeyValues{}
		must(json.Unmarshal(c.Req, &kv))
		s.outcome(fmt.Sprintf("chdel.%d", c.Status))
		l.reqs = append(l.reqs, &wlReq{call: c, q: q, ch: l.chIndex[kvStr(kv)], kind: "chdel"})
	case what == "channels/items" && c.Method == "POST":
		in := &v1willow.Item{}
		must(json.Unmarshal(c.Req, in))
		pr := in.Spec.Properties
		it := &wlItem{n: len(l.items), call: c, q: q, ch: l.chIndex[kvStr(datatypes.KeyValues(in.Spec.DBDefinition.KeyValues))], upd: *pr.Updateable, att: *pr.RetryAttempts,
			pos: *pr.RetryPosition, to: int64(*pr.TimeoutDuration), data: string(pr.Data)}
		s.outcome(fmt.Sprintf("enq.%d", c.Status))
		switch c.Status {
		case 201:
			l.items = append(l.items, it)
			if o := l.byData[it.data]; o != nil && o.call != c && o.call.Status != 0 {
				panic("harness: the same data twice")
			}
			l.byData[it.data] = it
		case 409:
			l.refused = append(l.refused, it)
		case 404:
			l.missing = append(l.missing, it)
		default:
			bad("A01,Q09", fmt.Sprintf("enqueue-status-%d", c.Status))
		}
	case what == "channels/items":
		w := &wlWait{call: c, q: q, qry: &queryassociatedaction.AssociatedActionQuery{}}
		must(json.Unmarshal(c.Req, w.qry))
		l.waits = append(l.waits, w)
		s.outcome(fmt.Sprintf("deq.%d.%v", c.Status, c.WriteErr))
		if c.Status == 200 {
			l.delivery(c, w)
		} else if c.Status != 200 && c.Status != 409 && c.Status != 404 && c.Status != 0 && !(c.Status == 503 && s.plan.Profile == "stop") {
			bad("A01,Q08", fmt.Sprintf("dequeue-status-%d", c.Status))
		}
	case what == "channels/items/ack":
		a := &v1willow.ACK{}
		must(json.Unmarshal(c.Req, a))
		r := &wlReq{call: c, q: q, ch: l.chIndex[kvStr(datatypes.KeyValues(a.KeyValues))], id: a.ItemID, kind: map[bool]string{true: "pass", false: "fail"}[a.Passed]}
		l.reqs = append(l.reqs, r)
		s.outcome(fmt.Sprintf("%s.%d", r.kind, c.Status))
		if c.Status != 200 && c.Status != 404 && !(c.Status == 409 && l.dynamic) {
			bad("A01,Q02", fmt.Sprintf("ack-status-%d", c.Status))
		}
	case what == "channels/items/heartbeat":
		a := &v1willow.Heartbeat{}
		must(json.Unmarshal(c.Req, a))
		l.reqs = append(l.reqs, &wlReq{call: c, q: q, ch: l.chIndex[kvStr(datatypes.KeyValues(a.KeyValues))], id: a.ItemID, kind: "hb"})
		s.outcome(fmt.Sprintf("hb.%d", c.Status))
		if c.Status != 200 && c.Status != 404 && !(c.Status == 409 && l.dynamic) {
			bad("A01,Q04", fmt.Sprintf("hb-status-%d", c.Status))
		}
	}
}

// delivery records what a consumer was handed (at the server).
func (l *wlLedger) delivery(c *Call, w *wlWait) {
	s := S
	in := &v1willow.Item{}
	body := c.Resp
	if c.WriteErr {
		body = c.Tried
	}
	if err := json.Unmarshal(body, in); err != nil || in.Spec == nil || in.State == nil || in.Spec.Properties == nil || in.Spec.DBDefinition == nil || in.State.ID == "" {
		s.violate("Q08", "unusable-item", "a dequeue was answered with something that is no item: %s", c)
		return
	}
	pr := in.Spec.Properties
	kv := datatypes.KeyValues(in.Spec.DBDefinition.KeyValues)
	if !queryMatches(w.qry, "", kv) {
		s.violate("Q08", "not-matching", "the item does not match the query: %s", c)
	}
	// the enqueue may still be running
	it := l.byData[string(pr.Data)]
	if it == nil {
		for _, e := range s.net.calls {
			if e.Svc == "willow" && e.Host != "willow.res" && e.Method == "POST" && e.Handled && (!e.Returned || e.Status == 201) && strings.HasSuffix(e.Path, "/channels/items") {
				x := &v1willow.Item{}
				must(json.Unmarshal(e.Req, x))
				if string(x.Spec.Properties.Data) == string(pr.Data) {
					xp := x.Spec.Properties
					it = &wlItem{n: -1, call: e, q: l.queue(e.Path), ch: l.chIndex[kvStr(datatypes.KeyValues(x.Spec.DBDefinition.KeyValues))], upd: *xp.Updateable, att: *xp.RetryAttempts,
						pos: *xp.RetryPosition, to: int64(*xp.TimeoutDuration), data: string(xp.Data)}
				}
			}
		}
		if it == nil {
			s.violate("Q08,Q09", "unknown-item", "nobody enqueued the item with success: %s", c)
			return
		}
	}
	if it.q != w.q || kvStr(l.sets[it.ch]) != kvStr(kv) {
		s.violate("Q08", "wrong-channel", "the item of queue %s channel {%s} came from another one: %s", l.queues[it.q], kvStr(l.sets[it.ch]), c)
		return
	}
	if *pr.Updateable != it.upd || *pr.RetryAttempts != it.att || *pr.RetryPosition != it.pos || int64(*pr.TimeoutDuration) != it.to {
		s.violate("Q05", "wrong-properties", "the item was enqueued as updateable=%v attempts=%d position=%s timeout=%v: %s", it.upd, it.att, it.pos, time.Duration(it.to), c)
	}
	d := &wlDel{n: len(l.dels), call: c, it: it, id: in.State.ID, back: c.WriteErr}
	l.dels = append(l.dels, d)
	l.byCall[c] = d
}

// resolve replaces the items of enqueues that ran while they were handed out.
func (l *wlLedger) resolve() {
	for _, d := range l.dels {
		if d.it.n < 0 {
			if it := l.byData[d.it.data]; it != nil {
				d.it = it
			} else {
				S.violate("Q06,Q09", "refused-delivered", "an item was handed out although its enqueue was answered with %d: %s", d.it.call.Status, d.call)
			}
		}
	}
	for _, d := range l.dels {
		if d.it.id == "" {
			d.it.id = d.id
		} else if d.it.id != d.id {
			S.violate("Q02,Q03", "id-changed", "the item %s was handed out under the ids %s and %s", d.it.data, d.it.id, d.id)
		}
	}
}

// ---- the sequential queue

type wlIt struct {
	c int // content
	f int // failures
}

type wlPend struct {
	op int
	it wlIt
	n  [wlMaxCh]int64 // places still counted, per channel
}

type wlState struct {
	wait   [][]wlIt
	proc   []wlIt
	pend   []wlPend
	max    int64 // enforced
	shown  int64 // reported
	upd    int   // the update between its two halves
	exists bool
}

func (st *wlState) clone() *wlState {
	n := &wlState{max: st.max, shown: st.shown, upd: st.upd, exists: st.exists, proc: append([]wlIt(nil), st.proc...), pend: append([]wlPend(nil), st.pend...)}
	n.wait = append([][]wlIt(nil), st.wait...)
	return n
}

// counts are the places taken in each channel.
func (st *wlState) counts(l *wlLedger) [wlMaxCh]int64 {
	var n [wlMaxCh]int64
	for _, p := range st.proc {
		n[l.items[p.c].ch]++
	}
	for ch, w := range st.wait {
		n[ch] += int64(len(w))
	}
	for _, p := range st.pend {
		for ch := range n {
			n[ch] += p.n[ch]
		}
	}
	return n
}

func (st *wlState) count(l *wlLedger) int64 {
	t := int64(0)
	for _, n := range st.counts(l) {
		t += n
	}
	return t
}

// full tells whether no further item fits into the channel of queue q.
func (st *wlState) full(l *wlLedger, q, ch int, max int64) bool {
	n := st.counts(l)
	t := int64(0)
	for _, x := range n {
		t += x
	}
	if max != -1 && t >= max {
		return true
	}
	for _, c := range l.chLims {
		if c.q != q || !c.chs[ch] || c.limit == -1 {
			continue
		}
		t = 0
		for i, x := range n {
			if c.chs[i] {
				t += x
			}
		}
		if t >= c.limit {
			return true
		}
	}
	return false
}

func wlKey(x any) string {
	st := x.(*wlState)
	p := append([]wlIt(nil), st.proc...)
	sort.Slice(p, func(i, j int) bool { return p[i].c < p[j].c })
	d := append([]wlPend(nil), st.pend...)
	sort.Slice(d, func(i, j int) bool { return d[i].op < d[j].op })
	return fmt.Sprint(st.wait, p, d, st.max, st.shown, st.upd, st.exists)
}

func (st *wlState) setWait(ch int, w []wlIt) { st.wait[ch] = w }

func without(l []wlIt, i int) []wlIt {
	return append(append([]wlIt(nil), l[:i]...), l[i+1:]...)
}

// wlRelax switches single rules of the model off, to name the broken one.
type wlRelax struct {
	final, ack, order, retry, timeout, update, max, dup, clear, loss bool
}

type wlLin struct {
	kind string
	id   int // of the request, joins the two phases
	it   *wlItem
	item string // item id
	ch   int
	ok   bool
	max  int64
	// the maxima in force during an enqueue, when there are several
	maxes []int64
}

// maxIn is the maximum an enqueue is judged by: cur, the one in force, or the
// most favourable of those that were in force during the request. The limiter
// looks at the maximum before it counts, so only one of them must allow (or
// refuse) the item.
func (o *wlLin) maxIn(cur int64) int64 {
	for _, m := range o.maxes {
		if o.kind == "full" && (cur == -1 || m != -1 && m < cur) || o.kind == "enq" && cur != -1 && (m == -1 || m > cur) {
			cur = m
		}
	}
	return cur
}

// maxes lists the maxima that were in force during a request, when there may be several.
func (l *wlLedger) maxes(q int, c *Call) []int64 {
	var in []*wlReq
	for _, r := range l.reqs {
		if (r.kind == "put" || r.kind == "create") && r.q == q && (c.EndSeq == 0 || r.call.BegSeq < c.EndSeq) && r.call.Status != 404 && (r.kind == "put" || r.call.Status != 409) {
			in = append(in, r)
		}
	}
	var out []int64
	for _, r := range in {
		old := false
		for _, n := range in {
			old = old || r.call.Returned && n.call.Returned && n.call.Status < 300 && n.call.BegSeq > r.call.EndSeq && n.call.EndSeq < c.BegSeq
		}
		if !old {
			out = append(out, r.max)
		}
	}
	if len(out) < 2 {
		return nil
	}
	return out
}

func (l *wlLedger) model(q int, rx wlRelax) *Model {
	init := &wlState{wait: make([][]wlIt, len(l.sets)), max: l.max[q], shown: l.max[q], exists: !l.dynamic}
	find := func(st *wlState, id string, ch int) int {
		for i, p := range st.proc {
			if l.items[p.c].id == id && l.items[p.c].ch == ch {
				return i
			}
		}
		return -1
	}
	pop := func(st *wlState, op int) (wlPend, bool) {
		for i, p := range st.pend {
			if p.op == op {
				st.pend = append(append([]wlPend(nil), st.pend[:i]...), st.pend[i+1:]...)
				return p, true
			}
		}
		return wlPend{}, false
	}
	requeue := func(st *wlState, it wlIt, drop bool) []any {
		x := l.items[it.c]
		w := st.wait[x.ch]
		if drop && len(w) > 0 && x.upd && x.pos == "front" {
			return []any{st}
		}
		if x.pos == "front" {
			st.setWait(x.ch, append([]wlIt{it}, w...))
			return []any{st}
		}
		if len(w) > 0 && l.items[w[len(w)-1].c].upd {
			nw := append([]wlIt(nil), w...)
			nw[len(nw)-1] = it
			st.setWait(x.ch, nw)
			return []any{st}
		}
		st.setWait(x.ch, append(append([]wlIt(nil), w...), it))
		return []any{st}
	}
	// fail is what happens to a failed item
	fail := func(st *wlState, it wlIt) []any {
		it.f++
		if rx.retry {
			return append([]any{st.clone()}, requeue(st.clone(), it, true)...)
		}
		if uint64(it.f) > l.items[it.c].att {
			return []any{st}
		}
		return requeue(st, it, true)
	}
	return &Model{Init: init, Key: wlKey, Step: func(x any, op *LinOp) []any {
		o := op.In.(*wlLin)
		st := x.(*wlState)
		switch o.kind {
		case "enq":
			if !st.exists {
				return nil
			}
			n := st.clone()
			w := n.wait[o.ch]
			upd := len(w) > 0 && l.items[w[len(w)-1].c].upd
			var out []any
			if len(w) > 0 && (upd || rx.update) {
				nw := append([]wlIt(nil), w...)
				nw[len(nw)-1] = wlIt{o.it.n, 0}
				n.setWait(o.ch, nw)
				out = append(out, n)
				n = st.clone()
			}
			if !upd || rx.update {
				if !rx.max && st.full(l, q, o.ch, o.maxIn(st.max)) {
					return out
				}
				n.setWait(o.ch, append(append([]wlIt(nil), n.wait[o.ch]...), wlIt{o.it.n, 0}))
				out = append(out, n)
			}
			return out
		case "full":
			if rx.max {
				return []any{st}
			}
			if !st.exists {
				return nil
			}
			w := st.wait[o.ch]
			if len(w) > 0 && l.items[w[len(w)-1].c].upd && !rx.update || !st.full(l, q, o.ch, o.maxIn(st.max)) {
				return nil
			}
			return []any{st}
		case "take":
			w := st.wait[o.it.ch]
			for i, it := range w {
				if it.c != o.it.n {
					if !rx.order && !rx.loss {
						break
					}
					continue
				}
				n := st.clone()
				if rx.loss {
					n.setWait(o.it.ch, append([]wlIt(nil), w[i+1:]...))
				} else {
					n.setWait(o.it.ch, without(w, i))
				}
				n.proc = append(n.proc, it)
				return []any{n}
			}
			if rx.dup {
				n := st.clone()
				for i, it := range n.proc {
					if it.c == o.it.n {
						n.proc = without(n.proc, i)
						break
					}
				}
				n.proc = append(n.proc, wlIt{o.it.n, 0})
				return []any{n}
			}
			return nil
		case "putback":
			var out []any
			if o.ok { // settled meanwhile
				out = append(out, st)
			}
			for i, p := range st.proc {
				if p.c != o.it.n {
					continue
				}
				n := st.clone()
				n.proc = without(n.proc, i)
				w := n.wait[o.it.ch]
				if o.it.upd && len(w) > 0 {
					return append(out, n)
				}
				n.setWait(o.it.ch, append([]wlIt{p}, w...))
				return append(out, n)
			}
			return out
		case "settleA", "expireA":
			i := -1
			if o.kind == "expireA" {
				for j, p := range st.proc {
					if p.c == o.it.n {
						i = j
					}
				}
			} else {
				i = find(st, o.item, o.ch)
			}
			if i < 0 {
				if rx.ack && o.kind == "settleA" {
					n := st.clone()
					n.pend = append(n.pend, wlPend{op: o.id, it: wlIt{-1, 0}})
					return []any{n}
				}
				return nil
			}
			n := st.clone()
			pd := wlPend{op: o.id, it: n.proc[i]}
			pd.n[l.items[pd.it.c].ch] = 1
			n.pend = append(n.pend, pd)
			n.proc = without(n.proc, i)
			return []any{n}
		case "passB":
			n := st.clone()
			if _, ok := pop(n, o.id); !ok {
				return nil
			}
			return []any{n}
		case "failB":
			n := st.clone()
			p, ok := pop(n, o.id)
			if !ok {
				return nil
			}
			if p.it.c < 0 {
				return []any{n}
			}
			return fail(n, p.it)
		case "notproc":
			if !rx.ack && find(st, o.item, o.ch) >= 0 {
				return nil
			}
			return []any{st}
		case "proc":
			if !rx.ack && find(st, o.item, o.ch) < 0 {
				return nil
			}
			return []any{st}
		case "clearA", "gone":
			n := st.clone()
			n.exists = n.exists && o.kind != "gone"
			var places [wlMaxCh]int64
			for ch := range n.wait {
				if o.ch >= 0 && ch != o.ch {
					continue
				}
				if rx.clear {
					continue
				}
				places[ch] += int64(len(n.wait[ch]))
				n.wait[ch] = nil
			}
			var keep []wlIt
			for _, p := range n.proc {
				if o.ch >= 0 && l.items[p.c].ch != o.ch || rx.clear {
					keep = append(keep, p)
				} else {
					places[l.items[p.c].ch]++
				}
			}
			// failures being worked off die with the channel
			var pk []wlPend
			for _, p := range n.pend {
				if p.it.c >= 0 && (o.ch < 0 || l.items[p.it.c].ch == o.ch) {
					p.it.c = -1
				}
				pk = append(pk, p)
			}
			n.pend = append(pk, wlPend{o.id, wlIt{-1, 0}, places})
			n.proc = keep
			return []any{n}
		case "clearB":
			n := st.clone()
			if _, ok := pop(n, o.id); !ok {
				return nil
			}
			return []any{n}
		case "create":
			if st.exists {
				return nil
			}
			n := st.clone()
			n.exists, n.max, n.shown = true, o.max, o.max
			return []any{n}
		case "put":
			// enforced and reported in either order, but updates do not mix
			if !st.exists || st.upd != 0 && st.upd != o.id {
				return nil
			}
			n := st.clone()
			n.max, n.upd = o.max, o.id-st.upd
			return []any{n}
		case "putlost": // enforced, but not reported
			if !st.exists || st.upd != 0 {
				return nil
			}
			n := st.clone()
			n.max = o.max
			return []any{n}
		case "show":
			if !st.exists || st.upd != 0 && st.upd != o.id {
				return nil
			}
			n := st.clone()
			n.shown, n.upd = o.max, o.id-st.upd
			return []any{n}
		case "get":
			if !st.exists || st.shown != o.max {
				return nil
			}
			return []any{st}
		case "absent":
			if st.exists {
				return nil
			}
			return []any{st}
		case "there":
			if !st.exists {
				return nil
			}
			return []any{st}
		case "empty":
			if rx.final {
				return []any{st}
			}
			if st.count(l) != 0 {
				return nil
			}
			return []any{st}
		}
		panic("harness: " + o.kind)
	}}
}

type wlMark struct {
	t   int64
	seq uint64
}

// history builds the operations of one queue.
func (l *wlLedger) history(q int, rx wlRelax, marks []wlMark, endAt int64) []LinOp {
	var ops []LinOp
	id := 0
	add := func(call, ret uint64, opt bool, desc string, o *wlLin) {
		ops = append(ops, LinOp{Call: call, Ret: ret, Optional: opt, In: o, Desc: desc})
	}
	full := func(c *Call, desc string, o *wlLin) {
		e := c.EndSeq
		if !c.Returned {
			e = 0
		}
		add(c.BegSeq, e, false, desc, o)
	}
	for _, it := range l.items {
		if it.q == q {
			full(it.call, fmt.Sprintf("enq(%d:%s,u=%v,a=%d,%s)", it.ch, it.data, it.upd, it.att, it.pos), &wlLin{kind: "enq", it: it, ch: it.ch, maxes: l.maxes(q, it.call)})
		}
	}
	for _, it := range l.refused {
		if it.q == q && !l.lockFau && !l.deleting(q, it.call) {
			k := "full"
			full(it.call, fmt.Sprintf("full(%d)", it.ch), &wlLin{kind: k, ch: it.ch, maxes: l.maxes(q, it.call)})
		}
	}
	var acks = map[string][]*wlReq{}
	var hbs = map[string][]*wlReq{}
	for _, r := range l.reqs {
		if r.q != q {
			continue
		}
		c := r.call
		switch r.kind {
		case "pass", "fail":
			id++
			if c.Status == 200 {
				acks[r.id] = append(acks[r.id], r)
				full(c, fmt.Sprintf("%s(%s)", r.kind, l.name(r.id)), &wlLin{kind: "settleA", id: id, item: r.id, ch: r.ch})
				full(c, fmt.Sprintf("%s'(%s)", r.kind, l.name(r.id)), &wlLin{kind: r.kind + "B", id: id})
			} else if c.Status == 404 {
				full(c, fmt.Sprintf("%s(%s)=404", r.kind, l.name(r.id)), &wlLin{kind: "notproc", item: r.id, ch: r.ch})
			}
		case "hb":
			if c.Status == 200 {
				hbs[r.id] = append(hbs[r.id], r)
				full(c, fmt.Sprintf("hb(%s)", l.name(r.id)), &wlLin{kind: "proc", item: r.id, ch: r.ch})
			} else if c.Status == 404 {
				full(c, fmt.Sprintf("hb(%s)=404", l.name(r.id)), &wlLin{kind: "notproc", item: r.id, ch: r.ch})
			}
		case "chdel":
			if c.Status == 204 {
				id++
				full(c, fmt.Sprintf("chdel(%d)", r.ch), &wlLin{kind: "clearA", id: id, ch: r.ch})
				full(c, "chdel'", &wlLin{kind: "clearB", id: id})
			}
		}
	}
	seqBefore := func(t int64) uint64 { // the last mark at or before t
		i := sort.Search(len(marks), func(i int) bool { return marks[i].t > t })
		if i == 0 {
			return 0
		}
		return marks[i-1].seq
	}
	seqAfter := func(t int64) uint64 { // the first mark at or after t
		i := sort.Search(len(marks), func(i int) bool { return marks[i].t >= t })
		if i == len(marks) {
			return 0
		}
		return marks[i].seq
	}
	byID := map[string][]*wlDel{}
	for _, d := range l.dels {
		if d.it.q == q {
			byID[d.id] = append(byID[d.id], d)
		}
	}
	for _, x := range sortedKeys(byID) {
		ds := byID[x]
		sort.SliceStable(ds, func(i, j int) bool { return ds[i].call.WroteSeq < ds[j].call.WroteSeq })
		for i, d := range ds {
			full(d.call, fmt.Sprintf("take(%s)", d.it.data), &wlLin{kind: "take", it: d.it})
			next := ^uint64(0)
			nextBeg := ^uint64(0)
			if i+1 < len(ds) {
				next, nextBeg = ds[i+1].call.WroteSeq, ds[i+1].call.BegSeq
			}
			if d.back {
				id++
				settled := false
				for _, a := range acks[x] {
					settled = settled || a.call.BegSeq < d.call.EndSeq && a.call.EndSeq > d.call.BegSeq
				}
				full(d.call, fmt.Sprintf("putback(%s)", d.it.data), &wlLin{kind: "putback", it: d.it, ok: settled})
				continue
			}
			// may it have timed out, must it?
			opt := false
			definite := false
			for _, a := range acks[x] {
				if a.call.EndSeq < d.call.BegSeq || a.call.BegSeq > next { // its ID may be known from before
					continue
				}
				if a.call.BegSeq > d.call.WroteSeq && a.call.EndSeq < nextBeg {
					definite = true
				}
				opt = true
			}
			if definite {
				continue
			}
			lower := d.call.WroteAt
			upper := d.call.EndAt
			for _, h := range hbs[x] {
				if h.call.BegSeq > d.call.WroteSeq && h.call.EndSeq < next {
					lower = maxI(lower, h.call.BegAt)
				}
				if h.call.EndSeq > d.call.WroteSeq && h.call.BegSeq < next {
					upper = maxI(upper, h.call.EndAt)
				}
			}
			lower += d.it.to
			upper = l.workedOff(upper + d.it.to)
			if lower > endAt {
				continue
			}
			ret := seqAfter(upper)
			if ret == 0 {
				opt = true
				ret = ^uint64(0) - 1
			}
			if l.clears || l.dynamic || rx.timeout {
				opt = true
			}
			lo := seqBefore(lower)
			if rx.timeout {
				lo = d.call.WroteSeq
			}
			id++
			add(lo, ret, opt, fmt.Sprintf("expire(%s)", d.it.data), &wlLin{kind: "expireA", id: id, it: d.it})
			add(lo, ret, opt, fmt.Sprintf("expire'(%s)", d.it.data), &wlLin{kind: "failB", id: id})
		}
	}
	return ops
}

// name shortens an item id.
func (l *wlLedger) name(id string) string {
	n := ""
	for _, it := range l.items {
		if it.id == id {
			n = it.data
		}
	}
	if n == "" {
		return "?" + id
	}
	return n
}

func (l *wlLedger) check(drained bool) {
	s := S
	l.resolve()
	if len(s.viol) > 0 {
		return
	}
	var marks []wlMark
	for _, c := range s.net.calls {
		marks = append(marks, wlMark{c.SentAt, c.SentSeq})
		if c.Handled {
			marks = append(marks, wlMark{c.BegAt, c.BegSeq})
		}
		if c.Returned {
			marks = append(marks, wlMark{c.EndAt, c.EndSeq})
		}
	}
	sort.Slice(marks, func(i, j int) bool { return marks[i].seq < marks[j].seq })
	end := s.now()
	last := s.seq()
	budget := 400000
	if l.bulk {
		budget = 30000 // the states are big
	}
	for q := range l.queues {
		try := func(rx wlRelax, budget int) (bool, bool, []LinOp, []int) {
			ops := l.history(q, rx, marks, end)
			if drained && !l.dynamic {
				ops = append(ops, LinOp{Call: last, Ret: last + 1, In: &wlLin{kind: "empty"}, Desc: "empty"})
			}
			if l.dynamic {
				ops = append(ops, l.queueOps(q)...)
			}
			ok, decided, best := linearizable(l.model(q, rx), ops, budget)
			return ok, decided, ops, best
		}
		ok, decided, ops, best := try(wlRelax{}, budget)
		s.count("checks")
		if !decided {
			s.count("undecided")
			continue
		}
		if ok {
			continue
		}
		var props []string
		for _, p := range []struct {
			prop string
			rx   wlRelax
		}{{"Q01,Q08", wlRelax{final: true}}, {"Q01", wlRelax{loss: true, final: true}}, {"Q02", wlRelax{ack: true}}, {"Q02", wlRelax{dup: true}}, {"Q03", wlRelax{order: true}}, {"Q04", wlRelax{retry: true}}, {"Q04", wlRelax{timeout: true}},
			{"Q05", wlRelax{update: true}}, {"Q06", wlRelax{max: true}}, {"Q09", wlRelax{clear: true}}} {
			if p.prop == "Q09" && !l.clears && !l.dynamic {
				continue
			}
			if ok, dec, _, _ := try(p.rx, budget/2); ok && dec {
				for _, x := range strings.Split(p.prop, ",") {
					if !strings.Contains(strings.Join(props, ","), x) {
						props = append(props, x)
					}
				}
			}
		}
		sig := "history:" + strings.Join(props, "+")
		if len(props) == 0 {
			props = []string{"Q01", "Q02", "Q03", "Q04", "Q05", "Q06"}
			sig = "history"
			if l.clears || l.dynamic {
				props = append(props, "Q09")
			}
		}
		s.violate(strings.Join(props, ","), sig, "the history of queue %s (max %d) is explained by no sequential queue: %s", l.queues[q], l.max[q], describe(ops, best))
	}
}

func wlQueueBody(name string, max int64) string {
	return mustJSON(&v1willow.Queue{Spec: &v1willow.QueueSpec{DBDefinition: &v1willow.QueueDBDefinition{Name: &name}, Properties: &v1willow.QueueProperties{MaxItems: &max}}})
}

func wlItemBody(kv datatypes.KeyValues, data string, upd bool, att uint64, pos string, to time.Duration) string {
	return mustJSON(&v1willow.Item{Spec: &v1willow.ItemSpec{DBDefinition: &v1willow.ItemDBDefinition{KeyValues: datatypes.TypedKeyValues(kv)},
		Properties: &v1willow.ItemProperties{Data: []byte(data), Updateable: &upd, RetryAttempts: &att, RetryPosition: &pos, TimeoutDuration: &to}}})
}

func wlAckBody(id string, kv datatypes.KeyValues, passed bool) string {
	return mustJSON(&v1willow.ACK{ItemID: id, KeyValues: datatypes.TypedKeyValues(kv), Passed: passed})
}

func wlHbBody(id string, kv datatypes.KeyValues) string {
	return mustJSON(&v1willow.Heartbeat{ItemID: id, KeyValues: datatypes.TypedKeyValues(kv)})
}

// deleting tells whether the queue was being deleted during the call.
func (l *wlLedger) deleting(q int, c *Call) bool {
	for _, r := range l.reqs {
		if d := r.call; r.kind == "delete" && r.q == q && d != c && (!d.Returned || d.EndSeq > c.BegSeq) && (!c.Returned || c.EndSeq > d.BegSeq) {
			return true
		}
	}
	return false
}

// queueOps are the operations on the queue itself.
func (l *wlLedger) queueOps(q int) []LinOp {
	var ops []LinOp
	overlaps := func(c *Call) bool { return l.deleting(q, c) }
	add := func(c *Call, desc string, o *wlLin) {
		e := c.EndSeq
		if !c.Returned {
			e = 0
		}
		ops = append(ops, LinOp{Call: c.BegSeq, Ret: e, In: o, Desc: fmt.Sprintf("%s=%d", desc, c.Status)})
	}
	for i, r := range l.reqs {
		id := 1000000 + i
		c := r.call
		if r.kind != "list" && r.q != q || c.WriteErr && r.kind != "create" && r.kind != "put" && r.kind != "delete" {
			continue
		}
		switch {
		case r.kind == "create" && c.Status == 201:
			add(c, fmt.Sprintf("create(%d)", r.max), &wlLin{kind: "create", max: r.max})
		case r.kind == "create" && c.Status == 409:
			if !overlaps(c) {
				add(c, "create", &wlLin{kind: "there"})
			}
		case r.kind == "put" && c.Status == 200:
			add(c, fmt.Sprintf("put(%d)", r.max), &wlLin{kind: "put", max: r.max, id: id})
			add(c, fmt.Sprintf("show(%d)", r.max), &wlLin{kind: "show", max: r.max, id: id})
		case (r.kind == "put" || r.kind == "get" || r.kind == "chquery") && c.Status == 404:
			add(c, r.kind, &wlLin{kind: "absent"})
		case r.kind == "get" && c.Status == 200:
			x := &v1willow.Queue{}
			if err := json.Unmarshal(c.Resp, x); err != nil || x.Spec == nil || x.Spec.Properties == nil || x.Spec.Properties.MaxItems == nil || *x.Spec.DBDefinition.Name != l.queues[q] {
				S.violate("Q09", "unusable-queue", "unusable answer %s", c)
				continue
			}
			add(c, fmt.Sprintf("get=%d", *x.Spec.Properties.MaxItems), &wlLin{kind: "get", max: *x.Spec.Properties.MaxItems})
		case r.kind == "list" && c.Status == 200:
			var xs []*v1willow.Queue
			if err := json.Unmarshal(c.Resp, &xs); err != nil {
				S.violate("Q09", "unusable-list", "unusable answer %s", c)
				continue
			}
			n := 0
			for _, x := range xs {
				if *x.Spec.DBDefinition.Name == l.queues[q] {
					n++
					add(c, fmt.Sprintf("list=%d", *x.Spec.Properties.MaxItems), &wlLin{kind: "get", max: *x.Spec.Properties.MaxItems})
				}
			}
			if n > 1 {
				S.violate("Q09", "listed-twice", "a queue is listed more than once: %s", c)
			}
			if n == 0 {
				add(c, "list", &wlLin{kind: "absent"})
			}
		case r.kind == "delete" && c.Status == 204:
			add(c, "delete", &wlLin{kind: "gone", id: 1000000 + i, ch: -1})
			add(c, "delete'", &wlLin{kind: "clearB", id: 1000000 + i})
		case r.kind == "delete" && c.Status == 500 && l.limFau:
			// the channels may be gone, the queue is not
			add(c, "delete", &wlLin{kind: "clearA", id: id, ch: -1})
			add(c, "delete'", &wlLin{kind: "clearB", id: id})
			ops[len(ops)-2].Optional, ops[len(ops)-1].Optional = true, true
		case r.kind == "create" && c.Status == 500 && l.limFau:
		case r.kind == "put" && c.Status == 500 && l.limFau:
			add(c, fmt.Sprintf("put(%d)", r.max), &wlLin{kind: "putlost", max: r.max, id: id})
			ops[len(ops)-1].Optional = true
		case r.kind == "delete" && c.Status == 409:
			if !overlaps(c) {
				S.violate("Q09", "delete-refused", "the only deletion was refused: %s", c)
			}
		case (r.kind == "get" || r.kind == "put") && c.Status == 409:
			if !overlaps(c) {
				S.violate("Q09", "destroying-answer", "a request was refused for a deletion that does not exist: %s", c)
			}
		case r.kind == "chquery" || r.kind == "pass" || r.kind == "fail" || r.kind == "hb" || r.kind == "chdel" || c.Status == 0:
		default:
			S.violate("Q09,A01", fmt.Sprintf("queue-%s-%d", r.kind, c.Status), "unexpected answer %s", c)
		}
	}
	for _, it := range l.missing {
		if it.q == q {
			add(it.call, "enq", &wlLin{kind: "absent"})
		}
	}
	for _, w := range l.waits {
		if w.q == q && w.call.Status == 404 {
			add(w.call, "deq", &wlLin{kind: "absent"})
		}
	}
	return ops
}

// runSpan is the time during which a handed out item certainly or possibly runs.
type runSpan struct {
	d                        *wlDel
	surelyFrom, surelyTo     int64
	possiblyFrom, possiblyTo int64
	kv                       datatypes.KeyValues
}

func (l *wlLedger) runningKV(q, ch int) datatypes.KeyValues {
	kv := datatypes.KeyValues{"_willow_queue_name": datatypes.String(l.queues[q]), "_willow_running": datatypes.String("true")}
	for k, v := range l.sets[ch] {
		kv[k] = v
	}
	return kv
}

// workedOff is the latest time at which something due at t is worked off: a
// channel does one thing at a time, and what willow asks the limiter for can
// wait for locks of lost requests.
func (l *wlLedger) workedOff(t int64) int64 {
	upper := t + wlBound
	if !l.slowKnown {
		l.slowKnown = true
		for _, c := range S.net.calls {
			if c.Host != "limiter.willow" {
				continue
			}
			done := c.DoneAt
			if done == 0 {
				done = S.now()
			}
			if done-c.SentAt > wlBound/6 {
				l.slow = append(l.slow, [2]int64{c.SentAt, done})
			}
		}
	}
	for _, c := range l.slow {
		if c[0] <= upper && c[1] > t {
			upper = maxI(upper, c[1]+wlBound)
		}
	}
	return upper
}

func (l *wlLedger) spans() []*runSpan {
	var out []*runSpan
	end := S.now()
	for _, d := range l.dels {
		x := &runSpan{d: d, kv: l.runningKV(d.it.q, d.it.ch), surelyFrom: d.call.WroteAt, surelyTo: d.call.WroteAt + d.it.to, possiblyFrom: d.call.WroteAt - int64(500*time.Millisecond), possiblyTo: l.workedOff(d.call.EndAt + d.it.to)}
		if d.back {
			x.surelyTo, x.possiblyTo = x.surelyFrom, d.call.EndAt
			out = append(out, x)
			continue
		}
		next := ^uint64(0)
		for _, e := range l.dels {
			if e.id == d.id && e.call.WroteSeq > d.call.WroteSeq && e.call.WroteSeq < next {
				next = e.call.WroteSeq
				x.possiblyTo = minI(x.possiblyTo, e.call.WroteAt)
				x.surelyTo = minI(x.surelyTo, e.call.BegAt)
			}
		}
		for _, r := range l.reqs {
			if r.id != d.id || r.call.Status != 200 || r.call.EndSeq < d.call.WroteSeq || r.call.BegSeq > next {
				continue
			}
			switch r.kind {
			case "hb":
				x.possiblyTo = maxI(x.possiblyTo, l.workedOff(r.call.EndAt+d.it.to))
			case "pass", "fail":
				x.surelyTo = minI(x.surelyTo, r.call.BegAt)
			}
		}
		for _, r := range l.reqs {
			if (r.kind == "pass" || r.kind == "fail") && r.id == d.id && r.call.Status == 200 && r.call.BegSeq > d.call.WroteSeq && r.call.EndSeq < next {
				x.possiblyTo = minI(x.possiblyTo, r.call.EndAt)
			}
			if (r.kind == "chdel" && r.ch == d.it.ch || r.kind == "delete") && r.q == d.it.q && (!r.call.Returned || r.call.EndSeq > maxU(d.call.BegSeq, d.it.call.BegSeq)) {
				x.surelyTo = minI(x.surelyTo, r.call.BegAt)
			}
		}
		x.possiblyTo = minI(x.possiblyTo, end)
		out = append(out, x)
	}
	return out
}

func maxU(a, b uint64) uint64 {
	if a > b {
		return a
	}
	return b
}

func minI(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

// checkLimits: never more items than allowed are surely running at once.
func (l *wlLedger) checkLimits(sp []*runSpan) {
	s := S
	for _, x := range sp {
		if x.surelyTo <= x.surelyFrom || l.lifted > 0 && x.surelyTo > l.lifted {
			continue
		}
		for _, lim := range lmApplicable(l.rules, x.kv) {
			if lim.limit == -1 {
				continue
			}
			s.count("checks")
			n := int64(0)
			who := ""
			for _, y := range sp {
				if sameGroup(lim.kv, x.kv, y.kv) && y.surelyFrom <= x.surelyFrom && x.surelyFrom < y.surelyTo {
					// an item an override exempts from this limit may have
					// been let in after x was
					if y.surelyFrom > x.d.call.BegAt && !l.bound(lim, y) {
						continue
					}
					n++
					who += " " + y.d.it.data
				}
			}
			if n > lim.limit {
				s.violate("Q07", "limit-exceeded", "%d items run at %dus although {%s} allows %d:%s", n, x.surelyFrom/1000, kvStr(lim.kv), lim.limit, who)
			}
		}
	}
}

// checkPrompt: only dequeues wait for other clients.
func (l *wlLedger) checkPrompt() {
	s := S
	for _, w := range l.waits {
		c := w.call
		s.count("checks")
		if c.Status == 409 && (!c.Disconnected || c.DiscAt > c.EndAt) && !l.deleting(w.q, c) {
			s.violate("Q08", "dequeue-refused", "a waiting consumer was sent away: %s", c)
		}
	}
	if l.lockFau {
		return
	}
	l.checkDeletedWaits()
	for _, c := range s.net.calls {
		if c.Svc != "willow" || !c.Returned || c.Method == "GET" && strings.HasSuffix(c.Path, "/items") {
			continue
		}
		s.count("checks")
		if c.EndAt-c.BegAt > wlPrompt {
			s.violate("Q08,Q09", "late-answer", "%s was answered after %dus", c, (c.EndAt-c.BegAt)/1000)
		}
	}
}

// checkDeletedWaits: nobody waits for items of a queue that does not exist.
func (l *wlLedger) checkDeletedWaits() {
	s := S
	for _, w := range l.waits {
		c := w.call
		end := s.now()
		if c.Returned {
			end = c.EndAt
		}
		if c.Disconnected {
			end = minI(end, c.DiscAt)
		}
		for _, r := range l.reqs {
			d := r.call
			if r.kind != "delete" || r.q != w.q || !d.Returned || d.Status != 204 || maxI(c.BegAt, d.EndAt)+wlPrompt >= end {
				continue
			}
			fresh := false
			for _, x := range l.reqs {
				if x.kind == "create" && x.q == w.q && (!x.call.Returned || x.call.EndSeq > d.BegSeq) && x.call.BegAt <= end {
					fresh = true
				}
			}
			s.count("checks")
			if !fresh {
				s.violate("Q09", "waits-for-nothing", "%s still waited at %dus for items of a queue that was deleted at %dus", c, end/1000, d.EndAt/1000)
			}
		}
	}
}

// bound tells whether starting the item of y is subject to lim.
func (l *wlLedger) bound(lim lmLimit, y *runSpan) bool {
	for _, o := range lmApplicable(l.rules, y.kv) {
		if o.limit == lim.limit && kvStr(o.kv) == kvStr(lim.kv) {
			return true
		}
	}
	return false
}

// until is the last moment up to at when there were rules.
func (l *wlLedger) until(at int64) int64 {
	if l.unruled > 0 {
		return minI(at, l.unruled)
	}
	return at
}

// checkStarved: no consumer waits for long beside an item it could get.
func (l *wlLedger) checkStarved(sp []*runSpan) {
	s := S
	bound := wlServe
	if len(l.rules) > 0 {
		bound += wlPoll
	}
	if l.lockFau {
		bound += wlPoll + lmBound
	}
	if l.limFau {
		bound += 6 * wlPoll
	}
	end := s.now()
	first := map[*wlItem]int64{}
	for _, d := range l.dels {
		t := maxI(d.call.BegAt, d.call.WroteAt-int64(100*time.Millisecond))
		if x, ok := first[d.it]; !ok || t < x {
			first[d.it] = t
		}
	}
	for _, it := range l.items {
		to, ok := first[it]
		if !ok {
			to = end
			// it may have been replaced by the next enqueue
			if it.upd {
				for _, n := range l.items {
					if n.q == it.q && n.ch == it.ch && n.call.EndSeq > it.call.BegSeq && n != it {
						to = minI(to, n.call.BegAt)
					}
				}
				// or dropped behind a failed item
				for _, d := range l.dels {
					if d.it.q == it.q && d.it.ch == it.ch && d.it.pos == "back" {
						to = minI(to, d.call.BegAt)
					}
				}
			}
		}
		for _, r := range l.reqs {
			if (r.kind == "chdel" && r.ch == it.ch || r.kind == "delete") && r.q == it.q && (!r.call.Returned || r.call.EndSeq > it.call.BegSeq) {
				to = minI(to, r.call.BegAt)
			}
		}
		for _, w := range l.waits {
			c := w.call
			if w.q != it.q || !queryMatches(w.qry, "", l.sets[it.ch]) {
				continue
			}
			s.count("checks")
			a, b := maxI(c.BegAt, it.call.EndAt), to
			if c.Returned {
				b = minI(b, c.EndAt)
			}
			if c.Disconnected {
				b = minI(b, c.DiscAt)
			}
			if b-a <= bound {
				continue
			}
			// the last moment a limit may have been reached
			kv := l.runningKV(it.q, it.ch)
			for _, lim := range lmApplicable(l.rules, kv) {
				if lim.limit == 0 {
					a = maxI(a, l.until(b))
				}
				if lim.limit <= 0 {
					continue
				}
				for _, t := range append([]*runSpan{{possiblyTo: b}}, sp...) {
					at := minI(t.possiblyTo, b)
					n := int64(0)
					for _, y := range sp {
						if sameGroup(lim.kv, kv, y.kv) && y.possiblyFrom <= at && at <= y.possiblyTo {
							n++
						}
					}
					if n >= lim.limit {
						a = maxI(a, l.until(at))
					}
				}
			}
			if b-a > bound {
				p := "Q08"
				if len(l.rules) > 0 {
					p = "Q07,Q08"
				}
				s.violate(p, "starved", "the consumer %s (%s) waited from %dus to %dus beside the waiting item %s of {%s}", c.Key, c.Req, a/1000, b/1000, it.data, kvStr(l.sets[it.ch]))
			}
		}
	}
}

// wlReserved checks the maximum of a queue for items with the keys that willow uses for its counters.
func wlReserved() {
	s := S
	send := func(method, path, body string) int {
		ctx, cancel := context.WithTimeout(context.Background(), time.Second)
		defer cancel()
		st, _, _ := s.net.raw(ctx, "willow.res", method, path, body)
		return st
	}
	for _, k := range []string{"queue_name", "enqueued", "running", "_willow_queue_name", "_willow_enqueued", "_willow_running"} {
		if st := send("POST", "/v1/queues", wlQueueBody("res", 2)); st != 201 {
			s.violate("Q09", "create", "creating the queue res was answered with %d", st)
			return
		}
		n := 0
		for i := 0; i < 4; i++ {
			kv := datatypes.KeyValues{k: datatypes.String(fmt.Sprintf("v%d", i))}
			st := send("POST", "/v1/queues/res/channels/items", wlItemBody(kv, "x", false, 0, "back", time.Minute))
			s.count("checks")
			if st == 201 {
				n++
			}
			if st == 201 && n > 2 || st != 201 && st != 400 && n < 2 {
				s.violate("Q06", "reserved-key", "item %d with the key %s was answered with %d, the queue for at most 2 items holds %d", i, k, st, n)
			}
		}
		if n > 0 {
			if st := send("GET", "/v1/queues/res/channels/items", "{}"); st != 200 {
				s.violate("Q08", "reserved-key", "an item with the key %s is not handed out: %d", k, st)
			}
		}
		if st := send("DELETE", "/v1/queues/res", ""); st != 204 {
			s.violate("Q09", "delete", "deleting the queue res was answered with %d", st)
			return
		}
	}
}

// genChLims draws limits for some channels of a queue. Together with updates
// of the queue's maximum they do not bind: the limiter checks its limits one
// after the other, which only is one step when the limits stay the same.
func (l *wlLedger) genChLims(r *Rand, n int, loose bool) {
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		c := wlChLim{q: r.Intn(len(l.queues)), kv: datatypes.KeyValues{}, limit: pick(r, int64(1), 2, 3, 100)}
		if loose {
			c.limit = 100
		}
		set := l.sets[r.Intn(len(l.sets))]
		keys := sortedKeys(set)
		one := r.Intn(len(keys))
		for j, k := range keys {
			if j == one || r.P(50) {
				c.kv[k] = set[k]
			}
		}
		for ch, kv := range l.sets {
			c.chs[ch] = true
			for _, k := range sortedKeys(c.kv) {
				v, ok := kv[k]
				c.chs[ch] = c.chs[ch] && ok && v == c.kv[k]
			}
		}
		if id := fmt.Sprint(c.q, kvStr(c.kv)); !seen[id] {
			seen[id] = true
			l.chLims = append(l.chLims, c)
		}
	}
}

func (l *wlLedger) setupChLims() bool {
	s := S
	if len(l.chLims) == 0 {
		return true
	}
	req := func(m, p, b string) (int, []byte) {
		ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
		defer cancel()
		st, body, _ := s.net.raw(ctx, "limiter.setup", m, p, b)
		return st, body
	}
	id := ""
	st, body := req("GET", "/v1/limiter/rules/query", "{}")
	var rules []*v1limiter.Rule
	if st == 200 && json.Unmarshal(body, &rules) == nil {
		for _, r := range rules {
			kv := r.Spec.DBDefinition.GroupByKeyValues
			if _, ok := kv["_willow_enqueued"]; ok && len(kv) == 2 {
				id = r.State.ID
			}
		}
	}
	if id == "" {
		s.violate("Q09,R04", "no-rule", "the limiter has no rule for queues: %d %s", st, body)
		return false
	}
	for _, c := range l.chLims {
		kv := datatypes.KeyValues{"_willow_queue_name": datatypes.String(l.queues[c.q]), "_willow_enqueued": datatypes.String("true")}
		for _, k := range sortedKeys(c.kv) {
			kv["_willow_"+k] = c.kv[k]
		}
		if st, body := req("POST", "/v1/limiter/rules/"+id+"/overrides", lmOverrideBody(kv, c.limit)); st != 201 {
			s.violate("R04,Q06", "setup-channel-limit", "creating the override {%s} failed: %d %s", kvStr(kv), st, body)
			return false
		}
	}
	return true
}

func runWillow() {
	s := S
	bg := context.Background()
	prof := s.plan.Profile
	nq := int(s.param("queues", func(r *Rand) int64 { return pick(r, int64(1), 1, 1, 2) }))
	nch := int(s.param("channels", func(r *Rand) int64 { return pick(r, int64(1), 1, 2, 2, 3) }))
	// bulk: queues that hold many items, many of them handed out at a time
	bulk := s.param("bulk", func(r *Rand) int64 {
		if r.P(4) {
			return 1
		}
		return 0
	}) == 1
	faulty := s.param("faulty", func(r *Rand) int64 { return pick(r, int64(0), 1, 1, 2) })
	lockf := s.param("lockfaults", func(r *Rand) int64 { return pick(r, int64(0), 0, 0, 0, 0, 0, 1, 2) }) // 2: willow's calls of the limiter fail, too
	upd := int(s.param("updateable", func(r *Rand) int64 { return pick(r, int64(0), 0, 40, 80) }))
	short := int(s.param("short", func(r *Rand) int64 { return pick(r, int64(10), 40, 80) }))
	tight := s.param("tight", func(r *Rand) int64 { return pick(r, int64(0), 1) })
	l := &wlLedger{chIndex: map[string]int{}, byData: map[string]*wlItem{}, byCall: map[*Call]*wlDel{}, lockFau: lockf > 0, limFau: lockf == 2, dynamic: prof == "queues", bulk: bulk}
	l.sets = genKVSets(newRand(s.plan.Seed, "sets"), nch, false)
	nch = len(l.sets)
	for i, kv := range l.sets {
		l.chIndex[kvStr(kv)] = i
	}
	for i := 0; i < nq; i++ {
		l.queues = append(l.queues, fmt.Sprintf("q%d", i))
		l.max = append(l.max, s.param(fmt.Sprintf("max%d", i), func(r *Rand) int64 {
			if bulk {
				return pick(r, int64(-1), -1, 7, 16)
			}
			return pick(r, int64(-1), -1, 1, 2, 3, 5)
		}))
	}
	if prof == "limits" || prof == "stop" && s.param("ruled", func(r *Rand) int64 { return pick(r, int64(0), 0, 1) }) == 1 {
		n := s.param("rules", func(r *Rand) int64 { return pick(r, int64(1), 1, 2, 3) })
		over := int(s.param("overrides", func(r *Rand) int64 { return pick(r, int64(0), 0, 1, 2) }))
		rr := newRand(s.plan.Seed, "rules")
		bases := l.sets
		if s.param("overlap", func(r *Rand) int64 { return pick(r, int64(0), 0, 1) }) == 1 { // rules that all apply to one channel
			bases, n = l.sets[:1], maxI(n, 2)
		}
		l.rules = lmGenRules(rr, bases, int(n), over, false)
		for i := range l.rules {
			if n > 1 && rr.P(40) {
				l.rules[i].limit = pick(rr, int64(2), 2, 3)
			}
		}
		for i := range l.rules {
			if rr.P(40) {
				v := pick(rr, datatypes.Any(), datatypes.String("true"))
				l.rules[i].kv["_willow_running"] = v
				for j := range l.rules[i].over {
					l.rules[i].over[j].kv["_willow_running"] = v
				}
			}
		}
	}
	nlim := int(s.param("chlimits", func(r *Rand) int64 { return pick(r, int64(0), 0, 0, 1, 2) }))
	puts := s.param("puts", func(r *Rand) int64 { return pick(r, int64(0), 1) }) == 1
	l.genChLims(newRand(s.plan.Seed, "chlimits"), nlim, l.dynamic && puts)
	ruleIDs, overIDs := map[int]string{}, map[[2]int]string{}
	l.ruleIDs, l.overIDs = ruleIDs, overIDs
	s.net.rates = func(host string) *Rates {
		rt := &Rates{MinLat: 50 * time.Microsecond, MaxLat: time.Millisecond}
		if tight == 1 {
			rt.MinLat, rt.MaxLat = 50*time.Microsecond, 60*time.Microsecond
		}
		switch {
		case host == "locker.limiter" && lockf > 0:
			rt.Refuse, rt.LostResp, rt.WriteFail, rt.Cut, rt.Slow, rt.Gate = 1, 2, 1, 2, 1, 1
			rt.MaxSlow, rt.MaxCut = 500*time.Millisecond, 200*time.Millisecond
		case host == "limiter.willow" && lockf == 2:
			if c := s.net.cur; c.Method == "GET" {
				rt.Refuse, rt.LostResp, rt.Cut, rt.Retry, rt.Gate, rt.MaxCut = 3, 3, 2, 1, 3, time.Millisecond
			} else if strings.Contains(c.URL.Path, "/overrides") {
				rt.Refuse, rt.LostResp, rt.Cut, rt.Gate, rt.MaxCut = 5, 5, 3, 5, 5*time.Millisecond
			} else if strings.HasSuffix(c.URL.Path, "/counters") && !strings.Contains(string(s.net.curBody), `:-`) {
				rt.Refuse = 5 // what willow cannot give back it does not survive
			}
		case strings.HasPrefix(host, "willow.") && faulty > 0:
			rt.Refuse, rt.LostResp, rt.WriteFail, rt.Cut, rt.Retry = 1, 3, 4, 4, 2
			rt.MaxCut = 50 * time.Millisecond
			if faulty == 2 {
				rt.LostResp, rt.WriteFail, rt.Cut, rt.Retry = 5, 15, 10, 4
			}
		}
		return rt
	}
	s.startLocker(time.Second)
	s.startLimiter()
	s.heal = true
	svc := s.startWillow()
	if s.plan.Property == "Q06" && s.param("reserved", func(r *Rand) int64 { return pick(r, int64(0), 0, 0, 0, 0, 0, 0, 1) }) == 1 {
		wlReserved()
	}
	s.net.onEnd = l.onEnd
	s.status = s.unanswered
	stopAt, doneAt, stopped := int64(-1), int64(-1), false
	if prof == "stop" {
		s.stuckP = []string{"S01", s.plan.Property}
	}
	req := func(host, m, p, b string) (int, []byte, error) {
		ctx, cancel := context.WithTimeout(bg, 30*time.Second)
		defer cancel()
		return s.net.raw(ctx, host, m, p, b)
	}
	if !l.dynamic {
		for i, q := range l.queues {
			if st, body, err := req("willow.setup", "POST", "/v1/queues", wlQueueBody(q, l.max[i])); st != 201 {
				s.violate("Q09", "setup-queue", "creating the first queue %s failed: %d %s %v", q, st, body, err)
				return
			}
		}
	}
	if !l.setupChLims() {
		return
	}
	for i, ru := range l.rules {
		st, body, err := req("limiter.setup", "POST", "/v1/limiter/rules", lmRuleBody(ru.kv, ru.limit))
		ruleIDs[i] = lmID(body)
		if st != 201 {
			s.violate("R04,Q07", "setup-rule", "creating the rule {%s} failed: %d %s %v", kvStr(ru.kv), st, body, err)
			return
		}
		for j, o := range ru.over {
			st, body, err = req("limiter.setup", "POST", "/v1/limiter/rules/"+ruleIDs[i]+"/overrides", lmOverrideBody(o.kv, o.limit))
			overIDs[[2]int{i, j}] = lmID(body)
			if st != 201 {
				s.violate("R04,Q07", "setup-override", "creating the override {%s} failed: %d %s %v", kvStr(o.kv), st, body, err)
				return
			}
		}
	}
	s.heal = false
	timeouts := []int64{s.param("tiny", func(r *Rand) int64 {
		if r.P(5) {
			return pick(r, int64(15*time.Millisecond), int64(50*time.Millisecond))
		}
		return int64(150 * time.Millisecond)
	}), int64(400 * time.Millisecond), int64(time.Second), wlLong}
	ops := s.ops(func(r *Rand) []Op {
		var ops []Op
		np, ncons := 1+r.Intn(2), 1+r.Intn(3)
		n := pick(r, 2, 4, 6)
		if prof == "queues" {
			n = pick(r, 1, 2, 3)
		}
		span := pick(r, int64(0), int64(3*time.Millisecond), int64(50*time.Millisecond), int64(time.Second))
		retries := pick(r, 0, 1, 2, 3)
		back := pick(r, 0, 50, 100)
		mean := pick(r, 0, 20, 50)
		chdel := pick(r, 0, 0, 0, 15)
		if prof == "queues" {
			chdel = pick(r, 0, 20)
		}
		if bulk && prof != "queues" {
			n = pick(r, 12, 18, 24)
			if r.P(50) {
				np, ncons = 3, 4
			}
		}
		vanish := prof == "queues" && !bulk && r.P(8) // a queue is deleted under a crowd of consumers
		if vanish {
			np, ncons = 1, 3+r.Intn(4)
			n = 1
		}
		crowds := 6
		if s.plan.Property == "Q08" {
			crowds = 15
		}
		gather := prof != "queues" && !bulk && r.P(crowds) // all consumers wait before there is an item
		if gather {
			np, ncons = 1+r.Intn(3), 3+r.Intn(4)
			n = pick(r, 2, 3)
			mean, chdel = 0, 0
		}
		leave := gather && r.P(60)
		hold := 0 // items that run to the end of the run
		if prof == "limits" {
			hold = pick(r, 0, 0, 40)
		}
		for c := 0; c < np; c++ {
			for i := 0; i < n; i++ {
				o := Op{C: c, K: "enq", D: r.I64(span + 1), A: []int64{r.I64(int64(nq)), r.I64(int64(nch)), 0, r.I64(int64(retries) + 1), 0, 3, 0}}
				if r.P(upd) {
					o.A[2] = 1
				}
				if r.P(back) {
					o.A[4] = 1
				}
				if r.P(short) {
					o.A[5] = r.I64(3)
				}
				if hold > 0 && r.P(70) {
					o.A[1], o.A[5] = 0, 3
				}
				if r.P(10) {
					o.A[6] = r.Dur(100*time.Microsecond, 5*time.Millisecond)
				}
				if gather && i == 0 {
					o.D += r.Dur(3*time.Millisecond, 6*time.Millisecond)
				}
				ops = append(ops, o)
			}
		}
		for c := 0; c < ncons; c++ {
			for i := 0; i < n; i++ {
				q := "{}"
				if r.P(40) || leave && r.P(50) {
					q = mustJSON(genQuery(r, pick(r, 0, 1), 0))
				}
				o := Op{C: 100 + c, K: "work", D: r.I64(span + 1), A: []int64{r.I64(int64(nq)), pick(r, r.Dur(time.Millisecond, 20*time.Millisecond), r.Dur(100*time.Millisecond, time.Second), r.Dur(3*time.Second, 4*time.Second)),
					pick(r, int64(0), r.Dur(0, 2*time.Millisecond), r.Dur(0, 500*time.Millisecond)), pick(r, int64(0), 0, 30, 60, 90, 99), 0}, S: []string{q}}
				if prof == "limits" && r.P(20) {
					o.A[1] = r.Dur(8*time.Second, 9*time.Second)
				}
				if r.P(mean) {
					o.A[4] = pick(r, int64(1), 1, 2, 3, 4)
				}
				if r.P(hold) {
					o.A[4] = 2
				}
				if vanish {
					o.D, o.A[1] = r.Dur(3*time.Millisecond, 10*time.Millisecond), pick(r, r.Dur(time.Millisecond, 20*time.Millisecond), r.Dur(3*time.Second, 4*time.Second))
				}
				if gather {
					o.D, o.A[1] = r.I64(3), r.Dur(3*time.Second, 5*time.Second)
				}
				ops = append(ops, o)
				if gather {
					break
				}
			}
		}
		if leave {
			// others wait for something that never comes and leave at the same moment
			wait, spread := r.Dur(time.Millisecond, 3*time.Millisecond), pick(r, int64(time.Microsecond), int64(10*time.Microsecond), int64(30*time.Microsecond))
			for c := 3 + r.Intn(8); c > 0; c-- {
				ops = append(ops, Op{C: 150 + c, K: "work", D: r.I64(spread), A: []int64{r.I64(int64(nq)), wait, 0, 0, 0},
					S: []string{`{"Selection":{"KeyValues":{"never":{"Value":{"Type":13,"Data":"x"},"Comparison":"=","TypeRestrictions":{"MinDataType":13,"MaxDataType":13}}}}}`}})
			}
		}
		if r.P(50) {
			for i := 0; i < n; i++ {
				ops = append(ops, Op{C: 200, K: "stray", D: r.I64(span*2 + int64(3*time.Millisecond)), A: []int64{r.I64(4), r.I64(8), r.I64(20)}})
			}
		}
		if chdel > 0 {
			for i := 0; i < n; i++ {
				if r.P(chdel) || prof == "queues" && r.P(40) {
					ops = append(ops, Op{C: 201, K: "chdel", D: r.I64(span*2 + int64(3*time.Millisecond)), A: []int64{r.I64(int64(nq)), r.I64(int64(nch))}})
				}
			}
		}
		if r.P(30) {
			for i := 0; i < 3; i++ {
				ops = append(ops, Op{C: 202, K: "chq", D: r.I64(span*2 + int64(3*time.Millisecond)), A: []int64{r.I64(int64(nq))}, S: []string{pick(r, "{}", mustJSON(genQuery(r, 1, 0)))}})
			}
		}
		if vanish {
			for q := 0; q < nq; q++ {
				ops = append(ops, Op{C: 300 + q, K: "create", A: []int64{int64(q), pick(r, int64(-1), 1, 2, 5)}},
					Op{C: 300 + q, K: "delete", D: pick(r, r.Dur(3*time.Millisecond, 10*time.Millisecond), r.Dur(10*time.Millisecond, 100*time.Millisecond), r.Dur(10*time.Millisecond, time.Second)), A: []int64{int64(q), 0}})
			}
		} else if prof == "queues" {
			nc := 1 + r.Intn(2)
			stay := puts && r.P(40) // queues are updated more than they come and go
			if stay {
				nc++
			}
			for c := 0; c < nc; c++ {
				for i := 0; i < 2*n; i++ {
					k := pick(r, "create", "create", "create", "delete", "delete", "put", "get", "list")
					if k == "put" && !puts {
						k = "get"
					}
					if stay && (k == "delete" && r.P(90) || k == "create") {
						k = pick(r, "put", "put", "get")
					}
					if i == 0 {
						k = "create"
					}
					o := Op{C: 300 + c, K: k, D: r.I64(span + 1), A: []int64{r.I64(int64(nq)), pick(r, int64(-1), 1, 2, 5)}}
					ops = append(ops, o)
				}
			}
		}
		return ops
	})
	for _, o := range ops {
		l.clears = l.clears || o.K == "chdel"
	}
	if prof == "stop" {
		d := s.param("stop", func(r *Rand) int64 {
			return pick(r, r.Dur(0, 3*time.Millisecond), r.Dur(0, 20*time.Millisecond), r.Dur(0, 20*time.Millisecond), r.Dur(0, 500*time.Millisecond), pick(r, timeouts[0], timeouts[1])+r.Dur(0, 5*time.Millisecond))
		})
		time.AfterFunc(time.Duration(d), func() {
			stopAt = s.now()
			s.fault("shutdown", true)
			s.ev("shutdown requested")
			svc.stop()
		})
		go func() {
			<-svc.done
			stopped, doneAt = true, s.now()
			s.ev("willow stopped")
		}()
	}
	unrule := s.param("unrule", func(r *Rand) int64 {
		if prof != "limits" || r.P(70) {
			return 0
		}
		return r.Dur(time.Millisecond, 8*time.Second)
	})
	unruling := make(chan struct{})
	if unrule > 0 {
		go func() {
			defer close(unruling)
			time.Sleep(time.Duration(unrule))
			s.fault("rules-deleted", true)
			l.lifted = s.now()
			for i := range l.rules {
				if st, body, err := s.net.raw(bg, "limiter.unrule", "DELETE", "/v1/limiter/rules/"+l.ruleIDs[i], ""); st != 204 {
					s.violate("R04,Q07", "delete-rule", "deleting a rule failed: %d %s %v", st, body, err)
				}
			}
			l.unruled = s.now()
		}()
	} else {
		close(unruling)
	}
	s.runClients(ops, func(o *Op) { l.do(o, timeouts) })
	<-unruling
	if prof == "stop" {
		s.heal = true
		for stopAt < 0 {
			time.Sleep(50 * time.Millisecond)
		}
		lim := stopAt + wlStop
		if l.lockFau {
			lim += wlPoll + lmBound
		}
		for s.now() < lim && !stopped {
			time.Sleep(10 * time.Millisecond)
		}
		s.count("checks")
		if !stopped || doneAt > lim {
			s.violate("S01", "willow-no-stop", "willow was told to stop at %dus, stopped=%v at %dus; %s", stopAt/1000, stopped, maxI(doneAt, lim)/1000, s.status())
			return
		}
		time.Sleep(50 * time.Millisecond)
		for _, c := range s.net.calls {
			if c.Svc == "willow" && c.Handled && !c.Returned {
				s.violate("S01", "unanswered-at-stop", "%s was never answered by the stopped willow", c)
			}
		}
		s.outcome("stopped")
		return
	}
	// ---- the network works again
	s.heal = true
	time.Sleep(time.Duration(timeouts[2] + wlBound))
	if l.lockFau {
		time.Sleep(time.Duration(lmBound))
	}
	l.quiet()
}

func (l *wlLedger) do(o *Op, timeouts []int64) {
	s := S
	host := fmt.Sprintf("willow.c%d", o.C)
	s.net.op(host, o.ID)
	call := func(wait time.Duration, m, p, b string) (int, []byte) {
		ctx, cancel := context.WithTimeout(context.Background(), wait)
		defer cancel()
		st, body, _ := s.net.raw(ctx, host, m, p, b)
		return st, body
	}
	const long = 40 * time.Second
	qp := "/v1/queues/" + l.queues[o.a(0)%int64(len(l.queues))]
	switch o.K {
	case "enq":
		w := long
		if o.a(6) > 0 {
			w = time.Duration(o.a(6))
		}
		call(w, "POST", qp+"/channels/items", wlItemBody(l.sets[o.a(1)], fmt.Sprintf("d%d", o.ID), o.a(2) == 1, uint64(o.a(3)), []string{"front", "back"}[o.a(4)], time.Duration(timeouts[o.a(5)])))
	case "work":
		st, body := call(time.Duration(o.a(1)), "GET", qp+"/channels/items", o.s(0))
		if st != 200 {
			return
		}
		in := &v1willow.Item{}
		if json.Unmarshal(body, in) != nil || in.Spec == nil || in.State == nil {
			return
		}
		kv := datatypes.KeyValues(in.Spec.DBDefinition.KeyValues)
		to := int64(*in.Spec.Properties.TimeoutDuration)
		left := o.a(2)
		if hb := o.a(3); hb > 0 && to < wlLong {
			// keep it for some timeouts
			every := to * hb / 100
			left = to*3/2 + left
			for left > every {
				time.Sleep(time.Duration(every))
				left -= every
				if st, _ := call(long, "POST", qp+"/channels/items/heartbeat", wlHbBody(in.State.ID, kv)); st == 404 {
					return
				}
			}
		}
		if left > 0 {
			time.Sleep(time.Duration(left))
		}
		switch o.a(4) {
		case 0:
			call(long, "POST", qp+"/channels/items/ack", wlAckBody(in.State.ID, kv, true))
		case 1:
			call(long, "POST", qp+"/channels/items/ack", wlAckBody(in.State.ID, kv, false))
		case 2: // gone
		case 3: // too late, or just in time
			if to < wlLong {
				time.Sleep(time.Duration(to))
			}
			call(long, "POST", qp+"/channels/items/ack", wlAckBody(in.State.ID, kv, true))
		case 4: // twice
			call(long, "POST", qp+"/channels/items/ack", wlAckBody(in.State.ID, kv, o.ID%2 == 0))
			call(long, "POST", qp+"/channels/items/ack", wlAckBody(in.State.ID, kv, true))
		}
	case "stray":
		if len(l.dels) == 0 {
			return
		}
		d := l.dels[len(l.dels)-1-int(o.a(1))%len(l.dels)]
		ch := d.it.ch
		if o.a(2) == 0 {
			ch = (ch + 1) % len(l.sets)
		}
		qp = "/v1/queues/" + l.queues[d.it.q]
		switch o.a(0) {
		case 0, 1:
			call(long, "POST", qp+"/channels/items/heartbeat", wlHbBody(d.id, l.sets[ch]))
		case 2:
			call(long, "POST", qp+"/channels/items/ack", wlAckBody(d.id, l.sets[ch], true))
		case 3:
			call(long, "POST", qp+"/channels/items/ack", wlAckBody(d.id, l.sets[ch], false))
		}
	case "chdel":
		call(long, "DELETE", qp+"/channels", mustJSON(datatypes.TypedKeyValues(l.sets[o.a(1)])))
	case "chq":
		call(long, "GET", qp+"/channels", o.s(0))
	case "create":
		call(long, "POST", "/v1/queues", wlQueueBody(l.queues[o.a(0)], o.a(1)))
	case "delete":
		call(long, "DELETE", qp, "")
	case "put":
		call(long, "PUT", qp, mustJSON(&v1willow.QueueProperties{MaxItems: helpers.PointerOf(o.a(1))}))
	case "get":
		call(long, "GET", qp, "")
	case "list":
		call(long, "GET", "/v1/queues", "")
	}
}

type wlCounts struct{ enq, run map[string]int64 }

func (l *wlLedger) counters() *wlCounts {
	s := S
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	st, body, err := s.net.raw(ctx, "limiter.final", "GET", "/v1/limiter/counters/query", "{}")
	var cs []*v1limiter.Counter
	if err != nil || st != 200 || json.Unmarshal(body, &cs) != nil {
		s.violate("Q06,R05", "counters-query", "the counters cannot be read: %d %s %v", st, body, err)
		return nil
	}
	out := &wlCounts{map[string]int64{}, map[string]int64{}}
	for _, c := range cs {
		kv := c.Spec.DBDefinition.KeyValues
		q, ok := kv["_willow_queue_name"].Data.(string)
		_, run := kv["_willow_running"]
		n := datatypes.KeyValues{}
		for k, v := range kv {
			if k != "_willow_queue_name" && k != "_willow_running" && k != "_willow_enqueued" {
				n[strings.TrimPrefix(k, "_willow_")] = v
			}
		}
		key := q + " {" + kvStr(n) + "}"
		if !ok {
			s.violate("Q06", "strange-counter", "a counter that belongs to no queue: %s", mustJSON(c))
		} else if run {
			out.run[key] += *c.Spec.Properties.Counters
		} else {
			out.enq[key] += *c.Spec.Properties.Counters
		}
	}
	return out
}

// table compares the queues that willow shows with the limits that the limiter enforces for them.
func (l *wlLedger) table() {
	s := S
	get := func(host, m, p, b string, out any) bool {
		ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
		defer cancel()
		st, body, err := s.net.raw(ctx, host, m, p, b)
		if err != nil || st != 200 || json.Unmarshal(body, out) != nil {
			s.violate("Q09,R04,R05", "table-query:"+p, "the table of queues cannot be read: %s %s %d %s %v", m, p, st, body, err)
			return false
		}
		return true
	}
	var qs []*v1willow.Queue
	var rules []*v1limiter.Rule
	if !get("willow.final", "GET", "/v1/queues", "", &qs) || !get("limiter.final", "GET", "/v1/limiter/rules/query", "{}", &rules) {
		return
	}
	shown := map[string]int64{}
	vague := map[string]bool{} // nobody knows whether a change of its limit was made
	for _, r := range l.reqs {
		if r.call.Status == 500 && l.limFau && (r.kind == "create" || r.kind == "put" || r.kind == "delete") {
			vague[l.queues[r.q]] = true
		}
	}
	for _, q := range qs {
		n := *q.Spec.DBDefinition.Name
		if _, ok := shown[n]; ok {
			s.violate("Q09", "listed-twice", "queue %s is listed twice", n)
		}
		shown[n] = *q.Spec.Properties.MaxItems
		one := &v1willow.Queue{}
		if get("willow.final", "GET", "/v1/queues/"+n, "", one) && *one.Spec.Properties.MaxItems != shown[n] {
			s.violate("Q09", "listed-max", "queue %s is listed with a maximum of %d and shown with %d", n, shown[n], *one.Spec.Properties.MaxItems)
		}
	}
	for _, r := range rules {
		kv := datatypes.KeyValues(r.Spec.DBDefinition.GroupByKeyValues)
		if len(kv) != 2 || kv["_willow_queue_name"].Type != datatypes.T_any || kv["_willow_enqueued"].Type != datatypes.T_any {
			continue
		}
		var over []*v1limiter.Override
		if !get("limiter.final", "GET", "/v1/limiter/rules/"+r.State.ID+"/overrides/query", "{}", &over) {
			return
		}
		s.count("checks")
		found := map[string]bool{}
		for _, o := range over {
			if len(o.Spec.DBDefinition.GroupByKeyValues) != 2 {
				continue
			}
			n, _ := o.Spec.DBDefinition.GroupByKeyValues["_willow_queue_name"].Data.(string)
			max, ok := shown[n]
			if vague[n] && !found[n] {
				found[n] = true
				continue
			}
			if !ok || found[n] {
				s.violate("Q09,Q06", "limit-left", "the limiter has a limit of %d for queue %s, which does not exist (or has another): %s", *o.Spec.Properties.Limit, n, mustJSON(o))
			} else if max != *o.Spec.Properties.Limit {
				s.violate("Q09,Q06", "max-differs", "queue %s shows a maximum of %d, the limiter enforces %d", n, max, *o.Spec.Properties.Limit)
			}
			found[n] = true
		}
		for _, q := range qs {
			if n := *q.Spec.DBDefinition.Name; !found[n] && !vague[n] {
				s.violate("Q09,Q06", "no-limit", "the limiter has no limit for queue %s", n)
			}
		}
		return
	}
	s.violate("Q09,R04", "no-rule", "the limiter has no rule for queues")
}

// quiet settles everything, compares the accounting and empties the queues.
func (l *wlLedger) quiet() {
	s := S
	bg := context.Background()
	for _, c := range s.net.calls {
		if c.Svc == "willow" && c.Handled && !c.Returned {
			s.violate("A01,Q08", "unanswered", "%s %s %s goes on long after its client left (began at %dus, client left at %dus)", c.Key, c.Method, c.Path, c.BegAt/1000, c.DiscAt/1000)
		}
	}
	if len(s.viol) > 0 {
		return
	}
	l.table()
	cnt := l.counters()
	if cnt == nil {
		return
	}
	req := func(wait time.Duration, m, p, b string) (int, []byte, error) {
		ctx, cancel := context.WithTimeout(bg, wait)
		defer cancel()
		return s.net.raw(ctx, "willow.final", m, p, b)
	}
	running, waiting := map[string]int64{}, map[string]int64{}
	name := func(d *wlDel) string { return l.queues[d.it.q] + " {" + kvStr(l.sets[d.it.ch]) + "}" }
	// drain takes items until none comes for a while
	drain := func(q string, wait time.Duration) bool {
		for {
			st, body, err := req(wait, "GET", "/v1/queues/"+q+"/channels/items", "{}")
			if err != nil || st == 404 && l.dynamic {
				break
			}
			in := &v1willow.Item{}
			if st != 200 || json.Unmarshal(body, in) != nil || in.State == nil {
				s.violate("A01,Q08", fmt.Sprintf("final-dequeue-%d", st), "dequeuing from %s in a quiet system: %d %s", q, st, body)
				return false
			}
			kv := datatypes.KeyValues(in.Spec.DBDefinition.KeyValues)
			waiting[q+" {"+kvStr(kv)+"}"]++
			st, body, err = req(30*time.Second, "POST", "/v1/queues/"+q+"/channels/items/ack", wlAckBody(in.State.ID, kv, true))
			if st != 200 {
				s.violate("Q02,Q04", "final-ack-drained", "acknowledging an item just handed out: %d %s %v", st, body, err)
				return false
			}
		}
		return true
	}
	// items that are held leave room for others
	if len(l.rules) > 0 {
		for _, q := range l.queues {
			if !drain(q, time.Duration(wlServe+wlPoll)+200*time.Millisecond) {
				return
			}
		}
	}
	// what is held for long is finished now
	seen := map[string]bool{}
	for _, d := range append([]*wlDel(nil), l.dels...) {
		if seen[d.id] || d.it.to != wlLong {
			continue
		}
		seen[d.id] = true
		st, body, err := req(30*time.Second, "POST", "/v1/queues/"+l.queues[d.it.q]+"/channels/items/ack", wlAckBody(d.id, l.sets[d.it.ch], true))
		if st == 200 {
			running[name(d)]++
		} else if st != 404 {
			s.violate("A01,Q02", fmt.Sprintf("final-ack-%d", st), "acknowledging in a quiet system: %d %s %v", st, body, err)
		}
	}
	// limits of zero are lifted
	if len(l.rules) > 0 && l.lifted == 0 {
		l.lifted = s.now()
	}
	for i, ru := range l.rules {
		if l.unruled > 0 {
			break
		}
		put := func(p string) {
			ctx, cancel := context.WithTimeout(bg, 30*time.Second)
			defer cancel()
			if st, body, err := s.net.raw(ctx, "limiter.final", "PUT", p, `{"Limit":-1}`); st != 200 {
				s.violate("R04,Q07", "lift", "raising a limit failed: %d %s %v", st, body, err)
			}
		}
		if ru.limit == 0 {
			put("/v1/limiter/rules/" + l.ruleIDs[i])
		}
		for j, o := range ru.over {
			if o.limit == 0 {
				put("/v1/limiter/rules/" + l.ruleIDs[i] + "/overrides/" + l.overIDs[[2]int{i, j}])
			}
		}
	}
	wait := time.Duration(wlServe)
	if len(l.rules) > 0 {
		wait += time.Duration(wlPoll)
	}
	for _, q := range l.queues {
		if !drain(q, wait) {
			return
		}
		st, body, err := req(30*time.Second, "GET", "/v1/queues/"+q+"/channels", "{}")
		if st == 404 && l.dynamic {
			continue
		}
		if st != 200 || strings.TrimSpace(string(body)) != "[]" {
			s.violate("Q09", "channels-left", "an empty queue %s has channels: %d %s %v", q, st, body, err)
		}
	}
	s.count("checks")
	for ch := range l.sets {
		for _, q := range l.queues {
			k := q + " {" + kvStr(l.sets[ch]) + "}"
			if cnt.run[k] != running[k] {
				s.violate("Q06", "running-counter", "%s: the limiter counts %d running items, there are %d", k, cnt.run[k], running[k])
			}
			if cnt.enq[k] != running[k]+waiting[k] {
				s.violate("Q06", "enqueued-counter", "%s: the limiter counts %d items, there are %d running and %d waiting", k, cnt.enq[k], running[k], waiting[k])
			}
			delete(cnt.run, k)
			delete(cnt.enq, k)
		}
	}
	if len(cnt.run)+len(cnt.enq) > 0 {
		s.violate("Q06", "strange-counters", "counters of no channel: %v %v", cnt.run, cnt.enq)
	}
	if cnt = l.counters(); cnt != nil && len(cnt.run)+len(cnt.enq) > 0 {
		s.violate("Q06", "counters-left", "the queues are empty, the limiter counts running %v and enqueued %v", cnt.run, cnt.enq)
	}
	l.check(true)
	l.checkPrompt()
	sp := l.spans()
	l.checkLimits(sp)
	l.checkStarved(sp)
	if !l.dynamic {
		return
	}
	// whatever happened before, names can be used again
	l.limFau = false
	for _, q := range l.queues {
		for _, r := range []struct {
			m, p, b string
			want    int
		}{{"DELETE", "/v1/queues/" + q, "", 204}, {"POST", "/v1/queues", wlQueueBody(q, 1), 201}, {"PUT", "/v1/queues/" + q, `{"MaxItems":2}`, 200},
			{"POST", "/v1/queues/" + q + "/channels/items", wlItemBody(l.sets[0], "again-"+q, false, 0, "front", time.Second), 201}} {
			s.count("checks")
			if st, body, err := req(30*time.Second, r.m, r.p, r.b); st != r.want {
				s.violate("Q09", "unusable-name", "%s %s in a quiet system: %d %s %v, expected %d", r.m, r.p, st, body, err, r.want)
				return
			}
		}
	}
	l.table()
}
