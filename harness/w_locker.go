package main

import (
	"context"
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/DanLavine/willow/pkg/clients"
	lockerclient "github.com/DanLavine/willow/pkg/clients/locker_client"
	queryassociatedaction "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
	v1locker "github.com/DanLavine/willow/pkg/models/api/locker/v1"
	"github.com/DanLavine/willow/pkg/models/datatypes"
)

// The worlds of the locker. The real service with raw HTTP clients that hold,
// renew, release, abandon and misuse locks over a faulty network (profile ""),
// with the lock client library (profile "lib"), and with a shutdown ("stop").

func init() {
	worlds["locker"] = &world{run: runLocker, limit: func() time.Duration { return 4 * time.Minute }, stuck: "L03,A01,S01", tick: []int64{50, 200, 500}, calm: true}
}

const (
	lkSlack = int64(150 * time.Millisecond) // the most a running handler is delayed by stalls and other work
	lkW     = int64(400 * time.Millisecond) // a free lock reaches a waiter, a request is answered
)

// lkGrant is one grant as seen at the server.
type lkGrant struct {
	call     *Call
	key      int
	lockID   string
	sess     string
	T        int64
	hbs      []*Call // every heartbeat with the session
	rels     []*Call // every release with the session
	void     bool    // the answer was not written, the handler frees the lock
	gone     bool    // the client went away before the handler ended
	holdFrom int64   // the client holds it from here (EndAt)
}

// leaseLow is a time until which the lease certainly lasts, considering the heartbeats accepted before seq.
func (g *lkGrant) leaseLow(seq uint64) int64 {
	t := g.call.EndAt - lkSlack + g.T
	for _, h := range g.hbs {
		if h.Returned && h.Status == 200 && h.EndSeq < seq {
			t = maxI(t, h.BegAt+g.T)
		}
	}
	return t
}

// leaseHigh is a time at which the lease has certainly ended.
func (g *lkGrant) leaseHigh() int64 {
	t := g.call.EndAt + g.T + lkSlack
	for _, h := range g.hbs {
		if h.Status == 200 || !h.Returned {
			e := h.EndAt
			if !h.Returned {
				e = S.now()
			}
			t = maxI(t, e+g.T+lkSlack)
		}
	}
	return t
}

// heldAt says that the session certainly holds the lock at the time (with sequence number seq).
func (g *lkGrant) heldAt(at int64, seq uint64) bool {
	if g.void || g.gone || g.call.EndSeq >= seq {
		return false
	}
	for _, r := range g.rels {
		if r.Handled && r.BegSeq < seq {
			return false
		}
	}
	return at < g.leaseLow(seq)
}

// freedBy is a time at which the session certainly does not hold the lock any more.
func (g *lkGrant) freedBy() int64 {
	t := g.leaseHigh()
	if g.void && g.call.EndAt < t {
		t = g.call.EndAt
	}
	for _, r := range g.rels {
		if r.Returned && r.EndAt < t && r.BegSeq > g.call.BegSeq {
			t = r.EndAt
		}
	}
	return t
}

// endedBefore says that the session was certainly over before seq.
func (g *lkGrant) endedBefore(at int64, seq uint64) bool {
	if g.void && g.call.EndSeq < seq {
		return true
	}
	for _, r := range g.rels {
		if r.Returned && r.EndSeq < seq && r.BegSeq > g.call.EndSeq {
			return true
		}
	}
	return at > g.leaseHigh()
}

// lkLedger follows everything a locker did.
type lkLedger struct {
	blind   bool // the locker crashes in this run
	sets    []datatypes.KeyValues
	index   map[string]int
	defT    int64
	grants  []*lkGrant
	bySess  map[string]*lkGrant
	posts   []*Call
	postKey map[*Call]int
	pending map[string][]*Call // heartbeats and releases of sessions seen before their grant returned
	doneAt  int64
	stopAt  int64 // the service was told to stop
	stopSeq uint64
	done    bool
}

func newLkLedger(sets []datatypes.KeyValues, defT int64) *lkLedger {
	l := &lkLedger{sets: sets, defT: defT, index: map[string]int{}, bySess: map[string]*lkGrant{}, postKey: map[*Call]int{}, stopAt: -1}
	for i, kv := range sets {
		l.index[kvStr(kv)] = i
	}
	return l
}

func lkParsePath(p string) (id string, hb bool) {
	p = strings.TrimPrefix(p, "/v1/locks/")
	if i := strings.IndexByte(p, '/'); i >= 0 {
		return p[:i], strings.HasSuffix(p, "/heartbeat")
	}
	return p, false
}

func (l *lkLedger) onBegin(c *Call) {
	if c.Method == "POST" && c.Path == "/v1/locks" {
		req := &v1locker.Lock{}
		if json.Unmarshal(c.Req, req) == nil && req.Spec != nil && req.Spec.DBDefinition != nil {
			if k, ok := l.index[kvStr(datatypes.KeyValues(req.Spec.DBDefinition.KeyValues))]; ok {
				l.postKey[c] = k
				l.posts = append(l.posts, c)
			}
		}
		return
	}
	if strings.HasPrefix(c.Path, "/v1/locks/") {
		id, hb := lkParsePath(c.Path)
		cl := &v1locker.LockClaim{}
		_ = json.Unmarshal(c.Req, cl)
		c.Tag = [2]string{id, cl.SessionID}
		if g := l.bySess[cl.SessionID]; g != nil && g.lockID == id {
			if hb {
				g.hbs = append(g.hbs, c)
			} else if c.Method == "DELETE" {
				g.rels = append(g.rels, c)
			}
		}
	}
}

func (l *lkLedger) onEnd(c *Call) {
	s := S
	if l.done && l.stopAt >= 0 {
		s.violate("S01", "answer-after-stop", "%s was answered after the service had stopped", c)
	}
	if k, ok := l.postKey[c]; ok {
		s.outcome(fmt.Sprintf("lock.%d", c.Status))
		if c.Status != 200 {
			if c.Status != 503 {
				s.violate("L03,A01", fmt.Sprintf("lock-status-%d", c.Status), "a valid request for a lock was answered with %s", c)
			} else if !c.Disconnected && l.stopAt < 0 {
				s.violate("L03", "lock-refused", "a request for a lock was refused although the service runs: %s", c)
			}
			return
		}
		resp := &v1locker.Lock{}
		g := &lkGrant{call: c, key: k, void: c.WriteErr, gone: c.Disconnected, holdFrom: c.EndAt}
		if !g.void {
			if err := json.Unmarshal(c.Resp, resp); err != nil || resp.State == nil || resp.Spec == nil || resp.Spec.Properties == nil || resp.Spec.Properties.Timeout == nil {
				s.violate("L01", "grant-answer", "the answer of a grant is unusable: %s", c)
				return
			}
			g.lockID, g.sess, g.T = resp.State.LockID, resp.State.SessionID, int64(*resp.Spec.Properties.Timeout)
			req := &v1locker.Lock{}
			_ = json.Unmarshal(c.Req, req)
			want := l.defT
			if req.Spec.Properties != nil && req.Spec.Properties.Timeout != nil {
				want = int64(*req.Spec.Properties.Timeout)
			}
			if g.T != want || kvStr(datatypes.KeyValues(resp.Spec.DBDefinition.KeyValues)) != kvStr(l.sets[k]) {
				s.violate("L01", "grant-spec", "the answer of a grant does not carry the requested key-values and timeout: %s", c)
			}
			if o := l.bySess[g.sess]; o != nil || g.sess == "" {
				s.violate("L01", "session-reuse", "the session %q was granted twice", g.sess)
			}
			l.bySess[g.sess] = g
		}
		// nobody else may hold it now
		for _, o := range l.grants {
			if o.key == k && o.heldAt(c.EndAt, c.EndSeq) && !g.void {
				s.violate("L01", "two-holders", "lock %d was granted to %s (%s at %dus) while session %s of %s holds it (granted at %dus, lease until %dus at least)",
					k, c.Key, g.sess, c.EndAt/1000, o.sess, o.call.Key, o.call.EndAt/1000, o.leaseLow(c.EndSeq)/1000)
			}
		}
		l.grants = append(l.grants, g)
		s.count("checks")
		s.state(fmt.Sprintf("grant%d after%d", k, len(l.grants)%7))
		return
	}
	if strings.HasPrefix(c.Path, "/v1/locks/") {
		tag, _ := c.Tag.([2]string)
		_, hb := lkParsePath(c.Path)
		g := l.bySess[tag[1]]
		if g != nil && g.lockID != tag[0] {
			g = nil
		}
		kind := map[bool]string{true: "heartbeat", false: "release"}[hb]
		s.outcome(fmt.Sprintf("%s.%d", kind, c.Status))
		s.count("checks")
		ok := c.Status == 200 || c.Status == 204
		shutting := l.stopAt >= 0
		if g == nil {
			// unknown or not yet answered session
			if hb && ok && !l.pendingGrant(c) {
				s.violate("L02", "heartbeat-unknown", "a heartbeat for a session nobody was granted succeeded: %s", c)
			}
			return
		}
		if hb {
			if ok {
				if g.endedBefore(c.BegAt, c.BegSeq) {
					s.violate("L02", "heartbeat-stale", "a heartbeat at %dus for the session %s that had ended (freed by %dus) succeeded: %s", c.BegAt/1000, g.sess, g.freedBy()/1000, c)
				}
				for _, o := range l.grants {
					if o != g && o.key == g.key && !o.void && o.call.BegSeq > g.call.EndSeq && o.call.EndSeq < c.BegSeq {
						s.violate("L02", "heartbeat-superseded", "a heartbeat for session %s succeeded although lock %d was granted to %s in between", g.sess, g.key, o.sess)
					}
				}
			} else if g.heldAt(c.EndAt, c.EndSeq) && g.call.EndSeq < c.BegSeq && !shutting {
				s.violate("L02,L01", "heartbeat-refused", "a heartbeat of the holder %s of lock %d was refused at %dus (lease until %dus at least): %s", g.sess, g.key, c.EndAt/1000, g.leaseLow(c.EndSeq)/1000, c)
			}
		} else {
			switch {
			case ok && g.endedBefore(c.BegAt, c.BegSeq):
				s.violate("L02", "release-stale", "a release at %dus for the session %s that had ended succeeded: %s", c.BegAt/1000, g.sess, c)
			case !ok && !shutting && g.call.EndSeq < c.BegSeq && g.heldButFor(c):
				s.violate("L02", "release-refused", "the release by the holder %s of lock %d was refused: %s", g.sess, g.key, c)
			}
		}
	}
}

// heldButFor says the session was certainly held all through the release.
func (g *lkGrant) heldButFor(c *Call) bool {
	if g.void {
		return false
	}
	for _, r := range g.rels {
		if r != c && r.Handled && r.BegSeq < c.EndSeq {
			return false
		}
	}
	return c.EndAt < g.leaseLow(c.EndSeq)
}

// pendingGrant says that some grant may have been made but was not answered yet (or not to anybody).
func (l *lkLedger) pendingGrant(c *Call) bool { return false }

// waits checks that no waiter was left waiting for a free lock.
func (l *lkLedger) waits(end int64) {
	s := S
	for k := range l.sets {
		// times at which the lock may be held
		var busy [][2]int64
		for _, g := range l.grants {
			if g.key == k {
				busy = append(busy, [2]int64{g.call.EndAt - lkSlack, g.freedBy()})
			}
		}
		sort.Slice(busy, func(i, j int) bool { return busy[i][0] < busy[j][0] })
		for _, p := range l.posts {
			if l.postKey[p] != k {
				continue
			}
			to := end
			if p.Returned {
				to = p.EndAt
			}
			if p.Disconnected && p.DiscAt < to {
				to = p.DiscAt
			}
			if l.stopAt >= 0 && l.stopAt < to {
				to = l.stopAt
			}
			cur := p.BegAt
			s.count("checks")
			gap := func(a, b int64) {
				if b-a > lkW {
					s.violate("L03,L01", "free-but-waiting", "%s waited for lock %d from %dus to %dus although nobody held it from %dus to %dus", p.Key, k, p.BegAt/1000, to/1000, a/1000, b/1000)
				}
			}
			for _, b := range busy {
				if b[0] >= to {
					break
				}
				if b[0] > cur {
					gap(cur, b[0])
				}
				cur = maxI(cur, b[1])
			}
			if to > cur {
				gap(cur, to)
			}
		}
	}
}

// answered checks that requests other than waiting ones were answered in time.
func (l *lkLedger) answered(end int64) {
	s := S
	for _, c := range s.net.calls {
		if c.Svc != "locker" || !c.Handled {
			continue
		}
		_, waits := l.postKey[c]
		e := end
		if c.Returned {
			e = c.EndAt
		}
		from := c.BegAt
		if waits {
			if !c.Disconnected {
				continue
			}
			from = c.DiscAt
		}
		if e-from > lkW && l.stopAt < 0 {
			s.violate("A01,L03", "slow-answer:"+c.Method, "%s %s began at %dus, was answered at %dus (returned=%v disconnected=%v)", c.Key, c.Path, c.BegAt/1000, e/1000, c.Returned, c.Disconnected)
		}
	}
}

type lkListing struct {
	call *Call
}

// listings checks what the queries saw.
func (l *lkLedger) listings() {
	s := S
	for _, c := range s.net.calls {
		if c.Svc != "locker" || c.Method != "GET" || c.Path != "/v1/locks" || !c.Returned || c.Status != 200 || c.WriteErr {
			continue
		}
		q := &queryassociatedaction.AssociatedActionQuery{}
		if json.Unmarshal(c.Req, q) != nil {
			continue
		}
		var locks []*v1locker.Lock
		if err := json.Unmarshal(c.Resp, &locks); err != nil {
			s.violate("L03", "listing-answer", "unusable listing %s", c)
			continue
		}
		got := map[int]*v1locker.Lock{}
		for _, lk := range locks {
			k, ok := l.index[kvStr(datatypes.KeyValues(lk.Spec.DBDefinition.KeyValues))]
			if !ok {
				s.violate("L03", "listing-unknown", "the listing shows a lock nobody asked for: %s", c)
				continue
			}
			if got[k] != nil {
				s.violate("L03", "listing-twice", "the listing shows lock %d twice", k)
			}
			got[k] = lk
		}
		s.count("checks")
		for k, kv := range l.sets {
			lk := got[k]
			match := queryMatches(q, "", kv)
			if lk != nil && !match {
				s.violate("L03", "listing-mismatch", "the listing for %s shows lock %s", c.Req, kvStr(kv))
			}
			if lk == nil && match {
				for _, g := range l.grants {
					if g.key == k && g.heldThrough(c) {
						s.violate("L03,L01", "listing-missing", "lock %d is held by %s from %dus but missing in the listing at %dus-%dus: %s", k, g.sess, g.call.EndAt/1000, c.BegAt/1000, c.EndAt/1000, c)
					}
				}
			}
			if lk != nil {
				l.listed(k, lk, c)
			}
			if lk != nil && !l.wanted(k, c) && (l.stopAt < 0 || l.stopAt > c.EndAt) {
				s.violate("L03", "listing-leftover", "lock %d is listed at %dus-%dus although nobody holds or wants it: %s", k, c.BegAt/1000, c.EndAt/1000, c)
			}
		}
	}
}

// listed checks the details of a listed lock.
func (l *lkLedger) listed(k int, lk *v1locker.Lock, c *Call) {
	s := S
	if lk.State == nil || lk.Spec.Properties == nil || lk.Spec.Properties.Timeout == nil {
		s.violate("L03", "listing-details", "the listing shows lock %d without its state or properties: %s", k, c)
		return
	}
	// the holder
	known := false
	low, high := uint64(0), uint64(0)
	for _, p := range l.posts {
		if l.postKey[p] != k || p.BegAt > c.EndAt {
			continue
		}
		var g *lkGrant
		for _, x := range l.grants {
			if x.call == p {
				g = x
			}
		}
		to := int64(1 << 62)
		switch {
		case g != nil && !g.void:
			to = g.freedBy() + lkSlack
		case p.Returned:
			to = p.EndAt
		}
		if to < c.BegAt {
			continue
		}
		high++
		switch {
		case g != nil && !g.void:
			if g.sess == lk.State.SessionID {
				known = true
				if g.lockID != lk.State.LockID {
					s.violate("L03", "listing-details", "the listing shows session %s of lock %s with id %s", g.sess, g.lockID, lk.State.LockID)
				}
			}
			if g.heldThrough(c) {
				low++
				if lk.State.SessionID != g.sess {
					s.violate("L03,L01", "listing-session", "session %s holds lock %d all through the listing at %dus-%dus, which shows session %s", g.sess, k, c.BegAt/1000, c.EndAt/1000, lk.State.SessionID)
				}
				if int64(*lk.Spec.Properties.Timeout) != g.T {
					s.violate("L03", "listing-details", "session %s holds lock %d with a lease of %d, the listing shows %d", g.sess, k, g.T, *lk.Spec.Properties.Timeout)
				}
				left := int64(lk.State.TimeTillExipre)
				if left > g.leaseHigh()-c.BegAt || left < g.leaseLow(c.BegSeq)-c.EndAt {
					s.violate("L03", "listing-expiry", "the lease of session %s of lock %d ends between %dus and %dus, the listing at %dus-%dus says it ends in %dus", g.sess, k, g.leaseLow(c.BegSeq)/1000, g.leaseHigh()/1000, c.BegAt/1000, c.EndAt/1000, left/1000)
				}
			}
		case p.Returned && p.EndSeq < c.BegSeq:
		default:
			if g != nil || !p.Returned {
				known = true // a session the client never heard of
			}
			if g == nil && p.BegAt+lkW < c.BegAt && (!p.Returned || p.EndSeq > c.EndSeq) && (!p.Disconnected || p.DiscAt > c.EndAt) {
				low++
			}
		}
	}
	if !known {
		s.violate("L03,L01", "listing-session", "the listing at %dus-%dus shows session %s for lock %d, which nobody can hold then", c.BegAt/1000, c.EndAt/1000, lk.State.SessionID, k)
	}
	// a stopping locker sends waiting clients away without bookkeeping
	stopping := l.stopAt >= 0 && l.stopAt <= c.EndAt
	if n := lk.State.LocksHeldOrWaiting; n < low || n > high && !stopping {
		s.violate("L03", "listing-count", "the listing at %dus-%dus shows %d clients that hold or wait for lock %d, there are between %d and %d", c.BegAt/1000, c.EndAt/1000, n, k, low, high)
	}
}

func (g *lkGrant) heldThrough(c *Call) bool {
	if g.void || g.call.EndSeq >= c.BegSeq {
		return false
	}
	for _, r := range g.rels {
		if r.Handled && r.BegSeq < c.EndSeq {
			return false
		}
	}
	return c.EndAt < g.leaseLow(c.BegSeq)
}

// wanted: somebody held or waited for the lock at some moment of the call.
func (l *lkLedger) wanted(k int, c *Call) bool {
	for _, p := range l.posts {
		if l.postKey[p] != k {
			continue
		}
		e := int64(1 << 62)
		if p.Returned {
			e = p.EndAt
		}
		if p.BegAt <= c.EndAt && e >= c.BegAt {
			return true
		}
	}
	for _, g := range l.grants {
		if g.key == k && g.call.EndAt <= c.EndAt && g.freedBy()+lkSlack >= c.BegAt {
			return true
		}
	}
	return false
}

func lkBody(kv datatypes.KeyValues, T int64) string {
	lk := &v1locker.Lock{Spec: &v1locker.LockSpec{DBDefinition: &v1locker.LockDBDefinition{KeyValues: datatypes.TypedKeyValues(kv)}}}
	if T > 0 {
		d := time.Duration(T)
		lk.Spec.Properties = &v1locker.LockProperties{Timeout: &d}
	}
	return mustJSON(lk)
}

func lkClaim(sess string) string { return mustJSON(&v1locker.LockClaim{SessionID: sess}) }

type lkHeld struct {
	id, sess string
	T        int64
	key      int
}

func runLocker() {
	s := S
	prof := s.plan.Profile
	nsets := int(s.param("sets", func(r *Rand) int64 { return pick(r, int64(1), 1, 2, 3) }))
	defT := s.param("default", func(r *Rand) int64 { return pick(r, int64(500*time.Millisecond), int64(time.Second)) })
	faulty := s.param("faulty", func(r *Rand) int64 { return pick(r, int64(0), 1, 1, 2) })
	tight := s.param("tight", func(r *Rand) int64 {
		if prof != "lib" && r.P(40) {
			return 1
		}
		return 0
	})
	if tight == 1 {
		faulty = s.param("tightfaulty", func(r *Rand) int64 { return pick(r, int64(0), 0, 1) })
	}
	sets := genKVSets(newRand(s.plan.Seed, "sets"), nsets, false)
	nsets = len(sets)
	s.net.rates = func(host string) *Rates {
		rt := &Rates{MinLat: 50 * time.Microsecond, MaxLat: 2 * time.Millisecond}
		if tight == 1 {
			rt.MinLat, rt.MaxLat = 50*time.Microsecond, 51*time.Microsecond
		}
		if faulty > 0 {
			rt.Refuse, rt.LostResp, rt.WriteFail, rt.Cut, rt.Slow = 2, 4, 4, 8, 4
			rt.Gate = 3
			rt.MaxSlow, rt.MaxCut = 700*time.Millisecond, 600*time.Millisecond
		}
		if faulty == 2 {
			rt.Cut, rt.WriteFail, rt.Gate = 20, 10, 8
		}
		return rt
	}
	led := newLkLedger(sets, defT)
	s.net.onBegin, s.net.onEnd = led.onBegin, led.onEnd
	svc := s.startLocker(time.Duration(defT))
	s.status = func() string {
		l := ""
		for _, c := range s.net.calls {
			if c.Handled && !c.Returned {
				l += c.Key + " " + c.Method + " " + c.Path + "; "
			}
		}
		return "unanswered: " + l
	}
	stopAt := int64(0)
	if prof == "stop" {
		s.stuckP = []string{"S01", s.plan.Property}
		stopAt = s.param("stop", func(r *Rand) int64 {
			if tight == 1 {
				return pick(r, int64(200*time.Millisecond), int64(400*time.Millisecond)) + r.Dur(0, pick(r, 300*time.Microsecond, time.Millisecond))
			}
			return pick(r, r.Dur(0, 3*time.Millisecond), r.Dur(0, time.Second), r.Dur(0, 3*time.Second), defT+r.Dur(0, 2*time.Millisecond))
		})
		time.AfterFunc(time.Duration(stopAt), func() {
			led.stopAt, led.stopSeq = s.now(), s.seq()
			s.fault("shutdown", true)
			s.ev("shutdown requested")
			svc.stop()
		})
		go func() {
			<-svc.done
			led.done, led.doneAt = true, s.now()
			s.ev("locker stopped")
		}()
	}
	switch prof {
	case "lib":
		crashes := int64(0)
		if s.plan.Property == "L04" {
			crashes = s.param("crashes", func(r *Rand) int64 { return pick(r, int64(0), 0, 0, 1, 2) })
		}
		down := make(chan struct{})
		if crashes > 0 {
			// the locker keeps everything in memory: a restarted one knows no session. The ledger knows nothing about that
			led.blind, s.net.onBegin, s.net.onEnd = true, nil, nil
		}
		go func() {
			defer close(down)
			for i := int64(0); i < crashes; i++ {
				time.Sleep(time.Duration(s.param(fmt.Sprintf("crash%d.at", i), func(r *Rand) int64 {
					return pick(r, r.Dur(0, 5*time.Millisecond), r.Dur(0, time.Second), r.Dur(0, 4*time.Second))
				})))
				s.net.crash(svc, "")
				time.Sleep(time.Duration(s.param(fmt.Sprintf("crash%d.down", i), func(r *Rand) int64 {
					return pick(r, 0, r.Dur(0, 100*time.Millisecond), r.Dur(0, 3*time.Second))
				})))
				svc = s.startLocker(time.Duration(defT))
				s.ev("locker restarted")
			}
		}()
		lkLib(led, sets, down)
	default:
		lkRaw(led, sets)
	}
	// faults stop; everything settles
	s.heal = true
	maxT := defT
	for _, g := range led.grants {
		maxT = maxI(maxT, g.T)
	}
	if prof == "stop" {
		for w := 0; w < 100 && led.stopAt < 0; w++ {
			time.Sleep(50 * time.Millisecond)
		}
		lim := led.stopAt + int64(3*time.Second)
		for s.now() < lim && !led.done {
			time.Sleep(10 * time.Millisecond)
		}
		if !led.done || led.doneAt > lim {
			s.violate("S01", "locker-no-stop", "the locker was told to stop at %dus, stopped=%v at %dus; %s", led.stopAt/1000, led.done, maxI(led.doneAt, lim)/1000, s.status())
			return
		}
		time.Sleep(50 * time.Millisecond)
		for _, c := range s.net.calls {
			if c.Svc == "locker" && c.Handled && !c.Returned {
				s.violate("S01", "unanswered-at-stop", "%s %s was never answered by the stopped locker", c.Key, c.Path)
			}
		}
		led.waits(s.now())
		led.listings()
		s.outcome("stopped")
		return
	}
	time.Sleep(time.Duration(maxT + 2*lkSlack + int64(50*time.Millisecond)))
	end := s.now()
	if !led.blind {
		led.answered(end)
		led.waits(end)
	}
	// nobody holds or wants anything: the listing is empty, every lock can be had at once
	st, body, err := s.net.raw(context.Background(), "locker.final", "GET", "/v1/locks", "{}")
	if err != nil || st != 200 {
		s.violate("A01,L03", "final-listing", "the final listing failed: %d %v %s", st, err, body)
	}
	done := make(chan struct{})
	for k := range sets {
		go func() {
			defer func() { done <- struct{}{} }()
			t0 := s.now()
			ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
			defer cancel()
			st, body, err := s.net.raw(ctx, fmt.Sprintf("locker.final%d", k), "POST", "/v1/locks", lkBody(sets[k], int64(10*time.Second)))
			if err != nil || st != 200 || s.now()-t0 > lkW {
				s.violate("L03", "final-lock", "lock %d that nobody holds could not be obtained at once: %d %v %s after %dus", k, st, err, body, (s.now()-t0)/1000)
				return
			}
			h := lkParseGrant(body)
			_, _, _ = s.net.raw(ctx, fmt.Sprintf("locker.final%d", k), "GET", "/v1/locks", "{}")
			st, _, err = s.net.raw(ctx, fmt.Sprintf("locker.final%d", k), "POST", "/v1/locks/"+h.id+"/heartbeat", lkClaim(h.sess))
			if st != 200 {
				s.violate("L02", "final-heartbeat", "the heartbeat of the only holder was refused: %d %v", st, err)
			}
			st, _, err = s.net.raw(ctx, fmt.Sprintf("locker.final%d", k), "DELETE", "/v1/locks/"+h.id, lkClaim(h.sess))
			if st != 204 {
				s.violate("L02", "final-release", "the release of the only holder failed: %d %v", st, err)
			}
		}()
	}
	for range sets {
		<-done
	}
	time.Sleep(50 * time.Millisecond)
	st, body, err = s.net.raw(context.Background(), "locker.final", "GET", "/v1/locks", "{}")
	if err != nil || st != 200 {
		s.violate("A01,L03", "final-listing", "the final listing failed: %d %v %s", st, err, body)
	}
	if !led.blind {
		led.waits(s.now())
		led.listings()
	}
}

func lkParseGrant(body []byte) lkHeld {
	l := &v1locker.Lock{}
	if json.Unmarshal(body, l) != nil || l.State == nil || l.Spec == nil {
		return lkHeld{}
	}
	return lkHeld{id: l.State.LockID, sess: l.State.SessionID}
}

// lkTight gathers everything around the expiry or the release of one lock.
func lkTight(r *Rand) []Op {
	var l []Op
	T := int64(400 * time.Millisecond)
	spread := pick(r, int64(20*time.Microsecond), int64(100*time.Microsecond), int64(500*time.Microsecond), int64(2*time.Millisecond))
	x := T
	l = append(l, Op{C: 0, K: "lock", A: []int64{0, T, 0}})
	if r.P(50) { // released instead
		x = T / 2
		l = append(l, Op{C: 0, K: "rel", D: x})
	}
	near := func() int64 { return x - spread/2 + r.I64(spread) + r.I64(400000) }
	n := 1 + r.Intn(5)
	for c := 1; c <= n; c++ {
		switch r.Intn(5) {
		case 0, 1: // a waiter that gives up
			from := pick(r, int64(5*time.Millisecond), near())
			d := near() - from
			if d <= 0 {
				d = 1 + r.I64(spread)
			}
			l = append(l, Op{C: c, K: "lock", D: from, A: []int64{0, T, d}})
		case 2, 3: // somebody with the session
			for i := 0; i <= r.Intn(3); i++ {
				d := near()
				if i > 0 {
					d = r.I64(spread)
				}
				l = append(l, Op{C: c, K: pick(r, "g0hb", "g0rel", "wronghb", "wrongrel"), D: d, A: []int64{0}})
			}
		case 4: // a patient waiter
			l = append(l, Op{C: c, K: "lock", D: pick(r, int64(5*time.Millisecond), near()), A: []int64{0, T, 0}})
			l = append(l, Op{C: c, K: pick(r, "rel", "drop"), D: r.I64(spread)})
		}
	}
	if r.P(50) {
		l = append(l, Op{C: n + 1, K: "query", D: near(), S: []string{"{}"}})
	}
	return l
}

func lkRaw(led *lkLedger, sets []datatypes.KeyValues) {
	s := S
	ops := s.ops(func(r *Rand) []Op {
		var l []Op
		if s.plan.Params["tight"] == 1 {
			return lkTight(r)
		}
		nc := 2 + r.Intn(4)
		cycles := 1 + r.Intn(4)
		extreme := pick(r, 0, 0, 0, 0, 0, 40) // very short and long timeouts
		if r.P(5) {                           // a crowd
			nc, cycles = 8+r.Intn(10), 1+r.Intn(2)
		}
		abuse := pick(r, 0, 10, 30)
		impatient := pick(r, 0, 20, 60)
		for c := 0; c < nc; c++ {
			for i := 0; i < cycles; i++ {
				T := pick(r, 0, int64(400*time.Millisecond), int64(time.Second), int64(2*time.Second))
				if r.P(20) {
					T = int64(400 * time.Millisecond)
				}
				if r.P(extreme) {
					T = pick(r, int64(time.Millisecond), int64(5*time.Millisecond), int64(30*time.Millisecond), int64(15*time.Second))
				}
				eff := T
				if eff == 0 {
					eff = int64(500 * time.Millisecond)
				}
				cancel := int64(0)
				if r.P(impatient) {
					cancel = pick(r, r.Dur(100*time.Microsecond, 4*time.Millisecond), r.Dur(0, time.Second), eff+r.Dur(0, 5*time.Millisecond), eff-r.Dur(0, 5*time.Millisecond))
				}
				l = append(l, Op{C: c, K: "lock", D: pick(r, 0, r.Dur(0, 2*time.Millisecond), r.Dur(0, 300*time.Millisecond)), A: []int64{r.I64(int64(len(sets))), T, cancel}})
				// hold
				nh := pick(r, 0, 0, 1, 2, 4)
				for h := 0; h < nh; h++ {
					d := pick(r, eff/3, eff/2, eff*8/10, r.I64(eff))
					if r.P(15) { // around the expiry
						d = eff - r.Dur(0, 3*time.Millisecond)
					}
					l = append(l, Op{C: c, K: "hb", D: d})
				}
				end := pick(r, "rel", "rel", "rel", "drop", "rel2")
				d := pick(r, 0, r.Dur(0, time.Millisecond), r.I64(eff*8/10), eff-r.Dur(0, 4*time.Millisecond), eff+r.Dur(0, 4*time.Millisecond))
				l = append(l, Op{C: c, K: end, D: d})
				if r.P(abuse) {
					l = append(l, Op{C: c, K: pick(r, "stalehb", "stalerel", "wronghb", "wrongrel"), D: pick(r, 0, r.Dur(0, time.Millisecond), r.I64(eff)), A: []int64{r.I64(8)}})
				}
			}
		}
		if r.P(50) {
			for i := 0; i < 4; i++ {
				q := "{}"
				if r.P(50) {
					q = mustJSON(genQuery(r, 1, 0))
				}
				l = append(l, Op{C: nc, K: "query", D: pick(r, r.Dur(0, time.Millisecond), r.Dur(0, 500*time.Millisecond)), S: []string{q}})
			}
		}
		if r.P(abuse * 2) {
			for i := 0; i < 6; i++ {
				l = append(l, Op{C: nc + 1, K: pick(r, "stalehb", "stalerel", "wronghb", "wrongrel"), D: pick(r, r.Dur(0, time.Millisecond), r.Dur(0, 400*time.Millisecond)), A: []int64{r.I64(8)}})
			}
		}
		return l
	})
	cur := map[int]*lkHeld{}
	bg := context.Background()
	s.runClients(ops, func(o *Op) {
		host := fmt.Sprintf("locker.c%d", o.C)
		s.net.op(host, o.ID)
		hold := cur[o.C]
		if led.stopAt >= 0 && s.now() > led.stopAt+int64(100*time.Millisecond) {
			return
		}
		switch o.K {
		case "lock":
			cur[o.C] = nil
			// a waiter gives up after a while so that runs end
			wait := 20 * time.Second
			if o.a(2) > 0 {
				wait = time.Duration(o.a(2))
			}
			ctx, cancel := context.WithTimeout(bg, wait)
			st, body, err := s.net.raw(ctx, host, "POST", "/v1/locks", lkBody(sets[o.a(0)], o.a(1)))
			cancel()
			if err == nil && st == 200 {
				h := lkParseGrant(body)
				cur[o.C] = &h
			}
		case "hb":
			if hold != nil {
				st, _, err := s.net.raw(bg, host, "POST", "/v1/locks/"+hold.id+"/heartbeat", lkClaim(hold.sess))
				if err == nil && st != 200 {
					cur[o.C] = nil
				}
			}
		case "rel", "rel2":
			if hold != nil {
				_, _, _ = s.net.raw(bg, host, "DELETE", "/v1/locks/"+hold.id, lkClaim(hold.sess))
				if o.K == "rel2" {
					_, _, _ = s.net.raw(bg, host, "DELETE", "/v1/locks/"+hold.id, lkClaim(hold.sess))
				}
				cur[o.C] = nil
			}
		case "drop":
			cur[o.C] = nil
		case "g0hb", "g0rel":
			if len(led.grants) == 0 || led.grants[0].void {
				return
			}
			g := led.grants[0]
			if o.K == "g0hb" {
				_, _, _ = s.net.raw(bg, host, "POST", "/v1/locks/"+g.lockID+"/heartbeat", lkClaim(g.sess))
			} else {
				_, _, _ = s.net.raw(bg, host, "DELETE", "/v1/locks/"+g.lockID, lkClaim(g.sess))
			}
		case "stalehb", "stalerel", "wronghb", "wrongrel":
			if len(led.grants) == 0 {
				return
			}
			g := led.grants[int(o.a(0))%len(led.grants)]
			if o.a(0) >= 4 {
				g = led.grants[len(led.grants)-1]
			}
			if g.void {
				return
			}
			sess := g.sess
			if strings.HasPrefix(o.K, "wrong") {
				sess = "11111111-2222-3333-4444-555555555555"
			} else {
				// only sessions that are over or about to be
				for _, h := range cur {
					if h != nil && h.sess == sess {
						return
					}
				}
			}
			s.fault("misuse", true)
			if strings.HasSuffix(o.K, "hb") {
				_, _, _ = s.net.raw(bg, host, "POST", "/v1/locks/"+g.lockID+"/heartbeat", lkClaim(sess))
			} else {
				_, _, _ = s.net.raw(bg, host, "DELETE", "/v1/locks/"+g.lockID, lkClaim(sess))
			}
		case "query":
			st, body, err := s.net.raw(bg, host, "GET", "/v1/locks", o.s(0))
			if err == nil && st != 200 {
				s.violate("L03,A01", "listing-status", "a listing was answered with %d %s", st, body)
			}
		}
	})
}

// ---- the client library ----

type lkLib1 struct {
	client    int
	key       int
	lock      lockerclient.Lock
	T         int64
	sess, id  string
	gotAt     int64
	doneAt    int64
	isDone    bool
	relAt     int64
	relRetAt  int64
	relRet    bool
	grantCall *Call
}

const lkLibSlack = int64(100 * time.Millisecond)

func lkLib(led *lkLedger, sets []datatypes.KeyValues, down chan struct{}) {
	s := S
	nc := int(s.param("clients", func(r *Rand) int64 { return 1 + r.I64(4) }))
	ops := s.ops(func(r *Rand) []Op {
		var l []Op
		for c := 0; c < nc; c++ {
			n := 1 + r.Intn(3)
			for i := 0; i < n; i++ {
				T := pick(r, int64(600*time.Millisecond), int64(1500*time.Millisecond), int64(3*time.Second))
				cancel := int64(0)
				if r.P(20) {
					cancel = pick(r, r.Dur(0, 5*time.Millisecond), r.Dur(0, 2*time.Second))
				}
				l = append(l, Op{C: c, K: "obtain", D: pick(r, 0, r.Dur(0, 500*time.Millisecond)), A: []int64{r.I64(int64(len(sets))), T, cancel}})
				hold := pick(r, r.Dur(0, 2*time.Millisecond), r.I64(T), r.I64(3*T), r.I64(3*T))
				l = append(l, Op{C: c, K: pick(r, "release", "release", "release", "leak"), D: hold})
			}
		}
		return l
	})
	// partitions and thefts
	np := int(s.param("partitions", func(r *Rand) int64 { return pick(r, int64(0), 1, 2) }))
	for i := 0; i < np; i++ {
		c := s.param(fmt.Sprintf("part%d.c", i), func(r *Rand) int64 { return r.I64(int64(nc)) })
		from := s.param(fmt.Sprintf("part%d.from", i), func(r *Rand) int64 { return r.Dur(0, 5*time.Second) })
		dur := s.param(fmt.Sprintf("part%d.dur", i), func(r *Rand) int64 { return r.Dur(50*time.Millisecond, 4*time.Second) })
		s.net.parts = append(s.net.parts, partition{prefix: fmt.Sprintf("locker.c%d", c), from: from, to: from + dur})
	}
	// requests that hang: the answer comes late
	hang := s.param("hang", func(r *Rand) int64 { return pick(r, int64(0), 0, 10, 30) })
	if hang > 0 {
		old := s.net.rates
		s.net.rates = func(host string) *Rates {
			rt := old(host)
			rt.Slow, rt.MaxSlow = int(hang), 6*time.Second
			return rt
		}
	}
	// somebody releases a session it does not own through the API (documented for lost clients)
	steal := s.param("steal", func(r *Rand) int64 {
		if r.P(70) {
			return 0
		}
		return r.Dur(time.Millisecond, 4*time.Second)
	})
	var locks []*lkLib1
	if steal > 0 {
		time.AfterFunc(time.Duration(steal), func() {
			for _, h := range locks {
				if !h.isDone && h.relAt < 0 && h.id != "" {
					s.fault("stolen", true)
					_, _, _ = s.net.raw(context.Background(), "locker.admin", "DELETE", "/v1/locks/"+h.id, lkClaim(h.sess))
					return
				}
			}
		})
	}
	libs := map[int]*lockerclient.LockClient{}
	cur := map[int]*lkLib1{}
	lastPost := map[string]*Call{}
	s.net.onDone = func(c *Call) {
		if c.Method == "POST" && c.Path == "/v1/locks" && c.Delivered && c.Status == 200 {
			lastPost[c.Host] = c
		}
	}
	bg := context.Background()
	s.runClients(ops, func(o *Op) {
		host := fmt.Sprintf("locker.c%d", o.C)
		s.net.op(host, o.ID)
		lib := libs[o.C]
		if lib == nil {
			var err error
			lib, err = lockerclient.NewLockClient(&clients.Config{URL: "http://" + host})
			must(err)
			libs[o.C] = lib
		}
		switch o.K {
		case "obtain":
			cur[o.C] = nil
			wait := 30 * time.Second
			if o.a(2) > 0 {
				wait = time.Duration(o.a(2))
			}
			for _, h := range locks {
				if h.client == o.C && h.key == int(o.a(0)) && !h.isDone {
					return // the library would hand out the same lock again
				}
			}
			ctx, cancel := context.WithTimeout(bg, wait)
			d := time.Duration(o.a(1))
			delete(lastPost, host)
			lk, err := lib.ObtainLock(ctx, &v1locker.Lock{Spec: &v1locker.LockSpec{DBDefinition: &v1locker.LockDBDefinition{KeyValues: datatypes.TypedKeyValues(sets[o.a(0)])},
				Properties: &v1locker.LockProperties{Timeout: &d}}}, nil)
			late := ctx.Err() != nil
			cancel()
			gc := lastPost[host]
			s.outcome(fmt.Sprintf("obtain.%v.%v", lk != nil, err != nil))
			if lk == nil {
				if gc != nil {
					s.violate("L04", "grant-dropped", "ObtainLock of %s returned no lock (%v) although the locker's grant was delivered: %s", host, err, gc)
				}
				if err == nil && !late {
					s.violate("L04", "no-lock-no-error", "ObtainLock of %s returned neither a lock nor an error", host)
				}
				return
			}
			if gc == nil {
				s.violate("L04", "lock-without-grant", "ObtainLock of %s returned a lock that the locker did not grant", host)
				return
			}
			g := lkParseGrant(gc.Resp)
			h := &lkLib1{client: o.C, key: int(o.a(0)), lock: lk, T: o.a(1), sess: g.sess, id: g.id, gotAt: s.now(), relAt: -1, grantCall: gc}
			locks = append(locks, h)
			cur[o.C] = h
			go func() {
				<-lk.Done()
				h.isDone, h.doneAt = true, s.now()
				s.ev("lock of %s (%s) done", host, h.sess)
			}()
		case "release":
			if h := cur[o.C]; h != nil {
				h.relAt = s.now()
				err := h.lock.Release(bg)
				h.relRet, h.relRetAt = true, s.now()
				s.outcome(fmt.Sprintf("release.%v", err != nil))
				select {
				case <-h.lock.Done():
				default:
					s.violate("L04", "released-not-done", "the lock of %s was released (%v) but is not done", host, err)
				}
				cur[o.C] = nil
			}
		case "leak":
			// the program forgets the lock; the library keeps renewing it
			cur[o.C] = nil
		}
	})
	<-down
	s.heal = true
	time.Sleep(8 * time.Second)
	for i, h := range locks {
		host := fmt.Sprintf("locker.c%d", h.client)
		last := h.grantCall.DoneAt
		type ans struct {
			at int64
			st int
		}
		var answers []ans
		for _, c := range s.net.calls {
			if !c.Handled || c.Host != host || c.Path != "/v1/locks/"+h.id+"/heartbeat" {
				continue
			}
			if tag, ok := c.Tag.([2]string); ok && tag[1] != h.sess {
				continue
			}
			if !ok2(c, h.sess) {
				continue
			}
			if c.Delivered {
				answers = append(answers, ans{c.DoneAt, c.Status})
			}
			if h.isDone && c.SentAt > h.doneAt+lkLibSlack {
				s.violate("L04", "renewed-after-done", "lock %d of %s was done at %dus, a heartbeat was sent at %dus", i, host, h.doneAt/1000, c.SentAt/1000)
			}
			if h.relAt >= 0 && c.SentAt > h.relAt+lkLibSlack {
				s.violate("L04", "renewed-after-release", "the release of lock %d of %s was called at %dus, a heartbeat was sent at %dus", i, host, h.relAt/1000, c.SentAt/1000)
			}
		}
		sort.Slice(answers, func(a, b int) bool { return answers[a].at < answers[b].at })
		end := s.now()
		if h.isDone {
			end = h.doneAt
		}
		lost := int64(-1)
		for _, a := range answers {
			if a.at > end {
				break
			}
			if a.st == 200 {
				last = a.at
			} else if (a.st == 404 || a.st == 409 || a.st == 400) && lost < 0 {
				lost = a.at
			}
		}
		s.count("checks")
		k := "held"
		switch {
		case h.relAt >= 0 && (!h.isDone || h.doneAt >= h.relAt):
			k = "released"
			if end > maxI(h.relAt, 0)+lkLibSlack && h.isDone {
				s.violate("L04", "late-done", "the release of lock %d of %s was called at %dus, it was done at %dus", i, host, h.relAt/1000, h.doneAt/1000)
			}
		case lost >= 0:
			k = "refused"
			if !h.isDone || end > lost+lkLibSlack {
				s.violate("L04", "late-lost", "the locker answered at %dus that the session of lock %d of %s is unknown, the lock was reported lost at %dus (%v)", lost/1000, i, host, end/1000, h.isDone)
			}
		case h.isDone:
			k = "expired"
			if end < last+h.T-int64(time.Millisecond) {
				s.violate("L04", "lost-early", "lock %d of %s (timeout %dus) was last renewed at %dus and reported lost at %dus", i, host, h.T/1000, last/1000, end/1000)
			}
		}
		s.outcome("lib." + k)
		if end > last+h.T+lkLibSlack && k != "released" {
			s.violate("L04", "late-loss", "lock %d of %s (timeout %dus) was last renewed at %dus, at %dus it is still reported as held (done=%v)", i, host, h.T/1000, last/1000, end/1000, h.isDone)
		}
		if k == "released" && maxI(h.relAt, 0) > last+h.T+lkLibSlack {
			s.violate("L04", "late-loss", "lock %d of %s (timeout %dus) was last renewed at %dus, at %dus it was still reported as held", i, host, h.T/1000, last/1000, h.relAt/1000)
		}
	}
	// let go of everything
	for _, h := range locks {
		if !h.isDone {
			_ = h.lock.Release(bg)
		}
	}
}

func ok2(c *Call, sess string) bool {
	cl := &v1locker.LockClaim{}
	return json.Unmarshal(c.Req, cl) == nil && cl.SessionID == sess
}
