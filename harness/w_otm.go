package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"runtime"
	"time"

	btreeonetomany "github.com/DanLavine/willow/internal/datastructures/btree_one_to_many"
	queryassociatedaction "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
	querymatchaction "github.com/DanLavine/willow/pkg/models/api/common/v1/query_match_action"
	"github.com/DanLavine/willow/pkg/models/datatypes"
)

// The world of the one-to-many tree (T03).

func init() {
	worlds["otm"] = &world{run: runOtm, limit: func() time.Duration { return 20 * time.Second }, stuck: "T03", tick: []int64{50, 200}}
}

func runOtm() {
	s := S
	ngroups := int(s.param("groups", func(r *Rand) int64 { return pick(r, int64(1), 2, 2, 3) }))
	nsets := int(s.param("sets", func(r *Rand) int64 { return pick(r, int64(1), 2, 3, 4) }))
	anyOK := s.param("any", func(r *Rand) int64 { return r.I64(2) }) == 1
	pre := int(s.param("pre", func(r *Rand) int64 { return r.I64(int64(nsets*ngroups) + 1) }))
	sets := genKVSets(newRand(s.plan.Seed, "sets"), nsets, anyOK)
	nsets = len(sets)
	ops := s.ops(func(r *Rand) []Op {
		var l []Op
		nc := 2 + r.Intn(4)
		n := 2 + r.Intn(6)
		kinds := []string{"cof", "cof", "cofdecline", "delete", "delete", "delrefuse", "destroy", "destroy", "destroyrefuse", "query", "query", "all", "match", "match", "one", "one", "onerefuse", "stop"}
		for i := 0; i < 8; i++ {
			if r.P(60) {
				j := r.Intn(len(kinds))
				kinds = append(kinds[:j], kinds[j+1:]...)
			}
		}
		kinds = append(kinds, "cof", "one", "all")
		for c := 0; c < nc; c++ {
			for i := 0; i < n; i++ {
				o := Op{C: c, K: kinds[r.Intn(len(kinds))], A: []int64{r.I64(int64(nsets)), r.I64(4), r.I64(4), r.I64(4), r.I64(40), r.I64(int64(ngroups))}}
				switch o.K {
				case "query", "stop":
					o.S = []string{mustJSON(genQuery(r, 1, 8))}
				case "match":
					o.S = []string{mustJSON(genMatch(r, sets))}
				}
				if r.P(40) {
					o.D = r.Dur(0, 40*time.Microsecond)
				}
				l = append(l, o)
			}
		}
		return l
	})
	tree := btreeonetomany.NewThreadSafe()
	gname := func(g int) string { return fmt.Sprintf("group%d", g) }
	gidx := map[string]int{}
	for g := 0; g < ngroups; g++ {
		gidx[gname(g)] = g
	}
	index := map[string]int{}
	for i, kv := range sets {
		index[kvStr(kv)] = i
	}
	slot := func(g, k int) int { return g*nsets + k }
	hist := make([][]LinOp, nsets*ngroups)
	add := func(g, k int, call, ret uint64, in mapIn, out mapOut, desc string) {
		hist[slot(g, k)] = append(hist[slot(g, k)], LinOp{Call: call, Ret: ret, In: in, Out: out, Desc: desc})
	}
	bad := func(sig, f string, args ...any) { s.violate("T03", sig, f, args...) }
	known := make([][]string, ngroups)
	idOf := map[int]string{}
	setOf := map[string]int{} // group/id -> set
	createRet := map[int]uint64{}
	type span struct {
		g, set   int // set -1: the whole group
		from, to uint64
		removed  map[int]bool
		ok       bool
	}
	var destroys []*span
	type late struct {
		g, set   int
		from, to uint64
		what     string
		one      bool
	}
	var refusals []late
	type sweep struct {
		g        int
		from, to uint64
		got      map[int]bool
		match    func(set int) bool
		desc     string
	}
	var sweeps []sweep
	type seenE struct {
		id  string
		val int
	}
	var seenEntries []seenE
	valSet := map[int]int{}
	created := func(id string, g, set, val int, ret uint64, d string) {
		if id == "" {
			bad("empty-id", "%s returned an empty id", d)
			return
		}
		key := gname(g) + "/" + id
		if _, dup := setOf[key]; dup {
			bad("same-id", "%s returned id %s which an earlier create returned", d, id)
		}
		known[g] = append(known[g], id)
		idOf[val], setOf[key], createRet[val], valSet[val] = id, set, ret, set
	}
	entry := func(it btreeonetomany.OneToManyItem, g int, d string) (int, int) {
		v, _ := it.Value().(int)
		i, ok := index[kvStr(it.ManyKeyValues())]
		if !ok || v == 0 {
			bad("entry", "%s was shown an entry nobody stored: %s = %v", d, kvStr(it.ManyKeyValues()), it.Value())
			return -1, 0
		}
		if it.OneID() != gname(g) {
			bad("other-group", "%s on %s was shown an entry of %s", d, gname(g), it.OneID())
			return -1, 0
		}
		if it.ManyID() == "" {
			bad("no-id", "%s was shown an entry without an id", d)
		}
		seenEntries = append(seenEntries, seenE{it.ManyID(), v})
		return i, v
	}
	cb := func(o *Op) {
		switch o.a(3) {
		case 1:
			runtime.Gosched()
		case 2:
			time.Sleep(time.Duration(o.a(4)) * time.Microsecond)
		}
	}
	refused := func(err error, g, set int, call uint64, ran int, d string) bool {
		one := errors.Is(err, btreeonetomany.ErrorOneIDDestroying)
		if one || errors.Is(err, btreeonetomany.ErrorManyIDDestroying) || errors.Is(err, btreeonetomany.ErrorManyKeyValuesDestroying) {
			if ran > 0 {
				bad("refused-after-callback", "%s ran its callback %d times and was refused with %v", d, ran, err)
			}
			refusals = append(refusals, late{g, set, call, s.seq(), d + ": " + err.Error(), one})
			s.outcome("refused")
			return true
		}
		return false
	}
	for i := 0; i < pre; i++ {
		c := s.seq()
		v := 100000 + i
		g, k := i%ngroups, i/ngroups
		if k >= nsets {
			break
		}
		id, err := tree.CreateOrFind(gname(g), sets[k], func() any { return v }, func(btreeonetomany.OneToManyItem) { panic("harness") })
		must(err)
		created(id, g, k, v, s.seq(), "pre")
		add(g, k, c, s.seq(), mapIn{"create", v}, mapOut{ok: true}, fmt.Sprintf("create %d", v))
	}
	doRead := func(o *Op, g int, what string, run func(f btreeonetomany.OneToManyTreeIterate) error, matches func(id string, kv datatypes.KeyValues) bool, stop int) map[int]int {
		d := fmt.Sprintf("c%d#%d %s: %s", o.C, o.ID, gname(g), what)
		got := map[int]int{}
		vals := map[int]bool{}
		type rd struct{ k, v int }
		var reads []rd
		stopped := false
		call := s.seq()
		err := run(func(it btreeonetomany.OneToManyItem) bool {
			i, v := entry(it, g, d)
			if i < 0 {
				return true
			}
			if stopped {
				bad("goes-on", "%s went on after it was told to stop", d)
			}
			if vals[v] {
				bad("twice", "%s reported %s twice", d, kvStr(sets[i]))
			}
			vals[v] = true
			if !matches(it.ManyID(), sets[i]) {
				bad("does-not-match", "%s reported %s which does not match", d, kvStr(sets[i]))
			}
			got[i] = v
			reads = append(reads, rd{i, v})
			cb(o)
			if stop >= 0 && len(vals) > stop {
				stopped = true
				return false
			}
			return true
		})
		ret := s.seq()
		if err != nil {
			if !refused(err, g, -1, call, len(got), d) {
				bad("read-error", "%s returned %v", d, err)
			}
			return got
		}
		s.outcome("read")
		for _, r := range reads {
			add(g, r.k, call, ret, mapIn{"read", 0}, mapOut{found: r.v}, fmt.Sprintf("%s saw %d", d, r.v))
		}
		if !stopped {
			for i := range sets {
				if got[i] == 0 && matches("?", sets[i]) {
					add(g, i, call, ret, mapIn{"absent", 0}, mapOut{}, d+" saw nothing")
				}
			}
			sweeps = append(sweeps, sweep{g, call, ret, vals, func(k int) bool { return matches("?", sets[k]) }, d})
		}
		return got
	}
	parseQ := func(js string, g int) *queryassociatedaction.AssociatedActionQuery {
		q := &queryassociatedaction.AssociatedActionQuery{}
		must(json.Unmarshal([]byte(js), q))
		mapIDs(q, func(x string) string {
			n := 0
			fmt.Sscanf(x, "#%d", &n)
			if n < len(known[g]) {
				return known[g][n]
			}
			return "no such id"
		})
		return q
	}
	query := func(o *Op, g int, q *queryassociatedaction.AssociatedActionQuery, stop int) map[int]int {
		return doRead(o, g, "query "+mustJSON(q), func(f btreeonetomany.OneToManyTreeIterate) error { return tree.QueryAction(gname(g), q, f) },
			func(id string, kv datatypes.KeyValues) bool { return queryMatches(q, id, kv) }, stop)
	}
	match := func(o *Op, g int, m *querymatchaction.MatchActionQuery) map[int]int {
		return doRead(o, g, "match "+mustJSON(m), func(f btreeonetomany.OneToManyTreeIterate) error { return tree.MatchAction(gname(g), m, f) },
			func(id string, kv datatypes.KeyValues) bool { return matchMatches(m, kv) }, -1)
	}
	do := func(o *Op) {
		k, g := int(o.a(0)), int(o.a(5))
		if k >= nsets || g >= ngroups {
			return
		}
		kv := datatypes.KeyValues{}
		for n, v := range sets[k] {
			kv[n] = v
		}
		val := o.ID
		call := s.seq()
		d := func(x string) string { return fmt.Sprintf("c%d#%d %s: %s(%s)", o.C, o.ID, gname(g), x, kvStr(kv)) }
		switch o.K {
		case "cof", "cofdecline":
			ran, found, fv := 0, 0, 0
			id, err := tree.CreateOrFind(gname(g), kv, func() any {
				ran++
				cb(o)
				if o.K == "cofdecline" {
					return nil
				}
				return val
			}, func(it btreeonetomany.OneToManyItem) {
				found++
				i, v := entry(it, g, d("createOrFind"))
				if i != k {
					bad("cof-other", "%s found the entry of %s", d("createOrFind"), kvStr(it.ManyKeyValues()))
				}
				fv = v
				cb(o)
			})
			ret := s.seq()
			switch {
			case err == nil && ran == 1 && found == 0 && o.K == "cofdecline":
				add(g, k, call, ret, mapIn{"declined", 0}, mapOut{}, d("createOrFind declined"))
			case err == nil && ran == 1 && found == 0:
				created(id, g, k, val, ret, d("createOrFind"))
				add(g, k, call, ret, mapIn{"cof", val}, mapOut{ok: true}, d("createOrFind created"))
				s.outcome("created")
			case err == nil && ran == 0 && found == 1:
				add(g, k, call, ret, mapIn{"cof", val}, mapOut{found: fv}, d(fmt.Sprintf("createOrFind found %d", fv)))
				s.outcome("found")
			case refused(err, g, k, call, ran+found, d("createOrFind")):
			default:
				bad("cof-outcome", "%s returned %v after %d onCreate and %d onFind runs", d("createOrFind"), err, ran, found)
			}
		case "delete", "delrefuse", "destroy", "destroyrefuse":
			ran, fv := 0, 0
			id := ""
			if o.K[:3] == "des" {
				if len(known[g]) == 0 {
					return
				}
				n := len(known[g]) - 1 - int(o.a(1))
				if n < 0 {
					n = 0
				}
				id = known[g][n]
				k = setOf[gname(g)+"/"+id]
			}
			refuse := o.K == "delrefuse" || o.K == "destroyrefuse"
			what := o.K + " " + id
			can := func(it btreeonetomany.OneToManyItem) bool {
				ran++
				i, v := entry(it, g, d(what))
				if i != k || id != "" && it.ManyID() != "" && it.ManyID() != id {
					bad("delete-other", "%s (%s) was asked about the entry %s of %s", d(what), id, it.ManyID(), kvStr(it.ManyKeyValues()))
				}
				fv = v
				cb(o)
				return !refuse
			}
			var err error
			if id == "" {
				err = tree.DeleteOneOfManyByKeyValues(gname(g), kv, can)
			} else {
				sp := &span{g: g, set: k, from: call}
				destroys = append(destroys, sp)
				err = tree.DestroyOneOfManyByID(gname(g), id, can)
				sp.to = s.seq()
			}
			ret := s.seq()
			switch {
			case err == nil && ran == 1 && refuse:
				add(g, k, call, ret, mapIn{"read", 0}, mapOut{found: fv}, d(fmt.Sprintf("%s declined, saw %d", what, fv)))
			case err == nil && ran == 1:
				add(g, k, call, ret, mapIn{"delete", 0}, mapOut{ok: true, found: fv}, d(fmt.Sprintf("%s removed %d", what, fv)))
				s.outcome("removed")
			case err == nil && ran == 0:
				if id == "" {
					add(g, k, call, ret, mapIn{"absent", 0}, mapOut{}, d(what+" nothing"))
				} else {
					vv := 0
					for v, i := range idOf {
						if i == id {
							vv = v
						}
					}
					add(g, k, call, ret, mapIn{"not", vv}, mapOut{}, d(what+" nothing"))
				}
				s.outcome("nothing")
			case refused(err, g, k, call, ran, d(what)):
			default:
				bad("delete-outcome", "%s returned %v after %d callback runs", d(what), err, ran)
			}
		case "one", "onerefuse":
			got := map[int]int{}
			left := 1 << 30
			if o.K == "onerefuse" {
				left = int(o.a(2))
			}
			refusedSet := -1
			sp := &span{g: g, set: -1, from: call, removed: map[int]bool{}}
			destroys = append(destroys, sp)
			err := tree.DestroyOne(gname(g), func(it btreeonetomany.OneToManyItem) bool {
				i, v := entry(it, g, d("destroyOne"))
				if i < 0 || got[i] != 0 {
					bad("one-twice", "%s was asked about %s twice", d("destroyOne"), kvStr(it.ManyKeyValues()))
					return true
				}
				got[i] = v
				sp.removed[v] = true
				cb(o)
				if left == 0 {
					refusedSet = i
					return false
				}
				left--
				return true
			})
			ret := s.seq()
			sp.to = ret
			if err != nil {
				if !refused(err, g, -1, call, len(got), d("destroyOne")) {
					bad("one-outcome", "%s returned %v", d("destroyOne"), err)
				}
				return
			}
			sp.ok = refusedSet < 0
			s.outcome("destroyedone")
			for i := range sets {
				if i == refusedSet {
					add(g, i, call, ret, mapIn{"read", 0}, mapOut{found: got[i]}, d(fmt.Sprintf("destroyOne refused for %d", got[i])))
				} else if got[i] != 0 {
					add(g, i, call, ret, mapIn{"delete", 0}, mapOut{ok: true, found: got[i]}, d(fmt.Sprintf("destroyOne removed %d", got[i])))
				} else if refusedSet < 0 {
					add(g, i, call, ret, mapIn{"read", 0}, mapOut{}, d("destroyOne found nothing"))
				}
			}
		case "query":
			query(o, g, parseQ(o.s(0), g), -1)
		case "stop":
			query(o, g, parseQ(o.s(0), g), int(o.a(1)))
		case "all":
			query(o, g, &queryassociatedaction.AssociatedActionQuery{}, -1)
		case "match":
			m := &querymatchaction.MatchActionQuery{}
			must(json.Unmarshal([]byte(o.s(0)), m))
			match(o, g, m)
		}
	}
	s.runClients(ops, do)
	runtime.SimQuiet()

	for _, r := range refusals {
		ok := false
		for _, d := range destroys {
			if d.g == r.g && d.from < r.to && d.to > r.from && (d.set == -1 || !r.one && (r.set == -1 || d.set == r.set)) {
				ok = true
			}
		}
		if !ok {
			bad("refused-for-nothing", "%s although nothing of it was being destroyed", r.what)
		}
	}
	for _, q := range sweeps {
		for _, d := range destroys {
			if d.set != -1 || !d.ok || d.g != q.g || d.to < q.from || d.from > q.to {
				continue
			}
			s.count("sweeps")
			some := false
			for v := range d.removed {
				some = some || q.got[v]
			}
			for v := range d.removed {
				hidden := false // by an attempt to remove just this entry
				for _, e := range destroys {
					hidden = hidden || e.g == q.g && e.set == valSet[v] && e.from < q.to && e.to > q.from
				}
				if some && !hidden && !q.got[v] && q.match(valSet[v]) && createRet[v] != 0 && createRet[v] < q.from {
					bad("half-removed", "%s saw a part of the entries which one removal of the group removed: not %d", q.desc, v)
				}
			}
		}
	}
	fo := &Op{C: -1}
	final := map[int]int{}
	for g := 0; g < ngroups; g++ {
		cur := query(fo, g, &queryassociatedaction.AssociatedActionQuery{}, -1)
		for k, kv := range sets {
			final[slot(g, k)] = cur[k]
			if got := query(fo, g, queryassociatedaction.KeyValuesToExactAssociatedActionQuery(kv), -1); got[k] != cur[k] {
				bad("final-exact", "at the end listing %s shows %d for %s but looking it up shows %d", gname(g), cur[k], kvStr(kv), got[k])
			}
			if cur[k] != 0 {
				if got := query(fo, g, queryassociatedaction.StringToAssociatedActionQuery(idOf[cur[k]]), -1); got[k] != cur[k] || len(got) != 1 {
					bad("final-id", "at the end looking up id %s in %s shows %v, %d is stored for %s", idOf[cur[k]], gname(g), got, cur[k], kvStr(kv))
				}
			}
		}
	}
	for _, e := range seenEntries {
		if id, ok := idOf[e.val]; ok && e.id != "" && id != e.id {
			bad("entry-id", "entry %d was created with id %s and shown with id %s", e.val, id, e.id)
		}
	}
	for h := range hist {
		g, k := h/nsets, h%nsets
		var l []LinOp
		for _, op := range hist[h] {
			in := op.In.(mapIn)
			if in.kind == "absent" || in.kind == "not" {
				ov := false
				for _, d := range destroys {
					ov = ov || d.g == g && d.set == k && d.from < op.Ret && d.to > op.Call
				}
				if ov {
					continue
				}
				if in.kind == "absent" {
					op.In = mapIn{"read", 0}
				}
			}
			l = append(l, op)
		}
		ok, decided, best := linearizable(oneKeyMap, l, 200000)
		if !decided {
			s.count("undecided")
			continue
		}
		s.count("checks")
		if !ok {
			bad("not-linearizable", "the history of %s in %s is not that of one entry: %s", kvStr(sets[k]), gname(g), describe(l, best))
		}
	}
	// removing one group leaves the others; it starts empty again
	for g := 0; g < ngroups; g++ {
		n := 0
		if err := tree.DestroyOne(gname(g), func(btreeonetomany.OneToManyItem) bool { n++; return true }); err != nil {
			bad("final-destroy", "removing %s at the end: %v", gname(g), err)
		}
		want := 0
		for k := range sets {
			if final[slot(g, k)] != 0 {
				want++
			}
		}
		if n != want {
			bad("final-destroy", "removing %s at the end removed %d entries, %d were stored", gname(g), n, want)
		}
		for g2 := g + 1; g2 < ngroups; g2++ {
			cur := query(fo, g2, &queryassociatedaction.AssociatedActionQuery{}, -1)
			for k := range sets {
				if cur[k] != final[slot(g2, k)] {
					bad("final-isolation", "removing %s changed %s", gname(g), gname(g2))
				}
			}
		}
	}
	for g := 0; g < ngroups; g++ {
		for k, kv := range sets {
			ran := 0
			if _, err := tree.CreateOrFind(gname(g), kv, func() any { ran++; return 7 }, func(btreeonetomany.OneToManyItem) {}); err != nil || ran != 1 {
				bad("final-recreate", "creating %s in %s again: %v, created %d", kvStr(kv), gname(g), err, ran)
			}
			_ = k
		}
	}
	s.state(fmt.Sprint(nsets, ngroups, len(final)))
}
