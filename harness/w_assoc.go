package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"time"

	btreeassociated "github.com/DanLavine/willow/internal/datastructures/btree_associated"
	v1common "github.com/DanLavine/willow/pkg/models/api/common/v1"
	queryassociatedaction "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
	querymatchaction "github.com/DanLavine/willow/pkg/models/api/common/v1/query_match_action"
	"github.com/DanLavine/willow/pkg/models/datatypes"
)

// The world of the association tree (T02).

func init() {
	worlds["assoc"] = &world{run: runAssoc, limit: func() time.Duration { return 20 * time.Second }, stuck: "T02", tick: []int64{50, 200}}
}

var kvNames = []string{"a", "b", "c"}

// kvPal are the three values of a run: two of one type and one of another.
var kvPal = []datatypes.EncapsulatedValue{datatypes.Int(1), datatypes.Int(2), datatypes.String("x")}

func kvVal(i int) datatypes.EncapsulatedValue {
	if i < len(kvPal) {
		return kvPal[i]
	}
	return datatypes.Any()
}

// typedPair gives two values of the t-th data type, the smaller first, at its
// ends or around the place where an encoding could lose a digit.
func typedPair(t int, r *Rand) (a, b datatypes.EncapsulatedValue) {
	f := func(l ...datatypes.EncapsulatedValue) (datatypes.EncapsulatedValue, datatypes.EncapsulatedValue) {
		i := r.Intn(len(l) - 1)
		return l[i], l[i+1+r.Intn(len(l)-1-i)]
	}
	switch t {
	case 0:
		return f(datatypes.Uint8(0), datatypes.Uint8(9), datatypes.Uint8(10), datatypes.Uint8(255))
	case 1:
		return f(datatypes.Uint16(0), datatypes.Uint16(9), datatypes.Uint16(10), datatypes.Uint16(65535))
	case 2:
		return f(datatypes.Uint32(0), datatypes.Uint32(9), datatypes.Uint32(10), datatypes.Uint32(1<<32-1))
	case 3:
		return f(datatypes.Uint64(0), datatypes.Uint64(9), datatypes.Uint64(1<<53), datatypes.Uint64(1<<53+1), datatypes.Uint64(1<<64-1))
	case 4:
		return f(datatypes.Uint(0), datatypes.Uint(9), datatypes.Uint(1<<53), datatypes.Uint(1<<53+1), datatypes.Uint(1<<64-1))
	case 5:
		return f(datatypes.Int8(-128), datatypes.Int8(-1), datatypes.Int8(0), datatypes.Int8(10), datatypes.Int8(127))
	case 6:
		return f(datatypes.Int16(-32768), datatypes.Int16(-9), datatypes.Int16(0), datatypes.Int16(10), datatypes.Int16(32767))
	case 7:
		return f(datatypes.Int32(-1<<31), datatypes.Int32(-9), datatypes.Int32(0), datatypes.Int32(10), datatypes.Int32(1<<31-1))
	case 8:
		return f(datatypes.Int64(-1<<63), datatypes.Int64(-9), datatypes.Int64(1<<53), datatypes.Int64(1<<53+1), datatypes.Int64(1<<63-1))
	case 9:
		return f(datatypes.Int(-1<<63), datatypes.Int(-9), datatypes.Int(1<<53), datatypes.Int(1<<53+1), datatypes.Int(1<<63-1))
	case 10:
		return f(datatypes.Float32(-1.5), datatypes.Float32(0), datatypes.Float32(0.1), datatypes.Float32(9), datatypes.Float32(10), datatypes.Float32(3e38))
	case 11:
		return f(datatypes.Float64(-1.5), datatypes.Float64(0), datatypes.Float64(0.1), datatypes.Float64(0.1+1e-16), datatypes.Float64(10), datatypes.Float64(1e308))
	default:
		return f(datatypes.String(""), datatypes.String(" "), datatypes.String("1"), datatypes.String("A"), datatypes.String("a"), datatypes.String("a\"<&>\n"), datatypes.String("aa"), datatypes.String("é"), datatypes.String("世界"))
	}
}

// setTypes chooses the values of the run; in most runs they are the usual ones.
func setTypes() {
	n := S.param("types", func(r *Rand) int64 {
		if r.P(65) {
			return 0
		}
		return 1 + r.I64(1<<30)
	})
	if n == 0 {
		kvPal = []datatypes.EncapsulatedValue{datatypes.Int(1), datatypes.Int(2), datatypes.String("x")}
		return
	}
	r := newRand(uint64(n), "types")
	t := r.Intn(13)
	a, b := typedPair(t, r)
	if r.P(50) {
		a, b = b, a
	}
	c, _ := typedPair((t+1+r.Intn(12))%13, r)
	kvPal = []datatypes.EncapsulatedValue{a, b, c}
}

func kvStr(kv datatypes.KeyValues) string {
	var l []string
	for k, v := range kv {
		l = append(l, k+"="+keyStr(v))
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

// genKVSets draws n different sets of key-values that share keys and values.
func genKVSets(r *Rand, n int, anyOK bool) []datatypes.KeyValues {
	setTypes()
	var l []datatypes.KeyValues
	seen := map[string]bool{}
	for tries := 0; len(l) < n && tries < 200; tries++ {
		kv := datatypes.KeyValues{}
		nk := pick(r, 1, 1, 2, 2, 3)
		for len(kv) < nk {
			m := 3
			if anyOK {
				m = 4
			}
			v := pick(r, 0, 0, 1, r.Intn(m))
			kv[kvNames[r.Intn(3)]] = kvVal(v)
		}
		if s := kvStr(kv); !seen[s] {
			seen[s] = true
			l = append(l, kv)
		}
	}
	return l
}

// genTR draws type restrictions.
func genTR(r *Rand) v1common.TypeRestrictions {
	switch r.Intn(5) {
	case 0, 1:
		return allTypes
	case 2:
		return v1common.TypeRestrictions{MinDataType: datatypes.MinDataType, MaxDataType: datatypes.MaxWithoutAnyDataType}
	case 3:
		return v1common.TypeRestrictions{MinDataType: kvPal[0].Type, MaxDataType: kvPal[0].Type}
	default:
		return v1common.TypeRestrictions{MinDataType: kvPal[0].Type, MaxDataType: datatypes.T_any}
	}
}

func genSelection(r *Rand, ids int) *queryassociatedaction.Selection {
	sel := &queryassociatedaction.Selection{}
	if r.P(25) && ids > 0 {
		for i := 0; i <= r.Intn(2); i++ {
			sel.IDs = append(sel.IDs, fmt.Sprintf("#%d", r.Intn(ids)))
		}
	}
	ne := false
	for _, k := range kvNames {
		if !r.P(45) {
			continue
		}
		c := pick(r, v1common.Equals, v1common.Equals, v1common.NotEquals, v1common.LessThan, v1common.LessThanOrEqual, v1common.GreaterThan, v1common.GreaterThanOrEqual)
		if c == v1common.NotEquals {
			if ne {
				c = v1common.Equals
			}
			ne = true
		}
		v := kvVal(r.Intn(3))
		if (c == v1common.Equals || c == v1common.NotEquals) && r.P(25) {
			v = datatypes.Any()
		}
		if sel.KeyValues == nil {
			sel.KeyValues = queryassociatedaction.SelectionKeyValues{}
		}
		sel.KeyValues[k] = queryassociatedaction.ValueQuery{Value: v, Comparison: c, TypeRestrictions: genTR(r)}
	}
	if r.P(25) {
		n := 1 + r.Intn(3)
		sel.MinNumberOfKeyValues = &n
	}
	if r.P(25) {
		n := 1 + r.Intn(3)
		if sel.MinNumberOfKeyValues != nil && n < *sel.MinNumberOfKeyValues {
			n = *sel.MinNumberOfKeyValues
		}
		sel.MaxNumberOfKeyValues = &n
	}
	if len(sel.IDs) == 0 && len(sel.KeyValues) == 0 && sel.MinNumberOfKeyValues == nil && sel.MaxNumberOfKeyValues == nil {
		n := 1
		sel.MinNumberOfKeyValues = &n
	}
	return sel
}

func genQuery(r *Rand, depth, ids int) *queryassociatedaction.AssociatedActionQuery {
	q := &queryassociatedaction.AssociatedActionQuery{}
	if depth == 2 && r.P(10) {
		return q // everything
	}
	if r.P(80) {
		q.Selection = genSelection(r, ids)
	}
	if depth > 0 {
		for r.P(25) {
			q.And = append(q.And, genSub(r, depth, ids))
		}
		for r.P(20) {
			q.Or = append(q.Or, genSub(r, depth, ids))
		}
	}
	if q.Selection == nil && q.And == nil && q.Or == nil {
		q.Selection = genSelection(r, ids)
	}
	return q
}

func genSub(r *Rand, depth, ids int) *queryassociatedaction.AssociatedActionQuery {
	q := genQuery(r, depth-1, ids)
	return q
}

// valueMatches is the meaning of one comparison.
func valueMatches(vq queryassociatedaction.ValueQuery, v datatypes.EncapsulatedValue, have bool) bool {
	tr := vq.TypeRestrictions
	in := have && v.Type >= tr.MinDataType && v.Type <= tr.MaxDataType
	eq := in && (v == vq.Value || v.Type == datatypes.T_any || vq.Value.Type == datatypes.T_any)
	switch vq.Comparison {
	case v1common.Equals:
		return eq
	case v1common.NotEquals:
		return !eq
	}
	if !in {
		return false
	}
	return inRange(map[v1common.DataComparison]string{v1common.LessThan: "lt", v1common.LessThanOrEqual: "lte", v1common.GreaterThan: "gt", v1common.GreaterThanOrEqual: "gte"}[vq.Comparison], vq.Value, v, tr)
}

func selMatches(sel *queryassociatedaction.Selection, id string, kv datatypes.KeyValues) bool {
	if len(sel.IDs) > 0 {
		ok := false
		for _, i := range sel.IDs {
			ok = ok || i == id
		}
		if !ok {
			return false
		}
	}
	if sel.MinNumberOfKeyValues != nil && len(kv) < *sel.MinNumberOfKeyValues || sel.MaxNumberOfKeyValues != nil && len(kv) > *sel.MaxNumberOfKeyValues {
		return false
	}
	for k, vq := range sel.KeyValues {
		v, ok := kv[k]
		if !valueMatches(vq, v, ok) {
			return false
		}
	}
	return true
}

// queryMatches: selection and all of And, or any of Or.
func queryMatches(q *queryassociatedaction.AssociatedActionQuery, id string, kv datatypes.KeyValues) bool {
	if q.Selection == nil && q.And == nil && q.Or == nil {
		return true
	}
	if q.Selection != nil || len(q.And) > 0 {
		ok := q.Selection == nil || selMatches(q.Selection, id, kv)
		for _, a := range q.And {
			ok = ok && queryMatches(a, id, kv)
		}
		if ok {
			return true
		}
	}
	for _, o := range q.Or {
		if queryMatches(o, id, kv) {
			return true
		}
	}
	return false
}

func mapIDs(q *queryassociatedaction.AssociatedActionQuery, f func(string) string) {
	if q.Selection != nil {
		for i := range q.Selection.IDs {
			q.Selection.IDs[i] = f(q.Selection.IDs[i])
		}
	}
	for _, a := range q.And {
		mapIDs(a, f)
	}
	for _, a := range q.Or {
		mapIDs(a, f)
	}
}

// matchMatches: every key-value of the entry is one of the query's.
func matchMatches(m *querymatchaction.MatchActionQuery, kv datatypes.KeyValues) bool {
	if m.MinNumberOfPermutationKeyValues != nil && len(kv) < *m.MinNumberOfPermutationKeyValues || m.MaxNumberOfPermutationKeyValues != nil && len(kv) > *m.MaxNumberOfPermutationKeyValues {
		return false
	}
	for k, v := range kv {
		mv, ok := m.KeyValues[k]
		if !ok || !valueMatches(queryassociatedaction.ValueQuery{Value: mv.Value, Comparison: v1common.Equals, TypeRestrictions: mv.TypeRestrictions}, v, true) {
			return false
		}
	}
	return true
}

func genMatch(r *Rand, sets []datatypes.KeyValues) *querymatchaction.MatchActionQuery {
	if r.P(50) {
		kv := datatypes.KeyValues{}
		for k, v := range sets[r.Intn(len(sets))] {
			kv[k] = v
		}
		for _, k := range kvNames {
			if _, ok := kv[k]; !ok && r.P(60) {
				kv[k] = kvVal(r.Intn(3))
			}
		}
		return querymatchaction.KeyValuesToAnyMatchActionQuery(kv)
	}
	m := &querymatchaction.MatchActionQuery{KeyValues: querymatchaction.MatchKeyValues{}}
	for _, k := range kvNames {
		if r.P(75) || k == "a" {
			m.KeyValues[k] = querymatchaction.MatchValue{Value: kvVal(r.Intn(4)), TypeRestrictions: genTR(r)}
		}
	}
	if r.P(25) {
		n := 1 + r.Intn(len(m.KeyValues))
		m.MinNumberOfPermutationKeyValues = &n
	}
	if r.P(25) {
		n := 1 + r.Intn(3)
		if m.MinNumberOfPermutationKeyValues != nil && n < *m.MinNumberOfPermutationKeyValues {
			n = *m.MinNumberOfPermutationKeyValues
		}
		m.MaxNumberOfPermutationKeyValues = &n
	}
	return m
}

// sortedKVs makes iteration over a query deterministic for the generator.
func mustJSON(v any) string {
	b, err := json.Marshal(v)
	must(err)
	return string(b)
}

func runAssoc() {
	s := S
	nsets := int(s.param("sets", func(r *Rand) int64 { return pick(r, int64(1), 2, 3, 4, 6) }))
	anyOK := s.param("any", func(r *Rand) int64 { return r.I64(2) }) == 1
	pre := int(s.param("pre", func(r *Rand) int64 { return r.I64(int64(nsets) + 1) }))
	sets := genKVSets(newRand(s.plan.Seed, "sets"), nsets, anyOK)
	nsets = len(sets)
	ops := s.ops(func(r *Rand) []Op {
		var l []Op
		nc := 2 + r.Intn(4)
		n := 2 + r.Intn(6)
		kinds := []string{"create", "create", "cof", "cof", "decline", "cofdecline", "delete", "delete", "delrefuse", "delid", "delid", "destroy", "destroy", "destroyrefuse", "query", "query", "exact", "match", "match", "tree", "stop"}
		for i := 0; i < 10; i++ {
			if r.P(60) {
				j := r.Intn(len(kinds))
				kinds = append(kinds[:j], kinds[j+1:]...)
			}
		}
		kinds = append(kinds, "create", "delete", "query")
		for c := 0; c < nc; c++ {
			for i := 0; i < n; i++ {
				o := Op{C: c, K: kinds[r.Intn(len(kinds))], A: []int64{r.I64(int64(nsets)), r.I64(4), r.I64(4), r.I64(4), r.I64(40)}}
				switch o.K {
				case "query", "stop":
					o.S = []string{mustJSON(genQuery(r, 2, 8))}
				case "match":
					o.S = []string{mustJSON(genMatch(r, sets))}
				}
				if r.P(40) {
					o.D = r.Dur(0, 40*time.Microsecond)
				}
				l = append(l, o)
			}
		}
		return l
	})
	tree := btreeassociated.NewThreadSafe()
	index := map[string]int{}
	for i, kv := range sets {
		index[kvStr(kv)] = i
	}
	hist := make([][]LinOp, nsets)
	add := func(k int, call, ret uint64, in mapIn, out mapOut, desc string) {
		hist[k] = append(hist[k], LinOp{Call: call, Ret: ret, In: in, Out: out, Desc: desc})
	}
	bad := func(sig, f string, args ...any) { s.violate("T02", sig, f, args...) }
	var known []string        // ids returned by creates, in order
	idOf := map[int]string{}  // value -> id
	setOf := map[string]int{} // id -> set
	type span struct {
		set      int // -1: the whole tree
		from, to uint64
	}
	var destroys []*span
	type late struct {
		set      int
		from, to uint64
		what     string
	}
	var refusals []late
	overlaps := func(set int, from, to uint64) bool {
		for _, d := range destroys {
			if (d.set == set || d.set < 0) && d.from < to && (d.to == 0 || d.to > from) {
				return true
			}
		}
		return false
	}
	created := func(id string, set, val int, d string) {
		if id == "" {
			bad("empty-id", "%s returned an empty id", d)
			return
		}
		if _, dup := setOf[id]; dup {
			bad("same-id", "%s returned id %s which an earlier create returned", d, id)
		}
		known = append(known, id)
		idOf[val] = id
		setOf[id] = set
	}
	type seenE struct {
		id  string
		val int
	}
	var seenEntries []seenE
	// entry checks what a callback is shown and returns the set and the value
	entry := func(a btreeassociated.AssociatedKeyValues, d string) (int, int) {
		v, _ := a.Value().(int)
		i, ok := index[kvStr(a.KeyValues())]
		if !ok || v == 0 || a.AssociatedID() == "" {
			bad("entry", "%s was shown an entry nobody stored: %s = %v (id %s)", d, kvStr(a.KeyValues()), a.Value(), a.AssociatedID())
			return -1, 0
		}
		seenEntries = append(seenEntries, seenE{a.AssociatedID(), v})
		return i, v
	}
	cb := func(o *Op) {
		switch o.a(3) {
		case 1:
			runtime.Gosched()
		case 2:
			time.Sleep(time.Duration(o.a(4)) * time.Microsecond)
		}
	}
	// outcome of an error
	refused := func(err error, o *Op, set int, call uint64, ranCallbacks int, d string) bool {
		switch {
		case errors.Is(err, btreeassociated.ErrorTreeItemDestroying), errors.Is(err, btreeassociated.ErrorTreeDestroying):
			if ranCallbacks > 0 {
				bad("refused-after-callback", "%s ran its callback %d times and was refused with %v", d, ranCallbacks, err)
			}
			w := set
			if errors.Is(err, btreeassociated.ErrorTreeDestroying) {
				w = -2
			}
			refusals = append(refusals, late{w, call, s.seq(), d + ": " + err.Error()})
			s.outcome("refused")
			return true
		}
		return false
	}
	for i := 0; i < pre && i < nsets; i++ {
		c := s.seq()
		v := 100000 + i
		id, err := tree.Create(sets[i], func() any { return v })
		must(err)
		created(id, i, v, "pre")
		add(i, c, s.seq(), mapIn{"create", v}, mapOut{ok: true}, fmt.Sprintf("create %d", v))
	}
	doRead := func(o *Op, what string, run func(f btreeassociated.BTreeAssociatedIterate) error, matches func(id string, kv datatypes.KeyValues) bool, kvMay func(set int) bool, stop int) map[int]int {
		d := fmt.Sprintf("c%d#%d %s", o.C, o.ID, what)
		got := map[int]int{}
		ids := map[string]bool{}
		stopped := false
		call := s.seq()
		err := run(func(a btreeassociated.AssociatedKeyValues) bool {
			i, v := entry(a, d)
			if i < 0 {
				return true
			}
			if stopped {
				bad("goes-on", "%s went on after it was told to stop", d)
			}
			if ids[a.AssociatedID()] {
				bad("twice", "%s reported %s twice", d, kvStr(sets[i]))
			}
			ids[a.AssociatedID()] = true
			if !matches(a.AssociatedID(), sets[i]) {
				bad("does-not-match", "%s reported %s which does not match", d, kvStr(sets[i]))
			}
			if got[i] == 0 {
				got[i] = v
				add(i, call, 0, mapIn{"read", 0}, mapOut{found: v}, fmt.Sprintf("%s saw %d", d, v))
			} else {
				// replaced while the query ran: also a read
				add(i, call, 0, mapIn{"read", 0}, mapOut{found: v}, fmt.Sprintf("%s saw %d", d, v))
			}
			cb(o)
			if stop >= 0 && len(ids) > stop {
				stopped = true
				return false
			}
			return true
		})
		ret := s.seq()
		for i := range hist {
			for j := range hist[i] {
				if hist[i][j].Ret == 0 && hist[i][j].Call == call {
					hist[i][j].Ret = ret
				}
			}
		}
		if err != nil {
			if !refused(err, o, -2, call, len(got), d) {
				bad("read-error", "%s returned %v", d, err)
			}
			return got
		}
		s.outcome("read")
		if !stopped {
			for i := range sets {
				if got[i] == 0 && kvMay(i) {
					add(i, call, ret, mapIn{"absent", 0}, mapOut{}, d+" saw nothing")
				}
			}
		}
		return got
	}
	parseQ := func(js string) *queryassociatedaction.AssociatedActionQuery {
		q := &queryassociatedaction.AssociatedActionQuery{}
		must(json.Unmarshal([]byte(js), q))
		mapIDs(q, func(x string) string {
			n := 0
			fmt.Sscanf(x, "#%d", &n)
			if n < len(known) {
				return known[n]
			}
			return "no such id"
		})
		if e := q.Validate(); e != nil {
			panic("harness: " + e.Error())
		}
		return q
	}
	query := func(o *Op, q *queryassociatedaction.AssociatedActionQuery, stop int) map[int]int {
		// a set can only be expected if it matches whatever its id is (ids change)
		return doRead(o, "query "+mustJSON(q), func(f btreeassociated.BTreeAssociatedIterate) error { return tree.QueryAction(q, f) },
			func(id string, kv datatypes.KeyValues) bool { return queryMatches(q, id, kv) },
			func(i int) bool { return queryMatches(q, "?", sets[i]) }, stop)
	}
	match := func(o *Op, m *querymatchaction.MatchActionQuery) map[int]int {
		return doRead(o, "match "+mustJSON(m), func(f btreeassociated.BTreeAssociatedIterate) error { return tree.MatchAction(m, f) },
			func(id string, kv datatypes.KeyValues) bool { return matchMatches(m, kv) },
			func(i int) bool { return matchMatches(m, sets[i]) }, -1)
	}
	do := func(o *Op) {
		k := int(o.a(0))
		if k >= nsets {
			return
		}
		kv := datatypes.KeyValues{}
		for n, v := range sets[k] {
			kv[n] = v
		}
		val := o.ID
		call := s.seq()
		d := func(x string) string { return fmt.Sprintf("c%d#%d %s(%s)", o.C, o.ID, x, kvStr(kv)) }
		switch o.K {
		case "create", "decline":
			ran := 0
			id, err := tree.Create(kv, func() any {
				ran++
				cb(o)
				if o.K == "decline" {
					return nil
				}
				return val
			})
			ret := s.seq()
			switch {
			case err == nil && ran == 1 && o.K == "decline":
				add(k, call, ret, mapIn{"declined", 0}, mapOut{}, d("create declined"))
				s.outcome("declined")
			case err == nil && ran == 1:
				created(id, k, val, d("create"))
				add(k, call, ret, mapIn{"create", val}, mapOut{ok: true}, d("create ok"))
				s.outcome("created")
			case errors.Is(err, btreeassociated.ErrorKeyValuesAlreadyExists) && ran == 0:
				add(k, call, ret, mapIn{"exists", 0}, mapOut{}, d("create exists"))
				s.outcome("exists")
			case refused(err, o, k, call, ran, d("create")):
			default:
				bad("create-outcome", "%s returned %v after %d callback runs", d("create"), err, ran)
			}
		case "cof", "cofdecline":
			ran, found, fv := 0, 0, 0
			fid := ""
			id, err := tree.CreateOrFind(kv, func() any {
				ran++
				cb(o)
				if o.K == "cofdecline" {
					return nil
				}
				return val
			}, func(a btreeassociated.AssociatedKeyValues) {
				found++
				i, v := entry(a, d("createOrFind"))
				if i != k {
					bad("cof-other", "%s found the entry of %s", d("createOrFind"), kvStr(a.KeyValues()))
				}
				fv, fid = v, a.AssociatedID()
				cb(o)
			})
			ret := s.seq()
			switch {
			case err == nil && ran == 1 && found == 0 && o.K == "cofdecline":
				add(k, call, ret, mapIn{"declined", 0}, mapOut{}, d("createOrFind declined"))
			case err == nil && ran == 1 && found == 0:
				created(id, k, val, d("createOrFind"))
				add(k, call, ret, mapIn{"cof", val}, mapOut{ok: true}, d("createOrFind created"))
				s.outcome("cof-created")
			case err == nil && ran == 0 && found == 1:
				if id != fid {
					bad("cof-id", "%s returned id %s but found the entry with id %s", d("createOrFind"), id, fid)
				}
				add(k, call, ret, mapIn{"cof", val}, mapOut{found: fv}, d(fmt.Sprintf("createOrFind found %d", fv)))
				s.outcome("cof-found")
			case refused(err, o, k, call, ran+found, d("createOrFind")):
			default:
				bad("cof-outcome", "%s returned %v after %d onCreate and %d onFind runs", d("createOrFind"), err, ran, found)
			}
		case "delete", "delrefuse", "delid", "destroy", "destroyrefuse":
			ran, fv := 0, 0
			id := ""
			if o.K == "delid" || o.K[:3] == "des" {
				if len(known) == 0 {
					return
				}
				// mostly a recent id
				n := len(known) - 1 - int(o.a(1))
				if n < 0 {
					n = 0
				}
				id = known[n]
				k = setOf[id]
			}
			refuse := o.K == "delrefuse" || o.K == "destroyrefuse"
			what := o.K + " " + id
			can := func(a btreeassociated.AssociatedKeyValues) bool {
				ran++
				i, v := entry(a, d(what))
				if i != k || id != "" && a.AssociatedID() != id {
					bad("delete-other", "%s (%s) was asked about the entry %s of %s", d(what), id, a.AssociatedID(), kvStr(a.KeyValues()))
				}
				fv = v
				cb(o)
				return !refuse
			}
			var err error
			switch o.K {
			case "delete", "delrefuse":
				err = tree.Delete(kv, can)
			case "delid":
				err = tree.DeleteByAssociatedID(id, can)
			default:
				sp := &span{set: k, from: call}
				destroys = append(destroys, sp)
				err = tree.DestroyByAssociatedID(id, can)
				sp.to = s.seq()
			}
			ret := s.seq()
			switch {
			case err == nil && ran == 1 && refuse:
				add(k, call, ret, mapIn{"read", 0}, mapOut{found: fv}, d(fmt.Sprintf("%s declined, saw %d", what, fv)))
			case err == nil && ran == 1:
				add(k, call, ret, mapIn{"delete", 0}, mapOut{ok: true, found: fv}, d(fmt.Sprintf("%s removed %d", what, fv)))
				s.outcome("removed")
			case err == nil && ran == 0:
				if id == "" {
					add(k, call, ret, mapIn{"absent", 0}, mapOut{}, d(what+" nothing"))
				} else {
					vv := 0
					for v, i := range idOf {
						if i == id {
							vv = v
						}
					}
					add(k, call, ret, mapIn{"not", vv}, mapOut{}, d(what+" nothing"))
				}
				s.outcome("nothing")
			case refused(err, o, k, call, ran, d(what)):
			default:
				bad("delete-outcome", "%s returned %v after %d callback runs", d(what), err, ran)
			}
		case "tree":
			got := map[int]int{}
			left := 1 << 30
			if o.a(1) == 0 {
				left = int(o.a(2))
			}
			refusedSet := -1
			sp := &span{set: -1, from: call}
			destroys = append(destroys, sp)
			err := tree.DestroyTree(func(a btreeassociated.AssociatedKeyValues) bool {
				i, v := entry(a, d("destroyTree"))
				if i < 0 || got[i] != 0 {
					bad("tree-twice", "%s was asked about %s twice", d("destroyTree"), kvStr(a.KeyValues()))
					return true
				}
				got[i] = v
				cb(o)
				if left == 0 {
					refusedSet = i
					return false
				}
				left--
				return true
			})
			ret := s.seq()
			sp.to = ret
			if err != nil {
				if !refused(err, o, -2, call, len(got), d("destroyTree")) {
					bad("tree-outcome", "%s returned %v", d("destroyTree"), err)
				}
				return
			}
			s.outcome("destroyedtree")
			for i := range sets {
				if i == refusedSet {
					add(i, call, ret, mapIn{"read", 0}, mapOut{found: got[i]}, d(fmt.Sprintf("destroyTree refused for %d", got[i])))
				} else if got[i] != 0 {
					add(i, call, ret, mapIn{"delete", 0}, mapOut{ok: true, found: got[i]}, d(fmt.Sprintf("destroyTree removed %d", got[i])))
				} else if refusedSet < 0 {
					add(i, call, ret, mapIn{"read", 0}, mapOut{}, d("destroyTree found nothing"))
				}
			}
		case "query":
			query(o, parseQ(o.s(0)), -1)
		case "stop":
			query(o, parseQ(o.s(0)), int(o.a(1)))
		case "exact":
			query(o, queryassociatedaction.KeyValuesToExactAssociatedActionQuery(kv), -1)
		case "match":
			m := &querymatchaction.MatchActionQuery{}
			must(json.Unmarshal([]byte(o.s(0)), m))
			match(o, m)
		}
	}
	s.runClients(ops, do)
	runtime.SimQuiet()

	for _, r := range refusals {
		ok := false
		for _, d := range destroys {
			if d.from < r.to && d.to > r.from && (d.set == -1 || r.set == -2 || d.set == r.set) {
				ok = true
			}
		}
		if !ok {
			bad("refused-for-nothing", "%s although nothing was being destroyed", r.what)
		}
	}
	// quiescent state: all ways to look at the tree agree
	fo := &Op{C: -1}
	final := query(fo, &queryassociatedaction.AssociatedActionQuery{}, -1)
	ids := map[int]string{}
	for i, v := range final {
		ids[i] = idOf[v]
	}
	for i, kv := range sets {
		if got := query(fo, queryassociatedaction.KeyValuesToExactAssociatedActionQuery(kv), -1); got[i] != final[i] {
			bad("final-exact", "at the end listing everything shows %d for %s but looking it up shows %d", final[i], kvStr(kv), got[i])
		}
		if final[i] != 0 {
			if got := query(fo, queryassociatedaction.StringToAssociatedActionQuery(ids[i]), -1); got[i] != final[i] || len(got) != 1 {
				bad("final-id", "at the end looking up id %s shows %v, %d is stored for %s", ids[i], got, final[i], kvStr(kv))
			}
		}
	}
	r := newRand(s.plan.Seed, "final")
	for i := 0; i < 6; i++ {
		q := parseQ(mustJSON(genQuery(r, 2, 8)))
		got := query(fo, q, -1)
		for i := range sets {
			want := 0
			if final[i] != 0 && queryMatches(q, ids[i], sets[i]) {
				want = final[i]
			}
			if got[i] != want {
				bad("final-query", "at the end the query %s shows %d for %s (id %s), expected %d", mustJSON(q), got[i], kvStr(sets[i]), ids[i], want)
			}
		}
		m := genMatch(r, sets)
		got = match(fo, m)
		for i := range sets {
			want := 0
			if final[i] != 0 && matchMatches(m, sets[i]) {
				want = final[i]
			}
			if got[i] != want {
				bad("final-match", "at the end the match %s shows %d for %s, expected %d", mustJSON(m), got[i], kvStr(sets[i]), want)
			}
		}
	}
	for _, e := range seenEntries {
		if id, ok := idOf[e.val]; ok && id != e.id {
			bad("entry-id", "entry %d was created with id %s and shown with id %s", e.val, id, e.id)
		}
	}
	for i, h := range hist {
		// an entry that is being destroyed is not there for reads and still there for creates
		var l []LinOp
		for _, op := range h {
			in := op.In.(mapIn)
			if (in.kind == "absent" || in.kind == "exists" || in.kind == "not") && overlaps(i, op.Call, op.Ret) {
				continue
			}
			switch in.kind {
			case "absent":
				op.In = mapIn{"read", 0}
			case "exists":
				op.In = mapIn{"create", 0}
			}
			l = append(l, op)
		}
		ok, decided, best := linearizable(oneKeyMap, l, 200000)
		if !decided {
			s.count("undecided")
			continue
		}
		s.count("checks")
		if !ok {
			bad("not-linearizable", "the history of %s is not that of one entry: %s", kvStr(sets[i]), describe(l, best))
		}
	}
	// remove everything; every set can be used again
	for i, kv := range sets {
		n := 0
		err := tree.Delete(kv, func(a btreeassociated.AssociatedKeyValues) bool { n++; return a.Value() == any(final[i]) })
		if err != nil || (n == 1) != (final[i] != 0) {
			bad("final-delete", "deleting %s at the end: %v, %d entries, expected entry %d", kvStr(kv), err, n, final[i])
		}
	}
	n := 0
	must(tree.QueryAction(&queryassociatedaction.AssociatedActionQuery{}, func(btreeassociated.AssociatedKeyValues) bool { n++; return true }))
	if n != 0 {
		bad("final-left", "%d entries are left after everything was deleted", n)
	}
	for i, kv := range sets {
		if _, err := tree.Create(kv, func() any { return i + 1 }); err != nil {
			bad("final-recreate", "creating %s again failed: %v", kvStr(kv), err)
		}
	}
	s.state(fmt.Sprint(nsets, final))
}
