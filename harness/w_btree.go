package main

import (
	"errors"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/DanLavine/willow/internal/datastructures/btree"
	v1common "github.com/DanLavine/willow/pkg/models/api/common/v1"
	"github.com/DanLavine/willow/pkg/models/datatypes"
)

// The world of the ordered tree (T01): a few goroutines run operations on one
// tree; the history is judged per key against a one-entry map.

func init() {
	worlds["btree"] = &world{run: runBtree, limit: func() time.Duration { return 20 * time.Second }, stuck: "T01", tick: []int64{50, 200}}
}

// treeKey makes the i-th key of a run's key space.
func treeKey(mode int64, i, n int) datatypes.EncapsulatedValue {
	switch mode {
	case 0:
		return datatypes.Int(i)
	case 1:
		return datatypes.String(fmt.Sprintf("k%02d", i))
	case 4: // every type
		v, w := typedPair(i%13, newRand(uint64(i%13), "key"))
		if i >= 13 {
			return w
		}
		return v
	default: // mixed types, the last one is Any for mode 3
		if mode == 3 && i == n-1 {
			return datatypes.Any()
		}
		switch i % 4 {
		case 0:
			return datatypes.Int(i)
		case 1:
			return datatypes.String(fmt.Sprintf("k%02d", i))
		case 2:
			return datatypes.Uint8(uint8(i))
		default:
			return datatypes.Float64(float64(i) / 2)
		}
	}
}

// strictLess is the order of keys: by type, Any last, then by value.
func strictLess(a, b datatypes.EncapsulatedValue) bool {
	if a.Type != b.Type {
		return a.Type < b.Type
	}
	switch x := a.Data.(type) {
	case uint8:
		return x < b.Data.(uint8)
	case uint16:
		return x < b.Data.(uint16)
	case uint32:
		return x < b.Data.(uint32)
	case uint64:
		return x < b.Data.(uint64)
	case uint:
		return x < b.Data.(uint)
	case int8:
		return x < b.Data.(int8)
	case int16:
		return x < b.Data.(int16)
	case int32:
		return x < b.Data.(int32)
	case int64:
		return x < b.Data.(int64)
	case int:
		return x < b.Data.(int)
	case float32:
		return x < b.Data.(float32)
	case float64:
		return x < b.Data.(float64)
	case string:
		return x < b.Data.(string)
	}
	return false
}

func keyStr(k datatypes.EncapsulatedValue) string { return fmt.Sprintf("%d:%v", k.Type, k.Data) }

// mapIn / mapOut: one operation on the single-key register "absent or value".
type mapIn struct {
	kind string // create, cof, read, delete, maybe-absent
	val  int
}
type mapOut struct {
	ok    bool // created, deleted
	found int  // value seen (0: none)
}

var oneKeyMap = &Model{
	Init: 0,
	Key:  func(st any) string { return fmt.Sprint(st.(int)) },
	Step: func(st any, op *LinOp) []any {
		cur, in, out := st.(int), op.In.(mapIn), op.Out.(mapOut)
		switch in.kind {
		case "create":
			if out.ok && cur == 0 {
				return []any{in.val}
			}
			if !out.ok && cur != 0 {
				return []any{cur}
			}
		case "cof":
			if out.ok && cur == 0 {
				return []any{in.val}
			}
			if !out.ok && cur != 0 && out.found == cur {
				return []any{cur}
			}
		case "declined": // the callback was asked to create and declined
			if cur == 0 {
				return []any{0}
			}
		case "not": // the entry with this value is not stored
			if cur != in.val {
				return []any{cur}
			}
		case "read":
			if out.found == cur {
				return []any{cur}
			}
		case "delete":
			if out.ok && cur == out.found && cur != 0 {
				return []any{0}
			}
			if !out.ok && cur == 0 {
				return []any{0}
			}
		}
		return nil
	},
}

var allTypes = v1common.TypeRestrictions{MinDataType: datatypes.MinDataType, MaxDataType: datatypes.MaxDataType}

func runBtree() {
	s := S
	nodeSize := int(s.param("nodeSize", func(r *Rand) int64 { return pick(r, int64(2), 2, 3, 4, 5) }))
	// dense: readers against writers that keep splitting, rotating and merging the nodes of a deeper tree
	dense := s.param("dense", func(r *Rand) int64 { return pick(r, int64(0), 0, 1) }) == 1
	nkeys := int(s.param("keys", func(r *Rand) int64 {
		if dense {
			return pick(r, int64(8), 12, 16, 24)
		}
		return pick(r, int64(1), 2, 3, 5, 8, 12, 16)
	}))
	mode := s.param("mode", func(r *Rand) int64 { return int64(r.Intn(5)) })
	pre := int(s.param("pre", func(r *Rand) int64 {
		if dense {
			return int64(nkeys) - r.I64(int64(nkeys)/2)
		}
		return r.I64(int64(nkeys) + 1)
	}))
	ops := s.ops(func(r *Rand) []Op {
		var l []Op
		if dense {
			readers, writers := 1+r.Intn(3), 1+r.Intn(3)
			n := 6 + r.Intn(14)
			rk := [][]string{{"find"}, {"find", "find", "range"}, {"range"}, {"find", "createdup", "range"}}[r.Intn(4)]
			wk := [][]string{{"create", "delete"}, {"create", "delete", "delete"}, {"cof", "delete"}, {"create", "destroy", "delete"}}[r.Intn(4)]
			for c := 0; c < readers+writers; c++ {
				k := rk
				if c >= readers {
					k = wk
				}
				for i := 0; i < n; i++ {
					o := Op{C: c, K: k[r.Intn(len(k))], A: []int64{r.I64(int64(nkeys)), r.I64(7), r.I64(8), 0, r.I64(40)}}
					if r.P(15) {
						o.D = r.Dur(0, 20*time.Microsecond)
					}
					l = append(l, o)
				}
			}
			return l
		}
		nc := 2 + r.Intn(4)
		n := 2 + r.Intn(7)
		// swarm: only some kinds in a run
		kinds := []string{"create", "create", "cof", "cof", "find", "delete", "delete", "destroy", "destroyall", "range", "range", "stop", "decline", "cofdecline", "delrefuse", "createdup"}
		for i := 0; i < 6; i++ {
			if r.P(60) {
				j := r.Intn(len(kinds))
				kinds = append(kinds[:j], kinds[j+1:]...)
			}
		}
		kinds = append(kinds, "create", "delete")
		for c := 0; c < nc; c++ {
			for i := 0; i < n; i++ {
				o := Op{C: c, K: kinds[r.Intn(len(kinds))], A: []int64{r.I64(int64(nkeys)), r.I64(7), r.I64(8), r.I64(4), r.I64(40)}}
				if r.P(40) {
					o.D = r.Dur(0, 40*time.Microsecond)
				}
				l = append(l, o)
			}
		}
		return l
	})
	tree, err := btree.NewThreadSafe(nodeSize)
	must(err)
	keys := make([]datatypes.EncapsulatedValue, nkeys)
	for i := range keys {
		keys[i] = treeKey(mode, i, nkeys)
	}
	idx := map[datatypes.EncapsulatedValue]int{}
	for i, k := range keys {
		idx[k] = i
	}
	hist := make([][]LinOp, nkeys)
	add := func(k int, call, ret uint64, in mapIn, out mapOut, desc string) {
		hist[k] = append(hist[k], LinOp{Call: call, Ret: ret, In: in, Out: out, Desc: desc})
	}
	// a starting population, inserted in a seeded order
	perm := newRand(s.plan.Seed, "pre")
	order := make([]int, nkeys)
	for i := range order {
		order[i] = i
	}
	for i := len(order) - 1; i > 0; i-- {
		j := perm.Intn(i + 1)
		order[i], order[j] = order[j], order[i]
	}
	for i := 0; i < pre; i++ {
		k := order[i]
		c := s.seq()
		must(tree.Create(keys[k], func() any { return 100000 + k }))
		add(k, c, s.seq(), mapIn{"create", 100000 + k}, mapOut{ok: true}, fmt.Sprintf("create %d", 100000+k))
	}
	cb := func(o *Op) { // callbacks take time, like the real ones
		switch o.a(3) {
		case 1:
			runtime.Gosched()
		case 2:
			time.Sleep(time.Duration(o.a(4)) * time.Microsecond)
		}
	}
	bad := func(sig, f string, args ...any) { s.violate("T01", sig, f, args...) }
	refusal := func(err error) bool {
		return errors.Is(err, btree.ErrorKeyDestroying) || errors.Is(err, btree.ErrorTreeDestroying)
	}
	do := func(o *Op) {
		k := int(o.a(0))
		if k >= nkeys {
			return
		}
		key := keys[k]
		val := o.ID
		call := s.seq()
		d := func(x string) string { return fmt.Sprintf("c%d#%d %s(%s)", o.C, o.ID, x, keyStr(key)) }
		switch o.K {
		case "create", "decline", "createdup":
			ran := 0
			err := tree.Create(key, func() any {
				ran++
				cb(o)
				if o.K == "decline" {
					return nil
				}
				return val
			})
			ret := s.seq()
			switch {
			case err == nil && ran == 1 && o.K == "decline":
				add(k, call, ret, mapIn{"declined", 0}, mapOut{}, d("create declined"))
				s.outcome("declined")
			case err == nil && ran == 1:
				add(k, call, ret, mapIn{"create", val}, mapOut{ok: true}, d("create ok"))
				s.outcome("created")
			case errors.Is(err, btree.ErrorKeyAlreadyExists) && ran == 0:
				add(k, call, ret, mapIn{"create", val}, mapOut{}, d("create exists"))
				s.outcome("exists")
			case refusal(err) && ran == 0:
				s.outcome("refused")
			default:
				bad("create-outcome", "%s returned %v after %d callback runs", d("create"), err, ran)
			}
		case "cof", "cofdecline":
			ran, found, fv := 0, 0, 0
			err := tree.CreateOrFind(key, func() any {
				ran++
				cb(o)
				if o.K == "cofdecline" {
					return nil
				}
				return val
			}, func(item any) { found++; fv, _ = item.(int); cb(o) })
			ret := s.seq()
			switch {
			case err == nil && ran == 1 && found == 0 && o.K == "cofdecline":
				add(k, call, ret, mapIn{"declined", 0}, mapOut{}, d("createOrFind declined"))
			case err == nil && ran == 1 && found == 0:
				add(k, call, ret, mapIn{"cof", val}, mapOut{ok: true}, d("createOrFind created"))
				s.outcome("cof-created")
			case err == nil && ran == 0 && found == 1:
				add(k, call, ret, mapIn{"cof", val}, mapOut{found: fv}, d(fmt.Sprintf("createOrFind found %d", fv)))
				s.outcome("cof-found")
			case refusal(err) && ran == 0 && found == 0:
				s.outcome("refused")
			default:
				bad("cof-outcome", "%s returned %v after %d onCreate and %d onFind runs", d("createOrFind"), err, ran, found)
			}
		case "find":
			withAny := o.a(1) == 0
			tr := v1common.TypeRestrictions{MinDataType: datatypes.MinDataType, MaxDataType: datatypes.MaxWithoutAnyDataType}
			if withAny || key.Type == datatypes.T_any {
				tr.MaxDataType = datatypes.MaxDataType
			}
			if key.Type == datatypes.T_any {
				tr.MinDataType = datatypes.T_any
			}
			doRange(s, tree, keys, idx, o, "find", key, tr, -1, add, cb, bad, refusal)
		case "range", "stop":
			kind := []string{"iter", "ne", "lt", "lte", "gt", "gte", "find"}[o.a(1)]
			tr := allTypes
			switch o.a(2) {
			case 1:
				tr.MaxDataType = datatypes.MaxWithoutAnyDataType
			case 2:
				if key.Type != datatypes.T_any {
					tr = v1common.TypeRestrictions{MinDataType: key.Type, MaxDataType: key.Type}
				}
			case 3:
				tr = v1common.TypeRestrictions{MinDataType: datatypes.T_int, MaxDataType: datatypes.T_int}
			case 4:
				tr = v1common.TypeRestrictions{MinDataType: datatypes.T_any, MaxDataType: datatypes.T_any}
			case 5:
				tr = v1common.TypeRestrictions{MinDataType: datatypes.T_string, MaxDataType: datatypes.T_any}
			case 6:
				tr = v1common.TypeRestrictions{MinDataType: datatypes.T_uint8, MaxDataType: datatypes.T_int}
			}
			if key.Type == datatypes.T_any {
				kind = "iter"
			}
			stop := -1
			if o.K == "stop" {
				stop = int(o.a(4)) % 5
			}
			doRange(s, tree, keys, idx, o, kind, key, tr, stop, add, cb, bad, refusal)
		case "delete", "destroy", "delrefuse":
			ran, fv := 0, 0
			can := func(ck datatypes.EncapsulatedValue, item any) bool {
				ran++
				fv, _ = item.(int)
				if ck != key {
					bad("delete-key", "%s asked about key %s", d(o.K), keyStr(ck))
				}
				cb(o)
				return o.K != "delrefuse"
			}
			var err error
			if o.K == "destroy" {
				err = tree.Destroy(key, can)
			} else {
				err = tree.Delete(key, can)
			}
			ret := s.seq()
			switch {
			case err == nil && ran == 1 && o.K == "delrefuse":
				add(k, call, ret, mapIn{"read", 0}, mapOut{found: fv}, d(fmt.Sprintf("delete declined, saw %d", fv)))
			case err == nil && ran == 1:
				add(k, call, ret, mapIn{"delete", 0}, mapOut{ok: true, found: fv}, d(fmt.Sprintf("%s removed %d", o.K, fv)))
				s.outcome("removed")
			case err == nil && ran == 0:
				add(k, call, ret, mapIn{"delete", 0}, mapOut{}, d(o.K+" nothing"))
				s.outcome("nothing")
			case refusal(err) && ran == 0:
				s.outcome("refused")
			default:
				bad("delete-outcome", "%s returned %v after %d callback runs", d(o.K), err, ran)
			}
		case "destroyall":
			got := map[int]int{}
			left := 1 << 30
			if o.a(1) == 0 {
				left = int(o.a(2)) % 4
			}
			refusedKey := -1
			err := tree.DestroyAll(func(ck datatypes.EncapsulatedValue, item any) bool {
				i, ok := idx[ck]
				if !ok || got[i] != 0 {
					bad("destroyall-key", "DestroyAll asked about %s", keyStr(ck))
					return true
				}
				got[i], _ = item.(int)
				cb(o)
				if left == 0 {
					refusedKey = i
					return false
				}
				left--
				return true
			})
			ret := s.seq()
			if err != nil {
				if !refusal(err) || len(got) != 0 {
					bad("destroyall-outcome", "DestroyAll returned %v after %d callback runs", err, len(got))
				}
				s.outcome("refused")
				return
			}
			s.outcome("destroyedall")
			for i := range keys {
				if i == refusedKey {
					add(i, call, ret, mapIn{"read", 0}, mapOut{found: got[i]}, d(fmt.Sprintf("destroyAll refused for %d", got[i])))
				} else if got[i] != 0 {
					add(i, call, ret, mapIn{"delete", 0}, mapOut{ok: true, found: got[i]}, d(fmt.Sprintf("destroyAll removed %d", got[i])))
				} else if refusedKey < 0 {
					add(i, call, ret, mapIn{"delete", 0}, mapOut{}, d("destroyAll found nothing"))
				}
			}
		}
	}
	s.runClients(ops, do)
	runtime.SimQuiet()

	// quiescent: what is in the tree now?
	cbq := func(*Op) {}
	q := func(o *Op, kind string, key datatypes.EncapsulatedValue, tr v1common.TypeRestrictions) map[int]int {
		return doRange(s, tree, keys, idx, o, kind, key, tr, -1, add, cbq, bad, refusal)
	}
	fo := &Op{C: -1, ID: 0}
	final := q(fo, "iter", datatypes.Any(), allTypes)
	for i, k := range keys {
		tr := allTypes
		tr.MaxDataType = datatypes.MaxWithoutAnyDataType
		if k.Type == datatypes.T_any {
			tr = v1common.TypeRestrictions{MinDataType: datatypes.T_any, MaxDataType: datatypes.T_any}
		}
		got := q(fo, "find", k, tr)
		if got[i] != final[i] {
			bad("final-find", "after all operations iterating the tree shows %d for key %s but finding it shows %d; iteration %v, keys %s", final[i], keyStr(k), got[i], final, fmtKeys(keys))
		}
		if k.Type != datatypes.T_any {
			for _, kind := range []string{"ne", "lt", "lte", "gt", "gte", "find"} {
				tr := []v1common.TypeRestrictions{allTypes, {MinDataType: datatypes.T_int, MaxDataType: datatypes.T_int}, {MinDataType: datatypes.T_any, MaxDataType: datatypes.T_any},
					{MinDataType: datatypes.T_string, MaxDataType: datatypes.T_any}, {MinDataType: datatypes.T_uint8, MaxDataType: datatypes.T_int}}[(i+int(s.plan.Seed%5))%5]
				got := q(fo, kind, k, tr)
				for j := range keys {
					want := 0
					if inRange(kind, k, keys[j], tr) {
						want = final[j]
					}
					if got[j] != want {
						bad("final-range", "after all operations %s %s shows %d for key %s, iterating shows %d", kind, keyStr(k), got[j], keyStr(keys[j]), final[j])
					}
				}
			}
		}
	}
	if e := tree.Empty(); e != (len(final) == 0) {
		bad("empty", "Empty() is %v with %d entries", e, len(final))
	}
	for i, h := range hist {
		ok, decided, best := linearizable(oneKeyMap, h, 200000)
		if !decided {
			s.count("undecided")
			continue
		}
		s.count("checks")
		if !ok {
			bad("not-linearizable", "the history of key %s is not that of a map: %s", keyStr(keys[i]), describe(h, best))
		}
	}
	// the tree must still work: remove everything, it is empty
	for i, k := range keys {
		n := 0
		if err := tree.Delete(k, func(_ datatypes.EncapsulatedValue, item any) bool {
			if item.(int) == final[i] {
				n++
			}
			return true
		}); err != nil || (n == 1) != (final[i] != 0) {
			bad("final-delete", "deleting key %s at the end: %v, removed %d, expected entry %d", keyStr(k), err, n, final[i])
		}
	}
	if !tree.Empty() {
		bad("empty", "the tree is not empty after all entries were removed")
	}
	s.state(fmt.Sprint(nodeSize, final))
}

func fmtKeys(keys []datatypes.EncapsulatedValue) string {
	var b strings.Builder
	for i, k := range keys {
		fmt.Fprintf(&b, "%d=%s ", i, keyStr(k))
	}
	return b.String()
}

func inRange(kind string, key, k datatypes.EncapsulatedValue, tr v1common.TypeRestrictions) bool {
	isAny := k.Type == datatypes.T_any
	if k.Type < tr.MinDataType || k.Type > tr.MaxDataType {
		return false
	}
	switch kind {
	case "find":
		return k == key || isAny || key.Type == datatypes.T_any
	case "iter":
		return true
	case "ne":
		return k != key
	case "lt":
		return isAny || strictLess(k, key)
	case "lte":
		return isAny || !strictLess(key, k)
	case "gt":
		return strictLess(key, k)
	case "gte":
		return !strictLess(k, key)
	}
	return false
}

// doRange runs one find or iteration and records it as a read of every key it covers.
func doRange(s *Sim, tree btree.BTree, keys []datatypes.EncapsulatedValue, idx map[datatypes.EncapsulatedValue]int, o *Op, kind string, key datatypes.EncapsulatedValue,
	tr v1common.TypeRestrictions, stop int, add func(int, uint64, uint64, mapIn, mapOut, string), cb func(*Op), bad func(string, string, ...any), refusal func(error) bool) map[int]int {
	got := map[int]int{}
	call := s.seq()
	stopped := false
	f := func(ck datatypes.EncapsulatedValue, item any) bool {
		i, ok := idx[ck]
		v, _ := item.(int)
		if !ok || v == 0 {
			bad("range-entry", "%s reported entry %s=%v", kind, keyStr(ck), item)
			return true
		}
		if _, dup := got[i]; dup {
			bad("range-twice", "%s %s reported key %s twice", kind, keyStr(key), keyStr(ck))
		}
		if stopped {
			bad("range-goes-on", "%s %s went on after it was told to stop", kind, keyStr(key))
		}
		if !inRange(kind, key, ck, tr) {
			bad("range-outside", "%s %s (types %d..%d) reported key %s", kind, keyStr(key), tr.MinDataType, tr.MaxDataType, keyStr(ck))
		}
		got[i] = v
		cb(o)
		if stop >= 0 && len(got) > stop {
			stopped = true
			return false
		}
		return true
	}
	var err error
	switch kind {
	case "find":
		err = tree.Find(key, tr, f)
	case "iter":
		err = tree.Find(datatypes.Any(), tr, f)
	case "ne":
		err = tree.FindNotEqual(key, tr, f)
	case "lt":
		err = tree.FindLessThan(key, tr, f)
	case "lte":
		err = tree.FindLessThanOrEqual(key, tr, f)
	case "gt":
		err = tree.FindGreaterThan(key, tr, f)
	case "gte":
		err = tree.FindGreaterThanOrEqual(key, tr, f)
	}
	ret := s.seq()
	if err != nil {
		if !refusal(err) || len(got) != 0 {
			bad("range-outcome", "%s %s returned %v after %d entries", kind, keyStr(key), err, len(got))
		}
		return got
	}
	var il []int
	for i := range keys {
		il = append(il, i)
	}
	sort.Ints(il)
	for _, i := range il {
		if inRange(kind, key, keys[i], tr) && (got[i] != 0 || !stopped) {
			add(i, call, ret, mapIn{"read", 0}, mapOut{found: got[i]}, fmt.Sprintf("c%d#%d %s %s saw %d", o.C, o.ID, kind, keyStr(key), got[i]))
		}
	}
	return got
}
