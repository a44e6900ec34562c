package main

import (
	"context"
	"encoding/json"
	"fmt"
	"net/http"
	"strings"
	"time"

	"github.com/DanLavine/willow/internal/helpers"
	v1common "github.com/DanLavine/willow/pkg/models/api/common/v1"
	queryassociatedaction "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
	v1limiter "github.com/DanLavine/willow/pkg/models/api/limiter/v1"
	v1locker "github.com/DanLavine/willow/pkg/models/api/locker/v1"
	v1willow "github.com/DanLavine/willow/pkg/models/api/willow/v1"
	"github.com/DanLavine/willow/pkg/models/datatypes"
)

// The abuse world: clients that send anything at all next to well-behaved
// clients (canaries) that work on their own locks, rules, counters and queues
// and must not notice. Profiles: "locker", "limiter", "willow".
//
// A request is drawn as a valid one from a template, and then left as it is,
// malformed by construction ("bad": a required value is missing, empty or of
// the wrong kind, or the document is cut), or changed at random ("weird":
// nothing is known about the answer). Malformed requests are also aimed at
// the objects of the canaries, which they must leave alone.

func init() {
	worlds["abuse"] = &world{run: runAbuse, limit: func() time.Duration { return 5 * time.Minute }, stuck: "A01", tick: []int64{50, 200, 500}, calm: true}
}

const (
	abPrompt = int64(5 * time.Second)         // a request that waits for nobody is answered
	abServe  = int64(2 * time.Second)         // a canary's request is answered
	abGone   = int64(1500 * time.Millisecond) // the request of a client that left ends
)

type jm = map[string]any

// abField is a place of a document and what is required of it.
type abField struct {
	path []string
	kind string
}

// abTmpl is one kind of request.
type abTmpl struct {
	method string
	path   string
	body   any
	fields []abField
	query  bool // null is a valid document
	none   bool // the request has no document
	waits  bool
}

// abSent is one request of an abuser.
type abSent struct {
	call  *Call
	kind  string
	mode  string
	tok   string
	num   int64
	waits bool
	why   string
}

type abObj struct {
	path string // of the object
	id   string
	kv   any // key values as sent
	sess string
	rule string
	q    string
}

type abuse struct {
	svc   string
	sent  map[*Call]*abSent
	list  []*abSent
	byOp  map[int]*abSent
	pools map[string][]abObj
	can   map[string][]abObj // objects of the canaries
	n     int
}

func (a *abuse) get(r *Rand, pool string, canary bool) (abObj, bool) {
	l := a.pools[pool]
	if canary {
		l = a.can[pool]
	}
	if len(l) == 0 {
		return abObj{}, false
	}
	return l[r.Intn(len(l))], true
}

// abVal is a valid value of some type.
func abVal(r *Rand) jm {
	switch t := pick(r, 13, 13, 13, 1+r.Intn(13)); {
	case t == 13:
		return jm{"Type": 13, "Data": pick(r, "x", "y")}
	case t >= 11:
		return jm{"Type": t, "Data": pick(r, "1.5", "-2E+3", "7")}
	default:
		return jm{"Type": t, "Data": pick(r, "1", "2", "7")}
	}
}

// abKV draws key values that carry the request's token.
func abKV(r *Rand, tok string) jm {
	kv := jm{}
	for _, k := range kvNames {
		if r.P(40) {
			kv[k] = abVal(r)
		}
	}
	if tok != "" {
		kv["t"] = jm{"Type": 13, "Data": tok}
	}
	if len(kv) == 0 {
		kv["a"] = abVal(r)
	}
	return kv
}

func abRestr() jm { return jm{"MinDataType": 1, "MaxDataType": 1024} }

func abQuery(r *Rand, depth int) (jm, []abField) {
	q, f := jm{}, []abField(nil)
	if depth == 0 && r.P(15) {
		return q, f
	}
	sel := jm{}
	if r.P(70) {
		kvs := jm{}
		for _, k := range kvNames {
			if r.P(50) {
				kvs[k] = jm{"Value": abVal(r), "Comparison": pick(r, "=", "=", "!=", "<", "<=", ">", ">="), "TypeRestrictions": abRestr()}
				f = append(f, abField{[]string{"Selection", "KeyValues", k, "Value"}, "val"}, abField{[]string{"Selection", "KeyValues", k, "Comparison"}, "comp"},
					abField{[]string{"Selection", "KeyValues", k, "TypeRestrictions", pick(r, "MinDataType", "MaxDataType")}, "type"})
			}
		}
		if len(kvs) > 0 {
			sel["KeyValues"] = kvs
		}
	}
	if r.P(20) {
		sel["IDs"] = []any{"no-such-id"}
	}
	if r.P(30) {
		sel["MinNumberOfKeyValues"] = 1 + r.Intn(3)
		if r.P(50) {
			sel["MaxNumberOfKeyValues"] = sel["MinNumberOfKeyValues"].(int) + r.Intn(3)
			f = append(f, abField{[]string{"Selection", "MaxNumberOfKeyValues"}, "belowmin"})
		}
	}
	if len(sel) > 0 {
		q["Selection"] = sel
		f = append(f, abField{[]string{"Selection"}, "sel"})
	}
	for _, j := range []string{"And", "Or"} {
		if depth < 2 && r.P(25) {
			s, _ := abQuery(r, depth+1)
			q[j] = []any{s}
			f = append(f, abField{[]string{j}, "join"})
		}
	}
	return q, f
}

func abMatch(r *Rand) (jm, []abField) {
	kvs, f := jm{}, []abField{{[]string{"KeyValues"}, "kvonly"}}
	for _, k := range kvNames {
		if r.P(60) || k == "a" {
			kvs[k] = jm{"Value": abVal(r), "TypeRestrictions": abRestr()}
			f = append(f, abField{[]string{"KeyValues", k, "Value"}, "val"}, abField{[]string{"KeyValues", k, "TypeRestrictions", "MinDataType"}, "type"})
		}
	}
	q := jm{"KeyValues": kvs}
	if r.P(40) {
		q["MinNumberOfPermutationKeyValues"] = r.Intn(4)
	}
	if r.P(40) {
		q["MaxNumberOfPermutationKeyValues"] = r.Intn(4)
	}
	return q, f
}

var abDef = []abField{{[]string{"Spec"}, "obj"}, {[]string{"Spec", "DBDefinition"}, "obj"}}

func abF(extra ...abField) []abField { return append(append([]abField(nil), abDef...), extra...) }

// abKinds lists the templates of a service.
var abKinds = map[string][]string{
	"locker":  {"lock", "lock", "lock", "beat", "release", "release", "locks"},
	"limiter": {"rule", "rule", "getrule", "putrule", "delrule", "rules", "matchrules", "over", "over", "getover", "putover", "delover", "overs", "matchovers", "inc", "inc", "inc", "dec", "set", "counters"},
	"willow":  {"queue", "getqueue", "putqueue", "delqueue", "queues", "enq", "enq", "enq", "deq", "deq", "ack", "ihb", "chans", "delchan"},
}

// tmpl draws a valid request. canary: aimed at an object of a canary.
func (a *abuse) tmpl(r *Rand, kind, tok string, num int64, canary bool) (abTmpl, bool) {
	switch kind {
	case "lock":
		b := jm{"Spec": jm{"DBDefinition": jm{"KeyValues": abKV(r, pick(r, "", "", tok))}, "Properties": jm{"Timeout": r.Dur(10*time.Millisecond, time.Second)}}}
		return abTmpl{"POST", "/v1/locks", b, abF(abField{[]string{"Spec", "DBDefinition", "KeyValues"}, "kv"}, abField{[]string{"Spec", "Properties", "Timeout"}, "dur0"}, abField{[]string{"State"}, "nostate"}), false, false, true}, true
	case "beat", "release":
		o, ok := a.get(r, "lock", canary)
		if !ok {
			o = abObj{id: "no-such-lock", sess: "none"}
		}
		b, f := jm{"SessionID": o.sess}, []abField{{[]string{"SessionID"}, "str1"}}
		if kind == "beat" {
			return abTmpl{"POST", "/v1/locks/" + o.id + "/heartbeat", b, f, false, false, false}, true
		}
		return abTmpl{"DELETE", "/v1/locks/" + o.id, b, f, false, false, false}, true
	case "locks", "rules", "counters", "overs", "chans", "deq":
		q, f := abQuery(r, 0)
		p := map[string]string{"locks": "/v1/locks", "rules": "/v1/limiter/rules/query", "counters": "/v1/limiter/counters/query"}[kind]
		switch kind {
		case "overs":
			o, ok := a.get(r, "rule", canary)
			if !ok {
				o.id = "no-such-rule"
			}
			p = "/v1/limiter/rules/" + o.id + "/overrides/query"
		case "chans", "deq":
			o, ok := a.get(r, "queue", canary)
			if !ok {
				o.q = "none"
			}
			p = "/v1/queues/" + o.q + "/channels"
			if kind == "deq" {
				p += "/items"
			}
		}
		return abTmpl{"GET", p, q, f, true, false, kind == "deq"}, true
	case "matchrules", "matchovers":
		m, f := abMatch(r)
		p := "/v1/limiter/rules/match"
		if kind == "matchovers" {
			o, ok := a.get(r, "rule", canary)
			if !ok {
				o.id = "no-such-rule"
			}
			p = "/v1/limiter/rules/" + o.id + "/overrides/match"
		}
		return abTmpl{"GET", p, m, f, false, false, false}, true
	case "rule", "over":
		kv := abKV(r, "")
		for k := range kv {
			if r.P(50) {
				kv[k] = jm{"Type": 1024}
			}
		}
		limit := pick(r, num, num, num, 2, -1)
		if kind == "rule" && r.P(50) {
			kv["t"] = jm{"Type": 13, "Data": tok}
			limit = pick(r, int64(0), 1)
		}
		p := "/v1/limiter/rules"
		if kind == "over" {
			o, ok := a.get(r, "rule", canary)
			if !ok {
				o.id = "no-such-rule"
			} else if m, is := o.kv.(jm); is {
				for k, v := range m {
					kv[k] = v
				}
			}
			p += "/" + o.id + "/overrides"
		}
		b := jm{"Spec": jm{"DBDefinition": jm{"GroupByKeyValues": kv}, "Properties": jm{"Limit": limit}}}
		return abTmpl{"POST", p, b, abF(abField{[]string{"Spec", "DBDefinition", "GroupByKeyValues"}, "kvany"}, abField{[]string{"Spec", "Properties"}, "obj"}, abField{[]string{"Spec", "Properties", "Limit"}, "limit"}), false, false, false}, true
	case "getrule", "delrule", "putrule":
		o, ok := a.get(r, "rule", canary)
		if !ok {
			o.id = "no-such-rule"
		}
		p := "/v1/limiter/rules/" + o.id
		if kind == "putrule" {
			return abTmpl{"PUT", p, jm{"Limit": num}, []abField{{[]string{"Limit"}, "limit"}}, false, false, false}, true
		}
		return abTmpl{map[string]string{"getrule": "GET", "delrule": "DELETE"}[kind], p, nil, nil, false, true, false}, true
	case "getover", "delover", "putover":
		o, ok := a.get(r, "over", canary)
		if !ok {
			o.id, o.rule = "no-such-override", "no-such-rule"
			if ru, ok := a.get(r, "rule", false); ok {
				o.rule = ru.id
			}
		}
		p := "/v1/limiter/rules/" + o.rule + "/overrides/" + o.id
		if kind == "putover" {
			return abTmpl{"PUT", p, jm{"Limit": num}, []abField{{[]string{"Limit"}, "limit"}}, false, false, false}, true
		}
		return abTmpl{map[string]string{"getover": "GET", "delover": "DELETE"}[kind], p, nil, nil, false, true, false}, true
	case "inc", "dec", "set":
		kv := any(abKV(r, pick(r, "", tok)))
		if o, ok := a.get(r, "counter", canary); ok && (canary || r.P(50)) {
			kv = o.kv
		}
		n := map[string]int64{"inc": pick(r, 1, 1, 2, num), "dec": -pick(r, 1, 1, 2, num), "set": pick(r, 0, 1, num)}[kind]
		p := "/v1/limiter/counters"
		if kind == "set" {
			p += "/set"
		}
		b := jm{"Spec": jm{"DBDefinition": jm{"KeyValues": kv}, "Properties": jm{"Counters": n}}}
		return abTmpl{"PUT", p, b, abF(abField{[]string{"Spec", "DBDefinition", "KeyValues"}, "kv"}, abField{[]string{"Spec", "Properties"}, "obj"}, abField{[]string{"Spec", "Properties", "Counters"}, "int"}), false, false, false}, true
	case "queue":
		b := jm{"Spec": jm{"DBDefinition": jm{"Name": pick(r, "x", "y", tok)}, "Properties": jm{"MaxItems": pick(r, -1, 1, 2, num)}}}
		return abTmpl{"POST", "/v1/queues", b, abF(abField{[]string{"Spec", "DBDefinition", "Name"}, "str1"}, abField{[]string{"Spec", "Properties", "MaxItems"}, "limit"}, abField{[]string{"State"}, "nostate"}), false, false, false}, true
	case "getqueue", "putqueue", "delqueue":
		o, ok := a.get(r, "queue", canary)
		if !ok {
			o.q = "none"
		}
		p := "/v1/queues/" + o.q
		if kind == "putqueue" {
			return abTmpl{"PUT", p, jm{"MaxItems": num}, []abField{{[]string{"MaxItems"}, "limit"}}, false, false, false}, true
		}
		return abTmpl{map[string]string{"getqueue": "GET", "delqueue": "DELETE"}[kind], p, nil, nil, false, true, false}, true
	case "queues":
		return abTmpl{"GET", "/v1/queues", nil, nil, false, true, false}, true
	case "enq":
		o, ok := a.get(r, "queue", canary)
		if !ok {
			o.q = "none"
		}
		b := jm{"Spec": jm{"DBDefinition": jm{"KeyValues": abKV(r, pick(r, "", tok))}, "Properties": jm{"Data": []byte("d" + tok), "Updateable": r.P(50), "RetryAttempts": r.Intn(2), "RetryPosition": pick(r, "front", "back"), "TimeoutDuration": r.Dur(20*time.Millisecond, time.Second)}}}
		pr := func(k string) []string { return []string{"Spec", "Properties", k} }
		return abTmpl{"POST", "/v1/queues/" + o.q + "/channels/items", b, abF(abField{[]string{"Spec", "DBDefinition", "KeyValues"}, "kv"}, abField{[]string{"Spec", "Properties"}, "obj"}, abField{pr("Data"), "data"}, abField{pr("Updateable"), "bool"},
			abField{pr("RetryAttempts"), "uint"}, abField{pr("RetryPosition"), "pos"}, abField{pr("TimeoutDuration"), "dur"}, abField{[]string{"State"}, "nostate"}), false, false, false}, true
	case "ack", "ihb":
		o, ok := a.get(r, "item", canary)
		if !ok {
			o = abObj{id: "no-such-item", kv: abKV(r, ""), q: "none"}
			if q, ok := a.get(r, "queue", false); ok {
				o.q = q.q
			}
		}
		b, f := jm{"ItemID": o.id, "KeyValues": o.kv}, []abField{{[]string{"ItemID"}, "str1"}, {[]string{"KeyValues"}, "kv"}}
		p := "/v1/queues/" + o.q + "/channels/items/heartbeat"
		if kind == "ack" {
			b["Passed"] = r.P(70)
			p = "/v1/queues/" + o.q + "/channels/items/ack"
		}
		return abTmpl{"POST", p, b, f, false, false, false}, true
	case "delchan":
		o, ok := a.get(r, "item", canary)
		if !ok {
			o = abObj{kv: abKV(r, ""), q: "none"}
		}
		return abTmpl{"DELETE", "/v1/queues/" + o.q + "/channels", o.kv, []abField{{nil, "kv"}}, false, false, false}, true
	}
	panic("harness: no template " + kind)
}

// abSet puts a value at a place; del removes it.
func abSet(doc any, path []string, v any, del bool) any {
	if len(path) == 0 {
		return v
	}
	m, ok := doc.(jm)
	if !ok {
		return doc
	}
	if len(path) == 1 && del {
		delete(m, path[0])
	} else if sub, ok := m[path[0]]; ok || len(path) == 1 {
		m[path[0]] = abSet(sub, path[1:], v, del)
	}
	return doc
}

func abAt(doc any, path []string) any {
	for _, p := range path {
		m, ok := doc.(jm)
		if !ok {
			return nil
		}
		doc = m[p]
	}
	return doc
}

type abGone0 struct{}

// spoil makes a document malformed at one place.
func spoil(r *Rand, doc any, f abField) (any, string) {
	var v any
	set := func(l ...any) { v = l[r.Intn(len(l))] }
	wrong := []any{true, []any{1}, jm{"x": 1}}
	switch f.kind {
	case "obj":
		set(abGone0{}, nil, 5, "x", []any{})
	case "kvonly":
		set(abGone0{}, nil, jm{}, 5, []any{})
	case "kv", "kvany":
		kv := jm{}
		if m, ok := abAt(doc, f.path).(jm); ok {
			for k, x := range m {
				kv[k] = x
			}
		}
		bad := []any{jm{}, jm{"Type": 0, "Data": "x"}, jm{"Type": 14, "Data": "x"}, jm{"Type": 13}, jm{"Type": 13, "Data": 5}, jm{"Type": 1, "Data": "300"}, jm{"Type": 9, "Data": "x"}, jm{"Type": -1, "Data": "1"}, jm{"Type": "13", "Data": "x"},
			jm{"Type": 1024, "Data": "x"}, jm{"Type": 12, "Data": ""}, jm{"Type": 5, "Data": "-1"}, nil, 5, jm{"Type": 11, "Data": "NaN"}, jm{"Type": 12, "Data": "nan"}}
		if f.kind == "kv" {
			bad = append(bad, jm{"Type": 1024}, jm{"Type": 1024, "Data": nil})
		}
		kv[pick(r, "a", "b", "z", "t")] = bad[r.Intn(len(bad))]
		if r.P(30) {
			kv["_associated_id"] = jm{"Type": 13, "Data": "x"}
		}
		set(kv, kv, kv, kv, jm{}, nil, 5, []any{}, "x")
		if len(f.path) > 0 && r.P(10) {
			v = abGone0{}
		}
	case "str1":
		set(append(wrong, abGone0{}, nil, "", 5)...)
	case "limit":
		set(append(wrong, abGone0{}, nil, -2, -1000000, "5", 1.5, json.Number("99999999999999999999"), int64(-1)<<63)...)
	case "int":
		set(append(wrong, abGone0{}, nil, "5", 1.5, json.Number("99999999999999999999"))...)
	case "uint":
		set(append(wrong, abGone0{}, nil, "5", -1, 1.5)...)
	case "bool":
		set(abGone0{}, nil, "true", 1)
	case "pos":
		set(append(wrong, abGone0{}, nil, "", "middle", "FRONT")...)
	case "dur":
		set(append(wrong, abGone0{}, nil, "1s", 0, -1, int64(-time.Second), int64(-1)<<63)...)
	case "dur0":
		set(append(wrong, "1s", 0, -1, int64(-time.Second), int64(-1)<<63)...)
	case "data":
		set(abGone0{}, nil, "", "!!", 5, true)
	case "nostate":
		set(jm{}, jm{"ID": "x"}, 5)
	case "val":
		set(nil, jm{}, jm{"Type": 14, "Data": "x"}, jm{"Type": 13}, jm{"Type": 2, "Data": "-4"}, 5, jm{"Type": 12, "Data": "NaN"})
	case "comp":
		set("", "==", 5, nil, "~")
	case "type":
		set(0, 14, -1, 1023, "x", 1025)
	case "belowmin":
		set(0, -1, "x")
	case "sel":
		set(jm{}, jm{"KeyValues": jm{}}, jm{"IDs": []any{}}, 5, []any{})
	case "join":
		set([]any{nil}, []any{jm{"Selection": jm{}}}, jm{}, 5, []any{5})
	}
	_, del := v.(abGone0)
	d := fmt.Sprintf("%s at %s", f.kind, strings.Join(f.path, "."))
	return abSet(doc, f.path, v, del), d
}

// weird changes places of the document at random.
func weird(r *Rand, doc any) any {
	vals := []any{nil, 0, -1, -2, 1, 5, int64(1) << 62, int64(-1) << 63, int64(1<<63 - 1), "", "x", strings.Repeat("k", 300), true, false, jm{}, []any{}, []any{nil}, 1.5, "1", "_associated_id"}
	var places []func()
	top := doc
	var walk func(x any)
	walk = func(x any) {
		m, ok := x.(jm)
		if !ok {
			return
		}
		keys := sortedKeys(m)
		for _, k := range keys {
			places = append(places, func() { m[k] = vals[r.Intn(len(vals))] }, func() { delete(m, k) })
			if k == "Type" || k == "MinDataType" || k == "MaxDataType" {
				places = append(places, func() { m[k] = pick(r, 1, 9, 12, 13, 1024) })
			}
			if k == "Data" {
				places = append(places, func() { m[k] = pick(r, "NaN", "Inf", "-0", "0", "é\x00", "1e400", "9223372036854775807") })
			}
			if k == "KeyValues" || k == "GroupByKeyValues" {
				if kv, ok := m[k].(jm); ok {
					places = append(places, func() {
						kv[pick(r, "_associated_id", "", "queue_name", "enqueued", "running", "_willow_queue_name", "_willow_running", "_willow_enqueued", "é")] = abVal(r)
					})
				}
			}
			if k == "And" || k == "Or" {
				if l, ok := m[k].([]any); ok {
					for _, e := range l {
						walk(e)
					}
				}
			}
			walk(m[k])
		}
	}
	walk(doc)
	for n := 1 + r.Intn(2); n > 0 && len(places) > 0; n-- {
		places[r.Intn(len(places))]()
	}
	return top
}

// do sends one request of an abuser.
func (a *abuse) do(o *Op) {
	s := S
	r := newRand(uint64(o.a(0)), "abuse")
	mode := pick(r, "valid", "valid", "bad", "bad", "weird", "canary")
	if o.a(1) >= 0 {
		mode = []string{"valid", "bad", "weird", "canary"}[o.a(1)%4]
	}
	tok := fmt.Sprintf("tok%dz", o.ID)
	num := int64(100000 + 7*o.ID)
	t, _ := a.tmpl(r, o.K, tok, num, mode == "canary")
	if mode == "canary" && t.none {
		mode = "valid"
		t, _ = a.tmpl(r, o.K, tok, num, false)
	}
	if t.none && mode != "valid" {
		mode = "weird"
	}
	hdr := map[string]string{"Content-Type": "application/json"}
	body := ""
	why := ""
	doc := t.body
	if !t.none {
		var cp any
		must(json.Unmarshal([]byte(mustJSON(doc)), &cp))
		doc = cp
	}
	switch mode {
	case "valid":
		if !t.none {
			body = mustJSON(doc)
		}
	case "weird":
		if t.none {
			body = pick(r, "{}", "null", "x", "")
		} else {
			body = mustJSON(weird(r, doc))
		}
	case "bad", "canary":
		p := r.Intn(100)
		switch {
		case p < 70 && len(t.fields) > 0:
			d, w := spoil(r, doc, t.fields[r.Intn(len(t.fields))])
			body, why = mustJSON(d), w
		case p < 80:
			body = mustJSON(doc)
			hdr, why = map[string]string{}, "no content type"
		case p < 90:
			body = mustJSON(doc)
			body, why = body[:r.Intn(len(body))], "cut"
		default:
			body, why = pick(r, "", "x", "[]", "7", `"s"`, "[{}]", "{", "nul"), "no document"
			if !t.query && r.P(20) {
				body = "null"
			}
		}
	}
	path := t.path
	if mode == "weird" && r.P(10) {
		path += pick(r, "/", "/x", "?a=b", "%20")
	}
	a.n++
	host := fmt.Sprintf("%s.a%d", a.svc, o.C)
	s.net.op(host, o.ID)
	a.byOp[o.ID] = &abSent{kind: o.K, mode: mode, tok: tok, num: num, waits: t.waits, why: why}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(o.a(2)))
	defer cancel()
	s.fault("abuse-"+mode, true)
	st, b, err := s.net.send(ctx, host, t.method, path, body, hdr)
	if err != nil {
		s.outcome(o.K + "." + mode + ".err")
		return
	}
	s.outcome(fmt.Sprintf("%s.%s.%d", o.K, mode, st))
	if st != 200 && st != 201 || t.none && o.K != "queues" {
		return
	}
	// remember the objects
	switch o.K {
	case "lock":
		if g := lkParseGrant(b); g.id != "" {
			a.pools["lock"] = append(a.pools["lock"], abObj{id: g.id, sess: g.sess})
		}
	case "rule":
		if id := lmID(b); id != "" {
			a.pools["rule"] = append(a.pools["rule"], abObj{id: id, kv: abAt(doc, []string{"Spec", "DBDefinition", "GroupByKeyValues"})})
		}
	case "over":
		if id := lmID(b); id != "" {
			p := strings.Split(path, "/")
			a.pools["over"] = append(a.pools["over"], abObj{id: id, rule: p[4]})
		}
	case "inc", "set":
		a.pools["counter"] = append(a.pools["counter"], abObj{kv: abAt(doc, []string{"Spec", "DBDefinition", "KeyValues"})})
	case "queue":
		if n, ok := abAt(doc, []string{"Spec", "DBDefinition", "Name"}).(string); ok {
			a.pools["queue"] = append(a.pools["queue"], abObj{q: n})
		}
	case "deq":
		it := jm{}
		if json.Unmarshal(b, &it) == nil {
			id, _ := abAt(it, []string{"State", "ID"}).(string)
			p := strings.Split(path, "/")
			a.pools["item"] = append(a.pools["item"], abObj{id: id, kv: abAt(it, []string{"Spec", "DBDefinition", "KeyValues"}), q: p[3]})
		}
	case "enq":
		p := strings.Split(path, "/")
		a.pools["item"] = append(a.pools["item"], abObj{id: "unknown", kv: abAt(doc, []string{"Spec", "DBDefinition", "KeyValues"}), q: p[3]})
	}
}

func (a *abuse) onBegin(c *Call) {
	x := a.byOp[c.Op]
	if x == nil || !strings.HasPrefix(c.Host, a.svc+".a") {
		return
	}
	if x.call == nil {
		x.call = c
		a.sent[c] = x
		a.list = append(a.list, x)
	} else {
		a.sent[c] = x // sent again by the transport
	}
}

func (a *abuse) onEnd(c *Call) {
	s := S
	x := a.sent[c]
	if x == nil {
		return
	}
	s.count("checks")
	if x.mode != "bad" && x.mode != "canary" || c.Panicked != "" {
		return
	}
	if x.call == c && (c.Status < 400 || c.Status >= 500) && !(c.WriteErr && c.Status == 0) {
		s.violate("A01", fmt.Sprintf("malformed-answer:%s:%d", x.kind, c.Status/100), "the malformed request (%s) %s %s %s was answered with %d %s", x.why, c.Method, c.Path, clip(string(c.Req)), c.Status, clip(string(c.Resp)+string(c.Tried)))
	}
}

func clip(x string) string {
	if len(x) > 400 {
		return x[:400] + "..."
	}
	return x
}

// send is raw with headers.
func (n *simNet) send(ctx context.Context, host, method, path, body string, hdr map[string]string) (int, []byte, error) {
	n.hdr = hdr
	return n.raw(ctx, host, method, path, body)
}

type canary struct {
	a    *abuse
	host string
	i    int
	n    int
	rule string
	over string
	q    string
	dead bool
}

// req is one request of a canary with the expected status.
func (k *canary) req(method, path, body string, want int) ([]byte, bool) {
	s := S
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	t0 := s.now()
	st, b, err := s.net.raw(ctx, k.host, method, path, body)
	s.count("checks")
	if d := s.now() - t0; d > abServe {
		s.violate("A01", "canary-slow:"+method+" "+canPath(path), "%s %s %s of a well-behaved client took %dms", method, path, clip(body), d/1000000)
		k.dead = true
		return b, false
	}
	if err != nil || st != want {
		s.violate("A01", "canary-answer:"+method+" "+canPath(path), "%s %s %s of a well-behaved client was answered with %d %s (%v) instead of %d", method, path, clip(body), st, clip(string(b)), err, want)
		k.dead = true
		return b, false
	}
	return b, true
}

// canPath drops the identifiers of a path.
func canPath(p string) string {
	l := strings.Split(p, "/")
	for i, x := range l {
		if len(x) > 12 || strings.HasPrefix(x, "can") {
			l[i] = "_"
		}
	}
	return strings.Join(l, "/")
}

func (k *canary) bad(sig, format string, args ...any) {
	k.dead = true
	S.violate("A01", "canary-"+sig, format, args...)
}

func (k *canary) kv() datatypes.KeyValues {
	return datatypes.KeyValues{"can": datatypes.String(fmt.Sprintf("can%d", k.i))}
}

func (k *canary) exact() string {
	return mustJSON(queryassociatedaction.KeyValuesToExactAssociatedActionQuery(k.kv()))
}

func (k *canary) setup() {
	switch k.a.svc {
	case "limiter":
		b, ok := k.req("POST", "/v1/limiter/rules", lmRuleBody(datatypes.KeyValues{"can": datatypes.String(fmt.Sprintf("can%d", k.i))}, 2), 201)
		if !ok {
			return
		}
		k.rule = lmID(b)
		kv := k.kv()
		kv["o"] = datatypes.Any()
		if b, ok = k.req("POST", "/v1/limiter/rules/"+k.rule+"/overrides", lmOverrideBody(kv, 1), 201); !ok {
			return
		}
		k.over = lmID(b)
		k.a.can["rule"] = append(k.a.can["rule"], abObj{id: k.rule})
		k.a.can["over"] = append(k.a.can["over"], abObj{id: k.over, rule: k.rule})
		k.a.can["counter"] = append(k.a.can["counter"], abObj{kv: jm{"can": jm{"Type": 13, "Data": fmt.Sprintf("can%d", k.i)}}})
	case "willow":
		k.q = fmt.Sprintf("can%d", k.i)
		if _, ok := k.req("POST", "/v1/queues", wlQueueBody(k.q, 2), 201); ok {
			k.a.can["queue"] = append(k.a.can["queue"], abObj{q: k.q})
		}
	}
}

// round is one round of well-behaved requests.
func (k *canary) round(wait int64) {
	s := S
	if k.dead {
		return
	}
	k.n++
	switch k.a.svc {
	case "locker":
		b, ok := k.req("POST", "/v1/locks", lkBody(k.kv(), int64(3*time.Second)), 200)
		if !ok {
			return
		}
		g := lkParseGrant(b)
		k.a.can["lock"] = append(k.a.can["lock"][:0:0], append(k.a.can["lock"], abObj{id: g.id, sess: g.sess})...)
		time.Sleep(time.Duration(wait))
		if _, ok = k.req("POST", "/v1/locks/"+g.id+"/heartbeat", lkClaim(g.sess), 200); !ok {
			return
		}
		if b, ok = k.req("GET", "/v1/locks", k.exact(), 200); !ok {
			return
		}
		var ls v1locker.Locks
		if json.Unmarshal(b, &ls) != nil || len(ls) != 1 || ls[0].State.SessionID != g.sess || ls[0].State.LocksHeldOrWaiting != 1 {
			k.bad("locks", "the lock %s held by session %s is listed as %s", g.id, g.sess, b)
			return
		}
		// no longer aimed at once it is released
		k.a.can["lock"] = dropObj(k.a.can["lock"], g.id)
		k.req("DELETE", "/v1/locks/"+g.id, lkClaim(g.sess), 204)
	case "limiter":
		want := int64(2)
		kv := k.kv()
		if k.n%2 == 0 {
			kv["o"], want = datatypes.String("v"), 1
		}
		for i := int64(0); i < want; i++ {
			if _, ok := k.req("PUT", "/v1/limiter/counters", lmCounterBody(kv, 1), 200); !ok {
				return
			}
		}
		if _, ok := k.req("PUT", "/v1/limiter/counters", lmCounterBody(kv, 1), 409); !ok {
			return
		}
		time.Sleep(time.Duration(wait))
		b, ok := k.req("GET", "/v1/limiter/counters/query", mustJSON(queryassociatedaction.KeyValuesToExactAssociatedActionQuery(kv)), 200)
		if !ok {
			return
		}
		var cs v1limiter.Counters
		if json.Unmarshal(b, &cs) != nil || len(cs) != 1 || *cs[0].Spec.Properties.Counters != want {
			k.bad("counters", "the counter with the value %d is listed as %s", want, b)
			return
		}
		if _, ok = k.req("PUT", "/v1/limiter/counters", lmCounterBody(kv, -want), 200); !ok {
			return
		}
		if b, ok = k.req("GET", "/v1/limiter/rules/"+k.rule, "", 200); !ok {
			return
		}
		ru := &v1limiter.Rule{}
		if json.Unmarshal(b, ru) != nil || *ru.Spec.Properties.Limit != 2 {
			k.bad("rule", "the rule with the limit 2 is %s", b)
			return
		}
		if b, ok = k.req("GET", "/v1/limiter/rules/"+k.rule+"/overrides/"+k.over, "", 200); !ok {
			return
		}
		ov := &v1limiter.Override{}
		if json.Unmarshal(b, ov) != nil || *ov.Spec.Properties.Limit != 1 {
			k.bad("override", "the override with the limit 1 is %s", b)
		}
	case "willow":
		items := "/v1/queues/" + k.q + "/channels/items"
		for i := 0; i < 3; i++ {
			st := 201
			if i == 2 {
				st = 409
			}
			if _, ok := k.req("POST", items, wlItemBody(k.kv(), fmt.Sprintf("c%d.%d", k.n, i), false, 1, "back", time.Minute), st); !ok {
				return
			}
		}
		for i := 0; i < 2; i++ {
			b, ok := k.req("GET", items, "{}", 200)
			if !ok {
				return
			}
			it := &v1willow.Item{}
			if json.Unmarshal(b, it) != nil || it.State == nil || string(it.Spec.Properties.Data) != fmt.Sprintf("c%d.%d", k.n, i) {
				k.bad("item", "the item c%d.%d was handed out as %s", k.n, i, b)
				return
			}
			o := abObj{id: it.State.ID, q: k.q, kv: jm{"can": jm{"Type": 13, "Data": fmt.Sprintf("can%d", k.i)}}}
			k.a.can["item"] = append(k.a.can["item"], o)
			time.Sleep(time.Duration(wait))
			if _, ok := k.req("POST", items+"/heartbeat", wlHbBody(o.id, k.kv()), 200); !ok {
				return
			}
			if b, ok = k.req("GET", "/v1/queues/"+k.q+"/channels", "{}", 200); !ok {
				return
			}
			var ch v1willow.Channels
			if json.Unmarshal(b, &ch) != nil || len(ch) != 1 || kvStr(datatypes.KeyValues(ch[0].Spec.DBDefinition.KeyValues)) != kvStr(k.kv()) {
				k.bad("channels", "the channels of the queue with items only for %s are %s", kvStr(k.kv()), b)
				return
			}
			k.a.can["item"] = dropObj(k.a.can["item"], o.id)
			if _, ok := k.req("POST", items+"/ack", wlAckBody(o.id, k.kv(), true), 200); !ok {
				return
			}
		}
		b, ok := k.req("GET", "/v1/queues/"+k.q, "", 200)
		if !ok {
			return
		}
		q := &v1willow.Queue{}
		if json.Unmarshal(b, q) != nil || *q.Spec.Properties.MaxItems != 2 {
			k.bad("queue", "the queue with at most 2 items is %s", b)
		}
	}
	if !k.dead {
		s.outcome("canary")
	}
}

func dropObj(l []abObj, id string) []abObj {
	var n []abObj
	for _, o := range l {
		if o.id != id {
			n = append(n, o)
		}
	}
	return n
}

func runAbuse() {
	s := S
	svc := s.plan.Profile
	faulty := s.param("faulty", func(r *Rand) int64 { return pick(r, int64(0), 0, 1) })
	ncan := int(s.param("canaries", func(r *Rand) int64 { return pick(r, int64(1), 1, 2) }))
	a := &abuse{svc: svc, sent: map[*Call]*abSent{}, byOp: map[int]*abSent{}, pools: map[string][]abObj{}, can: map[string][]abObj{}}
	s.net.rates = func(host string) *Rates {
		rt := &Rates{MinLat: 50 * time.Microsecond, MaxLat: time.Millisecond}
		if faulty > 0 && strings.HasPrefix(host, svc+".a") {
			rt.LostResp, rt.WriteFail, rt.Cut, rt.Retry, rt.Trunc = 2, 5, 10, 3, 2
			rt.MaxCut = 20 * time.Millisecond
		}
		return rt
	}
	s.net.onBegin, s.net.onEnd = a.onBegin, a.onEnd
	s.status = s.unanswered
	s.startLocker(time.Second)
	if svc != "locker" {
		s.startLimiter()
	}
	if svc == "willow" {
		s.startWillow()
		for _, q := range []string{"x", "y"} {
			if st, b, err := s.net.raw(context.Background(), "willow.setup", "POST", "/v1/queues", wlQueueBody(q, -1)); st != 201 {
				s.violate("A01", "setup", "creating the queue %s failed: %d %s %v", q, st, b, err)
				return
			}
			a.pools["queue"] = append(a.pools["queue"], abObj{q: q})
		}
	}
	ops := s.ops(func(r *Rand) []Op {
		var ops []Op
		n := pick(r, 3, 6, 12)
		nc := 1 + r.Intn(3)
		span := pick(r, int64(0), int64(3*time.Millisecond), int64(50*time.Millisecond))
		id := 1
		for c := 0; c < nc; c++ {
			for i := 0; i < n; i++ {
				k := pick(r, abKinds[svc]...)
				to := pick(r, r.Dur(time.Millisecond, 10*time.Millisecond), r.Dur(50*time.Millisecond, 2*time.Second), int64(10*time.Second), int64(10*time.Second))
				if k == "lock" || k == "deq" {
					to = pick(r, r.Dur(time.Millisecond, 10*time.Millisecond), r.Dur(10*time.Millisecond, 500*time.Millisecond))
				}
				ops = append(ops, Op{C: c, K: k, ID: id, D: r.I64(span + 1), A: []int64{r.I64(1 << 40), -1, to}})
				id++
			}
		}
		for c := 0; c < ncan; c++ {
			for i := 0; i < pick(r, 1, 2, 3); i++ {
				ops = append(ops, Op{C: 100 + c, K: "canary", ID: id, D: r.I64(span + 1), A: []int64{pick(r, int64(0), r.Dur(0, 5*time.Millisecond), r.Dur(0, 50*time.Millisecond))}})
				id++
			}
		}
		return ops
	})
	cans := map[int]*canary{}
	for i := 0; i < ncan; i++ {
		k := &canary{a: a, host: fmt.Sprintf("%s.can%d", svc, i), i: i}
		cans[100+i] = k
		k.setup()
		if k.dead {
			return
		}
	}
	s.runClients(ops, func(o *Op) {
		if o.K == "canary" {
			s.net.op(cans[o.C].host, o.ID)
			cans[o.C].round(o.a(0))
		} else {
			a.do(o)
		}
	})
	s.heal = true
	time.Sleep(time.Duration(abGone))
	// the services still work for everybody
	for i := 0; i < ncan; i++ {
		cans[100+i].round(0)
	}
	a.final(cans[100])
}

// final checks that every request was answered and that rejected ones left nothing.
func (a *abuse) final(k *canary) {
	s := S
	lim := s.now() + abPrompt
	for s.now() < lim {
		busy := false
		for _, c := range s.net.calls {
			busy = busy || c.Handled && !c.Returned
		}
		if !busy {
			break
		}
		time.Sleep(50 * time.Millisecond)
	}
	for _, c := range s.net.calls {
		x := a.sent[c]
		if x == nil {
			continue
		}
		s.count("checks")
		end := s.now()
		if c.Returned {
			end = c.EndAt
		}
		from, bound := c.BegAt, abPrompt
		if x.waits {
			if !c.Disconnected {
				continue
			}
			from, bound = c.DiscAt, abGone
		}
		if end-from > bound && c.Panicked == "" {
			s.violate("A01", "unanswered:"+x.kind, "%s %s %s (%s) began at %dus and was answered at %dus", c.Method, c.Path, clip(string(c.Req)), x.mode, c.BegAt/1000, end/1000)
		}
	}
	if k.dead {
		return
	}
	// everything there is
	var all []string
	get := func(path, body string) string {
		ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
		defer cancel()
		st, b, err := s.net.raw(ctx, k.host, "GET", path, body)
		if st != 200 {
			s.violate("A01", "listing:"+path, "GET %s %s at the end was answered with %d %s (%v)", path, body, st, clip(string(b)), err)
		}
		all = append(all, string(b))
		return string(b)
	}
	switch a.svc {
	case "locker":
		get("/v1/locks", "{}")
	case "limiter":
		get("/v1/limiter/counters/query", "{}")
		var rules v1limiter.Rules
		_ = json.Unmarshal([]byte(get("/v1/limiter/rules/query", "{}")), &rules)
		for _, ru := range rules {
			if ru.State != nil && ru.State.ID != "" {
				get("/v1/limiter/rules/"+ru.State.ID+"/overrides/query", "{}")
			}
		}
	case "willow":
		var queues v1willow.Queues
		_ = json.Unmarshal([]byte(get("/v1/queues", "")), &queues)
		for _, q := range queues {
			if n := *q.Spec.DBDefinition.Name; !strings.ContainsAny(n, "/ %?\x00") && len(n) < 100 {
				get("/v1/queues/"+n+"/channels", "{}")
			}
		}
	}
	text := strings.Join(all, "\n")
	for _, x := range a.list {
		c := x.call
		if c == nil || c.Status != 400 {
			continue
		}
		s.count("checks")
		if strings.Contains(text, x.tok) || strings.Contains(text, fmt.Sprintf(":%d,", x.num)) || strings.Contains(text, fmt.Sprintf(":%d}", x.num)) {
			s.violate("A01", "rejected-effect:"+x.kind, "the rejected request %s %s %s (400 %s) left %s or %d in %s", c.Method, c.Path, clip(string(c.Req)), clip(string(c.Resp)), x.tok, x.num, clip(text))
		}
	}
}

var _ = http.MethodGet
var _ = helpers.PointerOf[int]
var _ = v1common.Equals
