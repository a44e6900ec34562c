package main

import (
	"fmt"
	"sort"
	"strings"
)

// LinOp is one operation of a history. Ret==0 means it never returned; it may
// have taken effect at any time after Call or not at all.
type LinOp struct {
	Call, Ret uint64
	In        any
	Out       any
	Desc      string
	Optional  bool // may be left out although it returned (outcome unknown)
}

// Model is a sequential specification. Step returns the possible next states
// (none if the operation with this result is impossible in the state).
type Model struct {
	Init any
	Step func(st any, op *LinOp) []any
	Key  func(st any) string
}

// linearizable decides whether the history has a linearization (Wing-Gong
// search with memoisation). The second result is false when the search gave up.
func linearizable(m *Model, ops []LinOp, budget int) (ok bool, decided bool, best []int) {
	sort.SliceStable(ops, func(i, j int) bool { return ops[i].Call < ops[j].Call })
	n := len(ops)
	done := make([]bool, n)
	mandatory := 0
	for i := range ops {
		if ops[i].Ret != 0 && !ops[i].Optional {
			mandatory++
		}
	}
	seen := map[string]bool{}
	var order []int
	gave := false
	var rec func(st any, left int) bool
	rec = func(st any, left int) bool {
		if left == 0 {
			return true
		}
		if len(order) > len(best) {
			best = append(best[:0], order...)
		}
		budget--
		if budget < 0 {
			gave = true
			return false
		}
		var kb strings.Builder
		for i := range done {
			if done[i] {
				kb.WriteByte('1')
			} else {
				kb.WriteByte('0')
			}
		}
		kb.WriteByte('|')
		kb.WriteString(m.Key(st))
		k := kb.String()
		if seen[k] {
			return false
		}
		seen[k] = true
		// the earliest return among the operations that must still happen
		minRet := ^uint64(0)
		for i := range ops {
			if !done[i] && ops[i].Ret != 0 && !ops[i].Optional && ops[i].Ret < minRet {
				minRet = ops[i].Ret
			}
		}
		for i := range ops {
			if done[i] {
				continue
			}
			if ops[i].Call > minRet {
				break
			}
			for _, ns := range m.Step(st, &ops[i]) {
				done[i] = true
				order = append(order, i)
				l := left
				if ops[i].Ret != 0 && !ops[i].Optional {
					l--
				}
				if rec(ns, l) {
					return true
				}
				order = order[:len(order)-1]
				done[i] = false
				if gave {
					return false
				}
			}
		}
		return false
	}
	ok = rec(m.Init, mandatory)
	if ok {
		best = append([]int(nil), order...)
	}
	return ok, !gave, best
}

func describe(ops []LinOp, best []int) string {
	var b strings.Builder
	for i := range ops {
		fmt.Fprintf(&b, "[%d..%d] %s; ", ops[i].Call, ops[i].Ret, ops[i].Desc)
	}
	b.WriteString(" longest explainable prefix:")
	for _, i := range best {
		b.WriteString(" " + ops[i].Desc + ",")
	}
	s := b.String()
	if len(s) > 3000 {
		s = s[:3000] + "..."
	}
	return s
}
