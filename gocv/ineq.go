package main

import (
	"fmt"
	"sort"
	"strings"
)

// ineqs is a small decision aid: it recognises some consequences of the ground linear hypotheses,
// so that useless instances need not be generated. It is never used to discharge an obligation.
type ineqs struct {
	hs    []lvec
	byKey map[string]int64 // vector -> largest c with vec + c <= 0 known
	neq   map[int]bool     // negated equalities that are hypotheses
	eq    map[int]bool
}

type lvec struct {
	m map[int]int64
	c int64
}

func vecOf(a, b *Term) (lvec, bool) { // a - b
	l := linOf(a)
	l.add(b, bigNeg1)
	v := lvec{m: map[int]int64{}}
	if !l.c.IsInt64() {
		return v, false
	}
	v.c = l.c.Int64()
	for id, k := range l.m {
		if !k.IsInt64() {
			return v, false
		}
		v.m[id] = k.Int64()
	}
	return v, true
}

func (v lvec) key() string {
	ids := make([]int, 0, len(v.m))
	for id := range v.m {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	var b strings.Builder
	for _, id := range ids {
		fmt.Fprintf(&b, "%d:%d,", id, v.m[id])
	}
	return b.String()
}

func newIneqs(hyps []*Term) *ineqs {
	q := &ineqs{byKey: map[string]int64{}, neq: map[int]bool{}, eq: map[int]bool{}}
	addLe := func(v lvec) {
		k := v.key()
		if c, ok := q.byKey[k]; !ok || v.c > c {
			q.byKey[k] = v.c
			q.hs = append(q.hs, v)
		}
	}
	var add func(t *Term, neg bool)
	add = func(t *Term, neg bool) {
		switch t.op {
		case "not":
			add(t.args[0], !neg)
		case "and":
			if !neg {
				for _, a := range t.args {
					add(a, false)
				}
			}
		case "or":
			if neg {
				for _, a := range t.args {
					add(a, true)
				}
			}
		case "<=", "<", ">=", ">":
			a, b := t.args[0], t.args[1]
			op := t.op
			if op == ">=" {
				a, b, op = b, a, "<="
			} else if op == ">" {
				a, b, op = b, a, "<"
			}
			if neg {
				a, b = b, a
				if op == "<=" {
					op = "<"
				} else {
					op = "<="
				}
			}
			if v, ok := vecOf(a, b); ok {
				if op == "<" {
					v.c++
				}
				addLe(v)
			}
		case "=":
			if t.args[0].sort != sInt {
				return
			}
			if neg {
				q.neq[t.id] = true
				return
			}
			q.eq[t.id] = true
			if v, ok := vecOf(t.args[0], t.args[1]); ok {
				addLe(v)
			}
			if v, ok := vecOf(t.args[1], t.args[0]); ok {
				addLe(v)
			}
		}
	}
	for _, h := range hyps {
		add(h, false)
	}
	if len(q.hs) > 300 {
		q.hs = q.hs[len(q.hs)-300:]
	}
	return q
}

// le: is v <= 0 known
func (q *ineqs) le(v lvec, depth int) bool {
	if len(v.m) == 0 {
		return v.c <= 0
	}
	if c, ok := q.byKey[v.key()]; ok && c >= v.c {
		return true
	}
	if depth == 0 {
		return false
	}
	for _, h := range q.hs {
		share := false
		for id, k := range h.m {
			if g, ok := v.m[id]; ok && g == k {
				share = true
				break
			}
		}
		if !share {
			continue
		}
		n := lvec{m: map[int]int64{}, c: v.c - h.c}
		for id, k := range v.m {
			n.m[id] = k
		}
		for id, k := range h.m {
			n.m[id] -= k
			if n.m[id] == 0 {
				delete(n.m, id)
			}
		}
		if len(n.m) >= len(v.m) && depth == 1 {
			continue
		}
		if len(n.m) > len(v.m)+1 {
			continue
		}
		if q.le(n, depth-1) {
			return true
		}
	}
	return false
}

// val: 1 if the condition is known true, -1 if known false, 0 otherwise
func (q *ineqs) val(t *Term) int {
	switch t.op {
	case "true":
		return 1
	case "false":
		return -1
	case "not":
		return -q.val(t.args[0])
	case "and":
		r := 1
		for _, a := range t.args {
			v := q.val(a)
			if v < 0 {
				return -1
			}
			if v == 0 {
				r = 0
			}
		}
		return r
	case "or":
		r := -1
		for _, a := range t.args {
			v := q.val(a)
			if v > 0 {
				return 1
			}
			if v == 0 {
				r = 0
			}
		}
		return r
	case "<=", "<":
		if v, ok := vecOf(t.args[0], t.args[1]); ok {
			w := v
			if t.op == "<" {
				w.c++
			}
			if q.le(w, 2) {
				return 1
			}
		}
		if v, ok := vecOf(t.args[1], t.args[0]); ok {
			if t.op == "<=" {
				v.c++
			}
			if q.le(v, 2) {
				return -1
			}
		}
	case "=":
		if q.neq[t.id] {
			return -1
		}
		if q.eq[t.id] {
			return 1
		}
		if t.args[0].sort == sInt {
			if v, ok := vecOf(t.args[0], t.args[1]); ok {
				v.c++
				if q.le(v, 2) {
					return -1
				}
			}
			if v, ok := vecOf(t.args[1], t.args[0]); ok {
				v.c++
				if q.le(v, 2) {
					return -1
				}
			}
		}
	}
	return 0
}
