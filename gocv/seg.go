package main

import "sync"

// Ground instantiation of the theory of array segments.
//
//	seg(a, lo, hi)  = the list a[lo], ..., a[hi-1]   (empty if hi <= lo)
//
// Every fact below is a consequence of that definition (and, for arrays made by copying, of the
// definition of the copy); the solver never sees a quantified axiom about seg.

type copyDef struct {
	lo, n, src, slo, base *Term // na = base with [lo,lo+n) replaced by src[slo,slo+n); base may be nil
}

var segMu sync.RWMutex
var copies = map[int]copyDef{}

func segFacts(ts []*Term) []*Term {
	var work []*Term
	seen := map[int]bool{}
	level := map[int]int{}
	byLo := map[[3]interface{}][]*Term{} // op, array, lo
	byHi := map[[3]interface{}][]*Term{}
	walk(ts, func(t *Term) {
		if (t.op == "seg" || t.op == "segS") && !hasBVar(t) && !seen[t.id] {
			seen[t.id] = true
			work = append(work, t)
		}
	})
	if len(work) == 0 {
		return nil
	}
	q := newIneqs(ts)
	cond := func(c *Term) *Term {
		switch q.val(c) {
		case 1:
			return tTrue
		case -1:
			return tFalse
		}
		return c
	}
	var out []*Term
	emitted := map[int]bool{}
	emit := func(t *Term) {
		if t != tTrue && !emitted[t.id] {
			emitted[t.id] = true
			out = append(out, t)
		}
	}
	names := func(t *Term) (app, ctor, nl, ln string, ls Sort) {
		if t.op == "segS" {
			return "sapp", "scons", "snil", "sslen", sSL
		}
		return "iapp", "icons", "inil", "ilen", sIL
	}
	for len(work) > 0 && len(out) < 5000 {
		t := work[0]
		work = work[1:]
		lv := level[t.id]
		app, ctor, nl, ln, ls := names(t)
		a, lo, hi := t.args[0], t.args[1], t.args[2]
		nilT := rawTerm(nl, ls)
		seg := func(a, l, h *Term) *Term {
			if cond(mkLe(h, l)) == tTrue {
				return nilT
			}
			n := rawTerm(t.op, ls, a, l, h)
			if !seen[n.id] && !hasBVar(n) {
				seen[n.id] = true
				level[n.id] = lv + 1
				work = append(work, n)
			}
			return n
		}
		cat := func(xs ...*Term) *Term {
			var r *Term
			for i := len(xs) - 1; i >= 0; i-- {
				if xs[i] == nilT {
					continue
				}
				if r == nil {
					r = xs[i]
				} else {
					r = rawTerm(app, ls, xs[i], r)
				}
			}
			if r == nil {
				r = nilT
			}
			return r
		}
		// length, emptiness, first and last element
		emit(mkImp(mkLe(hi, lo), mkEq(t, nilT)))
		emit(mkEq(mkApp(ln, sInt, t), mkIte(mkLe(lo, hi), mkSub(hi, lo), tZero)))
		if lv < 4 {
			rest := rawTerm(t.op, ls, a, mkAdd(lo, tOne), hi)
			if mkLe(hi, mkAdd(lo, tOne)) == tTrue {
				rest = nilT
			}
			emit(mkImp(mkLt(lo, hi), mkEq(t, mkApp(ctor, ls, mkSelect(a, lo), rest))))
			h1 := mkSub(hi, tOne)
			emit(mkImp(mkLt(lo, hi), mkEq(t, rawTerm(app, ls, rawTerm(t.op, ls, a, lo, h1), mkApp(ctor, ls, mkSelect(a, h1), nilT)))))
		}
		if lv > 6 {
			continue
		}
		switch a.op {
		case "store":
			i, v, b := a.args[1], a.args[2], a.args[0]
			if c := cond(mkOr(mkLt(i, lo), mkLe(hi, i))); c != tFalse {
				emit(mkImp(c, mkEq(t, seg(b, lo, hi))))
			}
			if c := cond(mkAnd(mkLe(lo, i), mkLt(i, hi))); c != tFalse {
				emit(mkImp(c, mkEq(t, cat(seg(b, lo, i), mkApp(ctor, ls, v, seg(b, mkAdd(i, tOne), hi))))))
			}
		case "ite":
			emit(mkImp(a.args[0], mkEq(t, seg(a.args[1], lo, hi))))
			emit(mkImp(mkNot(a.args[0]), mkEq(t, seg(a.args[2], lo, hi))))
		case "select":
			if a.args[0].op == "store" {
				e := cond(mkEq(a.args[0].args[1], a.args[1]))
				if e != tFalse {
					emit(mkImp(e, mkEq(t, seg(a.args[0].args[2], lo, hi))))
				}
				if e != tTrue {
					emit(mkImp(mkNot(e), mkEq(t, seg(mkSelect(a.args[0].args[0], a.args[1]), lo, hi))))
				}
			} else if a.args[0].op == "ite" {
				c := a.args[0]
				emit(mkImp(c.args[0], mkEq(t, seg(mkSelect(c.args[1], a.args[1]), lo, hi))))
				emit(mkImp(mkNot(c.args[0]), mkEq(t, seg(mkSelect(c.args[2], a.args[1]), lo, hi))))
			}
		default:
			segMu.RLock()
			c, ok := copies[a.id]
			segMu.RUnlock()
			if !ok {
				break
			}
			l0, h0 := c.lo, mkAdd(c.lo, c.n)
			d := mkSub(c.slo, c.lo)
			when := func(c *Term, f func() *Term) {
				if c = cond(c); c != tFalse {
					emit(mkImp(c, mkEq(t, f())))
				}
			}
			src := func(l, h *Term) *Term { return seg(c.src, mkAdd(l, d), mkAdd(h, d)) }
			when(mkAnd(mkLe(l0, lo), mkLe(hi, h0)), func() *Term { return src(lo, hi) })
			if c.base != nil {
				b := func(l, h *Term) *Term { return seg(c.base, l, h) }
				ok := mkLe(tZero, c.n)
				when(mkOr(mkLe(hi, l0), mkLe(h0, lo)), func() *Term { return b(lo, hi) })
				when(mkAnd(ok, mkLe(lo, l0), mkLe(h0, hi)), func() *Term { return cat(b(lo, l0), src(l0, h0), b(h0, hi)) })
				when(mkAnd(ok, mkLe(l0, lo), mkLe(lo, h0), mkLe(h0, hi)), func() *Term { return cat(src(lo, h0), b(h0, hi)) })
				when(mkAnd(ok, mkLe(lo, l0), mkLe(l0, hi), mkLe(hi, h0)), func() *Term { return cat(b(lo, l0), src(l0, hi)) })
			}
		}
		// splits between segments that share an end
		if lv > 3 || a.op == "constarr" {
			continue
		}
		kl, kh := [3]interface{}{t.op, a.id, lo.id}, [3]interface{}{t.op, a.id, hi.id}
		split := func(l, m, h *Term) {
			c := cond(mkAnd(mkLe(l, m), mkLe(m, h)))
			if c == tFalse || l == m || m == h {
				return
			}
			emit(mkImp(c, mkEq(seg(a, l, h), cat(seg(a, l, m), seg(a, m, h)))))
		}
		for _, o := range byLo[kl] {
			split(lo, o.args[2], hi)
			split(lo, hi, o.args[2])
		}
		for _, o := range byHi[kh] {
			split(lo, o.args[1], hi)
			split(o.args[1], lo, hi)
		}
		byLo[kl] = append(byLo[kl], t)
		byHi[kh] = append(byHi[kh], t)
	}
	return out
}
