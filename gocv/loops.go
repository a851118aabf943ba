package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Cand is a candidate loop invariant (or termination measure) of one loop.
type Cand struct {
	id      string
	loop    string
	variant bool
	user    bool
	eval    func(fr *Frame, st, entry *State, entryEnv map[ssa.Value]Val) (*Term, error)
}

// short is the candidate's name without the loop's
func (c *Cand) short() string {
	if i := strings.Index(c.id, " "); i >= 0 {
		return c.id[i+1:]
	}
	return c.id
}

type scopeVal struct {
	label string
	typ   string
	get   func(fr *Frame, st *State) (Val, bool)
	gt    types.Type
	phi   bool
	idx   int // loop counters: 1 if the current index is the value itself, 2 if it is one more, 3 if unknown
}

// counter tells whether a phi counts iterations by ones
func counter(v ssa.Value) int {
	p, ok := v.(*ssa.Phi)
	if !ok {
		return 0
	}
	b := p.Block()
	n, off := 0, 0
	for i, e := range p.Edges {
		if b.Dominates(b.Preds[i]) {
			add, ok := e.(*ssa.BinOp)
			if !ok || add.Op != token.ADD || add.X != ssa.Value(p) {
				return 0
			}
			if c, ok := add.Y.(*ssa.Const); !ok || c.Value == nil || c.Int64() != 1 {
				return 0
			}
			n++
		} else {
			o := 3
			if c, ok := e.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
				switch c.Int64() {
				case 0:
					o = 1
				case -1:
					o = 2
				}
			}
			off |= o
		}
	}
	if n == 0 {
		return 0
	}
	return off
}

// scope lists the program values visible at a loop header
func (x *Exec) scope(fr *Frame, h *ssa.BasicBlock, phis []*ssa.Phi) []scopeVal {
	var out []scopeVal
	add := func(v ssa.Value, label string, phi bool, f *Frame) {
		t := v.Type()
		depth := f.depth
		look := func(cur *Frame) *Frame {
			for cur != nil && cur.depth > depth {
				cur = cur.parent
			}
			return cur
		}
		if _, isR := v.(*ssa.Range); isR {
			out = append(out, scopeVal{label, "iter", func(fr *Frame, st *State) (Val, bool) {
				g := look(fr)
				if g == nil {
					return nil, false
				}
				rv, ok := g.env[v].(RangeV)
				if !ok {
					return nil, false
				}
				t, ok := st.mem[rv.comp]
				return t, ok
			}, nil, phi, 0})
			return
		}
		out = append(out, scopeVal{label, x.V.typeKey(t), func(fr *Frame, st *State) (Val, bool) {
			g := look(fr)
			if g == nil {
				return nil, false
			}
			r, ok := g.env[v]
			return r, ok
		}, t, phi, counter(v)})
		if al, ok := v.(*ssa.Alloc); ok {
			et := al.Type().(*types.Pointer).Elem()
			if _, isS := under(et).(*types.Struct); !isS {
				if _, isA := under(et).(*types.Array); !isA {
					out = append(out, scopeVal{"*" + label, x.V.typeKey(et), func(fr *Frame, st *State) (Val, bool) {
						g := look(fr)
						if g == nil {
							return nil, false
						}
						r, ok := g.env[v].(*Term)
						if !ok {
							return nil, false
						}
						return x.loadPure(st, "C:"+x.V.typeKey(et), r, et), true
					}, et, true, 0})
				}
			}
		}
	}
	for _, p := range phis {
		add(p, p.Name(), true, fr)
	}
	for _, p := range fr.fn.Params {
		add(p, p.Name(), false, fr)
	}
	for _, p := range fr.fn.FreeVars {
		add(p, p.Name(), false, fr)
	}
	loops := fr.loops
	for _, b := range fr.fn.Blocks {
		if b == h || !b.Dominates(h) {
			continue
		}
		// the variables of a loop that is over do not change
		over := loops[b] != nil && !loops[b][h]
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				if _, ok := v.(*ssa.Phi); ok {
					add(v, v.Name(), !over, fr)
				} else {
					add(v, v.Name(), false, fr)
				}
			}
		}
	}
	// callers: variables that may change
	for f := fr.parent; f != nil; f = f.parent {
		var vs []ssa.Value
		for v := range f.env {
			switch v.(type) {
			case *ssa.Alloc, *ssa.Phi, *ssa.Range:
				vs = append(vs, v)
			case *ssa.Parameter:
				vs = append(vs, v)
			}
		}
		sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
		for _, v := range vs {
			add(v, fmt.Sprintf("^%d%s", fr.depth-f.depth, v.Name()), false, f)
		}
	}
	return out
}

func (x *Exec) envFor(fr *Frame, st, entry *State, vars map[string]SV) *Env {
	m := map[string]SV{}
	for k, v := range x.specVars {
		m[k] = v
	}
	if x.lateVars != nil {
		for k, v := range x.lateVars(st) {
			m[k] = v
		}
	}
	for k, v := range vars {
		m[k] = v
	}
	return &Env{x: x, st: st, old: x.oldSt, entry: entry, vars: m, late: x.lateVars}
}

func (x *Exec) candidates(fr *Frame, key string, h *ssa.BasicBlock, phis []*ssa.Phi, entry *State, entryEnv map[ssa.Value]Val) []*Cand {
	var out []*Cand
	add := func(c *Cand) {
		c.id = key + " " + c.id
		c.loop = key
		if x.candDead[c.id] || x.candOnly != nil && !x.candOnly[c.id] {
			return
		}
		x.candAll[c.id] = c.variant
		out = append(out, c)
	}
	sc := x.scope(fr, h, phis)
	// loop counters (type idx) and other integer variables (type acc)
	anyIdx, noAcc := false, true
	for _, s := range sc {
		if s.typ == "int" && s.phi {
			if s.idx != 0 {
				anyIdx = true
			} else {
				noAcc = false
			}
		}
	}
	// user templates
	for ti := range x.tmpls {
		t := x.tmpls[ti]
		var rec func(i int, vars map[string]func(*Frame, *State) (Val, bool), tys map[string]types.Type, label string)
		rec = func(i int, vars map[string]func(*Frame, *State) (Val, bool), tys map[string]types.Type, label string) {
			if i == len(t.vars) {
				vs := map[string]func(*Frame, *State) (Val, bool){}
				for k, v := range vars {
					vs[k] = v
				}
				ty := map[string]types.Type{}
				for k, v := range tys {
					ty[k] = v
				}
				c := &Cand{id: fmt.Sprintf("t%d%s", ti, label), variant: t.kind == "variant", user: true}
				c.eval = func(fr *Frame, st, entry *State, entryEnv map[ssa.Value]Val) (*Term, error) {
					m := map[string]SV{}
					em := map[string]SV{}
					for k, f := range vs {
						v, ok := f(fr, st)
						if !ok {
							return nil, fmt.Errorf("no value")
						}
						m[k] = SV{v, ty[k]}
						ef := *fr
						ef.env = entryEnv
						if ev, ok := f(&ef, entry); ok {
							em[k] = SV{ev, ty[k]}
						}
					}
					e := x.envFor(fr, st, entry, m)
					e.entryVars = map[string]SV{}
					for k, v := range x.specVars {
						e.entryVars[k] = v
					}
					for k, v := range em {
						e.entryVars[k] = v
					}
					return e.safeTerm(t.e)
				}
				add(c)
				return
			}
			v := t.vars[i]
			vtyp := v.typ
			if vtyp == "idx" || vtyp == "acc" {
				vtyp = "int"
			}
			for _, s := range sc {
				s := s
				if s.typ != vtyp {
					continue
				}
				if (vtyp == "int" || vtyp == "bool") && !s.phi {
					continue
				}
				off0, off1 := true, vtyp == "int" && !strings.HasPrefix(s.label, "*")
				switch v.typ {
				case "idx":
					if anyIdx {
						if s.idx == 0 {
							continue
						}
						off0, off1 = s.idx&1 != 0, s.idx&2 != 0
					}
				case "acc":
					if s.idx != 0 && !noAcc {
						continue
					}
					off1 = false
				}
				dup := false
				for _, l := range strings.Split(label, ",") {
					if j := strings.IndexByte(l, '='); j >= 0 && strings.TrimSuffix(l[j+1:], "+1") == s.label {
						dup = true
					}
				}
				if dup {
					continue
				}
				vars[v.name] = s.get
				tys[v.name] = s.gt
				if off0 {
					rec(i+1, vars, tys, label+","+v.name+"="+s.label)
				}
				if off1 {
					vars[v.name] = func(fr *Frame, st *State) (Val, bool) {
						r, ok := s.get(fr, st)
						if !ok {
							return nil, false
						}
						t, ok := r.(*Term)
						if !ok {
							return nil, false
						}
						return mkAdd(t, tOne), true
					}
					rec(i+1, vars, tys, label+","+v.name+"="+s.label+"+1")
				}
				delete(vars, v.name)
				delete(tys, v.name)
			}
		}
		rec(0, map[string]func(*Frame, *State) (Val, bool){}, map[string]types.Type{}, "")
	}
	// automatic candidates on phis
	type bound struct {
		label string
		get   func(fr *Frame) (*Term, bool)
	}
	var bounds []bound
	for _, b := range fr.fn.Blocks {
		if b == h || !b.Dominates(h) {
			continue
		}
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok {
				continue
			}
			if c, ok := in.(*ssa.Call); ok {
				if bi, ok := c.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "len") {
					v := v
					bounds = append(bounds, bound{v.Name(), func(fr *Frame) (*Term, bool) { t, ok := fr.env[v].(*Term); return t, ok }})
				}
			}
			if _, ok := under(v.Type()).(*types.Slice); ok {
				v := v
				bounds = append(bounds, bound{"len " + v.Name(), func(fr *Frame) (*Term, bool) {
					s, ok := fr.env[v].(SliceV)
					if !ok {
						return nil, false
					}
					return s.len, true
				}})
			}
		}
	}
	for _, p := range fr.fn.Params {
		if _, ok := under(p.Type()).(*types.Slice); ok {
			p := p
			bounds = append(bounds, bound{"len " + p.Name(), func(fr *Frame) (*Term, bool) {
				s, ok := fr.env[p].(SliceV)
				if !ok {
					return nil, false
				}
				return s.len, true
			}})
		}
		if b, ok := under(p.Type()).(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			p := p
			bounds = append(bounds, bound{p.Name(), func(fr *Frame) (*Term, bool) { t, ok := fr.env[p].(*Term); return t, ok }})
		}
	}
	for _, n := range sortedKeys(x.specVars) {
		if s, ok := x.specVars[n].v.(SliceV); ok {
			bounds = append(bounds, bound{"len of " + n, func(fr *Frame) (*Term, bool) { return s.len, true }})
		}
	}
	{
		// the same bound under several names is considered once
		seen := map[int]bool{}
		var bs []bound
		for _, b := range bounds {
			if t, ok := b.get(fr); ok {
				if seen[t.id] || t.sort != sInt {
					continue
				}
				seen[t.id] = true
			}
			bs = append(bs, b)
		}
		bounds = bs
	}
	for _, p := range phis {
		p := p
		cur := func(fr *Frame) Val { return fr.env[p] }
		switch ev := entryEnv[p].(type) {
		case *Term:
			if counter(p) == 0 {
				add(&Cand{id: "auto same " + p.Name(), eval: func(fr *Frame, st, entry *State, ee map[ssa.Value]Val) (*Term, error) {
					a, ok1 := cur(fr).(*Term)
					b, ok2 := ee[p].(*Term)
					if !ok1 || !ok2 {
						return nil, fmt.Errorf("no term")
					}
					return mkEq(a, b), nil
				}})
			}
			if isRef(p.Type()) {
				add(&Cand{id: "auto nonnil " + p.Name(), eval: func(fr *Frame, st, entry *State, ee map[ssa.Value]Val) (*Term, error) {
					a, ok1 := cur(fr).(*Term)
					if !ok1 {
						return nil, fmt.Errorf("no term")
					}
					return mkNot(mkEq(a, tZero)), nil
				}})
			}
			if ev.sort == sInt && !isRef(p.Type()) {
				add(&Cand{id: "auto ge " + p.Name(), eval: func(fr *Frame, st, entry *State, ee map[ssa.Value]Val) (*Term, error) {
					return mkLe(ee[p].(*Term), cur(fr).(*Term)), nil
				}})
				for _, b := range bounds {
					b := b
					for _, d := range []int64{0, 1} {
						d := d
						add(&Cand{id: fmt.Sprintf("auto %s+%d<=%s", p.Name(), d, b.label), eval: func(fr *Frame, st, entry *State, ee map[ssa.Value]Val) (*Term, error) {
							t, ok := b.get(fr)
							if !ok || t.sort != sInt {
								return nil, fmt.Errorf("no bound")
							}
							return mkLe(mkAdd(cur(fr).(*Term), mkInt(d)), t), nil
						}})
					}
					add(&Cand{id: "auto variant " + b.label + "-" + p.Name(), variant: true, eval: func(fr *Frame, st, entry *State, ee map[ssa.Value]Val) (*Term, error) {
						t, ok := b.get(fr)
						if !ok || t.sort != sInt {
							return nil, fmt.Errorf("no bound")
						}
						return mkSub(t, cur(fr).(*Term)), nil
					}})
				}
				for _, q := range phis {
					q := q
					if q == p {
						continue
					}
					if b, ok := under(q.Type()).(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
						continue
					}
					for _, d := range []int64{0, 1} {
						d := d
						add(&Cand{id: fmt.Sprintf("auto %s<=%s+%d", p.Name(), q.Name(), d), eval: func(fr *Frame, st, entry *State, ee map[ssa.Value]Val) (*Term, error) {
							return mkLe(cur(fr).(*Term), mkAdd(fr.env[q].(*Term), mkInt(d))), nil
						}})
					}
				}
			}
		case SliceV:
			add(&Cand{id: "auto slice owned " + p.Name(), eval: func(fr *Frame, st, entry *State, ee map[ssa.Value]Val) (*Term, error) {
				s, ok := cur(fr).(SliceV)
				e, ok2 := ee[p].(SliceV)
				if !ok || !ok2 {
					return nil, fmt.Errorf("no slice")
				}
				return mkOr(mkEq(s.arr, e.arr), mkLt(entry.mark, s.arr)), nil
			}})
			add(&Cand{id: "auto slice same " + p.Name(), eval: func(fr *Frame, st, entry *State, ee map[ssa.Value]Val) (*Term, error) {
				s, ok := cur(fr).(SliceV)
				e, ok2 := ee[p].(SliceV)
				if !ok || !ok2 {
					return nil, fmt.Errorf("no slice")
				}
				return mkAnd(mkEq(s.arr, e.arr), mkEq(s.off, e.off), mkEq(s.len, e.len), mkEq(s.cap, e.cap)), nil
			}})
		}
	}
	x.frameCands(fr, key, phis, add)
	return out
}

func (x *Exec) frameCands(fr *Frame, key string, phis []*ssa.Phi, add func(*Cand)) {
	// frames of modified components
	mods := x.mods[key]
	for _, comp := range sortedKeys(mods) {
		comp := comp
		if strings.HasPrefix(comp, "I:") {
			continue
		}
		so := x.compSort[comp]
		if so == "" {
			continue
		}
		base := x.fresh
		var inv []*Term
		for _, r := range sortTerms(mods[comp]) {
			if !mentionsFresh(r, base) {
				inv = append(inv, r)
			}
		}
		frame := func(extra bool) func(fr *Frame, st, entry *State, ee map[ssa.Value]Val) (*Term, error) {
			return func(fr *Frame, st, entry *State, ee map[ssa.Value]Val) (*Term, error) {
				now, was := x.comp(st, comp, so), x.comp(entry, comp, so)
				if now == was {
					return tTrue, nil
				}
				r := mkBVar("r", sInt)
				conds := []*Term{mkLe(r, entry.mark)}
				for _, w := range inv {
					conds = append(conds, mkNot(mkEq(r, w)))
				}
				if extra {
					for _, w := range x.extraRefs(comp, phis, entry, ee, mods) {
						conds = append(conds, mkNot(mkEq(r, w)))
					}
				}
				return mkForall([]*Term{r}, [][]*Term{{mkSelect(now, r)}}, mkImp(mkAnd(conds...), mkEq(mkSelect(now, r), mkSelect(was, r)))), nil
			}
		}
		add(&Cand{id: "frame " + comp, eval: frame(false)})
		if strings.HasPrefix(comp, "A:") {
			add(&Cand{id: "frame+ " + comp, eval: frame(true)})
		}
		// slices held in fields: the array is the old one or a new one
		if strings.HasPrefix(comp, "F:") && strings.HasSuffix(comp, ".arr") {
			for i, w := range inv {
				w := w
				add(&Cand{id: fmt.Sprintf("owned %s %d", comp, i), eval: func(fr *Frame, st, entry *State, ee map[ssa.Value]Val) (*Term, error) {
					now, was := mkSelect(x.comp(st, comp, so), w), mkSelect(x.comp(entry, comp, so), w)
					return mkOr(mkEq(now, was), mkLt(entry.mark, now)), nil
				}})
				for j, w2 := range inv {
					if j <= i {
						continue
					}
					w2 := w2
					add(&Cand{id: fmt.Sprintf("distinct %s %d %d", comp, i, j), eval: func(fr *Frame, st, entry *State, ee map[ssa.Value]Val) (*Term, error) {
						a, b := mkSelect(x.comp(st, comp, so), w), mkSelect(x.comp(st, comp, so), w2)
						return mkOr(mkEq(a, tZero), mkNot(mkEq(a, b))), nil
					}})
				}
			}
		}
	}
	if x.autoInv != nil {
		n := x.autoN
		for i := 0; i < n; i++ {
			i := i
			add(&Cand{id: "view " + strconv.Itoa(i), eval: func(fr *Frame, st, entry *State, ee map[ssa.Value]Val) (*Term, error) {
				return x.autoInv(x.envFor(fr, st, entry, nil), i)
			}})
		}
	}
}

// extraRefs: arrays that slices in scope referred to at loop entry
func (x *Exec) extraRefs(comp string, phis []*ssa.Phi, entry *State, ee map[ssa.Value]Val, mods map[string]map[int]*Term) []*Term {
	m := map[int]*Term{}
	for _, p := range phis {
		if s, ok := ee[p].(SliceV); ok {
			m[s.arr.id] = s.arr
		}
	}
	for c, refs := range mods {
		if strings.HasPrefix(c, "F:") && strings.HasSuffix(c, ".arr") {
			for _, r := range refs {
				if !mentionsFresh(r, x.fresh) {
					t := mkSelect(x.comp(entry, c, arrOf(sInt, sInt)), r)
					m[t.id] = t
				}
			}
		}
	}
	return sortTerms(m)
}

// mentionsFresh: does t mention a constant created after counter value base
func mentionsFresh(t *Term, base int) bool {
	f := false
	walk([]*Term{t}, func(y *Term) {
		if y.isConst() {
			n := y.name()
			if i := strings.LastIndexByte(n, '!'); i >= 0 {
				if k, err := strconv.Atoi(n[i+1:]); err == nil && k > base {
					f = true
				}
			}
		}
	})
	return f
}

func (x *Exec) loopEnter(fr *Frame, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, st *State, phis []*ssa.Phi, vals map[*ssa.Phi]Val) {
	key := fmt.Sprintf("%s#%d", fr.path, h.Index)
	for _, p := range phis {
		fr.env[p] = vals[p]
	}
	entry := st.clone()
	entryEnv := map[ssa.Value]Val{}
	for k, v := range fr.env {
		entryEnv[k] = v
	}
	cands := x.candidates(fr, key, h, phis, entry, entryEnv)
	for _, c := range cands {
		if c.variant {
			continue
		}
		t, err := c.eval(fr, st, entry, entryEnv)
		if err != nil {
			x.candDead[c.id] = true
			continue
		}
		x.obligeCand(st, t, x.unit+": loop: "+c.id, c)
	}
	lc := &LoopCtx{key: key, fr: fr, header: h, body: body, entry: entry, env: entryEnv, parent: st.loops}
	// forget what the loop changes
	for _, p := range phis {
		v := x.freshVal(st, "phi", p.Type())
		fr.env[p] = v
	}
	for _, comp := range sortedKeys(x.mods[key]) {
		so := x.compSort[comp]
		st.mem[comp] = x.freshConst("loop", so)
		for o := st.loops; o != nil; o = o.parent {
			if x.mods[o.key] == nil {
				x.mods[o.key] = map[string]map[int]*Term{}
			}
			if x.mods[o.key][comp] == nil {
				x.mods[o.key][comp] = map[int]*Term{}
				x.modGrew = true
			}
			for id, r := range x.mods[key][comp] {
				x.mods[o.key][comp][id] = r
			}
		}
	}
	m := x.freshConst("mark", sInt)
	st.assume(mkLe(st.mark, m))
	st.mark = m
	// bounds of phis may use the new mark
	for _, p := range phis {
		if t, ok := fr.env[p].(*Term); ok {
			x.assumeRefBounds(st, t, p.Type())
		}
		if s, ok := fr.env[p].(SliceV); ok {
			x.assumeSlice(st, s)
		}
	}
	for _, c := range cands {
		if c.variant || x.candDead[c.id] {
			continue
		}
		t, err := c.eval(fr, st, entry, entryEnv)
		if err != nil {
			x.candDead[c.id] = true
			continue
		}
		st.assume(t)
	}
	lc.cands = cands
	lc.head = st.clone()
	lc.phis = map[*ssa.Phi]Val{}
	for _, p := range phis {
		lc.phis[p] = fr.env[p]
	}
	st.loops = lc
	if x.loopsSeen != nil {
		x.loopsSeen[key] = x.trivialTermination(h)
	}
}

// trivialTermination: ranging over a string or map always ends
func (x *Exec) trivialTermination(h *ssa.BasicBlock) bool {
	for _, in := range h.Instrs {
		if _, ok := in.(*ssa.Next); ok {
			return true
		}
	}
	return false
}

func (x *Exec) loopBack(fr *Frame, st *State, phis []*ssa.Phi, vals map[*ssa.Phi]Val) {
	lc := st.loops
	x.loopBackSeen[lc.key] = true
	headFr := *fr
	headFr.env = map[ssa.Value]Val{}
	for k, v := range fr.env {
		headFr.env[k] = v
	}
	for p, v := range lc.phis {
		headFr.env[p] = v
	}
	for _, p := range phis {
		fr.env[p] = vals[p]
	}
	for _, c := range lc.cands {
		if x.candDead[c.id] {
			continue
		}
		t, err := c.eval(fr, st, lc.entry, lc.env)
		if err != nil {
			x.candDead[c.id] = true
			continue
		}
		if c.variant {
			h, err := c.eval(&headFr, lc.head, lc.entry, lc.env)
			if err != nil {
				x.candDead[c.id] = true
				continue
			}
			if h.sort != sInt {
				x.candDead[c.id] = true
				continue
			}
			x.obls = append(x.obls, &Obl{name: x.unit + ": terminates: " + c.id, kind: "variant", hyps: st.hyps, goal: mkAnd(mkLe(tZero, h), mkLt(t, h)), cand: c})
			continue
		}
		x.obligeCand(st, t, x.unit+": loop: "+c.id, c)
	}
}
