package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// SV is the value of a contract expression: a program value with its Go type, or a logical term.
type SV struct {
	v Val
	t types.Type
}

type Env struct {
	x     *Exec
	st    *State // current
	old   *State // at entry of the function or step
	entry *State // at entry of the loop
	vars  map[string]SV
	// vars as seen from loop entry
	entryVars map[string]SV
	depth     int
	isOld     bool
	late      func(st *State) map[string]SV
}

type specErr struct{ s string }

func (e *Env) fail(f string, a ...interface{}) {
	panic(specErr{fmt.Sprintf(f, a...)})
}

func (e *Env) term(s *SE) *Term {
	v := e.eval(s)
	t, ok := v.v.(*Term)
	if !ok {
		e.fail("expected a scalar: %s (%T)", show(s), v.v)
	}
	return t
}

func show(s *SE) string {
	if s.src != "" {
		return s.src
	}
	var as []string
	for _, a := range s.args {
		as = append(as, show(a))
	}
	switch s.op {
	case "ident":
		return s.name
	case "int":
		return fmt.Sprint(s.n)
	case "str":
		return fmt.Sprintf("%q", s.name)
	case "call":
		return s.name + "(" + strings.Join(as, ", ") + ")"
	case "field":
		return as[0] + "." + s.name
	}
	return s.op + "(" + strings.Join(as, ", ") + ")"
}

func lt(t *Term) SV { return SV{t, nil} }

func (e *Env) with(vars map[string]SV) *Env {
	n := *e
	n.vars = vars
	n.depth = e.depth + 1
	if n.depth > 60 {
		e.fail("macro recursion")
	}
	return &n
}

func (e *Env) eval(s *SE) SV {
	x := e.x
	switch s.op {
	case "int":
		return lt(mkInt(s.n))
	case "str":
		return lt(mkStr(s.name))
	case "ident":
		switch s.name {
		case "true":
			return lt(tTrue)
		case "false":
			return lt(tFalse)
		case "nil":
			return lt(tZero)
		}
		if v, ok := e.vars[s.name]; ok {
			return v
		}
		if f, ok := x.V.th.funs[s.name]; ok && len(f.args) == 0 {
			return lt(rawTerm(s.name, f.ret))
		}
		if m, ok := x.V.specs.macros[s.name]; ok && len(m.params) == 0 {
			return e.with(e.vars).eval(m.e)
		}
		e.fail("unknown name %s", s.name)
	case "not":
		return lt(mkNot(e.term(s.args[0])))
	case "neg":
		return lt(mkMul(-1, e.term(s.args[0])))
	case "and":
		return lt(mkAnd(e.term(s.args[0]), e.term(s.args[1])))
	case "or":
		return lt(mkOr(e.term(s.args[0]), e.term(s.args[1])))
	case "imp":
		return lt(mkImp(e.term(s.args[0]), e.term(s.args[1])))
	case "iff":
		return lt(mkEq(e.term(s.args[0]), e.term(s.args[1])))
	case "ite":
		return lt(mkIte(e.term(s.args[0]), e.term(s.args[1]), e.term(s.args[2])))
	case "==", "!=":
		a, b := e.eval(s.args[0]), e.eval(s.args[1])
		r := e.equal(a, b)
		if s.op == "!=" {
			r = mkNot(r)
		}
		return lt(r)
	case "<", "<=", ">", ">=":
		return lt(mkApp(s.op, sBool, e.term(s.args[0]), e.term(s.args[1])))
	case "+":
		a, b := e.term(s.args[0]), e.term(s.args[1])
		if a.sort == sStr {
			return lt(mkCat(a, b))
		}
		return lt(mkAdd(a, b))
	case "-":
		return lt(mkSub(e.term(s.args[0]), e.term(s.args[1])))
	case "forall", "exists":
		vars := map[string]SV{}
		for k, v := range e.vars {
			vars[k] = v
		}
		var bs []*Term
		for _, b := range s.bound {
			bv := mkBVar(fmt.Sprintf("%s$%d", b.name, e.depth), b.sort)
			bs = append(bs, bv)
			vars[b.name] = lt(bv)
		}
		n := e.with(vars)
		body := n.term(s.args[0])
		if s.op == "exists" {
			return lt(mkExists(bs, body))
		}
		var pats [][]*Term
		for _, p := range s.pats {
			var q []*Term
			for _, y := range p {
				q = append(q, n.term(y))
			}
			pats = append(pats, q)
		}
		return lt(mkForall(bs, pats, body))
	case "field":
		return e.field(e.eval(s.args[0]), s.name)
	case "deref":
		v := e.eval(s.args[0])
		pt, ok := under(v.t).(*types.Pointer)
		if !ok {
			e.fail("dereference of %s", show(s))
		}
		return SV{x.loadPure(e.st, "C:"+x.V.typeKey(pt.Elem()), v.v.(*Term), pt.Elem()), pt.Elem()}
	case "index":
		v := e.eval(s.args[0])
		sl, ok := v.v.(SliceV)
		if !ok {
			e.fail("index of %s", show(s))
		}
		return SV{mkSelect(mkSelect(x.arrTerm(e.st, sl.elem), sl.arr), mkAdd(sl.off, e.term(s.args[1]))), sl.elem}
	case "call":
		return e.callSpec(s)
	}
	e.fail("cannot evaluate %s", show(s))
	return SV{}
}

// relate re-evaluates the state variables after a change of state
func (e *Env) relate() {
	if e.late == nil {
		return
	}
	m := map[string]SV{}
	for k, v := range e.vars {
		m[k] = v
	}
	for k, v := range e.late(e.st) {
		m[k] = v
	}
	e.vars = m
}

// loadPure reads without recording hypotheses
func (x *Exec) loadPure(st *State, name string, ref *Term, t types.Type) Val {
	tmp := &State{mem: st.mem, mark: st.mark}
	v := x.loadComps(tmp, name, ref, t)
	switch y := v.(type) {
	case *Term:
		noteFacts(y, tmp.hyps)
	case SliceV:
		noteFacts(y.arr, tmp.hyps)
		noteFacts(y.len, tmp.hyps)
	}
	return v
}

// termFacts: facts that hold of a term read from a well-formed state (references point to objects
// that exist, slices are within bounds). They are added to every query the term occurs in.
var termFacts = map[int][]*Term{}

func noteFacts(t *Term, fs []*Term) {
	if hasBVar(t) {
		return
	}
	have := termFacts[t.id]
next:
	for _, f := range fs {
		if len(have) > 12 {
			break
		}
		for _, h := range have {
			if h == f {
				continue next
			}
		}
		have = append(have, f)
	}
	termFacts[t.id] = have
}

func (e *Env) equal(a, b SV) *Term {
	sa, ok1 := a.v.(SliceV)
	sb, ok2 := b.v.(SliceV)
	if ok1 && ok2 {
		return mkAnd(mkEq(sa.arr, sb.arr), mkEq(sa.off, sb.off), mkEq(sa.len, sb.len))
	}
	if ok1 {
		return mkEq(sa.arr, b.v.(*Term))
	}
	ta, ok1 := a.v.(*Term)
	tb, ok2 := b.v.(*Term)
	if !ok1 || !ok2 {
		e.fail("cannot compare %T and %T", a.v, b.v)
	}
	if ta.sort != tb.sort {
		e.fail("cannot compare %s (%s) and %s (%s)", ta, ta.sort, tb, tb.sort)
	}
	return mkEq(ta, tb)
}

func (e *Env) structField(t types.Type, name string) (types.Type, int) {
	pt, ok := under(t).(*types.Pointer)
	if !ok {
		return nil, -1
	}
	u, ok := under(pt.Elem()).(*types.Struct)
	if !ok {
		return nil, -1
	}
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == name {
			return pt.Elem(), i
		}
	}
	// renamed field: use the declared layout to find the one unmatched field of the same type
	if fs, ok := e.x.V.specs.structs[e.x.V.typeKey(pt.Elem())]; ok {
		known := map[string]bool{}
		want := ""
		for _, f := range fs {
			known[f[0]] = true
			if f[0] == name {
				want = f[1]
			}
		}
		cand := -1
		for i := 0; i < u.NumFields(); i++ {
			if !known[u.Field(i).Name()] && e.x.V.typeKey(u.Field(i).Type()) == want {
				if cand >= 0 {
					return nil, -1
				}
				cand = i
			}
		}
		if cand >= 0 {
			return pt.Elem(), cand
		}
	}
	return nil, -1
}

func (e *Env) field(b SV, name string) SV {
	x := e.x
	if sl, ok := b.v.(SliceV); ok {
		switch name {
		case "arr":
			return lt(sl.arr)
		case "off":
			return lt(sl.off)
		case "cap":
			return lt(sl.cap)
		}
	}
	if sv, ok := b.v.(StructV); ok {
		for i := 0; i < sv.typ.NumFields(); i++ {
			if sv.typ.Field(i).Name() == name {
				return SV{sv.fields[i], sv.typ.Field(i).Type()}
			}
		}
	}
	if b.t == nil {
		e.fail("field %s of a logical value", name)
	}
	st, i := e.structField(b.t, name)
	if i < 0 {
		e.fail("no field %s in %s", name, b.t)
	}
	ft := under(st).(*types.Struct).Field(i).Type()
	ref := b.v.(*Term)
	if x.isStructVal(ft) {
		return SV{x.faddr(st, i, ref), types.NewPointer(ft)}
	}
	return SV{x.loadPure(e.st, x.fieldComp(st, i), ref, ft), ft}
}

func (e *Env) callSpec(s *SE) SV {
	x := e.x
	switch s.name {
	case "old":
		if e.old == nil {
			e.fail("old() outside a two-state clause")
		}
		n := *e
		n.st = e.old
		n.isOld = true
		n.relate()
		return n.eval(s.args[0])
	case "entry":
		if e.entry == nil {
			e.fail("entry() outside a loop")
		}
		n := *e
		n.st = e.entry
		if e.entryVars != nil {
			n.vars = e.entryVars
		}
		n.relate()
		return n.eval(s.args[0])
	case "len":
		v := e.eval(s.args[0])
		switch y := v.v.(type) {
		case SliceV:
			return lt(y.len)
		case *Term:
			switch y.sort {
			case sStr:
				return lt(mkApp("slen", sInt, y))
			case sIL:
				return lt(mkApp("ilen", sInt, y))
			case sTL:
				return lt(mkApp("tlen", sInt, y))
			case sSL:
				return lt(mkApp("sslen", sInt, y))
			}
		}
		e.fail("len of %s", show(s))
	case "elems":
		v := e.eval(s.args[0])
		sl, ok := v.v.(SliceV)
		if !ok {
			e.fail("elems of %s", show(s))
		}
		return lt(x.elems(e.st, sl))
	case "elemsTo", "elemsFrom", "elemsRange":
		v := e.eval(s.args[0])
		sl, ok := v.v.(SliceV)
		if !ok {
			e.fail("%s of %s", s.name, show(s))
		}
		n := e.term(s.args[1])
		switch s.name {
		case "elemsTo":
			sl.len = n
		case "elemsFrom":
			sl.off = mkAdd(sl.off, n)
			sl.len = mkSub(sl.len, n)
		default:
			sl.off = mkAdd(sl.off, n)
			sl.len = mkSub(e.term(s.args[2]), n)
		}
		return lt(x.elems(e.st, sl))
	case "bytesOf":
		v := e.eval(s.args[0])
		sl, ok := v.v.(SliceV)
		if !ok {
			e.fail("bytesOf %s", show(s))
		}
		return lt(x.bytesStr(e.st, sl))
	case "arr", "off", "cap":
		v := e.eval(s.args[0])
		return e.field(v, s.name)
	case "dom", "at":
		m := e.eval(s.args[0])
		mt, ok := under(m.t).(*types.Map)
		if !ok {
			e.fail("not a map: %s", show(s.args[0]))
		}
		k := e.term(s.args[1])
		_, _, d, v := x.mapComps(e.st, mt)
		if s.name == "dom" {
			return lt(mkSelect(mkSelect(d, m.v.(*Term)), k))
		}
		return SV{mkSelect(mkSelect(v, m.v.(*Term)), k), mt.Elem()}
	case "domset":
		m := e.eval(s.args[0])
		mt := under(m.t).(*types.Map)
		_, _, d, _ := x.mapComps(e.st, mt)
		return lt(mkSelect(d, m.v.(*Term)))
	case "mdom":
		// the keys of a map that may be nil
		m := e.eval(s.args[0])
		mt := under(m.t).(*types.Map)
		_, _, d, _ := x.mapComps(e.st, mt)
		_, ds := arrParts(d.sort)
		return lt(mapDom(m.v.(*Term), ds, mkSelect(d, m.v.(*Term))))
	case "valmap":
		m := e.eval(s.args[0])
		mt := under(m.t).(*types.Map)
		_, _, _, v := x.mapComps(e.st, mt)
		return lt(mkSelect(v, m.v.(*Term)))
	case "select":
		return lt(mkSelect(e.term(s.args[0]), e.term(s.args[1])))
	case "store":
		return lt(mkStore(e.term(s.args[0]), e.term(s.args[1]), e.term(s.args[2])))
	case "fresh":
		if e.old == nil {
			e.fail("fresh() outside a two-state clause")
		}
		v := e.eval(s.args[0])
		t, ok := v.v.(*Term)
		if sl, isS := v.v.(SliceV); isS {
			t, ok = sl.arr, true
		}
		if !ok {
			e.fail("fresh of %T", v.v)
		}
		return lt(mkLt(e.old.mark, t))
	case "owned":
		return SV{mkLt(x.sharedMark, e.eval(s.args[0]).v.(*Term)), nil}
	case "mark":
		if x.rec != nil {
			x.rec["mark"] = true
		}
		return lt(e.st.mark)
	case "global":
		parts := strings.SplitN(s.args[0].name, ".", 2)
		g := x.V.global(parts[0], parts[1])
		if g == nil {
			e.fail("no package-level variable %s", s.args[0].name)
		}
		tmp := e.st.clone()
		v := x.loadGlobal(tmp, g)
		return SV{v, g.Type().(*types.Pointer).Elem()}
	case "fun":
		// a declared function, or the package-level variable of that name
		if parts := strings.SplitN(s.args[0].name, ".", 2); len(parts) == 2 {
			if g := x.V.global(parts[0], parts[1]); g != nil {
				return SV{x.loadGlobal(e.st.clone(), g), g.Type().(*types.Pointer).Elem()}
			}
		}
		fallthrough
	case "fnref":
		fn := x.V.findFn(s.args[0].name)
		if fn == nil {
			e.fail("no function %s", s.args[0].name)
		}
		return lt(x.funcRef(fn))
	case "shown":
		// how package fmt shows a boxed string or token
		v := e.eval(s.args[0])
		t, ok := v.v.(*Term)
		if !ok {
			e.fail("shown of %T", v.v)
		}
		if d, ok := x.dyn[t.id]; ok {
			if dv, ok := d.v.(*Term); ok && dv.sort == sStr {
				return SV{dv, types.Typ[types.String]}
			}
			if p, ok := under(d.t).(*types.Pointer); ok && x.V.isToken(p.Elem()) {
				return SV{mkApp("tval", sStr, termD(d.v.(*Term))), types.Typ[types.String]}
			}
		}
		return SV{x.freshConst("shown", sStr), types.Typ[types.String]}
	case "typed":
		// typed("pkg.Type", e): e as a pointer to that type
		n := x.V.namedType(s.args[0].name)
		if n == nil {
			e.fail("no type %s", s.args[0].name)
		}
		return SV{e.term(s.args[1]), types.NewPointer(n)}
	case "typedmap":
		v := e.eval(s.args[0])
		return v
	case "heap":
		// heap("F:comp"): the whole component
		c := s.args[0].name
		if t, ok := e.st.mem[c]; ok {
			return lt(t)
		}
		if so, ok := x.compSort[c]; ok {
			return lt(x.comp(e.st, c, so))
		}
		e.fail("unknown component %s", c)
	}
	if e.isOld && s.name == "now" {
		e.fail("now inside old")
	}
	if m, ok := x.V.specs.macros[s.name]; ok {
		if len(m.params) != len(s.args) {
			e.fail("macro %s takes %d arguments", s.name, len(m.params))
		}
		vars := map[string]SV{}
		for k, v := range e.vars {
			if strings.HasPrefix(k, "$") {
				vars[k] = v
			}
		}
		for i, p := range m.params {
			vars[p] = e.eval(s.args[i])
		}
		if m.opaque && !x.reveal[s.name] {
			return lt(e.opaque(s.name, m, vars))
		}
		return e.with(vars).eval(m.e)
	}
	if g, ok := x.V.specs.ghosts[s.name]; ok {
		return lt(mkSelect(x.comp(e.st, "G:"+s.name, arrOf(g[0], g[1])), e.term(s.args[0])))
	}
	if f, ok := x.V.th.funs[s.name]; ok {
		if len(f.args) != len(s.args) {
			e.fail("%s takes %d arguments", s.name, len(f.args))
		}
		var as []*Term
		for i, a := range s.args {
			t := e.term(a)
			if t.sort != f.args[i] {
				e.fail("argument %d of %s has sort %s, want %s", i+1, s.name, t.sort, f.args[i])
			}
			as = append(as, t)
		}
		if s.name == "cat" {
			return lt(mkCat(as[0], as[1]))
		}
		return lt(mkApp(s.name, f.ret, as...))
	}
	e.fail("unknown function %s", s.name)
	return SV{}
}

// safeTerm evaluates a boolean clause, returning an error if it does not fit this state.
func (e *Env) safeTerm(s *SE) (t *Term, err error) {
	defer func() {
		if r := recover(); r != nil {
			switch y := r.(type) {
			case specErr:
				err = fmt.Errorf("%s", y.s)
			case Unsupported:
				err = fmt.Errorf("%s", y.why)
			default:
				panic(r)
			}
		}
	}()
	return e.term(s), nil
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

// opaque represents a predicate by its name, its arguments and the parts of the state it reads
func (e *Env) opaque(name string, m MacroDef, vars map[string]SV) *Term {
	x := e.x
	save := x.rec
	x.rec = map[string]bool{}
	e.with(vars).eval(m.e)
	read := x.rec
	x.rec = save
	for c := range read {
		if save != nil {
			save[c] = true
		}
	}
	if read["mark"] {
		e.fail("%s depends on the allocation mark and cannot be opaque", name)
	}
	var as []*Term
	for _, p := range m.params {
		t, ok := vars[p].v.(*Term)
		if !ok {
			e.fail("argument %s of %s", p, name)
		}
		as = append(as, t)
	}
	for _, c := range sortedKeys(read) {
		as = append(as, e.st.mem[c])
	}
	return rawTerm("opaque."+name, sBool, as...)
}
