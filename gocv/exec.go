package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- symbolic values

type Val interface{}

type SliceV struct {
	arr, off, len, cap *Term
	elem               types.Type
}
type TupleV []Val
type StructV struct {
	typ    *types.Struct
	fields []Val
}
type AddrV struct {
	kind string // field, elem, global
	comp string
	ref  *Term
	idx  *Term
	typ  types.Type
	glob *ssa.Global
	tok  int // token field index+1, for fields of jargon.Token
}
type RangeV struct {
	comp string
	kind string // string, map
	m    *Term
	mt   *types.Map
}
type BadV struct{ why string }

type Closure struct {
	fn   *ssa.Function
	free []Val
}

// ---- state

type LoopCtx struct {
	key    string
	fr     *Frame
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	entry  *State
	phis   map[*ssa.Phi]Val // values at the header of the current iteration
	env    map[ssa.Value]Val
	cands  []*Cand
	head   *State // state at the header (after havoc)
	parent *LoopCtx
}

type State struct {
	mem   map[string]*Term
	mark  *Term
	hyps  []*Term
	toks  map[int]*[4]*Term // unpublished tokens, by id of ref term
	loops *LoopCtx
}

func (s *State) clone() *State {
	n := &State{mem: make(map[string]*Term, len(s.mem)), mark: s.mark, hyps: s.hyps[:len(s.hyps):len(s.hyps)], loops: s.loops}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	if len(s.toks) > 0 {
		n.toks = map[int]*[4]*Term{}
		for k, v := range s.toks {
			c := *v
			n.toks[k] = &c
		}
	}
	return n
}

func (s *State) assume(t *Term) {
	if t == tTrue {
		return
	}
	if t.op == "and" {
		for _, a := range t.args {
			s.assume(a)
		}
		return
	}
	s.hyps = append(s.hyps, t)
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	path   string
	parent *Frame
	depth  int
	loops  map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	unr    map[*ssa.BasicBlock]int // iterations executed one by one
	defers []func(*Frame, *State, callCont)
}

func (f *Frame) clone() *Frame {
	n := *f
	n.env = make(map[ssa.Value]Val, len(f.env))
	for k, v := range f.env {
		n.env[k] = v
	}
	if f.unr != nil {
		n.unr = map[*ssa.BasicBlock]int{}
		for k, v := range f.unr {
			n.unr[k] = v
		}
	}
	return &n
}

// decided: the condition at the head of the loop is a constant here (a range over a known slice,
// say); such iterations are executed one by one, without an invariant
func (x *Exec) decided(fr *Frame, b *ssa.BasicBlock, phis []*ssa.Phi, vals map[*ssa.Phi]Val, st *State) bool {
	if fr.unr[b] > 300 {
		return false
	}
	tmp := fr.clone()
	for _, p := range phis {
		tmp.env[p] = vals[p]
	}
	n := len(x.obls)
	defer func() { x.obls = x.obls[:n] }()
	for _, in := range b.Instrs[len(phis):] {
		switch in := in.(type) {
		case *ssa.BinOp, *ssa.DebugRef, *ssa.UnOp, *ssa.FieldAddr, *ssa.Field:
			x.step(tmp, in, st)
		case *ssa.Call:
			if bi, ok := in.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
				return false
			}
			done := false
			x.call(tmp, in, st, func(_ *Frame, _ *State, res Val) {
				tmp.env[in] = res
				done = true
			})
			if !done {
				return false
			}
		case *ssa.If:
			c := x.term(tmp, st, in.Cond)
			if c == tTrue || c == tFalse {
				if fr.unr == nil {
					fr.unr = map[*ssa.BasicBlock]int{}
				}
				fr.unr[b]++
				return true
			}
			return false
		default:
			return false
		}
	}
	return false
}

type Cont func(st *State, res Val)

// Obl is one proof obligation.
type Obl struct {
	name  string
	kind  string
	tags  []string
	hyps  []*Term
	goal  *Term
	cand  *Cand
	where string
}

// Exec verifies one unit.
type Exec struct {
	V        *Verifier
	unit     string
	fresh    int
	bvars    int
	closures map[int]*Closure
	dyn      map[int]struct {
		t types.Type
		v Val
	}
	obls                []*Obl
	mods                map[string]map[string]map[int]*Term // loop key -> comp -> written refs
	modGrew             bool
	tmpls               []LoopTmpl
	autoInv             func(env *Env, i int) (*Term, error)
	autoN               int
	globals             map[*ssa.Global]Val
	inline              map[string]bool // contracts to ignore
	reveal              map[string]bool // opaque predicates to expand
	rec                 map[string]bool // components read, while recording
	used                map[string]bool // contracts used
	inlined             map[string]bool
	trusted             map[string]bool
	unsup               map[string]bool
	frame               func(st *State, comp string, ref *Term) (*Term, bool)
	frameTags           []string
	candDead            map[string]bool
	candAll             map[string]bool // the candidates considered (true: variants)
	candOnly            map[string]bool // when set, the only candidates considered
	cands               map[string]*Cand
	specVars            map[string]SV
	oldSt               *State
	shared              *State // state when the filter was made (for frame checks)
	initG               *ssa.Global
	initing             string // the package being initialized
	paths               int
	compSort            map[string]Sort
	onceDepth           int
	unitFn              *ssa.Function
	depthLimit          int
	baseEntry           *State
	noFrame             bool
	captureStream       bool
	capturedNext        Val
	capturedRef         *Term
	evalInit            bool
	loopsSeen           map[string]bool
	loopBackSeen        map[string]bool
	choice, moreChoices int
	exits               [][]*Term
	sharedMark          *Term
	lateVars            func(st *State) map[string]SV
}

type Unsupported struct{ why string }

func (x *Exec) unsupported(f string, a ...interface{}) {
	panic(Unsupported{fmt.Sprintf(f, a...)})
}

func (x *Exec) freshConst(hint string, s Sort) *Term {
	x.fresh++
	return mkConst(fmt.Sprintf("%s!%d", hint, x.fresh), s)
}

// ---- types and components

func (v *Verifier) alias(p *types.Package) string {
	if p == nil {
		return ""
	}
	if a, ok := v.pathAlias[p.Path()]; ok {
		return a
	}
	return p.Name()
}

func (v *Verifier) typeKey(t types.Type) string {
	return types.TypeString(types.Unalias(t), v.alias)
}

func under(t types.Type) types.Type { return types.Unalias(t).Underlying() }

func (v *Verifier) isToken(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "Token" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == modPath
}

func (v *Verifier) inRepo(p *types.Package) bool {
	return p != nil && (p.Path() == modPath || strings.HasPrefix(p.Path(), modPath+"/"))
}

// sortOf gives the SMT sort of a scalar Go type.
func sortOf(t types.Type) (Sort, bool) {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return sBool, true
		case u.Info()&types.IsString != 0:
			return sStr, true
		case u.Info()&types.IsInteger != 0:
			return sInt, true
		case u.Kind() == types.UnsafePointer, u.Kind() == types.UntypedNil:
			return sInt, true
		case u.Info()&types.IsFloat != 0:
			return sInt, true
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return sInt, true
	}
	return "", false
}

func isRef(t types.Type) bool {
	switch under(t).(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return true
	}
	return false
}

func (x *Exec) comp(st *State, name string, s Sort) *Term {
	if x.rec != nil {
		x.rec[name] = true
	}
	if t, ok := st.mem[name]; ok {
		return t
	}
	t := mkConst("H0:"+name, s)
	st.mem[name] = t
	x.compSort[name] = s
	return t
}

func (x *Exec) setComp(st *State, name string, t *Term, ref *Term) {
	st.mem[name] = t
	for lc := st.loops; lc != nil; lc = lc.parent {
		m := x.mods[lc.key]
		if m == nil {
			m = map[string]map[int]*Term{}
			x.mods[lc.key] = m
		}
		if m[name] == nil {
			m[name] = map[int]*Term{}
			x.modGrew = true
		}
		if ref != nil && m[name][ref.id] == nil {
			m[name][ref.id] = ref
		}
	}
}

// frameCheck emits the obligation that a write to comp at ref is allowed
func (x *Exec) frameCheck(st *State, comp string, ref *Term, what string) {
	if x.frame == nil || x.noFrame {
		return
	}
	base := ref
	for base.op == "faddr" {
		base = base.args[1]
	}
	g, ok := x.frame(st, comp, base)
	if !ok {
		return
	}
	x.oblige(st, g, "frame", "writes only what it owns ("+what+")", x.frameTags)
}

func (x *Exec) oblige(st *State, g *Term, kind, label string, tags []string) {
	if g == tTrue {
		return
	}
	for _, g := range splitGoal(g) {
		x.obls = append(x.obls, &Obl{name: x.unit + ": " + kind + ": " + label, kind: kind, tags: tags, hyps: st.hyps, goal: g})
	}
}

func (x *Exec) obligeCand(st *State, g *Term, name string, c *Cand) {
	for _, g := range splitGoal(g) {
		x.obls = append(x.obls, &Obl{name: name, kind: "cand", hyps: st.hyps, goal: g, cand: c})
	}
}

// splitGoal: conjuncts are proved one by one
func splitGoal(g *Term) []*Term {
	switch {
	case g.op == "and":
		var out []*Term
		for _, a := range g.args {
			out = append(out, splitGoal(a)...)
		}
		return out
	case g.op == "=>" && g.args[1].op == "and":
		var out []*Term
		for _, a := range splitGoal(g.args[1]) {
			out = append(out, mkImp(g.args[0], a))
		}
		return out
	}
	return []*Term{g}
}

// nilCheck: ref is not nil
func (x *Exec) safe(st *State, g *Term, what string) {
	x.oblige(st, g, "safe", what, nil)
	st.assume(g)
}

func (x *Exec) assumeRefBounds(st *State, t *Term, typ types.Type) {
	if isRef(typ) && t.sort == sInt && !t.isInt() {
		st.assume(mkLe(t, st.mark))
		if _, isI := under(typ).(*types.Interface); !isI {
			// struct-field addresses are negative, everything else is not
			if _, isP := under(typ).(*types.Pointer); isP {
				st.assume(mkLe(tZero, t))
			} else {
				st.assume(mkLe(tZero, t))
			}
		} else {
			st.assume(mkLe(tZero, t))
		}
	}
	if b, ok := under(typ).(*types.Basic); ok {
		x.assumeIntBounds(st, t, b)
	}
}

func (x *Exec) assumeIntBounds(st *State, t *Term, b *types.Basic) {
	if t.isInt() {
		return
	}
	switch b.Kind() {
	case types.Uint8:
		st.assume(mkLe(tZero, t))
		st.assume(mkLe(t, mkInt(255)))
	case types.Uint, types.Uint16, types.Uint32, types.Uint64, types.Uintptr:
		st.assume(mkLe(tZero, t))
	}
}

func (x *Exec) freshVal(st *State, hint string, t types.Type) Val {
	if s, ok := sortOf(t); ok {
		c := x.freshConst(hint, s)
		x.assumeRefBounds(st, c, t)
		return c
	}
	switch u := under(t).(type) {
	case *types.Slice:
		s := SliceV{x.freshConst(hint+".arr", sInt), x.freshConst(hint+".off", sInt), x.freshConst(hint+".len", sInt), x.freshConst(hint+".cap", sInt), u.Elem()}
		x.assumeSlice(st, s)
		return s
	case *types.Struct:
		v := StructV{typ: u}
		for i := 0; i < u.NumFields(); i++ {
			v.fields = append(v.fields, x.freshVal(st, hint+"."+u.Field(i).Name(), u.Field(i).Type()))
		}
		return v
	case *types.Tuple:
		var v TupleV
		for i := 0; i < u.Len(); i++ {
			v = append(v, x.freshVal(st, fmt.Sprintf("%s.%d", hint, i), u.At(i).Type()))
		}
		return v
	}
	return BadV{"value of type " + t.String()}
}

func (x *Exec) assumeSlice(st *State, s SliceV) {
	st.assume(mkLe(tZero, s.arr))
	st.assume(mkLe(s.arr, st.mark))
	st.assume(mkLe(tZero, s.off))
	st.assume(mkLe(tZero, s.len))
	st.assume(mkLe(s.len, s.cap))
	st.assume(mkImp(mkEq(s.arr, tZero), mkAnd(mkEq(s.cap, tZero), mkEq(s.off, tZero))))
}

func (x *Exec) zero(t types.Type) Val {
	if s, ok := sortOf(t); ok {
		return zeroTerm(s)
	}
	switch u := under(t).(type) {
	case *types.Slice:
		return SliceV{tZero, tZero, tZero, tZero, u.Elem()}
	case *types.Struct:
		v := StructV{typ: u}
		for i := 0; i < u.NumFields(); i++ {
			v.fields = append(v.fields, x.zero(u.Field(i).Type()))
		}
		return v
	case *types.Tuple:
		var v TupleV
		for i := 0; i < u.Len(); i++ {
			v = append(v, x.zero(u.At(i).Type()))
		}
		return v
	}
	return BadV{"zero value of type " + t.String()}
}

func zeroTerm(s Sort) *Term {
	switch s {
	case sInt:
		return tZero
	case sBool:
		return tFalse
	case sStr:
		return mkStr("")
	case sTL:
		return rawTerm("tnil", sTL)
	case sIL:
		return rawTerm("inil", sIL)
	case sSL:
		return rawTerm("snil", sSL)
	}
	if strings.HasPrefix(string(s), "(Array ") {
		_, v := arrParts(s)
		return constArr(s, zeroTerm(v))
	}
	panic("zero of sort " + string(s))
}

// loadComps reads a value of type t from components with prefix name at ref
func (x *Exec) loadComps(st *State, name string, ref *Term, t types.Type) Val {
	if s, ok := sortOf(t); ok {
		v := mkSelect(x.comp(st, name, arrOf(sInt, s)), ref)
		x.assumeRefBounds(st, v, t)
		return v
	}
	switch u := under(t).(type) {
	case *types.Slice:
		g := func(p string) *Term { return mkSelect(x.comp(st, name+p, arrOf(sInt, sInt)), ref) }
		s := SliceV{g(".arr"), g(".off"), g(".len"), g(".cap"), u.Elem()}
		x.assumeSlice(st, s)
		return s
	case *types.Struct:
		v := StructV{typ: u}
		for i := 0; i < u.NumFields(); i++ {
			v.fields = append(v.fields, x.loadComps(st, name+"/"+u.Field(i).Name(), ref, u.Field(i).Type()))
		}
		return v
	}
	return BadV{"load of type " + t.String()}
}

func (x *Exec) storeComps(st *State, name string, ref *Term, t types.Type, v Val) {
	if s, ok := sortOf(t); ok {
		tv, ok := v.(*Term)
		if !ok {
			x.unsupported("store of %T into %s", v, name)
		}
		x.setComp(st, name, mkStore(x.comp(st, name, arrOf(sInt, s)), ref, tv), ref)
		return
	}
	switch u := under(t).(type) {
	case *types.Slice:
		s, ok := v.(SliceV)
		if !ok {
			x.unsupported("store of %T into slice %s", v, name)
		}
		p := func(c string, tv *Term) {
			x.setComp(st, name+c, mkStore(x.comp(st, name+c, arrOf(sInt, sInt)), ref, tv), ref)
		}
		p(".arr", s.arr)
		p(".off", s.off)
		p(".len", s.len)
		p(".cap", s.cap)
		return
	case *types.Struct:
		sv, ok := v.(StructV)
		if !ok {
			x.unsupported("store of %T into struct %s", v, name)
		}
		for i := 0; i < u.NumFields(); i++ {
			x.storeComps(st, name+"/"+u.Field(i).Name(), ref, u.Field(i).Type(), sv.fields[i])
		}
		return
	}
	x.unsupported("store of type %s", t)
}

func (x *Exec) fieldComp(structT types.Type, i int) string {
	st := under(structT).(*types.Struct)
	return "F:" + x.V.typeKey(structT) + "." + st.Field(i).Name()
}

var fieldIDs = map[string]int64{}

func fieldID(name string) int64 {
	if n, ok := fieldIDs[name]; ok {
		return n
	}
	fieldIDs[name] = int64(len(fieldIDs) + 1)
	return fieldIDs[name]
}

// isStructVal: a struct type stored by value in a field; its address is a derived reference
func (x *Exec) isStructVal(t types.Type) bool {
	_, ok := under(t).(*types.Struct)
	return ok
}

func (x *Exec) loadStruct(st *State, ref *Term, t types.Type) Val {
	u := under(t).(*types.Struct)
	if x.V.isToken(t) {
		var v StructV
		v.typ = u
		for i := 0; i < u.NumFields(); i++ {
			v.fields = append(v.fields, x.tokField(st, ref, i))
		}
		return v
	}
	v := StructV{typ: u}
	for i := 0; i < u.NumFields(); i++ {
		ft := u.Field(i).Type()
		if x.isStructVal(ft) {
			v.fields = append(v.fields, x.loadStruct(st, x.faddr(t, i, ref), ft))
		} else {
			v.fields = append(v.fields, x.loadComps(st, x.fieldComp(t, i), ref, ft))
		}
	}
	return v
}

func (x *Exec) storeStruct(st *State, ref *Term, t types.Type, v Val) {
	u := under(t).(*types.Struct)
	sv, ok := v.(StructV)
	if !ok {
		x.unsupported("store of %T into struct", v)
	}
	if x.V.isToken(t) {
		p := st.toks[ref.id]
		if p == nil {
			x.frameTokWrite(st)
			return
		}
		for i := range sv.fields {
			p[x.V.tokFieldIdx(u, i)] = sv.fields[i].(*Term)
		}
		return
	}
	for i := 0; i < u.NumFields(); i++ {
		ft := u.Field(i).Type()
		if x.isStructVal(ft) {
			x.storeStruct(st, x.faddr(t, i, ref), ft, sv.fields[i])
		} else {
			x.storeComps(st, x.fieldComp(t, i), ref, ft, sv.fields[i])
			x.event(st, x.fieldComp(t, i), ref, sv.fields[i])
		}
	}
}

func (x *Exec) faddr(t types.Type, i int, ref *Term) *Term {
	return rawTerm("faddr", sInt, mkInt(fieldID(x.fieldComp(t, i))), ref)
}

var tokFields = []string{"value", "punct", "space", "lemma"}
var tokSels = []string{"tval", "tpunct", "tspace", "tlemma"}
var tokSorts = []Sort{sStr, sBool, sBool, sBool}

func (v *Verifier) tokFieldIdx(u *types.Struct, i int) int {
	n := u.Field(i).Name()
	for k, f := range tokFields {
		if f == n {
			return k
		}
	}
	panic(Unsupported{"jargon.Token has an unknown field " + n})
}

func termD(ref *Term) *Term { return rawTerm("D", sTokD, ref) }

func (x *Exec) tokField(st *State, ref *Term, i int) *Term {
	u := x.V.tokStruct()
	k := x.V.tokFieldIdx(u, i)
	if p := st.toks[ref.id]; p != nil {
		return p[k]
	}
	return mkApp(tokSels[k], tokSorts[k], termD(ref))
}

func (x *Exec) frameTokWrite(st *State) {
	x.oblige(st, tFalse, "frame", "a token is never written after it was published", []string{"C19"})
}

// publish fixes the contents of a token made by a composite literal
func (x *Exec) publish(st *State, v Val) {
	t, ok := v.(*Term)
	if !ok || st.toks == nil {
		return
	}
	if p := st.toks[t.id]; p != nil {
		st.assume(mkEq(termD(t), mkApp("mkTok", sTokD, p[0], p[1], p[2], p[3])))
		delete(st.toks, t.id)
	}
}

// ---- allocation

func (x *Exec) newRef(st *State) *Term {
	st.mark = mkAdd(st.mark, tOne)
	return st.mark
}

func (x *Exec) alloc(st *State, t types.Type) *Term {
	ref := x.newRef(st)
	x.initAt(st, ref, t)
	return ref
}

func (x *Exec) initAt(st *State, ref *Term, t types.Type) {
	switch u := under(t).(type) {
	case *types.Struct:
		if x.V.isToken(t) {
			if st.toks == nil {
				st.toks = map[int]*[4]*Term{}
			}
			st.toks[ref.id] = &[4]*Term{mkStr(""), tFalse, tFalse, tFalse}
			return
		}
		key := x.V.typeKey(t)
		if zs, ok := x.V.specs.zero[key]; ok {
			for _, z := range zs {
				env := &Env{x: x, st: st, vars: map[string]SV{}}
				g := x.V.specs.ghosts[z.ghost]
				c := "G:" + z.ghost
				x.setComp(st, c, mkStore(x.comp(st, c, arrOf(g[0], g[1])), ref, env.term(z.e)), ref)
			}
		}
		if n, ok := types.Unalias(t).(*types.Named); ok && !x.V.inRepo(n.Obj().Pkg()) && n.Obj().Pkg() != nil {
			return
		}
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			if x.isStructVal(ft) {
				x.initAt(st, x.faddr(t, i, ref), ft)
			} else {
				x.storeComps(st, x.fieldComp(t, i), ref, ft, x.zero(ft))
			}
		}
	case *types.Array:
		es, ok := sortOf(u.Elem())
		if !ok {
			return // contents opaque
		}
		c := x.arrComp(u.Elem())
		x.setComp(st, c, mkStore(x.comp(st, c, arrOf(sInt, arrOf(sInt, es))), ref, constArr(arrOf(sInt, es), zeroTerm(es))), ref)
	default:
		x.storeComps(st, "C:"+x.V.typeKey(t), ref, t, x.zero(t))
	}
}

func (x *Exec) arrComp(elem types.Type) string { return "A:" + x.V.typeKey(elem) }

func (x *Exec) arrTerm(st *State, elem types.Type) *Term {
	es, ok := sortOf(elem)
	if !ok {
		x.unsupported("slice of %s", elem)
	}
	return x.comp(st, x.arrComp(elem), arrOf(sInt, arrOf(sInt, es)))
}

func (x *Exec) mapComps(st *State, m *types.Map) (string, string, *Term, *Term) {
	ks, ok1 := sortOf(m.Key())
	vs, ok2 := sortOf(m.Elem())
	if !ok1 || !ok2 {
		x.unsupported("map type %s", m)
	}
	k := x.V.typeKey(m.Key()) + "," + x.V.typeKey(m.Elem())
	dn, vn := "MD:"+k, "MV:"+k
	return dn, vn, x.comp(st, dn, arrOf(sInt, arrOf(ks, sBool))), x.comp(st, vn, arrOf(sInt, arrOf(ks, vs)))
}

// ---- constants

func (x *Exec) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return x.zero(t)
	}
	switch under(t).(type) {
	case *types.Basic:
	default:
		x.unsupported("constant of type %s", t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return mkBool(constant.BoolVal(c.Value))
	case constant.String:
		return mkStr(constant.StringVal(c.Value))
	case constant.Int:
		n, ok := constant.Int64Val(c.Value)
		if !ok {
			x.unsupported("constant %s", c)
		}
		return mkInt(n)
	}
	x.unsupported("constant %s", c)
	return nil
}

// funcRef is the reference standing for a declared function used as a value
func (x *Exec) funcRef(fn *ssa.Function) *Term {
	for i := 0; i < 5; i++ {
		if g, _ := wraps(fn); g != nil {
			fn = g
		}
	}
	name := x.V.fnName(fn)
	t := rawTerm("fnref", sInt, mkInt(fnID(name)))
	if _, ok := x.closures[t.id]; !ok {
		x.closures[t.id] = &Closure{fn: fn}
	}
	return t
}

// wraps: the function (or the package-level variable) fn does nothing but call with its own arguments
func wraps(fn *ssa.Function) (*ssa.Function, *ssa.Global) {
	if len(fn.Blocks) != 1 || len(fn.FreeVars) > 0 {
		return nil, nil
	}
	var call *ssa.Call
	var load *ssa.UnOp
	for _, in := range fn.Blocks[0].Instrs {
		switch in := in.(type) {
		case *ssa.DebugRef:
		case *ssa.UnOp:
			if load != nil || call != nil {
				return nil, nil
			}
			load = in
		case *ssa.Call:
			if call != nil {
				return nil, nil
			}
			call = in
		case *ssa.Return:
			if call == nil || len(in.Results) != 1 || in.Results[0] != call {
				return nil, nil
			}
		default:
			return nil, nil
		}
	}
	if call == nil || call.Call.IsInvoke() || len(call.Call.Args) != len(fn.Params) {
		return nil, nil
	}
	for i, a := range call.Call.Args {
		if a != fn.Params[i] {
			return nil, nil
		}
	}
	if f, ok := call.Call.Value.(*ssa.Function); ok && load == nil {
		return f, nil
	}
	if load != nil && call.Call.Value == load {
		if g, ok := load.X.(*ssa.Global); ok {
			return nil, g
		}
	}
	return nil, nil
}

var fnIDs = map[string]int64{}
var fnNames = map[int64]string{}

func fnID(n string) int64 {
	if i, ok := fnIDs[n]; ok {
		return i
	}
	fnIDs[n] = int64(len(fnIDs) + 1)
	fnNames[fnIDs[n]] = n
	return fnIDs[n]
}

func (x *Exec) val(fr *Frame, st *State, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Function:
		return x.funcRef(v)
	case *ssa.Global:
		return AddrV{kind: "global", glob: v, typ: v.Type().(*types.Pointer).Elem()}
	case *ssa.Builtin:
		return BadV{"builtin as value"}
	}
	if r, ok := fr.env[v]; ok {
		return r
	}
	x.unsupported("no value for %s in %s", v, fr.fn)
	return nil
}

func (x *Exec) term(fr *Frame, st *State, v ssa.Value) *Term {
	r := x.val(fr, st, v)
	t, ok := r.(*Term)
	if !ok {
		if b, isB := r.(BadV); isB {
			x.unsupported("%s", b.why)
		}
		x.unsupported("expected a scalar for %s (%T)", v, r)
	}
	return t
}

// ---- running functions

func (x *Exec) runFn(fn *ssa.Function, args []Val, free []Val, st *State, parent *Frame, site string, k Cont) {
	if len(fn.Blocks) == 0 {
		x.unsupported("function without body %s", fn)
	}
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, parent: parent}
	if parent != nil {
		fr.path = parent.path + ">" + site
		fr.depth = parent.depth + 1
	} else {
		fr.path = site
	}
	if fr.depth > 12 {
		x.unsupported("inlining too deep (recursion?) at %s", fn)
	}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		fr.env[f] = free[i]
	}
	fr.loops = findLoops(fn)
	loops := st.loops
	x.block(fr, fn.Blocks[0], nil, st, func(st *State, res Val) {
		st.loops = loops
		k(st, res)
	})
}

func findLoops(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	out := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				body := out[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					out[s] = body
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					n := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if body[n] {
						continue
					}
					body[n] = true
					stack = append(stack, n.Preds...)
				}
			}
		}
	}
	return out
}

// block transfers control to b from prev
func (x *Exec) block(fr *Frame, b, prev *ssa.BasicBlock, st *State, k Cont) {
	// leave loops not containing b
	for st.loops != nil && st.loops.fr.path == fr.path && st.loops.fr.fn == fr.fn && !st.loops.body[b] {
		st.loops = st.loops.parent
	}
	phiVals := map[*ssa.Phi]Val{}
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		for i, pr := range b.Preds {
			if pr == prev {
				v := x.val(fr, st, p.Edges[i])
				x.publish(st, v)
				phiVals[p] = v
				break
			}
		}
	}
	if body, isHeader := fr.loops[b]; isHeader {
		if st.loops != nil && st.loops.header == b && st.loops.fr.path == fr.path && st.loops.fr.fn == fr.fn {
			x.loopBack(fr, st, phis, phiVals)
			return
		}
		if !x.decided(fr, b, phis, phiVals, st.clone()) {
			x.loopEnter(fr, b, body, st, phis, phiVals)
			x.instrs(fr, b, len(phis), st, k)
			return
		}
	}
	for _, p := range phis {
		fr.env[p] = phiVals[p]
	}
	x.instrs(fr, b, len(phis), st, k)
}

func (x *Exec) site(fr *Frame, in ssa.Instruction) string {
	b := in.Block()
	for i, j := range b.Instrs {
		if j == in {
			return fmt.Sprintf("%s.%d.%d", fr.fn.Name(), b.Index, i)
		}
	}
	return "?"
}

func (x *Exec) instrs(fr *Frame, b *ssa.BasicBlock, i int, st *State, k Cont) {
	for ; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		if len(st.toks) > 0 {
			switch in.(type) {
			case *ssa.FieldAddr, *ssa.DebugRef:
			default:
				var ops [10]*ssa.Value
				for _, op := range in.Operands(ops[:0]) {
					if *op == nil {
						continue
					}
					if v, ok := fr.env[*op]; ok {
						if s, isStore := in.(*ssa.Store); isStore && s.Addr == *op {
							continue
						}
						x.publish(st, v)
					}
				}
			}
		}
		switch in := in.(type) {
		case *ssa.If:
			c := x.term(fr, st, in.Cond)
			// a switch: tests that lead to the same place are one disjunction
			if nb, nc, ok := x.switchChain(fr, b, st, c); ok {
				st2 := st.clone()
				fr2 := fr.clone()
				st2.assume(nc)
				x.countPath()
				x.block(fr2, b.Succs[0], b, st2, k)
				st.assume(mkNot(nc))
				x.block(fr, nb.Succs[1], nb, st, k)
				return
			}
			if c == tTrue {
				x.block(fr, b.Succs[0], b, st, k)
				return
			}
			if c == tFalse {
				x.block(fr, b.Succs[1], b, st, k)
				return
			}
			neg := mkNot(c)
			has := func(t *Term) bool {
				for _, h := range st.hyps {
					if h == t {
						return true
					}
				}
				return false
			}
			tryT, tryF := !has(neg), !has(c)
			if tryT && tryF {
				st2 := st.clone()
				fr2 := fr.clone()
				st2.assume(c)
				x.countPath()
				x.block(fr2, b.Succs[0], b, st2, k)
				st.assume(neg)
				x.block(fr, b.Succs[1], b, st, k)
			} else if tryT {
				x.block(fr, b.Succs[0], b, st, k)
			} else {
				x.block(fr, b.Succs[1], b, st, k)
			}
			return
		case *ssa.Jump:
			x.block(fr, b.Succs[0], b, st, k)
			return
		case *ssa.Return:
			var res Val
			switch len(in.Results) {
			case 0:
			case 1:
				res = x.val(fr, st, in.Results[0])
			default:
				var t TupleV
				for _, r := range in.Results {
					t = append(t, x.val(fr, st, r))
				}
				res = t
			}
			k(st, res)
			return
		case *ssa.Panic:
			x.oblige(st, tFalse, "safe", "does not panic", nil)
			return
		case *ssa.Call:
			i0 := i
			x.call(fr, in, st, func(fr *Frame, st *State, res Val) {
				fr.env[in] = res
				x.instrs(fr, b, i0+1, st, k)
			})
			return
		case *ssa.RunDefers:
			ds := fr.defers
			i0 := i
			var next func(j int, fr *Frame, st *State)
			next = func(j int, fr *Frame, st *State) {
				if j < 0 {
					x.instrs(fr, b, i0+1, st, k)
					return
				}
				ds[j](fr, st, func(fr *Frame, st *State, _ Val) { next(j-1, fr, st) })
			}
			next(len(ds)-1, fr, st)
			return
		case *ssa.Defer:
			d := x.prepare(fr, st, &in.Call, in.Call.Signature().Results(), x.site(fr, in))
			fr.defers = append(fr.defers[:len(fr.defers):len(fr.defers)], d)
		case *ssa.Go, *ssa.Send, *ssa.Select:
			x.unsupported("%T in %s", in, fr.fn)
		default:
			x.step(fr, in, st)
		}
	}
	x.unsupported("block falls off the end")
}

// switchChain gathers tests of the form x == constant that go to the same block as b's test
func (x *Exec) switchChain(fr *Frame, b *ssa.BasicBlock, st *State, c *Term) (*ssa.BasicBlock, *Term, bool) {
	isPhi := func(b *ssa.BasicBlock) bool {
		_, ok := b.Instrs[0].(*ssa.Phi)
		return ok
	}
	target := b.Succs[0]
	if c == tTrue || c == tFalse || isPhi(target) {
		return nil, nil, false
	}
	cs := []*Term{c}
	last := b
	for {
		n := last.Succs[1]
		if len(n.Preds) != 1 || n == b {
			break
		}
		var cond *Term
		ok := true
		tmp := fr
		for _, in := range n.Instrs {
			switch in := in.(type) {
			case *ssa.DebugRef:
			case *ssa.BinOp:
				if in.Op != token.EQL {
					ok = false
				}
				if _, isC := in.Y.(*ssa.Const); !isC {
					ok = false
				}
				if ok {
					x.step(tmp, in, st)
				}
			case *ssa.If:
				if ok && n.Succs[0] == target {
					cond = x.term(tmp, st, in.Cond)
				}
			default:
				ok = false
			}
			if !ok {
				break
			}
		}
		if !ok || cond == nil || cond == tTrue || cond == tFalse {
			break
		}
		cs = append(cs, cond)
		last = n
	}
	if len(cs) == 1 {
		return nil, nil, false
	}
	return last, mkOr(cs...), true
}

func (x *Exec) countPath() {
	x.paths++
	if x.paths > 60000 {
		x.unsupported("too many paths")
	}
}

func (x *Exec) step(fr *Frame, in ssa.Instruction, st *State) {
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := in.Type().(*types.Pointer).Elem()
		fr.env[in] = x.alloc(st, t)
	case *ssa.FieldAddr:
		fr.env[in] = x.fieldAddr(st, x.val(fr, st, in.X), in.X.Type().Underlying().(*types.Pointer).Elem(), in.Field)
	case *ssa.Field:
		sv, ok := x.val(fr, st, in.X).(StructV)
		if !ok {
			x.unsupported("field of %T", x.val(fr, st, in.X))
		}
		fr.env[in] = sv.fields[in.Field]
	case *ssa.IndexAddr:
		idx := x.term(fr, st, in.Index)
		switch v := x.val(fr, st, in.X).(type) {
		case SliceV:
			x.safe(st, mkAnd(mkLe(tZero, idx), mkLt(idx, v.len)), "index in range")
			fr.env[in] = AddrV{kind: "elem", ref: v.arr, idx: mkAdd(v.off, idx), typ: v.elem}
		case *Term: // pointer to array
			at := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			x.safe(st, mkAnd(mkLe(tZero, idx), mkLt(idx, mkInt(at.Len()))), "index in range")
			fr.env[in] = AddrV{kind: "elem", ref: v, idx: idx, typ: at.Elem()}
		default:
			x.unsupported("index of %T", v)
		}
	case *ssa.Index:
		x.unsupported("index of %s", in.X.Type())
	case *ssa.Store:
		x.store(st, x.val(fr, st, in.Addr), in.Addr.Type().Underlying().(*types.Pointer).Elem(), x.val(fr, st, in.Val))
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			fr.env[in] = x.load(st, x.val(fr, st, in.X), in.Type())
		case token.NOT:
			fr.env[in] = mkNot(x.term(fr, st, in.X))
		case token.SUB:
			fr.env[in] = mkMul(-1, x.term(fr, st, in.X))
		default:
			x.unsupported("unary %s", in.Op)
		}
	case *ssa.BinOp:
		fr.env[in] = x.binop(fr, st, in)
	case *ssa.Extract:
		tv, ok := x.val(fr, st, in.Tuple).(TupleV)
		if !ok {
			x.unsupported("extract of %T", x.val(fr, st, in.Tuple))
		}
		fr.env[in] = tv[in.Index]
	case *ssa.ChangeType:
		v := x.val(fr, st, in.X)
		if sv, ok := v.(SliceV); ok {
			fr.env[in] = sv
		} else {
			fr.env[in] = v
		}
	case *ssa.ChangeInterface:
		fr.env[in] = x.val(fr, st, in.X)
	case *ssa.MakeInterface:
		v := x.val(fr, st, in.X)
		var t *Term
		if isRef(in.X.Type()) {
			t, _ = v.(*Term)
		}
		if t == nil {
			// boxed value: never nil
			t = x.freshConst("box", sInt)
			st.assume(mkLt(tZero, t))
			st.assume(mkLe(t, st.mark))
		}
		x.dyn[t.id] = struct {
			t types.Type
			v Val
		}{in.X.Type(), v}
		fr.env[in] = t
	case *ssa.TypeAssert:
		x.unsupported("type assertion")
	case *ssa.MakeClosure:
		ref := x.newRef(st)
		c := &Closure{fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			v := x.val(fr, st, b)
			x.publish(st, v)
			c.free = append(c.free, v)
		}
		x.closures[ref.id] = c
		fr.env[in] = ref
	case *ssa.MakeMap:
		ref := x.newRef(st)
		mt := in.Type().Underlying().(*types.Map)
		dn, vn, d, v := x.mapComps(st, mt)
		_, ds := arrParts(d.sort)
		_, vs := arrParts(v.sort)
		x.setComp(st, dn, mkStore(d, ref, zeroTerm(ds)), ref)
		x.setComp(st, vn, mkStore(v, ref, zeroTerm(vs)), ref)
		fr.env[in] = ref
	case *ssa.MakeSlice:
		ref := x.newRef(st)
		et := in.Type().Underlying().(*types.Slice).Elem()
		l, c := x.term(fr, st, in.Len), x.term(fr, st, in.Cap)
		x.safe(st, mkAnd(mkLe(tZero, l), mkLe(l, c)), "make: length and capacity in range")
		a := x.arrTerm(st, et)
		_, as := arrParts(a.sort)
		x.setComp(st, x.arrComp(et), mkStore(a, ref, zeroTerm(as)), ref)
		fr.env[in] = SliceV{ref, tZero, l, c, et}
	case *ssa.Lookup:
		x.lookup(fr, in, st)
	case *ssa.MapUpdate:
		m := x.term(fr, st, in.Map)
		mt := in.Map.Type().Underlying().(*types.Map)
		x.safe(st, mkNot(mkEq(m, tZero)), "map is not nil")
		kv, vv := x.term(fr, st, in.Key), x.term(fr, st, in.Value)
		dn, vn, d, v := x.mapComps(st, mt)
		x.frameCheck(st, dn, m, "map")
		x.setComp(st, dn, mkStore(d, m, mkStore(mkSelect(d, m), kv, tTrue)), m)
		x.setComp(st, vn, mkStore(v, m, mkStore(mkSelect(v, m), kv, vv)), m)
		x.event(st, x.V.typeKey(mt), m, kv, vv)
	case *ssa.Slice:
		fr.env[in] = x.slice(fr, in, st)
	case *ssa.Convert:
		fr.env[in] = x.convert(fr, in, st)
	case *ssa.MultiConvert:
		x.unsupported("multiconvert")
	case *ssa.Range:
		comp := "I:" + fr.path + "/" + in.Name()
		switch t := in.X.Type().Underlying().(type) {
		case *types.Basic:
			s := x.term(fr, st, in.X)
			x.compSort[comp] = sIL
			x.setComp(st, comp, mkApp("runes", sIL, s), nil)
			fr.env[in] = RangeV{comp: comp, kind: "string"}
		case *types.Map:
			m := x.term(fr, st, in.X)
			_, _, d, _ := x.mapComps(st, t)
			_, ds := arrParts(d.sort)
			x.compSort[comp] = ds
			x.setComp(st, comp, mapDom(m, ds, mkSelect(d, m)), nil)
			fr.env[in] = RangeV{comp: comp, kind: "map", m: m, mt: t}
		default:
			x.unsupported("range over %s", t)
		}
	case *ssa.Next:
		rv, ok := x.val(fr, st, in.Iter).(RangeV)
		if !ok {
			x.unsupported("next of a non-range")
		}
		rest := st.mem[rv.comp]
		if rv.kind == "string" {
			okT := mkNot(mkEq(rest, rawTerm("inil", sIL)))
			r := mkApp("ihd", sInt, rest)
			key := x.freshConst("bytepos", sInt)
			st.assume(mkLe(tZero, key))
			// case split is left to the following branch; the iterator advances if there is a rune
			x.setComp(st, rv.comp, mkIte(okT, mkApp("itl", sIL, rest), rest), nil)
			st.assume(mkImp(okT, mkAnd(mkLe(tZero, r), mkLe(r, mkInt(0x10ffff)))))
			fr.env[in] = TupleV{okT, key, r}
		} else {
			ks, _ := arrParts(rest.sort)
			key := x.freshConst("mapkey", ks)
			okT := x.freshConst("mapok", sBool)
			bv := mkBVar("mk", ks)
			st.assume(mkImp(okT, mkSelect(rest, key)))
			st.assume(mkImp(mkNot(okT), mkForall([]*Term{bv}, [][]*Term{{mkSelect(rest, bv)}}, mkNot(mkSelect(rest, bv)))))
			left := x.freshConst("mapleft", rest.sort)
			st.assume(mkEq(left, mkIte(okT, mkStore(rest, key, tFalse), rest)))
			x.setComp(st, rv.comp, left, nil)
			_, _, _, v := x.mapComps(st, rv.mt)
			vv := mkSelect(mkSelect(v, rv.m), key)
			fr.env[in] = TupleV{okT, key, vv}
		}
	default:
		x.unsupported("instruction %T", in)
	}
}

func (x *Exec) fieldAddr(st *State, base Val, structT types.Type, i int) Val {
	u := under(structT).(*types.Struct)
	ft := u.Field(i).Type()
	switch b := base.(type) {
	case *Term:
		x.safe(st, mkNot(mkEq(b, tZero)), "pointer is not nil")
		if x.V.isToken(structT) {
			return AddrV{kind: "field", ref: b, typ: ft, tok: i + 1}
		}
		if x.isStructVal(ft) {
			return x.faddr(structT, i, b)
		}
		return AddrV{kind: "field", comp: x.fieldComp(structT, i), ref: b, typ: ft}
	case AddrV:
		if b.kind == "global" {
			return AddrV{kind: "gfield", glob: b.glob, typ: ft}
		}
	}
	x.unsupported("field address of %T", base)
	return nil
}

func (x *Exec) load(st *State, a Val, t types.Type) Val {
	switch a := a.(type) {
	case AddrV:
		switch a.kind {
		case "field":
			if a.tok > 0 {
				return x.tokField(st, a.ref, a.tok-1)
			}
			return x.loadComps(st, a.comp, a.ref, a.typ)
		case "elem":
			if _, ok := sortOf(a.typ); !ok {
				return BadV{"element of type " + a.typ.String()}
			}
			v := mkSelect(mkSelect(x.arrTerm(st, a.typ), a.ref), a.idx)
			x.assumeRefBounds(st, v, a.typ)
			return v
		case "global":
			return x.loadGlobal(st, a.glob)
		}
	case *Term:
		x.safe(st, mkNot(mkEq(a, tZero)), "pointer is not nil")
		if x.isStructVal(t) {
			return x.loadStruct(st, a, t)
		}
		return x.loadComps(st, "C:"+x.V.typeKey(t), a, t)
	}
	x.unsupported("load from %T", a)
	return nil
}

func (x *Exec) store(st *State, a Val, t types.Type, v Val) {
	x.publish(st, v)
	switch a := a.(type) {
	case AddrV:
		switch a.kind {
		case "field":
			if a.tok > 0 {
				p := st.toks[a.ref.id]
				if p == nil {
					x.frameTokWrite(st)
					return
				}
				p[x.V.tokFieldIdx(x.V.tokStruct(), a.tok-1)] = v.(*Term)
				return
			}
			x.frameCheck(st, a.comp, a.ref, strings.TrimPrefix(a.comp, "F:"))
			x.storeComps(st, a.comp, a.ref, a.typ, v)
			x.event(st, a.comp, a.ref, v)
			return
		case "elem":
			es, ok := sortOf(a.typ)
			if !ok {
				return // opaque contents
			}
			tv, ok := v.(*Term)
			if !ok {
				x.unsupported("store of %T into an element", v)
			}
			_ = es
			x.frameCheck(st, x.arrComp(a.typ), a.ref, "elements of "+x.V.typeKey(a.typ))
			arr := x.arrTerm(st, a.typ)
			x.setComp(st, x.arrComp(a.typ), mkStore(arr, a.ref, mkStore(mkSelect(arr, a.ref), a.idx, tv)), a.ref)
			return
		case "global", "gfield":
			if !x.evalInit {
				x.oblige(st, tFalse, "frame", "package-level variable "+a.glob.Name()+" is not written", []string{"C19"})
			}
			if a.kind == "global" {
				x.globals[a.glob] = v
			}
			return
		}
	case *Term:
		x.safe(st, mkNot(mkEq(a, tZero)), "pointer is not nil")
		if x.isStructVal(t) {
			if st.toks[a.id] == nil {
				x.frameCheck(st, "F:"+x.V.typeKey(t)+".*", a, x.V.typeKey(t))
			}
			x.storeStruct(st, a, t, v)
			return
		}
		x.frameCheck(st, "C:"+x.V.typeKey(t), a, "variable of type "+x.V.typeKey(t))
		x.storeComps(st, "C:"+x.V.typeKey(t), a, t, v)
		return
	}
	x.unsupported("store to %T", a)
}

// event runs the ghost code attached to a write
func (x *Exec) event(st *State, what string, vs ...Val) {
	for _, ev := range x.V.specs.events {
		if x.V.eventComp(ev.what) != what || len(ev.vars) != len(vs) {
			continue
		}
		vars := map[string]SV{}
		for i, n := range ev.vars {
			vars[n] = SV{vs[i], nil}
		}
		old := st.clone()
		env := &Env{x: x, st: old, old: old, vars: vars}
		for _, s := range ev.set {
			g := x.V.specs.ghosts[s.ghost]
			c := "G:" + s.ghost
			ref := env.term(s.ref)
			x.frameCheck(st, c, ref, "ghost "+s.ghost)
			x.setComp(st, c, mkStore(x.comp(st, c, arrOf(g[0], g[1])), ref, env.term(s.e)), ref)
		}
	}
}

// eventComp: the component a ghost event is attached to, allowing for renamed fields
func (v *Verifier) eventComp(what string) string {
	if strings.HasPrefix(what, "map[") {
		return what
	}
	return v.compName("F:" + what)
}

// compName resolves F:pkg.T.f to the present name of that field
func (v *Verifier) compName(c string) string {
	if !strings.HasPrefix(c, "F:") {
		return c
	}
	i := strings.LastIndexByte(c, '.')
	t := v.namedType(c[2:i])
	if t == nil {
		return c
	}
	e := &Env{x: &Exec{V: v}}
	if _, j := e.structField(types.NewPointer(t), c[i+1:]); j >= 0 {
		return "F:" + c[2:i] + "." + under(t).(*types.Struct).Field(j).Name()
	}
	return c
}

func (x *Exec) loadGlobal(st *State, g *ssa.Global) Val {
	if v, ok := x.globals[g]; ok {
		return v
	}
	t := g.Type().(*types.Pointer).Elem()
	name := "g:" + x.V.alias(g.Pkg.Pkg) + "." + g.Name()
	v := x.globalConst(st, name, t)
	x.globals[g] = v
	if c, ok := v.(*Term); ok && x.initing == "" && !x.evalInit {
		noteFacts(c, x.initFacts(g, c))
	}
	return v
}

// initFacts: what the initializer says about a package-level variable that is not written afterwards:
// the entries of a map literal of constants, functions and other variables; an error that is not nil, and
// is different from the others
func (x *Exec) initFacts(g *ssa.Global, c *Term) []*Term {
	if !x.V.inRepo(g.Pkg.Pkg) || g.Pkg.Func("init") == nil {
		return nil
	}
	t := g.Type().(*types.Pointer).Elem()
	mt, isM := under(t).(*types.Map)
	if !isM && t.String() != "error" {
		return nil
	}
	var val ssa.Value
	for _, b := range g.Pkg.Func("init").Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && s.Addr == g {
				if val != nil {
					return nil
				}
				val = s.Val
			}
		}
	}
	if val == nil || x.V.writtenLater(g, true) != "" {
		return nil
	}
	if !isM {
		call, ok := val.(*ssa.Call)
		if !ok || call.Call.StaticCallee() == nil {
			return nil
		}
		if n := x.V.fnName(call.Call.StaticCallee()); n != "fmt.Errorf" && n != "errors.New" {
			return nil
		}
		return []*Term{mkLt(tZero, c), mkEq(mkApp("errid", sInt, c), mkInt(fnID("error "+c.String())))}
	}
	mk, ok := val.(*ssa.MakeMap)
	if !ok {
		return nil
	}
	ks, ok1 := sortOf(mt.Key())
	vs, ok2 := sortOf(mt.Elem())
	if !ok1 || !ok2 {
		return nil
	}
	k := x.V.typeKey(mt.Key()) + "," + x.V.typeKey(mt.Elem())
	d := mkSelect(mkConst("H0:MD:"+k, arrOf(sInt, arrOf(ks, sBool))), c)
	v := mkSelect(mkConst("H0:MV:"+k, arrOf(sInt, arrOf(ks, vs))), c)
	x.compSort["MD:"+k] = arrOf(sInt, arrOf(ks, sBool))
	x.compSort["MV:"+k] = arrOf(sInt, arrOf(ks, vs))
	tmp := x.initState()
	var value func(w ssa.Value) *Term
	value = func(w ssa.Value) *Term {
		switch w := w.(type) {
		case *ssa.Const:
			r, _ := x.constVal(w).(*Term)
			return r
		case *ssa.ChangeType:
			return value(w.X)
		case *ssa.Function:
			f := w
			for i := 0; i < 5; i++ {
				g, v := wraps(f)
				if v != nil {
					r, _ := x.loadGlobal(tmp, v).(*Term)
					return r
				}
				if g != nil {
					f = g
				}
			}
			return x.funcRef(f)
		case *ssa.UnOp:
			if h, ok := w.X.(*ssa.Global); ok && h != g {
				r, _ := x.loadGlobal(tmp, h).(*Term)
				return r
			}
		}
		return nil
	}
	b := mkBVar("k", ks)
	var keys, facts []*Term
	for _, r := range *mk.Referrers() {
		switch r := r.(type) {
		case *ssa.MapUpdate:
			kt, vt := value(r.Key), value(r.Value)
			if kt == nil || vt == nil || r.Map != mk {
				return nil
			}
			keys = append(keys, mkEq(b, kt))
			facts = append(facts, mkEq(mkSelect(v, kt), vt))
		case *ssa.Store, *ssa.DebugRef:
		default:
			return nil
		}
	}
	if len(keys) > 40 {
		return nil
	}
	sel := mkSelect(d, b)
	return append(facts, mkLt(tZero, c), mkForall([]*Term{b}, [][]*Term{{sel}}, mkEq(sel, mkOr(keys...))))
}

func (x *Exec) globalConst(st *State, name string, t types.Type) Val {
	if s, ok := sortOf(t); ok {
		c := mkConst(name, s)
		if isRef(t) {
			st.assume(mkLe(tZero, c))
			st.assume(mkLe(c, mkConst("mark0", sInt)))
		}
		return c
	}
	if u, ok := under(t).(*types.Slice); ok {
		s := SliceV{mkConst(name+".arr", sInt), mkConst(name+".off", sInt), mkConst(name+".len", sInt), mkConst(name+".cap", sInt), u.Elem()}
		fs := []*Term{mkLe(tZero, s.arr), mkLe(s.arr, mkConst("mark0", sInt)), mkLe(tZero, s.off), mkLe(tZero, s.len), mkLe(s.len, s.cap), mkImp(mkEq(s.arr, tZero), mkAnd(mkEq(s.cap, tZero), mkEq(s.off, tZero)))}
		for _, c := range []*Term{s.arr, s.off, s.len, s.cap} {
			noteFacts(c, fs)
		}
		return s
	}
	return BadV{"global " + name}
}

func (x *Exec) lookup(fr *Frame, in *ssa.Lookup, st *State) {
	mt, ok := in.X.Type().Underlying().(*types.Map)
	if !ok {
		// string index: a byte
		s, i := x.term(fr, st, in.X), x.term(fr, st, in.Index)
		x.safe(st, mkAnd(mkLe(tZero, i), mkLt(i, mkApp("slen", sInt, s))), "index in range")
		b := mkApp("sbyte", sInt, s, i)
		st.assume(mkAnd(mkLe(tZero, b), mkLe(b, mkInt(255))))
		fr.env[in] = b
		return
	}
	m := x.term(fr, st, in.X)
	kv := x.term(fr, st, in.Index)
	_, _, d, v := x.mapComps(st, mt)
	has := mkAnd(mkNot(mkEq(m, tZero)), mkSelect(mkSelect(d, m), kv))
	vs, _ := sortOf(mt.Elem())
	vv := mkSelect(mkSelect(v, m), kv)
	x.assumeRefBounds(st, vv, mt.Elem())
	r := mkIte(has, vv, zeroTerm(vs))
	x.assumeRefBounds(st, r, mt.Elem())
	if in.CommaOk {
		fr.env[in] = TupleV{r, has}
	} else {
		fr.env[in] = r
	}
}

func (x *Exec) slice(fr *Frame, in *ssa.Slice, st *State) Val {
	v := x.val(fr, st, in.X)
	opt := func(s ssa.Value, d *Term) *Term {
		if s == nil {
			return d
		}
		return x.term(fr, st, s)
	}
	switch b := v.(type) {
	case SliceV:
		lo := opt(in.Low, tZero)
		hi := opt(in.High, b.len)
		mx := opt(in.Max, b.cap)
		x.safe(st, mkAnd(mkLe(tZero, lo), mkLe(lo, hi), mkLe(hi, mx), mkLe(mx, b.cap)), "slice bounds in range")
		return SliceV{b.arr, mkAdd(b.off, mkIte(mkEq(b.arr, tZero), tZero, lo)), mkSub(hi, lo), mkSub(mx, lo), b.elem}
	case *Term:
		if pt, ok := in.X.Type().Underlying().(*types.Pointer); ok {
			at := pt.Elem().Underlying().(*types.Array)
			n := mkInt(at.Len())
			lo := opt(in.Low, tZero)
			hi := opt(in.High, n)
			x.safe(st, mkAnd(mkLe(tZero, lo), mkLe(lo, hi), mkLe(hi, n)), "slice bounds in range")
			return SliceV{b, lo, mkSub(hi, lo), mkSub(n, lo), at.Elem()}
		}
		// string
		lo := opt(in.Low, tZero)
		hi := opt(in.High, mkApp("slen", sInt, b))
		x.safe(st, mkAnd(mkLe(tZero, lo), mkLe(lo, hi), mkLe(hi, mkApp("slen", sInt, b))), "slice bounds in range")
		if in.Low == nil && in.High == nil {
			return b
		}
		return mkApp("ssub", sStr, b, lo, hi)
	}
	x.unsupported("slice of %T", v)
	return nil
}

func isByteSlice(t types.Type) bool {
	s, ok := under(t).(*types.Slice)
	if !ok {
		return false
	}
	b, ok := under(s.Elem()).(*types.Basic)
	return ok && b.Kind() == types.Uint8
}
func isRuneSlice(t types.Type) bool {
	s, ok := under(t).(*types.Slice)
	if !ok {
		return false
	}
	b, ok := under(s.Elem()).(*types.Basic)
	return ok && b.Kind() == types.Int32
}

func (x *Exec) bytesComp(st *State) *Term { return x.comp(st, "G:bytes", arrOf(sInt, sStr)) }

// bytesStr is the text held by a byte slice
func (x *Exec) bytesStr(st *State, s SliceV) *Term {
	c := mkSelect(x.bytesComp(st), s.arr)
	if mkEq(s.off, tZero) == tTrue && mkEq(s.len, mkApp("slen", sInt, c)) == tTrue {
		return c
	}
	return mkIte(mkAnd(mkEq(s.off, tZero), mkEq(s.len, mkApp("slen", sInt, c))), c, mkApp("ssub", sStr, c, s.off, mkAdd(s.off, s.len)))
}

func (x *Exec) convert(fr *Frame, in *ssa.Convert, st *State) Val {
	v := x.val(fr, st, in.X)
	from, to := in.X.Type(), in.Type()
	fb, fok := under(from).(*types.Basic)
	tb, tok := under(to).(*types.Basic)
	switch {
	case fok && tok && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
		return v
	case fok && tok && fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
		return v
	case fok && fb.Info()&types.IsInteger != 0 && tok && tb.Info()&types.IsString != 0:
		return mkApp("rstr", sStr, v.(*Term))
	case fok && fb.Info()&types.IsString != 0 && isByteSlice(to):
		s := v.(*Term)
		ref := x.newRef(st)
		x.setComp(st, "G:bytes", mkStore(x.bytesComp(st), ref, s), ref)
		n := mkApp("slen", sInt, s)
		return SliceV{ref, tZero, n, n, under(to).(*types.Slice).Elem()}
	case isByteSlice(from) && tok && tb.Info()&types.IsString != 0:
		return x.bytesStr(st, v.(SliceV))
	case fok && fb.Info()&types.IsString != 0 && isRuneSlice(to):
		s := v.(*Term)
		ref := x.newRef(st)
		et := under(to).(*types.Slice).Elem()
		a := x.arrTerm(st, et)
		na := x.freshConst("runesof", arrOf(sInt, sInt))
		n := mkApp("ilen", sInt, mkApp("runes", sIL, s))
		st.assume(mkLe(tZero, n))
		st.assume(mkEq(mkApp("seg", sIL, na, tZero, n), mkApp("runes", sIL, s)))
		x.setComp(st, x.arrComp(et), mkStore(a, ref, na), ref)
		return SliceV{ref, tZero, n, n, et}
	case isRuneSlice(from) && tok && tb.Info()&types.IsString != 0:
		s := v.(SliceV)
		return mkApp("rcat", sStr, x.elems(st, s))
	}
	if types.Identical(under(from), under(to)) {
		return v
	}
	x.unsupported("conversion %s to %s", from, to)
	return nil
}

// elems is the list of elements of a slice
func (x *Exec) elems(st *State, s SliceV) *Term {
	a := mkSelect(x.arrTerm(st, s.elem), s.arr)
	es, _ := sortOf(s.elem)
	switch es {
	case sInt:
		return rawTerm("seg", sIL, a, s.off, mkAdd(s.off, s.len))
	case sStr:
		return rawTerm("segS", sSL, a, s.off, mkAdd(s.off, s.len))
	}
	x.unsupported("elements of []%s", s.elem)
	return nil
}

func (x *Exec) binop(fr *Frame, st *State, in *ssa.BinOp) Val {
	a, b := x.val(fr, st, in.X), x.val(fr, st, in.Y)
	if sa, ok := a.(SliceV); ok {
		sb, ok2 := b.(SliceV)
		if ok2 && (in.Op == token.EQL || in.Op == token.NEQ) {
			// comparison with nil
			e := mkEq(sa.arr, tZero)
			if sa.arr == tZero {
				e = mkEq(sb.arr, tZero)
			}
			if in.Op == token.NEQ {
				e = mkNot(e)
			}
			return e
		}
	}
	ta, ok1 := a.(*Term)
	tb, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		x.unsupported("%s on %T and %T", in.Op, a, b)
	}
	isStr := ta.sort == sStr
	switch in.Op {
	case token.EQL:
		return mkEq(ta, tb)
	case token.NEQ:
		return mkNot(mkEq(ta, tb))
	case token.ADD:
		if isStr {
			return mkCat(ta, tb)
		}
		return mkAdd(ta, tb)
	case token.SUB:
		return mkSub(ta, tb)
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if isStr {
			f := func(p, q *Term) *Term { return mkApp("slt", sBool, p, q) }
			switch in.Op {
			case token.LSS:
				return f(ta, tb)
			case token.GTR:
				return f(tb, ta)
			case token.LEQ:
				return mkNot(f(tb, ta))
			default:
				return mkNot(f(ta, tb))
			}
		}
		switch in.Op {
		case token.LSS:
			return mkLt(ta, tb)
		case token.GTR:
			return mkLt(tb, ta)
		case token.LEQ:
			return mkLe(ta, tb)
		default:
			return mkLe(tb, ta)
		}
	case token.MUL:
		if ta.isInt() {
			return mkMul(ta.intVal(), tb)
		}
		if tb.isInt() {
			return mkMul(tb.intVal(), ta)
		}
	case token.AND:
		if ta.sort == sInt {
			return mkApp("bitand", sInt, ta, tb)
		}
	case token.OR:
		if ta.sort == sInt {
			return mkApp("bitor", sInt, ta, tb)
		}
	case token.QUO, token.REM:
		if tb.isInt() && tb.intVal() > 0 {
			f := "div"
			if in.Op == token.REM {
				f = "mod"
			}
			// Go truncates towards zero; equal for non-negative operands
			r := rawTerm(f, sInt, ta, tb)
			u := x.freshConst("quo", sInt)
			st.assume(mkImp(mkLe(tZero, ta), mkEq(u, r)))
			return u
		}
	}
	x.unsupported("operator %s", in.Op)
	return nil
}

func mkCat(a, b *Term) *Term {
	if a.isStrLit() && a.strVal() == "" {
		return b
	}
	if b.isStrLit() && b.strVal() == "" {
		return a
	}
	if a.isStrLit() && b.isStrLit() {
		return mkStr(a.strVal() + b.strVal())
	}
	return rawTerm("cat", sStr, a, b)
}

func sortTerms(m map[int]*Term) []*Term {
	var out []*Term
	for _, t := range m {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return before(out[i], out[j]) })
	return out
}

// mapDom is the set of keys of a map that may be nil
func mapDom(m *Term, ds Sort, d *Term) *Term {
	if ds == arrOf(sStr, sBool) {
		return mkApp("mdomS", ds, m, d)
	}
	return mkIte(mkEq(m, tZero), constArr(ds, tFalse), d)
}
