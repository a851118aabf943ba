package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type callCont func(fr *Frame, st *State, res Val)

// fnName is the canonical name of a function in contract files
func (v *Verifier) fnName(fn *ssa.Function) string {
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	if fn.Parent() != nil {
		return v.fnName(fn.Parent()) + "$" + strings.TrimPrefix(fn.Name(), fn.Parent().Name()+"$")
	}
	recv := fn.Signature.Recv()
	if recv != nil {
		return "(" + v.typeKey(recv.Type()) + ")." + fn.Name()
	}
	if obj := fn.Object(); obj != nil {
		if f, ok := obj.(*types.Func); ok {
			if r := f.Type().(*types.Signature).Recv(); r != nil {
				return "(" + v.typeKey(r.Type()) + ")." + fn.Name()
			}
		}
	}
	if fn.Pkg != nil {
		return v.alias(fn.Pkg.Pkg) + "." + fn.Name()
	}
	return fn.Name()
}

func (x *Exec) call(fr *Frame, in *ssa.Call, st *State, k callCont) {
	if b, ok := in.Call.Value.(*ssa.Builtin); ok && !in.Call.IsInvoke() {
		x.builtin(fr, in, b, st, k)
		return
	}
	x.prepare(fr, st, in.Common(), in.Type(), x.site(fr, in))(fr, st, k)
}

// prepare evaluates the function and the arguments of a call; the result makes the call
func (x *Exec) prepare(fr *Frame, st *State, c *ssa.CallCommon, rt types.Type, site string) func(*Frame, *State, callCont) {
	if c.IsInvoke() {
		recv := x.term(fr, st, c.Value)
		x.safe(st, mkNot(mkEq(recv, tZero)), "interface value is not nil")
		var args []Val
		args = append(args, recv)
		var ats []types.Type
		ats = append(ats, c.Value.Type())
		for _, a := range c.Args {
			v := x.val(fr, st, a)
			args = append(args, v)
			ats = append(ats, a.Type())
		}
		return func(fr *Frame, st *State, k callCont) {
			if d, ok := x.dyn[recv.id]; ok {
				if fn := x.V.prog.LookupMethod(d.t, c.Method.Pkg(), c.Method.Name()); fn != nil {
					args[0] = d.v
					ats[0] = d.t
					x.callFn(fr, st, fn, args, ats, nil, rt, site, k)
					return
				}
			}
			name := "(" + x.V.typeKey(c.Value.Type()) + ")." + c.Method.Name()
			if con := x.V.contract(name); con != nil {
				x.apply(fr, st, con, args, ats, rt, k)
				return
			}
			// the method may be promoted from an embedded interface
			if con := x.V.ifaceContract(c.Method); con != nil {
				x.apply(fr, st, con, args, ats, rt, k)
				return
			}
			x.opaqueCall(fr, st, name, args, rt, k)
		}
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		x.unsupported("deferred builtin")
	}
	var args []Val
	var ats []types.Type
	for _, a := range c.Args {
		args = append(args, x.val(fr, st, a))
		ats = append(ats, a.Type())
	}
	if fn := c.StaticCallee(); fn != nil {
		var free []Val
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				free = append(free, x.val(fr, st, b))
			}
		}
		text, to := x.formatted(fr, st, x.V.fnName(fn), c.Args)
		if text != nil && to == nil {
			return func(fr *Frame, st *State, k callCont) { k(fr, st, text) }
		}
		if text != nil {
			if w, ok := x.val(fr, st, to).(*Term); ok {
				if d, ok := x.dyn[w.id]; ok {
					if m := x.V.prog.LookupMethod(d.t, nil, "WriteString"); m != nil && x.V.contract(x.V.fnName(m)) != nil {
						return func(fr *Frame, st *State, k callCont) {
							x.callFn(fr, st, m, []Val{d.v, text}, []types.Type{d.t, types.Typ[types.String]}, nil, rt, site, k)
						}
					}
				}
			}
		}
		return func(fr *Frame, st *State, k callCont) {
			x.callFn(fr, st, fn, args, ats, free, rt, site, k)
		}
	}
	f := x.term(fr, st, c.Value)
	return func(fr *Frame, st *State, k callCont) {
		x.callValue(fr, st, f, c.Value.Type(), args, ats, rt, site, k)
	}
}

// formatted: what a call of package fmt with a simple constant format makes of strings and integers, and
// the writer it goes to
func (x *Exec) formatted(fr *Frame, st *State, name string, args []ssa.Value) (*Term, ssa.Value) {
	var to ssa.Value
	kind := ""
	switch name {
	case "io.WriteString":
		t, _ := x.val(fr, st, args[1]).(*Term)
		return t, args[0]
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln":
		kind = name[len("fmt.Sprint"):]
	case "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln":
		kind = name[len("fmt.Fprint"):]
		to = args[0]
		args = args[1:]
	default:
		return nil, nil
	}
	format := ""
	if kind == "f" {
		c, ok := args[0].(*ssa.Const)
		if !ok || c.Value == nil {
			return nil, nil
		}
		format = constant.StringVal(c.Value)
		args = args[1:]
	}
	// the arguments: boxed values stored in an array made for the call
	var vals []*Term
	isInt := map[int]bool{}
	if sl, ok := args[0].(*ssa.Slice); ok {
		al, ok := sl.X.(*ssa.Alloc)
		if !ok || sl.Low != nil || sl.High != nil {
			return nil, nil
		}
		n := int(al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		vals = make([]*Term, n)
		for _, r := range *al.Referrers() {
			switch r := r.(type) {
			case *ssa.IndexAddr:
				i, ok := r.Index.(*ssa.Const)
				if !ok || len(*r.Referrers()) != 1 {
					return nil, nil
				}
				store, ok := (*r.Referrers())[0].(*ssa.Store)
				if !ok {
					return nil, nil
				}
				mi, ok := store.Val.(*ssa.MakeInterface)
				if !ok {
					return nil, nil
				}
				b, ok := types.Unalias(mi.X.Type()).(*types.Basic)
				if !ok {
					return nil, nil
				}
				v, ok := x.val(fr, st, mi.X).(*Term)
				switch {
				case !ok:
					return nil, nil
				case b.Info()&types.IsInteger != 0:
					v = mkApp("itoa", sStr, v)
					isInt[int(i.Int64())] = true
				case b.Info()&types.IsString == 0:
					return nil, nil
				}
				vals[i.Int64()] = v
			case *ssa.Slice:
			default:
				return nil, nil
			}
		}
	} else if c, ok := args[0].(*ssa.Const); !ok || c.Value != nil {
		return nil, nil
	}
	for _, v := range vals {
		if v == nil {
			return nil, nil
		}
	}
	out := mkStr("")
	switch kind {
	case "":
		if len(vals) != 1 {
			return nil, nil
		}
		out = vals[0]
	case "ln":
		for i, v := range vals {
			if i > 0 {
				out = mkCat(out, mkStr(" "))
			}
			out = mkCat(out, v)
		}
		out = mkCat(out, mkStr("\n"))
	case "f":
		n := 0
		for format != "" {
			i := strings.IndexByte(format, '%')
			if i < 0 {
				out = mkCat(out, mkStr(format))
				break
			}
			if i > 0 {
				out = mkCat(out, mkStr(format[:i]))
			}
			if i+1 == len(format) {
				return nil, nil
			}
			verb := format[i+1]
			format = format[i+2:]
			if verb == '%' {
				out = mkCat(out, mkStr("%"))
				continue
			}
			if len(vals) == 0 || verb != 'v' && (verb == 'd') != isInt[n] || verb != 'd' && verb != 's' && verb != 'v' {
				return nil, nil
			}
			out = mkCat(out, vals[0])
			vals = vals[1:]
			n++
		}
		if len(vals) != 0 {
			return nil, nil
		}
	}
	return out, to
}

func (x *Exec) callValue(fr *Frame, st *State, f *Term, ft types.Type, args []Val, ats []types.Type, rt types.Type, site string, k callCont) {
	if cl, ok := x.closures[f.id]; ok {
		x.callFn(fr, st, cl.fn, args, ats, cl.free, rt, site, k)
		return
	}
	x.safe(st, mkNot(mkEq(f, tZero)), "function value is not nil")
	key := x.V.typeKey(ft)
	con := x.V.contract(key)
	if con == nil {
		key = types.TypeString(stripNames(under(ft)), x.V.alias)
		con = x.V.contract(key)
	}
	if con == nil {
		x.unsupported("call of an unknown function value of type %s", key)
	}
	x.apply(fr, st, con, append([]Val{f}, args...), append([]types.Type{ft}, ats...), rt, k)
}

// stripNames removes parameter names from a signature
func stripNames(t types.Type) types.Type {
	s, ok := t.(*types.Signature)
	if !ok {
		return t
	}
	f := func(tu *types.Tuple) *types.Tuple {
		var vs []*types.Var
		for i := 0; i < tu.Len(); i++ {
			vs = append(vs, types.NewVar(0, nil, "", types.Unalias(tu.At(i).Type())))
		}
		return types.NewTuple(vs...)
	}
	return types.NewSignatureType(nil, nil, nil, f(s.Params()), f(s.Results()), s.Variadic())
}

func (x *Exec) callFn(fr *Frame, st *State, fn *ssa.Function, args []Val, ats []types.Type, free []Val, rt types.Type, site string, k callCont) {
	name := x.V.fnName(fn)
	for _, a := range args {
		x.publish(st, a)
	}
	if name == "(*sync.Once).Do" {
		x.onceDo(fr, st, args, site, k)
		return
	}
	if x.captureStream && name == "jargon.NewTokenStream" {
		x.capturedNext = args[0]
		ref := x.newRef(st)
		x.capturedRef = ref
		k(fr, st, ref)
		return
	}
	if con := x.V.contract(name); con != nil && !x.inline[name] && len(con.params) == len(args) {
		x.apply(fr, st, con, args, ats, rt, k)
		return
	}
	repo := fn.Pkg != nil && x.V.inRepo(fn.Pkg.Pkg)
	if fn.Pkg == nil || fn.Synthetic != "" {
		// wrappers and bound methods
		if obj := fn.Object(); obj != nil && x.V.inRepo(obj.Pkg()) {
			repo = true
		}
	}
	if fn.Parent() != nil && fn.Pkg != nil && x.V.inRepo(fn.Pkg.Pkg) {
		repo = true
	}
	if repo && len(fn.Blocks) > 0 {
		x.inlined[name] = true
		x.runFn(fn, args, free, st, fr, site, func(st2 *State, res Val) {
			k(fr.clone(), st2, res)
		})
		return
	}
	x.opaqueCall(fr, st, name, args, rt, k)
}

// opaqueCall is a call of an external function without a contract. Its results are unknown; it is
// assumed not to write the state of this repository.
func (x *Exec) opaqueCall(fr *Frame, st *State, name string, args []Val, rt types.Type, k callCont) {
	x.trusted[name+" (no contract: arbitrary result, assumed to write nothing here)"] = true
	x.bumpMark(st)
	var res Val
	if tp, ok := rt.(*types.Tuple); !ok || tp.Len() > 0 {
		res = x.freshVal(st, "call", rt)
	}
	k(fr, st, res)
}

func (x *Exec) bumpMark(st *State) {
	m := x.freshConst("mark", sInt)
	st.assume(mkLe(st.mark, m))
	st.mark = m
}

func (x *Exec) onceDo(fr *Frame, st *State, args []Val, site string, k callCont) {
	once := args[0].(*Term)
	comp := "G:oncedone"
	done := mkSelect(x.comp(st, comp, arrOf(sInt, sBool)), once)
	run := func(fr *Frame, st *State) {
		x.onceDepth++
		d := x.onceDepth
		x.callValue(fr, st, args[1].(*Term), types.NewSignatureType(nil, nil, nil, nil, nil, false), nil, nil, types.NewTuple(), site+"once", func(fr *Frame, st *State, res Val) {
			save := x.onceDepth
			x.onceDepth = d - 1
			x.setComp(st, comp, mkStore(x.comp(st, comp, arrOf(sInt, sBool)), once, tTrue), once)
			k(fr, st, nil)
			x.onceDepth = save
		})
		x.onceDepth = d - 1
	}
	if done == tTrue {
		k(fr, st, nil)
		return
	}
	if done == tFalse {
		run(fr, st)
		return
	}
	st2 := st.clone()
	st2.assume(done)
	k(fr.clone(), st2, nil)
	st.assume(mkNot(done))
	run(fr, st)
}

// apply uses the contract of a callee
func (x *Exec) apply(fr *Frame, st *State, con *Contract, args []Val, ats []types.Type, rt types.Type, k callCont) {
	x.used[con.name] = true
	if len(con.params) != len(args) {
		x.unsupported("contract of %s has %d parameters, call has %d", con.name, len(con.params), len(args))
	}
	vars := map[string]SV{}
	for i, p := range con.params {
		x.publish(st, args[i])
		vars[p] = SV{args[i], ats[i]}
	}
	old := st.clone()
	env := &Env{x: x, st: st, old: old, vars: vars}
	for i, r := range con.req {
		x.safe2(st, env.term(r.e), "pre", fmt.Sprintf("%s requires %s", con.name, clauseName(r, i)), r.tags)
	}
	if x.initing != "" {
		if fn := x.V.findFn(con.name); fn != nil && fn.Pkg != nil && x.V.alias(fn.Pkg.Pkg) == x.initing {
			x.obligePkgInv(st, "when "+con.name+" is called")
		}
	}
	if con.opts["noreturn"] {
		return
	}
	if !con.noalloc {
		x.bumpMark(st)
	}
	for _, m := range con.mod {
		x.havocLoc(st, env, old, m, con.name)
	}
	if tp, ok := rt.(*types.Tuple); ok {
		var tv TupleV
		for i := 0; i < tp.Len(); i++ {
			v := x.freshVal(st, fmt.Sprintf("ret%d", i), tp.At(i).Type())
			tv = append(tv, v)
			vars[fmt.Sprintf("ret%d", i)] = SV{v, tp.At(i).Type()}
		}
		for _, e := range con.ens {
			st.assume(env.term(e.e))
		}
		k(fr, st, tv)
		return
	}
	v := x.freshVal(st, "ret", rt)
	vars["ret"] = SV{v, rt}
	for _, e := range con.ens {
		t := env.term(e.e)
		// a definitional postcondition "ret == e" replaces the result
		if t.op == "=" {
			if rv, ok := v.(*Term); ok {
				if t.args[0] == rv && !containsTerm(t.args[1], rv) {
					v = t.args[1]
				} else if t.args[1] == rv && !containsTerm(t.args[0], rv) {
					v = t.args[0]
				}
			}
		}
		st.assume(t)
	}
	k(fr, st, v)
}

func containsTerm(t, s *Term) bool {
	f := false
	walk([]*Term{t}, func(y *Term) {
		if y == s {
			f = true
		}
	})
	return f
}

func clauseName(c Clause, i int) string {
	if c.label != "" {
		return c.label
	}
	s := c.src
	if len(s) > 90 {
		s = s[:90] + "..."
	}
	return s
}

func (x *Exec) safe2(st *State, g *Term, kind, label string, tags []string) {
	x.oblige(st, g, kind, label, tags)
	st.assume(g)
}

// havocLoc forgets the contents of a location named in a modifies clause
func (x *Exec) havocLoc(st *State, env *Env, old *State, m *SE, who string) {
	oe := *env
	oe.st = old
	one := func(comp string, s Sort, ref *Term) {
		x.frameCheck(st, comp, ref, comp+" through "+who)
		_, vs := arrParts(s)
		x.setComp(st, comp, mkStore(x.comp(st, comp, s), ref, x.freshConst("h", vs)), ref)
	}
	switch m.op {
	case "field":
		b := oe.eval(m.args[0])
		t, i := oe.structField(b.t, m.name)
		if i < 0 {
			oe.fail("modifies: no field %s", m.name)
		}
		ref := b.v.(*Term)
		ft := under(t).(*types.Struct).Field(i).Type()
		x.frameCheck(st, x.fieldComp(t, i), ref, strings.TrimPrefix(x.fieldComp(t, i), "F:")+" through "+who)
		x.storeComps(st, x.fieldComp(t, i), ref, ft, x.freshVal(st, "h", ft))
		return
	case "call":
		switch m.name {
		case "elems":
			s := oe.eval(m.args[0]).v.(SliceV)
			es, _ := sortOf(s.elem)
			one(x.arrComp(s.elem), arrOf(sInt, arrOf(sInt, es)), s.arr)
			return
		case "bytesOf":
			s := oe.eval(m.args[0]).v.(SliceV)
			one("G:bytes", arrOf(sInt, sStr), s.arr)
			return
		case "mapOf":
			v := oe.eval(m.args[0])
			mt := under(v.t).(*types.Map)
			dn, vn, d, vv := x.mapComps(st, mt)
			one(dn, d.sort, v.v.(*Term))
			one(vn, vv.sort, v.v.(*Term))
			return
		case "all":
			// all("comp"): the whole component may change
			c := x.V.compName(m.args[0].name)
			x.frameCheckAll(st, c, who)
			x.needComp(st, c)
			if s, ok := x.compSort[c]; ok {
				x.setComp(st, c, x.freshConst("h", s), nil)
			}
			return
		}
		if g, ok := x.V.specs.ghosts[m.name]; ok {
			one("G:"+m.name, arrOf(g[0], g[1]), oe.term(m.args[0]))
			return
		}
		if mac, ok := x.V.specs.macros[m.name]; ok {
			vars := map[string]SV{}
			for i, p := range mac.params {
				vars[p] = oe.eval(m.args[i])
			}
			n := oe.with(vars)
			if mac.e.op == "call" && mac.e.name == "L" {
				for _, y := range mac.e.args {
					x.havocLoc(st, n, old, y, who)
				}
				return
			}
			x.havocLoc(st, n, old, mac.e, who)
			return
		}
	case "deref":
		v := oe.eval(m.args[0])
		pt := under(v.t).(*types.Pointer)
		x.frameCheck(st, "C:"+x.V.typeKey(pt.Elem()), v.v.(*Term), "variable through "+who)
		x.storeComps(st, "C:"+x.V.typeKey(pt.Elem()), v.v.(*Term), pt.Elem(), x.freshVal(st, "h", pt.Elem()))
		return
	}
	oe.fail("bad modifies clause %s", show(m))
}

// needComp brings a component named in a contract into being
func (x *Exec) needComp(st *State, c string) {
	if _, ok := x.compSort[c]; ok {
		return
	}
	basic := map[string]Sort{"rune": sInt, "int32": sInt, "int": sInt, "string": sStr, "bool": sBool}
	sortNamed := func(n string) Sort {
		if s, ok := basic[n]; ok {
			return s
		}
		return sInt
	}
	switch {
	case strings.HasPrefix(c, "G:"):
		g := x.V.specs.ghosts[c[2:]]
		x.comp(st, c, arrOf(g[0], g[1]))
	case strings.HasPrefix(c, "MD:"), strings.HasPrefix(c, "MV:"):
		kv := strings.SplitN(c[3:], ",", 2)
		vs := sBool
		if c[1] == 'V' {
			vs = sortNamed(kv[1])
		}
		x.comp(st, c, arrOf(sInt, arrOf(sortNamed(kv[0]), vs)))
	case strings.HasPrefix(c, "F:"):
		i := strings.LastIndexByte(c, '.')
		if t := x.V.namedType(c[2:i]); t != nil {
			u := under(t).(*types.Struct)
			for j := 0; j < u.NumFields(); j++ {
				if u.Field(j).Name() == c[i+1:] {
					x.loadComps(st, c, tZero, u.Field(j).Type())
				}
			}
		}
	}
}

// frameCheckAll: a callee may write a whole component
func (x *Exec) frameCheckAll(st *State, comp, who string) {
	if x.frame == nil || x.noFrame {
		return
	}
	r := x.freshConst("any", sInt)
	if g, ok := x.frame(st, comp, r); ok {
		x.oblige(st, g, "frame", "writes only what it owns ("+comp+" through "+who+")", x.frameTags)
	}
}

// ---- builtins

func (x *Exec) builtin(fr *Frame, in *ssa.Call, b *ssa.Builtin, st *State, k callCont) {
	args := in.Call.Args
	switch b.Name() {
	case "len", "cap":
		switch v := x.val(fr, st, args[0]).(type) {
		case SliceV:
			if b.Name() == "len" {
				k(fr, st, v.len)
			} else {
				k(fr, st, v.cap)
			}
			return
		case *Term:
			if v.sort == sStr {
				n := mkApp("slen", sInt, v)
				st.assume(mkLe(tZero, n))
				k(fr, st, n)
				return
			}
			if mt, ok := args[0].Type().Underlying().(*types.Map); ok {
				_, _, d, _ := x.mapComps(st, mt)
				_ = d
				n := x.freshConst("maplen", sInt)
				st.assume(mkLe(tZero, n))
				k(fr, st, n)
				return
			}
			if pt, ok := args[0].Type().Underlying().(*types.Pointer); ok {
				if at, ok := pt.Elem().Underlying().(*types.Array); ok {
					k(fr, st, mkInt(at.Len()))
					return
				}
			}
		}
	case "append":
		x.appendB(fr, in, st, k)
		return
	case "copy":
		x.copyB(fr, in, st, k)
		return
	case "delete":
		m := x.term(fr, st, args[0])
		mt := args[0].Type().Underlying().(*types.Map)
		dn, _, d, _ := x.mapComps(st, mt)
		x.frameCheck(st, dn, m, "map")
		kv := x.term(fr, st, args[1])
		x.setComp(st, dn, mkIte(mkEq(m, tZero), d, mkStore(d, m, mkStore(mkSelect(d, m), kv, tFalse))), m)
		k(fr, st, nil)
		return
	case "print", "println":
		k(fr, st, nil)
		return
	case "min", "max":
		r := x.term(fr, st, args[0])
		for _, a := range args[1:] {
			t := x.term(fr, st, a)
			if r.sort != sInt {
				x.unsupported("min/max of %s", r.sort)
			}
			if b.Name() == "min" {
				r = mkIte(mkLe(r, t), r, t)
			} else {
				r = mkIte(mkLe(t, r), r, t)
			}
		}
		k(fr, st, r)
		return
	case "ssa:wrapnilchk":
		v := x.term(fr, st, args[0])
		x.safe(st, mkNot(mkEq(v, tZero)), "pointer is not nil")
		k(fr, st, v)
		return
	}
	x.unsupported("builtin %s", b.Name())
}

// copiedArray is a new array equal to src[slo:slo+n] at [lo:lo+n], and to base (if any) elsewhere.
func (x *Exec) copiedArray(st *State, es Sort, lo, n, src, slo, base *Term) *Term {
	na := x.freshConst("arr", arrOf(sInt, es))
	hi := mkAdd(lo, n)
	kk := mkBVar("k", sInt)
	in := mkAnd(mkLe(lo, kk), mkLt(kk, hi))
	d := mkSub(slo, lo)
	st.assume(mkForall([]*Term{kk}, [][]*Term{{mkSelect(na, kk)}}, mkImp(in, mkEq(mkSelect(na, kk), mkSelect(src, mkAdd(kk, d))))))
	if base != nil {
		st.assume(mkForall([]*Term{kk}, [][]*Term{{mkSelect(na, kk)}}, mkImp(mkNot(in), mkEq(mkSelect(na, kk), mkSelect(base, kk)))))
	}
	segMu.Lock()
	copies[na.id] = copyDef{lo, n, src, slo, base}
	segMu.Unlock()
	return na
}

func (x *Exec) appendB(fr *Frame, in *ssa.Call, st *State, k callCont) {
	args := in.Call.Args
	s, ok := x.val(fr, st, args[0]).(SliceV)
	if !ok {
		x.unsupported("append to %T", x.val(fr, st, args[0]))
	}
	es, ok := sortOf(s.elem)
	if !ok {
		x.unsupported("append to []%s", s.elem)
	}
	if isByteSlice(args[0].Type()) {
		x.unsupported("append of bytes")
	}
	if len(args) == 1 {
		k(fr, st, s)
		return
	}
	t, ok := x.val(fr, st, args[1]).(SliceV)
	if !ok {
		x.unsupported("append of %T", x.val(fr, st, args[1]))
	}
	A := x.arrTerm(st, s.elem)
	comp := x.arrComp(s.elem)
	nl := mkAdd(s.len, t.len)
	put := func(st *State, base *Term, at *Term) *Term {
		if t.len.isInt() && t.len.intVal() <= 8 {
			src := mkSelect(A, t.arr)
			for i := int64(0); i < t.len.intVal(); i++ {
				base = mkStore(base, mkAdd(at, mkInt(i)), mkSelect(src, mkAdd(t.off, mkInt(i))))
			}
			return base
		}
		return x.copiedArray(st, es, at, t.len, mkSelect(A, t.arr), t.off, base)
	}
	fits := mkLe(nl, s.cap)
	// in place
	if fits != tFalse {
		st1, fr1 := st.clone(), fr.clone()
		st1.assume(fits)
		if mkEq(t.len, tZero) == tTrue {
			k(fr1, st1, s)
		} else if s.arr == tZero {
			st1.assume(mkEq(t.len, tZero))
			k(fr1, st1, SliceV{s.arr, s.off, nl, s.cap, s.elem})
		} else {
			st1.assume(mkOr(mkNot(mkEq(s.arr, tZero)), mkEq(t.len, tZero)))
			base := mkSelect(A, s.arr)
			na := put(st1, base, mkAdd(s.off, s.len))
			x.frameCheck(st1, comp, s.arr, "elements of "+x.V.typeKey(s.elem)+" by append")
			x.setComp(st1, comp, mkStore(A, s.arr, na), s.arr)
			k(fr1, st1, SliceV{s.arr, s.off, nl, s.cap, s.elem})
		}
	}
	if fits == tTrue {
		return
	}
	st.assume(mkNot(fits))
	ref := x.newRef(st)
	na := x.copiedArray(st, es, tZero, s.len, mkSelect(A, s.arr), s.off, nil)
	na2 := put(st, na, s.len)
	x.setComp(st, comp, mkStore(A, ref, na2), ref)
	c := x.freshConst("cap", sInt)
	st.assume(mkLe(nl, c))
	k(fr, st, SliceV{ref, tZero, nl, c, s.elem})
}

func (x *Exec) copyB(fr *Frame, in *ssa.Call, st *State, k callCont) {
	args := in.Call.Args
	d, ok1 := x.val(fr, st, args[0]).(SliceV)
	s, ok2 := x.val(fr, st, args[1]).(SliceV)
	if !ok1 || !ok2 || isByteSlice(args[0].Type()) {
		x.unsupported("copy of bytes")
	}
	es, ok := sortOf(d.elem)
	if !ok {
		x.unsupported("copy of []%s", d.elem)
	}
	n := x.freshConst("copied", sInt)
	st.assume(mkEq(n, mkIte(mkLe(d.len, s.len), d.len, s.len)))
	A := x.arrTerm(st, d.elem)
	comp := x.arrComp(d.elem)
	na := x.copiedArray(st, es, d.off, n, mkSelect(A, s.arr), s.off, mkSelect(A, d.arr))
	x.frameCheck(st, comp, d.arr, "elements of "+x.V.typeKey(d.elem)+" by copy")
	x.setComp(st, comp, mkStore(A, d.arr, na), d.arr)
	k(fr, st, n)
}
