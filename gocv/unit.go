package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Unit is something verified on its own: a function against its contract, an iterator (what a
// function returning a stream builds, and every step of it), or a theorem about real calls.
type Unit struct {
	name   string
	con    *Contract
	it     *Iterator
	props  []string
	choice int
	only   map[string]bool // the loop invariants and variants to use (nil: look for them)
}

type OblResult struct {
	*Obl
	res Result
}

type UnitResult struct {
	unit    *Unit
	obls    []OblResult
	failed  []OblResult
	alive   []string // the loop invariants and variants used
	err     string   // not verifiable: why
	used    []string
	inlined []string
	trusted []string
	loops   int
	exits   int
	rounds  int
	houdini int
	dur     time.Duration
}

func (v *Verifier) newExec(u *Unit, dead map[string]bool, mods map[string]map[string]map[int]*Term) *Exec {
	x := &Exec{V: v, unit: u.name, closures: map[int]*Closure{}, dyn: map[int]struct {
		t types.Type
		v Val
	}{}, mods: mods, globals: map[*ssa.Global]Val{}, inline: map[string]bool{}, reveal: map[string]bool{}, used: map[string]bool{}, inlined: map[string]bool{}, trusted: map[string]bool{}, unsup: map[string]bool{}, candDead: dead, candOnly: u.only, candAll: map[string]bool{}, compSort: v.compSort, loopsSeen: map[string]bool{}, loopBackSeen: map[string]bool{}, choice: u.choice}
	return x
}

func (x *Exec) initState() *State {
	st := &State{mem: map[string]*Term{}, mark: mkConst("mark0", sInt)}
	st.assume(mkLe(tOne, st.mark))
	return st
}

// locs evaluates a modifies list to (component, ref) pairs; ref nil means every ref
type loc struct {
	comp string
	ref  *Term
}

func (x *Exec) locs(env *Env, ms []*SE) []loc {
	var out []loc
	for _, m := range ms {
		switch m.op {
		case "field":
			b := env.eval(m.args[0])
			t, i := env.structField(b.t, m.name)
			if i < 0 {
				env.fail("modifies: no field %s", m.name)
			}
			out = append(out, loc{x.fieldComp(t, i), b.v.(*Term)})
			continue
		case "deref":
			b := env.eval(m.args[0])
			pt := under(b.t).(*types.Pointer)
			out = append(out, loc{"C:" + x.V.typeKey(pt.Elem()), b.v.(*Term)})
			continue
		case "call":
			switch m.name {
			case "elems":
				s := env.eval(m.args[0]).v.(SliceV)
				out = append(out, loc{x.arrComp(s.elem), s.arr})
				continue
			case "bytesOf":
				s := env.eval(m.args[0]).v.(SliceV)
				out = append(out, loc{"G:bytes", s.arr})
				continue
			case "mapOf":
				b := env.eval(m.args[0])
				dn, vn, _, _ := x.mapComps(env.st, under(b.t).(*types.Map))
				out = append(out, loc{dn, b.v.(*Term)}, loc{vn, b.v.(*Term)})
				continue
			case "all":
				out = append(out, loc{x.V.compName(m.args[0].name), nil})
				continue
			}
			if _, ok := x.V.specs.ghosts[m.name]; ok {
				out = append(out, loc{"G:" + m.name, env.term(m.args[0])})
				continue
			}
			if mac, ok := x.V.specs.macros[m.name]; ok {
				vars := map[string]SV{}
				for i, p := range mac.params {
					vars[p] = env.eval(m.args[i])
				}
				n := env.with(vars)
				if mac.e.op == "call" && mac.e.name == "L" {
					out = append(out, x.locs(n, mac.e.args)...)
				} else {
					out = append(out, x.locs(n, []*SE{mac.e})...)
				}
				continue
			}
		}
		env.fail("bad modifies clause %s", show(m))
	}
	return out
}

// externalGhosts belong to objects outside this repository (functions given by the user)
var externalGhosts = map[string]bool{"G:pst": true, "G:calls": true, "G:oncedone": true, "G:fcalls": true, "G:filtercalls": true}

func (x *Exec) assumePkgInv(st *State, pkg string) {
	for _, c := range x.V.specs.pkginv[pkg] {
		x.used[initUnit(pkg)] = true
		env := &Env{x: x, st: st, vars: map[string]SV{}}
		st.assume(env.term(c.e))
	}
}

// ---- function units

func (x *Exec) runFuncUnit(u *Unit) {
	con := u.con
	fn := x.V.findFn(con.name)
	if fn == nil || len(fn.Blocks) == 0 {
		x.unsupported("function %s not found in the source", con.name)
	}
	x.unitFn = fn
	st := x.initState()
	if len(fn.Params) != len(con.params) {
		x.unsupported("function %s has %d parameters, its contract %d", con.name, len(fn.Params), len(con.params))
	}
	vars := map[string]SV{}
	var args []Val
	for i, p := range fn.Params {
		v := x.freshVal(st, "p:"+con.params[i], p.Type())
		args = append(args, v)
		vars[con.params[i]] = SV{v, p.Type()}
	}
	for o := range con.opts {
		if strings.HasPrefix(o, "inline ") {
			x.inline[strings.TrimPrefix(o, "inline ")] = true
		}
		if strings.HasPrefix(o, "reveal ") {
			x.reveal[strings.TrimPrefix(o, "reveal ")] = true
		}
	}
	x.inline[con.name] = con.opts["recursive inline"]
	entry := st.clone()
	env := &Env{x: x, st: st, old: entry, vars: vars}
	for _, r := range con.req {
		st.assume(env.term(r.e))
	}
	if fn.Pkg != nil {
		x.assumePkgInv(st, x.V.alias(fn.Pkg.Pkg))
	}
	x.specVars = vars
	x.oldSt = entry
	x.tmpls = con.loops
	ls := x.locs(env, con.mod)
	x.frameTags = nil
	x.frame = func(st *State, comp string, ref *Term) (*Term, bool) {
		gs := []*Term{mkEq(ref, tZero), mkLt(entry.mark, ref)}
		for _, l := range ls {
			if l.comp == comp || strings.HasSuffix(comp, ".*") && strings.HasPrefix(l.comp, strings.TrimSuffix(comp, "*")) {
				if l.ref == nil {
					return tTrue, true
				}
				gs = append(gs, mkEq(ref, l.ref))
			}
		}
		return mkOr(gs...), true
	}
	x.runFn(fn, args, nil, st, nil, fn.Name(), func(st *State, res Val) {
		x.exits = append(x.exits, st.hyps)
		vs := map[string]SV{}
		for k, v := range vars {
			vs[k] = v
		}
		sig := fn.Signature.Results()
		if sig.Len() == 1 {
			vs["ret"] = SV{res, sig.At(0).Type()}
		} else if tv, ok := res.(TupleV); ok {
			for i := range tv {
				vs[fmt.Sprintf("ret%d", i)] = SV{tv[i], sig.At(i).Type()}
			}
		}
		e := &Env{x: x, st: st, old: entry, vars: vs}
		for i, c := range con.ens {
			x.oblige(st, e.term(c.e), "post", clauseName(c, i), c.tags)
		}
	})
}

// ---- scripts: iterators and theorems

type stateItem struct {
	get   func(st *State) (Val, bool)
	t     types.Type
	names []string
}

// reachable lists the values reachable from a closure: captured variables, fields, cells
func (x *Exec) reachable(f *Term, st *State) []stateItem {
	var out []stateItem
	cl := x.closures[f.id]
	if cl == nil {
		return nil
	}
	var visit func(get func(*State) (Val, bool), t types.Type, names []string, depth int)
	visit = func(get func(*State) (Val, bool), t types.Type, names []string, depth int) {
		out = append(out, stateItem{get, t, names})
		if depth > 5 {
			return
		}
		if _, isSig := under(t).(*types.Signature); isSig {
			if v, ok := get(st); ok {
				if ft, ok := v.(*Term); ok {
					if c := x.closures[ft.id]; c != nil {
						for i, fv := range c.free {
							fv := fv
							n := ""
							if i < len(c.fn.FreeVars) {
								n = c.fn.FreeVars[i].Name()
							}
							visit(func(*State) (Val, bool) { return fv, true }, c.fn.FreeVars[i].Type(), append(append([]string{}, names...), n), depth+1)
						}
					}
				}
			}
			return
		}
		pt, ok := under(t).(*types.Pointer)
		if !ok {
			return
		}
		et := pt.Elem()
		if u, ok := under(et).(*types.Struct); ok {
			if n, ok := types.Unalias(et).(*types.Named); ok {
				if !x.V.inRepo(n.Obj().Pkg()) || x.V.isToken(et) {
					return
				}
				if n.Obj().Name() == "TokenStream" {
					return
				}
			}
			for i := 0; i < u.NumFields(); i++ {
				i := i
				ft := u.Field(i).Type()
				if x.isStructVal(ft) {
					continue
				}
				visit(func(st *State) (Val, bool) {
					b, ok := get(st)
					if !ok {
						return nil, false
					}
					r, ok := b.(*Term)
					if !ok {
						return nil, false
					}
					return x.loadPure(st, x.fieldComp(et, i), r, ft), true
				}, ft, append(append([]string{}, names...), u.Field(i).Name()), depth+1)
			}
			return
		}
		if _, isArr := under(et).(*types.Array); isArr {
			return
		}
		visit(func(st *State) (Val, bool) {
			b, ok := get(st)
			if !ok {
				return nil, false
			}
			r, ok := b.(*Term)
			if !ok {
				return nil, false
			}
			return x.loadPure(st, "C:"+x.V.typeKey(et), r, et), true
		}, et, names, depth+1)
	}
	for i, fv := range cl.free {
		fv := fv
		visit(func(*State) (Val, bool) { return fv, true }, cl.fn.FreeVars[i].Type(), []string{cl.fn.FreeVars[i].Name()}, 0)
	}
	return out
}

func (x *Exec) runScriptUnit(u *Unit) {
	it := u.it
	st := x.initState()
	for o := range it.opts {
		if strings.HasPrefix(o, "inline ") {
			x.inline[strings.TrimPrefix(o, "inline ")] = true
		}
		if strings.HasPrefix(o, "reveal ") {
			x.reveal[strings.TrimPrefix(o, "reveal ")] = true
		}
	}
	initPkg := ""
	for _, c := range it.script {
		if c.kind == "init" {
			initPkg = c.fn
		}
	}
	vars := map[string]SV{}
	x.specVars = vars
	x.tmpls = it.loops
	if initPkg == "" {
		for _, p := range x.V.pkgs {
			x.assumePkgInv(st, x.V.alias(p.Pkg))
		}
	} else {
		for _, c := range x.V.specs.pkginv[initPkg] {
			x.tmpls = append(x.tmpls, LoopTmpl{e: c.e, kind: "inv"})
		}
	}
	entry := st.clone()
	x.oldSt = entry
	shared := st.mark
	explicitShared := false
	// types of universally quantified script variables
	declare := func(name string, t types.Type, st *State) SV {
		if v, ok := vars[name]; ok {
			return v
		}
		v := SV{x.freshVal(st, "v:"+name, t), t}
		vars[name] = v
		return v
	}
	// parameters are declared up front, so that construction starts from a state which knows them
	defined := map[string]bool{}
	for _, c := range it.script {
		if c.kind == "call" {
			if fn := x.V.findFn(c.fn); fn != nil {
				if len(fn.Params) != len(c.args) {
					x.unsupported("%s has %d parameters, the script gives %d", c.fn, len(fn.Params), len(c.args))
				}
				for i, a := range c.args {
					if !defined[a] && !isLit(a) {
						declare(a, fn.Params[i].Type(), st)
					}
				}
			} else if !defined[c.fn] {
				x.unsupported("function %s not found in the source", c.fn)
			} else {
				for _, a := range c.args {
					if !defined[a] && !isLit(a) {
						t := x.V.namedType("jargon.TokenStream")
						declare(a, types.NewPointer(t), st)
					}
				}
			}
		}
		for _, r := range c.ress {
			defined[r] = true
		}
	}
	for _, g := range it.globals {
		f := strings.SplitN(g, ":", 2)
		parts := strings.SplitN(f[1], ".", 2)
		gv := x.V.global(parts[0], parts[1])
		if gv == nil {
			x.unsupported("no package-level variable %s", f[1])
		}
		vars[f[0]] = SV{x.loadGlobal(st, gv), gv.Type().(*types.Pointer).Elem()}
	}
	entry.hyps = st.hyps
	entry = st.clone()
	x.oldSt = entry
	env := &Env{x: x, st: st, old: entry, vars: vars}
	for _, r := range it.req {
		st.assume(env.term(r.e))
	}
	x.frameTags = []string{"C19"}
	var paramRefs []*Term
	for _, n := range sortedKeys(vars) {
		if t, ok := vars[n].v.(*Term); ok && vars[n].t != nil && x.V.typeKey(vars[n].t) == "*jargon.TokenStream" {
			paramRefs = append(paramRefs, t)
		}
	}
	x.frame = func(st *State, comp string, ref *Term) (*Term, bool) {
		if x.onceDepth > 0 || externalGhosts[comp] || x.evalInit || (it.theorem && !it.opts["frame"]) {
			return nil, false
		}
		gs := []*Term{mkEq(ref, tZero), mkLt(x.sharedMark, ref)}
		for _, p := range paramRefs {
			gs = append(gs, mkEq(ref, p))
		}
		return mkOr(gs...), true
	}
	x.sharedMark = shared
	var run func(i int, st *State)
	run = func(i int, st *State) {
		if i == len(it.script) {
			x.exits = append(x.exits, st.hyps)
			if it.theorem {
				e := &Env{x: x, st: st, old: x.oldSt, entry: entry, vars: vars}
				for j, c := range it.post {
					x.oblige(st, e.term(c.e), "post", clauseName(c, j), c.tags)
				}
				if it.opts["contraction table"] {
					x.contractionTable(st, e)
				}
				return
			}
			x.iterate(u, st, entry, vars)
			return
		}
		c := it.script[i]
		next := func(st *State, v Val, t types.Type) {
			save := map[string]SV{}
			for k, v := range vars {
				save[k] = v
			}
			if len(c.ress) == 1 {
				vars[c.ress[0]] = SV{v, t}
			} else if len(c.ress) > 1 {
				tv := v.(TupleV)
				tt := t.(*types.Tuple)
				for j, r := range c.ress {
					vars[r] = SV{tv[j], tt.At(j).Type()}
				}
			}
			run(i+1, st)
			for k := range vars {
				delete(vars, k)
			}
			for k, v := range save {
				vars[k] = v
			}
		}
		switch c.kind {
		case "shared":
			explicitShared = true
			save := x.sharedMark
			x.sharedMark = st.mark
			x.capturedNext = nil
			run(i+1, st)
			x.sharedMark = save
			return
		case "start":
			save := x.oldSt
			x.oldSt = st.clone()
			run(i+1, st)
			x.oldSt = save
			return
		case "havoc":
			e := &Env{x: x, st: st, old: st, vars: vars}
			x.noFrame = true
			x.havocLoc(st, e, st.clone(), c.e, "any history")
			x.noFrame = false
			run(i+1, st)
			return
		case "assume":
			e := &Env{x: x, st: st, old: x.oldSt, entry: entry, vars: vars}
			st.assume(e.term(c.e))
			run(i+1, st)
			return
		case "let":
			e := &Env{x: x, st: st, old: x.oldSt, entry: entry, vars: vars}
			v := e.eval(c.e)
			next(st, v.v, v.t)
			return
		case "init":
			x.runInit(st, c.fn, func(st *State) { run(i+1, st) })
			return
		case "global":
			parts := strings.SplitN(c.fn, ".", 2)
			g := x.V.global(parts[0], parts[1])
			if g == nil {
				x.unsupported("no package-level variable %s", c.fn)
			}
			x.evalGlobal(st, g, func(st *State, v Val) {
				next(st, v, g.Type().(*types.Pointer).Elem())
			})
			return
		}
		var args []Val
		var ats []types.Type
		fn := x.V.findFn(c.fn)
		for j, a := range c.args {
			if isLit(a) {
				e, err := parseExpr(a)
				if err != nil {
					x.unsupported("%v", err)
				}
				var t types.Type = types.Typ[types.Bool]
				if fn != nil {
					t = fn.Params[j].Type()
				}
				args = append(args, env.eval(e).v)
				ats = append(ats, t)
				continue
			}
			args = append(args, vars[a].v)
			ats = append(ats, vars[a].t)
		}
		site := fmt.Sprintf("script%d", i)
		root := &Frame{fn: nil, env: map[ssa.Value]Val{}, path: "script"}
		x.captureStream = !it.theorem
		if fn != nil {
			rt := fn.Signature.Results()
			var t types.Type = rt
			if rt.Len() == 1 {
				t = rt.At(0).Type()
			}
			x.callFnRoot(root, st, fn, args, ats, t, site, func(st *State, v Val) { next(st, v, t) })
			return
		}
		fv := vars[c.fn]
		sig := under(fv.t).(*types.Signature)
		var t types.Type = sig.Results()
		if sig.Results().Len() == 1 {
			t = sig.Results().At(0).Type()
		}
		x.callValue(root, st, fv.v.(*Term), fv.t, args, ats, t, site, func(_ *Frame, st *State, v Val) { next(st, v, t) })
	}
	run(0, st)
	_ = explicitShared
}

func isLit(s string) bool {
	return s == "true" || s == "false" || s == "nil" || s != "" && (s[0] >= '0' && s[0] <= '9' || s[0] == '"')
}

// callFnRoot inlines the function even if it has a contract: the script is about its body
func (x *Exec) callFnRoot(fr *Frame, st *State, fn *ssa.Function, args []Val, ats []types.Type, rt types.Type, site string, k func(*State, Val)) {
	name := x.V.fnName(fn)
	if len(fn.Blocks) == 0 {
		x.unsupported("no body for %s", name)
	}
	x.inlined[name] = true
	x.runFn(fn, args, nil, st, fr, site, func(st *State, v Val) { k(st, v) })
}

func (x *Exec) stateVars(u *Unit, f *Term, st *State, vars map[string]SV) map[string]stateItem {
	items := x.reachable(f, st)
	out := map[string]stateItem{}
	used := map[int]bool{}
	choice := x.choice
	for _, sv := range u.it.state {
		var match []int
		for i, it := range items {
			if x.V.typeKey(it.t) == sv.typ && !used[i] {
				match = append(match, i)
			}
		}
		if len(match) == 0 {
			x.unsupported("no state of type %s (%s) found in the stream", sv.typ, sv.name)
		}
		pick := -1
		for _, i := range match {
			ns := items[i].names
			for _, n := range ns {
				if sv.hint != "" && n == sv.hint {
					pick = i
				}
			}
		}
		if pick < 0 {
			if len(match) > 1 && x.moreChoices < len(match)-1 {
				x.moreChoices = len(match) - 1
			}
			pick = match[choice%len(match)]
		}
		used[pick] = true
		out[sv.name] = items[pick]
	}
	return out
}

// iterate verifies the step function of the stream that was built
func (x *Exec) iterate(u *Unit, st *State, entry *State, vars map[string]SV) {
	it := u.it
	f, ok := x.capturedNext.(*Term)
	if !ok {
		x.unsupported("the script did not create a stream")
	}
	if res, ok := vars[it.stream].v.(*Term); !ok || res != x.capturedRef {
		x.oblige(st, tFalse, "post", "returns the stream it created", nil)
		return
	}
	svars := x.stateVars(u, f, st, vars)
	late := func(st *State) map[string]SV {
		m := map[string]SV{}
		for n, s := range svars {
			if v, ok := s.get(st); ok {
				m[n] = SV{v, s.t}
			}
		}
		return m
	}
	mkEnv := func(st *State) *Env {
		m := map[string]SV{}
		for k, v := range vars {
			m[k] = v
		}
		for n, s := range svars {
			v, ok := s.get(st)
			if !ok {
				x.unsupported("state %s is not available", n)
			}
			m[n] = SV{v, s.t}
		}
		return &Env{x: x, st: st, old: x.oldSt, entry: entry, vars: m, late: late}
	}
	made := st.clone()
	// construction
	e := mkEnv(st)
	e.old = entry
	for _, p := range sortedKeys(vars) {
		if vars[p].t != nil && x.V.typeKey(vars[p].t) == "*jargon.TokenStream" && p != it.stream {
			for _, g := range []string{"rem", "reads"} {
				gs := x.V.specs.ghosts[g]
				c := "G:" + g
				x.oblige(st, mkEq(mkSelect(x.comp(st, c, arrOf(gs[0], gs[1])), vars[p].v.(*Term)), mkSelect(x.comp(entry, c, arrOf(gs[0], gs[1])), vars[p].v.(*Term))), "lazy", "creating the stream reads nothing from "+p, []string{"C18"})
			}
		}
	}
	for i, c := range it.made {
		x.oblige(st, e.term(c.e), "made", clauseName(c, i), c.tags)
	}
	for i, c := range it.inv {
		x.oblige(st, e.term(c.e), "inv", "holds when the stream is made: "+clauseName(c, i), c.tags)
	}
	// an arbitrary later moment
	key := "step"
	var cands []*Cand
	x.autoInv, x.autoN = nil, 0
	stepFr := &Frame{fn: nil, env: map[ssa.Value]Val{}, path: "step"}
	x.frameCands(stepFr, key, nil, func(c *Cand) {
		c.id = key + " " + c.id
		c.loop = key
		if !x.candDead[c.id] && (x.candOnly == nil || x.candOnly[c.id]) {
			x.candAll[c.id] = c.variant
			cands = append(cands, c)
		}
	})
	evalC := func(c *Cand, st *State) (*Term, bool) {
		t, err := c.eval(stepFr, st, made, map[ssa.Value]Val{})
		if err != nil {
			x.candDead[c.id] = true
			return nil, false
		}
		return t, true
	}
	for _, c := range cands {
		if t, ok := evalC(c, st); ok {
			x.obligeCand(st, t, x.unit+": state: "+c.id, c)
		}
	}
	for _, comp := range sortedKeys(x.mods[key]) {
		if strings.HasPrefix(comp, "I:") {
			continue
		}
		st.mem[comp] = x.freshConst("step", x.compSort[comp])
	}
	x.bumpMark(st)
	for _, c := range cands {
		if x.candDead[c.id] {
			continue
		}
		if t, ok := evalC(c, st); ok {
			st.assume(t)
		}
	}
	e = mkEnv(st)
	for _, c := range it.inv {
		st.assume(e.term(c.e))
	}
	pre := st.clone()
	saveOld := x.oldSt
	x.oldSt = pre
	specSave := x.specVars
	// loop invariants: what is left to deliver stays the same within a step
	var exprs []*SE
	exprs = append(exprs, it.view, it.end)
	if it.lazyview != nil {
		exprs = append(exprs, it.lazyview)
	}
	var invs []*SE
	for _, c := range it.inv {
		invs = append(invs, c.e)
	}
	x.autoN = len(exprs) + len(invs)
	x.autoInv = func(env *Env, i int) (*Term, error) {
		n := mkEnv(env.st)
		n.old = pre
		if i >= len(exprs) {
			return n.safeTerm(invs[i-len(exprs)])
		}
		o := mkEnv(pre)
		a, err := n.safeTerm(exprs[i])
		if err != nil {
			return nil, err
		}
		b, err := o.safeTerm(exprs[i])
		if err != nil {
			return nil, err
		}
		return mkEq(a, b), nil
	}
	// templates may mention the state variables; they are evaluated in the current state
	x.specVars = vars
	x.lateVars = late
	lc := &LoopCtx{key: key, fr: &Frame{path: "step"}, entry: made, parent: nil}
	st.loops = lc
	x.captureStream = false
	V0, E0 := mkEnv(pre).term(it.view), mkEnv(pre).term(it.end)
	var L0 *Term
	if it.lazyview != nil {
		L0 = mkEnv(pre).term(it.lazyview)
	}
	cl := x.closures[f.id]
	if cl == nil {
		x.unsupported("the stream's source is not a known function")
	}
	root := &Frame{fn: nil, env: map[ssa.Value]Val{}, path: "step"}
	x.runFn(cl.fn, nil, cl.free, st, root, "next", func(st *State, res Val) {
		x.exits = append(x.exits, st.hyps)
		tv := res.(TupleV)
		tok, err := tv[0].(*Term), tv[1].(*Term)
		x.publish(st, tok)
		n := mkEnv(st)
		n.old = pre
		n.vars["tok"] = SV{tok, types.NewPointer(x.V.namedType("jargon.Token"))}
		n.vars["err"] = SV{err, nil}
		V1, E1 := n.term(it.view), n.term(it.end)
		noTok, noErr := mkEq(tok, tZero), mkEq(err, tZero)
		nilT := rawTerm("tnil", sTL)
		isTok := mkAnd(mkNot(noTok), noErr)
		x.oblige(st, mkImp(isTok, mkEq(V0, mkApp("tcons", sTL, termD(tok), V1))), "step", "returns the next token of the specified output", nil)
		x.oblige(st, mkImp(isTok, mkEq(E1, E0)), "step", "the end of the stream is unaffected by a token", nil)
		if !it.opts["errtok"] {
			x.oblige(st, mkImp(mkNot(noErr), noTok), "step", "no token with an error", nil)
		}
		x.oblige(st, mkImp(mkNot(noErr), mkEq(E0, err)), "step", "an error is the error of the incoming stream", nil)
		if !it.opts["errearly"] {
			x.oblige(st, mkImp(mkNot(noErr), mkEq(V0, nilT)), "step", "an error is reported after all tokens", nil)
		}
		end := mkAnd(noTok, noErr)
		x.oblige(st, mkImp(end, mkEq(V0, nilT)), "step", "ends only when no token is left", nil)
		x.oblige(st, mkImp(end, mkEq(E0, tZero)), "step", "ends cleanly only if the incoming stream did", nil)
		x.oblige(st, mkImp(end, mkAnd(mkEq(V1, nilT), mkEq(E1, tZero))), "step", "the end stays the end", nil)
		if L0 != nil {
			in := n.term(&SE{op: "call", name: "rem", args: []*SE{{op: "ident", name: "incoming"}}})
			x.oblige(st, mkImp(isTok, mkEq(in, L0)), "lazy", "reads no further than needed", []string{"C18"})
		}
		for i, c := range it.post {
			x.oblige(st, n.term(c.e), "post", clauseName(c, i), c.tags)
		}
		for i, c := range it.lazy {
			x.oblige(st, n.term(c.e), "lazy", clauseName(c, i), append([]string{"C18"}, c.tags...))
		}
		// the stream can be read on unless it failed
		ok := st.clone()
		ok.assume(noErr)
		for i, c := range it.inv {
			x.oblige(ok, n.term(c.e), "inv", "kept by a step: "+clauseName(c, i), c.tags)
		}
		for _, c := range cands {
			if x.candDead[c.id] {
				continue
			}
			if t, ok2 := evalC(c, st); ok2 {
				x.obligeCand(ok, t, x.unit+": state: "+c.id, c)
			}
		}
	})
	x.oldSt = saveOld
	x.specVars = specSave
	x.autoInv, x.autoN = nil, 0
	x.lateVars = nil
}

// ---- package invariants

// initUnit is the name of the theorem that establishes the package invariants
func initUnit(pkg string) string { return "theorem init " + pkg }

// obligePkgInv: the invariants of the package being initialized must hold when one of its functions is
// called by contract, and at the end
func (x *Exec) obligePkgInv(st *State, when string) {
	for i, c := range x.V.specs.pkginv[x.initing] {
		env := &Env{x: x, st: st, vars: map[string]SV{}}
		t := env.term(c.e)
		x.oblige(st, t, "post", "package invariant "+clauseName(c, i)+" "+when, c.tags)
		st.assume(t)
	}
}

// pkginvGlobals lists the package-level variables the package invariants are about
func (v *Verifier) pkginvGlobals(alias string) []*ssa.Global {
	seen := map[*ssa.Global]bool{}
	var out []*ssa.Global
	var visit func(e *SE)
	visit = func(e *SE) {
		if e == nil {
			return
		}
		if e.op == "call" && (e.name == "global" || e.name == "fun") {
			parts := strings.SplitN(e.args[0].name, ".", 2)
			if len(parts) != 2 {
				return
			}
			if g := v.global(parts[0], parts[1]); g != nil && !seen[g] {
				seen[g] = true
				out = append(out, g)
			}
		}
		for _, a := range e.args {
			visit(a)
		}
	}
	for _, c := range v.specs.pkginv[alias] {
		visit(c.e)
	}
	return out
}

// writtenLater names a function, other than the initializers, that may write an unexported package-level
// variable or a map found in it ("": none); with inits, the initializers count too, except for the one that
// gives the variable its value
func (v *Verifier) writtenLater(g *ssa.Global, inits bool) string {
	exported := g.Object() != nil && g.Object().Exported()
	if exported && isMap(g.Type().(*types.Pointer).Elem()) {
		return "users of the package"
	}
	from := map[ssa.Value]bool{}
	var visit func(fn *ssa.Function) string
	visit = func(fn *ssa.Function) string {
		if strings.HasPrefix(fn.Name(), "init") && fn.Signature.Recv() == nil && fn.Parent() == nil && (fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#")) && !inits {
			return ""
		}
		// values taken out of g; aggregates that escape count as written
		for again := true; again; {
			again = false
			mark := func(x ssa.Value) {
				if !from[x] {
					from[x] = true
					again = true
				}
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					switch in := in.(type) {
					case *ssa.UnOp:
						if in.X == g || from[in.X] {
							mark(in)
						}
					case *ssa.Lookup:
						if from[in.X] {
							mark(in)
						}
					case *ssa.Extract:
						if from[in.Tuple] {
							mark(in)
						}
					case *ssa.Phi:
						for _, e := range in.Edges {
							if from[e] {
								mark(in)
							}
						}
					case *ssa.ChangeType:
						if from[in.X] {
							mark(in)
						}
					}
				}
			}
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if in.Addr == g && fn != g.Pkg.Func("init") || from[in.Val] && isMap(in.Val.Type()) {
						return v.fnName(fn)
					}
				case *ssa.MapUpdate:
					if from[in.Map] || from[in.Value] && isMap(in.Value.Type()) {
						return v.fnName(fn)
					}
				case *ssa.Call:
					_, builtin := in.Call.Value.(*ssa.Builtin)
					for i, a := range in.Call.Args {
						if from[a] && isMap(a.Type()) && (!builtin || i == 0 && in.Call.Value.Name() != "len") {
							return v.fnName(fn)
						}
					}
				}
			}
		}
		for _, a := range fn.AnonFuncs {
			if w := visit(a); w != "" {
				return w
			}
		}
		return ""
	}
	for _, n := range sortedKeys(v.byName) {
		if fn := v.byName[n]; (fn.Pkg == g.Pkg || exported) && fn.Parent() == nil {
			if w := visit(fn); w != "" {
				return w
			}
		}
	}
	return ""
}

func isMap(t types.Type) bool {
	_, ok := under(t).(*types.Map)
	return ok
}

// runInit executes the initialization of a package: its variables, then its init functions
func (x *Exec) runInit(st *State, alias string, k func(*State)) {
	var init *ssa.Function
	for _, p := range x.V.pkgs {
		if x.V.alias(p.Pkg) == alias {
			init = p.Func("init")
		}
	}
	if init == nil {
		x.unsupported("package %s has no initializer", alias)
	}
	// the guard against running it twice: its second block is the body
	if len(init.Blocks) != 3 {
		x.unsupported("control flow in the initializer of %s", alias)
	}
	list := init.Blocks[1].Instrs
	fr := &Frame{fn: init, env: map[ssa.Value]Val{}, path: "init", loops: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	x.initing = alias
	x.evalInit = true
	var run func(i int, fr *Frame, st *State)
	run = func(i int, fr *Frame, st *State) {
		for ; i < len(list); i++ {
			switch in := list[i].(type) {
			case *ssa.Call:
				if f := in.Call.StaticCallee(); f != nil && f.Name() == "init" && f.Pkg != init.Pkg {
					continue // packages imported are initialized before
				}
				j := i
				x.call(fr, in, st, func(fr *Frame, st *State, res Val) {
					fr.env[in] = res
					run(j+1, fr, st)
				})
				return
			case *ssa.Jump, *ssa.Return:
			default:
				x.step(fr, in, st)
			}
		}
		x.obligePkgInv(st, "at the end")
		for _, g := range x.V.pkginvGlobals(alias) {
			if w := x.V.writtenLater(g, false); w != "" {
				x.oblige(st, tFalse, "post", "package-level variable "+g.Name()+" is written only during initialization (not by "+w+")", nil)
			}
		}
		in := x.initing
		x.evalInit, x.initing = false, ""
		k(st)
		x.evalInit, x.initing = true, in
	}
	run(0, fr, st)
	x.evalInit = false
	x.initing = ""
}

// ---- package-level variables: the initializer is executed on demand

func (x *Exec) evalGlobal(st *State, g *ssa.Global, k func(*State, Val)) {
	init := g.Pkg.Func("init")
	if init == nil {
		x.unsupported("package %s has no initializer", g.Pkg)
	}
	var store *ssa.Store
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && s.Addr == g {
				if store != nil {
					x.unsupported("%s is initialized more than once", g)
				}
				store = s
			}
		}
	}
	if store == nil {
		x.unsupported("%s has no initializer", g)
	}
	need := map[ssa.Instruction]bool{}
	var want func(v ssa.Value)
	var wantI func(in ssa.Instruction)
	wantI = func(in ssa.Instruction) {
		if need[in] {
			return
		}
		need[in] = true
		for _, op := range in.Operands(nil) {
			if *op != nil {
				want(*op)
			}
		}
		v, ok := in.(ssa.Value)
		if !ok {
			return
		}
		// what fills the object
		if rs := v.Referrers(); rs != nil {
			for _, r := range *rs {
				switch r := r.(type) {
				case *ssa.MapUpdate:
					if r.Map == v {
						wantI(r)
					}
				case *ssa.Store:
					if r.Addr == v {
						wantI(r)
					}
				case *ssa.IndexAddr:
					if r.X == v {
						wantI(r)
					}
				case *ssa.FieldAddr:
					if r.X == v {
						wantI(r)
					}
				}
			}
		}
	}
	want = func(v ssa.Value) {
		if in, ok := v.(ssa.Instruction); ok {
			wantI(in)
		}
	}
	want(store.Val)
	var list []ssa.Instruction
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			if need[in] {
				list = append(list, in)
			}
		}
	}
	if len(list) > 600 {
		x.unsupported("initializer of %s is too large", g)
	}
	fr := &Frame{fn: init, env: map[ssa.Value]Val{}, path: "init:" + g.Name(), loops: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	cap := x.captureStream
	x.captureStream = false
	x.evalInit = true
	var run func(i int, fr *Frame, st *State)
	run = func(i int, fr *Frame, st *State) {
		for ; i < len(list); i++ {
			switch in := list[i].(type) {
			case *ssa.Call:
				j := i
				x.call(fr, in, st, func(fr *Frame, st *State, res Val) {
					fr.env[in] = res
					run(j+1, fr, st)
				})
				return
			case *ssa.Phi, *ssa.If, *ssa.Jump:
				x.unsupported("control flow in the initializer of %s", g)
			default:
				x.step(fr, in, st)
			}
		}
		x.evalInit = false
		x.captureStream = cap
		v := x.val(fr, st, store.Val)
		x.globals[g] = v
		k(st, v)
		x.evalInit = true
	}
	run(0, fr, st)
	x.evalInit = false
	x.captureStream = cap
}

// ---- driver

var genMu sync.Mutex

func (v *Verifier) generate(u *Unit, dead map[string]bool, mods map[string]map[string]map[int]*Term) (x *Exec, err string) {
	genMu.Lock()
	defer genMu.Unlock()
	termFacts = map[int][]*Term{}
	copies = map[int]copyDef{}
	x = v.newExec(u, dead, mods)
	defer func() {
		if r := recover(); r != nil {
			switch y := r.(type) {
			case Unsupported:
				err = y.why
			case specErr:
				err = "contract does not fit the code: " + y.s
			default:
				if os.Getenv("GOCV_PANIC") != "" {
					panic(r)
				}
				err = fmt.Sprintf("internal: %v", r)
			}
		}
	}()
	if u.con != nil {
		x.runFuncUnit(u)
	} else {
		x.runScriptUnit(u)
	}
	return x, ""
}

// verify first tries the loop invariants that were found before (hints, see cmdHints), then looks for them
func (v *Verifier) verify(u *Unit) *UnitResult {
	if h, ok := v.hints[u.name]; ok {
		u.choice = h.Choice
		u.only = map[string]bool{}
		for _, id := range h.Cands {
			u.only[id] = true
		}
		r, _, _ := v.verifyChoice(u, nil, 4*time.Second)
		if len(r.failed) == 0 && r.err == "" {
			return r
		}
		if os.Getenv("GOCV_DEBUG") != "" {
			fmt.Fprintf(os.Stderr, "  %s: the known loop invariants do not do: %s %d failed\n", u.name, r.err, len(r.failed))
			for _, f := range r.failed {
				fmt.Fprintf(os.Stderr, "    %s [%s]\n", f.name, f.res.status)
			}
		}
		u.only = nil
		u.choice = 0
		if v.refuted != nil && v.refuted() {
			// the code changed and a failing input is known: no need to look for other invariants
			return r
		}
	}
	for {
		r, more, dead := v.verifyChoice(u, nil, 4*time.Second)
		if (len(r.failed) > 0 || r.err != "") && dead != nil && !v.solver.late() {
			// some loop candidates were given up for lack of time: once more, with more of it
			r0 := r
			r, more, _ = v.verifyChoice(u, dead, 4*time.Second)
			r.rounds += r0.rounds
			r.dur += r0.dur
		}
		if len(r.failed) == 0 && r.err == "" || u.choice >= more {
			return r
		}
		u.choice++
	}
}

// verifyChoice looks for loop invariants among the candidates not known to be dead and then proves the
// obligations. It returns the candidates that were refuted rather than given up, if any was given up.
func (v *Verifier) verifyChoice(u *Unit, known map[string]bool, hto time.Duration) (*UnitResult, int, map[string]bool) {
	t0 := time.Now()
	r := &UnitResult{unit: u}
	defer func() { r.dur = time.Since(t0) }()
	dead := map[string]bool{}
	for k := range known {
		dead[k] = true
	}
	var refuted map[string]bool // set when the first candidate is given up
	gaveUp := false
	mods := map[string]map[string]map[int]*Term{}
	var x *Exec
	debug := os.Getenv("GOCV_DEBUG") != ""
	for {
		r.rounds++
		if r.rounds > 60 {
			r.err = "no fixpoint"
			return r, 0, nil
		}
		for n := 0; ; n++ {
			var err string
			x, err = v.generate(u, dead, mods)
			if err != "" {
				r.err = err
				v.record(r, x)
				return r, x.moreChoices, nil
			}
			if !x.modGrew || n > 20 {
				break
			}
		}
		// Houdini
		byCand := map[string][]*Obl{}
		for _, o := range x.obls {
			if o.cand != nil {
				byCand[o.cand.id] = append(byCand[o.cand.id], o)
			}
		}
		var mu sync.Mutex
		var wg sync.WaitGroup
		killed := 0
		timedOut := map[string]bool{}
		type group struct {
			hyps []*Term
			obls []*Obl
		}
		groups := map[string]*group{}
		var order []string
		for _, o := range x.obls {
			if o.cand == nil || o.kind != "cand" || dead[o.cand.id] {
				continue
			}
			k := fmt.Sprintf("%p/%d", firstPtr(o.hyps), len(o.hyps))
			if groups[k] == nil {
				groups[k] = &group{hyps: o.hyps}
				order = append(order, k)
			}
			groups[k].obls = append(groups[k].obls, o)
		}
		for _, k := range order {
			g := groups[k]
			wg.Add(1)
			go func() {
				defer wg.Done()
				var goals []*Term
				for _, o := range g.obls {
					goals = append(goals, o.goal)
				}
				if len(goals) > 1 {
					if res := v.solver.prove(g.hyps, mkAnd(goals...), time.Second); res.status == "unsat" {
						return
					}
				}
				var w2 sync.WaitGroup
				for _, o := range g.obls {
					o := o
					w2.Add(1)
					go func() {
						defer w2.Done()
						to := hto
						if strings.HasPrefix(o.cand.short(), "auto ") {
							to = time.Second
						}
						res := v.solver.prove(o.hyps, o.goal, to)
						if res.status != "unsat" && res.status != "sat" && u.only != nil {
							res = v.solver.prove(o.hyps, o.goal, 12*time.Second)
						}
						if res.status == "timeout" && o.cand.user && known != nil {
							res = v.solver.prove(o.hyps, o.goal, 6*time.Second)
						}
						if res.status != "unsat" {
							mu.Lock()
							if res.status != "unknown" && to > time.Second {
								gaveUp = true
								timedOut[o.cand.id] = true
							}
							if !dead[o.cand.id] {
								dead[o.cand.id] = true
								killed++
								if debug {
									fmt.Fprintf(os.Stderr, "  kill %s (%s)\n", o.cand.id, res.status)
									if d := os.Getenv("GOCV_DUMP"); d != "" {
										os.WriteFile(fmt.Sprintf("%s/kill%d-%d.smt2", d, r.rounds, killed), []byte("; "+o.cand.id+"\n"+v.solver.build(o.hyps, o.goal, -1, nil, nil)), 0644)
									}
								}
							}
							mu.Unlock()
						}
					}()
				}
				w2.Wait()
			}()
		}
		wg.Wait()
		r.houdini += killed
		if killed > 0 && u.only != nil {
			var ks []string
			for k := range dead {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			r.err = "loop invariants no longer hold: " + strings.Join(ks, "; ")
			return r, 0, nil
		}
		if gaveUp && refuted == nil {
			refuted = map[string]bool{}
			for k := range dead {
				if !timedOut[k] {
					refuted[k] = true
				}
			}
		}
		if killed == 0 {
			break
		}
	}
	v.record(r, x)
	// variants
	var wg sync.WaitGroup
	var mu sync.Mutex
	varOK := map[string]bool{}
	varObl := map[string][]*Obl{}
	varLoop := map[string]string{}
	for _, o := range x.obls {
		if o.kind == "variant" && !dead[o.cand.id] {
			varObl[o.cand.id] = append(varObl[o.cand.id], o)
			varLoop[o.cand.id] = o.cand.loop
		}
	}
	results := make([]OblResult, 0)
	hopeless := false
	for id, os := range varObl {
		wg.Add(1)
		go func() {
			defer wg.Done()
			all := true
			var rs []OblResult
			for _, o := range os {
				res := v.solver.prove(o.hyps, o.goal, 4*time.Second)
				if res.status != "unsat" {
					all = false
					break
				}
				rs = append(rs, OblResult{o, res})
			}
			mu.Lock()
			if all {
				varOK[id] = true
				if len(rs) > 0 {
					results = append(results, rs[0])
				}
			}
			mu.Unlock()
		}()
	}
	slots := make(chan bool, 12)
	failedName := map[string]bool{}
	for _, o := range x.obls {
		if o.kind == "variant" {
			continue
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			slots <- true
			defer func() { <-slots }()
			var res Result
			mu.Lock()
			f := hopeless && u.only != nil
			if failedName[o.name] {
				// the same obligation failed on another path
				f = true
			}
			mu.Unlock()
			if f {
				return
			}
			if u.only != nil {
				res = v.solver.prove(o.hyps, o.goal, 6*time.Second)
			} else {
				res = v.solver.proveFinal(o.hyps, o.goal, v.solver.timeout)
			}
			mu.Lock()
			if res.status != "unsat" {
				hopeless = true
				failedName[o.name] = true
			}
			results = append(results, OblResult{o, res})
			mu.Unlock()
		}()
	}
	wg.Wait()
	for key, trivial := range x.loopsSeen {
		r.loops++
		if trivial {
			continue
		}
		ok := false
		for id := range varOK {
			if varLoop[id] == key {
				ok = true
			}
		}
		if !ok && !x.loopBackSeen[key] {
			ok = true // never repeats
		}
		if !ok && !u.opt("nonterminating") {
			results = append(results, OblResult{&Obl{name: u.name + ": terminates: loop " + key, kind: "variant", goal: tFalse}, Result{status: "unknown"}})
		}
	}
	alive := map[string]bool{}
	for id, variant := range x.candAll {
		if !dead[id] && (!variant || varOK[id]) {
			alive[id] = true
		}
	}
	r.alive = sortedKeys(alive)
	sort.SliceStable(results, func(i, j int) bool { return results[i].name < results[j].name })
	r.obls = results
	for _, o := range results {
		if o.res.status != "unsat" {
			r.failed = append(r.failed, o)
		}
	}
	// vacuity: some way through the unit must be consistent
	r.exits = len(x.exits)
	if r.err == "" && len(r.failed) == 0 {
		ok := false
		for _, h := range x.exits {
			res := v.solver.run(v.solver.build(h, tFalse, -1, nil, nil), 2*time.Second)
			if res.status != "unsat" && res.status != "error" {
				ok = true
				break
			}
		}
		if !ok {
			r.err = "vacuous: no path through the unit is consistent"
		}
	}
	return r, x.moreChoices, refuted
}

func (u *Unit) opt(s string) bool {
	if u.con != nil {
		return u.con.opts[s]
	}
	return u.it.opts[s]
}

func (v *Verifier) record(r *UnitResult, x *Exec) {
	r.used = sortedKeys(x.used)
	r.inlined = sortedKeys(x.inlined)
	r.trusted = sortedKeys(x.trusted)
}

func firstPtr(h []*Term) *Term {
	if len(h) == 0 {
		return nil
	}
	return h[len(h)-1]
}

// lookThrough lists the units of the contract files
func (v *Verifier) units() []*Unit {
	var out []*Unit
	for _, n := range v.specs.order {
		c := v.specs.contracts[n]
		if c.kind == "exported" || c.kind == "soft" {
			out = append(out, &Unit{name: n, con: c, props: c.props})
		}
	}
	for _, n := range v.specs.iterOrder {
		it := v.specs.iters[n]
		k := "iterator "
		if it.theorem {
			k = "theorem "
		}
		out = append(out, &Unit{name: k + n, it: it, props: it.props})
	}
	return out
}
