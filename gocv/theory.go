package main

import (
	"fmt"
	"os"
	"strings"
)

// ---- s-expressions

type SX struct {
	atom string
	list []*SX
	isL  bool
}

func (s *SX) String() string {
	if !s.isL {
		return s.atom
	}
	var b strings.Builder
	b.WriteByte('(')
	for i, x := range s.list {
		if i > 0 {
			b.WriteByte(' ')
		}
		b.WriteString(x.String())
	}
	b.WriteByte(')')
	return b.String()
}

func parseSX(src string) ([]*SX, error) {
	var out []*SX
	var stack []*SX
	i := 0
	emit := func(x *SX) {
		if len(stack) == 0 {
			out = append(out, x)
		} else {
			top := stack[len(stack)-1]
			top.list = append(top.list, x)
		}
	}
	for i < len(src) {
		c := src[i]
		switch {
		case c == ';':
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case c == '(':
			stack = append(stack, &SX{isL: true})
			i++
		case c == ')':
			if len(stack) == 0 {
				return nil, fmt.Errorf("unbalanced ) at %d", i)
			}
			top := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			emit(top)
			i++
		case c == '|':
			j := strings.IndexByte(src[i+1:], '|')
			if j < 0 {
				return nil, fmt.Errorf("unterminated |")
			}
			emit(&SX{atom: src[i : i+j+2]})
			i += j + 2
		default:
			j := i
			for j < len(src) && strings.IndexByte(" \n\t\r();", src[j]) < 0 {
				j++
			}
			emit(&SX{atom: src[i:j]})
			i = j
		}
	}
	if len(stack) != 0 {
		return nil, fmt.Errorf("unbalanced ( in theory: %s", stack[0].String())
	}
	return out, nil
}

func sxSubst(s *SX, m map[string]*SX) *SX {
	if !s.isL {
		if r, ok := m[s.atom]; ok {
			return r
		}
		return s
	}
	out := &SX{isL: true}
	for _, x := range s.list {
		out.list = append(out.list, sxSubst(x, m))
	}
	return out
}

func (s *SX) syms(m map[string]bool) {
	if !s.isL {
		m[s.atom] = true
		return
	}
	for _, x := range s.list {
		x.syms(m)
	}
}

// ---- theory

type FunSig struct {
	name string
	args []Sort
	ret  Sort
}

type TVar struct {
	name string
	sort Sort
}

type Axiom struct {
	name   string
	kind   string // ax, def, lemma
	vars   []TVar
	pats   []*SX // each a list of terms
	body   *SX
	by     []string // induction variable(s): only one used
	use    []string // for a lemma: extra lemmas/axioms always included
	prop   string
	before int               // index in theory order
	trig   []map[string]bool // declared function symbols per pattern
	all    map[string]bool
}

type DataDef struct {
	name  string
	ctors []struct {
		name string
		sels []TVar
	}
}

type Theory struct {
	funs   map[string]FunSig
	order  []string
	axioms []*Axiom
	sorts  []string
	datas  []DataDef
	dsyms  map[string]bool
}

var builtinSyms = map[string]bool{}

func loadTheory(paths ...string) (*Theory, error) {
	th := &Theory{funs: map[string]FunSig{}, dsyms: map[string]bool{}}
	for _, p := range paths {
		b, err := os.ReadFile(p)
		if err != nil {
			return nil, err
		}
		if err := th.load(string(b)); err != nil {
			return nil, fmt.Errorf("%s: %v", p, err)
		}
	}
	return th, nil
}

func (th *Theory) ctorOf(name string) (DataDef, int) {
	for _, d := range th.datas {
		for i, c := range d.ctors {
			if c.name == name {
				return d, i
			}
		}
	}
	return DataDef{}, -1
}

// splitDef turns a definition by cases on a constructor,
//
//	f(.., x, ..) = ite(is-C x, A, B)
//
// into one equation per constructor, so that it unfolds only where the constructor is known.
func (th *Theory) splitDef(name string, vs []TVar, body *SX) bool {
	if !body.isL || len(body.list) != 4 || body.list[0].atom != "ite" {
		return false
	}
	c := body.list[1]
	if !c.isL || len(c.list) != 2 || !c.list[0].isL || len(c.list[0].list) != 3 || c.list[0].list[1].atom != "is" {
		return false
	}
	d, ci := th.ctorOf(c.list[0].list[2].atom)
	v := -1
	for i := range vs {
		if !c.list[1].isL && c.list[1].atom == vs[i].name {
			v = i
		}
	}
	if ci < 0 || v < 0 || len(d.ctors) != 2 {
		return false
	}
	m := map[string]bool{}
	body.syms(m)
	if !m[name] {
		return false
	}
	for k, br := range map[int]*SX{ci: body.list[2], 1 - ci: body.list[3]} {
		ct := d.ctors[k]
		var nvs []TVar
		app := &SX{isL: true, list: []*SX{{atom: name}}}
		var con *SX
		for i, x := range vs {
			if i == v {
				if len(ct.sels) == 0 {
					con = &SX{atom: ct.name}
				} else {
					con = &SX{isL: true, list: []*SX{{atom: ct.name}}}
					for _, s := range ct.sels {
						nm := "$" + s.name
						nvs = append(nvs, TVar{nm, s.sort})
						con.list = append(con.list, &SX{atom: nm})
					}
				}
				app.list = append(app.list, con)
				continue
			}
			nvs = append(nvs, x)
			app.list = append(app.list, &SX{atom: x.name})
		}
		b := sxSelect(sxSubst(br, map[string]*SX{vs[v].name: con}), ct.sels)
		a := &Axiom{name: name + "." + ct.name, kind: "def", vars: nvs, pats: []*SX{{isL: true, list: []*SX{app}}}, body: &SX{isL: true, list: []*SX{{atom: "="}, app, b}}}
		if k == 0 {
			th.axioms = append(th.axioms, a)
		} else {
			defer func() { th.axioms = append(th.axioms, a) }()
		}
	}
	return true
}

// sxSelect simplifies sel(ctor(x..)) to x
func sxSelect(s *SX, sels []TVar) *SX {
	if !s.isL {
		return s
	}
	if len(s.list) == 2 && !s.list[0].isL && s.list[1].isL && len(s.list[1].list) == len(sels)+1 {
		for i, x := range sels {
			if s.list[0].atom == x.name && s.list[1].list[1].atom == "$"+sels[0].name {
				return s.list[1].list[i+1]
			}
		}
	}
	out := &SX{isL: true}
	for _, x := range s.list {
		out.list = append(out.list, sxSelect(x, sels))
	}
	return out
}

func (th *Theory) addFun(name string, args []Sort, ret Sort) {
	if _, ok := th.funs[name]; ok {
		panic("theory: " + name + " is declared twice")
	}
	if _, ok := th.funs[name]; !ok {
		th.order = append(th.order, name)
	}
	th.funs[name] = FunSig{name, args, ret}
}

func (th *Theory) load(src string) error {
	xs, err := parseSX(src)
	if err != nil {
		return err
	}
	vars := func(x *SX) (out []TVar) {
		for _, v := range x.list {
			out = append(out, TVar{v.list[0].atom, Sort(v.list[1].String())})
		}
		return
	}
	for _, x := range xs {
		if !x.isL || len(x.list) == 0 {
			return fmt.Errorf("bad form %s", x)
		}
		l := x.list
		switch l[0].atom {
		case "sort":
			th.sorts = append(th.sorts, l[1].atom)
		case "data":
			d := DataDef{name: l[1].atom}
			for _, c := range l[2:] {
				var sels []TVar
				var names []string
				for _, s := range c.list[1:] {
					sels = append(sels, TVar{s.list[0].atom, Sort(s.list[1].String())})
					names = append(names, s.list[0].atom)
					th.dsyms[s.list[0].atom] = true
					th.funs[s.list[0].atom] = FunSig{s.list[0].atom, []Sort{Sort(d.name)}, sels[len(sels)-1].sort}
				}
				d.ctors = append(d.ctors, struct {
					name string
					sels []TVar
				}{c.list[0].atom, sels})
				var as []Sort
				for _, s := range sels {
					as = append(as, s.sort)
				}
				th.funs[c.list[0].atom] = FunSig{c.list[0].atom, as, Sort(d.name)}
				th.dsyms[c.list[0].atom] = true
				regCtor(c.list[0].atom, names)
			}
			th.datas = append(th.datas, d)
		case "fun":
			var as []Sort
			for _, a := range l[2].list {
				as = append(as, Sort(a.String()))
			}
			th.addFun(l[1].atom, as, Sort(l[3].String()))
		case "def":
			// (def name ((x S)..) R body)
			vs := vars(l[2])
			var as []Sort
			app := &SX{isL: true, list: []*SX{l[1]}}
			for _, v := range vs {
				as = append(as, v.sort)
				app.list = append(app.list, &SX{atom: v.name})
			}
			th.addFun(l[1].atom, as, Sort(l[3].String()))
			body := &SX{isL: true, list: []*SX{{atom: "="}, app, l[4]}}
			if len(l) == 8 && l[5].atom == ":when" {
				// unfolds only where a further term occurs: (def name vars R body :when vars term)
				th.axioms = append(th.axioms, &Axiom{name: l[1].atom, kind: "def", vars: append(vs, vars(l[6])...), pats: []*SX{{isL: true, list: []*SX{app, l[7]}}}, body: body})
			} else if !th.splitDef(l[1].atom, vs, l[4]) {
				th.axioms = append(th.axioms, &Axiom{name: l[1].atom, kind: "def", vars: vs, pats: []*SX{{isL: true, list: []*SX{app}}}, body: body})
			}
		case "ax", "lemma":
			a := &Axiom{name: l[1].atom, kind: l[0].atom, vars: vars(l[2])}
			rest := l[3:]
			for len(rest) > 1 {
				r := rest[0]
				switch {
				case r.isL && len(r.list) > 0 && r.list[0].atom == "pat":
					a.pats = append(a.pats, &SX{isL: true, list: r.list[1:]})
					rest = rest[1:]
				case r.atom == ":by":
					a.by = append(a.by, rest[1].atom)
					rest = rest[2:]
				case r.atom == ":use":
					for _, u := range rest[1].list {
						a.use = append(a.use, u.atom)
					}
					rest = rest[2:]
				default:
					return fmt.Errorf("bad clause %s in %s", r, a.name)
				}
			}
			a.body = rest[0]
			th.axioms = append(th.axioms, a)
		default:
			return fmt.Errorf("unknown form %s", l[0])
		}
	}
	for i, a := range th.axioms {
		a.before = i
		a.trig = nil
		for _, p := range a.pats {
			m := map[string]bool{}
			p.syms(m)
			f := map[string]bool{}
			for s := range m {
				if _, ok := th.funs[s]; ok && !th.dsyms[s] {
					f[s] = true
				}
			}
			a.trig = append(a.trig, f)
		}
		a.all = map[string]bool{}
		a.body.syms(a.all)
		for _, p := range a.pats {
			p.syms(a.all)
		}
	}
	return nil
}

// selectAxioms returns the axioms whose triggers only use reachable symbols, extending the
// reachable set with the symbols of the axioms.
func (th *Theory) selectAxioms(syms map[string]bool, limit int, force map[string]bool, skip map[string]bool) []*Axiom {
	in := map[int]bool{}
	for changed := true; changed; {
		changed = false
		for i, a := range th.axioms {
			if in[i] || (limit >= 0 && a.kind == "lemma" && i >= limit) || skip[a.name] {
				continue
			}
			ok := force[a.name]
			for _, f := range a.trig {
				if ok {
					break
				}
				all := true
				for s := range f {
					if !syms[s] {
						all = false
						break
					}
				}
				if all {
					ok = true
				}
			}
			if !ok {
				continue
			}
			in[i] = true
			changed = true
			for s := range a.all {
				if _, ok := th.funs[s]; ok {
					syms[s] = true
				}
			}
		}
	}
	var out []*Axiom
	for i, a := range th.axioms {
		if in[i] {
			out = append(out, a)
		}
	}
	return out
}

func (a *Axiom) smt() string {
	if len(a.vars) == 0 {
		return a.body.String()
	}
	var b strings.Builder
	b.WriteString("(forall (")
	for _, v := range a.vars {
		fmt.Fprintf(&b, "(%s %s)", v.name, v.sort)
	}
	b.WriteString(") (! ")
	b.WriteString(a.body.String())
	for _, p := range a.pats {
		fmt.Fprintf(&b, " :pattern %s", p)
	}
	fmt.Fprintf(&b, " :qid %s))", quoteSym("q."+a.name))
	return b.String()
}

func (th *Theory) prelude(syms map[string]bool) string {
	var b strings.Builder
	for _, s := range th.sorts {
		fmt.Fprintf(&b, "(declare-sort %s 0)\n", s)
	}
	// one declaration per type: none is mutually recursive, and later ones may use arrays over earlier ones
	for _, d := range th.datas {
		fmt.Fprintf(&b, "(declare-datatypes ((%s 0)) ((", d.name)
		for _, c := range d.ctors {
			fmt.Fprintf(&b, "(%s", c.name)
			for _, s := range c.sels {
				fmt.Fprintf(&b, " (%s %s)", s.name, s.sort)
			}
			b.WriteString(")")
		}
		b.WriteString(")))\n")
	}
	for _, n := range th.order {
		if th.dsyms[n] || !syms[n] {
			continue
		}
		f := th.funs[n]
		fmt.Fprintf(&b, "(declare-fun %s (", n)
		for i, a := range f.args {
			if i > 0 {
				b.WriteByte(' ')
			}
			b.WriteString(string(a))
		}
		fmt.Fprintf(&b, ") %s)\n", f.ret)
	}
	return b.String()
}
