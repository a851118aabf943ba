package main

import (
	"fmt"
	"sort"
	"strings"
	"time"
)

// Lemmas of the theory are proved, by induction where they say so, from the definitions, the
// axioms and the lemmas before them.

type LemmaResult struct {
	name   string
	goals  int
	failed []string
	solver map[string]int
	dur    time.Duration
}

func (s *Solver) textQuery(decls []string, asserts []*SX, syms map[string]bool, limit int, use map[string]bool) string {
	for _, a := range asserts {
		m := map[string]bool{}
		a.syms(m)
		for x := range m {
			if _, ok := s.th.funs[x]; ok {
				syms[x] = true
			}
		}
	}
	axs := s.th.selectAxioms(syms, limit, use, nil)
	lits := map[string]bool{}
	scan := func(x string) {
		if strings.HasPrefix(x, "|str!") && strings.HasSuffix(x, "!|") {
			lits[x] = true
		}
	}
	for _, a := range axs {
		for x := range a.all {
			scan(x)
		}
	}
	for _, a := range asserts {
		m := map[string]bool{}
		a.syms(m)
		for x := range m {
			scan(x)
		}
	}
	var b strings.Builder
	b.WriteString("(set-logic ALL)\n")
	b.WriteString(s.th.prelude(syms))
	ls := sortedKeys(lits)
	for _, l := range ls {
		fmt.Fprintf(&b, "(declare-const %s Str)\n", l)
	}
	if len(ls) > 1 {
		fmt.Fprintf(&b, "(assert (distinct %s))\n", strings.Join(ls, " "))
	}
	// ground facts about the literals
	for _, l := range ls {
		lit := l[5 : len(l)-2]
		var fs []string
		for f := range strEval {
			if syms[f] {
				fs = append(fs, f)
			}
		}
		sort.Strings(fs)
		for _, f := range fs {
			v := strEval[f](lit)
			if f == "lower" || f == "upper" {
				if !lits[strLitSym(v.strVal())] {
					continue
				}
			}
			fmt.Fprintf(&b, "(assert (= (%s %s) %s))\n", f, l, v)
		}
	}
	for _, d := range decls {
		b.WriteString(d)
		b.WriteByte('\n')
	}
	for _, a := range axs {
		fmt.Fprintf(&b, "(assert %s)\n", a.smt())
	}
	for _, a := range asserts {
		fmt.Fprintf(&b, "(assert %s)\n", a)
	}
	b.WriteString("(check-sat)\n")
	return b.String()
}

func sxNot(x *SX) *SX { return &SX{isL: true, list: []*SX{{atom: "not"}, x}} }

func (s *Solver) proveLemma(a *Axiom) LemmaResult {
	t0 := time.Now()
	r := LemmaResult{name: a.name, solver: map[string]int{}}
	use := map[string]bool{}
	for _, u := range a.use {
		use[u] = true
	}
	type goal struct {
		label   string
		decls   []string
		asserts []*SX
	}
	var goals []goal
	decl := func(skip string) (ds []string) {
		for _, v := range a.vars {
			if v.name != skip {
				ds = append(ds, fmt.Sprintf("(declare-const %s %s)", v.name, v.sort))
			}
		}
		return
	}
	if len(a.by) == 0 {
		goals = append(goals, goal{"direct", decl(""), []*SX{sxNot(a.body)}})
	} else {
		v := a.by[0]
		var vs Sort
		for _, x := range a.vars {
			if x.name == v {
				vs = x.sort
			}
		}
		var dd *DataDef
		for i := range s.th.datas {
			if s.th.datas[i].name == string(vs) {
				dd = &s.th.datas[i]
			}
		}
		if dd == nil {
			r.failed = append(r.failed, "no induction on "+string(vs))
			return r
		}
		for _, c := range dd.ctors {
			g := goal{label: c.name, decls: decl(v)}
			var con *SX = &SX{atom: c.name}
			if len(c.sels) > 0 {
				con = &SX{isL: true, list: []*SX{{atom: c.name}}}
			}
			for _, sel := range c.sels {
				n := "$" + sel.name
				g.decls = append(g.decls, fmt.Sprintf("(declare-const %s %s)", n, sel.sort))
				con.list = append(con.list, &SX{atom: n})
				if sel.sort == vs {
					// induction hypothesis, for all values of the other variables
					ih := &Axiom{name: "IH", body: sxSubst(a.body, map[string]*SX{v: {atom: n}})}
					for _, p := range a.pats {
						q := sxSubst(p, map[string]*SX{v: {atom: n}})
						ih.pats = append(ih.pats, q)
					}
					for _, x := range a.vars {
						if x.name != v {
							ih.vars = append(ih.vars, x)
						}
					}
					// a pattern must mention every variable
					var ps []*SX
					for _, p := range ih.pats {
						m := map[string]bool{}
						p.syms(m)
						ok := true
						for _, x := range ih.vars {
							if !m[x.name] {
								ok = false
							}
						}
						if ok {
							ps = append(ps, p)
						}
					}
					ih.pats = ps
					x, err := parseSX(ih.smt())
					if err != nil {
						panic(err)
					}
					g.asserts = append(g.asserts, x[0])
				}
			}
			g.asserts = append(g.asserts, sxNot(sxSubst(a.body, map[string]*SX{v: con})))
			goals = append(goals, g)
		}
	}
	for _, g := range goals {
		q := s.textQuery(g.decls, g.asserts, map[string]bool{}, a.before, use)
		res := s.runAll(q, 10*time.Second)
		r.goals++
		if res.status != "unsat" {
			r.failed = append(r.failed, fmt.Sprintf("%s (%s): %s", a.name, g.label, res.status))
		} else {
			r.solver[res.solver]++
		}
		if s.trace && res.status != "unsat" {
			fmt.Println(q)
		}
	}
	r.dur = time.Since(t0)
	return r
}
