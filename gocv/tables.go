package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// Tables: functions of the theory given by data files.

// loadFold defines foldR and foldable from lucene.tsv
func (s *Solver) loadFold(dir string) error {
	b, err := os.ReadFile(filepath.Join(dir, "lucene.tsv"))
	if err != nil {
		return err
	}
	byOut := map[string][]int{}
	var all []int
	for _, l := range strings.Split(string(b), "\n") {
		if l == "" {
			continue
		}
		f := strings.Split(l, "\t")
		var c int
		if _, err := fmt.Sscanf(f[0], "%d", &c); err != nil || len(f) != 2 || f[1] == "" {
			return fmt.Errorf("lucene.tsv: bad row %q", l)
		}
		byOut[f[1]] = append(byOut[f[1]], c)
		all = append(all, c)
	}
	ranges := func(cs []int) string {
		sort.Ints(cs)
		var out []string
		for i := 0; i < len(cs); {
			j := i
			for j+1 < len(cs) && cs[j+1] == cs[j]+1 {
				j++
			}
			if i == j {
				out = append(out, fmt.Sprintf("(= r %d)", cs[i]))
			} else {
				out = append(out, fmt.Sprintf("(and (<= %d r) (<= r %d))", cs[i], cs[j]))
			}
			i = j + 1
		}
		if len(out) == 1 {
			return out[0]
		}
		return "(or " + strings.Join(out, " ") + ")"
	}
	var fr strings.Builder
	outs := sortedKeys(byOut)
	for _, o := range outs {
		t := ""
		rs := strings.Fields(o)
		for i := len(rs) - 1; i >= 0; i-- {
			if t == "" {
				t = "(rstr " + rs[i] + ")"
			} else {
				t = "(cat (rstr " + rs[i] + ") " + t + ")"
			}
		}
		fmt.Fprintf(&fr, "(ite %s %s ", ranges(byOut[o]), t)
	}
	fr.WriteString("(rstr r)")
	fr.WriteString(strings.Repeat(")", len(outs)))
	foldR := "(assert (forall ((r Int)) (! (= (foldR r) " + fr.String() + ") :pattern ((foldR r)))))"
	foldable := "(assert (forall ((r Int)) (! (= (foldable r) " + ranges(all) + ") :pattern ((foldable r)))))"
	row := map[int64]string{}
	for _, o := range outs {
		t := ""
		rs := strings.Fields(o)
		for i := len(rs) - 1; i >= 0; i-- {
			if t == "" {
				t = "(rstr " + rs[i] + ")"
			} else {
				t = "(cat (rstr " + rs[i] + ") " + t + ")"
			}
		}
		for _, c := range byOut[o] {
			row[int64(c)] = t
		}
	}
	// if the query says which characters it is about, only their rows are needed
	rows := func(ts []*Term) []int64 {
		var out []int64
		for _, t := range ts {
			ds := []*Term{t}
			if t.op == "or" {
				ds = t.args
			}
			var cs []int64
			for _, d := range ds {
				if d.op != "=" || len(d.args) != 2 {
					cs = nil
					break
				}
				var c *Term
				for _, a := range d.args {
					if a.isInt() {
						c = a
					}
				}
				if c == nil || c.intVal() < 128 {
					cs = nil
					break
				}
				cs = append(cs, c.intVal())
			}
			out = append(out, cs...)
		}
		return out
	}
	s.tables["foldR"] = func(ts []*Term) []string {
		rs := rows(ts)
		if len(rs) == 0 {
			return []string{foldR}
		}
		var out []string
		for _, c := range rs {
			if row[c] != "" {
				out = append(out, fmt.Sprintf("(assert (= (foldR %d) %s))", c, row[c]))
			} else {
				out = append(out, fmt.Sprintf("(assert (= (foldR %d) (rstr %d)))", c, c))
			}
		}
		return out
	}
	s.tables["foldable"] = func(ts []*Term) []string {
		rs := rows(ts)
		if len(rs) == 0 {
			return []string{foldable}
		}
		var out []string
		for _, c := range rs {
			if row[c] != "" {
				out = append(out, fmt.Sprintf("(assert (foldable %d))", c))
			} else {
				out = append(out, fmt.Sprintf("(assert (not (foldable %d)))", c))
			}
		}
		return out
	}
	return nil
}

// ---- the contraction table

// listedContractions reads the list the table is generated from: the map literal in the generator
func (v *Verifier) listedContractions() map[string]string {
	list := map[string]string{}
	fs, _ := filepath.Glob(filepath.Join(v.repo, "filters/contractions/generate/*.go"))
	for _, f := range fs {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		file, err := parser.ParseFile(token.NewFileSet(), f, nil, 0)
		if err != nil {
			continue
		}
		for _, d := range file.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok {
				continue
			}
			ast.Inspect(gd, func(n ast.Node) bool {
				kv, ok := n.(*ast.KeyValueExpr)
				if !ok {
					return true
				}
				k, ok1 := kv.Key.(*ast.BasicLit)
				e, ok2 := kv.Value.(*ast.BasicLit)
				if ok1 && ok2 && k.Kind == token.STRING && e.Kind == token.STRING {
					ks, err1 := strconv.Unquote(k.Value)
					es, err2 := strconv.Unquote(e.Value)
					if err1 == nil && err2 == nil && ks != "" && es != "" {
						list[ks] = es
					}
				}
				return true
			})
		}
	}
	return list
}

// contractionTable: every listed contraction is in the table in lower, Title and UPPER case, with straight
// and curly apostrophes, with the expansion in matching case
func (x *Exec) contractionTable(st *State, e *Env) {
	list := x.V.listedContractions()
	if len(list) == 0 {
		x.unsupported("no list of contractions found in filters/contractions/generate")
	}
	m := &SE{op: "call", name: "global", args: []*SE{{op: "str", name: "contractions.mappings"}}}
	title := func(s string) string { return strings.ToUpper(s[:1]) + s[1:] }
	for _, k := range sortedKeys(list) {
		var all []*Term
		for _, f := range []func(string) string{strings.ToLower, title, strings.ToUpper} {
			for _, a := range []string{k, strings.ReplaceAll(k, "'", "\u2019")} {
				ks, es := f(a), f(list[k])
				mv := e.eval(m)
				mt := under(mv.t).(*types.Map)
				_, _, d, v := x.mapComps(st, mt)
				all = append(all, mkSelect(mkSelect(d, mv.v.(*Term)), mkStr(ks)), mkEq(mkSelect(mkSelect(v, mv.v.(*Term)), mkStr(ks)), mkStr(es)))
			}
		}
		x.oblige(st, mkAnd(all...), "post", fmt.Sprintf("%q is in the table in every case and with both apostrophes", k), nil)
	}
}
