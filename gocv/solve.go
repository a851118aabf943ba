package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"
	"unicode"
)

type Result struct {
	slow   bool   // a back end ran out of time
	status string // unsat (proved), sat, unknown, timeout, error
	solver string
	dur    time.Duration
	output string
}

type Solver struct {
	deadline time.Time // no further queries after this
	th       *Theory
	mu       sync.Mutex
	cache    map[[32]byte]Result
	sem      chan struct{}
	timeout  time.Duration
	cross    bool
	// statistics
	nQueries, nCached int
	solverTime        time.Duration
	by                map[string]int
	won               map[string]int    // queries each back end settled
	wins, newWins     map[string]string // query -> the back end that proved it, for those that took a while
	litFuncs          map[string]func(*Term) *Term
	tables            map[string]tableFn
	trace             bool
}

type tableFn func(ts []*Term) []string

func newSolver(th *Theory) *Solver {
	s := &Solver{th: th, cache: map[[32]byte]Result{}, sem: make(chan struct{}, 8), timeout: 10 * time.Second, by: map[string]int{}, won: map[string]int{}, newWins: map[string]string{}}
	s.litFuncs = map[string]func(*Term) *Term{}
	s.tables = map[string]tableFn{}
	return s
}

func ilist(xs []rune) *Term {
	l := rawTerm("inil", sIL)
	for i := len(xs) - 1; i >= 0; i-- {
		l = mkApp("icons", sIL, mkInt(int64(xs[i])), l)
	}
	return l
}

// evaluators of theory functions on literals
var strEval = map[string]func(string) *Term{
	"slen":     func(s string) *Term { return mkInt(int64(len(s))) },
	"runes":    func(s string) *Term { return ilist([]rune(s)) },
	"lower":    func(s string) *Term { return mkStr(strings.ToLower(s)) },
	"upper":    func(s string) *Term { return mkStr(strings.ToUpper(s)) },
	"tmplNorm": func(s string) *Term { return mkStr(tmplNorm(s)) },
}

// tmplNorm removes the white space at the ends of the actions of a template that just show a value
func tmplNorm(s string) string {
	return regexp.MustCompile(`\{\{[ \t\r\n]*\.[ \t\r\n]*\}\}`).ReplaceAllString(s, "{{.}}")
}

var intEval = map[string]func(rune) bool{
	"uPunct":  unicode.IsPunct,
	"uSpace":  unicode.IsSpace,
	"uLetter": unicode.IsLetter,
	"uNumber": unicode.IsNumber,
}
var intEvalI = map[string]func(rune) rune{
	"uLower": unicode.ToLower,
}

// build assembles an SMT-LIB query: hyps and not goal.
func (s *Solver) build(hyps []*Term, goal *Term, limit int, force, skip map[string]bool) string {
	neg := mkNot(goal)
	ts := append(append([]*Term{}, hyps...), neg)
	var tf []*Term
	walk(ts, func(t *Term) { tf = append(tf, termFacts[t.id]...) })
	ts = append(ts, tf...)
	ts = append(ts, segFacts(ts)...)
	syms := map[string]bool{}
	consts := map[string]Sort{}
	lits := map[string]bool{}
	ints := map[int64]bool{}
	opaques := map[string]string{}
	var scan func(ts []*Term)
	scan = func(ts []*Term) {
		walk(ts, func(t *Term) {
			switch {
			case t.isConst():
				consts[t.name()] = t.sort
			case t.isStrLit():
				lits[t.strVal()] = true
			case t.isInt():
				ints[t.intVal()] = true
			case t.isBVar():
			case strings.HasPrefix(t.op, "opaque."):
				var d strings.Builder
				d.WriteString("(declare-fun " + t.op + " (")
				for _, a := range t.args {
					d.WriteString(string(a.sort) + " ")
				}
				d.WriteString(") " + string(t.sort) + ")\n")
				opaques[t.op] = d.String()
			default:
				if _, ok := s.th.funs[t.op]; ok {
					syms[t.op] = true
				}
			}
		})
	}
	scan(ts)
	axs := s.th.selectAxioms(syms, limit, force, skip)
	// literals written in axioms: atoms of the form str!...! are literals
	for _, a := range axs {
		for x := range a.all {
			if y := strings.Trim(x, "|"); len(y) > 4 && strings.HasPrefix(y, "str!") && strings.HasSuffix(y, "!") {
				lits[y[4:len(y)-1]] = true
			}
			if len(x) > 0 && x[0] >= '0' && x[0] <= '9' {
				var n int64
				fmt.Sscanf(x, "%d", &n)
				ints[n] = true
			}
		}
	}
	// ground facts about literals
	var ground []*Term
	if len(lits) > 0 {
		var ls []string
		for l := range lits {
			ls = append(ls, l)
		}
		sort.Strings(ls)
		for _, l := range ls {
			for f, ev := range strEval {
				if !syms[f] {
					continue
				}
				v := ev(l)
				if f == "lower" || f == "upper" || f == "tmplNorm" {
					lits[v.strVal()] = true
				}
			}
		}
		ls = ls[:0]
		for l := range lits {
			ls = append(ls, l)
		}
		sort.Strings(ls)
		var fs []string
		for f := range strEval {
			if syms[f] {
				fs = append(fs, f)
			}
		}
		sort.Strings(fs)
		for _, l := range ls {
			for _, f := range fs {
				v := strEval[f](l)
				ground = append(ground, mkEq(rawTerm(f, s.th.funs[f].ret, mkStr(l)), v))
			}
			if rs := []rune(l); syms["rstr"] && len(rs) == 1 && string(rs) == l {
				ground = append(ground, mkEq(rawTerm("rstr", sStr, mkInt(int64(rs[0]))), mkStr(l)))
			}
			if syms["rcat"] && syms["runes"] && string([]rune(l)) == l {
				ground = append(ground, mkEq(rawTerm("rcat", sStr, strEval["runes"](l)), mkStr(l)))
			}
		}
	}
	gscan := map[string]bool{}
	walk(ground, func(t *Term) {
		if t.isInt() {
			ints[t.intVal()] = true
		}
		if t.isStrLit() {
			lits[t.strVal()] = true
		}
		if _, ok := s.th.funs[t.op]; ok {
			gscan[t.op] = true
		}
	})
	for k := range gscan {
		syms[k] = true
	}
	{
		var is []int64
		for n := range ints {
			if n >= 0 && n <= 0x10ffff {
				is = append(is, n)
			}
		}
		sort.Slice(is, func(i, j int) bool { return is[i] < is[j] })
		var fs []string
		for f := range intEval {
			if syms[f] {
				fs = append(fs, f)
			}
		}
		sort.Strings(fs)
		for _, n := range is {
			for _, f := range fs {
				ground = append(ground, mkEq(rawTerm(f, sBool, mkInt(n)), mkBool(intEval[f](rune(n)))))
			}
			if syms["uLower"] {
				ground = append(ground, mkEq(rawTerm("uLower", sInt, mkInt(n)), mkInt(int64(unicode.ToLower(rune(n))))))
			}
		}
	}
	var extra []string
	for _, f := range sortedKeys(s.tables) {
		if syms[f] {
			extra = append(extra, s.tables[f](ts)...)
		}
	}
	var b strings.Builder
	b.WriteString("(set-logic ALL)\n")
	b.WriteString(s.th.prelude(syms))
	for _, o := range sortedKeys(opaques) {
		b.WriteString(opaques[o])
	}
	for _, c := range sortedKeys(consts) {
		fmt.Fprintf(&b, "(declare-const %s %s)\n", quoteSym(c), consts[c])
	}
	if len(lits) > 0 {
		ls := sortedKeys(lits)
		for _, l := range ls {
			fmt.Fprintf(&b, "(declare-const %s Str)\n", strLitSym(l))
		}
		if len(ls) > 1 {
			b.WriteString("(assert (distinct")
			for _, l := range ls {
				b.WriteByte(' ')
				b.WriteString(strLitSym(l))
			}
			b.WriteString("))\n")
		}
	}
	for _, a := range axs {
		fmt.Fprintf(&b, "(assert %s)\n", a.smt())
	}
	for _, g := range ground {
		fmt.Fprintf(&b, "(assert %s)\n", g)
	}
	for _, e := range extra {
		b.WriteString(e)
		b.WriteByte('\n')
	}
	// sharing: name ground subterms that occur more than once and are not small
	count := map[int]int{}
	terms := map[int]*Term{}
	bvar := map[int]bool{}
	var hb func(t *Term) bool
	done := map[int]bool{}
	hb = func(t *Term) bool {
		if done[t.id] {
			return bvar[t.id]
		}
		done[t.id] = true
		r := t.isBVar()
		for _, a := range t.args {
			if hb(a) {
				r = true
			}
		}
		for _, p := range t.pats {
			for _, x := range p {
				hb(x)
			}
		}
		bvar[t.id] = r
		return r
	}
	walk(ts, func(t *Term) {
		hb(t)
		for _, a := range t.args {
			count[a.id]++
			terms[a.id] = a
		}
	})
	names := map[int]string{}
	var defs []*Term
	for id, c := range count {
		t := terms[id]
		if c > 1 && t.size > 4 && !bvar[id] && !t.isQuant() {
			defs = append(defs, t)
		}
	}
	sort.Slice(defs, func(i, j int) bool { return before(defs[i], defs[j]) })
	for i, t := range defs {
		var tb strings.Builder
		t.print(&tb, names)
		n := fmt.Sprintf("$d%d", i)
		fmt.Fprintf(&b, "(define-fun %s () %s %s)\n", n, t.sort, tb.String())
		names[t.id] = n
	}
	for _, t := range ts {
		b.WriteString("(assert ")
		t.print(&b, names)
		b.WriteString(")\n")
	}
	b.WriteString("(check-sat)\n")
	return nameStrArrays(b.String())
}

// nameStrArrays: cvc5 takes no constant array of an uninterpreted constant, so the arrays of empty strings get names
func nameStrArrays(q string) string {
	for _, k := range []string{"Int", "Str"} {
		t := "((as const (Array " + k + " Str)) str!!)"
		if !strings.Contains(q, t) {
			continue
		}
		n := "|zero:" + k + "|"
		q = strings.ReplaceAll(q, t, n)
		i := strings.Index(q, "(assert")
		q = q[:i] + "(declare-fun " + n + " () (Array " + k + " Str))\n(assert (forall ((i " + k + ")) (! (= (select " + n + " i) str!!) :pattern ((select " + n + " i)))))\n" + q[i:]
	}
	return q
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (s *Solver) prove(hyps []*Term, goal *Term, timeout time.Duration) Result {
	if goal == tTrue {
		return Result{status: "unsat", solver: "simplifier"}
	}
	for _, h := range hyps {
		if h == tFalse {
			return Result{status: "unsat", solver: "simplifier"}
		}
		if h == goal {
			return Result{status: "unsat", solver: "simplifier"}
		}
	}
	q := s.build(hyps, goal, -1, nil, nil)
	return s.run(q, timeout)
}

// proveFinal is used for the obligations that decide: all back ends are tried
func (s *Solver) proveFinal(hyps []*Term, goal *Term, timeout time.Duration) Result {
	r := s.prove(hyps, goal, timeout)
	if r.status == "unsat" || r.status == "sat" {
		return r
	}
	return s.runAll(s.build(hyps, goal, -1, nil, nil), timeout)
}

func (s *Solver) late() bool { return !s.deadline.IsZero() && time.Now().After(s.deadline) }

func (s *Solver) run(q string, timeout time.Duration) Result {
	key := sha256.Sum256([]byte(q))
	s.mu.Lock()
	if r, ok := s.cache[key]; ok && !(r.status != "unsat" && r.status != "sat" && timeout > 4*time.Second && r.dur < 4*time.Second) {
		s.nCached++
		s.mu.Unlock()
		return r
	}
	s.mu.Unlock()
	s.sem <- struct{}{}
	defer func() { <-s.sem }()
	if timeout == 0 {
		timeout = s.timeout
	}
	if !s.deadline.IsZero() && time.Now().After(s.deadline) {
		return Result{status: "timeout", solver: "z3-new", output: "out of time"}
	}
	short := timeout
	if short > time.Second {
		short = time.Second
	}
	hex := fmt.Sprintf("%x", key[:6])
	if d := os.Getenv("GOCV_ALLQ"); d != "" {
		os.WriteFile(d+"/"+hex, []byte(q), 0644)
	}
	first, t1 := "z3-new", short
	if n, ok := s.wins[hex]; ok {
		first, t1 = n, 30*time.Second // this back end proved this very query before
	}
	r := runSolver(first, q, t1)
	total := r.dur
	slow := r.status == "timeout"
	again := func(n string, t time.Duration) {
		s.mu.Lock()
		s.nQueries++
		s.solverTime += r.dur
		s.by[r.solver]++
		s.mu.Unlock()
		r2 := runSolver(n, q, t)
		total += r2.dur
		slow = slow || r2.status == "timeout"
		if r2.status == "unsat" || r.status == "timeout" {
			r = r2
		}
	}
	var others []string
	if timeout > time.Second {
		others = append(others, "cvc5")
	}
	if timeout > 4*time.Second {
		others = append(others, "z3-new:cs3", "z3")
	}
	for _, n := range others {
		if r.status != "unsat" && r.status != "sat" {
			again(n, short)
		}
	}
	if r.status != "unsat" && r.status != "sat" && timeout > 4*time.Second {
		again("z3-new", timeout)
	}
	s.mu.Lock()
	s.nQueries++
	s.solverTime += r.dur
	s.by[r.solver]++
	if r.status == "unsat" {
		s.won[r.solver]++
		if total > 200*time.Millisecond {
			s.newWins[hex] = r.solver
		}
	}
	r.dur = total
	r.slow = slow
	s.cache[key] = r
	s.mu.Unlock()
	return r
}

// runAll tries the back ends in turn
func (s *Solver) runAll(q string, timeout time.Duration) Result {
	r := s.run(q, timeout)
	if r.status == "unsat" || r.status == "sat" {
		return r
	}
	for _, n := range []string{"cvc5", "z3"} {
		if !s.deadline.IsZero() && time.Now().After(s.deadline) {
			break
		}
		s.sem <- struct{}{}
		r2 := runSolver(n, q, timeout)
		<-s.sem
		s.mu.Lock()
		s.nQueries++
		s.solverTime += r2.dur
		s.by[n]++
		s.mu.Unlock()
		if r2.status == "unsat" {
			s.won[n]++
			return r2
		}
	}
	return r
}

// runSolver gives the back end timeout of processor time, and four times as much by the clock, so that
// its answer does not depend on what else the machine is doing
func runSolver(name, q string, timeout time.Duration) Result {
	ctx, cancel := context.WithTimeout(context.Background(), 4*timeout+4*time.Second)
	defer cancel()
	var cmd *exec.Cmd
	cpu := (int(timeout/time.Millisecond) + 999) / 1000
	limited := func(args ...string) {
		cmd = exec.CommandContext(ctx, "/bin/sh", append([]string{"-c", fmt.Sprintf("ulimit -t %d; exec \"$0\" \"$@\"", cpu)}, args...)...)
	}
	switch name {
	case "cvc5":
		limited("cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", 4000*cpu), "--quiet", "-")
	case "z3-new:cs3":
		limited("z3-new", "-in", "-smt2", fmt.Sprintf("-T:%d", 4*cpu), "smt.mbqi=false", "auto_config=false", "smt.case_split=3")
	default:
		limited(name, "-in", "-smt2", fmt.Sprintf("-T:%d", 4*cpu), "smt.mbqi=false", "auto_config=false", "smt.random_seed=1", "smt.qi.eager_threshold=50")
	}
	cmd.Stdin = strings.NewReader(q)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	t0 := time.Now()
	err := cmd.Run()
	d := time.Since(t0)
	o := strings.TrimSpace(out.String())
	first := o
	for _, l := range strings.Split(o, "\n") {
		if l = strings.TrimSpace(l); l != "" && !strings.HasPrefix(l, "WARNING") {
			first = l
			break
		}
	}
	st := "error"
	switch first {
	case "unsat", "sat", "unknown", "timeout":
		st = first
	default:
		var ee *exec.ExitError
		if errors.As(err, &ee) && !ee.Exited() {
			st = "timeout" // ended by a signal
		}
		if ctx.Err() != nil || strings.Contains(o, "interrupted by timeout") {
			st = "timeout"
		}
	}
	return Result{status: st, solver: name, dur: d, output: o}
}
