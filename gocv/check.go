package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// check decides one property: it verifies every unit the property is stated in, and every unit
// whose contract one of these uses, and so on; then the lemmas of the theory; then the bounded
// checks of what is outside the verifier's reach.

// cross-cutting properties are stated by tagged obligations of every iterator
var crossCutting = map[string]bool{"C18": true, "C19": true}

func relevant(prop string, u *Unit, o *Obl, direct bool) bool {
	if len(o.tags) > 0 {
		for _, t := range o.tags {
			if t == prop {
				return true
			}
		}
		return false
	}
	if crossCutting[prop] && direct && !has(u.props, prop) {
		// what the tagged obligations rest on
		return o.kind == "inv" || o.kind == "pre" || o.kind == "variant"
	}
	return true
}

func has(xs []string, s string) bool {
	for _, x := range xs {
		if x == s {
			return true
		}
	}
	return false
}

type closureResult struct {
	units   []*UnitResult
	direct  map[string]bool
	missing []string
}

func (v *Verifier) closure(prop string, deadline time.Time) *closureResult {
	cr := &closureResult{direct: map[string]bool{}}
	all := v.units()
	byName := map[string]*Unit{}
	var todo []*Unit
	seen := map[string]bool{}
	for _, u := range all {
		byName[u.name] = u
		if has(u.props, prop) || crossCutting[prop] && u.it != nil && !u.it.theorem {
			todo = append(todo, u)
			seen[u.name] = true
			cr.direct[u.name] = true
		}
	}
	for len(todo) > 0 {
		u := todo[0]
		todo = todo[1:]
		if u.con != nil && u.con.kind == "soft" && v.dropped[u.name] {
			continue
		}
		if time.Now().After(deadline) {
			cr.units = append(cr.units, &UnitResult{unit: u, err: "not attempted: out of time"})
			continue
		}
		r := v.verify(u)
		if u.con != nil && u.con.kind == "soft" && (r.err != "" || len(r.failed) > 0) && !v.dropped[u.name] {
			// a helper that no longer has the contract given here: its callers are verified with its body
			if v.refuted != nil && v.refuted() {
				cr.units = append(cr.units, r)
				return cr
			}
			v.dropped[u.name] = true
			return nil
		}
		cr.units = append(cr.units, r)
		if (r.err != "" || len(r.failed) > 0) && v.refuted != nil && v.refuted() {
			return cr
		}
		for _, n := range r.used {
			if w := byName[n]; w != nil && !seen[n] {
				seen[n] = true
				todo = append(todo, w)
			}
			if c := v.specs.contracts[n]; c != nil {
				for _, j := range c.uses {
					if w := byName[j]; w != nil && !seen[j] {
						seen[j] = true
						todo = append(todo, w)
					}
				}
			}
		}
	}
	return cr
}

func cmdCheck(prop, tier string) int {
	t0 := time.Now()
	root := envOr("GOCV_VERIF", "/verif")
	repo := envOr("GOCV_REPO", "/repo")
	seed, _ := strconv.Atoi(envOr("VERIF_SEED", "1"))
	deadline := t0.Add(540 * time.Second)
	var failures []string
	var details []string
	cov := map[string]any{}
	v, err := newVerifier(repo, filepath.Join(root, "contracts"))
	var cr *closureResult
	var early *harness // run before the end, when a proof failed
	obligations, discharged := 0, 0
	backends := map[string]int{}
	if err != nil {
		failures = append(failures, "the code can not be loaded: "+err.Error())
	} else {
		v.solver.deadline = deadline
		if tier == "thorough" {
			v.solver.timeout *= 3
		}
		v.refuted = func() bool {
			if early == nil {
				early = runHarness(root, repo, prop, tier, seed, true)
			}
			return early.failed
		}
		for cr == nil {
			cr = v.closure(prop, deadline)
		}
		if len(cr.units) == 0 {
			failures = append(failures, "no unit states this property")
		}
		var under, inl, trusted []string
		perUnit := map[string]any{}
		seenT := map[string]bool{}
		for _, r := range cr.units {
			under = append(under, r.unit.name)
			n, d := 0, 0
			for _, o := range r.obls {
				if !relevant(prop, r.unit, o.Obl, cr.direct[r.unit.name]) {
					continue
				}
				n++
				if o.res.status == "unsat" {
					d++
					backends[o.res.solver]++
				} else {
					failures = append(failures, o.name)
					details = append(details, fmt.Sprintf("obligation: %s\n  at: %s\n  status: %s (%s)\n  verifier output: %s\n", o.name, o.where, o.res.status, o.res.solver, firstLines(o.res.output, 3)))
				}
			}
			if r.err != "" {
				n++
				failures = append(failures, r.unit.name+": "+r.err)
				details = append(details, "unit "+r.unit.name+": "+r.err+"\n")
			}
			obligations += n
			discharged += d
			perUnit[r.unit.name] = map[string]any{"obligations": n, "discharged": d, "loops": r.loops, "paths": r.exits, "seconds": round(r.dur)}
			for _, s := range r.inlined {
				if !seenT["i"+s] {
					seenT["i"+s] = true
					inl = append(inl, s)
				}
			}
			for _, s := range r.trusted {
				if !seenT["t"+s] {
					seenT["t"+s] = true
					trusted = append(trusted, s)
				}
			}
			for _, s := range r.used {
				if c := v.specs.contracts[s]; c != nil && c.kind != "exported" && c.kind != "soft" && !seenT["t"+s] {
					seenT["t"+s] = true
					trusted = append(trusted, s+" ("+c.kind+" contract)")
				}
			}
		}
		// lemmas
		nl := 0
		var lf []string
		ln := 0
		for _, a := range v.th.axioms {
			if a.kind == "lemma" {
				lr := v.solver.proveLemma(a)
				nl++
				ln += lr.goals
				obligations += lr.goals
				discharged += lr.goals - len(lr.failed)
				for s, c := range lr.solver {
					backends[s] += c
				}
				for _, f := range lr.failed {
					lf = append(lf, lr.name+": "+f)
				}
			}
		}
		for _, f := range lf {
			failures = append(failures, "lemma "+f)
		}
		sort.Strings(trusted)
		sort.Strings(inl)
		cov["units"] = perUnit
		cov["functions_under_contract"] = under
		cov["functions_inlined"] = inl
		cov["lemmas_proved"] = nl
		cov["lemma_obligations"] = ln
		cov["solver_queries"] = v.solver.nQueries
		cov["solver_seconds"] = round(v.solver.solverTime)
		cov["trusted_base"] = append(trusted, baseTrust...)
		var dr []string
		for d := range v.dropped {
			dr = append(dr, d)
		}
		sort.Strings(dr)
		cov["helper_contracts_not_used"] = dr
	}
	cov["obligations"] = obligations
	cov["discharged"] = discharged
	cov["discharged_by"] = backends
	cov["checker_cmd"] = "gocv check " + prop + " (z3 5.3.2; cvc5 1.1.2 and z3 4.8.12 as fallbacks)"
	// bounded checks of the real code
	h := early
	if h == nil {
		h = runHarness(root, repo, prop, tier, seed, len(failures) > 0)
	}
	cov["bounded"] = h.summary()
	fmt.Printf("%s: %d units, %d of %d obligations discharged, %d failed; bounded check: %s; %.1fs\n", prop, func() int {
		if cr == nil {
			return 0
		}
		return len(cr.units)
	}(), discharged, obligations, len(failures), h.line(), time.Since(t0).Seconds())
	for _, k := range knownFindings(root, prop) {
		fmt.Println("KNOWN-FINDING: property=" + prop + " " + k)
	}
	code := 0
	nv := 0
	if len(failures) > 0 || h.failed {
		code = 1
		nv = 1
		dir := filepath.Join(root, "replays")
		os.MkdirAll(dir, 0755)
		rp := filepath.Join(dir, prop+".txt")
		var b strings.Builder
		fmt.Fprintf(&b, "property %s\n\n", prop)
		for _, f := range failures {
			fmt.Fprintf(&b, "failed obligation: %s\n", f)
			fmt.Println("  failed:", f)
		}
		b.WriteString("\n")
		for _, d := range details {
			b.WriteString(d)
		}
		if h.failed {
			fmt.Fprintf(&b, "\nfailing input, replayed against the code in %s:\n%s\n\nto run it again: %s\n", repo, h.output, h.cmd)
		} else {
			fmt.Fprintf(&b, "\nno failing input found by: %s\n%s\n", h.cmd, firstLines(h.output, 20))
		}
		os.WriteFile(rp, []byte(b.String()), 0644)
		l := "VIOLATION property=" + prop + " replay=" + rp
		if !h.failed {
			l += " no-failing-input-found"
		}
		fmt.Println(l)
	}
	level := "proof"
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assumptions, "wall_s": round(time.Since(t0)), "violations": nv}
	os.MkdirAll(filepath.Join(root, "evidence"), 0755)
	js, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(root, "evidence", prop+".json"), js, 0644)
	return code
}

var baseTrust = []string{
	"gocv (/verif/gocv): translation of go/ssa to verification conditions",
	"golang.org/x/tools/go/packages, go/types and go/ssa (front end)",
	"z3 5.3.2, cvc5 1.1.2, z3 4.8.12",
	"axioms of contracts/theory.lisp (those marked ax)",
}

var assumptions = []string{
	"machine integers are treated as mathematical: counters and lengths do not overflow",
	"memory is sufficient; slices grow as append documents",
	"strings are opaque values with the axioms in theory.lisp; utf8 decoding is the rune list runes(s)",
	"functions of the standard library and of other modules behave as their trusted contracts say, and write nothing of this repository's state otherwise",
	"functions passed in by the user (filters, predicates, mappers, readers) satisfy the funcval contracts and do not touch this repository's private state",
}

func round(d time.Duration) float64 { return float64(d.Milliseconds()) / 1000 }

func firstLines(s string, n int) string {
	ls := strings.Split(s, "\n")
	if len(ls) > n {
		ls = ls[:n]
	}
	return strings.Join(ls, "\n")
}

func knownFindings(root, prop string) []string {
	b, err := os.ReadFile(filepath.Join(root, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		p := "known: property=" + prop + " "
		if strings.HasPrefix(l, p) {
			out = append(out, strings.TrimPrefix(l, p))
		}
	}
	return out
}

// ---- bounded checks

type harness struct {
	failed bool
	ran    bool
	err    string
	cmd    string
	output string
	cases  int
	note   []string
	dur    time.Duration
}

func (h *harness) line() string {
	switch {
	case h.failed:
		return "failing input found"
	case h.err != "":
		return h.err
	case !h.ran:
		return "none"
	}
	return fmt.Sprintf("%d cases", h.cases)
}

func (h *harness) summary() map[string]any {
	return map[string]any{"label": "bounded: not counted as proved; looks for a failing input of the real code", "cases": h.cases, "failed": h.failed, "seconds": round(h.dur), "notes": h.note, "problem": h.err}
}

func runHarness(root, repo, prop, tier string, seed int, hard bool) *harness {
	h := &harness{}
	t0 := time.Now()
	defer func() { h.dur = time.Since(t0) }()
	// which packages have harness files
	over := map[string]string{}
	pkgs := map[string]bool{}
	base := filepath.Join(root, "replay")
	filepath.Walk(base, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, "_test.go") {
			return nil
		}
		rel, _ := filepath.Rel(base, p)
		b, _ := os.ReadFile(p)
		over[filepath.Join(repo, rel)] = p
		if strings.Contains(string(b), "func TestVerif"+prop) {
			pkgs["./"+filepath.Dir(rel)] = true
		}
		return nil
	})
	if len(pkgs) == 0 {
		return h
	}
	tmp, err := os.MkdirTemp("", "gocv")
	if err != nil {
		h.err = err.Error()
		return h
	}
	defer os.RemoveAll(tmp)
	js, _ := json.Marshal(map[string]any{"Replace": over})
	of := filepath.Join(tmp, "overlay.json")
	os.WriteFile(of, js, 0644)
	stat := filepath.Join(tmp, "stat")
	args := []string{"test", "-vet=off", "-overlay", of, "-count=1", "-timeout", "240s", "-run", "^TestVerif" + prop, "-v"}
	if prop == "C19" {
		args = append(args, "-race")
	}
	ps := sortedKeys(pkgs)
	args = append(args, ps...)
	n := 2
	if tier == "thorough" {
		n = 20
	}
	if hard {
		n *= 5
	}
	env := append(os.Environ(), "VERIF_STAT="+stat, "VERIF_EFFORT="+strconv.Itoa(n), "VERIF_SEED="+strconv.Itoa(seed), "VERIF_ROOT="+root)
	h.cmd = "VERIF_SEED=" + strconv.Itoa(seed) + " VERIF_EFFORT=" + strconv.Itoa(n) + " go " + strings.Join(args, " ") + " (overlay of " + base + "; run by check.sh " + prop + ")"
	run := func() ([]byte, error) {
		cmd := exec.Command("go", args...)
		cmd.Dir = repo
		cmd.Env = env
		return cmd.CombinedOutput()
	}
	out, err := run()
	if strings.Contains(string(out), "[build failed]") {
		// some file does not fit this code (it uses private names): run the others
		var all []byte
		ok := false
		for dst, f := range over {
			if b, _ := os.ReadFile(f); !strings.Contains(string(b), "func TestVerif"+prop) {
				continue
			}
			js, _ := json.Marshal(map[string]any{"Replace": map[string]string{dst: f}})
			os.WriteFile(of, js, 0644)
			o, e := run()
			if !strings.Contains(string(o), "[build failed]") {
				ok = true
				all = append(all, o...)
				if e != nil {
					err = e
				}
			}
		}
		if ok {
			out = all
			if !strings.Contains(string(all), "FAIL") {
				err = nil
			}
		}
	}
	h.output = string(out)
	h.ran = true
	if strings.Contains(h.output, "--- FAIL") || strings.Contains(h.output, "panic:") || strings.Contains(h.output, "WARNING: DATA RACE") || strings.Contains(h.output, "fatal error:") {
		h.failed = true
		if i := strings.Index(h.output, "VERIF-FAIL"); i >= 0 && len(h.output) > 20000 {
			h.output = h.output[i:min(len(h.output), i+20000)]
		}
	} else if err != nil {
		h.err = "the harness does not run on this code: " + firstLines(h.output, 5)
	}
	for _, l := range strings.Split(h.output, "\n") {
		if i := strings.Index(l, "VERIF-CASES "); i >= 0 {
			var c int
			var rest string
			fmt.Sscanf(l[i+12:], "%d", &c)
			if j := strings.Index(l[i+12:], " "); j >= 0 {
				rest = strings.TrimSpace(l[i+12+j:])
			}
			h.cases += c
			if rest != "" {
				h.note = append(h.note, fmt.Sprintf("%d %s", c, rest))
			}
		}
	}
	return h
}
