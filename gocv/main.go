package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strings"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: gocv check PROPERTY TIER | unit [NAME] | lemmas [NAME]")
		os.Exit(2)
	}
	if os.Args[1] == "check" {
		tier := "quick"
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		os.Exit(cmdCheck(os.Args[2], tier))
	}
	t0 := time.Now()
	v, err := newVerifier(envOr("GOCV_REPO", "/repo"), envOr("GOCV_CONTRACTS", "/verif/contracts"))
	if err != nil {
		fmt.Println("error:", err)
		os.Exit(2)
	}
	fmt.Fprintln(os.Stderr, "loaded in", time.Since(t0))
	pat := ""
	if len(os.Args) > 2 {
		pat = os.Args[2]
	}
	switch os.Args[1] {
	case "lemmas":
		v.solver.trace = os.Getenv("GOCV_DEBUG") != ""
		for _, a := range v.th.axioms {
			if a.kind == "lemma" && strings.Contains(a.name, pat) {
				r := v.solver.proveLemma(a)
				fmt.Printf("%-30s goals %d %v %v %v\n", r.name, r.goals, r.failed, r.solver, r.dur.Round(time.Millisecond))
			}
		}
	case "hints":
		// finds the loop invariants of every unit and writes them to hints.json
		hs := map[string]Hint{}
		for _, u := range v.units() {
			delete(v.hints, u.name)
			r := v.verify(u)
			if len(r.failed) > 0 || r.err != "" {
				fmt.Println("not verified:", u.name, r.err)
				continue
			}
			hs[u.name] = Hint{u.choice, r.alive}
			fmt.Println(u.name, len(r.alive), r.dur.Round(time.Millisecond))
		}
		b, _ := json.MarshalIndent(hs, "", " ")
		os.WriteFile(envOr("GOCV_CONTRACTS", "/verif/contracts")+"/hints.json", append(b, '\n'), 0644)
	case "wins":
		v.solver.trace = os.Getenv("GOCV_DEBUG") != ""
		// proves everything and writes down which back end proved each query that took a while
		for _, a := range v.th.axioms {
			if a.kind == "lemma" {
				v.solver.proveLemma(a)
			}
		}
		for _, u := range v.units() {
			t0 := time.Now()
			r := v.verify(u)
			fmt.Println(u.name, len(r.failed), r.err, time.Since(t0).Round(time.Millisecond))
		}
		b, _ := json.MarshalIndent(v.solver.newWins, "", " ")
		os.WriteFile(envOr("GOCV_CONTRACTS", "/verif/contracts")+"/wins.json", append(b, '\n'), 0644)
	case "unit":
		for _, u := range v.units() {
			if !strings.Contains(u.name, pat) {
				continue
			}
			r := v.verify(u)
			fmt.Printf("%-60s obligations %d failed %d loops %d rounds %d killed %d %s  %v\n", u.name, len(r.obls), len(r.failed), r.loops, r.rounds, r.houdini, r.err, r.dur.Round(time.Millisecond))
			for _, f := range r.failed {
				fmt.Printf("    FAILED %s [%s]\n", f.name, f.res.status)
				if os.Getenv("GOCV_DUMP") != "" {
					q := v.solver.build(f.hyps, f.goal, -1, nil, nil)
					fn := os.Getenv("GOCV_DUMP") + "/" + fmt.Sprint(time.Now().UnixNano()) + ".smt2"
					os.WriteFile(fn, []byte("; "+f.name+"\n"+q), 0644)
					fmt.Println("      ", fn)
				}
			}
		}
		fmt.Println("settled by", v.solver.won, "queries", v.solver.by)
	}
}

func envOr(n, d string) string {
	if s := os.Getenv(n); s != "" {
		return s
	}
	return d
}
