package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"slices"
	"sort"
	"strings"
	"time"
)

type Report struct {
	Prop       string             `json:"prop"`
	Repo       string             `json:"repo"`
	Funcs      []*FuncReport      `json:"functions"`
	Obls       int                `json:"obligations"`
	Proved     int                `json:"proved"`
	Failed     int                `json:"failed"`
	Errors     []string           `json:"errors"`
	SolverSecs map[string]float64 `json:"solver_seconds"`
	SolverUns  map[string]int     `json:"solver_unsat"`
	Assume     []string           `json:"assumptions"`
	Axioms     []string           `json:"axioms"`
	InvQ       int                `json:"invariant_queries"`
	Wall       float64            `json:"wall_s"`
}

func main() {
	repo := flag.String("repo", "/repo", "")
	contracts := flag.String("contracts", "/verif/contracts", "")
	prop := flag.String("prop", "", "property id")
	skip := flag.String("skip", "", "comma-separated functions whose contracts are relied on but not verified in this run")
	only := flag.String("only", "", "substring of function/lemma name")
	ms := flag.Int("ms", 15000, "per-obligation time limit")
	invms := flag.Int("invms", 4000, "per-invariant-candidate time limit")
	out := flag.String("o", "", "report file")
	debug := flag.Bool("debug", false, "")
	ssad := flag.String("ssa", "", "print SSA of function")
	envf := flag.String("env", "/opt/vp/env.sh", "")
	budget := flag.Int("budget", 300, "seconds after which undecided obligations are not retried")
	flag.Parse()
	t0 := time.Now()
	withRepoEnv(*envf)
	v, err := NewVerifier(*repo, *contracts, *prop)
	if err != nil {
		fmt.Println("LOAD-ERROR:", err)
		if *out != "" {
			b, _ := json.Marshal(&Report{Prop: *prop, Errors: []string{"load: " + err.Error()}, Wall: time.Since(t0).Seconds()})
			os.WriteFile(*out, b, 0o644)
		}
		os.Exit(3)
	}
	v.debug = *debug
	v.ms = *ms
	v.start = t0
	v.budget = time.Duration(*budget) * time.Second
	v.invMS = *invms
	if *ssad != "" {
		for k, f := range v.byKey {
			if strings.HasSuffix(k, *ssad) {
				f.WriteTo(os.Stdout)
			}
		}
		return
	}
	rep := &Report{Prop: *prop, Repo: *repo}
	as := map[string]bool{}
	add := func(fr *FuncReport) {
		rep.Funcs = append(rep.Funcs, fr)
		n, p := 0, 0
		for _, o := range fr.Obls {
			n++
			if o.Status == "proved" {
				p++
			} else {
				rep.Failed++
				fmt.Printf("FAILED %s %s at %s: %s %s\n", o.Status, o.Name, o.Pos, o.By, o.Reason)
				if *debug && o.Model != "" {
					fmt.Println(trunc(o.Model, 4000))
				}
			}
		}
		rep.Obls += n
		rep.Proved += p
		rep.InvQ += fr.InvQ
		if fr.Err != "" {
			rep.Errors = append(rep.Errors, fr.Func+": "+fr.Err)
			fmt.Printf("ERROR %s: %s\n", fr.Func, fr.Err)
		}
		for _, a := range fr.Assume {
			as[a] = true
		}
		fmt.Printf("%-60s %d/%d proved\n", fr.Func, p, n)
	}
	var keys []string
	for k := range v.specs.Funcs {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, l := range v.specs.Lemmas {
		if *prop != "" && !hasTag(l.Tags, *prop) || !strings.Contains(l.Name, *only) {
			continue
		}
		if l.Axiom {
			rep.Axioms = append(rep.Axioms, l.Name)
			continue
		}
		add(v.verifyLemma(l, *prop))
	}
	for _, k := range keys {
		sp := v.specs.Funcs[k]
		if !sp.Verify || sp.Opts["trusted"] != "" || sp.outside(*prop) || !strings.Contains(k, *only) {
			continue
		}
		if *skip != "" && slices.ContainsFunc(strings.Split(*skip, ","), func(s string) bool { return strings.HasSuffix(k, "."+s) }) {
			as["contract of "+k+" is proved by the thorough check only"] = true
			continue
		}
		if *prop != "" {
			use := hasTag(sp.Tags, *prop)
			for _, c := range sp.Ensures {
				use = use || hasTag(c.Tags, *prop)
			}
			if !use {
				continue
			}
		}
		if !sp.Modular && len(sp.Ensures) == 0 {
			continue
		}
		add(v.verifyFunc(sp, *prop))
	}
	// lemmas used that no property claims by tag are proved here; contracts relied on must be claimed somewhere
	if *only == "" {
		doneL := map[string]bool{}
		for more := true; more; {
			more = false
			for _, l := range v.specs.Lemmas {
				if len(l.Tags) == 0 && v.usedContracts["lemma "+l.Name] && !doneL[l.Name] && *prop != "" {
					doneL[l.Name] = true
					more = true
					if l.Axiom {
						rep.Axioms = append(rep.Axioms, l.Name)
					} else {
						add(v.verifyLemma(l, *prop))
					}
				}
			}
		}
		for _, k := range keys {
			if sp := v.specs.Funcs[k]; v.usedContracts[k] && sp.Verify {
				if sp.Opts["trusted"] != "" || sp.outside(*prop) {
					as["contract of "+k+" is trusted: its body is not verified"] = true
				} else if len(sp.Tags) == 0 {
					rep.Errors = append(rep.Errors, "contract of "+k+" is relied on but claimed by no property")
				} else if *prop != "" && !hasTag(sp.Tags, *prop) {
					as["contract of "+k+" is proved by the check of "+strings.Join(sp.Tags, ", ")] = true
				}
			}
		}
	}
	for k := range as {
		rep.Assume = append(rep.Assume, k)
	}
	sort.Strings(rep.Assume)
	rep.SolverSecs = solverTime
	rep.SolverUns = solverCount
	rep.Wall = time.Since(t0).Seconds()
	fmt.Printf("TOTAL %d/%d proved, %d errors, %.1fs\n", rep.Proved, rep.Obls, len(rep.Errors), rep.Wall)
	if *out != "" {
		b, _ := json.MarshalIndent(rep, "", " ")
		os.WriteFile(*out, b, 0o644)
	}
	if rep.Failed > 0 || len(rep.Errors) > 0 {
		os.Exit(1)
	}
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}
