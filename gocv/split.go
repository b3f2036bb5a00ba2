package main

// Case splitting over merged control-flow paths: a goal that is too hard for the solvers in one piece is
// proved separately for each of the paths that were merged.

import (
	"fmt"
	"os"
	"strings"
	"sync"
	"time"
)

type splitCase struct {
	facts []*Term
	goal  *Term
}

const maxSplit = 96

// splitCases returns the cases goal falls into (nil: it has no merged paths). The cases are exhaustive:
// goal is Implies(pc, ...) and pc includes a symbol defined as the disjunction of the cases.
func (v *Verifier) splitCases(facts []*Term, goal *Term) []splitCase {
	defs := map[*Term][]*Term{}
	for _, f := range facts {
		if f.op != "=" {
			continue
		}
		a, b := f.args[0], f.args[1]
		if a.op != "sym" {
			a, b = b, a
		}
		if a.op == "sym" && a.sort == SBool && strings.HasPrefix(a.name, "R!") && b.op == "or" {
			defs[a] = b.args
		}
	}
	if len(defs) == 0 || goal.op != "=>" && goal.op != "or" {
		return nil
	}
	var out [][]*Term
	var rec func(lits []*Term, todo []*Term) bool
	rec = func(lits, todo []*Term) bool {
		for i, t := range todo {
			ds := defs[t]
			if len(ds) < 2 {
				continue
			}
			rest := append(append([]*Term{}, todo[:i]...), todo[i+1:]...)
			for _, d := range ds {
				c := conj(d)
				if !rec(append(append(append([]*Term{}, lits...), t), c...), append(append([]*Term{}, rest...), c...)) {
					return false
				}
			}
			return true
		}
		out = append(out, lits)
		return len(out) <= maxSplit
	}
	var pc []*Term
	if goal.op == "=>" {
		pc = conj(goal.args[0])
	} else {
		for _, a := range goal.args {
			if a.op == "not" {
				pc = append(pc, conj(a.args[0])...)
			}
		}
	}
	if !rec(nil, pc) || len(out) < 2 {
		return nil
	}
	var cs []splitCase
	for _, lits := range out {
		m := map[*Term]*Term{}
		clash := false
		for _, l := range lits {
			a, val := l, TTrue
			if l.op == "not" {
				a, val = l.args[0], TFalse
			}
			if w, ok := m[a]; ok && w != val {
				clash = true
			}
			m[a] = val
		}
		if clash {
			continue
		}
		sc := splitCase{}
		cache := map[*Term]*Term{}
		for _, f := range facts {
			if g := substC(f, m, cache); g != TTrue {
				sc.facts = append(sc.facts, g)
			}
		}
		for _, l := range lits {
			if l.op != "sym" {
				sc.facts = append(sc.facts, l)
			}
		}
		sc.goal = substC(goal, m, cache)
		cs = append(cs, sc)
	}
	return cs
}

// splitBodies: one query for each case. Terms are built here, so only one thread may call it.
func (v *Verifier) splitBodies(facts []*Term, goal *Term) []string {
	var bodies []string
	for _, c := range v.splitCases(facts, goal) {
		if c.goal == TTrue {
			continue
		}
		bodies = append(bodies, Script(v.query(c.facts, c.goal), ""))
	}
	return bodies
}

// proveAll: whether every query is unsatisfiable.
func proveAll(bodies []string, ms int, tick func(SolveResult)) bool {
	var mu sync.Mutex
	ok := true
	var wg sync.WaitGroup
	sem := make(chan struct{}, 6)
	for _, b := range bodies {
		wg.Add(1)
		go func(b string) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			mu.Lock()
			on := ok
			mu.Unlock()
			if !on {
				return
			}
			r := SolveText(b, ms, []int{0, 1, 2}, false)
			mu.Lock()
			defer mu.Unlock()
			if tick != nil {
				tick(r)
			}
			if r.Status != "unsat" {
				ok = false
				if d := os.Getenv("GOCV_SPLITDUMP"); d != "" {
					os.WriteFile(fmt.Sprintf("%s/%d-%s.smt2", d, time.Now().UnixMilli()%10000000, r.Status), []byte(b), 0o644)
				}
			}
		}(b)
	}
	wg.Wait()
	return ok
}
