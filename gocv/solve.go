package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"
)

type SolveResult struct {
	Status string // unsat sat unknown
	By     string
	Secs   float64
	Model  string
	Reason string
	Tag    string
}

var solverTime = map[string]float64{}
var solverCount = map[string]int{}
var solverMu sync.Mutex
var dumpDir = os.Getenv("GOCV_DUMP")

type backend struct {
	name string
	argv func(ms int) []string
	pre  string
}

var backends = []backend{
	{"z3-5.3", func(ms int) []string { return []string{"z3-new", "-in", fmt.Sprintf("-t:%d", ms)} },
		"(set-option :produce-models true)\n(set-option :smt.random_seed 0)\n"},
	{"cvc5-1.1.2", func(ms int) []string {
		return []string{"cvc5", "--lang=smt2", "--strings-exp", "--arrays-exp", fmt.Sprintf("--tlimit=%d", ms), "--produce-models"}
	}, "(set-logic ALL)\n"},
	{"z3-4.8", func(ms int) []string { return []string{"z3", "-in", fmt.Sprintf("-t:%d", ms)} },
		"(set-option :produce-models true)\n"},
	{"z3-5.3", func(ms int) []string { return []string{"z3-new", "-in", fmt.Sprintf("-t:%d", ms)} },
		"(set-option :smt.random_seed 7)\n"},
	{"z3-4.8", func(ms int) []string { return []string{"z3", "-in", fmt.Sprintf("-t:%d", ms)} },
		"(set-option :smt.random_seed 11)\n"},
}

var solveSem = make(chan struct{}, 8)
var dumpN int

func runBackend(ctx context.Context, b backend, body string, ms int, model bool) SolveResult {
	solveSem <- struct{}{}
	defer func() { <-solveSem }()
	if ctx.Err() != nil {
		return SolveResult{Status: "unknown", By: b.name, Reason: "cancelled"}
	}
	t0 := time.Now()
	argv := b.argv(ms)
	cctx, cancel := context.WithTimeout(ctx, time.Duration(ms)*time.Millisecond+1500*time.Millisecond)
	defer cancel()
	cmd := exec.CommandContext(cctx, argv[0], argv[1:]...)
	in := b.pre + body + "(check-sat)\n"
	if model {
		in += "(get-model)\n"
	}
	cmd.Stdin = strings.NewReader(in)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	_ = cmd.Run()
	secs := time.Since(t0).Seconds()
	text := out.String()
	for strings.HasPrefix(text, "WARNING:") {
		_, text, _ = strings.Cut(text, "\n")
	}
	first := text
	if i := strings.IndexByte(text, '\n'); i >= 0 {
		first = text[:i]
	}
	first = strings.TrimSpace(first)
	r := SolveResult{By: b.name, Secs: secs, Status: "unknown"}
	switch first {
	case "unsat":
		r.Status = "unsat"
	case "sat":
		r.Status = "sat"
		r.Model = strings.TrimPrefix(text, "sat\n")
	default:
		r.Reason = first
		if len(r.Reason) > 300 {
			r.Reason = r.Reason[:300]
		}
		if model && first == "unknown" {
			r.Model = strings.TrimPrefix(text, "unknown\n")
		}
		if r.Reason == "" {
			r.Reason = "timeout"
		}
	}
	return r
}

// Solve checks satisfiability of the conjunction, racing the back ends.
func Solve(fs []*Term, ms int, which []int, model bool) SolveResult {
	body := Script(fs, "")
	return SolveText(body, ms, which, model)
}

func SolveText(body string, ms int, which []int, model bool) SolveResult {
	if dumpDir != "" {
		solverMu.Lock()
		dumpN++
		n := dumpN
		solverMu.Unlock()
		os.WriteFile(fmt.Sprintf("%s/q%04d.smt2", dumpDir, n), []byte("(set-logic ALL)\n"+body+"(check-sat)\n"), 0o644)
		body = fmt.Sprintf("; q%04d\n", n) + body
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ch := make(chan SolveResult, len(which))
	for _, w := range which {
		w := w
		go func() { ch <- runBackend(ctx, backends[w], body, ms, model) }()
	}
	var last SolveResult
	if dumpDir != "" {
		last.Tag = body[:8]
	}
	last.Status = "unknown"
	var reasons []string
	for range which {
		r := <-ch
		solverMu.Lock()
		solverTime[r.By] += r.Secs
		if r.Status == "unsat" {
			solverCount[r.By]++
		}
		solverMu.Unlock()
		if r.Status != "unknown" {
			return r
		}
		reasons = append(reasons, r.By+": "+r.Reason)
		if r.Model != "" {
			last.Model = r.Model
		}
		last.By = r.By
		if r.Secs > last.Secs {
			last.Secs = r.Secs
		}
	}
	last.Reason = strings.Join(reasons, "; ")
	return last
}
