package main

import (
	"fmt"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func newExec(P *Program, r *Report, m *Monitor) *Exec {
	return &Exec{P: P, mon: m, rep: r, maxSteps: 400000, maxDepth: 24,
		mods: map[*ssa.BasicBlock]*modset{}, disproved: map[string]bool{}, loopsOf: map[*ssa.Function]*loopInfo{}, Stats: r.Counts}
}

// runRoots analyses every root with its own copy of the summaries.
func runRoots(P *Program, r *Report, m *Monitor, roots []*ssa.Function) {
	for _, fn := range roots {
		if f := os.Getenv("VERIF_ROOT"); f != "" && !strings.Contains(fnName(fn), f) {
			continue
		}
		t0 := time.Now()
		x := newExec(P, r, m)
		x.RunRoot(fn, nil)
		if os.Getenv("VERIF_DEBUG") != "" {
			fmt.Fprintf(os.Stderr, "%-60s %6d steps %v\n", fnName(fn), x.steps, time.Since(t0).Round(time.Millisecond))
		}
	}
}

func relName(P *Program, fn *ssa.Function) string {
	return strings.ReplaceAll(fnName(fn), P.Mod, "iproto")
}
