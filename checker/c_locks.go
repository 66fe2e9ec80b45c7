package main

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&checkDef{id: "L01", run: checkL01,
		rule: "path-sensitive lock typestate over every entry point of the library: per path the set of held locks, identified by the abstract address of the lock; an acquisition of a held lock, a release of a lock that is not held, a wait on a condition whose lock is not held and a path that returns or panics with a lock still held are violations",
		assum: []string{
			"functions are entered without any lock of the library held by the calling goroutine, except locks that callers inside the module hold when they call them (unexported functions are analysed in the context of each caller)",
			"user callbacks and interface methods called by the library do not release locks of the library they did not take",
		}})
}

func checkL01(P *Program, r *Report) {
	m := &Monitor{Name: "L01", Unroll: -1, RootSumm: true}
	locks := map[token.Pos]bool{}
	m.MayPanic = func(ci *CallInfo) bool { return ci.FnTerm != nil || ci.Method != nil }
	m.Lock = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, op string, addr *Term) {
		if op == "lock" || op == "unlock" {
			locks[in.Pos()] = true
			r.OK(in.Pos(), op+" "+addr.String())
		}
	}
	m.End = func(x *Exec, o *Outcome) {
		for _, l := range o.st.held {
			how := "returns"
			if o.kind == OutPanic {
				if _, ok := o.st.vals["$userpanic"]; ok {
					continue
				}
				how = "panics"
			}
			x.rep.Add(l.Pos, "lock leak", fnName(x.root), o.st, "%s taken here is still held when %s %s at %s", l.Addr, fnName(x.root), how, P.pos(o.pos))
		}
	}
	m.MayPanic = nil
	m.Relevant = func(fn *ssa.Function) bool { return P.CG().Reaches("lock", fn, isLockInstr) }
	runRoots(P, r, m, P.Roots(P.Lib()...))
	r.Floor("lock operations", len(locks), 20)
}

func isLockInstr(in ssa.Instruction) bool {
	c, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	f := c.Common().StaticCallee()
	if f == nil {
		return false
	}
	if fnPkgPath(f) != "sync" {
		return false
	}
	switch recvName(f) {
	case "Mutex", "RWMutex", "Cond":
		return true
	}
	return false
}
