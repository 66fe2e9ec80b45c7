package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// L02: one global lock order, nothing that may wait under a lock.

func init() {
	register(&checkDef{id: "L02", run: checkL02,
		rule: "lock order graph plus effect analysis under held locks: every acquisition (direct, or by anything a call that is not followed may reach according to class hierarchy analysis) adds an edge from each class of lock held on the path to the class acquired; the graph must be acyclic (a request may notify requests of contexts below it, parent to child); with any lock held no blocking channel operation, no wait for another condition, no sleep, no network or file operation and no call of user code may be executed, except that the receiver and the interceptors of a request are notified under that request's own lock",
		assum: []string{
			"locks of one class are ordered by ownership: a request's lock is taken under another request's lock only from the parent down to requests of its contexts; a user callback that answers an ancestor of the request it is notified about is outside of the property",
			"accessors Timer, RemoteAddr, LocalAddr, String and Error, and the closing of a socket or of one direction of it, do not block",
			"a receiver of a response does not block",
		}})
}

type lockEdge struct {
	from, to string
	pos      token.Pos
	fn, via  string
	st       *State
}

func lockClass(a *Term) string {
	switch a.Op {
	case TField:
		return fieldOwner[a] + "." + a.Aux
	case TGlobal:
		return a.Aux
	}
	return "?" + a.Aux
}

// staticLockClass: class of the lock an SSA lock call works on.
func staticLockClass(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.FieldAddr:
		k, _ := keyOfFA(v)
		return k.owner + "." + k.name
	case *ssa.Global:
		return v.String()
	}
	return ""
}

func mayWait(in ssa.Instruction) bool {
	switch v := in.(type) {
	case *ssa.Send:
		return true
	case *ssa.Select:
		return v.Blocking
	case *ssa.UnOp:
		return v.Op == token.ARROW
	case ssa.CallInstruction:
		if isLockInstr(in) {
			return true
		}
		if _, ok := v.Common().Value.(*ssa.Builtin); ok {
			return false
		}
		if f := v.Common().StaticCallee(); f != nil {
			switch fnPkgPath(f) {
			case "net", "io", "os", "bufio", "time", "sync":
				return true
			}
			return false
		}
		if v.Common().IsInvoke() {
			p := v.Common().Method.Pkg()
			return p == nil || p.Path() != "reflect"
		}
		return true
	}
	return false
}

func checkL02(P *Program, r *Report) {
	cg := P.CG()
	// transitive acquires per function
	acq := map[*ssa.Function]map[string]bool{}
	direct := func(fn *ssa.Function) map[string]bool {
		m := map[string]bool{}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok || !isLockInstr(in) {
					continue
				}
				f := c.Common().StaticCallee()
				if f.Name() == "Lock" || f.Name() == "RLock" {
					if k := staticLockClass(c.Common().Args[0]); k != "" {
						m[k] = true
					}
				}
			}
		}
		return m
	}
	for _, fn := range P.Funcs {
		acq[fn] = direct(fn)
	}
	for ch := true; ch; {
		ch = false
		for _, fn := range P.Funcs {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					if _, ok := in.(*ssa.Go); ok {
						continue
					}
					fs, _ := cg.Callees(c)
					for _, f := range fs {
						for k := range acq[f] {
							if !acq[fn][k] {
								acq[fn][k] = true
								ch = true
							}
						}
					}
				}
			}
		}
	}
	m := &Monitor{Name: "L02", NoLockCk: true, Unroll: -1, RootSumm: true}
	m.Relevant = func(fn *ssa.Function) bool { return cg.Reaches("L02", fn, mayWait) }
	edges := map[string]*lockEdge{}
	edge := func(x *Exec, st *State, fr *Frame, pos token.Pos, to, via string) {
		for _, l := range st.held {
			k := lockClass(l.Addr) + " -> " + to
			if edges[k] == nil {
				edges[k] = &lockEdge{lockClass(l.Addr), to, pos, fnName(fr.fn), via, st.clone()}
			}
		}
	}
	m.Lock = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, op string, addr *Term) {
		if op == "lock" {
			edge(x, st, fr, in.Pos(), lockClass(addr), "")
		}
	}
	blocked := map[token.Pos]bool{}
	only := func(st *State, cls string) bool {
		for _, l := range st.held {
			if lockClass(l.Addr) != cls {
				return false
			}
		}
		return true
	}
	reqLock := P.lockOf("", "Request")
	heldNames := func(st *State) string {
		var s []string
		for _, l := range st.held {
			s = append(s, l.Addr.String())
		}
		return strings.Join(s, ", ")
	}
	m.PreBlock = func(x *Exec, st *State, fr *Frame, in ssa.Instruction) {
		if len(st.held) == 0 {
			r.OK(in.Pos(), "blocking channel operation without lock")
			return
		}
		if s, ok := in.(*ssa.Send); ok {
			ch := x.val(fr, st, s.Chan)
			if c := st.vals[fmt.Sprint("chancap:", ch.ID)]; c != nil && c != num(0) {
				r.OK(in.Pos(), "first send to a buffered channel made on this path")
				return
			}
		}
		r.Add(in.Pos(), "blocks under lock", fnName(fr.fn), st, "a channel operation that may block is executed while %s is held", heldNames(st))
	}
	m.Call = func(x *Exec, st *State, fr *Frame, ci *CallInfo) ([]Outcome, bool) {
		if len(st.held) == 0 {
			return nil, false
		}
		what := ""
		switch {
		case ci.Fn != nil && x.P.inModule(ci.Fn):
		case ci.Fn != nil:
			switch p := fnPkgPath(ci.Fn); {
			case strings.HasPrefix(ci.Fn.Name(), "Close"):
			case p == "time" && (ci.Fn.Name() == "Sleep"), p == "net", p == "io", p == "os", p == "bufio":
				what = ci.Fn.String()
			case p == "sync" && ci.Fn.Name() == "Wait":
				l := x.condLock(st, ci.Args[0])
				for _, h := range st.held {
					if recvName(ci.Fn) != "Cond" || h.Addr != l {
						what = "waiting in " + ci.Fn.String()
					}
				}
			}
		case ci.Method != nil:
			what = ci.Name()
			if p := ci.Method.Pkg(); p != nil && p.Path() == "reflect" {
				what = ""
			}
			switch ci.Method.Name() {
			case "Close", "CloseRead", "CloseWrite", "Timer", "RemoteAddr", "LocalAddr", "Error", "String":
				what = ""
			case "Respond":
				if only(st, reqLock) {
					what = ""
				}
			}
			if !token.IsExported(ci.Method.Name()) {
				what = ""
			}
		case ci.FnTerm != nil:
			what = "function value " + ci.FnTerm.String()
		}
		if what != "" {
			r.Add(ci.Instr.Pos(), "calls out under lock", fnName(fr.fn), st, "%s is called while %s is held", what, heldNames(st))
		} else if !blocked[ci.Instr.Pos()] {
			blocked[ci.Instr.Pos()] = true
			r.OK(ci.Instr.Pos(), "call under "+heldNames(st))
		}
		return nil, false
	}
	m.Unknown = func(x *Exec, st *State, fr *Frame, ci *CallInfo) {
		c, ok := ci.Instr.(ssa.CallInstruction)
		if !ok || len(st.held) == 0 {
			return
		}
		fs, _ := cg.Callees(c)
		for _, f := range fs {
			for k := range acq[f] {
				edge(x, st, fr, ci.Instr.Pos(), k, fnName(f))
			}
		}
	}
	runRoots(P, r, m, P.Roots(P.Lib()...))
	succ := map[string][]string{}
	var ks []string
	for k, e := range edges {
		ks = append(ks, k)
		if !(e.from == e.to && e.from == reqLock) {
			succ[e.from] = append(succ[e.from], e.to)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		e := edges[k]
		// does e.to reach e.from?
		seen := map[string]bool{}
		var back func(c string) bool
		back = func(c string) bool {
			if c == e.from {
				return true
			}
			if seen[c] {
				return false
			}
			seen[c] = true
			for _, n := range succ[c] {
				if back(n) {
					return true
				}
			}
			return false
		}
		if !(e.from == e.to && e.from == reqLock) && back(e.to) {
			via := ""
			if e.via != "" {
				via = " by " + e.via
			}
			r.Add(e.pos, "lock order cycle", e.fn, e.st, "%s is taken%s while %s is held, and elsewhere in the opposite order", e.to, via, e.from)
			continue
		}
		r.OK(e.pos, k)
	}
	r.Floor("lock order edges", len(edges), 5)
}

// lockOf: class of the mutex of a type.
func (P *Program) lockOf(pkg, typ string) string {
	t := P.Type(pkg, typ)
	if t == nil {
		return "?"
	}
	s, ok := under(t).(*types.Struct)
	if !ok {
		return "?"
	}
	i := mutexField(s)
	if i < 0 {
		return "?"
	}
	return types.TypeString(t, nil) + "." + s.Field(i).Name()
}
