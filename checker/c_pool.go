package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// R03 and R04: slots of a worker pool, and what happens when a handler panics.

func init() {
	register(&checkDef{id: "R03", run: func(P *Program, r *Report) { checkPool(P, r, "R03") },
		rule:  "token accounting of the slot channel of a worker pool, path by path: the constructor makes the channel with room for exactly as many tokens as it puts in, one per loop turn from 0 to that number, and the field is never replaced; the loop takes a token before it starts a worker, takes no second one while it holds one, and on every path on which it holds one it either starts exactly one worker or puts the token back before it goes round or leaves; a worker puts exactly one token back on every path, including those on which the handler panics, and only after the handler is finished",
		assum: []string{"the number of workers is not negative"}})
	register(&checkDef{id: "R04", run: func(P *Program, r *Report) { checkPool(P, r, "R04") },
		rule:  "exception-flow analysis of the worker goroutine: the handler call, and the encoding of its result, may panic; no path lets the panic leave the worker; on every path on which it panics the request is afterwards answered with the internal-error code, unless it was found to be detached (answered) after the panic; on every path on which the handler returns the request is answered; on every path the context of the request is completed after the handler is finished and the slot is given back",
		assum: []string{"a handler leaves only by returning or by panicking"}})
}

var poolRule = map[string]string{
	"slot taken twice": "R03", "slot given back twice": "R03", "slot leaked": "R03", "worker without a slot": "R03", "handler after its slot": "R03", "wrong number of slots": "R03", "slots replaced": "R03",
	"panic leaves the worker": "R04", "request unanswered": "R04", "context not completed": "R04",
}

func checkPool(P *Program, r *Report, prop string) {
	a := newAnsM(P, r, prop)
	pool, cx := P.Type("", "ParallelService"), P.Type("", "Context")
	if a == nil {
		return
	}
	if pool == nil || cx == nil {
		r.Add(0, "undecided", "", nil, "types ParallelService or Context not found")
		return
	}
	key := types.TypeString(pool, nil)
	isTok := func(t types.Type) bool {
		s, ok := t.(*types.Struct)
		return ok && s.NumFields() == 0
	}
	sema := -1
	ps := under(pool).(*types.Struct)
	for i := 0; i < ps.NumFields(); i++ {
		if c, ok := under(ps.Field(i).Type()).(*types.Chan); ok && isTok(c.Elem()) {
			sema = i
		}
	}
	internal, okc := P.Const("", "RcInternalError")
	if sema < 0 || !okc {
		r.Add(0, "undecided", "", nil, "the slot channel of ParallelService or the code RcInternalError was not found")
		return
	}
	add1 := func(pos token.Pos, rule string, fr *Frame, st *State, f string, args ...interface{}) {
		if poolRule[rule] == prop {
			fn := ""
			if fr != nil {
				fn = fnName(fr.fn)
			}
			r.Add(pos, rule, fn, st, f, args...)
		}
	}
	ok := func(p string, pos token.Pos, what string) {
		if p == prop {
			r.OK(pos, what)
		}
	}
	isHandler := func(sig *types.Signature) bool {
		if sig == nil || sig.Recv() != nil || sig.Params().Len() != 2 || sig.Results().Len() != 2 {
			return false
		}
		p, ok := sig.Params().At(1).Type().(*types.Pointer)
		return ok && types.Identical(p.Elem(), a.req)
	}
	handlerCall := func(c *ssa.CallCommon) bool {
		if c.IsInvoke() || c.StaticCallee() != nil {
			return false
		}
		s, _ := under(c.Value.Type()).(*types.Signature)
		return isHandler(s)
	}
	// the loop itself takes slots and is no worker
	takes := func(fn *ssa.Function) bool {
		return P.CG().Reaches("takes", fn, func(in ssa.Instruction) bool {
			switch v := in.(type) {
			case *ssa.UnOp:
				c, ok := under(v.X.Type()).(*types.Chan)
				return ok && v.Op == token.ARROW && isTok(c.Elem())
			case *ssa.Select:
				for _, s := range v.States {
					if c, ok := under(s.Chan.Type()).(*types.Chan); ok && s.Dir == types.RecvOnly && isTok(c.Elem()) {
						return true
					}
				}
			}
			return false
		})
	}
	runsHandler := func(fn *ssa.Function) bool {
		return fn != nil && !takes(fn) && P.CG().Reaches("handler", fn, func(in ssa.Instruction) bool {
			c, ok := in.(ssa.CallInstruction)
			return ok && handlerCall(c.Common())
		})
	}
	sites := map[string]int{}
	workers := map[*ssa.Function]bool{}
	isLoop := func(x *Exec) bool { return isMethodOf(x.root, pool) && x.root.Name() == "Loop" }
	putsToken := func(in ssa.Instruction) bool {
		switch v := in.(type) {
		case *ssa.Send:
			c, ok := under(v.Chan.Type()).(*types.Chan)
			return ok && isTok(c.Elem())
		case *ssa.Select:
			for _, s := range v.States {
				if c, ok := under(s.Chan.Type()).(*types.Chan); ok && s.Dir == types.SendOnly && isTok(c.Elem()) {
					return true
				}
			}
		}
		return false
	}
	fills := func(body map[*ssa.BasicBlock]bool) bool {
		for b := range body {
			for _, in := range b.Instrs {
				if putsToken(in) {
					return true
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					if f := c.Common().StaticCallee(); f != nil && P.CG().Reaches("puts", f, putsToken) {
						return true
					}
				}
			}
		}
		return false
	}
	mon := &Monitor{Name: "pool", Unroll: -1, NoLockCk: true, JoinAt: 200, JoinBlk: 200}
	mon.Relevant = func(fn *ssa.Function) bool {
		return !isMethodOf(fn, a.req) && P.CG().Reaches("pool", fn, func(in ssa.Instruction) bool {
			switch v := in.(type) {
			case *ssa.FieldAddr:
				k, _ := keyOfFA(v)
				return k.owner == key && v.Field == sema
			case ssa.CallInstruction:
				f := v.Common().StaticCallee()
				if _, isGo := v.(*ssa.Go); isGo {
					if mc, ok := v.Common().Value.(*ssa.MakeClosure); ok {
						f, _ = mc.Fn.(*ssa.Function)
					}
					return runsHandler(f)
				}
				return handlerCall(v.Common()) || f != nil && f.Name() == "Done" && isMethodOf(f, cx)
			}
			return false
		})
	}
	mon.NoInline = func(fn *ssa.Function) bool { return isMethodOf(fn, cx) || isMethodOf(fn, a.req) }
	mon.MayPanic = func(ci *CallInfo) bool {
		return ci.Fn == nil && ci.Common != nil && handlerCall(ci.Common)
	}
	mon.Init = func(x *Exec, st *State, args []*Term) {
		if workers[x.root] {
			st.setG("held", nil, "1")
		}
	}
	// dead: the request was found to be detached after the handler
	mon.Loaded = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, addr, val *Term) {
		if in != nil && a.fld(addr, a.bmKey, a.iBReq) != nil {
			st.vals["reqseen"] = val
			st.setG("seen", nil, st.g("ran", nil)+"!")
		}
	}
	mon.Volatile = func(x *Exec, st *State, addr *Term) bool { return a.fld(addr, a.bmKey, a.iBReq) != nil }
	mon.Store = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, addr, old, val *Term) {
		if in == nil || addr.Op != TField || fieldOwner[addr] != key || addr.N != sema {
			return
		}
		if !st.private(addr.Args[0]) {
			add1(in.Pos(), "slots replaced", fr, st, "the slot channel of a pool is replaced while the pool may be in use")
			return
		}
		st.setG("made", nil, "1")
		st.setG("madeas", val, "1") // keeps pools apart where paths meet
		st.vals["made"] = val
		st.vals["madecap"] = st.vals[fmt.Sprint("chancap:", val.ID)]
	}
	mon.Branch = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, cond *Term, taken bool) {
		if v := st.vals["reqseen"]; v != nil && st.isNilFact(v) == 1 {
			st.setG("gone", nil, st.g("seen", nil))
		}
		// the filling loop is left
		h := in.Block()
		la := fr.loops[h]
		if la == nil || st.g("made", nil) == "" {
			return
		}
		body := x.loopInfo(fr.fn).body[h]
		if !fills(body) {
			return
		}
		succ := h.Succs[0]
		if !taken {
			succ = h.Succs[1]
		}
		if body[succ] {
			return
		}
		c := st.vals["madecap"]
		if c == nil {
			return
		}
		for _, p := range phisOf(h) {
			v := fr.env[p]
			init, step, okp := loopStep(p, body)
			if !okp || v == nil || !isIntType(p.Type()) {
				continue
			}
			from := x.val(fr, st, init)
			n := sub(v, from)
			if step < 0 {
				n = sub(from, v)
			}
			if (step == 1 || step == -1) && st.prove(sub(n, c)) && st.prove(sub(c, n)) {
				st.setG("count", nil, "ok")
			}
		}
		if ifi, ok := in.(*ssa.If); ok && comparesLen(ifi.Cond) {
			st.setG("count", nil, "ok")
		}
	}
	mon.Chan = func(x *Exec, st *State, fr *Frame, ev *ChanEv) {
		if ev.Kind == "default" {
			return
		}
		el := chanElem(ev)
		if ev.Sel != nil && ev.Ch != nil && ev.Ch.Typ != nil {
			if c, ok := under(ev.Ch.Typ).(*types.Chan); ok {
				el = c.Elem()
			}
		}
		if el == nil || !isTok(el) {
			return
		}
		pos := ev.Instr.Pos()
		switch {
		case ev.Kind == "recv" && isLoop(x):
			sites["slots taken"]++
			if st.g("held", nil) != "" {
				add1(pos, "slot taken twice", fr, st, "a slot is taken while the loop already holds one")
			}
			st.setG("held", nil, "1")
		case ev.Kind == "recv":
			add1(pos, "slot leaked", fr, st, "a slot is taken outside of the loop of the pool")
		case ev.Kind == "send" && (isLoop(x) || workers[x.root]):
			sites["slots given back"]++
			if st.g("held", nil) == "" {
				add1(pos, "slot given back twice", fr, st, "a slot is given back that is not held: one more handler than configured may run")
			}
			st.setG("held", nil, "")
			if workers[x.root] {
				st.setG("freed", nil, "1")
			}
		case ev.Kind == "send":
			if st.g("made", nil) != "" || ev.Ch != nil && x.privateChan(st, ev.Ch, pool, sema) {
				if st.g("turn", nil) != "" {
					add1(pos, "wrong number of slots", fr, st, "more than one slot is put in per turn")
				}
				st.setG("turn", nil, "1")
				sites["slots made"]++
			} else {
				add1(pos, "slot given back twice", fr, st, "a slot is given back outside of the loop of the pool and its workers")
			}
		}
	}
	mon.BackEdge = func(x *Exec, st *State, fr *Frame, h *ssa.BasicBlock) {
		if isLoop(x) && st.g("held", nil) != "" {
			add1(h.Instrs[0].Pos(), "slot leaked", fr, st, "the loop goes round with a slot that is neither given to a worker nor put back")
			st.setG("held", nil, "")
		}
		if st.g("made", nil) != "" && st.g("turn", nil) == "" && fills(x.loopInfo(fr.fn).body[h]) {
			add1(h.Instrs[0].Pos(), "wrong number of slots", fr, st, "a turn of the filling loop may put no slot in")
		}
		st.setG("turn", nil, "")
	}
	mon.Go = func(x *Exec, st *State, fr *Frame, ci *CallInfo) {
		if !runsHandler(ci.Fn) {
			return
		}
		sites["workers started"]++
		if isLoop(x) {
			workers[ci.Fn] = true
			if st.g("held", nil) == "" {
				add1(ci.Instr.Pos(), "worker without a slot", fr, st, "a worker is started without a slot: more handlers than configured may run")
			} else {
				ok("R03", ci.Instr.Pos(), "worker started with the slot that was taken")
			}
			st.setG("held", nil, "")
		} else if isMethodOf(x.root, pool) {
			add1(ci.Instr.Pos(), "worker without a slot", fr, st, "a worker is started outside of the loop of the pool")
		}
	}
	mon.Call = func(x *Exec, st *State, fr *Frame, ci *CallInfo) ([]Outcome, bool) {
		if ci.Go || ci.Fn == nil {
			return nil, false
		}
		if isMethodOf(ci.Fn, cx) && ci.Fn.Name() == "Done" {
			st.setG("done", nil, st.g("ran", nil)+"!")
			return one(st), true
		}
		if isMethodOf(ci.Fn, a.req) && len(ci.Args) > 1 {
			switch ci.Fn.Name() {
			case "Respond":
				p := st.clone()
				p.note(ci.Instr.Pos(), "encoding the result panics")
				st.setG("ans", nil, st.g("ran", nil)+"!")
				return []Outcome{{st: st}, {st: p, kind: OutPanic, pos: ci.Instr.Pos()}}, true
			case "RespondBytes":
				st.setG("ans", nil, st.g("ran", nil)+"!")
			case "RespondFail":
				if n, ok := ci.Args[1].isInt(); ok && n == internal {
					st.setG("ans", nil, st.g("ran", nil)+"!")
					st.setG("failed", nil, st.g("ran", nil)+"!")
				}
			}
		}
		return nil, false
	}
	mon.Unknown = func(x *Exec, st *State, fr *Frame, ci *CallInfo) {
		if ci.Fn == nil && ci.Common != nil && handlerCall(ci.Common) {
			sites["handler calls"]++
			if !workers[x.root] {
				return
			}
			if st.g("ran", nil) != "" {
				add1(ci.Instr.Pos(), "handler after its slot", fr, st, "the handler is called twice for one request")
			}
			st.setG("ran", nil, "1")
			if st.g("freed", nil) != "" {
				add1(ci.Instr.Pos(), "handler after its slot", fr, st, "the handler runs after its slot was given back: more handlers than configured may run")
			} else {
				ok("R03", ci.Instr.Pos(), "handler runs while the slot is held")
			}
		}
	}
	mon.End = func(x *Exec, o *Outcome) {
		st, name := o.st, fnName(x.root)
		fr := &Frame{fn: x.root}
		if isLoop(x) && o.kind == OutReturn {
			if st.g("held", nil) != "" {
				add1(o.pos, "slot leaked", fr, st, "the loop leaves with a slot that it took and did not give back")
			}
		}
		if !workers[x.root] {
			if st.g("made", nil) != "" && o.kind == OutReturn {
				sites["pools made"]++
				switch {
				case st.vals["madecap"] == nil:
					add1(o.pos, "wrong number of slots", fr, st, "the slot channel has no room for slots")
				case st.g("count", nil) == "":
					add1(o.pos, "wrong number of slots", fr, st, "the pool is not filled with as many slots as its channel has room for")
				default:
					ok("R03", o.pos, "as many slots put in as the channel has room for")
				}
			}
			return
		}
		sites["worker ends"]++
		_ = name
		if o.kind == OutPanic {
			add1(o.pos, "panic leaves the worker", fr, st, "a panic of the handler leaves the worker goroutine and ends the program")
			return
		}
		if st.g("held", nil) != "" {
			add1(o.pos, "slot leaked", fr, st, "a worker ends without having given its slot back")
			if prop == "R04" {
				r.Add(o.pos, "slot not freed", fr.fn.String(), st, "a worker ends without having given its slot back")
			}
		} else {
			ok("R03", o.pos, "worker ends with its slot given back once")
		}
		ran := st.g("ran", nil)
		after := ran + "!"
		if st.g("done", nil) != after {
			add1(o.pos, "context not completed", fr, st, "a worker ends without having completed the context of its request")
		} else {
			ok("R04", o.pos, "context completed")
		}
		switch {
		case ran == "":
			if st.g("gone", nil) == "" && st.g("ans", nil) == "" {
				add1(o.pos, "request unanswered", fr, st, "a worker ends without running the handler although its request was not found to be answered")
			}
		case st.g("ans", nil) == after || st.g("failed", nil) == after || st.g("gone", nil) == after:
			ok("R04", o.pos, "request answered")
		default:
			add1(o.pos, "request unanswered", fr, st, "a worker ends although its request may be unanswered (a handler that panics must get it answered with the internal-error code)")
		}
	}
	var roots, rest []*ssa.Function
	for _, fn := range P.Roots("") {
		if !mon.Relevant(fn) {
			continue
		}
		if isMethodOf(fn, pool) && fn.Name() == "Loop" {
			roots = append([]*ssa.Function{fn}, roots...)
		} else {
			rest = append(rest, fn)
		}
	}
	runRoots(P, r, mon, roots)
	runRoots(P, r, mon, rest)
	for k, v := range sites {
		r.Counts["events: "+k] = v
	}
	r.Floor("slots taken", sites["slots taken"], 1)
	r.Floor("workers started", sites["workers started"], 1)
	r.Floor("worker ends", sites["worker ends"], 2)
	r.Floor("handler calls", sites["handler calls"], 1)
	if prop == "R03" {
		r.Floor("pools made", sites["pools made"], 1)
		r.Floor("slots given back", sites["slots given back"], 2)
	}
}

// loopStep: a loop variable's initial value and step.
func loopStep(p *ssa.Phi, body map[*ssa.BasicBlock]bool) (init ssa.Value, step int64, ok bool) {
	for i, e := range p.Edges {
		if !body[p.Block().Preds[i]] {
			if init != nil && init != e {
				return nil, 0, false
			}
			init = e
			continue
		}
		b, isBin := e.(*ssa.BinOp)
		if !isBin || b.X != ssa.Value(p) {
			return nil, 0, false
		}
		c, isC := b.Y.(*ssa.Const)
		if !isC || c.Value == nil {
			return nil, 0, false
		}
		s := c.Int64()
		switch b.Op {
		case token.ADD:
		case token.SUB:
			s = -s
		default:
			return nil, 0, false
		}
		if step != 0 && step != s {
			return nil, 0, false
		}
		step = s
	}
	return init, step, init != nil && step != 0
}

// comparesLen: the condition compares the length of a channel with something.
func comparesLen(v ssa.Value) bool {
	b, ok := v.(*ssa.BinOp)
	if !ok {
		return false
	}
	for _, o := range []ssa.Value{b.X, b.Y} {
		if c, ok := o.(*ssa.Call); ok {
			if f, ok := c.Call.Value.(*ssa.Builtin); ok && f.Name() == "len" {
				if _, isC := under(c.Call.Args[0].Type()).(*types.Chan); isC {
					return true
				}
			}
		}
	}
	return false
}

// privateChan: the channel belongs to an object that nobody else knows yet.
func (x *Exec) privateChan(st *State, ch *Term, t types.Type, f int) bool {
	return st.private(ch) || ch.Org != nil && ch.Org.Op == TField && st.private(ch.Org.Args[0])
}
