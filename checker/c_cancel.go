package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// R06: cancelling or expiring a context reaches everything attached to it.

func init() {
	register(&checkDef{id: "R06", run: checkCancel,
		rule:  "typestate of contexts, path by path: the state word changes only by a compare-and-swap from the live state, to the cancelled state in Cancel and to the expired state in Expire, and a path on which it fails does nothing more; a path on which it succeeds leaves only when, under the lock, no entry is attached, and on the way cancels every entry it lists and lists every entry of both tables; an entry is attached only under the lock, to an empty place, after the state was read as live under the same lock, with the count kept in step, and an entry that is not attached is cancelled; an entry is detached only when it is the one that was asked for, with the count kept in step, and only after every other place was compared is it looked for in the other table; every request, multi-request or child context that a context hands out was cancelled, or linked to its interceptor and context and then attached; what completes (an answered request, a child that is done, a child started by the context, a collected multi-request) detaches itself, and an interceptor that is cancelled cancels its request; waiting for a context ends only with both tables known to be empty",
		assum: []string{"the interceptor of a context is attached to the request that the same context created"}})
}

func checkCancel(P *Program, r *Report) {
	a := newAnsM(P, r, "R06")
	cx, can, multi, rc := P.Type("", "Context"), P.Type("", "Canceler"), P.Type("", "MultiRequest"), P.Type("", "ReqContext")
	cb := P.Type("", "contextBookmark")
	if a == nil {
		return
	}
	if cx == nil || can == nil || multi == nil || rc == nil || cb == nil {
		r.Add(0, "undecided", "", nil, "types Context, Canceler, MultiRequest, ReqContext or contextBookmark not found")
		return
	}
	key, cbKey, mKey := types.TypeString(cx, nil), types.TypeString(cb, nil), types.TypeString(multi, nil)
	s := under(cx).(*types.Struct)
	iM := mutexField(s)
	iState, iArr, iMap, iN, iPar := structField(cx, "State"), -1, -1, structField(cx, "cancelsn"), -1
	arrLen := int64(0)
	for i := 0; i < s.NumFields(); i++ {
		switch t := s.Field(i).Type().(type) {
		case *types.Array:
			if types.Identical(t.Elem(), can) {
				iArr, arrLen = i, t.Len()
			}
		case *types.Map:
			if types.Identical(t.Key(), can) {
				iMap = i
			}
		case *types.Pointer:
			if types.Identical(t.Elem(), cx) {
				iPar = i
			}
		}
	}
	canceled, ok1 := P.Const("", "CxCanceled")
	expired, ok2 := P.Const("", "CxTimeout")
	rcCan, ok3 := P.Const("", "RcCanceled")
	rcTime, ok4 := P.Const("", "RcTimeout")
	iCbC := -1
	cs := under(cb).(*types.Struct)
	for i := 0; i < cs.NumFields(); i++ {
		if types.Identical(cs.Field(i).Type(), types.NewPointer(cx)) {
			iCbC = i
		}
	}
	iMcx := -1
	ms := under(multi).(*types.Struct)
	for i := 0; i < ms.NumFields(); i++ {
		if types.Identical(ms.Field(i).Type(), types.NewPointer(cx)) {
			iMcx = i
		}
	}
	if iM < 0 || iState < 0 || iArr < 0 || iMap < 0 || iN < 0 || iPar < 0 || iCbC < 0 || iMcx < 0 || !ok1 || !ok2 || !ok3 || !ok4 {
		r.Add(0, "undecided", "", nil, "the fields of Context or the state constants were not recognised")
		return
	}
	fld := func(addr *Term, i int) *Term {
		if addr != nil && addr.Op == TField && addr.N == i && fieldOwner[addr] == key {
			return addr.Args[0]
		}
		return nil
	}
	fieldOf := func(addr *Term, k string, i int) *Term {
		if addr != nil && addr.Op == TField && addr.N == i && fieldOwner[addr] == k {
			return addr.Args[0]
		}
		return nil
	}
	// place: the context whose array the place belongs to.
	place := func(addr *Term) *Term {
		if addr != nil && addr.Op == TIndex {
			return fld(addr.Args[0], iArr)
		}
		return nil
	}
	tableOf := func(m *Term) *Term {
		if m != nil && m.Org != nil {
			return fld(m.Org, iMap)
		}
		return nil
	}
	locked := func(st *State, c *Term) bool { return st.holds(fieldAddr(c, cx, iM)) }
	isAdd := func(fn *ssa.Function) bool {
		return isMethodOf(fn, cx) && fn.Signature.Params().Len() == 1 && types.Identical(fn.Signature.Params().At(0).Type(), can) && fn.Name() == "AddCanceler"
	}
	isRemove := func(fn *ssa.Function) bool {
		return isMethodOf(fn, cx) && fn.Signature.Params().Len() == 1 && types.Identical(fn.Signature.Params().At(0).Type(), can) && fn.Name() == "RemoveCanceler"
	}
	isDone := func(fn *ssa.Function) bool { return isMethodOf(fn, cx) && fn.Name() == "Done" }
	isEnd := func(fn *ssa.Function) bool {
		return isMethodOf(fn, cx) && (fn.Name() == "Cancel" || fn.Name() == "Expire")
	}
	sites := map[string]int{}
	started := startedByGo(P)
	each := newEach(func(pos token.Pos, fr *Frame, st *State, el *Term) {
		fn := ""
		if fr != nil {
			fn = fnName(fr.fn)
		}
		r.Add(pos, "entry left out", fn, st, "an attached entry that was read here is not cancelled")
	})
	mon := &Monitor{Name: "cancel", Unroll: 3, NoLockCk: true, JoinAt: 200, JoinBlk: 200}
	mon.Relevant = func(fn *ssa.Function) bool {
		return P.CG().Reaches("cancel", fn, func(in ssa.Instruction) bool {
			switch v := in.(type) {
			case *ssa.FieldAddr:
				k, _ := keyOfFA(v)
				return k.owner == key && (v.Field == iState || v.Field == iArr || v.Field == iMap || v.Field == iN || v.Field == iPar) || k.owner == cbKey
			case ssa.CallInstruction:
				f := v.Common().StaticCallee()
				return f != nil && (isAdd(f) || isRemove(f) || isDone(f) || isEnd(f) || isMethodOf(f, a.req))
			}
			return false
		})
	}
	mon.NoInline = func(fn *ssa.Function) bool { return isMethodOf(fn, a.req) }
	mon.Volatile = func(x *Exec, st *State, addr *Term) bool {
		return fld(addr, iState) != nil || a.fld(addr, a.bmKey, a.iBReq) != nil
	}
	// the links of an entry to its context do not change
	mon.Keep = func(x *Exec, st *State, addr *Term, ci *CallInfo) bool {
		return fieldOf(addr, cbKey, iCbC) != nil || fieldOf(addr, mKey, iMcx) != nil || fld(addr, iPar) != nil
	}
	// every entry was taken: the places are empty or listed, the table was read
	// to its end
	listed := func(x *Exec, st *State, c *Term) bool {
		m := st.mem[fieldAddr(c, cx, iMap)]
		if st.g("mapend", c) == "" && (m == nil || !m.isNil() && st.isNilFact(m) != 1 && st.eval(eqTerm(x.mapLen(st, m), num(0))) != 1) {
			return false
		}
		for i := int64(0); i < arrLen; i++ {
			v := st.mem[indexAddr(fieldAddr(c, cx, iArr), num(i), can)]
			if v == nil || !v.isNil() && st.isNilFact(v) != 1 && st.g("lst", v) == "" {
				return false
			}
		}
		return true
	}
	mon.Lock = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, op string, addr *Term) {
		c := fld(addr, iM)
		if c == nil {
			return
		}
		switch op {
		case "locked":
			st.setG("live", c, "")
			st.setG("mapend", c, "")
			st.setG("n", c, "")
			st.setG("empty", c, "")
			st.vals[gk("acq", c)] = num(int64(TT.seq))
		case "condWaited":
			st.setG("empty", c, "")
		case "unlock":
			n := st.g("n", c)
			if n != "" {
				r.Add(in.Pos(), "count wrong", fnName(fr.fn), st, "the count of attached entries is not in step with the places (%s)", n)
				st.setG("n", c, "")
			}
			if st.g("won", c) != "" && st.g("pass", c) == "" && (st.g("empty", c) != "" || listed(x, st, c)) {
				st.setG("pass", c, "1")
			}
		}
	}
	bump := func(st *State, c *Term, d int) {
		n := len(st.g("n", c))
		if len(st.g("n", c)) > 0 && st.g("n", c)[0] == '-' {
			n = -n
		}
		n += d
		v := ""
		for i := 0; i < n; i++ {
			v += "+"
		}
		for i := 0; i > n; i-- {
			v += "-"
		}
		st.setG("n", c, v)
	}
	// both tables known to be empty
	empty := func(x *Exec, st *State, c *Term) bool {
		n := st.mem[fieldAddr(c, cx, iN)]
		m := st.mem[fieldAddr(c, cx, iMap)]
		if n == nil || m == nil || st.eval(eqTerm(n, num(0))) != 1 {
			return false
		}
		return m.isNil() || st.eval(eqTerm(x.mapLen(st, m), num(0))) == 1
	}
	mon.Branch = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, cond *Term, taken bool) {
		st.symsOf(func(o *Term) bool { return fld(o, iState) != nil }, func(v *Term) {
			c := fld(v.Org, iState)
			at := st.vals[gk("acq", c)]
			if at == nil || !locked(st, c) || st.eval(eqTerm(v, num(0))) != 1 {
				return
			}
			if n, _ := at.isInt(); int64(v.Seq) > n {
				st.setG("live", c, "1")
			}
		})
		if c := x.self; c != nil && isMethodOf(x.root, cx) && locked(st, c) && empty(x, st, c) {
			st.setG("empty", c, "1")
		}
		if ev := st.vals["range"]; ev != nil && st.eval(ev) == 0 {
			st.eachG("ranged", func(k *Term, v string) {
				st.setG("ranged", k, "")
				each.served(st, k)
			})
			st.setG("mapend", st.vals["rangecx"], "1")
			delete(st.vals, "range")
		}
	}
	mon.Loaded = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, addr, val *Term) {
		if in == nil {
			return
		}
		if c := place(addr); c != nil && st.g("won", c) != "" && st.g("empty", c) == "" {
			each.taken(st, in, val)
			sites["places listed"]++
		}
		if _, ok := in.(*ssa.UnOp); ok && addr.Op == TIndex && place(addr) == nil && types.Identical(cellType(addr), can) && !st.private(val) {
			won := false
			st.eachG("won", func(c *Term, v string) { won = true })
			if won {
				each.taken(st, in, val)
				sites["listed entries"]++
				if ia, ok := addrInstr(in).(*ssa.IndexAddr); ok {
					sl, cut := ia.X.(*ssa.Slice)
					if startsLate(ia.Index) || !leavesAtEnd(x, fr.fn, in.Block()) || cut && sl.Low != nil {
						r.Add(in.Pos(), "entry left out", fnName(fr.fn), st, "not every listed entry is cancelled")
					}
				}
			}
		}
	}
	mon.Map = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, op string, m, k, v *Term) {
		c := tableOf(m)
		if c == nil && m != nil && x.self != nil && st.mem[fieldAddr(x.self, cx, iMap)] == m {
			c = x.self
		}
		if c == nil {
			return
		}
		switch op {
		case "range":
			if st.g("won", c) != "" {
				sites["tables listed"]++
				each.taken(st, in, k)
				st.setG("ranged", k, "1")
				st.vals["range"] = v
				st.vals["rangecx"] = c
			}
		case "update":
			sites["attached"]++
			if st.g("live", c) == "" || !locked(st, c) {
				r.Add(in.Pos(), "attached to a dead context", fnName(fr.fn), st, "an entry is attached without the state having been read as live under the same lock: a concurrent Cancel would not reach it")
			} else {
				r.OK(in.Pos(), "attached under the lock with the state known to be live")
			}
			if x.args != nil && isAdd(x.root) && k == x.args[1] {
				st.setG("att", nil, st.g("att", nil)+"+")
			}
		case "delete":
			sites["detached"]++
			if isRemove(x.root) {
				if k != x.args[1] {
					r.Add(in.Pos(), "wrong entry detached", fnName(fr.fn), st, "another entry than the given one is detached")
				}
				for i := int64(0); i < arrLen; i++ {
					v := st.mem[indexAddr(fieldAddr(c, cx, iArr), num(i), can)]
					if st.g("det", nil) == "" && (v == nil || st.eval(eqTerm(v, k)) != 0 && !v.isNil()) {
						r.Add(in.Pos(), "entry not detached", fnName(fr.fn), st, "the entry is looked for in the table although place %d was not compared with it", i)
					}
				}
				st.setG("det", nil, "1")
			} else {
				r.Add(in.Pos(), "wrong entry detached", fnName(fr.fn), st, "an entry is detached without having completed")
			}
		}
	}
	mon.Append = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, res, dst, src *Term) {
		if src.Op != TSlice {
			return
		}
		if n, ok := lenOf(src, src.Typ).isInt(); ok && n < 8 {
			for i := int64(0); i < n; i++ {
				if v := st.mem[indexAddr(src.Args[0], add(src.Args[1], num(i)), can)]; v != nil && each.served(st, v) {
					st.setG("lst", v, "1")
				}
			}
		}
	}
	mon.Store = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, addr, old, val *Term) {
		if in == nil {
			return
		}
		pos := in.Pos()
		if c := fld(addr, iState); c != nil && !st.private(c) {
			sites["state changes"]++
			want := int64(-1)
			if isMethodOf(x.root, cx) && x.root.Name() == "Cancel" {
				want = canceled
			} else if isMethodOf(x.root, cx) && x.root.Name() == "Expire" {
				want = expired
			}
			n, isN := val.isInt()
			if fr != nil && want < 0 {
				// inlined into something else
				want = n
				isN = n == canceled || n == expired
			}
			switch {
			case !isAtomicCall(in, "CompareAndSwap"):
				r.Add(pos, "state changed", fnName(fr.fn), st, "the state of a context is changed without compare-and-swap: cancelling and expiring may both take effect")
			case !isN || n != want:
				r.Add(pos, "state changed", fnName(fr.fn), st, "the state of a context is changed to %s", val)
			case old != nil && st.eval(eqTerm(old, num(0))) != 1:
				r.Add(pos, "state changed", fnName(fr.fn), st, "the state of a context is changed although it may be cancelled or expired already")
			default:
				r.OK(pos, "state changed once, from live")
			}
			st.setG("won", c, "1")
			st.setG("empty", c, "")
			return
		}
		if c := place(addr); c != nil && !st.private(c) {
			if val.isNil() {
				sites["detached"]++
				if !isRemove(x.root) {
					r.Add(pos, "wrong entry detached", fnName(fr.fn), st, "an entry is detached without having completed")
					return
				}
				v := st.mem[addr]
				if v == nil {
					v = old
				}
				if v == nil || st.eval(eqTerm(v, x.args[1])) != 1 {
					r.Add(pos, "wrong entry detached", fnName(fr.fn), st, "the entry that is detached may be another one than the given one")
				} else {
					r.OK(pos, "the given entry is detached")
				}
				st.setG("det", nil, "1")
				bump(st, c, -1)
				return
			}
			sites["attached"]++
			if st.g("live", c) == "" || !locked(st, c) {
				r.Add(pos, "attached to a dead context", fnName(fr.fn), st, "an entry is attached without the state having been read as live under the same lock: a concurrent Cancel would not reach it")
			} else {
				r.OK(pos, "attached under the lock with the state known to be live")
			}
			v := st.mem[addr]
			if v == nil {
				v = old
			}
			if v == nil || !v.isNil() && st.isNilFact(v) != 1 {
				r.Add(pos, "entry overwritten", fnName(fr.fn), st, "an entry is attached at a place that may be taken: the other entry is lost")
			}
			if isAdd(x.root) && val == x.args[1] {
				st.setG("att", nil, st.g("att", nil)+"+")
			}
			bump(st, c, 1)
			return
		}
		if c := fld(addr, iMap); c != nil && !st.private(c) {
			if old := st.mem[addr]; old == nil || !old.isNil() && st.isNilFact(old) != 1 {
				r.Add(pos, "entry overwritten", fnName(fr.fn), st, "the table of attached entries is replaced")
			}
		}
		if c := fld(addr, iN); c != nil && !st.private(c) {
			sites["counts"]++
			d, okd := int64(0), false
			if old := st.mem[addr]; old != nil {
				d, okd = sub(val, old).isInt()
			}
			if !okd || d != 1 && d != -1 {
				r.Add(pos, "count wrong", fnName(fr.fn), st, "the count of attached entries becomes %s", val)
				return
			}
			bump(st, c, int(-d))
		}
		if iface := stripIface(val); fieldOf(addr, cbKey, iCbC) != nil {
			st.setG("cbcx", addr.Args[0], "1")
			st.vals[gk("cbcx", addr.Args[0])] = iface
		}
	}
	cancelCall := func(ci *CallInfo) *Term {
		name := ""
		var v *Term
		if ci.Fn != nil && len(ci.Args) > 0 {
			name, v = ci.Fn.Name(), ci.Args[0]
		} else if ci.Method != nil {
			name, v = ci.Method.Name(), ci.Recv
		}
		if name == "Cancel" || name == "Expire" {
			return v
		}
		return nil
	}
	mon.Call = func(x *Exec, st *State, fr *Frame, ci *CallInfo) ([]Outcome, bool) {
		if ci.Go {
			return nil, false
		}
		if v := cancelCall(ci); v != nil {
			if each.served(st, v) {
				st.setG("lst", v, "1")
			}
			if u := st.bearerOf(v); u != nil {
				each.served(st, u)
			}
			st.setG("cancelled", stripIface(v), "1")
			st.setG("cancelled", v, "1")
			if isMethodOf(x.root, cx) && isEnd(x.root) && x.self != nil && st.g("won", x.self) == "" && ci.Fn != x.root {
				r.Add(ci.Instr.Pos(), "loser cancels", fnName(fr.fn), st, "something is cancelled by a call that did not change the state of the context")
			}
		}
		if ci.Fn == nil {
			return nil, false
		}
		if isMethodOf(ci.Fn, a.req) {
			switch ci.Fn.Name() {
			case "ChainBookmark":
				st.setG("chained", stripIface(ci.Args[1]), "1")
				st.vals[gk("chained", stripIface(ci.Args[1]))] = ci.Args[0]
				return one(st, tTrue), true
			case "Cancel", "Expire", "RespondFail":
				st.setG("cancelled", ci.Args[0], "1")
				return one(st), true
			case "IOError", "ShutDown", "Respond", "RespondBytes":
				return one(st), true
			}
		}
		if isAdd(ci.Fn) && fr != nil {
			v := stripIface(ci.Args[1])
			st.setG("added", v, "1")
			st.vals[gk("added", v)] = ci.Args[0]
			p := namedOfPtr(v)
			if p != nil && types.Identical(p, cb) {
				q := st.vals[gk("chained", v)]
				if q == nil {
					r.Add(ci.Instr.Pos(), "attached too early", fnName(fr.fn), st, "an interceptor is attached to the context before it is linked to its request: a concurrent Cancel would not reach the request")
				} else {
					st.setG("attreq", q, "1")
				}
				if c := st.vals[gk("cbcx", v)]; c != ci.Args[0] {
					r.Add(ci.Instr.Pos(), "never detached", fnName(fr.fn), st, "an interceptor is attached to a context that it does not know: it will not be detached")
				}
			}
			if p != nil && types.Identical(p, multi) {
				if c := st.mem[fieldAddr(v, multi, iMcx)]; c != ci.Args[0] {
					r.Add(ci.Instr.Pos(), "never detached", fnName(fr.fn), st, "a multi-request is attached to a context that it does not know: it will not be detached")
				}
			}
			if p != nil && types.Identical(p, cx) {
				if c := st.mem[fieldAddr(v, cx, iPar)]; c != ci.Args[0] {
					r.Add(ci.Instr.Pos(), "never detached", fnName(fr.fn), st, "a child is attached to a context that it does not know: it will not be detached")
				}
			}
			st.escape(v)
			return one(st), true
		}
		if isRemove(ci.Fn) {
			st.setG("removed", stripIface(ci.Args[1]), "1")
			st.vals[gk("removed", stripIface(ci.Args[1]))] = ci.Args[0]
			return one(st), true
		}
		if isDone(ci.Fn) {
			st.setG("donecx", ci.Args[0], st.g("user", nil)+"!")
			if st.g("usercx", ci.Args[0]) != "" {
				sites["children"]++
				r.OK(ci.Instr.Pos(), "finished child detached")
			}
			st.setG("usercx", ci.Args[0], "")
			return one(st), true
		}
		if isEnd(ci.Fn) {
			st.setG("ended", ci.Args[0], ci.Fn.Name())
			return one(st), true
		}
		return nil, false
	}
	mon.Unknown = func(x *Exec, st *State, fr *Frame, ci *CallInfo) {
		if v := cancelCall(ci); v != nil {
			each.served(st, v)
		}
		if ci.Fn == nil && ci.Method == nil {
			st.setG("user", nil, "1")
			for _, v := range ci.Args {
				if v != nil && v.Typ != nil && types.Identical(v.Typ, types.NewPointer(cx)) {
					st.setG("usercx", v, "1")
				}
			}
		}
	}
	mon.Chan = func(x *Exec, st *State, fr *Frame, ev *ChanEv) {
		if ev.Kind == "close" && isMethodOf(x.root, multi) {
			st.setG("complete", x.self, "1")
		}
	}
	mon.BackEdge = func(x *Exec, st *State, fr *Frame, h *ssa.BasicBlock) {
		if la := fr.loops[h]; la != nil && x.self != nil && st.g("won", x.self) != "" {
			// a whole pass over the tables
			full := false
			for b := range x.loopInfo(fr.fn).body[h] {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok {
						if f := c.Common().StaticCallee(); f != nil && f.Name() == "Lock" && fnPkgPath(f) == "sync" {
							full = true
						}
					}
				}
			}
			if full {
				if st.g("pass", x.self) == "" {
					r.Add(h.Instrs[0].Pos(), "entry left out", fnName(fr.fn), st, "a pass over the attached entries does not take every one of them")
				}
			}
		}
		each.backEdge(x, st, fr, h)
		for _, k := range []string{"cancelled", "ranged", "lst"} {
			st.eachG(k, func(t *Term, v string) {
				if la := fr.loops[h]; la != nil && t != nil && t.Seq > la.seq {
					st.setG(k, t, "")
				}
			})
		}
	}
	mon.End = func(x *Exec, o *Outcome) {
		if o.kind != OutReturn || x.self == nil && len(x.args) == 0 {
			return
		}
		st, w, pos, fn := o.st, x.self, o.pos, x.root
		name := fnName(fn)
		each.end(st, nil)
		switch {
		case isAdd(fn):
			sites["attach ends"]++
			att := st.g("att", nil)
			can := st.g("cancelled", x.args[1]) != ""
			switch {
			case att == "+" && !can, att == "" && can:
				r.OK(pos, "entry attached or cancelled")
			case att == "" && !can:
				r.Add(pos, "entry lost", name, st, "an entry is neither attached nor cancelled")
			case len(att) > 1:
				r.Add(pos, "attached twice", name, st, "an entry is attached twice")
			default:
				r.Add(pos, "attached twice", name, st, "an entry that is attached is cancelled at once")
			}
		case isRemove(fn):
			sites["detach ends"]++
			if st.g("det", nil) == "" {
				r.Add(pos, "entry not detached", name, st, "an entry stays attached: waiting for the context never ends")
			} else {
				r.OK(pos, "entry detached")
			}
		case isEnd(fn):
			sites["ends"]++
			if st.g("won", w) == "" {
				r.OK(pos, "a second end has no effect")
			} else if st.g("empty", w) == "" && st.g("pass", w) == "" {
				r.Add(pos, "entries left", name, st, "%s leaves although entries may be attached that it did not take", fn.Name())
			} else {
				r.OK(pos, "left after all attached entries were taken")
			}
		case isDone(fn):
			par := st.vals[gk("parent", w)]
			_ = par
			if st.g("removed", w) == "" && !st.parentNil(x, w, cx, iPar) {
				r.Add(pos, "never detached", name, st, "a context that is done stays attached to its parent")
			} else {
				r.OK(pos, "done context detached from its parent")
			}
		case isMethodOf(fn, cx) && fn.Name() == "WaitAll":
			sites["waits"]++
			if st.g("empty", w) == "" {
				r.Add(pos, "wait ends early", name, st, "waiting ends although entries may be attached")
			} else {
				r.OK(pos, "wait ends with no entry attached")
			}
		case isMethodOf(fn, cb) && fn.Name() == "Respond":
			sites["interceptors"]++
			if st.g("removed", w) == "" && st.isNilFact(st.mem[fieldAddr(w, cb, iCbC)]) != 1 {
				r.Add(pos, "never detached", name, st, "the interceptor of an answered request stays attached to its context")
			} else {
				r.OK(pos, "answered request detached")
			}
		case isMethodOf(fn, cb) && fn.Name() == "Cancel":
			sites["interceptors"]++
			done := false
			st.eachG("cancelled", func(t *Term, v string) {
				done = done || t.Org != nil && a.fld(t.Org, a.bmKey, a.iBReq) != nil
			})
			st.symsOf(func(o *Term) bool { return a.fld(o, a.bmKey, a.iBReq) != nil }, func(v *Term) {
				done = done || st.isNilFact(v) == 1
			})
			if !done {
				r.Add(pos, "request not cancelled", name, st, "cancelling an interceptor does not cancel its request")
			} else {
				r.OK(pos, "request cancelled")
			}
		case isMethodOf(fn, rc) && fn.Name() == "Respond":
			sites["request contexts"]++
			var code *Term
			ca := fieldAddr(x.args[1], P.Type("", "Response"), structField(P.Type("", "Response"), "Code"))
			st.symsOf(func(o *Term) bool { return o == ca }, func(v *Term) { code = v })
			c := fieldAddr(w, rc, structField(rc, "Context"))
			e := st.g("ended", c)
			if code == nil {
				r.Add(pos, "context not cancelled", name, st, "a context does not look at the code its request was answered with")
				break
			}
			switch {
			case st.eval(eqTerm(code, num(rcCan))) != 0 && e != "Cancel":
				r.Add(pos, "context not cancelled", name, st, "the context of a cancelled request is not cancelled")
			case st.eval(eqTerm(code, num(rcTime))) != 0 && e != "Expire":
				r.Add(pos, "context not cancelled", name, st, "the context of an expired request is not expired")
			default:
				r.OK(pos, "context follows its request")
			}
		case isMethodOf(fn, multi) && (st.g("complete", w) != "" || fn.Name() == "Results"):
			sites["multi-requests"]++
			if st.g("removed", w) == "" && st.isNilFact(st.mem[fieldAddr(w, multi, iMcx)]) != 1 {
				r.Add(pos, "never detached", name, st, "a multi-request that is complete stays attached to its context")
			} else {
				r.OK(pos, "complete multi-request detached")
			}
		}
		if isMethodOf(fn, cx) && fn.Signature.Results().Len() > 0 {
			for i, v := range o.vals {
				p, isP := fn.Signature.Results().At(i).Type().(*types.Pointer)
				if !isP || v.isNil() {
					continue
				}
				good := false
				switch {
				case types.Identical(p.Elem(), a.req):
					good = st.g("cancelled", v) != "" || st.g("attreq", v) != ""
				case types.Identical(p.Elem(), multi), types.Identical(p.Elem(), cx):
					good = st.g("cancelled", v) != "" || st.vals[gk("added", v)] == w && w != nil || st.g("ended", v) != ""
					good = good || st.dead(v, cx, iState)
				default:
					continue
				}
				sites["handed out"]++
				if !good {
					r.Add(pos, "not attached", name, st, "what is handed out is neither attached to the context nor cancelled")
				} else {
					r.OK(pos, "handed out attached or cancelled")
				}
			}
		}
		// children started by the context
		if started[fn] {
			st.eachG("usercx", func(v *Term, k string) {
				r.Add(pos, "never detached", name, st, "a child that was started by the context is not detached when it is finished")
			})
		}
	}
	var roots []*ssa.Function
	for _, fn := range P.Roots("") {
		if (mon.Relevant(fn) || started[fn] || isMethodOf(fn, cb)) && !isMethodOf(fn, a.req) {
			roots = append(roots, fn)
		}
	}
	runRoots(P, r, mon, roots)
	for k, v := range sites {
		r.Counts["events: "+k] = v
	}
	for _, f := range []string{"attached", "detached", "ends", "attach ends", "detach ends", "state changes", "interceptors", "handed out", "places listed", "tables listed", "children", "waits", "multi-requests", "request contexts"} {
		r.Floor(f, sites[f], 1)
	}
}

// bearerOf: the pending element that a value stands for.
func (st *State) bearerOf(v *Term) *Term {
	var res *Term
	st.eachG("el", func(el *Term, k string) {
		if el != nil && stripIface(el) == stripIface(v) {
			res = el
		}
	})
	return res
}

func namedOfPtr(v *Term) types.Type {
	if v == nil || v.Typ == nil {
		return nil
	}
	if p, ok := v.Typ.(*types.Pointer); ok {
		return p.Elem()
	}
	return v.Typ
}

// parentNil: the parent was read as nil.
func (st *State) parentNil(x *Exec, w *Term, t types.Type, i int) bool {
	a := fieldAddr(w, t, i)
	nilSeen := false
	if v := st.mem[a]; v != nil && !v.isNil() && st.isNilFact(v) == 1 {
		nilSeen = true
	}
	st.symsOf(func(o *Term) bool { return o == a }, func(v *Term) { nilSeen = nilSeen || st.isNilFact(v) == 1 })
	return nilSeen
}

// dead: a context that nobody else knows yet and that is already cancelled.
func (st *State) dead(v *Term, t types.Type, i int) bool {
	c := st.mem[fieldAddr(v, t, i)]
	return c != nil && st.eval(eqTerm(c, num(0))) == 0
}

// startedByGo: the functions of the program that go statements start.
func startedByGo(P *Program) map[*ssa.Function]bool {
	res := map[*ssa.Function]bool{}
	for _, f := range P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if g, ok := in.(*ssa.Go); ok {
					if c := g.Call.StaticCallee(); c != nil {
						res[c] = true
					}
				}
			}
		}
	}
	return res
}

// leavesAtEnd: the innermost loop around the block is left only by its
// header's test (of a length, or of a range).
func leavesAtEnd(x *Exec, fn *ssa.Function, b *ssa.BasicBlock) bool {
	li := x.loopInfo(fn)
	var h *ssa.BasicBlock
	for hd, body := range li.body {
		if body[b] && (h == nil || li.body[h][hd]) {
			h = hd
		}
	}
	if h == nil {
		return false
	}
	for blk := range li.body[h] {
		if blk == h {
			continue
		}
		for _, s := range blk.Succs {
			if !li.body[h][s] {
				return false
			}
		}
	}
	return true
}
