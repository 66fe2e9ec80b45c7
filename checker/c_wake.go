package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// R07: no wake-up is lost.

func init() {
	register(&checkDef{id: "R07", run: checkWake,
		rule:  "typestate of condition variables and tokens, path by path: a goroutine waits only with the lock of the condition held and after a test of the guarded object made since that lock was taken; every signal is given after the lock of the condition was taken in the same call; every path that changes the state a waiter is waiting for signals, or the values known at its unlock refute the waiter's condition; the timer loop goes to sleep only after it armed its alarm, under the lock it still holds, for no later than the earliest entry (or with no entry at all), and arming an entry signals unless it is known not to become the earliest; an overflow entry is counted, filled in and announced with a token in this order, the token channel has room for one token and tokens are offered without blocking, and the forwarding loop takes a token before it looks at its condition and takes the next one only when it has seen the end of the entries or one that is still being filled in",
		assum: []string{"one goroutine waits for a timer table and one collects the results of a multi-request; any number may wait for a context"}})
}

// structField: index of a named field.
func structField(t types.Type, name string) int {
	if t == nil {
		return -1
	}
	s, ok := under(t).(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

// isField: base object when addr is the field of that name of the type.
func isField(addr *Term, key, name string) *Term {
	if addr != nil && addr.Op == TField && fieldOwner[addr] == key && addr.Aux == name {
		return addr.Args[0]
	}
	return nil
}

// symsOf: unknown values loaded from a cell that facts mention.
func (s *State) symsOf(pred func(org *Term) bool, f func(sym *Term)) {
	seen := map[*Term]bool{}
	visit := func(t *Term) {
		t.walk(func(y *Term) bool {
			if y.Op == TSym && y.Org != nil && !seen[y] && pred(y.Org) {
				seen[y] = true
				f(y)
			}
			return true
		})
	}
	s.eachFact(func(t *Term) bool { visit(t); return true })
}

func checkWake(P *Program, r *Report) {
	cx, multi, buf := P.Type("", "Context"), P.Type("", "MultiRequest"), P.Type("", "Buffer")
	tm := newTimerM(P, r)
	if tm == nil {
		return
	}
	if cx == nil || multi == nil || buf == nil {
		r.Add(0, "undecided", "", nil, "types Context, MultiRequest or Buffer not found")
		return
	}
	cKey, mKey, bKey := types.TypeString(cx, nil), types.TypeString(multi, nil), types.TypeString(buf, nil)
	cN, cM := structField(cx, "cancelsn"), structField(cx, "cancelsm")
	mC, mR, mK := structField(multi, "c"), structField(multi, "r"), structField(multi, "kind")
	waitBit, _ := P.Const("", "mrWait")
	sites := map[string]int{}
	mon := tm.base()
	mon.Name = "wake"
	mon.JoinAt, mon.JoinBlk = 200, 200
	timerRel := mon.Relevant
	loadedT := mon.Loaded
	mon.Relevant = func(fn *ssa.Function) bool {
		return timerRel(fn) || P.CG().Reaches("wake", fn, func(in ssa.Instruction) bool {
			switch v := in.(type) {
			case *ssa.FieldAddr:
				k, _ := keyOfFA(v)
				return k.owner == cKey || k.owner == mKey || k.owner == bKey
			case ssa.CallInstruction:
				if f := v.Common().StaticCallee(); f != nil && fnPkgPath(f) == "sync" && recvName(f) == "Cond" {
					return true
				}
			}
			return false
		})
	}
	acq := func(l *Term) string { return gk("acq", l) }
	mon.Loaded = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, addr, val *Term) {
		loadedT(x, st, fr, in, addr, val)
		if b := isField(addr, bKey, "closed"); b != nil {
			st.vals[gk("closedval", b)] = val
		}
	}
	owed := func(x *Exec, st *State, fr *Frame, pos token.Pos, base *Term, refuted bool) {
		st.setG("pend", base, "")
		if refuted {
			r.OK(pos, "no waiter can be waiting for this change")
			return
		}
		st.setG("owed", base, "1")
	}
	// refuted: no waiter can be waiting for the present state
	refuted := func(x *Exec, st *State, base *Term) bool {
		if n, ok := st.mem[fieldAddr(base, cx, cN)]; ok {
			if st.eval(eqTerm(n, num(0))) == 0 {
				return true
			}
		}
		if m := st.mem[fieldAddr(base, cx, cM)]; m != nil && st.eval(eqTerm(x.mapLen(st, m), num(0))) == 0 {
			return true
		}
		ref := false
		ra, ka := fieldAddr(base, multi, mR), fieldAddr(base, multi, mK)
		if c := st.mem[fieldAddr(base, multi, mC)]; c != nil {
			if v := st.mem[ra]; v != nil && st.eval(eqTerm(c, v)) == 0 {
				ref = true
			}
			st.symsOf(func(o *Term) bool { return o == ra }, func(v *Term) {
				if st.eval(eqTerm(c, v)) == 0 {
					ref = true
				}
			})
		}
		st.eachFact(func(f *Term) bool {
			f.walk(func(y *Term) bool {
				if y.Op == TBin && y.Aux == "&" && len(y.Args) == 2 {
					a, b := y.Args[0], y.Args[1]
					if k, ok := a.isInt(); ok && k == waitBit {
						a, b = b, a
					}
					if k, ok := b.isInt(); ok && k == waitBit && a.Op == TSym && a.Org == ka && st.eval(eqTerm(y, num(0))) == 1 {
						ref = true
					}
				}
				return true
			})
			return true
		})
		return ref
	}
	// ended: the forwarding loop has seen the end of the entries
	ended := func(st *State, b *Term) bool {
		done := false
		ha, ta := fieldOf(b, buf, "head"), fieldOf(b, buf, "tail")
		st.symsOf(func(o *Term) bool { return o == ta }, func(t *Term) {
			if h := st.mem[ha]; h != nil && st.prove(sub(h, t)) {
				done = true
			}
			st.symsOf(func(o *Term) bool { return o == ha }, func(h *Term) {
				if st.prove(sub(h, t)) {
					done = true
				}
			})
		})
		st.symsOf(func(o *Term) bool {
			return o.Op == TField && o.Aux == "state" && strings.HasSuffix(fieldOwner[o], ".bufBookmark")
		}, func(s *Term) {
			if st.eval(eqTerm(s, num(0))) == 1 {
				done = true
			}
		})
		if v := st.vals[gk("rowhas", b)]; v != nil && st.eval(v) == 0 {
			done = true
		}
		return done
	}
	// late: the new entry is not the earliest one
	late := func(st *State, h *Term) bool {
		low := false
		ev := st.vals[gk("armedval", h)]
		st.symsOf(func(org *Term) bool { return tm.itemOf(org, tm.iE) != nil }, func(e *Term) {
			it := e.Org.Args[0]
			if it.Op != TIndex || !topOf(it.Args[1], h) {
				return
			}
			if ev != nil && st.prove(sub(ev, e)) {
				low = true
			}
			st.symsOf(func(org *Term) bool { return tm.itemOf(org, tm.iE) != nil }, func(n *Term) {
				it := n.Org.Args[0]
				if it.Op == TIndex && !topOf(it.Args[1], h) && st.prove(sub(n, e)) {
					low = true
				}
			})
		})
		return low
	}
	mon.Branch = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, cond *Term, taken bool) {
		st.eachG("pend", func(b *Term, v string) {
			if v == "1" && refuted(x, st, b) {
				st.setG("pend", b, "ref")
			}
		})
		st.eachG("armed", func(h *Term, v string) {
			if v == "1" && late(st, h) {
				st.setG("armed", h, "low")
			}
		})
		st.eachG("scan", func(b *Term, v string) {
			if v == "1" && ended(st, b) {
				st.setG("scan", b, "end")
			}
		})
	}
	mon.Lock = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, op string, addr *Term) {
		base := addr
		if addr.Op == TField {
			base = addr.Args[0]
		}
		switch op {
		case "locked":
			st.vals[acq(addr)] = num(int64(TT.seq))
			st.vals[gk("seen", base)] = num(int64(TT.seq))
		case "unlock":
			if fieldOwner[addr] == tm.hKey {
				delete(st.vals, gk("alarm", base))
				if v := st.g("armed", base); v != "" {
					st.setG("armed", base, "")
					owed(x, st, fr, in.Pos(), base, v == "low" || late(st, base))
				}
			}
			if st.g("pend", base) == "" {
				return
			}
			owed(x, st, fr, in.Pos(), base, st.g("pend", base) == "ref" || refuted(x, st, base))
		case "condSignal", "condBroadcast":
			sites["signals"]++
			l := x.condLock(st, addr)
			if l != nil && st.vals[acq(l)] == nil && !st.holds(l) {
				r.Add(in.Pos(), "signal without lock", fnName(fr.fn), st, "%s is signalled although its lock was not taken: the waiter may be between its test and its sleep", addr)
			} else {
				r.OK(in.Pos(), "signal ordered by the lock of the condition")
			}
			if fieldOwner[addr] == cKey && op == "condSignal" {
				r.Add(in.Pos(), "one of several woken", fnName(fr.fn), st, "any number of goroutines may wait for a context, but only one is woken")
			}
			st.setG("pend", base, "")
			st.setG("owed", base, "")
			st.setG("armed", base, "")
		case "condWaited":
			st.vals[gk("seen", base)] = num(int64(TT.seq))
		case "condWait":
			sites["waits"]++
			l := x.condLock(st, addr)
			if l == nil || !st.holds(l) {
				r.Add(in.Pos(), "wait without lock", fnName(fr.fn), st, "waits for %s without its lock", addr)
				return
			}
			since := int64(0)
			if v := st.vals[gk("seen", base)]; v != nil {
				since, _ = v.isInt()
			}
			tested := false
			st.symsOf(func(o *Term) bool { return hasBase(o, base) }, func(v *Term) {
				if int64(v.Seq) > since {
					tested = true
				}
			})
			if !tested {
				r.Add(in.Pos(), "wait without test", fnName(fr.fn), st, "goes to sleep without having tested the state of %s since its lock was taken", base)
			} else {
				r.OK(in.Pos(), "condition tested under the lock before waiting")
			}
			if fieldOwner[addr] == mKey && st.g("kindset", base) == "" {
				r.Add(in.Pos(), "waiter not announced", fnName(fr.fn), st, "waits for the answers without having told the answering side that somebody waits")
			}
			if fieldOwner[addr] == tm.hKey {
				// nothing to wait for, or the alarm is set
				sz := st.mem[fieldAddr(base, tm.heap, structField(tm.heap, "size"))]
				switch {
				case st.vals[gk("alarm", base)] != nil:
					r.OK(in.Pos(), "alarm set for the earliest entry")
				case sz != nil && st.eval(eqTerm(sz, num(0))) == 1:
					r.OK(in.Pos(), "no entry to wait for")
				default:
					r.Add(in.Pos(), "sleep without alarm", fnName(fr.fn), st, "the timer loop goes to sleep although the alarm is not known to be set for the earliest entry")
				}
			}
		}
	}
	mon.Store = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, addr, old, val *Term) {
		if in == nil {
			return
		}
		if b := isField(addr, cKey, "cancelsn"); b != nil && !st.private(b) {
			if old == nil || st.eval(not(ge0(sub(val, old)))) != 0 {
				st.setG("pend", b, "1")
			}
		}
		if b := isField(addr, mKey, "c"); b != nil && !st.private(b) && st.protected(addr) {
			st.setG("pend", b, "1")
		}
		if b := isField(addr, mKey, "kind"); b != nil && (val.Op == TBin && val.Aux == "|" || val.Op == TLin) {
			val.walk(func(y *Term) bool {
				if k, ok := y.isInt(); ok && k&waitBit != 0 {
					st.setG("kindset", b, "1")
				}
				return true
			})
		}
		if it := tm.itemOf(addr, tm.iE); it != nil && it.Op == TIndex {
			if a, ok := addrRootAlloc(it); !ok || !st.private(a) {
				if n, ok := val.isInt(); !ok || n != 0 {
					for _, l := range st.held {
						if fieldOwner[l.Addr] == tm.hKey {
							st.vals[gk("armedval", l.Addr.Args[0])] = val
							st.setG("armed", l.Addr.Args[0], "1")
						}
					}
				}
			}
		}
		if b := isField(addr, bKey, "set"); b != nil && val.Op == TAlloc {
			sites["token channels"]++
			if c := st.vals[fmt.Sprint("chancap:", val.ID)]; c == nil || !st.prove(sub(c, num(1))) {
				r.Add(in.Pos(), "token lost", fnName(fr.fn), st, "the token channel has no room for a token: a token offered while the loop is busy is lost")
			} else {
				r.OK(in.Pos(), "token channel holds a token")
			}
		}
		if b := isField(addr, bKey, "tail"); b != nil && !st.private(b) {
			st.setG("entry", b, "counted")
			delete(st.vals, gk("closedval", b))
		}
		if b := isField(addr, bKey, "closed"); b != nil && !st.private(b) {
			st.setG("entry", b, "filled")
		}
		// the state of an overflow entry
		if addr.Op == TField && addr.Aux == "state" && fieldOwner[addr] != "" && strings.HasSuffix(fieldOwner[addr], ".bufBookmark") {
			st.eachG("entry", func(b *Term, v string) {
				if v == "counted" {
					st.setG("entry", b, "filled")
				}
			})
		}
	}
	mon.Append = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, res, dst, src *Term) {
		v, ok := in.(*ssa.Call)
		if !ok {
			return
		}
		sl, ok := under(v.Type()).(*types.Slice)
		if !ok || !types.Identical(sl.Elem(), tm.item) || res.Op != TSlice {
			return
		}
		el := indexAddr(res.Args[0], lenOf(dst, v.Type()), tm.item)
		ev := st.mem[fieldAddr(el, tm.item, tm.iE)]
		if n, ok := ev.isInt(); ev != nil && (!ok || n != 0) {
			for _, l := range st.held {
				if fieldOwner[l.Addr] == tm.hKey {
					st.vals[gk("armedval", l.Addr.Args[0])] = ev
					st.setG("armed", l.Addr.Args[0], "1")
				}
			}
		}
	}
	mon.Map = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, op string, m, k, v *Term) {
		if op == "delete" && m.Org != nil {
			if b := isField(m.Org, cKey, "cancelsm"); b != nil && !st.private(b) {
				st.setG("pend", b, "1")
			}
		}
		if op == "lookup" && m.Org != nil {
			if b := isField(m.Org, bKey, "rows"); b != nil {
				_, ha := mapCells(m, k, nil)
				st.vals[gk("rowhas", b)] = x.loadLeaf(st, ha, tyBool)
			}
		}
	}
	mon.Call = func(x *Exec, st *State, fr *Frame, ci *CallInfo) ([]Outcome, bool) {
		if tm.isTimerCall(ci) {
			return one(st, tm.timerOf(ci.Recv)), true
		}
		if ci.Fn != nil && ci.Fn != x.root && (ci.Fn == tm.after || ci.Fn == tm.stop) {
			return one(st), true
		}
		if ci.Fn != nil && fnPkgPath(ci.Fn) == "time" && recvName(ci.Fn) == "Timer" && ci.Fn.Name() == "Reset" {
			for _, l := range st.held {
				if fieldOwner[l.Addr] != tm.hKey {
					continue
				}
				h := l.Addr.Args[0]
				delete(st.vals, gk("alarm", h))
				d := ci.Args[1]
				tm.seenNow(st, d)
				good := false
				st.symsOf(func(org *Term) bool { return tm.itemOf(org, tm.iE) != nil }, func(e *Term) {
					it := e.Org.Args[0]
					if it.Op != TIndex || !topOf(it.Args[1], h) {
						return
					}
					for _, n := range append(tm.nows(st), tm.cmp(st, e)...) {
						if st.prove(sub(sub(e, n), d)) {
							good = true
						}
					}
				})
				if good {
					st.vals[gk("alarm", h)] = tTrue
				}
			}
		}
		return nil, false
	}
	// the token channel of the overflow buffer
	tokenOf := func(ch *Term) *Term {
		if ch.Org == nil {
			return nil
		}
		return isField(ch.Org, bKey, "set")
	}
	mon.Chan = func(x *Exec, st *State, fr *Frame, ev *ChanEv) {
		if ev.Ch == nil {
			// nothing was ready: a send that was offered found the channel full
			if ev.Sel != nil {
				for _, s := range ev.Sel.States {
					if s.Dir == types.SendOnly {
						if b := tokenOf(x.val(fr, st, s.Chan)); b != nil && st.g("entry", b) == "filled" {
							st.setG("entry", b, "announced")
						}
					}
				}
			}
			return
		}
		b := tokenOf(ev.Ch)
		if b == nil {
			return
		}
		pos := ev.Instr.Pos()
		switch ev.Kind {
		case "send":
			sites["tokens"]++
			if ev.Block {
				r.Add(pos, "token blocks", fnName(fr.fn), st, "a token is offered with a send that may block")
			}
			if st.g("entry", b) == "filled" {
				st.setG("entry", b, "announced")
			}
		case "recv":
			sites["token waits"]++
			if st.g("scan", b) != "" {
				// going back to wait: everything there was must have been seen
				if st.g("scan", b) != "end" && !ended(st, b) {
					r.Add(pos, "entries left behind", fnName(fr.fn), st, "waits for the next token although the end of the entries was not seen")
				} else {
					r.OK(pos, "end of the entries seen before the next token is taken")
				}
			}
			st.setG("scan", b, "1")
		}
	}
	mon.End = func(x *Exec, o *Outcome) {
		if o.kind != OutReturn {
			return
		}
		o.st.eachG("owed", func(b *Term, v string) {
			r.Add(o.pos, "missing signal", fnName(x.root), o.st, "the state a goroutine may be waiting for was changed, but it is not woken (%s)", b)
		})
		o.st.eachG("entry", func(b *Term, v string) {
			if v != "announced" {
				r.Add(o.pos, "missing token", fnName(x.root), o.st, "an entry was added to the overflow buffer (or the buffer was closed), but no token is offered after it was filled in")
			} else {
				r.OK(o.pos, "token offered after the entry is complete")
			}
		})
	}
	var roots []*ssa.Function
	for _, fn := range P.Roots("") {
		if mon.Relevant(fn) {
			roots = append(roots, fn)
		}
	}
	mon.RootSumm = true
	runRoots(P, r, mon, roots)
	for k, v := range sites {
		r.Counts["events: "+k] = v
	}
	r.Floor("waits", sites["waits"], 3)
	r.Floor("signals", sites["signals"], 4)
	r.Floor("tokens", sites["tokens"], 1)
	r.Floor("token waits", sites["token waits"], 1)
}

// topOf: the index was read from the field that holds the earliest entry.
func topOf(ix, h *Term) bool {
	return ix.Op == TSym && ix.Org != nil && ix.Org.Op == TField && ix.Org.Aux == "top" && ix.Org.Args[0] == h
}

func fieldOf(base *Term, t types.Type, name string) *Term {
	i := structField(t, name)
	if i < 0 {
		return nil
	}
	return fieldAddr(base, t, i)
}

// mapLen: the current length of a map.
func (x *Exec) mapLen(st *State, m *Term) *Term {
	if m.isNil() {
		return num(0)
	}
	return x.loadLeaf(st, mk(TField, tyInt, "$len", -1, m), tyInt)
}
