package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// T01: timers.

func init() {
	register(&checkDef{id: "T01", run: checkTimer,
		rule: "typestate of timer entries and linear arithmetic over deadlines: the deadline stored for an entry is at least the clock value read in the same call plus the requested duration; a callback is run only for an entry whose own deadline was compared with a clock value and found to be past, after the entry was taken out of the table and with no timer lock held; every entry put into the table has its index stored in the timer it belongs to, every entry taken out has it cleared, and Stop takes out only the entry whose index it read from its own timer under the lock and found to be set; on every path that completes a request, collects a multi-request or closes its channel the timer of that object is stopped",
		assum: []string{"the clock does not run backwards between two readings",
			"Timer() of one object always returns the same timer"}})
}

type timerM struct {
	P                *Program
	r                *Report
	timer, item, exp types.Type
	heap             types.Type
	tKey, iKey, hKey string
	iX, iE           int
	after, stop      *ssa.Function
	sites            map[string]int
}

func newTimerM(P *Program, r *Report) *timerM {
	m := &timerM{P: P, r: r, sites: map[string]int{}, iX: -1, iE: -1}
	m.timer, m.exp = P.Type("", "Timer"), P.Type("", "Expirator")
	ep := P.Type("", "Epoch")
	m.after, m.stop = P.Method("", "Timer", "After"), P.Method("", "Timer", "Stop")
	if m.timer == nil || m.exp == nil || ep == nil || m.after == nil || m.stop == nil {
		r.Add(0, "undecided", "", nil, "types Timer, Expirator or Epoch not found")
		return nil
	}
	m.tKey = types.TypeString(m.timer, nil)
	sc := P.Pkgs[""].Pkg.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		s, ok := under(tn.Type()).(*types.Struct)
		if !ok {
			continue
		}
		x, e := -1, -1
		for i := 0; i < s.NumFields(); i++ {
			if types.Identical(s.Field(i).Type(), m.exp) {
				x = i
			}
			if types.Identical(s.Field(i).Type(), ep) {
				e = i
			}
		}
		if x >= 0 && e >= 0 {
			m.item, m.iX, m.iE = tn.Type(), x, e
		}
	}
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok || m.item == nil {
			continue
		}
		s, ok := under(tn.Type()).(*types.Struct)
		if !ok || mutexField(s) < 0 {
			continue
		}
		for i := 0; i < s.NumFields(); i++ {
			if sl, ok := under(s.Field(i).Type()).(*types.Slice); ok && types.Identical(sl.Elem(), m.item) {
				m.heap = tn.Type()
			}
		}
	}
	if m.heap == nil {
		r.Add(0, "undecided", "", nil, "the table of timers was not found")
		return nil
	}
	m.iKey, m.hKey = types.TypeString(m.item, nil), types.TypeString(m.heap, nil)
	return m
}

// nowTerm: a reading of the clock relative to the epoch.
func nowTerm(t *Term) bool {
	for t.Op == TConv && len(t.Args) == 1 {
		t = t.Args[0]
	}
	return t.Op == TApp && t.Aux == "time.Sub" && len(t.Args) == 2 && t.Args[0].Op == TSym && t.Args[0].Aux == "now"
}

func (m *timerM) seenNow(st *State, t *Term) {
	t.walk(func(y *Term) bool {
		if nowTerm(y) {
			st.vals[gk("now", y)] = y
			return false
		}
		return true
	})
}

func (m *timerM) nows(st *State) []*Term {
	var l []*Term
	for k, v := range st.vals {
		if len(k) > 4 && k[:4] == "now:" {
			l = append(l, v)
		}
	}
	return l
}

// timerOf: the timer of an expirator.
func (m *timerM) timerOf(x *Term) *Term {
	return mk(TUnbox, types.NewPointer(m.timer), "timer", 0, x)
}

func (m *timerM) itemOf(addr *Term, f int) *Term {
	if addr.Op == TField && addr.N == f && fieldOwner[addr] == m.iKey {
		return addr.Args[0]
	}
	return nil
}

func (m *timerM) isTimerCall(ci *CallInfo) bool {
	return ci.Method != nil && ci.Fn == nil && ci.Method.Name() == "Timer" && len(ci.Args) == 0 && types.Identical(recvIface(ci), m.exp)
}

// hooks common to T01 and R07
func (m *timerM) base() *Monitor {
	mon := &Monitor{Name: "timer", Unroll: -1, NoLockCk: true}
	mon.Relevant = func(fn *ssa.Function) bool {
		return m.P.CG().Reaches("timer", fn, func(in ssa.Instruction) bool {
			if fa, ok := in.(*ssa.FieldAddr); ok {
				k, _ := keyOfFA(fa)
				return k.owner == m.tKey || k.owner == m.iKey || k.owner == m.hKey
			}
			return false
		})
	}
	mon.Loaded = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, addr, val *Term) {
		if it := m.itemOf(addr, m.iE); it != nil {
			st.vals[gk("e", it)] = val
		}
		if it := m.itemOf(addr, m.iX); it != nil {
			st.vals[gk("itemof", val)] = it
		}
	}
	return mon
}

func (m *timerM) heapLocked(st *State) bool {
	for _, l := range st.held {
		if fieldOwner[l.Addr] == m.hKey {
			return true
		}
	}
	return false
}

func checkTimer(P *Program, r *Report) {
	m := newTimerM(P, r)
	if m == nil {
		return
	}
	mon := m.base()
	// linked: the index last stored in a timer on this path
	timerFld := func(addr *Term) *Term {
		if addr.Op == TField && fieldOwner[addr] == m.tKey {
			return addr.Args[0]
		}
		return nil
	}
	link := func(st *State, pos token.Pos, xv *Term) {
		t := m.timerOf(xv)
		w, p := st.vals[gk("link", t)], st.vals[gk("putidx", xv)]
		if w == nil || st.g("put", xv) == "" && st.g("out", xv) == "" {
			return
		}
		if st.g("put", xv) != "" && p != nil && (w == p || stripConv(w) == stripConv(p) || st.eval(eqTerm(w, p)) == 1) {
			st.setG("put", xv, "")
			r.OK(pos, "index of the entry stored in its timer")
		}
		if n, ok := w.isInt(); ok && n == 0 && st.g("out", xv) != "" {
			st.setG("out", xv, "")
			r.OK(pos, "timer of a removed entry is idle")
		}
	}
	// an entry is put into the table
	put := func(x *Exec, st *State, fr *Frame, pos token.Pos, idx, xv, ev *Term) {
		m.sites["entries put"]++
		st.setG("put", xv, "1")
		st.vals[gk("putidx", xv)] = idx
		link(st, pos, xv)
		if ev == nil {
			r.Add(pos, "deadline", fnName(fr.fn), st, "an entry is armed without deadline")
			return
		}
		if x.root != m.after || len(x.args) < 3 {
			return
		}
		d := x.args[1]
		m.seenNow(st, ev)
		for _, n := range m.nows(st) {
			if st.prove(sub(ev, add(n, d))) {
				r.OK(pos, "deadline is now plus the requested duration")
				if xv != x.args[2] {
					r.Add(pos, "deadline", fnName(fr.fn), st, "the armed callback is not the one that was given")
				}
				return
			}
		}
		r.Add(pos, "deadline", fnName(fr.fn), st, "the deadline %s is not known to be at least now plus the requested duration", ev)
	}
	mon.Store = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, addr, old, val *Term) {
		if in == nil {
			return
		}
		if t := timerFld(addr); t != nil {
			st.vals[gk("link", t)] = val
			for _, k := range []string{"put", "out"} {
				st.eachG(k, func(xv *Term, v string) {
					if m.timerOf(xv) == t {
						link(st, in.Pos(), xv)
					}
				})
			}
			return
		}
		if it := m.itemOf(addr, m.iX); it != nil {
			if a, ok := addrRootAlloc(it); ok && st.private(a) {
				return
			}
			if val.isNil() {
				if old != nil && !old.isNil() {
					m.sites["entries taken out"]++
					st.setG("out", old, "1")
					st.setG("put", old, "")
					st.vals[gk("taken", old)] = tTrue
					link(st, in.Pos(), old)
					if x.root == m.stop && it.Op == TIndex {
						k := it.Args[1]
						if !(k.Op == TSym && k.Org != nil && k.Org.Op == TField && fieldOwner[k.Org] == m.tKey && k.Org.Args[0] == x.self && k.Seq > lockSeq(st)) {
							r.Add(in.Pos(), "stops another timer", fnName(fr.fn), st, "Stop removes entry %s, which is not the index read from its own timer under the lock", k)
						} else if st.eval(not(eqTerm(k, num(0)))) != 1 {
							r.Add(in.Pos(), "stops another timer", fnName(fr.fn), st, "Stop removes an entry although the timer may be idle")
						} else {
							r.OK(in.Pos(), "Stop removes only its own entry")
						}
					}
				}
				return
			}
			st.vals[gk("newx", it)] = val
			if e := st.vals[gk("newe", it)]; e != nil && it.Op == TIndex {
				put(x, st, fr, in.Pos(), it.Args[1], val, e)
				delete(st.vals, gk("newe", it))
				delete(st.vals, gk("newx", it))
			}
			return
		}
		if it := m.itemOf(addr, m.iE); it != nil {
			if a, ok := addrRootAlloc(it); ok && st.private(a) {
				return
			}
			if xv := st.vals[gk("newx", it)]; xv != nil && it.Op == TIndex {
				put(x, st, fr, in.Pos(), it.Args[1], xv, val)
				delete(st.vals, gk("newx", it))
			} else if n, ok := val.isInt(); !ok || n != 0 {
				st.vals[gk("newe", it)] = val
			}
		}
	}
	mon.Append = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, res, dst, src *Term) {
		v, ok := in.(*ssa.Call)
		if !ok {
			return
		}
		sl, ok := under(v.Type()).(*types.Slice)
		if !ok || !types.Identical(sl.Elem(), m.item) || res.Op != TSlice {
			return
		}
		idx := lenOf(dst, v.Type())
		el := indexAddr(res.Args[0], idx, m.item)
		xv := st.mem[fieldAddr(el, m.item, m.iX)]
		ev := st.mem[fieldAddr(el, m.item, m.iE)]
		if xv != nil && !xv.isNil() {
			put(x, st, fr, in.Pos(), idx, xv, ev)
		}
	}
	mon.Call = func(x *Exec, st *State, fr *Frame, ci *CallInfo) ([]Outcome, bool) {
		if m.isTimerCall(ci) {
			return one(st, m.timerOf(ci.Recv)), true
		}
		if ci.Fn != nil && ci.Fn == m.after && ci.Fn != x.root && len(ci.Args) == 3 {
			m.sites["timers armed"]++
			t, e := ci.Args[0], ci.Args[2]
			if e.Op == TIface && t.Op == TField && e.Args[0] != t.Args[0] {
				r.Add(ci.Instr.Pos(), "deadline", fnName(fr.fn), st, "a timer is armed with the callback of another object")
			}
			for i, p := range x.root.Params {
				if i == 0 || i >= len(x.args) || x.root.Signature.Recv() == nil || !types.Implements(x.root.Params[0].Type(), under(m.exp).(*types.Interface)) {
					continue
				}
				if n := namedOf(p.Type()); n == nil || n.Obj().Name() != "Duration" {
					continue
				}
				if !st.prove(sub(ci.Args[1], x.args[i])) {
					r.Add(ci.Instr.Pos(), "deadline", fnName(fr.fn), st, "the timer is armed with %s, which is not known to be at least the requested %s", ci.Args[1], x.args[i])
				} else {
					r.OK(ci.Instr.Pos(), "timer armed with the requested duration")
				}
			}
		}
		if ci.Fn != nil && ci.Fn != x.root && (ci.Fn == m.after || ci.Fn == m.stop) {
			return one(st), true // examined on their own
		}
		if ci.Method == nil || ci.Fn != nil || ci.Method.Name() != "Expire" || !types.Identical(recvIface(ci), m.exp) {
			return nil, false
		}
		pos := ci.Instr.Pos()
		m.sites["callbacks"]++
		it := st.vals[gk("itemof", ci.Recv)]
		if it == nil {
			r.Add(pos, "fires early", fnName(fr.fn), st, "the callback %s that is run is not known to come from the timer table", ci.Recv)
			return nil, false
		}
		e := st.vals[gk("e", it)]
		past := false
		if e != nil {
			for _, c := range append(m.nows(st), m.cmp(st, e)...) {
				m.seenNow(st, c)
				if nowish(c) && st.prove(sub(c, e)) {
					past = true
				}
			}
		}
		if !past {
			r.Add(pos, "fires early", fnName(fr.fn), st, "a callback is run although its own deadline was not found to be past")
		} else {
			r.OK(pos, "callback runs only past its deadline")
		}
		if st.vals[gk("taken", ci.Recv)] == nil {
			r.Add(pos, "fires twice", fnName(fr.fn), st, "a callback is run before its entry was taken out of the table")
		} else {
			r.OK(pos, "entry taken out before its callback runs")
		}
		if m.heapLocked(st) {
			r.Add(pos, "callback under the timer lock", fnName(fr.fn), st, "a callback is run while the timer table is locked")
		}
		return nil, false
	}
	mon.Lock = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, op string, addr *Term) {
		if fieldOwner[addr] != m.hKey {
			return
		}
		switch op {
		case "locked":
			st.vals["lockseq"] = num(int64(TT.seq))
		case "unlock":
			st.eachG("put", func(xv *Term, v string) {
				r.Add(in.Pos(), "entry not linked", fnName(fr.fn), st, "an entry is put into the table without its index being stored in its timer: it cannot be stopped")
				st.setG("put", xv, "")
			})
			st.eachG("out", func(xv *Term, v string) {
				r.Add(in.Pos(), "entry still linked", fnName(fr.fn), st, "an entry is taken out of the table but its timer still refers to it: a later stop removes the entry of another timer")
				st.setG("out", xv, "")
			})
		}
	}
	var roots []*ssa.Function
	for _, fn := range P.Roots("") {
		if mon.Relevant(fn) {
			roots = append(roots, fn)
		}
	}
	runRoots(P, r, mon, roots)
	m.disarm(P, r)
	for k, v := range m.sites {
		r.Counts["events: "+k] = v
	}
	r.Floor("entries put into the table", m.sites["entries put"], 1)
	r.Floor("entries taken out of the table", m.sites["entries taken out"], 1)
	r.Floor("callbacks run", m.sites["callbacks"], 1)
	r.Floor("completions", m.sites["completions"], 3)
}

func nowish(t *Term) bool { return nowTerm(t) }

// cmp: clock readings that facts compare with e.
func (m *timerM) cmp(st *State, e *Term) []*Term {
	var l []*Term
	st.eachFact(func(f *Term) bool {
		f.walk(func(y *Term) bool {
			if nowTerm(y) {
				l = append(l, y)
				return false
			}
			return true
		})
		return true
	})
	return l
}

func lockSeq(st *State) int {
	if v := st.vals["lockseq"]; v != nil {
		n, _ := v.isInt()
		return int(n)
	}
	return 1 << 60
}

func stripConv(t *Term) *Term {
	for t != nil && t.Op == TConv && len(t.Args) == 1 {
		t = t.Args[0]
	}
	return t
}

func addrRootAlloc(a *Term) (*Term, bool) {
	r := addrRoot(a)
	return r, r.Op == TAlloc
}

// disarm: completion stops the timer.
func (m *timerM) disarm(P *Program, r *Report) {
	a := newAnsM(P, r, "")
	multi, mres := P.Type("", "MultiRequest"), P.Type("", "MultiResponse")
	if a == nil || multi == nil || mres == nil {
		r.Add(0, "undecided", "", nil, "types Request, MultiRequest or MultiResponse not found")
		return
	}
	mKey := types.TypeString(multi, nil)
	field := func(t types.Type) int {
		s := under(t).(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if types.Identical(s.Field(i).Type(), m.timer) {
				return i
			}
		}
		return -1
	}
	rt, mt := field(a.req), field(multi)
	if rt < 0 || mt < 0 {
		r.Add(0, "undecided", "", nil, "the timer field of Request or MultiRequest was not found")
		return
	}
	mon := &Monitor{Name: "disarm", Unroll: -1, NoLockCk: true}
	mon.Relevant = func(fn *ssa.Function) bool {
		return fn != m.stop && P.CG().Reaches("disarm", fn, func(in ssa.Instruction) bool {
			if fa, ok := in.(*ssa.FieldAddr); ok {
				k, _ := keyOfFA(fa)
				return k.owner == a.reqKey && fa.Field == a.iState || k.owner == mKey
			}
			return false
		})
	}
	mon.Volatile = func(x *Exec, st *State, addr *Term) bool {
		return a.fld(addr, a.reqKey, a.iState) != nil && !st.protected(addr)
	}
	mon.NewCell = func(x *Exec, st *State, addr, val *Term) {
		if a.fld(addr, a.reqKey, a.iState) != nil {
			st.dom[val] = append([]int64(nil), a.all...)
		}
	}
	mon.Store = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, addr, old, val *Term) {
		if in == nil {
			return
		}
		if q := a.fld(addr, a.reqKey, a.iState); q != nil && !st.private(q) {
			if p := a.poss(st, val); len(p) == 1 && p[0] == a.rsPerf {
				st.setG("done", fieldAddr(q, a.req, rt), "request")
			}
		}
		if addr.Op == TField && fieldOwner[addr] == mKey && val.Op == TAlloc {
			if _, ok := under(cellType(addr)).(*types.Chan); ok {
				st.vals[gk("chanof", val)] = addr.Args[0]
			}
		}
		if addr.Op == TField && fieldOwner[addr] == mKey && st.g("closed", val) != "" {
			st.setG("closed", val, "")
			st.setG("done", fieldAddr(addr.Args[0], multi, mt), "multi-request")
		}
	}
	mon.Chan = func(x *Exec, st *State, fr *Frame, ev *ChanEv) {
		if ev.Kind != "close" {
			return
		}
		w := st.vals[gk("chanof", ev.Ch)]
		if ev.Ch.Org != nil && ev.Ch.Org.Op == TField && fieldOwner[ev.Ch.Org] == mKey {
			w = ev.Ch.Org.Args[0]
		}
		if w != nil {
			st.setG("done", fieldAddr(w, multi, mt), "multi-request")
		} else {
			st.setG("closed", ev.Ch, "1") // may be the channel of a multi-request, published later
		}
	}
	mon.Call = func(x *Exec, st *State, fr *Frame, ci *CallInfo) ([]Outcome, bool) {
		if ci.Fn == m.stop {
			st.setG("stop", ci.Args[0], "1")
			st.note(ci.Instr.Pos(), "timer %s stopped", ci.Args[0])
			return one(st), true
		}
		return nil, false
	}
	mon.End = func(x *Exec, o *Outcome) {
		if o.kind != OutReturn {
			return
		}
		sig := x.root.Signature
		if sig.Results().Len() == 1 && types.Identical(sig.Results().At(0).Type(), mres) && x.self != nil && namedOf(sig.Recv().Type()) != nil && types.Identical(namedOf(sig.Recv().Type()), multi) {
			o.st.setG("done", fieldAddr(x.self, multi, mt), "multi-request")
		}
		o.st.eachG("done", func(t *Term, v string) {
			m.sites["completions"]++
			if o.st.g("stop", t) == "" {
				r.Add(o.pos, "timer left armed", fnName(x.root), o.st, "a %s is completed but its timer is not stopped", v)
			} else {
				r.OK(o.pos, "completion of a "+v+" stops its timer")
			}
		})
	}
	var roots []*ssa.Function
	for _, fn := range P.Roots("") {
		if mon.Relevant(fn) {
			roots = append(roots, fn)
		}
	}
	mon.RootSumm = true
	runRoots(P, r, mon, roots)
}
