package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// C03: the end of a client connection.

func init() {
	register(&checkDef{id: "C03", run: func(P *Program, r *Report) { checkClientEnd(P, r); checkClient(P, r, "C03") },
		rule:  "typestate over the goroutines of a client connection, path by path: reader and writer tell the control loop that they are done exactly once, as their last action, with different messages, on every way out; the control loop records a direction as done exactly when told so and goes on until both are; then every place of every row of the table is visited and the request in it, if any, is failed, with the shutdown code exactly if the connection was marked as stopped on purpose; the writer marks it exactly when it finds it was stopped; when the writer is done and the control loop finds nothing outstanding it stops the reader, and it is told again by the reader whenever the last outstanding request was answered; a place that was taken for no request is given back before the writer reports its end",
		assum: []string{"CloseRead makes a blocked read return with an error", "a failed request is answered unless it was answered before (R01)"}})
}

func checkClientEnd(P *Program, r *Report) {
	const pk = "net/client/connection"
	m := newCliM(P, r)
	if m == nil {
		return
	}
	cs := under(m.conn).(*types.Struct)
	ck := types.TypeString(m.conn, nil)
	state, notify, nc, holder, stopF := -1, -1, -1, -1, -1
	stT := P.Type(pk, "ConnState")
	for i := 0; i < cs.NumFields(); i++ {
		t := cs.Field(i).Type()
		switch u := t.Underlying().(type) {
		case *types.Chan:
			if n := namedOf(u.Elem()); n != nil && isIntType(n) && n.Obj().Pkg() == namedOf(m.conn).Obj().Pkg() {
				notify = i
			}
		case *types.Interface:
			if n := namedOf(t); n != nil && n.Obj().Name() == "NetConn" {
				nc = i
			}
		case *types.Basic:
			if u.Kind() == types.Bool {
				stopF = i
			}
		}
		if stT != nil && types.Identical(t, stT) {
			state = i
		}
		if types.Identical(t, m.holder) {
			holder = i
		}
	}
	csR, ok1 := P.Const(pk, "CsReadClosed")
	csW, ok2 := P.Const(pk, "CsWriteClosed")
	rcIO, ok3 := P.Const("", "RcIOError")
	rcSD, ok4 := P.Const("", "RcShutdown")
	if state < 0 || notify < 0 || nc < 0 || holder < 0 || stopF < 0 || !ok1 || !ok2 || !ok3 || !ok4 {
		r.Add(0, "undecided", "", nil, "the fields of a client connection were not recognised")
		return
	}
	cfld := func(addr *Term, i int) *Term {
		if addr != nil && addr.Op == TField && addr.N == i && fieldOwner[addr] == ck {
			return addr.Args[0]
		}
		return nil
	}
	notifyElem := under(cs.Field(notify).Type()).(*types.Chan).Elem()
	reader, writer, control, ok := connLoops(P, r, m, notifyElem)
	if !ok {
		return
	}
	readers, writers, controls := []*ssa.Function{reader}, []*ssa.Function{writer}, []*ssa.Function{control}
	sites := map[string]int{}
	bad := func(pos token.Pos, rule string, fr *Frame, st *State, f string, args ...interface{}) {
		fn := ""
		if fr != nil {
			fn = fnName(fr.fn)
		}
		r.Add(pos, rule, fn, st, f, args...)
	}
	isNotify := func(ch *Term, el types.Type) bool {
		return ch != nil && (ch.Org != nil && cfld(ch.Org, notify) != nil || ch.Org == nil && el != nil && types.Identical(el, notifyElem))
	}
	var exitElem types.Type
	if f := P.Method("", "SimplePoint", "ExitChan"); f != nil {
		if c, ok := under(f.Signature.Results().At(0).Type()).(*types.Chan); ok {
			exitElem = c.Elem()
		}
	}
	base := func() *Monitor {
		mon := &Monitor{Name: "client end", Unroll: -1, NoLockCk: true, JoinAt: 200, JoinBlk: 200, FlagSplit: true}
		mon.Relevant = func(fn *ssa.Function) bool { return P.relPkg(fn) == pk }
		return mon
	}
	// the number of requests outstanding: two counters of the table that are known to differ
	counters := func(o *Term) bool {
		return o.Op == TField && fieldOwner[o] == m.hk && isIntType(o.Typ) && intBits(o.Typ) == 64
	}
	outstanding := func(st *State, since int) bool { // some are known to be
		var cs []*Term
		st.symsOf(counters, func(v *Term) {
			if v.Seq > since {
				cs = append(cs, v)
			}
		})
		for i, a := range cs {
			for _, b := range cs[:i] {
				if a.Org != b.Org && st.eval(eqTerm(a, b)) == 0 {
					return true
				}
			}
		}
		return false
	}
	// 1: how reader and writer leave
	terms := map[*ssa.Function]map[int64]bool{readers[0]: {}, writers[0]: {}}
	other := map[int64]bool{}
	leave := base()
	leave.Volatile = func(x *Exec, st *State, addr *Term) bool { return cfld(addr, state) != nil || counters(addr) }
	leave.Chan = func(x *Exec, st *State, fr *Frame, ev *ChanEv) {
		if ev.Kind == "default" || ev.Elem == nil {
			return
		}
		pos := ev.Instr.Pos()
		switch {
		case ev.Kind == "send" && isNotify(ev.Ch, ev.Elem):
			sites["messages to the control loop"]++
			n, ok := ev.Val.isInt()
			if !ok {
				bad(pos, "wrong message", fr, st, "the control loop is sent something else than a constant")
				return
			}
			if !ev.Block {
				bad(pos, "message lost", fr, st, "a message to the control loop may be dropped")
			}
			st.setG("msgs", num(n), st.g("msgs", num(n))+"+")
			if len(st.g("msgs", num(n))) > 2 {
				st.setG("msgs", num(n), "++")
			}
			st.setG("told", nil, "1")
			st.vals["last"] = num(n)
		case ev.Kind == "recv" && exitElem != nil && x.root == writers[0] && types.Identical(ev.Elem, exitElem):
			st.setG("stopped", nil, "1")
		}
	}
	isStopped := func(ci *CallInfo) bool {
		return ci.Fn != nil && ci.Fn.Name() == "Stopped" && P.relPkg(ci.Fn) == "" && !ci.Go
	}
	leave.Call = func(x *Exec, st *State, fr *Frame, ci *CallInfo) ([]Outcome, bool) {
		if ci.Fn == nil || ci.Go {
			return nil, false
		}
		switch {
		case x.root == writers[0] && isStopped(ci):
			s2 := st.clone()
			st.setG("stopped", nil, "1")
			return []Outcome{{st: st, vals: []*Term{tTrue}}, {st: s2, vals: []*Term{tFalse}}}, true
		case isReadFrame(ci.Fn, m.resp) || ci.Fn == m.respondB || ci.Fn == m.respond:
			st.setG("told", nil, "")
		}
		return nil, false
	}
	leave.Store = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, addr, old, val *Term) {
		if in == nil {
			return
		}
		if cfld(addr, stopF) != nil {
			sites["marks of a stop"]++
			switch {
			case x.root != writers[0]:
				bad(in.Pos(), "wrong code", fr, st, "a connection is marked as stopped by something else than its writer")
			case st.eval(val) != 1:
				bad(in.Pos(), "wrong code", fr, st, "the mark that the connection was stopped is not set but changed otherwise")
			default:
				st.setG("marked", nil, "1")
			}
		}
		if s := m.idCell(addr); s != nil && x.root == readers[0] && st.eval(eqTerm(val, num(0))) == 1 {
			st.setG("released", nil, "1")
			st.vals["since"] = fresh("since", tyInt)
			st.setG("told", nil, "")
		}
		if counters(addr) && x.root == readers[0] {
			st.vals["since"] = fresh("since", tyInt)
			st.setG("told", nil, "")
		}
		if cfld(addr, state) != nil && (x.root == readers[0] || x.root == writers[0]) {
			bad(in.Pos(), "state", fr, st, "the state of a connection is changed by something else than its control loop")
		}
	}
	since := func(st *State) int {
		if s := st.vals["since"]; s != nil {
			return s.Seq
		}
		return -1
	}
	leave.Branch = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, cond *Term, taken bool) {
		if x.root != readers[0] || st.g("released", nil) == "" {
			return
		}
		// is it known that the control loop need not be told?
		fine := outstanding(st, since(st))
		st.symsOf(func(o *Term) bool { return cfld(o, state) != nil }, func(v *Term) {
			if v.Seq > since(st) && st.masked(v, csW, csW) == 0 {
				fine = true
			}
		})
		if fine {
			st.setG("fine", nil, "1")
		}
	}
	leave.BackEdge = func(x *Exec, st *State, fr *Frame, h *ssa.BasicBlock) {
		if x.root != readers[0] || st.g("released", nil) == "" {
			return
		}
		sites["answers taken"]++
		if st.g("fine", nil) == "" && st.g("told", nil) == "" {
			bad(h.Instrs[0].Pos(), "never closed", fr, st, "the reader goes on after an answer although it may have been the last one outstanding after the writer was done, without telling the control loop: the connection is not closed")
		} else {
			r.OK(h.Instrs[0].Pos(), "control loop told of the last answer")
		}
		for _, k := range []string{"released", "fine", "told"} {
			st.setG(k, nil, "")
		}
	}
	leave.End = func(x *Exec, o *Outcome) {
		st := o.st
		if o.kind != OutReturn {
			return
		}
		fr := &Frame{fn: x.root}
		sites["ways out of reader and writer"]++
		l := st.vals["last"]
		if st.g("told", nil) == "" || l == nil {
			bad(o.pos, "leaves silently", fr, st, "a goroutine of the connection may end without telling the control loop")
			return
		}
		n, _ := l.isInt()
		terms[x.root][n] = true
		st.eachG("msgs", func(t *Term, v string) {
			if k, _ := t.isInt(); k != n {
				other[k] = true
			}
		})
		if st.g("msgs", l) != "+" {
			bad(o.pos, "reports twice", fr, st, "the end of a goroutine may be reported more than once")
		} else {
			r.OK(o.pos, "end reported once, last")
		}
		if x.root == writers[0] {
			if (st.g("stopped", nil) != "") != (st.g("marked", nil) != "") {
				bad(o.pos, "wrong code", fr, st, "the writer leaves %s although it was %s", map[bool]string{true: "with the connection marked as stopped", false: "without marking the connection as stopped"}[st.g("marked", nil) != ""], map[bool]string{true: "stopped", false: "not stopped"}[st.g("stopped", nil) != ""])
			} else {
				r.OK(o.pos, "marked when stopped")
			}
		}
	}
	runRoots(P, r, leave, []*ssa.Function{readers[0], writers[0]})
	one := func(s map[int64]bool) (int64, bool) {
		for n := range s {
			return n, len(s) == 1
		}
		return 0, false
	}
	vR, okR := one(terms[readers[0]])
	vW, okW := one(terms[writers[0]])
	if !okR || !okW || vR == vW || other[vR] || other[vW] {
		bad(readers[0].Pos(), "wrong message", &Frame{fn: readers[0]}, nil, "reader and writer do not report their ends with messages of their own: %v %v %v", terms[readers[0]], terms[writers[0]], other)
		return
	}
	// 2: the control loop, and everything else
	tR, tW := num(vR), num(vW)
	both := csR | csW
	each := newEach(func(pos token.Pos, fr *Frame, st *State, el *Term) {
		bad(pos, "not failed", fr, st, "an outstanding request may be left without an answer when the connection ends")
	})
	c := base()
	ctl := controls[0]
	c.Keep = func(x *Exec, st *State, addr *Term, ci *CallInfo) bool {
		return cfld(addr, state) != nil && x.root == ctl
	}
	var root *ssa.Function
	c.Init = func(x *Exec, st *State, args []*Term) { root = x.root }
	c.NoInline = func(fn *ssa.Function) bool { return fn == ctl && root != ctl }
	c.Volatile = func(x *Exec, st *State, addr *Term) bool { return counters(addr) }
	is := func(st *State, v *Term) int {
		if a := st.vals["act"]; a != nil {
			return st.eval(eqTerm(a, v))
		}
		return 0
	}
	stateOf := func(x *Exec, st *State) *Term {
		a := fieldAddr(x.self, m.conn, state)
		if s := st.mem[a]; s != nil {
			return s
		}
		return x.loadLeaf(st, a, cs.Field(state).Type())
	}
	ptrTo := func(t types.Type, el types.Type) bool {
		p, ok := t.(*types.Pointer)
		return ok && types.Identical(p.Elem(), el)
	}
	// an access to all elements of a collection of requests or places
	goodSweep := func(x *Exec, fn *ssa.Function, ia *ssa.IndexAddr) bool {
		if sl, isS := ia.X.(*ssa.Slice); isS && (sl.Low != nil || sl.High != nil) {
			return false
		}
		t, ok := under(ia.X.Type()).(*types.Slice)
		if !ok || !ptrTo(t.Elem(), m.slot) && !ptrTo(t.Elem(), m.ireq) {
			return false
		}
		load := false
		for _, u := range *ia.Referrers() {
			l, ok := u.(*ssa.UnOp)
			load = load || ok && l.Op == token.MUL
		}
		return load && !startsLate(ia.Index) && leavesAtEnd(x, fn, ia.Block())
	}
	isPlaces := func(ia *ssa.IndexAddr) bool {
		p, ok := under(ia.X.Type()).(*types.Pointer)
		if !ok {
			return false
		}
		a, ok := under(p.Elem()).(*types.Array)
		return ok && types.Identical(a.Elem(), m.slot)
	}
	// places and requests without anything to answer
	settle := func(st *State) {
		st.eachG("el", func(el *Term, k string) {
			if !ptrTo(el.Typ, m.slot) && el.Op != TIndex {
				return
			}
			done := false
			st.symsOf(func(o *Term) bool { return m.slotOf(o) == el }, func(v *Term) {
				if m.idCell(v.Org) != nil {
					done = done || st.eval(eqTerm(v, num(0))) == 1
				} else if ptrTo(v.Typ, m.ireq) {
					done = done || st.isNilFact(v) == 1
				}
			})
			if done {
				each.served(st, el)
			}
		})
	}
	c.Branch = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, cond *Term, taken bool) {
		settle(st)
		if mr := st.vals["more"]; mr != nil && (cond == mr && !taken || cond == not(mr) && taken) {
			st.setG("swept", nil, "1")
			each.served(st, st.vals["moreel"])
		}
		if x.root != ctl {
			return
		}
		// what the mark of a stop says, read after both directions were done
		st.symsOf(func(o *Term) bool { return cfld(o, stopF) != nil }, func(v *Term) {
			if st.g("late", v) == "" {
				return
			}
			switch st.eval(v) {
			case 1:
				st.setG("sd", nil, "1")
			case 0:
				st.setG("sd", nil, "0")
			}
		})
		if outstanding(st, since(st)) {
			st.setG("more out", nil, "1")
		}
		h := in.Block()
		body := x.loopInfo(fr.fn).body[h]
		if body == nil {
			return
		}
		succ := h.Succs[1]
		if taken {
			succ = h.Succs[0]
		}
		if body[succ] {
			return
		}
		for b := range body {
			for _, i2 := range b.Instrs {
				ia, ok := i2.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				if goodSweep(x, fr.fn, ia) {
					st.setG("owe", nil, "")
				}
				if isPlaces(ia) {
					full := false
					if v := fr.env[ia.Index]; v != nil && !startsLate(ia.Index) && leavesAtEnd(x, fr.fn, ia.Block()) {
						full = st.eval(ge0(sub(v, num(m.n)))) == 1
					}
					if fa, ok := ia.X.(*ssa.FieldAddr); ok && full && fr.env[fa.X] != nil {
						each.served(st, fr.env[fa.X])
					}
					if a := fr.env[ia.X]; full && a != nil && a.Op == TField {
						each.served(st, a.Args[0])
					}
				}
			}
		}
	}
	c.Loaded = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, addr, val *Term) {
		if x.root == ctl && cfld(addr, stopF) != nil && st.masked(stateOf(x, st), both, both) == 1 {
			st.setG("late", val, "1")
		}
		if s := m.slotOf(addr); s != nil && x.root == ctl {
			if row, _ := m.rowOf(s); row != nil && st.g("seen", s) == "" {
				st.setG("seen", s, "1")
				each.taken(st, in, s)
				sites["places visited"]++
			}
			if ptrTo(val.Typ, m.ireq) {
				st.vals[gk("holds", val)] = s
			}
		}
		if u, ok := in.(*ssa.UnOp); ok {
			if ia, ok := u.X.(*ssa.IndexAddr); ok && x.root == ctl && goodSweep(x, fr.fn, ia) {
				each.taken(st, in, val)
			}
		}
	}
	// handed on to a collection that will be gone through
	handed := func(st *State, v *Term) {
		if v == nil {
			return
		}
		if each.served(st, v) {
			st.setG("owe", nil, "1")
		} else if s := st.vals[gk("holds", v)]; s != nil && each.served(st, s) {
			st.setG("owe", nil, "1")
		}
	}
	c.Append = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, res, dst, src *Term) {
		v, isV := in.(ssa.Value)
		if !isV {
			return
		}
		n, ok := lenOf(src, v.Type()).isInt()
		sl, isS := under(v.Type()).(*types.Slice)
		if !isS || src.Op != TSlice || !ok || n > 8 {
			return
		}
		for i := int64(0); i < n; i++ {
			handed(st, st.mem[indexAddr(src.Args[0], add(src.Args[1], num(i)), sl.Elem())])
		}
	}
	c.Map = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, op string, mp, k, v *Term) {
		if op != "range" || m.rowsOf(mp) == nil || x.root != ctl {
			return
		}
		sites["sweeps of the table"]++
		if st.masked(stateOf(x, st), both, both) != 1 {
			bad(in.Pos(), "fails early", fr, st, "outstanding requests are failed although an answer may still come")
		}
		va, _ := mapCells(mp, k, types.NewPointer(m.row))
		el := x.loadLeaf(st, va, types.NewPointer(m.row))
		each.taken(st, in, el)
		st.vals["more"], st.vals["moreel"] = v, el
		if !leavesAtEnd(x, fr.fn, in.Block()) {
			st.setG("partial", nil, "1")
		}
	}
	c.Call = func(x *Exec, st *State, fr *Frame, ci *CallInfo) ([]Outcome, bool) {
		if x.root != ctl || ci.Go {
			return nil, false
		}
		name := ci.Name()
		if ci.Method != nil {
			name = ci.Method.Name()
		}
		if name == "CloseRead" && ci.Recv != nil && ci.Recv.Org != nil && cfld(ci.Recv.Org, nc) != nil {
			st.setG("closedread", nil, "1")
		}
		if ci.Fn != nil && len(ci.Args) > 1 && (ci.Fn == m.fin || ci.Fn == m.respondB || ci.Fn == m.respond) {
			sites["requests failed"]++
			q, pos := ci.Args[0], ci.Instr.Pos()
			want := ""
			n, isN := ci.Args[1].isInt()
			switch {
			case isN && n == rcSD && rcSD != rcIO:
				want = "1"
			case isN && n == rcIO:
				want = "0"
			}
			switch {
			case want == "":
				bad(pos, "wrong code", fr, st, "an outstanding request is failed with a code other than those for I/O errors and shutdown")
			case st.g("sd", nil) != want:
				bad(pos, "wrong code", fr, st, "the code of an outstanding request does not tell whether the connection was stopped on purpose")
			default:
				r.OK(pos, "failed with the right code")
			}
			if !each.served(st, q) {
				if s := st.vals[gk("holds", q)]; s != nil {
					each.served(st, s)
				}
			}
		}
		return nil, false
	}
	c.Chan = func(x *Exec, st *State, fr *Frame, ev *ChanEv) {
		if ev.Kind == "default" {
			return
		}
		pos := token.NoPos
		if ev.Instr != nil {
			pos = ev.Instr.Pos()
		}
		switch {
		case ev.Kind == "send" && isNotify(ev.Ch, ev.Elem):
			if x.root != readers[0] && x.root != writers[0] {
				bad(pos, "reports twice", fr, st, "the control loop is told of an end by something else than the reader and the writer")
			}
		case ev.Kind == "recv" && isNotify(ev.Ch, ev.Elem) && x.root == ctl:
			sites["messages received"]++
			if st.g("again", nil) != "" && st.g("notboth", nil) == "" {
				if s := st.mem[fieldAddr(x.self, m.conn, state)]; s == nil || st.masked(s, both, both) != 0 {
					bad(pos, "waits for ever", fr, st, "the control loop may wait for more messages although both directions are done")
				}
			}
			st.setG("notboth", nil, "")
			st.setG("more out", nil, "")
			st.setG("sd", nil, "")
			st.vals["act"] = ev.Val
			st.setG("act", ev.Val, "1")
			stateOf(x, st)
			st.vals["since"] = fresh("since", tyInt)
		}
	}
	c.Store = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, addr, old, val *Term) {
		if in == nil {
			return
		}
		pos := in.Pos()
		if x.root == ctl {
			if h := m.hfld(addr, m.reqs); h != nil && !st.private(h) && st.g("swept", nil) == "" {
				bad(pos, "not failed", fr, st, "the table of outstanding requests is dropped before they are failed")
			}
			if _, ok := in.(*ssa.Store); ok && addr.Op == TIndex && (val.Op == TIndex || val.Op == TSym) {
				handed(st, val)
			}
		}
		cn := cfld(addr, state)
		if cn == nil || st.private(cn) || x.root == readers[0] || x.root == writers[0] {
			return
		}
		o := before(st, addr, old)
		sites["state changes"]++
		if x.root != ctl {
			if st.g("started", nil) != "" {
				bad(pos, "state", fr, st, "the state of a connection is changed by something else than its control loop")
			}
			return
		}
		st.vals["since"] = fresh("since", tyInt)
		st.setG("more out", nil, "")
		bs := st.bitsOf(val, o)
		for _, w := range []struct {
			bit int64
			v   *Term
			n   string
		}{{csR, tR, "reader"}, {csW, tW, "writer"}} {
			for i, b := range constBits(w.bit) {
				if b != '1' {
					continue
				}
				switch {
				case bs[i] == 'o':
				case bs[i] == '1' && (is(st, w.v) == 1 || st.masked(o, w.bit, w.bit) == 1):
				case bs[i] == '1':
					bad(pos, "state", fr, st, "the %s is recorded as done although it may not be", w.n)
				default:
					bad(pos, "state", fr, st, "it is forgotten that the %s is done", w.n)
				}
			}
		}
	}
	round := func(x *Exec, st *State, fr *Frame, pos token.Pos, end bool) {
		if _, possible := st.knownBits(); !possible || st.vals["act"] == nil || x.self == nil {
			st.setG("notboth", nil, "1")
			return
		}
		s := stateOf(x, st)
		sites["rounds of the control loop"]++
		for _, w := range []struct {
			bit int64
			v   *Term
			n   string
		}{{csR, tR, "reader"}, {csW, tW, "writer"}} {
			if k := is(st, w.v); k != 0 && (k != 1 || st.masked(s, w.bit, w.bit) != 1) {
				bad(pos, "state", fr, st, "the end of the %s may not be recorded", w.n)
			} else {
				r.OK(pos, "end of the "+w.n+" recorded")
			}
		}
		bothSet := st.masked(s, both, both)
		if bothSet != 1 && st.masked(s, csR, csR) != 1 && st.masked(s, csW, csW) != 0 && st.g("closedread", nil) == "" && st.g("more out", nil) == "" {
			bad(pos, "never closed", fr, st, "the writer is done, but the reader is not stopped although nothing may be outstanding")
		} else {
			r.OK(pos, "reader stopped when nothing is outstanding")
		}
		switch {
		case end && bothSet != 1:
			bad(pos, "leaves early", fr, st, "the control loop may end before both directions are done")
		case !end:
			st.setG("again", nil, "1")
			if bothSet == 0 {
				st.setG("notboth", nil, "1")
			}
		default:
			r.OK(pos, "control loop")
		}
	}
	c.BackEdge = func(x *Exec, st *State, fr *Frame, h *ssa.BasicBlock) {
		if x.root == ctl {
			settle(st)
			each.backEdge(x, st, fr, h)
		}
		la := fr.loops[h]
		if la != nil {
			st.eachG("seen", func(t *Term, v string) {
				if born(t) > la.seq {
					st.setG("seen", t, "")
				}
			})
		}
		if x.root != ctl {
			return
		}
		a := st.vals["act"]
		if a == nil || la == nil || a.Seq <= la.seq || st.g("act", a) == "" {
			return
		}
		round(x, st, fr, h.Instrs[0].Pos(), false)
		st.eachG("act", func(t *Term, v string) { st.setG("act", t, "") })
	}
	c.Go = func(x *Exec, st *State, fr *Frame, ci *CallInfo) {
		if ci.Fn != nil && (ci.Fn == readers[0] || ci.Fn == writers[0] || ci.Fn == ctl) {
			st.setG("started", nil, "1")
		}
	}
	c.End = func(x *Exec, o *Outcome) {
		st := o.st
		if o.kind != OutReturn || x.root != ctl {
			return
		}
		fr := &Frame{fn: x.root}
		settle(st)
		each.end(st, fr)
		if st.vals["act"] != nil && st.g("act", st.vals["act"]) != "" {
			round(x, st, fr, o.pos, true)
		} else if st.masked(stateOf(x, st), both, both) != 1 {
			bad(o.pos, "leaves early", fr, st, "the control loop may end before both directions are done")
		}
		if st.g("swept", nil) == "" || st.g("partial", nil) != "" || st.g("owe", nil) != "" {
			bad(o.pos, "not failed", fr, st, "when the connection ends not all outstanding requests are failed")
		} else {
			r.OK(o.pos, "outstanding requests failed")
		}
	}
	runRoots(P, r, c, P.Roots(pk))
	for k, v := range sites {
		r.Counts["events: "+k] = v
	}
	for _, k := range []string{"messages to the control loop", "ways out of reader and writer", "marks of a stop", "answers taken", "messages received", "sweeps of the table", "places visited", "requests failed", "state changes", "rounds of the control loop"} {
		r.Floor(k, sites[k], 1)
	}
}

// connLoops: the goroutines of a client connection.
func connLoops(P *Program, r *Report, m *cliM, notifyElem types.Type) (reader, writer, control *ssa.Function, ok bool) {
	const pk = "net/client/connection"
	cg := P.CG()
	started := startedByGo(P)
	isRecv := func(in ssa.Instruction) bool {
		switch v := in.(type) {
		case *ssa.UnOp:
			if v.Op == token.ARROW {
				c, ok := under(v.X.Type()).(*types.Chan)
				return ok && types.Identical(c.Elem(), notifyElem)
			}
		case *ssa.Select:
			for _, s := range v.States {
				if c, ok := under(s.Chan.Type()).(*types.Chan); ok && s.Dir == types.RecvOnly && types.Identical(c.Elem(), notifyElem) {
					return true
				}
			}
		}
		return false
	}
	var readers, writers, controls []*ssa.Function
	for _, fn := range P.Roots(pk) {
		if !started[fn] || !isMethodOf(fn, m.conn) {
			continue
		}
		if cg.Reaches("c3read", fn, func(in ssa.Instruction) bool {
			c, ok := in.(ssa.CallInstruction)
			return ok && isReadFrame(c.Common().StaticCallee(), m.resp)
		}) {
			readers = append(readers, fn)
		}
		if cg.Reaches("c3write", fn, func(in ssa.Instruction) bool {
			c, ok := in.(ssa.CallInstruction)
			return ok && isWriteFrame(c.Common().StaticCallee(), m.req)
		}) {
			writers = append(writers, fn)
		}
		if cg.Reaches("c3ctl", fn, isRecv) {
			controls = append(controls, fn)
		}
	}
	if len(readers) != 1 || len(writers) != 1 || len(controls) != 1 || readers[0] == writers[0] || readers[0] == controls[0] || writers[0] == controls[0] {
		r.Add(0, "undecided", "", nil, "the reader, the writer and the control loop of a client connection were not recognised")
		return nil, nil, nil, false
	}
	return readers[0], writers[0], controls[0], true
}

// notifyField: the channel on which a client connection's goroutines tell the
// control loop what happened.
func notifyField(conn types.Type) int {
	cs := under(conn).(*types.Struct)
	for i := 0; i < cs.NumFields(); i++ {
		if u, ok := cs.Field(i).Type().Underlying().(*types.Chan); ok {
			if n := namedOf(u.Elem()); n != nil && isIntType(n) && n.Obj().Pkg() == namedOf(conn).Obj().Pkg() {
				return i
			}
		}
	}
	return -1
}
