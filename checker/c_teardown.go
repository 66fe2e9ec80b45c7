package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// S03: the end of a server connection.

func init() {
	register(&checkDef{id: "S03", run: checkTeardown,
		rule:  "typestate over the goroutines of a server connection, path by path: starting a connection starts its reader, its writer and its control loop once each; reader and writer tell the control loop that they are done exactly once, as their last action, with different messages, on every way out; the control loop records a direction as done exactly when told so, goes on until both are, and then reports the connection closed exactly once; the output is closed only when the reader is done and nothing is in work or queued, in the critical section that records that, and is closed then; the writer sleeps only after it found, under the lock, the overflow queue empty and more answers possible, and leaves in order only when no more are; when the writer is done every request in work is cancelled and reading is stopped",
		assum: []string{"CloseRead makes a blocked read return with an error", "a cancelled or answered request is answered through its connection (R01)"}})
}

func checkTeardown(P *Program, r *Report) {
	m := newSrvM(P, r)
	if m == nil {
		return
	}
	notifyElem := under(under(m.conn).(*types.Struct).Field(m.notify).Type()).(*types.Chan).Elem()
	cg := P.CG()
	has := func(name string, fn *ssa.Function, pred func(ssa.Instruction) bool) bool {
		return cg.Reaches(name, fn, pred)
	}
	started := startedByGo(P)
	var readers, writers, controls []*ssa.Function
	recvOf := func(el types.Type) func(in ssa.Instruction) bool {
		return func(in ssa.Instruction) bool {
			switch v := in.(type) {
			case *ssa.UnOp:
				if v.Op == token.ARROW {
					if c, ok := under(v.X.Type()).(*types.Chan); ok {
						return types.Identical(c.Elem(), el)
					}
				}
			case *ssa.Select:
				for _, s := range v.States {
					if c, ok := under(s.Chan.Type()).(*types.Chan); ok && s.Dir == types.RecvOnly && types.Identical(c.Elem(), el) {
						return true
					}
				}
			}
			return false
		}
	}
	for _, fn := range P.Roots("net/server") {
		if !started[fn] || !isMethodOf(fn, m.conn) {
			continue
		}
		if has("s3read", fn, func(in ssa.Instruction) bool {
			c, ok := in.(ssa.CallInstruction)
			return ok && isReadFrame(c.Common().StaticCallee(), m.frame)
		}) {
			readers = append(readers, fn)
		}
		if has("s3write", fn, func(in ssa.Instruction) bool {
			c, ok := in.(ssa.CallInstruction)
			return ok && isWriteFrame(c.Common().StaticCallee(), m.resp)
		}) {
			writers = append(writers, fn)
		}
		if has("s3ctl", fn, recvOf(notifyElem)) {
			controls = append(controls, fn)
		}
	}
	if len(readers) != 1 || len(writers) != 1 || len(controls) != 1 || readers[0] == writers[0] {
		r.Add(0, "undecided", "", nil, "the reader, the writer and the control loop of a server connection were not recognised")
		return
	}
	in := func(l []*ssa.Function, f *ssa.Function) bool { return len(l) == 1 && l[0] == f }
	sites := map[string]int{}
	bad := func(pos token.Pos, rule string, fr *Frame, st *State, f string, args ...interface{}) {
		fn := ""
		if fr != nil {
			fn = fnName(fr.fn)
		}
		r.Add(pos, rule, fn, st, f, args...)
	}
	isNotify := func(ch *Term, el types.Type) bool {
		return ch != nil && (ch.Org != nil && m.cfld(ch.Org, m.notify) != nil || ch.Org == nil && el != nil && types.Identical(el, notifyElem))
	}
	terms := map[*ssa.Function]map[int64]bool{readers[0]: {}, writers[0]: {}}
	other := map[int64]bool{}
	ctl := P.Method("", "Request", "Cancel")
	base := func() *Monitor {
		mon := &Monitor{Name: "teardown", Unroll: -1, NoLockCk: true, JoinAt: 200, JoinBlk: 200}
		mon.Relevant = func(fn *ssa.Function) bool { return P.relPkg(fn) == "net/server" }
		// only the control loop changes the state, as is checked
		mon.Keep = func(x *Exec, st *State, addr *Term, ci *CallInfo) bool {
			return m.cfld(addr, m.state) != nil && in0(controls, x.root)
		}
		return mon
	}
	// 1: how reader and writer leave
	leave := base()
	leave.Chan = func(x *Exec, st *State, fr *Frame, ev *ChanEv) {
		if ev.Kind == "default" || ev.Elem == nil {
			return
		}
		pos := ev.Instr.Pos()
		if ev.Kind == "send" && isNotify(ev.Ch, ev.Elem) {
			sites["messages to the control loop"]++
			n, ok := ev.Val.isInt()
			if !ok {
				bad(pos, "wrong message", fr, st, "the control loop is sent something else than a constant")
				return
			}
			if !ev.Block {
				bad(pos, "message lost", fr, st, "a message to the control loop may be dropped")
			}
			if l := st.vals["last"]; l != nil {
				p, _ := l.isInt()
				if st.g("msgs", l) != "" {
					st.setG("old", l, st.g("old", l)+"+")
				}
				_ = p
			}
			st.setG("msgs", num(n), st.g("msgs", num(n))+"+")
			st.setG("lastmsg", nil, "1")
			st.vals["last"] = num(n)
			return
		}
		if x.root == writers[0] && ev.Kind == "recv" && types.Identical(ev.Elem, m.resp) {
			if ev.OK != nil {
				st.setG("rxok", ev.OK, "1")
			}
			if ev.Block {
				sites["waits of the writer"]++
				switch st.g("idle", nil) {
				case "ok":
					r.OK(pos, "sleeps with more answers possible")
				case "drained":
					bad(pos, "sleeps for ever", fr, st, "the writer waits for more answers although none can come any more")
				default:
					bad(pos, "sleeps for ever", fr, st, "the writer waits for answers although it did not find, under the lock, that the overflow queue is empty and that answers can still come")
				}
			}
			st.setG("idle", nil, "")
		}
	}
	leave.Lock = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, op string, addr *Term) {
		c := m.cfld(addr, m.mu)
		if c == nil || x.root != writers[0] {
			return
		}
		switch op {
		case "locked":
			st.setG("idle", nil, "")
			st.setG("more", nil, "")
			st.vals["lockat"] = fresh("lockat", tyInt)
		case "unlock":
			empty, rd, fly, out := m.emptiness(x, st, c)
			switch {
			case empty == 1 && rd == 1 && fly == 1 && out == 1:
				st.setG("idle", nil, "drained")
			case empty == 1 && (rd == 0 || fly == 0 || out == 0 || st.g("more", nil) != ""):
				st.setG("idle", nil, "ok")
			}
		}
	}
	leave.Call = func(x *Exec, st *State, fr *Frame, ci *CallInfo) ([]Outcome, bool) {
		// an operation on the stream that may fail
		if x.root != writers[0] || ci.Fn == nil || ci.Defer && !ci.Go || fnPkgPath(ci.Fn) != pkgOf(m.resp) {
			return nil, false
		}
		res := ci.Fn.Signature.Results()
		if res.Len() == 1 && types.Identical(res.At(0).Type(), types.Universe.Lookup("error").Type()) {
			s2 := st.clone()
			s2.setG("ioerr", nil, "1")
			s2.note(ci.Instr.Pos(), "%s fails", ci.Fn.Name())
			e := fresh("err", res.At(0).Type())
			s2.assume(not(mkEq(e, nilTerm)))
			return []Outcome{{st: st, vals: []*Term{nilTerm}}, {st: s2, vals: []*Term{e}}}, true
		}
		return nil, false
	}
	after := func(x *Exec, st *State, fr *Frame, pos token.Pos, what string) {
		if st.g("lastmsg", nil) != "" {
			st.setG("late", nil, what)
		}
	}
	leave.Branch = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, cond *Term, taken bool) {
		if !taken {
			cond = not(cond)
		}
		if x.root == writers[0] && m.locked(st, x.self) {
			if _, rd, fly, out := m.emptiness(x, st, x.self); rd == 0 || fly == 0 || out == 0 {
				st.setG("more", nil, "1")
			}
		}
		if st.g("rxok", not(cond)) != "" {
			st.setG("outclosed", nil, "1")
		}
	}
	leave.BackEdge = func(x *Exec, st *State, fr *Frame, h *ssa.BasicBlock) {
		st.eachG("rxok", func(t *Term, v string) { st.setG("rxok", t, "") })
	}
	leave.Map = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, op string, mp, k, v *Term) {
		if op == "update" && m.flyOf(mp) != nil {
			after(x, st, fr, in.Pos(), "a request is recorded")
		}
	}
	leave.End = func(x *Exec, o *Outcome) {
		st := o.st
		if o.kind != OutReturn {
			return
		}
		fr := &Frame{fn: x.root}
		sites["ways out of reader and writer"]++
		l := st.vals["last"]
		if st.g("lastmsg", nil) == "" || l == nil {
			bad(o.pos, "leaves silently", fr, st, "a goroutine of the connection may end without telling the control loop")
			return
		}
		n, _ := l.isInt()
		terms[x.root][n] = true
		st.eachG("msgs", func(t *Term, v string) {
			if k, _ := t.isInt(); k != n {
				other[k] = true
			}
		})
		if st.g("msgs", l) != "+" {
			bad(o.pos, "reports twice", fr, st, "the end of a goroutine may be reported more than once")
		} else {
			r.OK(o.pos, "end reported once, last")
		}
		if w := st.g("late", nil); w != "" {
			bad(o.pos, "reports early", fr, st, "%s after the end was reported", w)
		}
		if x.root != writers[0] {
			return
		}
		switch {
		case st.g("ioerr", nil) != "":
			r.OK(o.pos, "writer leaves after an error")
		case st.g("outclosed", nil) != "":
			r.OK(o.pos, "writer leaves when the output is closed")
		case st.g("idle", nil) == "drained":
			r.OK(o.pos, "writer leaves when nothing more can come")
		default:
			bad(o.pos, "leaves early", fr, st, "the writer ends although answers may still come")
		}
	}
	runRoots(P, r, leave, []*ssa.Function{readers[0], writers[0]})
	one := func(s map[int64]bool) (int64, bool) {
		for k := range s {
			return k, len(s) == 1
		}
		return 0, false
	}
	vR, ok1 := one(terms[readers[0]])
	vW, ok2 := one(terms[writers[0]])
	if !ok1 || !ok2 || vR == vW || other[vR] || other[vW] {
		bad(readers[0].Pos(), "wrong message", &Frame{fn: readers[0]}, nil, "reader and writer do not report their ends with messages of their own: %v %v %v", terms[readers[0]], terms[writers[0]], other)
		return
	}
	// 2: the control loop, and everything else
	each := newEach(func(pos token.Pos, fr *Frame, st *State, el *Term) {
		bad(pos, "not cancelled", fr, st, "a request that is in work when the writer ends may not be cancelled")
	})
	tR, tW := num(vR), num(vW)
	c := base()
	is := func(st *State, v *Term) int {
		if a := st.vals["act"]; a != nil {
			return st.eval(eqTerm(a, v))
		}
		return 0
	}
	goodSweep := func(x *Exec, fn *ssa.Function, ia *ssa.IndexAddr) bool {
		if sl, isS := ia.X.(*ssa.Slice); isS && (sl.Low != nil || sl.High != nil) {
			return false
		}
		t, ok := under(ia.X.Type()).(*types.Slice)
		if !ok {
			return false
		}
		p, ok := under(t.Elem()).(*types.Pointer)
		return ok && types.Identical(p.Elem(), m.ireq) && !startsLate(ia.Index) && leavesAtEnd(x, fn, ia.Block())
	}
	c.Branch = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, cond *Term, taken bool) {
		if m := st.vals["more"]; m != nil && (cond == m && !taken || cond == not(m) && taken) {
			st.setG("swept", nil, "1")
			each.served(st, st.vals["moreel"])
		}
		h := in.Block()
		body := x.loopInfo(fr.fn).body[h]
		if body == nil || st.g("owe", nil) == "" {
			return
		}
		succ := h.Succs[1]
		if taken {
			succ = h.Succs[0]
		}
		if body[succ] {
			return
		}
		for b := range body {
			for _, i2 := range b.Instrs {
				if ia, ok := i2.(*ssa.IndexAddr); ok && goodSweep(x, fr.fn, ia) {
					st.setG("owe", nil, "")
				}
			}
		}
	}
	c.Loaded = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, addr, val *Term) {
		u, ok := in.(*ssa.UnOp)
		if !ok {
			return
		}
		if ia, ok := u.X.(*ssa.IndexAddr); ok && goodSweep(x, fr.fn, ia) {
			each.taken(st, in, val)
		}
	}
	c.Append = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, res, dst, src *Term) {
		n, ok := lenOf(src, in.(ssa.Value).Type()).isInt()
		sl, isS := under(in.(ssa.Value).Type()).(*types.Slice)
		if !isS || src.Op != TSlice || !ok || n > 8 {
			return
		}
		for i := int64(0); i < n; i++ {
			if v := st.mem[indexAddr(src.Args[0], add(src.Args[1], num(i)), sl.Elem())]; v != nil && each.served(st, v) {
				st.setG("owe", nil, "1")
			}
		}
	}
	// reading the channel states: what was learnt about the state of the connection
	c.Map = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, op string, mp, k, v *Term) {
		if op != "range" || m.flyOf(mp) == nil || !in0(controls, x.root) {
			return
		}
		va, _ := mapCells(mp, k, types.NewPointer(m.ireq))
		el := x.loadLeaf(st, va, types.NewPointer(m.ireq))
		each.taken(st, in, el)
		st.vals["more"], st.vals["moreel"] = v, el
		if !leavesAtEnd(x, fr.fn, in.Block()) {
			st.setG("partial", nil, "1")
		}
	}
	c.Call = func(x *Exec, st *State, fr *Frame, ci *CallInfo) ([]Outcome, bool) {
		name := ci.Name()
		if ci.Fn != nil && ctl != nil && ci.Fn == ctl && len(ci.Args) > 0 && !ci.Go {
			sites["cancellations"]++
			each.served(st, ci.Args[0])
		}
		if ci.Method != nil {
			name = ci.Method.Name()
		}
		if name == "CloseRead" && ci.Recv != nil && ci.Recv.Org != nil && m.cfld(ci.Recv.Org, m.nc) != nil {
			st.setG("closedread", nil, "1")
		}
		return nil, false
	}
	both := m.csR | m.csW
	c.Chan = func(x *Exec, st *State, fr *Frame, ev *ChanEv) {
		if ev.Kind == "default" {
			return
		}
		pos := token.NoPos
		if ev.Instr != nil {
			pos = ev.Instr.Pos()
		}
		el := chanElem(ev)
		switch {
		case ev.Kind == "send" && isNotify(ev.Ch, ev.Elem):
			if x.root != readers[0] && x.root != writers[0] {
				bad(pos, "reports twice", fr, st, "the control loop is told of an end by something else than the reader and the writer")
			}
		case ev.Kind == "recv" && isNotify(ev.Ch, ev.Elem):
			sites["messages received"]++
			if a := x.self; a != nil && st.g("again", nil) != "" && st.g("notboth", nil) == "" {
				if s := st.mem[fieldAddr(a, m.conn, m.state)]; s == nil || st.masked(s, both, both) != 0 {
					bad(pos, "waits for ever", fr, st, "the control loop may wait for more messages although both directions are done")
				}
			}
			st.setG("notboth", nil, "")
			st.vals["act"] = ev.Val
			st.setG("act", ev.Val, "1")
			if a := x.self; a != nil {
				st.vals["state0"] = x.loadLeaf(st, fieldAddr(a, m.conn, m.state), under(m.conn).(*types.Struct).Field(m.state).Type())
			}
		case ev.Kind == "close":
			o := ev.Ch.Org
			if o == nil || m.cfld(o, m.out) == nil {
				if o == nil || fieldOwner[o] == m.ck {
					bad(pos, "closed wrongly", fr, st, "a channel of the connection is closed that is not its output")
				}
				return
			}
			cn := m.cfld(o, m.out)
			sites["output closed"]++
			empty, rd, fly, out := m.emptiness(x, st, cn)
			switch {
			case !in0(controls, x.root) || is(st, tR) != 1:
				bad(pos, "closed twice", fr, st, "the output may be closed although it is not the end of the reader that is handled")
			case st.g("closed", nil) != "":
				bad(pos, "closed twice", fr, st, "the output may be closed twice")
			case !m.locked(st, cn):
				bad(pos, "closed wrongly", fr, st, "the output is closed without holding the lock")
			case empty != 1 || fly != 1 || out != 1:
				if !m.sumZero(x, st, cn) {
					bad(pos, "closed early", fr, st, "the output is closed although answers may be missing or unsent")
				}
			case rd != 1:
				bad(pos, "closed early", fr, st, "the output is closed before the end of the reader is recorded")
			}
			st.setG("closed", nil, "1")
			_ = el
		case ev.Kind == "send" && ev.Ch.Org != nil && m.sfld(ev.Ch.Org, m.gone) != nil:
			sites["reports of the end"]++
			if o := ev.Val.Org; o == nil || m.cfld(o, m.id) == nil {
				bad(pos, "wrong report", fr, st, "the end of a connection is reported with something else than its id")
			}
			if !in0(controls, x.root) {
				bad(pos, "reported twice", fr, st, "the end of a connection is reported by something else than its control loop")
			}
			if !ev.Block {
				bad(pos, "report lost", fr, st, "the report of the end of a connection may be dropped")
			}
			st.setG("reports", nil, st.g("reports", nil)+"+")
		}
	}
	c.Store = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, addr, old, val *Term) {
		cn := m.cfld(addr, m.state)
		if cn == nil || in == nil || st.private(cn) {
			return
		}
		o := st.mem[addr]
		if o == nil {
			o = old
		}
		sites["state changes"]++
		pos := in.Pos()
		if !in0(controls, x.root) {
			bad(pos, "state", fr, st, "the state of a connection is changed by something else than its control loop")
			return
		}
		if o == nil {
			o = num(0)
		}
		bs := st.bitsOf(val, o)
		for _, w := range []struct {
			bit int64
			v   *Term
			n   string
		}{{m.csR, tR, "reader"}, {m.csW, tW, "writer"}} {
			for i, b := range constBits(w.bit) {
				if b != '1' {
					continue
				}
				switch {
				case bs[i] == 'o':
				case bs[i] == '1' && (is(st, w.v) == 1 || st.masked(o, w.bit, w.bit) == 1):
				case bs[i] == '1':
					bad(pos, "state", fr, st, "the %s is recorded as done although it may not be", w.n)
				default:
					bad(pos, "state", fr, st, "it is forgotten that the %s is done", w.n)
				}
			}
		}
	}
	c.Lock = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, op string, addr *Term) {
		cn := m.cfld(addr, m.mu)
		if cn == nil || !in0(controls, x.root) {
			return
		}
		switch op {
		case "locked":
			st.vals["lockat"] = fresh("lockat", tyInt)
		case "unlock":
			if is(st, tR) == 1 && st.masked(st.mem[fieldAddr(cn, m.conn, m.state)], m.csR, m.csR) == 1 {
				switch empty, _, fly, out := m.emptiness(x, st, cn); {
				case st.g("closed", nil) != "":
					st.setG("recorded", nil, "1")
				case empty == 0 || fly == 0 || out == 0 || m.sumNotZero(x, st, cn):
					st.setG("recorded", nil, "1")
				case st.masked(st.mem[fieldAddr(cn, m.conn, m.state)], m.csW, m.csW) == 1:
					st.setG("recorded", nil, "1")
				default:
					if st.g("act", st.vals["act"]) != "" {
						bad(in.Pos(), "sleeps for ever", fr, st, "the end of the reader is recorded without closing the output although nothing may be in work: the writer is not woken")
						st.setG("recorded", nil, "1")
					}
				}
			}
		}
	}
	round := func(x *Exec, st *State, fr *Frame, pos token.Pos, end bool) {
		a := st.vals["act"]
		if _, possible := st.knownBits(); !possible || a == nil || x.self == nil {
			st.setG("notboth", nil, "1")
			return
		}
		s := st.mem[fieldAddr(x.self, m.conn, m.state)]
		if s == nil {
			s = x.loadLeaf(st, fieldAddr(x.self, m.conn, m.state), under(m.conn).(*types.Struct).Field(m.state).Type())
		}
		sites["rounds of the control loop"]++
		if w := is(st, tR); w != 0 {
			if w != 1 || st.masked(s, m.csR, m.csR) != 1 {
				bad(pos, "state", fr, st, "the end of the reader may not be recorded")
			} else if st.g("recorded", nil) == "" {
				bad(pos, "sleeps for ever", fr, st, "the end of the reader is not recorded in a critical section that closes the output or finds that more is to come")
			} else {
				r.OK(pos, "end of the reader handled")
			}
		}
		if w := is(st, tW); w != 0 {
			if w != 1 || st.masked(s, m.csW, m.csW) != 1 {
				bad(pos, "state", fr, st, "the end of the writer may not be recorded")
			}
			fl := x.loadLeaf(st, fieldAddr(x.self, m.conn, m.fly), under(m.conn).(*types.Struct).Field(m.fly).Type())
			if (st.g("swept", nil) == "" || st.g("partial", nil) != "" || st.g("owe", nil) != "") && st.eval(eqTerm(x.mapLen(st, fl), num(0))) != 1 {
				bad(pos, "not cancelled", fr, st, "when the writer ends not all requests in work are cancelled")
			} else {
				r.OK(pos, "requests in work cancelled")
			}
			s0 := st.vals["state0"]
			if st.g("closedread", nil) == "" && st.masked(s, m.csR, m.csR) != 1 && (s0 == nil || st.masked(s0, m.csR, m.csR) != 1) {
				bad(pos, "keeps reading", fr, st, "when the writer ends reading is not stopped")
			} else {
				r.OK(pos, "reading stopped")
			}
		}
		switch bothSet := st.masked(s, both, both); {
		case end && bothSet != 1:
			bad(pos, "leaves early", fr, st, "the control loop may end before both directions are done")
		case !end:
			st.setG("again", nil, "1")
			if bothSet == 0 {
				st.setG("notboth", nil, "1")
			}
		default:
			r.OK(pos, "control loop")
		}
	}
	c.BackEdge = func(x *Exec, st *State, fr *Frame, h *ssa.BasicBlock) {
		each.backEdge(x, st, fr, h)
		if !in0(controls, x.root) {
			return
		}
		la := fr.loops[h]
		a := st.vals["act"]
		if a == nil || la == nil || a.Seq <= la.seq || st.g("act", a) == "" {
			return
		}
		round(x, st, fr, h.Instrs[0].Pos(), false)
		for _, k := range []string{"recorded", "closed", "swept", "partial", "owe", "closedread"} {
			st.setG(k, nil, "")
		}
		st.eachG("act", func(t *Term, v string) { st.setG("act", t, "") })
	}
	run := P.Method("net/server", "Connection", "Run")
	c.Go = func(x *Exec, st *State, fr *Frame, ci *CallInfo) {
		if ci.Fn != nil && (ci.Fn == readers[0] || ci.Fn == writers[0] || ci.Fn == controls[0]) {
			inRun := false
			for f := fr; f != nil; f = f.parent {
				inRun = inRun || f.fn == run
			}
			if !inRun {
				bad(ci.Instr.Pos(), "started twice", fr, st, "a goroutine of a connection is started by something else than Run")
			}
			if x.root != run {
				return
			}
			st.setG("go:"+ci.Fn.Name(), nil, st.g("go:"+ci.Fn.Name(), nil)+"+")
			sites["goroutines started"]++
			if len(ci.Args) == 0 || ci.Args[0] != x.self {
				bad(ci.Instr.Pos(), "started twice", fr, st, "a goroutine is started for another connection")
			}
		}
	}
	c.End = func(x *Exec, o *Outcome) {
		if o.kind != OutReturn {
			return
		}
		fr := &Frame{fn: x.root}
		each.end(o.st, fr)
		if x.root == run {
			for _, f := range []*ssa.Function{readers[0], writers[0], controls[0]} {
				if o.st.g("go:"+f.Name(), nil) != "+" {
					bad(o.pos, "started twice", fr, o.st, "running a connection does not start %s exactly once", fnName(f))
				} else {
					r.OK(o.pos, "goroutine started")
				}
			}
			return
		}
		if !in0(controls, x.root) {
			return
		}
		if o.st.vals["act"] != nil && o.st.g("act", o.st.vals["act"]) != "" {
			round(x, o.st, fr, o.pos, true)
		} else if s := o.st.mem[fieldAddr(x.self, m.conn, m.state)]; s == nil || o.st.masked(s, both, both) != 1 {
			bad(o.pos, "leaves early", fr, o.st, "the control loop may end before both directions are done")
		}
		if o.st.g("reports", nil) != "+" {
			bad(o.pos, "not reported once", fr, o.st, "the end of the connection is not reported exactly once")
		} else {
			r.OK(o.pos, "end reported once")
		}
	}
	var roots []*ssa.Function
	for _, f := range P.Roots("net/server") {
		roots = append(roots, f)
	}
	if run != nil {
		seen := false
		for _, f := range roots {
			seen = seen || f == run
		}
		if !seen {
			roots = append(roots, run)
		}
	}
	_ = in
	runRoots(P, r, c, roots)
	for k, v := range sites {
		r.Counts["events: "+k] = v
	}
	for _, k := range []string{"messages to the control loop", "ways out of reader and writer", "waits of the writer", "messages received", "output closed", "reports of the end", "state changes", "cancellations", "rounds of the control loop"} {
		r.Floor(k, sites[k], 1)
	}
	r.Floor("goroutines started", sites["goroutines started"], 3)
}

func in0(l []*ssa.Function, f *ssa.Function) bool { return len(l) > 0 && l[0] == f }

// chanLens: the lengths of the output that were read since the lock was taken.
func (m *srvM) chanLens(st *State, c *Term) []*Term {
	since := int64(-1)
	if l := st.vals["lockat"]; l != nil {
		since = int64(l.Seq)
	}
	var res []*Term
	st.symsOf(func(o *Term) bool { return o != nil && o.Op == TSym && o.Org != nil && m.cfld(o.Org, m.out) == c }, func(v *Term) {
		if int64(v.Seq) > since {
			res = append(res, v)
		}
	})
	return res
}

// emptiness: is the overflow queue empty, the reader done, nothing in work,
// the output empty? (1 yes, 0 no, -1 unknown)
func (m *srvM) emptiness(x *Exec, st *State, c *Term) (buf, rd, fly, out int) {
	f := func(i int) *Term {
		return x.loadLeaf(st, fieldAddr(c, m.conn, i), under(m.conn).(*types.Struct).Field(i).Type())
	}
	b, s, l := f(m.buf), f(m.state), f(m.fly)
	buf = st.eval(eqTerm(lenOf(b, b.Typ), num(0)))
	rd = st.masked(s, m.csR, m.csR)
	fly = st.eval(eqTerm(x.mapLen(st, l), num(0)))
	out = -1
	for _, v := range m.chanLens(st, c) {
		if e := st.eval(eqTerm(v, num(0))); e >= 0 {
			out = e
		}
	}
	return
}

func (m *srvM) sum(x *Exec, st *State, c *Term, want int) bool {
	f := func(i int) *Term {
		return x.loadLeaf(st, fieldAddr(c, m.conn, i), under(m.conn).(*types.Struct).Field(i).Type())
	}
	b, l := f(m.buf), f(m.fly)
	for _, v := range m.chanLens(st, c) {
		if st.eval(eqTerm(add(add(lenOf(b, b.Typ), x.mapLen(st, l)), v), num(0))) == want {
			return true
		}
	}
	return false
}

func (m *srvM) sumZero(x *Exec, st *State, c *Term) bool    { return m.sum(x, st, c, 1) }
func (m *srvM) sumNotZero(x *Exec, st *State, c *Term) bool { return m.sum(x, st, c, 0) }
