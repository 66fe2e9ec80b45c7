package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// S05: stopping a server.

func init() {
	register(&checkDef{id: "S05", run: checkStop,
		rule:  "typestate of the server's own goroutines, path by path: an accepted connection is either closed, or, in a critical section in which the server was found not to be stopping, put under a fresh id into the table of connections before or in the same section as it is started; stopping sets the stop flag under the lock, wakes the control loop after that and closes the listener, on every path; the control loop takes exactly the connections that reported their end out of the table, asks each connection in it to stop reading when woken, and returns exactly when it finds under the lock that the server is stopping and the table is empty; completion is reported once by the control loop when it returns and nowhere else; accepting and control are started once each, after the listener was made",
		assum: []string{"a server is run at most once", "closing a listener makes a blocked Accept return with an error"}})
}

func checkStop(P *Program, r *Report) {
	m := newSrvM(P, r)
	if m == nil {
		return
	}
	started := startedByGo(P)
	cg := P.CG()
	ss := under(m.srv).(*types.Struct)
	chanOf := func(v ssa.Value) int {
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			if fa, ok := u.X.(*ssa.FieldAddr); ok {
				if t, s := structOf(fa.X.Type()); s != nil && types.Identical(t, m.srv) {
					return fa.Field
				}
			}
		}
		return -1
	}
	recvs := func(fn *ssa.Function, field int, name string) bool {
		return cg.Reaches(name, fn, func(in ssa.Instruction) bool {
			switch v := in.(type) {
			case *ssa.UnOp:
				return v.Op == token.ARROW && chanOf(v.X) == field
			case *ssa.Select:
				for _, s := range v.States {
					if s.Dir == types.RecvOnly && chanOf(s.Chan) == field {
						return true
					}
				}
			}
			return false
		})
	}
	var accs, ctls []*ssa.Function
	for _, fn := range P.Roots("net/server") {
		if !started[fn] || !isMethodOf(fn, m.srv) {
			continue
		}
		if cg.Reaches("s5acc", fn, func(in ssa.Instruction) bool {
			c, ok := in.(ssa.CallInstruction)
			return ok && c.Common().IsInvoke() && c.Common().Method.Name() == "Accept"
		}) {
			accs = append(accs, fn)
		}
		if recvs(fn, m.gone, "s5gone") {
			ctls = append(ctls, fn)
		}
	}
	stop, run := P.Method("net/server", "Server", "Stop"), P.Method("net/server", "Server", "Run")
	crun := P.Method("net/server", "Connection", "Run")
	if len(accs) != 1 || len(ctls) != 1 || stop == nil || run == nil || crun == nil {
		r.Add(0, "undecided", "", nil, "the accept loop and the control loop of the server were not recognised")
		return
	}
	sites := map[string]int{}
	bad := func(pos token.Pos, rule string, fr *Frame, st *State, f string, args ...interface{}) {
		fn := ""
		if fr != nil {
			fn = fnName(fr.fn)
		}
		r.Add(pos, rule, fn, st, f, args...)
	}
	fld := func(x *Exec, st *State, c *Term, i int) *Term {
		return x.loadLeaf(st, fieldAddr(c, m.srv, i), ss.Field(i).Type())
	}
	locked := func(st *State, c *Term) bool { return c != nil && st.holds(fieldAddr(c, m.srv, m.smu)) }
	each := newEach(func(pos token.Pos, fr *Frame, st *State, el *Term) {
		bad(pos, "not asked to stop", fr, st, "a connection of a stopping server may not be asked to stop reading")
	})
	mon := &Monitor{Name: "stop", Unroll: -1, NoLockCk: true, JoinAt: 200, JoinBlk: 200}
	mon.Relevant = func(fn *ssa.Function) bool { return P.relPkg(fn) == "net/server" }
	// only a stop request changes the flag, and never back, as is checked
	mon.Keep = func(x *Exec, st *State, addr *Term, ci *CallInfo) bool {
		c := m.sfld(addr, m.closing)
		return c != nil && st.mem[addr] == tTrue
	}
	see := func(x *Exec, st *State, c *Term) (stopping, empty int) {
		stopping, empty = -1, -1
		if !locked(st, c) {
			return
		}
		stopping = st.eval(fld(x, st, c, m.closing))
		if st.g("gotstop", nil) != "" {
			stopping = 1
		}
		empty = st.eval(eqTerm(x.mapLen(st, fld(x, st, c, m.conns)), num(0)))
		return
	}
	look := func(x *Exec, st *State) {
		if x.self == nil {
			return
		}
		s, e := see(x, st, x.self)
		// what was found before the lock was released may be looked at later
		if c, l := st.vals["vcl"], st.vals["vlen"]; c != nil && l != nil && !locked(st, x.self) {
			s, e = st.eval(c), st.eval(eqTerm(l, num(0)))
		}
		switch {
		case s == 1 && e == 1:
			st.setG("verdict", nil, "done")
		case s == 0 || e == 0:
			st.setG("verdict", nil, "more")
		}
	}
	mon.Lock = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, op string, addr *Term) {
		c := m.sfld(addr, m.smu)
		if c == nil {
			return
		}
		switch op {
		case "locked":
			st.setG("verdict", nil, "")
			delete(st.vals, "vcl")
			delete(st.vals, "vlen")
			delete(st.vals, "bump")
		case "unlock":
			look(x, st)
			st.eachG("run", func(t *Term, v string) {
				if st.g("known", t) == "" {
					bad(in.Pos(), "unknown connection", fr, st, "a connection is started and the lock released before the server knows it")
				}
			})
			if x.self != nil && c == x.self {
				cl := fld(x, st, c, m.closing)
				if st.g("gotstop", nil) != "" {
					cl = tTrue
				}
				st.vals["vcl"], st.vals["vlen"] = cl, x.mapLen(st, fld(x, st, c, m.conns))
			}
		}
	}
	mon.Branch = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, cond *Term, taken bool) {
		if mo := st.vals["more"]; mo != nil && (cond == mo && !taken || cond == not(mo) && taken) {
			if st.g("partial", nil) == "" {
				st.setG("swept", nil, "1")
			}
			each.served(st, st.vals["moreel"])
		}
		look(x, st)
	}
	mon.Map = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, op string, mp, k, v *Term) {
		if mp.Org == nil {
			return
		}
		c := m.sfld(mp.Org, m.conns)
		if c == nil {
			return
		}
		pos := in.Pos()
		if op != "len" && op != "lookup" && !locked(st, c) {
			bad(pos, "unlocked", fr, st, "the table of connections is used without holding the lock of the server")
		}
		switch op {
		case "range":
			va, _ := mapCells(mp, k, types.NewPointer(m.conn))
			el := x.loadLeaf(st, va, types.NewPointer(m.conn))
			each.taken(st, in, el)
			st.vals["more"], st.vals["moreel"] = v, el
			if !leavesAtEnd(x, fr.fn, in.Block()) {
				st.setG("partial", nil, "1")
			}
		case "update":
			sites["connections registered"]++
			if s, _ := see(x, st, c); s != 0 {
				bad(pos, "registered late", fr, st, "a connection is added to the table although the server may be stopping")
			} else {
				r.OK(pos, "registered while the server is not stopping")
			}
			if b := st.vals["bump"]; b == nil || b != k {
				bad(pos, "id reused", fr, st, "a connection is registered under an id that is not fresh")
			}
			if id := st.mem[fieldAddr(v, m.conn, m.id)]; id != k {
				bad(pos, "wrong id", fr, st, "a connection is registered under another id than it reports its end with")
			}
			st.setG("known", v, "1")
		case "delete":
			sites["connections taken out"]++
			if st.g("goneid", k) == "" {
				bad(pos, "wrong connection", fr, st, "a connection is taken out of the table that did not report its end")
			} else {
				r.OK(pos, "finished connection taken out")
				st.setG("goneid", k, "")
			}
		}
	}
	mon.Store = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, addr, old, val *Term) {
		if in == nil {
			return
		}
		if c := m.sfld(addr, m.closing); c != nil && !st.private(c) {
			sites["stop flag set"]++
			if st.eval(val) != 1 {
				bad(in.Pos(), "stop forgotten", fr, st, "the stop flag may be cleared")
			} else if !locked(st, c) {
				bad(in.Pos(), "unlocked", fr, st, "the stop flag is set without holding the lock")
			} else {
				st.setG("flagged", nil, "1")
			}
		}
		if c := addr; c.Op == TField && fieldOwner[c] == m.sk && isIntType(ss.Field(c.N).Type()) && !st.private(c) {
			o := st.mem[addr]
			if o == nil {
				o = old
			}
			if o != nil && val == add(o, num(1)) {
				if locked(st, c.Args[0]) {
					st.vals["bump"] = val
				}
			} else {
				bad(in.Pos(), "id reused", fr, st, "the number of the last connection is not counted up")
			}
		}
	}
	mon.Chan = func(x *Exec, st *State, fr *Frame, ev *ChanEv) {
		pos := token.NoPos
		if ev.Instr != nil {
			pos = ev.Instr.Pos()
		}
		isStop := func(ch *Term) bool { return ch != nil && ch.Org != nil && m.sfld(ch.Org, m.stop) != nil }
		wake := func() {
			if st.g("flagged", nil) == "" {
				bad(pos, "woken early", fr, st, "the control loop is woken before the stop flag is set")
			}
			st.setG("woken", nil, "1")
		}
		if ev.Kind == "default" {
			if ev.Sel != nil {
				for _, s := range ev.Sel.States {
					if s.Dir == types.SendOnly && chanOf(s.Chan) == m.stop {
						wake()
					}
				}
			}
			return
		}
		switch {
		case ev.Kind == "send" && isStop(ev.Ch):
			wake()
		case ev.Kind == "recv" && isStop(ev.Ch):
			sites["stop requests received"]++
			st.setG("gotstop", nil, "1")
			st.setG("event", nil, "stop")
		case ev.Kind == "recv" && ev.Ch.Org != nil && m.sfld(ev.Ch.Org, m.gone) != nil:
			sites["ends received"]++
			st.setG("goneid", ev.Val, "1")
			st.setG("event", nil, "gone")
			if x.root != ctls[0] {
				bad(pos, "end lost", fr, st, "the end of a connection is received by something else than the control loop")
			}
		case ev.Kind == "close" && ev.Ch.Org != nil && m.sfld(ev.Ch.Org, m.running) != nil:
			sites["completions"]++
			if x.root != ctls[0] {
				bad(pos, "completed twice", fr, st, "completion is reported by something else than the control loop")
			}
			st.setG("completed", nil, st.g("completed", nil)+"+")
		case ev.Kind == "close" && ev.Ch.Org != nil && fieldOwner[ev.Ch.Org] == m.sk:
			bad(pos, "closed wrongly", fr, st, "a channel of the server is closed that others still send to")
		}
	}
	mon.Call = func(x *Exec, st *State, fr *Frame, ci *CallInfo) ([]Outcome, bool) {
		if ci.Fn == crun {
			if len(ci.Args) > 0 && x.root == accs[0] {
				sites["connections started"]++
				c := ci.Args[0]
				if st.g("run", c) != "" {
					bad(ci.Instr.Pos(), "started twice", fr, st, "a connection is started twice")
				}
				st.setG("run", c, "1")
				if st.g("known", c) == "" && !locked(st, x.self) {
					bad(ci.Instr.Pos(), "unknown connection", fr, st, "a connection is started that the server does not know")
				}
				if v := st.mem[fieldAddr(c, m.conn, m.nc)]; v != nil && st.g("acc", stripIface(v)) != "" {
					st.setG("acc", stripIface(v), "")
				}
			}
			return []Outcome{{st: st}}, true
		}
		if ci.Method == nil {
			return nil, false
		}
		switch ci.Method.Name() {
		case "Accept":
			sites["accepts"]++
			s2 := st.clone()
			v := x.freshVal(st, "accepted", ci.Res.(*types.Tuple).At(0).Type())
			st.assume(not(mkEq(v, nilTerm)))
			st.setG("acc", stripIface(v), "1")
			e := fresh("err", types.Universe.Lookup("error").Type())
			s2.assume(not(mkEq(e, nilTerm)))
			return []Outcome{{st: st, vals: []*Term{v, nilTerm}}, {st: s2, vals: []*Term{nilTerm, e}}}, true
		case "Close":
			if ci.Recv == nil {
				break
			}
			if st.g("acc", stripIface(ci.Recv)) != "" {
				sites["accepted connections closed"]++
				if st.g("sawstop", nil) == "" {
					if s := st.eval(fld(x, st, x.self, m.closing)); s == 0 {
						bad(ci.Instr.Pos(), "refused", fr, st, "an accepted connection is closed although the server is not stopping")
					}
				}
				st.setG("acc", stripIface(ci.Recv), "")
			}
			if ci.Recv.Org != nil && m.sfld(ci.Recv.Org, m.lsnr) != nil {
				st.setG("unlisten", nil, "1")
			}
		case "CloseRead":
			if ci.Recv != nil && ci.Recv.Org != nil {
				if c := m.cfld(ci.Recv.Org, m.nc); c != nil {
					sites["connections asked to stop"]++
					each.served(st, c)
				}
			}
		}
		return nil, false
	}
	mon.Go = func(x *Exec, st *State, fr *Frame, ci *CallInfo) {
		if ci.Fn == nil || ci.Fn != accs[0] && ci.Fn != ctls[0] {
			return
		}
		if x.root != run {
			inRun := false
			for f := fr; f != nil; f = f.parent {
				inRun = inRun || f.fn == run
			}
			if !inRun {
				bad(ci.Instr.Pos(), "started twice", fr, st, "a goroutine of the server is started by something else than Run")
			}
			return
		}
		k := "go:" + ci.Fn.Name()
		st.setG(k, nil, st.g(k, nil)+"+")
		sites["goroutines started"]++
	}
	round := func(x *Exec, st *State, fr *Frame, pos token.Pos, end bool) {
		if x.root == accs[0] {
			st.eachG("acc", func(t *Term, v string) {
				bad(pos, "connection lost", fr, st, "an accepted connection is neither closed nor started")
				st.setG("acc", t, "")
			})
			st.eachG("known", func(t *Term, v string) {
				if st.g("run", t) == "" {
					bad(pos, "not started", fr, st, "a connection is put into the table but not started: it never leaves the table")
				}
			})
			for _, k := range []string{"known", "run"} {
				st.eachG(k, func(t *Term, v string) { st.setG(k, t, "") })
			}
			return
		}
		if x.root != ctls[0] {
			return
		}
		st.eachG("goneid", func(t *Term, v string) {
			bad(pos, "end lost", fr, st, "a connection that reported its end stays in the table: the server never completes")
			st.setG("goneid", t, "")
		})
		look(x, st)
		v := st.g("verdict", nil)
		switch st.g("event", nil) {
		case "":
			if end {
				bad(pos, "completed early", fr, st, "the control loop ends without having been told anything")
			}
		default:
			sites["rounds of the control loop"]++
			if st.g("event", nil) == "stop" && st.g("swept", nil) == "" && !(end && v == "done") {
				bad(pos, "not asked to stop", fr, st, "not every connection of a stopping server is asked to stop reading")
			}
			switch {
			case end && v != "done":
				bad(pos, "completed early", fr, st, "the control loop ends although it did not find, under the lock, the server to be stopping without connections")
			case !end && v != "more":
				bad(pos, "never completed", fr, st, "the control loop waits for more although the server may be stopping and have no connection left")
			default:
				r.OK(pos, "round of the control loop")
			}
		}
		for _, k := range []string{"event", "verdict", "swept", "partial", "gotstop"} {
			st.setG(k, nil, "")
		}
	}
	mon.BackEdge = func(x *Exec, st *State, fr *Frame, h *ssa.BasicBlock) {
		each.backEdge(x, st, fr, h)
		if fr.fn == x.root || st.g("event", nil) != "" || x.root == accs[0] {
			for b := range x.loopInfo(fr.fn).body[h] {
				for _, in := range b.Instrs {
					_, isSel := in.(*ssa.Select)
					u, isU := in.(*ssa.UnOp)
					c, isC := in.(ssa.CallInstruction)
					if isSel || isU && u.Op == token.ARROW || isC && c.Common().IsInvoke() && c.Common().Method.Name() == "Accept" || isC && c.Common().StaticCallee() != nil && (recvs(c.Common().StaticCallee(), m.gone, "s5gone") || c.Common().StaticCallee() != crun && cg.Reaches("s5acc", c.Common().StaticCallee(), func(in ssa.Instruction) bool {
						c, ok := in.(ssa.CallInstruction)
						return ok && c.Common().IsInvoke() && c.Common().Method.Name() == "Accept"
					})) {
						round(x, st, fr, h.Instrs[0].Pos(), false)
						return
					}
				}
			}
		}
	}
	mon.End = func(x *Exec, o *Outcome) {
		if o.kind != OutReturn {
			return
		}
		st, fr := o.st, &Frame{fn: x.root}
		each.end(st, fr)
		round(x, st, fr, o.pos, true)
		switch x.root {
		case ctls[0]:
			if st.g("completed", nil) != "+" {
				bad(o.pos, "completed twice", fr, st, "completion is not reported exactly once when the control loop ends")
			} else {
				r.OK(o.pos, "completion reported once")
			}
		case stop:
			for _, w := range []struct{ k, m string }{{"flagged", "the stop flag is set"}, {"woken", "the control loop is woken"}, {"unlisten", "the listener is closed"}} {
				if st.g(w.k, nil) == "" {
					bad(o.pos, "stop incomplete", fr, st, "a stop request may return without that %s", w.m)
				} else {
					r.OK(o.pos, w.m)
				}
			}
		case run:
			n := st.g("go:"+accs[0].Name(), nil) + st.g("go:"+ctls[0].Name(), nil)
			err := o.vals[len(o.vals)-1]
			switch st.eval(mkEq(err, nilTerm)) {
			case 1:
				if n != "++" || st.g("go:"+accs[0].Name(), nil) != "+" {
					bad(o.pos, "started twice", fr, st, "running a server does not start its two loops exactly once")
				} else {
					r.OK(o.pos, "both loops started once")
				}
			default:
				if n != "" && st.eval(mkEq(err, nilTerm)) == 0 {
					bad(o.pos, "started twice", fr, st, "the loops of a server that could not be started are running")
				}
			}
		}
	}
	roots := append([]*ssa.Function{}, P.Roots("net/server")...)
	for _, w := range []*ssa.Function{stop, run} {
		seen := false
		for _, f := range roots {
			seen = seen || f == w
		}
		if !seen {
			roots = append(roots, w)
		}
	}
	runRoots(P, r, mon, roots)
	for k, v := range sites {
		r.Counts["events: "+k] = v
	}
	for _, k := range []string{"accepts", "connections registered", "connections started", "accepted connections closed", "connections taken out", "stop flag set", "stop requests received", "ends received", "completions", "connections asked to stop", "rounds of the control loop"} {
		r.Floor(k, sites[k], 1)
	}
	r.Floor("goroutines started", sites["goroutines started"], 2)
}
