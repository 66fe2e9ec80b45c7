package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// C05: the handshake of a client connection; and the part of C04 that is about
// what a connection reports to its pool.

func init() {
	register(&checkDef{id: "C05", run: func(P *Program, r *Report) {
		sites := map[string]int{}
		checkDial(P, r, sites, true)
		for k, v := range sites {
			r.Counts["events: "+k] = v
		}
		for _, k := range []string{"connections dialed", "pings written", "pings flushed", "pings read", "connections closed", "reports of dialing", "goroutines started"} {
			r.Floor(k, sites[k], 1)
		}
		// what the ping is, and that its answer is verified
		sub := newReport(P, "C05")
		checkFrames(P, sub, true)
		n := sub.Disch
		for _, v := range sub.Viol {
			if v.Rule == "ping" || v.Rule == "undecided" && v.Fn != "" && (hasSuffixName(v.Fn, "Ping") || hasSuffixName(v.Fn, "ReadPing")) {
				r.Viol = append(r.Viol, v)
				r.Oblig++
			}
		}
		r.Floor("obligations of the frames of pings", n, 1)
	},
		rule:  "typestate of a connection that is dialed, path by path: dialed, ping written, flushed, answer read, each without an error, before success is reported, and success reported before the goroutines of the connection are started, each exactly once; on every other path a failure with a non-nil error is reported, nothing is started and a socket that was opened is closed; exactly one report of dialing on every way out; the ping is written with the type and id of pings, and reading its answer succeeds only with both",
		assum: []string{"a function of package net that dials returns either a connection or an error"}})
}

func hasSuffixName(s, suf string) bool {
	return len(s) > len(suf) && s[len(s)-len(suf)-1:] == "."+suf
}

// checkDial: how connections are dialed (C05, strict), and what they report
// to the pool (C04).
func checkDial(P *Program, r *Report, sites map[string]int, handshake bool) {
	const pk = "net/client/connection"
	sub := r
	m := newCliM(P, sub)
	if m == nil {
		return
	}
	rep := P.Type(pk, "Error")
	notify := notifyField(m.conn)
	fWhen, fErr, fConn := structField(rep, "When"), structField(rep, "Error"), structField(rep, "Conn")
	kDial, ok1 := P.Const(pk, "Dial")
	kRead, ok2 := P.Const(pk, "Read")
	kWrite, ok3 := P.Const(pk, "Write")
	ping, flush, readPing := P.Method("net", "HeaderWriter", "Ping"), P.Method("net", "HeaderWriter", "Flush"), P.Method("net", "HeaderReader", "ReadPing")
	if notify < 0 || rep == nil || fWhen < 0 || fErr < 0 || fConn < 0 || !ok1 || !ok2 || !ok3 || ping == nil || flush == nil || readPing == nil {
		r.Add(0, "undecided", "", nil, "the parts of a client connection were not recognised")
		return
	}
	cs := under(m.conn).(*types.Struct)
	ck := types.TypeString(m.conn, nil)
	notifyElem := under(cs.Field(notify).Type()).(*types.Chan).Elem()
	reader, writer, control, ok := connLoops(P, r, m, notifyElem)
	if !ok {
		return
	}
	isLoop := map[*ssa.Function]bool{reader: true, writer: true, control: true}
	bad := func(pos token.Pos, rule string, fr *Frame, st *State, f string, args ...interface{}) {
		fn := ""
		if fr != nil {
			fn = fnName(fr.fn)
		}
		r.Add(pos, rule, fn, st, f, args...)
	}
	type report struct {
		when      int64
		err, conn *Term
	}
	reportOf := func(x *Exec, st *State, fr *Frame, ev *ChanEv) (report, bool) {
		if ev.Kind != "send" || ev.Elem == nil || !types.Identical(ev.Elem, rep) || ev.Val == nil {
			return report{}, false
		}
		f := x.fieldsOf(ev.Val, rep)
		n, ok := f[fWhen].isInt()
		if !ok {
			bad(ev.Instr.Pos(), "wrong report", fr, st, "what a connection reports to its pool is not a constant")
		}
		return report{n, f[fErr], f[fConn]}, true
	}
	dialed := func(ci *CallInfo) bool {
		f := ci.Fn
		if f == nil || f.Pkg == nil || f.Pkg.Pkg.Path() != "net" || len(f.Name()) < 4 || f.Name()[:4] != "Dial" {
			return false
		}
		res := f.Signature.Results()
		return res.Len() == 2 && isErrType(res.At(1).Type())
	}
	count := func(st *State, k string) int { return len(st.g(k, nil)) }
	more := func(st *State, k string) {
		if count(st, k) < 3 {
			st.setG(k, nil, st.g(k, nil)+"+")
		}
	}
	fail := func(st *State, ci *CallInfo, what string) *State {
		s2 := st.clone()
		s2.note(ci.Instr.Pos(), "%s", what)
		return s2
	}
	// 1: those who start the goroutines
	mon := &Monitor{Name: "client dial", Unroll: -1, NoLockCk: true, JoinAt: 300, JoinBlk: 300, ErrSplit: true, FlagSplit: true}
	mon.Relevant = func(fn *ssa.Function) bool { return P.relPkg(fn) == pk }
	var root *ssa.Function
	mon.Init = func(x *Exec, st *State, args []*Term) { root = x.root }
	mon.NoInline = func(fn *ssa.Function) bool { return isLoop[fn] }
	start := func(x *Exec, st *State, fr *Frame, ci *CallInfo) {
		sites["goroutines started"]++
		pos := ci.Instr.Pos()
		if len(ci.Args) > 0 && ci.Args[0] != x.self {
			bad(pos, "not started", fr, st, "a goroutine of another connection is started")
		}
		k := "start " + ci.Fn.Name()
		more(st, k)
		if st.g("reported ok", nil) == "" {
			bad(pos, "traffic before handshake", fr, st, "a goroutine of the connection is started before success was reported")
		} else {
			r.OK(pos, "started after success")
		}
	}
	mon.Go = func(x *Exec, st *State, fr *Frame, ci *CallInfo) {
		if ci.Fn != nil && isLoop[ci.Fn] {
			start(x, st, fr, ci)
		}
	}
	mon.Call = func(x *Exec, st *State, fr *Frame, ci *CallInfo) ([]Outcome, bool) {
		if ci.Go {
			return nil, false
		}
		name := ci.Name()
		if ci.Method != nil {
			name = ci.Method.Name()
		}
		if ci.Fn != nil && isLoop[ci.Fn] {
			start(x, st, fr, ci)
			return nil, false
		}
		step := func(from, to, site, what string, first ...*Term) ([]Outcome, bool) {
			sites[site]++
			s2 := fail(st, ci, what)
			if handshake && st.g("dialed", nil) != "" && st.g("step", nil) != from {
				bad(ci.Instr.Pos(), "handshake", fr, st, "%s: the step before was not done", site)
			}
			if st.g("step", nil) == from {
				st.setG("step", nil, to)
			}
			s2.setG("step", nil, "failed")
			return []Outcome{{st: st, vals: []*Term{nilTerm}}, {st: s2, vals: []*Term{freshErr("handshake")}}}, true
		}
		switch {
		case dialed(ci):
			sites["connections dialed"]++
			s2 := fail(st, ci, "cannot be dialed")
			nc := fresh("netconn", ci.Fn.Signature.Results().At(0).Type())
			st.assume(not(mkEq(nc, nilTerm)))
			st.setG("dialed", nil, "1")
			st.setG("open", nil, "1")
			st.setG("step", nil, "dialed")
			s2.setG("dialed", nil, "1")
			s2.setG("step", nil, "failed")
			s2.setG("open", nil, "")
			return []Outcome{{st: st, vals: []*Term{nc, nilTerm}}, {st: s2, vals: []*Term{nilTerm, freshErr("dial")}}}, true
		case ci.Fn == ping:
			return step("dialed", "written", "pings written", "the ping cannot be written")
		case ci.Fn == flush:
			return step("written", "flushed", "pings flushed", "the ping cannot be flushed")
		case ci.Fn == readPing:
			return step("flushed", "done", "pings read", "the answer of the ping cannot be read")
		case name == "Close" && (ci.Method != nil || ci.Fn != nil && P.relPkg(ci.Fn) != pk):
			sites["connections closed"]++
			st.setG("open", nil, "")
			if st.g("reported ok", nil) != "" {
				st.setG("closed later", nil, "1")
			}
		}
		return nil, false
	}
	mon.Chan = func(x *Exec, st *State, fr *Frame, ev *ChanEv) {
		e, ok := reportOf(x, st, fr, ev)
		if !ok {
			return
		}
		pos := ev.Instr.Pos()
		if e.when != kDial {
			bad(pos, "wrong report", fr, st, "something else than the end of dialing is reported before the connection works")
			return
		}
		sites["reports of dialing"]++
		if e.conn != x.self {
			bad(pos, "wrong report", fr, st, "another connection is reported")
		}
		if !ev.Block {
			bad(pos, "report lost", fr, st, "a report to the pool may be dropped")
		}
		more(st, "reports")
		switch st.isNilFact(e.err) {
		case 1:
			st.setG("reported ok", nil, "1")
			if handshake && st.g("dialed", nil) != "" && st.g("step", nil) != "done" {
				bad(pos, "handshake", fr, st, "a connection is reported as established without a ping that was written, flushed and answered")
			} else {
				r.OK(pos, "success after the handshake")
			}
		case 0:
			st.setG("reported err", nil, "1")
			r.OK(pos, "failure reported")
		default:
			bad(pos, "wrong report", fr, st, "it is not known whether success or a failure is reported")
		}
	}
	mon.End = func(x *Exec, o *Outcome) {
		if o.kind != OutReturn {
			return
		}
		st := o.st
		fr := &Frame{fn: x.root}
		any := count(st, "reports") > 0 || st.g("dialed", nil) != ""
		for f := range isLoop {
			any = any || count(st, "start "+f.Name()) > 0
		}
		if !any {
			return
		}
		sites["ways out of dialing"]++
		if n := count(st, "reports"); n != 1 {
			bad(o.pos, "reports", fr, st, "%d reports of dialing are made instead of one", n)
		} else {
			r.OK(o.pos, "one report")
		}
		for _, f := range []*ssa.Function{reader, writer, control} {
			n := count(st, "start "+f.Name())
			switch {
			case st.g("reported ok", nil) != "" && n != 1:
				bad(o.pos, "not started", fr, st, "%s is started %d times for an established connection", f.Name(), n)
			case st.g("reported ok", nil) == "" && n != 0:
				bad(o.pos, "traffic before handshake", fr, st, "%s is started although the connection failed", f.Name())
			}
		}
		if handshake && st.g("reported err", nil) != "" && st.g("open", nil) != "" {
			bad(o.pos, "socket left", fr, st, "the socket of a connection whose handshake failed is not closed")
		}
		if handshake && st.g("closed later", nil) != "" {
			bad(o.pos, "socket closed", fr, st, "the socket of an established connection is closed at once")
		}
	}
	var roots []*ssa.Function
	for _, fn := range P.Roots(pk) {
		if !isLoop[fn] && isMethodOf(fn, m.conn) {
			roots = append(roots, fn)
		}
	}
	_ = root
	runRoots(P, r, mon, roots)
	if handshake {
		return
	}
	// 2: the goroutines
	g := &Monitor{Name: "client reports", Unroll: -1, NoLockCk: true, JoinAt: 300, JoinBlk: 300, ErrSplit: false}
	g.Relevant = func(fn *ssa.Function) bool { return P.relPkg(fn) == pk }
	g.Chan = func(x *Exec, st *State, fr *Frame, ev *ChanEv) {
		if ev.Kind == "default" {
			return
		}
		pos := token.NoPos
		if ev.Instr != nil {
			pos = ev.Instr.Pos()
		}
		n := ev.Ch != nil && (ev.Ch.Org != nil && ev.Ch.Org.Op == TField && ev.Ch.Org.N == notify && fieldOwner[ev.Ch.Org] == ck || ev.Ch.Org == nil && ev.Elem != nil && types.Identical(ev.Elem, notifyElem))
		if n && ev.Kind == "send" && x.root == writer {
			if count(st, "reports") == 0 {
				st.setG("told early", nil, "1")
			}
		}
		if n && ev.Kind == "recv" && x.root == control && count(st, "reports") > 0 {
			bad(pos, "reports", fr, st, "the control loop goes on after it has reported the end of the connection")
		}
		e, ok := reportOf(x, st, fr, ev)
		if !ok {
			return
		}
		if e.conn != x.self {
			bad(pos, "wrong report", fr, st, "another connection is reported")
		}
		if !ev.Block {
			bad(pos, "report lost", fr, st, "a report to the pool may be dropped")
		}
		more(st, "reports")
		switch {
		case x.root == writer && e.when == kWrite:
			sites["reports of writers"]++
		case x.root == control && e.when == kRead:
			sites["reports of readers"]++
		default:
			bad(pos, "wrong report", fr, st, "%s reports something else than its own end", fnName(x.root))
		}
	}
	g.End = func(x *Exec, o *Outcome) {
		if o.kind != OutReturn {
			return
		}
		st := o.st
		fr := &Frame{fn: x.root}
		want := 1
		if x.root == reader {
			want = 0
		}
		if n := count(st, "reports"); n != want {
			bad(o.pos, "reports", fr, st, "%s makes %d reports to the pool on a way out, instead of %d", fnName(x.root), n, want)
		} else {
			r.OK(o.pos, "reports of a goroutine")
		}
		if x.root == writer && st.g("told early", nil) != "" {
			bad(o.pos, "reports", fr, st, "the writer lets the control loop go on before it has reported its own end: the pool may hear of the end of the connection first")
		}
	}
	runRoots(P, r, g, []*ssa.Function{reader, writer, control})
}
