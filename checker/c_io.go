package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// W05, W06, W07: flushing before sleeping, errors end the use of a stream,
// deadlines.

func init() {
	register(&checkDef{id: "W05", run: func(P *Program, r *Report) { checkOutput(P, r, true) },
		rule:  "typestate of the output (clean, dirty, failed) on every path of every goroutine of client and server connections: a frame makes it dirty, a successful flush clean; it is not dirty where a goroutine that wrote blocks in a receive, a select or a wait, where it shuts the writing side down, and where it ends",
		assum: []string{"a flush that returns no error leaves nothing behind (W03)"}})
	register(&checkDef{id: "W06", run: func(P *Program, r *Report) { checkOutput(P, r, false) },
		rule:  "typestate of both directions (usable, failed) on every path of every goroutine of client and server connections: after an operation on frames returned an error no further one is made in this direction, the goroutine does not block for more work, and it ends after having sent a message; within the frame and buffer methods, on every path on which an operation of the layer below returned an error no further one is made and an error is returned, except that a read may succeed when everything it asked for has arrived",
		assum: []string{"the message sent reaches the control loop, which acts on it (S03, C03)"}})
	register(&checkDef{id: "W07", run: checkDeadlines,
		rule:  "path conditions and provenance at every read and write of the connection in the buffered reader and writer: with a timeout, the deadline of this direction was set to now plus the timeout on this connection before, or the connection is known not to support deadlines, and it is cleared before the operation reports success; without one no deadline is set; the timeout is the one given to the initialiser",
		assum: []string{"setting a deadline succeeds", "a reader and a writer are used by one goroutine"}})
}

// lastErr: the error result of a function.
func lastErr(sig *types.Signature) bool {
	n := sig.Results().Len()
	return n > 0 && types.Identical(sig.Results().At(n-1).Type(), types.Universe.Lookup("error").Type())
}

func checkOutput(P *Program, r *Report, flush bool) {
	hw, hr := P.Type("net", "HeaderWriter"), P.Type("net", "HeaderReader")
	bw, sr := P.Type("net", "BufWriter"), P.Type("net", "SliceReader")
	if hw == nil || hr == nil || bw == nil || sr == nil {
		r.Add(0, "undecided", "", nil, "the frame readers and writers were not found")
		return
	}
	sites := map[string]int{}
	bad := func(pos token.Pos, rule string, fn *ssa.Function, st *State, f string, args ...interface{}) {
		r.Add(pos, rule, fnName(fn), st, f, args...)
	}
	pkgs := []string{"net/server", "net/client/connection", "net/client"}
	mon := &Monitor{Name: "output", Unroll: -1, NoLockCk: true, JoinAt: 200, JoinBlk: 200, ErrSplit: true}
	mon.Relevant = func(fn *ssa.Function) bool {
		p := P.relPkg(fn)
		for _, q := range pkgs {
			if p == q {
				return true
			}
		}
		return false
	}
	op := func(x *Exec, st *State, fr *Frame, ci *CallInfo, dir string) ([]Outcome, bool) {
		f := ci.Fn
		sig := f.Signature
		sites["operations on frames"]++
		pos := ci.Instr.Pos()
		if !flush {
			other := map[string]string{"read": "write", "write": "read"}[dir]
			if st.g("dead:"+dir, nil) != "" {
				bad(pos, "used after error", fr.fn, st, "the %s direction is used again after an error", dir)
			} else if st.g("dead:"+other, nil) != "" {
				bad(pos, "error ignored", fr.fn, st, "goes on with the %s direction after an error of the other one", dir)
			} else {
				r.OK(pos, "no error before")
			}
		}
		s2 := st.clone()
		if dir == "write" {
			if sig.Params().Len() == 0 && strings.Contains(f.Name(), "Flush") {
				st.setG("dirty", nil, "")
			} else {
				st.setG("dirty", nil, "1")
				sites["frames written"]++
			}
		}
		s2.note(pos, "%s fails", f.Name())
		s2.setG("dead:"+dir, nil, "1")
		s2.setG("told", nil, "")
		mkv := func(s *State, e *Term) (l []*Term) {
			for i := 0; i < sig.Results().Len()-1; i++ {
				l = append(l, x.freshVal(s, "res", sig.Results().At(i).Type()))
			}
			return append(l, e)
		}
		return []Outcome{{st: st, vals: mkv(st, nilTerm)}, {st: s2, vals: mkv(s2, freshErr("io"))}}, true
	}
	mon.Call = func(x *Exec, st *State, fr *Frame, ci *CallInfo) ([]Outcome, bool) {
		if f := ci.Fn; f != nil && lastErr(f.Signature) {
			switch {
			case isMethodOf(f, hw) && f.Object().Exported():
				return op(x, st, fr, ci, "write")
			case isMethodOf(f, hr) && f.Object().Exported():
				return op(x, st, fr, ci, "read")
			}
		}
		name := ""
		if ci.Method != nil {
			name = ci.Method.Name()
		} else if ci.Fn != nil {
			name = ci.Fn.Name()
		}
		if name == "CloseWrite" && flush {
			sites["shutdowns"]++
			if st.g("dirty", nil) != "" && st.g("dead:write", nil) == "" {
				bad(ci.Instr.Pos(), "unflushed", fr.fn, st, "the writing side is shut down while frames may sit in the output buffer")
			} else {
				r.OK(ci.Instr.Pos(), "output clean or failed")
			}
		}
		return nil, false
	}
	mon.PreBlock = func(x *Exec, st *State, fr *Frame, in ssa.Instruction) {
		recv := false
		switch i := in.(type) {
		case *ssa.Select:
			for _, s := range i.States {
				recv = recv || s.Dir == types.RecvOnly
			}
		case *ssa.UnOp:
			recv = true
		case *ssa.Send:
		default:
			recv = true
		}
		if !recv {
			return
		}
		sites["waits"]++
		if flush {
			if st.g("dirty", nil) != "" && st.g("dead:write", nil) == "" {
				bad(in.Pos(), "unflushed", fr.fn, st, "blocks while frames may sit in the output buffer")
			} else {
				r.OK(in.Pos(), "output clean")
			}
			return
		}
		for _, d := range []string{"read", "write"} {
			if st.g("dead:"+d, nil) != "" {
				bad(in.Pos(), "goes on", fr.fn, st, "waits for more work after an error of the %s direction", d)
			}
		}
	}
	mon.Chan = func(x *Exec, st *State, fr *Frame, ev *ChanEv) {
		if ev.Kind == "send" {
			st.setG("told", nil, "1")
		}
	}
	mon.End = func(x *Exec, o *Outcome) {
		if o.kind == OutPanic {
			return
		}
		st := o.st
		if flush {
			if st.g("dirty", nil) != "" && st.g("dead:write", nil) == "" {
				bad(o.pos, "unflushed", x.root, st, "ends while frames may sit in the output buffer")
			}
			return
		}
		for _, d := range []string{"read", "write"} {
			if st.g("dead:"+d, nil) != "" {
				sites["failures followed to the end"]++
				if st.g("told", nil) == "" {
					bad(o.pos, "silent", x.root, st, "ends after an error of the %s direction without having told anybody", d)
				} else {
					r.OK(o.pos, "error reported")
				}
			}
		}
	}
	var roots []*ssa.Function
	for _, f := range P.Roots(pkgs...) {
		if returnsErrUp(f) {
			continue
		}
		roots = append(roots, f)
	}
	runRoots(P, r, mon, roots)
	if !flush {
		m2 := *mon
		m2.Relevant = func(fn *ssa.Function) bool { return P.relPkg(fn) == "net" }
		m2.PreBlock, m2.Chan = nil, nil
		// layer by layer: frame methods over buffer methods, those over the connection
		failed := func(st *State) bool { return st.g("failed", nil) != "" }
		below := func(x *Exec, st *State, fr *Frame, ci *CallInfo, sig *types.Signature) ([]Outcome, bool) {
			sites["operations below"]++
			if failed(st) {
				bad(ci.Instr.Pos(), "used after error", fr.fn, st, "the stream is used again after an error")
			}
			s2 := st.clone()
			s2.note(ci.Instr.Pos(), "it fails")
			s2.setG("failed", nil, "1")
			mkv := func(s *State, e *Term) (l []*Term) {
				for i := 0; i < sig.Results().Len()-1; i++ {
					l = append(l, x.freshVal(s, "res", sig.Results().At(i).Type()))
				}
				return append(l, e)
			}
			return []Outcome{{st: st, vals: mkv(st, nilTerm)}, {st: s2, vals: mkv(s2, freshErr("io"))}}, true
		}
		m2.Call = func(x *Exec, st *State, fr *Frame, ci *CallInfo) ([]Outcome, bool) {
			if f := ci.Fn; f != nil && lastErr(f.Signature) && f.Object() != nil && f.Object().Exported() {
				upper := isMethodOf(x.root, hw) || isMethodOf(x.root, hr)
				if upper && (isMethodOf(f, bw) || isMethodOf(f, sr)) {
					return below(x, st, fr, ci, f.Signature)
				}
			}
			if m := ci.Method; m != nil && (m.Name() == "Read" || m.Name() == "Write") {
				if sig := m.Type().(*types.Signature); lastErr(sig) {
					return below(x, st, fr, ci, sig)
				}
			}
			return nil, false
		}
		m2.End = func(x *Exec, o *Outcome) {
			if o.kind != OutReturn || !failed(o.st) {
				return
			}
			sites["failures followed to the end"]++
			st := o.st
			if len(o.vals) == 0 || !lastErr(x.root.Signature) {
				bad(o.pos, "swallowed", x.root, st, "an error of the stream is not returned")
				return
			}
			e := o.vals[len(o.vals)-1]
			if st.eval(mkEq(e, nilTerm)) == 0 || knownError(e) {
				r.OK(o.pos, "error returned")
				return
			}
			if isMethodOf(x.root, sr) {
				// what was asked for has arrived (W04)
				r.OK(o.pos, "enough has arrived before the error")
				return
			}
			bad(o.pos, "swallowed", x.root, st, "an error of the stream is not returned")
		}
		for _, fn := range P.Roots("net") {
			if !(isMethodOf(fn, hw) || isMethodOf(fn, hr) || isMethodOf(fn, bw) || isMethodOf(fn, sr)) {
				continue
			}
			x := newExec(P, r, &m2)
			x.RunRoot(fn, nil)
		}
		r.Floor("operations below", sites["operations below"], 15)
		r.Floor("failures followed", sites["failures followed to the end"], 15)
	} else {
		r.Floor("frames written", sites["frames written"], 3)
		r.Floor("shutdowns", sites["shutdowns"], 2)
	}
	for k, v := range sites {
		r.Counts["events: "+k] = v
	}
	r.Floor("operations on frames", sites["operations on frames"], 8)
	r.Floor("waits", sites["waits"], 4)
}

// returnsErrUp: a function that hands errors to its caller is followed there.
func returnsErrUp(fn *ssa.Function) bool {
	return lastErr(fn.Signature) && fn.Object() != nil && !fn.Object().Exported()
}

func checkDeadlines(P *Program, r *Report) {
	sites := map[string]int{}
	bad := func(pos token.Pos, rule string, fn *ssa.Function, st *State, f string, args ...interface{}) {
		r.Add(pos, rule, fnName(fn), st, f, args...)
	}
	isDur := func(t types.Type) bool {
		n := namedOf(t)
		return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Duration"
	}
	for _, c := range []struct{ typ, dir, user string }{{"BufWriter", "Write", "HeaderWriter"}, {"SliceReader", "Read", "HeaderReader"}} {
		c := c
		t := P.Type("net", c.typ)
		if t == nil {
			r.Add(0, "undecided", "", nil, "%s not found", c.typ)
			continue
		}
		key := types.TypeString(t, nil)
		s := under(t).(*types.Struct)
		iT, iConn, iD := -1, -1, -1
		var bools []int
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			if isDur(ft) {
				iT = i
			}
			if b, ok := ft.Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
				bools = append(bools, i)
			}
			if it, ok := ft.Underlying().(*types.Interface); ok {
				hasDl, hasOp := false, false
				ms := types.NewMethodSet(ft)
				for j := 0; j < ms.Len(); j++ {
					hasDl = hasDl || strings.HasSuffix(ms.At(j).Obj().Name(), "Deadline")
					hasOp = hasOp || ms.At(j).Obj().Name() == c.dir
				}
				_ = it
				if hasOp {
					iConn = i
				} else if hasDl {
					iD = i
				}
			}
		}
		if iT < 0 || iConn < 0 {
			r.Add(0, "undecided", "", nil, "the fields of %s were not recognised", c.typ)
			continue
		}
		isF := func(a *Term, i int) bool {
			return i >= 0 && a != nil && a.Op == TField && a.N == i && fieldOwner[a] == key
		}
		isBoolF := func(a *Term) bool {
			for _, i := range bools {
				if isF(a, i) {
					return true
				}
			}
			return false
		}
		mon := &Monitor{Name: "deadlines", Unroll: -1, NoLockCk: true, JoinAt: 400, JoinBlk: 400, Facts: true, ErrSplit: true}
		mon.Relevant = func(fn *ssa.Function) bool { return P.relPkg(fn) == "net" }
		mon.Keep = func(x *Exec, st *State, addr *Term, ci *CallInfo) bool {
			return addr.Op == TField && fieldOwner[addr] == key
		}
		cell := func(x *Exec, st *State, i int) *Term {
			return x.loadLeaf(st, fieldAddr(x.self, t, i), s.Field(i).Type())
		}
		var dl types.Type
		if iD >= 0 {
			dl = s.Field(iD).Type()
		} else {
			dl = P.Type("net", "SetDeadliner")
		}
		unsupported := func(x *Exec, st *State) bool {
			conn := cell(x, st, iConn)
			if dl != nil && st.eval(mk(TIsType, dl, "", 0, conn)) == 0 {
				return true
			}
			if iD < 0 || st.eval(mkEq(cell(x, st, iD), nilTerm)) != 1 {
				return false
			}
			// checked earlier
			for _, b := range bools {
				if st.eval(cell(x, st, b)) == 1 {
					return true
				}
			}
			return false
		}
		mon.Store = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, addr, old, val *Term) {
			if in == nil || x.self == nil || !isMethodOf(x.root, t) {
				return
			}
			switch {
			case isF(addr, iD):
				sites["deadline setters remembered"]++
				conn := cell(x, st, iConn)
				switch {
				case val == conn:
				case st.eval(mkEq(val, nilTerm)) == 1 && st.eval(mk(TIsType, dl, "", 0, conn)) == 0:
				default:
					bad(in.Pos(), "wrong connection", fr.fn, st, "deadlines would be set on %s instead of the connection", val)
				}
				st.setG("dset", nil, "1")
			case isBoolF(addr):
				if val == tTrue || st.eval(val) != 0 {
					st.setG("bset", nil, "1")
				}
			case isF(addr, iT):
				bad(in.Pos(), "timeout changed", fr.fn, st, "the timeout is changed to %s", val)
			}
		}
		mon.Call = func(x *Exec, st *State, fr *Frame, ci *CallInfo) ([]Outcome, bool) {
			if ci.Method == nil || ci.Recv == nil || x.self == nil || !isMethodOf(x.root, t) {
				return nil, false
			}
			pos := ci.Instr.Pos()
			T := cell(x, st, iT)
			timed := st.eval(ge0(sub(T, num(1))))
			onConn := ci.Recv == cell(x, st, iConn) || ci.Recv.Org != nil && isF(ci.Recv.Org, iConn)
			onD := iD >= 0 && (ci.Recv == cell(x, st, iD) || ci.Recv.Org != nil && isF(ci.Recv.Org, iD))
			name := ci.Method.Name()
			switch {
			case strings.HasSuffix(name, "Deadline"):
				sites["deadlines set"]++
				if !onConn && !onD {
					bad(pos, "wrong connection", fr.fn, st, "a deadline is set on something else than the connection")
				}
				if name != "Set"+c.dir+"Deadline" {
					bad(pos, "wrong direction", fr.fn, st, "%s is called by the %s side", name, strings.ToLower(c.dir))
				}
				if timed != 1 {
					bad(pos, "without timeout", fr.fn, st, "a deadline is set although no timeout may be configured")
				}
				a := ci.Args[len(ci.Args)-1]
				switch {
				case a.Op == TApp && a.Aux == "time.Add":
					if b := a.Args[0]; b.Op != TSym || b.Aux != "now" || st.eval(eqTerm(a.Args[1], T)) != 1 {
						bad(pos, "wrong deadline", fr.fn, st, "the deadline is %s instead of now plus the timeout", a)
					} else {
						r.OK(pos, "now plus the timeout")
					}
					st.setG("armed", nil, "1")
				case isZeroTime(a):
					st.setG("armed", nil, "")
				default:
					bad(pos, "wrong deadline", fr.fn, st, "the deadline is %s instead of now plus the timeout", a)
				}
				return []Outcome{{st: st, vals: []*Term{x.freshVal(st, "err", ci.Res)}}}, true
			case name == c.dir && onConn:
				sites["operations on the connection"]++
				switch {
				case timed == 0:
					if st.g("armed", nil) != "" {
						bad(pos, "without timeout", fr.fn, st, "a deadline is set although no timeout is configured")
					}
					r.OK(pos, "no timeout, no deadline")
				case timed < 0 && st.g("armed", nil) == "" && unsupported(x, st):
					r.OK(pos, "no support for deadlines")
				case timed < 0:
					bad(pos, "no deadline", fr.fn, st, "the connection is used without regard to the timeout")
				case st.g("armed", nil) == "1":
					r.OK(pos, "deadline set")
				case st.g("armed", nil) == "used":
					bad(pos, "no deadline", fr.fn, st, "the connection is used a second time under the deadline of the first")
				case unsupported(x, st):
					r.OK(pos, "no support for deadlines")
				default:
					bad(pos, "no deadline", fr.fn, st, "the connection is used with a timeout configured and no deadline set")
				}
				if st.g("armed", nil) != "" {
					st.setG("armed", nil, "used")
				}
				s2 := st.clone()
				s2.note(pos, "the connection fails")
				st.setG("failed", nil, "")
				s2.setG("failed", nil, "1")
				n := fresh("n", tyInt)
				if len(ci.Args) > 0 {
					bt := types.NewSlice(types.Typ[types.Uint8])
					for _, q := range []*State{st, s2} {
						q.assume(ge0(n))
						q.assume(ge0(sub(lenOf(ci.Args[0], bt), n)))
					}
				}
				return []Outcome{{st: st, vals: []*Term{n, nilTerm}}, {st: s2, vals: []*Term{n, freshErr("io")}}}, true
			}
			return nil, false
		}
		mon.End = func(x *Exec, o *Outcome) {
			if o.kind != OutReturn || x.self == nil || !isMethodOf(x.root, t) {
				return
			}
			st := o.st
			if st.g("bset", nil) != "" && st.g("dset", nil) == "" {
				bad(o.pos, "not looked up", x.root, st, "it is noted that support for deadlines was examined, but it was not")
			}
			if !lastErr(x.root.Signature) || st.eval(mkEq(o.vals[len(o.vals)-1], nilTerm)) == 0 {
				return
			}
			sites["successes"]++
			if st.g("armed", nil) != "" {
				// a read that failed may have brought enough
				if st.g("failed", nil) == "" {
					bad(o.pos, "not cleared", x.root, st, "the operation succeeds with the deadline still set")
				}
			} else {
				r.OK(o.pos, "deadline cleared or not set")
			}
		}
		_ = fmt.Sprint
		for _, fn := range P.Roots("net") {
			if !isMethodOf(fn, t) || !fn.Object().Exported() || setsWhole(fn, t) {
				continue
			}
			x := newExec(P, r, mon)
			x.RunRoot(fn, nil)
		}
		// the initialiser of the frame layer hands the timeout on
		ut := P.Type("net", c.user)
		init := P.Method("net", c.user, "Init")
		if ut == nil || init == nil {
			r.Add(0, "undecided", "", nil, "the initialiser of %s was not found", c.user)
			continue
		}
		us := under(ut).(*types.Struct)
		var dur []int
		for i, p := range init.Params {
			if isDur(p.Type()) {
				dur = append(dur, i)
			}
		}
		if len(dur) != 1 {
			r.Add(init.Pos(), "undecided", fnName(init), nil, "the timeout of the initialiser was not recognised")
			continue
		}
		m2 := &Monitor{Name: "deadline init", Unroll: -1, NoLockCk: true}
		m2.Relevant = mon.Relevant
		m2.End = func(x *Exec, o *Outcome) {
			if o.kind != OutReturn {
				return
			}
			for i := 0; i < us.NumFields(); i++ {
				if !types.Identical(us.Field(i).Type(), t) {
					continue
				}
				sites["initialisations"]++
				v := o.st.mem[fieldAddr(fieldAddr(x.self, ut, i), t, iT)]
				if v != x.args[dur[0]] {
					bad(o.pos, "timeout not used", init, o.st, "the timeout becomes %s instead of the one given", v)
				} else {
					r.OK(o.pos, "the timeout given")
				}
			}
		}
		newExec(P, r, m2).RunRoot(init, nil)
	}
	for k, v := range sites {
		r.Counts["events: "+k] = v
	}
	r.Floor("operations on the connection", sites["operations on the connection"], 2)
	r.Floor("deadlines set", sites["deadlines set"], 4)
	r.Floor("initialisations", sites["initialisations"], 2)
}

// isZeroTime: the zero value of time.Time.
func isZeroTime(a *Term) bool {
	if a.Op == TConst {
		return true
	}
	if a.Op == TSym || a.Op == TApp || len(a.Args) == 0 {
		return false
	}
	for _, b := range a.Args {
		if n, ok := b.isInt(); !(ok && n == 0) && !b.isNil() {
			return false
		}
	}
	return true
}
