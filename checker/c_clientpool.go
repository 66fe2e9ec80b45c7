package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

// C04: how a client pool counts its connections.

func init() {
	register(&checkDef{id: "C04", run: checkClientPool,
		rule:  "conservation of counters, path by path through the loop of a client pool: each reported event, each connection that is started and each one that is stopped changes the numbers of dialing, established and dying connections, of those stopped but still counted, and the table of connections by what that event means and by nothing else, in every combination on a path; connections are started exactly while fewer are dialing, established and not stopped than needed, and stopped exactly while more are, each once; one whose writer is done counts as stopped; the loop leaves only when it was stopped and the table is empty; each connection reports its dialing once, then the end of its writer once and after that the end of its reader once, on every path",
		assum: []string{"connections of a pool are stopped by the pool only", "a call of the iproto package does not change the pool"}})
}

type poolPath struct {
	pos  token.Pos
	fn   string
	st   *State
	d    map[int]int // by field
	odd  bool
	ev   map[string]int // what happened
	what string
}

func checkClientPool(P *Program, r *Report) {
	const pk, ck = "net/client", "net/client/connection"
	srv, conn, rep := P.Type(pk, "Server"), P.Type(ck, "Connection"), P.Type(ck, "Error")
	if srv == nil || conn == nil || rep == nil {
		r.Add(0, "undecided", "", nil, "the types of the client pool were not found")
		return
	}
	loop := P.Method(pk, "Server", "Loop")
	newConn := P.Func(ck, "NewConnection")
	runChild, stopF, stoppedF := P.Method("", "SimplePoint", "RunChild"), P.Method("", "SimplePoint", "Stop"), P.Method("", "SimplePoint", "Stopped")
	fWhen, fErr, fConn := structField(rep, "When"), structField(rep, "Error"), structField(rep, "Conn")
	kDial, ok1 := P.Const(ck, "Dial")
	kRead, ok2 := P.Const(ck, "Read")
	kWrite, ok3 := P.Const(ck, "Write")
	cid := structField(conn, "Id")
	ss := under(srv).(*types.Struct)
	sk := types.TypeString(srv, nil)
	conns := -1
	var nums []int
	var exitElem types.Type
	for i := 0; i < ss.NumFields(); i++ {
		t := ss.Field(i).Type()
		if mt, ok := t.Underlying().(*types.Map); ok {
			if p, ok := mt.Elem().(*types.Pointer); ok && types.Identical(p.Elem(), conn) {
				conns = i
			}
		}
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Int {
			nums = append(nums, i)
		}
	}
	if f := P.Method("", "SimplePoint", "ExitChan"); f != nil {
		if c, ok := under(f.Signature.Results().At(0).Type()).(*types.Chan); ok {
			exitElem = c.Elem()
		}
	}
	if loop == nil || newConn == nil || runChild == nil || stopF == nil || stoppedF == nil || fWhen < 0 || fErr < 0 || fConn < 0 || !ok1 || !ok2 || !ok3 || cid < 0 || conns < 0 || exitElem == nil || len(nums) < 3 || len(nums) > 8 {
		r.Add(0, "undecided", "", nil, "the parts of the client pool were not recognised")
		return
	}
	fld := func(addr *Term, i int) *Term {
		if addr != nil && addr.Op == TField && (i < 0 || addr.N == i) && fieldOwner[addr] == sk {
			return addr.Args[0]
		}
		return nil
	}
	isNum := map[int]bool{}
	for _, i := range nums {
		isNum[i] = true
	}
	sites := map[string]int{}
	bad := func(pos token.Pos, rule string, fr *Frame, st *State, f string, args ...interface{}) {
		fn := ""
		if fr != nil {
			fn = fnName(fr.fn)
		}
		r.Add(pos, rule, fn, st, f, args...)
	}
	var paths []poolPath
	type guard struct { // a connection is started or stopped, or none is
		pos  token.Pos
		fn   string
		st   *State
		mem  map[int]*Term
		kind string   // "start", "stop", "no start"
		p    poolPath // what happened so far on this path
	}
	var guards []guard
	type needSt struct {
		pos   token.Pos
		field int
		fn    string
		st    *State
		zero  bool
		exit  bool
	}
	var needs []needSt
	mon := &Monitor{Name: "client pool", Unroll: -1, NoLockCk: true, JoinAt: 300, JoinBlk: 300, FlagSplit: true, CellLin: true}
	mon.Relevant = func(fn *ssa.Function) bool { return P.relPkg(fn) == pk }
	mon.Keep = func(x *Exec, st *State, addr *Term, ci *CallInfo) bool {
		return x.root == loop && fld(addr, -1) != nil
	}
	mon.Init = func(x *Exec, st *State, args []*Term) {
		if x.root == loop { // what an attempt with wrong invariants found is of no use
			paths, guards, needs = nil, nil, nil
		}
	}
	snapshot := func(x *Exec, st *State) map[int]*Term {
		m := map[int]*Term{}
		for _, i := range nums {
			m[i] = x.loadLeaf(st, fieldAddr(x.self, srv, i), ss.Field(i).Type())
		}
		return m
	}
	inc := func(st *State, k string, d int) {
		n, _ := strconv.Atoi(st.g(k, nil))
		n += d
		if n == 0 {
			st.setG(k, nil, "")
		} else {
			st.setG(k, nil, strconv.Itoa(n))
		}
	}
	get := func(st *State, k string) int { n, _ := strconv.Atoi(st.g(k, nil)); return n }
	evs := []string{"start", "insert", "delete", "stop", "stop dying", "dial ok", "dial err", "write", "read", "was stopped", "asked", "other"}
	sofar := func(st *State) poolPath {
		p := poolPath{d: map[int]int{}, ev: map[string]int{}}
		for _, i := range nums {
			p.d[i] = get(st, fmt.Sprint("d", i))
		}
		for _, e := range evs {
			p.ev[e] = get(st, e)
		}
		return p
	}
	closePath := func(x *Exec, st *State, fr *Frame, pos token.Pos, what string) {
		if x.root != loop {
			return
		}
		p := poolPath{pos: pos, fn: fnName(fr.fn), st: st, d: map[int]int{}, ev: map[string]int{}, what: what}
		any := false
		for _, i := range nums {
			if n := get(st, fmt.Sprint("d", i)); n != 0 {
				p.d[i], any = n, true
			}
			p.odd = p.odd || st.g(fmt.Sprint("odd", i), nil) != ""
			inc(st, fmt.Sprint("d", i), -get(st, fmt.Sprint("d", i)))
		}
		for _, e := range evs {
			if n := get(st, e); n != 0 {
				p.ev[e], any = n, true
			}
			inc(st, e, -get(st, e))
		}
		if any {
			paths = append(paths, p)
		}
	}
	connOf := func(recv *Term) *Term { // the connection whose end point this is
		if recv != nil && recv.Op == TField && fieldOwner[recv] == types.TypeString(conn, nil) {
			return recv.Args[0]
		}
		return recv
	}
	mon.Chan = func(x *Exec, st *State, fr *Frame, ev *ChanEv) {
		if x.root != loop || ev.Kind != "recv" || ev.Elem == nil {
			return
		}
		switch {
		case types.Identical(ev.Elem, rep):
			if ev.Val == nil {
				return
			}
			sites["reports received"]++
			f := x.fieldsOf(ev.Val, rep)
			st.setG("ev", nil, "?")
			st.vals["when"], st.vals["eerr"], st.vals["econn"] = f[fWhen], f[fErr], f[fConn]
		case types.Identical(ev.Elem, exitElem):
			st.setG("exit", nil, "1")
		default:
			if n := namedOf(ev.Elem); n != nil && n.Obj().Name() == "Time" {
				st.setG("tick", nil, "1")
			}
		}
	}
	classify := func(st *State) {
		w := st.vals["when"]
		if st.g("ev", nil) != "?" || w == nil {
			return
		}
		is := func(k int64) bool { return st.eval(eqTerm(w, num(k))) == 1 }
		e := st.vals["eerr"]
		switch {
		case is(kDial) && st.isNilFact(e) == 1:
			inc(st, "dial ok", 1)
		case is(kDial) && st.isNilFact(e) == 0:
			inc(st, "dial err", 1)
		case is(kWrite):
			inc(st, "write", 1)
		case is(kRead):
			inc(st, "read", 1)
		default:
			return
		}
		st.setG("ev", nil, "")
	}
	mon.Branch = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, cond *Term, taken bool) {
		if x.root != loop || x.self == nil {
			return
		}
		classify(st)
		mp := st.mem[fieldAddr(x.self, srv, conns)]
		if mp != nil && st.eval(eqTerm(x.mapLen(st, mp), num(0))) == 1 {
			st.setG("empty", nil, "1")
		}
		for j := 0; j < ss.NumFields(); j++ {
			if isBoolT(ss.Field(j).Type()) {
				if v := st.mem[fieldAddr(x.self, srv, j)]; v != nil && st.eval(v) == 1 {
					st.setG("was stopped known", nil, "1")
				}
			}
		}
		if st.g("created", nil) == "" {
			// a loop that starts connections is left
			body := x.loopInfo(fr.fn).body[in.Block()]
			if body == nil {
				return
			}
			succ := in.Block().Succs[1]
			if taken {
				succ = in.Block().Succs[0]
			}
			if body[succ] {
				return
			}
			for b := range body {
				for _, i2 := range b.Instrs {
					if c, ok := i2.(ssa.CallInstruction); ok && c.Common().StaticCallee() == runChild {
						guards = append(guards, guard{in.Pos(), fnName(fr.fn), st.clone(), snapshot(x, st), "no start", sofar(st)})
					}
				}
			}
		}
	}
	mon.Call = func(x *Exec, st *State, fr *Frame, ci *CallInfo) ([]Outcome, bool) {
		if x.root != loop || ci.Fn == nil || ci.Go || ci.Defer && false {
			return nil, false
		}
		pos := token.NoPos
		if ci.Instr != nil {
			pos = ci.Instr.Pos()
		}
		classify(st)
		switch ci.Fn {
		case newConn:
			v := fresh("conn", types.NewPointer(conn))
			st.assume(not(mkEq(v, nilTerm)))
			if len(ci.Args) > 1 {
				st.vals[gk("cid", v)] = ci.Args[1]
				a := ci.Args[1]
				if st.g("idinc", nil) == "" || st.vals["idval"] != a {
					bad(pos, "id reused", fr, st, "a connection is made with an id that is not a new one")
				} else {
					r.OK(pos, "new id")
				}
				st.setG("idinc", nil, "")
			}
			return []Outcome{{st: st, vals: []*Term{v}}}, true
		case runChild:
			sites["connections started"]++
			c := stripIface(ci.Args[1])
			if st.vals[gk("cid", c)] == nil {
				bad(pos, "accounting", fr, st, "something else than a new connection is started")
			}
			if g := st.g("phase", c); g != "in" {
				st.setG("phase", c, "run")
			}
			guards = append(guards, guard{pos, fnName(fr.fn), st.clone(), snapshot(x, st), "start", sofar(st)})
			inc(st, "start", 1)
			return []Outcome{{st: st}}, true
		case stoppedF:
			c := connOf(ci.Args[0])
			if c == nil || c == x.self || fieldOwner[ci.Args[0]] == sk {
				return nil, false
			}
			s2 := st.clone()
			st.setG("st", c, "1")
			s2.setG("st", c, "0")
			if c == st.vals["econn"] {
				inc(st, "was stopped", 1)
				inc(st, "asked", 1)
				inc(s2, "asked", 1)
				st.setG("eknown", nil, "1")
				s2.setG("eknown", nil, "0")
			}
			st.note(pos, "the connection was stopped before")
			return []Outcome{{st: st, vals: []*Term{tTrue}}, {st: s2, vals: []*Term{tFalse}}}, true
		case stopF:
			if fieldOwner[ci.Args[0]] == sk {
				return nil, false
			}
			sites["connections stopped"]++
			c := connOf(ci.Args[0])
			if st.g("st", c) != "0" {
				bad(pos, "stopped twice", fr, st, "a connection is stopped that may be stopped already: it is counted twice")
			} else {
				r.OK(pos, "stopped once")
			}
			st.setG("st", c, "1")
			if c == st.vals["econn"] && get(st, "write") > 0 {
				inc(st, "stop dying", 1)
			} else {
				guards = append(guards, guard{pos, fnName(fr.fn), st.clone(), snapshot(x, st), "stop", sofar(st)})
				inc(st, "stop", 1)
			}
			return []Outcome{{st: st}}, true
		}
		return nil, false
	}
	mon.Map = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, op string, mp, k, v *Term) {
		if mp == nil || mp.Org == nil || fld(mp.Org, conns) == nil {
			return
		}
		if x.root != loop && (op == "update" || op == "delete") {
			bad(in.Pos(), "accounting", fr, st, "the table of connections is changed by something else than the loop of the pool")
			return
		}
		classify(st)
		switch op {
		case "update":
			sites["connections entered"]++
			if id := st.vals[gk("cid", v)]; id == nil || st.eval(eqTerm(id, k)) != 1 {
				bad(in.Pos(), "accounting", fr, st, "a connection is entered under another id than its own")
			}
			inc(st, "insert", 1)
			st.setG("empty", nil, "")
		case "delete":
			sites["connections removed"]++
			if o := k.Org; o == nil || o.Op != TField || o.N != cid || o.Args[0] != st.vals["econn"] {
				bad(in.Pos(), "accounting", fr, st, "another connection is forgotten than the one that ended")
			}
			inc(st, "delete", 1)
		}
	}
	mon.Store = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, addr, old, val *Term) {
		s := fld(addr, -1)
		if s == nil || in == nil || st.private(s) {
			return
		}
		i := addr.N
		if x.root != loop {
			if isNum[i] {
				bad(in.Pos(), "accounting", fr, st, "a number of the pool is changed by something else than its loop")
			}
			return
		}
		classify(st)
		cur := before(st, addr, old)
		switch {
		case isNum[i]:
			d := sub(val, cur)
			if n, ok := d.isInt(); ok && n >= -4 && n <= 4 {
				inc(st, fmt.Sprint("d", i), int(n))
			} else {
				zero := st.eval(eqTerm(val, num(0))) == 1
				ex := true // is the pool known not to be stopped?
				for j := 0; j < ss.NumFields(); j++ {
					if b, ok := ss.Field(j).Type().(*types.Basic); ok && b.Kind() == types.Bool {
						if v := st.mem[fieldAddr(s, srv, j)]; v != nil && st.eval(v) == 0 {
							ex = false
						}
					}
				}
				if st.g("in loop", nil) == "" {
					ex = false
				}
				needs = append(needs, needSt{in.Pos(), i, fnName(fr.fn), st.clone(), zero, ex})
			}
		case isIntType(ss.Field(i).Type()):
			if n, ok := sub(val, cur).isInt(); ok && n == 1 || val.Op == TBin && val.Aux == "+" {
				st.setG("idinc", nil, "1")
				st.vals["idval"] = val
			} else {
				bad(in.Pos(), "id reused", fr, st, "the counter of ids is changed otherwise than by one")
			}
		case isBoolT(ss.Field(i).Type()):
			if st.eval(val) != 1 {
				bad(in.Pos(), "leaves early", fr, st, "the mark that the pool was stopped is taken back")
			} else if st.g("exit", nil) == "" {
				bad(in.Pos(), "leaves early", fr, st, "the pool is marked as stopped although it was not")
			} else {
				st.setG("exited", nil, "1")
			}
		}
	}
	mon.Loaded = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, addr, val *Term) {
		if s := fld(addr, -1); s != nil && isIntType(ss.Field(addr.N).Type()) && !isNum[addr.N] && st.g("idinc", nil) != "" {
			if st.mem[addr] == val {
				st.vals["idval"] = val
			}
		}
	}
	mon.PreBlock = func(x *Exec, st *State, fr *Frame, in ssa.Instruction) {
		if fr.fn == loop {
			st.setG("in loop", nil, "1")
		}
	}
	mon.BackEdge = func(x *Exec, st *State, fr *Frame, h *ssa.BasicBlock) {
		if x.root != loop {
			return
		}
		classify(st)
		la := fr.loops[h]
		if fr.fn == loop && st.g("ev", nil) == "?" {
			inc(st, "other", 1)
			st.setG("ev", nil, "")
		}
		closePath(x, st, fr, h.Instrs[0].Pos(), "round")
		for _, k := range []string{"tick", "created", "exit", "eknown", "idinc"} {
			if fr.fn == loop || k == "idinc" || k == "created" {
				st.setG(k, nil, "")
			}
		}
		if la != nil {
			for _, k := range []string{"st", "phase"} {
				st.eachG(k, func(t *Term, v string) {
					if born(t) > la.seq {
						st.setG(k, t, "")
					}
				})
			}
		}
	}
	mon.End = func(x *Exec, o *Outcome) {
		if x.root != loop || o.kind != OutReturn {
			return
		}
		classify(o.st)
		fr := &Frame{fn: x.root}
		closePath(x, o.st, fr, o.pos, "end")
		sites["ways out of the pool's loop"]++
		if o.st.g("empty", nil) == "" {
			bad(o.pos, "leaves early", fr, o.st, "the loop of the pool may leave although connections are left: their reports block them for ever")
		} else {
			r.OK(o.pos, "leaves with no connection left")
		}
		known := o.st.g("was stopped known", nil) != ""
		if !known && o.st.g("exit", nil) == "" {
			bad(o.pos, "leaves early", fr, o.st, "the loop of the pool may leave although it was not stopped")
		}
	}
	roots := []*ssa.Function{loop}
	for _, f := range P.Roots(pk) {
		if f != loop {
			roots = append(roots, f)
		}
	}
	runRoots(P, r, mon, roots)
	// which number is which: the assignment that explains most
	type roles struct{ d, e, y, s, n int }
	expect := func(p poolPath, a roles) map[int]int {
		w := map[int]int{}
		w[a.d] += p.ev["start"] - p.ev["dial ok"] - p.ev["dial err"]
		w[a.e] += p.ev["dial ok"] - p.ev["write"]
		if a.y >= 0 {
			w[a.y] += p.ev["write"] - p.ev["read"]
		}
		if a.s >= 0 {
			w[a.s] += p.ev["stop"]
			if p.ev["dial err"]+p.ev["write"] > 0 {
				w[a.s] -= p.ev["was stopped"]
			}
		}
		return w
	}
	wrong := func(p poolPath, a roles) bool {
		w := expect(p, a)
		for _, i := range nums {
			if i != a.n && w[i] != p.d[i] {
				return true
			}
		}
		return false
	}
	gap := func(m map[int]*Term, a roles) *Term { // how many are missing
		t := sub(sub(m[a.n], m[a.d]), m[a.e])
		if a.s >= 0 {
			t = add(t, m[a.s])
		}
		return t
	}
	holds := func(g guard, a roles) bool {
		// numbers may be brought up to date before or after what they count
		w, m := expect(g.p, a), map[int]*Term{}
		for i, v := range g.mem {
			m[i] = v
			if i == a.d || i == a.e || i == a.s {
				m[i] = add(v, num(int64(w[i]-g.p.d[i])))
			}
		}
		t := gap(m, a)
		switch g.kind {
		case "start":
			return g.st.eval(ge0(sub(t, num(1)))) == 1
		case "stop":
			return g.st.eval(ge0(sub(num(-1), t))) == 1
		case "no start":
			return g.st.eval(ge0(scale(t, -1))) == 1
		}
		return true
	}
	best, bestN := roles{}, -1
	for _, d := range nums {
		for _, e := range nums {
			for _, n := range nums {
				if d == e || n == d || n == e {
					continue
				}
				for _, y := range append([]int{-1}, nums...) {
					for _, s := range append([]int{-1}, nums...) {
						if y >= 0 && (y == d || y == e || y == n || y == s) || s >= 0 && (s == d || s == e || s == n) {
							continue
						}
						a, c := roles{d, e, y, s, n}, 0
						for _, p := range paths {
							if wrong(p, a) {
								c += 4
							}
						}
						for _, g := range guards {
							if !holds(g, a) {
								c += 4
							}
						}
						if y < 0 {
							c += 3 // explain as much as possible
						}
						if s < 0 {
							c += 3
						}
						for _, w := range needs {
							if w.field != n {
								c += 4
							}
						}
						if bestN < 0 || c < bestN {
							best, bestN = a, c
						}
					}
				}
			}
		}
	}
	name := func(i int) string {
		if i < 0 {
			return "-"
		}
		return ss.Field(i).Name()
	}
	describe := func(p poolPath) string {
		var l []string
		for _, e := range evs {
			if p.ev[e] != 0 {
				l = append(l, fmt.Sprintf("%s %d", e, p.ev[e]))
			}
		}
		s := ""
		for i, e := range l {
			if i > 0 {
				s += ", "
			}
			s += e
		}
		return s
	}
	for _, p := range paths {
		w := expect(p, best)
		okP := true
		for _, i := range nums {
			if i != best.n && w[i] != p.d[i] {
				okP = false
				r.Add(p.pos, "accounting", p.fn, p.st, "the number of %s connections changes by %d instead of %d (%s)", name(i), p.d[i], w[i], describe(p))
			}
		}
		if p.ev["insert"] != p.ev["start"] {
			okP = false
			r.Add(p.pos, "accounting", p.fn, p.st, "a connection is started or entered into the table, but not both (%s)", describe(p))
		}
		if p.ev["delete"] != p.ev["dial err"]+p.ev["read"] {
			okP = false
			r.Add(p.pos, "accounting", p.fn, p.st, "the table does not forget exactly the connections that ended (%s)", describe(p))
		}
		if p.ev["write"] > 0 && p.ev["was stopped"]+p.ev["stop dying"] != 1 && best.s >= 0 {
			okP = false
			r.Add(p.pos, "accounting", p.fn, p.st, "a connection whose writer is done may be stopped later and be counted as stopped then (%s)", describe(p))
		}
		if p.ev["dial err"] > 0 && p.ev["asked"] == 0 && best.s >= 0 {
			okP = false
			r.Add(p.pos, "accounting", p.fn, p.st, "a connection that could not be dialed is forgotten without regard to whether it is counted as stopped (%s)", describe(p))
		}
		if okP {
			r.OK(p.pos, "counted")
		}
	}
	for _, g := range guards {
		if !holds(g, best) {
			switch g.kind {
			case "start":
				r.Add(g.pos, "too many", g.fn, g.st, "a connection is started although it may not be missing")
			case "stop":
				r.Add(g.pos, "too few", g.fn, g.st, "a connection is stopped although it may not be too many")
			default:
				r.Add(g.pos, "too few", g.fn, g.st, "no more connections are started although some may be missing")
			}
		} else {
			r.OK(g.pos, g.kind)
		}
	}
	for _, w := range needs {
		if w.field == best.d || w.field == best.e || w.field == best.y || w.field == best.s {
			r.Add(w.pos, "accounting", w.fn, w.st, "the number of %s connections is set to something else", name(w.field))
		} else if w.field == best.n && !w.zero && w.exit {
			r.Add(w.pos, "leaves late", w.fn, w.st, "a stopped pool may be made to open connections again")
		} else {
			r.OK(w.pos, "number of needed connections")
		}
	}
	r.Counts["paths with events"] = len(paths)
	sites["paths with events"] = len(paths)
	checkDial(P, r, sites, false)
	var ks []string
	for k, v := range sites {
		r.Counts["events: "+k] = v
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range []string{"reports received", "connections started", "connections stopped", "connections entered", "connections removed", "ways out of the pool's loop", "paths with events", "reports of dialing", "reports of writers", "reports of readers"} {
		r.Floor(k, sites[k], 1)
	}
}
