package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// C06: the configuration of a client reaches the place where it acts.

func init() {
	register(&checkDef{id: "C06", run: checkConfig,
		rule:  "provenance of values: under each combination of set and unset values on each path through the making of a pool, each value of the new pool is the value given for it, or the documented default if none was given; a pool passes its own configuration to its connections and starts with the configured number; a connection dials the network and address with the dial timeout of its configuration, and gives its reader and writer the read and the write timeout, the width of return codes and the connection that was dialed; pings are sent on ticks of the configured interval, and only if there is one; Auto takes everything but the address from its configuration",
		assum: []string{"the default intervals and timeouts are not negative", "deadlines follow the timeouts given to reader and writer (W07), and requests the timeout of their end point (T01)"}})
}

type configM struct {
	P     *Program
	r     *Report
	sites map[string]int
	cconf types.Type
}

func (m *configM) bad(pos token.Pos, rule string, fr *Frame, st *State, f string, args ...interface{}) {
	fn := ""
	if fr != nil {
		fn = fnName(fr.fn)
	}
	m.r.Add(pos, rule, fn, st, f, args...)
}

// fieldPath: the fields to go through, by the name of the last one, embedded
// structs included.
func fieldPath(t types.Type, name string) ([]int, types.Type) {
	s, ok := under(t).(*types.Struct)
	if !ok {
		return nil, nil
	}
	obj, idx, _ := types.LookupFieldOrMethod(t, true, nil, name)
	if obj == nil {
		// a field of another package, or of a struct that is embedded
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				return []int{i}, s.Field(i).Type()
			}
		}
		return nil, nil
	}
	if v, ok := obj.(*types.Var); ok && v.IsField() {
		return idx, v.Type()
	}
	return nil, nil
}

// at: the value of a field of a struct in memory, embedded structs included.
func (m *configM) at(x *Exec, st *State, addr *Term, t types.Type, name string) *Term {
	idx, ft := fieldPath(t, name)
	if idx == nil {
		return nil
	}
	a := addr
	for _, i := range idx {
		if p, ok := under(t).(*types.Pointer); ok {
			t = p.Elem()
			a = x.loadLeaf(st, a, types.NewPointer(t))
		}
		a = fieldAddr(a, t, i)
		t = under(t).(*types.Struct).Field(i).Type()
	}
	return x.loadLeaf(st, a, ft)
}

// of: the field of a configuration a value was read from.
func (m *configM) of(v *Term) string {
	if v == nil {
		return ""
	}
	o := stripConv(v).Org
	if o == nil || o.Op != TField || fieldOwner[o] != types.TypeString(m.cconf, nil) {
		return ""
	}
	return under(m.cconf).(*types.Struct).Field(o.N).Name()
}

func isDurationT(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Duration"
}

func checkConfig(P *Program, r *Report) {
	const pk, ck = "net/client", "net/client/connection"
	m := &configM{P: P, r: r, sites: map[string]int{}, cconf: P.Type(ck, "CConf")}
	cfgT, srvT, connT := P.Type(pk, "ServerConfig"), P.Type(pk, "Server"), P.Type(ck, "Connection")
	newServer := P.Method(pk, "ServerConfig", "NewServer")
	newConn := P.Func(ck, "NewConnection")
	get := P.Method(pk, "Auto", "Get")
	loop := P.Method(pk, "Server", "Loop")
	if m.cconf == nil || cfgT == nil || srvT == nil || connT == nil || newServer == nil || newConn == nil || get == nil || loop == nil {
		r.Add(0, "undecided", "", nil, "the types of the client's configuration were not found")
		return
	}
	m.pool(newServer, cfgT, srvT)
	m.auto(get, newServer, cfgT)
	m.start(loop, newConn, srvT)
	m.connection(newConn, connT)
	for k, v := range m.sites {
		r.Counts["events: "+k] = v
	}
	for _, k := range []string{"configurations of pools", "pools made for addresses", "configurations passed to connections", "numbers of connections", "connections configured", "connections dialed", "readers and writers initialised", "tickers", "ticks"} {
		r.Floor(k, m.sites[k], 1)
	}
}

// pool: what becomes of a pool's configuration.
func (m *configM) pool(fn *ssa.Function, cfgT, srvT types.Type) {
	P, r := m.P, m.r
	mon := &Monitor{Name: "pool config", Unroll: -1, NoLockCk: true, JoinAt: 4000, JoinBlk: 4000}
	mon.Relevant = func(f *ssa.Function) bool { return P.relPkg(f) == "net/client" }
	given := func(x *Exec, st *State, name string) *Term {
		i := structField(cfgT, name)
		if i < 0 {
			return nil
		}
		return x.fieldOf(x.args[0], i, under(cfgT).(*types.Struct).Field(i).Type(), name)
	}
	mon.Keep = func(x *Exec, st *State, addr *Term, ci *CallInfo) bool { return addrRoot(addr).Op == TAlloc }
	mon.Call = func(x *Exec, st *State, fr *Frame, ci *CallInfo) ([]Outcome, bool) {
		if ci.Fn != nil && ci.Fn.Pkg != nil && ci.Fn.Pkg.Pkg.Path() == "strings" && len(ci.Args) == 2 {
			a, b := ci.Args[0], ci.Args[1]
			n, isN := b.isInt()
			if isN && n == ':' || isColon(b) {
				if a == given(x, st, "Address") || a.Org != nil && a.Org.Op == TField {
					f := st.vals["colon"]
					if f == nil {
						f = fresh("has a colon", types.Typ[types.Bool])
						st.vals["colon"] = f
					}
					if t := ci.Fn.Signature.Results().At(0).Type(); isBoolT(t) {
						return []Outcome{{st: st, vals: []*Term{f}}}, true
					} else if isIntType(t) {
						s2 := st.clone()
						st.assume(f)
						s2.assume(not(f))
						v := fresh("index", tyInt)
						st.assume(ge0(v))
						return []Outcome{{st: st, vals: []*Term{v}}, {st: s2, vals: []*Term{num(-1)}}}, true
					}
				}
			}
		}
		return nil, false
	}
	mon.Branch = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, cond *Term, taken bool) {
		if c := st.vals["colon"]; c != nil && st.eval(c) >= 0 {
			st.setG("colon", nil, map[int]string{0: "0", 1: "1"}[st.eval(c)])
		}
	}
	mon.End = func(x *Exec, o *Outcome) {
		if o.kind != OutReturn || len(o.vals) == 0 {
			return
		}
		st, fr := o.st, &Frame{fn: fn}
		m.sites["configurations of pools"]++
		empty := func(v *Term) int {
			if isStringT(v.Typ) {
				return st.eval(eq0(lenOf(v, v.Typ)))
			}
			return st.eval(eqTerm(v, num(0)))
		}
		same := func(v, g *Term) bool {
			return v == g || stripConv(v) == stripConv(g) || st.eval(eqTerm(v, g)) == 1
		}
		check := func(name string, ok bool, v *Term, what string) {
			if ok {
				r.OK(o.pos, name+" "+what)
			} else {
				m.bad(o.pos, "value lost", fr, st, "%s of the new pool is %s instead of %s", name, v, what)
			}
		}
		for _, name := range []string{"Network", "Address", "Name", "Connections", "DialTimeout", "ReadTimeout", "WriteTimeout", "PingInterval", "RetCodeType", "Timeout"} {
			g := given(x, st, name)
			var v *Term
			if name == "Name" || name == "Connections" {
				v = m.inner(x, st, o.vals[0], srvT, name, "SConf")
			} else if name == "Timeout" {
				v = m.inner(x, st, o.vals[0], srvT, name, "SimplePoint")
			} else {
				v = m.inner(x, st, o.vals[0], srvT, name, "CConf")
			}
			if g == nil || v == nil {
				m.bad(o.pos, "undecided", fr, st, "%s was not found", name)
				continue
			}
			e := empty(g)
			if name == "Connections" {
				if st.eval(ge0(scale(g, -1))) == 1 {
					check(name, st.eval(eqTerm(v, num(1))) == 1, v, "the default")
					continue
				}
				if st.eval(ge0(sub(g, num(1)))) == 1 {
					e = 0
				}
			}
			switch {
			case same(v, g) && (name == "ReadTimeout" || name == "WriteTimeout" || name == "RetCodeType" || name == "Timeout" || name == "Address"):
				check(name, true, v, "as given")
			case e == 0:
				check(name, same(v, g), v, "what was given")
			case e == 1:
				switch name {
				case "PingInterval":
					check(name, isGlobalVal(v, "DefaultPingInterval"), v, "the default")
				case "DialTimeout":
					n, ok := v.isInt()
					check(name, ok && n == 5e9, v, "five seconds")
				case "ReadTimeout", "WriteTimeout":
					check(name, isGlobalVal(v, "Default"+name), v, "the default, or none")
				case "Network":
					want := ""
					switch st.g("colon", nil) {
					case "1":
						want = "tcp"
					case "0":
						want = "unix"
					}
					check(name, want != "" && st.eval(eqTerm(v, strTerm(want))) == 1, v, "tcp for an address with a port, else unix")
				case "Name":
					check(name, v.Op != TConst && v != g, v, "made of network and address")
				default:
					check(name, false, v, "as given")
				}
			default:
				m.bad(o.pos, "value lost", fr, st, "%s of the new pool is %s without regard to whether it was given", name, v)
			}
		}
		// reports of its connections reach the pool
		rep := P.Type("net/client/connection", "Error")
		ss := under(srvT).(*types.Struct)
		ch := m.inner(x, st, o.vals[0], srvT, "ConnErr", "CConf")
		ok := false
		for i := 0; i < ss.NumFields(); i++ {
			if c, isC := ss.Field(i).Type().Underlying().(*types.Chan); isC && rep != nil && types.Identical(c.Elem(), rep) && ch != nil {
				v := x.loadLeaf(st, fieldAddr(o.vals[0], srvT, i), ss.Field(i).Type())
				ok = ok || v == ch && st.isNilFact(v) != 1
			}
		}
		check("ConnErr", ok, ch, "the channel the pool listens to")
	}
	newExec(P, r, mon).RunRoot(fn, nil)
}

// inner: a field of the struct of the given type name that is embedded.
func (m *configM) inner(x *Exec, st *State, p *Term, t types.Type, name, owner string) *Term {
	s := under(t).(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		if _, ok := ft.Underlying().(*types.Struct); !ok {
			continue
		}
		a := fieldAddr(p, t, i)
		if n := namedOf(ft); n != nil && n.Obj().Name() == owner {
			if j := structField(ft, name); j >= 0 {
				return x.loadLeaf(st, fieldAddr(a, ft, j), under(ft).(*types.Struct).Field(j).Type())
			}
		}
		if v := m.inner(x, st, a, ft, name, owner); v != nil && s.Field(i).Embedded() {
			return v
		}
	}
	return nil
}

func isStringT(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isGlobalVal(v *Term, name string) bool {
	o := stripConv(v).Org
	return o != nil && o.Op == TGlobal && hasSuffixName(o.Aux, name)
}

// auto: pools that are made for addresses.
func (m *configM) auto(fn, newServer *ssa.Function, cfgT types.Type) {
	P, r := m.P, m.r
	mon := &Monitor{Name: "auto config", Unroll: -1, NoLockCk: true, JoinAt: 300, JoinBlk: 300}
	mon.Relevant = func(f *ssa.Function) bool { return P.relPkg(f) == "net/client" && f != newServer }
	mon.NoInline = func(f *ssa.Function) bool { return f == newServer }
	mon.Keep = func(x *Exec, st *State, addr *Term, ci *CallInfo) bool { return addrRoot(addr).Op == TAlloc }
	mon.Call = func(x *Exec, st *State, fr *Frame, ci *CallInfo) ([]Outcome, bool) {
		if ci.Fn != newServer || ci.Go {
			return nil, false
		}
		m.sites["pools made for addresses"]++
		pos := ci.Instr.Pos()
		cs := under(cfgT).(*types.Struct)
		for i, v := range x.fieldsOf(ci.Args[0], cfgT) {
			name := cs.Field(i).Name()
			if name == "Address" {
				if v != x.args[1] {
					m.bad(pos, "value lost", fr, st, "the pool is made for another address than the one that was asked for")
				} else {
					r.OK(pos, "address")
				}
				continue
			}
			o := v.Org
			if o == nil || o.Op != TField || o.N != i || fieldOwner[o] != types.TypeString(cfgT, nil) {
				m.bad(pos, "value lost", fr, st, "%s of a pool is %s instead of what is configured", name, v)
			} else {
				r.OK(pos, name+" as configured")
			}
		}
		return nil, false
	}
	newExec(P, r, mon).RunRoot(fn, nil)
}

// start: what a pool makes of its configuration.
func (m *configM) start(loop, newConn *ssa.Function, srvT types.Type) {
	P, r := m.P, m.r
	mon := &Monitor{Name: "pool start", Unroll: -1, NoLockCk: true, JoinAt: 300, JoinBlk: 300}
	mon.Relevant = func(f *ssa.Function) bool { return P.relPkg(f) == "net/client" }
	ss := under(srvT).(*types.Struct)
	// some number of the pool itself becomes the configured one
	mon.Store = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, addr, old, val *Term) {
		if in == nil || addr.Op != TField || addr.Args[0] != x.self || st.g("started", nil) != "" {
			return
		}
		if b, isB := ss.Field(addr.N).Type().(*types.Basic); isB && b.Kind() == types.Int {
			if o := stripConv(val).Org; o != nil && o.Op == TField && o.Aux == "Connections" && addrRoot(o) == x.self {
				st.setG("configured", nil, "1")
			}
		}
	}
	first := func(x *Exec, st *State, fr *Frame, pos token.Pos) {
		if st.g("started", nil) != "" {
			return
		}
		st.setG("started", nil, "1")
		m.sites["numbers of connections"]++
		if st.g("configured", nil) == "" {
			m.bad(pos, "value lost", fr, st, "the pool starts without regard to the configured number of connections")
		} else {
			r.OK(pos, "starts with the configured number of connections")
		}
	}
	mon.Call = func(x *Exec, st *State, fr *Frame, ci *CallInfo) ([]Outcome, bool) {
		if ci.Fn != newConn {
			return nil, false
		}
		first(x, st, fr, ci.Instr.Pos())
		m.sites["configurations passed to connections"]++
		a := ci.Args[0]
		ok := false
		if x.self != nil && a != nil && a.Op == TField && addrRoot(a) == x.self {
			t := a.Typ
			if p, isP := t.(*types.Pointer); isP {
				t = p.Elem()
			}
			ok = types.Identical(t, m.cconf) || fieldType(a) != nil && types.Identical(fieldType(a), m.cconf)
		}
		if !ok {
			m.bad(ci.Instr.Pos(), "value lost", fr, st, "a connection is made with %s instead of the pool's configuration", a)
		} else {
			r.OK(ci.Instr.Pos(), "the pool's configuration")
		}
		return nil, false
	}
	mon.Chan = func(x *Exec, st *State, fr *Frame, ev *ChanEv) {
		if ev.Instr != nil {
			first(x, st, fr, ev.Instr.Pos())
		}
	}
	mon.Keep = func(x *Exec, st *State, addr *Term, ci *CallInfo) bool {
		return x.self != nil && addrRoot(addr) == x.self
	}
	newExec(P, r, mon).RunRoot(loop, nil)
}

func fieldType(a *Term) types.Type {
	if a == nil || a.Op != TField {
		return nil
	}
	return cellType(a)
}

// connection: what a connection makes of its configuration.
func (m *configM) connection(newConn *ssa.Function, connT types.Type) {
	P, r := m.P, m.r
	const pk = "net/client/connection"
	cs := under(connT).(*types.Struct)
	iC := -1
	for i := 0; i < cs.NumFields(); i++ {
		if p, ok := cs.Field(i).Type().(*types.Pointer); ok && types.Identical(p.Elem(), m.cconf) {
			iC = i
		}
	}
	if iC < 0 {
		r.Add(0, "undecided", "", nil, "the configuration of a connection was not found")
		return
	}
	hr, hw := P.Type("net", "HeaderReader"), P.Type("net", "HeaderWriter")
	rct := P.Type("net", "RCType")
	ping := P.Method("net", "HeaderWriter", "Ping")
	if hr == nil || hw == nil || rct == nil || ping == nil {
		r.Add(0, "undecided", "", nil, "the frame readers and writers were not found")
		return
	}
	mon := &Monitor{Name: "connection config", Unroll: -1, NoLockCk: true, JoinAt: 300, JoinBlk: 300, FlagSplit: true}
	mon.Relevant = func(f *ssa.Function) bool { return P.relPkg(f) == pk }
	mon.Keep = func(x *Exec, st *State, addr *Term, ci *CallInfo) bool { return addrRoot(addr).Op == TAlloc }
	mine := func(x *Exec, v *Term, name string) bool { // a value of this connection's configuration
		if m.of(v) != name {
			return false
		}
		p := stripConv(v).Org.Args[0]
		return p.Org != nil && p.Org.Op == TField && p.Org.N == iC && p.Org.Args[0] == x.self
	}
	expect := func(x *Exec, st *State, fr *Frame, pos token.Pos, v *Term, name, what string) {
		if !mine(x, v, name) {
			m.bad(pos, "value lost", fr, st, "%s is %s instead of the configured %s", what, v, name)
		} else {
			r.OK(pos, what)
		}
	}
	// how a dial timeout that is not configured is known
	known := func(x *Exec, st *State, sign int64) bool {
		ok := false
		st.symsOf(func(o *Term) bool {
			return o.Op == TField && fieldOwner[o] == types.TypeString(m.cconf, nil)
		}, func(v *Term) {
			if mine(x, v, "DialTimeout") {
				ok = ok || st.eval(ge0(scale(v, -1))) == 1
			}
		})
		return ok
	}
	dialTimeout := func(x *Exec, st *State, fr *Frame, pos token.Pos, v *Term) {
		if n, ok := v.isInt(); ok && n > 0 && (known(x, st, 0) || st.g("unset", nil) != "") {
			r.OK(pos, "default dial timeout")
			return
		}
		expect(x, st, fr, pos, v, "DialTimeout", "the dial timeout")
	}
	mon.Branch = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, cond *Term, taken bool) {
		if known(x, st, 0) {
			st.setG("unset", nil, "1")
		}
		if st.g("interval", nil) == "" || st.g("interval", nil) == "?" {
			st.symsOf(func(o *Term) bool {
				return o.Op == TField && fieldOwner[o] == types.TypeString(m.cconf, nil)
			}, func(v *Term) {
				if mine(x, v, "PingInterval") {
					switch {
					case st.eval(ge0(sub(v, num(1)))) == 1:
						st.setG("interval", nil, "1")
					case st.eval(ge0(scale(v, -1))) == 1:
						st.setG("interval", nil, "0")
					}
				}
			})
		}
	}
	timeT := func(t types.Type) bool {
		n := namedOf(t)
		return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Time"
	}
	mon.Call = func(x *Exec, st *State, fr *Frame, ci *CallInfo) ([]Outcome, bool) {
		f := ci.Fn
		if f == nil || ci.Go || f.Pkg == nil {
			return nil, false
		}
		pos := token.NoPos
		if ci.Instr != nil {
			pos = ci.Instr.Pos()
		}
		path := f.Pkg.Pkg.Path()
		sig := f.Signature
		switch {
		case path == "net" && len(f.Name()) >= 4 && f.Name()[:4] == "Dial" && sig.Results().Len() == 2:
			m.sites["connections dialed"]++
			var ss, ds []*Term
			for i, a := range ci.Args {
				t := argType(sig, i)
				switch {
				case isStringT(t):
					ss = append(ss, a)
				case isDurationT(t):
					ds = append(ds, a)
				}
			}
			if len(ss) != 2 {
				m.bad(pos, "undecided", fr, st, "a connection is dialed in an unknown way")
				break
			}
			expect(x, st, fr, pos, ss[0], "Network", "the network")
			expect(x, st, fr, pos, ss[1], "Address", "the address")
			switch {
			case len(ds) == 1:
				dialTimeout(x, st, fr, pos, ds[0])
			case sig.Recv() != nil:
				dt := sig.Recv().Type().(*types.Pointer).Elem()
				if i := structField(dt, "Timeout"); i >= 0 {
					v := x.loadLeaf(st, fieldAddr(ci.Args[0], dt, i), under(dt).(*types.Struct).Field(i).Type())
					dialTimeout(x, st, fr, pos, v)
					break
				}
				fallthrough
			default:
				m.bad(pos, "value lost", fr, st, "a connection is dialed without timeout")
			}
			s2 := st.clone()
			s2.note(pos, "cannot be dialed")
			nc := fresh("netconn", sig.Results().At(0).Type())
			st.assume(not(mkEq(nc, nilTerm)))
			st.vals["netconn"] = nc
			return []Outcome{{st: st, vals: []*Term{nc, nilTerm}}, {st: s2, vals: []*Term{nilTerm, freshErr("dial")}}}, true
		case f.Name() == "Init" && (isMethodOf(f, hr) || isMethodOf(f, hw)):
			m.sites["readers and writers initialised"]++
			name := "ReadTimeout"
			if isMethodOf(f, hw) {
				name = "WriteTimeout"
			}
			for i, a := range ci.Args {
				switch t := argType(sig, i); {
				case isDurationT(t):
					expect(x, st, fr, pos, a, name, map[string]string{"ReadTimeout": "the timeout of the reader", "WriteTimeout": "the timeout of the writer"}[name])
				case types.Identical(t, rct):
					expect(x, st, fr, pos, a, "RetCodeType", "the width of return codes")
				case i > 0:
					if nc := st.vals["netconn"]; nc != nil && baseVal(a) != nc {
						m.bad(pos, "value lost", fr, st, "a reader or writer works on something else than the connection that was dialed")
					}
				}
			}
			k := "init " + name
			if st.g(k, nil) != "" {
				m.bad(pos, "value lost", fr, st, "a reader or writer is initialised twice")
			}
			st.setG(k, nil, "1")
		case path == "time" && (f.Name() == "NewTicker" || f.Name() == "Tick"):
			m.sites["tickers"]++
			a := ci.Args[0]
			if mine(x, a, "PingInterval") {
				r.OK(pos, "pings at the configured interval")
				if st.g("interval", nil) != "1" {
					m.bad(pos, "wrong interval", fr, st, "a ticker is made with an interval that may not be positive")
				}
				st.setG("ticker", nil, "set")
			} else if st.g("interval", nil) != "0" {
				m.bad(pos, "value lost", fr, st, "the interval of pings is %s instead of the configured one", a)
			} else {
				st.setG("ticker", nil, "idle")
			}
		case path == "time" && f.Name() == "Stop" && sig.Recv() != nil && st.g("ticker", nil) == "idle":
			st.setG("ticker", nil, "stopped")
		case path == "time" && f.Name() == "Stop" && sig.Recv() != nil && st.g("ticker", nil) == "set":
			st.setG("ticker", nil, "off")
		case f == ping:
			st.setG("tick", nil, "")
		}
		return nil, false
	}
	mon.Chan = func(x *Exec, st *State, fr *Frame, ev *ChanEv) {
		if ev.Kind != "recv" || ev.Elem == nil {
			return
		}
		if timeT(ev.Elem) {
			m.sites["ticks"]++
			if g := st.g("ticker", nil); g != "set" && g != "stopped" {
				m.bad(ev.Instr.Pos(), "wrong interval", fr, st, "pings are sent although no interval is configured")
			}
			st.setG("tick", nil, "1")
		}
		if st.g("ticker", nil) == "off" && ev.Block {
			m.bad(ev.Instr.Pos(), "value lost", fr, st, "the writer goes on after pings were stopped")
		}
	}
	mon.BackEdge = func(x *Exec, st *State, fr *Frame, h *ssa.BasicBlock) {
		if st.g("tick", nil) != "" {
			m.bad(h.Instrs[0].Pos(), "value lost", fr, st, "no ping is written when the interval has passed")
			st.setG("tick", nil, "")
		}
	}
	mon.End = func(x *Exec, o *Outcome) {
		if o.kind != OutReturn {
			return
		}
		if x.root == newConn {
			m.sites["connections configured"]++
			v := x.loadLeaf(o.st, fieldAddr(o.vals[0], connT, iC), cs.Field(iC).Type())
			if v != x.args[0] {
				m.bad(o.pos, "value lost", &Frame{fn: newConn}, o.st, "the connection's configuration is %s instead of what it was made with", v)
			} else {
				r.OK(o.pos, "configuration of a connection")
			}
		}
	}
	mon.Store = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, addr, old, val *Term) {
		if in == nil || addr.Op != TField || st.private(addr.Args[0]) {
			return
		}
		if fieldOwner[addr] == types.TypeString(m.cconf, nil) {
			m.bad(in.Pos(), "value lost", fr, st, "%s of the configuration of connections is changed", under(m.cconf).(*types.Struct).Field(addr.N).Name())
		} else if fieldOwner[addr] == types.TypeString(connT, nil) && addr.N == iC {
			m.bad(in.Pos(), "value lost", fr, st, "a connection gets another configuration")
		}
	}
	roots := []*ssa.Function{newConn}
	for _, f := range P.Roots(pk) {
		if f != newConn && isMethodOf(f, connT) {
			roots = append(roots, f)
		}
	}
	runRoots(P, r, mon, roots)
}

// baseVal: a value without the interfaces it was put into.
func baseVal(v *Term) *Term {
	for v != nil {
		w := stripIface(v)
		if w == v && v.Org != nil && false {
			break
		}
		if w == v {
			return v
		}
		v = w
	}
	return v
}

func isColon(b *Term) bool { s, ok := b.isStr(); return ok && s == ":" }

// argType: the type of an argument, the receiver being the first.
func argType(sig *types.Signature, i int) types.Type {
	if sig.Recv() != nil {
		if i == 0 {
			return sig.Recv().Type()
		}
		i--
	}
	if i >= sig.Params().Len() {
		return types.Typ[types.Invalid]
	}
	return sig.Params().At(i).Type()
}
