package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// S01, S02 and S04: what a server connection puts into its output.

func init() {
	register(&checkDef{id: "S01", run: func(P *Program, r *Report) { checkServer(P, r, "S01") },
		rule:  "value provenance over the bits of return codes, path by path: every response that enters the output queue of a server connection comes from there, or carries a constant code that is not internal, or the code it was answered with on a path where that was found not to be internal, or the value configured for that code, or that code with nothing but its kind replaced by the fatal kind on a path where it was found internal and the configured mapping was asked in vain or is nil; only responses taken from the output queue are written; the constructor of a server goes on past an entry of the mapping only if the entry maps an internal to a non-internal code",
		assum: []string{"the mapping of a running server is not changed", "a response is not changed by others while it is being delivered"}})
	register(&checkDef{id: "S02", run: func(P *Program, r *Report) { checkServer(P, r, "S02") },
		rule:  "typestate of requests and answers of a server connection, path by path: a frame that was read is handed to the service exactly once unless it is a ping, as a request with its id, type and body, answered through the connection, after it was recorded under its id with the lock held; an answer is queued exactly once in every critical section that takes its id out of the record and in no other, with the id, type and body it was given; it goes straight to the output only if the overflow queue is known to be empty, without blocking, and otherwise to the end of the overflow queue, in the same critical section; the overflow queue is sent front to back and loses exactly the answers that were sent; every answer received from the output is written exactly once, and nothing else is",
		assum: []string{"a response and a request are not changed by others while they are being delivered"}})
	register(&checkDef{id: "S04", run: func(P *Program, r *Report) { checkServer(P, r, "S04") },
		rule:  "path conditions on the frames a server connection reads: on every path on which a frame may be a ping it is neither recorded nor handed to the service, and an empty ping response without code and with the id of the frame is queued exactly once; only pings are answered by the connection itself",
		assum: []string{"the fields of a frame are not changed while it is being processed"}})
}

type srvM struct {
	P                                         *Program
	conn, srv, cfg, resp, frame               types.Type
	ireq, iresp                               types.Type
	ck, sk, cfgk                              string
	out, buf, fly, notify, state, nc, mu, id  int
	rId, rMsg, rBody, rCode                   int
	fId, fMsg, fBody                          int
	qId, qMsg, qBody, qResp                   int
	closing, stop, running, gone, conns, lsnr int
	smu                                       int
	mask, internal, fatal, ping               int64
	csR, csW                                  int64
}

func newSrvM(P *Program, r *Report) *srvM {
	m := &srvM{P: P, out: -1, buf: -1, fly: -1, notify: -1, state: -1, nc: -1, closing: -1, stop: -1, running: -1, gone: -1, conns: -1, lsnr: -1}
	m.conn, m.srv, m.cfg = P.Type("net/server", "Connection"), P.Type("net/server", "Server"), P.Type("net/server", "Config")
	m.resp, m.frame = P.Type("net", "Response"), P.Type("net", "Request")
	m.ireq, m.iresp = P.Type("", "Request"), P.Type("", "Response")
	cs := P.Type("net/server", "ConnState")
	if m.conn == nil || m.srv == nil || m.cfg == nil || m.resp == nil || m.frame == nil || m.ireq == nil || m.iresp == nil || cs == nil {
		r.Add(0, "undecided", "", nil, "the types of the server were not found")
		return nil
	}
	m.ck, m.sk, m.cfgk = types.TypeString(m.conn, nil), types.TypeString(m.srv, nil), types.TypeString(m.cfg, nil)
	s := under(m.conn).(*types.Struct)
	m.mu = mutexField(s)
	for i := 0; i < s.NumFields(); i++ {
		t := s.Field(i).Type()
		switch u := t.Underlying().(type) {
		case *types.Chan:
			if types.Identical(u.Elem(), m.resp) {
				m.out = i
			} else if b, ok := under(u.Elem()).(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				m.notify = i
			}
		case *types.Slice:
			if types.Identical(u.Elem(), m.resp) {
				m.buf = i
			}
		case *types.Map:
			if p, ok := u.Elem().(*types.Pointer); ok && types.Identical(p.Elem(), m.ireq) {
				m.fly = i
			}
		case *types.Interface:
			if n := namedOf(t); n != nil && n.Obj().Name() == "NetConn" {
				m.nc = i
			}
		}
		if types.Identical(t, cs) {
			m.state = i
		}
	}
	m.id = structField(m.conn, "Id")
	ss := under(m.srv).(*types.Struct)
	m.smu = mutexField(ss)
	for i := 0; i < ss.NumFields(); i++ {
		f := ss.Field(i)
		switch u := f.Type().Underlying().(type) {
		case *types.Basic:
			if u.Kind() == types.Bool {
				m.closing = i
			}
		case *types.Chan:
			switch b, _ := under(u.Elem()).(*types.Basic); {
			case f.Name() == "Running":
				m.running = i
			case b != nil && b.Kind() == types.Uint64:
				m.gone = i
			default:
				m.stop = i
			}
		case *types.Map:
			if p, ok := u.Elem().(*types.Pointer); ok && types.Identical(p.Elem(), m.conn) {
				m.conns = i
			}
		case *types.Interface:
			if n := namedOf(f.Type()); n != nil && n.Obj().Name() == "Listener" {
				m.lsnr = i
			}
		}
	}
	m.rId, m.rMsg, m.rBody, m.rCode = structField(m.resp, "Id"), structField(m.resp, "Msg"), structField(m.resp, "Body"), structField(m.resp, "Code")
	m.fId, m.fMsg, m.fBody = structField(m.frame, "Id"), structField(m.frame, "Msg"), structField(m.frame, "Body")
	m.qId, m.qMsg, m.qBody, m.qResp = structField(m.ireq, "Id"), structField(m.ireq, "Msg"), structField(m.ireq, "Body"), structField(m.ireq, "Responder")
	ok := true
	for _, i := range []int{m.out, m.buf, m.fly, m.notify, m.state, m.nc, m.mu, m.id, m.rId, m.rMsg, m.rBody, m.rCode, m.fId, m.fMsg, m.fBody, m.qId, m.qMsg, m.qBody, m.qResp, m.closing, m.stop, m.running, m.gone, m.conns, m.lsnr, m.smu} {
		ok = ok && i >= 0
	}
	for _, c := range []struct {
		pkg, n string
		p      *int64
	}{{"", "RcKindMask", &m.mask}, {"", "RcInternal", &m.internal}, {"", "RcFatal", &m.fatal}, {"", "Ping", &m.ping}, {"net/server", "CsReadClosed", &m.csR}, {"net/server", "CsWriteClosed", &m.csW}} {
		v, found := P.Const(c.pkg, c.n)
		*c.p = v
		ok = ok && found
	}
	if !ok {
		r.Add(0, "undecided", "", nil, "the fields of the server's types, or constants, were not recognised")
		return nil
	}
	return m
}

func (m *srvM) cfld(addr *Term, i int) *Term {
	if addr != nil && addr.Op == TField && addr.N == i && fieldOwner[addr] == m.ck {
		return addr.Args[0]
	}
	return nil
}

func (m *srvM) sfld(addr *Term, i int) *Term {
	if addr != nil && addr.Op == TField && addr.N == i && fieldOwner[addr] == m.sk {
		return addr.Args[0]
	}
	return nil
}

// flyOf: the connection whose record of requests in work the map is.
func (m *srvM) flyOf(mp *Term) *Term {
	if mp != nil && mp.Org != nil {
		return m.cfld(mp.Org, m.fly)
	}
	return nil
}

// outOf: the connection whose output the channel is.
func (m *srvM) outOf(ch *Term) *Term {
	if ch != nil && ch.Org != nil {
		return m.cfld(ch.Org, m.out)
	}
	return nil
}

// finished: both directions of the connection are known to be done with.
func (m *srvM) finished(st *State, c *Term) bool {
	v := st.mem[fieldAddr(c, m.conn, m.state)]
	return v != nil && st.masked(v, m.csR|m.csW, m.csR|m.csW) == 1
}

func (m *srvM) isRCMap(mp *Term) bool {
	return mp != nil && mp.Org != nil && mp.Org.Op == TField && mp.Org.Aux == "RCMap" && fieldOwner[mp.Org] == m.cfgk
}

// fromBuf: a field of an answer that was loaded from the overflow queue;
// returns the address of the answer.
func (m *srvM) fromBuf(c *Term) *Term {
	if o := c.Org; o != nil && o.Op == TField && o.Args[0].Op == TIndex && types.Identical(cellType(o.Args[0]), m.resp) {
		return o.Args[0]
	}
	return nil
}

func (m *srvM) locked(st *State, c *Term) bool { return st.holds(fieldAddr(c, m.conn, m.mu)) }

func isReadFrame(fn *ssa.Function, frame types.Type) bool {
	return fn != nil && fn.Signature.Recv() != nil && fn.Signature.Results().Len() == 2 && types.Identical(fn.Signature.Results().At(0).Type(), frame) && fnPkgPath(fn) == pkgOf(frame)
}

func isWriteFrame(fn *ssa.Function, frame types.Type) bool {
	return fn != nil && fn.Signature.Recv() != nil && fn.Signature.Params().Len() == 1 && fn.Signature.Results().Len() == 1 && types.Identical(fn.Signature.Params().At(0).Type(), frame) && fnPkgPath(fn) == pkgOf(frame)
}

func pkgOf(t types.Type) string {
	if n := namedOf(t); n != nil && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path()
	}
	return ""
}

func isService(ci *CallInfo, req types.Type) *Term {
	name := ""
	var q *Term
	if ci.Method != nil {
		name = ci.Method.Name()
		if len(ci.Args) > 0 {
			q = ci.Args[len(ci.Args)-1]
		}
	} else if ci.Fn != nil && ci.Fn.Signature.Recv() != nil && len(ci.Args) == 2 {
		name, q = ci.Fn.Name(), ci.Args[1]
	}
	if name == "Send" && q != nil && q.Typ != nil {
		if p, ok := under(q.Typ).(*types.Pointer); ok && types.Identical(p.Elem(), req) {
			return q
		}
	}
	if name == "Send" && q != nil && (q.Op == TIndex || q.Op == TAlloc || q.Op == TField) {
		return q
	}
	return nil
}

var srvRule = map[string]string{
	"internal code sent": "S01", "code changed": "S01", "mapping ignored": "S01", "mapping not checked": "S01", "not from the queue": "S01",
	"not recorded": "S02", "wrong request": "S02", "request not handed on": "S02", "handed on twice": "S02", "not outstanding": "S02", "answered twice": "S02", "answer dropped": "S02", "wrong answer": "S02", "answer overtakes": "S02", "blocks": "S02", "queue damaged": "S02", "written twice": "S02", "unlocked": "S02",
	"ping handed on": "S04", "ping recorded": "S04", "ping unanswered": "S04", "ping answered wrongly": "S04", "answered by itself": "S04",
}

func checkServer(P *Program, r *Report, prop string) {
	m := newSrvM(P, r)
	if m == nil {
		return
	}
	add1 := func(pos token.Pos, rule string, fr *Frame, st *State, f string, args ...interface{}) {
		if srvRule[rule] != prop {
			return
		}
		fn := ""
		if fr != nil {
			fn = fnName(fr.fn)
		}
		r.Add(pos, rule, fn, st, f, args...)
	}
	ok := func(p string, pos token.Pos, what string) {
		if p == prop {
			r.OK(pos, what)
		}
	}
	sites := map[string]int{}
	reader := func(fn *ssa.Function) bool {
		return P.CG().Reaches("readframe", fn, func(in ssa.Instruction) bool {
			c, ok := in.(ssa.CallInstruction)
			return ok && isReadFrame(c.Common().StaticCallee(), m.frame)
		})
	}
	mon := &Monitor{Name: "server", Unroll: -1, NoLockCk: true, JoinAt: 200, JoinBlk: 200, Shadow: []string{"sent"}}
	mon.Relevant = func(fn *ssa.Function) bool { return P.relPkg(fn) == "net/server" }
	mon.Keep = func(x *Exec, st *State, addr *Term, ci *CallInfo) bool {
		for a := addr; a.Op == TField; a = a.Args[0] {
			if o := fieldOwner[a]; o == types.TypeString(m.iresp, nil) || o == types.TypeString(m.resp, nil) {
				return true
			} else if o == types.TypeString(m.ireq, nil) && (a.N == m.qId || a.N == m.qMsg || a.N == m.qBody || a.N == m.qResp) {
				return true
			} else if o == m.cfgk {
				return true
			}
		}
		return false
	}
	// classify a frame: 1 ping, 0 not
	isPing := func(st *State, msg *Term) int { return st.eval(eqTerm(msg, num(m.ping))) }
	// frame by id
	frameOf := func(st *State, id *Term) (fr *Term, mark string) {
		st.eachG("frame", func(t *Term, v string) {
			if t == id {
				fr, mark = t, v
			}
		})
		return
	}
	checkCode := func(x *Exec, st *State, fr *Frame, in ssa.Instruction, c *Term) {
		pos := in.Pos()
		sites["codes queued"]++
		if m.fromBuf(c) != nil {
			ok("S01", pos, "moved from the overflow queue")
			return
		}
		var orig, repl *Term
		c.walk(func(y *Term) bool {
			if y.Op == TSym && y.Org != nil {
				if y.Org.Op == TField && y.Org.Aux == "Code" {
					orig = y
				}
				if y.Org.Op == TMapEl && m.isRCMap(y.Org.Args[0]) {
					repl = y
				}
			}
			return true
		})
		if n, isC := c.isInt(); isC {
			hasResp := false
			for _, p := range x.root.Params {
				if pt, ok := p.Type().(*types.Pointer); ok && types.Identical(pt.Elem(), m.iresp) {
					hasResp = true
				}
			}
			switch {
			case n&m.mask == m.internal:
				add1(pos, "internal code sent", fr, st, "a response with the internal code %d is queued", n)
			case hasResp && isMethodOf(x.root, m.conn):
				add1(pos, "code changed", fr, st, "a response is queued with the code %d instead of its own", n)
			default:
				ok("S01", pos, "constant code")
			}
			return
		}
		asked := func(o *Term) bool {
			if st.g("asked", o) != "" {
				return true
			}
			nilMap := false
			st.symsOf(func(a *Term) bool { return a.Op == TField && a.Aux == "RCMap" && fieldOwner[a] == m.cfgk }, func(v *Term) {
				nilMap = nilMap || st.isNilFact(v) == 1
			})
			return nilMap
		}
		switch {
		case repl != nil && c == repl:
			if k := repl.Org.Args[1]; k.Org == nil || k.Org.Op != TField || k.Org.Aux != "Code" {
				add1(pos, "code changed", fr, st, "the code is replaced by what is configured for another one")
			} else {
				ok("S01", pos, "configured code")
			}
		case orig == nil:
			add1(pos, "code changed", fr, st, "a response is queued with the code %s", c)
		case c == orig:
			if st.masked(orig, m.mask, m.internal) != 0 {
				add1(pos, "internal code sent", fr, st, "a response is queued although its code may be internal")
			} else {
				ok("S01", pos, "code found not to be internal")
			}
		default:
			bs, mb, fb := st.bitsOf(c, orig), constBits(m.mask), constBits(m.fatal)
			kind, class := true, true
			for i := range bs {
				if mb[i] == '1' {
					kind = kind && bs[i] == fb[i]
				} else {
					class = class && bs[i] == 'o'
				}
			}
			switch {
			case !kind:
				add1(pos, "internal code sent", fr, st, "a response is queued with the code %s, whose kind may be internal", c)
			case !class:
				add1(pos, "code changed", fr, st, "an internal code is replaced by one of another class: %s", c)
			case st.masked(orig, m.mask, m.internal) != 1:
				add1(pos, "code changed", fr, st, "the kind of a code is replaced although it is not known to be internal")
			case !asked(orig):
				add1(pos, "mapping ignored", fr, st, "an internal code is replaced without asking the configured mapping")
			default:
				ok("S01", pos, "internal code made fatal")
			}
		}
	}
	// an answer enters the queue of connection c
	enq := func(x *Exec, st *State, fr *Frame, in ssa.Instruction, c *Term, f []*Term) {
		pos := in.Pos()
		checkCode(x, st, fr, in, f[m.rCode])
		id := f[m.rId]
		if m.fromBuf(id) != nil {
			return
		}
		if !m.locked(st, c) {
			add1(pos, "unlocked", fr, st, "an answer is queued without holding the lock of the connection")
			return
		}
		sites["answers queued"]++
		if fid, mark := frameOf(st, id); fid != nil {
			msg := st.vals[gk("msg", fid)]
			if msg == nil || isPing(st, msg) != 1 {
				add1(pos, "answered by itself", fr, st, "a request that may not be a ping is answered by the connection itself")
				return
			}
			body := f[m.rBody]
			switch {
			case mark != "":
				add1(pos, "ping answered wrongly", fr, st, "a ping is answered twice, or also handed on")
			case st.eval(eqTerm(f[m.rMsg], num(m.ping))) != 1:
				add1(pos, "ping answered wrongly", fr, st, "the answer to a ping has type %s", f[m.rMsg])
			case !body.isNil() && st.eval(eqTerm(lenOf(body, types.NewSlice(types.Typ[types.Uint8])), num(0))) != 1:
				add1(pos, "ping answered wrongly", fr, st, "the answer to a ping has a body")
			case st.eval(eqTerm(f[m.rCode], num(0))) != 1:
				add1(pos, "ping answered wrongly", fr, st, "the answer to a ping has a code")
			default:
				ok("S04", pos, "ping answered")
			}
			st.setG("frame", fid, mark+"p")
			return
		}
		pend := false
		st.eachG("frame", func(t *Term, v string) { pend = pend || v == "" })
		if pend {
			add1(pos, "ping answered wrongly", fr, st, "an answer with the id %s is queued while a frame with another id is processed", id)
			return
		}
		// the answer that was given
		o := id.Org
		if o == nil || o.Op != TField || fieldOwner[o] != types.TypeString(m.iresp, nil) || o.Aux != "Id" {
			add1(pos, "wrong answer", fr, st, "an answer is queued under the id %s", id)
			return
		}
		for _, w := range []struct {
			i int
			n string
		}{{m.rMsg, "Msg"}, {m.rBody, "Body"}} {
			if b := f[w.i].Org; b == nil || b.Op != TField || b.Aux != w.n || b.Args[0] != o.Args[0] {
				add1(pos, "wrong answer", fr, st, "an answer is queued with the %s %s instead of its own", w.n, f[w.i])
			}
		}
		mp := st.vals[gk("fly", c)]
		known := st.g("del", id) != ""
		if mp != nil {
			if v, h := mapCells(mp, id, types.NewPointer(m.ireq)); st.mem[h] == tTrue || st.mem[v] != nil && st.isNilFact(st.mem[v]) == 0 {
				known = true
			}
		}
		if !known {
			add1(pos, "not outstanding", fr, st, "an answer is queued although its id was not found among the outstanding requests under the same lock")
		} else {
			ok("S02", pos, "answer to an outstanding request")
		}
		st.setG("enq", id, st.g("enq", id)+"+")
	}
	fieldsAt := func(x *Exec, st *State, a *Term) []*Term {
		s := under(m.resp).(*types.Struct)
		var f []*Term
		for i := 0; i < s.NumFields(); i++ {
			f = append(f, x.loadLeaf(st, fieldAddr(a, m.resp, i), s.Field(i).Type()))
		}
		return f
	}
	fieldsOf := func(x *Exec, v *Term) []*Term {
		s := under(m.resp).(*types.Struct)
		var f []*Term
		for i := 0; i < s.NumFields(); i++ {
			f = append(f, x.fieldOf(v, i, s.Field(i).Type(), s.Field(i).Name()))
		}
		return f
	}
	bufOf := func(st *State, c *Term) *Term { return st.mem[fieldAddr(c, m.conn, m.buf)] }
	mon.Lock = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, op string, addr *Term) {
		c := m.cfld(addr, m.mu)
		if c == nil {
			return
		}
		switch op {
		case "locked":
			st.vals["sent"] = num(0)
			for _, k := range []string{"del", "enq"} {
				st.eachG(k, func(t *Term, v string) { st.setG(k, t, "") })
			}
			st.setG("loose", nil, "")
		case "unlock":
			st.eachG("del", func(t *Term, v string) {
				if e := st.g("enq", t); e == "" {
					add1(in.Pos(), "answer dropped", fr, st, "a request is taken out of the record without its answer being queued")
				} else if len(e) > 1 {
					add1(in.Pos(), "answered twice", fr, st, "an answer is queued twice")
				} else {
					ok("S02", in.Pos(), "answer queued once")
				}
			})
			st.eachG("enq", func(t *Term, v string) {
				if st.g("del", t) == "" {
					add1(in.Pos(), "answered twice", fr, st, "an answer is queued but its id stays recorded: it can be answered again")
				}
			})
			if st.g("loose", nil) != "" {
				add1(in.Pos(), "answer dropped", fr, st, "an answer is appended to the overflow queue, but the result is not kept")
			}
			if s := st.vals["sent"]; s == nil || st.eval(eqTerm(s, num(0))) != 1 {
				add1(in.Pos(), "queue damaged", fr, st, "answers that were sent may stay in the overflow queue: they are sent again")
			}
		}
	}
	mon.Map = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, op string, mp, k, v *Term) {
		pos := in.Pos()
		if op == "lookup" && m.isRCMap(mp) {
			st.setG("asked", k, "1")
		}
		if op == "range" && m.isRCMap(mp) || op == "range" && mp.Typ != nil && isCodeMap(mp.Typ, m.rcType()) {
			sites["mapping entries"]++
			st.vals["mapk"] = k
			st.vals["mapv"], _ = mapCells(mp, k, m.rcType())
			st.vals["mapmore"] = v
			st.setG("mapit", nil, "1")
			return
		}
		c := m.flyOf(mp)
		if c == nil {
			return
		}
		switch op {
		case "lookup":
			st.vals[gk("fly", c)] = mp
		case "update":
			sites["requests recorded"]++
			if !m.locked(st, c) {
				add1(pos, "unlocked", fr, st, "a request is recorded without holding the lock of the connection")
			}
			fid, _ := frameOf(st, k)
			if fid == nil {
				add1(pos, "not recorded", fr, st, "a request is recorded under the id %s, which is not that of its frame", k)
				return
			}
			if msg := st.vals[gk("msg", fid)]; msg == nil || isPing(st, msg) != 0 {
				add1(pos, "ping recorded", fr, st, "a frame that may be a ping is recorded as outstanding")
			}
			st.setG("reg", v, "1")
			st.vals[gk("reg", v)] = k
		case "delete":
			sites["requests taken out"]++
			if !m.locked(st, c) {
				add1(pos, "unlocked", fr, st, "a request is taken out of the record without holding the lock of the connection")
			}
			if v, h := mapCells(mp, k, types.NewPointer(m.ireq)); st.mem[h] == tTrue || st.mem[v] != nil && st.isNilFact(st.mem[v]) == 0 {
				st.setG("del", k, "1")
			} else {
				add1(pos, "not outstanding", fr, st, "an id is taken out of the record without having been found there")
			}
		}
	}
	mon.Call = func(x *Exec, st *State, fr *Frame, ci *CallInfo) ([]Outcome, bool) {
		pos := token.NoPos
		if ci.Instr != nil {
			pos = ci.Instr.Pos()
		}
		if isReadFrame(ci.Fn, m.frame) {
			sites["frames read"]++
			s2 := st.clone()
			v := x.freshVal(st, "frame", m.frame)
			st.setG("frame", v.Args[m.fId], "")
			ghost(st).m[gk("frame", v.Args[m.fId])] = ""
			ghost(st).t[gk("frame", v.Args[m.fId])] = v.Args[m.fId]
			st.vals[gk("msg", v.Args[m.fId])] = v.Args[m.fMsg]
			st.vals[gk("body", v.Args[m.fId])] = v.Args[m.fBody]
			e := fresh("err", types.Universe.Lookup("error").Type())
			s2.assume(not(mkEq(e, nilTerm)))
			s2.note(pos, "reading a frame fails")
			st.note(pos, "a frame is read")
			return []Outcome{{st: st, vals: []*Term{v, nilTerm}}, {st: s2, vals: []*Term{zeroVal(m.frame), e}}}, true
		}
		if isWriteFrame(ci.Fn, m.resp) {
			sites["answers written"]++
			f := fieldsOf(x, ci.Args[1])
			switch st.g("rx", f[m.rId]) {
			case "1":
				ok("S02", pos, "queued answer written")
				ok("S01", pos, "only queued answers are written")
			case "":
				add1(pos, "not from the queue", fr, st, "a response is written that was not taken from the output queue")
				add1(pos, "written twice", fr, st, "a response is written that was not taken from the output queue, or was written before")
			}
			st.setG("rx", f[m.rId], "")
			for i := range f {
				if w := st.vals[gk("rxv", f[m.rId])]; w != nil && f[i] != w.Args[i] {
					add1(pos, "wrong answer", fr, st, "an answer is changed between the queue and the connection")
				}
			}
			s2 := st.clone()
			e := fresh("err", types.Universe.Lookup("error").Type())
			s2.assume(not(mkEq(e, nilTerm)))
			return []Outcome{{st: st, vals: []*Term{nilTerm}}, {st: s2, vals: []*Term{e}}}, true
		}
		if q := isService(ci, m.ireq); q != nil && !ci.Go {
			sites["requests handed on"]++
			id := st.mem[fieldAddr(q, m.ireq, m.qId)]
			var fid *Term
			mark := ""
			if id != nil {
				fid, mark = frameOf(st, id)
			}
			if fid == nil {
				add1(pos, "wrong request", fr, st, "a request is handed to the service that does not have the id of the frame that was read")
				return nil, false
			}
			if msg := st.vals[gk("msg", fid)]; msg == nil || isPing(st, msg) != 0 {
				add1(pos, "ping handed on", fr, st, "a frame that may be a ping is handed to the service")
			} else {
				ok("S04", pos, "not a ping")
			}
			if st.g("reg", q) == "" || st.vals[gk("reg", q)] != id {
				add1(pos, "not recorded", fr, st, "a request is handed to the service before it was recorded under its id: its answer is lost")
			} else {
				ok("S02", pos, "recorded before it is handed on")
			}
			if mark != "" {
				add1(pos, "handed on twice", fr, st, "a request is handed to the service although it was handed on or answered before")
			}
			if w := st.mem[fieldAddr(q, m.ireq, m.qMsg)]; w != st.vals[gk("msg", fid)] {
				add1(pos, "wrong request", fr, st, "a request is handed to the service with another type than its frame")
			}
			if w := st.mem[fieldAddr(q, m.ireq, m.qBody)]; w == nil || !sameBytes(st, stripIface(w), st.vals[gk("body", fid)]) {
				add1(pos, "wrong request", fr, st, "a request is handed to the service with another body than its frame")
			}
			if w := st.mem[fieldAddr(q, m.ireq, m.qResp)]; w == nil || x.self == nil || stripIface(w) != x.self {
				add1(pos, "wrong request", fr, st, "a request is handed to the service that is not answered through its connection")
			}
			st.setG("frame", fid, mark+"s")
			return nil, false
		}
		return nil, false
	}
	mon.Chan = func(x *Exec, st *State, fr *Frame, ev *ChanEv) {
		if ev.Kind == "default" || ev.Elem == nil || !types.Identical(ev.Elem, m.resp) {
			return
		}
		pos := ev.Instr.Pos()
		switch ev.Kind {
		case "recv":
			v := ev.Val
			sites["answers received"]++
			st.setG("rx", v.Args[m.rId], "1")
			st.vals[gk("rxv", v.Args[m.rId])] = v
			if ev.OK != nil {
				st.vals[gk("rxok", v.Args[m.rId])] = ev.OK
			}
		case "send":
			c := m.outOf(ev.Ch)
			if c == nil {
				add1(pos, "answer dropped", fr, st, "an answer is sent to a channel that is not the output of a connection")
				return
			}
			f := fieldsOf(x, ev.Val)
			b := bufOf(st, c)
			if ev.Block {
				add1(pos, "blocks", fr, st, "queueing an answer may block the goroutine that answers")
			}
			if at := m.fromBuf(f[m.rId]); at != nil {
				sites["answers moved"]++
				checkCode(x, st, fr, ev.Instr, f[m.rCode])
				for i := range f {
					if m.fromBuf(f[i]) != at {
						add1(pos, "wrong answer", fr, st, "an answer is changed when it leaves the overflow queue")
					}
				}
				sent := st.vals["sent"]
				if b == nil || sent == nil || !m.locked(st, c) {
					add1(pos, "queue damaged", fr, st, "an answer is taken from the overflow queue, but it cannot be seen which one")
					return
				}
				base, off, _, _ := sliceParts(b, b.Typ)
				if at.Args[0] != base || st.eval(eqTerm(at.Args[1], add(off, sent))) != 1 {
					add1(pos, "answer overtakes", fr, st, "an answer other than the first unsent one is taken from the overflow queue")
				} else {
					ok("S02", pos, "first unsent answer")
				}
				st.vals["sent"] = add(sent, num(1))
				return
			}
			if b == nil || st.eval(eqTerm(lenOf(b, b.Typ), num(0))) != 1 || !m.locked(st, c) {
				add1(pos, "answer overtakes", fr, st, "an answer is sent although the overflow queue may hold earlier ones")
			} else {
				ok("S02", pos, "sent with the overflow queue empty")
			}
			enq(x, st, fr, ev.Instr, c, f)
		}
	}
	mon.Append = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, res, dst, src *Term) {
		call, isC := in.(*ssa.Call)
		if !isC {
			return
		}
		sl, isS := under(call.Type()).(*types.Slice)
		if !isS || !types.Identical(sl.Elem(), m.resp) || x.self == nil {
			return
		}
		b := bufOf(st, x.self)
		if b != nil && partOf(st, src, b) {
			// a copy of what is left of the queue
			if lenOf(dst, call.Type()) == num(0) {
				st.vals["copyof"], st.vals["copysrc"] = res, src
			}
			return
		}
		n, isN := lenOf(src, call.Type()).isInt()
		if src.Op != TSlice || !isN || n > 8 {
			add1(in.Pos(), "queue damaged", fr, st, "answers of unknown origin are appended to the overflow queue")
			return
		}
		if dst != b {
			add1(in.Pos(), "queue damaged", fr, st, "an answer is appended to something else than the overflow queue")
		}
		for i := int64(0); i < n; i++ {
			enq(x, st, fr, in, x.self, fieldsAt(x, st, indexAddr(src.Args[0], add(src.Args[1], num(i)), m.resp)))
		}
		st.vals["appended"] = res
		st.setG("loose", nil, "1")
	}
	mon.Copy = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, dst, src, n *Term) {
		if x.self == nil {
			return
		}
		b := bufOf(st, x.self)
		if b == nil || !partOf(st, src, b) {
			return
		}
		if st.eval(eqTerm(lenOf(dst, b.Typ), lenOf(src, b.Typ))) == 1 {
			st.vals["copyof"], st.vals["copysrc"] = dst, src
		}
	}
	mon.Store = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, addr, old, val *Term) {
		if in == nil {
			return
		}
		pos := in.Pos()
		if c := m.cfld(addr, m.buf); c != nil && !st.private(c) {
			sites["queue changes"]++
			b := st.mem[addr]
			if b == nil {
				b = old
			}
			sent := st.vals["sent"]
			if val == st.vals["copyof"] {
				val = st.vals["copysrc"]
			}
			switch {
			case val == st.vals["appended"]:
				st.setG("loose", nil, "")
				ok("S02", pos, "appended answer kept")
			case val.isNil() && m.finished(st, c):
				ok("S02", pos, "queue of a finished connection dropped")
			case b != nil && sent != nil && m.locked(st, c):
				base, off, ln, _ := sliceParts(b, b.Typ)
				b2, o2, l2, _ := sliceParts(val, b.Typ)
				if l2 == num(0) || st.eval(eqTerm(l2, num(0))) == 1 {
					if st.eval(eqTerm(sub(ln, sent), num(0))) != 1 {
						add1(pos, "queue damaged", fr, st, "the overflow queue is emptied although it may hold answers")
					} else {
						ok("S02", pos, "empty queue replaced")
					}
				} else if b2 != base || st.eval(eqTerm(o2, add(off, sent))) != 1 || st.eval(eqTerm(l2, sub(ln, sent))) != 1 {
					add1(pos, "queue damaged", fr, st, "the overflow queue loses other answers than those that were sent")
				} else {
					ok("S02", pos, "sent answers removed from the queue")
				}
				st.vals["sent"] = num(0)
			default:
				add1(pos, "queue damaged", fr, st, "the overflow queue is replaced")
			}
			return
		}
		// cells of the queue itself
		if a := addr; a.Op == TField && a.Args[0].Op == TIndex && types.Identical(cellType(a.Args[0]), m.resp) && x.self != nil {
			b := bufOf(st, x.self)
			if b == nil {
				return
			}
			base, off, _, _ := sliceParts(b, b.Typ)
			if a.Args[0].Args[0] != base {
				return
			}
			sent := st.vals["sent"]
			if sent == nil || st.eval(ge0(sub(sub(add(off, sent), a.Args[0].Args[1]), num(1)))) != 1 {
				add1(pos, "queue damaged", fr, st, "an answer in the overflow queue is overwritten that may not have been sent")
			}
		}
	}
	mapStep := func(x *Exec, st *State, fr *Frame, pos token.Pos, end bool) {
		if st.g("mapit", nil) == "" {
			return
		}
		st.setG("mapit", nil, "")
		k, vc, more := st.vals["mapk"], st.vals["mapv"], st.vals["mapmore"]
		if k == nil || vc == nil || more != nil && st.eval(more) == 0 {
			if end {
				ok("S01", pos, "whole mapping checked")
			}
			return
		}
		v := st.mem[vc]
		if end {
			add1(pos, "mapping not checked", fr, st, "a server is made although not every entry of its mapping was checked")
		} else if st.masked(k, m.mask, m.internal) != 1 {
			add1(pos, "mapping not checked", fr, st, "a mapping is accepted that maps a code that may not be internal")
		} else if v == nil || st.masked(v, m.mask, m.internal) != 0 {
			add1(pos, "mapping not checked", fr, st, "a mapping is accepted that maps to a code that may be internal")
		} else {
			ok("S01", pos, "mapping entry checked")
		}
	}
	finish := func(x *Exec, st *State, fr *Frame, pos token.Pos) {
		st.eachG("frame", func(t *Term, v string) {
			msg := st.vals[gk("msg", t)]
			p := -1
			if msg != nil {
				p = isPing(st, msg)
			}
			if v == "" {
				if p != 0 {
					add1(pos, "ping unanswered", fr, st, "a frame that may be a ping is not answered")
				}
				if p != 1 {
					add1(pos, "request not handed on", fr, st, "a frame that was read is not handed to the service")
				}
			}
			delete(ghost(st).m, gk("frame", t))
			delete(ghost(st).t, gk("frame", t))
		})
		st.eachG("rx", func(t *Term, v string) {
			if o := st.vals[gk("rxok", t)]; o == nil || st.eval(o) != 0 {
				add1(pos, "answer dropped", fr, st, "an answer that was taken from the output queue is not written")
			}
			st.setG("rx", t, "")
		})
		st.eachG("reg", func(t *Term, v string) { st.setG("reg", t, "") })
		st.eachG("asked", func(t *Term, v string) { st.setG("asked", t, "") })
	}
	mon.BackEdge = func(x *Exec, st *State, fr *Frame, h *ssa.BasicBlock) {
		pos := h.Instrs[0].Pos()
		mapStep(x, st, fr, pos, false)
		// only loops that read frames or answers
		for b := range x.loopInfo(fr.fn).body[h] {
			for _, in := range b.Instrs {
				c, isC := in.(ssa.CallInstruction)
				u, isU := in.(*ssa.UnOp)
				if isC && (isReadFrame(c.Common().StaticCallee(), m.frame) || c.Common().StaticCallee() != nil && reader(c.Common().StaticCallee())) {
					finish(x, st, fr, pos)
					return
				}
				if isC && isWriteFrame(c.Common().StaticCallee(), m.resp) || isU && u.Op == token.ARROW {
					finish(x, st, fr, pos)
					return
				}
			}
		}
	}
	mon.End = func(x *Exec, o *Outcome) {
		if o.kind != OutReturn {
			return
		}
		if isMethodOf(x.root, m.cfg) {
			mapStep(x, o.st, &Frame{fn: x.root}, o.pos, true)
		}
		fr := &Frame{fn: x.root}
		finish(x, o.st, fr, o.pos)
	}
	runRoots(P, r, mon, P.Roots("net/server"))
	for k, v := range sites {
		r.Counts["events: "+k] = v
	}
	floors := map[string][]string{
		"S01": {"codes queued", "mapping entries", "answers written"},
		"S02": {"frames read", "requests recorded", "requests handed on", "answers queued", "requests taken out", "answers moved", "answers received", "answers written", "queue changes"},
		"S04": {"frames read", "answers queued", "requests handed on"},
	}
	for _, f := range floors[prop] {
		r.Floor(f, sites[f], 1)
	}
}

func isCodeMap(t types.Type, code types.Type) bool {
	mt, ok := under(t).(*types.Map)
	return ok && types.Identical(mt.Key(), code) && types.Identical(mt.Elem(), code)
}

func (m *srvM) rcType() types.Type {
	return under(m.resp).(*types.Struct).Field(m.rCode).Type()
}

// sameBytes: two slices show the same bytes.
func sameBytes(st *State, a, b *Term) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil || a.Op != TSlice && b.Op != TSlice {
		return false
	}
	t := types.NewSlice(types.Typ[types.Uint8])
	b1, o1, l1, _ := sliceParts(a, t)
	b2, o2, l2, _ := sliceParts(b, t)
	return b1 == b2 && st.eval(eqTerm(o1, o2)) == 1 && st.eval(eqTerm(l1, l2)) == 1
}

// partOf: a shows a part of what b shows.
func partOf(st *State, a, b *Term) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil || b.Typ == nil {
		return false
	}
	b1, o1, l1, _ := sliceParts(a, b.Typ)
	b2, o2, l2, _ := sliceParts(b, b.Typ)
	return b1 == b2 && st.eval(ge0(sub(o1, o2))) == 1 && st.eval(ge0(sub(add(o2, l2), add(o1, l1)))) == 1
}
