package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// W01 and W02: the layout of frames, on the writing and on the reading side.

func init() {
	register(&checkDef{id: "W01", run: func(P *Program, r *Report) { checkFrames(P, r, false) },
		rule:  "symbolic layout of what each frame writing method emits, for every width of return codes its initialiser accepts: on every path that ends without an error the emitted items are three 32-bit numbers and the rest, and the second number equals, as a linear expression over the length of the body, the sum of the widths of everything emitted after the third; a response that is not a ping has the return code in the configured width before the body, pings and requests have none",
		assum: []string{"bodies are not longer than 2 GiB", "the methods of the buffered writer emit their arguments whole and in order (W03)"}})
	register(&checkDef{id: "W02", run: func(P *Program, r *Report) { checkFrames(P, r, true) },
		rule:  "writing side: type, id, return code and body of the argument are emitted at the offsets 0, 8, 12 and behind; reading side, with the stream as an array of unknown bytes: type, length, id, code and body of the result are read from the same offsets, widths and byte order, what is taken from the stream is exactly 12 bytes and the declared length, no negative number of bytes is asked for, a length too short for the return code gives the protocol-error code; both sides for every width of return codes",
		assum: []string{"the methods of the buffered reader return the next bytes of the stream (W04)", "int is wider than 32 bits"}})
}

type emitItem struct {
	w    *Term // width in bytes
	kind string
	v    *Term
}

type framesM struct {
	P     *Program
	r     *Report
	bt    types.Type
	sites map[string]int
	buf   types.Type
	rd    types.Type
	read  bool // W02
}

func checkFrames(P *Program, r *Report, layout bool) {
	m := &framesM{P: P, r: r, bt: types.NewSlice(types.Typ[types.Uint8]), sites: map[string]int{}, read: layout}
	m.buf, m.rd = P.Type("net", "BufWriter"), P.Type("net", "SliceReader")
	hw, hr := P.Type("net", "HeaderWriter"), P.Type("net", "HeaderReader")
	rct := P.Type("net", "RCType")
	if m.buf == nil || m.rd == nil || hw == nil || hr == nil || rct == nil {
		r.Add(0, "undecided", "", nil, "the frame readers and writers were not found")
		return
	}
	widths := map[string]int64{"RC0byte": 0, "RC1byte": 1, "RC4byte": 4}
	var names []string
	for n := range widths {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		c, ok := P.Const("net", n)
		if !ok {
			r.Add(0, "undecided", "", nil, "constant %s not found", n)
			return
		}
		for _, t := range []types.Type{hw, hr} {
			if t == hr && !layout {
				continue
			}
			init := P.Method("net", namedOf(t).Obj().Name(), "Init")
			if init == nil {
				r.Add(0, "undecided", "", nil, "the initialiser of %s was not found", t)
				continue
			}
			states := m.initial(init, t, rct, c)
			if len(states) == 0 {
				r.Add(init.Pos(), "undecided", fnName(init), nil, "the initialiser does not accept %s", n)
			}
			for _, fields := range states {
				m.sites["configurations"]++
				for _, fn := range P.Roots("net") {
					if !isMethodOf(fn, t) || fn == init || !fn.Object().Exported() {
						continue
					}
					if t == hw {
						m.writer(fn, hw, fields, widths[n], n)
					} else {
						m.reader(fn, hr, fields, widths[n], n)
					}
				}
			}
		}
	}
	for k, v := range m.sites {
		r.Counts["events: "+k] = v
	}
	r.Floor("frames written", m.sites["frames written"], 6)
	if layout {
		r.Floor("frames read", m.sites["frames read"], 6)
		r.Floor("reads of the stream", m.sites["reads of the stream"], 6)
	}
}

func (m *framesM) bad(pos token.Pos, rule string, fn *ssa.Function, st *State, f string, args ...interface{}) {
	m.r.Add(pos, rule, fnName(fn), st, f, args...)
}

// initial: the values the initialiser gives the fields for a width of return codes.
func (m *framesM) initial(init *ssa.Function, t, rct types.Type, c int64) (res []map[int]*Term) {
	mon := &Monitor{Name: "frameinit", Unroll: -1, NoLockCk: true}
	x := newExec(m.P, m.r, mon)
	st0 := under(t).(*types.Struct)
	seen := map[string]bool{}
	given := map[*Term]bool{}
	mon.End = func(x *Exec, o *Outcome) {
		if o.kind != OutReturn {
			return
		}
		f := map[int]*Term{}
		key := ""
		for i := 0; i < st0.NumFields(); i++ {
			if v := o.st.mem[fieldAddr(x.self, t, i)]; v != nil && v.Op != TSym {
				f[i] = v
				key += fmt.Sprint(i, "=", v, ";")
			}
		}
		if !seen[key] {
			seen[key] = true
			res = append(res, f)
		}
	}
	mon.Init = func(x *Exec, st *State, args []*Term) {
		for i, p := range x.root.Params {
			if types.Identical(p.Type(), rct) {
				x.args[i] = num(c)
				given[args[i]] = true
				st.assume(eqTerm(args[i], num(c)))
			}
		}
	}
	mon.Relevant = func(fn *ssa.Function) bool { return m.P.relPkg(fn) == "net" }
	// the parameter itself may be stored: it is the constant
	end := mon.End
	mon.End = func(x *Exec, o *Outcome) {
		for i := 0; i < st0.NumFields(); i++ {
			a := fieldAddr(x.self, t, i)
			if v := o.st.mem[a]; v != nil && given[stripConv(v)] {
				o.st.mem[a] = num(c)
			}
		}
		end(x, o)
	}
	x.RunRoot(init, nil)
	return
}

func (m *framesM) items(st *State) (l []emitItem) {
	for i := 0; ; i++ {
		v := st.vals[fmt.Sprint("emit", i)]
		if v == nil {
			return
		}
		l = append(l, emitItem{v.Args[0], v.Aux, v.Args[1]})
	}
}

func (m *framesM) emit(st *State, w *Term, kind string, v *Term) {
	i := len(m.items(st))
	st.vals[fmt.Sprint("emit", i)] = mk(TTuple, nil, kind, 0, w, v)
	st.setG("emitted", nil, fmt.Sprint(i+1))
}

// bytesOf: the items a slice of bytes consists of, when it was put together
// locally.
func (m *framesM) bytesOf(st *State, v *Term) []emitItem {
	b, off, ln, _ := sliceParts(v, m.bt)
	n, ok := ln.isInt()
	if addrRoot(b).Op != TAlloc || !ok {
		return []emitItem{{ln, "bytes", v}}
	}
	var l []emitItem
	for at := int64(0); at < n; {
		found := false
		for _, w := range []int64{4, 8, 2, 1} {
			for a, val := range st.mem {
				if a.Op != TIndex || a.Args[0] != b {
					continue
				}
				if d, ok := sub(sub(a.Args[1], off), num(at)).isInt(); !ok || d != 0 {
					continue
				}
				aw := int64(1)
				fmt.Sscanf(strings.TrimLeft(a.Aux, "litebgEndian"), "%d", &aw)
				if aw != w || at+w > n {
					continue
				}
				kind := "byte"
				if a.Aux != "" {
					kind = a.Aux
				}
				l = append(l, emitItem{num(w), kind, val})
				at += w
				found = true
				break
			}
			if found {
				break
			}
		}
		if !found {
			return []emitItem{{ln, "bytes", v}}
		}
	}
	return l
}

func (m *framesM) writer(fn *ssa.Function, t types.Type, fields map[int]*Term, width int64, cfg string) {
	P := m.P
	ping, _ := P.Const("", "Ping")
	pingId, okId := P.Const("", "PingRequestId")
	mon := &Monitor{Name: "frames", Unroll: -1, NoLockCk: true, JoinAt: 200, JoinBlk: 200, Facts: true}
	mon.Relevant = func(f *ssa.Function) bool { return P.relPkg(f) == "net" }
	mon.Keep = func(x *Exec, st *State, addr *Term, ci *CallInfo) bool {
		return addr.Op == TField && fieldOwner[addr] == types.TypeString(t, nil)
	}
	mon.Call = func(x *Exec, st *State, fr *Frame, ci *CallInfo) ([]Outcome, bool) {
		f := ci.Fn
		if f == nil || !isMethodOf(f, m.buf) || !f.Object().Exported() {
			return nil, false
		}
		sig := f.Signature
		if sig.Results().Len() != 1 {
			return nil, false
		}
		s2 := st.clone()
		for i := 0; i < sig.Params().Len(); i++ {
			p := ci.Args[i+1]
			switch pt := sig.Params().At(i).Type(); {
			case isIntType(pt):
				b := intBits(pt)
				kind := fmt.Sprint("littleEndian", b/8)
				if b == 8 {
					kind = "byte"
				}
				m.emit(st, num(int64(b/8)), kind, p)
			default:
				for _, it := range m.bytesOf(st, p) {
					m.emit(st, it.w, it.kind, it.v)
				}
			}
		}
		if sig.Params().Len() > 0 {
			m.sites["items written"]++
		}
		e := freshErr("write")
		s2.note(ci.Instr.Pos(), "the writer fails")
		return []Outcome{{st: st, vals: []*Term{nilTerm}}, {st: s2, vals: []*Term{e}}}, true
	}
	mon.End = func(x *Exec, o *Outcome) {
		if o.kind != OutReturn {
			return
		}
		st := o.st
		if len(o.vals) > 0 && st.eval(mkEq(o.vals[len(o.vals)-1], nilTerm)) == 0 {
			return
		}
		its := m.items(st)
		if len(its) == 0 && len(x.args) == 1 && st.g("emitted", nil) == "" && !strings.Contains(fn.Name(), "Ping") {
			return // flushing
		}
		var arg *Term
		var at types.Type
		if len(x.args) > 1 {
			arg, at = x.args[1], fn.Params[1].Type()
		}
		get := func(name string) *Term {
			if arg == nil {
				return nil
			}
			i := structField(at, name)
			if i < 0 {
				return nil
			}
			return x.fieldOf(arg, i, under(at).(*types.Struct).Field(i).Type(), name)
		}
		isResp := arg != nil && structField(at, "Code") >= 0
		m.sites["frames written"]++
		if len(its) < 3 {
			m.bad(o.pos, "short header", fn, st, "only %d of the three numbers of a header are written", len(its))
			return
		}
		for i := 0; i < 3; i++ {
			if its[i].kind != "littleEndian4" {
				m.bad(o.pos, "header", fn, st, "number %d of the header is written as %s", i+1, its[i].kind)
				return
			}
		}
		sum := num(0)
		for _, it := range its[3:] {
			sum = add(sum, it.w)
		}
		if st.eval(eqTerm(stripConv(its[1].v), sum)) != 1 {
			m.bad(o.pos, "length", fn, st, "the header announces %s bytes, but %s follow (%s)", stripConv(its[1].v), sum, cfg)
		} else {
			m.r.OK(o.pos, "announced length is the length, "+cfg)
		}
		msg := get("Msg")
		rest := its[3:]
		// what follows the header
		if isResp {
			isPing := 0
			if msg != nil {
				isPing = st.eval(eqTerm(msg, num(ping)))
			}
			want := width
			if isPing == 1 {
				want = 0
			}
			if isPing < 0 && width > 0 {
				m.bad(o.pos, "return code", fn, st, "a response is written without regard to whether it is a ping, which has no return code")
				return
			}
			if want > 0 {
				if len(rest) == 0 || rest[0].kind == "bytes" || rest[0].w != num(want) {
					m.bad(o.pos, "return code", fn, st, "the return code is not written in its width of %d bytes", want)
					return
				}
				if m.read && stripConv(rest[0].v) != stripConv(get("Code")) {
					m.bad(o.pos, "return code", fn, st, "%s is written in the place of the return code", rest[0].v)
				}
				if m.read && want > 1 && rest[0].kind != fmt.Sprint("littleEndian", want) {
					m.bad(o.pos, "return code", fn, st, "the return code is written as %s", rest[0].kind)
				}
				rest = rest[1:]
			} else {
				m.r.OK(o.pos, "no return code")
			}
		}
		for _, it := range rest {
			if it.kind != "bytes" {
				m.bad(o.pos, "return code", fn, st, "%s (%s) is written between header and body", it.v, it.kind)
				return
			}
		}
		if !m.read {
			return
		}
		if arg == nil {
			// a ping
			if st.eval(eqTerm(stripConv(its[0].v), num(ping))) != 1 || okId && st.eval(eqTerm(stripConv(its[2].v), num(pingId))) != 1 {
				m.bad(o.pos, "ping", fn, st, "a ping is written with type %s and id %s", its[0].v, its[2].v)
			} else {
				m.r.OK(o.pos, "type and id of pings")
			}
			return
		}
		for i, n := range map[int]string{0: "Msg", 2: "Id"} {
			if w := get(n); w == nil || st.eval(eqTerm(stripConv(its[i].v), stripConv(w))) != 1 {
				m.bad(o.pos, "order", fn, st, "%s is written in the place of %s", its[i].v, n)
			} else {
				m.r.OK(o.pos, n+" in its place")
			}
		}
		body := get("Body")
		switch {
		case body == nil:
		case len(rest) == 0:
			if st.eval(eqTerm(lenOf(body, m.bt), num(0))) != 1 {
				m.bad(o.pos, "body", fn, st, "the body is not written")
			}
		case len(rest) > 1 || !(rest[0].v == body || sameBytes(st, rest[0].v, body)):
			m.bad(o.pos, "body", fn, st, "%s is written in the place of the body", rest[0].v)
		default:
			m.r.OK(o.pos, "the body behind")
		}
	}
	x := newExec(P, m.r, mon)
	x.RunRoot(fn, func(st *State, args []*Term) {
		for i, v := range fields {
			st.mem[fieldAddr(args[0], t, i)] = v
		}
		if len(args) > 1 {
			if i := structField(fn.Params[1].Type(), "Body"); i >= 0 {
				body := x.fieldOf(args[1], i, under(fn.Params[1].Type()).(*types.Struct).Field(i).Type(), "Body")
				st.assume(ge0(sub(num(1<<31), lenOf(body, m.bt))))
			}
		}
	})
}

func (m *framesM) reader(fn *ssa.Function, t types.Type, fields map[int]*Term, width int64, cfg string) {
	P := m.P
	ping, _ := P.Const("", "Ping")
	pingId, _ := P.Const("", "PingRequestId")
	perr, _ := P.Const("", "RcProtocolError")
	mon := &Monitor{Name: "frames", Unroll: -1, NoLockCk: true, JoinAt: 200, JoinBlk: 200, Facts: true}
	mon.Relevant = func(f *ssa.Function) bool { return P.relPkg(f) == "net" }
	mon.Keep = func(x *Exec, st *State, addr *Term, ci *CallInfo) bool {
		if addr.Op == TIndex && addr.Args[0] == st.vals["stream"] {
			return true
		}
		return addr.Op == TField && fieldOwner[addr] == types.TypeString(t, nil)
	}
	byteT := types.Typ[types.Uint8]
	mon.Call = func(x *Exec, st *State, fr *Frame, ci *CallInfo) ([]Outcome, bool) {
		f := ci.Fn
		if f == nil || !isMethodOf(f, m.rd) || !f.Object().Exported() {
			return nil, false
		}
		res := f.Signature.Results()
		if res.Len() != 2 {
			return nil, false
		}
		m.sites["reads of the stream"]++
		s2 := st.clone()
		s2.note(ci.Instr.Pos(), "the stream fails or ends")
		base, pos := st.vals["stream"], st.vals["pos"]
		if pos == nil {
			m.bad(ci.Instr.Pos(), "undecided", fr.fn, st, "it cannot be followed how far the stream was read")
			pos = fresh("pos", tyInt)
		}
		n := num(1)
		if len(ci.Args) > 1 {
			n = ci.Args[1]
			if st.eval(ge0(n)) != 1 {
				m.bad(ci.Instr.Pos(), "negative length", fr.fn, st, "%s bytes are asked for, which may be negative or wrapped", n)
			} else {
				m.r.OK(ci.Instr.Pos(), "no negative length")
			}
		}
		e := freshErr("read")
		var v, z *Term
		if _, ok := under(res.At(0).Type()).(*types.Slice); ok {
			v, z = mkSlice(res.At(0).Type(), base, pos, n, n), x.freshVal(s2, "part", res.At(0).Type())
		} else {
			v, z = x.loadLeaf(st, indexAddr(base, pos, byteT), byteT), num(0)
		}
		st.vals["pos"] = add(pos, n)
		st.setG("pos", nil, fmt.Sprint(st.vals["pos"].ID))
		return []Outcome{{st: st, vals: []*Term{v, nilTerm}}, {st: s2, vals: []*Term{z, e}}}, true
	}
	at := func(v *Term, st *State, w int64) (*Term, bool) {
		c := stripConv(v).Org
		if c == nil || c.Op != TIndex || c.Args[0] != st.vals["stream"] {
			return nil, false
		}
		aw := int64(1)
		if c.Aux != "" {
			if !strings.HasPrefix(c.Aux, "little") {
				return nil, false
			}
			fmt.Sscanf(strings.TrimLeft(c.Aux, "litebgEndian"), "%d", &aw)
		}
		return c.Args[1], aw == w
	}
	mon.End = func(x *Exec, o *Outcome) {
		if o.kind != OutReturn {
			return
		}
		st := o.st
		if st.eval(mkEq(o.vals[len(o.vals)-1], nilTerm)) == 0 || knownError(o.vals[len(o.vals)-1]) {
			return
		}
		base, pos := st.vals["stream"], st.vals["pos"]
		if pos == nil {
			m.bad(o.pos, "undecided", fn, st, "it cannot be followed how far the stream was read")
			return
		}
		m.sites["frames read"]++
		field := func(off int64) *Term {
			for a, v := range st.mem {
				if a.Op == TIndex && a.Args[0] == base && a.Aux == "littleEndian4" && a.Args[1] == num(off) {
					return v
				}
			}
			return nil
		}
		if len(o.vals) == 1 {
			// verifying a ping
			msg, id := field(0), field(8)
			if msg == nil || id == nil || st.eval(eqTerm(msg, num(ping))) != 1 || st.eval(eqTerm(id, num(pingId))) != 1 {
				m.bad(o.pos, "ping", fn, st, "success without type and id of a ping in the frame")
			} else {
				m.r.OK(o.pos, "type and id of pings verified")
			}
			return
		}
		res, rt := o.vals[0], fn.Signature.Results().At(0).Type()
		get := func(name string) *Term {
			i := structField(rt, name)
			if i < 0 {
				return nil
			}
			return x.fieldOf(res, i, under(rt).(*types.Struct).Field(i).Type(), name)
		}
		L := field(4)
		if L == nil {
			m.bad(o.pos, "length", fn, st, "success although the length of the frame was not read from its place")
			return
		}
		for n, off := range map[string]int64{"Msg": 0, "Id": 8} {
			v := get(n)
			if v == nil {
				m.bad(o.pos, "undecided", fn, st, "the result has no field %s", n)
				return
			}
			if p, ok := at(v, st, 4); p != num(off) || !ok {
				if f := field(off); f == nil || st.eval(eqTerm(v, f)) != 1 {
					m.bad(o.pos, "order", fn, st, "%s of the frame is not read from offset %d but is %s", n, off, v)
					continue
				}
			}
			m.r.OK(o.pos, n+" from its place")
		}
		if st.eval(eqTerm(pos, add(num(12), L))) != 1 {
			m.bad(o.pos, "length", fn, st, "%s bytes are taken from the stream instead of 12 and the declared %s (%s)", pos, L, cfg)
			return
		}
		w := int64(0)
		if code := get("Code"); code != nil {
			isPing := -1
			if f := field(0); f != nil {
				isPing = st.eval(eqTerm(f, num(ping)))
			}
			short := width > 0 && st.eval(ge0(sub(L, num(width)))) == 0
			switch {
			case isPing == 1 || width == 0:
				if p, _ := at(code, st, 4); p != nil {
					m.bad(o.pos, "return code", fn, st, "a return code is read although there is none")
				}
			case isPing < 0:
				m.bad(o.pos, "return code", fn, st, "a response is read without regard to whether it is a ping, which has no return code")
				return
			case short:
				if st.eval(eqTerm(code, num(perr))) != 1 {
					m.bad(o.pos, "short response", fn, st, "a response too short for its return code gets the code %s", code)
				} else {
					m.r.OK(o.pos, "too short: protocol error")
				}
			default:
				w = width
				if p, ok := at(code, st, width); p != num(12) || !ok {
					m.bad(o.pos, "return code", fn, st, "the return code is not read from offset 12 in %d bytes but is %s", width, code)
				} else {
					m.r.OK(o.pos, "return code from its place")
				}
			}
			if short && isPing == 0 {
				return // the body of such a response is of no use
			}
		}
		b, off, ln, _ := sliceParts(get("Body"), m.bt)
		if st.eval(eqTerm(ln, sub(L, num(w)))) != 1 || st.eval(eqTerm(ln, num(0))) != 1 && (b != base || st.eval(eqTerm(off, num(12+w))) != 1) {
			m.bad(o.pos, "body", fn, st, "the body is %s instead of the %s bytes at offset %d", get("Body"), sub(L, num(w)), 12+w)
		} else {
			m.r.OK(o.pos, "the body behind")
		}
	}
	x := newExec(P, m.r, mon)
	x.RunRoot(fn, func(st *State, args []*Term) {
		st.vals["stream"] = freshAlloc(nil, "stream", types.NewArray(byteT, 0))
		st.dirty[st.vals["stream"]] = true
		st.vals["pos"] = num(0)
		st.setG("pos", nil, fmt.Sprint(num(0).ID))
		for i, v := range fields {
			st.mem[fieldAddr(args[0], t, i)] = v
		}
	})
}
