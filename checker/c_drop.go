package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// R02: an accepted request is never silently dropped.

func init() {
	register(&checkDef{id: "R02", run: checkDrop,
		rule:  "obligation analysis of requests, path by path: a request that is accepted by a Send operation, received from a channel of requests, or taken out of an entry of the overflow buffer is, before its loop goes round or its function returns, answered, found to be already answered or taken, handed to a handler, a service or a goroutine, sent to a channel, or linked to an entry of a table of waiting requests; an entry of the overflow buffer is passed only when it is known to be free or its request was dealt with; whoever adds an entry looks afterwards whether the buffer was closed and then answers the request; the forwarding loop leaves only when it saw the buffer closed before it found it empty; the loop of a service that owns its queue leaves only after its queue was closed, and what it takes out of the queue on the way out is answered with the shutdown code; stopping a service offers it the exit token and closes its buffer; every entry of the overflow buffer has one place: the number of an entry is taken atomically, a request is put into, and looked for in, the place and row that belong to this number, a row is put into the table under its own number when there is none, and dropped only when the reader has passed it",
		assum: []string{"a handler, a service and a started goroutine deal with the requests they are given", "a connection is run only as a child of a pool, so its queue is the pool's"}})
}

type dropM struct {
	*ansM
	each            *eachM
	buf             types.Type
	bufKey, bkKey   string
	chReq, chBool   func(t types.Type) bool
	sites           map[string]int
	service, loopIf types.Type
	spKey           string
	shutdown        int64
	free            int64
	setSt           int64
	rows            *bufRows
}

// bufRows: the table of rows of the overflow buffer, when it has one.
type bufRows struct {
	table, id, arr string // map field of the buffer, number and entries of a row
	row            types.Type
	rk             string
	key, idx       string // how row and place follow from the number of an entry
}

func (d *dropM) findRows(bk types.Type) *bufRows {
	s, ok := under(d.buf).(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		mp, ok := under(s.Field(i).Type()).(*types.Map)
		if !ok || !isIntType(mp.Key()) {
			continue
		}
		p, ok := under(mp.Elem()).(*types.Pointer)
		if !ok {
			continue
		}
		rs, ok := under(p.Elem()).(*types.Struct)
		if !ok {
			continue
		}
		w := &bufRows{table: s.Field(i).Name(), row: p.Elem(), rk: types.TypeString(p.Elem(), nil)}
		for j := 0; j < rs.NumFields(); j++ {
			if isIntType(rs.Field(j).Type()) {
				if w.id != "" {
					return nil
				}
				w.id = rs.Field(j).Name()
			}
			if ar, ok := under(rs.Field(j).Type()).(*types.Array); ok && types.Identical(ar.Elem(), bk) {
				w.arr = rs.Field(j).Name()
				n := mk(TBin, types.Typ[types.Uint64], "/", 0, d.noSym(), num(ar.Len()))
				w.key = form(n, d.noSym())
				n = mk(TBin, types.Typ[types.Uint64], "%", 0, d.noSym(), num(ar.Len()))
				w.idx = form(n, d.noSym())
			}
		}
		if w.id != "" && w.arr != "" {
			return w
		}
	}
	return nil
}

var theNoSym *Term

func (d *dropM) noSym() *Term {
	if theNoSym == nil {
		theNoSym = fresh("entry", types.Typ[types.Uint64])
	}
	return theNoSym
}

// isTable: the map is the table of rows of a buffer.
func (d *dropM) isTable(st *State, mp *Term) bool {
	if d.rows == nil || mp == nil {
		return false
	}
	if mp.Org != nil && isField(mp.Org, d.bufKey, d.rows.table) != nil {
		return true
	}
	return false
}

// slot: row and place of an entry in the table.
func (d *dropM) slot(e *Term) (row, idx *Term) {
	if d.rows != nil && e != nil && e.Op == TIndex && isField(e.Args[0], d.rows.rk, d.rows.arr) != nil {
		return e.Args[0].Args[0], e.Args[1]
	}
	return nil, nil
}

// same: v is known to equal what the form f computes from t.
func (d *dropM) same(st *State, v, t *Term, f string) bool {
	if v == nil || t == nil {
		return false
	}
	if form(v, t) == f {
		return true
	}
	found := false
	st.eachFact(func(c *Term) bool {
		c.walk(func(y *Term) bool {
			if y.Op == TBin && y != v && !found && form(y, t) == f && st.eval(eqTerm(v, y)) == 1 {
				found = true
			}
			return !found
		})
		return !found
	})
	return found
}

// placed: the entry is the one that belongs to the number t.
func (d *dropM) placed(st *State, row, idx, t *Term) bool {
	if !d.same(st, idx, t, d.rows.idx) {
		return false
	}
	if d.same(st, st.mem[fieldOf(row, d.rows.row, d.rows.id)], t, d.rows.key) {
		return true
	}
	if o := row.Org; o != nil && o.Op == TMapEl && d.isTable(st, o.Args[0]) && d.same(st, o.Args[1], t, d.rows.key) {
		return true
	}
	k := st.vals[gk("rowno", row)]
	return k != nil && d.same(st, k, t, d.rows.key)
}

// headOf: the number of the entry at which the reader of the buffer is.
func (d *dropM) headOf(x *Exec, st *State) *Term {
	if x.self == nil || !isMethodOf(x.root, d.buf) {
		return nil
	}
	return st.mem[fieldOf(x.self, d.buf, "head")]
}

func (d *dropM) lookedAt(x *Exec, st *State, fr *Frame, in ssa.Instruction, e *Term) {
	row, idx := d.slot(e)
	if row == nil || !isMethodOf(x.root, d.buf) || !d.forwards(x.root) {
		return
	}
	d.sites["entries looked at"]++
	if h := d.headOf(x, st); h == nil || !d.placed(st, row, idx, h) {
		d.r.Add(in.Pos(), "wrong entry", fnName(fr.fn), st, "the entry that is looked at, %s of row %s, is not known to be the one whose turn it is (%s)", idx, row, h)
	} else {
		d.r.OK(in.Pos(), "entry whose turn it is")
	}
}

func (d *dropM) isReqPtr(t types.Type) bool {
	p, ok := t.(*types.Pointer)
	return ok && types.Identical(p.Elem(), d.req)
}

// bearer: the obligation that a value stands for.
func (d *dropM) bearer(st *State, v *Term) *Term {
	if v == nil {
		return nil
	}
	for k := 0; k < 4; k++ {
		if st.g("el", v) != "" {
			return v
		}
		if (v.Op == TIface || v.Op == TField) && len(v.Args) > 0 && v.Args[0] != nil {
			v = v.Args[0]
			continue
		}
		break
	}
	return nil
}

func (d *dropM) serve(st *State, v *Term) {
	if b := d.bearer(st, v); b != nil {
		d.each.served(st, b)
	}
}

func implementsIface(t types.Type, iface types.Type) bool {
	i, ok := under(iface).(*types.Interface)
	return ok && (types.Implements(t, i) || types.Implements(types.NewPointer(t), i))
}

func checkDrop(P *Program, r *Report) {
	a := newAnsM(P, r, "R02")
	if a == nil {
		return
	}
	d := &dropM{ansM: a, buf: P.Type("", "Buffer"), sites: map[string]int{}, service: P.Type("", "Service"), loopIf: P.Type("", "PointLoop")}
	bk, sp := P.Type("", "bufBookmark"), P.Type("", "SimplePoint")
	if d.buf == nil || bk == nil || d.service == nil || d.loopIf == nil || sp == nil {
		r.Add(0, "undecided", "", nil, "types Buffer, bufBookmark, Service, PointLoop or SimplePoint not found")
		return
	}
	d.bufKey, d.bkKey, d.spKey = types.TypeString(d.buf, nil), types.TypeString(bk, nil), types.TypeString(sp, nil)
	var ok1, ok2, ok3 bool
	d.shutdown, ok1 = P.Const("", "RcShutdown")
	d.free, ok2 = P.Const("", "bsFree")
	d.setSt, ok3 = P.Const("", "bsSet")
	for _, f := range []string{"head", "tail", "closed"} {
		ok1 = ok1 && structField(d.buf, f) >= 0
	}
	if !ok1 || !ok2 || !ok3 || structField(bk, "state") < 0 || structField(sp, "standalone") < 0 {
		r.Add(0, "undecided", "", nil, "the fields of Buffer, bufBookmark or SimplePoint, or the codes, were not recognised")
		return
	}
	d.each = newEach(func(pos token.Pos, fr *Frame, st *State, el *Term) {
		fn := ""
		if fr != nil {
			fn = fnName(fr.fn)
		}
		r.Add(pos, "request dropped", fn, st, "a request that was taken over here is neither answered nor handed on")
	})
	d.rows = d.findRows(bk)
	isReqChan := func(t types.Type) bool { return t != nil && d.isReqPtr(t) }
	inLoop := func(x *Exec) bool {
		if x.root.Name() != "Loop" || x.root.Signature.Recv() == nil {
			return false
		}
		n := namedOf(x.root.Signature.Recv().Type())
		return n != nil && implementsIface(n, d.loopIf)
	}
	isSend := func(fn *ssa.Function) bool {
		if fn.Name() != "Send" || fn.Signature.Recv() == nil || fn.Signature.Params().Len() != 1 || !d.isReqPtr(fn.Signature.Params().At(0).Type()) {
			return false
		}
		return implementsIface(fn.Signature.Recv().Type(), d.service)
	}
	mon := &Monitor{Name: "drop", Unroll: -1, NoLockCk: true, JoinAt: 200, JoinBlk: 200}
	mon.Relevant = func(fn *ssa.Function) bool {
		return P.CG().Reaches("drop", fn, func(in ssa.Instruction) bool {
			switch v := in.(type) {
			case *ssa.FieldAddr:
				k, _ := keyOfFA(v)
				return k.owner == d.bufKey || k.owner == d.spKey
			case *ssa.UnOp:
				if c, ok := under(v.X.Type()).(*types.Chan); ok && v.Op == token.ARROW {
					return isReqChan(c.Elem())
				}
			case *ssa.Select:
				for _, s := range v.States {
					if c, ok := under(s.Chan.Type()).(*types.Chan); ok && isReqChan(c.Elem()) {
						return true
					}
				}
			case *ssa.Send:
				return isReqChan(v.X.Type())
			case ssa.CallInstruction:
				if f := v.Common().StaticCallee(); f != nil && isMethodOf(f, d.req) {
					return true
				}
			}
			return false
		})
	}
	mon.Volatile = func(x *Exec, st *State, addr *Term) bool {
		return isField(addr, d.bufKey, "tail") != nil || isField(addr, d.bufKey, "closed") != nil || a.fld(addr, a.reqKey, a.iState) != nil
	}
	mon.Keep = func(x *Exec, st *State, addr *Term, ci *CallInfo) bool {
		return isField(addr, d.bufKey, "head") != nil
	}
	mon.NewCell = func(x *Exec, st *State, addr, val *Term) {
		if a.fld(addr, a.reqKey, a.iState) != nil {
			st.dom[val] = append([]int64(nil), a.all...)
		}
		if isField(addr, d.bkKey, "state") != nil {
			st.dom[val] = []int64{0, d.setSt, d.free}
		}
	}
	mon.Init = func(x *Exec, st *State, args []*Term) {
		if isSend(x.root) {
			st.setG("sent", args[len(args)-1], "1")
			st.setG("el", args[len(args)-1], "param")
			d.sites["requests accepted"]++
		}
	}
	mon.Loaded = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, addr, val *Term) {
		if in == nil {
			return
		}
		if q := a.fld(addr, a.reqKey, a.iState); q != nil {
			st.vals[gk("last", q)] = val
		}
		if b := isField(addr, d.bufKey, "closed"); b != nil {
			st.vals[gk("closedval", b)] = val
			st.setG("chk", b, "")
			if st.g("added", b) != "" {
				st.setG("chk", b, "read")
			}
		}
		if e := isField(addr, d.bkKey, "state"); e != nil {
			st.vals["entry"] = val
			st.setG("entry", nil, "")
			d.lookedAt(x, st, fr, in, e)
		}
		if b := a.fld(addr, a.bmKey, a.iBReq); b != nil && isField(b, d.bkKey, "Bookmark") != nil && isMethodOf(x.root, d.buf) {
			d.sites["entries taken"]++
			d.lookedAt(x, st, fr, in, isField(b, d.bkKey, "Bookmark"))
			st.setG("entry", nil, "taken")
			d.each.taken(st, in, val)
		}
	}
	mon.Store = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, addr, old, val *Term) {
		if in == nil {
			return
		}
		if b := isField(addr, d.bufKey, "tail"); b != nil && !st.private(b) {
			st.setG("added", b, "1")
			st.setG("chk", b, "")
			st.vals[gk("entryno", b)] = sub(val, num(1))
			if _, plain := in.(*ssa.Store); plain && len(st.held) == 0 {
				r.Add(in.Pos(), "number taken twice", fnName(fr.fn), st, "the number of an entry is taken neither atomically nor under a lock")
			}
		}
		if b := isField(addr, d.bufKey, "closed"); b != nil && !st.private(b) && st.eval(eqTerm(val, num(0))) == 0 {
			st.setG("close", b, "1")
		}
		if b := isField(addr, d.bufKey, "head"); b != nil && !st.private(b) {
			d.sites["entries passed"]++
			e := st.vals["entry"]
			switch {
			case e == nil:
				r.Add(in.Pos(), "entry passed", fnName(fr.fn), st, "an entry of the buffer is passed without looking at it")
			case st.g("entry", nil) == "taken" || st.eval(eqTerm(e, num(d.free))) == 1:
				r.OK(in.Pos(), "entry passed when free or taken")
			case st.g("entry", nil) == "free":
				r.OK(in.Pos(), "entry passed when free or taken")
			default:
				r.Add(in.Pos(), "entry passed", fnName(fr.fn), st, "an entry of the buffer is passed although its request may still be waiting in it")
			}
			delete(st.vals, "entry")
		}
		if _, isStore := in.(*ssa.Store); isStore && (addr.Op == TIndex || addr.Op == TMapEl || addr.Op == TField) && !st.private(addr) {
			if q := d.bearer(st, val); q != nil && a.fld(addr, a.bmKey, a.iBReq) == nil {
				d.serve(st, q)
			}
		}
	}
	mon.Append = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, res, dst, src *Term) {
		if src.Op == TSlice {
			if n, ok := lenOf(src, src.Typ).isInt(); ok && n < 8 {
				for i := int64(0); i < n; i++ {
					if sl, ok := under(src.Typ).(*types.Slice); ok {
						d.serve(st, st.mem[indexAddr(src.Args[0], add(src.Args[1], num(i)), sl.Elem())])
					}
				}
			}
		}
	}
	mon.Map = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, op string, m, k, v *Term) {
		if op == "update" {
			d.serve(st, v)
		}
		if !d.isTable(st, m) {
			return
		}
		switch op {
		case "update":
			d.sites["rows added"]++
			st.vals[gk("rowno", v)] = k
			no := st.mem[fieldOf(v, d.rows.row, d.rows.id)]
			if no == nil && v.Op == TAlloc {
				no = num(0)
			}
			if no == nil || st.eval(eqTerm(no, k)) != 1 {
				r.Add(in.Pos(), "row under another number", fnName(fr.fn), st, "a row with the number %s is put into the table under %s", no, k)
			} else if has := st.mem[mk(TMapEl, tyBool, "has", 0, m, k)]; !st.private(m) && (has == nil || st.eval(has) != 0) {
				r.Add(in.Pos(), "row replaced", fnName(fr.fn), st, "a row is put into the table although there may be one with its number: the requests in it are lost")
			} else {
				r.OK(in.Pos(), "row put into the table under its own, new number")
			}
		case "delete":
			d.sites["rows dropped"]++
			h := d.headOf(x, st)
			past := false
			if h != nil {
				see := func(y *Term) bool {
					if !past && y.Op == TBin && form(y, h) == d.rows.key && st.prove(sub(sub(y, k), num(1))) {
						past = true
					}
					if o := k.Org; o != nil && !past && y.Op == TBin && form(y, h) == d.rows.key {
						// the row the reader was at so far
						if row := isField(o, d.rows.rk, d.rows.id); row != nil && row.Org != nil && row.Org.Op == TField && fieldOwner[row.Org] == d.bufKey && st.eval(eqTerm(k, y)) == 0 {
							past = true
						}
					}
					return !past
				}
				k.walk(see)
				if n, ok := int64(0), false; k.Op == TBin && k.Aux == "-" {
					// below zero there are no rows
					n, ok = k.Args[1].isInt()
					past = past || ok && n > 0 && form(k.Args[0], h) == d.rows.key
				}
				st.eachFact(func(f *Term) bool { f.walk(see); return !past })
			}
			if !past {
				r.Add(in.Pos(), "row dropped early", fnName(fr.fn), st, "row %s is dropped although requests may still be put into it, or taken out of it", k)
			} else {
				r.OK(in.Pos(), "row dropped when passed")
			}
		}
	}
	mon.Branch = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, cond *Term, taken bool) {
		st.eachG("el", func(q *Term, k string) {
			if ok := st.vals[gk("okof", q)]; ok != nil && st.eval(ok) == 0 {
				d.each.served(st, q)
				st.setG("drained", nil, "1")
				return
			}
			if v := st.vals[gk("last", q)]; v != nil && st.g("mine", q) == "" {
				if p := a.poss(st, v); within(p, a.rsFly, a.rsPrep, a.rsPerf) || k == "param" && within(p, a.rsPend, a.rsFly, a.rsPrep, a.rsPerf) {
					d.each.served(st, q) // somebody else answers it
				}
			}
		})
		st.eachG("rcvd", func(q *Term, k string) {
			if ok := st.vals[gk("okof", q)]; ok != nil && st.eval(ok) == 0 {
				st.setG("drained", nil, "1")
			}
		})
		st.eachG("chk", func(b *Term, v string) {
			if c := st.vals[gk("closedval", b)]; c != nil && v == "read" {
				switch st.eval(eqTerm(c, num(0))) {
				case 1:
					st.setG("chk", b, "open")
				case 0:
					st.setG("chk", b, "shut")
				}
			}
		})
		if e := st.vals["entry"]; e != nil && st.eval(eqTerm(e, num(d.free))) == 1 {
			st.setG("entry", nil, "free")
		}
		if s := x.self; s != nil && x.root.Name() != "" {
			st.symsOf(func(o *Term) bool { return isField(o, d.spKey, "standalone") != nil }, func(v *Term) {
				if st.eval(v) == 0 {
					st.setG("child", nil, "1")
				}
			})
		}
		// the forwarding loop: closed was seen, then nothing was left
		st.symsOf(func(o *Term) bool { return isField(o, d.bufKey, "tail") != nil }, func(t *Term) {
			b := isField(t.Org, d.bufKey, "tail")
			c := st.vals[gk("closedval", b)]
			h := st.mem[fieldOf(b, d.buf, "head")]
			if c == nil || h == nil || st.eval(eqTerm(c, num(0))) != 0 || stripConv(c).Seq > t.Seq {
				return
			}
			if st.prove(sub(h, t)) {
				st.setG("gone", b, "1")
			}
		})
	}
	mon.Chan = func(x *Exec, st *State, fr *Frame, ev *ChanEv) {
		if ev.Kind == "send" {
			if b, ok := under(ev.Val.Typ).(*types.Basic); ok && b.Kind() == types.Bool {
				st.setG("token", ev.Ch, "1")
			}
			d.serve(st, ev.Val)
			return
		}
		if ev.Kind == "default" {
			if ev.Sel != nil {
				for _, s := range ev.Sel.States {
					if s.Dir == types.SendOnly {
						st.setG("token", x.val(fr, st, s.Chan), "1")
					}
				}
			}
			return
		}
		if ev.Kind != "recv" {
			return
		}
		el := chanElem(ev)
		if isReqChan(el) {
			d.sites["requests received"]++
			st.setG("drained", nil, "")
			st.vals[gk("okof", ev.Val)] = ev.OK
			d.each.taken(st, ev.Instr, ev.Val)
			if ev.Sel == nil {
				st.setG("onexit", ev.Val, "1")
			}
		} else if b, ok := el.(*types.Basic); ok && b.Kind() == types.Bool {
			st.setG("exit", nil, "1")
		}
	}
	answered := func(x *Exec, st *State, fr *Frame, ci *CallInfo, q *Term, code *Term) {
		if inLoop(x) && code != nil && (st.g("exit", nil) != "" || st.g("onexit", q) != "") && d.bearer(st, q) != nil {
			d.sites["answered on the way out"]++
			if n, ok := code.isInt(); !ok || n != d.shutdown {
				r.Add(ci.Instr.Pos(), "wrong code at shutdown", fnName(fr.fn), st, "a request that is left over when the service stops is answered with the code %s", code)
			} else {
				r.OK(ci.Instr.Pos(), "left over request answered with the shutdown code")
			}
		}
		st.eachG("chk", func(b *Term, v string) {
			if st.g("sent", q) != "" && (v == "shut" || v == "read") {
				if n, ok := code.isInt(); ok && n != d.shutdown {
					r.Add(ci.Instr.Pos(), "wrong code at shutdown", fnName(fr.fn), st, "a request that arrives after the service was stopped is answered with the code %s", code)
				}
				st.setG("chk", b, "answered")
			}
		})
		d.serve(st, q)
	}
	fork := func(st *State, ci *CallInfo, f func(s *State, res bool)) ([]Outcome, bool) {
		s2 := st.clone()
		f(st, true)
		f(s2, false)
		s2.note(ci.Instr.Pos(), "%s reports false", ci.Fn.Name())
		return []Outcome{{st: st, vals: []*Term{tTrue}}, {st: s2, vals: []*Term{tFalse}}}, true
	}
	mon.Call = func(x *Exec, st *State, fr *Frame, ci *CallInfo) ([]Outcome, bool) {
		if ci.Go {
			return nil, false
		}
		if ci.Fn == nil || !isMethodOf(ci.Fn, d.req) || len(ci.Args) == 0 {
			return nil, false
		}
		q := ci.Args[0]
		code := func(name string) *Term {
			n, _ := P.Const("", name)
			return num(n)
		}
		switch ci.Fn.Name() {
		case "Respond", "RespondBytes":
			answered(x, st, fr, ci, q, ci.Args[1])
			return one(st), true
		case "RespondFail":
			answered(x, st, fr, ci, q, ci.Args[1])
			return one(st), true
		case "Cancel":
			answered(x, st, fr, ci, q, code("RcCanceled"))
			return one(st), true
		case "Expire":
			answered(x, st, fr, ci, q, code("RcTimeout"))
			return one(st), true
		case "IOError":
			answered(x, st, fr, ci, q, code("RcIOError"))
			return one(st), true
		case "ShutDown":
			answered(x, st, fr, ci, q, code("RcShutdown"))
			return one(st), true
		case "SetPending", "IsPending":
			return fork(st, ci, func(s *State, res bool) {
				if !res {
					d.serve(s, q)
				}
			})
		case "Performed", "Canceled":
			return fork(st, ci, func(s *State, res bool) {
				if res {
					d.serve(s, q)
				}
			})
		case "ChainBookmark":
			if row, idx := d.slot(stripIface(ci.Args[1])); row != nil {
				d.sites["entries filled"]++
				var t *Term
				ok := false
				st.eachG("added", func(b *Term, v string) {
					if t = st.vals[gk("entryno", b)]; t != nil {
						ok = ok || d.placed(st, row, idx, t)
					}
				})
				if !ok {
					r.Add(ci.Instr.Pos(), "wrong entry", fnName(fr.fn), st, "a request is put into entry %s of row %s, which is not known to be the one whose number was taken (%s)", idx, row, t)
				} else {
					r.OK(ci.Instr.Pos(), "request put into the entry whose number was taken")
				}
			}
			return fork(st, ci, func(s *State, res bool) { d.serve(s, q) })
		case "SetInFly":
			mid := ci.Args[1]
			return fork(st, ci, func(s *State, res bool) {
				b := d.bearer(s, q)
				if b == nil {
					return
				}
				if !res {
					d.each.served(s, b)
					return
				}
				if mid.isNil() {
					s.setG("mine", q, "1")
					return
				}
				k := s.g("el", b)
				d.each.served(s, b)
				if m := stripIface(mid); m.Op == TAlloc && s.private(m) {
					s.setG("el", m, k)
				}
			})
		case "SetTimeout":
			return one(st), true
		}
		return nil, false
	}
	hand := func(st *State, ci *CallInfo) {
		for _, v := range ci.Args {
			d.serve(st, v)
		}
		for _, v := range ci.Bind {
			d.serve(st, v)
			if v.Op == TAlloc {
				d.serve(st, st.mem[v])
			}
		}
		d.serve(st, ci.Recv)
	}
	mon.Go = func(x *Exec, st *State, fr *Frame, ci *CallInfo) { hand(st, ci) }
	mon.Unknown = func(x *Exec, st *State, fr *Frame, ci *CallInfo) {
		if ci.Fn != nil && !P.inModule(ci.Fn) {
			return
		}
		if ci.Fn == nil {
			hand(st, ci) // handlers and services
		}
	}
	mon.BackEdge = func(x *Exec, st *State, fr *Frame, h *ssa.BasicBlock) {
		d.each.backEdge(x, st, fr, h)
		st.eachG("onexit", func(q *Term, v string) { st.setG("onexit", q, "") })
		st.eachG("mine", func(q *Term, v string) { st.setG("mine", q, "") })
		for _, k := range []string{"token", "close", "added", "chk"} {
			st.eachG(k, func(q *Term, v string) {
				if k != "chk" || st.g("added", q) == "" {
					st.setG(k, q, "")
				}
			})
		}
		st.setG("exit", nil, "")
		st.setG("entry", nil, "")
	}
	mon.End = func(x *Exec, o *Outcome) {
		if o.kind != OutReturn {
			return
		}
		st, name := o.st, fnName(x.root)
		for _, v := range o.vals {
			d.serve(st, v)
		}
		if isSend(x.root) {
			q := x.args[len(x.args)-1]
			if st.g("el", q) != "" && st.isNilFact(q) != 1 {
				r.Add(o.pos, "request dropped", name, st, "a request that was accepted is neither answered nor handed on")
			} else {
				r.OK(o.pos, "accepted request answered or handed on")
			}
			st.setG("el", q, "")
		}
		d.each.end(st, nil)
		st.eachG("added", func(b *Term, v string) {
			d.sites["entries added"]++
			switch st.g("chk", b) {
			case "open", "answered":
				r.OK(o.pos, "buffer looked at after the entry was added")
			default:
				r.Add(o.pos, "entry added to a closed buffer", name, st, "a request is put into the buffer without looking afterwards whether the buffer was closed: nobody would take it out")
			}
		})
		if isMethodOf(x.root, d.buf) && st.g("closedseen", nil) == "" && d.forwards(x.root) {
			d.sites["buffer exits"]++
			if st.g("gone", x.self) == "" {
				r.Add(o.pos, "buffer left early", name, st, "the forwarding loop leaves although requests may be left in the buffer, or may still be added to it without anybody noticing that it was closed")
			} else {
				r.OK(o.pos, "forwarding loop left with the buffer closed and empty")
			}
		}
		if inLoop(x) && P.relPkg(x.root) != "net/client/connection" {
			d.sites["service exits"]++
			if st.g("drained", nil) == "" && st.g("child", nil) == "" {
				r.Add(o.pos, "queue left", name, st, "the service leaves its loop although requests may be queued or may still arrive, and nobody answers them")
			} else {
				r.OK(o.pos, "service leaves with its queue closed, or as a child")
			}
		}
		if isMethodOf(x.root, sp) && x.root.Name() == "Stop" {
			d.sites["stops"]++
			ex := false
			st.eachG("token", func(c *Term, v string) {
				ex = ex || c.Org != nil && isField(c.Org, d.spKey, "exit") != nil
			})
			if !ex {
				r.Add(o.pos, "stop not passed on", name, st, "stopping does not offer the exit token to the loop of the service")
			}
			b := fieldOf(x.self, sp, "b")
			if st.g("close", b) == "" && st.g("child", nil) == "" {
				r.Add(o.pos, "stop not passed on", name, st, "stopping leaves the buffer of the service open: what arrives later stays unanswered")
			} else {
				r.OK(o.pos, "service and buffer told to stop")
			}
		}
	}
	var roots []*ssa.Function
	for _, fn := range P.Roots(P.Lib()...) {
		if (mon.Relevant(fn) || isMethodOf(fn, sp)) && !isMethodOf(fn, d.req) {
			roots = append(roots, fn)
		}
	}
	runRoots(P, r, mon, roots)
	for k, v := range d.sites {
		r.Counts["events: "+k] = v
	}
	r.Floor("requests accepted", d.sites["requests accepted"], 2)
	r.Floor("requests received", d.sites["requests received"], 4)
	r.Floor("entries added", d.sites["entries added"], 1)
	r.Floor("buffer exits", d.sites["buffer exits"], 1)
	r.Floor("service exits", d.sites["service exits"], 3)
	r.Floor("stops", d.sites["stops"], 1)
}

func stripIface(v *Term) *Term {
	for v.Op == TIface && len(v.Args) > 0 && v.Args[0] != nil {
		v = v.Args[0]
	}
	return v
}

// forwards: the function takes entries out of the buffer.
func (d *dropM) forwards(fn *ssa.Function) bool {
	return d.P.CG().Reaches("forwards", fn, func(in ssa.Instruction) bool {
		if fa, ok := in.(*ssa.FieldAddr); ok && isStored(fa) {
			k, _ := keyOfFA(fa)
			return k.owner == d.bufKey && k.name == "head"
		}
		return false
	})
}
