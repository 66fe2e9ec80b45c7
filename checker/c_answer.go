package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The life of a request: its state word, its interceptors, its receiver.
// R01 and R05 are decided by one typestate analysis.

func init() {
	register(&checkDef{id: "R01", run: func(P *Program, r *Report) { checkAnswer(P, r, "R01") },
		rule: "typestate of the request state word: on every path of every entry point each write of it is one of the allowed transitions (New to Pending and Pending to InFly by compare-and-swap only, a not yet answered state to Prepared with the request's lock held and the old state tested under it, Prepared to Performed, and Prepared back to waiting only in the reset operations); the receiver is notified only by the path that made the transition to Prepared, once, and only if the state was tested again after every interceptor; replies with data require InFly; operations that report success do so exactly when they made the transition",
		assum: []string{"an interceptor resets a request only from inside its own notification (documented contract of the reset operations)",
			"user code does not write the fields of the package's types that are not exported"}})
	register(&checkDef{id: "R05", run: func(P *Program, r *Report) { checkAnswer(P, r, "R05") },
		rule: "typestate of the interceptor chain: an interceptor is linked only in front of the old chain of the same request, with the request's lock held and either the state known to be New or Pending or the transition to InFly made under the same lock; only the first interceptor of the chain is notified and it is unlinked before the next one or the receiver is notified; the receiver is notified only with the chain known to be empty; after an interceptor nothing is notified unless the state is known to be still Prepared",
		assum: []string{"an interceptor does not attach or detach interceptors of the request it is being notified about (it would block on the request's lock)",
			"every interceptor in the chain of a request refers to that request (it is linked only together with that reference, which is checked)"}})
}

type ansM struct {
	P                          *Program
	r                          *Report
	prop                       string
	req, bm                    types.Type
	reqKey, bmKey              string
	iState, iChain, iRcv, iMut int
	iBReq, iPrev               int
	rsNew, rsPend, rsFly       int64
	rsPrep, rsPerf             int64
	all                        []int64
	bmIface                    types.Type
	sites                      map[string]int
	bmMeth                     map[string]*ssa.Function
}

var ansRule = map[string]string{
	"wrong state transition": "R01", "notified without owning the answer": "R01", "receiver notified twice": "R01",
	"data accepted outside of work": "R01", "wrong result": "R01", "failure not delivered": "R01", "answer left open": "R01",
	"answer withheld":   "R05",
	"interceptor order": "R05", "interceptor attached late": "R05", "interceptor notified": "R05", "receiver before interceptors": "R05", "chain changed without lock": "R05",
}

func (a *ansM) add(pos token.Pos, rule string, fr *Frame, st *State, f string, args ...interface{}) {
	if ansRule[rule] == a.prop {
		fn := a.r.Prop
		if fr != nil {
			fn = fnName(fr.fn)
		}
		a.r.Add(pos, rule, fn, st, f, args...)
	}
}

func newAnsM(P *Program, r *Report, prop string) *ansM {
	a := &ansM{P: P, r: r, prop: prop, sites: map[string]int{}, iState: -1, iChain: -1, iRcv: -1, iBReq: -1, iPrev: -1, bmMeth: map[string]*ssa.Function{}}
	a.req, a.bm, a.bmIface = P.Type("", "Request"), P.Type("", "Bookmark"), P.Type("", "RequestBookmark")
	rcv := P.Type("", "Responder")
	if a.req == nil || a.bm == nil || a.bmIface == nil || rcv == nil {
		r.Add(0, "undecided", "", nil, "types Request, Bookmark, RequestBookmark or Responder not found")
		return nil
	}
	a.reqKey, a.bmKey = types.TypeString(a.req, nil), types.TypeString(a.bm, nil)
	rs := under(a.req).(*types.Struct)
	a.iMut = mutexField(rs)
	atom := P.atomicFields(a.req)
	for i := 0; i < rs.NumFields(); i++ {
		switch t := rs.Field(i).Type(); {
		case types.Identical(t, a.bmIface):
			a.iChain = i
		case types.Identical(t, rcv):
			a.iRcv = i
		case atom[i]:
			a.iState = i
		}
	}
	bs := under(a.bm).(*types.Struct)
	for i := 0; i < bs.NumFields(); i++ {
		if types.Identical(bs.Field(i).Type(), a.bmIface) {
			a.iPrev = i
		} else if p, ok := bs.Field(i).Type().(*types.Pointer); ok && types.Identical(p.Elem(), a.req) {
			a.iBReq = i
		}
	}
	ok := a.iMut >= 0 && a.iState >= 0 && a.iChain >= 0 && a.iRcv >= 0 && a.iBReq >= 0 && a.iPrev >= 0
	for _, c := range []struct {
		n string
		p *int64
	}{{"RsNew", &a.rsNew}, {"RsPending", &a.rsPend}, {"RsInFly", &a.rsFly}, {"RsPrepared", &a.rsPrep}, {"RsPerformed", &a.rsPerf}} {
		v, found := P.Const("", c.n)
		*c.p = v
		ok = ok && found
		a.all = append(a.all, v)
	}
	if !ok {
		r.Add(0, "undecided", "", nil, "fields or state constants of Request were not found")
		return nil
	}
	// the unexported methods of the interceptor interface are all promoted from Bookmark
	it := under(a.bmIface).(*types.Interface)
	for i := 0; i < it.NumMethods(); i++ {
		m := it.Method(i)
		if token.IsExported(m.Name()) {
			continue
		}
		if f := P.Method("", "Bookmark", m.Name()); f != nil && P.soleImpl(a.bmIface, a.bm, m) {
			a.bmMeth[m.Name()] = f
		} else {
			r.Add(0, "undecided", "", nil, "method %s of RequestBookmark is implemented outside of Bookmark", m.Name())
		}
	}
	return a
}

// soleImpl: every implementation of the interface's method is the one promoted from base.
func (P *Program) soleImpl(iface, base types.Type, m *types.Func) bool {
	for _, sp := range P.Pkgs {
		for _, n := range sp.Pkg.Scope().Names() {
			tn, ok := sp.Pkg.Scope().Lookup(n).(*types.TypeName)
			if !ok || types.IsInterface(tn.Type()) {
				continue
			}
			pt := types.NewPointer(tn.Type())
			if !types.Implements(pt, under(iface).(*types.Interface)) {
				continue
			}
			sel := types.NewMethodSet(pt).Lookup(m.Pkg(), m.Name())
			if sel == nil {
				continue
			}
			f, ok := sel.Obj().(*types.Func)
			if !ok {
				return false
			}
			n2 := namedOf(f.Type().(*types.Signature).Recv().Type())
			if n2 == nil || !types.Identical(n2, base) {
				return false
			}
		}
	}
	return true
}

// atomicFields: fields of a struct that are accessed with sync/atomic.
func (P *Program) atomicFields(t types.Type) map[int]bool {
	res := map[int]bool{}
	for _, fn := range P.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				f := c.Common().StaticCallee()
				if f == nil || fnPkgPath(f) != "sync/atomic" || len(c.Common().Args) == 0 {
					continue
				}
				v := c.Common().Args[0]
				if cv, ok := v.(*ssa.ChangeType); ok {
					v = cv.X
				}
				if cv, ok := v.(*ssa.Convert); ok {
					v = cv.X
				}
				if fa, ok := v.(*ssa.FieldAddr); ok {
					if p, ok := under(fa.X.Type()).(*types.Pointer); ok && types.Identical(p.Elem(), t) {
						res[fa.Field] = true
					}
				}
			}
		}
	}
	return res
}

func (a *ansM) fld(addr *Term, key string, i int) *Term {
	if addr.Op == TField && addr.N == i && fieldOwner[addr] == key {
		return addr.Args[0]
	}
	return nil
}

func (a *ansM) stateOf(req *Term) *Term { return fieldAddr(req, a.req, a.iState) }
func (a *ansM) chainOf(req *Term) *Term { return fieldAddr(req, a.req, a.iChain) }
func (a *ansM) locked(st *State, req *Term) bool {
	return st.holds(fieldAddr(req, a.req, a.iMut))
}

// poss: states that the request may be in as far as known.
func (a *ansM) poss(st *State, v *Term) []int64 {
	if v == nil {
		return a.all
	}
	var res []int64
	for _, d := range a.all {
		if st.eval(eqTerm(v, num(d))) != 0 {
			res = append(res, d)
		}
	}
	return res
}

func within(p []int64, set ...int64) bool {
	if len(p) == 0 {
		return true
	}
	for _, v := range p {
		ok := false
		for _, s := range set {
			ok = ok || s == v
		}
		if !ok {
			return false
		}
	}
	return true
}

func (a *ansM) name(v int64) string {
	switch v {
	case a.rsNew:
		return "New"
	case a.rsPend:
		return "Pending"
	case a.rsFly:
		return "InFly"
	case a.rsPrep:
		return "Prepared"
	case a.rsPerf:
		return "Performed"
	}
	return fmt.Sprint(v)
}

func (a *ansM) names(p []int64) string {
	var s []string
	for _, v := range p {
		s = append(s, a.name(v))
	}
	return strings.Join(s, "|")
}

// bmOf: address of the Bookmark inside an interceptor.
func (a *ansM) bmOf(v *Term) *Term {
	if v.Op == TIface && v.Args[0] != nil {
		t := v.Typ
		p := v.Args[0]
		for k := 0; k < 4; k++ {
			pt, ok := under(t).(*types.Pointer)
			if !ok {
				break
			}
			if types.Identical(pt.Elem(), a.bm) {
				return p
			}
			s, ok := under(pt.Elem()).(*types.Struct)
			if !ok {
				break
			}
			found := false
			for i := 0; i < s.NumFields(); i++ {
				if types.Identical(s.Field(i).Type(), a.bm) {
					p, t, found = fieldAddr(p, pt.Elem(), i), types.NewPointer(a.bm), true
					break
				}
			}
			if !found {
				break
			}
		}
	}
	return mk(TUnbox, types.NewPointer(a.bm), "bookmark", 0, v)
}

func isAtomicCall(in ssa.Instruction, prefix string) bool {
	c, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	f := c.Common().StaticCallee()
	return f != nil && fnPkgPath(f) == "sync/atomic" && strings.HasPrefix(f.Name(), prefix)
}

func checkAnswer(P *Program, r *Report, prop string) {
	a := newAnsM(P, r, prop)
	if a == nil {
		return
	}
	ok := func(pos token.Pos, rule, what string) {
		if ansRule[rule] == prop {
			r.OK(pos, what)
		}
	}
	cg := P.CG()
	m := &Monitor{Name: "answer", Unroll: -1, NoLockCk: true, RootSumm: true}
	m.Relevant = func(fn *ssa.Function) bool {
		return cg.Reaches("answer", fn, func(in ssa.Instruction) bool {
			if fa, ok := in.(*ssa.FieldAddr); ok {
				k, _ := keyOfFA(fa)
				return k.owner == a.reqKey && (fa.Field == a.iState || fa.Field == a.iChain || fa.Field == a.iRcv) || k.owner == a.bmKey
			}
			return false
		})
	}
	m.Volatile = func(x *Exec, st *State, addr *Term) bool {
		return a.fld(addr, a.reqKey, a.iState) != nil && !st.protected(addr)
	}
	m.NewCell = func(x *Exec, st *State, addr, val *Term) {
		if a.fld(addr, a.reqKey, a.iState) != nil {
			st.dom[val] = append([]int64(nil), a.all...)
		}
	}
	m.Keep = func(x *Exec, st *State, addr *Term, ci *CallInfo) bool {
		chain := a.fld(addr, a.reqKey, a.iChain)
		if chain != nil {
			return a.locked(st, chain)
		}
		if b := a.fld(addr, a.bmKey, a.iBReq); b != nil {
			return st.mem[addr] != nil && a.locked(st, st.mem[addr])
		}
		if b := a.fld(addr, a.bmKey, a.iPrev); b != nil {
			q := st.mem[fieldAddr(b, a.bm, a.iBReq)]
			return q != nil && a.locked(st, q)
		}
		return false
	}
	m.Loaded = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, addr, val *Term) {
		if q := a.fld(addr, a.reqKey, a.iState); q != nil {
			st.vals[gk("last", q)] = val
		}
		var q *Term
		if c := a.fld(addr, a.reqKey, a.iChain); c != nil {
			q = c
		} else if b := a.fld(addr, a.bmKey, a.iPrev); b != nil {
			q = st.mem[fieldAddr(b, a.bm, a.iBReq)]
		}
		if q != nil && !val.isNil() && val.Op != TIface {
			// whatever is linked in the chain of q refers to q
			e := fieldAddr(a.bmOf(val), a.bm, a.iBReq)
			if st.mem[e] == nil {
				st.mem[e] = q
			}
		}
	}
	resetFn := func(x *Exec) bool {
		o := x.root.Object()
		return o != nil && (strings.HasPrefix(o.Name(), "ResetTo") || o.Name() == "Respond")
	}
	m.Store = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, addr, old, val *Term) {
		if in == nil {
			return
		}
		if w, ok := in.(*ssa.Store); ok && types.Identical(w.Val.Type(), a.req) {
			return // a request slot is initialised as a whole
		}
		pos := in.Pos()
		if q := a.fld(addr, a.reqKey, a.iState); q != nil {
			if st.private(q) {
				return
			}
			a.sites["transition"]++
			to := a.poss(st, val)
			from := a.poss(st, st.mem[addr])
			if st.mem[addr] == nil && st.locked(addr) == false {
				from = a.all
			}
			cas := isAtomicCall(in, "CompareAndSwap")
			locked := a.locked(st, q)
			last := a.poss(st, st.vals[gk("last", q)])
			good := false
			switch {
			case len(to) != 1:
			case to[0] == a.rsPend && within(from, a.rsNew) && len(from) > 0 && cas, to[0] == a.rsFly && within(from, a.rsPend) && cas:
				good = true
				st.setG("cas", q, a.name(to[0]))
			case to[0] == a.rsPrep:
				good = (locked || cas) && within(from, a.rsNew, a.rsPend, a.rsFly)
				if good {
					st.setG("own", q, a.names(from))
					st.setG("ntf", q, "")
					st.setG("ver", q, "")
					st.setG("top", q, "")
				}
			case to[0] == a.rsPerf:
				good = (st.g("own", q) != "" || st.g("ntf", q) != "") && (locked && within(from, a.rsPrep) || st.g("ntf", q) != "" || st.g("ver", q) != "")
				if good {
					st.setG("perf", q, "1")
				}
			case to[0] == a.rsPend || to[0] == a.rsNew:
				good = resetFn(x) && (within(from, a.rsPrep) || within(last, a.rsPrep) && st.vals[gk("last", q)] != nil)
				st.setG("own", q, "")
			}
			if good {
				ok(pos, "wrong state transition", a.names(from)+" to "+a.names(to))
				return
			}
			how := ""
			if !locked && !cas {
				how = ", neither under the request's lock nor by compare-and-swap"
			} else if !cas {
				how = " with a plain store"
			}
			a.add(pos, "wrong state transition", fr, st, "the state of a request is changed to %s when it may be %s%s", a.names(to), a.names(from), how)
			return
		}
		if q := a.fld(addr, a.reqKey, a.iChain); q != nil && !st.private(q) {
			a.sites["chain"]++
			if !a.locked(st, q) {
				a.add(pos, "chain changed without lock", fr, st, "the chain of interceptors is changed without holding the request's lock")
				return
			}
			cur := st.mem[addr]
			if cur != nil && cur.Op != TIface && !val.isNil() && val.Op == TSym && val.Org != nil && a.fld(val.Org, a.bmKey, a.iPrev) == a.bmOf(cur) ||
				cur != nil && st.mem[fieldAddr(a.bmOf(cur), a.bm, a.iPrev)] == val {
				st.setG("top", q, "")
				ok(pos, "interceptor order", "first interceptor unlinked")
				return
			}
			if val.isNil() {
				if cur != nil && (cur.isNil() || st.isNilFact(cur) == 1) {
					return
				}
				a.add(pos, "interceptor order", fr, st, "the chain of interceptors is dropped although it may not be empty")
				return
			}
			b := a.bmOf(val)
			if prev := st.mem[fieldAddr(b, a.bm, a.iPrev)]; prev == nil || cur != prev {
				a.add(pos, "interceptor order", fr, st, "an interceptor becomes the first of the chain but the old chain is not linked behind it")
				return
			}
			if rq := st.mem[fieldAddr(b, a.bm, a.iBReq)]; rq != q {
				a.add(pos, "interceptor order", fr, st, "an interceptor is linked into the chain of a request that it does not refer to")
				return
			}
			from := a.poss(st, st.mem[a.stateOf(q)])
			if within(from, a.rsNew, a.rsPend) || st.g("cas", q) == a.name(a.rsFly) {
				ok(pos, "interceptor attached late", "attached in "+a.names(from))
			} else {
				a.add(pos, "interceptor attached late", fr, st, "an interceptor is attached to a request that may be %s", a.names(from))
			}
		}
	}
	m.Call = func(x *Exec, st *State, fr *Frame, ci *CallInfo) ([]Outcome, bool) {
		if ci.Method == nil || ci.Fn != nil {
			return nil, false
		}
		if f := a.bmMeth[ci.Method.Name()]; f != nil && types.Identical(recvIface(ci), a.bmIface) {
			args := append([]*Term{a.bmOf(ci.Recv)}, ci.Args...)
			return x.call(st, f, args, nil, fr, ci.Instr, false), true
		}
		if ci.Method.Name() != "Respond" {
			return nil, false
		}
		pos := ci.Instr.Pos()
		kind, q := a.target(st, ci)
		switch kind {
		case "receiver":
			a.sites["receiver"]++
			cur := a.poss(st, st.mem[a.stateOf(q)])
			if st.mem[a.stateOf(q)] == nil {
				cur = a.all
			}
			own := st.g("own", q) != "" && (a.locked(st, q) && within(cur, a.rsPrep, a.rsPerf) || st.g("ver", q) != "")
			switch {
			case st.g("ntf", q) != "":
				a.add(pos, "receiver notified twice", fr, st, "the receiver of a request is notified twice on one path")
			case st.g("own", q) == "":
				a.add(pos, "notified without owning the answer", fr, st, "the receiver is notified by a path that did not make the transition to Prepared")
			case !own:
				a.add(pos, "notified without owning the answer", fr, st, "the receiver is notified although the request may be %s again: an interceptor may have put it back", a.names(cur))
			default:
				ok(pos, "receiver notified twice", "receiver notified by the owner of the answer")
			}
			if c := st.mem[a.chainOf(q)]; c == nil || !(c.isNil() || st.isNilFact(c) == 1) {
				a.add(pos, "receiver before interceptors", fr, st, "the receiver is notified although the chain of interceptors may not be empty")
			} else {
				ok(pos, "receiver before interceptors", "receiver notified with an empty chain")
			}
			st.setG("ntf", q, "1")
		case "interceptor":
			a.sites["interceptor"]++
			if q == nil {
				a.add(pos, "interceptor notified", fr, st, "an interceptor is notified although it is not known to be in the chain of the request being answered")
				return nil, false
			}
			cur := a.poss(st, st.mem[a.stateOf(q)])
			if st.mem[a.stateOf(q)] == nil {
				cur = a.all
			}
			switch {
			case !a.locked(st, q) || !within(cur, a.rsPrep):
				a.add(pos, "interceptor notified", fr, st, "an interceptor is notified although the request may be %s", a.names(cur))
			case st.mem[a.chainOf(q)] != ci.Recv:
				a.add(pos, "interceptor notified", fr, st, "the notified interceptor is not known to be the first of the chain")
			case st.g("top", q) != "":
				a.add(pos, "interceptor notified", fr, st, "an interceptor may be notified twice: it is still the first of the chain")
			default:
				ok(pos, "interceptor notified", "first interceptor of the chain notified")
			}
			st.setG("top", q, "1")
		}
		return nil, false
	}
	check := func(x *Exec, st *State, fr *Frame, q *Term, pos token.Pos) {
		cur := a.poss(st, st.mem[a.stateOf(q)])
		if st.mem[a.stateOf(q)] == nil {
			cur = a.all
		}
		if st.g("ntf", q) != "" && st.g("perf", q) == "" {
			a.add(pos, "answer left open", fr, st, "the receiver was notified but the request is not marked as performed: it can be put back and answered again")
		}
		if st.g("own", q) != "" && st.g("ntf", q) == "" {
			if within(cur, a.rsNew, a.rsPend, a.rsFly, a.rsPerf) {
				ok(pos, "answer withheld", "put back by an interceptor")
			} else {
				a.add(pos, "answer withheld", fr, st, "the request was prepared for its answer and may stay so, but its receiver is not notified")
			}
		}
	}
	m.Lock = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, op string, addr *Term) {
		q := a.fld(addr, a.reqKey, a.iMut)
		if q == nil {
			return
		}
		if op == "unlock" {
			if st.g("ntf", q) != "" || st.g("own", q) == "" {
				check(x, st, fr, q, in.Pos())
			}
			if st.g("own", q) != "" {
				if v := st.mem[a.stateOf(q)]; v != nil && within(a.poss(st, v), a.rsPrep, a.rsPerf) {
					st.setG("ver", q, "1")
				}
				if v := st.mem[a.stateOf(q)]; v != nil && within(a.poss(st, v), a.rsNew, a.rsPend, a.rsFly, a.rsPerf) && st.g("ntf", q) == "" {
					st.setG("back", q, "1") // put back by an interceptor
					st.setG("own", q, "")
				}
			}
			// what the operation saw last
			if v := st.mem[a.stateOf(q)]; v != nil {
				st.vals[gk("seen", q)] = v
			}
		}
	}
	m.End = func(x *Exec, o *Outcome) {
		if o.kind != OutReturn {
			return
		}
		st := o.st
		pos := o.pos
		st.eachG("own", func(q *Term, v string) { check(x, st, nil, q, pos) })
		fn := x.root
		obj := fn.Object()
		if obj == nil || fn.Signature.Recv() == nil || namedOf(fn.Signature.Recv().Type()) == nil ||
			!types.Identical(namedOf(fn.Signature.Recv().Type()), a.req) || x.self == nil {
			return
		}
		q := x.self
		own := st.g("own", q)
		if own == "" && st.g("perf", q) != "" {
			own = "?"
		}
		switch obj.Name() {
		case "RespondBytes":
			a.sites["answer operation"]++
			if own != "" && own != a.name(a.rsFly) {
				a.add(pos, "data accepted outside of work", nil, st, "a reply with data is accepted when the request may be %s", own)
			} else {
				ok(pos, "data accepted outside of work", "data accepted only in InFly")
			}
			if own == "" && st.g("back", q) == "" && !a.excluded(st, q, a.rsFly) {
				a.add(pos, "failure not delivered", nil, st, "a reply with data may be ignored although the request is in work")
			}
		case "RespondFail":
			a.sites["answer operation"]++
			if own == "" && st.g("back", q) == "" && !a.excluded(st, q, a.rsNew, a.rsPend, a.rsFly) {
				a.add(pos, "failure not delivered", nil, st, "a failure may be ignored although the request is not answered yet")
			} else {
				ok(pos, "failure not delivered", "failure answers every open state")
			}
		case "SetInFly", "SetPending":
			a.sites["take operation"]++
			want := a.rsFly
			if obj.Name() == "SetPending" {
				want = a.rsPend
			}
			did := st.g("cas", q) == a.name(want)
			if len(o.vals) == 1 {
				if b, isB := o.vals[0].isBool(); !isB || b != did {
					a.add(pos, "wrong result", nil, st, "%s reports %v, transition made: %v", obj.Name(), o.vals[0], did)
				} else {
					ok(pos, "wrong result", obj.Name()+" reports what it did")
				}
			}
		case "Performed", "Canceled", "IsPending":
			if len(o.vals) != 1 {
				return
			}
			last := st.vals[gk("last", q)]
			for _, d := range a.poss(st, last) {
				want := d == a.rsPrep || d == a.rsPerf
				if obj.Name() == "IsPending" {
					want = d == a.rsPend
				}
				s2 := st.clone()
				if last == nil {
					break
				}
				if !s2.assume(eqTerm(last, num(d))) {
					continue
				}
				if e := s2.eval(o.vals[0]); e != -1 && (e == 1) != want {
					a.add(pos, "wrong result", nil, st, "%s is %v in state %s", obj.Name(), e == 1, a.name(d))
				}
			}
		}
	}
	var roots []*ssa.Function
	for _, fn := range P.Roots(P.Lib()...) {
		if a.bmMeth[fn.Name()] == fn {
			continue // called only through the interface, followed at each call
		}
		roots = append(roots, fn)
	}
	runRoots(P, r, m, roots)
	for k, v := range a.sites {
		r.Counts["events: "+k] = v
	}
	r.Floor("state transitions", a.sites["transition"], 6)
	r.Floor("notifications of receivers", a.sites["receiver"], 1)
	r.Floor("notifications of interceptors", a.sites["interceptor"], 1)
	r.Floor("changes of the chain", a.sites["chain"], 2)
	r.Floor("answer operations", a.sites["answer operation"], 2)
	r.Floor("take operations", a.sites["take operation"], 2)
}

func recvIface(ci *CallInfo) types.Type {
	if ci.Common != nil && ci.Common.Value != nil {
		return ci.Common.Value.Type()
	}
	return types.Typ[types.Invalid]
}

// excluded: the operation looked at the state (under the lock, or it is final)
// and it was none of the given ones.
func (a *ansM) excluded(st *State, q *Term, set ...int64) bool {
	v := st.vals[gk("seen", q)]
	if v == nil {
		v = st.vals[gk("last", q)]
	}
	if v == nil {
		return false
	}
	for _, d := range a.poss(st, v) {
		for _, s := range set {
			if d == s {
				return false
			}
		}
	}
	return true
}

// target classifies a notification.
func (a *ansM) target(st *State, ci *CallInfo) (string, *Term) {
	t := recvIface(ci)
	org := ci.Recv.Org
	if org != nil {
		if q := a.fld(org, a.reqKey, a.iRcv); q != nil {
			return "receiver", q
		}
	}
	if types.Identical(t, a.bmIface) {
		q := st.mem[fieldAddr(a.bmOf(ci.Recv), a.bm, a.iBReq)]
		return "interceptor", q
	}
	return "", nil
}

func (s *State) locked(addr *Term) bool { return s.protected(addr) }
