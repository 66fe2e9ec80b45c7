package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

// R08: a multi-request completes exactly when all its requests are answered.

func init() {
	register(&checkDef{id: "R08", run: checkMulti,
		rule:  "typestate of a multi-request, path by path: each answer is delivered exactly once (saved under the lock while no result channel is published, or sent to the published channel) and then counted exactly once; the result channel is closed only by the path that knows that the count reached the number of requests, after its own answer was sent, and it is closed by every such path; the collecting operations hand out every saved answer, return or close only when the count is known to have reached the number of requests or after having been woken for it, and publish the channel as their last step under the lock; a new request is listed at the index it has as id, counted, and only then the failed state is looked at, and a failed multi-request fails it; cancelling and expiring mark the multi-request first and then fail every listed request unless all are known to be answered",
		assum: []string{"one goroutine issues the requests of a multi-request and collects its results (documented use)"}})
}

type multiM struct {
	P                             *Program
	r                             *Report
	t                             types.Type
	key                           string
	m, c, n, reqs, resp, ch, kind int
	failed, wait                  int64
	req, resT                     types.Type
	sites                         map[string]int
	each                          *eachM
	requestIssue                  *ssa.Function
	earlySignal                   token.Pos
	earlySt                       *State
	unretested                    bool
}

func newMultiM(P *Program, r *Report) *multiM {
	q := &multiM{P: P, r: r, t: P.Type("", "MultiRequest"), req: P.Type("", "Request"), resT: P.Type("", "MultiResponse"), sites: map[string]int{}}
	if q.t == nil || q.req == nil || q.resT == nil {
		r.Add(0, "undecided", "", nil, "types MultiRequest, MultiResponse or Request not found")
		return nil
	}
	q.key = types.TypeString(q.t, nil)
	s := under(q.t).(*types.Struct)
	q.m = mutexField(s)
	q.c, q.n, q.kind = structField(q.t, "c"), structField(q.t, "r"), structField(q.t, "kind")
	q.reqs, q.resp, q.ch = -1, -1, -1
	for i := 0; i < s.NumFields(); i++ {
		switch ft := s.Field(i).Type(); {
		case types.Identical(ft, q.resT):
			q.resp = i
		default:
			if sl, ok := ft.(*types.Slice); ok && types.Identical(sl.Elem(), types.NewPointer(q.req)) {
				q.reqs = i
			}
			if _, ok := ft.(*types.Chan); ok {
				q.ch = i
			}
		}
	}
	a, ok1 := P.Const("", "mrCancel")
	b, ok2 := P.Const("", "mrExpire")
	w, ok3 := P.Const("", "mrWait")
	q.failed, q.wait = a|b, w
	if !ok1 || !ok2 || !ok3 || q.m < 0 || q.c < 0 || q.n < 0 || q.kind < 0 || q.reqs < 0 || q.resp < 0 || q.ch < 0 {
		r.Add(0, "undecided", "", nil, "the fields of MultiRequest were not recognised")
		return nil
	}
	return q
}

func (q *multiM) fld(addr *Term, i int) *Term {
	if addr != nil && addr.Op == TField && addr.N == i && fieldOwner[addr] == q.key {
		return addr.Args[0]
	}
	return nil
}

// orgFld: the object whose field the value was loaded from.
func (q *multiM) orgFld(v *Term, i int) *Term {
	if v == nil || v.Org == nil {
		return nil
	}
	return q.fld(v.Org, i)
}

// full: the count of answers is known to have reached the number of requests.
func (q *multiM) full(st *State, w *Term) bool {
	ca, na := fieldAddr(w, q.t, q.c), fieldAddr(w, q.t, q.n)
	var cs, ns []*Term
	if v := st.mem[ca]; v != nil {
		cs = append(cs, v)
	}
	if v := st.mem[na]; v != nil {
		ns = append(ns, v)
	}
	st.symsOf(func(o *Term) bool { return o == ca }, func(v *Term) { cs = append(cs, v) })
	st.symsOf(func(o *Term) bool { return o == na }, func(v *Term) { ns = append(ns, v) })
	if v := st.vals[gk("counted", w)]; v != nil {
		cs = []*Term{v}
	}
	for _, c := range cs {
		for _, n := range ns {
			if st.prove(sub(c, n)) {
				return true
			}
		}
	}
	return false
}

// notFull: some requests are known to be unanswered.
func (q *multiM) notFull(st *State, w *Term) bool {
	c := st.vals[gk("counted", w)]
	if c == nil {
		return false
	}
	na := fieldAddr(w, q.t, q.n)
	res := false
	st.symsOf(func(o *Term) bool { return o == na }, func(n *Term) {
		if st.eval(eqTerm(c, n)) == 0 {
			res = true
		}
	})
	return res
}

func isMethodOf(fn *ssa.Function, t types.Type) bool {
	if fn == nil || fn.Signature.Recv() == nil {
		return false
	}
	n := namedOf(fn.Signature.Recv().Type())
	return n != nil && types.Identical(n, t)
}

// failCall: the call answers a request with a failure code.
func (q *multiM) failCall(ci *CallInfo) *Term {
	if ci.Fn == nil || !isMethodOf(ci.Fn, q.req) || len(ci.Args) == 0 {
		return nil
	}
	switch ci.Fn.Name() {
	case "Cancel", "Expire", "IOError", "ShutDown", "RespondFail":
		return ci.Args[0]
	}
	return nil
}

func checkMulti(P *Program, r *Report) {
	q := newMultiM(P, r)
	if q == nil {
		return
	}
	q.each = newEach(func(pos token.Pos, fr *Frame, st *State, el *Term) {
		fn := ""
		if fr != nil {
			fn = fnName(fr.fn)
		}
		what := "an answer that was saved is not handed out"
		if types.Identical(el.Typ, types.NewPointer(q.req)) {
			what = "a listed request is not failed"
		}
		r.Add(pos, "element left out", fn, st, "%s", what)
	})
	mon := &Monitor{Name: "multi", Unroll: -1, NoLockCk: true, JoinAt: 200, JoinBlk: 200}
	reqKey, idF := types.TypeString(q.req, nil), structField(q.req, "Id")
	mon.Volatile = func(x *Exec, st *State, addr *Term) bool {
		w := q.fld(addr, q.c)
		return w != nil && !st.holds(fieldAddr(w, q.t, q.m))
	}
	mon.Relevant = func(fn *ssa.Function) bool {
		return P.CG().Reaches("multi", fn, func(in ssa.Instruction) bool {
			switch v := in.(type) {
			case *ssa.FieldAddr:
				k, _ := keyOfFA(v)
				return k.owner == q.key || k.owner == reqKey && v.Field == idF && isStored(v)
			}
			return false
		}) && !isMethodOf(fn, q.req)
	}
	returnsReq := func(x *Exec) bool {
		sig := x.root.Signature
		return isMethodOf(x.root, q.t) && sig.Results().Len() == 1 && types.Identical(sig.Results().At(0).Type(), types.NewPointer(q.req))
	}
	locked := func(st *State, w *Term) bool { return st.holds(fieldAddr(w, q.t, q.m)) }
	isRespond := func(x *Exec) bool {
		return x.self != nil && isMethodOf(x.root, q.t) && x.root.Name() == "Respond" && len(x.args) == 2
	}
	kindFailed := func(st *State, w *Term) bool { return st.g("failed", w) != "" }
	// infeasible: marked as failed, but read as neither cancelled nor expired
	infeasible := func(st *State, w *Term) bool {
		if !kindFailed(st, w) {
			return false
		}
		since, _ := st.vals[gk("failedat", w)].isInt()
		ka := fieldAddr(w, q.t, q.kind)
		zero := map[*Term]int64{}
		bad := false
		st.eachFact(func(f *Term) bool {
			f.walk(func(y *Term) bool {
				if y.Op == TBin && y.Aux == "&" && len(y.Args) == 2 {
					a, b := y.Args[0], y.Args[1]
					k, ok := a.isInt()
					if ok {
						a = b
					} else {
						k, ok = b.isInt()
					}
					if ok && a.Op == TSym && a.Org == ka && int64(a.Seq) > since && st.eval(eqTerm(y, num(0))) == 1 {
						zero[w] |= k
					}
				}
				return true
			})
			return true
		})
		if zero[w]&q.failed == q.failed {
			bad = true
		}
		return bad
	}
	mon.Loaded = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, addr, val *Term) {
		if w := q.fld(addr, q.resp); w != nil && in != nil && !val.isNil() && val.Op == TSym {
			if isMethodOf(x.root, q.t) && !isRespond(x) {
				q.each.add(st, val, w, nil)
			}
		}
		if w := q.fld(addr, q.reqs); w != nil && in != nil && val.Op == TSym {
			n := st.vals[gk("rload", w)]
			q.each.add(st, val, w, n)
		}
		if w := q.fld(addr, q.n); w != nil && in != nil {
			st.vals[gk("rload", w)] = val
			if isMethodOf(x.root, q.t) && (x.root.Name() == "Cancel" || x.root.Name() == "Expire") && x.self == w && !kindFailed(st, w) {
				st.setG("early", w, "1")
			}
		}
		if c := q.each.of(st, addr); c != nil && in != nil {
			o := st.vals[gk("collown", c)]
			if q.orgFld(c, q.resp) == o {
				q.each.taken(st, in, val)
			} else if kindFailed(st, o) {
				q.each.taken(st, in, val)
				if n := st.vals[gk("colllen", c)]; n != nil && n.Op != TLin && stripConv(n).Op == TSym && stripConv(n).Org != nil && stripConv(n).Seq > c.Seq && c.Seq > 0 {
					r.Add(in.Pos(), "count read after the list", fnName(fr.fn), st, "the number of requests is read after the list of requests, which may be shorter")
				}
			}
			if ia, ok := addrInstr(in).(*ssa.IndexAddr); ok && startsLate(ia.Index) && (q.orgFld(c, q.resp) == o || kindFailed(st, o)) {
				r.Add(in.Pos(), "element left out", fnName(fr.fn), st, "the first elements are left out")
			}
		}
	}
	mon.Append = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, res, dst, src *Term) {
		if w := q.orgFld(dst, q.resp); w != nil {
			st.vals[gk("appended", res.Args[0])] = dst
			if n, ok := lenOf(src, src.Typ).isInt(); ok && src.Op == TSlice {
				if n == 1 {
					st.vals[gk("appval", res.Args[0])] = st.mem[indexAddr(src.Args[0], src.Args[1], types.NewPointer(q.P.Type("", "Response")))]
				}
			}
		}
		if w := q.orgFld(dst, q.reqs); w != nil {
			st.vals[gk("listed", res.Args[0])] = lenOf(dst, dst.Typ)
			pt := types.NewPointer(q.req)
			if n, ok := lenOf(src, src.Typ).isInt(); ok && src.Op == TSlice && n == 1 {
				if v := st.mem[indexAddr(src.Args[0], src.Args[1], pt)]; v != nil && returnsReq(x) {
					st.setG("inlist", v, "1")
				}
			}
		}
	}
	mon.Copy = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, dst, src, n *Term) {
		if q.orgFld(src, q.resp) != nil && dst.Op == TSlice {
			if st.prove(sub(lenOf(dst, dst.Typ), lenOf(src, src.Typ))) && st.prove(sub(lenOf(src, src.Typ), lenOf(dst, dst.Typ))) {
				st.vals[gk("copyof", dst.Args[0])] = src
			}
		}
	}
	deliver := func(x *Exec, st *State, fr *Frame, pos token.Pos, w, v *Term, how string) {
		if !isRespond(x) || w != x.self {
			return
		}
		q.sites["deliveries"]++
		if v != nil && v != x.args[1] {
			r.Add(pos, "wrong answer delivered", fnName(fr.fn), st, "what is %s is not the answer that was given", how)
			return
		}
		if st.g("dlv", w) != "" {
			r.Add(pos, "delivered twice", fnName(fr.fn), st, "an answer is delivered twice")
		}
		if st.g("cnt", w) != "" {
			r.Add(pos, "counted before delivery", fnName(fr.fn), st, "an answer is counted before it is %s: the result may be complete without it", how)
		}
		st.setG("dlv", w, how)
	}
	mon.Store = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, addr, old, val *Term) {
		if in == nil {
			return
		}
		pos := in.Pos()
		if addr.Op == TField && addr.N == structField(q.req, "Responder") && fieldOwner[addr] == types.TypeString(q.req, nil) && val.Op == TIface && val.Args[0] == x.self {
			st.setG("rcv", addr.Args[0], "1")
		}
		if addr.Op == TField && addr.N == idF && fieldOwner[addr] == reqKey {
			st.vals[gk("id", addr.Args[0])] = val
		}
		if addr.Op == TIndex && returnsReq(x) && storesType(in, types.NewPointer(q.req)) {
			st.setG("inlist", val, "1")
		}
		if w := q.fld(addr, q.kind); w != nil && !st.private(w) {
			bits := int64(0)
			keep := false
			val.walk(func(y *Term) bool {
				if k, ok := y.isInt(); ok && y.Op == TLin {
					bits |= k
				}
				if y.Op == TSym && (q.orgFld(y, q.kind) == w || old != nil && st.eval(eqTerm(old, y)) == 1) {
					keep = true
				}
				return true
			})
			if !isAtomicCall(in, "CompareAndSwap") || !keep || !(val.Op == TBin && val.Aux == "|") {
				r.Add(pos, "mark lost", fnName(fr.fn), st, "the marks of a multi-request are changed to %s, which may lose one that was set meanwhile", val)
			}
			if bits&q.failed != 0 {
				st.setG("failed", w, "1")
				st.vals[gk("failedat", w)] = num(int64(TT.seq))
			}
			if bits&q.wait != 0 {
				st.setG("waits", w, "1")
			}
		}
		if w := q.fld(addr, q.resp); w != nil && !st.private(w) {
			q.sites["saves"]++
			switch {
			case val.Op == TSlice && st.vals[gk("appended", val.Args[0])] != nil:
				if !locked(st, w) {
					r.Add(pos, "saved without lock", fnName(fr.fn), st, "an answer is saved without holding the lock")
				}
				ch := st.mem[fieldAddr(w, q.t, q.ch)]
				if ch == nil || st.isNilFact(ch) != 1 && !ch.isNil() {
					r.Add(pos, "saved too late", fnName(fr.fn), st, "an answer is saved although the result channel may have been published already: nobody would collect it")
				} else {
					r.OK(pos, "answer saved under the lock while no channel is published")
				}
				if st.mem[addr] != nil && q.orgFld(st.vals[gk("appended", val.Args[0])], q.resp) != w {
					r.Add(pos, "answers lost", fnName(fr.fn), st, "the saved answers are replaced")
				}
				deliver(x, st, fr, pos, w, st.vals[gk("appval", val.Args[0])], "saved")
			case val.isNil():
				// handed out
				if v := st.vals[gk("handed", w)]; v == nil && q.sawResp(st, w) == nil {
					r.Add(pos, "answers lost", fnName(fr.fn), st, "the saved answers are dropped without having been handed out")
				}
				if c := q.sawResp(st, w); c != nil && st.vals[gk("chosen", w)] == nil {
					st.setG("drop", w, "1")
				}
			case val.Op == TSlice && st.vals[gk("copyof", val.Args[0])] != nil:
				r.OK(pos, "saved answers moved")
			case q.orgFld(val, q.resp) == w:
			default:
				r.Add(pos, "answers lost", fnName(fr.fn), st, "the saved answers are replaced by %s", val)
			}
		}
		if w := q.fld(addr, q.c); w != nil && !st.private(w) {
			q.sites["counts"]++
			cas := isAtomicCall(in, "Add")
			if !cas && !locked(st, w) {
				r.Add(pos, "count without lock", fnName(fr.fn), st, "the number of answers is changed neither under the lock nor atomically")
			}
			if base := plusOneOf(val); base == nil || q.orgFld(base, q.c) != w || !cas && base != old && int64(base.Seq) <= acqSeq(st, w) {
				r.Add(pos, "count wrong", fnName(fr.fn), st, "an answer changes the count to %s", val)
			}
			if st.g("cnt", w) != "" {
				r.Add(pos, "counted twice", fnName(fr.fn), st, "one answer is counted twice")
			}
			if cas && st.g("dlv", w) != "sent" && isRespond(x) {
				r.Add(pos, "counted before delivery", fnName(fr.fn), st, "an answer is counted before it is delivered: the result channel may be closed without it")
			} else {
				r.OK(pos, "answer counted with its delivery")
			}
			st.setG("cnt", w, "1")
			st.vals[gk("counted", w)] = val
			st.vals[gk("wascounted", w)] = val
		}
		if w := q.fld(addr, q.ch); w != nil && !st.private(w) {
			q.sites["channels"]++
			if !locked(st, w) {
				r.Add(pos, "published without lock", fnName(fr.fn), st, "the result channel is published without holding the lock")
			} else {
				r.OK(pos, "result channel published under the lock")
			}
			st.setG("pub", w, "1")
			st.vals[gk("pubch", w)] = val
			if val.Op == TAlloc || st.vals[fmt.Sprint("chancap:", val.ID)] != nil {
				ok := false
				if c := st.vals[fmt.Sprint("chancap:", val.ID)]; c != nil {
					na := fieldAddr(w, q.t, q.n)
					c2 := stripConv(c)
					if c2.Org == na {
						ok = true
					}
					st.symsOf(func(o *Term) bool { return o == na }, func(n *Term) {
						if st.prove(sub(c, n)) {
							ok = true
						}
					})
					if n := st.mem[na]; n != nil && st.prove(sub(c, n)) {
						ok = true
					}
				}
				if !ok {
					r.Add(pos, "channel too small", fnName(fr.fn), st, "the result channel has no room for all answers: answering would block")
				} else {
					r.OK(pos, "result channel has room for every answer")
				}
			}
		}
		if w := q.fld(addr, q.reqs); w != nil && !st.private(w) && val.Op == TSlice {
			q.sites["listings"]++
			st.setG("list", w, "listed")
			st.vals[gk("listval", w)] = val
			if oldv := st.vals[gk("listed", val.Args[0])]; oldv != nil {
				st.vals[gk("listidx", w)] = oldv
			} else if n, ok := lenOf(val, val.Typ).isInt(); ok && n >= 1 {
				st.vals[gk("listidx", w)] = num(n - 1)
				if old != nil && st.eval(eqTerm(lenOf(old, val.Typ), num(n-1))) != 1 {
					r.Add(pos, "requests lost", fnName(fr.fn), st, "the list of requests is replaced although it may not be empty")
				}
			} else if st.eval(eqTerm(lenOf(val, val.Typ), num(0))) == 1 && old != nil && st.eval(eqTerm(lenOf(old, val.Typ), num(0))) == 1 {
				st.setG("list", w, "")
			} else {
				r.Add(pos, "requests lost", fnName(fr.fn), st, "the list of requests is replaced")
			}
		}
		if w := q.fld(addr, q.n); w != nil && !st.private(w) {
			l := st.vals[gk("listval", w)]
			switch {
			case st.g("list", w) != "listed" || l == nil:
				r.Add(pos, "counted before listed", fnName(fr.fn), st, "a request is counted before it is in the list")
			case !sameInt(st, val, lenOf(l, l.Typ)):
				r.Add(pos, "count wrong", fnName(fr.fn), st, "the number of requests becomes %s, not the length of the list", val)
			default:
				r.OK(pos, "request listed, then counted")
			}
			st.setG("list", w, "counted")
			st.vals[gk("countedat", w)] = num(int64(TT.seq))
		}
	}
	mon.Chan = func(x *Exec, st *State, fr *Frame, ev *ChanEv) {
		if ev.Ch == nil {
			return
		}
		pos := ev.Instr.Pos()
		w := q.orgFld(ev.Ch, q.ch)
		if w == nil && chanElem(ev) != nil && types.Identical(chanElem(ev), types.NewPointer(P.Type("", "Response"))) && x.self != nil && isMethodOf(x.root, q.t) {
			w = x.self
		}
		if w == nil {
			return
		}
		switch ev.Kind {
		case "send":
			if q.each.served(st, ev.Val) {
				return
			}
			if st.isNilFact(ev.Ch) == 1 {
				r.Add(pos, "lost", fnName(fr.fn), st, "an answer is sent to a channel that is nil")
			}
			deliver(x, st, fr, pos, w, ev.Val, "sent")
		case "close":
			q.sites["closes"]++
			switch {
			case st.g("clo", ev.Ch) != "":
				r.Add(pos, "closed twice", fnName(fr.fn), st, "the result channel is closed twice")
			case isRespond(x) && st.g("dlv", w) != "sent":
				r.Add(pos, "closed early", fnName(fr.fn), st, "the result channel is closed before the answer was sent")
			case !q.full(st, w):
				r.Add(pos, "closed early", fnName(fr.fn), st, "the result channel is closed although not all requests are known to be answered")
			case isRespond(x) && (st.vals[gk("counted", w)] == nil || st.g("cnt", w) == ""):
				r.Add(pos, "closed twice", fnName(fr.fn), st, "the result channel is closed by a path that did not count the last answer itself")
			case isRespond(x) && !st.exactCount(q, w):
				r.Add(pos, "closed twice", fnName(fr.fn), st, "the result channel is closed by a path that does not know that it counted the last answer: another path may close it too")
			case !isRespond(x) && (!locked(st, w) || st.g("pub", w) != ""):
				r.Add(pos, "closed twice", fnName(fr.fn), st, "the result channel is closed after it was published: the path of the last answer may close it too")
			default:
				r.OK(pos, "result channel closed by the path of the last answer")
			}
			if !isRespond(x) {
				st.eachG("each", func(c *Term, v string) {
					if q.orgFld(c, q.resp) == w && !q.each.ended(st, c) {
						r.Add(pos, "closed early", fnName(fr.fn), st, "the result channel is closed before every saved answer was put into it")
					}
				})
			}
			st.setG("clo", ev.Ch, "1")
			st.setG("done", w, "1")
		}
	}
	mon.Lock = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, op string, addr *Term) {
		if addr.Op != TField || fieldOwner[addr] != q.key {
			return
		}
		w := addr.Args[0]
		switch op {
		case "locked":
			st.vals[gk("acq", w)] = num(int64(TT.seq))
		case "condSignal", "condBroadcast":
			if !q.full(st, w) && !q.earlySignal.IsValid() {
				q.earlySignal, q.earlySt = in.Pos(), st.clone()
			}
		case "condWaited":
			st.setG("woken", w, "1")
			st.vals[gk("wokenat", w)] = num(int64(TT.seq))
		case "unlock":
			if st.g("drop", w) != "" && st.g("waits", w) == "" {
				// handed out through the channel: all must have been seen
				st.eachG("each", func(c *Term, v string) {
					if q.orgFld(c, q.resp) == w && !q.each.ended(st, c) {
						r.Add(in.Pos(), "answers lost", fnName(fr.fn), st, "the saved answers are dropped although not all of them were handed out")
					}
				})
			}
			if isMethodOf(x.root, q.t) && x.root.Signature.Results().Len() == 1 && st.g("pub", w) != "" && st.g("done", w) == "" {
				// nobody but this path can close when everything was answered before
				if !st.countDiffers(q, w) {
					r.Add(in.Pos(), "never closed", fnName(fr.fn), st, "the result channel is published and stays open although all requests may have been answered already")
				}
			}
		}
	}
	mon.Branch = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, cond *Term, taken bool) {
		q.each.branch(st, cond, taken)
		// marks read from the multi-request
		f := cond
		if !taken {
			f = not(cond)
		}
		f.walk(func(y *Term) bool {
			if y.Op == TBin && y.Aux == "&" && len(y.Args) == 2 {
				a, b := y.Args[0], y.Args[1]
				k, ok := b.isInt()
				if !ok {
					k, ok = a.isInt()
					a = b
				}
				w := q.orgFld(a, q.kind)
				if ok && w != nil && k&^q.failed == 0 && st.eval(eqTerm(y, num(0))) == 0 && !kindFailed(st, w) {
					st.setG("failed", w, "1")
					st.vals[gk("failedat", w)] = num(int64(a.Seq - 1))
				}
				if ok && w != nil && k&q.failed != 0 {
					if at := st.vals[gk("countedat", w)]; at != nil {
						if n, _ := at.isInt(); int64(a.Seq) > n {
							b, _ := strconv.ParseInt(st.g("looked", w), 10, 64)
							if b |= k; kindFailed(st, w) {
								b = q.failed
							}
							st.setG("looked", w, fmt.Sprint(b&q.failed))
						}
					}
				}
			}
			return true
		})
		if x.self != nil && infeasible(st, x.self) {
			st.setG("nofeas", x.self, "1")
			st.eachG("el", func(el *Term, k string) { st.setG("el", el, "") })
		}
	}
	mon.BackEdge = func(x *Exec, st *State, fr *Frame, h *ssa.BasicBlock) {
		q.each.backEdge(x, st, fr, h)
		st.eachG("fld", func(v *Term, s string) { st.setG("fld", v, "") })
	}
	// the list and its length are changed only by the goroutine that issues requests
	mon.Keep = func(x *Exec, st *State, addr *Term, ci *CallInfo) bool {
		return x.self != nil && returnsReq(x) && (q.fld(addr, q.reqs) == x.self || q.fld(addr, q.n) == x.self)
	}
	mon.Call = func(x *Exec, st *State, fr *Frame, ci *CallInfo) ([]Outcome, bool) {
		if v := q.failCall(ci); v != nil {
			q.sites["requests failed"]++
			q.each.served(st, v)
			if isMethodOf(x.root, q.t) {
				st.setG("fld", v, "1")
			}
		}
		return nil, false
	}
	mon.End = func(x *Exec, o *Outcome) {
		if o.kind != OutReturn || !isMethodOf(x.root, q.t) || x.self == nil {
			return
		}
		st, w, pos := o.st, x.self, o.pos
		name := fnName(x.root)
		q.each.end(st, nil)
		if isRespond(x) {
			if st.g("dlv", w) == "" {
				r.Add(pos, "answer lost", name, st, "an answer is neither saved nor sent")
			}
			if st.g("cnt", w) == "" {
				r.Add(pos, "answer not counted", name, st, "an answer is not counted: the multi-request never completes")
			}
			if st.g("dlv", w) == "sent" && st.g("done", w) == "" && st.g("cnt", w) != "" && !q.notFull(st, w) {
				r.Add(pos, "never closed", name, st, "the last answer may leave the result channel open")
			} else {
				r.OK(pos, "answer delivered and counted once")
			}
			return
		}
		sig := x.root.Signature
		if sig.Results().Len() == 1 && types.Identical(sig.Results().At(0).Type(), q.resT) {
			q.sites["collections"]++
			v := o.vals[0]
			own := q.orgFld(v, q.resp)
			if own != w && !(v.Op == TSlice && st.vals[gk("copyof", v.Args[0])] != nil) {
				r.Add(pos, "answers lost", name, st, "the collected answers are not the saved ones but %s", v)
			}
			switch {
			case q.full(st, w):
				r.OK(pos, "collected with all requests known to be answered")
			case st.g("woken", w) != "":
				if own == w {
					if n, _ := st.vals[gk("wokenat", w)].isInt(); int64(v.Seq) <= n {
						r.Add(pos, "answers lost", name, st, "the collected answers were read before the last one was saved")
					}
				}
				q.unretested = true
				r.OK(pos, "collected after having been woken")
			default:
				r.Add(pos, "returns early", name, st, "the results are returned although requests may be unanswered")
			}
		}
		if sig.Results().Len() == 1 {
			if _, ok := under(sig.Results().At(0).Type()).(*types.Chan); ok {
				q.sites["result channels"]++
				if p := st.vals[gk("pubch", w)]; p != o.vals[0] {
					r.Add(pos, "answers lost", name, st, "the returned channel is not the one that answers are sent to")
				}
				c := st.vals[gk("dropseen", w)]
				_ = c
			}
		}
		if returnsReq(x) && st.g("list", w) != "" {
			q.sites["requests issued"]++
			v := o.vals[0]
			l := st.vals[gk("listval", w)]
			idx := st.vals[gk("listidx", w)]
			if st.g("list", w) != "counted" {
				r.Add(pos, "request not counted", name, st, "a request is issued without being counted: the multi-request completes without it")
			}
			if l != nil && idx != nil {
				if st.g("inlist", v) == "" {
					r.Add(pos, "request not listed", name, st, "the request that is returned is not the one in the list")
				}
				if id := st.vals[gk("id", v)]; id != nil && !sameInt(st, id, idx) {
					r.Add(pos, "wrong id", name, st, "a request is listed at %s but has the id %s: its answer clears another entry", idx, id)
				}
			}
			if st.g("rcv", v) == "" {
				r.Add(pos, "answer lost", name, st, "the receiver of an issued request is not the multi-request")
			}
			switch {
			case st.g("looked", w) != fmt.Sprint(q.failed):
				r.Add(pos, "issued to a failed multi-request", name, st, "a request is issued without looking, after it was counted, whether the multi-request failed meanwhile")
			case kindFailed(st, w) && st.g("fld", v) == "" && st.g("nofeas", w) == "":
				r.Add(pos, "issued to a failed multi-request", name, st, "a request of a failed multi-request stays unanswered")
			default:
				r.OK(pos, "request listed, counted and checked against failure")
			}
		}
		if n := x.root.Name(); n == "Cancel" || n == "Expire" {
			q.sites["failures"]++
			if !kindFailed(st, w) {
				r.Add(pos, "failure not marked", name, st, "%s does not mark the multi-request: requests issued later are not failed", n)
				return
			}
			if st.g("early", w) != "" {
				r.Add(pos, "marked too late", name, st, "%s reads the number of requests before it marks the multi-request: a request issued between is not failed", n)
			}
			all := false
			st.eachG("each", func(c *Term, v string) {
				if q.orgFld(c, q.reqs) == w && q.each.ended(st, c) {
					all = true
				}
			})
			if all || q.full(st, w) || st.g("nofeas", w) != "" {
				r.OK(pos, "every listed request failed")
			} else {
				r.Add(pos, "requests left unanswered", name, st, "%s returns although not every listed request was failed", n)
			}
		}
	}
	var roots []*ssa.Function
	for _, fn := range P.Roots("") {
		if mon.Relevant(fn) {
			roots = append(roots, fn)
		}
	}
	runRoots(P, r, mon, roots)
	if q.unretested && q.earlySignal.IsValid() {
		r.Add(q.earlySignal, "woken early", "", q.earlySt, "the collecting goroutine, which does not look again, is woken although not all requests are known to be answered")
	}
	for k, v := range q.sites {
		r.Counts["events: "+k] = v
	}
	r.Floor("deliveries", q.sites["deliveries"], 2)
	r.Floor("counts", q.sites["counts"], 2)
	r.Floor("closes", q.sites["closes"], 2)
	r.Floor("collections", q.sites["collections"], 1)
	r.Floor("requests issued", q.sites["requests issued"], 1)
	r.Floor("failures", q.sites["failures"], 2)
}

// sawResp: the value of the saved answers that this path looked at.
func (q *multiM) sawResp(st *State, w *Term) *Term {
	var res *Term
	st.eachG("each", func(c *Term, v string) {
		if q.orgFld(c, q.resp) == w {
			res = c
		}
	})
	if res == nil {
		if v := st.mem[fieldAddr(w, q.t, q.resp)]; v != nil {
			res = v
		}
	}
	return res
}

// exactCount: the counted value is known to equal the number of requests.
func (st *State) exactCount(q *multiM, w *Term) bool {
	c := st.vals[gk("counted", w)]
	na := fieldAddr(w, q.t, q.n)
	res := false
	st.symsOf(func(o *Term) bool { return o == na }, func(n *Term) {
		if st.eval(eqTerm(c, n)) == 1 {
			res = true
		}
	})
	return res
}

// countDiffers: count and number of requests are known to differ.
func (st *State) countDiffers(q *multiM, w *Term) bool {
	ca, na := fieldAddr(w, q.t, q.c), fieldAddr(w, q.t, q.n)
	res := false
	st.symsOf(func(o *Term) bool { return o == na }, func(n *Term) {
		st.symsOf(func(o *Term) bool { return o == ca }, func(c *Term) {
			if st.eval(eqTerm(c, n)) == 0 {
				res = true
			}
		})
	})
	return res
}

// plusOneOf: the value that was increased by one.
func plusOneOf(val *Term) *Term {
	v := stripConv(val)
	if v.Op == TBin && v.Aux == "+" && len(v.Args) == 2 {
		for i := range v.Args {
			if n, ok := v.Args[i].isInt(); ok && n == 1 {
				return stripConv(v.Args[1-i])
			}
		}
	}
	if c, ps := linOf(v); c == 1 && len(ps) == 1 && ps[0].K == 1 {
		return stripConv(ps[0].T)
	}
	return nil
}

func acqSeq(st *State, w *Term) int64 {
	if v := st.vals[gk("acq", w)]; v != nil {
		n, _ := v.isInt()
		return n
	}
	return 1 << 60
}

// sameInt: equal up to conversions between integer types.
func sameInt(st *State, a, b *Term) bool {
	return a == b || stripConv(a) == stripConv(b) || st.eval(eqTerm(a, b)) == 1 || st.eval(eqTerm(stripConv(a), stripConv(b))) == 1
}

// addrInstr: the instruction that computed the address of a load.
func addrInstr(in ssa.Instruction) ssa.Instruction {
	u, ok := in.(*ssa.UnOp)
	if !ok {
		return nil
	}
	i, _ := u.X.(ssa.Instruction)
	return i
}

// isStored: the field is written through this address.
func isStored(v *ssa.FieldAddr) bool {
	for _, u := range *v.Referrers() {
		if s, ok := u.(*ssa.Store); ok && s.Addr == v {
			return true
		}
	}
	return false
}

func storesType(in ssa.Instruction, t types.Type) bool {
	s, ok := in.(*ssa.Store)
	return ok && types.Identical(s.Val.Type(), t)
}

// chanElem: the static element type of the channel of an event.
func chanElem(ev *ChanEv) types.Type {
	var t types.Type
	switch v := ev.Instr.(type) {
	case *ssa.Send:
		t = v.Chan.Type()
	case *ssa.UnOp:
		t = v.X.Type()
	case ssa.CallInstruction:
		if len(v.Common().Args) > 0 {
			t = v.Common().Args[0].Type()
		}
	}
	if t == nil {
		return ev.Elem
	}
	if c, ok := under(t).(*types.Chan); ok {
		return c.Elem()
	}
	return nil
}
