package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// M02 and M03: what decoding may touch and take, and what becomes of its
// errors. Every function that is given a reader is analysed on its own, once
// with a reader that has failed and once with one that has not; calls of
// functions that take a reader are replaced by what is proved of them.

func init() {
	register(&checkDef{id: "M02", run: func(P *Program, r *Report) { checkDecode(P, r, false) },
		rule:  "bounds obligations at every index, slice and word access, element access by reflection and allocation on every path of every decoding function, for unknown input and reader state: provably within the input, the destination or a size that was compared with the input before; what replaces the input of a reader is a suffix of it or the result of another decoding call; every loop that reads to the end of the input takes some of it in each round or ends with an error",
		assum: []string{"slices shorter than 2^48 elements", "user-supplied codecs keep to the reader they are given", "destinations are not modified by others meanwhile"}})
	register(&checkDef{id: "M03", run: func(P *Program, r *Report) { checkDecode(P, r, true) },
		rule:  "typestate of readers (failed or not), each decoding function analysed once for each state, with calls of others replaced by this contract: the error of a reader is replaced only when it is nil; with a failed reader nothing is taken from the input and results are zero; a function that returns an error returns that of its reader, and the entry points return that of the decoder they call; a reader made for a part of the input has its error handed on, and the part is used up where the whole must be",
		assum: []string{"user-supplied codecs keep the contract themselves", "a reader is used by one goroutine"}})
}

type decM struct {
	P      *Program
	r      *Report
	rd     types.Type
	errors bool
	eI, bI int
	sites  map[string]int
	errT   types.Type
	bytes  types.Type
	pkg    string
	rec    map[*ssa.Function]bool
}

func (m *decM) bad(pos token.Pos, rule string, fn *ssa.Function, st *State, f string, args ...interface{}) {
	m.r.Add(pos, rule, fnName(fn), st, f, args...)
}

func (m *decM) isReader(t types.Type) bool {
	p, ok := under(t).(*types.Pointer)
	return ok && types.Identical(p.Elem(), m.rd)
}

func (m *decM) errCell(r *Term) *Term  { return fieldAddr(r, m.rd, m.eI) }
func (m *decM) bodyCell(r *Term) *Term { return fieldAddr(r, m.rd, m.bI) }

func newDecM(P *Program, r *Report) *decM {
	m := &decM{P: P, r: r, rd: P.Type("marshal", "Reader"), sites: map[string]int{}, pkg: "marshal", errT: types.Universe.Lookup("error").Type(), bytes: types.NewSlice(types.Typ[types.Uint8])}
	if m.rd == nil {
		r.Add(0, "undecided", "", nil, "the reader was not found")
		return nil
	}
	m.eI, m.bI = structField(m.rd, "Err"), structField(m.rd, "Body")
	if m.eI < 0 || m.bI < 0 {
		r.Add(0, "undecided", "", nil, "the fields of the reader were not found")
		return nil
	}
	return m
}

func checkDecode(P *Program, r *Report, errors bool) {
	m := newDecM(P, r)
	if m == nil {
		return
	}
	m.errors = errors
	n := 0
	for _, fn := range P.Roots("marshal") {
		k := m.readerParam(fn)
		if k < 0 {
			continue
		}
		n++
		if errors && !told(fn.Signature) {
			m.run(fn, k, true)
		}
		m.run(fn, k, false)
	}
	r.Counts["decoding functions"] = n
	r.Floor("decoding functions", n, 60)
	if errors {
		m.entries()
		r.Floor("entry points", m.sites["entry points"], 2)
		r.Floor("errors stored", m.sites["errors stored"], 20)
		r.Floor("parts of the input", m.sites["parts of the input"], 1)
	} else {
		r.Floor("bounds", m.sites["bounds"], 60)
		r.Floor("allocations", m.sites["allocations"], 20)
		r.Floor("loops over the input", m.sites["loops over the input"], 1)
		r.Floor("destinations resized", m.sites["destinations resized"], 2)
	}
	for k, v := range m.sites {
		r.Counts["events: "+k] = v
	}
}

func (m *decM) readerParam(fn *ssa.Function) int {
	for i, p := range fn.Params {
		if m.isReader(p.Type()) {
			return i
		}
	}
	return -1
}

func (m *decM) lone(fn *ssa.Function) bool {
	// small functions without loops are followed instead
	return fn != nil && len(fn.Blocks) > 0 && len(fn.Blocks) <= 9 && len(m.P.loops(fn)) == 0
}

func (P *Program) loops(fn *ssa.Function) (l []*ssa.BasicBlock) {
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l = append(l, s)
			}
		}
	}
	return
}

// readerOf: the reader a call is given.
func (m *decM) readerOf(ci *CallInfo) *Term {
	off := len(ci.Args) - len(ci.Common.Args)
	for i, a := range ci.Common.Args {
		if off+i >= 0 && m.isReader(a.Type()) {
			return ci.Args[off+i]
		}
	}
	return nil
}

func (m *decM) isRd(addr *Term) bool {
	return addr.Op == TField && fieldOwner[addr] == types.TypeString(m.rd, nil)
}

func (m *decM) monitor(root *ssa.Function) *Monitor {
	P := m.P
	mon := &Monitor{Name: "decode", Unroll: -1, NoLockCk: true, JoinAt: 200, JoinBlk: 200, ErrSplit: true, Arith: true, CellLin: true, Facts: !m.errors}
	mon.Relevant = func(fn *ssa.Function) bool {
		return m.readerParam(fn) >= 0 || fn.Signature.Recv() != nil && types.Identical(fn.Signature.Recv().Type(), m.rd)
	}
	mon.Keep = func(x *Exec, st *State, addr *Term, ci *CallInfo) bool { return true }
	if m.pkg == "sbox" {
		mon.EnterAt = 6
		mon.Loaded = m.modeLoaded
		mon.Leave = func(x *Exec, st *State, fr *Frame, o *Outcome) {
			if isMethodOf(fr.fn, m.rd) && fr.parent != nil && P.relPkg(fr.parent.fn) == "sbox" && len(o.vals) == 1 && isIntTerm(o.vals[0]) && o.st.vals["announced"] == nil {
				o.st.vals["announced"] = o.vals[0]
				o.st.mem[sbCell(sbFields)] = num(0)
				if e := x.loadLeaf(o.st, m.errCell(fr.env[fr.fn.Params[0]]), m.errT); o.st.isNilFact(e) == 0 || knownError(e) {
					// kept apart
					o.st.setG("failed", nil, "1")
				}
			}
		}
	}
	mon.Call = func(x *Exec, st *State, fr *Frame, ci *CallInfo) ([]Outcome, bool) {
		if o, ok := m.reflect(x, st, fr, ci); ok {
			return o, true
		}
		if m.pkg == "sbox" && !m.errors {
			m.field(x, st, fr, ci)
		}
		if m.pkg == "sbox" && ci.Fn != nil && P.relPkg(ci.Fn) == "sbox" && !m.recursive(ci.Fn) {
			return nil, false
		}
		r := m.readerOf(ci)
		if r == nil {
			if !m.errors {
				m.counted(x, st, fr, ci)
			}
			return nil, false
		}
		if ci.Fn != nil && m.lone(ci.Fn) && (P.relPkg(ci.Fn) == "marshal" || m.pkg == "sbox") && ci.Fn.Name() != "Read" && !strings.HasPrefix(ci.Fn.Name(), "ReadValue") {
			return nil, false
		}
		return m.contract(x, st, fr, ci, r), true
	}
	mon.Store = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, addr, old, val *Term) {
		if !m.isRd(addr) || addrRoot(addr).Op == TAlloc && st.g("reader", addr.Args[0]) == "" {
			if m.isRd(addr) && addr.N == m.bI && !val.isNil() {
				st.setG("reader", addr.Args[0], "1")
			}
			return
		}
		pos := in.Pos()
		e := x.loadLeaf(st, m.errCell(addr.Args[0]), m.errT)
		ok := e.isNil() || st.isNilFact(e) == 1
		if addr.N == m.eI {
			if !m.errors {
				return
			}
			m.sites["errors stored"]++
			if val != e && !ok {
				m.bad(pos, "error replaced", fr.fn, st, "the error of a reader is replaced although it may have one already")
			} else {
				m.r.OK(pos, "no error before")
			}
			return
		}
		if addr.N != m.bI {
			return
		}
		m.sites["input taken"]++
		if m.errors {
			if !ok {
				m.bad(pos, "taken after error", fr.fn, st, "input is taken from a reader that may have failed")
			} else {
				m.r.OK(pos, "reader has not failed")
			}
			return
		}
		o := x.loadLeaf(st, addr, m.bytes)
		if old != nil {
			o = old
		}
		if val.isNil() || m.suffix(st, o, val) {
			m.r.OK(pos, "a suffix remains")
		} else {
			m.bad(pos, "not a suffix", fr.fn, st, "what remains of the input (%s) is not a suffix of what there was (%s)", val, o)
		}
	}
	return mon
}

func (m *decM) suffix(st *State, old, val *Term) bool {
	if old == val {
		return true
	}
	b, o, l, _ := sliceParts(old, m.bytes)
	b2, o2, l2, _ := sliceParts(val, m.bytes)
	return b == b2 && st.eval(ge0(sub(o2, o))) == 1 && st.eval(eqTerm(add(o, l), add(o2, l2))) == 1
}

// contract: what a decoding function does with its reader.
func (m *decM) contract(x *Exec, st *State, fr *Frame, ci *CallInfo, r *Term) []Outcome {
	m.sites["calls of decoders"]++
	if r.Op == TAlloc {
		st.setG("part", r, "1")
	}
	if ci.Fn == nil && m.errors && told(ci.Common.Signature()) {
		if e := x.loadLeaf(st, m.errCell(r), m.errT); !e.isNil() && st.isNilFact(e) != 1 {
			m.bad(ci.Instr.Pos(), "used after error", fr.fn, st, "a decoder that is told a size is called although the reader may have failed")
		}
	}
	ec, bc := m.errCell(r), m.bodyCell(r)
	e := x.loadLeaf(st, ec, m.errT)
	b := x.loadLeaf(st, bc, m.bytes)
	st.mem[ec], st.mem[bc] = e, b
	x.havocForCall(st, fr, ci)
	st.mem[ec], st.mem[bc] = e, b
	vals := func(s *State, zero bool, err *Term) (l []*Term) {
		for i := 0; i < ci.Common.Signature().Results().Len(); i++ {
			t := ci.Common.Signature().Results().At(i).Type()
			switch {
			case types.Identical(t, m.errT):
				l = append(l, err)
			case zero:
				l = append(l, zeroVal(t))
			default:
				v := x.freshVal(s, "decoded", t)
				l = append(l, v)
			}
		}
		return
	}
	var outs []Outcome
	if s1 := st.clone(); s1.assume(mkEq(e, nilTerm)) {
		nb := x.freshVal(s1, "rest", m.bytes)
		s1.assume(ge0(sub(lenOf(b, m.bytes), lenOf(nb, m.bytes))))
		s2 := s1.clone()
		s1.mem[ec], s1.mem[bc] = nilTerm, nb
		outs = append(outs, Outcome{st: s1, vals: vals(s1, false, nilTerm)})
		ne := freshErr("decoder")
		s2.mem[ec], s2.mem[bc] = ne, nb
		s2.note(ci.Instr.Pos(), "%s fails", ci.Name())
		if m.pkg == "sbox" {
			s2.setG("failed", nil, "1")
		}
		outs = append(outs, Outcome{st: s2, vals: vals(s2, true, ne)})
		x.recordWrite(fr, ec)
		x.recordWrite(fr, bc)
	}
	if s3 := st.clone(); s3.assume(not(mkEq(e, nilTerm))) {
		outs = append(outs, Outcome{st: s3, vals: vals(s3, true, e)})
	}
	return outs
}

var rlenT = types.NewNamed(types.NewTypeName(0, types.NewPackage("reflected", "reflected"), "Value", nil), types.NewStruct([]*types.Var{types.NewField(0, nil, "len", types.Typ[types.Int], false)}, nil), nil)

func rlen(v *Term) *Term { return fieldAddr(v, rlenT, 0) }

// reflect: the length of values seen through reflection.
func (m *decM) reflect(x *Exec, st *State, fr *Frame, ci *CallInfo) ([]Outcome, bool) {
	f := ci.Fn
	if f == nil || f.Signature.Recv() == nil || fnPkgPath(f) != "reflect" || namedOf(f.Signature.Recv().Type()) == nil || namedOf(f.Signature.Recv().Type()).Obj().Name() != "Value" || len(ci.Args) == 0 {
		if f != nil && fnPkgPath(f) == "reflect" {
			switch f.Name() {
			case "MakeSlice":
				m.alloc(x, st, fr, ci.Instr, ci.Args[1])
				v := x.freshVal(st, "made", ci.Common.Signature().Results().At(0).Type())
				st.mem[rlen(v)] = ci.Args[1]
				return []Outcome{{st: st, vals: []*Term{v}}}, true
			case "Append":
				v := x.freshVal(st, "appended", ci.Common.Signature().Results().At(0).Type())
				if l := st.mem[rlen(ci.Args[0])]; l != nil {
					st.mem[rlen(v)] = add(l, num(1))
				}
				return []Outcome{{st: st, vals: []*Term{v}}}, true
			}
		}
		return nil, false
	}
	v := ci.Args[0]
	rl := func() *Term {
		l := st.mem[rlen(v)]
		if l == nil {
			l = fresh("len", tyInt)
			if m.pkg == "sbox" {
				// lengths are changed by replacing values only
				l = mk(TApp, tyInt, "rlen", 0, v)
			} else {
				l.Org = rlen(v)
			}
			st.assume(ge0(l))
			st.mem[rlen(v)] = l
		}
		return l
	}
	switch f.Name() {
	case "Len":
		return []Outcome{{st: st, vals: []*Term{rl()}}}, true
	case "Cap":
		c := fresh("cap", tyInt)
		st.assume(ge0(sub(c, rl())))
		st.vals[gk("rcap", v)] = c
		return []Outcome{{st: st, vals: []*Term{c}}}, true
	case "SetLen":
		x.recordWrite(fr, rlen(v))
		st.mem[rlen(v)] = ci.Args[1]
		return []Outcome{{st: st}}, true
	case "Set":
		x.recordWrite(fr, rlen(v))
		if l := st.mem[rlen(ci.Args[1])]; l != nil {
			st.mem[rlen(v)] = l
		} else {
			st.forget(rlen(v))
		}
		return []Outcome{{st: st}}, true
	case "Kind", "CanAddr", "CanSet", "IsNil", "Type", "Elem", "Addr":
		k := gk("r"+f.Name(), v)
		t := st.vals[k]
		if t == nil || f.Name() == "IsNil" {
			t = x.freshVal(st, f.Name(), ci.Common.Signature().Results().At(0).Type())
			st.vals[k] = t
		}
		return []Outcome{{st: st, vals: []*Term{t}}}, true
	case "Field":
		if m.pkg == "sbox" {
			return []Outcome{{st: st, vals: []*Term{mk(TApp, ci.Common.Signature().Results().At(0).Type(), "nn:rfield", 0, v, ci.Args[1])}}}, true
		}
	case "Index":
		if !m.errors {
			i := ci.Args[1]
			m.sites["elements by reflection"]++
			l := rl()
			ok := st.eval(ge0(i)) == 1 && st.eval(ge0(sub(sub(l, i), num(1)))) == 1
			if !ok && st.eval(ge0(i)) == 1 {
				// the number of elements of an array type
				for a, c := range st.mem {
					if a.Op == TField && strings.HasSuffix(fieldOwner[a], ".TReader") && lastName(a) == "Cnt" && st.eval(ge0(sub(sub(c, i), num(1)))) == 1 {
						ok = true
					}
				}
			}
			if !ok {
				m.bad(ci.Instr.Pos(), "element", fr.fn, st, "element %s is accessed, which may not exist (length %s)", i, l)
			} else {
				m.r.OK(ci.Instr.Pos(), "the element exists")
			}
		}
		el := x.freshVal(st, "element", ci.Common.Signature().Results().At(0).Type())
		st.vals[gk("elemof", el)] = v
		return []Outcome{{st: st, vals: []*Term{el}}}, true
	}
	return nil, false
}

// alloc: an allocation of n elements.
func (m *decM) alloc(x *Exec, st *State, fr *Frame, in ssa.Instruction, n *Term) {
	if m.errors {
		return
	}
	m.sites["allocations"]++
	if _, ok := n.isInt(); ok {
		return
	}
	if st.eval(ge0(n)) != 1 {
		m.bad(in.Pos(), "allocation", fr.fn, st, "%s elements are allocated, which may be negative", n)
		return
	}
	for a, b := range st.mem {
		if m.isRd(a) && a.N == m.bI && st.eval(ge0(sub(lenOf(b, m.bytes), n))) == 1 {
			m.r.OK(in.Pos(), "not more elements than bytes")
			return
		}
	}
	m.bad(in.Pos(), "allocation", fr.fn, st, "%s bytes or elements are allocated, which were not compared with the rest of the input", n)
}

func (m *decM) run(fn *ssa.Function, k int, failed bool) {
	mon := m.monitor(fn)
	var rp, e0, b0 *Term
	if !m.errors {
		mon.Bounds = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, what string, ok *Term) {
			if m.P.relPkg(fr.fn) != m.P.relPkg(fn) {
				return
			}
			if what == "typeassert" {
				return
			}
			if what == "makeslice" {
				if ms, is := in.(*ssa.MakeSlice); is {
					w := types.SizesFor("gc", "amd64").Sizeof(under(ms.Type()).(*types.Slice).Elem())
					if w > 8 || w < 1 {
						w = 1
					}
					m.alloc(x, st, fr, in, scale(x.val(fr, st, ms.Len), w))
				}
				return
			}
			m.sites["bounds"]++
			if st.eval(ok) == 1 || m.reinterpreted(fr, in) {
				m.r.OK(in.Pos(), "within bounds")
				return
			}
			m.bad(in.Pos(), "bounds", fr.fn, st, "%s not provably within bounds: %s", what, ok)
		}
		mon.BackEdge = func(x *Exec, st *State, fr *Frame, h *ssa.BasicBlock) {
			m.progress(x, st, fr, h, rp)
		}
		mon.Branch = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, cond *Term, taken bool) {
			m.mode(x, st, cond)
			if fr.fn != x.root || rp == nil {
				return
			}
			b := x.loadLeaf(st, m.bodyCell(rp), m.bytes)
			inLoop := false
			for _, body := range x.loopInfo(fr.fn).body {
				if body[in.Block()] {
					for _, s := range in.Block().Succs {
						inLoop = inLoop || !body[s]
					}
				}
			}
			if l := lenOf(b, m.bytes); inLoop {
				cond.walk(func(t *Term) bool {
					if t == l {
						st.vals["top"] = b
					}
					return true
				})
			}
		}
	}
	mon.End = func(x *Exec, o *Outcome) {
		if o.kind != OutReturn || !m.errors {
			return
		}
		st := o.st
		e, b := x.loadLeaf(st, m.errCell(rp), m.errT), x.loadLeaf(st, m.bodyCell(rp), m.bytes)
		res := fn.Signature.Results()
		isNil := e.isNil() || st.isNilFact(e) == 1
		bad := !isNil && (knownError(e) || st.isNilFact(e) == 0)
		if failed {
			m.sites["returns with a failed reader"]++
			if b != b0 || e != e0 {
				m.bad(o.pos, "used after error", fn, st, "a reader that has failed is changed")
			}
		}
		for i := 0; i < res.Len(); i++ {
			v, t := o.vals[i], res.At(i).Type()
			if types.Identical(t, m.errT) {
				if v == e || st.eval(mkEq(v, e)) == 1 || isNil && (v.isNil() || st.isNilFact(v) == 1) {
					m.r.OK(o.pos, "returns the error of the reader")
				} else {
					m.bad(o.pos, "error lost", fn, st, "the error returned (%s) is not that of the reader (%s)", v, e)
				}
				continue
			}
			if bad && isDecoded(t) && !zeroIn(st, v, t) {
				m.bad(o.pos, "value after error", fn, st, "%s is returned although the reader has failed", v)
			} else if bad {
				m.r.OK(o.pos, "zero after an error")
			}
		}
		// readers of parts
		st.eachG("part", func(pr *Term, _ string) {
			if pr == rp || pr.Op != TAlloc {
				return
			}
			m.sites["parts of the input"]++
			pe, pb := x.loadLeaf(st, m.errCell(pr), m.errT), x.loadLeaf(st, m.bodyCell(pr), m.bytes)
			if !(pe.isNil() || st.isNilFact(pe) == 1) && pe != e && st.eval(mkEq(pe, e)) != 1 && !bad {
				m.bad(o.pos, "error lost", fn, st, "the error of a reader for a part of the input is not handed on")
				return
			}
			if !bad && st.eval(eqTerm(lenOf(pb, m.bytes), num(0))) != 1 {
				m.bad(o.pos, "left over", fn, st, "success although a part of the input that belongs to the value may not be used up")
				return
			}
			m.r.OK(o.pos, "the part is used up, its error handed on")
		})
		if fn.Name() == "ReadTail" && isMethodOf(fn, m.rd) {
			m.sites["parts of the input"]++
			if !bad && st.eval(eqTerm(lenOf(b, m.bytes), num(0))) != 1 {
				m.bad(o.pos, "left over", fn, st, "success although input may be left over")
			} else {
				m.r.OK(o.pos, "nothing left over")
			}
		}
	}
	x := newExec(m.P, m.r, mon)
	x.RunRoot(fn, func(st *State, args []*Term) {
		rp = args[k]
		if m.readersT(fn.Params[k].Type()) {
			rp = indexAddr(rp, num(0), m.rd)
		}
		if m.pkg == "sbox" && m.recursive(fn) {
			for i, p := range fn.Params {
				if isIntType(p.Type()) {
					st.assume(ge0(args[i]))
				}
			}
		}
		st.assume(not(mkEq(rp, nilTerm)))
		e0, b0 = x.loadLeaf(st, m.errCell(rp), m.errT), x.loadLeaf(st, m.bodyCell(rp), m.bytes)
		st.setG("reader", rp, "1")
		if failed {
			st.assume(not(mkEq(e0, nilTerm)))
		} else if m.errors || told(fn.Signature) {
			st.assume(mkEq(e0, nilTerm))
		}
		st.mem[m.errCell(rp)], st.mem[m.bodyCell(rp)] = e0, b0
	})
}

// told: functions that are told how much there is to read are called only
// with readers that have not failed.
func told(sig *types.Signature) bool {
	n := 0
	for i := 0; i < sig.Params().Len(); i++ {
		if types.Identical(sig.Params().At(i).Type(), types.Typ[types.Int]) {
			n++
		}
	}
	return n > 0 && sig.Recv() == nil && sig.Params().Len() > 2
}

func isDecoded(t types.Type) bool {
	switch u := under(t).(type) {
	case *types.Basic:
		return u.Info()&types.IsBoolean == 0
	case *types.Slice:
		return true
	}
	return false
}

func zeroIn(st *State, v *Term, t types.Type) bool {
	if v == zeroVal(t) || v.isNil() {
		return true
	}
	if v.Op == TConst && v.Val != nil && constant.Compare(constant.ToFloat(v.Val), token.EQL, constant.MakeInt64(0)) {
		return true
	}
	if isIntType(t) {
		return st.eval(eqTerm(v, num(0))) == 1
	}
	return nilable(t) && st.isNilFact(v) == 1
}

// reinterpreted: the slice was made from the first element and the length of
// a value seen through reflection.
func (m *decM) reinterpreted(fr *Frame, in ssa.Instruction) bool {
	s, ok := in.(*ssa.Slice)
	if !ok {
		return false
	}
	u, ok := s.X.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	c, ok := u.X.(*ssa.Convert)
	return ok && types.Identical(under(c.X.Type()), types.Typ[types.UnsafePointer])
}

// progress: a loop that goes on while there is input takes some of it.
func (m *decM) progress(x *Exec, st *State, fr *Frame, h *ssa.BasicBlock, rp *Term) {
	top := st.vals["top"]
	if top == nil || fr.fn != x.root {
		return
	}
	la := fr.loops[h]
	if la == nil || top.Seq < la.seq {
		return
	}
	m.sites["loops over the input"]++
	e, b := x.loadLeaf(st, m.errCell(rp), m.errT), x.loadLeaf(st, m.bodyCell(rp), m.bytes)
	if knownError(e) || st.isNilFact(e) == 0 || st.eval(ge0(sub(sub(lenOf(top, m.bytes), lenOf(b, m.bytes)), num(1)))) == 1 {
		m.r.OK(h.Instrs[0].Pos(), "takes some of the input or fails")
		return
	}
	m.bad(posOf(h), "no progress", fr.fn, st, "a loop goes on while there is input but may take none of it")
}

func posOf(b *ssa.BasicBlock) token.Pos {
	for _, in := range b.Instrs {
		if in.Pos() != 0 {
			return in.Pos()
		}
	}
	return b.Parent().Pos()
}

// counted: the destination is made for a number of elements that was read
// from the input.
func (m *decM) counted(x *Exec, st *State, fr *Frame, ci *CallInfo) {
	sig := ci.Common.Signature()
	value, n := false, -1
	for i := 0; i < sig.Params().Len(); i++ {
		t := sig.Params().At(i).Type()
		value = value || types.TypeString(t, nil) == "reflect.Value"
		if types.Identical(t, types.Typ[types.Int]) {
			n = i
		}
	}
	if !value || n < 0 || ci.Fn != nil && (!m.P.inModule(ci.Fn) || sig.Recv() == nil) || x.self == nil {
		return
	}
	v := ci.Args[len(ci.Args)-sig.Params().Len()+n]
	if _, ok := v.isInt(); ok {
		return
	}
	m.sites["destinations resized"]++
	if st.eval(ge0(v)) != 1 {
		m.bad(ci.Instr.Pos(), "allocation", fr.fn, st, "the destination is made for %s elements, which may be negative", v)
		return
	}
	ok := false
	for a, b := range st.mem {
		if m.isRd(a) && a.N == m.bI && st.eval(ge0(sub(lenOf(b, m.bytes), v))) == 1 {
			ok = true
		}
	}
	if !ok {
		body := []*Term{}
		for a, b := range st.mem {
			if m.isRd(a) && a.N == m.bI {
				body = append(body, lenOf(b, m.bytes))
			}
		}
		st.eachFact(func(f *Term) bool {
			has := map[string]bool{}
			f.walk(func(t *Term) bool {
				if t == v {
					has["n"] = true
				}
				for _, b := range body {
					if t == b {
						has["body"] = true
					}
				}
				if t.Org != nil && t.Org.Op == TField && strings.HasSuffix(fieldOwner[t.Org], ".TReader") {
					has[lastName(t.Org)] = true
				}
				return true
			})
			switch {
			case f.Op == TGe0 && has["n"] && has["body"]:
				// compared, and on this side not more than fits
				if up := st.coef(f.Args[0], v); up < 0 {
					ok = true
				}
			case f.Op == TGe0 && has["Sz"] && !has["n"]:
				// elements without a fixed size
				_, ps := linOf(f.Args[0])
				ok = ok || len(ps) == 1 && ps[0].K < 0
			case has["CntSet"] || has["Elem"]:
				ok = ok || f.Op == TEq
			}
			return !ok
		})
	}
	if !ok {
		m.bad(ci.Instr.Pos(), "allocation", fr.fn, st, "the destination is made for %s elements, which were not compared with the rest of the input", v)
	} else {
		m.r.OK(ci.Instr.Pos(), "the number fits the input")
	}
}

// coef: the coefficient of v in a linear term.
func (st *State) coef(l, v *Term) int64 {
	_, ps := linOf(l)
	for _, p := range ps {
		if p.T == v {
			return p.K
		}
		k := int64(0)
		if p.T.Op == TBin && p.T.Aux == "*" {
			p.T.walk(func(t *Term) bool {
				if t == v {
					k = p.K
				}
				return true
			})
		}
		if k != 0 {
			return k
		}
	}
	return 0
}

// entries: functions without a reader that decode.
func (m *decM) entries() {
	P, r := m.P, m.r
	var roots []*ssa.Function
	for _, fn := range P.Funcs {
		if fn.Synthetic != "" || fn.Parent() != nil || m.readerParam(fn) >= 0 || !lastErr(fn.Signature) || P.relPkg(fn) != "marshal" {
			continue
		}
		if fn.Signature.Recv() != nil {
			continue
		}
		roots = append(roots, fn)
	}
	sort.Slice(roots, func(i, j int) bool { return roots[i].Name() < roots[j].Name() })
	for _, fn := range roots {
		mon := &Monitor{Name: "entries", Unroll: -1, NoLockCk: true, ErrSplit: true}
		mon.Relevant = func(f *ssa.Function) bool { return P.relPkg(f) == "marshal" && m.readerParam(f) < 0 }
		decodes := 0
		mon.Call = func(x *Exec, st *State, fr *Frame, ci *CallInfo) ([]Outcome, bool) {
			rd := m.readerOf(ci)
			if rd == nil || ci.Common.Signature().Results().Len() == 0 {
				return nil, false
			}
			decodes++
			e := freshErr("decoder")
			s2 := st.clone()
			s2.note(ci.Instr.Pos(), "decoding fails")
			s2.vals["failed"] = e
			s2.setG("failed", nil, "1")
			vals := func(e *Term) (l []*Term) {
				for i := 0; i < ci.Common.Signature().Results().Len(); i++ {
					if types.Identical(ci.Common.Signature().Results().At(i).Type(), m.errT) {
						l = append(l, e)
					} else {
						l = append(l, x.freshVal(st, "decoded", ci.Common.Signature().Results().At(i).Type()))
					}
				}
				return
			}
			return []Outcome{{st: st, vals: vals(nilTerm)}, {st: s2, vals: vals(e)}}, true
		}
		mon.End = func(x *Exec, o *Outcome) {
			if o.kind != OutReturn {
				return
			}
			st := o.st
			m.sites["entry points"]++
			v := o.vals[len(o.vals)-1]
			f := st.vals["failed"]
			if st.g("failed", nil) != "" && v != f && !knownError(v) {
				m.bad(o.pos, "error lost", fn, st, "the error of the decoder is not returned")
			} else {
				r.OK(o.pos, "returns the decoder's error")
			}
		}
		x := newExec(P, r, mon)
		x.RunRoot(fn, nil)
	}
}
