package main

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// B02 and B03: reading tuples and results.

func init() {
	register(&checkDef{id: "B02", run: func(P *Program, r *Report) { checkSboxRead(P, r) },
		rule:  "bounds obligations at every index, element access by reflection and allocation on every path of every function that reads tuples, for unknown input and reader state; no field is read that was not announced; the part of the input that is given to a tuple's reader is exactly what was taken for it, of the size that was just read plus the width of the count",
		assum: []string{"slices shorter than 2^48 elements", "types with a repeated tail have at least one field, rows of a split tail have at least one field", "destinations are not modified by others meanwhile"}})
	register(&checkDef{id: "B03", run: func(P *Program, r *Report) { checkSboxErrors(P, r) },
		rule:  "typestate on every path of the functions that read results, calls of recursive ones replaced by their contract: when a count, a size or a part of the input cannot be taken, the reader's error is kept and every function that returns an error returns it; the number of tuples reported (or the flag that one was read) never exceeds the number of tuples that were taken from the input on the path, through summarised loops",
		assum: []string{"the decoders of package marshal keep their errors (M03)"}})
}

func (m *decM) recursive(fn *ssa.Function) bool {
	if v, ok := m.rec[fn]; ok {
		return v
	}
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function) bool
	visit = func(f *ssa.Function) bool {
		if seen[f] {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && m.P.inModule(g) && (g == fn || visit(g)) {
						return true
					}
				}
			}
		}
		return false
	}
	v := visit(fn)
	if m.rec == nil {
		m.rec = map[*ssa.Function]bool{}
	}
	m.rec[fn] = v
	return v
}

func checkSboxRead(P *Program, r *Report) {
	m := newDecM(P, r)
	if m == nil {
		return
	}
	m.pkg = "sbox"
	n := 0
	roots := P.Roots("sbox")
	for _, fn := range P.Funcs {
		if k := m.readersParam(fn); k >= 0 && P.relPkg(fn) == "sbox" && fn.Synthetic == "" && len(fn.Blocks) > 0 && m.recursive(fn) {
			roots = append(roots, fn)
		}
	}
	for _, fn := range roots {
		k := m.readersParam(fn)
		if k < 0 {
			continue
		}
		n++
		m.run(fn, k, false)
	}
	(&sbrM{decM: m, part: true}).all()
	r.Floor("tuple readers", m.sites["tuple readers"], 2)
	r.Floor("parts taken", m.sites["parts taken"], 3)
	r.Floor("fields read", m.sites["fields read"], 6)
	r.Floor("bounds", m.sites["bounds"], 20)
	r.Floor("elements by reflection", m.sites["elements by reflection"], 6)
	r.Floor("allocations", m.sites["allocations"], 2)
	r.Counts["functions that read tuples"] = n
	for k, v := range m.sites {
		r.Counts["events: "+k] = v
	}
	r.Floor("functions that read tuples", n, 10)
}

// readersParam: the parameter that is a reader or an array of them.
func (m *decM) readersParam(fn *ssa.Function) int {
	if k := m.readerParam(fn); k >= 0 {
		return k
	}
	for i, p := range fn.Params {
		if m.readersT(p.Type()) {
			return i
		}
	}
	return -1
}

func (m *decM) readersT(t types.Type) bool {
	if p, ok := under(t).(*types.Pointer); ok {
		if a, ok := under(p.Elem()).(*types.Array); ok {
			return types.Identical(a.Elem(), m.rd)
		}
	}
	return false
}

// modeLoaded: what is known of the fields of tuple readers.
func (m *decM) modeLoaded(x *Exec, st *State, fr *Frame, in ssa.Instruction, addr, val *Term) {
	if addr.Op != TField || val.Op == TConst {
		return
	}
	tr := m.P.Type("sbox", "TReader")
	if lastName(addr) == "Flds" && st.g("mode", nil) == "tail" {
		st.assume(ge0(sub(lenOf(val, cellType(addr)), num(1))))
	}
	if tr == nil || fieldOwner[addr] != types.TypeString(tr, nil) || val.Op != TSym || !isIntType(val.Typ) {
		return
	}
	if st.dom[val] == nil {
		if d := m.P.fieldConsts(tr, addr.N); d != nil {
			st.dom[val] = d
		}
	}
	st.vals["mode"] = val
	m.mode(x, st, val)
}

// mode: types with a repeated tail are kept apart, and have a field.
func (m *decM) mode(x *Exec, st *State, cond *Term) {
	v := st.vals["mode"]
	if v == nil || m.pkg != "sbox" {
		return
	}
	has := false
	cond.walk(func(t *Term) bool { has = has || t == v; return true })
	if !has {
		return
	}
	switch st.eval(eqTerm(v, num(0))) {
	case 1:
		st.setG("mode", nil, "none")
	case 0:
		st.setG("mode", nil, "tail")
		for a, f := range st.mem {
			if a.Op == TField && lastName(a) == "Flds" {
				st.assume(ge0(sub(lenOf(f, cellType(a)), num(1))))
			}
		}
	}
}

// field: a field is read, which must have been announced.
func (m *decM) field(x *Exec, st *State, fr *Frame, ci *CallInfo) {
	k := st.vals["announced"]
	if k == nil {
		return
	}
	sig := ci.Common.Signature()
	is := false
	if ci.Fn != nil && isMethodOf(ci.Fn, m.rd) {
		is = m.P.relPkg(fr.fn) == "sbox" && sig.Results().Len() == 1 && isIntType(sig.Results().At(0).Type())
	} else {
		for i := 0; i < sig.Params().Len(); i++ {
			// a decoder that is given the decoder of its size
			if f, ok := under(sig.Params().At(i).Type()).(*types.Signature); ok && f.Params().Len() == 1 && m.isReader(f.Params().At(0).Type()) {
				is = true
			}
		}
	}
	if !is {
		return
	}
	m.sites["fields read"]++
	c := sbCell(sbFields)
	n := x.loadLeaf(st, c, tyInt)
	x.recordWrite(fr, c)
	st.mem[c] = add(n, num(1))
	ok := st.eval(ge0(sub(sub(k, n), num(1)))) == 1
	if ok {
		m.sites["fields counted"]++
	}
	// rows: a comparison of the number with the place of the field
	st.eachFact(func(f *Term) bool {
		if f.Op == TGe0 && !ok {
			c, ps := linOf(f.Args[0])
			var kk int64
			prod, other := false, false
			for _, p := range ps {
				if p.T == k {
					kk = p.K
				} else if p.T.Op == TBin && p.K < 0 {
					prod = true
				} else if p.K < 0 {
					other = true
				}
			}
			if kk == 1 && prod && (c < 0 || other && c <= 0) {
				ok = true
			}
		}
		return true
	})
	if !ok {
		m.bad(ci.Instr.Pos(), "field not announced", fr.fn, st, "a field is read after %s others, although only %s were announced", n, k)
	} else {
		m.r.OK(ci.Instr.Pos(), "the field was announced")
	}
}

// sbrM: results and tuples, with the decoders of package marshal abstract.
type sbrM struct {
	*decM
	part bool // what a tuple's reader is given (B02)
}

func (m *sbrM) seen(x *Exec, st *State) *Term { return x.loadLeaf(st, sbCell(sbTuples), tyInt) }

func (m *sbrM) addSeen(x *Exec, st *State, fr *Frame, n *Term) {
	v := m.seen(x, st)
	x.recordWrite(fr, sbCell(sbTuples))
	st.mem[sbCell(sbTuples)] = add(v, n)
}

func checkSboxErrors(P *Program, r *Report) {
	d := newDecM(P, r)
	if d == nil {
		return
	}
	d.errors = true
	m := &sbrM{decM: d}
	m.pkg = "sbox"
	m.all()
	r.Floor("results of functions that read tuples", m.sites["results"], 12)
	r.Floor("entry points", m.sites["entry points"], 3)
	r.Floor("failures", m.sites["failures"], 5)
}

func (m *sbrM) all() {
	P, r := m.P, m.r
	var roots []*ssa.Function
	for _, fn := range P.Funcs {
		if fn.Synthetic != "" || fn.Parent() != nil || P.relPkg(fn) != "sbox" || len(fn.Blocks) == 0 {
			continue
		}
		k := m.readersParam(fn)
		switch {
		case k >= 0 && m.readersT(fn.Params[k].Type()):
			if !m.recursive(fn) && P.entryReason(fn) == "" {
				continue // followed where it is called
			}
		case k >= 0 && lastErr(fn.Signature) && fn.Signature.Recv() == nil:
			if P.entryReason(fn) == "" {
				continue
			}
		case k < 0 && lastErr(fn.Signature) && fn.Signature.Recv() == nil && fn.Signature.Results().Len() > 1 && fn.Object() != nil && fn.Object().Exported():
		default:
			continue
		}
		roots = append(roots, fn)
	}
	sort.Slice(roots, func(i, j int) bool { return roots[i].Name() < roots[j].Name() })
	for _, fn := range roots {
		m.run(fn)
	}
	r.Counts["functions that read results"] = len(roots)
	for k, v := range m.sites {
		r.Counts["events: "+k] = v
	}
}

func (m *sbrM) readersArg(ci *CallInfo) *Term {
	off := len(ci.Args) - len(ci.Common.Args)
	for i, a := range ci.Common.Args {
		if off+i >= 0 && m.readersT(a.Type()) {
			return ci.Args[off+i]
		}
	}
	return nil
}

func (m *sbrM) run(fn *ssa.Function) {
	P := m.P
	mon := &Monitor{Name: "results", Unroll: -1, NoLockCk: true, JoinAt: 200, JoinBlk: 200, ErrSplit: true, CellLin: true, EnterAt: 24}
	mon.Relevant = func(f *ssa.Function) bool {
		if P.relPkg(f) != "sbox" {
			return false
		}
		for i := 0; i < f.Signature.Results().Len(); i++ {
			if t := f.Signature.Results().At(i).Type(); m.isReader(t) || m.readersT(t) {
				return true
			}
		}
		return m.readersParam(f) >= 0
	}
	mon.Keep = func(x *Exec, st *State, addr *Term, ci *CallInfo) bool { return true }
	var rp, b0 *Term
	k := m.readersParam(fn)
	mon.Call = func(x *Exec, st *State, fr *Frame, ci *CallInfo) ([]Outcome, bool) {
		if o, ok := m.reflect(x, st, fr, ci); ok {
			return o, true
		}
		f := ci.Fn
		one, many := m.readerOf(ci), m.readersArg(ci)
		if many != nil && f != nil && P.relPkg(f) == "sbox" && m.recursive(f) {
			return m.reads(x, st, fr, ci, indexAddr(many, num(0), m.rd)), true
		}
		if f != nil && P.relPkg(f) == "sbox" && (one != nil || many != nil) {
			return nil, false
		}
		if one != nil {
			return m.decode(x, st, fr, ci, one, rp, b0), true
		}
		return nil, false
	}
	mon.End = func(x *Exec, o *Outcome) {
		if o.kind != OutReturn || m.part {
			return
		}
		st := o.st
		m.sites["results"]++
		res := fn.Signature.Results()
		var err *Term
		if lastErr(fn.Signature) {
			err = o.vals[res.Len()-1]
		}
		arr := k >= 0 && m.readersT(fn.Params[k].Type())
		if st.g("failed", nil) != "" || st.g("body", nil) != "" && !arr {
			m.sites["failures"]++
			bad := func(e *Term) bool { return knownError(e) || st.isNilFact(e) == 0 }
			if err != nil && !bad(err) {
				m.bad(o.pos, "error lost", fn, st, "an error of decoding is not returned")
			} else if arr && st.g("failed", nil) != "" && !bad(x.loadLeaf(st, m.errCell(rp), m.errT)) {
				m.bad(o.pos, "error lost", fn, st, "an error of decoding is lost")
			} else {
				m.r.OK(o.pos, "the error is handed on")
			}
		}
		if k >= 0 && !arr || res.Len() == 0 {
			return
		}
		seen := m.seen(x, st)
		n := o.vals[0]
		switch t := res.At(0).Type(); {
		case isErrType(t):
			if v := st.isNilFact(n); (n.isNil() || v == 1 || v < 0) && st.eval(ge0(sub(seen, num(1)))) != 1 {
				m.bad(o.pos, "tuple not there", fn, st, "success is reported for a tuple that was not taken")
			}
		case isBoolT(t):
			if b, ok := n.isBool(); (!ok || b) && st.eval(not(n)) != 1 && st.eval(ge0(sub(seen, num(1)))) != 1 {
				m.bad(o.pos, "tuple not there", fn, st, "a tuple is reported that was not taken")
			} else {
				m.r.OK(o.pos, "the tuple was there")
			}
		case isIntType(t):
			if st.eval(ge0(sub(seen, n))) != 1 {
				m.bad(o.pos, "tuple not there", fn, st, "%s tuples are reported, but only %s were taken", n, seen)
			} else {
				m.r.OK(o.pos, "the tuples were there")
			}
		}
		if !arr && res.Len() == 3 && isIntType(res.At(1).Type()) {
			m.sites["entry points"]++
			f := st.vals["first"]
			if f == nil || st.eval(eqTerm(o.vals[1], f)) != 1 {
				m.bad(o.pos, "total", fn, st, "the total returned (%s) is not the number at the start of the result", o.vals[1])
			} else {
				m.r.OK(o.pos, "the total that was read")
			}
		}
	}
	x := newExec(P, m.r, mon)
	x.RunRoot(fn, func(st *State, args []*Term) {
		x.seedSeen(st)
		if k >= 0 {
			rp = args[k]
			st.assume(not(mkEq(rp, nilTerm)))
			if m.readersT(fn.Params[k].Type()) {
				rp = indexAddr(rp, num(0), m.rd)
			}
		}
		for i, p := range fn.Params {
			if types.Identical(p.Type(), m.bytes) {
				b0 = args[i]
			}
			if k >= 0 && m.recursive(fn) && isIntType(p.Type()) {
				st.assume(ge0(args[i]))
			}
		}
	})
}

func (x *Exec) seedSeen(st *State) { st.mem[sbCell(sbTuples)] = num(0) }

// reads: a function that reads tuples, by its contract.
func (m *sbrM) reads(x *Exec, st *State, fr *Frame, ci *CallInfo, r *Term) []Outcome {
	ec := m.errCell(r)
	if m.part {
		for i, a := range ci.Common.Args {
			if t := ci.Args[len(ci.Args)-len(ci.Common.Args)+i]; isIntType(a.Type()) {
				if st.eval(ge0(t)) != 1 {
					m.bad(ci.Instr.Pos(), "count", fr.fn, st, "%s tuples are to be read, which may be negative", t)
				} else {
					m.r.OK(ci.Instr.Pos(), "a number of tuples")
				}
			}
		}
	}
	x.recordWrite(fr, ec)
	vals := func(s *State, e *Term) (l []*Term) {
		res := ci.Common.Signature().Results()
		for i := 0; i < res.Len(); i++ {
			t := res.At(i).Type()
			switch {
			case isErrType(t):
				if e.isNil() && i == 0 {
					m.addSeen(x, s, fr, num(1))
				}
				l = append(l, e)
			case isIntType(t):
				c := x.freshVal(s, "tuples", t)
				s.assume(ge0(c))
				m.addSeen(x, s, fr, c)
				l = append(l, c)
			default:
				l = append(l, x.freshVal(s, "value", t))
			}
		}
		return
	}
	var outs []Outcome
	e := x.loadLeaf(st, ec, m.errT)
	if s := st.clone(); s.assume(mkEq(e, nilTerm)) {
		s.mem[ec] = nilTerm
		s2 := s.clone()
		outs = append(outs, Outcome{st: s, vals: vals(s, nilTerm)})
		ne := freshErr("tuples")
		s2.mem[ec] = ne
		s2.setG("failed", nil, "1")
		s2.note(ci.Instr.Pos(), "%s fails", ci.Name())
		outs = append(outs, Outcome{st: s2, vals: vals(s2, ne)})
	}
	if s := st.clone(); s.assume(not(mkEq(e, nilTerm))) {
		outs = append(outs, Outcome{st: s, vals: vals(s, e)})
	}
	return outs
}

// decode: a decoder of package marshal, or of a type.
func (m *sbrM) decode(x *Exec, st *State, fr *Frame, ci *CallInfo, r, rp, b0 *Term) []Outcome {
	pos := ci.Instr.Pos()
	ec, bc := m.errCell(r), m.bodyCell(r)
	e := x.loadLeaf(st, ec, m.errT)
	b := x.loadLeaf(st, bc, m.bytes)
	m.sites["decoders called"]++
	first := st.vals["first"] == nil
	if first && rp == nil && !m.part {
		if b0 == nil || b != b0 || !(e.isNil() || st.isNilFact(e) == 1) {
			m.bad(pos, "stale reader", fr.fn, st, "decoding starts from a reader that was not set to the input, or that has an error (%s, %s)", b, e)
		} else {
			m.r.OK(pos, "a fresh reader")
		}
	}
	sig := ci.Common.Signature()
	codec := ci.Fn == nil
	if codec && (r != rp || r.Op == TIndex) && m.part {
		m.sites["tuple readers"]++
		if p := st.vals["part"]; p == nil || p != b {
			m.bad(pos, "part", fr.fn, st, "the reader of a tuple is not given the part of the input that was taken for it")
		} else {
			m.r.OK(pos, "the part that was taken")
		}
	}
	x.recordWrite(fr, ec)
	x.recordWrite(fr, bc)
	outs := []Outcome{}
	vals := func(s *State, zero bool, err *Term) (l []*Term) {
		for i := 0; i < sig.Results().Len(); i++ {
			t := sig.Results().At(i).Type()
			switch {
			case isErrType(t):
				l = append(l, err)
			case zero:
				l = append(l, zeroVal(t))
			default:
				v := x.freshVal(s, "decoded", t)
				if isIntType(t) {
					s.assume(ge0(v))
					s.vals[gk("num", r)] = v
				}
				l = append(l, v)
			}
		}
		if len(l) == 1 && first {
			s.vals["first"] = l[0]
		}
		return
	}
	var arg *Term
	takes := !codec && sig.Results().Len() == 1 && types.Identical(sig.Results().At(0).Type(), m.bytes)
	if takes {
		for i := 0; i < sig.Params().Len(); i++ {
			if isIntType(sig.Params().At(i).Type()) {
				arg = ci.Args[len(ci.Args)-sig.Params().Len()+i]
			}
		}
	}
	if s := st.clone(); s.assume(mkEq(e, nilTerm)) {
		s.mem[ec], s.mem[bc] = nilTerm, x.freshVal(s, "rest", m.bytes)
		s2 := s.clone()
		v := vals(s, false, nilTerm)
		if takes && arg != nil {
			n := st.vals[gk("num", r)]
			m.sites["parts taken"]++
			if m.part {
				if n == nil || st.eval(eqTerm(arg, add(n, num(4)))) != 1 {
					m.bad(pos, "size", fr.fn, st, "%s bytes are taken for a tuple, not the size that was read before and the count", arg)
				} else {
					m.r.OK(pos, "as many bytes as announced")
				}
			}
			s.vals["part"] = v[0]
			m.addSeen(x, s, fr, num(1))
		}
		outs = append(outs, Outcome{st: s, vals: v})
		ne := freshErr("decoder")
		s2.mem[ec] = ne
		if codec {
			s2.setG("body", nil, "1")
		} else {
			s2.setG("failed", nil, "1")
		}
		s2.note(pos, "%s fails", ci.Name())
		outs = append(outs, Outcome{st: s2, vals: vals(s2, true, ne)})
	}
	if s := st.clone(); s.assume(not(mkEq(e, nilTerm))) {
		outs = append(outs, Outcome{st: s, vals: vals(s, true, e)})
	}
	return outs
}
