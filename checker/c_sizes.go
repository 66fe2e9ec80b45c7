package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// M04: announced sizes and counts.

func init() {
	register(&checkDef{id: "M04", run: checkSizes,
		rule:  "counting of emitted bytes and elements, path by path, with linear invariants for loops. (1) Every method of the encoder that puts a value into the buffer lengthens it by exactly the size of its parameter's type (times the length for slices and strings). (2) Wherever a size, or a count, is announced, through the function that writes prefixes or by a call that writes an int, exactly one is announced per value, and the bytes, or elements, emitted for the value afterwards on the path are that many; a value that is measured first is written by the writer that measured it; a value that is encoded to a scratch buffer is announced with the length of what the buffer got. (3) The tables of writers: under each kind of type, the constant or function that gives the size agrees with what (1) proved of the function that writes it; writers of elements write each element once, in order; writers of pointers and interfaces hand on exactly when not nil; the measuring functions use the tables of the writer that writes. (4) Structs: in each round over the directives of a field and over the fields the size grows by exactly the prefix and the field, or becomes, and stays, unknown",
		assum: []string{"methods of user types that announce their own size or count announce what they write", "prefixes of 8 or 16 bits are given values that fit", "a scratch writer is empty when it is taken (M06)", "variable-length numbers have the length M07 proves", "the function that measures strings is not compared", "a tag has at most one directive of a kind, and skip stands alone"}})
}

type szM struct {
	P         *Program
	r         *Report
	wr, tw    types.Type
	twKey     string
	sites     map[string]int
	sum       map[*ssa.Function]szSum
	grows     map[*ssa.Function]bool
	class     map[*ssa.Function]map[string]bool
	meas      map[*ssa.Function]string
	dyn       map[*ssa.Function]bool
	structFns map[*ssa.Function]bool
}

// szSum: bytes = c + k*Len(parameter)
type szSum struct{ c, k int64 }

var szT = types.NewNamed(types.NewTypeName(0, types.NewPackage("emitted", "emitted"), "Out", nil), types.NewStruct([]*types.Var{
	types.NewField(0, nil, "bytes", types.Typ[types.Int], false), types.NewField(0, nil, "items", types.Typ[types.Int], false), types.NewField(0, nil, "bytes2", types.Typ[types.Int], false), types.NewField(0, nil, "bytes4", types.Typ[types.Int], false), types.NewField(0, nil, "bytes8", types.Typ[types.Int], false)}, nil), nil)

func szCell(w *Term, i int) *Term {
	return fieldAddr(mk(TApp, types.NewPointer(szT), "nn:emitted", 0, w), szT, i)
}

func (m *szM) bad(pos token.Pos, rule string, fn *ssa.Function, st *State, f string, a ...interface{}) {
	m.r.Add(pos, rule, fnName(fn), st, f, a...)
}

func (m *szM) isW(t types.Type) bool {
	p, ok := under(t).(*types.Pointer)
	return ok && types.Identical(p.Elem(), m.wr)
}

func (m *szM) isTW(t types.Type) bool {
	p, ok := under(t).(*types.Pointer)
	return ok && types.Identical(p.Elem(), m.tw)
}

func isReflectValue(t types.Type) bool { return types.TypeString(t, nil) == "reflect.Value" }

func isIntT(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Kind() == types.Int
}

// sig kinds
func (m *szM) writes(sig *types.Signature) bool { // func(*Writer, reflect.Value)
	return sig.Recv() == nil && sig.Params().Len() == 2 && m.isW(sig.Params().At(0).Type()) && isReflectValue(sig.Params().At(1).Type())
}
func (m *szM) prefixes(t types.Type) bool { // func(*Writer, int)
	sig, ok := under(t).(*types.Signature)
	return ok && sig.Params().Len() == 2 && m.isW(sig.Params().At(0).Type()) && isIntT(sig.Params().At(1).Type()) && sig.Results().Len() == 0
}
func measures(sig *types.Signature) bool { // func(reflect.Value) int
	return sig.Recv() == nil && sig.Params().Len() == 1 && isReflectValue(sig.Params().At(0).Type()) && sig.Results().Len() == 1 && isIntT(sig.Results().At(0).Type())
}

// natural: what a parameter of this type takes.
func natural(t types.Type) (szSum, bool) {
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return szSum{0, 1}, true
		}
		if w := widthOf[u.Kind()]; w != "" {
			return szSum{int64(w[1] - '0'), 0}, true
		}
	case *types.Slice:
		if b, ok := under(u.Elem()).(*types.Basic); ok {
			if w := widthOf[b.Kind()]; w != "" {
				return szSum{0, int64(w[1] - '0')}, true
			}
		}
	}
	return szSum{}, false
}

func (m *szM) cell(x *Exec, st *State, w *Term, i int) *Term {
	c := szCell(w, i)
	if v := st.mem[c]; v != nil {
		return v
	}
	if st.g("begun", c) != "" {
		return x.loadLeaf(st, c, tyInt)
	}
	st.setG("begun", c, "1")
	st.mem[c] = num(0)
	return num(0)
}

// begin: nothing was emitted yet.
func (m *szM) begin(st *State, args []*Term) {
	for _, a := range args {
		if a != nil && m.isW(a.Typ) {
			for i := 0; i < 5; i++ {
				st.mem[szCell(a, i)] = num(0)
				st.setG("begun", szCell(a, i), "1")
			}
		}
	}
}

// lengthens: a method of the buffer that makes it n bytes longer.
func (m *szM) lengthens(f *ssa.Function) bool {
	s := f.Signature
	if s.Params().Len() != 1 || s.Results().Len() != 1 || !isIntT(s.Params().At(0).Type()) || f.Blocks == nil {
		return false
	}
	return m.grows[f]
}

func (m *szM) growers() {
	m.grows = map[*ssa.Function]bool{}
	var cand []*ssa.Function
	for _, fn := range m.P.Funcs {
		s := fn.Signature
		if m.P.relPkg(fn) == "marshal" && isMethodOf(fn, m.wr) && s.Params().Len() == 1 && s.Results().Len() == 1 && isIntT(s.Params().At(0).Type()) && fn.Blocks != nil {
			cand = append(cand, fn)
		}
	}
	for _, fn := range cand {
		ok, paths := true, 0
		mon := m.bufMonitor()
		mon.End = func(x *Exec, o *Outcome) {
			if o.kind == OutReturn {
				paths++
				if o.st.eval(eqTerm(m.bufDelta(x, o.st), x.args[1])) != 1 {
					ok = false
				}
			}
		}
		x := newExec(m.P, m.r, mon)
		x.RunRoot(fn, func(st *State, args []*Term) { m.bufSetup(x, st, args) })
		if ok && paths > 0 {
			m.grows[fn] = true
		}
	}
	m.sites["functions that lengthen the buffer"] = len(m.grows)
}

func (m *szM) bufMonitor() *Monitor {
	mon := m.monitor()
	mon.Call = func(x *Exec, st *State, fr *Frame, ci *CallInfo) ([]Outcome, bool) {
		if ci.Fn != nil && isMethodOf(ci.Fn, m.wr) && m.lengthens(ci.Fn) {
			m.emit(x, st, fr, ci.Args[0], ci.Args[1], num(0))
			t := ci.Fn.Signature.Results().At(0).Type()
			v := fresh("place", t)
			if isIntT(t) {
				st.assume(ge0(v))
			} else {
				v = mkSlice(t, fresh("room", types.NewPointer(types.Typ[types.Uint8])), num(0), ci.Args[1], ci.Args[1])
			}
			return []Outcome{{st: st, vals: []*Term{v}}}, true
		}
		return pureReflect(x, st, ci)
	}
	return mon
}

func (m *szM) bufSetup(x *Exec, st *State, args []*Term) {
	m.begin(st, args)
	bc := fieldOf(args[0], m.wr, "buf")
	st.vals["buf0"] = x.loadLeaf(st, bc, cellType(bc))
}

func (m *szM) bufDelta(x *Exec, st *State) *Term {
	bc := fieldOf(x.self, m.wr, "buf")
	v0, v1 := st.vals["buf0"], st.mem[bc]
	if v1 == nil {
		v1 = v0
	}
	return add(m.out(x, st, x.self), sub(lenOf(v1, v1.Typ), lenOf(v0, v0.Typ)))
}

// out: bytes written so far; kept apart by the width of the items, so that loops count items.
func (m *szM) out(x *Exec, st *State, w *Term) *Term {
	t := m.cell(x, st, w, 0)
	for i, k := range []int64{2, 4, 8} {
		t = add(t, scale(m.cell(x, st, w, i+2), k))
	}
	return t
}

func (m *szM) bump(x *Exec, st *State, fr *Frame, w *Term, i int, n *Term) {
	if n == nil {
		n = fresh("unknown", tyInt)
	}
	if c, ok := n.isInt(); ok && c == 0 {
		return
	}
	c := szCell(w, i)
	v := m.cell(x, st, w, i)
	x.recordWrite(fr, c)
	st.mem[c] = add(v, n)
}

func (m *szM) emit(x *Exec, st *State, fr *Frame, w, bytes, items *Term) {
	m.bump(x, st, fr, w, 0, bytes)
	m.bump(x, st, fr, w, 1, items)
}

// emitSum: a value of known length.
func (m *szM) emitSum(x *Exec, st *State, fr *Frame, w *Term, s szSum, v *Term, t types.Type, items *Term) {
	k, n := s.c, num(1)
	if s.k != 0 {
		k, n = s.k, m.sumTerm(szSum{0, 1}, v, t)
	}
	i := map[int64]int{1: 0, 2: 2, 4: 3, 8: 4}[k]
	m.bump(x, st, fr, w, i, n)
	m.bump(x, st, fr, w, 1, items)
}

func (m *szM) announce(x *Exec, st *State, fr *Frame, pos token.Pos, w, n *Term, kind string) {
	m.sites["announced"]++
	if st.g("ann", w) != "" {
		m.bad(pos, "announced twice", fr.fn, st, "a %s is announced although one was announced before for the same value", kind)
	}
	st.setG("ann", w, kind)
	st.vals[gk("annN", w)] = stripConv(n)
	st.vals[gk("annB", w)] = m.out(x, st, w)
	st.vals[gk("annI", w)] = m.cell(x, st, w, 1)
}

func bytesApp(t, v *Term) *Term { return mk(TApp, tyInt, "bytes", 0, t, v) }
func countApp(t, v *Term) *Term { return mk(TApp, tyInt, "count", 0, t, v) }

func lenTerm(v *Term) *Term { return mk(TApp, tyInt, "reflect.Len", 0, v) }

func (m *szM) sumTerm(s szSum, v *Term, t types.Type) *Term {
	if s.k == 0 {
		return num(s.c)
	}
	if isReflectValue(t) {
		return add(num(s.c), scale(lenTerm(v), s.k))
	}
	return add(num(s.c), scale(lenOf(v, t), s.k))
}

// element: a value that is an element or field of another.
func element(v *Term) (of, idx *Term) {
	for v != nil && v.Op == TApp && v.Aux == "reflect.Elem" && len(v.Args) == 1 {
		v = v.Args[0]
	}
	if v != nil && v.Op == TApp && (v.Aux == "reflect.Index" || v.Aux == "reflect.Field") && len(v.Args) == 2 {
		return v.Args[0], v.Args[1]
	}
	return nil, nil
}

func (m *szM) wrote(x *Exec, st *State, fr *Frame, in ssa.Instruction, w, t, v *Term, bytes, items *Term) {
	if of, idx := element(v); of != nil {
		at := m.cell(x, st, w, 1)
		if t != nil && t.Op == TApp && t.Aux == "nn:writerfor" && m.dyn != nil {
			// elements of any type: those that are nil are left out
			m.dyn[x.root] = true
			m.emit(x, st, fr, w, bytes, nil)
			return
		}
		if idx.Org != nil && idx.Org.Op == TField {
			// the place of a field, from an entry of a table
			idx = idx.Org.Args[0]
			if idx.Op == TIndex {
				idx = idx.Args[1]
			}
		}
		if st.eval(eqTerm(idx, at)) != 1 {
			m.bad(in.Pos(), "element out of turn", fr.fn, st, "element %s is written as element number %s", idx, at)
		} else {
			m.r.OK(in.Pos(), "element in its turn")
		}
		m.sites["elements"]++
		items = num(1)
	} else {
		st.setG("whole", w, "1")
		st.vals["wholeT"], st.vals["wholeV"] = t, v
	}
	m.emit(x, st, fr, w, bytes, items)
}

func (m *szM) monitor() *Monitor {
	P := m.P
	mon := &Monitor{Name: "sizes", Unroll: -1, NoLockCk: true, JoinAt: 400, JoinBlk: 400, Arith: true, CellLin: true, Facts: true, Headers: true}
	mon.Relevant = func(f *ssa.Function) bool { return P.relPkg(f) == "marshal" }
	mon.Keep = func(x *Exec, st *State, addr *Term, ci *CallInfo) bool { return true }
	mon.Loaded = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, addr, val *Term) {
		if b := isField(addr, m.twKey, "Type"); b != nil {
			st.vals[gk("typeof", b)] = val
		}
	}
	mon.Call = func(x *Exec, st *State, fr *Frame, ci *CallInfo) ([]Outcome, bool) {
		if o, ok := pureReflect(x, st, ci); ok {
			return o, true
		}
		if f := ci.Fn; f != nil && f.Name() == "String" && fnPkgPath(f) == "reflect" && len(ci.Args) == 1 && isReflectValue(ci.Args[0].Typ) {
			// the string of a value of kind string
			v := fresh("string", types.Typ[types.String])
			st.assume(eqTerm(lenOf(v, v.Typ), lenTerm(ci.Args[0])))
			return []Outcome{{st: st, vals: []*Term{v}}}, true
		}
		sig := ci.Common.Signature()
		done := func() ([]Outcome, bool) {
			var vs []*Term
			for i := 0; i < sig.Results().Len(); i++ {
				vs = append(vs, fresh("res", sig.Results().At(i).Type()))
			}
			return []Outcome{{st: st, vals: vs}}, true
		}
		f := ci.Fn
		static := ci.Common.StaticCallee() != nil
		// writers of types
		if f != nil && f.Signature.Recv() == nil && len(ci.Args) == 1 && f.Signature.Results().Len() == 1 && m.isTW(f.Signature.Results().At(0).Type()) {
			return []Outcome{{st: st, vals: []*Term{mk(TApp, f.Signature.Results().At(0).Type(), "nn:writerfor", 0, ci.Args[0])}}}, true
		}
		if f != nil && isMethodOf(f, m.tw) {
			switch {
			case len(ci.Args) == 2 && isReflectValue(f.Signature.Params().At(0).Type()) && f.Signature.Results().Len() == 1:
				m.sites["measured"]++
				if m.readsField(f, "Cnt") {
					c := countApp(ci.Args[0], ci.Args[1])
					st.assume(ge0(c))
					return []Outcome{{st: st, vals: []*Term{c}}}, true
				}
				s2 := st.clone()
				c := bytesApp(ci.Args[0], ci.Args[1])
				st.assume(ge0(c))
				s2.note(ci.Instr.Pos(), "the size is not known in advance")
				return []Outcome{{st: st, vals: []*Term{c}}, {st: s2, vals: []*Term{num(-1)}}}, true
			case len(ci.Args) == 4 && m.isW(ci.Args[1].Typ):
				m.delegated(x, st, fr, ci, ci.Args[1], ci.Args[0], ci.Args[2], ci.Args[3])
				return done()
			}
			return nil, false
		}
		// prefixes through a function value
		if !static && ci.Method == nil && m.prefixes(ci.Common.Value.Type()) {
			kind := "size"
			if strings.Contains(fr.fn.Name(), "Count") || strings.Contains(fr.fn.Name(), "Cnt") {
				kind = "count"
			}
			m.announce(x, st, fr, ci.Instr.Pos(), ci.Args[0], ci.Args[1], kind)
			return done()
		}
		if f == nil && ci.Method == nil && ci.FnTerm != nil && m.writes(sig) {
			o := ci.FnTerm.Org
			if o != nil && o.Op == TField && fieldOwner[o] == m.twKey {
				t := o.Args[0]
				b, c := bytesApp(t, ci.Args[1]), countApp(t, ci.Args[1])
				if o.Aux != "Write" {
					// with what it announces itself
					b, c = nil, nil
					st.setG("auto", ci.Args[0], "1")
				}
				m.wrote(x, st, fr, ci.Instr, ci.Args[0], t, ci.Args[1], b, c)
				return done()
			}
			m.emit(x, st, fr, ci.Args[0], nil, nil)
			return done()
		}
		if f != nil && isMethodOf(f, m.wr) {
			w := ci.Args[0]
			ps := f.Signature.Params()
			switch {
			case f.Name() == "Written":
				n := m.out(x, st, w)
				for i := 0; i < 5; i++ {
					if i != 1 {
						x.recordWrite(fr, szCell(w, i))
						st.mem[szCell(w, i)] = num(0)
					}
				}
				t := f.Signature.Results().At(0).Type()
				b := fresh("out", types.NewPointer(types.Typ[types.Uint8]))
				return []Outcome{{st: st, vals: []*Term{mkSlice(t, b, num(0), n, n)}}}, true
			case m.lengthens(f):
				m.emit(x, st, fr, w, ci.Args[1], num(0))
				return nil, false
			case ps.Len() == 1 && f.Signature.Results().Len() == 0:
				pt := ps.At(0).Type()
				s, ok := m.sum[f]
				if !ok {
					s, ok = natural(pt)
				}
				v := ci.Args[1]
				if isIntT(pt) && !ok || f.Name() == "Intvar" || f.Name() == "Uint64var" {
					m.emit(x, st, fr, w, nil, num(1))
					return done()
				}
				if !ok {
					m.emit(x, st, fr, w, nil, num(1))
					return done()
				}
				if isIntT(pt) && static && !isMethodOf(x.root, m.wr) || isIntT(pt) && static && x.root.Signature.Params().Len() == 1 && !isIntT(x.root.Signature.Params().At(0).Type()) && x.root != f {
					m.announce(x, st, fr, ci.Instr.Pos(), w, v, "count")
					return done()
				}
				items := num(1)
				if s.k != 0 {
					items = scale(m.sumTerm(szSum{0, 1}, v, pt), 1)
				}
				m.emitSum(x, st, fr, w, s, v, pt, items)
				return done()
			case ps.Len() == 2 && m.prefixes(ps.At(1).Type()):
				m.delegated(x, st, fr, ci, w, nil, ci.Args[1], ci.Args[2])
				return done()
			}
			return nil, false
		}
		if ci.Method != nil && f == nil {
			for _, a := range ci.Args {
				if a != nil && a.Typ != nil && m.isW(a.Typ) {
					st.setG("user", nil, "1")
					m.emit(x, st, fr, a, nil, num(1))
					return done()
				}
			}
		}
		return nil, false
	}
	mon.End = func(x *Exec, o *Outcome) {
		if o.kind != OutReturn {
			return
		}
		st := o.st
		st.eachG("ann", func(w *Term, kind string) {
			n := st.vals[gk("annN", w)]
			if kind == "done" {
				return
			}
			var got *Term
			if kind == "size" {
				got = sub(m.out(x, st, w), st.vals[gk("annB", w)])
			} else {
				got = sub(m.cell(x, st, w, 1), st.vals[gk("annI", w)])
			}
			m.sites["announcements compared"]++
			if st.eval(eqTerm(n, got)) != 1 {
				m.bad(o.pos, "wrong "+kind, x.root, st, "a %s of %s is announced, but %s is what follows", kind, n, got)
			} else {
				m.r.OK(o.pos, "announced "+kind+" is what follows")
			}
		})
	}
	return mon
}

// delegated: a value is written with its prefix by another function.
func (m *szM) delegated(x *Exec, st *State, fr *Frame, ci *CallInfo, w, t, v, pf *Term) {
	m.sites["handed on with prefix"]++
	if t != nil {
		m.wrote(x, st, fr, ci.Instr, w, t, v, nil, nil)
	} else {
		m.emit(x, st, fr, w, nil, num(1))
	}
	for i, p := range x.root.Params {
		if m.prefixes(p.Type()) {
			if st.g("ann", w) != "" {
				m.bad(ci.Instr.Pos(), "announced twice", fr.fn, st, "a value is written with a prefix although one was announced before")
			}
			st.setG("ann", w, "done")
			if pf != x.args[i] {
				m.bad(ci.Instr.Pos(), "wrong prefix", fr.fn, st, "the prefix is written by another function than the one given")
			}
		}
	}
}

func deref(t types.Type) types.Type {
	if p, ok := under(t).(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func checkSizes(P *Program, r *Report) {
	m := &szM{P: P, r: r, wr: P.Type("marshal", "Writer"), tw: P.Type("marshal", "TWriter"), sites: map[string]int{}, sum: map[*ssa.Function]szSum{}}
	if m.wr == nil || m.tw == nil || structField(m.wr, "buf") < 0 {
		r.Add(0, "undecided", "", nil, "the writer was not found")
		return
	}
	for _, f := range []string{"Type", "Elem", "Write", "WriteAuto", "Sz", "SzGet", "Cnt", "CntGet"} {
		if structField(m.tw, f) < 0 {
			r.Add(0, "undecided", "", nil, "the field %s of the writer of types was not found", f)
			return
		}
	}
	m.twKey = types.TypeString(m.tw, nil)
	m.growers()
	m.primitives()
	m.announcers()
	m.structs()
	m.tables()
	for k, v := range m.sites {
		r.Counts["events: "+k] = v
	}
	r.Floor("functions that put values into the buffer", m.sites["primitives"], 20)
	r.Floor("announcements compared", m.sites["announcements compared"], 16)
}

// touchesBuf: the function works on the buffer itself.
func (m *szM) touchesBuf(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if fa, ok := in.(*ssa.FieldAddr); ok && m.isW(fa.X.Type()) && fa.Field == structField(m.wr, "buf") {
				return true
			}
		}
	}
	return false
}

// works: the function works on the buffer, or on room it asked for.
func (m *szM) works(fn *ssa.Function) bool {
	if m.touchesBuf(fn) {
		return true
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if f := c.Common().StaticCallee(); f != nil && isMethodOf(f, m.wr) && f.Signature.Results().Len() > 0 {
					return true
				}
			}
		}
	}
	return false
}

func (m *szM) noneLeft(st *State, l *Term) bool { return st.eval(ge0(sub(num(0), l))) == 1 }

func (m *szM) primitives() {
	type cand struct {
		fn   *ssa.Function
		want szSum
		free bool // want is learned
	}
	var first, second []cand
	for _, fn := range m.P.Funcs {
		if m.P.relPkg(fn) != "marshal" || !isMethodOf(fn, m.wr) || fn.Signature.Params().Len() != 1 || fn.Signature.Results().Len() != 0 || fn.Blocks == nil {
			continue
		}
		pt := fn.Signature.Params().At(0).Type()
		if fn.Name() == "Uint64var" || fn.Name() == "Intvar" {
			continue
		}
		s, ok := natural(pt)
		switch {
		case ok && m.works(fn):
			first = append(first, cand{fn, s, false})
		case ok:
			second = append(second, cand{fn, s, false})
		case isReflectValue(pt) || isIntT(pt):
			second = append(second, cand{fn, s, true})
		}
	}
	run := func(c cand, buf bool) {
		mon := m.monitor()
		if buf {
			mon = m.bufMonitor()
		}
		var got []szSum
		pt := c.fn.Signature.Params().At(0).Type()
		mon.End = func(x *Exec, o *Outcome) {
			if o.kind != OutReturn {
				return
			}
			st := o.st
			m.sites["primitives"]++
			var n *Term
			if buf {
				n = m.bufDelta(x, st)
			} else {
				n = m.out(x, st, x.self)
			}
			if !c.free {
				if st.eval(eqTerm(n, m.sumTerm(c.want, x.args[1], pt))) != 1 {
					m.bad(o.pos, "wrong length", c.fn, st, "%s bytes are written for a value of %s", n, m.sumTerm(c.want, x.args[1], pt))
				} else {
					m.r.OK(o.pos, "as many bytes as the value has")
				}
				return
			}
			for _, s := range []szSum{{1, 0}, {2, 0}, {4, 0}, {8, 0}, {0, 1}, {0, 2}, {0, 4}, {0, 8}} {
				if st.eval(eqTerm(n, m.sumTerm(s, x.args[1], pt))) == 1 && (s.k == 0 || !m.noneLeft(st, lenTerm(x.args[1]))) {
					got = append(got, s)
					return
				}
			}
			if isReflectValue(pt) && m.noneLeft(st, lenTerm(x.args[1])) && st.eval(eqTerm(n, num(0))) == 1 {
				return // nothing for nothing
			}
			got = append(got, szSum{-1, -1})
		}
		x := newExec(m.P, m.r, mon)
		x.RunRoot(c.fn, func(st *State, args []*Term) {
			m.begin(st, args)
			if buf {
				m.bufSetup(x, st, args)
			}
		})
		if c.free && len(got) > 0 {
			s := got[0]
			for _, g := range got {
				if g != s {
					m.bad(c.fn.Pos(), "wrong length", c.fn, nil, "%s writes values in different lengths: %v and %v", c.fn.Name(), s, g)
					return
				}
			}
			if s.c >= 0 && s.k >= 0 {
				m.sum[c.fn] = s
			}
		} else if !c.free {
			m.sum[c.fn] = c.want
		}
	}
	for _, c := range first {
		run(c, true)
	}
	for _, c := range second {
		run(c, false)
	}
	m.sites["functions of known length"] = len(m.sum)
}

func (m *szM) announcers() {
	for _, fn := range m.P.Funcs {
		if m.P.relPkg(fn) != "marshal" || fn.Blocks == nil || m.sum[fn].c != 0 || m.sum[fn].k != 0 {
			continue
		}
		sig := fn.Signature
		pf, takesW := false, sig.Recv() != nil && m.isW(sig.Recv().Type())
		for i := 0; i < sig.Params().Len(); i++ {
			pf = pf || m.prefixes(sig.Params().At(i).Type())
			takesW = takesW || m.isW(sig.Params().At(i).Type())
		}
		if !takesW {
			continue
		}
		if !pf && !(sig.Params().Len() >= 1 && isEmptyIface(sig.Params().At(sig.Params().Len()-1).Type())) {
			continue
		}
		mon := m.monitor()
		end := mon.End
		mon.End = func(x *Exec, o *Outcome) {
			end(x, o)
			if pf && o.kind == OutReturn {
				any := false
				o.st.eachG("ann", func(w *Term, k string) { any = true })
				if !any {
					m.bad(o.pos, "not announced", fn, o.st, "a value is written without its prefix")
				}
			}
		}
		m.sites["announcing functions"]++
		newExec(m.P, m.r, mon).RunRoot(fn, m.begin)
	}
}

func isEmptyIface(t types.Type) bool {
	i, ok := under(t).(*types.Interface)
	return ok && i.NumMethods() == 0
}
