package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// M04, tables: the size and the count that a table announces are those of the function it writes with.

var kindWidth = map[int64]int64{3: 1, 4: 2, 5: 4, 6: 8, 8: 1, 9: 2, 10: 4, 11: 8, 13: 4, 14: 8}

func isNilV(v *Term) *Term { return mk(TApp, types.Typ[types.Bool], "reflect.IsNil", 0, v) }

func (m *szM) readsField(f *ssa.Function, name string) bool {
	i := structField(m.tw, name)
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if fa, ok := in.(*ssa.FieldAddr); ok && m.isTW(fa.X.Type()) && fa.Field == i {
				return true
			}
		}
	}
	return false
}

// partOf: v is the field of the writer of types base (nil: any).
func (m *szM) partOf(v *Term, name string, base *Term) bool {
	if v == nil || v.Org == nil {
		return false
	}
	b := isField(v.Org, m.twKey, name)
	return b != nil && (base == nil || b == base)
}

// product of a length and the size of an element
func (m *szM) product(s, elem *Term, isLen func(*Term) bool) bool {
	s = stripConv(s)
	if s.Op == TLin && s.C == 0 && len(s.P) == 1 && s.P[0].K == 1 {
		s = s.P[0].T
	}
	if s.Op != TBin || s.Aux != "*" {
		return false
	}
	for i := 0; i < 2; i++ {
		if isLen(s.Args[i]) && m.partOf(s.Args[1-i], "Sz", nil) && (isField(s.Args[1-i].Org, m.twKey, "Sz") == elem || m.partOf(isField(s.Args[1-i].Org, m.twKey, "Sz"), "Elem", nil)) {
			return true
		}
	}
	return false
}

// classify: what a writer of values writes.
func (m *szM) classify(fn *ssa.Function) map[string]bool {
	if c, ok := m.class[fn]; ok {
		return c
	}
	res := map[string]bool{}
	m.class[fn] = res
	var w, v *Term
	mon := m.monitor()
	mon.End = func(x *Exec, o *Outcome) {
		if o.kind != OutReturn {
			return
		}
		st := o.st
		for i, p := range fn.Params {
			if m.isW(p.Type()) {
				w = x.args[i]
			} else if isReflectValue(p.Type()) {
				v = x.args[i]
			}
		}
		n := m.cell(x, st, w, 1)
		m.sites["paths of writers of values"]++
		count := false
		for a, c := range st.mem {
			if isField(a, m.twKey, "Cnt") != nil && c != nil && st.eval(ge0(sub(n, c))) == 1 {
				count = true
			}
			if isField(a, m.twKey, "Flds") != nil && c != nil && st.eval(eqTerm(n, lenOf(c, c.Typ))) == 1 {
				count = true
			}
		}
		switch {
		case st.g("user", nil) != "":
			res["user"] = true
		case st.g("whole", w) != "":
			switch st.vals["wholeV"] {
			case v:
				res["self"] = true
			case mk(TApp, v.Typ, "reflect.Elem", 0, v):
				if st.eval(isNilV(v)) == 1 {
					m.bad(o.pos, "nothing handed on", fn, st, "the target of a nil reference is written")
				}
				res["handed on"] = true
			default:
				m.bad(o.pos, "another value", fn, st, "another value than the one given is written")
			}
		case st.eval(isNilV(v)) == 1 && st.eval(eqTerm(n, num(0))) == 1:
			res["nil"] = true
		case st.eval(eqTerm(n, lenTerm(v))) == 1 || count:
			res["each"] = true
		case m.dyn[fn]:
			res["some"] = true
		default:
			m.bad(o.pos, "elements left out", fn, st, "%s elements are written, not each of the value", n)
		}
		m.r.OK(o.pos, "writer of values")
	}
	newExec(m.P, m.r, mon).RunRoot(fn, m.begin)
	return res
}

// measure: what a function that measures values gives.
func (m *szM) measure(fn *ssa.Function) string {
	if c, ok := m.meas[fn]; ok {
		return c
	}
	if fn.Name() == "Len" && fnPkgPath(fn) == "reflect" {
		return "length"
	}
	res := ""
	mon := m.monitor()
	call := mon.Call
	mon.Call = func(x *Exec, st *State, fr *Frame, ci *CallInfo) ([]Outcome, bool) {
		if ci.Fn == nil && ci.Method != nil && fnPkg(ci.Method) != "reflect" {
			st.setG("user", nil, "1")
			return nil, false
		}
		return call(x, st, fr, ci)
	}
	mon.End = func(x *Exec, o *Outcome) {
		if o.kind != OutReturn || len(o.vals) != 1 {
			return
		}
		v := x.args[len(x.args)-1]
		k := "other"
		switch r := o.vals[0]; {
		case o.st.g("user", nil) != "":
			k = "user"
		case o.st.eval(eqTerm(r, lenTerm(v))) == 1:
			k = "length"
		case m.product(r, nil, func(l *Term) bool { return o.st.eval(eqTerm(l, lenTerm(v))) == 1 }):
			k = "elements"
		}
		if res != "" && res != k {
			k = "other"
		}
		res = k
	}
	newExec(m.P, m.r, mon).RunRoot(fn, m.begin)
	m.meas[fn] = res
	return res
}

func fnPkg(f *types.Func) string {
	if f.Pkg() == nil {
		return ""
	}
	return f.Pkg().Path()
}

func (m *szM) tables() {
	m.class, m.meas, m.dyn = map[*ssa.Function]map[string]bool{}, map[*ssa.Function]string{}, map[*ssa.Function]bool{}
	for _, fn := range m.P.Funcs {
		sig := fn.Signature
		if m.P.relPkg(fn) != "marshal" || fn.Blocks == nil {
			continue
		}
		if isMethodOf(fn, m.tw) && sig.Params().Len() == 0 && sig.Results().Len() == 0 && !m.structFns[fn] && fn.Synthetic == "" && m.readsField(fn, "Type") {
			m.table(fn)
		}
		if isMethodOf(fn, m.tw) && sig.Params().Len() == 1 && isReflectValue(sig.Params().At(0).Type()) && sig.Results().Len() == 1 && isIntT(sig.Results().At(0).Type()) {
			m.measuring(fn)
		}
		if isMethodOf(fn, m.tw) && sig.Params().Len() == 2 && m.isW(sig.Params().At(0).Type()) && isReflectValue(sig.Params().At(1).Type()) && sig.Results().Len() == 0 {
			m.classify(fn)
		}
	}
}

func (m *szM) table(fn *ssa.Function) {
	mon := m.monitor()
	call := mon.Call
	mon.Call = func(x *Exec, st *State, fr *Frame, ci *CallInfo) ([]Outcome, bool) {
		if ci.Fn != nil && m.structFns[ci.Fn] {
			st.setG("struct", nil, "1")
			return []Outcome{{st: st}}, true
		}
		return call(x, st, fr, ci)
	}
	mon.End = func(x *Exec, o *Outcome) {
		if o.kind != OutReturn || o.st.g("struct", nil) != "" {
			return
		}
		st, t := o.st, x.self
		get := func(n string) *Term {
			a := fieldOf(t, m.tw, n)
			return x.loadLeaf(st, a, cellType(a))
		}
		W, A, S, G, C, CG := get("Write"), get("WriteAuto"), get("Sz"), get("SzGet"), get("Cnt"), get("CntGet")
		f := m.realFn(W)
		if f == nil {
			return
		}
		m.sites["tables"]++
		pos := f.Pos()
		if p := fn.Pos(); pos == token.NoPos {
			pos = p
		}
		bad := func(rule, s string, a ...interface{}) { m.bad(pos, rule, f, st, s, a...) }
		rt := get("Type")
		kind := func(t *Term) int64 {
			if t == nil {
				return -1
			}
			kt := kindTerm(t)
			for k := int64(1); k < 27; k++ {
				if st.eval(eqTerm(kt, num(k))) == 1 {
					return k
				}
			}
			return -1
		}
		K, EK := kind(rt), int64(-1)
		for a, v := range st.mem {
			if b := isField(a, m.twKey, "Type"); b != nil && b != t && v != nil {
				if k := kind(v); k > 0 {
					EK = k
				}
			}
		}
		known := st.eval(ge0(S)) != 0
		arrayLen := func(l *Term) bool { return st.eval(eqTerm(l, C)) == 1 || st.eval(eqTerm(l, lenTerm(rt))) == 1 }
		g, cg := "", ""
		if h := m.realFn(G); h != nil {
			g = m.measure(h)
		}
		if h := m.realFn(CG); h != nil {
			cg = m.measure(h)
		}
		s, isSum := m.sum[f]
		var c map[string]bool
		if !isSum {
			if f.Blocks == nil || isMethodOf(f, m.wr) {
				// of varying length
				if known || g == "length" || g == "elements" || g == "user" {
					bad("wrong size of a type", "a size of %s is announced for a type that is written in varying length", S)
				}
				return
			}
			c = m.classify(f)
		}
		perElem := isSum && s.k > 0 || c["each"] || c["some"]
		// the size
		switch {
		case isSum && s.k == 0:
			if w := kindWidth[K]; w > 0 && w != s.c {
				bad("wrong width", "values of %d bytes are written with %d bytes", w, s.c)
			}
			if known && st.eval(eqTerm(S, num(s.c))) != 1 {
				bad("wrong size of a type", "a size of %s is announced for a type that is written with %d bytes", S, s.c)
			}
			if g != "" {
				bad("wrong size of a type", "a type of fixed length is measured by the value")
			}
		case perElem:
			if isSum && EK > 0 && kindWidth[EK] > 0 && kindWidth[EK] != s.k {
				bad("wrong width", "elements of %d bytes are written with %d bytes", kindWidth[EK], s.k)
			}
			if known && !m.product(S, get("Elem"), arrayLen) {
				bad("wrong size of a type", "a size of %s is announced, which is not the sum of the elements", S)
			}
			if g != "" && g != "elements" && !(g == "length" && isSum && s.k == 1) {
				bad("wrong size of a type", "the function that measures the type does not give the sum of the elements")
			}
		case c["user"]:
			if known || g != "" && g != "user" {
				bad("wrong size of a type", "a size is announced for a type that writes itself")
			}
		case c["handed on"]:
			if known || g != "" {
				bad("wrong size of a type", "a size is announced for a reference that may be nil")
			}
		}
		// the count
		if st.eval(ge0(C)) != 0 {
			one := st.eval(eqTerm(C, num(1))) == 1
			if perElem && !(st.eval(eqTerm(C, lenTerm(rt))) == 1) || isSum && s.k == 0 && !one || c["handed on"] || c["user"] {
				bad("wrong count of a type", "a count of %s is announced, which is not the number of elements", C)
			}
		}
		if cg != "" && !(cg == "length" && perElem || cg == "user" && c["user"]) {
			bad("wrong count of a type", "the function that counts the elements does not give their number")
		}
		if known && !A.isNil() && A != W {
			bad("wrong size of a type", "a type of known size is written with another function among others than alone")
		}
		m.r.OK(pos, "table agrees")
	}
	newExec(m.P, m.r, mon).RunRoot(fn, func(st *State, args []*Term) {
		for _, n := range []string{"Sz", "Cnt"} {
			st.mem[fieldOf(args[0], m.tw, n)] = num(-1)
		}
		for _, n := range []string{"Write", "WriteAuto", "SzGet", "CntGet", "Flds"} {
			st.mem[fieldOf(args[0], m.tw, n)] = nilTerm
		}
	})
}

// kindTerm: the kind of a value or type.
func kindTerm(v *Term) *Term {
	t := types.Type(tyInt)
	if n := namedOf(v.Typ); n != nil && n.Obj().Pkg() != nil {
		if o := n.Obj().Pkg().Scope().Lookup("Kind"); o != nil {
			t = o.Type()
		}
	}
	return mk(TApp, t, "reflect.Kind", 0, v)
}

// measuring: the size, or count, of a value is that of the table its writer uses.
func (m *szM) measuring(fn *ssa.Function) {
	fld := "Sz"
	if m.readsField(fn, "Cnt") {
		fld = "Cnt"
	}
	mon := m.monitor()
	call := mon.Call
	mon.Call = func(x *Exec, st *State, fr *Frame, ci *CallInfo) ([]Outcome, bool) {
		if ci.Fn == nil && ci.Method == nil && ci.FnTerm != nil && measures(ci.Common.Signature()) {
			if o := ci.FnTerm.Org; o != nil && fieldOwner[o] == m.twKey {
				return []Outcome{{st: st, vals: []*Term{mk(TApp, tyInt, "got:"+o.Aux, 0, o.Args[0], ci.Args[0])}}}, true
			}
		}
		return call(x, st, fr, ci)
	}
	mon.End = func(x *Exec, o *Outcome) {
		if o.kind != OutReturn || len(o.vals) != 1 {
			return
		}
		st, r := o.st, o.vals[0]
		t, v := x.args[0], x.args[1]
		m.sites["paths that measure"]++
		if st.eval(ge0(r)) == 0 {
			return
		}
		kt := kindTerm(v)
		el := mk(TApp, v.Typ, "reflect.Elem", 0, v)
		if st.eval(isNilV(v)) == 1 {
			if st.eval(eqTerm(r, num(0))) != 1 {
				m.bad(o.pos, "wrong "+fld, fn, st, "%s is given for a nil reference", r)
			}
			m.r.OK(o.pos, "measured")
			return
		}
		ok := false
		switch {
		case r.Op == TApp && (r.Aux == "bytes" || r.Aux == "count"):
			// another writer of types, the one for the target
			tt := r.Args[0]
			ok = r.Args[1] == el && st.eval(isNilV(v)) == 0 && tt.Op == TApp && tt.Aux == "nn:writerfor" && tt.Args[0].Op == TApp && tt.Args[0].Args[0] == el ||
				r.Args[1] == el && st.eval(isNilV(v)) == 0 && m.partOf(tt, "Elem", t)
		case r.Op == TApp && r.Aux == "got:"+fld+"Get":
			ok = m.sameOrElem(st, r.Args[0], r.Args[1], t, v, el, kt)
		case m.partOf(r, fld, nil):
			b := isField(r.Org, m.twKey, fld)
			ok = m.sameOrElem(st, b, nil, t, v, el, kt)
		}
		if !ok {
			m.bad(o.pos, "wrong "+fld, fn, st, "%s is given, which is not what the table of the type gives", r)
		} else {
			m.r.OK(o.pos, "measured")
		}
	}
	newExec(m.P, m.r, mon).RunRoot(fn, nil)
}

// sameOrElem: the table b, asked for value u, is the one for v, or for what v refers to.
func (m *szM) sameOrElem(st *State, b, u, t, v, el, kt *Term) bool {
	isPtr := st.eval(eqTerm(kt, num(22)))
	if b == t && isPtr == 0 {
		return u == nil || u == v
	}
	if m.partOf(b, "Elem", t) && isPtr == 1 && st.eval(isNilV(v)) == 0 {
		return u == nil || u == el
	}
	return false
}
