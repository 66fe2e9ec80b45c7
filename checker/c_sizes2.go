package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// M04, structs: the size of a struct is the sum of its fields and their prefixes.

// realFn: the method behind a method value or expression.
func (m *szM) realFn(t *Term) *ssa.Function {
	if t == nil || t.Fn == nil {
		return nil
	}
	f := t.Fn
	if f.Synthetic != "" {
		if o, ok := f.Object().(*types.Func); ok {
			if g := f.Prog.FuncValue(o); g != nil {
				return g
			}
		}
	}
	return f
}

// sizeSlice: the int values that flow into what is stored as the size.
func (m *szM) sizeSlice(fn *ssa.Function) map[ssa.Value]bool {
	res := map[ssa.Value]bool{}
	var follow func(v ssa.Value)
	follow = func(v ssa.Value) {
		if res[v] || !isIntT(v.Type()) {
			return
		}
		switch w := v.(type) {
		case *ssa.Phi:
			res[v] = true
			for _, e := range w.Edges {
				follow(e)
			}
		case *ssa.BinOp:
			if w.Op == token.ADD {
				res[v] = true
				follow(w.X)
				follow(w.Y)
			}
		case *ssa.Call:
			if f := w.Call.StaticCallee(); f != nil && m.P.relPkg(f) == "marshal" {
				res[v] = true
				for _, a := range w.Call.Args {
					follow(a)
				}
			}
		case *ssa.Extract:
			res[v] = true
			if c, ok := w.Tuple.(*ssa.Call); ok {
				for _, a := range c.Call.Args {
					follow(a)
				}
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok {
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok && m.isTW(fa.X.Type()) && fa.Field == structField(m.tw, "Sz") && fa.X == ssa.Value(fn.Params[0]) {
					follow(s.Val)
				}
			}
		}
	}
	return res
}

func hasStr(t *Term, s string) bool {
	found := false
	t.walk(func(x *Term) bool {
		if c, ok := x.isStr(); ok && c == s {
			found = true
		}
		return !found
	})
	return found
}

func (m *szM) structs() {
	m.structFns = map[*ssa.Function]bool{}
	fi := structField(m.tw, "Flds")
	if fi < 0 {
		return
	}
	sl, ok := under(m.tw.Underlying().(*types.Struct).Field(fi).Type()).(*types.Slice)
	if !ok {
		return
	}
	fwT := sl.Elem()
	fwS, ok := under(fwT).(*types.Struct)
	if !ok {
		return
	}
	fwKey := types.TypeString(fwT, nil)
	var pfx []string // fields that write prefixes
	for i := 0; i < fwS.NumFields(); i++ {
		if m.prefixes(fwS.Field(i).Type()) {
			pfx = append(pfx, fwS.Field(i).Name())
		}
	}
	for _, fn := range m.P.Funcs {
		if m.P.relPkg(fn) != "marshal" || !isMethodOf(fn, m.tw) || fn.Signature.Params().Len() != 0 || fn.Blocks == nil {
			continue
		}
		uses := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok && m.isTW(fa.X.Type()) && fa.Field == fi {
						uses = true
					}
				}
			}
		}
		sizes := m.sizeSlice(fn)
		if !uses || len(sizes) == 0 {
			continue
		}
		m.structFns[fn] = true
		m.structSize(fn, sizes, fwKey, pfx, fi)
	}
}

func (m *szM) structSize(fn *ssa.Function, sizes map[ssa.Value]bool, fwKey string, pfx []string, fi int) {
	mon := &Monitor{Name: "structsize", Unroll: -1, NoLockCk: true, JoinAt: 400, JoinBlk: 400, Arith: true, Facts: true}
	mon.Relevant = func(f *ssa.Function) bool { return m.P.relPkg(f) == "marshal" }
	mon.Keep = func(x *Exec, st *State, addr *Term, ci *CallInfo) bool { return true }
	mon.Call = func(x *Exec, st *State, fr *Frame, ci *CallInfo) ([]Outcome, bool) {
		if o, ok := pureReflect(x, st, ci); ok {
			return o, true
		}
		f := ci.Fn
		if f == nil || m.P.relPkg(f) != "marshal" {
			return nil, false
		}
		sig := f.Signature
		if sig.Recv() == nil && len(ci.Args) == 1 && sig.Results().Len() == 1 {
			rt := sig.Results().At(0).Type()
			if m.isTW(rt) {
				return []Outcome{{st: st, vals: []*Term{mk(TApp, rt, "nn:writerfor", 0, ci.Args[0])}}}, true
			}
			if isIntT(sig.Params().At(0).Type()) && isIntT(rt) {
				v := mk(TApp, rt, "varsize", 0, stripConv(ci.Args[0]))
				st.assume(ge0(sub(v, num(1))))
				return []Outcome{{st: st, vals: []*Term{v}}}, true
			}
		}
		if isMethodOf(f, m.tw) && ci.Args[0] != x.self {
			return []Outcome{{st: st}}, sig.Results().Len() == 0
		}
		return nil, false
	}
	mon.Store = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, addr, old, val *Term) {
		if in == nil {
			return
		}
		for _, f := range pfx {
			if b := isField(addr, fwKey, f); b != nil && val != nil && !val.isNil() {
				st.setG("pfx", nil, "1")
				st.vals["pfxF"] = val
				st.vals["pfxW"] = strTerm(f)
			}
		}
		if b := isField(addr, m.twKey, "Flds"); b != nil && b == x.self {
			st.setG("appended", nil, "1")
		}
	}
	// grown: s1 is s0 and n more, or unknown.
	grown := func(st *State, s0, s1 *Term, ns ...*Term) bool {
		if s1 == nil || s0 == nil {
			return true
		}
		if st.eval(ge0(s1)) == 0 {
			return true
		}
		for _, n := range ns {
			if n != nil && st.eval(eqTerm(s1, add(s0, n))) == 1 && (n == num(0) || st.eval(ge0(s0)) == 1) {
				return true
			}
		}
		return false
	}
	mon.BackEdge = func(x *Exec, st *State, fr *Frame, h *ssa.BasicBlock) {
		la := fr.loops[h]
		if la == nil || fr.fn != fn {
			return
		}
		pos := h.Instrs[0].Pos()
		for _, p := range phisOf(h) {
			if !sizes[p] {
				continue
			}
			if p.Pos() != 0 {
				pos = p.Pos()
			}
			s0, s1 := fr.env[p], la.next[p]
			if !m.outer(fn, h, sizes) {
				// a directive
				m.sites["rounds over directives"]++
				n := num(0)
				if st.g("pfx", nil) != "" {
					n = nil
					g := m.realFn(st.vals["pfxF"])
					if s, ok := m.sum[g]; g != nil && ok && s.k == 0 {
						n = num(s.c)
					} else if g != nil {
						of := "Sz"
						if w, _ := st.vals["pfxW"].isStr(); strings.HasPrefix(strings.ToLower(w), "c") {
							of = "Cnt"
						}
						for _, f := range s1.parts() {
							if f.Op == TApp && f.Aux == "varsize" && f.Args[0].Org != nil && isField(f.Args[0].Org, m.twKey, of) != nil && st.eval(ge0(f.Args[0])) == 1 {
								n = f
							}
						}
					}
					m.sites["prefixes counted"]++
				}
				if !grown(st, s0, s1, n) {
					m.bad(pos, "wrong size of a prefix", fn, st, "the size of a struct goes from %s to %s where the prefix takes %s", s0, s1, n)
				} else {
					m.r.OK(pos, "prefix counted")
				}
				for _, q := range phisOf(h) {
					if b, ok := under(q.Type()).(*types.Basic); ok && b.Kind() == types.Bool && la.next[q] == tTrue && fr.env[q] != tTrue {
						if st.eval(ge0(s1)) != 0 && st.eval(fr.env[q]) != 1 {
							m.bad(pos, "wrong size of a field", fn, st, "the size of a struct stays known although the field is written in another way")
						}
					}
				}
				continue
			}
			m.sites["rounds over fields"]++
			sE := s0
			for _, b := range fn.Blocks {
				for _, q := range phisOf(b) {
					if sizes[q] && b != h && fr.env[q] != nil && born(fr.env[q]) > la.seq && m.isHeader(b) {
						sE = fr.env[q]
					}
				}
			}
			if st.g("appended", nil) == "" {
				if s1 == s0 {
					m.r.OK(pos, "field left out")
				} else if s1 == sE && (m.skipped(st) || m.noPrefix(st, fwKey, pfx)) {
					m.r.OK(pos, "field left out")
				} else if st.eval(ge0(s1)) != 0 {
					m.bad(pos, "field left out", fn, st, "the size of a struct goes from %s to %s although the field is not written", s0, s1)
				}
				continue
			}
			var n []*Term
			for _, f := range s1.parts() {
				if f.Org != nil && isField(f.Org, m.twKey, "Sz") != nil && st.eval(ge0(f)) == 1 {
					n = append(n, f)
				}
			}
			for a, v := range st.mem {
				if isField(a, m.twKey, "Sz") != nil && v != nil && a.Args[0] != x.self && st.eval(eqTerm(v, num(0))) == 1 {
					n = append(n, num(0))
				}
			}
			if !grown(st, sE, s1, n...) {
				m.bad(pos, "wrong size of a field", fn, st, "the size of a struct goes from %s to %s with a field", sE, s1)
			} else {
				m.r.OK(pos, "field counted")
			}
		}
		st.setG("pfx", nil, "")
		st.setG("appended", nil, "")
	}
	mon.End = func(x *Exec, o *Outcome) {
		if o.kind != OutReturn {
			return
		}
		m.sites["sizes of structs"]++
	}
	newExec(m.P, m.r, mon).RunRoot(fn, nil)
	// the sum starts with nothing
	for v := range sizes {
		p, ok := v.(*ssa.Phi)
		if !ok || !m.isHeader(p.Block()) || !m.outer(fn, p.Block(), sizes) {
			continue
		}
		for i, e := range p.Edges {
			if p.Block().Dominates(p.Block().Preds[i]) {
				continue
			}
			if c, ok := e.(*ssa.Const); ok && c.Value != nil {
				if k, ok := constant.Int64Val(c.Value); ok && k > 0 {
					m.bad(p.Pos(), "wrong size of a struct", fn, nil, "the size of a struct starts with %d", k)
				}
			}
		}
	}
}

func (m *szM) isHeader(b *ssa.BasicBlock) bool {
	for _, p := range b.Preds {
		if b.Dominates(p) {
			return true
		}
	}
	return false
}

// outer: no other loop that sums sizes is around this one.
func (m *szM) outer(fn *ssa.Function, h *ssa.BasicBlock, sizes map[ssa.Value]bool) bool {
	for _, b := range fn.Blocks {
		if b == h || !m.isHeader(b) || !b.Dominates(h) {
			continue
		}
		for _, p := range phisOf(b) {
			if sizes[p] {
				// h lies inside of the loop of b when it reaches the back edge
				seen := map[*ssa.BasicBlock]bool{}
				var reach func(c *ssa.BasicBlock) bool
				reach = func(c *ssa.BasicBlock) bool {
					if c == b {
						return true
					}
					if seen[c] {
						return false
					}
					seen[c] = true
					for _, s := range c.Succs {
						if reach(s) {
							return true
						}
					}
					return false
				}
				if reach(h) {
					return false
				}
			}
		}
	}
	return true
}

func (m *szM) skipped(st *State) bool {
	res := false
	st.eachFact(func(f *Term) bool {
		if f.Op != TNot && hasStr(f, "skip") {
			res = true
		}
		return !res
	})
	return res
}

// noPrefix: the field has no prefix.
func (m *szM) noPrefix(st *State, fwKey string, pfx []string) bool {
	for _, f := range pfx {
		none := false
		for a, v := range st.mem {
			if v != nil && isField(a, fwKey, f) != nil && st.isNilFact(v) == 1 {
				none = true
			}
		}
		if !none {
			return false
		}
	}
	return true
}

// parts: the unknowns of a sum.
func (t *Term) parts() []*Term {
	if t.Op != TLin {
		return []*Term{t}
	}
	var r []*Term
	for _, p := range t.P {
		r = append(r, p.T)
	}
	return r
}
