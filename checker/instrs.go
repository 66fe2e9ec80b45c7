package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var tyInt = types.Typ[types.Int]
var tyBool = types.Typ[types.Bool]

// ---- values

func (x *Exec) val(fr *Frame, st *State, v ssa.Value) *Term {
	switch c := v.(type) {
	case *ssa.Const:
		if c.Value == nil {
			return zeroVal(c.Type())
		}
		return constTerm(c.Value, c.Type())
	case *ssa.Function:
		return funcTerm(c)
	case *ssa.Global:
		return globalTerm(c)
	case *ssa.Builtin:
		return mk(TApp, nil, "builtin:"+c.Name(), 0)
	}
	if t, ok := fr.env[v]; ok {
		return t
	}
	// a value of a block that was never executed on this path: unknown
	t := x.freshVal(st, v.Name(), v.Type())
	fr.env[v] = t
	return t
}

func funcTerm(fn *ssa.Function) *Term {
	t := mk(TFunc, fn.Signature, fmt.Sprintf("%p", fn), 0)
	t.Fn = fn
	return t
}

func globalTerm(g *ssa.Global) *Term {
	return mk(TGlobal, g.Type(), g.RelString(nil), 0)
}

func lenOf(t *Term, typ types.Type) *Term {
	switch u := under(typ).(type) {
	case *types.Array:
		return num(u.Len())
	case *types.Pointer:
		if a, ok := under(u.Elem()).(*types.Array); ok {
			return num(a.Len())
		}
	}
	switch t.Op {
	case TSlice:
		return t.Args[2]
	case TConst:
		if t.isNil() {
			return num(0)
		}
		if s, ok := t.isStr(); ok {
			return num(int64(len(s)))
		}
	case TConv: // string <-> []byte
		if len(t.Args) == 1 && t.Args[0].Typ != nil || t.Args[0].Op == TSlice {
			at := t.Args[0].Typ
			if t.Args[0].Op == TSlice || isStrOrBytes(at) {
				return lenOf(t.Args[0], at)
			}
		}
	case TApp:
		if t.Aux == "concat" {
			return add(lenOf(t.Args[0], typ), lenOf(t.Args[1], typ))
		}
	}
	return mk(TLen, tyInt, "", 0, t)
}

func isStrOrBytes(t types.Type) bool {
	switch u := under(t).(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		b, ok := under(u.Elem()).(*types.Basic)
		return ok && b.Kind() == types.Uint8
	}
	return false
}

func capOf(t *Term, typ types.Type) *Term {
	switch u := under(typ).(type) {
	case *types.Array:
		return num(u.Len())
	case *types.Pointer:
		if a, ok := under(u.Elem()).(*types.Array); ok {
			return num(a.Len())
		}
	}
	switch t.Op {
	case TSlice:
		return t.Args[3]
	case TConst:
		return num(0)
	}
	return mk(TCap, tyInt, "", 0, t)
}

func (x *Exec) builtinLen(st *State, name string, t *Term, typ types.Type) *Term {
	if name == "cap" {
		return capOf(t, typ)
	}
	if _, ok := under(typ).(*types.Map); ok {
		return x.loadLeaf(st, mk(TField, tyInt, "$len", -1, t), tyInt)
	}
	if _, ok := under(typ).(*types.Chan); ok {
		n := fresh("chanlen", tyInt)
		n.Org = t
		return n
	}
	l := lenOf(t, typ)
	return l
}

// sliceParts: base, offset, len, cap of any slice value
func sliceParts(t *Term, typ types.Type) (base, off, ln, cp *Term) {
	if t.Op == TSlice {
		return t.Args[0], t.Args[1], t.Args[2], t.Args[3]
	}
	return t, num(0), lenOf(t, typ), capOf(t, typ)
}

func mkSlice(typ types.Type, base, off, ln, cp *Term) *Term {
	return mk(TSlice, typ, "", 0, base, off, ln, cp)
}

// ---- integer arithmetic

const big = int64(1) << 48

// small: provably |t| <= 2^48 (so that sums cannot overflow)
func (s *State) small(t *Term) bool {
	c, ps := linOf(t)
	if c > big || c < -big {
		return false
	}
	ok := true
	for _, p := range ps {
		if p.K > 1<<12 || p.K < -(1<<12) {
			return false
		}
		if p.T.Op == TLen || p.T.Op == TCap {
			continue
		}
		if p.T.Typ != nil && intBits(p.T.Typ) < 64 {
			continue
		}
		if p.T.Aux == "small" {
			continue
		}
		ok = false
	}
	if ok {
		return true
	}
	return s.prove(sub(num(big), t)) && s.prove(add(num(big), t))
}

func (s *State) inRange(t *Term, typ types.Type) bool {
	lo, hi, hl, hh := intRange(typ)
	if hl && !s.prove(sub(t, num(lo))) {
		return false
	}
	if hh && !s.prove(sub(num(hi), t)) {
		return false
	}
	return true
}

func (x *Exec) arith(st *State, op token.Token, a, b *Term, typ types.Type) *Term {
	exact := func(t *Term) bool {
		if _, ok := t.isInt(); ok {
			return st.inRange(t, typ)
		}
		if intBits(typ) == 64 {
			if isUnsigned(typ) && op == token.SUB {
				return st.prove(t)
			}
			if x.mon.Strict {
				return st.small(a) && st.small(b)
			}
			return true
		}
		return st.inRange(t, typ)
	}
	ai, aok := a.isInt()
	bi, bok := b.isInt()
	if aok && bok {
		if r, ok := evalBin(op.String(), ai, bi, typ); ok {
			return num(r)
		}
	}
	opaque := func() *Term {
		l, r := a, b
		switch op {
		case token.ADD, token.MUL, token.AND, token.OR, token.XOR:
			if _, lc := l.isInt(); lc || (!bok && l.ID > r.ID) {
				l, r = r, l
			}
		}
		if op == token.AND { // 0xff & x of narrower type is the identity
			if k, ok := r.isInt(); ok && k >= 0 && k&(k+1) == 0 && st.prove(l) && st.prove(sub(num(k), l)) {
				return l
			}
		}
		return mk(TBin, typ, op.String(), 0, l, r)
	}
	switch op {
	case token.ADD:
		t := add(a, b)
		if exact(t) {
			return t
		}
	case token.SUB:
		t := sub(a, b)
		if exact(t) {
			return t
		}
	case token.MUL:
		if bok {
			t := scale(a, bi)
			if exact(t) {
				return t
			}
		} else if aok {
			t := scale(b, ai)
			if exact(t) {
				return t
			}
		}
	case token.SHL:
		if bok && bi >= 0 && bi < 48 {
			t := scale(a, int64(1)<<uint(bi))
			if intBits(typ) == 64 && !x.mon.Strict || st.inRange(t, typ) && (intBits(typ) < 64 || st.small(t)) {
				return t
			}
		}
	case token.QUO, token.SHR, token.REM:
		if bok && op == token.QUO && bi == 1 || bok && op == token.SHR && bi == 0 {
			return a
		}
	case token.OR, token.XOR:
		if aok && ai == 0 {
			return b
		}
		if bok && bi == 0 {
			return a
		}
	}
	return opaque()
}

func (x *Exec) binop(st *State, v *ssa.BinOp, a, b *Term) *Term {
	xt := v.X.Type()
	switch v.Op {
	case token.EQL, token.NEQ:
		var r *Term
		if isIntType(xt) {
			r = eq0(sub(a, b))
		} else if ab, ok := a.isBool(); ok && isBoolT(xt) {
			r = b
			if !ab {
				r = not(b)
			}
		} else if bb, ok := b.isBool(); ok && isBoolT(xt) {
			r = a
			if !bb {
				r = not(a)
			}
		} else if a.Op == TStruct && b.Op == TStruct {
			r = tTrue
			for i := range a.Args {
				e := eqTerm(a.Args[i], b.Args[i])
				if r == tTrue {
					r = e
				} else if ev := st.eval(e); ev == 0 {
					r = tFalse
					break
				} else if ev != 1 {
					r = mk(TApp, tyBool, "and", 0, r, e)
				}
			}
		} else {
			// a string compared with "" is a length test
			if s, ok := b.isStr(); ok && s == "" {
				r = eq0(lenOf(a, xt))
			} else if s, ok := a.isStr(); ok && s == "" {
				r = eq0(lenOf(b, xt))
			} else {
				r = mkEq(a, b)
				if e := st.evalEq(a, b); e >= 0 {
					r = boolTerm(e == 1)
				}
			}
		}
		if v.Op == token.NEQ {
			return not(r)
		}
		return r
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if isIntType(xt) {
			switch v.Op {
			case token.LSS:
				return ge0(sub(sub(b, a), num(1)))
			case token.LEQ:
				return ge0(sub(b, a))
			case token.GTR:
				return ge0(sub(sub(a, b), num(1)))
			case token.GEQ:
				return ge0(sub(a, b))
			}
		}
		return mk(TBin, tyBool, v.Op.String(), 0, a, b)
	}
	if isIntType(v.Type()) {
		return x.arith(st, v.Op, a, b, v.Type())
	}
	if b1, ok := under(v.Type()).(*types.Basic); ok && b1.Info()&types.IsString != 0 && v.Op == token.ADD {
		if s1, ok := a.isStr(); ok {
			if s2, ok := b.isStr(); ok {
				return strTerm(s1 + s2)
			}
		}
		return mk(TApp, v.Type(), "concat", 0, a, b)
	}
	if a.Op == TConst && b.Op == TConst && a.Val != nil && b.Val != nil && a.Val.Kind() != constant.String {
		if v.Op != token.QUO {
			return constTerm(constant.BinaryOp(a.Val, v.Op, b.Val), v.Type())
		}
	}
	return mk(TBin, v.Type(), v.Op.String(), 0, a, b)
}

func isBoolT(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func (x *Exec) convert(st *State, t *Term, from, to types.Type) *Term {
	if isIntType(from) && isIntType(to) {
		if c, ok := t.isInt(); ok {
			return num(wrapInt(c, to))
		}
		lo, hi, hl, hh := intRange(to)
		flo, fhi, fhl, fhh := intRange(from)
		fits := true
		if intBits(to) == 64 && !hl { // to int64/int
			fits = fhh || !isUnsigned(from) // narrower or signed 64
			if !fits {                      // uint64 -> int: only when provably small
				fits = st.prove(sub(num(1<<62), t))
			}
		} else {
			if hl {
				fits = fhl && flo >= lo || st.prove(sub(t, num(lo)))
			}
			if fits && hh {
				fits = fhh && fhi <= hi || st.prove(sub(num(hi), t))
			}
		}
		if fits {
			return t
		}
		// conversions that only change the sign of same width values and back
		if t.Op == TConv && len(t.Args) == 1 && intBits(to) <= intBits(t.Typ) && isIntTerm(t.Args[0]) {
			return x.convert(st, t.Args[0], t.Typ0(), to)
		}
		return mkConv(to, from, t)
	}
	if types.Identical(under(from), under(to)) {
		return t
	}
	fs, ts := isStrOrBytes(from), isStrOrBytes(to)
	if fs && ts {
		if s, ok := t.isStr(); ok {
			if b, isB := under(to).(*types.Basic); isB && b.Info()&types.IsString != 0 {
				return strTerm(s)
			}
		}
		if t.isNil() {
			return strTerm("")
		}
		return mkConv(to, from, t)
	}
	if b, ok := under(to).(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return t
	}
	if b, ok := under(from).(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return t
	}
	if t.Op == TConst && t.Val != nil && (isIntType(from) || isFloatT(from)) && isFloatT(to) {
		return constTerm(constant.ToFloat(t.Val), to)
	}
	if c, ok := t.isInt(); ok && isFloatT(to) {
		return constTerm(constant.ToFloat(constant.MakeInt64(c)), to)
	}
	return mkConv(to, from, t)
}

func isFloatT(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

var convFrom = map[*Term]types.Type{}

func mkConv(to, from types.Type, t *Term) *Term {
	r := mk(TConv, to, tyKey(from), 0, t)
	convFrom[r] = from
	return r
}

func (t *Term) Typ0() types.Type { return convFrom[t] }

// ---- instructions

func (x *Exec) bounds(st *State, fr *Frame, in ssa.Instruction, what string, conds ...*Term) bool {
	if x.mon.Bounds == nil && !x.mon.Arith {
		return true
	}
	for _, c := range conds {
		if x.mon.Bounds != nil {
			x.mon.Bounds(x, st, fr, in, what, c)
		}
	}
	for _, c := range conds {
		if !st.assume(c) {
			return false
		}
	}
	return true
}

func (x *Exec) indexTerm(st *State, fr *Frame, in ssa.Instruction, base ssa.Value, idx *Term) (*Term, bool) {
	bt := x.val(fr, st, base)
	var elem types.Type
	var ln *Term
	switch u := under(base.Type()).(type) {
	case *types.Slice:
		elem = u.Elem()
		b, off, l, _ := sliceParts(bt, base.Type())
		bt, ln = b, l
		ok := x.bounds(st, fr, in, "index", ge0(idx), ge0(sub(sub(ln, idx), num(1))))
		return indexAddr(bt, add(off, idx), elem), ok
	case *types.Pointer:
		a := under(u.Elem()).(*types.Array)
		ok := x.bounds(st, fr, in, "index", ge0(idx), ge0(sub(num(a.Len()-1), idx)))
		return indexAddr(bt, idx, a.Elem()), ok
	}
	return indexAddr(bt, idx, elem), true
}

// simple executes side-effect free (or local) instructions; false: the path ends here (runtime panic).
func (x *Exec) simple(fr *Frame, st *State, in ssa.Instruction) bool {
	switch v := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		fr.env[v] = x.alloc(fr, v, allocName(v), under(v.Type()).(*types.Pointer).Elem())
	case *ssa.BinOp:
		fr.env[v] = x.binop(st, v, x.val(fr, st, v.X), x.val(fr, st, v.Y))
	case *ssa.UnOp:
		a := x.val(fr, st, v.X)
		switch v.Op {
		case token.MUL:
			fr.env[v] = x.load(st, fr, in, a, v.Type())
		case token.NOT:
			fr.env[v] = not(a)
		case token.SUB:
			if isIntType(v.Type()) {
				fr.env[v] = x.arith(st, token.SUB, num(0), a, v.Type())
			} else {
				fr.env[v] = mk(TUn, v.Type(), "-", 0, a)
			}
		case token.XOR:
			if c, ok := a.isInt(); ok && intBits(v.Type()) < 64 {
				fr.env[v] = num(wrapInt(^c, v.Type()))
			} else {
				fr.env[v] = mk(TUn, v.Type(), "^", 0, a)
			}
		default:
			fr.env[v] = x.freshVal(st, v.Name(), v.Type())
		}
	case *ssa.ChangeType:
		fr.env[v] = x.val(fr, st, v.X)
	case *ssa.Convert:
		fr.env[v] = x.convert(st, x.val(fr, st, v.X), v.X.Type(), v.Type())
	case *ssa.MultiConvert:
		fr.env[v] = mkConv(v.Type(), v.X.Type(), x.val(fr, st, v.X))
	case *ssa.ChangeInterface:
		fr.env[v] = x.val(fr, st, v.X)
	case *ssa.MakeInterface:
		fr.env[v] = mk(TIface, v.X.Type(), "", 0, x.val(fr, st, v.X))
	case *ssa.MakeClosure:
		fn := v.Fn.(*ssa.Function)
		var bs []*Term
		for _, b := range v.Bindings {
			bs = append(bs, x.val(fr, st, b))
		}
		t := mk(TClosure, v.Type(), fmt.Sprintf("%p", fn), 0, bs...)
		t.Fn = fn
		fr.env[v] = t
	case *ssa.MakeMap:
		fr.env[v] = x.alloc(fr, v, "map", v.Type())
	case *ssa.MakeChan:
		a := freshAlloc(v, "chan", v.Type())
		fr.env[v] = a
		st.vals[fmt.Sprint("chancap:", a.ID)] = x.val(fr, st, v.Size)
		st.assume(ge0(x.val(fr, st, v.Size))) // a negative size panics
	case *ssa.MakeSlice:
		l, c := x.val(fr, st, v.Len), x.val(fr, st, v.Cap)
		if !x.bounds(st, fr, in, "makeslice", ge0(l), ge0(sub(c, l))) {
			return false
		}
		a := freshAlloc(v, "slice", types.NewArray(under(v.Type()).(*types.Slice).Elem(), 0))
		fr.env[v] = mkSlice(v.Type(), a, num(0), l, c)
	case *ssa.FieldAddr:
		fr.env[v] = fieldAddr(x.val(fr, st, v.X), under(v.X.Type()).(*types.Pointer).Elem(), v.Field)
	case *ssa.Field:
		f := under(v.X.Type()).(*types.Struct).Field(v.Field)
		fr.env[v] = x.fieldOf(x.val(fr, st, v.X), v.Field, f.Type(), f.Name())
	case *ssa.IndexAddr:
		a, ok := x.indexTerm(st, fr, in, v.X, x.val(fr, st, v.Index))
		if !ok {
			return false
		}
		fr.env[v] = a
	case *ssa.Index:
		b, i := x.val(fr, st, v.X), x.val(fr, st, v.Index)
		if !x.bounds(st, fr, in, "index", ge0(i), ge0(sub(sub(lenOf(b, v.X.Type()), i), num(1)))) {
			return false
		}
		if s, ok := b.isStr(); ok {
			if k, ok := i.isInt(); ok && k >= 0 && k < int64(len(s)) {
				fr.env[v] = num(int64(s[k]))
				return true
			}
		}
		if k, ok := i.isInt(); ok && b.Op == TStruct && k >= 0 && k < int64(len(b.Args)) {
			fr.env[v] = b.Args[k]
			return true
		}
		fr.env[v] = mk(TIndexV, v.Type(), "", 0, b, i)
	case *ssa.Slice:
		return x.slice(fr, st, v)
	case *ssa.SliceToArrayPointer:
		b, off, _, _ := sliceParts(x.val(fr, st, v.X), v.X.Type())
		_ = off
		fr.env[v] = b
	case *ssa.Extract:
		t := x.val(fr, st, v.Tuple)
		if t.Op == TTuple && v.Index < len(t.Args) {
			fr.env[v] = t.Args[v.Index]
		} else {
			fr.env[v] = mk(TFieldV, v.Type(), fmt.Sprint("#", v.Index), v.Index, t)
		}
	case *ssa.Range:
		fr.env[v] = mk(TApp, nil, "rangeiter", 0, x.val(fr, st, v.X))
	default:
		if vv, ok := in.(ssa.Value); ok {
			fr.env[vv] = x.freshVal(st, vv.Name(), vv.Type())
		}
	}
	return true
}

func allocName(v *ssa.Alloc) string {
	if v.Comment != "" {
		return v.Comment
	}
	return shortType(under(v.Type()).(*types.Pointer).Elem())
}

func (x *Exec) slice(fr *Frame, st *State, v *ssa.Slice) bool {
	b := x.val(fr, st, v.X)
	xt := v.X.Type()
	lo := num(0)
	if v.Low != nil {
		lo = x.val(fr, st, v.Low)
	}
	if bt, ok := under(xt).(*types.Basic); ok && bt.Info()&types.IsString != 0 {
		ln := lenOf(b, xt)
		hi := ln
		if v.High != nil {
			hi = x.val(fr, st, v.High)
		}
		if !x.bounds(st, fr, v, "slice", ge0(lo), ge0(sub(hi, lo)), ge0(sub(ln, hi))) {
			return false
		}
		if s, ok := b.isStr(); ok {
			l, ok1 := lo.isInt()
			h, ok2 := hi.isInt()
			if ok1 && ok2 && l >= 0 && l <= h && h <= int64(len(s)) {
				fr.env[v] = strTerm(s[l:h])
				return true
			}
		}
		fr.env[v] = mkSlice(v.Type(), b, lo, sub(hi, lo), sub(hi, lo))
		return true
	}
	var base, off, ln, cp *Term
	if p, ok := under(xt).(*types.Pointer); ok {
		n := num(under(p.Elem()).(*types.Array).Len())
		base, off, ln, cp = b, num(0), n, n
	} else {
		base, off, ln, cp = sliceParts(b, xt)
	}
	hi := ln
	if v.High != nil {
		hi = x.val(fr, st, v.High)
	}
	max := cp
	conds := []*Term{ge0(lo), ge0(sub(hi, lo))}
	if v.Max != nil {
		max = x.val(fr, st, v.Max)
		conds = append(conds, ge0(sub(max, hi)), ge0(sub(cp, max)))
	} else {
		conds = append(conds, ge0(sub(cp, hi)))
	}
	if !x.bounds(st, fr, v, "slice", conds...) {
		return false
	}
	if b.isNil() {
		fr.env[v] = nilTerm
		return true
	}
	if v.Low == nil && v.High == nil && v.Max == nil && b.Op != TSlice {
		if _, isP := under(xt).(*types.Pointer); !isP {
			fr.env[v] = b
			return true
		}
	}
	fr.env[v] = mkSlice(v.Type(), base, add(off, lo), sub(hi, lo), sub(max, lo))
	return true
}

func (x *Exec) instrs(fr *Frame, st *State, b *ssa.BasicBlock, i int) []Outcome {
	for ; i < len(b.Instrs); i++ {
		if x.undecided != "" {
			return nil
		}
		in := b.Instrs[i]
		switch v := in.(type) {
		case *ssa.Jump:
			return x.block(fr, st, b.Succs[0], b)
		case *ssa.If:
			return x.branch(fr, st, b, v)
		case *ssa.Return:
			var vals []*Term
			for _, r := range v.Results {
				vals = append(vals, x.val(fr, st, r))
			}
			st.note(v.Pos(), "return from %s", fnName(fr.fn))
			return []Outcome{{st: st, kind: OutReturn, vals: vals, pos: v.Pos()}}
		case *ssa.Panic:
			st.note(v.Pos(), "panic in %s", fnName(fr.fn))
			st.escape(x.val(fr, st, v.X))
			return x.unwind(fr, st, v.Pos())
		case *ssa.RunDefers:
			outs := x.runDefers(fr, st, false, in.Pos())
			return x.fork(fr, outs, b, i+1, nil)
		case *ssa.Defer:
			ci := x.callInfo(fr, st, in, &v.Call)
			ci.Defer = true
			fr.defers = append(fr.defers, deferred{v, ci})
		case *ssa.Go:
			ci := x.callInfo(fr, st, in, &v.Call)
			ci.Go = true
			st.note(v.Pos(), "go %s", ci.Name())
			if x.mon.Go != nil {
				x.mon.Go(x, st, fr, ci)
			}
			for _, a := range ci.Args {
				st.escape(a)
			}
			for _, a := range ci.Bind {
				st.escape(a)
			}
			if ci.FnTerm != nil {
				st.escape(ci.FnTerm)
			}
			if ci.Recv != nil {
				st.escape(ci.Recv)
			}
		case *ssa.Send:
			ch, val := x.val(fr, st, v.Chan), x.val(fr, st, v.X)
			x.chanSend(fr, st, in, ch, val, true, nil)
		case *ssa.Select:
			return x.selectStmt(fr, st, b, i, v)
		case *ssa.Store:
			x.store(st, fr, in, x.val(fr, st, v.Addr), x.val(fr, st, v.Val), v.Val.Type())
		case *ssa.MapUpdate:
			x.mapUpdate(fr, st, in, x.val(fr, st, v.Map), x.val(fr, st, v.Key), x.val(fr, st, v.Value), v.Map.Type())
		case *ssa.Lookup:
			if _, ok := under(v.X.Type()).(*types.Map); ok {
				return x.mapLookup(fr, st, b, i, v)
			}
			bt, ix := x.val(fr, st, v.X), x.val(fr, st, v.Index)
			if !x.bounds(st, fr, in, "index", ge0(ix), ge0(sub(sub(lenOf(bt, v.X.Type()), ix), num(1)))) {
				return nil
			}
			if s, ok := bt.isStr(); ok {
				if k, ok := ix.isInt(); ok && k >= 0 && k < int64(len(s)) {
					fr.env[v] = num(int64(s[k]))
					continue
				}
			}
			fr.env[v] = mk(TIndexV, v.Type(), "", 0, bt, ix)
		case *ssa.Next:
			x.next(fr, st, v)
		case *ssa.TypeAssert:
			outs, done := x.typeAssert(fr, st, b, i, v)
			if done {
				return outs
			}
		case *ssa.UnOp:
			if v.Op == token.ARROW {
				x.chanRecv(fr, st, v)
				continue
			}
			x.simple(fr, st, in)
		case *ssa.Call:
			return x.callInstr(fr, st, b, i, v)
		default:
			if !x.simple(fr, st, in) {
				return nil
			}
		}
	}
	return nil
}

// fork continues after instruction i-1 with every outcome; set assigns the result.
func (x *Exec) fork(fr *Frame, outs []Outcome, b *ssa.BasicBlock, i int, set func(f *Frame, o *Outcome)) []Outcome {
	var res []Outcome
	for k := range outs {
		o := &outs[k]
		f := fr
		if k+1 < len(outs) {
			f = fr.clone()
		}
		if o.kind == OutPanic {
			res = append(res, x.unwind(f, o.st, o.pos)...)
			continue
		}
		if set != nil {
			set(f, o)
		}
		res = append(res, x.instrs(f, o.st, b, i)...)
	}
	return res
}

func (x *Exec) branch(fr *Frame, st *State, b *ssa.BasicBlock, v *ssa.If) []Outcome {
	c := x.val(fr, st, v.Cond)
	if c.Op == TApp && c.Aux == "and" {
		// conjunction of component equalities: false branch gets no fact
		s2 := st.clone()
		f2 := fr.clone()
		var res []Outcome
		if st.assume(c.Args[0]) && st.assume(c.Args[1]) {
			res = x.block(fr, st, b.Succs[0], b)
		}
		return append(res, x.block(f2, s2, b.Succs[1], b)...)
	}
	switch st.eval(c) {
	case 1:
		if x.mon.Branch != nil {
			x.mon.Branch(x, st, fr, v, c, true)
		}
		return x.block(fr, st, b.Succs[0], b)
	case 0:
		if x.mon.Branch != nil {
			x.mon.Branch(x, st, fr, v, c, false)
		}
		return x.block(fr, st, b.Succs[1], b)
	}
	s2 := st.clone()
	f2 := fr.clone()
	var res []Outcome
	x.Stats["branches"]++
	if st.assume(c) {
		st.note(condPos(v), "when %s", c)
		if x.mon.Branch != nil {
			x.mon.Branch(x, st, fr, v, c, true)
		}
		res = append(res, x.block(fr, st, b.Succs[0], b)...)
	}
	nc := not(c)
	if s2.assume(nc) {
		s2.note(condPos(v), "when %s", nc)
		if x.mon.Branch != nil {
			x.mon.Branch(x, s2, f2, v, c, false)
		}
		res = append(res, x.block(f2, s2, b.Succs[1], b)...)
	}
	return res
}

func condPos(v *ssa.If) token.Pos {
	if v.Cond.Pos().IsValid() {
		return v.Cond.Pos()
	}
	for i := len(v.Block().Instrs) - 1; i >= 0; i-- {
		if p := v.Block().Instrs[i].Pos(); p.IsValid() {
			return p
		}
	}
	return token.NoPos
}

// ---- panics and defers

type unw struct {
	st        *State
	fr        *Frame
	panicking bool
	pos       token.Pos
}

func (x *Exec) drain(fr *Frame, st *State, panicking bool, pos token.Pos) []unw {
	work := []unw{{st, fr, panicking, pos}}
	var done []unw
	for len(work) > 0 {
		w := work[len(work)-1]
		work = work[:len(work)-1]
		n := len(w.fr.defers)
		if n == 0 {
			done = append(done, w)
			continue
		}
		d := w.fr.defers[n-1]
		w.fr.defers = w.fr.defers[:n-1]
		w.st.note(d.instr.Pos(), "run deferred %s", d.ci.Name())
		var outs []Outcome
		if _, ok := d.ci.Common.Value.(*ssa.Builtin); ok && d.ci.Fn == nil && d.ci.FnTerm == nil && d.ci.Method == nil {
			outs = x.builtinCall(w.fr, w.st, d.instr, d.ci.Common, d.ci.Args)
		} else {
			save, had := w.st.vals["$panicking"]
			if w.panicking {
				w.st.vals["$panicking"] = tTrue
			} else {
				delete(w.st.vals, "$panicking")
			}
			outs = x.doCall(w.st, w.fr, d.ci, true)
			for k := range outs {
				o := &outs[k]
				rec := false
				if w.panicking {
					_, still := o.st.vals["$panicking"]
					rec = !still
				}
				if had {
					o.st.vals["$panicking"] = save
				} else {
					delete(o.st.vals, "$panicking")
				}
				if rec {
					o.st.vals["$rec"] = tTrue
				} else {
					delete(o.st.vals, "$rec")
				}
			}
		}
		for k := range outs {
			o := &outs[k]
			f := w.fr
			if k+1 < len(outs) {
				f = w.fr.clone()
			}
			n := unw{o.st, f, w.panicking, w.pos}
			if o.kind == OutPanic {
				n.panicking, n.pos = true, o.pos
			} else if _, ok := o.st.vals["$rec"]; ok && w.panicking {
				n.panicking = false
				o.st.note(d.instr.Pos(), "panic recovered")
			}
			delete(o.st.vals, "$rec")
			work = append(work, n)
		}
	}
	return done
}

func (x *Exec) unwind(fr *Frame, st *State, pos token.Pos) []Outcome {
	var res []Outcome
	for _, w := range x.drain(fr, st, true, pos) {
		if w.panicking {
			res = append(res, Outcome{st: w.st, kind: OutPanic, pos: w.pos})
			continue
		}
		if w.fr.fn.Recover != nil {
			res = append(res, x.instrs(w.fr, w.st, w.fr.fn.Recover, 0)...)
			continue
		}
		var vals []*Term
		rs := w.fr.fn.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			vals = append(vals, zeroVal(rs.At(i).Type()))
		}
		res = append(res, Outcome{st: w.st, vals: vals, pos: w.pos})
	}
	return res
}

func (x *Exec) runDefers(fr *Frame, st *State, panicking bool, pos token.Pos) []Outcome {
	if len(fr.defers) == 0 {
		return []Outcome{{st: st}}
	}
	// in the normal case all frames share the same (now empty) defer stack
	var res []Outcome
	ws := x.drain(fr, st, panicking, pos)
	fr.defers = nil
	for _, w := range ws {
		if w.panicking {
			// unwinding with the remaining (none) defers
			res = append(res, Outcome{st: w.st, kind: OutPanic, pos: w.pos})
		} else {
			res = append(res, Outcome{st: w.st})
		}
	}
	return res
}

// ---- channels

func (x *Exec) preBlock(fr *Frame, st *State, in ssa.Instruction) {
	if x.mon.PreBlock != nil {
		x.mon.PreBlock(x, st, fr, in)
	}
}

func (x *Exec) chanSend(fr *Frame, st *State, in ssa.Instruction, ch, val *Term, block bool, sel *ssa.Select) {
	if block {
		x.preBlock(fr, st, in)
	}
	ev := &ChanEv{Kind: "send", Ch: ch, Val: val, Instr: in, Block: block, Sel: sel}
	if ch.Typ != nil {
		if c, ok := under(ch.Typ).(*types.Chan); ok {
			ev.Elem = c.Elem()
		}
	}
	st.note(in.Pos(), "send %s to %s", val, ch)
	if x.mon.Chan != nil {
		x.mon.Chan(x, st, fr, ev)
	}
	st.escape(val)
	x.havocForSync(st, fr)
}

func (x *Exec) chanRecv(fr *Frame, st *State, v *ssa.UnOp) {
	ch := x.val(fr, st, v.X)
	x.preBlock(fr, st, v)
	x.havocForSync(st, fr)
	elem := under(v.X.Type()).(*types.Chan).Elem()
	val := x.freshVal(st, "recv", elem)
	ev := &ChanEv{Kind: "recv", Ch: ch, Val: val, Instr: v, Block: true, Elem: elem, OK: tTrue}
	if v.CommaOk {
		ev.OK = fresh("ok", tyBool)
		fr.env[v] = mk(TTuple, nil, "", 0, val, ev.OK)
	} else {
		fr.env[v] = val
	}
	st.note(v.Pos(), "receive from %s", ch)
	if x.mon.Chan != nil {
		x.mon.Chan(x, st, fr, ev)
	}
	if ev.Val != val { // monitor substituted the value
		if v.CommaOk {
			fr.env[v] = mk(TTuple, nil, "", 0, ev.Val, ev.OK)
		} else {
			fr.env[v] = ev.Val
		}
	} else if v.CommaOk && fr.env[v].Args[1] != ev.OK {
		fr.env[v] = mk(TTuple, nil, "", 0, val, ev.OK)
	}
}

func (x *Exec) selectStmt(fr *Frame, st *State, b *ssa.BasicBlock, i int, v *ssa.Select) []Outcome {
	if v.Blocking {
		x.preBlock(fr, st, v)
	}
	// index, recvOk, r_0 ... r_n-1
	type rcv struct{ st, pos int }
	var recvs []int
	for k, s := range v.States {
		if s.Dir == types.RecvOnly {
			recvs = append(recvs, k)
		}
	}
	var res []Outcome
	n := len(v.States)
	if !v.Blocking {
		n++
	}
	for k := 0; k < n; k++ {
		s2, f2 := st.clone(), fr.clone()
		idx := k
		recvOk := tFalse
		vals := make([]*Term, len(recvs))
		for j, r := range recvs {
			vals[j] = zeroVal(under(v.States[r].Chan.Type()).(*types.Chan).Elem())
		}
		if k == len(v.States) {
			idx = -1
			s2.note(v.Pos(), "select: nothing ready")
			if x.mon.Chan != nil {
				x.mon.Chan(x, s2, f2, &ChanEv{Kind: "default", Instr: v, Sel: v})
			}
		} else {
			s := v.States[k]
			ch := x.val(f2, s2, s.Chan)
			if s2.nilness(ch) == 1 {
				continue
			}
			if s.Dir == types.SendOnly {
				x.chanSend(f2, s2, selInstr{v, s.Pos}.at(), ch, x.val(f2, s2, s.Send), false, v)
			} else {
				x.havocForSync(s2, f2)
				elem := under(s.Chan.Type()).(*types.Chan).Elem()
				val := x.freshVal(s2, "recv", elem)
				recvOk = fresh("ok", tyBool)
				ev := &ChanEv{Kind: "recv", Ch: ch, Val: val, OK: recvOk, Instr: v, Sel: v, Elem: elem}
				s2.note(s.Pos, "receive from %s", ch)
				if x.mon.Chan != nil {
					x.mon.Chan(x, s2, f2, ev)
				}
				val, recvOk = ev.Val, ev.OK
				for j, r := range recvs {
					if r == k {
						vals[j] = val
					}
				}
			}
		}
		f2.env[v] = mk(TTuple, nil, "", 0, append([]*Term{num(int64(idx)), recvOk}, vals...)...)
		res = append(res, x.instrs(f2, s2, b, i+1)...)
	}
	return res
}

type selInstr struct {
	s   *ssa.Select
	pos token.Pos
}

func (s selInstr) at() ssa.Instruction { return s.s }

// ---- maps

func mapCells(m, k *Term, elem types.Type) (val, has *Term) {
	return mk(TMapEl, elem, "", 0, m, k), mk(TMapEl, tyBool, "has", 0, m, k)
}

func (x *Exec) mapUpdate(fr *Frame, st *State, in ssa.Instruction, m, k, v *Term, mt types.Type) {
	if x.mon.Map != nil {
		x.mon.Map(x, st, fr, in, "update", m, k, v)
	}
	elem := under(mt).(*types.Map).Elem()
	va, ha := mapCells(m, k, elem)
	x.setCell(fr, st, va, v)
	x.setCell(fr, st, ha, tTrue)
	x.setCell(fr, st, mk(TField, tyInt, "$len", -1, m), fresh("maplen", tyInt))
	if !st.private(va) {
		st.escape(v)
		st.escape(k)
	}
}

func (x *Exec) setCell(fr *Frame, st *State, a, v *Term) {
	x.recordWrite(fr, a)
	st.kill(a)
	st.mem[a] = v
}

func (x *Exec) mapLookup(fr *Frame, st *State, b *ssa.BasicBlock, i int, v *ssa.Lookup) []Outcome {
	m, k := x.val(fr, st, v.X), x.val(fr, st, v.Index)
	elem := under(v.X.Type()).(*types.Map).Elem()
	if x.mon.Map != nil {
		x.mon.Map(x, st, fr, v, "lookup", m, k, nil)
	}
	set := func(f *Frame, val, ok *Term) {
		if v.CommaOk {
			f.env[v] = mk(TTuple, nil, "", 0, val, ok)
		} else {
			f.env[v] = val
		}
	}
	if m.isNil() {
		set(fr, zeroVal(elem), tFalse)
		return x.instrs(fr, st, b, i+1)
	}
	va, ha := mapCells(m, k, elem)
	h := x.loadLeaf(st, ha, tyBool)
	e := st.eval(h)
	var res []Outcome
	if e != 0 {
		f2, s2 := fr, st
		if e < 0 {
			f2, s2 = fr.clone(), st.clone()
			s2.assume(h)
			s2.mem[ha] = tTrue
			s2.note(v.Pos(), "key %s is in %s", k, m)
		}
		set(f2, x.load(s2, f2, v, va, elem), tTrue)
		res = append(res, x.instrs(f2, s2, b, i+1)...)
	}
	if e != 1 {
		st.assume(not(h))
		st.mem[ha] = tFalse
		st.note(v.Pos(), "key %s is not in %s", k, m)
		set(fr, zeroVal(elem), tFalse)
		res = append(res, x.instrs(fr, st, b, i+1)...)
	}
	return res
}

func (x *Exec) next(fr *Frame, st *State, v *ssa.Next) {
	ok := fresh("more", tyBool)
	ok2 := ok
	tt := v.Type().(*types.Tuple)
	k := x.freshVal(st, "key", orInt(tt.At(1).Type()))
	var val *Term
	if rng, ok := v.Iter.(*ssa.Range); ok && !v.IsString {
		m := x.val(fr, st, rng.X)
		mt := under(rng.X.Type()).(*types.Map)
		k = x.freshVal(st, "key", mt.Key())
		if x.mon.Map != nil {
			x.mon.Map(x, st, fr, v, "range", m, k, ok2)
		}
		va, ha := mapCells(m, k, mt.Elem())
		val = x.load(st, fr, v, va, mt.Elem())
		_ = ha
	} else {
		val = x.freshVal(st, "rune", orInt(tt.At(2).Type()))
	}
	fr.env[v] = mk(TTuple, nil, "", 0, ok, k, val)
}

func orInt(t types.Type) types.Type {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return tyInt
	}
	return t
}

// ---- type assertions

func (x *Exec) typeAssert(fr *Frame, st *State, b *ssa.BasicBlock, i int, v *ssa.TypeAssert) ([]Outcome, bool) {
	a := x.val(fr, st, v.X)
	is := mk(TIsType, v.AssertedType, "", 0, a)
	good := func(s *State) *Term {
		if types.IsInterface(v.AssertedType) {
			return a
		}
		return x.unbox(a, v.AssertedType)
	}
	e := st.eval(is)
	if !v.CommaOk {
		if e == 0 {
			st.note(v.Pos(), "type assertion fails")
			return x.unwind(fr, st, v.Pos()), true
		}
		if x.mon.Bounds != nil && e < 0 {
			x.mon.Bounds(x, st, fr, v, "typeassert", is)
		}
		st.assume(is)
		fr.env[v] = good(st)
		return nil, false
	}
	if e == 1 {
		fr.env[v] = mk(TTuple, nil, "", 0, good(st), tTrue)
		return nil, false
	}
	if e == 0 {
		fr.env[v] = mk(TTuple, nil, "", 0, zeroVal(v.AssertedType), tFalse)
		return nil, false
	}
	s2, f2 := st.clone(), fr.clone()
	s2.assume(is)
	s2.note(v.Pos(), "when %s is %s", a, shortType(v.AssertedType))
	f2.env[v] = mk(TTuple, nil, "", 0, good(s2), tTrue)
	res := x.instrs(f2, s2, b, i+1)
	st.assume(not(is))
	st.note(v.Pos(), "when %s is not %s", a, shortType(v.AssertedType))
	fr.env[v] = mk(TTuple, nil, "", 0, zeroVal(v.AssertedType), tFalse)
	return append(res, x.instrs(fr, st, b, i+1)...), true
}

// ---- calls

func (x *Exec) callInstr(fr *Frame, st *State, b *ssa.BasicBlock, i int, v *ssa.Call) []Outcome {
	set := func(f *Frame, o *Outcome) {
		f.env[v] = packVals(o.vals)
	}
	if _, ok := v.Call.Value.(*ssa.Builtin); ok {
		var args []*Term
		for _, a := range v.Call.Args {
			args = append(args, x.val(fr, st, a))
		}
		return x.fork(fr, x.builtinCall(fr, st, v, &v.Call, args), b, i+1, set)
	}
	ci := x.callInfo(fr, st, v, &v.Call)
	return x.fork(fr, x.doCall(st, fr, ci, false), b, i+1, set)
}

func (x *Exec) builtinCall(fr *Frame, st *State, in ssa.Instruction, c *ssa.CallCommon, args []*Term) []Outcome {
	name := c.Value.(*ssa.Builtin).Name()
	switch name {
	case "len", "cap":
		l := x.builtinLen(st, name, args[0], c.Args[0].Type())
		if under(c.Args[0].Type()) != nil {
			if _, isMap := under(c.Args[0].Type()).(*types.Map); isMap {
				if x.mon.Map != nil {
					x.mon.Map(x, st, fr, in, "len", args[0], nil, nil)
				}
				st.assume(ge0(l))
			}
		}
		return one(st, l)
	case "append":
		return x.appendCall(fr, st, in, c, args)
	case "copy":
		return x.copyCall(fr, st, in, c, args)
	case "close":
		st.note(in.Pos(), "close %s", args[0])
		if x.mon.Chan != nil {
			x.mon.Chan(x, st, fr, &ChanEv{Kind: "close", Ch: args[0], Instr: in})
		}
		x.havocForSync(st, fr)
		return one(st)
	case "delete":
		if x.mon.Map != nil {
			x.mon.Map(x, st, fr, in, "delete", args[0], args[1], nil)
		}
		elem := under(c.Args[0].Type()).(*types.Map).Elem()
		va, ha := mapCells(args[0], args[1], elem)
		x.setCell(fr, st, va, zeroVal(elem))
		x.setCell(fr, st, ha, tFalse)
		x.setCell(fr, st, mk(TField, tyInt, "$len", -1, args[0]), fresh("maplen", tyInt))
		return one(st)
	case "recover":
		if fr.deferPanic {
			if _, ok := st.vals["$panicking"]; ok {
				delete(st.vals, "$panicking")
				st.note(in.Pos(), "recover")
				return one(st, mk(TApp, types.NewInterfaceType(nil, nil), fmt.Sprint("nn:recovered", TT.seq), 0))
			}
		}
		return one(st, nilTerm)
	case "panic":
		return []Outcome{{st: st, kind: OutPanic, pos: in.Pos()}}
	case "ssa:wrapnilchk":
		return one(st, args[0])
	case "print", "println":
		return one(st)
	}
	var r *Term
	if v, ok := in.(ssa.Value); ok {
		r = x.freshVal(st, name, v.Type())
	}
	return one(st, r)
}

func (x *Exec) appendCall(fr *Frame, st *State, in ssa.Instruction, c *ssa.CallCommon, args []*Term) []Outcome {
	typ := c.Args[0].Type()
	elem := under(typ).(*types.Slice).Elem()
	l0 := lenOf(args[0], typ)
	l1 := num(0)
	if len(args) > 1 {
		l1 = lenOf(args[1], c.Args[1].Type())
	}
	total := add(l0, l1)
	if n, ok := l1.isInt(); ok && n == 0 {
		return one(st, args[0])
	}
	a := freshAlloc(in, "append", types.NewArray(elem, 0))
	cp := fresh("cap", tyInt)
	st.addFact(ge0(sub(cp, total)))
	if !args[0].isNil() {
		st.addFact(ge0(sub(cp, capOf(args[0], typ))))
	}
	res := mkSlice(typ, a, num(0), total, cp)
	// contents: known when both lengths are small constants; otherwise unknown
	n0, ok0 := l0.isInt()
	n1, ok1 := l1.isInt()
	st.dirty[a] = true
	if ok0 && n0 <= 64 && n0 > 0 {
		b, off, _, _ := sliceParts(args[0], typ)
		for k := int64(0); k < n0; k++ {
			st.mem[indexAddr(a, num(k), elem)] = x.load(st, fr, in, indexAddr(b, add(off, num(k)), elem), elem)
		}
	}
	if ok1 && n1 <= 64 && len(args) > 1 {
		if s, ok := args[1].isStr(); ok {
			for k := int64(0); k < n1; k++ {
				st.mem[indexAddr(a, add(l0, num(k)), elem)] = num(int64(s[k]))
			}
		} else {
			b, off, _, _ := sliceParts(args[1], c.Args[1].Type())
			for k := int64(0); k < n1; k++ {
				src := indexAddr(b, add(off, num(k)), elem)
				x.storeNoHook(st, indexAddr(a, add(l0, num(k)), elem), x.load(st, fr, in, src, elem), elem)
			}
		}
	}
	// the old backing array may be reused: what lies behind its end changes
	if !args[0].isNil() {
		b, _, _, _ := sliceParts(args[0], typ)
		if b.Op != TConst {
			x.recordWrite(fr, indexAddr(b, l0, elem))
		}
		// pointers in the appended slice stay reachable through the new one
		if st.escaped[addrRoot(b)] || !st.private(indexAddr(b, num(0), elem)) {
			st.escaped[a] = true
			if len(args) > 1 {
				st.escape(args[1])
				for k := int64(0); ok1 && k < n1 && k <= 64; k++ {
					st.escape(st.mem[indexAddr(a, add(l0, num(k)), elem)])
				}
			}
		}
	}
	if x.mon.Append != nil {
		x.mon.Append(x, st, fr, in, res, args[0], argOr(args, 1))
	}
	return one(st, res)
}

func argOr(a []*Term, i int) *Term {
	if i < len(a) {
		return a[i]
	}
	return nilTerm
}

func (x *Exec) storeNoHook(st *State, addr, val *Term, t types.Type) {
	if u, ok := under(t).(*types.Struct); ok {
		for i := 0; i < u.NumFields(); i++ {
			x.storeNoHook(st, fieldAddr(addr, t, i), x.fieldOf(val, i, u.Field(i).Type(), u.Field(i).Name()), u.Field(i).Type())
		}
		return
	}
	st.mem[addr] = val
}

func (x *Exec) copyCall(fr *Frame, st *State, in ssa.Instruction, c *ssa.CallCommon, args []*Term) []Outcome {
	ld := lenOf(args[0], c.Args[0].Type())
	ls := lenOf(args[1], c.Args[1].Type())
	elem := under(c.Args[0].Type()).(*types.Slice).Elem()
	do := func(st *State, n *Term) Outcome {
		if x.mon.Copy != nil {
			x.mon.Copy(x, st, fr, in, args[0], args[1], n)
		}
		b, off, _, _ := sliceParts(args[0], c.Args[0].Type())
		if b.Op != TConst {
			sb, soff, _, _ := sliceParts(args[1], c.Args[1].Type())
			var vals []*Term
			k, ok := n.isInt()
			if ok && k <= 64 && sb.Op != TConst {
				for j := int64(0); j < k; j++ {
					vals = append(vals, x.load(st, fr, in, indexAddr(sb, add(soff, num(j)), elem), elem))
				}
			}
			x.recordWrite(fr, indexAddr(b, off, elem))
			for e := range st.mem {
				if e.Op == TIndex && st.mayAliasObj(e.Args[0], b) {
					st.forget(e)
				}
			}
			if r := addrRoot(b); r.Op == TAlloc {
				st.dirty[r] = true
			}
			for j, v := range vals {
				st.mem[indexAddr(b, add(off, num(int64(j))), elem)] = v
			}
		}
		return Outcome{st: st, vals: []*Term{n}}
	}
	le := ge0(sub(ls, ld)) // len(dst) <= len(src)
	switch st.eval(le) {
	case 1:
		return []Outcome{do(st, ld)}
	case 0:
		return []Outcome{do(st, ls)}
	}
	s2 := st.clone()
	var res []Outcome
	if st.assume(le) {
		res = append(res, do(st, ld))
	}
	if s2.assume(not(le)) {
		res = append(res, do(s2, ls))
	}
	return res
}

var _ = strings.HasPrefix
