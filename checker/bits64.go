package main

import (
	"go/constant"
	"go/types"
)

// bsrc: where a bit comes from: '0', '1', 't' (bit i of t) or '?'.
type bsrc struct {
	k byte
	t *Term
	i int
}

type bits64 [64]bsrc

var bUnknown = func() (r bits64) {
	for i := range r {
		r[i].k = '?'
	}
	return
}()

func bConst(v uint64) (r bits64) {
	for i := range r {
		r[i].k = '0' + byte(v>>uint(i)&1)
	}
	return
}

func (b bits64) shl(n int) (r bits64) {
	for i := range r {
		r[i].k = '0'
		if i >= n {
			r[i] = b[i-n]
		}
	}
	return
}

func (b bits64) shr(n int) (r bits64) {
	for i := range r {
		r[i].k = '0'
		if i+n < 64 {
			r[i] = b[i+n]
		}
	}
	return
}

func (b bits64) width(w int) bits64 {
	for i := w; i < 64; i++ {
		b[i] = bsrc{k: '0'}
	}
	return b
}

func bAtom(t *Term, typ types.Type) (r bits64) {
	w, s := 64, false
	if bt, ok := under(typ).(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
		w, s = intBits(typ), bt.Info()&types.IsUnsigned == 0
	}
	if w <= 0 || w > 64 {
		w = 64
	}
	for i := range r {
		switch {
		case i < w:
			r[i] = bsrc{'t', t, i}
		case s:
			r[i] = bsrc{'t', t, w - 1}
		default:
			r[i] = bsrc{k: '0'}
		}
	}
	return
}

// provKnown: bits of inputs that are given.
var provKnown = map[*Term]bits64{}

// prov: the provenance of the bits of an integer.
func (s *State) prov(t *Term, depth int) bits64 {
	if n, ok := t.isInt(); ok {
		return bConst(uint64(n))
	}
	if b, ok := provKnown[t]; ok {
		return b
	}
	if t.Op == TConst && t.Val != nil {
		if n, ok := constUint64(t); ok {
			return bConst(n)
		}
	}
	if v, ok := s.known(t); ok && v != t {
		if n, ok := v.isInt(); ok {
			return bConst(uint64(n))
		}
	}
	if depth > 80 {
		return bUnknown
	}
	switch {
	case t.Op == TConv && len(t.Args) == 1:
		a := s.prov(t.Args[0], depth+1)
		if !isIntType(t.Typ) {
			return bAtom(t, t.Typ)
		}
		w := intBits(t.Typ)
		if w >= 64 || w <= 0 {
			return a
		}
		r := a.width(w)
		if bt, ok := under(t.Typ).(*types.Basic); ok && bt.Info()&types.IsUnsigned == 0 {
			for i := w; i < 64; i++ {
				r[i] = a[w-1]
			}
		}
		return r
	case t.Op == TLin:
		c, ps := linOf(t)
		if c < 0 || len(ps) > 12 {
			return bUnknown
		}
		r := bConst(uint64(c))
		for _, p := range ps {
			if p.T == t {
				return bAtom(t, t.Typ)
			}
			k := 0
			for k < 63 && int64(1)<<uint(k) != p.K {
				k++
			}
			if p.K <= 0 || k == 63 {
				return bUnknown
			}
			r = bAdd(r, s.prov(p.T, depth+1).shl(k))
		}
		return r
	case t.Op == TBin && len(t.Args) == 2:
		w := 64
		if t.Typ != nil && isIntType(t.Typ) {
			w = intBits(t.Typ)
		}
		switch t.Aux {
		case "<<", ">>":
			a := s.prov(t.Args[0], depth+1)
			n, ok := t.Args[1].isInt()
			if !ok {
				if v, k := s.known(t.Args[1]); k {
					n, ok = v.isInt()
				}
			}
			if !ok || n < 0 || n > 63 {
				return bUnknown
			}
			if t.Aux == "<<" {
				return a.shl(int(n)).width(w)
			}
			return a.shr(int(n))
		}
		a, b := s.prov(t.Args[0], depth+1), s.prov(t.Args[1], depth+1)
		r := bUnknown
		for i := range r {
			x, y := a[i], b[i]
			zero, one := bsrc{k: '0'}, bsrc{k: '1'}
			switch t.Aux {
			case "&^":
				switch y.k {
				case '0':
					y = one
				case '1':
					y = zero
				default:
					y = bsrc{k: '?'}
				}
				fallthrough
			case "&":
				switch {
				case x.k == '0' || y.k == '0':
					r[i] = zero
				case x.k == '1':
					r[i] = y
				case y.k == '1' || x == y:
					r[i] = x
				}
			case "|":
				switch {
				case x.k == '1' || y.k == '1':
					r[i] = one
				case x.k == '0':
					r[i] = y
				case y.k == '0' || x == y:
					r[i] = x
				}
			case "^":
				switch {
				case x.k == '0':
					r[i] = y
				case y.k == '0':
					r[i] = x
				case x.k == '1' && y.k == '1':
					r[i] = zero
				}
			case "+":
				r[i] = bAdd(a, b)[i]
			}
		}
		return r.width(w)
	}
	if t.Typ == nil {
		return bUnknown
	}
	return bAtom(t, t.Typ)
}

// bAdd: the sum, up to the first place where a carry may occur.
func bAdd(a, b bits64) (r bits64) {
	r = bUnknown
	for i := range a {
		switch {
		case a[i].k == '0':
			r[i] = b[i]
		case b[i].k == '0':
			r[i] = a[i]
		default:
			return
		}
	}
	return
}

func constUint64(t *Term) (uint64, bool) {
	if t.Op != TConst || t.Val == nil || t.Val.Kind() != constant.Int {
		return 0, false
	}
	return constant.Uint64Val(t.Val)
}
