package main

import (
	"fmt"
	"go/types"
	mbig "math/big"

	"golang.org/x/tools/go/ssa"
)

// M07: variable-length numbers. Each function is followed once for every
// length class of its input: numbers of which the bits above a place are zero
// (the writer and the precomputed sizes), or inputs of which the continuation
// bits are given (the reader). All other bits are symbols; what is written,
// returned and left is compared bit by bit.

func init() {
	register(&checkDef{id: "M07", run: func(P *Program, r *Report) { checkVarint(P, r) },
		rule:  "provenance of every bit of every byte emitted, on every path of the encoder, for each of the ten length classes of its argument: as many bytes as the class needs, the number's groups of seven bits most significant first, the continuation bit in all but the last; the precomputed sizes yield the class on every path; the decoder, for each class of continuation bits, returns exactly the groups in that order and leaves the rest, and ends with an error when the input runs out or does not fit 64 bits",
		assum: []string{"slices shorter than 2^48 elements"}})
}

type varM struct {
	P      *Program
	r      *Report
	in     *Term // the number
	lo, hi *mbig.Int
	sites  map[string]int
}

var bigOne = mbig.NewInt(1)

func pow2(n int) *mbig.Int { return new(mbig.Int).Lsh(bigOne, uint(n)) }

// valRange: the range of a value by the origin of its bits.
func (m *varM) valRange(st *State, t *Term) (lo, hi *mbig.Int, ok bool) {
	b := st.prov(t, 0)
	signed := t.Typ != nil && isIntType(t.Typ) && !isUnsigned(t.Typ)
	if signed && b[63].k != '0' {
		return nil, nil, false
	}
	if m.in != nil {
		for k := 0; k < 64; k++ {
			same := true
			in := provKnown[m.in]
			for i := range b {
				want := bsrc{k: '0'}
				if i+k < 64 {
					want = in[i+k]
				}
				if b[i] != want {
					same = false
					break
				}
			}
			if same {
				return new(mbig.Int).Rsh(m.lo, uint(k)), new(mbig.Int).Rsh(m.hi, uint(k)), true
			}
		}
	}
	lo, hi = new(mbig.Int), new(mbig.Int)
	for i, x := range b {
		if x.k == '1' {
			lo.SetBit(lo, i, 1)
		}
		if x.k != '0' {
			hi.SetBit(hi, i, 1)
		}
	}
	return lo, hi, true
}

func (m *varM) decide(st *State, t *Term) int {
	if t.Op == TNot {
		if r := m.decide(st, t.Args[0]); r >= 0 {
			return 1 - r
		}
		return -1
	}
	if t.Op != TGe0 && t.Op != TEq0 {
		return -1
	}
	c, ps := linOf(t.Args[0])
	lo, hi := mbig.NewInt(c), mbig.NewInt(c)
	for _, p := range ps {
		l, h, ok := m.valRange(st, p.T)
		if !ok {
			return -1
		}
		k := mbig.NewInt(p.K)
		if p.K < 0 {
			l, h = h, l
		}
		lo.Add(lo, new(mbig.Int).Mul(l, k))
		hi.Add(hi, new(mbig.Int).Mul(h, k))
	}
	if t.Op == TGe0 {
		if lo.Sign() >= 0 {
			return 1
		}
		if hi.Sign() < 0 {
			return 0
		}
		return -1
	}
	if lo.Sign() > 0 || hi.Sign() < 0 {
		return 0
	}
	if lo.Sign() == 0 && hi.Sign() == 0 {
		return 1
	}
	return -1
}

func checkVarint(P *Program, r *Report) {
	m := &varM{P: P, r: r, sites: map[string]int{}}
	evalHook = m.decide
	defer func() { evalHook = nil; provKnown = map[*Term]bits64{} }()
	for _, n := range []string{"Uint64var", "Intvar"} {
		w, rd := P.Method("marshal", "Writer", n), P.Method("marshal", "Reader", n)
		if w == nil || rd == nil {
			r.Add(0, "undecided", "", nil, "the methods %s were not found", n)
			return
		}
		max := 10
		if n == "Intvar" {
			max = 9
		}
		for l := 1; l <= max; l++ {
			m.writer(w, l)
			m.reader(rd, l, l, 0, false)
		}
		for l := 0; l <= 10; l++ {
			m.reader(rd, l, -1, 0, true)
		}
		for b := 1; b < 7 && max == 10; b++ {
			m.reader(rd, 10, 10, b, true)
		}
	}
	for _, fn := range P.Funcs {
		s := fn.Signature
		if P.relPkg(fn) != "marshal" || s.Recv() != nil || fn.Parent() != nil || fn.Synthetic != "" || s.Params().Len() != 1 || s.Results().Len() != 1 || !isIntType(s.Results().At(0).Type()) {
			continue
		}
		t := s.Params().At(0).Type()
		if fn.Name() != "Varsize" && !types.Identical(t, types.Typ[types.Uint64]) {
			continue
		}
		max := 10
		if !isUnsigned(t) {
			max = 9
		}
		for l := 1; l <= max; l++ {
			m.size(fn, l)
		}
	}
	for k, v := range m.sites {
		r.Counts["events: "+k] = v
	}
	r.Floor("bytes written", m.sites["bytes written"], 90)
	r.Floor("sizes", m.sites["sizes"], 19)
	r.Floor("numbers read", m.sites["numbers read"], 19)
	r.Floor("inputs refused", m.sites["inputs refused"], 20)
}

// number: an argument of the class of n bytes.
func (m *varM) number(t *Term, n int) {
	provKnown = map[*Term]bits64{}
	b := bAtom(t, types.Typ[types.Uint64])
	for i := 7 * n; i < 64; i++ {
		b[i] = bsrc{k: '0'}
	}
	provKnown[t] = b
	m.in = t
	m.lo, m.hi = pow2(7*(n-1)), pow2(7*n)
	if n == 1 {
		m.lo = new(mbig.Int)
	}
	if n == 10 {
		m.hi = pow2(64)
	}
	m.hi = new(mbig.Int).Sub(m.hi, bigOne)
}

func (m *varM) mon() *Monitor {
	mon := &Monitor{Name: "varint", Unroll: 16, NoLockCk: true, JoinAt: 500, JoinBlk: 500, EnterAt: 50, Facts: true, Strict: true}
	mon.Relevant = func(fn *ssa.Function) bool { return m.P.relPkg(fn) == "marshal" }
	mon.Keep = func(x *Exec, st *State, addr *Term, ci *CallInfo) bool { return true }
	mon.Call = func(x *Exec, st *State, fr *Frame, ci *CallInfo) ([]Outcome, bool) {
		if ci.Fn == nil || fnPkgPath(ci.Fn) != "math/bits" || ci.Fn.Name() != "Len64" && ci.Fn.Name() != "Len" && ci.Fn.Name() != "LeadingZeros64" {
			return nil, false
		}
		a := ci.Args[0]
		least := 0
		if a.Op == TBin && a.Aux == "|" {
			if c, ok := a.Args[1].isInt(); ok && c == 1 {
				a, least = a.Args[0], 1
			}
		}
		lo, hi, ok := m.valRange(st, a)
		if !ok {
			return nil, false
		}
		from, to := lo.BitLen(), hi.BitLen()
		if from < least {
			from = least
		}
		if ci.Fn.Name() == "LeadingZeros64" {
			from, to = 64-to, 64-from
		}
		v := fresh(ci.Fn.Name(), tyInt)
		st.assume(ge0(sub(v, num(int64(from)))))
		st.assume(ge0(sub(num(int64(to)), v)))
		return []Outcome{{st: st, vals: []*Term{v}}}, true
	}
	return mon
}

func byteField(t types.Type) int {
	s, ok := under(t).(*types.Struct)
	for i := 0; ok && i < s.NumFields(); i++ {
		if types.Identical(s.Field(i).Type(), types.NewSlice(types.Typ[types.Uint8])) {
			return i
		}
	}
	return -1
}

var tyByte = types.Universe.Lookup("byte").Type()

var tyBytes = types.NewSlice(types.Typ[types.Uint8])

func (m *varM) writer(fn *ssa.Function, n int) {
	wt := m.P.Type("marshal", "Writer")
	bf := byteField(wt)
	if bf < 0 {
		m.r.Add(0, "undecided", "", nil, "the buffer of the writer was not found")
		return
	}
	mon := m.mon()
	var l0, w *Term
	mon.End = func(x *Exec, o *Outcome) {
		if o.kind != OutReturn {
			return
		}
		st := o.st
		b, off, l, _ := sliceParts(x.loadLeaf(st, fieldAddr(w, wt, bf), tyBytes), tyBytes)
		if st.eval(eqTerm(sub(l, l0), num(int64(n)))) != 1 {
			m.r.Add(o.pos, "length", fnName(fn), st, "a number of %d groups takes %s bytes", n, sub(l, l0))
			return
		}
		in := provKnown[m.in]
		for j := 0; j < n; j++ {
			m.sites["bytes written"]++
			at := add(off, sub(l, num(int64(n-j))))
			v := x.loadLeaf(st, indexAddr(b, at, tyByte), types.Typ[types.Uint8])
			got := st.prov(v, 0)
			for i := 0; i < 8; i++ {
				want := bsrc{k: '0'}
				if i == 7 {
					if j < n-1 {
						want.k = '1'
					}
				} else if p := 7*(n-1-j) + i; p < 64 {
					want = in[p]
				}
				if got[i] != want {
					m.r.Add(o.pos, "group", fnName(fn), st, "of %d bytes, bit %d of byte %d is %s, not %s", n, i, j, bitName(got[i]), bitName(want))
					return
				}
			}
			m.r.OK(o.pos, "group in place")
		}
	}
	x := newExec(m.P, m.r, mon)
	x.RunRoot(fn, func(st *State, args []*Term) {
		w = args[0]
		st.assume(not(mkEq(w, nilTerm)))
		b := x.loadLeaf(st, fieldAddr(w, wt, bf), tyBytes)
		l0 = lenOf(b, tyBytes)
		m.number(args[1], n)
	})
}

func bitName(b bsrc) string {
	switch b.k {
	case 't':
		return fmt.Sprintf("bit %d of %s", b.i, b.t)
	case '?':
		return "unknown"
	}
	return string(rune(b.k))
}

func (m *varM) size(fn *ssa.Function, n int) {
	mon := m.mon()
	mon.End = func(x *Exec, o *Outcome) {
		if o.kind != OutReturn {
			return
		}
		m.sites["sizes"]++
		if o.st.eval(eqTerm(o.vals[0], num(int64(n)))) != 1 {
			m.r.Add(o.pos, "length", fnName(fn), o.st, "the size of a number of %d groups is given as %s", n, o.vals[0])
		} else {
			m.r.OK(o.pos, "the number of groups")
		}
	}
	x := newExec(m.P, m.r, mon)
	x.RunRoot(fn, func(st *State, args []*Term) { m.number(args[0], n) })
}

// reader: n bytes of which the last has no continuation bit (stop = n), or
// all have it (stop < 0). With ten bytes the upper bits of the first are zero
// (over = 0), or the one given is set.
func (m *varM) reader(fn *ssa.Function, n, stop, over int, fails bool) {
	rt := m.P.Type("marshal", "Reader")
	bI, eI := structField(rt, "Body"), structField(rt, "Err")
	errT := types.Universe.Lookup("error").Type()
	var rd, base, off0, l0 *Term
	known := func(st *State, v *Term, j int) bits64 {
		b := bAtom(v, types.Typ[types.Uint8])
		switch {
		case j == stop-1:
			b[7] = bsrc{k: '0'}
		case j < n:
			b[7] = bsrc{k: '1'}
		}
		if j == 0 && stop == 10 {
			if over > 0 {
				b[over] = bsrc{k: '1'}
			} else {
				b[0] = bsrc{k: '1'}
				for i := 1; i < 7; i++ {
					b[i] = bsrc{k: '0'}
				}
			}
		}
		return b
	}
	mon := m.mon()
	mon.NewCell = func(x *Exec, st *State, addr, v *Term) {
		if base == nil || addr.Op != TIndex || addr.Args[0] != base {
			return
		}
		if j, ok := sub(addr.Args[1], off0).isInt(); ok {
			if _, ok := provKnown[v]; !ok {
				provKnown[v] = known(st, v, int(j))
			}
		}
	}
	mon.End = func(x *Exec, o *Outcome) {
		if o.kind != OutReturn {
			return
		}
		st := o.st
		e := x.loadLeaf(st, fieldAddr(rd, rt, eI), errT)
		v := o.vals[0]
		if fails {
			m.sites["inputs refused"]++
			what := "input that runs out"
			if over > 0 {
				what = "a number that does not fit 64 bits"
			}
			if !knownError(e) && st.isNilFact(e) != 0 || v != num(0) && st.eval(eqTerm(v, num(0))) != 1 {
				m.r.Add(o.pos, "not refused", fnName(fn), st, "%s gives %s and no error", what, v)
			} else {
				m.r.OK(o.pos, "refused")
			}
			return
		}
		m.sites["numbers read"]++
		if !e.isNil() && st.isNilFact(e) != 1 {
			m.r.Add(o.pos, "refused", fnName(fn), st, "a number of %d groups is refused", n)
			return
		}
		b, off, l, _ := sliceParts(x.loadLeaf(st, fieldAddr(rd, rt, bI), tyBytes), tyBytes)
		if b != base || st.eval(eqTerm(sub(off, off0), num(int64(n)))) != 1 || st.eval(eqTerm(sub(l0, l), num(int64(n)))) != 1 {
			m.r.Add(o.pos, "rest", fnName(fn), st, "a number of %d groups takes %s bytes, and %s are left", n, sub(off, off0), l)
			return
		}
		got := st.prov(v, 0)
		for p := 0; p < 64; p++ {
			want := bsrc{k: '0'}
			if j := n - 1 - p/7; j >= 0 {
				a := indexAddr(base, add(off0, num(int64(j))), tyByte)
				c := x.loadLeaf(st, a, tyByte)
				want = provKnown[c][p%7]
			}
			if got[p] != want {
				m.r.Add(o.pos, "group", fnName(fn), st, "of a number of %d groups, bit %d is %s, not %s", n, p, bitName(got[p]), bitName(want))
				return
			}
		}
		m.r.OK(o.pos, "all groups in place")
	}
	x := newExec(m.P, m.r, mon)
	x.RunRoot(fn, func(st *State, args []*Term) {
		provKnown = map[*Term]bits64{}
		m.in = nil
		rd = args[0]
		st.assume(not(mkEq(rd, nilTerm)))
		st.mem[fieldAddr(rd, rt, eI)] = nilTerm
		b := x.loadLeaf(st, fieldAddr(rd, rt, bI), tyBytes)
		base, off0, l0, _ = sliceParts(b, tyBytes)
		if stop < 0 {
			st.assume(eqTerm(l0, num(int64(n))))
		} else {
			st.assume(ge0(sub(l0, num(int64(n)))))
		}
	})
}
