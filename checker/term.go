package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Terms are hash-consed symbolic values of the abstract domain.

type TOp uint8

const (
	TConst   TOp = iota // non-integer (or huge) constant; val
	TLin                // integer: c + sum k_i*atom_i (no parts: integer constant)
	TSym                // unknown value
	TAlloc              // address of an object created on this path
	TGlobal             // address of package variable
	TFunc               // function
	TClosure            // closure: fn + bindings
	TField              // address of field of struct at args[0]
	TIndex              // address of element: args[0]=array data base, args[1]=index
	TMapEl              // pseudo address of a map element: args[0]=map, args[1]=key
	TFieldV             // field of opaque struct value
	TIndexV             // element of opaque array value / string
	TSlice              // slice: args = base, off, len, cap
	TLen                // len of opaque slice/string/map/chan
	TCap
	TStruct // struct value: args = fields
	TTuple
	TIface  // interface holding concrete value; typ= dynamic type, args[0]
	TUnbox  // value of opaque interface asserted to typ
	TIsType // bool: dynamic type of args[0] is typ
	TConv   // opaque conversion of args[0] to typ
	TBin    // opaque binary op
	TUn     // opaque unary op
	TEq     // equality of non-integers
	TGe0    // bool: lin >= 0
	TEq0    // bool: lin == 0
	TNot
	TApp // uninterpreted pure application of aux to args
)

type LinPart struct {
	T *Term
	K int64
}

type Term struct {
	Op   TOp
	ID   int
	Args []*Term
	Aux  string
	Typ  types.Type
	Val  constant.Value
	C    int64
	P    []LinPart
	Fn   *ssa.Function
	N    int   // field index / serial
	Org  *Term // for symbols loaded from memory: the address
	Seq  int   // creation order (syms, allocs)
	Site ssa.Instruction
	Key  string
}

type Terms struct {
	tab map[string]*Term
	n   int
	seq int
}

var TT = &Terms{tab: map[string]*Term{}}

func (tt *Terms) get(key string, mk func() *Term) *Term {
	if t, ok := tt.tab[key]; ok {
		return t
	}
	t := mk()
	tt.n++
	t.ID = tt.n
	t.Key = key
	tt.tab[key] = t
	return t
}

func ids(args []*Term) string {
	var b strings.Builder
	for _, a := range args {
		fmt.Fprintf(&b, "%d,", a.ID)
	}
	return b.String()
}

var typeIDs = map[string]int{}

func tyKey(t types.Type) string {
	if t == nil {
		return "-"
	}
	s := types.TypeString(t, nil)
	id, ok := typeIDs[s]
	if !ok {
		id = len(typeIDs) + 1
		typeIDs[s] = id
	}
	return fmt.Sprint(id)
}

func mk(op TOp, typ types.Type, aux string, n int, args ...*Term) *Term {
	return TT.get(fmt.Sprintf("%d|%s|%s|%d|%s", op, tyKey(typ), aux, n, ids(args)), func() *Term {
		return &Term{Op: op, Args: args, Aux: aux, Typ: typ, N: n}
	})
}

func fresh(name string, typ types.Type) *Term {
	TT.seq++
	seq := TT.seq
	return TT.get(fmt.Sprintf("sym|%d", seq), func() *Term {
		return &Term{Op: TSym, Aux: name, Typ: typ, Seq: seq}
	})
}

func freshAlloc(site ssa.Instruction, name string, typ types.Type) *Term {
	TT.seq++
	seq := TT.seq
	return TT.get(fmt.Sprintf("alloc|%d", seq), func() *Term {
		return &Term{Op: TAlloc, Aux: name, Typ: typ, Seq: seq, Site: site}
	})
}

func constTerm(v constant.Value, typ types.Type) *Term {
	if v == nil { // nil / zero
		return mk(TConst, nil, "nil", 0)
	}
	if v.Kind() == constant.Int {
		if i, ok := constant.Int64Val(v); ok {
			if b, ok := under(typ).(*types.Basic); ok && b.Info()&types.IsFloat == 0 {
				return num(i)
			}
		}
	}
	k := "c|" + v.ExactString() + "|" + fmt.Sprint(v.Kind())
	return TT.get(k, func() *Term { return &Term{Op: TConst, Val: v, Typ: typ} })
}

var nilTerm = mk(TConst, nil, "nil", 0)

func boolTerm(b bool) *Term { return constTerm(constant.MakeBool(b), types.Typ[types.Bool]) }
func strTerm(s string) *Term {
	return constTerm(constant.MakeString(s), types.Typ[types.String])
}

var tTrue, tFalse = boolTerm(true), boolTerm(false)

func (t *Term) isNil() bool { return t == nilTerm }
func (t *Term) isBool() (bool, bool) {
	if t == tTrue {
		return true, true
	}
	if t == tFalse {
		return false, true
	}
	return false, false
}
func (t *Term) isInt() (int64, bool) {
	if t.Op == TLin && len(t.P) == 0 {
		return t.C, true
	}
	return 0, false
}
func (t *Term) isStr() (string, bool) {
	if t.Op == TConst && t.Val != nil && t.Val.Kind() == constant.String {
		return constant.StringVal(t.Val), true
	}
	return "", false
}

// ---- linear terms

func mkLin(c int64, parts []LinPart) *Term {
	ps := make([]LinPart, 0, len(parts))
	for _, p := range parts {
		if p.K != 0 {
			ps = append(ps, p)
		}
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].T.ID < ps[j].T.ID })
	if c == 0 && len(ps) == 1 && ps[0].K == 1 {
		return ps[0].T
	}
	var b strings.Builder
	fmt.Fprintf(&b, "lin|%d|", c)
	for _, p := range ps {
		fmt.Fprintf(&b, "%d*%d,", p.K, p.T.ID)
	}
	return TT.get(b.String(), func() *Term { return &Term{Op: TLin, C: c, P: ps} })
}

func num(i int64) *Term { return mkLin(i, nil) }

func linOf(t *Term) (int64, []LinPart) {
	if t.Op == TLin {
		return t.C, t.P
	}
	return 0, []LinPart{{t, 1}}
}

func linAdd(a, b *Term, kb int64) *Term {
	ca, pa := linOf(a)
	cb, pb := linOf(b)
	m := map[*Term]int64{}
	for _, p := range pa {
		m[p.T] += p.K
	}
	for _, p := range pb {
		m[p.T] += p.K * kb
	}
	ps := make([]LinPart, 0, len(m))
	for t, k := range m {
		ps = append(ps, LinPart{t, k})
	}
	return mkLin(ca+cb*kb, ps)
}
func add(a, b *Term) *Term { return linAdd(a, b, 1) }
func sub(a, b *Term) *Term { return linAdd(a, b, -1) }
func scale(a *Term, k int64) *Term {
	return linAdd(num(0), a, k)
}

// ge0 builds the boolean "l >= 0", eq0 "l == 0".
func ge0(l *Term) *Term {
	if c, ok := l.isInt(); ok {
		return boolTerm(c >= 0)
	}
	return mk(TGe0, nil, "", 0, l)
}
func eq0(l *Term) *Term {
	if c, ok := l.isInt(); ok {
		return boolTerm(c == 0)
	}
	_, ps := linOf(l)
	if ps[0].K < 0 {
		l = scale(l, -1)
	}
	if c, ps := linOf(l); c == 0 && len(ps) == 1 && ps[0].K == 1 {
		// a difference is zero exactly when its operands are equal, even modulo 2^n
		if d := ps[0].T; d.Op == TBin && d.Aux == "-" && len(d.Args) == 2 && isIntTerm(d.Args[0]) && isIntTerm(d.Args[1]) {
			return eq0(sub(d.Args[0], d.Args[1]))
		}
	}
	return mk(TEq0, nil, "", 0, l)
}
func not(t *Term) *Term {
	if b, ok := t.isBool(); ok {
		return boolTerm(!b)
	}
	if t.Op == TNot {
		return t.Args[0]
	}
	if t.Op == TGe0 {
		return ge0(sub(scale(t.Args[0], -1), num(1)))
	}
	return mk(TNot, nil, "", 0, t)
}

// ---- types

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func isIntType(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Kind() != types.UnsafePointer
}

// intRange: ok=false when the type has no useful (int64 representable) bounds.
func intRange(t types.Type) (lo, hi int64, hasLo, hasHi bool) {
	b, ok := under(t).(*types.Basic)
	if !ok {
		return
	}
	switch b.Kind() {
	case types.Int8:
		return -128, 127, true, true
	case types.Int16:
		return -32768, 32767, true, true
	case types.Int32:
		return -1 << 31, 1<<31 - 1, true, true
	case types.Uint8:
		return 0, 255, true, true
	case types.Uint16:
		return 0, 65535, true, true
	case types.Uint32:
		return 0, 1<<32 - 1, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 0, 0, true, false
	}
	return
}

func isUnsigned(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func intBits(t types.Type) int {
	b, ok := under(t).(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

// ---- printing

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if t == nil {
		return "<none>"
	}
	if d > 6 {
		return "…"
	}
	as := func(sep string) string {
		var s []string
		for _, a := range t.Args {
			s = append(s, a.str(d+1))
		}
		return strings.Join(s, sep)
	}
	switch t.Op {
	case TConst:
		if t.Val == nil {
			return "nil"
		}
		return t.Val.String()
	case TLin:
		if len(t.P) == 0 {
			return fmt.Sprint(t.C)
		}
		var b strings.Builder
		for i, p := range t.P {
			if i > 0 && p.K >= 0 {
				b.WriteString("+")
			}
			if p.K == -1 {
				b.WriteString("-")
			} else if p.K != 1 {
				fmt.Fprintf(&b, "%d*", p.K)
			}
			b.WriteString(p.T.str(d + 1))
		}
		if t.C != 0 {
			fmt.Fprintf(&b, "%+d", t.C)
		}
		return b.String()
	case TSym:
		return fmt.Sprintf("%s#%d", t.Aux, t.Seq)
	case TAlloc:
		return fmt.Sprintf("new(%s)#%d", t.Aux, t.Seq)
	case TGlobal:
		return t.Aux
	case TFunc:
		return t.Fn.String()
	case TClosure:
		return t.Fn.String()
	case TField:
		return t.Args[0].str(d+1) + "." + t.Aux
	case TFieldV:
		return t.Args[0].str(d+1) + "." + t.Aux
	case TIndex, TIndexV, TMapEl:
		return t.Args[0].str(d+1) + "[" + t.Args[1].str(d+1) + "]"
	case TSlice:
		return fmt.Sprintf("%s[%s:+%s]", t.Args[0].str(d+1), t.Args[1].str(d+1), t.Args[2].str(d+1))
	case TLen:
		return "len(" + as("") + ")"
	case TCap:
		return "cap(" + as("") + ")"
	case TStruct:
		return "{" + as(", ") + "}"
	case TTuple:
		return "(" + as(", ") + ")"
	case TIface:
		return "iface(" + as("") + ")"
	case TUnbox:
		return as("") + ".(" + shortType(t.Typ) + ")"
	case TIsType:
		return as("") + " is " + shortType(t.Typ)
	case TConv:
		return shortType(t.Typ) + "(" + as("") + ")"
	case TBin:
		return "(" + as(" "+t.Aux+" ") + ")"
	case TUn:
		return t.Aux + as("")
	case TEq:
		return as(" == ")
	case TGe0:
		return as("") + " >= 0"
	case TEq0:
		return as("") + " == 0"
	case TNot:
		return "!(" + as("") + ")"
	case TApp:
		return t.Aux + "(" + as(", ") + ")"
	}
	return "?"
}

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// atoms calls f for every atom (non-linear leaf) of an integer or boolean term.
func (t *Term) walk(f func(*Term) bool) {
	if !f(t) {
		return
	}
	for _, p := range t.P {
		p.T.walk(f)
	}
	for _, a := range t.Args {
		a.walk(f)
	}
}
