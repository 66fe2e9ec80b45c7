package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// B01, B04 and B05: what requests and tuples consist of. The writer is
// abstract: each call of one of its methods emits an item of known width (the
// methods themselves are M01, M04 and M07). Outside of loops the items of a
// path form a list; in loops fields are counted by linear invariants.

func init() {
	register(&checkDef{id: "B01", run: func(P *Program, r *Report) { checkTuples(P, r) },
		rule:  "on every path of every tuple writer, through summarised loops: the first item is a 32-bit count, the number of fields that follow equals it (linear invariants, with the fields of repeated rows counted per row), and every field is an item preceded by its byte size, or is written by a call that writes the size in front; or the writer writes nothing itself and hands the value to exactly one other tuple writer",
		assum: []string{"values are not modified by others meanwhile", "lengths fit 32 bits"}})
	register(&checkDef{id: "B04", run: func(P *Program, r *Report) { checkSelect(P, r) },
		rule:  "on every path of the writer of selects, for every dynamic type and kind of keys, through summarised loops: the announced number of keys equals the number of tuples that are written behind it (linear invariants; elements that are nil are counted once per pass over the same keys), and a limit derived from the number of keys is that number",
		assum: []string{"keys are not modified meanwhile", "no nil pointers among the keys"}})
	register(&checkDef{id: "B05", run: func(P *Program, r *Report) { checkRequests(P, r) },
		rule:  "the items written on every path of every request writer, in order and with widths, against the protocol's layout; flags by provenance of each bit; update operations for each known operation code, with the table of codes read from its initialiser; sizes in front of values equal what follows; the constant request codes",
		assum: []string{"the protocol of octopus/box as of the pinned commit"}})
}

type sbM struct {
	P              *Program
	r              *Report
	wr             types.Type
	tw             types.Type
	sites          map[string]int
	fn             *ssa.Function
	keys           *Term
	argBase        *Term
	opKind, opCode int64

	rowLoop map[*ssa.BasicBlock]bool
	rowlens []*Term // lengths of rows, in the current run
}

type sbItem struct {
	kind string // w1 w2 w4 w8 var bytes sized tuple value
	v    *Term
}

var sbT = types.NewNamed(types.NewTypeName(0, types.NewPackage("emitted", "emitted"), "Tuple", nil), types.NewStruct([]*types.Var{
	types.NewField(0, nil, "fields", types.Typ[types.Int], false), types.NewField(0, nil, "inner", types.Typ[types.Int], false),
	types.NewField(0, nil, "rows", types.Typ[types.Int], false), types.NewField(0, nil, "tuples", types.Typ[types.Int], false),
	types.NewField(0, nil, "seen", types.Typ[types.Int], false), types.NewField(0, nil, "nonnil", types.Typ[types.Int], false),
	types.NewField(0, nil, "nils", types.Typ[types.Int], false)}, nil), nil)

var sbSym = mk(TApp, types.NewPointer(sbT), "nn:emitted", 0)

func sbCell(i int) *Term { return fieldAddr(sbSym, sbT, i) }

const (
	sbFields = iota
	sbInner
	sbRows
	sbTuples
	sbSeen
	sbNonnil
	sbNils
)

func (m *sbM) add(x *Exec, st *State, fr *Frame, i int, n *Term) {
	c := sbCell(i)
	v := st.mem[c]
	if v == nil {
		v = x.loadLeaf(st, c, tyInt)
	}
	x.recordWrite(fr, c)
	st.mem[c] = add(v, n)
}

func (m *sbM) set(x *Exec, st *State, fr *Frame, i int, n *Term) {
	x.recordWrite(fr, sbCell(i))
	st.mem[sbCell(i)] = n
}

func (m *sbM) cnt(x *Exec, st *State, i int) *Term { return x.loadLeaf(st, sbCell(i), tyInt) }

func newSbM(P *Program, r *Report) *sbM {
	m := &sbM{P: P, r: r, wr: P.Type("marshal", "Writer"), tw: P.Type("sbox", "TWriter"), sites: map[string]int{}, rowLoop: map[*ssa.BasicBlock]bool{}}
	if m.wr == nil || m.tw == nil {
		r.Add(0, "undecided", "", nil, "the writers of values and tuples were not found")
		return nil
	}
	return m
}

func (m *sbM) bad(pos token.Pos, rule string, fn *ssa.Function, st *State, f string, a ...interface{}) {
	m.r.Add(pos, rule, fnName(fn), st, f, a...)
}

func (m *sbM) isWriter(t types.Type) bool {
	p, ok := under(t).(*types.Pointer)
	return ok && types.Identical(p.Elem(), m.wr)
}

func (m *sbM) isPtrTo(t, e types.Type) bool {
	p, ok := under(t).(*types.Pointer)
	return ok && types.Identical(p.Elem(), e)
}

func (m *sbM) takesWriter(sig *types.Signature) bool {
	if sig.Recv() != nil && m.isWriter(sig.Recv().Type()) {
		return true
	}
	for i := 0; i < sig.Params().Len(); i++ {
		if m.isWriter(sig.Params().At(i).Type()) {
			return true
		}
	}
	return false
}

func inLoops(x *Exec, fr *Frame, in ssa.Instruction) bool {
	b := in.Block()
	for f := fr; f != nil; f = f.parent {
		if b != nil && b.Parent() == f.fn {
			for _, body := range x.loopInfo(f.fn).body {
				if body[b] {
					return true
				}
			}
		}
		if f.site == nil {
			break
		}
		b = f.site.Block()
	}
	return false
}

// emit: an item is written.
func (m *sbM) emit(x *Exec, st *State, fr *Frame, in ssa.Instruction, it sbItem) {
	m.sites["items"]++
	if !inLoops(x, fr, in) {
		n := 0
		fmt.Sscan(st.g("items", nil), &n)
		st.vals[fmt.Sprint("item", n)] = it.v
		id := 0
		if it.v != nil {
			id = it.v.ID
		}
		st.setG(fmt.Sprint("item", n), it.v, it.kind)
		st.setG(fmt.Sprint("itemid", n), nil, fmt.Sprint(id, it.kind))
		st.setG("items", nil, fmt.Sprint(n+1))
		return
	}
	st.setG("loopat", nil, st.g("items", nil))
	m.sites["items in loops"]++
	if it.kind == "tuple" {
		m.add(x, st, fr, sbTuples, num(1))
		return
	}
	pend := st.vals["pending"]
	if st.g("pending", nil) == "" {
		pend = nil
	}
	switch {
	case pend != nil:
		if !m.fits(st, pend, it) {
			m.bad(in.Pos(), "size", fr.fn, st, "an item (%s) is written behind a size of %s", it.kind, pend)
		} else {
			m.r.OK(in.Pos(), "the size is that of the item")
		}
		st.setG("pending", nil, "")
		m.field(x, st, fr, in, it.v)
	case it.kind == "sized":
		m.field(x, st, fr, in, it.v)
	case it.kind == "var" || it.kind == "w1":
		st.vals["pending"] = stripConv(it.v)
		st.setG("pending", nil, "1")
	default:
		m.bad(in.Pos(), "no size", fr.fn, st, "an item (%s) is written without its size in front", it.kind)
	}
}

// field: a field was written; fields of the rows of a repeated tail are
// counted by row.
func (m *sbM) field(x *Exec, st *State, fr *Frame, in ssa.Instruction, v *Term) {
	if m.argBase != nil {
		b, off, _, _ := sliceParts(m.argBase, m.argBase.Typ)
		o := v.Org
		if o == nil || o.Op != TIndex || o.Args[0] != b || st.eval(eqTerm(sub(o.Args[1], off), m.cnt(x, st, sbFields))) != 1 {
			m.bad(in.Pos(), "arguments", x.root, st, "%s is written in the place of the next argument", v)
		}
	}
	row := false
	for t := v; t != nil && t.Op == TApp && len(t.Args) > 0; t = t.Args[0] {
		row = row || t.Aux == "reflect.Index" && t != v
	}
	if row {
		b := in.Block()
		for f := fr; f != nil; f = f.parent {
			var best map[*ssa.BasicBlock]bool
			var head *ssa.BasicBlock
			for h, body := range x.loopInfo(f.fn).body {
				if body[b] && (best == nil || len(body) < len(best)) {
					best, head = body, h
				}
			}
			if head != nil {
				m.rowLoop[head] = true
				break
			}
			if f.site == nil {
				break
			}
			b = f.site.Block()
		}
		m.add(x, st, fr, sbInner, num(1))
		return
	}
	m.add(x, st, fr, sbFields, num(1))
}

// fits: the item has n bytes.
func (m *sbM) fits(st *State, n *Term, it sbItem) bool {
	n = stripConv(n)
	switch it.kind {
	case "w1", "w2", "w4", "w8":
		return st.eval(eqTerm(n, num(int64(it.kind[1]-'0')))) == 1
	case "bytes":
		if it.v == nil {
			return false
		}
		t := it.v.Typ
		if t == nil {
			t = types.NewSlice(types.Typ[types.Uint8])
		}
		return st.eval(eqTerm(n, lenOf(it.v, t))) == 1
	}
	return false
}

func (m *sbM) items(st *State) (l []sbItem) {
	n := 0
	fmt.Sscan(st.g("items", nil), &n)
	for i := 0; i < n; i++ {
		v := st.vals[fmt.Sprint("item", i)]
		l = append(l, sbItem{st.g(fmt.Sprint("item", i), v), v})
	}
	return
}

var widthOf = map[types.BasicKind]string{types.Int8: "w1", types.Uint8: "w1", types.Int16: "w2", types.Uint16: "w2", types.Int32: "w4", types.Uint32: "w4", types.Float32: "w4", types.Int64: "w8", types.Uint64: "w8", types.Float64: "w8"}

func (m *sbM) itemOf(ci *CallInfo) (it sbItem, ok bool) {
	f := ci.Fn
	if f == nil || f.Signature.Recv() == nil {
		return
	}
	if m.isWriter(f.Signature.Recv().Type()) && f.Object() != nil && f.Object().Exported() {
		if len(ci.Args) < 2 {
			return sbItem{"?", nil}, true
		}
		v := ci.Args[1]
		switch f.Name() {
		case "Uint8", "Int8", "IntUint8":
			return sbItem{"w1", v}, true
		case "Uint16", "Int16", "IntUint16":
			return sbItem{"w2", v}, true
		case "Uint32", "Int32", "IntUint32", "Float32":
			return sbItem{"w4", v}, true
		case "Uint64", "Int64", "IntUint64", "Float64":
			return sbItem{"w8", v}, true
		case "Intvar", "Uint64var":
			return sbItem{"var", v}, true
		case "Bytes", "Uint8sl", "String":
			return sbItem{"bytes", v}, true
		case "WriteWithSize":
			if m.ber(ci.Args[len(ci.Args)-1]) {
				return sbItem{"sized", v}, true
			}
			return sbItem{"?", v}, true
		case "Write":
			if v.Op == TIface {
				if b, ok := under(v.Typ).(*types.Basic); ok && widthOf[b.Kind()] != "" {
					return sbItem{widthOf[b.Kind()], v.Args[0]}, true
				}
				v = v.Args[0]
			}
			return sbItem{"value", v}, true
		}
		return sbItem{"?", v}, true
	}
	if f.Name() == "WithSize" && m.P.relPkg(f) == "marshal" && len(ci.Args) >= 4 {
		if m.ber(ci.Args[3]) {
			return sbItem{"sized", ci.Args[2]}, true
		}
		return sbItem{"?", ci.Args[2]}, true
	}
	return
}

// ber: the function writes a size as a variable-length number.
func (m *sbM) ber(f *Term) bool {
	if f == nil || f.Op != TFunc && f.Op != TClosure || f.Fn == nil {
		return false
	}
	fn := f.Fn
	if fn.Name() == "Intvar" && isMethodOf(fn, m.wr) || fn.Name() == "Intvar" && len(fn.Params) > 0 && m.isWriter(fn.Params[0].Type()) {
		return true
	}
	// a wrapper of it
	n, ok := 0, false
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, is := in.(ssa.CallInstruction); is {
				n++
				cf := c.Common().StaticCallee()
				ok = cf != nil && (cf.Name() == "Intvar" || cf.Name() == "Uint64var") && isMethodOf(cf, m.wr)
			}
		}
	}
	return n == 1 && ok
}

func isMethodOfPtr(fn *ssa.Function, t types.Type) bool {
	if fn == nil || fn.Signature.Recv() == nil {
		return false
	}
	n := namedOf(fn.Signature.Recv().Type())
	return n != nil && types.Identical(n, t)
}

// pureReflect: functions of package reflect, and methods of its types, whose
// result depends on their arguments only.
func pureReflect(x *Exec, st *State, ci *CallInfo) ([]Outcome, bool) {
	f := ci.Fn
	var name string
	var args []*Term
	switch {
	case f != nil && fnPkgPath(f) == "reflect":
		name, args = f.Name(), ci.Args
	case f == nil && ci.Method != nil && ci.Method.Pkg() != nil && ci.Method.Pkg().Path() == "reflect":
		name, args = ci.Method.Name(), append([]*Term{ci.Recv}, ci.Args...)
		if len(ci.Args) > 0 && ci.Args[0] == ci.Recv {
			args = ci.Args
		}
	default:
		return nil, false
	}
	res := ci.Common.Signature().Results()
	if res.Len() != 1 {
		return nil, false
	}
	switch name {
	case "ValueOf", "Kind", "Len", "Elem", "Field", "Index", "Type", "IsNil", "CanAddr", "TypeOf", "Pointer":
		t := res.At(0).Type()
		v := mk(TApp, t, "reflect."+name, 0, args...)
		if name == "Type" || name == "TypeOf" || name == "Elem" && !strings.HasSuffix(types.TypeString(t, nil), ".Value") {
			v = mk(TApp, t, "nn:reflect."+name, 0, args...)
		}
		if name == "Len" || name == "Kind" {
			st.assume(ge0(v))
		}
		return []Outcome{{st: st, vals: []*Term{v}}}, true
	}
	return nil, false
}

func (m *sbM) monitor() *Monitor {
	P := m.P
	mon := &Monitor{Name: "emit", Unroll: -1, NoLockCk: true, JoinAt: 300, JoinBlk: 300, Arith: true, CellLin: true, Facts: true}
	mon.Relevant = func(f *ssa.Function) bool {
		if P.relPkg(f) != "sbox" {
			return false
		}
		for i := 0; i < f.Signature.Results().Len(); i++ {
			if p, ok := under(f.Signature.Results().At(i).Type()).(*types.Pointer); ok && namedOf(p.Elem()) != nil {
				return false
			}
		}
		return true
	}
	mon.CellPair = func(a, b *Term) bool { return a == sbCell(sbTuples) && b == sbCell(sbNonnil) }
	mon.Init = func(x *Exec, st *State, args []*Term) { m.rowlens = nil }
	mon.Keep = func(x *Exec, st *State, addr *Term, ci *CallInfo) bool { return true }
	mon.Call = func(x *Exec, st *State, fr *Frame, ci *CallInfo) ([]Outcome, bool) {
		if o, ok := pureReflect(x, st, ci); ok {
			return o, true
		}
		if it, ok := m.itemOf(ci); ok {
			if it.kind == "?" {
				m.bad(ci.Instr.Pos(), "undecided", fr.fn, st, "it is not known what %s writes", ci.Name())
			}
			m.emit(x, st, fr, ci.Instr, it)
			return []Outcome{{st: st, vals: m.fresh(x, st, ci)}}, true
		}
		if !m.takesWriter(ci.Common.Signature()) && !(ci.Fn != nil && m.takesWriter(ci.Fn.Signature)) {
			return nil, false
		}
		if m.tupleWriter(ci) {
			v := ci.Args[len(ci.Args)-1]
			m.sites["tuples written"]++
			_, iface := under(ci.Common.Signature().Params().At(ci.Common.Signature().Params().Len() - 1).Type()).(*types.Interface)
			if !iface || v.Op == TIface || st.isNilFact(v) == 0 {
				m.visited(x, st, fr, v, true)
				m.emit(x, st, fr, ci.Instr, sbItem{"tuple", v})
				return []Outcome{{st: st}}, true
			}
			var outs []Outcome
			if s2 := st.clone(); s2.assume(mkEq(v, nilTerm)) {
				m.visited(x, s2, fr, v, false)
				outs = append(outs, Outcome{st: s2})
			}
			if st.assume(not(mkEq(v, nilTerm))) {
				m.visited(x, st, fr, v, true)
				m.emit(x, st, fr, ci.Instr, sbItem{"tuple", v})
				outs = append(outs, Outcome{st: st})
			}
			return outs, true
		}
		if ci.Fn == nil || P.relPkg(ci.Fn) != "sbox" {
			m.bad(ci.Instr.Pos(), "undecided", fr.fn, st, "it is not known what %s writes", ci.Name())
			return []Outcome{{st: st, vals: m.fresh(x, st, ci)}}, true
		}
		return nil, false
	}
	mon.Loaded = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, addr, val *Term) {
		if addr.Op != TField || fieldOwner[addr] != types.TypeString(m.tw, nil) || val.Op != TSym || !isIntType(val.Typ) || st.dom[val] != nil {
			return
		}
		if d := P.fieldConsts(m.tw, addr.N); d != nil {
			st.dom[val] = d
		}
	}
	mon.BackEdge = func(x *Exec, st *State, fr *Frame, h *ssa.BasicBlock) {
		if st.g("pending", nil) != "" {
			m.bad(posOf(h), "size", fr.fn, st, "a size is written without a value behind it")
		}
		in := m.cnt(x, st, sbInner)
		if m.rowLoop[h] || in == num(0) {
			return
		}
		var fl *Term
		st.eachFact(func(f *Term) bool {
			f.walk(func(t *Term) bool {
				if t.Op == TLen && fl == nil && st.eval(eqTerm(t, in)) == 1 {
					fl = t
				}
				return true
			})
			return true
		})
		if fl == nil {
			if st.eval(eqTerm(in, num(0))) != 1 {
				m.bad(posOf(h), "fields of rows", fr.fn, st, "rows of %s fields are written, which may differ from row to row", in)
			}
		} else {
			m.r.OK(posOf(h), "rows of as many fields each")
			m.rowlens = append(m.rowlens, fl)
			m.add(x, st, fr, sbRows, num(1))
		}
		m.set(x, st, fr, sbInner, num(0))
	}
	return mon
}

func (m *sbM) fresh(x *Exec, st *State, ci *CallInfo) (l []*Term) {
	r := ci.Common.Signature().Results()
	for i := 0; i < r.Len(); i++ {
		l = append(l, x.freshVal(st, "res", r.At(i).Type()))
	}
	return
}

// tupleWriter: the call writes one tuple (or nothing for nil).
func (m *sbM) tupleWriter(ci *CallInfo) bool {
	if ci.Fn != nil {
		return ci.Fn.Name() == "WriteTuple" && m.P.relPkg(ci.Fn) == "sbox" && ci.Fn != m.fn
	}
	if ci.FnTerm == nil || ci.FnTerm.Org == nil {
		return false
	}
	o := ci.FnTerm.Org
	return o.Op == TField && fieldOwner[o] == types.TypeString(m.tw, nil) && m.takesWriter(ci.Common.Signature())
}

// elems: the keys, where they are a slice of values of any type.
func (m *sbM) elems(st *State) (r *Term) {
	if m.keys == nil {
		return nil
	}
	st.eachFact(func(f *Term) bool {
		if f.Op == TIsType && f.Args[0] == m.keys {
			if s, ok := under(f.Typ).(*types.Slice); ok && types.IsInterface(s.Elem()) {
				r = mk(TUnbox, f.Typ, "", 0, m.keys)
			}
		}
		return true
	})
	return
}

// visited: an element of keys is looked at, in order.
func (m *sbM) visited(x *Exec, st *State, fr *Frame, v *Term, nonnil bool) {
	s := m.elems(st)
	if s == nil || v == nil || v.Org == nil || v.Org.Op != TIndex {
		return
	}
	b, off, _, _ := sliceParts(s, s.Typ)
	if v.Org.Args[0] != b {
		return
	}
	if st.eval(eqTerm(sub(v.Org.Args[1], off), x.loadLeaf(st, sbCell(sbSeen), tyInt))) != 1 {
		return
	}
	m.add(x, st, fr, sbSeen, num(1))
	if nonnil {
		m.add(x, st, fr, sbNonnil, num(1))
	} else {
		m.add(x, st, fr, sbNils, num(1))
	}
}

func (m *sbM) start(st *State) {
	for i := 0; i <= sbNils; i++ {
		st.mem[sbCell(i)] = num(0)
	}
}

// fieldsIn: items as a sequence of sized fields.
func (m *sbM) fieldsIn(st *State, l []sbItem) (n int, rest []sbItem, ok bool) {
	for len(l) > 0 {
		switch {
		case l[0].kind == "sized":
			l = l[1:]
		case len(l) > 1 && (l[0].kind == "var" || m.small(st, l[0])) && m.fits(st, l[0].v, l[1]):
			l = l[2:]
		case (l[0].kind == "var" || m.small(st, l[0])) && st.eval(eqTerm(stripConv(l[0].v), num(0))) == 1:
			l = l[1:]
		default:
			return n, l, false
		}
		n++
	}
	return n, nil, true
}

// small: a byte that is the encoding of itself as a variable-length number.
func (m *sbM) small(st *State, it sbItem) bool {
	v := stripConv(it.v)
	return it.kind == "w1" && st.eval(ge0(v)) == 1 && st.eval(ge0(sub(num(127), v))) == 1
}

func (it sbItem) String() string { return it.kind + "(" + fmt.Sprint(it.v) + ")" }

// checkTuples is B01.
func checkTuples(P *Program, r *Report) {
	m := newSbM(P, r)
	if m == nil {
		return
	}
	var roots []*ssa.Function
	if f := P.Func("sbox", "WriteTuple"); f != nil {
		roots = append(roots, f)
	} else {
		r.Add(0, "undecided", "", nil, "the writer of tuples was not found")
	}
	seen := map[*ssa.Function]bool{}
	for _, fn := range P.Funcs {
		if P.relPkg(fn) != "sbox" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || !m.isPtrTo(fa.X.Type(), m.tw) {
					continue
				}
				sig, ok := under(s.Val.Type()).(*types.Signature)
				if !ok || !m.takesWriter(sig) {
					continue
				}
				f := funcOf(s.Val)
				if f == nil {
					r.Add(s.Pos(), "undecided", fnName(fn), nil, "it is not known which function writes tuples of a type")
					continue
				}
				if !seen[f] {
					seen[f] = true
					roots = append(roots, f)
				}
			}
		}
	}
	r.Counts["tuple writers"] = len(roots)
	r.Floor("tuple writers", len(roots), 4)
	for _, fn := range roots {
		m.tuple(fn)
	}
	r.Floor("tuples", m.sites["tuples"], 20)
	r.Floor("tuples handed on", m.sites["tuples handed on"], 2)
	for k, v := range m.sites {
		r.Counts["events: "+k] = v
	}
}

// funcOf: the function of a closure or bound method.
func funcOf(v ssa.Value) *ssa.Function {
	switch c := v.(type) {
	case *ssa.Function:
		return c
	case *ssa.MakeClosure:
		f := c.Fn.(*ssa.Function)
		return f
	case *ssa.ChangeType:
		return funcOf(c.X)
	}
	return nil
}

func (m *sbM) tuple(fn *ssa.Function) {
	m.fn = fn
	mon := m.monitor()
	mon.End = func(x *Exec, o *Outcome) {
		if o.kind != OutReturn {
			return
		}
		st := o.st
		l := m.items(st)
		fields, rows := m.cnt(x, st, sbFields), m.cnt(x, st, sbRows)
		tuples := m.cnt(x, st, sbTuples)
		none := st.eval(eqTerm(fields, num(0))) == 1 && st.eval(eqTerm(tuples, num(0))) == 1
		switch {
		case st.eval(eqTerm(tuples, num(0))) != 1:
			m.bad(o.pos, "count", fn, st, "tuples are written in a loop inside of a tuple")
		case len(l) == 0 && none && st.g("loopat", nil) == "":
			m.sites["nothing written"]++
			if m.nothing(st, x) {
				m.r.OK(o.pos, "nothing for nil")
			} else {
				m.bad(o.pos, "no tuple", fn, st, "nothing is written for a value that may be other than nil")
			}
		case len(l) == 1 && l[0].kind == "tuple" && none:
			m.sites["tuples handed on"]++
			m.r.OK(o.pos, "handed to one other writer")
		case len(l) == 0 || l[0].kind != "w4":
			m.bad(o.pos, "count", fn, st, "the number of fields is not written first: %v", l)
		default:
			m.sites["tuples"]++
			n, rest, ok := m.fieldsIn(st, l[1:])
			if !ok {
				m.bad(o.pos, "size", fn, st, "not a field with its size in front: %v", rest)
				return
			}
			if la := st.g("loopat", nil); la != "" && la == "0" {
				m.bad(o.pos, "count", fn, st, "fields are written before their number")
				return
			}
			left := sub(sub(stripConv(l[0].v), num(int64(n))), fields)
			if st.eval(eqTerm(left, num(0))) == 1 && st.eval(eqTerm(rows, num(0))) == 1 || m.rowsOf(st, left, rows) {
				m.r.OK(o.pos, "as many fields as announced")
			} else {
				m.bad(o.pos, "count", fn, st, "%s fields are announced, %s are written (and %s rows)", l[0].v, add(fields, num(int64(n))), rows)
			}
		}
	}
	x := newExec(m.P, m.r, mon)
	x.RunRoot(fn, func(st *State, args []*Term) { m.start(st) })
}

// nothing: there is nothing to write.
func (m *sbM) nothing(st *State, x *Exec) bool {
	for i, a := range x.args {
		if nilable(x.root.Params[i].Type()) && st.isNilFact(a) == 1 {
			return true
		}
	}
	ok := false
	st.eachFact(func(f *Term) bool {
		if f.Op == TApp && f.Aux == "reflect.IsNil" {
			ok = true
		}
		return true
	})
	return ok
}

// rowsOf: what is left is the product of the number of rows and their length.
func (m *sbM) rowsOf(st *State, left, rows *Term) bool {
	_, ps := linOf(left)
	if len(m.rowlens) == 0 {
		return false
	}
	fl := m.rowlens[0]
	for _, f := range m.rowlens {
		if f != fl {
			return false
		}
	}
	for _, p := range ps {
		if p.T.Op != TBin || p.T.Aux != "*" || p.K != 1 || st.eval(eqTerm(left, p.T)) != 1 {
			continue
		}
		a, b := p.T.Args[0], p.T.Args[1]
		if st.eval(eqTerm(a, rows)) == 1 && b == fl || st.eval(eqTerm(b, rows)) == 1 && a == fl {
			return true
		}
	}
	return false
}

// checkSelect is B04.
func checkSelect(P *Program, r *Report) {
	m := newSbM(P, r)
	if m == nil {
		return
	}
	m.selects()
	m.silent()
	r.Floor("selects", m.sites["selects"], 30)
	for k, v := range m.sites {
		r.Counts["events: "+k] = v
	}
}

func (m *sbM) selects() {
	P, r := m.P, m.r
	fn, t := m.writerOf("SelectReq")
	if fn == nil {
		return
	}
	m.fn = fn
	li, ki := structField(t, "Limit"), structField(t, "Keys")
	selN, okN := P.Const("sbox", "SelectN")
	if li < 0 || ki < 0 || !okN {
		r.Add(0, "undecided", "", nil, "the limit and the keys of a select were not found")
		return
	}
	mon := m.monitor()
	var lim, keys *Term
	m.keys = nil
	mon.Branch = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, cond *Term, taken bool) {
		c, pos := cond, taken
		if c.Op == TNot {
			c, pos = c.Args[0], !pos
		}
		if c.Op == TEq && len(c.Args) == 2 {
			for i := 0; i < 2; i++ {
				if c.Args[i].isNil() {
					m.visited(x, st, fr, c.Args[1-i], !pos)
				}
			}
		}
	}
	mon.Enter = func(x *Exec, st *State, fr *Frame) {
		if fr.fn == fn {
			return
		}
		for _, p := range fr.fn.Params {
			v := fr.env[p]
			if v == keys || v != nil && v == m.elems(st) {
				m.set(x, st, fr.parent, sbSeen, num(0))
				m.set(x, st, fr.parent, sbNonnil, num(0))
				m.set(x, st, fr.parent, sbNils, num(0))
			}
		}
	}
	mon.Leave = func(x *Exec, st *State, fr *Frame, o *Outcome) {
		s := m.elems(o.st)
		if s == nil || fr.fn == fn {
			return
		}
		for _, p := range fr.fn.Params {
			v := fr.env[p]
			if v != keys && v != s {
				continue
			}
			seen := m.cnt(x, o.st, sbSeen)
			if st := o.st; st.eval(eqTerm(seen, lenOf(s, s.Typ))) == 1 {
				m.sites["passes over the keys"]++
				st.assume(eqTerm(m.cnt(x, st, sbNonnil), mk(TApp, tyInt, "nonnil", 0, s)))
				st.assume(eqTerm(m.cnt(x, st, sbNils), sub(lenOf(s, s.Typ), mk(TApp, tyInt, "nonnil", 0, s))))
			}
			return
		}
	}
	mon.End = func(x *Exec, o *Outcome) {
		if o.kind != OutReturn {
			return
		}
		st := o.st
		l := m.items(st)
		m.sites["selects"]++
		if len(l) < 2 {
			m.bad(o.pos, "undecided", fn, st, "the items of a select: %v", l)
			return
		}
		// the number of keys is the last item before the keys
		k, n := -1, m.cnt(x, st, sbTuples)
		for i, it := range l {
			if it.kind == "tuple" {
				n = add(n, num(1))
			} else if n != m.cnt(x, st, sbTuples) {
				m.bad(o.pos, "order", fn, st, "items behind the keys: %v", l)
				return
			} else {
				k = i
			}
		}
		if k < 1 || l[k].kind != "w4" || l[k-1].kind != "w4" {
			m.bad(o.pos, "layout", fn, st, "limit and number of keys are not written as 32 bits each: %v", l)
			return
		}
		if la := st.g("loopat", nil); la != "" && la != fmt.Sprint(k+1) {
			m.bad(o.pos, "order", fn, st, "keys are written before their number")
			return
		}
		cnt := stripConv(l[k].v)
		if st.eval(eqTerm(cnt, n)) == 1 {
			m.r.OK(o.pos, "as many keys as announced")
		} else {
			m.bad(o.pos, "keys", fn, st, "%s keys are announced, %s are written", l[k].v, n)
		}
		if st.eval(eqTerm(lim, num(selN))) == 1 {
			m.sites["limits from keys"]++
			if v := stripConv(l[k-1].v); st.eval(eqTerm(v, cnt)) == 1 {
				m.r.OK(o.pos, "the limit is the number of keys")
			} else {
				m.bad(o.pos, "limit", fn, st, "the limit %s is written, which is not the number of keys %s", v, cnt)
			}
		}
	}
	x := newExec(P, r, mon)
	x.RunRoot(fn, func(st *State, args []*Term) {
		m.start(st)
		s := under(t).(*types.Struct)
		lim, keys = x.fieldOf(args[0], li, s.Field(li).Type(), "Limit"), x.fieldOf(args[0], ki, s.Field(ki).Type(), "Keys")
		m.keys = keys
	})
	r.Floor("limits from keys", m.sites["limits from keys"], 5)
	r.Floor("passes over the keys", m.sites["passes over the keys"], 2)
}

// silent: nothing is written for nil, and only for nil.
func (m *sbM) silent() {
	fn := m.P.Func("sbox", "WriteTuple")
	if fn == nil {
		m.r.Add(0, "undecided", "", nil, "the writer of tuples was not found")
		return
	}
	m.fn, m.keys, m.argBase = fn, nil, nil
	mon := m.monitor()
	mon.End = func(x *Exec, o *Outcome) {
		if o.kind != OutReturn {
			return
		}
		m.sites["single tuples"]++
		isNil := x.args[len(x.args)-1]
		written := len(m.items(o.st)) > 0
		switch {
		case o.st.isNilFact(isNil) == 1 && written:
			m.bad(o.pos, "tuple for nil", fn, o.st, "a tuple is written for nil, which is not counted as a key")
		case o.st.isNilFact(isNil) != 1 && !written:
			m.bad(o.pos, "no tuple", fn, o.st, "nothing is written for a value other than nil, which is counted as a key")
		default:
			m.r.OK(o.pos, "a tuple unless nil")
		}
	}
	newExec(m.P, m.r, mon).RunRoot(fn, func(st *State, args []*Term) { m.start(st) })
	m.r.Floor("single tuples", m.sites["single tuples"], 10)
}

// writerOf: the method that writes a request.
func (m *sbM) writerOf(name string) (*ssa.Function, types.Type) {
	t := m.P.Type("sbox", name)
	if t == nil {
		m.r.Add(0, "undecided", "", nil, "%s was not found", name)
		return nil, nil
	}
	f := m.P.Method("sbox", name, "IWrite")
	if f == nil {
		m.r.Add(0, "undecided", "", nil, "%s is not written by a method of its own", name)
		return nil, nil
	}
	return f, t
}

func checkRequests(P *Program, r *Report) {
	m := newSbM(P, r)
	if m == nil {
		return
	}
	for name, code := range map[string]int64{"StoreReq": 13, "DeleteReq": 21, "UpdateReq": 19, "SelectReq": 17, "RPCReq": 22} {
		m.code(name, code)
	}
	m.layout("StoreReq", func(q *sbReq) {
		q.word("Space")
		q.flags("Return", "Mode")
		q.tuple("Tuple")
		q.end()
	})
	m.layout("DeleteReq", func(q *sbReq) {
		q.word("Space")
		q.flags("Return", "")
		q.tuple("Key")
		q.end()
	})
	m.layout("UpdateReq", func(q *sbReq) {
		q.word("Space")
		q.flags("Return", "")
		q.tuple("Key")
		q.value("Ops")
		q.end()
	})
	m.layout("SelectReq", func(q *sbReq) {
		q.word("Space")
		q.word("Index")
		q.word("Offset")
		lim := q.field("Limit")
		it, ok := q.next("the limit", "w4")
		if ok && q.st.eval(ge0(lim)) == 1 && q.st.eval(eqTerm(stripConv(it.v), lim)) != 1 {
			q.bad("the limit", it)
		}
		q.next("the number of keys", "w4")
	})
	m.layout("RPCReq", func(q *sbReq) {
		if it, ok := q.next("the flags", "w4"); ok && q.st.eval(eqTerm(stripConv(it.v), num(0))) != 1 {
			q.bad("no flags", it)
		}
		q.str("Name")
		args := q.field("Args")
		n := lenOf(args, args.Typ)
		if it, ok := q.next("the number of arguments", "w4"); ok && q.st.eval(eqTerm(stripConv(it.v), n)) != 1 {
			q.bad("the number of arguments", it)
		}
		q.end()
		if la := q.st.g("loopat", nil); la != "" && la != fmt.Sprint(q.n) {
			q.bad("the arguments behind their number", sbItem{})
		}
		if c := m.cnt(q.x, q.st, sbFields); q.st.eval(eqTerm(c, n)) != 1 {
			q.bad(fmt.Sprint("all arguments, not ", c), sbItem{})
		} else {
			m.r.OK(q.pos, "all arguments")
		}
	})
	kinds := []int64{0, 1, 2, 3, 4, 5, 6, 7}
	codes := map[int64]int64{'=': 0, '+': 1, '&': 2, '|': 3, '^': 4, 's': 5, 'd': 6, 'i': 7}
	for i := range kinds {
		codes[int64(i)] = int64(i)
	}
	for _, k := range []int64{'=', '+', '&', '|', '^', 's', 'd', 'i', 0, 1, 2, 3, 4, 5, 6, 7} {
		m.opKind, m.opCode = k, codes[k]
		m.layout("Op", func(q *sbReq) {
			q.word("Field")
			if it, ok := q.next("the operation", "w1"); ok && q.st.eval(eqTerm(stripConv(it.v), num(codes[k]))) != 1 {
				q.bad(fmt.Sprintf("the code %d of operation %q", codes[k], rune(k)), it)
			}
			q.sized("Val")
			q.end()
		})
	}
	r.Floor("requests written", m.sites["requests written"], 60)
	r.Floor("request codes", m.sites["request codes"], 5)
	for k, v := range m.sites {
		r.Counts["events: "+k] = v
	}
}

// code: the request code.
func (m *sbM) code(name string, code int64) {
	f := m.P.Method("sbox", name, "IMsg")
	if f == nil {
		m.r.Add(0, "undecided", "", nil, "the code of %s was not found", name)
		return
	}
	mon := m.monitor()
	mon.End = func(x *Exec, o *Outcome) {
		if o.kind != OutReturn {
			return
		}
		m.sites["request codes"]++
		if len(o.vals) != 1 || o.st.eval(eqTerm(o.vals[0], num(code))) != 1 {
			m.bad(o.pos, "code", f, o.st, "the code of %s is not %d", name, code)
		} else {
			m.r.OK(o.pos, "request code")
		}
	}
	newExec(m.P, m.r, mon).RunRoot(f, nil)
}

// sbReq: the items of one path of a request writer, against its layout.
type sbReq struct {
	m    *sbM
	x    *Exec
	st   *State
	pos  token.Pos
	fn   *ssa.Function
	t    types.Type
	l    []sbItem
	n    int
	fail bool
}

func (m *sbM) layout(name string, spec func(q *sbReq)) {
	fn, t := m.writerOf(name)
	if fn == nil {
		return
	}
	m.fn, m.argBase = fn, nil
	mon := m.monitor()
	mon.End = func(x *Exec, o *Outcome) {
		if o.kind != OutReturn {
			return
		}
		m.sites["requests written"]++
		q := &sbReq{m: m, x: x, st: o.st, pos: o.pos, fn: fn, t: t, l: m.items(o.st)}
		spec(q)
		if !q.fail {
			m.r.OK(o.pos, "laid out as the protocol has it")
		}
	}
	x := newExec(m.P, m.r, mon)
	x.RunRoot(fn, func(st *State, args []*Term) {
		m.start(st)
		s := under(t).(*types.Struct)
		if i := structField(t, "Args"); i >= 0 {
			if v := x.fieldOf(args[0], i, s.Field(i).Type(), "Args"); v != nil {
				m.argBase = v
			}
		}
		if name != "Op" {
			return
		}
		var fs []*Term
		for i := 0; i < s.NumFields(); i++ {
			if f := s.Field(i); f.Name() == "Op" {
				fs = append(fs, num(m.opKind))
			} else {
				fs = append(fs, x.fieldOf(args[0], i, f.Type(), f.Name()))
			}
		}
		args[0] = mk(TStruct, t, "", 0, fs...)
		x.args[0] = args[0]
		for g, c := range m.P.tables("sbox") {
			gt := mk(TGlobal, g.Type(), g.RelString(nil), 0)
			for i, v := range c {
				a := indexAddr(gt, num(i), under(under(g.Type()).(*types.Pointer).Elem()).(*types.Array).Elem())
				st.mem[a] = num(v)
			}
		}
	})
}

func (q *sbReq) field(name string) *Term {
	s := under(q.t).(*types.Struct)
	i := structField(q.t, name)
	if i < 0 {
		q.bad("field "+name, sbItem{})
		return fresh(name, tyInt)
	}
	return q.x.fieldOf(q.x.args[0], i, s.Field(i).Type(), name)
}

func (q *sbReq) bad(what string, it sbItem) {
	if !q.fail {
		q.fail = true
		q.m.bad(q.pos, "layout", q.fn, q.st, "item %d of %s (%s) should be %s", q.n, q.t, it, what)
	}
}

func (q *sbReq) next(what string, kinds ...string) (sbItem, bool) {
	if q.fail {
		return sbItem{}, false
	}
	if q.n >= len(q.l) {
		q.bad(what, sbItem{})
		return sbItem{}, false
	}
	it := q.l[q.n]
	q.n++
	for _, k := range kinds {
		if k == it.kind {
			return it, true
		}
	}
	q.bad(what, it)
	return it, false
}

func (q *sbReq) word(name string) {
	if it, ok := q.next(name, "w4"); ok && q.st.eval(eqTerm(stripConv(it.v), q.field(name))) != 1 {
		q.bad(name, it)
	}
}

// flags: the return flag lowest, the mode above it.
func (q *sbReq) flags(ret, mode string) {
	it, ok := q.next("flags", "w4")
	if !ok {
		return
	}
	rt := q.field(ret)
	b := q.st.prov(it.v, 0)
	want := bConst(0)
	if mode != "" {
		mt := q.field(mode)
		want = bAtom(mt, mt.Typ).shl(1)
	}
	switch q.st.eval(rt) {
	case 1:
		want[0] = bsrc{k: '1'}
	case 0:
		want[0] = bsrc{k: '0'}
	default:
		want[0] = bsrc{k: 't', t: rt}
	}
	for i := 0; i < 32; i++ {
		if b[i] != want[i] {
			q.bad(fmt.Sprintf("flags: bit %d is wrong", i), it)
			return
		}
	}
}

func (q *sbReq) tuple(name string) {
	if q.fail {
		return
	}
	v := q.field(name)
	if q.st.isNilFact(v) == 1 && (q.n >= len(q.l) || q.l[q.n].kind != "tuple") {
		return
	}
	if it, ok := q.next(name, "tuple"); ok && it.v != v {
		q.bad(name, it)
	}
}

func (q *sbReq) value(name string) {
	if it, ok := q.next(name, "value"); ok && it.v != q.field(name) {
		q.bad(name, it)
	}
}

// str: a string with its length in front.
func (q *sbReq) str(name string) {
	v := q.field(name)
	it, ok := q.next("the length of "+name, "var")
	if ok && q.st.eval(eqTerm(stripConv(it.v), lenOf(v, v.Typ))) != 1 {
		q.bad("the length of "+name, it)
	}
	if it, ok = q.next(name, "bytes"); ok && stripConv(it.v) != v {
		q.bad(name, it)
	}
}

// sized: a value with its size in front, as its dynamic type has it.
func (q *sbReq) sized(name string) {
	if q.fail {
		return
	}
	v := q.field(name)
	l := q.l[q.n:]
	n, rest, ok := q.m.fieldsIn(q.st, l)
	if !ok || n != 1 {
		q.bad(fmt.Sprintf("one value with its size, not %v", rest), sbItem{})
		return
	}
	q.n = len(q.l)
	it := l[len(l)-1]
	if len(l) == 1 && it.kind != "sized" {
		if q.st.isNilFact(v) != 1 {
			q.bad("the value", it)
		}
		return
	}
	from := false
	if it.v != nil {
		it.v.walk(func(t *Term) bool {
			from = from || t == v
			return true
		})
	}
	if !from {
		q.bad("the value", it)
		return
	}
	u := it.v
	for u.Op == TConv {
		u = u.Args[0]
	}
	if b, ok := under(u.Typ).(*types.Basic); ok && u.Op == TUnbox && widthOf[b.Kind()] != "" && it.kind != "sized" && widthOf[b.Kind()] != it.kind {
		q.bad("the whole value", it)
	}
}

func (q *sbReq) end() {
	if !q.fail && q.n != len(q.l) {
		q.bad("the end", q.l[q.n])
	}
}

// tables: arrays of constants that are never changed after initialisation.
func (P *Program) tables(pkg string) map[*ssa.Global]map[int64]int64 {
	r := map[*ssa.Global]map[int64]int64{}
	sp := P.Pkgs[pkg]
	if sp == nil {
		return nil
	}
	elems := func(v ssa.Value, c map[int64]int64) bool {
		for _, u := range *v.Referrers() {
			ia, ok := u.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			k, ok := ia.Index.(*ssa.Const)
			if !ok || k.Value == nil {
				return false
			}
			for _, u := range *ia.Referrers() {
				if s, ok := u.(*ssa.Store); ok {
					e, ok := s.Val.(*ssa.Const)
					if !ok || e.Value == nil {
						return false
					}
					c[k.Int64()] = e.Int64()
				}
			}
		}
		return true
	}
	init := sp.Func("init")
	for _, mb := range sp.Members {
		g, ok := mb.(*ssa.Global)
		if !ok {
			continue
		}
		at, ok := under(under(g.Type()).(*types.Pointer).Elem()).(*types.Array)
		if !ok || !isIntType(at.Elem()) || at.Len() > 4096 || init == nil {
			continue
		}
		c := map[int64]int64{}
		for i := int64(0); i < at.Len(); i++ {
			c[i] = 0
		}
		good := true
		for _, fn := range P.Funcs {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					switch in := in.(type) {
					case *ssa.Store:
						if in.Addr == g {
							u, ok := in.Val.(*ssa.UnOp)
							a, ok2 := interface{}(nil), false
							if ok {
								a, ok2 = u.X.(*ssa.Alloc)
							}
							good = good && fn == init && ok2 && elems(a.(*ssa.Alloc), c)
						}
					case *ssa.IndexAddr:
						if in.X != g {
							continue
						}
						for _, u := range *in.Referrers() {
							if s, ok := u.(*ssa.Store); ok {
								k, ok := in.Index.(*ssa.Const)
								e, ok2 := s.Val.(*ssa.Const)
								if good = good && fn == init && ok && ok2 && s.Addr == in; good {
									c[k.Int64()] = e.Int64()
								}
							}
						}
					}
				}
			}
		}
		if good {
			r[g] = c
		}
	}
	return r
}

// fieldConsts: the values a field can have, if only constants are stored.
func (P *Program) fieldConsts(t types.Type, i int) []int64 {
	set := map[int64]bool{0: true}
	for _, fn := range P.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || fa.Field != i {
					continue
				}
				p, ok := under(fa.X.Type()).(*types.Pointer)
				if !ok || !types.Identical(p.Elem(), t) {
					continue
				}
				for _, u := range *fa.Referrers() {
					switch u := u.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
					case *ssa.Store:
						c, ok := u.Val.(*ssa.Const)
						if !ok || u.Addr != fa || c.Value == nil {
							return nil
						}
						set[c.Int64()] = true
					default:
						return nil
					}
				}
			}
		}
	}
	var l []int64
	for v := range set {
		l = append(l, v)
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return l
}
