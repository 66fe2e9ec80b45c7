package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// W03 and W04: the buffered writer and the buffered reader.

func init() {
	register(&checkDef{id: "W03", run: checkBufWriter,
		rule:  "contracts of the methods of the buffered writer, path by path with linear arithmetic over positions: given that the unsent bytes are buf[:wr] with 0 <= wr <= len(buf), every method that returns without an error has appended exactly its arguments, whole, in order and little-endian, behind the unsent bytes, all of which are still in buf[:wr] or were handed to the connection exactly once and in order; flushing leaves none; a direct write of an argument happens only with nothing unsent; every index and slice operation stays within the buffer; nothing but its methods changes the buffer of a writer",
		assum: []string{"a Write on the connection that returns no error has taken all bytes and does not keep or change them", "bytes given to a method are not changed before it returns"}})
	register(&checkDef{id: "W04", run: checkSliceReader,
		rule:  "contracts of the methods of the buffered reader, path by path with linear arithmetic over stream positions, loops summarised by invariants that are checked: given that buf holds the unread bytes, a method that returns without an error returns exactly the requested bytes at the read position, all of which arrived, and keeps exactly the bytes behind them; the connection reads only behind everything that arrived, and bytes are copied whole, only to new memory; returned bytes end where their capacity ends",
		assum: []string{"a Read on the connection reports how many bytes it put at the start of its argument"}})
}

func checkBufWriter(P *Program, r *Report) {
	t := P.Type("net", "BufWriter")
	if t == nil {
		r.Add(0, "undecided", "", nil, "the buffered writer was not found")
		return
	}
	s := under(t).(*types.Struct)
	iBuf, iWr, iConn := -1, -1, -1
	bt := types.NewSlice(types.Typ[types.Uint8])
	for i := 0; i < s.NumFields(); i++ {
		switch u := s.Field(i).Type().Underlying().(type) {
		case *types.Slice:
			iBuf = i
		case *types.Basic:
			if u.Kind() == types.Int && namedOf(s.Field(i).Type()) == nil {
				iWr = i
			}
		case *types.Interface:
			if n := namedOf(s.Field(i).Type()); n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "io" {
				iConn = i
			}
		}
	}
	if iBuf < 0 || iWr < 0 || iConn < 0 {
		r.Add(0, "undecided", "", nil, "the fields of the buffered writer were not recognised")
		return
	}
	key := types.TypeString(t, nil)
	isF := func(a *Term, i int) bool { return a != nil && a.Op == TField && a.N == i && fieldOwner[a] == key }
	sites := map[string]int{}
	bad := func(pos token.Pos, rule string, fr *Frame, st *State, f string, args ...interface{}) {
		fn := ""
		if fr != nil {
			fn = fnName(fr.fn)
		}
		r.Add(pos, rule, fn, st, f, args...)
	}
	mon := &Monitor{Name: "bufwriter", Unroll: -1, NoLockCk: true, JoinAt: 400, JoinBlk: 400}
	mon.Relevant = func(fn *ssa.Function) bool { return P.relPkg(fn) == "net" }
	inMethod := func(fr *Frame) bool {
		for ; fr != nil; fr = fr.parent {
			if isMethodOf(fr.fn, t) {
				return true
			}
		}
		return false
	}
	mon.Keep = func(x *Exec, st *State, addr *Term, ci *CallInfo) bool {
		return addr.Op == TField && fieldOwner[addr] == key
	}
	cur := func(x *Exec, st *State) (buf, wr *Term) {
		return x.loadLeaf(st, fieldAddr(x.self, t, iBuf), s.Field(iBuf).Type()), x.loadLeaf(st, fieldAddr(x.self, t, iWr), s.Field(iWr).Type())
	}
	mine := func(x *Exec) bool { return isMethodOf(x.root, t) && x.self != nil }
	// what was put into the buffer and not yet counted
	type put struct {
		off, n *Term
		item   string
		val    *Term
	}
	puts := func(st *State) (l []put) {
		for i := 0; ; i++ {
			v := st.vals[fmt.Sprint("put", i)]
			if v == nil {
				return
			}
			l = append(l, put{v.Args[0], v.Args[1], v.Aux, v.Args[2]})
		}
	}
	addPut := func(st *State, off, n *Term, item string, val *Term) {
		i := len(puts(st))
		st.vals[fmt.Sprint("put", i)] = mk(TTuple, nil, item, 0, off, n, val)
		st.setG("put", nil, fmt.Sprint(i+1))
	}
	clearPuts := func(st *State) {
		for i := range puts(st) {
			delete(st.vals, fmt.Sprint("put", i))
		}
		st.setG("put", nil, "")
	}
	emit := func(st *State, item string, val *Term) {
		n := 0
		fmt.Sscan(st.g("emitted", nil), &n)
		st.vals[fmt.Sprint("emit", n)] = mk(TTuple, nil, item, 0, val)
		st.setG("emitted", nil, fmt.Sprint(n+1))
	}
	mon.Bounds = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, what string, okc *Term) {
		if !mine(x) {
			return
		}
		sites["accesses"]++
		if st.eval(okc) != 1 {
			bad(in.Pos(), "outside the buffer", fr, st, "a %s operation may go outside its buffer: %s", what, okc)
		} else {
			r.OK(in.Pos(), "within the buffer")
		}
	}
	inBuf := func(x *Exec, st *State, base *Term) (off *Term, ok bool) {
		buf, _ := cur(x, st)
		b, o, _, _ := sliceParts(buf, bt)
		return o, b == base
	}
	write := func(x *Exec, st *State, fr *Frame, in ssa.Instruction, base, off, n *Term, item string, val *Term) {
		if o, ok := inBuf(x, st, base); ok {
			sites["bytes put into the buffer"]++
			_, wr := cur(x, st)
			rel := sub(off, o)
			if st.eval(ge0(sub(rel, wr))) != 1 {
				bad(in.Pos(), "overwrites", fr, st, "bytes are put where unsent bytes may be")
			}
			if st.g("handed", nil) != "" {
				bad(in.Pos(), "repeats", fr, st, "bytes are put behind bytes that were handed to the connection and not taken out of the buffer")
			}
			addPut(st, rel, n, item, val)
			return
		}
		if root := addrRoot(base); root.Op != TAlloc {
			bad(in.Pos(), "foreign memory", fr, st, "the writer changes memory that is not its own")
		}
	}
	mon.Store = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, addr, old, val *Term) {
		if in == nil {
			return
		}
		pos := in.Pos()
		if isF(addr, iBuf) || isF(addr, iWr) {
			if (!mine(x) || addr.Args[0] != x.self) && !inMethod(fr) {
				// only a fresh, empty writer
				if ss, ok := in.(*ssa.Store); !ok || namedOf(ss.Val.Type()) != namedOf(t) || !(val.isNil() || val == num(0)) {
					bad(pos, "foreign change", fr, st, "the buffer of a writer is changed by something else than its methods")
				}
				return
			}
		}
		if !mine(x) {
			return
		}
		switch {
		case isF(addr, iBuf):
			sites["buffer replaced"]++
			_, wr := cur(x, st)
			if st.eval(eqTerm(wr, num(0))) != 1 || st.g("put", nil) != "" {
				bad(pos, "buffer lost", fr, st, "the buffer is replaced although it may hold unsent bytes")
			}
		case isF(addr, iWr):
			_, wr := cur(x, st)
			ps := puts(st)
			if st.g("put", nil) != fmt.Sprint(len(ps)) && !(st.g("put", nil) == "" && len(ps) == 0) {
				bad(pos, "undecided", fr, st, "it cannot be followed what is in the buffer")
				return
			}
			if st.g("handed", nil) != "" {
				if st.eval(eqTerm(val, num(0))) != 1 || len(ps) > 0 {
					bad(pos, "repeats", fr, st, "bytes that were handed to the connection stay in the buffer")
				} else {
					r.OK(pos, "sent bytes taken out of the buffer")
				}
				st.setG("handed", nil, "")
				return
			}
			sort.SliceStable(ps, func(i, j int) bool {
				d, ok := sub(ps[j].off, ps[i].off).isInt()
				if ok {
					return d > 0
				}
				return st.eval(ge0(sub(sub(ps[j].off, ps[i].off), num(1)))) == 1
			})
			at := wr
			for _, p := range ps {
				if st.eval(eqTerm(p.off, at)) != 1 {
					bad(pos, "gap", fr, st, "bytes are put at %s, although %s is the next free position", p.off, at)
					clearPuts(st)
					return
				}
				at = add(p.off, p.n)
				emit(st, p.item, p.val)
			}
			if st.eval(eqTerm(val, at)) != 1 {
				bad(pos, "count", fr, st, "the number of unsent bytes becomes %s instead of %s", val, at)
			} else {
				r.OK(pos, "all bytes counted")
			}
			clearPuts(st)
		case addr.Op == TIndex:
			w := int64(1)
			item := "byte"
			if addr.Aux != "" {
				item = addr.Aux
				fmt.Sscanf(strings.TrimLeft(addr.Aux, "litebgEndian"), "%d", &w)
				if w > 1 && !strings.HasPrefix(addr.Aux, "little") {
					bad(pos, "byte order", fr, st, "a number is written in another byte order than little-endian")
				}
			}
			write(x, st, fr, in, addr.Args[0], addr.Args[1], num(w), item, val)
		}
	}
	mon.Copy = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, dst, src, n *Term) {
		if !mine(x) {
			return
		}
		b, off, _, _ := sliceParts(dst, bt)
		if b.Op == TConst {
			return
		}
		_, _, ls, _ := sliceParts(src, bt)
		if st.eval(eqTerm(ls, n)) != 1 {
			bad(in.Pos(), "cut off", fr, st, "not all bytes may be copied to the buffer")
		}
		write(x, st, fr, in, b, off, n, "bytes", src)
	}
	mon.Call = func(x *Exec, st *State, fr *Frame, ci *CallInfo) ([]Outcome, bool) {
		if !mine(x) || ci.Method == nil || ci.Recv == nil {
			return nil, false
		}
		if ci.Method.Name() != "Write" || ci.Recv.Org == nil || !isF(ci.Recv.Org, iConn) {
			return nil, false
		}
		pos := ci.Instr.Pos()
		sites["writes to the connection"]++
		buf, wr := cur(x, st)
		b, off, ln, _ := sliceParts(buf, bt)
		wb, wo, wl, _ := sliceParts(ci.Args[0], bt)
		s2 := st.clone()
		if st.g("put", nil) != "" {
			bad(pos, "reordered", fr, st, "the connection is written to while bytes in the buffer are not counted yet")
		}
		if st.g("handed", nil) != "" {
			bad(pos, "repeats", fr, st, "the connection is written to again before the bytes it was handed are taken out of the buffer")
		}
		switch {
		case wb == b && b.Op != TConst:
			if st.eval(eqTerm(wo, off)) != 1 || st.eval(eqTerm(wl, wr)) != 1 {
				bad(pos, "wrong bytes", fr, st, "the connection is handed other bytes than the unsent ones")
			} else {
				r.OK(pos, "exactly the unsent bytes")
			}
			st.setG("handed", nil, "1")
			_ = ln
		default:
			if st.eval(eqTerm(wr, num(0))) != 1 {
				bad(pos, "reordered", fr, st, "bytes are written to the connection before earlier, unsent ones")
			} else {
				r.OK(pos, "direct write with nothing unsent")
			}
			emit(st, "bytes", ci.Args[0])
		}
		e := freshErr("write")
		s2.note(pos, "the connection fails")
		n1, n2 := fresh("n", tyInt), fresh("n", tyInt)
		return []Outcome{{st: st, vals: []*Term{n1, nilTerm}}, {st: s2, vals: []*Term{n2, e}}}, true
	}
	mon.End = func(x *Exec, o *Outcome) {
		if o.kind != OutReturn || !mine(x) {
			return
		}
		st, fr := o.st, &Frame{fn: x.root}
		res := x.root.Signature.Results()
		buf, wr := cur(x, st)
		sites["ways out"]++
		ok := -1
		if res.Len() > 0 && types.Identical(res.At(res.Len()-1).Type(), types.Universe.Lookup("error").Type()) {
			ok = st.eval(mkEq(o.vals[len(o.vals)-1], nilTerm))
		} else {
			ok = 1
		}
		if ok == 0 {
			return
		}
		if st.eval(ge0(wr)) != 1 || st.eval(ge0(sub(lenOf(buf, bt), wr))) != 1 {
			bad(o.pos, "count", fr, st, "the number of unsent bytes may not fit the buffer: %s", wr)
		}
		if st.g("handed", nil) != "" {
			bad(o.pos, "repeats", fr, st, "bytes that were handed to the connection stay in the buffer")
		}
		if st.g("put", nil) != "" {
			bad(o.pos, "lost", fr, st, "bytes that were put into the buffer are not counted: they are overwritten")
		}
		n := 0
		fmt.Sscan(st.g("emitted", nil), &n)
		want := x.args[1:]
		if len(want) == 0 && x.root.Signature.Params().Len() == 0 {
			// flushing
			if st.eval(eqTerm(wr, num(0))) != 1 {
				bad(o.pos, "left behind", fr, st, "flushing may leave unsent bytes behind")
			} else {
				r.OK(o.pos, "nothing left behind")
			}
		}
		i := 0
		for _, w := range want {
			isBytes := false
			if sl, ok := under(w.Typ).(*types.Slice); ok {
				isBytes = types.Identical(sl.Elem(), types.Typ[types.Uint8])
			}
			if isBytes && st.eval(eqTerm(lenOf(w, bt), num(0))) == 1 && (i >= n || st.vals[fmt.Sprint("emit", i)] == nil || !sameBytes(st, st.vals[fmt.Sprint("emit", i)].Args[0], w) && st.vals[fmt.Sprint("emit", i)].Args[0] != w) {
				continue
			}
			e := st.vals[fmt.Sprint("emit", i)]
			i++
			if i > n || e == nil {
				bad(o.pos, "lost", fr, st, "%s is not written", w)
				return
			}
			v := stripConv(e.Args[0])
			switch {
			case isBytes:
				if !(v == w || sameBytes(st, v, w)) {
					bad(o.pos, "lost", fr, st, "%s is written instead of %s", v, w)
				}
			default:
				if bits := intBits(w.Typ); bits > 8 && e.Aux == "byte" {
					// byte by byte, the lowest first
					for k := 0; k < bits/8; k++ {
						if k > 0 {
							e = st.vals[fmt.Sprint("emit", i)]
							i++
						}
						if i > n || e == nil || e.Aux != "byte" || !byteOf(e.Args[0], stripConv(w), k) {
							bad(o.pos, "width", fr, st, "%s is not written whole", w)
							return
						}
					}
				} else if v != stripConv(w) {
					bad(o.pos, "lost", fr, st, "%s is written instead of %s", v, w)
				} else if bits := intBits(w.Typ); bits > 8 && e.Aux != fmt.Sprint("littleEndian", bits/8) || bits == 8 && e.Aux != "byte" {
					bad(o.pos, "width", fr, st, "%s is written as %s", w, e.Aux)
				}
			}
		}
		if i < n {
			bad(o.pos, "repeats", fr, st, "more is written than was given")
		} else {
			r.OK(o.pos, "exactly the arguments were written")
		}
	}
	var roots []*ssa.Function
	for _, f := range P.Roots("net") {
		if !setsWhole(f, t) {
			roots = append(roots, f)
		}
	}
	// two states of the buffer: not made yet, and made
	for k := 0; k < 2; k++ {
		for _, fn := range roots {
			if !isMethodOf(fn, t) && k == 1 {
				continue
			}
			m := *mon
			if !isMethodOf(fn, t) {
				m.JoinAt, m.JoinBlk = 0, 0
			}
			x := newExec(P, r, &m)
			x.RunRoot(fn, func(st *State, args []*Term) {
				if !isMethodOf(fn, t) {
					return
				}
				buf, wr := cur(x, st)
				st.assume(ge0(wr))
				st.assume(ge0(sub(lenOf(buf, bt), wr)))
				if k == 0 {
					st.mem[fieldAddr(args[0], t, iBuf)] = nilTerm
					st.mem[fieldAddr(args[0], t, iWr)] = num(0)
				} else {
					st.assume(ge0(sub(lenOf(buf, bt), num(16))))
					st.assume(ge0(sub(capOf(buf, bt), lenOf(buf, bt))))
					st.assume(ge0(sub(capOf(buf, bt), num(16))))
					st.assume(not(mkEq(buf, nilTerm)))
				}
			})
		}
	}
	for k, v := range sites {
		r.Counts["events: "+k] = v
	}
	for _, k := range []string{"bytes put into the buffer", "writes to the connection", "buffer replaced"} {
		r.Floor(k, sites[k], 1)
	}
	r.Floor("ways out", sites["ways out"], 10)
}

// knownError: the value of a variable of another package that is an error,
// such as io.EOF.
func knownError(v *Term) bool {
	return v.Org != nil && v.Org.Op == TGlobal && !strings.Contains(v.Org.String(), "go-iproto")
}

// byteOf: v is byte k of w.
func byteOf(v, w *Term, k int) bool {
	v = stripConv(v)
	if k == 0 {
		return v == w
	}
	if v.Op != TBin || v.Aux != ">>" || stripConv(v.Args[0]) != w {
		return false
	}
	n, ok := v.Args[1].isInt()
	return ok && n == int64(8*k)
}

// setsWhole: the function sets a whole value of the type through its receiver,
// as initialisers do.
func setsWhole(fn *ssa.Function, t types.Type) bool {
	if !isMethodOf(fn, t) {
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && s.Addr == ssa.Value(fn.Params[0]) && types.Identical(s.Val.Type(), t) {
				return true
			}
		}
	}
	return false
}

func checkSliceReader(P *Program, r *Report) {
	t := P.Type("net", "SliceReader")
	if t == nil {
		r.Add(0, "undecided", "", nil, "the buffered reader was not found")
		return
	}
	s := under(t).(*types.Struct)
	iBuf, iConn := -1, -1
	bt := types.NewSlice(types.Typ[types.Uint8])
	for i := 0; i < s.NumFields(); i++ {
		switch s.Field(i).Type().Underlying().(type) {
		case *types.Slice:
			iBuf = i
		case *types.Interface:
			if n := namedOf(s.Field(i).Type()); n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "io" {
				iConn = i
			}
		}
	}
	if iBuf < 0 || iConn < 0 {
		r.Add(0, "undecided", "", nil, "the fields of the buffered reader were not recognised")
		return
	}
	key := types.TypeString(t, nil)
	isF := func(a *Term, i int) bool { return a != nil && a.Op == TField && a.N == i && fieldOwner[a] == key }
	sites := map[string]int{}
	bad := func(pos token.Pos, rule string, fr *Frame, st *State, f string, args ...interface{}) {
		fn := ""
		if fr != nil {
			fn = fnName(fr.fn)
		}
		r.Add(pos, rule, fn, st, f, args...)
	}
	// Position 0 is the first byte that was unread at the start of the method;
	// "q" bytes have arrived since. "top" is the memory that holds all of them,
	// "shift" the position of its first byte.
	mon := &Monitor{Name: "slicereader", Unroll: -1, NoLockCk: true, JoinAt: 400, JoinBlk: 400, Facts: true, Shadow: []string{"q"}}
	mon.Relevant = func(fn *ssa.Function) bool { return P.relPkg(fn) == "net" }
	mon.Keep = func(x *Exec, st *State, addr *Term, ci *CallInfo) bool {
		return addr.Op == TField && fieldOwner[addr] == key
	}
	inMethod := func(fr *Frame) bool {
		for ; fr != nil; fr = fr.parent {
			if isMethodOf(fr.fn, t) {
				return true
			}
		}
		return false
	}
	mine := func(x *Exec) bool { return isMethodOf(x.root, t) && x.self != nil }
	at := func(st *State, base, off *Term) *Term {
		if st.vals["top"] == nil || st.vals["top"] != base {
			return nil
		}
		return add(off, st.vals["shift"])
	}
	setTop := func(st *State, base, shift *Term) {
		if o := st.vals["top"]; o != nil {
			st.vals["old"] = o
			st.setG("top", o, "")
		}
		st.vals["top"], st.vals["shift"] = base, shift
		st.setG("top", base, fmt.Sprint(shift.ID))
	}
	mon.Bounds = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, what string, okc *Term) {
		if !mine(x) {
			return
		}
		sites["accesses"]++
		if st.eval(okc) != 1 {
			bad(in.Pos(), "outside the buffer", fr, st, "a %s operation may go outside its buffer: %s", what, okc)
		} else {
			r.OK(in.Pos(), "within the buffer")
		}
	}
	mon.Store = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, addr, old, val *Term) {
		if in == nil {
			return
		}
		if isF(addr, iBuf) && (!mine(x) || addr.Args[0] != x.self) && !inMethod(fr) {
			if ss, ok := in.(*ssa.Store); !ok || namedOf(ss.Val.Type()) != namedOf(t) || !val.isNil() {
				bad(in.Pos(), "foreign change", fr, st, "the buffer of a reader is changed by something else than its methods")
			}
			return
		}
		if mine(x) && addr.Op == TIndex && (addr.Args[0] == st.vals["top"] || addr.Args[0] == st.vals["old"]) {
			bad(in.Pos(), "overwrites", fr, st, "bytes that arrived may be overwritten")
		}
	}
	mon.Copy = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, dst, src, n *Term) {
		if !mine(x) {
			return
		}
		sites["copies"]++
		db, do, _, _ := sliceParts(dst, bt)
		sb, so, _, _ := sliceParts(src, bt)
		if st.eval(eqTerm(n, num(0))) == 1 && (db == st.vals["top"] || db == st.vals["old"]) {
			return
		}
		if db == st.vals["top"] || db == st.vals["old"] || addrRoot(db).Op != TAlloc {
			bad(in.Pos(), "overwrites", fr, st, "bytes are moved within memory that was or may be handed out")
			return
		}
		p := at(st, sb, so)
		q := st.vals["q"]
		if p == nil || q == nil {
			bad(in.Pos(), "undecided", fr, st, "it cannot be followed which bytes are copied")
			return
		}
		if st.eval(eqTerm(p, num(0))) != 1 || st.eval(eqTerm(n, q)) != 1 {
			bad(in.Pos(), "lost", fr, st, "only the bytes %s to %s of the %s unread ones are moved to the new memory", p, add(p, n), q)
			return
		}
		r.OK(in.Pos(), "all unread bytes moved to new memory")
		setTop(st, db, sub(num(0), do))
	}
	mon.Append = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, res, dst, src *Term) {
		if !mine(x) || src == nil {
			return
		}
		if el, ok := under(dst.Typ).(*types.Slice); !ok && !dst.isNil() || ok && !types.Identical(el.Elem(), types.Typ[types.Uint8]) {
			return
		}
		sb, so, sn, _ := sliceParts(src, bt)
		rb, _, _, _ := sliceParts(res, bt)
		p := at(st, sb, so)
		q := st.vals["q"]
		fits := dst.isNil()
		if !fits {
			db, _, dl, _ := sliceParts(dst, bt)
			fits = st.eval(eqTerm(dl, num(0))) == 1 && addrRoot(db).Op == TAlloc && db != st.vals["top"] && db != st.vals["old"]
		}
		if p == nil || q == nil || !fits {
			bad(in.Pos(), "undecided", fr, st, "it cannot be followed which bytes are appended to which")
			return
		}
		sites["copies"]++
		if st.eval(eqTerm(p, num(0))) != 1 || st.eval(eqTerm(sn, q)) != 1 {
			bad(in.Pos(), "lost", fr, st, "only the bytes %s to %s of the %s unread ones are moved to the new memory", p, add(p, sn), q)
			return
		}
		r.OK(in.Pos(), "all unread bytes moved to new memory")
		setTop(st, rb, num(0))
	}
	mon.Call = func(x *Exec, st *State, fr *Frame, ci *CallInfo) ([]Outcome, bool) {
		if !mine(x) || ci.Method == nil || ci.Recv == nil || ci.Method.Name() != "Read" || ci.Recv.Org == nil || !isF(ci.Recv.Org, iConn) {
			return nil, false
		}
		pos := ci.Instr.Pos()
		sites["reads from the connection"]++
		wb, wo, wl, _ := sliceParts(ci.Args[0], bt)
		q := st.vals["q"]
		p := at(st, wb, wo)
		switch {
		case q == nil:
			bad(pos, "undecided", fr, st, "it cannot be followed how many bytes have arrived")
			st.vals["q"] = fresh("q", tyInt)
			q = st.vals["q"]
		case p == nil && st.eval(eqTerm(q, num(0))) == 1 && addrRoot(wb).Op == TAlloc:
			// nothing to keep: any new memory will do
			setTop(st, wb, sub(num(0), wo))
		case p == nil:
			bad(pos, "lost", fr, st, "the connection is read into memory that does not hold the bytes before")
		case st.eval(eqTerm(p, q)) != 1:
			bad(pos, "gap", fr, st, "the connection is read to position %s although %s bytes have arrived", p, q)
		default:
			r.OK(pos, "read behind all that arrived")
		}
		if st.eval(ge0(sub(wl, num(1)))) != 1 {
			bad(pos, "no progress", fr, st, "the connection may be asked for no bytes, which never ends")
		}
		n := fresh("n", tyInt)
		st.assume(ge0(n))
		st.assume(ge0(sub(wl, n)))
		st.vals["q"] = add(q, n)
		s2 := st.clone()
		e := freshErr("read")
		s2.note(pos, "the connection fails or ends")
		return []Outcome{{st: st, vals: []*Term{n, nilTerm}}, {st: s2, vals: []*Term{n, e}}}, true
	}
	mon.End = func(x *Exec, o *Outcome) {
		if o.kind != OutReturn || !mine(x) {
			return
		}
		st, fr := o.st, &Frame{fn: x.root}
		res := x.root.Signature.Results()
		if res.Len() != 2 || !types.Identical(res.At(1).Type(), types.Universe.Lookup("error").Type()) {
			return
		}
		sites["ways out"]++
		q := st.vals["q"]
		if st.eval(mkEq(o.vals[1], nilTerm)) == 0 || knownError(o.vals[1]) {
			return
		}
		sites["successes"]++
		if q == nil {
			bad(o.pos, "undecided", fr, st, "it cannot be followed how many bytes have arrived")
			return
		}
		want := num(1)
		if len(x.args) > 1 {
			want = x.args[1]
		}
		v := o.vals[0]
		if _, ok := under(res.At(0).Type()).(*types.Slice); ok {
			b, off, ln, cp := sliceParts(v, bt)
			if st.eval(eqTerm(ln, want)) != 1 {
				bad(o.pos, "length", fr, st, "%s bytes are returned instead of %s", ln, want)
				return
			}
			if st.eval(eqTerm(want, num(0))) != 1 {
				p := at(st, b, off)
				if p == nil || st.eval(eqTerm(p, num(0))) != 1 {
					bad(o.pos, "wrong bytes", fr, st, "the returned bytes do not start at the first unread one")
					return
				}
			}
			if st.eval(eqTerm(cp, ln)) != 1 {
				bad(o.pos, "capacity", fr, st, "appending to the returned bytes can change unread ones")
			}
		} else {
			c := stripConv(v).Org
			if c == nil || c.Op != TIndex {
				bad(o.pos, "wrong bytes", fr, st, "the returned byte is not taken from the stream: %s", v)
				return
			}
			p := at(st, c.Args[0], c.Args[1])
			if p == nil || st.eval(eqTerm(p, num(0))) != 1 {
				bad(o.pos, "wrong bytes", fr, st, "the returned byte is not the first unread one")
				return
			}
		}
		if st.eval(ge0(sub(q, want))) != 1 {
			bad(o.pos, "short", fr, st, "success although only %s bytes have arrived, not %s", q, want)
			return
		}
		buf := x.loadLeaf(st, fieldAddr(x.self, t, iBuf), s.Field(iBuf).Type())
		b, off, ln, _ := sliceParts(buf, bt)
		if st.eval(eqTerm(ln, sub(q, want))) != 1 {
			bad(o.pos, "lost", fr, st, "%s bytes are kept unread instead of %s", ln, sub(q, want))
			return
		}
		if st.eval(eqTerm(ln, num(0))) != 1 || (b.Op != TConst && addrRoot(b).Op != TAlloc) {
			p := at(st, b, off)
			if b == st.vals["old"] && b != st.vals["top"] || p == nil && st.eval(eqTerm(ln, num(0))) != 1 {
				bad(o.pos, "lost", fr, st, "the memory kept does not hold the unread bytes")
				return
			}
			if p != nil && st.eval(eqTerm(p, want)) != 1 {
				bad(o.pos, "overlap", fr, st, "the unread bytes are kept from position %s on instead of %s", p, want)
				return
			}
		}
		r.OK(o.pos, "exactly the next bytes, the rest kept")
	}
	for _, fn := range P.Roots("net") {
		if setsWhole(fn, t) {
			continue
		}
		contract := isMethodOf(fn, t)
		if contract && !fn.Object().Exported() {
			continue
		}
		m := *mon
		if !contract {
			m.Facts, m.JoinAt, m.JoinBlk = false, 0, 0
		}
		x := newExec(P, r, &m)
		x.RunRoot(fn, func(st *State, args []*Term) {
			if !contract {
				return
			}
			buf := x.loadLeaf(st, fieldAddr(x.self, t, iBuf), s.Field(iBuf).Type())
			b, off, ln, cp := sliceParts(buf, bt)
			st.assume(ge0(ln))
			st.assume(ge0(sub(cp, ln)))
			setTop(st, b, sub(num(0), off))
			st.vals["q"] = ln
			for _, a := range args[1:] {
				if isIntTerm(a) {
					st.assume(ge0(a))
				}
			}
		})
	}
	for k, v := range sites {
		r.Counts["events: "+k] = v
	}
	r.Floor("successes", sites["successes"], 3)
	r.Floor("reads from the connection", sites["reads from the connection"], 1)
}
