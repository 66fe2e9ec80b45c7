package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- locks

func (x *Exec) heldIndex(st *State, a *Term) int {
	for i, l := range st.held {
		if l.Addr == a {
			return i
		}
	}
	return -1
}

func (x *Exec) lockOp(st *State, fr *Frame, in ssa.Instruction, op string, a *Term) []Outcome {
	read := op == "RLock" || op == "RUnlock"
	switch op {
	case "Lock", "RLock":
		if x.mon.Lock != nil {
			x.mon.Lock(x, st, fr, in, "lock", a)
		}
		if st.holds(a) && !x.mon.NoLockCk {
			x.rep.Add(in.Pos(), "double lock", fnName(fr.fn), st, "%s is locked again while already held (locked at %s)", a, x.P.pos(st.held[x.heldIndex(st, a)].Pos))
		}
		x.havocForSync(st, fr)
		st.held = append(st.held, Lock{a, read, in.Pos()})
		st.note(in.Pos(), "lock %s", a)
		x.Stats["locks"]++
		if x.mon.Lock != nil {
			x.mon.Lock(x, st, fr, in, "locked", a)
		}
	case "Unlock", "RUnlock":
		if x.mon.Lock != nil {
			x.mon.Lock(x, st, fr, in, "unlock", a)
		}
		i := x.heldIndex(st, a)
		if i < 0 {
			if !x.mon.NoLockCk {
				x.rep.Add(in.Pos(), "unlock of unheld lock", fnName(fr.fn), st, "%s is unlocked but not held on this path", a)
			}
		} else {
			if st.held[i].Read != read && !x.mon.NoLockCk {
				x.rep.Add(in.Pos(), "lock mode", fnName(fr.fn), st, "%s is released in another mode than it was taken", a)
			}
			st.held = append(append([]Lock(nil), st.held[:i]...), st.held[i+1:]...)
		}
		st.note(in.Pos(), "unlock %s", a)
		x.recordShared(fr, nil, lockClass(a))
		x.havocForSync(st, fr)
		if x.mon.Lock != nil {
			x.mon.Lock(x, st, fr, in, "unlocked", a)
		}
	}
	return one(st)
}

// condLock finds the lock of a condition variable: the value stored in its
// field L, or (when L is unknown here) the lock that the program assigns to it.
func (x *Exec) condLock(st *State, c *Term) *Term {
	la := x.P.condL(c)
	if la != nil {
		if v, ok := st.mem[la]; ok && v.Op == TIface {
			return v.Args[0]
		}
	}
	if c.Op == TField {
		if f := x.P.condLockField(fieldOwner[c], c.Aux); f != nil {
			return fieldAddr(c.Args[0], f.owner, f.idx)
		}
	}
	return nil
}

func (x *Exec) condOp(st *State, fr *Frame, ci *CallInfo, op string) []Outcome {
	c := ci.Args[0]
	l := x.condLock(st, c)
	if x.mon.Lock != nil {
		x.mon.Lock(x, st, fr, ci.Instr, "cond"+op, c)
	}
	if op != "Wait" {
		st.note(ci.Instr.Pos(), "%s %s", strings.ToLower(op), c)
		return one(st)
	}
	if l == nil || !st.holds(l) {
		if !x.mon.NoLockCk {
			x.rep.Add(ci.Instr.Pos(), "wait without lock", fnName(fr.fn), st, "waits on %s without holding its lock", c)
		}
	}
	st.note(ci.Instr.Pos(), "wait %s", c)
	// the lock is released and taken again: nothing shared survives
	save := st.held
	if l != nil {
		if i := x.heldIndex(st, l); i >= 0 {
			st.held = append(append([]Lock(nil), save[:i]...), save[i+1:]...)
		}
		x.recordShared(fr, nil, lockClass(l))
	}
	x.havocForSync(st, fr)
	st.held = save
	if x.mon.Lock != nil {
		x.mon.Lock(x, st, fr, ci.Instr, "condWaited", c)
	}
	return one(st)
}

func freshErr(name string) *Term {
	TT.seq++
	return mk(TApp, types.Universe.Lookup("error").Type(), fmt.Sprint("nn:", name, "#", TT.seq), 0)
}

// model interprets standard library functions with known effects.
func (x *Exec) model(st *State, fr *Frame, ci *CallInfo) ([]Outcome, bool) {
	fn := ci.Fn
	pkg := fnPkgPath(fn)
	if pkg == "" || x.P.inModule(fn) {
		return nil, false
	}
	name := fn.Name()
	recv := recvName(fn)
	switch pkg {
	case "sync":
		switch recv {
		case "Mutex", "RWMutex":
			switch name {
			case "Lock", "Unlock", "RLock", "RUnlock":
				return x.lockOp(st, fr, ci.Instr, name, ci.Args[0]), true
			}
		case "Cond":
			switch name {
			case "Wait", "Signal", "Broadcast":
				return x.condOp(st, fr, ci, name), true
			}
		case "Once":
			// runs f at most once: both cases
			s2 := st.clone()
			c2 := &CallInfo{Instr: ci.Instr, Common: ci.Common, Res: types.NewTuple()}
			x.resolveDynamic(c2, ci.Args[1])
			outs := x.doCall(s2, fr, c2, false)
			for i := range outs {
				outs[i].vals = nil
			}
			return append(outs, Outcome{st: st}), true
		case "Pool":
			if name == "Get" {
				return one(st, x.freshVal(st, "pooled", fn.Signature.Results().At(0).Type())), true
			}
			if name == "Put" {
				st.escape(ci.Args[1])
				return one(st), true
			}
		}
	case "sync/atomic":
		return x.atomicOp(st, fr, ci, name)
	case "errors":
		if name == "New" {
			return one(st, freshErr("errors.New")), true
		}
	case "fmt":
		if name == "Errorf" {
			return one(st, freshErr("fmt.Errorf")), true
		}
		if strings.HasPrefix(name, "Sprint") {
			return one(st, fresh("sprint", types.Typ[types.String])), true
		}
		return one(st, x.freshVal(st, name, ci.Res)), true
	case "log":
		if strings.HasPrefix(name, "Panic") {
			st.note(ci.Instr.Pos(), "log.%s", name)
			return []Outcome{{st: st, kind: OutPanic, pos: ci.Instr.Pos()}}, true
		}
		if strings.HasPrefix(name, "Fatal") {
			return nil, true
		}
		return one(st, x.freshVal(st, name, ci.Res)), true
	case "time":
		switch {
		case recv == "Time" && name == "Add":
			return one(st, mk(TApp, ci.Res.(*types.Tuple).At(0).Type(), "time.Add", 0, ci.Args[0], ci.Args[1])), true
		case recv == "" && name == "Now":
			t := fresh("now", fn.Signature.Results().At(0).Type())
			return one(st, t), true
		case recv == "Time" && name == "Sub":
			return one(st, mk(TApp, fn.Signature.Results().At(0).Type(), "time.Sub", 0, ci.Args[0], ci.Args[1])), true
		}
		for _, a := range ci.Args {
			st.escape(a)
		}
		return one(st, x.freshVal(st, name, ci.Res)), true
	case "encoding/binary":
		if recv == "littleEndian" || recv == "bigEndian" {
			return x.binaryOp(st, fr, ci, recv, name)
		}
	case "math":
		if len(ci.Args) == 1 {
			return one(st, mk(TApp, fn.Signature.Results().At(0).Type(), "math."+name, 0, ci.Args[0])), true
		}
	case "runtime":
		if name == "Gosched" {
			x.havocForSync(st, fr)
		}
		return one(st, x.freshVal(st, name, ci.Res)), true
	case "strings":
		var as []*Term
		as = append(as, ci.Args...)
		if fn.Signature.Results().Len() == 1 {
			if _, isSl := under(fn.Signature.Results().At(0).Type()).(*types.Slice); !isSl {
				allc := true
				var ss []string
				for _, a := range as {
					s, ok := a.isStr()
					if !ok {
						allc = false
					}
					ss = append(ss, s)
				}
				if allc && len(ss) == 2 {
					switch name {
					case "HasPrefix":
						return one(st, boolTerm(strings.HasPrefix(ss[0], ss[1]))), true
					case "HasSuffix":
						return one(st, boolTerm(strings.HasSuffix(ss[0], ss[1]))), true
					case "Contains":
						return one(st, boolTerm(strings.Contains(ss[0], ss[1]))), true
					}
				}
				if len(as) == 2 && name == "ContainsRune" {
					if s, ok := as[0].isStr(); ok {
						if r, ok := as[1].isInt(); ok {
							return one(st, boolTerm(strings.ContainsRune(s, rune(r)))), true
						}
					}
				}
				return one(st, mk(TApp, fn.Signature.Results().At(0).Type(), "strings."+name, 0, as...)), true
			}
			if name == "Split" {
				if s, ok := as[0].isStr(); ok {
					if sep, ok := as[1].isStr(); ok {
						parts := strings.Split(s, sep)
						return one(st, x.stringSlice(st, ci.Instr, parts)), true
					}
				}
			}
		}
	}
	return nil, false
}

func (x *Exec) stringSlice(st *State, in ssa.Instruction, parts []string) *Term {
	elem := types.Typ[types.String]
	a := freshAlloc(in, "strings", types.NewArray(elem, int64(len(parts))))
	for i, p := range parts {
		st.mem[indexAddr(a, num(int64(i)), elem)] = strTerm(p)
	}
	n := num(int64(len(parts)))
	return mkSlice(types.NewSlice(elem), a, num(0), n, n)
}

func (x *Exec) atomicOp(st *State, fr *Frame, ci *CallInfo, name string) ([]Outcome, bool) {
	if recvName(ci.Fn) != "" {
		return nil, false
	}
	addr := ci.Args[0]
	elem := under(ci.Fn.Signature.Params().At(0).Type()).(*types.Pointer).Elem()
	priv := st.private(addr)
	cur := func(s *State) *Term {
		if !priv && !s.protected(addr) {
			// another goroutine may have changed it since the last access
			if !x.P.immutable(addr) && !(x.mon.Keep != nil && x.mon.Keep(x, s, addr, nil)) {
				delete(s.mem, addr)
				if r := addrRoot(addr); r.Op == TAlloc {
					s.mem[addr] = freshTyped("a:"+lastName(addr), elem, addr)
					if x.mon.NewCell != nil {
						x.mon.NewCell(x, s, addr, s.mem[addr])
					}
				}
			}
		}
		return x.load(s, fr, ci.Instr, addr, elem)
	}
	switch {
	case strings.HasPrefix(name, "Load"):
		return one(st, cur(st)), true
	case strings.HasPrefix(name, "Store"):
		x.store(st, fr, ci.Instr, addr, ci.Args[1], elem)
		return one(st), true
	case strings.HasPrefix(name, "Add"):
		v := cur(st)
		n := x.arith(st, token.ADD, v, ci.Args[1], elem)
		x.store(st, fr, ci.Instr, addr, n, elem)
		return one(st, n), true
	case strings.HasPrefix(name, "CompareAndSwap"):
		v := cur(st)
		eq := eqTerm(v, ci.Args[1])
		var outs []Outcome
		if st.eval(eq) != 0 {
			s2 := st.clone()
			if s2.assume(eq) {
				s2.note(ci.Instr.Pos(), "compare-and-swap %s from %s to %s succeeds", addr, ci.Args[1], ci.Args[2])
				if s2.mem[addr] == nil {
					s2.mem[addr] = v
				}
				x.store(s2, fr, ci.Instr, addr, ci.Args[2], elem)
				outs = append(outs, Outcome{st: s2, vals: []*Term{tTrue}})
			}
		}
		if st.eval(eq) != 1 {
			if st.assume(not(eq)) {
				st.note(ci.Instr.Pos(), "compare-and-swap %s fails", addr)
				outs = append(outs, Outcome{st: st, vals: []*Term{tFalse}})
			}
		}
		return outs, true
	}
	return nil, false
}

// binaryOp: binary.LittleEndian.PutUintNN / UintNN
func (x *Exec) binaryOp(st *State, fr *Frame, ci *CallInfo, order, name string) ([]Outcome, bool) {
	w := int64(0)
	switch strings.TrimPrefix(name, "Put") {
	case "Uint16":
		w = 2
	case "Uint32":
		w = 4
	case "Uint64":
		w = 8
	default:
		return nil, false
	}
	bt := types.NewSlice(types.Typ[types.Uint8])
	args := ci.Args[len(ci.Args)-1:]
	if strings.HasPrefix(name, "Put") {
		args = ci.Args[len(ci.Args)-2:]
	}
	if !x.bounds(st, fr, ci.Instr, "slice", ge0(sub(lenOf(args[0], bt), num(w)))) {
		return nil, true
	}
	b, off, _, _ := sliceParts(args[0], bt)
	cell := mk(TIndex, types.Typ[types.Uint8], fmt.Sprint(order, w), 0, b, off)
	if strings.HasPrefix(name, "Put") {
		if x.mon.Store != nil {
			x.mon.Store(x, st, fr, ci.Instr, cell, nil, args[1])
		}
		x.recordWrite(fr, indexAddr(b, off, types.Typ[types.Uint8]))
		// overwrite [off, off+w)
		for e := range st.mem {
			if e.Op == TIndex && st.mayAliasObj(e.Args[0], b) {
				d := sub(e.Args[1], off)
				ew := int64(1)
				fmt.Sscanf(strings.TrimLeft(e.Aux, "litebgEndian"), "%d", &ew)
				if e.Args[0] == b && (st.prove(sub(d, num(w))) || st.prove(sub(scale(d, -1), num(ew)))) {
					continue
				}
				st.forget(e)
			}
		}
		st.mem[cell] = args[1]
		return one(st), true
	}
	if v, ok := st.mem[cell]; ok {
		return one(st, v), true
	}
	v := freshTyped("word", ci.Fn.Signature.Results().At(0).Type(), cell)
	if r := addrRoot(b); r.Op != TAlloc || st.dirty[r] {
		st.mem[cell] = v
	}
	return one(st, v), true
}

func fnPkgPath(fn *ssa.Function) string {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	if fn.Parent() != nil {
		return fnPkgPath(fn.Parent())
	}
	if r := fn.Signature.Recv(); r != nil {
		if n := namedOf(r.Type()); n != nil && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path()
		}
	}
	return ""
}

func namedOf(t types.Type) *types.Named {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := t.(*types.Named)
	return n
}

func recvName(fn *ssa.Function) string {
	if r := fn.Signature.Recv(); r != nil {
		if n := namedOf(r.Type()); n != nil {
			return n.Obj().Name()
		}
	}
	return ""
}
