package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type OutKind int

const (
	OutReturn OutKind = iota
	OutPanic
)

type Outcome struct {
	st   *State
	kind OutKind
	vals []*Term
	pos  token.Pos
}

type deferred struct {
	instr *ssa.Defer
	ci    *CallInfo
}

type loopAct struct {
	header  *ssa.BasicBlock
	generic bool
	shadows []shadow
	iters   int
	seq     int
	seen    map[string]bool
	entry   *State
	entEnv  map[ssa.Value]*Term
	entDef  []deferred
	init    map[*ssa.Phi]*Term
	cur     map[*ssa.Phi]*Term
	next    map[*ssa.Phi]*Term // the values that a way round the loop brings
	cands   []cand
	cells   []cellCand
	before  map[*Term]*Term
	lins    []linCand
	errs    []*Term // cells that hold errors and may change
}

// linCand: the candidate invariant that a cell moves in step with a phi.
type linCand struct {
	cell2, cell20 *Term // another cell instead of a variable
	key           string
	cell          *Term
	p             *ssa.Phi
	k             int64
	cell0         *Term
}

// cellCand: the candidate invariant that a memory cell holds the value of a phi.
type cellCand struct {
	key  string
	cell *Term
	p    *ssa.Phi
	val  *Term // without phi: the constant that the cell keeps
}

type cand struct {
	key  string
	mk   func(get func(*ssa.Phi) *Term) *Term
	same *ssa.Phi
}

type Frame struct {
	fn         *ssa.Function
	env        map[ssa.Value]*Term
	bind       []*Term
	defers     []deferred
	parent     *Frame
	site       ssa.Instruction
	loops      map[*ssa.BasicBlock]*loopAct
	deferPanic bool
	depth      int
	work       *worklist
	allocs     map[ssa.Instruction]*Term // objects made outside of loops: the same on every path
}

func (f *Frame) clone() *Frame {
	n := *f
	n.env = make(map[ssa.Value]*Term, len(f.env)+8)
	for k, v := range f.env {
		n.env[k] = v
	}
	n.defers = append([]deferred(nil), f.defers...)
	n.loops = make(map[*ssa.BasicBlock]*loopAct, len(f.loops))
	for k, v := range f.loops {
		n.loops[k] = v
	}
	return &n
}

type CallInfo struct {
	Instr  ssa.Instruction
	Common *ssa.CallCommon
	Fn     *ssa.Function // resolved callee or nil
	Bind   []*Term
	Method *types.Func // interface method for unresolved invokes
	Recv   *Term       // receiver of unresolved invoke
	FnTerm *Term       // unresolved function value
	Args   []*Term     // for static methods args[0] is the receiver
	Res    types.Type  // result type(s)
	Defer  bool
	Go     bool
}

func (c *CallInfo) Name() string {
	if c.Fn != nil {
		return c.Fn.String()
	}
	if c.Method != nil {
		return "invoke " + c.Method.FullName()
	}
	if c.FnTerm != nil {
		return "dynamic " + c.FnTerm.String()
	}
	return "builtin"
}

type region struct {
	site ssa.Instruction // alloc site
	path string
	typ  string // type based: owner.field or element type
}

type modset struct {
	regs   map[region]bool
	shared bool
	callIn map[ssa.Instruction]*CallInfo // unknown calls inside the loop
	unl    map[string]bool               // classes of locks released inside the loop
}

type Exec struct {
	P         *Program
	mon       *Monitor
	root      *ssa.Function
	self      *Term   // receiver of the root, if it is a method
	args      []*Term // parameters of the root
	rep       *Report
	steps     int
	maxSteps  int
	maxDepth  int
	mods      map[*ssa.BasicBlock]*modset
	disproved map[string]bool
	dirty     bool
	undecided string
	loopsOf   map[*ssa.Function]*loopInfo
	live      []*Frame
	Stats     map[string]int
	joinMemo  map[[2]*Term]*Term
}

type ChanEv struct {
	Kind  string // send recv close
	Ch    *Term
	Val   *Term
	OK    *Term
	Elem  types.Type
	Instr ssa.Instruction
	Block bool // may block
	Sel   *ssa.Select
}

// Monitor is the property specific part of the interpreter.
type Monitor struct {
	Name      string
	Init      func(x *Exec, st *State, args []*Term)
	Store     func(x *Exec, st *State, fr *Frame, in ssa.Instruction, addr, old, val *Term)
	Loaded    func(x *Exec, st *State, fr *Frame, in ssa.Instruction, addr, val *Term)
	NewCell   func(x *Exec, st *State, addr, val *Term)
	Volatile  func(x *Exec, st *State, addr *Term) bool
	Call      func(x *Exec, st *State, fr *Frame, ci *CallInfo) ([]Outcome, bool)
	Unknown   func(x *Exec, st *State, fr *Frame, ci *CallInfo) // before havoc of an unresolved call
	Keep      func(x *Exec, st *State, addr *Term, ci *CallInfo) bool
	After     func(x *Exec, st *State, fr *Frame, ci *CallInfo, o *Outcome)
	Enter     func(x *Exec, st *State, fr *Frame)
	EnterAt   int // up to so many states enter a loop without being joined
	Leave     func(x *Exec, st *State, fr *Frame, o *Outcome)
	Chan      func(x *Exec, st *State, fr *Frame, ev *ChanEv)
	PreBlock  func(x *Exec, st *State, fr *Frame, in ssa.Instruction) // about to block (non-default)
	Lock      func(x *Exec, st *State, fr *Frame, in ssa.Instruction, op string, addr *Term)
	Go        func(x *Exec, st *State, fr *Frame, ci *CallInfo)
	End       func(x *Exec, o *Outcome)
	Bounds    func(x *Exec, st *State, fr *Frame, in ssa.Instruction, what string, ok *Term)
	NoInline  func(fn *ssa.Function) bool
	MayPanic  func(ci *CallInfo) bool
	Map       func(x *Exec, st *State, fr *Frame, in ssa.Instruction, op string, m, k, v *Term)
	Copy      func(x *Exec, st *State, fr *Frame, in ssa.Instruction, dst, src, n *Term)
	Append    func(x *Exec, st *State, fr *Frame, in ssa.Instruction, res, dst, src *Term)
	Headers   bool // slice headers built by hand are followed
	Resolve   func(x *Exec, st *State, ci *CallInfo) *ssa.Function
	Branch    func(x *Exec, st *State, fr *Frame, in ssa.Instruction, cond *Term, taken bool)
	BackEdge  func(x *Exec, st *State, fr *Frame, h *ssa.BasicBlock)
	Free      func(x *Exec, st *State, fr *Frame) bool
	Relevant  func(fn *ssa.Function) bool // nil: inline everything
	JoinAt    int                         // outcomes of a call above this number are joined
	Unroll    int                         // loops whose test is decided are followed this many times before they are summarised
	JoinBlk   int                         // states at a control flow join above this number are joined
	NoLockCk  bool
	RootSumm  bool                  // calls of functions that are analysed on their own are not followed when no lock is held
	Strict    bool                  // 64-bit arithmetic may overflow unless provably small
	Shadow    []string              // numbers in vals that are carried through loops in step with a loop variable or cell
	Facts     bool                  // states that differ in what is known only are kept apart as well
	CellLin   bool                  // look for numbers in memory that move in step with loop variables
	CellPair  func(a, b *Term) bool // which pairs of them may move in step
	FlagSplit bool                  // and by the values of flags
	ErrSplit  bool                  // iterations of a loop are kept apart by which errors are nil
	Arith     bool                  // index and slice operations that succeed are facts
}

func (x *Exec) fail(format string, a ...interface{}) {
	if x.undecided == "" {
		x.undecided = fmt.Sprintf(format, a...)
	}
}

// RunRoot analyses fn as an entry point; restarts until loop summaries are stable.
func (x *Exec) RunRoot(fn *ssa.Function, setup func(st *State, args []*Term)) []Outcome {
	x.root = fn
	for restart := 0; restart < 25; restart++ {
		x.dirty = false
		x.undecided = ""
		x.steps = 0
		mark := x.rep.mark()
		st := newState()
		var args []*Term
		for _, p := range fn.Params {
			args = append(args, x.param(st, p.Name(), p.Type()))
		}
		x.args, x.self = args, nil
		if fn.Signature.Recv() != nil && len(args) > 0 {
			x.self = args[0]
		}
		var bind []*Term
		for _, fv := range fn.FreeVars {
			bind = append(bind, fresh(fv.Name(), fv.Type()))
		}
		if x.mon.Init != nil {
			x.mon.Init(x, st, args)
		}
		if setup != nil {
			setup(st, args)
		}
		outs := x.call(st, fn, args, bind, nil, nil, false)
		if x.dirty && x.undecided == "" {
			x.rep.rollback(mark)
			continue
		}
		if x.undecided != "" {
			x.rep.Add(fn.Pos(), "undecided", fnName(fn), nil, "analysis of %s could not be completed: %s", fnName(fn), x.undecided)
			return nil
		}
		if x.mon.End != nil {
			for i := range outs {
				x.mon.End(x, &outs[i])
			}
		}
		x.Stats["paths"] += len(outs)
		x.Stats["steps"] += x.steps
		x.Stats["roots"]++
		return outs
	}
	x.rep.Add(fn.Pos(), "undecided", fnName(fn), nil, "analysis of %s does not converge", fnName(fn))
	return nil
}

func (x *Exec) param(st *State, name string, t types.Type) *Term {
	return x.freshVal(st, name, t)
}

// freshVal makes an unknown value; structs are expanded.
func (x *Exec) freshVal(st *State, name string, t types.Type) *Term {
	switch u := under(t).(type) {
	case *types.Struct:
		var fs []*Term
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, x.freshVal(st, name+"."+u.Field(i).Name(), u.Field(i).Type()))
		}
		return mk(TStruct, t, "", 0, fs...)
	case *types.Tuple:
		if u.Len() == 1 {
			return x.freshVal(st, name, u.At(0).Type())
		}
		var fs []*Term
		for i := 0; i < u.Len(); i++ {
			fs = append(fs, x.freshVal(st, fmt.Sprint(name, ".", i), u.At(i).Type()))
		}
		return mk(TTuple, nil, "", 0, fs...)
	}
	return fresh(name, t)
}

func zeroVal(t types.Type) *Term {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return num(0)
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsString != 0:
			return strTerm("")
		case u.Info()&types.IsFloat != 0:
			return constTerm(constant.MakeFloat64(0), t)
		}
		return nilTerm
	case *types.Struct:
		var fs []*Term
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, zeroVal(u.Field(i).Type()))
		}
		return mk(TStruct, t, "", 0, fs...)
	case *types.Array:
		return mk(TApp, t, "zeroarr", 0)
	case *types.Tuple:
		var fs []*Term
		for i := 0; i < u.Len(); i++ {
			fs = append(fs, zeroVal(u.At(i).Type()))
		}
		return mk(TTuple, nil, "", 0, fs...)
	}
	return nilTerm
}

// ---- memory access

func (x *Exec) load(st *State, fr *Frame, in ssa.Instruction, addr *Term, t types.Type) *Term {
	if u, ok := under(t).(*types.Struct); ok {
		if v, ok := st.mem[addr]; ok && v.Op != TStruct {
			return v
		}
		var fs []*Term
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, x.load(st, fr, in, fieldAddr(addr, t, i), u.Field(i).Type()))
		}
		return mk(TStruct, t, "", 0, fs...)
	}
	if a := refArray(t); a != nil {
		if _, ok := st.mem[addr]; !ok {
			var es []*Term
			for i := int64(0); i < a.Len(); i++ {
				es = append(es, x.load(st, fr, in, indexAddr(addr, num(i), a.Elem()), a.Elem()))
			}
			return mk(TStruct, t, "", 0, es...)
		}
	}
	if u, ok := under(t).(*types.Slice); ok && x.mon.Headers && addr.Op != TField && addr.Op != TIndex {
		// a header seen as the slice it describes
		h := stripConv(addr)
		if hs, ok := under(deref(h.Typ)).(*types.Struct); ok && hs.NumFields() == 3 && isIntType(hs.Field(1).Type()) && isIntType(hs.Field(2).Type()) {
			var fs []*Term
			for i := 0; i < 3; i++ {
				fs = append(fs, x.load(st, fr, in, fieldAddr(h, deref(h.Typ), i), hs.Field(i).Type()))
			}
			return mkSlice(t, mkConv(types.NewPointer(types.NewArray(u.Elem(), 0)), hs.Field(0).Type(), fs[0]), num(0), fs[1], fs[2])
		}
	}
	v := x.loadLeaf(st, addr, t)
	if x.mon.Loaded != nil {
		x.mon.Loaded(x, st, fr, in, addr, v)
	}
	return v
}

// refArray: a short array of references, whose value is kept element by element.
func refArray(t types.Type) *types.Array {
	if a, ok := under(t).(*types.Array); ok && a.Len() <= 8 && a.Len() > 0 {
		if _, st := under(a.Elem()).(*types.Struct); st || nilable(a.Elem()) {
			return a
		}
	}
	return nil
}

func (x *Exec) loadLeaf(st *State, addr *Term, t types.Type) *Term {
	if x.mon.Volatile != nil && !st.private(addr) && x.mon.Volatile(x, st, addr) {
		f := freshTyped("v:"+lastName(addr), t, addr)
		if x.mon.NewCell != nil {
			x.mon.NewCell(x, st, addr, f)
		}
		return f
	}
	if v, ok := st.mem[addr]; ok {
		return v
	}
	// element of a known array/struct value?
	if addr.Op == TIndex {
		if av, ok := st.mem[addr.Args[0]]; ok && av.Op != TAlloc {
			if av.Op == TApp && av.Aux == "zeroarr" {
				// only when no other element was written
				return x.zeroUnlessElems(st, addr, t)
			}
			v := mk(TIndexV, t, "", 0, av, addr.Args[1])
			st.mem[addr] = v
			return v
		}
	}
	if addr.Op == TField {
		if av, ok := st.mem[addr.Args[0]]; ok && av.Op != TStruct {
			v := x.fieldOf(av, addr.N, t, addr.Aux)
			st.mem[addr] = v
			return v
		}
	}
	r := addrRoot(addr)
	if r.Op == TAlloc && !st.dirty[r] && !hasUnknownAncestor(st, addr) {
		if addr.Op == TIndex {
			return x.zeroUnlessElems(st, addr, t)
		}
		return zeroVal(t)
	}
	f := freshTyped(lastName(addr), t, addr)
	st.mem[addr] = f
	if x.mon.NewCell != nil {
		x.mon.NewCell(x, st, addr, f)
	}
	return f
}

func hasUnknownAncestor(st *State, addr *Term) bool { return false }

func (x *Exec) zeroUnlessElems(st *State, addr *Term, t types.Type) *Term {
	for e := range st.mem {
		if e != addr && e.Op == TIndex && e.Args[0] == addr.Args[0] && st.eval(eqTerm(e.Args[1], addr.Args[1])) != 0 {
			f := freshTyped("elem", t, addr)
			st.mem[addr] = f
			return f
		}
	}
	return zeroVal(t)
}

func lastName(a *Term) string {
	switch a.Op {
	case TField:
		return a.Aux
	case TIndex:
		return lastName(a.Args[0]) + "[]"
	}
	return a.Aux
}

func (x *Exec) fieldOf(v *Term, i int, t types.Type, name string) *Term {
	if v.Op == TStruct {
		return v.Args[i]
	}
	if v.Op == TConst {
		return zeroVal(t)
	}
	if u, ok := under(t).(*types.Struct); ok {
		var fs []*Term
		f := mk(TFieldV, t, name, i, v)
		for j := 0; j < u.NumFields(); j++ {
			fs = append(fs, x.fieldOf(f, j, u.Field(j).Type(), u.Field(j).Name()))
		}
		return mk(TStruct, t, "", 0, fs...)
	}
	return mk(TFieldV, t, name, i, v)
}

func (x *Exec) store(st *State, fr *Frame, in ssa.Instruction, addr, val *Term, t types.Type) {
	if a := refArray(t); a != nil && val.Op == TStruct {
		for i := range val.Args {
			x.store(st, fr, in, indexAddr(addr, num(int64(i)), a.Elem()), val.Args[i], a.Elem())
		}
		return
	}
	if u, ok := under(t).(*types.Struct); ok {
		for i := 0; i < u.NumFields(); i++ {
			x.store(st, fr, in, fieldAddr(addr, t, i), x.fieldOf(val, i, u.Field(i).Type(), u.Field(i).Name()), u.Field(i).Type())
		}
		return
	}
	old := st.mem[addr]
	if x.mon.Store != nil {
		x.mon.Store(x, st, fr, in, addr, old, val)
	}
	x.recordWrite(fr, addr)
	st.kill(addr)
	st.mem[addr] = val
	if !st.private(addr) {
		st.escape(val)
	}
}

func regionOf(addr *Term, minSeq int) (region, bool) {
	r := addrRoot(addr)
	if r.Op == TAlloc {
		if r.Seq > minSeq {
			return region{}, false
		}
		return region{site: r.Site, path: pathOf(addr)}, true
	}
	switch addr.Op {
	case TField:
		return region{typ: "f:" + fieldOwner[addr] + "." + addr.Aux}, true
	case TIndex:
		if f := addr.Args[0]; closedArray(f) {
			return region{typ: "f:" + fieldOwner[f] + "." + f.Aux}, true
		}
		return region{typ: "i:" + tyKey(addr.Typ)}, true
	case TMapEl:
		return region{typ: "m:" + tyKey(addr.Typ)}, true
	}
	return region{typ: "p:" + tyKey(cellType(addr))}, true
}

func pathOf(a *Term) string {
	switch a.Op {
	case TField:
		return pathOf(a.Args[0]) + "." + a.Aux
	case TIndex:
		return pathOf(a.Args[0]) + "[*]"
	case TSlice:
		return pathOf(a.Args[0])
	}
	return ""
}

func (x *Exec) recordWrite(fr *Frame, addr *Term) {
	for f := fr; f != nil; f = f.parent {
		for h, la := range f.loops {
			rg, ok := regionOf(addr, la.seq)
			if !ok {
				continue
			}
			ms := x.modsOf(h)
			if !ms.regs[rg] {
				ms.regs[rg] = true
				if la.generic {
					x.dirty = true
				}
			}
		}
	}
}

func (x *Exec) recordShared(fr *Frame, ci *CallInfo, unl string) {
	for f := fr; f != nil; f = f.parent {
		for h, la := range f.loops {
			ms := x.modsOf(h)
			ch := !ms.shared
			ms.shared = true
			if ci != nil && ms.callIn[ci.Instr] == nil {
				ms.callIn[ci.Instr] = ci
				ch = true
			}
			if unl != "" && !ms.unl[unl] {
				ms.unl[unl] = true
				ch = true
			}
			if ch && la.generic {
				x.dirty = true
			}
		}
	}
}

func (x *Exec) modsOf(h *ssa.BasicBlock) *modset {
	ms := x.mods[h]
	if ms == nil {
		ms = &modset{regs: map[region]bool{}, callIn: map[ssa.Instruction]*CallInfo{}, unl: map[string]bool{}}
		x.mods[h] = ms
	}
	return ms
}

func (x *Exec) havocMods(st *State, fr *Frame, h *ssa.BasicBlock) {
	ms := x.modsOf(h)
	for rg := range ms.regs {
		if rg.site != nil {
			// all allocs of that site known to the state or the environment
			roots := map[*Term]bool{}
			collect := func(t *Term) {
				t.walk(func(y *Term) bool {
					if y.Op == TAlloc && y.Site == rg.site {
						roots[y] = true
					}
					return true
				})
			}
			for e, v := range st.mem {
				collect(e)
				collect(v)
			}
			for f := fr; f != nil; f = f.parent {
				for _, v := range f.env {
					collect(v)
				}
				for _, v := range f.bind {
					collect(v)
				}
			}
			for e := range st.mem {
				if roots[addrRoot(e)] && pathOf(e) == rg.path {
					f := freshTyped("loop:"+lastName(e), cellType(e), e)
					st.mem[e] = f
					if x.mon.NewCell != nil {
						x.mon.NewCell(x, st, e, f)
					}
				}
			}
			for r := range roots {
				if rg.path == "" {
					if _, ok := st.mem[r]; !ok {
						st.mem[r] = freshTyped("loop:"+r.Aux, r.Typ, r)
					}
				} else if strings.Contains(rg.path, "[*]") {
					st.dirty[r] = true
				} else {
					// materialise field path
					a := addrByPath(r, rg.path)
					if a == nil {
						st.dirty[r] = true
					} else if _, ok := st.mem[a]; !ok {
						st.mem[a] = freshTyped("loop:"+a.Aux, a.Typ, a)
					}
				}
			}
			continue
		}
		for e := range st.mem {
			if matchRegion(e, rg.typ) {
				r := addrRoot(e)
				if st.private(e) && r.Op == TAlloc {
					continue // type-based writes go through pointers that cannot reach private objects
				}
				delete(st.mem, e)
				if r.Op == TAlloc {
					st.dirty[r] = true
				}
			}
		}
		for r := range st.escaped {
			st.dirty[r] = true
		}
	}
	if ms.shared {
		st.havocShared(func(a *Term) bool {
			if x.P.immutable(a) {
				return true
			}
			if len(ms.callIn) == 0 {
				for _, l := range st.held {
					if l.Addr.Op == TField && hasBase(a, l.Addr.Args[0]) && !ms.unl[lockClass(l.Addr)] {
						return true
					}
				}
			}
			if x.mon.Keep == nil {
				return false
			}
			for _, ci := range ms.callIn {
				if !x.mon.Keep(x, st, a, ci) {
					return false
				}
			}
			return x.mon.Keep(x, st, a, nil)
		})
	}
}

func addrByPath(r *Term, path string) *Term {
	a := r
	t := r.Typ
	for _, p := range strings.Split(path, ".")[1:] {
		su, ok := under(t).(*types.Struct)
		if !ok {
			return nil
		}
		found := false
		for i := 0; i < su.NumFields(); i++ {
			if su.Field(i).Name() == p {
				a = fieldAddr(a, t, i)
				t = su.Field(i).Type()
				found = true
				break
			}
		}
		if !found {
			return nil
		}
	}
	return a
}

func matchRegion(e *Term, typ string) bool {
	for a := e; ; {
		switch a.Op {
		case TField:
			if "f:"+fieldOwner[a]+"."+a.Aux == typ {
				return true
			}
			if a == e && "p:"+tyKey(a.Typ) == typ {
				return true
			}
		case TIndex:
			if "i:"+tyKey(a.Typ) == typ && !closedArray(a.Args[0]) {
				return true
			}
			if a == e && "p:"+tyKey(a.Typ) == typ {
				return true
			}
		case TMapEl:
			if "m:"+tyKey(a.Typ) == typ {
				return true
			}
		default:
			return a == e && "p:"+tyKey(cellType(a)) == typ
		}
		a = a.Args[0]
	}
}

// protected: does the cell lie in an object one of whose locks is held?
func (st *State) protected(addr *Term) bool {
	for _, l := range st.held {
		if l.Addr.Op == TField {
			if hasBase(addr, l.Addr.Args[0]) {
				return true
			}
			// the entries of a map that is kept next to the lock
			if addr.Op == TMapEl && addr.Args[0].Org != nil && hasBase(addr.Args[0].Org, l.Addr.Args[0]) {
				return true
			}
		}
	}
	return false
}

// havocForSync: other goroutines may have run; only lock-protected cells stay.
func (x *Exec) havocForSync(st *State, fr *Frame) {
	if fr != nil {
		x.recordShared(fr, nil, "")
	}
	st.havocShared(func(a *Term) bool {
		if st.protected(a) {
			return true
		}
		return x.P.immutable(a) || x.mon.Keep != nil && x.mon.Keep(x, st, a, nil)
	})
}

// havocForCall: unknown code ran (in this goroutine).
func (x *Exec) havocForCall(st *State, fr *Frame, ci *CallInfo) {
	x.recordShared(fr, ci, "")
	st.havocShared(func(a *Term) bool {
		return x.P.immutable(a) || x.mon.Keep != nil && x.mon.Keep(x, st, a, ci)
	})
}

// ---- calls

func fnName(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	return fn.RelString(nil)
}

func (x *Exec) call(st *State, fn *ssa.Function, args, bind []*Term, parent *Frame, site ssa.Instruction, deferPanic bool) []Outcome {
	fr := &Frame{fn: fn, env: map[ssa.Value]*Term{}, bind: bind, parent: parent, site: site, loops: map[*ssa.BasicBlock]*loopAct{}, deferPanic: deferPanic, allocs: map[ssa.Instruction]*Term{}}
	if parent != nil {
		fr.depth = parent.depth + 1
	}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(bind) {
			fr.env[fv] = bind[i]
		}
	}
	x.Stats["fn:"+fnName(fn)]++
	st.note(fn.Pos(), "enter %s", fnName(fn))
	if x.mon.Enter != nil {
		x.mon.Enter(x, st, fr)
	}
	seq0 := TT.seq
	fr.work = &worklist{}
	outs := x.block(fr, st, fn.Blocks[0], nil)
	outs = append(outs, x.drive(fr.work, fn)...)
	for i := range outs {
		x.collect(&outs[i], seq0)
	}
	if x.mon.Leave != nil {
		for i := range outs {
			x.mon.Leave(x, outs[i].st, fr, &outs[i])
		}
	}
	return x.dedup(outs)
}

// alloc: the object that an instruction makes. Outside of loops it is made
// once in a call, so all paths of the call may use the same name for it.
func (x *Exec) alloc(fr *Frame, site ssa.Instruction, name string, typ types.Type) *Term {
	for _, body := range x.loopInfo(fr.fn).body {
		if body[site.Block()] {
			return freshAlloc(site, name, typ)
		}
	}
	t := fr.allocs[site]
	if t == nil {
		t = freshAlloc(site, name, typ)
		fr.allocs[site] = t
	}
	return t
}

// dedup merges indistinguishable outcomes (same results, typestate, locks and memory).
func (x *Exec) dedup(outs []Outcome) []Outcome {
	if len(outs) < 2 {
		return outs
	}
	seen := map[string]int{}
	var res []Outcome
	for _, o := range outs {
		// conditions that the path decides, so that outcomes that differ in
		// them are kept apart
		for i, v := range o.vals {
			if v == nil || v.Op != TNot && v.Op != TEq && v.Op != TGe0 && v.Op != TEq0 && v.Op != TIsType {
				continue
			}
			if known := o.st.eval(v); known >= 0 {
				o.vals = append([]*Term(nil), o.vals...)
				o.vals[i] = boolTerm(known == 1)
			}
		}
		var b strings.Builder
		fmt.Fprintf(&b, "%d|%s|%s|", o.kind, ids(o.vals), o.st.heldKey())
		if o.st.mon != nil {
			b.WriteString(o.st.mon.Key())
		}
		b.WriteString("|")
		var ms []string
		for k, v := range o.st.mem {
			ms = append(ms, fmt.Sprint(k.ID, "=", v.ID))
		}
		sort.Strings(ms)
		b.WriteString(strings.Join(ms, ";"))
		var ds []string
		for k, v := range o.st.dom {
			ds = append(ds, fmt.Sprint(k.ID, ":", v))
		}
		sort.Strings(ds)
		b.WriteString(strings.Join(ds, ";"))
		if x.mon.Facts {
			var fs []string
			o.st.eachFact(func(t *Term) bool { fs = append(fs, fmt.Sprint(t.ID)); return true })
			sort.Strings(fs)
			b.WriteString("|" + strings.Join(fs, ";"))
		}
		k := b.String()
		if i, ok := seen[k]; ok {
			res[i].st.facts = commonFacts(res[i].st, o.st)
			for d := range o.st.dirty {
				res[i].st.dirty[d] = true
			}
			for d := range o.st.escaped {
				res[i].st.escaped[d] = true
			}
			x.Stats["merged"]++
			continue
		}
		seen[k] = len(res)
		res = append(res, o)
	}
	lim := x.mon.JoinAt
	if lim == 0 {
		lim = 6
	}
	if len(res) > lim {
		res = x.join(res)
	}
	return res
}

func (x *Exec) valClass(st *State, v *Term) string {
	if v.Op == TConst || v.Op == TFunc || v.Op == TGlobal || v.Op == TClosure {
		return fmt.Sprint(v.ID)
	}
	if _, ok := v.isInt(); ok {
		return fmt.Sprint(v.ID)
	}
	if v.Op == TTuple || v.Op == TStruct {
		var b strings.Builder
		for _, a := range v.Args {
			b.WriteString(x.valClass(st, a) + ";")
		}
		return b.String()
	}
	if isIntTerm(v) {
		return "i"
	}
	switch st.isNilFact(v) {
	case 1:
		return "nil"
	case 0:
		return "nn"
	}
	return "?"
}

// join merges outcomes whose typestate, locks and kinds of results agree:
// what differs between them becomes unknown.
func (x *Exec) join(outs []Outcome) []Outcome {
	groups := map[string][]int{}
	var order []string
	for i, o := range outs {
		var b strings.Builder
		fmt.Fprintf(&b, "%d|%s|", o.kind, o.st.heldKey())
		if o.st.mon != nil {
			b.WriteString(o.st.mon.Key())
		}
		for _, v := range o.vals {
			b.WriteString("|" + x.valClass(o.st, v))
		}
		if _, ok := o.st.vals["$panicking"]; ok {
			b.WriteString("|p")
		}
		k := b.String()
		if _, ok := groups[k]; !ok {
			order = append(order, k)
		}
		groups[k] = append(groups[k], i)
	}
	var res []Outcome
	for _, k := range order {
		g := groups[k]
		o := outs[g[0]]
		for _, j := range g[1:] {
			x.joinInto(&o, &outs[j])
			x.Stats["joined"]++
		}
		res = append(res, o)
	}
	return res
}

func (x *Exec) joinVal(a, b *State, va, vb *Term) *Term {
	if va == vb {
		return va
	}
	if va.Op == vb.Op && (va.Op == TTuple || va.Op == TStruct) && len(va.Args) == len(vb.Args) {
		var as []*Term
		for i := range va.Args {
			as = append(as, x.joinVal(a, b, va.Args[i], vb.Args[i]))
		}
		return mk(va.Op, va.Typ, va.Aux, va.N, as...)
	}
	if va.Op == TConv && vb.Op == TConv && va.Aux == vb.Aux && va.N == vb.N && va.Typ == vb.Typ && len(va.Args) == 1 && len(vb.Args) == 1 {
		return mk(TConv, va.Typ, va.Aux, va.N, x.joinVal(a, b, va.Args[0], vb.Args[0]))
	}
	t := va.Typ
	if t == nil {
		t = vb.Typ
	}
	if va.Op == TIface || vb.Op == TIface {
		t = types.NewInterfaceType(nil, nil)
	}
	if va.Op == TAlloc || vb.Op == TAlloc {
		t = nil
		if va.Typ != nil && va.Op == TAlloc {
			t = types.NewPointer(va.Typ)
		} else if vb.Op == TAlloc && vb.Typ != nil {
			t = types.NewPointer(vb.Typ)
		}
	}
	if isAddrOp(va) || isAddrOp(vb) {
		t = nil
	}
	if t == nil && (isIntTerm(va) || isIntTerm(vb)) {
		t = tyInt
	}
	if f, ok := x.joinMemo[[2]*Term{va, vb}]; ok {
		return f
	}
	f := fresh("join", t)
	if va.Op == TSym && vb.Op == TSym && va.Org == vb.Org {
		f.Org = va.Org // loaded from there on both sides
	}
	if x.joinMemo != nil {
		x.joinMemo[[2]*Term{va, vb}] = f
	}
	if a.isNilFact(va) == 0 && b.isNilFact(vb) == 0 && !isIntTerm(va) {
		a.addFact(not(mkEq(f, nilTerm)))
	}
	ck := func(v *Term) string { return fmt.Sprint("chancap:", v.ID) }
	if ca, cb := a.vals[ck(va)], b.vals[ck(vb)]; ca != nil && cb != nil {
		// both sides made a channel: keep what is known of its capacity
		if ca != cb {
			if ca == num(0) || cb == num(0) {
				ca = num(0)
			} else {
				ca = x.joinVal(a, b, ca, cb)
			}
		}
		a.vals[ck(f)], b.vals[ck(f)] = ca, ca
	}
	// the joined value may be either: both must count as escaped
	a.escape(va)
	a.escape(vb)
	return f
}

func (x *Exec) joinInto(o, p *Outcome) {
	a, b := o.st, p.st
	x.joinMemo = map[[2]*Term]*Term{}
	defer func() { x.joinMemo = nil }()
	facts := commonFacts(a, b)
	for e := range b.escaped {
		a.escaped[e] = true
	}
	// allocations known to only one side are unknown objects afterwards
	mem := map[*Term]*Term{}
	for k, v := range a.mem {
		if w, ok := b.mem[k]; ok && w == v {
			mem[k] = v
		}
	}
	var diff []*Term
	for k := range a.mem {
		if _, ok := mem[k]; !ok {
			diff = append(diff, k)
		}
	}
	for k := range b.mem {
		if _, ok := a.mem[k]; !ok {
			diff = append(diff, k)
		}
	}
	for i := range o.vals {
		o.vals[i] = x.joinVal(a, b, o.vals[i], p.vals[i])
	}
	extra := a.facts
	for d := range b.dirty {
		a.dirty[d] = true
	}
	for _, k := range diff {
		va, oka := a.mem[k]
		vb, okb := b.mem[k]
		if oka && okb {
			mem[k] = x.joinVal(a, b, va, vb)
			continue
		}
		// unlisted on one side: zero for clean private objects, else unknown
		r := addrRoot(k)
		if r.Op == TAlloc && !a.dirty[r] {
			mem[k] = freshTyped("join:"+lastName(k), cellType(k), k)
		}
		if oka {
			a.escape(va)
		}
		if okb {
			a.escape(vb)
		}
	}
	a.mem = mem
	_ = extra
	// facts: common ones plus those added by joinVal
	var added []*Term
	for n := a.facts; n != nil; n = n.up {
		if n.t.Op == TNot && n.t.Args[0].Op == TEq {
			for _, q := range n.t.Args[0].Args {
				if q.Op == TSym && q.Aux == "join" {
					added = append(added, n.t)
				}
			}
		}
	}
	a.facts = facts
	for _, t := range added {
		a.addFact(t)
	}
	for k, d := range a.dom {
		e, ok := b.dom[k]
		if !ok {
			delete(a.dom, k)
			continue
		}
		has := map[int64]bool{}
		nd := append([]int64(nil), d...)
		for _, v := range d {
			has[v] = true
		}
		for _, v := range e {
			if !has[v] {
				nd = append(nd, v)
			}
		}
		a.dom[k] = nd
	}
	for k, v := range a.vals {
		if b.vals[k] != v {
			delete(a.vals, k)
		}
	}
}

func commonFacts(a, b *State) *factNode {
	in := map[*Term]bool{}
	b.eachFact(func(t *Term) bool { in[t] = true; return true })
	var keep []*Term
	a.eachFact(func(t *Term) bool {
		if in[t] || b.eval(t) == 1 {
			keep = append(keep, t)
		}
		return true
	})
	b.eachFact(func(t *Term) bool {
		if !a.hasFact(t) && a.eval(t) == 1 {
			keep = append(keep, t)
		}
		return true
	})
	var n *factNode
	for i := len(keep) - 1; i >= 0; i-- {
		sz := 1
		if n != nil {
			sz = n.size + 1
		}
		n = &factNode{n, keep[i], sz}
	}
	return n
}

func (x *Exec) onStack(fr *Frame, fn *ssa.Function) bool {
	n := 0
	for f := fr; f != nil; f = f.parent {
		if f.fn == fn {
			n++
		}
	}
	return n > 0
}

func (x *Exec) callInfo(fr *Frame, st *State, in ssa.Instruction, c *ssa.CallCommon) *CallInfo {
	ci := &CallInfo{Instr: in, Common: c, Res: c.Signature().Results()}
	if c.IsInvoke() {
		recv := x.val(fr, st, c.Value)
		ci.Recv = recv
		ci.Method = c.Method
		for _, a := range c.Args {
			ci.Args = append(ci.Args, x.val(fr, st, a))
		}
		x.resolveInvoke(st, ci)
		return ci
	}
	for _, a := range c.Args {
		ci.Args = append(ci.Args, x.val(fr, st, a))
	}
	switch v := c.Value.(type) {
	case *ssa.Function:
		ci.Fn = v
	case *ssa.Builtin:
	default:
		x.resolveDynamic(ci, x.val(fr, st, v))
	}
	return ci
}

func (x *Exec) resolveDynamic(ci *CallInfo, ft *Term) {
	switch ft.Op {
	case TFunc:
		ci.Fn = ft.Fn
	case TClosure:
		ci.Fn = ft.Fn
		ci.Bind = ft.Args
	default:
		ci.FnTerm = ft
	}
}

func (x *Exec) resolveInvoke(st *State, ci *CallInfo) {
	recv := ci.Recv
	var dyn types.Type
	var rv *Term
	if recv.Op == TIface {
		dyn, rv = recv.Typ, recv.Args[0]
	} else {
		st.eachFact(func(f *Term) bool {
			if f.Op == TIsType && f.Args[0] == recv && !types.IsInterface(f.Typ) {
				dyn = f.Typ
				rv = x.unbox(recv, dyn)
				return false
			}
			return true
		})
	}
	if dyn == nil {
		return
	}
	fn := x.P.Prog.LookupMethod(dyn, ci.Method.Pkg(), ci.Method.Name())
	if fn == nil {
		return
	}
	ci.Fn = fn
	ci.Args = append([]*Term{rv}, ci.Args...)
}

func (x *Exec) unbox(v *Term, t types.Type) *Term {
	if v.Op == TIface {
		return v.Args[0]
	}
	if u, ok := under(t).(*types.Struct); ok {
		var fs []*Term
		b := mk(TUnbox, t, "", 0, v)
		for j := 0; j < u.NumFields(); j++ {
			fs = append(fs, x.fieldOf(b, j, u.Field(j).Type(), u.Field(j).Name()))
		}
		return mk(TStruct, t, "", 0, fs...)
	}
	return mk(TUnbox, t, "", 0, v)
}

func one(st *State, vals ...*Term) []Outcome { return []Outcome{{st: st, vals: vals}} }

// doCall performs a (non-builtin) call and returns its outcomes.
func (x *Exec) doCall(st *State, fr *Frame, ci *CallInfo, deferPanic bool) []Outcome {
	if ci.Fn == nil && x.mon.Resolve != nil {
		if fn := x.mon.Resolve(x, st, ci); fn != nil {
			ci.Fn = fn
			if ci.Method != nil {
				ci.Args = append([]*Term{ci.Recv}, ci.Args...)
			}
		}
	}
	var outs []Outcome
	handled := false
	if x.mon.Call != nil {
		outs, handled = x.mon.Call(x, st, fr, ci)
	}
	if !handled && ci.Fn != nil {
		outs, handled = x.model(st, fr, ci)
	}
	if !handled && ci.Fn != nil && len(ci.Fn.Blocks) > 0 && x.P.inModule(ci.Fn) &&
		!x.P.CG().pureLeaf(ci.Fn) &&
		(x.mon.Relevant != nil && !x.mon.Relevant(ci.Fn) ||
			x.mon.RootSumm && len(st.held) == 0 && ci.Fn != x.root && x.P.entryReason(ci.Fn) != "" && ci.Fn.Parent() == nil) {
		outs = x.summaryCall(st, fr, ci)
		handled = outs != nil
		if !handled {
			outs = x.unknownCall(st, fr, ci)
			handled = true
		}
	}
	if !handled && ci.Fn != nil && len(ci.Fn.Blocks) > 0 && x.P.inModule(ci.Fn) &&
		!x.onStack(fr, ci.Fn) && fr.depth < x.maxDepth && !(x.mon.NoInline != nil && x.mon.NoInline(ci.Fn)) {
		outs = x.call(st, ci.Fn, ci.Args, ci.Bind, fr, ci.Instr, deferPanic)
		handled = true
	}
	if !handled && ci.Fn != nil && x.P.inModule(ci.Fn) && len(ci.Fn.Blocks) > 0 {
		// recursion
		if outs = x.summaryCall(st, fr, ci); outs != nil {
			handled = true
			if x.mon.Unknown != nil {
				x.mon.Unknown(x, st, fr, ci)
			}
		}
	}
	if !handled {
		outs = x.unknownCall(st, fr, ci)
	}
	if x.mon.After != nil {
		for i := range outs {
			x.mon.After(x, outs[i].st, fr, ci, &outs[i])
		}
	}
	return outs
}

func (x *Exec) unknownCall(st *State, fr *Frame, ci *CallInfo) []Outcome {
	x.Stats["unknown calls"]++
	if x.mon.Unknown != nil {
		x.mon.Unknown(x, st, fr, ci)
	}
	external := ci.Fn != nil && !x.P.inModule(ci.Fn)
	for _, a := range ci.Args {
		st.escape(a)
	}
	for _, b := range ci.Bind {
		st.escape(b)
	}
	if external {
		// library code touches only what it is given
		for _, a := range ci.Args {
			if a.Op == TAlloc || isAddrOp(a) {
				for e := range st.mem {
					if hasBase(e, a) {
						st.forget(e)
					}
				}
				if a.Op == TAlloc {
					st.dirty[a] = true
				}
			}
		}
		if hasFuncArg(ci) {
			x.havocForCall(st, fr, ci)
		}
	} else {
		x.havocForCall(st, fr, ci)
	}
	var outs []Outcome
	if x.mon.MayPanic != nil && x.mon.MayPanic(ci) {
		p := st.clone()
		p.note(ci.Instr.Pos(), "%s panics", ci.Name())
		outs = append(outs, Outcome{st: p, kind: OutPanic, pos: ci.Instr.Pos()})
	}
	res := x.freshVal(st, "ret:"+shortCallee(ci), ci.Res)
	outs = append(outs, Outcome{st: st, vals: []*Term{res}})
	return outs
}

func hasFuncArg(ci *CallInfo) bool {
	for _, a := range ci.Args {
		if a.Op == TClosure || a.Op == TFunc {
			return true
		}
	}
	return false
}

func shortCallee(ci *CallInfo) string {
	if ci.Fn != nil {
		return ci.Fn.Name()
	}
	if ci.Method != nil {
		return ci.Method.Name()
	}
	return "fn"
}

// result packs outcome values into the single term an SSA call yields.
func packVals(vals []*Term) *Term {
	switch len(vals) {
	case 0:
		return mk(TTuple, nil, "", 0)
	case 1:
		return vals[0]
	}
	return mk(TTuple, nil, "", 0, vals...)
}

// ---- control flow

type loopInfo struct {
	body map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> blocks
}

func (x *Exec) loopInfo(fn *ssa.Function) *loopInfo {
	if li, ok := x.loopsOf[fn]; ok {
		return li
	}
	li := &loopInfo{body: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) { // back edge b->s
				body := li.body[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					li.body[s] = body
				}
				var stack []*ssa.BasicBlock
				if !body[b] {
					body[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					c := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range c.Preds {
						if !body[p] {
							body[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	// irreducible edges (goto into loops): treat any retreating edge target as header
	x.loopsOf[fn] = li
	x.retreating(fn, li)
	return li
}

// retreating makes targets of non-natural cycles headers too.
func (x *Exec) retreating(fn *ssa.Function, li *loopInfo) {
	color := map[*ssa.BasicBlock]int{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		color[b] = 1
		for _, s := range b.Succs {
			if color[s] == 1 && li.body[s] == nil {
				body := map[*ssa.BasicBlock]bool{}
				// blocks on some cycle through s
				fwd := map[*ssa.BasicBlock]bool{}
				var f func(c *ssa.BasicBlock)
				f = func(c *ssa.BasicBlock) {
					if !fwd[c] {
						fwd[c] = true
						for _, t := range c.Succs {
							f(t)
						}
					}
				}
				f(s)
				bwd := map[*ssa.BasicBlock]bool{}
				var g func(c *ssa.BasicBlock)
				g = func(c *ssa.BasicBlock) {
					if !bwd[c] {
						bwd[c] = true
						for _, t := range c.Preds {
							g(t)
						}
					}
				}
				g(s)
				for c := range fwd {
					if bwd[c] {
						body[c] = true
					}
				}
				li.body[s] = body
			}
			if color[s] == 0 {
				dfs(s)
			}
		}
		color[b] = 2
	}
	dfs(fn.Blocks[0])
}

func (x *Exec) tick(fr *Frame) bool {
	x.steps++
	if x.steps > x.maxSteps {
		x.fail("state budget exceeded in %s", fnName(fr.fn))
		return false
	}
	return x.undecided == ""
}

func (x *Exec) block(fr *Frame, st *State, b, pred *ssa.BasicBlock) []Outcome {
	if !x.tick(fr) {
		return nil
	}
	li := x.loopInfo(fr.fn)
	// leave loops that do not contain b
	for h := range fr.loops {
		if !li.body[h][b] {
			delete(fr.loops, h)
		}
	}
	if body := li.body[b]; body != nil && pred != nil {
		if la := fr.loops[b]; la != nil && body[pred] {
			return x.backEdge(fr, st, b, pred, la)
		}
		in := incoming(x, fr, st, b, pred)
		for p, v := range in {
			fr.env[p] = v
		}
		delete(fr.loops, b)
		fr.work.push(&item{fr: fr, st: st, b: b, enter: true})
		return nil
	}
	x.evalPhis(fr, st, b, pred)
	fr.work.push(&item{fr: fr, st: st, b: b})
	return nil
}

func firstNonPhi(b *ssa.BasicBlock) int {
	for i, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			return i
		}
	}
	return len(b.Instrs)
}

func phisOf(b *ssa.BasicBlock) []*ssa.Phi {
	var r []*ssa.Phi
	for _, in := range b.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			r = append(r, p)
		}
	}
	return r
}

func incoming(x *Exec, fr *Frame, st *State, b, pred *ssa.BasicBlock) map[*ssa.Phi]*Term {
	idx := -1
	for i, p := range b.Preds {
		if p == pred {
			idx = i
		}
	}
	r := map[*ssa.Phi]*Term{}
	for _, p := range phisOf(b) {
		if idx >= 0 {
			r[p] = x.val(fr, st, p.Edges[idx])
		}
	}
	return r
}

func (x *Exec) evalPhis(fr *Frame, st *State, b, pred *ssa.BasicBlock) {
	if pred == nil {
		return
	}
	for p, v := range incoming(x, fr, st, b, pred) {
		fr.env[p] = v
	}
}

// decided: can the header's exit test be evaluated without unknowns?
func (x *Exec) decided(fr *Frame, st *State, b *ssa.BasicBlock) bool {
	last, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	body := x.loopInfo(fr.fn).body[b]
	if body[b.Succs[0]] && body[b.Succs[1]] {
		return false
	}
	f2 := fr.clone()
	s2 := st.clone()
	quiet := *x.mon
	save := x.mon
	x.mon = &Monitor{Name: quiet.Name, NewCell: quiet.NewCell, Volatile: quiet.Volatile, Call: nil}
	defer func() { x.mon = save }()
	for _, in := range b.Instrs[firstNonPhi(b) : len(b.Instrs)-1] {
		switch v := in.(type) {
		case *ssa.BinOp, *ssa.Convert, *ssa.ChangeType, *ssa.FieldAddr, *ssa.Field, *ssa.Extract, *ssa.IndexAddr:
			x.simple(f2, s2, in)
		case *ssa.UnOp:
			if v.Op == token.ARROW {
				return false
			}
			x.simple(f2, s2, in)
		case *ssa.Call:
			if bi, ok := v.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "len" || bi.Name() == "cap") {
				f2.env[v] = x.builtinLen(s2, bi.Name(), x.val(f2, s2, v.Call.Args[0]), v.Call.Args[0].Type())
				continue
			}
			return false
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	r := s2.eval(x.val(f2, s2, last.Cond))
	return r >= 0
}

func (x *Exec) unroll() int {
	if x.mon.Unroll == 0 {
		return 9
	}
	if x.mon.Unroll < 0 {
		return 0
	}
	return x.mon.Unroll
}

func (x *Exec) enterLoop(fr *Frame, st *State, b *ssa.BasicBlock, unroll bool) []Outcome {
	in := map[*ssa.Phi]*Term{}
	for _, p := range phisOf(b) {
		in[p] = fr.env[p]
	}
	la := fr.loops[b]
	if la == nil {
		TT.seq++
		la = &loopAct{header: b, seq: TT.seq}
		fr.loops[b] = la
	}
	if unroll {
		fr.work.push(&item{fr: fr, st: st, b: b})
		return nil
	}
	return x.generic(fr, st, b, la, in)
}

// generic starts the summarised treatment of a loop: values the loop may
// change become unknown, constrained by the surviving candidate invariants.
func (x *Exec) generic(fr *Frame, st *State, b *ssa.BasicBlock, la *loopAct, in map[*ssa.Phi]*Term) []Outcome {
	la2 := &loopAct{header: b, seq: la.seq, generic: true, seen: map[string]bool{}, init: in}
	fr.loops[b] = la2
	x.makeCands(fr, st, b, la2)
	for _, p := range phisOf(b) {
		if v := in[p]; nilable(p.Type()) && v.Op != TConst {
			for e, w := range st.mem {
				if w == v {
					la2.cells = append(la2.cells, cellCand{candKey(b, "cell:"+stripNums(e.String())+":"+p.Name()), e, p, nil})
				}
			}
		}
	}
	for e, w := range st.mem {
		if _, isInt := w.isInt(); isInt || w.Op == TConst {
			la2.cells = append(la2.cells, cellCand{candKey(b, "const:"+stripNums(e.String())+"="+w.String()), e, nil, w})
		} else if v, ok := st.known(w); ok {
			la2.cells = append(la2.cells, cellCand{candKey(b, "const:"+stripNums(e.String())+"="+v.String()), e, nil, v})
		}
	}
	before := map[*Term]*Term{}
	for _, c := range la2.cells {
		before[c.cell] = st.mem[c.cell]
	}
	la2.before = before
	sort.Slice(la2.cells, func(i, j int) bool { return la2.cells[i].key < la2.cells[j].key })
	cells := x.shadowCells(st)
	cls := map[string]int{}
	errv := map[*Term]*Term{}
	if x.mon.ErrSplit || x.mon.FlagSplit {
		for _, p := range phisOf(b) {
			if x.splits(p.Type()) {
				cls[p.Name()] = classOf(st, in[p], p.Type())
			}
		}
		for _, t := range fr.env {
			if t.Op == TAlloc && x.splits(t.Typ) {
				errv[t] = x.loadLeaf(st, t, t.Typ)
			}
		}
		for _, t := range fr.bind {
			if t.Op == TAlloc && x.splits(t.Typ) {
				errv[t] = x.loadLeaf(st, t, t.Typ)
			}
		}
		for e, v := range st.mem {
			if x.mon.ErrSplit && (isErrType(e.Typ) || v.Op != TConst && isErrType(v.Typ)) {
				errv[e] = v
			}
		}
	}
	before2 := st.clone()
	x.havocMods(st, fr, b)
	for e, v := range errv {
		if st.mem[e] != v {
			la2.errs = append(la2.errs, e)
			cls[fmt.Sprint(e.ID)] = classOf(before2, v, e.Typ)
		}
	}
	if x.mon.CellLin {
		for e, w := range before2.mem {
			if e.Typ == nil || !isIntType(e.Typ) || st.mem[e] == w {
				continue
			}
			if x.mon.CellPair != nil {
				for e2, w2 := range before2.mem {
					if e2 != e && st.mem[e2] != w2 && x.mon.CellPair(e, e2) {
						la2.lins = append(la2.lins, linCand{key: candKey(b, fmt.Sprintf("pair:%s:%s", stripNums(e.String()), stripNums(e2.String()))), cell: e, k: 1, cell0: w, cell2: e2, cell20: w2})
					}
				}
			}
			for _, p := range phisOf(b) {
				if isIntType(p.Type()) {
					for _, k := range []int64{1, -1} {
						la2.lins = append(la2.lins, linCand{key: candKey(b, fmt.Sprintf("lin%d:%s:%s", k, stripNums(e.String()), p.Name())), cell: e, p: p, k: k, cell0: w})
					}
				}
			}
		}
		sort.Slice(la2.lins, func(i, j int) bool { return la2.lins[i].key < la2.lins[j].key })
	}
	sort.Slice(la2.errs, func(i, j int) bool { return la2.errs[i].ID < la2.errs[j].ID })
	x.makeShadows(st, b, la2, cells)
	la2.entry = st.clone()
	la2.entEnv = fr.clone().env
	la2.entDef = append([]deferred(nil), fr.defers...)
	return x.startIter(fr, st, b, la2, cls)
}

func stKey(st *State) string {
	k := st.heldKey()
	if st.mon != nil {
		k += "|" + st.mon.Key()
	}
	return k
}

func isErrType(t types.Type) bool {
	return t != nil && types.Identical(t, types.Universe.Lookup("error").Type())
}

// splits: are iterations of loops kept apart by variables of this type?
func (x *Exec) splits(t types.Type) bool {
	return x.mon.ErrSplit && isErrType(t) || x.mon.FlagSplit && t != nil && isBoolT(t)
}

func classOf(st *State, v *Term, t types.Type) int {
	if t != nil && isBoolT(t) {
		return st.eval(v)
	}
	return st.eval(mkEq(v, nilTerm))
}

func clsKey(m map[string]int) string {
	if len(m) == 0 {
		return ""
	}
	var l []string
	for k, v := range m {
		l = append(l, fmt.Sprint(k, "=", v))
	}
	sort.Strings(l)
	return "|errs:" + strings.Join(l, ",")
}

func (x *Exec) startIter(fr *Frame, st *State, b *ssa.BasicBlock, la *loopAct, cls map[string]int) []Outcome {
	la.seen[stKey(st)+clsKey(cls)] = true
	known := func(v *Term, k string) *Term {
		c, ok := cls[k]
		if !ok || v == nil {
			return v
		}
		if v.Typ != nil && isBoolT(v.Typ) {
			switch c {
			case 1:
				return tTrue
			case 0:
				return tFalse
			}
			return v
		}
		if c == 1 {
			return nilTerm
		}
		if c == 0 && st.eval(mkEq(v, nilTerm)) != 0 {
			st.assume(not(mkEq(v, nilTerm)))
		}
		return v
	}
	la.cur = map[*ssa.Phi]*Term{}
	for _, p := range phisOf(b) {
		if !x.disproved[candKey(b, "same:"+p.Name())] {
			la.cur[p] = la.init[p]
		} else if sh := sliceShape(la.init[p], p.Type()); sh != nil && !x.disproved[candKey(b, "shape:"+p.Name())] {
			// a part of the same memory from the same place on
			ln := fresh(phiName(p), tyInt)
			st.assume(ge0(ln))
			st.assume(ge0(sub(sh.Args[3], ln)))
			la.cur[p] = mkSlice(p.Type(), sh.Args[0], sh.Args[1], ln, sh.Args[3])
		} else {
			la.cur[p] = known(x.freshVal(st, phiName(p), p.Type()), p.Name())
		}
		fr.env[p] = la.cur[p]
	}
	for _, c := range la.cands {
		if x.disproved[c.key] {
			continue
		}
		if f := c.mk(func(p *ssa.Phi) *Term { return la.cur[p] }); f != nil {
			st.assume(f)
		}
	}
	for _, c := range la.cells {
		if x.disproved[c.key] {
			continue
		}
		if w := la.entry.mem[c.cell]; w != nil && w == la.before[c.cell] {
			continue // the loop does not change the cell, as far as known
		}
		v := c.val
		if c.p != nil {
			v = la.cur[c.p]
		}
		st.mem[c.cell] = v
		if x.mon.Loaded != nil && c.p != nil {
			x.mon.Loaded(x, st, fr, nil, c.cell, v)
		}
	}
	for _, c := range la.lins {
		if !x.disproved[c.key] {
			step := func(cell *Term) *Term {
				v := st.mem[cell]
				if v == nil {
					v = fresh("step", cell.Typ)
					v.Org = cell
					st.mem[cell] = v
				}
				return v
			}
			v := step(c.cell)
			if c.cell2 != nil {
				st.assume(eq0(sub(sub(v, c.cell0), sub(step(c.cell2), c.cell20))))
				continue
			}
			st.assume(eq0(sub(sub(la.cur[c.p], la.init[c.p]), scale(sub(v, c.cell0), c.k))))
		}
	}
	for _, e := range la.errs {
		if st.mem[e] == nil {
			if isBoolT(e.Typ) {
				st.mem[e] = fresh("flag", e.Typ)
			} else {
				st.mem[e] = fresh("err", types.Universe.Lookup("error").Type())
			}
		}
		if st.mem[e].Op != TConst {
			st.mem[e] = known(st.mem[e], fmt.Sprint(e.ID))
		}
	}
	x.startShadows(st, la)
	fr.work.push(&item{fr: fr, st: st, b: b})
	return nil
}

// A shadow is a number a monitor keeps; in a loop it stays what it was, or
// moves in step with a loop variable or a memory cell.
type shadow struct {
	name, key string
	p         *ssa.Phi
	cell      *Term
	d         *Term // distance to the loop variable or cell at entry
}

// shadowCells: the integer cells before the loop.
func (x *Exec) shadowCells(st *State) map[*Term]*Term {
	if len(x.mon.Shadow) == 0 {
		return nil
	}
	r := map[*Term]*Term{}
	for e, v := range st.mem {
		if isIntTerm(v) && (e.Op == TField || e.Op == TAlloc) {
			r[e] = v
		}
	}
	return r
}

func (x *Exec) makeShadows(st *State, b *ssa.BasicBlock, la *loopAct, cells map[*Term]*Term) {
	for _, n := range x.mon.Shadow {
		v := st.vals[n]
		if v == nil {
			continue
		}
		la.shadows = append(la.shadows, shadow{name: n, key: candKey(b, "shadow:"+n+":same"), d: v})
		if !isIntTerm(v) {
			continue
		}
		for _, p := range phisOf(b) {
			if isIntType(p.Type()) {
				la.shadows = append(la.shadows, shadow{name: n, key: candKey(b, "shadow:"+n+":"+p.Name()), p: p, d: sub(v, la.init[p])})
			}
		}
		var es []*Term
		for e := range cells {
			es = append(es, e)
		}
		sort.Slice(es, func(i, j int) bool { return es[i].String() < es[j].String() })
		for _, e := range es {
			la.shadows = append(la.shadows, shadow{name: n, key: candKey(b, "shadow:"+n+":"+stripNums(e.String())), cell: e, d: sub(v, cells[e])})
		}
	}
}

func (x *Exec) startShadows(st *State, la *loopAct) {
	for _, n := range x.mon.Shadow {
		if la.entry.vals[n] == nil {
			delete(st.vals, n) // the loop may have set it
			continue
		}
		delete(st.vals, n)
		for _, s := range la.shadows {
			if s.name != n || x.disproved[s.key] {
				continue
			}
			switch {
			case s.p != nil:
				st.vals[n] = add(la.cur[s.p], s.d)
			case s.cell != nil:
				w := st.mem[s.cell]
				if w == nil {
					w = x.loadLeaf(st, s.cell, cellType(s.cell))
				}
				st.vals[n] = add(w, s.d)
			default:
				st.vals[n] = s.d
			}
			break
		}
	}
}

func (x *Exec) endShadows(st *State, la *loopAct, in map[*ssa.Phi]*Term) {
	for _, s := range la.shadows {
		if x.disproved[s.key] {
			continue
		}
		v := st.vals[s.name]
		want := s.d
		if v != nil && s.p != nil {
			want = add(in[s.p], s.d)
		} else if v != nil && s.cell != nil {
			if w := st.mem[s.cell]; w != nil {
				want = add(w, s.d)
			} else {
				v = nil
			}
		}
		if v == nil || v != want && !(isIntTerm(v) && isIntTerm(want) && st.eval(eqTerm(v, want)) == 1) {
			x.disproved[s.key] = true
			x.dirty = true
		}
	}
}

func phiName(p *ssa.Phi) string {
	if p.Comment != "" {
		return p.Comment
	}
	return p.Name()
}

func candKey(b *ssa.BasicBlock, s string) string {
	return fmt.Sprintf("%s#%d:%s", b.Parent().String(), b.Index, s)
}

func (x *Exec) makeCands(fr *Frame, st *State, b *ssa.BasicBlock, la *loopAct) {
	body := x.loopInfo(fr.fn).body[b]
	addc := func(key string, f func(get func(*ssa.Phi) *Term) *Term) {
		k := candKey(b, key)
		// must hold initially
		t := f(func(p *ssa.Phi) *Term { return la.init[p] })
		if t == nil || st.eval(t) != 1 {
			return
		}
		la.cands = append(la.cands, cand{key: k, mk: f})
	}
	phis := phisOf(b)
	for _, p := range phis {
		p := p
		if isIntType(p.Type()) {
			init := la.init[p]
			addc("ge:"+p.Name(), func(g func(*ssa.Phi) *Term) *Term { return ge0(sub(g(p), init)) })
			addc("le:"+p.Name(), func(g func(*ssa.Phi) *Term) *Term { return ge0(sub(init, g(p))) })
			addc("nn:"+p.Name(), func(g func(*ssa.Phi) *Term) *Term { return ge0(g(p)) })
			if x.mon.CellLin {
				addc("np:"+p.Name(), func(g func(*ssa.Phi) *Term) *Term { return ge0(scale(g(p), -1)) })
				addc("neg:"+p.Name(), func(g func(*ssa.Phi) *Term) *Term { return ge0(sub(num(-1), g(p))) })
			}
			// bounds taken from comparisons inside the loop with outside values
			for blk := range body {
				for _, in := range blk.Instrs {
					bo, ok := in.(*ssa.BinOp)
					if !ok {
						continue
					}
					for i, op := range []ssa.Value{bo.X, bo.Y} {
						_ = i
						if op == p || !isIntType(op.Type()) {
							continue
						}
						if in, ok := op.(ssa.Instruction); ok && body[in.Block()] {
							if bt := x.entryValue(fr, st, body, op); bt != nil && isIntTerm(bt) {
								addc(fmt.Sprintf("leM:%s:%s", p.Name(), op.Name()), func(g func(*ssa.Phi) *Term) *Term { return ge0(sub(bt, g(p))) })
								continue
							}
							if call, ok := op.(*ssa.Call); ok {
								if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
									if in2, ok := call.Call.Args[0].(ssa.Instruction); !ok || !body[in2.Block()] {
										bt := x.builtinLen(st, "len", x.val(fr, st, call.Call.Args[0]), call.Call.Args[0].Type())
										addc(fmt.Sprintf("leL:%s:%s", p.Name(), call.Call.Args[0].Name()), func(g func(*ssa.Phi) *Term) *Term { return ge0(sub(bt, g(p))) })
									}
								}
							}
							continue
						}
						if _, isC := op.(*ssa.Const); isC {
							continue
						}
						bt, ok := fr.env[op]
						if !ok || !isIntTerm(bt) {
							continue
						}
						addc(fmt.Sprintf("leV:%s:%s", p.Name(), op.Name()), func(g func(*ssa.Phi) *Term) *Term { return ge0(sub(bt, g(p))) })
						if c, ok := init.isInt(); ok && c == -1 {
							// the index of a range
							addc(fmt.Sprintf("ltV:%s:%s", p.Name(), op.Name()), func(g func(*ssa.Phi) *Term) *Term { return ge0(sub(sub(bt, g(p)), num(1))) })
						}
					}
				}
			}
			// slices indexed or cut with it
			for blk := range body {
				for _, in := range blk.Instrs {
					var sv ssa.Value
					var used []ssa.Value
					switch in := in.(type) {
					case *ssa.Slice:
						sv, used = in.X, []ssa.Value{in.Low, in.High}
					case *ssa.IndexAddr:
						sv, used = in.X, []ssa.Value{in.Index}
					}
					if sv == nil || used[0] != p && (len(used) < 2 || used[1] != p) {
						continue
					}
					if _, ok := under(sv.Type()).(*types.Slice); !ok {
						continue
					}
					if in2, ok := sv.(ssa.Instruction); ok && body[in2.Block()] {
						continue
					}
					v := x.val(fr, st, sv)
					if v == nil {
						continue
					}
					for what, bt := range map[string]*Term{"len": lenOf(v, sv.Type()), "cap": capOf(v, sv.Type())} {
						bt := bt
						addc(fmt.Sprintf("leS:%s:%s:%s", what, p.Name(), sv.Name()), func(g func(*ssa.Phi) *Term) *Term { return ge0(sub(bt, g(p))) })
					}
				}
			}
			for _, q := range phis {
				q := q
				if sh := sliceShape(la.init[q], q.Type()); sh != nil {
					// a slice whose length moves with the variable
					addc(fmt.Sprintf("lenrel:%s:%s", p.Name(), q.Name()), func(g func(*ssa.Phi) *Term) *Term {
						return eq0(sub(sub(g(p), la.init[p]), sub(lenOf(g(q), q.Type()), sh.Args[2])))
					})
					addc(fmt.Sprintf("lecap:%s:%s", p.Name(), q.Name()), func(g func(*ssa.Phi) *Term) *Term {
						return ge0(sub(capOf(g(q), q.Type()), g(p)))
					})
				}
				if q.Name() <= p.Name() || !isIntType(q.Type()) {
					continue
				}
				for _, k := range []int64{1, -1, 2, 4, 8} {
					k := k
					addc(fmt.Sprintf("rel%d:%s:%s", k, p.Name(), q.Name()), func(g func(*ssa.Phi) *Term) *Term {
						d := sub(sub(g(p), la.init[p]), scale(sub(g(q), la.init[q]), k))
						return eq0(d)
					})
				}
			}
		} else if nilable(p.Type()) {
			addc("nonnil:"+p.Name(), func(g func(*ssa.Phi) *Term) *Term { return not(mkEq(g(p), nilTerm)) })
		}
		if _, ok := under(p.Type()).(*types.Slice); ok {
			addc("len:"+p.Name(), func(g func(*ssa.Phi) *Term) *Term {
				return eq0(sub(lenOf(g(p), p.Type()), lenOf(la.init[p], p.Type())))
			})
		}
	}
}

// sliceShape: a slice as a part of some memory.
func sliceShape(t *Term, typ types.Type) *Term {
	if _, ok := under(typ).(*types.Slice); !ok || t == nil || t.isNil() || t.Op == TConst {
		return nil
	}
	b, off, ln, cp := sliceParts(t, typ)
	return mkSlice(typ, b, off, ln, cp)
}

// entryValue: what a value computed inside a loop from memory would be when
// the loop is entered.
func (x *Exec) entryValue(fr *Frame, st *State, body map[*ssa.BasicBlock]bool, v ssa.Value) *Term {
	var addr func(v ssa.Value, d int) *Term
	addr = func(v ssa.Value, d int) *Term {
		if in, ok := v.(ssa.Instruction); !ok || !body[in.Block()] {
			return fr.env[v]
		}
		if d == 0 {
			return nil
		}
		switch w := v.(type) {
		case *ssa.FieldAddr:
			b := addr(w.X, d-1)
			if b == nil {
				return nil
			}
			p, ok := under(w.X.Type()).(*types.Pointer)
			if !ok {
				return nil
			}
			return fieldAddr(b, p.Elem(), w.Field)
		case *ssa.UnOp:
			if w.Op == token.MUL {
				if a := addr(w.X, d-1); a != nil {
					return st.mem[a]
				}
			}
		case *ssa.Call:
			if f, ok := w.Call.Value.(*ssa.Builtin); ok && f.Name() == "len" {
				if c := addr(w.Call.Args[0], d-1); c != nil {
					return x.builtinLen(st, "len", c, w.Call.Args[0].Type())
				}
			}
		case *ssa.Convert:
			if t := addr(w.X, d-1); t != nil && isIntTerm(t) && isIntType(w.Type()) && st.inRange(t, w.Type()) {
				return t
			}
		}
		return nil
	}
	return addr(v, 5)
}

func nilable(t types.Type) bool {
	switch under(t).(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Interface, *types.Signature:
		return true
	}
	return false
}

func (x *Exec) backEdge(fr *Frame, st *State, b, pred *ssa.BasicBlock, la *loopAct) []Outcome {
	in := incoming(x, fr, st, b, pred)
	if !la.generic {
		la2 := &loopAct{header: b, seq: la.seq, iters: la.iters + 1}
		fr.loops[b] = la2
		for p, v := range in {
			fr.env[p] = v
		}
		fr.work.push(&item{fr: fr, st: st, b: b, enter: true})
		return nil
	}
	la.next = in
	if x.mon.BackEdge != nil {
		x.mon.BackEdge(x, st, fr, b)
	}
	for p, v := range in {
		k := candKey(b, "same:"+p.Name())
		if !x.disproved[k] && v != la.init[p] {
			x.disproved[k] = true
			x.dirty = true
		}
		k = candKey(b, "shape:"+p.Name())
		if sh := sliceShape(la.init[p], p.Type()); sh != nil && !x.disproved[k] {
			vs := sliceShape(v, p.Type())
			if vs == nil || vs.Args[0] != sh.Args[0] || vs.Args[1] != sh.Args[1] || vs.Args[3] != sh.Args[3] {
				x.disproved[k] = true
				x.dirty = true
			}
		}
	}
	for _, c := range la.cands {
		if x.disproved[c.key] {
			continue
		}
		t := c.mk(func(p *ssa.Phi) *Term { return in[p] })
		if t == nil || st.eval(t) != 1 {
			x.disproved[c.key] = true
			x.dirty = true
		}
	}
	for _, c := range la.cells {
		if w := la.entry.mem[c.cell]; w != nil && w == la.before[c.cell] || x.disproved[c.key] {
			continue
		}
		w := st.mem[c.cell]
		if c.p != nil && w != in[c.p] || c.p == nil && (w == nil || w != c.val && st.eval(eqTerm(w, c.val)) != 1) {
			x.disproved[c.key] = true
			x.dirty = true
		}
	}
	for _, c := range la.lins {
		if x.disproved[c.key] {
			continue
		}
		v := st.mem[c.cell]
		if c.cell2 != nil {
			v2 := st.mem[c.cell2]
			if v == nil || v2 == nil || st.eval(eq0(sub(sub(v, c.cell0), sub(v2, c.cell20)))) != 1 {
				x.disproved[c.key] = true
				x.dirty = true
			}
			continue
		}
		if v == nil || st.eval(eq0(sub(sub(in[c.p], la.init[c.p]), scale(sub(v, c.cell0), c.k)))) != 1 {
			x.disproved[c.key] = true
			x.dirty = true
		}
	}
	x.endShadows(st, la, in)
	if len(fr.defers) != len(la.entDef) {
		x.fail("defer inside a loop in %s", fnName(fr.fn))
		return nil
	}
	cls := map[string]int{}
	if x.mon.ErrSplit || x.mon.FlagSplit {
		for p, v := range in {
			if x.splits(p.Type()) {
				cls[p.Name()] = classOf(st, v, p.Type())
			}
		}
		for _, e := range la.errs {
			if v := st.mem[e]; v != nil {
				cls[fmt.Sprint(e.ID)] = classOf(st, v, e.Typ)
			} else {
				cls[fmt.Sprint(e.ID)] = -1
			}
		}
	}
	k := stKey(st) + clsKey(cls)
	if la.seen[k] {
		return nil
	}
	if len(la.seen) > 40 {
		if os.Getenv("VERIF_DEBUG") != "" {
			for k := range la.seen {
				fmt.Fprintln(os.Stderr, "   ", k)
			}
		}
		x.fail("typestate does not converge in a loop of %s", fnName(fr.fn))
		return nil
	}
	n := la.entry.clone()
	n.mon = st.mon
	n.held = st.held
	n.trace = st.trace
	for e := range st.escaped {
		n.escaped[e] = true
		if _, ok := la.entry.escaped[e]; !ok {
			n.dirty[e] = true
			for a := range n.mem {
				if addrRoot(a) == e {
					delete(n.mem, a)
				}
			}
		}
	}
	f2 := fr.clone()
	f2.env = map[ssa.Value]*Term{}
	for kk, v := range la.entEnv {
		f2.env[kk] = v
	}
	f2.loops[b] = la
	return x.startIter(f2, n, b, la, cls)
}
