package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// M06: memory of encoded output, and pooled readers and writers.

func init() {
	register(&checkDef{id: "M06", run: checkOutbuf,
		rule:  "two analyses, path by path. (1) Ownership of the buffer of a writer, in every function that touches it: it is only replaced by memory made there or by a part of itself; a part of it leaves the function only as a result which the writer has given up entirely, that is, the writer's buffer begins at or behind the end of the result's capacity (or as fresh space behind everything written at entry), and is stored nowhere else; writers are never copied by value. (2) Typestate of pooled readers, writers and generators (sync.Pool, channels of them, atomic pointers to them), in every function that takes or gives back one: an object found in an atomic pointer is used only after it was swapped out; after an object was given back it is neither used nor given back again nor returned; a writer is given back with nothing left in its buffer; a reader that was taken has no error left from its former use when it is first used, either because it is reset when taken or because every place that gives back resets it",
		assum: []string{"space reserved in a writer (Need) is filled in by the caller before the writer is used again"}})
}

type outM struct {
	P        *Program
	r        *Report
	wt, rt   types.Type
	bufF     int
	wkey     string
	rkey     string
	errF     int
	ptrPools map[*Term]bool
	ptrElem  map[*Term]types.Type
	dirtyPut map[string]token.Pos
	dirtyFn  map[string]string
	need     map[string]token.Pos
	clean    map[*ssa.Function]bool
	helper   map[*ssa.Function]bool // takes an object for its caller, or gives back one of its caller
	takes    int
	gives    int
}

func bytesType(t types.Type) bool {
	s, ok := under(t).(*types.Slice)
	if !ok {
		return false
	}
	b, ok := under(s.Elem()).(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func rootOf(a *Term) *Term {
	for {
		r := stripConv(addrRoot(a))
		if r == a || r == nil {
			return r
		}
		a = r
	}
}

// holds: does a value of the type contain a reader or writer?
func (m *outM) holds(t types.Type, seen map[types.Type]bool) bool {
	if types.Identical(t, m.wt) || types.Identical(t, m.rt) {
		return true
	}
	if seen[t] {
		return false
	}
	seen[t] = true
	switch u := under(t).(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if m.holds(u.Field(i).Type(), seen) {
				return true
			}
		}
	case *types.Array:
		return m.holds(u.Elem(), seen)
	}
	return false
}

func (m *outM) pooled(t types.Type) bool {
	p, ok := under(t).(*types.Pointer)
	return ok && m.holds(p.Elem(), map[types.Type]bool{})
}

func checkOutbuf(P *Program, r *Report) {
	m := &outM{P: P, r: r, ptrPools: map[*Term]bool{}, ptrElem: map[*Term]types.Type{}, dirtyPut: map[string]token.Pos{}, dirtyFn: map[string]string{}, need: map[string]token.Pos{}, clean: map[*ssa.Function]bool{}, helper: map[*ssa.Function]bool{}, bufF: -1, errF: -1}
	m.wt, m.rt = P.Type("marshal", "Writer"), P.Type("marshal", "Reader")
	if m.wt == nil || m.rt == nil {
		r.Add(0, "undecided", "", nil, "types Writer and Reader not found")
		return
	}
	m.wkey, m.rkey = types.TypeString(m.wt, nil), types.TypeString(m.rt, nil)
	ws, ok := under(m.wt).(*types.Struct)
	rs, ok2 := under(m.rt).(*types.Struct)
	if !ok || !ok2 {
		r.Add(0, "undecided", "", nil, "Writer and Reader are not structs")
		return
	}
	for i := 0; i < ws.NumFields(); i++ {
		if bytesType(ws.Field(i).Type()) {
			if m.bufF >= 0 {
				r.Add(0, "undecided", "", nil, "Writer has more than one buffer")
				return
			}
			m.bufF = i
		}
	}
	for i := 0; i < rs.NumFields(); i++ {
		if types.TypeString(rs.Field(i).Type(), nil) == "error" {
			m.errF = i
		}
	}
	if m.bufF < 0 || m.errF < 0 {
		r.Add(0, "undecided", "", nil, "the buffer of Writer or the error of Reader was not found")
		return
	}
	var bufFns, poolFns []*ssa.Function
	ncopy := 0
	for _, fn := range P.Funcs {
		hasBuf := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok && fa.Field == m.bufF {
					if p, ok := under(fa.X.Type()).(*types.Pointer); ok && types.Identical(p.Elem(), m.wt) {
						hasBuf = true
					}
				}
				if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL && m.holdsW(u.Type(), map[types.Type]bool{}) {
					ncopy++
					if !freshComposite(u.X) {
						r.Add(in.Pos(), "writer copied", fnName(fn), nil, "a %s is copied: both copies write into the same buffer", types.TypeString(u.Type(), nil))
					}
				}
			}
		}
		if hasBuf {
			bufFns = append(bufFns, fn)
		}
		if m.poolOps(fn) {
			poolFns = append(poolFns, fn)
		}
	}
	r.Counts["copies of values that contain a writer"] = ncopy
	for _, fn := range bufFns {
		m.bufRun(fn)
	}
	r.Floor("functions that touch the buffer of a writer", len(bufFns), 10)
	for _, fn := range poolFns {
		if fn.Synthetic == "" {
			m.poolRun(fn)
		}
	}
	// helpers that take or give back on behalf of others
	done := map[*ssa.Function]bool{}
	for _, fn := range poolFns {
		done[fn] = true
	}
	work := append([]*ssa.Function(nil), poolFns...)
	for len(work) > 0 {
		fn := work[0]
		work = work[1:]
		if !m.helper[fn] {
			continue
		}
		for _, c := range P.callers[fn] {
			if g := c.Parent(); g != nil && !done[g] && g.Synthetic == "" {
				done[g] = true
				m.poolRun(g)
				work = append(work, g)
			}
		}
	}
	for k, pos := range m.need {
		if d, ok := m.dirtyPut[k]; ok {
			r.Add(d, "given back with leftovers", m.dirtyFn[k], nil, "a reader is given back with the error of its last use, and used at %s without being reset", P.pos(pos))
		}
	}
	r.Floor("places where pooled objects are taken", m.takes, 5)
	r.Floor("places where pooled objects are given back", m.gives, 5)
}

// passesPooled: does fn take a pooled object for, or give one back of, its caller?
func (m *outM) passesPooled(fn *ssa.Function) bool {
	for _, p := range fn.Params {
		if m.pooled(p.Type()) {
			return true
		}
	}
	rs := fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if m.pooled(rs.At(i).Type()) {
			return true
		}
	}
	return false
}

func (m *outM) holdsW(t types.Type, seen map[types.Type]bool) bool {
	if types.Identical(t, m.wt) {
		return true
	}
	if seen[t] {
		return false
	}
	seen[t] = true
	switch u := under(t).(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if m.holdsW(u.Field(i).Type(), seen) {
				return true
			}
		}
	case *types.Array:
		return m.holdsW(u.Elem(), seen)
	}
	return false
}

// freshComposite: a literal under construction: its memory is only ever stored to and read as a whole.
func freshComposite(v ssa.Value) bool {
	a, ok := v.(*ssa.Alloc)
	if !ok {
		return false
	}
	var ok1 func(v ssa.Value) bool
	ok1 = func(v ssa.Value) bool {
		for _, u := range *v.Referrers() {
			switch u := u.(type) {
			case *ssa.FieldAddr:
				if !ok1(u) {
					return false
				}
			case *ssa.IndexAddr:
				if !ok1(u) {
					return false
				}
			case *ssa.Store:
				if u.Addr != v {
					return false
				}
				if ld, ok := u.Val.(*ssa.UnOp); ok && ld.Op == token.MUL && ld.X != v {
					if _, isP := under(u.Val.Type()).(*types.Struct); isP && !freshComposite(ld.X) {
						return false
					}
				}
			case *ssa.UnOp, *ssa.DebugRef:
			default:
				return false
			}
		}
		return true
	}
	return ok1(a)
}

func (m *outM) bufAddr(a *Term) *Term {
	if a != nil && a.Op == TField && a.N == m.bufF && fieldOwner[a] == m.wkey {
		return a
	}
	return nil
}

func (m *outM) small(f *ssa.Function) bool {
	if m.P.relPkg(f) != "marshal" {
		return false
	}
	n := 0
	seen := map[*ssa.Function]bool{}
	var walk func(g *ssa.Function) bool
	walk = func(g *ssa.Function) bool {
		if seen[g] {
			return g != f
		}
		seen[g] = true
		n++
		if n > 8 {
			return false
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if h := c.Common().StaticCallee(); h != nil && m.P.inModule(h) {
						if !walk(h) {
							return false
						}
					} else if h == nil {
						if _, ok := c.Common().Value.(*ssa.Builtin); !ok {
							return false
						}
					}
				}
			}
		}
		return true
	}
	return walk(f)
}

func (m *outM) bufRun(fn *ssa.Function) {
	r := m.r
	mon := &Monitor{Name: "M06", NoLockCk: true, Unroll: -1, Arith: true}
	mon.Relevant = m.small
	// the writer's buffer cell a slice value belongs to
	owner := func(st *State, v *Term) *Term {
		if v == nil || v.Op == TConst {
			return nil
		}
		b, _, _, _ := sliceParts(v, v.Typ)
		if b.Op == TSym && b.Org != nil {
			if a := m.bufAddr(b.Org); a != nil {
				return a
			}
		}
		if b.Op == TAlloc {
			for a, val := range st.mem {
				if m.bufAddr(a) != nil {
					if b2, _, _, _ := sliceParts(val, val.Typ); b2 == b {
						return a
					}
				}
			}
		}
		return nil
	}
	mon.Keep = func(x *Exec, st *State, addr *Term, ci *CallInfo) bool {
		return ci != nil && m.bufAddr(addr) != nil && ci.Fn != nil && !m.P.inModule(ci.Fn)
	}
	mon.Loaded = func(x *Exec, st *State, fr *Frame, in ssaInstr, addr, val *Term) {
		if m.bufAddr(addr) != nil && st.vals[gk("entry", addr)] == nil && val.Op == TSym {
			st.vals[gk("entry", addr)] = val
		}
	}
	mon.Store = func(x *Exec, st *State, fr *Frame, in ssaInstr, addr, old, val *Term) {
		if in == nil {
			return
		}
		if a := m.bufAddr(addr); a != nil {
			if val.isNil() {
				r.OK(in.Pos(), "buffer dropped")
				return
			}
			b, _, _, _ := sliceParts(val, val.Typ)
			switch {
			case b.Op == TAlloc:
				r.OK(in.Pos(), "buffer replaced by memory made here")
			case owner(st, val) == a:
				r.OK(in.Pos(), "buffer replaced by a part of itself")
			default:
				r.Add(in.Pos(), "foreign memory", fnName(fr.fn), st, "the buffer of the writer becomes %s, memory that is not its own", val)
			}
			return
		}
		if val.Typ != nil && bytesType(val.Typ) && !st.private(addr) {
			if a := owner(st, val); a != nil {
				r.Add(in.Pos(), "buffer shared", fnName(fr.fn), st, "a part of the buffer of a writer is stored in %s", addr)
			}
		}
	}
	mon.End = func(x *Exec, o *Outcome) {
		if o.kind == OutPanic {
			return
		}
		for i, v := range o.vals {
			if i >= fn.Signature.Results().Len() || !bytesType(fn.Signature.Results().At(i).Type()) {
				continue
			}
			a := owner(o.st, v)
			if a == nil {
				// a buffer that was loaded and then replaced
				b, _, _, _ := sliceParts(v, v.Typ)
				for k, e := range o.st.vals {
					if e == b && len(k) > 5 && k[:5] == "entry" {
						a = nil
					}
				}
				continue
			}
			rb, ro, _, rc := sliceParts(v, v.Typ)
			cur := x.loadLeaf(o.st, a, a.Typ)
			cb, co, _, _ := sliceParts(cur, a.Typ)
			switch {
			case cur.isNil() || cb != rb:
				r.OK(fn.Pos(), "the writer does not keep the memory it returns")
			case o.st.prove(sub(co, add(ro, rc))):
				r.OK(fn.Pos(), "the writer goes on behind the memory it returns, and the capacity of the result ends there")
			default:
				e := o.st.vals[gk("entry", a)]
				if e != nil {
					_, eo, el, _ := sliceParts(e, a.Typ)
					if o.st.prove(sub(ro, add(eo, el))) {
						r.OK(fn.Pos(), "fresh space is reserved")
						continue
					}
				}
				r.Add(fn.Pos(), "output still in use", fnName(fn), o.st, "%s returns %s, which the writer can still write into (its buffer is now %s)", fnName(fn), v, cur)
			}
		}
	}
	x := newExec(m.P, r, mon)
	empty := true
	var self *Term
	oldEnd := mon.End
	mon.End = func(x *Exec, o *Outcome) {
		oldEnd(x, o)
		if o.kind == OutPanic || self == nil {
			empty = false
			return
		}
		cur := x.loadLeaf(o.st, self, self.Typ)
		if !o.st.prove(sub(num(0), lenOf(cur, self.Typ))) {
			empty = false
		}
	}
	x.RunRoot(fn, func(st *State, args []*Term) {
		self, empty = nil, true
		if s := fn.Signature.Recv(); s != nil && len(args) > 0 {
			if p, ok := under(s.Type()).(*types.Pointer); ok && types.Identical(p.Elem(), m.wt) {
				self = fieldAddr(args[0], m.wt, m.bufF)
			}
		}
	})
	if self != nil && empty {
		m.clean[fn] = true
	}
}

// poolOps: does the function itself take or give back pooled objects?
func (m *outM) poolOps(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch v := in.(type) {
			case *ssa.Send:
				if m.pooled(v.X.Type()) {
					return true
				}
			case *ssa.Select:
				for _, s := range v.States {
					if c, ok := under(s.Chan.Type()).(*types.Chan); ok && m.pooled(c.Elem()) {
						return true
					}
				}
			case *ssa.UnOp:
				if v.Op == token.ARROW {
					if c, ok := under(v.X.Type()).(*types.Chan); ok && m.pooled(c.Elem()) {
						return true
					}
				}
			case *ssa.Call, *ssa.Defer:
				c := v.(ssa.CallInstruction).Common()
				f := c.StaticCallee()
				if f == nil {
					continue
				}
				if fnPkgPath(f) == "sync" && recvName(f) == "Pool" {
					if f.Name() == "Get" {
						if call, ok := in.(*ssa.Call); ok && m.poolType(call) != nil {
							return true
						}
					}
					if f.Name() == "Put" && len(c.Args) > 1 {
						if mi, ok := c.Args[1].(*ssa.MakeInterface); ok && m.pooled(mi.X.Type()) {
							return true
						}
					}
				}
				if fnPkgPath(f) == "sync/atomic" && len(c.Args) > 0 && m.unsafePool(c.Args[0]) {
					return true
				}
			}
		}
	}
	return false
}

// unsafePool: a package variable that holds an unsafe pointer to a pooled object.
func (m *outM) unsafePool(v ssa.Value) bool {
	g, ok := v.(*ssa.Global)
	if !ok {
		return false
	}
	p := g.Type().(*types.Pointer).Elem()
	b, ok := under(p).(*types.Basic)
	if !ok || b.Kind() != types.UnsafePointer || g.Pkg == nil {
		return false
	}
	t := globalTerm(g)
	if m.ptrPools[t] {
		return true
	}
	// is a pooled object ever put there?
	for _, fn := range m.P.Funcs {
		if fn.Pkg != g.Pkg {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var val ssa.Value
				switch s := in.(type) {
				case *ssa.Store:
					if s.Addr == g {
						val = s.Val
					}
				case *ssa.Call:
					if len(s.Call.Args) > 1 && s.Call.Args[0] == g {
						val = s.Call.Args[len(s.Call.Args)-1]
					}
				}
				if c, ok := val.(*ssa.Convert); ok && m.pooled(c.X.Type()) {
					m.ptrPools[t] = true
					m.ptrElem[t] = under(c.X.Type()).(*types.Pointer).Elem()
					return true
				}
			}
		}
	}
	return false
}

func (m *outM) poolType(call *ssa.Call) types.Type {
	for _, u := range *call.Referrers() {
		if ta, ok := u.(*ssa.TypeAssert); ok && m.pooled(ta.AssertedType) {
			return ta.AssertedType
		}
	}
	return nil
}

func (m *outM) poolRun(fn *ssa.Function) {
	r, P := m.r, m.P
	isMeth := func(f *ssa.Function) bool {
		s := f.Signature.Recv()
		if s == nil {
			return false
		}
		p, ok := under(s.Type()).(*types.Pointer)
		return ok && (types.Identical(p.Elem(), m.wt) || types.Identical(p.Elem(), m.rt))
	}
	memo := map[*ssa.Function]int{}
	var relevant func(f *ssa.Function) bool
	relevant = func(f *ssa.Function) bool {
		if v := memo[f]; v != 0 {
			return v == 1
		}
		memo[f] = 2
		v := 2
		if m.poolOps(f) && m.passesPooled(f) || m.clean[f] || m.small(f) {
			v = 1
		} else if !isMeth(f) && m.passesPooled(f) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok {
						if h := c.Common().StaticCallee(); h != nil && P.inModule(h) && relevant(h) && m.poolOps(h) {
							v = 1
						}
					}
				}
			}
		}
		memo[f] = v
		return v == 1
	}
	obj := func(t *Term) *Term {
		if t == nil {
			return nil
		}
		if t.Op == TIface && len(t.Args) > 0 {
			t = t.Args[0]
		}
		return rootOf(t)
	}
	use := func(x *Exec, st *State, fr *Frame, pos token.Pos, t *Term, what string) {
		o := obj(t)
		if o == nil {
			return
		}
		if st.g("given", o) != "" {
			r.Add(pos, "used after given back", fnName(fr.fn), st, "%s is %s after it was given back", o, what)
			return
		}
		if o.Op == TSym && o.Org != nil && m.ptrPools[o.Org] && st.g("owned", o) == "" {
			r.Add(pos, "used without being taken", fnName(fr.fn), st, "%s, found in %s, is %s although it was not swapped out: another goroutine may take it", o, o.Org, what)
		}
	}
	exempt := func(addr *Term) bool {
		// the lock inside a pooled object serves those who wait for it
		for a := addr; a != nil && (a.Op == TField || a.Op == TIndex); a = a.Args[0] {
			if n := namedOf(a.Typ); n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" {
				return true
			}
		}
		return false
	}
	var errCells func(base *Term, t types.Type, f func(a *Term))
	errCells = func(base *Term, t types.Type, f func(a *Term)) {
		if types.Identical(t, m.rt) {
			f(fieldAddr(base, m.rt, m.errF))
			return
		}
		switch u := under(t).(type) {
		case *types.Array:
			for i := int64(0); i < u.Len() && i < 8; i++ {
				errCells(indexAddr(base, num(i), u.Elem()), u.Elem(), f)
			}
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				if m.holds(u.Field(i).Type(), map[types.Type]bool{}) {
					errCells(fieldAddr(base, t, i), u.Field(i).Type(), f)
				}
			}
		}
	}
	var bufCells func(base *Term, t types.Type, f func(a *Term))
	bufCells = func(base *Term, t types.Type, f func(a *Term)) {
		if types.Identical(t, m.wt) {
			f(fieldAddr(base, m.wt, m.bufF))
			return
		}
		if u, ok := under(t).(*types.Struct); ok {
			for i := 0; i < u.NumFields(); i++ {
				if m.holdsW(u.Field(i).Type(), map[types.Type]bool{}) {
					bufCells(fieldAddr(base, t, i), u.Field(i).Type(), f)
				}
			}
		}
	}
	errType := types.Universe.Lookup("error").Type()
	elemOf := func(t types.Type) types.Type {
		if p, ok := under(t).(*types.Pointer); ok {
			return p.Elem()
		}
		return nil
	}
	give := func(x *Exec, st *State, fr *Frame, pos token.Pos, pool string, v *Term, et types.Type) {
		o := obj(v)
		m.gives++
		use(x, st, fr, pos, o, "given back again")
		if et != nil {
			errCells(o, et, func(a *Term) {
				e := x.loadLeaf(st, a, errType)
				if !e.isNil() {
					m.dirtyPut[pool], m.dirtyFn[pool] = pos, fnName(fr.fn)
				}
			})
			bufCells(o, et, func(a *Term) {
				if st.g("used", o) == "" {
					return
				}
				b := x.loadLeaf(st, a, a.Typ)
				if !st.prove(sub(num(0), lenOf(b, a.Typ))) {
					r.Add(pos, "given back with leftovers", fnName(fr.fn), st, "writer %s is given back although its buffer may still hold what was written: the next user's output would begin with it", o)
				} else {
					r.OK(pos, "writer given back empty")
				}
			})
		}
		r.OK(pos, "given back")
		st.setG("given", o, "1")
		st.setG("owned", o, "")
	}
	take := func(st *State, o *Term, pool string) {
		m.takes++
		st.setG("owned", o, pool)
		st.setG("given", o, "")
	}
	poolName := func(t *Term) string {
		if t == nil {
			return "?"
		}
		if t.Op == TSym && t.Org != nil {
			t = t.Org
		}
		return t.String()
	}
	mon := &Monitor{Name: "M06", NoLockCk: true, Unroll: -1, Arith: true, Facts: true}
	mon.Relevant = relevant
	mon.Keep = func(x *Exec, st *State, addr *Term, ci *CallInfo) bool {
		o := rootOf(addr)
		if o == nil || st.g("owned", o) == "" {
			return false
		}
		if ci == nil {
			return true
		}
		for _, a := range ci.Args {
			if obj(a) == o {
				return false
			}
		}
		return true
	}
	mon.Loaded = func(x *Exec, st *State, fr *Frame, in ssaInstr, addr, val *Term) {
		if in != nil && !exempt(addr) && addr.Op != TGlobal {
			use(x, st, fr, in.Pos(), addr, "read")
		}
		if in != nil && addr.Op == TField && addr.N == m.errF && fieldOwner[addr] == m.rkey && st.g("used", addr) == "" {
			if pool := st.g("owned", rootOf(addr)); pool != "" {
				st.setG("used", addr, "1")
				if !val.isNil() {
					if _, ok := m.need[pool]; !ok {
						m.need[pool] = in.Pos()
					}
				}
			}
		}
	}
	mon.Store = func(x *Exec, st *State, fr *Frame, in ssaInstr, addr, old, val *Term) {
		if in == nil {
			return
		}
		if m.ptrPools[addr] {
			if _, isCall := in.(*ssa.Call); !isCall && !val.isNil() {
				give(x, st, fr, in.Pos(), addr.String(), val, m.ptrElem[addr])
			}
			return
		}
		if !exempt(addr) && addr.Op != TGlobal {
			use(x, st, fr, in.Pos(), addr, "written")
		}
	}
	mon.Chan = func(x *Exec, st *State, fr *Frame, ev *ChanEv) {
		if ev.Elem == nil || !m.pooled(ev.Elem) || ev.Val == nil {
			return
		}
		switch ev.Kind {
		case "send":
			give(x, st, fr, ev.Instr.Pos(), types.TypeString(ev.Elem, nil), ev.Val, elemOf(ev.Elem))
		case "recv":
			take(st, ev.Val, types.TypeString(ev.Elem, nil))
		}
	}
	mon.Call = func(x *Exec, st *State, fr *Frame, ci *CallInfo) ([]Outcome, bool) {
		f := ci.Fn
		if f == nil {
			for _, a := range ci.Args {
				use(x, st, fr, ci.Instr.Pos(), a, "passed on")
				if o := obj(a); o != nil && o.Typ != nil && (m.pooled(o.Typ) || o.Op == TAlloc && m.holds(o.Typ, map[types.Type]bool{})) {
					st.setG("used", o, "1")
				}
			}
			return nil, false
		}
		pos := ci.Instr.Pos()
		switch {
		case fnPkgPath(f) == "sync" && recvName(f) == "Pool":
			switch f.Name() {
			case "Get":
				call, ok := ci.Instr.(*ssa.Call)
				if !ok {
					return nil, false
				}
				t := m.poolType(call)
				if t == nil {
					return nil, false
				}
				v := x.freshVal(st, "pooled", t)
				st.assume(not(eqTerm(v, nilTerm)))
				take(st, v, poolName(ci.Args[0]))
				return one(st, mk(TIface, t, "", 0, v)), true
			case "Put":
				v := ci.Args[1]
				var et types.Type
				if v.Op == TIface {
					et = elemOf(v.Typ)
				}
				if et == nil || !m.holds(et, map[types.Type]bool{}) {
					return nil, false
				}
				give(x, st, fr, pos, poolName(ci.Args[0]), v, et)
				return one(st), true
			}
			return nil, false
		case fnPkgPath(f) == "sync":
			return nil, false
		case fnPkgPath(f) == "sync/atomic" && len(ci.Args) > 0 && m.ptrPools[ci.Args[0]]:
			pool := ci.Args[0].String()
			switch f.Name() {
			case "CompareAndSwapPointer":
				ok := st.clone()
				if o := rootOf(ci.Args[1]); !ci.Args[1].isNil() {
					take(ok, o, pool)
				}
				outs := one(st, tFalse)
				if n := ci.Args[2]; !n.isNil() {
					give(x, ok, fr, pos, pool, n, m.ptrElem[ci.Args[0]])
				}
				return append(outs, Outcome{st: ok, vals: []*Term{tTrue}}), true
			case "SwapPointer":
				if n := ci.Args[1]; !n.isNil() {
					give(x, st, fr, pos, pool, n, m.ptrElem[ci.Args[0]])
				}
				v := freshTyped("swapped", ci.Args[0].Typ, nil)
				take(st, v, pool)
				return one(st, v), true
			case "StorePointer":
				if n := ci.Args[1]; !n.isNil() {
					give(x, st, fr, pos, pool, n, m.ptrElem[ci.Args[0]])
				}
				return one(st), true
			case "LoadPointer":
				v := freshTyped("loaded", types.Typ[types.UnsafePointer], ci.Args[0])
				return one(st, v), true
			}
			return nil, false
		}
		for i, a := range ci.Args {
			o := obj(a)
			if o == nil || st.g("owned", o) == "" && st.g("given", o) == "" && !(o.Op == TSym && o.Org != nil && m.ptrPools[o.Org]) {
				if o != nil && o.Op == TAlloc && !m.clean[f] && (!relevant(f) || !m.poolOps(f)) {
					st.setG("used", o, "1")
				}
				continue
			}
			if exempt(a) {
				continue
			}
			use(x, st, fr, pos, a, "passed to "+fnName(f))
			if relevant(f) {
				if !m.clean[f] && !m.poolOps(f) {
					st.setG("used", o, "1")
				}
				continue
			}
			if i < len(f.Params) {
				if et := elemOf(f.Params[i].Type()); et != nil {
					pool := st.g("owned", o)
					errCells(a, et, func(c *Term) {
						if st.g("used", c) != "" {
							return
						}
						st.setG("used", c, "1")
						if e := x.loadLeaf(st, c, errType); !e.isNil() {
							if _, ok := m.need[pool]; !ok {
								m.need[pool] = pos
							}
						} else {
							r.OK(pos, "reader without leftovers used")
						}
					})
				}
			}
			st.setG("used", o, "1")
		}
		return nil, false
	}
	mon.After = func(x *Exec, st *State, fr *Frame, ci *CallInfo, o *Outcome) {
		if ci.Fn != nil && m.clean[ci.Fn] && len(ci.Args) > 0 {
			st.setG("used", obj(ci.Args[0]), "")
		}
	}
	mon.BackEdge = func(x *Exec, st *State, fr *Frame, h *ssa.BasicBlock) {
		// objects of this turn are out of reach in the next one, unless a variable carries them on
		body := x.loopInfo(fr.fn).body[h]
		carried := map[*Term]bool{}
		for _, in := range h.Instrs {
			if phi, ok := in.(*ssa.Phi); ok {
				for _, e := range phi.Edges {
					if t := fr.env[e]; t != nil {
						carried[obj(t)] = true
					}
				}
			}
		}
		for v, t := range fr.env {
			in, ok := v.(ssa.Instruction)
			if !ok || t == nil || !body[in.Block()] {
				continue
			}
			ts := []*Term{t}
			if t.Op == TTuple {
				ts = t.Args
			}
			for _, t := range ts {
				if o := obj(t); o != nil && !carried[o] {
					for _, k := range []string{"owned", "given", "used"} {
						st.setG(k, o, "")
					}
				}
			}
		}
	}
	mon.End = func(x *Exec, o *Outcome) {
		if o.kind == OutPanic {
			return
		}
		for _, a := range x.args {
			if ob := obj(a); ob != nil && o.st.g("given", ob) != "" {
				m.helper[fn] = true
			}
		}
		for i, v := range o.vals {
			if i >= fn.Signature.Results().Len() || v == nil {
				continue
			}
			if ob := obj(v); ob != nil && o.st.g("owned", ob) != "" {
				m.helper[fn] = true
			}
			if ob := obj(v); ob != nil && o.st.g("given", ob) != "" {
				r.Add(fn.Pos(), "used after given back", fnName(fn), o.st, "%s is returned after it was given back", ob)
			}
		}
	}
	x := newExec(P, r, mon)
	x.RunRoot(fn, nil)
}
