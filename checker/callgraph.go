package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// CallGraph resolves calls conservatively inside the module: interface calls
// go to every type of the module that implements the interface, calls of
// function values to every function of the same signature used as a value.
type CallGraph struct {
	leaf   map[*ssa.Function]bool
	P      *Program
	valued []*ssa.Function
	named  []types.Type
	memo   map[ssa.CallInstruction][]*ssa.Function
	ext    map[ssa.CallInstruction]bool
	mods   map[*ssa.Function]*modsum
	reach  map[string]map[*ssa.Function]bool
}

type modsum struct {
	typs    map[string]bool
	sync    bool // lock or channel operations: other goroutines may run
	unknown bool // calls code outside the module that may call back
}

func (P *Program) CG() *CallGraph {
	if P.cg != nil {
		return P.cg
	}
	g := &CallGraph{P: P, memo: map[ssa.CallInstruction][]*ssa.Function{}, ext: map[ssa.CallInstruction]bool{}, reach: map[string]map[*ssa.Function]bool{}}
	seen := map[*ssa.Function]bool{}
	for _, fn := range P.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var callee ssa.Value
				if c, ok := in.(ssa.CallInstruction); ok && !c.Common().IsInvoke() {
					callee = c.Common().Value
				}
				for _, op := range in.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok && *op != callee && !seen[f] {
						seen[f] = true
						g.valued = append(g.valued, unwrapBound(P, f))
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					f := mc.Fn.(*ssa.Function)
					if !seen[f] {
						seen[f] = true
						g.valued = append(g.valued, unwrapBound(P, f))
					}
				}
			}
		}
	}
	for _, sp := range P.Pkgs {
		for _, m := range sp.Members {
			if t, ok := m.(*ssa.Type); ok {
				if n, ok := t.Type().(*types.Named); ok && !types.IsInterface(n) && n.TypeParams().Len() == 0 {
					g.named = append(g.named, n, types.NewPointer(n))
				}
			}
		}
	}
	P.cg = g
	return g
}

func unwrapBound(P *Program, f *ssa.Function) *ssa.Function { return f }

// Callees lists the module functions a call may reach; external reports
// whether code outside the module may be called too.
func (g *CallGraph) Callees(c ssa.CallInstruction) (fns []*ssa.Function, external bool) {
	if r, ok := g.memo[c]; ok {
		return r, g.ext[c]
	}
	cc := c.Common()
	if cc.IsInvoke() {
		it := under(cc.Value.Type()).(*types.Interface)
		for _, t := range g.named {
			if types.Implements(t, it) {
				if f := g.P.Prog.LookupMethod(t, cc.Method.Pkg(), cc.Method.Name()); f != nil {
					fns = append(fns, f)
				}
			}
		}
		external = token_exported(cc.Method.Name())
	} else if f := cc.StaticCallee(); f != nil {
		fns = append(fns, f)
		external = !g.P.inModule(f)
	} else if _, ok := cc.Value.(*ssa.Builtin); ok {
	} else {
		sig := cc.Signature()
		for _, f := range g.valued {
			if types.Identical(noRecv(f.Signature), noRecv(sig)) {
				fns = append(fns, f)
			}
		}
		external = true
	}
	g.memo[c] = fns
	g.ext[c] = external
	return
}

func token_exported(s string) bool { return s != "" && s[0] >= 'A' && s[0] <= 'Z' }

func noRecv(s *types.Signature) types.Type {
	return types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic())
}

// Reaches: may fn (transitively, without starting goroutines) execute an
// instruction for which pred holds?
func (g *CallGraph) Reaches(name string, fn *ssa.Function, pred func(ssa.Instruction) bool) bool {
	m := g.reach[name]
	if m == nil {
		m = map[*ssa.Function]bool{}
		// direct
		all := map[*ssa.Function]bool{}
		var callers = map[*ssa.Function][]*ssa.Function{}
		var work []*ssa.Function
		var visit func(f *ssa.Function)
		visit = func(f *ssa.Function) {
			if all[f] {
				return
			}
			all[f] = true
			hit := false
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if pred(in) {
						hit = true
					}
					c, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					if _, isGo := in.(*ssa.Go); isGo {
						continue
					}
					fs, _ := g.Callees(c)
					for _, h := range fs {
						if g.P.inModule(h) {
							callers[h] = append(callers[h], f)
							visit(h)
						}
					}
				}
			}
			if hit {
				m[f] = true
				work = append(work, f)
			}
		}
		for _, f := range g.P.Funcs {
			visit(f)
		}
		for len(work) > 0 {
			f := work[len(work)-1]
			work = work[:len(work)-1]
			for _, c := range callers[f] {
				if !m[c] {
					m[c] = true
					work = append(work, c)
				}
			}
		}
		g.reach[name] = m
	}
	return m[fn]
}

func storeRegion(a ssa.Value) string {
	switch v := a.(type) {
	case *ssa.FieldAddr:
		k, _ := keyOfFA(v)
		return "f:" + k.owner + "." + k.name
	case *ssa.IndexAddr:
		return "i:" + tyKey(under(v.Type()).(*types.Pointer).Elem())
	case *ssa.Alloc:
		if !v.Heap {
			return ""
		}
	}
	return "p:" + tyKey(under(a.Type()).(*types.Pointer).Elem())
}

// Mods summarises what a call of fn may change.
func (g *CallGraph) Mods(fn *ssa.Function) *modsum {
	if g.mods == nil {
		g.mods = map[*ssa.Function]*modsum{}
		var all []*ssa.Function
		var visit func(f *ssa.Function)
		visit = func(f *ssa.Function) {
			if g.mods[f] != nil || len(f.Blocks) == 0 {
				return
			}
			ms := &modsum{typs: map[string]bool{}}
			g.mods[f] = ms
			all = append(all, f)
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					g.direct(ms, in)
					if c, ok := in.(ssa.CallInstruction); ok {
						fs, _ := g.Callees(c)
						for _, h := range fs {
							if g.P.inModule(h) {
								visit(h)
							}
						}
					}
				}
			}
		}
		for _, f := range g.P.Funcs {
			visit(f)
		}
		for ch := true; ch; {
			ch = false
			for _, f := range all {
				ms := g.mods[f]
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						c, ok := in.(ssa.CallInstruction)
						if !ok {
							continue
						}
						if _, isGo := in.(*ssa.Go); isGo {
							continue
						}
						fs, _ := g.Callees(c)
						for _, h := range fs {
							hs := g.mods[h]
							if hs == nil {
								continue
							}
							for t := range hs.typs {
								if !ms.typs[t] {
									ms.typs[t] = true
									ch = true
								}
							}
							if hs.sync && !ms.sync {
								ms.sync = true
								ch = true
							}
							if hs.unknown && !ms.unknown {
								ms.unknown = true
								ch = true
							}
						}
					}
				}
			}
		}
	}
	return g.mods[fn]
}

func (g *CallGraph) direct(ms *modsum, in ssa.Instruction) {
	addT := func(t types.Type) {
		// storing a struct writes all its fields
		var rec func(t types.Type)
		rec = func(t types.Type) {
			if s, ok := under(t).(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					ms.typs["f:"+types.TypeString(t, nil)+"."+s.Field(i).Name()] = true
					rec(s.Field(i).Type())
				}
			}
		}
		rec(t)
	}
	switch v := in.(type) {
	case *ssa.Store:
		if al, ok := v.Addr.(*ssa.Alloc); ok && !al.Heap {
			return
		}
		addT(v.Val.Type())
		if r := storeRegion(v.Addr); r != "" {
			ms.typs[r] = true
		}
	case *ssa.MapUpdate:
		ms.typs["m:"+tyKey(under(v.Map.Type()).(*types.Map).Elem())] = true
		ms.typs["m:"+tyKey(tyBool)] = true
		ms.typs["f:.$len"] = true
	case *ssa.Send, *ssa.Select:
		ms.sync = true
	case *ssa.UnOp:
		if v.Op.String() == "<-" {
			ms.sync = true
		}
	case ssa.CallInstruction:
		if _, isGo := in.(*ssa.Go); isGo {
			return
		}
		cc := v.Common()
		if b, ok := cc.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "copy", "append":
				ms.typs["i:"+tyKey(under(cc.Args[0].Type()).(*types.Slice).Elem())] = true
			case "delete":
				ms.typs["m:"+tyKey(under(cc.Args[0].Type()).(*types.Map).Elem())] = true
				ms.typs["m:"+tyKey(tyBool)] = true
				ms.typs["f:.$len"] = true
			case "close":
				ms.sync = true
			}
			return
		}
		fns, ext := g.Callees(v)
		for _, f := range fns {
			if g.P.inModule(f) {
				continue
			}
			p := fnPkgPath(f)
			switch {
			case p == "sync" && (recvName(f) == "Mutex" || recvName(f) == "RWMutex" || recvName(f) == "Cond"):
				ms.sync = true
			case p == "sync/atomic":
				if !strings.HasPrefix(f.Name(), "Load") {
					if len(cc.Args) > 0 {
						if r := storeRegion(cc.Args[0]); r != "" {
							ms.typs[r] = true
						}
					}
				}
			case p == "encoding/binary":
				ms.typs["i:"+tyKey(types.Typ[types.Uint8])] = true
			case quietPkg(p):
			case p == "io" || p == "net" || p == "bufio":
				ms.typs["i:"+tyKey(types.Typ[types.Uint8])] = true
				ms.sync = true
			case p == "reflect":
				// writes only what its arguments reach; treated as any element or pointer target
				if strings.HasPrefix(f.Name(), "Set") || f.Name() == "Append" || f.Name() == "Copy" || f.Name() == "Call" {
					ms.typs["reflect"] = true
				}
			default:
				ms.unknown = true
			}
		}
		if ext && (cc.IsInvoke() || cc.StaticCallee() == nil) {
			if cc.IsInvoke() && quietIface(cc.Value.Type()) {
				return
			}
			ms.unknown = true
		}
	}
}

func quietPkg(p string) bool {
	switch p {
	case "errors", "fmt", "log", "math", "math/bits", "time", "strings", "runtime", "unsafe", "strconv", "sort", "os", "flag", "bytes", "sync", "unicode/utf8":
		return true
	}
	return false
}

// quietIface: interfaces of the standard library whose methods do not call
// back into this module.
func quietIface(t types.Type) bool {
	n := namedOf(t)
	if n == nil {
		return false
	}
	if n.Obj().Pkg() == nil {
		return n.Obj().Name() == "error"
	}
	switch n.Obj().Pkg().Path() {
	case "reflect", "net", "fmt":
		return true
	}
	return false
}

// summaryCall applies the modification summary of a module function.
func (x *Exec) summaryCall(st *State, fr *Frame, ci *CallInfo) []Outcome {
	ms := x.P.CG().Mods(ci.Fn)
	if ms == nil || ms.unknown {
		return nil
	}
	x.Stats["summarised calls"]++
	for _, a := range ci.Args {
		st.escapeInto(a, ms)
	}
	for _, a := range ci.Bind {
		st.escapeInto(a, ms)
	}
	for t := range ms.typs {
		for e := range st.mem {
			if matchRegion(e, t) || t == "reflect" || t == "f:.$len" && e.Op == TField && e.Aux == "$len" {
				if st.private(e) {
					continue
				}
				if x.P.immutable(e) || x.mon.Keep != nil && x.mon.Keep(x, st, e, ci) {
					continue
				}
				x.recordWrite(fr, e)
				st.forget(e)
			}
		}
		x.recordRegion(fr, t)
	}
	for r := range st.escaped {
		st.dirty[r] = true
	}
	if ms.sync {
		x.havocForSync(st, fr)
	}
	res := x.freshVal(st, "ret:"+shortCallee(ci), ci.Res)
	return one(st, res)
}

// escapeInto: an object handed to a summarised callee may be changed by it.
func (s *State) escapeInto(t *Term, ms *modsum) { s.escape(t) }

func (x *Exec) recordRegion(fr *Frame, typ string) {
	for f := fr; f != nil; f = f.parent {
		for h, la := range f.loops {
			ms := x.modsOf(h)
			rg := region{typ: typ}
			if !ms.regs[rg] {
				ms.regs[rg] = true
				if la.generic {
					x.dirty = true
				}
			}
		}
	}
}

// pureLeaf: small functions without loops that only compute a value from
// their arguments and memory.
func (g *CallGraph) pureLeaf(fn *ssa.Function) bool {
	if g.leaf == nil {
		g.leaf = map[*ssa.Function]bool{}
	}
	if v, ok := g.leaf[fn]; ok {
		return v
	}
	g.leaf[fn] = false
	ok := len(fn.Blocks) > 0 && len(fn.Blocks) <= 6
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Index <= b.Index {
				ok = false
			}
		}
		for _, in := range b.Instrs {
			switch v := in.(type) {
			case *ssa.BinOp, *ssa.Convert, *ssa.ChangeType, *ssa.If, *ssa.Jump, *ssa.Phi, *ssa.Return, *ssa.DebugRef, *ssa.FieldAddr, *ssa.Field, *ssa.Extract:
			case *ssa.UnOp:
				if v.Op == token.ARROW {
					ok = false
				}
			case *ssa.Call:
				f := v.Call.StaticCallee()
				if f == nil || !g.pureLeaf(f) && fnPkgPath(f) != "time" {
					ok = false
				}
			default:
				ok = false
			}
		}
	}
	g.leaf[fn] = ok
	return ok
}
