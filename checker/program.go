package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type fieldKey struct {
	owner string
	name  string
}

type condField struct {
	owner types.Type
	idx   int
}

// Program is the type-checked module in SSA form with derived facts.
type Program struct {
	Dir      string
	Mod      string
	Prog     *ssa.Program
	Pkgs     map[string]*ssa.Package // by path relative to the module ("" root)
	Fset     *token.FileSet
	Funcs    []*ssa.Function // all functions of the module, in source order
	PkgInfo  map[string]*packages.Package
	mutable  map[fieldKey][]token.Pos
	addrOut  map[fieldKey]bool
	condOf   map[fieldKey]*condField
	condBad  map[fieldKey]bool
	entryTag map[*ssa.Function]string
	callers  map[*ssa.Function][]ssa.CallInstruction
	cg       *CallGraph
	fnInfos  map[*ssa.Function]*fnInfo
}

func loadProgram(dir string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedSyntax | packages.NeedTypes | packages.NeedTypesInfo |
			packages.NeedImports | packages.NeedDeps | packages.NeedExportFile | packages.NeedTypesSizes | packages.NeedModule,
		Dir: dir,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off"),
	}
	pk, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	if len(pk) == 0 {
		return nil, fmt.Errorf("no packages in %s", dir)
	}
	for _, p := range pk {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
	}
	prog, ps := ssautil.Packages(pk, ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{Dir: dir, Prog: prog, Pkgs: map[string]*ssa.Package{}, Fset: prog.Fset, PkgInfo: map[string]*packages.Package{},
		mutable: map[fieldKey][]token.Pos{}, addrOut: map[fieldKey]bool{}, condOf: map[fieldKey]*condField{}, condBad: map[fieldKey]bool{},
		entryTag: map[*ssa.Function]string{}, callers: map[*ssa.Function][]ssa.CallInstruction{}, fnInfos: map[*ssa.Function]*fnInfo{}}
	for i, p := range pk {
		if p.Module != nil && P.Mod == "" {
			P.Mod = p.Module.Path
		}
		if ps[i] == nil {
			return nil, fmt.Errorf("%s: no SSA form", p.PkgPath)
		}
		rel := strings.TrimPrefix(strings.TrimPrefix(p.PkgPath, P.Mod), "/")
		P.Pkgs[rel] = ps[i]
		P.PkgInfo[rel] = p
	}
	seen := map[*ssa.Function]bool{}
	var add func(fn *ssa.Function)
	add = func(fn *ssa.Function) {
		if fn == nil || seen[fn] {
			return
		}
		seen[fn] = true
		P.Funcs = append(P.Funcs, fn)
		for _, a := range fn.AnonFuncs {
			add(a)
		}
	}
	for _, sp := range ps {
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				n, ok := m.Type().(*types.Named)
				if !ok {
					continue
				}
				for i := 0; i < n.NumMethods(); i++ {
					add(prog.FuncValue(n.Method(i)))
				}
			}
		}
	}
	var fs []*ssa.Function
	for _, f := range P.Funcs {
		if len(f.Blocks) > 0 {
			fs = append(fs, f)
		}
	}
	P.Funcs = fs
	sort.Slice(P.Funcs, func(i, j int) bool {
		a, b := P.Fset.Position(P.Funcs[i].Pos()), P.Fset.Position(P.Funcs[j].Pos())
		if a.Filename != b.Filename {
			return a.Filename < b.Filename
		}
		if a.Offset != b.Offset {
			return a.Offset < b.Offset
		}
		return P.Funcs[i].String() < P.Funcs[j].String()
	})
	P.scan()
	return P, nil
}

func (P *Program) inModule(fn *ssa.Function) bool {
	p := fnPkgPath(fn)
	return p == P.Mod || strings.HasPrefix(p, P.Mod+"/")
}

// relPkg is the package path of fn relative to the module.
func (P *Program) relPkg(fn *ssa.Function) string {
	return strings.TrimPrefix(strings.TrimPrefix(fnPkgPath(fn), P.Mod), "/")
}

func (P *Program) relPkgPath(p string) string {
	return strings.TrimPrefix(strings.TrimPrefix(p, P.Mod), "/")
}

func (P *Program) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := P.Fset.Position(p)
	if r, err := filepath.Rel(P.Dir, q.Filename); err == nil && !strings.HasPrefix(r, "..") {
		q.Filename = r
	}
	return fmt.Sprintf("%s:%d", q.Filename, q.Line)
}

func structOf(t types.Type) (types.Type, *types.Struct) {
	if p, ok := under(t).(*types.Pointer); ok {
		t = p.Elem()
	}
	s, _ := under(t).(*types.Struct)
	return t, s
}

func keyOfFA(fa *ssa.FieldAddr) (fieldKey, types.Type) {
	t, s := structOf(fa.X.Type())
	return fieldKey{types.TypeString(t, nil), s.Field(fa.Field).Name()}, t
}

// scan finds the fields written after construction and whose address leaves
// the ordinary load/store pattern.
func (P *Program) scan() {
	closedFields = func(owner, name string) bool {
		return strings.HasPrefix(owner, P.Mod) && !P.addrOut[fieldKey{owner, name}]
	}
	for _, fn := range P.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if f := c.Common().StaticCallee(); f != nil {
						P.callers[f] = append(P.callers[f], c)
					}
				}
				switch v := in.(type) {
				case *ssa.FieldAddr:
					k, _ := keyOfFA(v)
					P.scanUses(k, v)
				case *ssa.Store:
					// whole struct overwritten through a pointer that is not a fresh object
					if _, s := structOf(v.Val.Type()); s != nil && under(v.Val.Type()) == s {
						if !initStore(v.Addr, fn) {
							P.markAll(v.Val.Type(), v.Pos())
						}
					}
					if fa, ok := v.Addr.(*ssa.FieldAddr); ok {
						P.scanCond(fa, v)
					}
				}
			}
		}
	}
}

func (P *Program) markAll(t types.Type, pos token.Pos) {
	s, ok := under(t).(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		k := fieldKey{types.TypeString(t, nil), s.Field(i).Name()}
		P.mutable[k] = append(P.mutable[k], pos)
		P.markAll(s.Field(i).Type(), pos)
	}
}

// initStore: the address lies in an object allocated in this very function.
func initStore(a ssa.Value, fn *ssa.Function) bool {
	for {
		switch v := a.(type) {
		case *ssa.FieldAddr:
			a = v.X
		case *ssa.IndexAddr:
			a = v.X
		case *ssa.Alloc:
			return v.Parent() == fn
		default:
			return false
		}
	}
}

func (P *Program) scanUses(k fieldKey, v ssa.Value) {
	for _, u := range *v.Referrers() {
		switch u := u.(type) {
		case *ssa.UnOp, *ssa.DebugRef, *ssa.FieldAddr:
		case *ssa.IndexAddr:
			if u.X == v { // element of an array field
				P.scanUses(k, u)
			}
		case *ssa.Store:
			if u.Addr == v {
				if !initStore(v, u.Parent()) {
					P.mutable[k] = append(P.mutable[k], u.Pos())
				}
			} else {
				P.addrOut[k] = true
			}
		case ssa.CallInstruction:
			P.addrOut[k] = true
		default:
			P.addrOut[k] = true
		}
	}
}

// scanCond: cond.L = &owner.m
func (P *Program) scanCond(fa *ssa.FieldAddr, st *ssa.Store) {
	_, s := structOf(fa.X.Type())
	n := namedOf(fa.X.Type())
	if n == nil || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "sync" || n.Obj().Name() != "Cond" || s.Field(fa.Field).Name() != "L" {
		return
	}
	cf, ok := fa.X.(*ssa.FieldAddr)
	if !ok {
		return
	}
	ck, ct := keyOfFA(cf)
	mi, ok := st.Val.(*ssa.MakeInterface)
	if !ok {
		P.condBad[ck] = true
		return
	}
	lf, ok := mi.X.(*ssa.FieldAddr)
	if !ok {
		P.condBad[ck] = true
		return
	}
	_, lt := keyOfFA(lf)
	if !types.Identical(ct, lt) || !sameBase(cf.X, lf.X) {
		P.condBad[ck] = true
		return
	}
	n2 := &condField{lt, lf.Field}
	if o := P.condOf[ck]; o != nil && o.idx != n2.idx {
		P.condBad[ck] = true
	}
	P.condOf[ck] = n2
}

func sameBase(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	ua, ok1 := a.(*ssa.UnOp)
	ub, ok2 := b.(*ssa.UnOp)
	return ok1 && ok2 && ua.Op == token.MUL && ub.Op == token.MUL && ua.X == ub.X
}

func (P *Program) condLockField(owner, name string) *condField {
	k := fieldKey{owner, name}
	if P.condBad[k] {
		return nil
	}
	return P.condOf[k]
}

// condL is the address of field L of the condition variable at c.
func (P *Program) condL(c *Term) *Term {
	var t types.Type
	if c.Op == TField || c.Op == TIndex || c.Op == TAlloc {
		t = c.Typ
	} else if c.Typ != nil {
		if p, ok := under(c.Typ).(*types.Pointer); ok {
			t = p.Elem()
		}
	}
	if t == nil {
		return nil
	}
	s, ok := under(t).(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == "L" {
			return fieldAddr(c, t, i)
		}
	}
	return nil
}

// immutable: the field is written only while its object is constructed.
func (P *Program) immutable(a *Term) bool {
	if a.Op != TField || a.N < 0 {
		return false
	}
	owner := fieldOwner[a]
	if !strings.HasPrefix(owner, P.Mod) {
		return false
	}
	k := fieldKey{owner, a.Aux}
	if len(P.mutable[k]) > 0 || P.addrOut[k] {
		return false
	}
	if a.Args[0].Op == TField { // part of an embedded struct
		return !P.addrOut[fieldKey{fieldOwner[a.Args[0]], a.Args[0].Aux}] || true
	}
	return true
}

// ---- entry points

// escapes: is fn used as a value, go'ed, deferred or reachable from outside the module?
func (P *Program) entryReason(fn *ssa.Function) string {
	if s, ok := P.entryTag[fn]; ok {
		return s
	}
	r := P.entryReason1(fn)
	P.entryTag[fn] = r
	return r
}

func (P *Program) entryReason1(fn *ssa.Function) string {
	if fn.Synthetic != "" {
		if strings.HasPrefix(fn.Name(), "init") {
			return ""
		}
		return ""
	}
	if fn.Signature.Recv() == nil && (fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#")) {
		return "package initialiser"
	}
	if fn.Name() == "main" && fn.Signature.Recv() == nil && fn.Pkg != nil && fn.Pkg.Pkg.Name() == "main" {
		return "main"
	}
	if token.IsExported(fn.Name()) && fn.Parent() == nil {
		return "exported"
	}
	// used as a value or started as goroutine?
	if fn.Signature.Recv() != nil && P.implementsModuleIface(fn) {
		return "interface method"
	}
	if fn.Referrers() != nil {
		for _, u := range *fn.Referrers() {
			if why := useReason(fn, u); why != "" {
				return why
			}
		}
	}
	// functions have no referrers list when package level: scan
	for _, g := range P.Funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if w, ok := (*op).(*ssa.Function); ok && w != fn && w.Synthetic != "" && fn.Object() != nil && w.Object() == fn.Object() {
						return "method value"
					}
					if *op == fn {
						if why := useReason(fn, in); why != "" {
							return why
						}
					}
				}
			}
		}
	}
	return ""
}

func useReason(fn *ssa.Function, in ssa.Instruction) string {
	switch u := in.(type) {
	case *ssa.Go:
		if u.Call.Value == fn {
			return "goroutine"
		}
		return "value"
	case *ssa.Call:
		if u.Call.Value == fn {
			for _, a := range u.Call.Args {
				if a == fn {
					return "value"
				}
			}
			return ""
		}
		return "value"
	case *ssa.Defer:
		if u.Call.Value == fn {
			return ""
		}
		return "value"
	case *ssa.MakeClosure:
		// a closure that is only called or deferred where it is made is inlined
		for _, v := range *u.Referrers() {
			switch w := v.(type) {
			case *ssa.Call:
				if w.Call.Value == u {
					continue
				}
			case *ssa.Defer:
				if w.Call.Value == u {
					continue
				}
			case *ssa.DebugRef:
				continue
			case *ssa.Go:
				if w.Call.Value == u {
					return "goroutine"
				}
			}
			return "closure value"
		}
		return ""
	case *ssa.DebugRef:
		return ""
	}
	return "value"
}

// implementsModuleIface: an unexported method that an interface of the module names.
func (P *Program) implementsModuleIface(fn *ssa.Function) bool {
	rt := fn.Signature.Recv().Type()
	for _, sp := range P.Pkgs {
		for _, m := range sp.Members {
			t, ok := m.(*ssa.Type)
			if !ok {
				continue
			}
			it, ok := under(t.Type()).(*types.Interface)
			if !ok {
				continue
			}
			for i := 0; i < it.NumMethods(); i++ {
				if it.Method(i).Name() == fn.Name() && (types.Implements(rt, it) || types.Implements(types.NewPointer(rt), it)) {
					return true
				}
			}
		}
	}
	return false
}

// Roots lists the entry points of the given packages (relative paths).
func (P *Program) Roots(rel ...string) []*ssa.Function {
	in := map[string]bool{}
	for _, r := range rel {
		in[r] = true
	}
	var res []*ssa.Function
	for _, fn := range P.Funcs {
		if !in[P.relPkg(fn)] {
			continue
		}
		if fn.Synthetic != "" || P.entryReason(fn) == "package initialiser" {
			continue
		}
		if P.entryReason(fn) != "" {
			res = append(res, fn)
		}
	}
	return res
}

// Lib: the library packages (not the examples).
func (P *Program) Lib() []string {
	var r []string
	for k := range P.Pkgs {
		if !strings.HasPrefix(k, "examples") {
			r = append(r, k)
		}
	}
	sort.Strings(r)
	return r
}

// ---- lookups by public name

func (P *Program) Type(pkg, name string) types.Type {
	sp := P.Pkgs[pkg]
	if sp == nil {
		return nil
	}
	t := sp.Type(name)
	if t == nil {
		return nil
	}
	return t.Type()
}

func (P *Program) Method(pkg, typ, name string) *ssa.Function {
	t := P.Type(pkg, typ)
	if t == nil {
		return nil
	}
	for _, tt := range []types.Type{t, types.NewPointer(t)} {
		ms := P.Prog.MethodSets.MethodSet(tt)
		if s := ms.Lookup(P.Pkgs[pkg].Pkg, name); s != nil {
			if f, ok := s.Obj().(*types.Func); ok {
				if fn := P.Prog.FuncValue(f); fn != nil {
					return fn
				}
			}
		}
	}
	return nil
}

func (P *Program) Func(pkg, name string) *ssa.Function {
	sp := P.Pkgs[pkg]
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

// Const returns the value of an integer package constant.
func (P *Program) Const(pkg, name string) (int64, bool) {
	sp := P.Pkgs[pkg]
	if sp == nil {
		return 0, false
	}
	c := sp.Const(name)
	if c == nil {
		return 0, false
	}
	return constTerm(c.Value.Value, c.Type()).isInt()
}

// FieldKey of Type.field
func (P *Program) FieldOwner(pkg, typ string) string {
	t := P.Type(pkg, typ)
	if t == nil {
		return "?"
	}
	return types.TypeString(t, nil)
}
