package main

import (
	"go/token"
	"go/types"
	"strings"
)

// L03: tables shared between goroutines are touched only under their lock.

// guarded lists, per type, the fields that the type's own mutex protects.
var guarded = map[string][]string{
	"Context":                             {"cancels", "cancelsn", "cancelsm"},
	"MultiRequest":                        {"responses"},
	"Buffer":                              {"rows"},
	"tHeap":                               {"len", "top", "size", "free", "h"},
	"RGenerator":                          {"g"},
	"net/server.Connection":               {"buf", "inFly", "bufRealCap"},
	"net/server.Server":                   {"conns", "closing", "currentId"},
	"net/client/connection.RequestHolder": {"reqs"},
}

// cow lists tables that are read without the lock: the table that is visible
// is never changed, and it is replaced only under the lock.
var cow = map[string][]string{
	"net/client.Auto": {"servers"},
}

func init() {
	register(&checkDef{id: "L03", run: checkL03,
		rule: "lockset analysis: for every field of a struct that owns a mutex (the field itself, elements of the array, slice or map it holds, however they were reached) each read and write of an object that is already shared is checked, path by path, against the set of held locks; fields of the protection table must be accessed with the mutex of the same object held; slices in package variables are changed only with a package level mutex held; a field that holds a copy-on-write table is assigned only under the mutex and the table found in it is never changed",
		assum: []string{"an object is not shared before its address leaves the function that allocates it",
			"fields that are accessed with atomic operations, or handed from one goroutine to the other by a channel or by the order of start and join, follow another discipline and are not part of the table"}})
}

func mutexField(s *types.Struct) int {
	for i := 0; i < s.NumFields(); i++ {
		n := namedOf(s.Field(i).Type())
		if n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" && (n.Obj().Name() == "Mutex" || n.Obj().Name() == "RWMutex") {
			if _, ok := under(s.Field(i).Type()).(*types.Pointer); !ok {
				return i
			}
		}
	}
	return -1
}

func checkL03(P *Program, r *Report) {
	owners := map[string]types.Type{} // type string -> type
	short := map[string]string{}
	for _, sp := range P.Pkgs {
		rel := P.relPkgPath(sp.Pkg.Path())
		if strings.HasPrefix(rel, "examples") {
			continue
		}
		for _, m := range sp.Pkg.Scope().Names() {
			tn, ok := sp.Pkg.Scope().Lookup(m).(*types.TypeName)
			if !ok {
				continue
			}
			s, ok := under(tn.Type()).(*types.Struct)
			if !ok || mutexField(s) < 0 {
				continue
			}
			k := types.TypeString(tn.Type(), nil)
			owners[k] = tn.Type()
			sh := tn.Name()
			if rel != "" {
				sh = rel + "." + tn.Name()
			}
			short[k] = sh
		}
	}
	inTable, inCow := map[string]bool{}, map[string]bool{}
	for k, sh := range short {
		for _, f := range guarded[sh] {
			inTable[k+"."+f] = true
		}
		for _, f := range cow[sh] {
			inCow[k+"."+f] = true
		}
	}
	sites := map[token.Pos]bool{}
	// locate finds the lock owner's field that addr belongs to
	locate := func(addr *Term) (key string, lock *Term, base *Term) {
		for a := addr; a != nil; {
			switch {
			case a.Op == TField:
				if t, ok := owners[fieldOwner[a]]; ok {
					s := under(t).(*types.Struct)
					mi := mutexField(s)
					if a.N == mi {
						return
					}
					return fieldOwner[a] + "." + a.Aux, fieldAddr(a.Args[0], t, mi), a.Args[0]
				}
				a = a.Args[0]
			case a.Op == TIndex || a.Op == TMapEl:
				a = a.Args[0]
				if a.Op == TSlice {
					a = a.Args[0]
				}
				if a.Op == TSym && a.Org != nil && a.Typ != nil {
					switch under(a.Typ).(type) {
					case *types.Slice, *types.Map:
						a = a.Org
					}
				}
			case a.Op == TSym && a.Org != nil && strings.HasPrefix(a.Aux, "base"):
				a = a.Org
			default:
				return
			}
		}
		return
	}
	note := func(x *Exec, st *State, pos token.Pos, fn string, addr *Term, write bool, val *Term) {
		if g := globalTable(addr); g != nil && write {
			sites[pos] = true
			for _, l := range st.held {
				if addrRoot(l.Addr).Op == TGlobal {
					r.OK(pos, g.Aux+" written under a package lock")
					return
				}
			}
			r.Add(pos, "unguarded access", fn, st, "the package level table %s is changed without holding a package level mutex", g.Aux)
			return
		}
		k, lock, base := locate(addr)
		if k == "" || st.private(base) {
			return
		}
		// a table that was made on this path and has just been put in place,
		// or is being dropped, at the start or end of the owner's life
		if val != nil && (val.Op == TAlloc || val.isNil() && write) && !st.holds(lock) {
			if _, ok := under(cellType(addr)).(*types.Map); ok {
				x.Stats["tables put in place or dropped"]++
				if !inCow[k] {
					return
				}
			}
			if _, ok := under(cellType(addr)).(*types.Slice); ok && val.isNil() {
				return
			}
		}
		what := "read"
		if write {
			what = "written"
		}
		held, elem := st.holds(lock), addr.Op != TField
		switch {
		case inTable[k]:
			sites[pos] = true
			if held {
				r.OK(pos, k+" "+what+" under its lock")
			} else {
				r.Add(pos, "unguarded access", fn, st, "%s is %s without holding the mutex of the same object", k, what)
			}
		case inCow[k]:
			sites[pos] = true
			switch {
			case write && elem:
				r.Add(pos, "published table changed", fn, st, "the table in %s is changed although goroutines may be reading it without the lock", k)
			case write && !held:
				r.Add(pos, "unguarded access", fn, st, "%s is replaced without holding the mutex of the same object", k)
			default:
				r.OK(pos, k+" "+what)
			}
		}
	}
	m := &Monitor{Name: "L03", NoLockCk: true, Unroll: -1, RootSumm: true}
	m.Loaded = func(x *Exec, st *State, fr *Frame, in ssaInstr, addr, val *Term) {
		if in != nil {
			note(x, st, in.Pos(), fnName(fr.fn), addr, false, val)
		}
	}
	m.Store = func(x *Exec, st *State, fr *Frame, in ssaInstr, addr, old, val *Term) {
		if in != nil {
			note(x, st, in.Pos(), fnName(fr.fn), addr, true, val)
		}
	}
	m.Map = func(x *Exec, st *State, fr *Frame, in ssaInstr, op string, mp, k, v *Term) {
		a := mk(TMapEl, nil, "", 0, mp, num(0))
		note(x, st, in.Pos(), fnName(fr.fn), a, op == "update" || op == "delete", nil)
	}
	pkgs := P.Lib()
	m.Relevant = func(fn *ssaFunc) bool {
		return P.CG().Reaches("L03", fn, func(in ssaInstr) bool {
			if isLockInstr(in) {
				return true
			}
			if s, ok := in.(*ssaStore); ok {
				if _, ok := s.Addr.(*ssaGlobal); ok {
					return true
				}
			}
			if fa, ok := in.(*ssaFieldAddr); ok {
				k, _ := keyOfFA(fa)
				return inTable[k.owner+"."+k.name] || inCow[k.owner+"."+k.name]
			}
			return false
		})
	}
	runRoots(P, r, m, P.Roots(pkgs...))
	r.Floor("guarded access sites", len(sites), 40)
}

// globalTable: the package variable holding the map or slice that the cell belongs to.
func globalTable(addr *Term) *Term {
	a := addr
	for a.Op == TIndex || a.Op == TMapEl {
		if a.Op == TMapEl {
			return nil // codec registries: property M05
		}
		a = a.Args[0]
		if a.Op == TSlice {
			a = a.Args[0]
		}
		if a.Op == TSym && a.Org != nil {
			a = a.Org
		}
	}
	if a.Op != TGlobal {
		return nil
	}
	if a != addr {
		return a
	}
	switch under(cellType(a)).(type) {
	case *types.Slice:
		return a
	}
	return nil
}
