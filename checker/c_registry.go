package main

import (
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// M05: tables of codecs are copy-on-write.

func init() {
	register(&checkDef{id: "M05", run: checkRegistry,
		rule:  "ownership analysis of the codec tables (package variables that hold a map to pointers to structs): a must-hold lock analysis over the call graph finds in which lock contexts each function runs; then every function that touches a table is followed path by path in each of its contexts. A table variable that is read without the lock is visible; it is assigned only with the package mutex held, only a map that was made on this path, into which every entry of the visible table, read under the same lock, has been copied, and in which every codec that was added has been filled in. A map is changed only while it is private (made on this path and not yet assigned to a visible variable); the other table variables are used only with the mutex held. Fields of codecs are not assigned after publication, and never in a function that runs without the lock",
		assum: []string{"the methods that fill in a codec are called by the registry only, not by users"}})
}

type regM struct {
	P       *Program
	tables  map[*ssa.Global]bool
	maps    []types.Type
	codecs  map[string]bool // type strings of codec structs and of the structs they own
	touch   map[*ssa.Function]bool
	fill    map[*ssa.Function]bool
	reach   map[*ssa.Function]map[*ssa.Function]bool
	ctxs    map[*ssa.Function]map[string][]*ssa.Global // lock contexts
	ext     map[*ssa.Function]map[string][]*ssa.Global // those in which it is entered from outside the registry functions
	visible map[*ssa.Global]bool
	guard   map[*ssa.Global]*ssa.Global // the mutex of a table
}

func lockOp(in ssa.Instruction) (g *ssa.Global, op string) {
	c, ok := in.(*ssa.Call)
	if !ok || !isLockInstr(in) || len(c.Call.Args) == 0 {
		return
	}
	a := c.Call.Args[0]
	for {
		if fa, ok := a.(*ssa.FieldAddr); ok {
			a = fa.X
			continue
		}
		break
	}
	g, _ = a.(*ssa.Global)
	return g, c.Call.StaticCallee().Name()
}

func (m *regM) isMap(t types.Type) bool {
	for _, x := range m.maps {
		if types.Identical(x, under(t)) {
			return true
		}
	}
	return false
}

func lockKey(gs []*ssa.Global) string {
	var l []string
	for _, g := range gs {
		l = append(l, g.String())
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

// codecField: does the address belong to a codec?
func (m *regM) codecFA(v ssa.Value) (base ssa.Value, ok bool) {
	for {
		switch a := v.(type) {
		case *ssa.FieldAddr:
			p, _ := under(a.X.Type()).(*types.Pointer)
			if p != nil && m.codecs[types.TypeString(p.Elem(), nil)] {
				ok = true
			}
			v = a.X
			continue
		case *ssa.IndexAddr:
			v = a.X
			continue
		case *ssa.UnOp:
			if fa, isFA := a.X.(*ssa.FieldAddr); isFA && a.Op == token.MUL && ok == false {
				// element of a slice held by a codec
				if _, isSl := under(a.Type()).(*types.Slice); isSl {
					v = fa
					continue
				}
			}
		}
		return v, ok
	}
}

func fresh1(v ssa.Value) bool {
	switch a := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.MakeSlice:
		return true
	case *ssa.Slice:
		return fresh1(a.X)
	}
	return false
}

func (m *regM) callees(in ssa.Instruction) []*ssa.Function {
	c, ok := in.(ssa.CallInstruction)
	if !ok {
		return nil
	}
	fs, _ := m.P.CG().Callees(c)
	return fs
}

func (m *regM) reachSet(f *ssa.Function) map[*ssa.Function]bool {
	if s, ok := m.reach[f]; ok {
		return s
	}
	s := map[*ssa.Function]bool{}
	m.reach[f] = s
	var walk func(g *ssa.Function)
	walk = func(g *ssa.Function) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if h := c.Common().StaticCallee(); h != nil && m.P.inModule(h) && !s[h] {
						s[h] = true
						walk(h)
					}
				}
			}
		}
	}
	walk(f)
	return s
}

// mustHold gives the package mutexes held before each instruction of fn.
func (m *regM) mustHold(fn *ssa.Function, entry []*ssa.Global) map[ssa.Instruction]map[*ssa.Global]bool {
	res := map[ssa.Instruction]map[*ssa.Global]bool{}
	if len(fn.Blocks) == 0 {
		return res
	}
	ins := map[*ssa.BasicBlock]map[*ssa.Global]bool{}
	e := map[*ssa.Global]bool{}
	for _, g := range entry {
		e[g] = true
	}
	ins[fn.Blocks[0]] = e
	work := []*ssa.BasicBlock{fn.Blocks[0]}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		cur := map[*ssa.Global]bool{}
		for g := range ins[b] {
			cur[g] = true
		}
		for _, in := range b.Instrs {
			c := map[*ssa.Global]bool{}
			for g := range cur {
				c[g] = true
			}
			res[in] = c
			if g, op := lockOp(in); g != nil {
				if op == "Lock" {
					cur[g] = true
				} else if op == "Unlock" {
					delete(cur, g)
				}
			}
		}
		for _, s := range b.Succs {
			old, ok := ins[s]
			if !ok {
				n := map[*ssa.Global]bool{}
				for g := range cur {
					n[g] = true
				}
				ins[s] = n
				work = append(work, s)
				continue
			}
			ch := false
			for g := range old {
				if !cur[g] {
					delete(old, g)
					ch = true
				}
			}
			if ch {
				work = append(work, s)
			}
		}
	}
	return res
}

func checkRegistry(P *Program, r *Report) {
	m := &regM{P: P, tables: map[*ssa.Global]bool{}, codecs: map[string]bool{}, touch: map[*ssa.Function]bool{}, fill: map[*ssa.Function]bool{},
		reach: map[*ssa.Function]map[*ssa.Function]bool{}, ctxs: map[*ssa.Function]map[string][]*ssa.Global{}, ext: map[*ssa.Function]map[string][]*ssa.Global{}, visible: map[*ssa.Global]bool{}, guard: map[*ssa.Global]*ssa.Global{}}
	// the tables
	var fns []*ssa.Function
	for _, fn := range P.Funcs {
		if p := P.relPkg(fn); p == "marshal" || p == "sbox" {
			fns = append(fns, fn)
		}
	}
	for _, pk := range []string{"marshal", "sbox"} {
		sp := P.Pkgs[pk]
		if sp == nil {
			continue
		}
		for _, n := range sp.Pkg.Scope().Names() {
			g, ok := sp.Members[n].(*ssa.Global)
			if !ok {
				continue
			}
			mt, ok := typUnder(g.Type().(*types.Pointer).Elem()).(*types.Map)
			if !ok {
				continue
			}
			pt, ok := under(mt.Elem()).(*types.Pointer)
			if !ok {
				continue
			}
			if s, ok := under(pt.Elem()).(*types.Struct); ok && s.NumFields() > 0 {
				m.tables[g] = true
				if !m.isMap(mt) {
					m.maps = append(m.maps, mt)
				}
				m.codecs[types.TypeString(pt.Elem(), nil)] = true
				for i := 0; i < s.NumFields(); i++ {
					if sl, ok := under(s.Field(i).Type()).(*types.Slice); ok && namedOf(sl.Elem()) != nil {
						if _, ok := under(sl.Elem()).(*types.Struct); ok {
							m.codecs[types.TypeString(sl.Elem(), nil)] = true
						}
					}
				}
			}
		}
	}
	r.Floor("codec tables", len(m.tables), 4)
	// which functions touch tables or fill in codecs
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				for _, o := range in.Operands(ops) {
					if g, ok := (*o).(*ssa.Global); ok && m.tables[g] {
						m.touch[fn] = true
					}
				}
				switch v := in.(type) {
				case *ssa.MapUpdate:
					if m.isMap(v.Map.Type()) {
						m.touch[fn] = true
					}
				case *ssa.Store:
					if base, ok := m.codecFA(v.Addr); ok && !fresh1(base) {
						m.fill[fn] = true
					}
				}
			}
		}
		if fn.Name() == "init" && fn.Synthetic != "" {
			delete(m.touch, fn)
		}
	}
	// lock contexts
	type item struct {
		fn *ssa.Function
		c  []*ssa.Global
	}
	var work []item
	add := func(fn *ssa.Function, c []*ssa.Global, outside bool) {
		if outside {
			if m.ext[fn] == nil {
				m.ext[fn] = map[string][]*ssa.Global{}
			}
			m.ext[fn][lockKey(c)] = c
		}
		if m.ctxs[fn] == nil {
			m.ctxs[fn] = map[string][]*ssa.Global{}
		}
		if _, ok := m.ctxs[fn][lockKey(c)]; !ok {
			m.ctxs[fn][lockKey(c)] = c
			work = append(work, item{fn, c})
		}
	}
	isInit := func(fn *ssa.Function) bool { return fn.Synthetic != "" && fn.Name() == "init" }
	codecMethod := func(fn *ssa.Function) bool {
		if s := fn.Signature.Recv(); s != nil {
			t := s.Type()
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem()
			}
			return m.codecs[types.TypeString(t, nil)]
		}
		return false
	}
	for _, fn := range fns {
		if isInit(fn) {
			continue
		}
		if e := P.entryReason(fn); e != "" && e != "package initialiser" && !(codecMethod(fn) && fn.Parent() == nil && len(P.callers[fn]) > 0) {
			add(fn, nil, true)
		}
	}
	for len(work) > 0 {
		it := work[0]
		work = work[1:]
		held := m.mustHold(it.fn, it.c)
		for _, b := range it.fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				var hs []*ssa.Global
				if _, isGo := in.(*ssa.Go); !isGo {
					for g := range held[in] {
						hs = append(hs, g)
					}
				}
				h := c.Common().StaticCallee()
				if h != nil && (P.relPkg(h) == "marshal" || P.relPkg(h) == "sbox") && P.inModule(h) {
					add(h, hs, !m.touch[it.fn])
				}
			}
		}
	}
	// the mutex of a table is the one that is held most often where the table is used
	votes := map[*ssa.Global]map[*ssa.Global]int{}
	for fn := range m.touch {
		for _, c := range m.ctxs[fn] {
			held := m.mustHold(fn, c)
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					for _, o := range in.Operands(nil) {
						g, ok := (*o).(*ssa.Global)
						if !ok || !m.tables[g] {
							continue
						}
						for l := range held[in] {
							if l.Pkg == g.Pkg {
								if votes[g] == nil {
									votes[g] = map[*ssa.Global]int{}
								}
								votes[g][l]++
							}
						}
					}
				}
			}
		}
	}
	for g, v := range votes {
		for l, n := range v {
			if o := m.guard[g]; o == nil || n > v[o] || n == v[o] && l.Name() < o.Name() {
				m.guard[g] = l
			}
		}
	}
	for g := range m.tables {
		if m.guard[g] == nil {
			r.Add(g.Pos(), "table used without the lock", g.Name(), nil, "no use of %s is protected by a package mutex", g.Name())
			return
		}
	}
	// a table that is read in some place without any lock is visible
	sitesRead := 0
	for fn := range m.touch {
		for _, c := range m.ctxs[fn] {
			held := m.mustHold(fn, c)
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					u, ok := in.(*ssa.UnOp)
					if !ok || u.Op != token.MUL {
						continue
					}
					if g, ok := u.X.(*ssa.Global); ok && m.tables[g] {
						sitesRead++
						if !held[in][m.guard[g]] {
							m.visible[g] = true
						}
					}
				}
			}
		}
	}
	r.Counts["reads of table variables"] = sitesRead
	r.Floor("visible tables", len(m.visible), 1)
	// codecs are not changed by functions that run without a lock
	n := 0
	for _, fn := range fns {
		if !m.fill[fn] || isInit(fn) {
			continue
		}
		for k, c := range m.ctxs[fn] {
			held := m.mustHold(fn, c)
			_ = k
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					s, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					base, ok := m.codecFA(s.Addr)
					if !ok || fresh1(base) {
						continue
					}
					n++
					own := false
					for g := range held[in] {
						own = own || g.Pkg == fn.Pkg || fn.Pkg == nil
					}
					if !own {
						r.Add(in.Pos(), "published codec changed", fnName(fn), nil, "a field of a codec is assigned without the registry lock although the codec may be in use by other goroutines")
					} else {
						r.OK(in.Pos(), "codec field assigned under the registry lock")
					}
				}
			}
		}
	}
	r.Floor("assignments of codec fields", n, 20)
	// path by path
	var roots []*ssa.Function
	for fn := range m.touch {
		roots = append(roots, fn)
	}
	sort.Slice(roots, func(i, j int) bool { return roots[i].Pos() < roots[j].Pos() })
	nr := 0
	for _, fn := range roots {
		if f := os.Getenv("VERIF_ROOT"); f != "" && !strings.Contains(fnName(fn), f) {
			continue
		}
		if len(m.ctxs[fn]) == 0 && len(P.callers[fn]) == 0 {
			continue
		}
		for _, c := range m.ext[fn] {
			nr++
			m.paths(fn, c, r)
		}
	}
	r.Floor("functions that touch tables, per lock context", nr, 4)
}

func (m *regM) reachesFill(fn *ssa.Function, pkg string) bool {
	if m.P.relPkg(fn) != pkg {
		return false
	}
	if m.fill[fn] {
		return true
	}
	for f := range m.reachSet(fn) {
		if m.fill[f] && m.P.relPkg(f) == pkg {
			return true
		}
	}
	return false
}

func typUnder(t types.Type) types.Type { return under(t) }

func (m *regM) paths(fn *ssa.Function, ctx []*ssa.Global, r *Report) {
	P := m.P
	relMemo := map[*ssa.Function]int{}
	relevant := func(f *ssa.Function) bool {
		if v := relMemo[f]; v != 0 {
			return v == 1
		}
		v := 2
		if P.relPkg(f) != P.relPkg(fn) {
		} else if m.touch[f] && !m.fill[f] {
			v = 1
		} else if !m.fill[f] && P.inModule(f) {
			// reaches a registry function other than through a filling function, and is not part of the recursion
			seen := map[*ssa.Function]bool{}
			var walk func(g *ssa.Function) bool
			walk = func(g *ssa.Function) bool {
				if seen[g] || m.fill[g] {
					return false
				}
				seen[g] = true
				for _, b := range g.Blocks {
					for _, in := range b.Instrs {
						if lg, _ := lockOp(in); lg != nil {
							return true
						}
						if c, ok := in.(ssa.CallInstruction); ok {
							if h := c.Common().StaticCallee(); h != nil && P.inModule(h) && P.relPkg(h) == P.relPkg(fn) {
								if m.touch[h] || walk(h) {
									return true
								}
							}
						}
					}
				}
				return false
			}
			if walk(f) && !m.reachSet(f)[f] {
				v = 1
			}
		}
		relMemo[f] = v
		return v == 1
	}
	tableOf := func(a *Term) *ssa.Global {
		if a == nil || a.Op != TGlobal {
			return nil
		}
		for g := range m.tables {
			if m.gterm(g) == a {
				return g
			}
		}
		return nil
	}
	codecOf := func(a *Term) (*Term, bool) {
		hit := false
		for a != nil && (a.Op == TField || a.Op == TIndex) {
			if a.Op == TField && m.codecs[fieldOwner[a]] {
				hit = true
			}
			a = a.Args[0]
		}
		return a, hit
	}
	isCodecPtr := func(t *Term) bool {
		if t == nil || t.Typ == nil {
			return false
		}
		p, ok := typUnder(t.Typ).(*types.Pointer)
		return ok && m.codecs[types.TypeString(p.Elem(), nil)]
	}
	keys := map[*Term]*Term{} // key of an iteration -> map it came from
	more := map[*Term]*Term{} // condition of an iteration -> map
	into := map[ssa.Instruction]bool{}
	wants := map[ssa.Instruction]token.Pos{}
	var inherited *Term
	under := func(st *State, g *ssa.Global) bool {
		gt := m.gterm(m.guard[g])
		for _, l := range st.held {
			if addrRoot(l.Addr) == gt {
				return true
			}
		}
		return false
	}
	mon := &Monitor{Name: "M05", NoLockCk: true, Unroll: -1}
	mon.Relevant = relevant
	mon.Keep = func(x *Exec, st *State, addr *Term, ci *CallInfo) bool {
		g := tableOf(addr)
		return g != nil && (ci != nil || under(st, g))
	}
	mon.Volatile = func(x *Exec, st *State, addr *Term) bool {
		g := tableOf(addr)
		return g != nil && !under(st, g)
	}
	mon.Loaded = func(x *Exec, st *State, fr *Frame, in ssaInstr, addr, val *Term) {
		g := tableOf(addr)
		if g == nil || in == nil {
			return
		}
		if m.visible[g] {
			if under(st, g) {
				st.setG("current", val, "1")
			}
			r.OK(in.Pos(), g.Name()+" read")
			return
		}
		if !under(st, g) {
			r.Add(in.Pos(), "table used without the lock", fnName(fr.fn), st, "%s is read without the registry lock", g.Name())
		} else {
			r.OK(in.Pos(), g.Name()+" read under the lock")
		}
	}
	priv := func(st *State, mp *Term) bool { return mp.Op == TAlloc && st.g("visible", mp) == "" }
	mon.Store = func(x *Exec, st *State, fr *Frame, in ssaInstr, addr, old, val *Term) {
		if in == nil {
			return
		}
		g := tableOf(addr)
		if g == nil {
			if base, ok := codecOf(addr); ok && !(base != nil && base.Op == TAlloc && st.g("published", nil) == "") {
				if st.g("published", nil) != "" {
					r.Add(in.Pos(), "published codec changed", fnName(fr.fn), st, "a codec is changed after the table was published")
				}
			}
			return
		}
		if !under(st, g) {
			r.Add(in.Pos(), "table used without the lock", fnName(fr.fn), st, "%s is assigned without the registry lock", g.Name())
			return
		}
		if !m.visible[g] {
			r.OK(in.Pos(), g.Name()+" assigned under the lock")
			return
		}
		bad := false
		switch {
		case inherited != nil:
			r.Add(in.Pos(), "published too early", fnName(fr.fn), st, "%s is replaced while a codec is still being filled in", g.Name())
			bad = true
		case !priv(st, val):
			r.Add(in.Pos(), "not a private table", fnName(fr.fn), st, "%s becomes visible but was not made on this path", val)
			bad = true
		case st.g("exhausted", nil) == "" || val.Site == nil:
			r.Add(in.Pos(), "table not complete", fnName(fr.fn), st, "%s is replaced by a table into which not every entry of the table visible under the lock has been copied", g.Name())
			bad = true
		default:
			wants[val.Site] = in.Pos()
		}
		st.eachG("unfilled", func(t *Term, v string) {
			r.Add(in.Pos(), "published too early", fnName(fr.fn), st, "the table is published while codec %s in it has not been filled in", t)
			bad = true
		})
		if !bad {
			r.OK(in.Pos(), g.Name()+" replaced by a complete private copy under the lock")
		}
		st.setG("visible", val, "1")
		st.setG("published", nil, "1")
	}
	mon.Map = func(x *Exec, st *State, fr *Frame, in ssaInstr, op string, mp, k, v *Term) {
		var mt types.Type
		switch in := in.(type) {
		case *ssa.MapUpdate:
			mt = in.Map.Type()
		case *ssa.Next:
			if rg, ok := in.Iter.(*ssa.Range); ok {
				mt = rg.X.Type()
			}
		case *ssa.Call:
			if len(in.Call.Args) > 0 {
				mt = in.Call.Args[0].Type()
			}
		}
		if mt == nil || !m.isMap(mt) {
			return
		}
		switch op {
		case "range":
			keys[k] = mp
			more[v] = mp
			if st.g("pending", nil) != "" {
				st.setG("hole", nil, "1")
			}
			st.setG("pending", nil, "")
			if st.g("current", mp) == "" {
				st.setG("stale", nil, "1")
			} else {
				st.setG("stale", nil, "")
			}
		case "update", "delete":
			if !priv(st, mp) {
				r.Add(in.Pos(), "visible table changed", fnName(fr.fn), st, "%s of %s, which other goroutines may be reading", op, mp)
				return
			}
			r.OK(in.Pos(), op+" of a private table")
			if op == "delete" {
				st.setG("hole", nil, "1")
				return
			}
			if src := keys[k]; src != nil {
				if v != nil && v.Op != TAlloc {
					st.setG("pending", nil, "")
					if mp.Site != nil {
						into[mp.Site] = true
					}
				}
				return
			}
			if v.isNil() {
				r.Add(in.Pos(), "table not complete", fnName(fr.fn), st, "a nil codec is put into a table")
			}
			if v.Op == TAlloc && st.g("filled", v) == "" {
				st.setG("unfilled", v, "1")
			}
		}
	}
	mon.Branch = func(x *Exec, st *State, fr *Frame, in ssaInstr, cond *Term, taken bool) {
		t := cond
		for t.Op == TNot {
			t, taken = t.Args[0], !taken
		}
		if more[t] == nil {
			return
		}
		if taken {
			st.setG("pending", nil, "1")
			return
		}
		// exhausted
		if st.g("hole", nil) == "" && st.g("stale", nil) == "" {
			st.setG("exhausted", nil, "1")
		}
		st.setG("hole", nil, "")
		st.setG("pending", nil, "")
	}
	filler := func(x *Exec, st *State, fr *Frame, ci *CallInfo) {
		if ci.Fn == nil || !m.reachesFill(ci.Fn, P.relPkg(fn)) {
			return
		}
		if st.g("published", nil) != "" {
			r.Add(ci.Instr.Pos(), "published too early", fnName(fr.fn), st, "%s fills in codecs after the table was published", fnName(ci.Fn))
		}
		for _, a := range ci.Args {
			if isCodecPtr(a) || a.Op == TAlloc && m.codecs[types.TypeString(a.Typ, nil)] {
				st.setG("unfilled", a, "")
				st.setG("filled", a, "1")
			}
		}
	}
	mon.Call = func(x *Exec, st *State, fr *Frame, ci *CallInfo) ([]Outcome, bool) {
		if ci.Fn != nil && ci.Go && m.reachesFill(ci.Fn, P.relPkg(fn)) {
			r.Add(ci.Instr.Pos(), "published too early", fnName(fr.fn), st, "%s fills in codecs in another goroutine", fnName(ci.Fn))
		}
		if ci.Fn != nil && !relevant(ci.Fn) {
			filler(x, st, fr, ci)
		}
		return nil, false
	}
	mon.Go = func(x *Exec, st *State, fr *Frame, ci *CallInfo) {
		if ci.Fn != nil && m.reachesFill(ci.Fn, P.relPkg(fn)) {
			r.Add(ci.Instr.Pos(), "published too early", fnName(fr.fn), st, "%s fills in codecs in another goroutine", fnName(ci.Fn))
		}
	}
	mon.End = func(x *Exec, o *Outcome) {
		if o.kind == OutPanic {
			return
		}
		o.st.eachG("unfilled", func(t *Term, v string) {
			r.Add(fn.Pos(), "codec never filled in", fnName(fn), o.st, "%s returns with codec %s in a table but not filled in", fnName(fn), t)
		})
	}
	x := newExec(P, r, mon)
	x.RunRoot(fn, func(st *State, args []*Term) {
		inherited = nil
		keys, more = map[*Term]*Term{}, map[*Term]*Term{}
		for _, g := range ctx {
			if g.Pkg != fn.Pkg {
				continue
			}
			st.held = append(st.held, Lock{m.gterm(g), false, fn.Pos()})
		}
		for g := range m.tables {
			if under(st, g) && !m.visible[g] {
				inherited = tTrue
				a := mk(TAlloc, typUnder(g.Type().(*types.Pointer).Elem()), "private", 0)
				st.mem[m.gterm(g)] = a
			}
		}
	})
	for s, pos := range wants {
		if !into[s] {
			r.Add(pos, "table not complete", fnName(fn), nil, "the table made at %s becomes visible but the entries of the visible table are not copied into it", P.pos(s.Pos()))
		}
	}
}

func (m *regM) gterm(g *ssa.Global) *Term { return globalTerm(g) }
