package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C01 and C02: what a client connection sends, and whom an answer reaches.

func init() {
	register(&checkDef{id: "C01", run: func(P *Program, r *Report) { checkClient(P, r, "C01") },
		rule:  "typestate of places and responses of a client connection, path by path: a request is answered with the code and body of a response that was read, exactly once per response, and only if it was found in the place that is computed from the id of the response in the same way as when a place is taken, in the registered row, and the place is known to carry this very id; the place is released then, in the same step; a response is not passed on only where its id is known to be reserved, not registered, or not the one in its place; the numbers of places taken and released, and the number of released places of a row, change by one with each and only then, and a row is unregistered only when all its ids were released",
		assum: []string{"a place that carries an id is changed only by the goroutine that reads responses, and a free one only by the one that writes requests"}})
	register(&checkDef{id: "C02", run: func(P *Program, r *Report) { checkClient(P, r, "C02") },
		rule:  "typestate of places of a client connection, path by path: a place is taken only when it is known to be free, for an id that is known to be neither zero nor that of pings, in a row that is registered for the id and does not replace a registered one, at the index computed from the id; a request is attached only to a place that was taken and not used; a frame is written only with the id of the place its request was attached to before, with the type and body of that request, once; a place is given back unused only if it was not attached",
		assum: []string{"a row is unregistered only when all its ids are free (C01)", "a place that carries an id is changed only by the goroutine that reads responses, and a free one only by the one that writes requests"}})
}

type cliM struct {
	P                                *Program
	conn, holder, row, slot          types.Type
	ireq, resp, req                  types.Type
	hk, rk, sk, qk                   string
	reqs, idF, arr, freed            int
	n                                int64
	rId, rCode, rBody, rMsg          int
	fId, fMsg, fBody                 int
	ping                             int64
	pingMsg                          int64
	setInFly, respond, respondB, fin *ssa.Function
	methods                          []*ssa.Function // of the holder, called from outside of it
}

func newCliM(P *Program, r *Report) *cliM {
	const pk = "net/client/connection"
	m := &cliM{P: P, reqs: -1, idF: -1, arr: -1, freed: -1}
	bm := P.Type("", "Bookmark")
	m.conn, m.ireq = P.Type(pk, "Connection"), P.Type("", "Request")
	m.resp, m.req = P.Type("net", "Response"), P.Type("net", "Request")
	sp := P.Pkgs[pk]
	if bm == nil || m.conn == nil || m.ireq == nil || m.resp == nil || m.req == nil || sp == nil {
		r.Add(0, "undecided", "", nil, "the types of the client connection were not found")
		return nil
	}
	var structs []types.Type
	var names []string
	for n := range sp.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if t, ok := sp.Members[n].(*ssa.Type); ok {
			if _, ok := under(t.Type()).(*types.Struct); ok {
				structs = append(structs, t.Type())
			}
		}
	}
	each := func(t types.Type, f func(i int, v *types.Var)) {
		s := under(t).(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			f(i, s.Field(i))
		}
	}
	for _, t := range structs {
		emb, id := false, -1
		each(t, func(i int, v *types.Var) {
			if v.Embedded() && types.Identical(v.Type(), bm) {
				emb = true
			} else if isIntType(v.Type()) {
				id = i
			}
		})
		if emb && id >= 0 {
			m.slot, m.idF = t, id
		}
	}
	for _, t := range structs {
		if m.slot == nil {
			break
		}
		each(t, func(i int, v *types.Var) {
			if a, ok := under(v.Type()).(*types.Array); ok && types.Identical(a.Elem(), m.slot) {
				m.row, m.arr, m.n = t, i, a.Len()
			}
		})
		if types.Identical(t, m.row) {
			each(t, func(i int, v *types.Var) {
				if isIntType(v.Type()) {
					m.freed = i
				}
			})
		}
	}
	for _, t := range structs {
		if m.row == nil {
			break
		}
		each(t, func(i int, v *types.Var) {
			if a, ok := under(v.Type()).(*types.Map); ok {
				if p, ok := a.Elem().(*types.Pointer); ok && types.Identical(p.Elem(), m.row) {
					m.holder, m.reqs = t, i
				}
			}
		})
	}
	if m.holder == nil {
		r.Add(0, "undecided", "", nil, "the table of outstanding requests of a client connection was not recognised")
		return nil
	}
	m.hk, m.rk, m.sk, m.qk = types.TypeString(m.holder, nil), types.TypeString(m.row, nil), types.TypeString(m.slot, nil), types.TypeString(m.ireq, nil)
	m.rId, m.rMsg, m.rBody, m.rCode = structField(m.resp, "Id"), structField(m.resp, "Msg"), structField(m.resp, "Body"), structField(m.resp, "Code")
	m.fId, m.fMsg, m.fBody = structField(m.req, "Id"), structField(m.req, "Msg"), structField(m.req, "Body")
	var ok1, ok2 bool
	m.ping, ok1 = P.Const("", "PingRequestId")
	m.pingMsg, ok2 = P.Const("", "Ping")
	m.setInFly, m.respond, m.respondB, m.fin = P.Method("", "Request", "SetInFly"), P.Method("", "Request", "Respond"), P.Method("", "Request", "RespondBytes"), P.Method("", "Request", "RespondFail")
	if !ok1 || !ok2 || m.setInFly == nil || m.respondB == nil || m.fin == nil || m.rId < 0 || m.rCode < 0 || m.rBody < 0 || m.fId < 0 || m.fMsg < 0 || m.fBody < 0 {
		r.Add(0, "undecided", "", nil, "the fields of frames, constants or methods of requests were not recognised")
		return nil
	}
	seen := map[*ssa.Function]bool{}
	for _, fn := range P.Funcs {
		if isMethodOf(fn, m.holder) && fn.Parent() == nil {
			continue
		}
		top := fn
		for top.Parent() != nil {
			top = top.Parent()
		}
		if isMethodOf(top, m.holder) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if f := c.Common().StaticCallee(); f != nil && isMethodOf(f, m.holder) && !seen[f] && f.Synthetic == "" {
						seen[f] = true
						m.methods = append(m.methods, f)
					}
				}
			}
		}
	}
	return m
}

// slotOf: the place that a cell is part of.
func (m *cliM) slotOf(addr *Term) *Term {
	for a := addr; a != nil && a.Op == TField; a = a.Args[0] {
		if fieldOwner[a] == m.sk {
			return a.Args[0]
		}
	}
	return nil
}

// idCell: the place whose id the cell holds.
func (m *cliM) idCell(addr *Term) *Term {
	if addr != nil && addr.Op == TField && addr.N == m.idF && fieldOwner[addr] == m.sk {
		return addr.Args[0]
	}
	return nil
}

func (m *cliM) hfld(addr *Term, i int) *Term {
	if addr != nil && addr.Op == TField && (i < 0 || addr.N == i) && fieldOwner[addr] == m.hk {
		return addr.Args[0]
	}
	return nil
}

func (m *cliM) rowsOf(mp *Term) *Term {
	if mp != nil && mp.Org != nil {
		return m.hfld(mp.Org, m.reqs)
	}
	return nil
}

// rowOf: row and index of a place.
func (m *cliM) rowOf(slot *Term) (row, idx *Term) {
	if slot.Op == TIndex && slot.Args[0].Op == TField && slot.Args[0].N == m.arr && fieldOwner[slot.Args[0]] == m.rk {
		return slot.Args[0].Args[0], slot.Args[1]
	}
	return nil, nil
}

// form: how a number is computed from an id.
func form(t, id *Term) string {
	if t == id {
		return "id"
	}
	if n, ok := t.isInt(); ok {
		return fmt.Sprint(n)
	}
	switch t.Op {
	case TConv:
		return form(t.Args[0], id)
	case TBin:
		op, b := t.Aux, form(t.Args[1], id)
		if n, ok := t.Args[1].isInt(); ok && n > 0 && n&(n-1) == 0 {
			k := 0
			for 1<<uint(k) < n {
				k++
			}
			switch op {
			case "/":
				op, b = ">>", fmt.Sprint(k)
			case "%":
				op, b = "&", fmt.Sprint(n-1)
			}
		}
		return "(" + form(t.Args[0], id) + op + b + ")"
	}
	return "?" + fmt.Sprint(t.ID)
}

func usesId(t, id *Term) bool {
	r := false
	t.walk(func(y *Term) bool { r = r || y == id; return !r })
	return r
}

var cliRule = map[string]string{
	"answer for another": "C01", "answered twice": "C01", "response ignored": "C01", "answer changed": "C01", "not released": "C01", "accounting": "C01", "unregistered early": "C01", "unknown id": "C01",
	"place taken": "C02", "reserved id": "C02", "not registered": "C02", "row replaced": "C02", "id not attached": "C02", "wrong frame": "C02", "sent twice": "C02", "given back": "C02", "place reused": "C02",
	"place lost": "C03", "released wrongly": "C01", "place computed differently": "C01", "cached row": "C01",
}

func checkClient(P *Program, r *Report, prop string) {
	m := newCliM(P, r)
	if m == nil {
		return
	}
	bad := func(pos token.Pos, rule string, fr *Frame, st *State, f string, args ...interface{}) {
		if p := cliRule[rule]; p != prop {
			return
		}
		fn := ""
		if fr != nil {
			fn = fnName(fr.fn)
		}
		r.Add(pos, rule, fn, st, f, args...)
	}
	ok := func(p string, pos token.Pos, what string) {
		if p == prop {
			r.OK(pos, what)
		}
	}
	sites := map[string]int{}
	keyForms, idxForms := map[string]token.Pos{}, map[string]token.Pos{}
	// a field that caches a row, and the field that says which
	pairs := map[int]map[int]bool{}
	type rec struct {
		pos    token.Pos
		fn     string
		st     *State
		stored map[int]bool
		okFor  map[int]map[int]bool // row field -> number fields that name the row
		init   bool
	}
	var recs []rec
	var cnts []cntRec
	hs := under(m.holder).(*types.Struct)
	isRowF := func(i int) bool {
		p, ok := hs.Field(i).Type().(*types.Pointer)
		return ok && types.Identical(p.Elem(), m.row)
	}
	keys := func(k, id *Term) string {
		if k == nil || !usesId(k, id) {
			return ""
		}
		if f := form(k, id); f != "id" && !strings.Contains(f, "?") {
			return f
		}
		return ""
	}
	// rowKey: the number, computed from the id, under which a row is known to be registered
	rowKey := func(st *State, row, id *Term) string {
		if k := st.vals[gk("rowkey", row)]; k != nil {
			if f := keys(k, id); f != "" {
				return f
			}
		}
		if o := row.Org; o != nil && o.Op == TMapEl && m.rowsOf(o.Args[0]) != nil {
			if f := keys(o.Args[1], id); f != "" {
				return f
			}
		}
		if o := row.Org; o != nil && m.hfld(o, -1) != nil {
			// a cached row: some number field is known to be computed from the id
			h := m.hfld(o, -1)
			for g := 0; g < hs.NumFields(); g++ {
				if !isIntType(hs.Field(g).Type()) {
					continue
				}
				v := st.mem[fieldAddr(h, m.holder, g)]
				if v == nil {
					continue
				}
				found := keys(v, id)
				if found == "" {
					st.eachFact(func(f *Term) bool {
						// v == key
						f.walk(func(y *Term) bool {
							if y.Op == TBin && y != v && found == "" {
								if k := keys(y, id); k != "" && st.eval(eqTerm(v, y)) == 1 {
									found = k
								}
							}
							return found == ""
						})
						return found == ""
					})
				}
				if found != "" {
					if pairs[o.N] == nil {
						pairs[o.N] = map[int]bool{}
					}
					pairs[o.N][g] = true
					return found
				}
			}
		}
		return ""
	}
	// where is the row of a place registered?
	located := func(x *Exec, st *State, slot, id *Term) (key, index, why string) {
		row, idx := m.rowOf(slot)
		if row == nil {
			return "", "", "in no row"
		}
		fi := form(idx, id)
		if strings.Contains(fi, "?") || !usesId(idx, id) {
			return "", "", "at an index that is not computed from the id"
		}
		if k := rowKey(st, row, id); k != "" {
			return k, fi, ""
		}
		return "", fi, "in a row that is not known to be registered for the id"
	}
	learn := func(pos token.Pos, k, i string) {
		if _, has := keyForms[k]; !has && k != "" {
			keyForms[k] = pos
		}
		if _, has := idxForms[i]; !has && i != "" {
			idxForms[i] = pos
		}
	}
	mon := &Monitor{Name: "client", Unroll: -1, NoLockCk: true, JoinAt: 200, JoinBlk: 200}
	const pk = "net/client/connection"
	mon.Relevant = func(fn *ssa.Function) bool { return P.relPkg(fn) == pk }
	isSlotPtr := func(t types.Type) bool {
		p, ok := t.(*types.Pointer)
		return ok && types.Identical(p.Elem(), m.slot)
	}
	mon.Keep = func(x *Exec, st *State, addr *Term, ci *CallInfo) bool {
		if m.idCell(addr) != nil || addr.Op == TField && fieldOwner[addr] == m.rk || m.hfld(addr, -1) != nil && isRowOrNum(hs.Field(addr.N).Type()) {
			return true
		}
		if addr.Op == TAlloc && isSlotPtr(cellType(addr)) {
			return true
		}
		o := fieldOwner[addr]
		return addr.Op == TField && o == m.qk && (addr.Aux == "Msg" || addr.Aux == "Body" || addr.Aux == "Id")
	}
	// a place that is kept from one round of a loop to the next is unused, as is
	// checked where the loop goes round
	kept := func(x *Exec, fr *Frame, st *State, s *Term) bool {
		for f := fr; f != nil; f = f.parent {
			for v, t := range f.env {
				if p, isPhi := v.(*ssa.Phi); isPhi && t == s && s.Op == TSym && isSlotPtr(p.Type()) && x.loopInfo(f.fn).body[p.Block()] != nil {
					return true
				}
			}
		}
		return false
	}
	taken := func(x *Exec, fr *Frame, st *State, s *Term) {
		if st.g("slot", s) == "" && kept(x, fr, st, s) {
			st.setG("slot", s, "taken")
		}
	}
	respOf := func(st *State, id *Term) *Term { return st.vals[gk("resp", id)] }
	pending := func(st *State) (id *Term) {
		st.eachG("resp", func(t *Term, v string) {
			if v == "-" {
				id = t
			}
		})
		return
	}
	// is the id of the place that of the response?
	matchId := func(st *State, slot *Term, v *Term) (id *Term) {
		st.eachG("resp", func(t *Term, w string) {
			if v == t || st.eval(eqTerm(v, t)) == 1 {
				id = t
			}
		})
		if id == nil && st.vals["argid"] != nil && (v == st.vals["argid"] || st.eval(eqTerm(v, st.vals["argid"])) == 1) {
			id = st.vals["argid"]
		}
		return
	}
	mon.Init = func(x *Exec, st *State, args []*Term) {
		for i, p := range x.root.Params {
			if isIntType(p.Type()) && i < len(args) {
				st.vals["argid"] = args[i]
			}
		}
	}
	ignored := func(x *Exec, st *State) {
		st.eachG("resp", func(id *Term, w string) {
			if w != "-" {
				return
			}
			if st.eval(eqTerm(id, num(m.ping))) == 1 || st.eval(eqTerm(id, num(0))) == 1 {
				st.setG("resp", id, "i")
				return
			}
			st.symsOf(func(o *Term) bool {
				return o.Op == TMapEl && o.Aux == "has" && m.rowsOf(o.Args[0]) != nil && usesId(o.Args[1], id)
			}, func(v *Term) {
				if f := form(v.Org.Args[1], id); st.eval(v) == 0 && !strings.Contains(f, "?") {
					learn(token.NoPos, f, "")
					st.setG("resp", id, "i")
				}
			})
			st.symsOf(func(o *Term) bool {
				return o.Op == TMapEl && m.rowsOf(o.Args[0]) != nil || m.hfld(o, -1) != nil && isRowF(o.N)
			}, func(row *Term) {
				if row.Org.Aux != "has" && st.isNilFact(row) == 1 {
					if k := rowKey(st, row, id); k != "" {
						learn(token.NoPos, k, "")
						st.setG("resp", id, "i")
					}
				}
			})
			st.symsOf(func(o *Term) bool { return m.idCell(o) != nil }, func(v *Term) {
				if st.eval(eqTerm(v, id)) == 0 {
					slot := m.idCell(v.Org)
					if k, i, why := located(x, st, slot, id); why == "" {
						learn(token.NoPos, k, i)
						st.setG("resp", id, "i")
					}
				}
			})
		})
	}
	mon.Branch = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, cond *Term, taken bool) {
		ignored(x, st)
		st.eachG("freed", func(row *Term, w string) {
			if f := st.vals[gk("freedval", row)]; f != nil {
				if st.eval(eqTerm(f, num(m.n))) == 1 {
					st.setG("full", row, "N")
				} else if st.eval(eqTerm(f, num(m.n-1))) == 1 {
					st.setG("full", row, "N1")
				}
			}
		})
		cond.walk(func(y *Term) bool {
			if y.Op == TBin && (st.eval(eqTerm(y, num(0))) == 1 || st.eval(eqTerm(y, num(m.ping>>uint(m.lg())))) == 1) {
				st.setG("border", y, "1")
			}
			return true
		})
		// no request in the place
		st.eachG("got", func(q *Term, v string) {
			if st.isNilFact(q) == 1 {
				if s := st.vals[gk("from", q)]; s != nil {
					if id := st.vals[gk("mid", s)]; id != nil && st.g("resp", id) == "-" {
						st.setG("resp", id, "i")
					}
				}
			}
		})
	}
	mon.Map = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, op string, mp, k, v *Term) {
		h := m.rowsOf(mp)
		if h == nil && op != "update" {
			return
		}
		if mt, isM := under(mp.Typ).(*types.Map); !isM || !isRowPtr(mt.Elem(), m.row) {
			return
		}
		switch op {
		case "lookup":
			sites["row lookups"]++
			st.vals["lookk"], st.vals["lookm"] = k, mp
		case "update":
			sites["rows registered"]++
			_, ha := mapCells(mp, k, types.NewPointer(m.row))
			if h != nil && (st.mem[ha] == nil || st.eval(st.mem[ha]) != 0) && !st.private(mp.Org) && st.g("newmap", mp) == "" {
				bad(in.Pos(), "row replaced", fr, st, "a row is registered although another may be registered under its number: its ids are given out twice, and their answers are lost")
			} else {
				ok("C02", in.Pos(), "row registered under a free number")
			}
			if v.isNil() || v.Op != TAlloc && st.isNilFact(v) != 0 {
				bad(in.Pos(), "unknown id", fr, st, "a row is registered that may be nil")
			}
			st.vals[gk("rowkey", v)] = k
			st.setG("need", nil, "")
			st.eachG("need", func(s *Term, w string) {
				if row, _ := m.rowOf(s); row == v {
					st.setG("need", s, "")
				}
			})
		case "delete":
			sites["rows unregistered"]++
			done := false
			st.eachG("freed", func(row *Term, w string) {
				switch st.g("full", row) {
				case "N":
					done = true
				case "N1":
					done = done || st.g("border", k) != ""
				}
			})
			var ids []*Term
			st.eachG("resp", func(t *Term, w string) { ids = append(ids, t) })
			if a := st.vals["argid"]; a != nil {
				ids = append(ids, a)
			}
			known := false
			for _, id := range ids {
				if f := form(k, id); usesId(k, id) && !strings.Contains(f, "?") {
					learn(in.Pos(), f, "")
					known = true
				}
			}
			done = done && known
			if !done {
				bad(in.Pos(), "unregistered early", fr, st, "a row is unregistered although some of its ids may be outstanding")
			} else {
				ok("C01", in.Pos(), "row unregistered when it is used up")
			}
		}
	}
	mon.Loaded = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, addr, val *Term) {
		if s := m.slotOf(addr); s != nil {
			if row, _ := m.rowOf(s); row != nil && row.isNil() {
				bad(in.Pos(), "unknown id", fr, st, "a place is looked up in a row that is not registered")
			}
		}
		if isSlotPtr(val.Typ) && addr.Op == TAlloc && val.Op == TSym && st.g("slot", val) == "" {
			st.setG("slot", val, "taken")
		}
		if p, isP := val.Typ.(*types.Pointer); isP && types.Identical(p.Elem(), m.ireq) {
			if s := m.slotOf(addr); s != nil && val.Op == TSym {
				st.vals[gk("from", val)] = s
				st.setG("got", val, "1")
			}
		}
	}
	mon.Store = func(x *Exec, st *State, fr *Frame, in ssa.Instruction, addr, old, val *Term) {
		if in == nil {
			return
		}
		pos := in.Pos()
		if s := m.idCell(addr); s != nil && !st.private(s) {
			cur := before(st, addr, old)
			taken(x, fr, st, s)
			if st.eval(eqTerm(val, num(0))) == 1 {
				sites["places released"]++
				if id := matchId(st, s, cur); id != nil && (st.g("slot", s) == "" || isMethodOf(x.root, m.holder)) && st.g("matched", s) == "" && !isArgSlot(x, s) {
					k, i, why := located(x, st, s, id)
					switch {
					case why != "":
						bad(pos, "answer for another", fr, st, "a place is released %s", why)
					default:
						learn(pos, k, i)
						ok("C01", pos, "place released that carries the id")
					}
					if st.eval(eqTerm(id, num(0))) != 0 {
						bad(pos, "released wrongly", fr, st, "the response may have the id of a free place: one that is not in use is released")
					}
					st.setG("matched", s, "1")
					st.vals[gk("mid", s)] = id
					if isMethodOf(x.root, m.holder) {
						st.setG("rel", nil, st.g("rel", nil)+"+")
					}
					return
				}
				switch g := st.g("slot", s); {
				case isArgSlot(x, s):
					st.setG("rel0", nil, st.g("rel0", nil)+"+")
				case g == "taken":
					ok("C02", pos, "unused place given back")
					st.setG("slot", s, "back")
				case g == "attached" || g == "sent":
					bad(pos, "given back", fr, st, "a place is given back although a request was attached to it")
				default:
					bad(pos, "released wrongly", fr, st, "a place is released although it is not known to carry the id of the response")
				}
				return
			}
			sites["places taken"]++
			if st.eval(eqTerm(cur, num(0))) != 1 {
				bad(pos, "place taken", fr, st, "a place is taken that is not known to be free: its id is outstanding twice")
			} else {
				ok("C02", pos, "free place taken")
			}
			if st.eval(eqTerm(val, num(0))) != 0 || st.eval(eqTerm(val, num(m.ping))) != 0 {
				bad(pos, "reserved id", fr, st, "a place is taken for an id that may be zero or that of pings")
			} else {
				ok("C02", pos, "id not reserved")
			}
			k, i, why := located(x, st, s, val)
			if why != "" {
				if i == "" {
					bad(pos, "not registered", fr, st, "a place is taken %s", why)
				}
				st.setG("need", s, "1")
				st.vals[gk("needid", s)] = val
			} else {
				ok("C02", pos, "registered")
			}
			learn(pos, k, i)
			st.setG("slot", s, "taken")
			st.vals[gk("sid", s)] = val
			if isMethodOf(x.root, m.holder) {
				st.setG("claims", nil, st.g("claims", nil)+"+")
			}
			return
		}
		if h := m.hfld(addr, -1); h != nil && !st.private(h) && isMethodOf(x.root, m.holder) {
			ft := hs.Field(addr.N).Type()
			if isRowOrNum(ft) {
				st.setG(fmt.Sprint("hst", addr.N), nil, "1")
				st.vals["hst"] = h
			}
			if isIntType(ft) && intBits(ft) == 64 {
				cur := before(st, addr, old)
				d := "?"
				if n, isN := sub(val, cur).isInt(); isN && n == 1 {
					d = "+"
				} else if isN && n == -1 || isMinusOne(val, cur) {
					d = "-"
				} else if st.eval(eqTerm(val, num(0))) == 1 {
					d = ""
				}
				st.setG(fmt.Sprint("cnt", addr.N), nil, st.g(fmt.Sprint("cnt", addr.N), nil)+d)
			}
		}
		if addr.Op == TField && fieldOwner[addr] == m.rk && addr.N == m.freed && !st.private(addr) {
			cur := before(st, addr, old)
			d := "?"
			if n, isN := sub(val, cur).isInt(); isN && n == 1 || val.Op == TBin && val.Aux == "+" && (val.Args[0] == cur && val.Args[1] == num(1) || val.Args[1] == cur && val.Args[0] == num(1)) {
				d = "+"
			}
			st.setG("freed", addr.Args[0], st.g("freed", addr.Args[0])+d)
			st.vals[gk("freedval", addr.Args[0])] = val
		}
	}
	answer := func(x *Exec, st *State, fr *Frame, ci *CallInfo, q *Term) {
		pos := ci.Instr.Pos()
		s := st.vals[gk("from", q)]
		if s == nil {
			bad(pos, "answer for another", fr, st, "a request is answered that was not found among the outstanding ones")
			return
		}
		sites["answers"]++
		id := st.vals[gk("mid", s)]
		if id == nil || respOf(st, id) == nil {
			bad(pos, "answer for another", fr, st, "a request is answered although its place is not known to carry the id of the response")
			return
		}
		v := respOf(st, id)
		switch {
		case st.g("resp", id) == "a":
			bad(pos, "answered twice", fr, st, "a response is passed on twice")
		case len(ci.Args) < 3 || ci.Args[1] != v.Args[m.rCode] || ci.Args[2] != v.Args[m.rBody]:
			bad(pos, "answer changed", fr, st, "a request is not answered with the code and body of its response")
		default:
			ok("C01", pos, "answer to the request with the id")
		}
		st.setG("resp", id, "a")
	}
	mon.Call = func(x *Exec, st *State, fr *Frame, ci *CallInfo) ([]Outcome, bool) {
		pos := token.NoPos
		if ci.Instr != nil {
			pos = ci.Instr.Pos()
		}
		errT := types.Universe.Lookup("error").Type()
		switch {
		case ci.Go || ci.Fn == nil:
			return nil, false
		case isReadFrame(ci.Fn, m.resp):
			sites["responses read"]++
			s2 := st.clone()
			v := x.freshVal(st, "response", m.resp)
			st.setG("resp", v.Args[m.rId], "-")
			st.vals[gk("resp", v.Args[m.rId])] = v
			st.note(pos, "a response is read")
			e := fresh("err", errT)
			s2.assume(not(mkEq(e, nilTerm)))
			return []Outcome{{st: st, vals: []*Term{v, nilTerm}}, {st: s2, vals: []*Term{zeroVal(m.resp), e}}}, true
		case ci.Fn == m.setInFly && len(ci.Args) == 2 && !ci.Args[1].isNil():
			q, s := ci.Args[0], stripIface(ci.Args[1])
			taken(x, fr, st, s)
			sites["requests attached"]++
			switch g := st.g("slot", s); {
			case g == "taken":
				if st.g("need", s) != "" {
					bad(pos, "not registered", fr, st, "a request is attached to a place whose row is not registered for its id")
				} else {
					ok("C02", pos, "attached to a place that was taken")
				}
			case g == "":
				bad(pos, "id not attached", fr, st, "a request is attached to a place that may not have been taken")
			default:
				bad(pos, "place reused", fr, st, "a request is attached to a place that is in use")
			}
			s2 := st.clone()
			st.setG("slot", s, "attached")
			st.vals[gk("att", s)] = q
			st.note(pos, "the request is taken")
			s2.note(pos, "the request is done already")
			return []Outcome{{st: st, vals: []*Term{tTrue}}, {st: s2, vals: []*Term{tFalse}}}, true
		case isWriteFrame(ci.Fn, m.req):
			sites["requests written"]++
			f := x.fieldsOf(ci.Args[1], m.req)
			var s *Term
			st.eachG("slot", func(t *Term, g string) {
				if f[m.fId] == st.vals[gk("sid", t)] || f[m.fId].Org != nil && m.idCell(f[m.fId].Org) == t || st.mem[fieldAddr(t, m.slot, m.idF)] == f[m.fId] {
					s = t
				}
			})
			if s == nil {
				bad(pos, "id not attached", fr, st, "a request is written with an id that was not taken for it")
			} else {
				q := st.vals[gk("att", s)]
				switch g := st.g("slot", s); {
				case g == "taken" || q == nil:
					bad(pos, "id not attached", fr, st, "a request is written before it is registered under its id: its answer may come too early")
				case g == "sent":
					bad(pos, "sent twice", fr, st, "a request is written twice")
				default:
					good := true
					for _, w := range []struct {
						i int
						n string
					}{{m.fMsg, "Msg"}, {m.fBody, "Body"}} {
						v := f[w.i]
						v = stripIface(v)
						if o := v.Org; o == nil || o.Op != TField || o.Aux != w.n || o.Args[0] != q {
							good = false
							bad(pos, "wrong frame", fr, st, "a request is written with the %s %s, which is not that of the request registered under its id", w.n, f[w.i])
						}
					}
					if good {
						ok("C02", pos, "written under the id of its place")
					}
				}
				st.setG("slot", s, "sent")
			}
			s2 := st.clone()
			e := fresh("err", errT)
			s2.assume(not(mkEq(e, nilTerm)))
			return []Outcome{{st: st, vals: []*Term{nilTerm}}, {st: s2, vals: []*Term{e}}}, true
		case (ci.Fn == m.respondB || ci.Fn == m.respond) && pending(st) != nil || ci.Fn == m.respondB:
			if len(ci.Args) > 0 {
				answer(x, st, fr, ci, ci.Args[0])
			}
		}
		return nil, false
	}
	finish := func(x *Exec, st *State, fr *Frame, pos token.Pos, loop *loopAct) {
		st.eachG("resp", func(id *Term, w string) {
			if loop != nil && id.Seq <= loop.seq {
				return
			}
			switch w {
			case "-":
				bad(pos, "response ignored", fr, st, "a response is not passed on although its id may be that of an outstanding request")
			case "i":
				ok("C01", pos, "response without request ignored")
			}
			st.setG("resp", id, "")
		})
		st.eachG("matched", func(s *Term, w string) {
			if loop != nil && born(s) > loop.seq || loop == nil {
				row, _ := m.rowOf(s)
				if row != nil && m.freed >= 0 && st.g("freed", row) != "+" {
					bad(pos, "accounting", fr, st, "the released places of a row are not counted: it is unregistered too early or never")
				}
			}
		})
	}
	// what a way through the table does to the cached rows
	cached := func(x *Exec, st *State, pos token.Pos) {
		rc := rec{pos: pos, fn: fnName(x.root), st: st, stored: map[int]bool{}, okFor: map[int]map[int]bool{}}
		h := st.vals["hst"]
		var clear []int
		for i := 0; i < hs.NumFields() && h != nil; i++ {
			if st.g(fmt.Sprint("hst", i), nil) == "" {
				continue
			}
			rc.stored[i] = true
			clear = append(clear, i)
			if !isRowF(i) {
				if i == m.reqs {
					rc.init = true
				}
				continue
			}
			row := st.mem[fieldAddr(h, m.holder, i)]
			rc.okFor[i] = map[int]bool{}
			if row == nil {
				continue
			}
			if row.isNil() {
				rc.okFor[i][-1] = true
			}
			k := st.vals[gk("rowkey", row)]
			if o := row.Org; k == nil && o != nil && o.Op == TMapEl && m.rowsOf(o.Args[0]) != nil {
				k = o.Args[1]
			}
			for g := 0; g < hs.NumFields() && k != nil; g++ {
				if v := st.mem[fieldAddr(h, m.holder, g)]; v != nil && isIntType(hs.Field(g).Type()) && st.eval(eqTerm(v, k)) == 1 {
					rc.okFor[i][g] = true
				} else if v == nil && k == num(0) && st.g(fmt.Sprint("hst", m.reqs), nil) != "" {
					rc.okFor[i][g] = true
				}
			}
		}
		if len(rc.stored) > 0 {
			recs = append(recs, rc)
		}
		for _, i := range clear {
			st.setG(fmt.Sprint("hst", i), nil, "")
		}
	}
	mon.BackEdge = func(x *Exec, st *State, fr *Frame, h *ssa.BasicBlock) {
		la := fr.loops[h]
		if la == nil {
			return
		}
		ignored(x, st)
		finish(x, st, fr, h.Instrs[0].Pos(), la)
		if isMethodOf(x.root, m.holder) {
			cached(x, st, h.Instrs[0].Pos())
		}
		// places kept for the next round are unused
		for a, v := range st.mem {
			if a.Op == TAlloc && v != nil && isSlotPtr(cellType(a)) && !v.isNil() && st.isNilFact(v) != 1 {
				if g := st.g("slot", v); g != "taken" && v.Org != a {
					bad(h.Instrs[0].Pos(), "place reused", fr, st, "a place that is %s is kept for the next request", word(g))
				}
			}
		}
		for _, p := range phisOf(h) {
			if !isSlotPtr(p.Type()) {
				continue
			}
			if v := la.next[p]; v != nil && !v.isNil() && st.isNilFact(v) != 1 && !(v == fr.env[p] && st.g("slot", v) == "") {
				if g := st.g("slot", v); g != "taken" || !la.init[p].isNil() {
					bad(h.Instrs[0].Pos(), "place reused", fr, st, "a place that is %s is kept for the next request", word(g))
				}
			}
		}
		for _, k := range []string{"matched", "freed", "full", "border", "got", "slot", "need"} {
			st.eachG(k, func(t *Term, v string) {
				if born(t) > la.seq {
					st.setG(k, t, "")
				}
			})
		}
	}
	// no place may be left taken without a request when the end is announced
	lost := func(x *Exec, st *State, fr *Frame, pos token.Pos) {
		if isMethodOf(x.root, m.holder) {
			return
		}
		left := false
		st.eachG("slot", func(s *Term, g string) { left = left || g == "taken" && st.isNilFact(s) != 1 })
		for a, v := range st.mem {
			if a.Op == TAlloc && v != nil && isSlotPtr(cellType(a)) && !v.isNil() && st.isNilFact(v) != 1 && st.g("slot", v) == "" {
				left = true
			}
		}
		for f := fr; f != nil; f = f.parent {
			for v, t := range f.env {
				if p, isPhi := v.(*ssa.Phi); isPhi && isSlotPtr(p.Type()) && x.loopInfo(f.fn).body[p.Block()] != nil && !t.isNil() && st.isNilFact(t) != 1 && st.g("slot", t) == "" {
					left = true
				}
			}
		}
		if left {
			bad(pos, "place lost", fr, st, "a place that was taken and is unused is not given back before the end: it counts as outstanding for ever")
		} else {
			ok("C03", pos, "no unused place is kept")
		}
	}
	mon.Chan = func(x *Exec, st *State, fr *Frame, ev *ChanEv) {
		if ev.Kind == "send" && ev.Elem != nil {
			if n := namedOf(ev.Elem); n != nil && isIntType(n) && n.Obj().Pkg() == namedOf(m.conn).Obj().Pkg() {
				lost(x, st, fr, ev.Instr.Pos())
			}
		}
	}
	mon.End = func(x *Exec, o *Outcome) {
		st := o.st
		if o.kind != OutReturn {
			return
		}
		fr := &Frame{fn: x.root}
		lost(x, st, fr, o.pos)
		ignored(x, st)
		finish(x, st, fr, o.pos, nil)
		st.eachG("need", func(s *Term, w string) {
			if _, _, why := located(x, st, s, st.vals[gk("needid", s)]); why != "" {
				bad(o.pos, "not registered", fr, st, "a place is taken %s", why)
			}
		})
		if !isMethodOf(x.root, m.holder) {
			return
		}
		// the counters
		ct := cntRec{pos: o.pos, fn: fnName(x.root), st: st, d: map[int]int{}}
		ct.want = len(st.g("claims", nil)) - len(st.g("rel", nil)) - len(st.g("rel0", nil))
		for i := 0; i < hs.NumFields(); i++ {
			c := st.g(fmt.Sprint("cnt", i), nil)
			ct.odd = ct.odd || strings.Contains(c, "?")
			if d := strings.Count(c, "+") - strings.Count(c, "-"); d != 0 {
				ct.d[i] = d
			}
		}
		cnts = append(cnts, ct)
		cached(x, st, o.pos)
	}
	roots := append([]*ssa.Function(nil), m.methods...)
	inM := map[*ssa.Function]bool{}
	for _, f := range roots {
		inM[f] = true
	}
	for _, f := range P.Roots(pk) {
		if !inM[f] && !isMethodOf(f, m.holder) {
			roots = append(roots, f)
		}
	}
	runRoots(P, r, mon, roots)
	for f, gs := range pairs {
		for _, rc := range recs {
			for g := range gs {
				sites["cached rows"]++
				if (rc.stored[f] || rc.stored[g]) && !(rc.okFor[f][g] || rc.okFor[f][-1] && rc.stored[f]) {
					bad(rc.pos, "cached row", &Frame{}, rc.st, "%s: %s and %s may not belong to each other: the wrong row is searched", rc.fn, hs.Field(f).Name(), hs.Field(g).Name())
				} else {
					ok("C01", rc.pos, "cached row and its number belong together")
				}
			}
		}
	}
	// the counters: some combination of them is the number of places in use
	var fields []int
	for i := 0; i < hs.NumFields(); i++ {
		if t := hs.Field(i).Type(); isIntType(t) && intBits(t) == 64 {
			fields = append(fields, i)
		}
	}
	best, bestBad := -1, []cntRec(nil)
	comb := 1
	for range fields {
		comb *= 3
	}
	for c := 0; c < comb && len(fields) <= 6; c++ {
		var wrong []cntRec
		for _, rc := range cnts {
			sum, y := 0, c
			for _, f := range fields {
				sum += (y%3 - 1) * rc.d[f]
				y /= 3
			}
			if sum != rc.want || rc.odd {
				wrong = append(wrong, rc)
			}
		}
		if best < 0 || len(wrong) < len(bestBad) {
			best, bestBad = c, wrong
		}
	}
	for _, rc := range bestBad {
		bad(rc.pos, "accounting", &Frame{}, rc.st, "%s: the counters do not change with the number of places in use (%+d)", rc.fn, rc.want)
	}
	for range cnts[:len(cnts)-len(bestBad)] {
		sites["ways through the table"]++
		ok("C01", 0, "counted")
	}
	if len(keyForms) > 1 || len(idxForms) > 1 {
		bad(0, "place computed differently", nil, nil, "the place of an id is not computed in the same way everywhere: rows %v, places %v", keysOf(keyForms), keysOf(idxForms))
	}
	for k, v := range sites {
		r.Counts["events: "+k] = v
	}
	if prop == "C03" {
		return
	}
	fl := []string{"rows registered", "places released", "places taken", "requests attached", "requests written"}
	if prop == "C01" {
		fl = []string{"responses read", "answers", "row lookups", "places released", "rows unregistered"}
	}
	for _, k := range fl {
		r.Floor(k, sites[k], 1)
	}
}

func keysOf(m map[string]token.Pos) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func word(g string) string {
	switch g {
	case "attached":
		return "attached to a request"
	case "sent":
		return "in use"
	case "back":
		return "given back"
	}
	return "unknown"
}

type cntRec struct {
	pos  token.Pos
	fn   string
	st   *State
	d    map[int]int
	want int
	odd  bool
}

func isRowOrNum(t types.Type) bool {
	_, p := t.(*types.Pointer)
	_, mp := t.Underlying().(*types.Map)
	return p || isIntType(t) || mp
}

func isRowPtr(t, row types.Type) bool {
	p, ok := t.(*types.Pointer)
	return ok && types.Identical(p.Elem(), row)
}

// isArgSlot: the place is a parameter of the root.
func isArgSlot(x *Exec, s *Term) bool {
	for _, a := range x.args {
		if a == s {
			return true
		}
	}
	return false
}

// isMinusOne: v is cur-1, written as adding the largest number.
func isMinusOne(v, cur *Term) bool {
	return strings.Contains(sub(v, cur).String(), "18446744073709551615") && len(sub(v, cur).String()) < 24
}

// lg: the logarithm of the number of places in a row.
func (m *cliM) lg() (n int) {
	for int64(1)<<uint(n) < m.n {
		n++
	}
	return
}

// fieldsOf: the fields of a struct value.
func (x *Exec) fieldsOf(v *Term, t types.Type) []*Term {
	s := under(t).(*types.Struct)
	var f []*Term
	for i := 0; i < s.NumFields(); i++ {
		f = append(f, x.fieldOf(v, i, s.Field(i).Type(), s.Field(i).Name()))
	}
	return f
}

// born: when the youngest part of a term was made.
func born(t *Term) int {
	n := 0
	t.walk(func(y *Term) bool {
		if y.Seq > n {
			n = y.Seq
		}
		return true
	})
	return n
}

// before: what a cell held before it was stored to.
func before(st *State, addr, old *Term) *Term {
	if v := st.mem[addr]; v != nil {
		return v
	}
	if old != nil {
		return old
	}
	return fresh("before", cellType(addr))
}
