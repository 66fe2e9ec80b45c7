package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type factNode struct {
	up   *factNode
	t    *Term
	size int
}

type traceNode struct {
	up   *traceNode
	desc string
	pos  token.Pos
}

// MonState is the typestate part of a state, owned by the property monitor.
type MonState interface {
	Clone() MonState
	Key() string
}

type Lock struct {
	Addr *Term
	Read bool
	Pos  token.Pos
}

type State struct {
	mem     map[*Term]*Term
	facts   *factNode
	dom     map[*Term][]int64
	held    []Lock
	escaped map[*Term]bool
	dirty   map[*Term]bool // allocs whose unlisted cells are unknown
	mon     MonState
	trace   *traceNode
	vals    map[string]*Term // scratch for monitors (ghost variables)
}

func newState() *State {
	return &State{mem: map[*Term]*Term{}, dom: map[*Term][]int64{}, escaped: map[*Term]bool{}, dirty: map[*Term]bool{}, vals: map[string]*Term{}}
}

func (s *State) clone() *State {
	n := &State{facts: s.facts, trace: s.trace}
	n.mem = make(map[*Term]*Term, len(s.mem)+4)
	for k, v := range s.mem {
		n.mem[k] = v
	}
	n.dom = make(map[*Term][]int64, len(s.dom))
	for k, v := range s.dom {
		n.dom[k] = v
	}
	n.escaped = make(map[*Term]bool, len(s.escaped))
	for k, v := range s.escaped {
		n.escaped[k] = v
	}
	n.dirty = make(map[*Term]bool, len(s.dirty))
	for k, v := range s.dirty {
		n.dirty[k] = v
	}
	n.vals = make(map[string]*Term, len(s.vals))
	for k, v := range s.vals {
		n.vals[k] = v
	}
	n.held = append([]Lock(nil), s.held...)
	if s.mon != nil {
		n.mon = s.mon.Clone()
	}
	return n
}

func (s *State) note(pos token.Pos, format string, a ...interface{}) {
	s.trace = &traceNode{s.trace, fmt.Sprintf(format, a...), pos}
}

func (s *State) heldKey() string {
	var k []string
	for _, l := range s.held {
		k = append(k, fmt.Sprint(l.Addr.ID, l.Read))
	}
	sort.Strings(k)
	return strings.Join(k, ",")
}

func (s *State) holds(addr *Term) bool {
	for _, l := range s.held {
		if l.Addr == addr {
			return true
		}
	}
	return false
}

// ---- facts

func (s *State) eachFact(f func(*Term) bool) {
	for n := s.facts; n != nil; n = n.up {
		if !f(n.t) {
			return
		}
	}
}

func (s *State) hasFact(t *Term) bool {
	r := false
	s.eachFact(func(x *Term) bool {
		if x == t {
			r = true
			return false
		}
		return true
	})
	return r
}

func (s *State) addFact(t *Term) {
	if s.hasFact(t) {
		return
	}
	sz := 1
	if s.facts != nil {
		sz = s.facts.size + 1
	}
	s.facts = &factNode{s.facts, t, sz}
}

type ineq struct {
	c int64
	m map[*Term]int64
}

func ineqOf(l *Term) ineq {
	c, ps := linOf(l)
	m := make(map[*Term]int64, len(ps))
	for _, p := range ps {
		m[p.T] = p.K
	}
	return ineq{c, m}
}

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func (q ineq) norm() ineq {
	var g int64
	for _, k := range q.m {
		g = gcd(g, k)
	}
	if g > 1 {
		for t := range q.m {
			q.m[t] /= g
		}
		// floor division of constant (integers)
		c := q.c / g
		if q.c%g != 0 && q.c < 0 {
			c--
		}
		q.c = c
	}
	return q
}

func (q ineq) key() string {
	var ks []string
	for t, k := range q.m {
		ks = append(ks, fmt.Sprintf("%d*%d", k, t.ID))
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}

// implied constraints of an atom (by type or by construction); each is >= 0.
func (s *State) atomBounds(a *Term) []*Term {
	var r []*Term
	switch a.Op {
	case TLen:
		r = append(r, a)
		if b := a.Args[0]; b.Op == TSym || b.Op == TUnbox || b.Op == TFieldV || b.Op == TApp {
			if _, ok := under(b.Typ).(*types.Slice); ok {
				r = append(r, sub(mk(TCap, types.Typ[types.Int], "", 0, b), a))
			}
		}
		return r
	case TCap:
		r = append(r, a)
		if b := a.Args[0]; b.Op == TSym || b.Op == TUnbox || b.Op == TFieldV || b.Op == TApp {
			if _, ok := under(b.Typ).(*types.Slice); ok {
				r = append(r, sub(a, mk(TLen, types.Typ[types.Int], "", 0, b)))
			}
		}
		return r
	case TBin:
		x := a.Args[0]
		k, kok := a.Args[1].isInt()
		switch a.Aux {
		case "/":
			if kok && k > 0 && s.quickNonNeg(x) {
				r = append(r, sub(x, scale(a, k)), sub(add(scale(a, k), num(k-1)), x))
			} else if !kok && s.quickNonNeg(x) && (a.Args[1].Op == TLen || s.quickNonNeg(a.Args[1])) {
				r = append(r, a, sub(x, a))
			}
		case ">>":
			if kok && k >= 0 && k < 40 && s.quickNonNeg(x) {
				d := int64(1) << uint(k)
				r = append(r, sub(x, scale(a, d)), sub(add(scale(a, d), num(d-1)), x))
			}
		case "%":
			if kok && k > 0 && s.quickNonNeg(x) {
				r = append(r, a, sub(num(k-1), a))
			}
		case "&":
			if kok && k >= 0 {
				r = append(r, a, sub(num(k), a))
				if s.quickNonNeg(x) {
					r = append(r, sub(x, a))
				}
			}
		}
	}
	if a.Typ != nil {
		lo, hi, hl, hh := intRange(a.Typ)
		if hl {
			r = append(r, sub(a, num(lo)))
		}
		if hh {
			r = append(r, sub(num(hi), a))
		}
	}
	if d, ok := s.dom[a]; ok && len(d) > 0 {
		lo, hi := d[0], d[0]
		for _, x := range d {
			if x < lo {
				lo = x
			}
			if x > hi {
				hi = x
			}
		}
		r = append(r, sub(a, num(lo)), sub(num(hi), a))
	}
	return r
}

func (s *State) quickNonNeg(t *Term) bool {
	c, ps := linOf(t)
	if len(ps) > 1 || c < 0 || len(ps) == 1 && ps[0].K < 0 {
		if s.hasFact(ge0(t)) {
			return true
		}
	}
	if c < 0 {
		return false
	}
	for _, p := range ps {
		if p.K < 0 {
			return false
		}
		if p.T.Op == TLen || p.T.Op == TCap || p.T.Typ != nil && isUnsigned(p.T.Typ) {
			continue
		}
		nn := false
		s.eachFact(func(f *Term) bool {
			if f.Op == TGe0 {
				l := f.Args[0]
				lc, lp := linOf(l)
				if len(lp) == 1 && lp[0].T == p.T && lp[0].K > 0 && lc <= 0 {
					nn = true
					return false
				}
			} else if f.Op == TEq0 {
				l := f.Args[0]
				lc, lp := linOf(l)
				if len(lp) == 1 && lp[0].T == p.T && lp[0].K == 1 && lc <= 0 {
					nn = true
					return false
				}
			}
			return true
		})
		if !nn {
			return false
		}
	}
	return true
}

// prove reports whether l >= 0 follows from the facts.
func (s *State) prove(l *Term) bool {
	if c, ok := l.isInt(); ok {
		return c >= 0
	}
	goal := ineqOf(sub(scale(l, -1), num(1))) // negation: -l-1 >= 0
	var cons []ineq
	cons = append(cons, goal)
	atoms := map[*Term]bool{}
	var queue []*Term
	addAtoms := func(q ineq) {
		for t := range q.m {
			if !atoms[t] {
				atoms[t] = true
				queue = append(queue, t)
			}
		}
	}
	addAtoms(goal)
	var lins []*Term
	s.eachFact(func(f *Term) bool {
		switch f.Op {
		case TGe0:
			lins = append(lins, f.Args[0])
		case TEq0:
			lins = append(lins, f.Args[0], scale(f.Args[0], -1))
		}
		return true
	})
	used := make([]bool, len(lins))
	for round := 0; round < 4; round++ {
		for len(queue) > 0 {
			a := queue[0]
			queue = queue[1:]
			for _, b := range s.atomBounds(a) {
				q := ineqOf(b)
				cons = append(cons, q)
				addAtoms(q)
			}
		}
		for i, x := range lins {
			if used[i] {
				continue
			}
			_, ps := linOf(x)
			hit := false
			for _, p := range ps {
				if atoms[p.T] {
					hit = true
				}
			}
			if hit {
				used[i] = true
				q := ineqOf(x)
				cons = append(cons, q)
				addAtoms(q)
			}
		}
		if len(queue) == 0 {
			break
		}
	}
	return infeasible(cons)
}

func infeasible(cons []ineq) bool {
	best := map[string]ineq{}
	put := func(m map[string]ineq, q ineq) bool {
		q = q.norm()
		if len(q.m) == 0 {
			return q.c < 0
		}
		k := q.key()
		if o, ok := m[k]; !ok || q.c < o.c {
			m[k] = q
		}
		return false
	}
	for _, q := range cons {
		cp := ineq{q.c, map[*Term]int64{}}
		for t, k := range q.m {
			cp.m[t] = k
		}
		if put(best, cp) {
			return true
		}
	}
	for iter := 0; iter < 60; iter++ {
		// choose variable with the fewest products
		pos, neg := map[*Term]int{}, map[*Term]int{}
		for _, q := range best {
			for t, k := range q.m {
				if k > 0 {
					pos[t]++
				} else {
					neg[t]++
				}
			}
		}
		var v *Term
		bestCost := 1 << 30
		for t := range pos {
			c := pos[t] * neg[t]
			if c < bestCost || c == bestCost && (v == nil || t.ID < v.ID) {
				bestCost, v = c, t
			}
		}
		for t := range neg {
			if pos[t] == 0 {
				if 0 < bestCost || v == nil || t.ID < v.ID && bestCost == 0 {
					bestCost, v = 0, t
				}
			}
		}
		if v == nil {
			return false
		}
		if bestCost > 400 || len(best) > 600 {
			return false
		}
		next := map[string]ineq{}
		var ps, ns []ineq
		for _, q := range best {
			k := q.m[v]
			if k > 0 {
				ps = append(ps, q)
			} else if k < 0 {
				ns = append(ns, q)
			} else {
				next[q.key()] = q
			}
		}
		for _, p := range ps {
			for _, n := range ns {
				kp, kn := p.m[v], -n.m[v]
				g := gcd(kp, kn)
				fp, fn := kn/g, kp/g
				q := ineq{p.c*fp + n.c*fn, map[*Term]int64{}}
				for t, k := range p.m {
					q.m[t] += k * fp
				}
				for t, k := range n.m {
					q.m[t] += k * fn
				}
				for t, k := range q.m {
					if k == 0 {
						delete(q.m, t)
					}
				}
				if put(next, q) {
					return true
				}
			}
		}
		best = next
		if len(best) == 0 {
			return false
		}
	}
	return false
}

// finite-domain evaluation: value of t when atom a has value v; ok=false when unknown
func evalWith(t *Term, a *Term, v int64) (int64, bool) {
	if t == a {
		return v, true
	}
	switch t.Op {
	case TLin:
		r := t.C
		for _, p := range t.P {
			x, ok := evalWith(p.T, a, v)
			if !ok {
				return 0, false
			}
			r += p.K * x
		}
		return r, true
	case TBin:
		x, ok1 := evalWith(t.Args[0], a, v)
		y, ok2 := evalWith(t.Args[1], a, v)
		if !ok1 || !ok2 {
			return 0, false
		}
		return evalBin(t.Aux, x, y, t.Typ)
	case TUn:
		x, ok := evalWith(t.Args[0], a, v)
		if ok && t.Aux == "^" {
			return wrapInt(^x, t.Typ), true
		}
	case TConv:
		x, ok := evalWith(t.Args[0], a, v)
		if ok && isIntType(t.Typ) {
			return wrapInt(x, t.Typ), true
		}
	case TGe0:
		x, ok := evalWith(t.Args[0], a, v)
		return b2i(x >= 0), ok
	case TEq0:
		x, ok := evalWith(t.Args[0], a, v)
		return b2i(x == 0), ok
	case TNot:
		x, ok := evalWith(t.Args[0], a, v)
		return 1 - x, ok
	case TConst:
		if b, ok := t.isBool(); ok {
			return b2i(b), true
		}
	}
	return 0, false
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

func wrapInt(x int64, t types.Type) int64 {
	switch intBits(t) {
	case 8:
		if isUnsigned(t) {
			return int64(uint8(x))
		}
		return int64(int8(x))
	case 16:
		if isUnsigned(t) {
			return int64(uint16(x))
		}
		return int64(int16(x))
	case 32:
		if isUnsigned(t) {
			return int64(uint32(x))
		}
		return int64(int32(x))
	}
	return x
}

func evalBin(op string, x, y int64, t types.Type) (int64, bool) {
	var r int64
	switch op {
	case "+":
		r = x + y
	case "-":
		r = x - y
	case "*":
		r = x * y
	case "/":
		if y == 0 {
			return 0, false
		}
		r = x / y
	case "%":
		if y == 0 {
			return 0, false
		}
		r = x % y
	case "&":
		r = x & y
	case "|":
		r = x | y
	case "^":
		r = x ^ y
	case "&^":
		r = x &^ y
	case "<<":
		if y < 0 || y > 62 {
			return 0, false
		}
		r = x << uint(y)
	case ">>":
		if y < 0 || y > 63 {
			return 0, false
		}
		r = x >> uint(y)
	default:
		return 0, false
	}
	return wrapInt(r, t), true
}

// domAtom finds the single finite-domain atom of t.
func (s *State) domAtom(t *Term) *Term {
	if len(s.dom) == 0 {
		return nil
	}
	var found *Term
	t.walk(func(x *Term) bool {
		if _, ok := s.dom[x]; ok && found == nil {
			found = x
			return false
		}
		return true
	})
	return found
}

// evalHook decides conditions that the facts leave open.
var evalHook func(s *State, t *Term) int

// eval: 1 true, 0 false, -1 unknown
func (s *State) eval(t *Term) int {
	r := s.eval1(t)
	if r < 0 && evalHook != nil {
		return evalHook(s, t)
	}
	return r
}

func (s *State) eval1(t *Term) int {
	if b, ok := t.isBool(); ok {
		return int(b2i(b))
	}
	if t.Op == TNot {
		r := s.eval(t.Args[0])
		if r >= 0 {
			return 1 - r
		}
		return -1
	}
	if a := s.domAtom(t); a != nil {
		seen := map[int64]bool{}
		ok := true
		for _, v := range s.dom[a] {
			r, k := evalWith(t, a, v)
			if !k {
				ok = false
				break
			}
			seen[r] = true
		}
		if ok && len(seen) == 1 {
			if seen[1] {
				return 1
			}
			return 0
		}
		if ok && len(seen) == 2 {
			return -1
		}
	}
	r := -1
	nt := mkNotRaw(t)
	s.eachFact(func(f *Term) bool {
		if f == t {
			r = 1
			return false
		}
		if f == nt {
			r = 0
			return false
		}
		return true
	})
	if r >= 0 {
		return r
	}
	switch t.Op {
	case TGe0:
		if s.prove(t.Args[0]) {
			return 1
		}
		if s.prove(sub(scale(t.Args[0], -1), num(1))) {
			return 0
		}
	case TEq0:
		l := t.Args[0]
		a, b := s.prove(l), s.prove(scale(l, -1))
		if a && b {
			return 1
		}
		if a && s.prove(sub(l, num(1))) {
			return 0
		}
		if b && s.prove(sub(scale(l, -1), num(1))) {
			return 0
		}
	case TEq:
		return s.evalEq(t.Args[0], t.Args[1])
	case TIsType:
		return s.evalIsType(t)
	}
	return -1
}

func mkNotRaw(t *Term) *Term {
	return not(t)
}

func (s *State) evalIsType(t *Term) int {
	x := t.Args[0]
	if x.isNil() {
		return 0
	}
	if x.Op == TIface {
		if types.IsInterface(t.Typ) {
			if types.AssignableTo(x.Typ, t.Typ) {
				return 1
			}
			return 0
		}
		return int(b2i(types.Identical(x.Typ, t.Typ)))
	}
	r := -1
	s.eachFact(func(f *Term) bool {
		if f.Op == TIsType && f.Args[0] == x && !types.IsInterface(f.Typ) {
			if types.IsInterface(t.Typ) {
				r = int(b2i(types.AssignableTo(f.Typ, t.Typ)))
			} else {
				r = int(b2i(types.Identical(f.Typ, t.Typ)))
			}
			return false
		}
		if f == mkEq(x, nilTerm) {
			r = 0
			return false
		}
		return true
	})
	return r
}

func mkEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk(TEq, nil, "", 0, a, b)
}

func nonNil(t *Term) bool {
	switch t.Op {
	case TAlloc, TGlobal, TFunc, TClosure, TField, TIndex, TIface, TStruct:
		return true
	case TSlice:
		return nonNil(t.Args[0])
	case TApp:
		return strings.HasPrefix(t.Aux, "nn:")
	}
	return false
}

func (s *State) evalEq(a, b *Term) int {
	if a == b {
		return 1
	}
	if b.isNil() {
		a, b = b, a
	}
	if a.isNil() {
		if nonNil(b) {
			return 0
		}
		// dynamic type known => non-nil
		r := -1
		s.eachFact(func(f *Term) bool {
			if f.Op == TIsType && f.Args[0] == b {
				r = 0
				return false
			}
			return true
		})
		if r == -1 && b.Op == TUnbox {
			return -1
		}
		// len(x) > 0 => non-nil
		if r == -1 && b.Typ != nil {
			switch under(b.Typ).(type) {
			case *types.Slice:
				if s.prove(sub(mk(TLen, types.Typ[types.Int], "", 0, b), num(1))) {
					return 0
				}
			}
		}
		return r
	}
	if a.Op == TConst && b.Op == TConst && a.Val != nil && b.Val != nil {
		if a.Val.Kind() == b.Val.Kind() {
			return int(b2i(constant.Compare(a.Val, token.EQL, b.Val)))
		}
	}
	if a.Op == TAlloc && b.Op == TAlloc || a.Op == TGlobal && b.Op == TGlobal || a.Op == TFunc && b.Op == TFunc {
		return 0
	}
	if a.Op == TAlloc && !s.escaped[a] && b.Op == TSym || b.Op == TAlloc && !s.escaped[b] && a.Op == TSym {
		return 0
	}
	if a.Op == TAlloc && b.Op == TSym && b.Seq < a.Seq || b.Op == TAlloc && a.Op == TSym && a.Seq < b.Seq {
		return 0
	}
	if a.Op == TIface && b.Op == TIface {
		if !types.Identical(a.Typ, b.Typ) {
			return 0
		}
		return s.evalEq(a.Args[0], b.Args[0])
	}
	if a.Op == TIface {
		a, b = b, a
	}
	if b.Op == TIface && b.Args[0].Op == TAlloc && !s.escaped[b.Args[0]] {
		return 0
	}
	// transitivity through nil-ness: x==nil known for one, !=nil for the other
	na, nb := s.isNilFact(a), s.isNilFact(b)
	if na >= 0 && nb >= 0 && na != nb {
		return 0
	}
	if na == 1 && nb == 1 {
		return 1
	}
	return -1
}

func (s *State) isNilFact(t *Term) int {
	if t.isNil() {
		return 1
	}
	if nonNil(t) {
		return 0
	}
	e := mkEq(t, nilTerm)
	ne := not(e)
	r := -1
	s.eachFact(func(f *Term) bool {
		if f == e {
			r = 1
			return false
		}
		if f == ne || f.Op == TIsType && f.Args[0] == t {
			r = 0
			return false
		}
		return true
	})
	return r
}

// nilness: 1 nil, 0 non-nil, -1 unknown
func (s *State) nilness(t *Term) int {
	return s.eval(mkEq(t, nilTerm))
}

// assume adds t to the facts; false when the state becomes contradictory.
func (s *State) assume(t *Term) bool {
	switch s.eval(t) {
	case 1:
		return true
	case 0:
		return false
	}
	if a := s.domAtom(t); a != nil {
		var nd []int64
		ok := true
		for _, v := range s.dom[a] {
			r, k := evalWith(t, a, v)
			if !k {
				ok = false
				break
			}
			if r == 1 {
				nd = append(nd, v)
			}
		}
		if ok {
			if len(nd) == 0 {
				return false
			}
			s.dom[a] = nd
			return true
		}
	}
	s.addFact(t)
	switch t.Op {
	case TNot:
		x := t.Args[0]
		if x.Op == TEq0 { // disequality: tighten with known side
			l := x.Args[0]
			if s.prove(l) {
				s.addFact(ge0(sub(l, num(1))))
			} else if s.prove(scale(l, -1)) {
				s.addFact(ge0(sub(scale(l, -1), num(1))))
			}
		}
	case TGe0:
		// combine with disequalities on the same atoms
		s.eachFact(func(f *Term) bool {
			if f.Op == TNot && f.Args[0].Op == TEq0 {
				l := f.Args[0].Args[0]
				if l == t.Args[0] || scale(l, -1) == t.Args[0] {
					s.addFact(ge0(sub(t.Args[0], num(1))))
					return false
				}
			}
			return true
		})
	case TEq:
		a, b := t.Args[0], t.Args[1]
		if a.isNil() {
			a, b = b, a
		}
		if b.isNil() && a.Typ != nil {
			switch under(a.Typ).(type) {
			case *types.Slice:
				s.addFact(eq0(mk(TLen, types.Typ[types.Int], "", 0, a)))
			}
		}
	}
	return true
}

// ---- memory

// root of an address: the object or pointer value it is derived from
func addrRoot(a *Term) *Term {
	for a.Op == TField || a.Op == TIndex || a.Op == TMapEl {
		a = a.Args[0]
		if a.Op == TSlice {
			a = a.Args[0]
		}
	}
	return a
}

// hasBase reports whether address a lies inside object base
func hasBase(a, base *Term) bool {
	for {
		if a == base {
			return true
		}
		if a.Op == TField || a.Op == TIndex {
			a = a.Args[0]
			continue
		}
		return false
	}
}

func (s *State) private(a *Term) bool {
	r := addrRoot(a)
	return r.Op == TAlloc && !s.escaped[r]
}

// mayAliasObj: may pointer/array values a and b denote the same object?
func (s *State) mayAliasObj(a, b *Term) bool {
	if a == b {
		return true
	}
	if isAddrOp(a) && isAddrOp(b) {
		return s.mayAlias(a, b)
	}
	ra, rb := addrRoot(a), addrRoot(b)
	if ra.Op == TAlloc && rb.Op == TAlloc && ra != rb {
		return false
	}
	if ra.Op == TGlobal && rb.Op == TGlobal && ra != rb {
		return false
	}
	if ra.Op == TAlloc && rb.Op == TGlobal || ra.Op == TGlobal && rb.Op == TAlloc {
		return false
	}
	if ra.Op == TAlloc && (!s.escaped[ra] || rb.Op == TSym && rb.Seq < ra.Seq) && rb != ra {
		return false
	}
	if rb.Op == TAlloc && (!s.escaped[rb] || ra.Op == TSym && ra.Seq < rb.Seq) && rb != ra {
		return false
	}
	if s.eval(mkEq(a, b)) == 0 {
		return false
	}
	return true
}

func isAddrOp(a *Term) bool { return a.Op == TField || a.Op == TIndex || a.Op == TMapEl }

func (s *State) mayAlias(a, b *Term) bool {
	if a == b {
		return true
	}
	if a.Op == TField && b.Op == TField {
		if a.N == b.N && structName(a) == structName(b) {
			return s.mayAliasObj(a.Args[0], b.Args[0])
		}
		// nested: one may contain the other only via base chain
		return hasBase(a, b) || hasBase(b, a)
	}
	if (a.Op == TIndex && b.Op == TIndex) || (a.Op == TMapEl && b.Op == TMapEl) {
		if s.eval(eqTerm(a.Args[1], b.Args[1])) == 0 {
			if a.Args[0] == b.Args[0] {
				return false
			}
		}
		if tyKey(a.Typ) != tyKey(b.Typ) {
			return false
		}
		if ca, cb := closedArray(a.Args[0]), closedArray(b.Args[0]); ca != cb {
			return false
		}
		return s.mayAliasObj(a.Args[0], b.Args[0])
	}
	if hasBase(a, b) || hasBase(b, a) {
		return true
	}
	if isAddrOp(a) && isAddrOp(b) {
		return false
	}
	// one is a plain pointer of the cell's type
	if tyKey(cellType(a)) != tyKey(cellType(b)) && cellType(a) != nil && cellType(b) != nil {
		return false
	}
	return s.mayAliasObj(a, b)
}

// closedFields: fields whose address never leaves the ordinary load and store
// pattern.
var closedFields func(owner, name string) bool

// closedArray: an array inside a struct that no slice or pointer refers to.
func closedArray(a *Term) bool {
	if a.Op != TField || a.N < 0 || closedFields == nil {
		return false
	}
	if _, ok := under(a.Typ).(*types.Array); !ok {
		return false
	}
	return closedFields(fieldOwner[a], a.Aux)
}

// cellType: type of the memory cell at address a (nil unknown)
func cellType(a *Term) types.Type {
	switch a.Op {
	case TField, TIndex, TMapEl:
		return a.Typ
	case TAlloc:
		return a.Typ
	}
	if a.Typ != nil {
		if p, ok := under(a.Typ).(*types.Pointer); ok {
			return p.Elem()
		}
	}
	return nil
}

func structName(f *Term) string { return fieldOwner[f] }

// fieldOwner: identity of the struct type a field address belongs to
var fieldOwner = map[*Term]string{}

func fieldAddr(base *Term, structT types.Type, idx int) *Term {
	st := under(structT).(*types.Struct)
	f := st.Field(idx)
	t := mk(TField, f.Type(), f.Name(), idx, base)
	if _, ok := fieldOwner[t]; !ok {
		fieldOwner[t] = types.TypeString(structT, nil)
	}
	return t
}

func indexAddr(base, idx *Term, elem types.Type) *Term {
	return mk(TIndex, elem, "", 0, base, idx)
}

func eqTerm(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if isIntTerm(a) && isIntTerm(b) {
		return eq0(sub(a, b))
	}
	return mkEq(a, b)
}

func isIntTerm(t *Term) bool {
	switch t.Op {
	case TLin, TLen, TCap:
		return true
	}
	return t.Typ != nil && isIntType(t.Typ) && t.Op != TAlloc && t.Op != TField && t.Op != TIndex && t.Op != TMapEl
}

func (s *State) kill(a *Term) {
	for e := range s.mem {
		if e != a && s.mayAlias(e, a) {
			s.forget(e)
		}
	}
}

// forget makes the content of cell e unknown.
func (s *State) forget(e *Term) {
	r := addrRoot(e)
	if r.Op == TAlloc && !s.dirty[r] {
		// unlisted cells of a clean alloc read as zero: keep an explicit unknown
		s.mem[e] = freshTyped("forgot", cellType(e), e)
		return
	}
	delete(s.mem, e)
}

func freshTyped(name string, t types.Type, org *Term) *Term {
	f := fresh(name, t)
	f.Org = org
	return f
}

// havocShared forgets everything other threads or unknown code may change.
// keep decides about cells that stay.
func (s *State) havocShared(keep func(addr *Term) bool) {
	for e := range s.mem {
		if s.private(e) {
			continue
		}
		if keep != nil && keep(e) {
			continue
		}
		s.forget(e)
	}
	for r := range s.escaped {
		s.dirty[r] = true
	}
}

// markDirty: explicit cells keep, unlisted cells become unknown

func (s *State) escape(t *Term) {
	if t == nil {
		return
	}
	var stack []*Term
	push := func(x *Term) { stack = append(stack, x) }
	push(t)
	seen := map[*Term]bool{}
	for len(stack) > 0 {
		x := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		switch x.Op {
		case TAlloc:
			if !s.escaped[x] {
				s.escaped[x] = true
				for e, v := range s.mem {
					if addrRoot(e) == x {
						push(v)
					}
				}
			}
		case TField, TIndex, TSlice, TIface, TStruct, TTuple, TClosure, TUnbox, TConv, TApp:
			for _, a := range x.Args {
				push(a)
			}
		}
	}
}

var _ ssa.Value

// known: the constant that an integer is known to be.
func (s *State) known(v *Term) (*Term, bool) {
	if d, ok := s.dom[v]; ok {
		var c *Term
		for _, k := range d {
			if s.eval(eqTerm(v, num(k))) != 0 {
				if c != nil {
					return nil, false
				}
				c = num(k)
			}
		}
		return c, c != nil
	}
	return nil, false
}
