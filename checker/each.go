package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// eachM: "every element of this collection is dealt with".
// A collection is registered when its value is seen; elements taken from it
// are pending until served; a loop that goes round with a pending element, or
// a function that returns without having seen the end, violates the rule.
type eachM struct {
	blk map[string]*ssa.BasicBlock
	pos map[string]token.Pos
	bad func(pos token.Pos, fr *Frame, st *State, el *Term)
}

func newEach(bad func(pos token.Pos, fr *Frame, st *State, el *Term)) *eachM {
	return &eachM{map[string]*ssa.BasicBlock{}, map[string]token.Pos{}, bad}
}

// add registers a collection (slice or map value) under a name; n, when given,
// is the number of elements that count.
func (e *eachM) add(st *State, coll *Term, owner *Term, n *Term) {
	if coll == nil || coll.isNil() {
		return
	}
	st.vals[gk("coll", coll)] = coll
	st.vals[gk("collown", coll)] = owner
	if st.g("each", coll) == "" {
		st.setG("each", coll, "1")
	}
	if sl, ok := under(coll.Typ).(*types.Slice); ok {
		_ = sl
		b, _, _, _ := sliceParts(coll, coll.Typ)
		st.vals[gk("collbase", b)] = coll
		if n == nil {
			n = lenOf(coll, coll.Typ)
		}
		st.vals[gk("colllen", coll)] = n
	}
}

// element: the collection that a cell belongs to.
func (e *eachM) of(st *State, addr *Term) *Term {
	if addr.Op == TIndex || addr.Op == TMapEl {
		if c := st.vals[gk("collbase", addr.Args[0])]; c != nil {
			return c
		}
		return st.vals[gk("coll", addr.Args[0])]
	}
	return nil
}

func (e *eachM) key(in ssa.Instruction) string {
	k := fmt.Sprintf("%p", in)
	e.blk[k] = in.Block()
	e.pos[k] = in.Pos()
	return k
}

// taken: an element was taken from the collection.
func (e *eachM) taken(st *State, in ssa.Instruction, el *Term) {
	if in != nil && st.g("el", el) == "" && !el.isNil() {
		st.setG("el", el, e.key(in))
	}
}

func (e *eachM) served(st *State, el *Term) bool {
	if st.g("el", el) != "" {
		st.setG("el", el, "")
		return true
	}
	return false
}

func (e *eachM) backEdge(x *Exec, st *State, fr *Frame, h *ssa.BasicBlock) {
	st.eachG("el", func(el *Term, k string) {
		b := e.blk[k]
		if b == nil {
			return
		}
		if b.Parent() != h.Parent() {
			// taken by a function that the loop called?
			if la := fr.loops[h]; la == nil || el.Seq <= la.seq {
				return
			}
		} else if !x.loopInfo(fr.fn).body[h][b] {
			return
		}
		if !(nilable(el.Typ) && st.isNilFact(el) == 1) {
			e.bad(e.pos[k], fr, st, el)
		}
		st.setG("el", el, "")
	})
	if la := fr.loops[h]; la != nil {
		st.eachG("each", func(c *Term, v string) {
			if c.Seq > la.seq {
				st.setG("each", c, "")
			}
		})
	}
}

func (e *eachM) end(st *State, fr *Frame) {
	st.eachG("el", func(el *Term, k string) {
		if !(nilable(el.Typ) && st.isNilFact(el) == 1) {
			e.bad(e.pos[k], fr, st, el)
		}
	})
}

// branch notices that the end of a slice was reached.
func (e *eachM) branch(st *State, cond *Term, taken bool) {
	f := cond
	if !taken {
		f = not(cond)
	}
	if f.Op != TGe0 {
		return
	}
	l := f.Args[0]
	down := singleAtom(scale(l, -1)) // counting down below zero
	st.eachG("each", func(c *Term, v string) {
		n := st.vals[gk("colllen", c)]
		if n == nil || v == "end" {
			return
		}
		rest := add(l, n)
		if _, ok := rest.isInt(); ok {
			return
		}
		if down || singleAtom(rest) {
			st.setG("each", c, "end")
		}
	})
}

// singleAtom: a (+ constant) for one atom a with factor one.
func singleAtom(t *Term) bool {
	_, ps := linOf(t)
	return len(ps) == 1 && ps[0].K == 1
}

// next notices the end of a map.
func (e *eachM) mapEnd(st *State, m *Term) {
	if st.g("each", m) != "" {
		st.setG("each", m, "end")
	}
}

func (e *eachM) ended(st *State, c *Term) bool {
	if st.g("each", c) == "end" {
		return true
	}
	if n := st.vals[gk("colllen", c)]; n != nil && st.eval(eqTerm(n, num(0))) == 1 {
		return true
	}
	return c.isNil()
}

// firstIndex: the loop index behind an element access starts at zero.
func startsLate(v ssa.Value) bool {
	off := int64(0)
	if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD {
		if c, ok := b.Y.(*ssa.Const); ok && c.Value != nil {
			off = c.Int64()
			v = b.X
		}
	}
	p, ok := v.(*ssa.Phi)
	if !ok {
		return false
	}
	for i, e := range p.Edges {
		if p.Block().Dominates(p.Block().Preds[i]) {
			continue
		}
		if c, ok := e.(*ssa.Const); ok && c.Value != nil && c.Int64()+off > 0 {
			return true
		}
	}
	return false
}
