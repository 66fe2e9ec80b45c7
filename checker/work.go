package main

import (
	"fmt"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The states of one function activation wait at the blocks they reached.
// Blocks are processed in an order that lets control flow joins collect all
// their states first; there, states with the same typestate are joined.

var dbgBlocks = os.Getenv("VERIF_BLOCKS") != ""

type item struct {
	fr    *Frame
	st    *State
	b     *ssa.BasicBlock
	enter bool // reaches a loop header from outside

	unrolls bool // the loop will be followed as it is
}

type worklist struct {
	items []*item
}

func (w *worklist) push(it *item) { w.items = append(w.items, it) }

type fnInfo struct {
	order map[*ssa.BasicBlock]int
	live  map[*ssa.BasicBlock]map[ssa.Value]bool
}

func (x *Exec) fnInfo(fn *ssa.Function) *fnInfo {
	if fi := x.P.fnInfos[fn]; fi != nil {
		return fi
	}
	li := x.loopInfo(fn)
	depth := func(b *ssa.BasicBlock) int {
		d := 0
		for _, body := range li.body {
			if body[b] {
				d++
			}
		}
		return d
	}
	fi := &fnInfo{order: map[*ssa.BasicBlock]int{}, live: map[*ssa.BasicBlock]map[ssa.Value]bool{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		ss := append([]*ssa.BasicBlock(nil), b.Succs...)
		sort.SliceStable(ss, func(i, j int) bool { return depth(ss[i]) < depth(ss[j]) })
		for _, s := range ss {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	if fn.Recover != nil && !seen[fn.Recover] {
		dfs(fn.Recover)
	}
	for i, b := range post {
		fi.order[b] = len(post) - i
	}
	// liveness
	use := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	def := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		u, d := map[ssa.Value]bool{}, map[ssa.Value]bool{}
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Phi); !ok {
				for _, op := range in.Operands(nil) {
					if *op != nil && !d[*op] && isLocal(*op) {
						u[*op] = true
					}
					if rng, ok := (*op).(*ssa.Range); ok && isLocal(rng.X) && !d[rng.X] {
						u[rng.X] = true // next reads the map itself
					}
				}
			}
			if v, ok := in.(ssa.Value); ok {
				d[v] = true
			}
		}
		use[b], def[b] = u, d
		fi.live[b] = map[ssa.Value]bool{}
	}
	rec := map[ssa.Value]bool{}
	if fn.Recover != nil {
		for _, in := range fn.Recover.Instrs {
			for _, op := range in.Operands(nil) {
				if *op != nil && isLocal(*op) {
					rec[*op] = true
				}
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			l := fi.live[b]
			addl := func(v ssa.Value) {
				if !l[v] {
					l[v] = true
					ch = true
				}
			}
			for v := range use[b] {
				addl(v)
			}
			for v := range rec {
				addl(v)
			}
			for _, p := range phisOf(b) {
				addl(p) // the phi itself: evaluated before the state is queued
			}
			for _, s := range b.Succs {
				for v := range fi.live[s] {
					if p, ok := v.(*ssa.Phi); ok && p.Block() == s {
						continue
					}
					if !def[b][v] {
						addl(v)
					}
				}
				for k, p := range s.Preds {
					if p == b {
						for _, ph := range phisOf(s) {
							if e := ph.Edges[k]; isLocal(e) && !def[b][e] {
								addl(e)
							}
						}
					}
				}
			}
		}
	}
	x.P.fnInfos[fn] = fi
	return fi
}

func isLocal(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin:
		return false
	}
	return true
}

func (x *Exec) drive(w *worklist, fn *ssa.Function) []Outcome {
	fi := x.fnInfo(fn)
	var res []Outcome
	for len(w.items) > 0 && x.undecided == "" {
		best := w.items[0]
		for _, it := range w.items {
			if less(fi, it, best) {
				best = it
			}
		}
		var now, rest []*item
		for _, it := range w.items {
			if it.b == best.b && it.enter == best.enter {
				now = append(now, it)
			} else {
				rest = append(rest, it)
			}
		}
		w.items = rest
		if best.enter {
			n := 0
			for _, it := range now {
				la := it.fr.loops[it.b]
				if x.unroll() > 0 && (la == nil || la.iters < x.unroll()) && x.decided(it.fr, it.st, it.b) {
					it.unrolls = true
					n++
				}
			}
			if n > 4 && n > x.mon.EnterAt {
				for _, it := range now {
					it.unrolls = false
				}
			}
		}
		now = x.mergeItems(fi, now)
		if dbgBlocks && x.steps > 1000 && x.steps < 1400 {
			fmt.Printf("%s block %d %s enter=%v n=%d rest=%d restart mods=%d\n", fn.Name(), best.b.Index, best.b.Comment, best.enter, len(now), len(rest), len(x.mods))
		}
		for _, it := range now {
			if !x.tick(it.fr) {
				return res
			}
			if it.enter {
				res = append(res, x.enterLoop(it.fr, it.st, it.b, it.unrolls)...)
			} else {
				res = append(res, x.instrs(it.fr, it.st, it.b, firstNonPhi(it.b))...)
			}
		}
	}
	return res
}

func less(fi *fnInfo, a, b *item) bool {
	if fi.order[a.b] != fi.order[b.b] {
		return fi.order[a.b] < fi.order[b.b]
	}
	return a.enter && !b.enter
}

func (x *Exec) mergeItems(fi *fnInfo, its []*item) []*item {
	if len(its) < 2 {
		return its
	}
	live := fi.live[its[0].b]
	base := func(it *item) string {
		var b strings.Builder
		b.WriteString(stKey(it.st))
		var ls []string
		for h, la := range it.fr.loops {
			switch {
			case it.enter && h == it.b:
			case la.generic:
				ls = append(ls, fmt.Sprintf("%d:%p", h.Index, la))
			default:
				ls = append(ls, fmt.Sprintf("%d:u", h.Index))
			}
		}
		sort.Strings(ls)
		b.WriteString(strings.Join(ls, ","))
		fmt.Fprintf(&b, "|%d|", len(it.fr.defers))
		if _, ok := it.st.vals["$panicking"]; ok {
			b.WriteString("p")
		}
		return b.String()
	}
	// identical memory and live values
	seen := map[string]*item{}
	var res []*item
	for _, it := range its {
		var b strings.Builder
		b.WriteString(base(it))
		var ms []string
		for k, v := range it.st.mem {
			ms = append(ms, fmt.Sprint(k.ID, "=", v.ID))
		}
		for v, t := range it.fr.env {
			if live[v] {
				ms = append(ms, v.Name()+"="+fmt.Sprint(t.ID))
			}
		}
		for k, v := range it.st.dom {
			ms = append(ms, fmt.Sprint(k.ID, ":", v))
		}
		if x.mon.Facts {
			it.st.eachFact(func(t *Term) bool { ms = append(ms, fmt.Sprint("f", t.ID)); return true })
		}
		sort.Strings(ms)
		b.WriteString(strings.Join(ms, ";"))
		k := b.String()
		if o := seen[k]; o != nil {
			o.st.facts = commonFacts(o.st, it.st)
			for d := range it.st.dirty {
				o.st.dirty[d] = true
			}
			for d := range it.st.escaped {
				o.st.escaped[d] = true
			}
			x.Stats["merged"]++
			mergeLoops(o, it)
			continue
		}
		seen[k] = it
		res = append(res, it)
	}
	lim := x.mon.JoinBlk
	if lim == 0 {
		lim = 8
	}
	if len(res) <= lim && (!its[0].enter || len(res) <= x.mon.EnterAt) {
		return res
	}
	groups := map[string][]*item{}
	var order []string
	for _, it := range res {
		k := base(it)
		for _, p := range phisOf(it.b) {
			k += "|" + x.valClass(it.st, it.fr.env[p])
		}
		if it.enter && it.unrolls {
			k += fmt.Sprintf("|unroll%p", it)
		}
		if groups[k] == nil {
			order = append(order, k)
		}
		groups[k] = append(groups[k], it)
	}
	var out []*item
	for _, k := range order {
		g := groups[k]
		a := g[0]
		for _, b := range g[1:] {
			x.joinItems(a, b, live)
			mergeLoops(a, b)
			x.Stats["joined"]++
		}
		out = append(out, a)
	}
	return out
}

func mergeLoops(a, b *item) {
	for h, la := range a.fr.loops {
		lb := b.fr.loops[h]
		if lb == nil || la.generic || lb == la {
			continue
		}
		n := *la
		if lb.seq > n.seq {
			n.seq = lb.seq
		}
		if lb.iters > n.iters {
			n.iters = lb.iters
		}
		a.fr.loops[h] = &n
	}
}

func (x *Exec) joinItems(a, b *item, live map[ssa.Value]bool) {
	var keys []ssa.Value
	for v := range a.fr.env {
		if live[v] && b.fr.env[v] != nil {
			keys = append(keys, v)
		} else {
			delete(a.fr.env, v)
		}
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].Name() < keys[j].Name() })
	oa, ob := Outcome{st: a.st}, Outcome{st: b.st}
	for _, v := range keys {
		oa.vals = append(oa.vals, a.fr.env[v])
		ob.vals = append(ob.vals, b.fr.env[v])
	}
	x.joinInto(&oa, &ob)
	for i, v := range keys {
		a.fr.env[v] = oa.vals[i]
	}
	// deferred calls whose arguments differ
	for i := range a.fr.defers {
		ca, cb := a.fr.defers[i].ci, b.fr.defers[i].ci
		if ca == cb {
			continue
		}
		n := *ca
		n.Args = append([]*Term(nil), ca.Args...)
		for k := range n.Args {
			if k < len(cb.Args) && n.Args[k] != cb.Args[k] {
				n.Args[k] = fresh("join", n.Args[k].Typ)
			}
		}
		a.fr.defers[i].ci = &n
	}
}

// collect drops objects that were created during a call and cannot be
// reached any more.
func (x *Exec) collect(o *Outcome, seq0 int) {
	st := o.st
	keep := map[*Term]bool{}
	var stack []*Term
	mark := func(t *Term) {
		t.walk(func(y *Term) bool {
			if y.Op == TAlloc && !keep[y] {
				keep[y] = true
				stack = append(stack, y)
			}
			return true
		})
	}
	cells := map[*Term][]*Term{}
	cand := false
	for e, v := range st.mem {
		r := addrRoot(e)
		if r.Op == TAlloc && r.Seq > seq0 && !st.escaped[r] {
			cells[r] = append(cells[r], v)
			cand = true
			continue
		}
		mark(v)
	}
	if !cand {
		return
	}
	for _, v := range o.vals {
		mark(v)
	}
	for _, v := range st.vals {
		mark(v)
	}
	for _, l := range st.held {
		mark(l.Addr)
	}
	if g, ok := st.mon.(interface{ Terms() []*Term }); ok && st.mon != nil {
		for _, t := range g.Terms() {
			mark(t)
		}
	}
	for len(stack) > 0 {
		r := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		for _, v := range cells[r] {
			mark(v)
		}
	}
	for e := range st.mem {
		r := addrRoot(e)
		if r.Op == TAlloc && r.Seq > seq0 && !st.escaped[r] && !keep[r] {
			delete(st.mem, e)
			delete(st.vals, fmt.Sprint("chancap:", r.ID))
		}
	}
}
