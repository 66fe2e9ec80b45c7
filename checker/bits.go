package main

// Bit provenance: for each of the low 32 bits of an integer term, where it
// comes from: '0', '1', 'o' (the same bit of orig) or '?'.
type bitvec [32]byte

func constBits(v int64) bitvec {
	var b bitvec
	for i := range b {
		b[i] = '0' + byte(uint64(v)>>uint(i)&1)
	}
	return b
}

func (s *State) bitsOf(t, orig *Term) bitvec {
	var unknown bitvec
	for i := range unknown {
		unknown[i] = '?'
	}
	return s.bits(t, orig, unknown, 0)
}

func (s *State) bits(t, orig *Term, unknown bitvec, depth int) bitvec {
	if t == orig {
		for i := range unknown {
			unknown[i] = 'o'
		}
		return unknown
	}
	if n, ok := t.isInt(); ok {
		return constBits(n)
	}
	if v, ok := s.known(t); ok && v != t {
		if n, ok := v.isInt(); ok {
			return constBits(n)
		}
	}
	if depth > 12 {
		return unknown
	}
	switch {
	case t.Op == TConv && len(t.Args) == 1:
		return s.bits(t.Args[0], orig, unknown, depth+1)
	case t.Op == TLin:
		c, ps := linOf(t)
		if c < 0 || len(ps) > 4 {
			return unknown
		}
		r := constBits(c)
		for _, p := range ps {
			switch {
			case p.T == t:
				return unknown
			case p.K == 1:
				v := s.bits(p.T, orig, unknown, depth+1)
				for _, q := range ps {
					// x - (x & m) is x &^ m
					if q.K == -1 && q.T.Op == TBin && q.T.Aux == "&" {
						for i := 0; i < 2; i++ {
							if q.T.Args[i] == p.T {
								mb := s.bits(q.T.Args[1-i], orig, unknown, depth+1)
								for j := range v {
									if mb[j] == '1' {
										v[j] = '0'
									} else if mb[j] != '0' {
										v[j] = '?'
									}
								}
							}
						}
					}
				}
				r = addBits(r, v)
			case p.K == -1 && p.T.Op == TBin && p.T.Aux == "&":
				found := false
				for _, q := range ps {
					found = found || q.K == 1 && (q.T == p.T.Args[0] || q.T == p.T.Args[1])
				}
				if !found {
					return unknown
				}
			default:
				return unknown
			}
		}
		return r
	case t.Op == TBin && len(t.Args) == 2:
		a, b := s.bits(t.Args[0], orig, unknown, depth+1), s.bits(t.Args[1], orig, unknown, depth+1)
		r := unknown
		for i := range r {
			x, y := a[i], b[i]
			switch t.Aux {
			case "&^":
				switch y {
				case '0':
					y = '1'
				case '1':
					y = '0'
				default:
					y = '?'
				}
				fallthrough
			case "&":
				switch {
				case x == '0' || y == '0':
					r[i] = '0'
				case x == '1':
					r[i] = y
				case y == '1' || x == y && x != '?':
					r[i] = x
				}
			case "|":
				switch {
				case x == '1' || y == '1':
					r[i] = '1'
				case x == '0':
					r[i] = y
				case y == '0' || x == y && x != '?':
					r[i] = x
				}
			case "^":
				switch {
				case x == '0':
					r[i] = y
				case y == '0':
					r[i] = x
				case x == '1' && y == '1':
					r[i] = '0'
				}
			case "+":
				r[i] = addBits(a, b)[i]
			}
		}
		return r
	}
	return unknown
}

// addBits: the sum, where no carry can occur below.
func addBits(a, b bitvec) (r bitvec) {
	lo := true
	for i := range r {
		r[i] = '?'
		if lo && b[i] == '0' {
			r[i] = a[i]
		} else if lo && a[i] == '0' {
			r[i] = b[i]
		}
		lo = lo && (a[i] == '0' || b[i] == '0')
	}
	return
}

// masked: is (v & mask) equal to k? 1 yes, 0 no, -1 unknown.
func (s *State) masked(v *Term, mask, k int64) int {
	bs := s.bitsOf(v, nil)
	kb, mb := constBits(k), constBits(mask)
	all := true
	for i := range bs {
		if mb[i] == '0' {
			continue
		}
		if bs[i] == '?' {
			all = false
		} else if bs[i] != kb[i] {
			return 0
		}
	}
	if all {
		return 1
	}
	// what facts about masked values say of single bits
	know, _ := s.knownBits()
	res := 1
	for i := range bs {
		if mb[i] == '0' || bs[i] != '?' && bs[i] != 'o' {
			continue
		}
		a, n, c := bitAtom(v, i, 0)
		w := c
		if a != nil {
			w = know[bitKey{a, n}]
		}
		if w == 0 {
			res = -1
		} else if w != kb[i] {
			return 0
		}
	}
	if res < 0 {
		// the masked value as a whole
		s.eachFact(func(f *Term) bool {
			f.walk(func(y *Term) bool {
				if y.Op == TBin && y.Aux == "&" && len(y.Args) == 2 {
					for i := 0; i < 2; i++ {
						if n, ok := y.Args[i].isInt(); ok && uint32(n) == uint32(mask) && stripConv(y.Args[1-i]) == stripConv(v) {
							if e := s.eval(eqTerm(y, num(k))); e >= 0 {
								res = e
							}
						}
					}
				}
				return true
			})
			return res < 0
		})
	}
	return res
}

type bitKey struct {
	a *Term
	i int
}

// bitAtom: the value and bit that bit i of t is, or its constant.
func bitAtom(t *Term, i, depth int) (*Term, int, byte) {
	if n, ok := t.isInt(); ok {
		return nil, 0, '0' + byte(uint64(n)>>uint(i)&1)
	}
	if depth > 12 {
		return t, i, 0
	}
	if t.Op == TConv && len(t.Args) == 1 {
		return bitAtom(t.Args[0], i, depth+1)
	}
	if t.Op == TLin {
		if c, ps := linOf(t); c == 0 && len(ps) == 1 && ps[0].K == 1 && ps[0].T != t {
			return bitAtom(ps[0].T, i, depth+1)
		}
	}
	if t.Op == TBin && len(t.Args) == 2 {
		x, xi, xc := bitAtom(t.Args[0], i, depth+1)
		y, yi, yc := bitAtom(t.Args[1], i, depth+1)
		switch t.Aux {
		case "&", "&^":
			if t.Aux == "&^" && y == nil {
				yc = '0' + '1' - yc
			} else if t.Aux == "&^" {
				break
			}
			switch {
			case x == nil && xc == '0' || y == nil && yc == '0':
				return nil, 0, '0'
			case x == nil:
				return y, yi, yc
			case y == nil || x == y && xi == yi:
				return x, xi, xc
			}
		case "|":
			switch {
			case x == nil && xc == '1' || y == nil && yc == '1':
				return nil, 0, '1'
			case x == nil:
				return y, yi, yc
			case y == nil || x == y && xi == yi:
				return x, xi, xc
			}
		}
	}
	return t, i, 0
}

// knownBits: the bits of unknown values that follow from what is known of
// masked values; false: the facts contradict each other.
func (s *State) knownBits() (map[bitKey]byte, bool) {
	var ys []*Term
	seen := map[*Term]bool{}
	s.eachFact(func(f *Term) bool {
		f.walk(func(y *Term) bool {
			if y.Op == TBin && y.Aux == "&" && len(y.Args) == 2 && !seen[y] {
				seen[y] = true
				ys = append(ys, y)
			}
			return true
		})
		return true
	})
	know, possible := map[bitKey]byte{}, true
	for pass := 0; pass < 2; pass++ {
		for _, y := range ys {
			var mask int64
			if n, ok := y.Args[0].isInt(); ok {
				mask = n
			} else if n, ok := y.Args[1].isInt(); ok {
				mask = n
			} else {
				continue
			}
			var idx []int
			for i := 0; i < 32; i++ {
				if mask>>uint(i)&1 == 1 {
					idx = append(idx, i)
				}
			}
			if len(idx) == 0 || len(idx) > 4 {
				continue
			}
			var all, any int64 // bits that are one in all, in any possible value
			all = -1
			n := 0
			for c := 0; c < 1<<uint(len(idx)); c++ {
				v, fits := int64(0), true
				for j, i := range idx {
					b := byte('0' + c>>uint(j)&1)
					v |= int64(c>>uint(j)&1) << uint(i)
					a, k, cb := bitAtom(y, i, 0)
					if a != nil {
						cb = know[bitKey{a, k}]
					}
					fits = fits && (cb == 0 || cb == b)
				}
				if fits && s.eval(eqTerm(y, num(v))) != 0 {
					all &= v
					any |= v
					n++
				}
			}
			if n == 0 {
				possible = false
				continue
			}
			for _, i := range idx {
				a, k, _ := bitAtom(y, i, 0)
				if a == nil {
					continue
				}
				if all>>uint(i)&1 == 1 {
					know[bitKey{a, k}] = '1'
				} else if any>>uint(i)&1 == 0 {
					know[bitKey{a, k}] = '0'
				}
			}
		}
	}
	return know, possible
}
