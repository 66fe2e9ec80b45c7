package main

import (
	"fmt"
	"sort"
	"strings"
)

// Ghost is the typestate of simple monitors: named marks on terms.
type Ghost struct {
	m map[string]string
	t map[string]*Term
}

func (g *Ghost) Clone() MonState {
	n := &Ghost{map[string]string{}, map[string]*Term{}}
	for k, v := range g.m {
		n.m[k] = v
	}
	for k, v := range g.t {
		n.t[k] = v
	}
	return n
}

func (g *Ghost) Key() string {
	var l []string
	for k, v := range g.m {
		l = append(l, k+"="+v)
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

func (g *Ghost) Terms() []*Term {
	var l []*Term
	for _, v := range g.t {
		if v != nil {
			l = append(l, v)
		}
	}
	return l
}

func gk(kind string, t *Term) string {
	if t == nil {
		return kind
	}
	return fmt.Sprint(kind, ":", t.ID)
}

func ghost(st *State) *Ghost {
	if g, ok := st.mon.(*Ghost); ok {
		return g
	}
	g := &Ghost{map[string]string{}, map[string]*Term{}}
	st.mon = g
	return g
}

func (s *State) g(kind string, t *Term) string {
	if g, ok := s.mon.(*Ghost); ok {
		return g.m[gk(kind, t)]
	}
	return ""
}

func (s *State) setG(kind string, t *Term, v string) {
	g := ghost(s)
	k := gk(kind, t)
	if v == "" {
		delete(g.m, k)
		delete(g.t, k)
		return
	}
	g.m[k] = v
	g.t[k] = t
}

// eachG calls f for every mark of a kind.
func (s *State) eachG(kind string, f func(t *Term, v string)) {
	g, ok := s.mon.(*Ghost)
	if !ok {
		return
	}
	var ks []string
	for k := range g.m {
		if strings.HasPrefix(k, kind+":") || k == kind {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		f(g.t[k], g.m[k])
	}
}
