package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

type Violation struct {
	Rule  string
	Fn    string
	Pos   string
	Msg   string
	Trace []string
}

func (v Violation) key() string { return v.Rule + "|" + v.Pos + "|" + stripNums(v.Msg) }

// Report collects what a check found and what it looked at.
type Report struct {
	P           *Program
	Prop        string
	Viol        []Violation
	seen        map[string]bool
	Oblig       int // obligations examined
	Disch       int // obligations discharged
	Counts      map[string]int
	Samples     []string
	Assumptions []string
	Known       []Known
	KnownHit    []string
	Rules       []string
	sampleSeen  map[string]bool
}

type Known struct {
	Prop, Rule, Fn, What string
}

func newReport(P *Program, prop string) *Report {
	return &Report{P: P, Prop: prop, seen: map[string]bool{}, Counts: map[string]int{}, sampleSeen: map[string]bool{}}
}

type repMark struct{ nv, ob, di, ns int }

func (r *Report) mark() repMark { return repMark{len(r.Viol), r.Oblig, r.Disch, len(r.Samples)} }
func (r *Report) rollback(m repMark) {
	for _, v := range r.Viol[m.nv:] {
		delete(r.seen, v.key())
	}
	r.Viol = r.Viol[:m.nv]
	r.Oblig, r.Disch = m.ob, m.di
	for _, s := range r.Samples[m.ns:] {
		delete(r.sampleSeen, s)
	}
	r.Samples = r.Samples[:m.ns]
}

// OK counts a discharged obligation.
func (r *Report) OK(pos token.Pos, what string) {
	r.Oblig++
	r.Disch++
	if len(r.Samples) < 40 {
		s := r.P.pos(pos) + ": " + what
		if !r.sampleSeen[s] {
			r.sampleSeen[s] = true
			r.Samples = append(r.Samples, s)
		}
	}
}

func (r *Report) Add(pos token.Pos, rule, fn string, st *State, format string, a ...interface{}) {
	r.Oblig++
	v := Violation{Rule: rule, Fn: fn, Pos: r.P.pos(pos), Msg: fmt.Sprintf(format, a...)}
	// identical findings that differ only in symbol numbers are one
	k := v.key()
	if r.seen[k] {
		return
	}
	r.seen[k] = true
	if st != nil {
		var tr []string
		for t := st.trace; t != nil && len(tr) < 400; t = t.up {
			tr = append(tr, r.P.pos(t.pos)+": "+t.desc)
		}
		for i, j := 0, len(tr)-1; i < j; i, j = i+1, j-1 {
			tr[i], tr[j] = tr[j], tr[i]
		}
		v.Trace = tr
	}
	r.Viol = append(r.Viol, v)
}

func stripNums(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '#' {
			j := i + 1
			for j < len(s) && s[j] >= '0' && s[j] <= '9' {
				j++
			}
			if j > i+1 {
				i = j - 1
				continue
			}
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

// Floor makes a check that found nothing to look at fail.
func (r *Report) Floor(name string, got, min int) {
	r.Counts[name] = got
	// code that was joined into fewer places is no reason for an alarm
	min = (min + 3) / 4
	if got < min {
		r.Add(token.NoPos, "vacuous", "", nil, "only %d %s found (at least %d expected): the rule no longer finds the code it is about", got, name, min)
	}
}

// known findings file: property | rule | function | what
func loadKnown(path, prop string) []Known {
	data, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var ks []Known
	for _, l := range strings.Split(string(data), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		f := strings.SplitN(strings.TrimSpace(strings.TrimPrefix(l, "known:")), "|", 4)
		if len(f) != 4 {
			continue
		}
		for i := range f {
			f[i] = strings.TrimSpace(f[i])
		}
		if f[0] == "property="+prop {
			ks = append(ks, Known{prop, f[1], f[2], f[3]})
		}
	}
	return ks
}

type checkDef struct {
	id    string
	rule  string
	run   func(P *Program, r *Report)
	assum []string
}

func finish(r *Report, def *checkDef, verif string, start time.Time) int {
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var open []Violation
	for _, v := range r.Viol {
		hit := false
		for _, k := range r.Known {
			if k.Rule == v.Rule && k.Fn == v.Fn {
				hit = true
				r.KnownHit = append(r.KnownHit, fmt.Sprintf("KNOWN-FINDING: property=%s %s (%s, %s)", r.Prop, k.What, v.Fn, v.Pos))
			}
		}
		if !hit {
			open = append(open, v)
		}
	}
	sort.SliceStable(open, func(i, j int) bool { return open[i].key() < open[j].key() })
	ev := map[string]interface{}{
		"property": r.Prop, "tier": tier, "seed": seed, "level": "other",
		"wall_s":     time.Since(start).Seconds(),
		"violations": len(open),
	}
	cov := map[string]interface{}{
		"explanation":            def.rule,
		"obligations_examined":   r.Oblig,
		"obligations_discharged": r.Disch,
		"samples":                r.Samples,
	}
	for k, v := range r.Counts {
		if !strings.HasPrefix(k, "fn:") {
			cov[strings.ReplaceAll(k, " ", "_")] = v
		}
	}
	var fns []string
	for k := range r.Counts {
		if strings.HasPrefix(k, "fn:") {
			fns = append(fns, strings.TrimPrefix(k, "fn:"))
		}
	}
	sort.Strings(fns)
	if len(fns) > 0 {
		cov["functions_analysed"] = len(fns)
		cov["functions"] = fns
	}
	ev["coverage"] = cov
	ev["assumptions"] = append(append([]string{}, def.assum...), r.Assumptions...)
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	data, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", r.Prop+".json"), append(data, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
	}
	seen := map[string]bool{}
	for _, k := range r.KnownHit {
		if !seen[k] {
			seen[k] = true
			fmt.Println(k)
		}
	}
	replay := filepath.Join(verif, "evidence", r.Prop+".violations.txt")
	os.Remove(replay)
	if len(open) == 0 {
		fmt.Printf("OK property=%s obligations=%d discharged=%d %.1fs\n", r.Prop, r.Oblig, r.Disch, time.Since(start).Seconds())
		return 0
	}
	var b strings.Builder
	for _, v := range open {
		fmt.Fprintf(&b, "%s: %s [%s, in %s]\n", v.Pos, v.Msg, v.Rule, v.Fn)
		for _, t := range v.Trace {
			fmt.Fprintf(&b, "    %s\n", t)
		}
		b.WriteString("\n")
	}
	os.WriteFile(replay, []byte(b.String()), 0o644)
	for i, v := range open {
		if i >= 20 {
			fmt.Printf("... and %d more\n", len(open)-i)
			break
		}
		fmt.Printf("%s: %s [%s, in %s]\n", v.Pos, v.Msg, v.Rule, v.Fn)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, replay)
	return 1
}
