package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"time"
)

var checks = map[string]*checkDef{}

func register(d *checkDef) { checks[d.id] = d }

func main() {
	repo := os.Getenv("VERIF_REPO")
	if repo == "" {
		repo = "/repo"
	}
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif = "/verif"
	}
	if e, err := filepath.EvalSymlinks(repo); err == nil {
		repo = e
	}
	if len(os.Args) < 2 {
		fmt.Println("usage: checker PROPERTY...|list|all")
		os.Exit(2)
	}
	ids := os.Args[1:]
	if ids[0] == "list" {
		var l []string
		for k := range checks {
			l = append(l, k)
		}
		sort.Strings(l)
		for _, k := range l {
			fmt.Println(k)
		}
		return
	}
	if ids[0] == "all" {
		ids = nil
		for k := range checks {
			ids = append(ids, k)
		}
		sort.Strings(ids)
	}
	rc := 0
	for _, id := range ids {
		if runOne(id, repo, verif) != 0 {
			rc = 1
		}
	}
	os.Exit(rc)
}

func runOne(id, repo, verif string) (rc int) {
	start := time.Now()
	def := checks[id]
	if def == nil {
		fmt.Printf("unknown property %s\n", id)
		fmt.Printf("VIOLATION property=%s replay=none\n", id)
		return 1
	}
	r := newReport(nil, id)
	r.P = &Program{}
	defer func() {
		if e := recover(); e != nil {
			fmt.Println("analysis failed:", e)
			if os.Getenv("VERIF_DEBUG") != "" {
				debug.PrintStack()
			}
			fmt.Printf("VIOLATION property=%s replay=none\n", id)
			rc = 1
		}
	}()
	P, err := loadProgram(repo)
	if err != nil {
		fmt.Println("cannot load", repo+":", err)
		fmt.Printf("VIOLATION property=%s replay=none\n", id)
		return 1
	}
	r.P = P
	r.Known = loadKnown(filepath.Join(verif, "KNOWN_FINDINGS.txt"), id)
	def.run(P, r)
	return finish(r, def, verif, start)
}
