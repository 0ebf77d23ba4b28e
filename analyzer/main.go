package main

import (
	"fmt"
	"os"
	"runtime/pprof"
	"sort"
)

// analyzer [-repo DIR] [-verif DIR] ID|all [tier]
func main() {
	repo, verif := "/repo", "/verif"
	args := os.Args[1:]
	for len(args) > 1 && (args[0] == "-repo" || args[0] == "-verif") {
		if args[0] == "-repo" {
			repo = args[1]
		} else {
			verif = args[1]
		}
		args = args[2:]
	}
	if len(args) == 0 {
		fmt.Println("usage: analyzer [-repo DIR] [-verif DIR] ID|all [quick|thorough]")
		os.Exit(2)
	}
	p := loadProg(repo)
	if f := os.Getenv("VPROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)

	}
	if args[0] == "dump" {
		for _, f := range p.all {
			if f.Name() == args[1] {
				f.WriteTo(os.Stdout)
			}
		}
		return
	}
	tier := "quick"
	if len(args) > 1 {
		tier = args[1]
	}
	if args[0] == "all" {
		ids := map[string]bool{}
		for _, r := range allRules {
			ids[r.id] = true
		}
		var l []string
		for id := range ids {
			l = append(l, id)
		}
		sort.Strings(l)
		rc := 0
		for _, id := range l {
			if runRule(p, id, repo, verif, tier) != 0 {
				rc = 1
			}
		}
		os.Exit(rc)
	}
	rc := runRule(p, args[0], repo, verif, tier)
	pprof.StopCPUProfile()
	os.Exit(rc)
}
