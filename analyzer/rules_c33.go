package main

// C33: no operation goes round for ever.

import (
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// the analyses whose contexts the loops are judged in
var c33contexts = []string{"C02", "C06", "C10", "C12", "C13", "C14", "C15", "C16", "C17", "C19", "C26", "C27", "C09", "C22", "C24", "C04"}

func init() {
	rule("C33", func(p *Prog, r *Report) {
		r.describe("Every loop is analysed in the contexts in which the operations of the library and the commands reach it, to a fixpoint. Each way around it must consume something (a received value, a successful read, the next entry of a map), or all the ways around that do not must decrease one lexicographic order of quantities that the loop itself bounds (integers and lengths held in variables or memory, or a reference that becomes nil). Receiving from a channel that may be closed may also consume nothing.")
		ranked := map[*ssa.BasicBlock]bool{}
		only := os.Getenv("C33ONLY")
		inContexts(p, r, c33contexts, "no-progress", "loop", func(sub *Report) { sub.rank = true }, func(sub *Report) {
			for b := range sub.ranked {
				ranked[b] = true
			}
		})
		// loops that none of these contexts reaches
		for _, f := range p.all {
			var miss bool
			for _, l := range infoOf(f).loops {
				if !ranked[l.header] {
					miss = true
				}
			}
			if !miss || only != "" {
				continue
			}
			f := f
			r.rank, r.ranked = true, map[*ssa.BasicBlock]bool{}
			r.analyse(shortFn(f), func(x *Exec) {
				st := newState(x)
				args := x.params(f)
				if f.Signature.Recv() != nil && len(args) > 0 {
					x.nonNil(st, args[0])
				}
				x.enter(f, st, args)
			})
			r.rank = false
		}
		r.need("loop", 10)
	})
}

// inContexts runs other analyses for the violations of one kind that they
// meet: their entry points and models are the contexts.
func inContexts(p *Prog, r *Report, ids []string, kind, count string, mode, after func(sub *Report)) {
	only := os.Getenv("C33ONLY")
	for _, id := range ids {
		if only != "" && only != id {
			continue
		}
		for _, ru := range allRules {
			if ru.id != id {
				continue
			}
			t0 := time.Now()
			sub := &Report{id: r.id, p: p, seen: map[string]bool{}, counts: map[string]int{}, fns: map[string]bool{}, assume: map[string]bool{}, sites: map[string]bool{}, precise: r.precise, conf: r.conf, ranked: map[*ssa.BasicBlock]bool{}}
			mode(sub)
			ru.run(p, sub)
			for _, v := range sub.viols {
				if v.rule == kind {
					r.viol(v)
				}
			}
			for s := range sub.sites {
				if strings.HasPrefix(s, count+"@") && !r.sites[s] {
					r.sites[s] = true
					r.counts[count]++
				}
			}
			after(sub)
			for f := range sub.fns {
				r.fns[f] = true
			}
			for a := range sub.assume {
				r.assume[a] = true
			}
			r.runs = append(r.runs, sub.runs...)
			r.steps += sub.steps
			if os.Getenv("VDEBUG") != "" {
				println(r.id, id, time.Since(t0).String())
			}
		}
	}
}
