package main

// Rule driver, reports and evidence.

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Report struct {
	id     string
	p      *Prog
	viols  []*Violation
	seen   map[string]bool
	counts map[string]int
	fns    map[string]bool
	runs   []string
	assume map[string]bool
	sites  map[string]bool
	steps  int
	rules  []string

	ranked  map[*ssa.BasicBlock]bool
	crash   bool   // only panics are of interest
	rank    bool   // only the progress of loops is of interest
	precise bool   // the precise join from the start
	conf    string // build configuration analysed, if not the host's
}

type Rule struct {
	id  string
	run func(p *Prog, r *Report)
}

var allRules []Rule

func rule(id string, run func(p *Prog, r *Report)) {
	allRules = append(allRules, Rule{id, run})
}

func (r *Report) viol(v *Violation) {
	if r.conf != "" {
		v.msg = "(" + r.conf + ") " + v.msg
	}
	k := v.rule + "|" + v.construct
	if r.seen[k] {
		return
	}
	r.seen[k] = true
	r.viols = append(r.viols, v)
}

func (r *Report) fail(rule, construct, pos, format string, a ...interface{}) {
	r.viol(&Violation{rule: rule, construct: construct, pos: pos, msg: fmt.Sprintf(format, a...)})
}

func (r *Report) describe(format string, a ...interface{}) {
	l := fmt.Sprintf(format, a...)
	for _, o := range r.rules {
		if o == l {
			return
		}
	}
	r.rules = append(r.rules, l)
}

// need reports a violation when fewer than n instances were analysed.
func (r *Report) need(what string, n int) {
	if r.counts[what] < n {
		r.fail("coverage", what, "", "only %d instances of %q found (at least %d expected): the rule no longer covers the code it is about", r.counts[what], what, n)
	}
}

// analyse runs one dataflow analysis (repeated while it asks for more
// relational templates).
func (r *Report) analyse(name string, body func(x *Exec)) {
	tpl := map[string]map[*Term]bool{}
	var x *Exec
	precise := r.precise
	for i := 0; i < 8; i++ {
		x = newExec(r.p, r.id)
		x.templates = tpl
		x.pairJoin = precise
		if r.crash {
			x.crash = true
			x.only = map[string]bool{"may-panic": true}
		}
		if r.rank {
			x.rank = true
			x.only = map[string]bool{"no-progress": true}
		}
		body(x)
		if x.restart && i < 6 {
			continue
		}
		if len(x.viol) == 0 || x.pairJoin || len(x.counts) > 0 {
			break
		}
		// an alarm must persist when joins keep more relations
		precise = true
	}
	if x.restart {
		x.restart = false
	}
	for _, k := range x.violOrd {
		r.viol(x.viol[k])
	}
	for s := range x.sites {
		r.sites[s] = true
	}
	for b := range x.ranked {
		r.ranked[b] = true
	}
	for k, v := range x.cnt {
		r.counts[k] += v
	}
	for f := range x.fns {
		r.fns[f] = true
	}
	for a := range x.assumptions {
		r.assume[a] = true
	}
	r.runs = append(r.runs, name)
	r.steps += x.steps
}

// enter analyses fn with unknown arguments.
func (x *Exec) params(fn *ssa.Function) []*Term {
	args := make([]*Term, len(fn.Params))
	for i, p := range fn.Params {
		args[i] = mkSym("arg:"+p.Name(), p.Type())
		if args[i].typ == nil {
			args[i].typ = p.Type()
		}
		x.created[args[i]] = true
		x.pinned[args[i]] = true
	}
	return args
}

func (x *Exec) enter(fn *ssa.Function, st *State, args []*Term) []Outcome {
	ctx := x.mkCtx(nil, nil, fn)
	for i, p := range fn.Params {
		st.env[reg{ctx, p}] = args[i]
	}
	for _, fv := range fn.FreeVars {
		st.env[reg{ctx, fv}] = mkSym("free:"+fv.Name(), fv.Type())
	}
	return x.runFunction(fn, ctx, st)
}

func (x *Exec) nonNil(st *State, t *Term) { st.assume(mkEq(t, nilT), false) }

func structFieldIdx(t types.Type, name string) int {
	s := structOf(t)
	if s == nil {
		return -1
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

// fieldAddr: address of the named field of the struct at ptr.
func fieldAddr(ptr *Term, owner types.Type, name string) *Term {
	i := structFieldIdx(owner, name)
	if i < 0 {
		return nil
	}
	return mkField(ptr, owner, i)
}

// fieldVal: named component of a struct value.
func fieldVal(v *Term, owner types.Type, name string) *Term {
	i := structFieldIdx(owner, name)
	if i < 0 {
		return nil
	}
	r := mkFieldV(v, i)
	if r.typ == nil && r.kind == KFieldV {
		r.typ = fieldType(owner, i)
	}
	return r
}

// ---------- known findings ----------

type finding struct {
	prop, key, text string
}

// lines: "known: property=<id> rule=<rule> construct=<construct> <text>"
// and "fixed: property=<id> <commit> <text>" (which suppress nothing).
func knownFindings(file string) []finding {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var out []finding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		f := finding{}
		var rest []string
		rl, cn := "", ""
		for _, w := range strings.Fields(strings.TrimPrefix(l, "known:")) {
			switch {
			case strings.HasPrefix(w, "property="):
				f.prop = w[9:]
			case strings.HasPrefix(w, "rule="):
				rl = w[5:]
			case strings.HasPrefix(w, "construct="):
				cn = w[10:]
			default:
				rest = append(rest, w)
			}
		}
		f.key = rl + "|" + cn
		f.text = strings.Join(rest, " ")
		out = append(out, f)
	}
	return out
}

// runOn applies the rule to one program.
func (r *Report) runOn(p *Prog) (found bool) {
	r.p = p
	if len(p.loadErrs) > 0 {
		r.fail("load", "load", "", "the program does not type-check: %s", strings.Join(p.loadErrs, "; "))
		return true
	}
	for _, ru := range allRules {
		if ru.id != r.id {
			continue
		}
		found = true
		func() {
			defer func() {
				if e := recover(); e != nil {
					if os.Getenv("VDEBUG") != "" {
						panic(e)
					}
					r.fail("internal", "analyser", "", "the analysis could not be completed: %v", e)
				}
			}()
			ru.run(p, r)
		}()
	}
	return found
}

func runRule(p *Prog, id, repo, verif, tier string) int {
	start := time.Now()
	r := &Report{id: id, p: p, ranked: map[*ssa.BasicBlock]bool{}, seen: map[string]bool{}, counts: map[string]int{}, fns: map[string]bool{}, assume: map[string]bool{}, sites: map[string]bool{}}
	r.precise = tier == "thorough"
	if !r.runOn(p) {
		fmt.Println("no such rule", id)
		return 2
	}
	if r.precise {
		confs, looked := otherConfigs(repo)
		r.describe("Joins keep relations between any two values from the start. The source files of %d build configurations were compared with those analysed; %d differ and were analysed as well.", looked, len(confs))
		for _, c := range confs {
			r.conf = c.String()
			r.runOn(loadProg(repo, c))
		}
	}
	known := knownFindings(filepath.Join(verif, "known_findings.txt"))
	var news, olds []*Violation
	for _, v := range r.viols {
		k := v.rule + "|" + v.construct
		isKnown := false
		for _, f := range known {
			if f.prop == id && f.key == k {
				isKnown = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, f.text)
			}
		}
		if isKnown {
			olds = append(olds, v)
		} else {
			news = append(news, v)
		}
	}
	writeEvidence(verif, tier, r, news, olds, time.Since(start))
	for _, v := range news {
		fmt.Printf("%s: %s at %s: %s\n", id, v.rule, v.pos, v.msg)
		for _, t := range v.trace {
			fmt.Printf("    %s\n", t)
		}
	}
	if len(news) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, filepath.Join(verif, "evidence", id+".json"))
		return 1
	}
	var cs []string
	for k, v := range r.counts {
		cs = append(cs, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(cs)
	fmt.Printf("%s: holds (%d functions, %d abstract steps; %s)\n", id, len(r.fns), r.steps, strings.Join(cs, ", "))
	return 0
}

func writeEvidence(verif, tier string, r *Report, news, olds []*Violation, d time.Duration) {
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0o755)
	seed := 0
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	fns, sites, as := []string{}, []string{}, []string{}
	for f := range r.fns {
		fns = append(fns, shortName(f))
	}
	for s := range r.sites {
		sites = append(sites, s)
	}
	for a := range r.assume {
		as = append(as, a)
	}
	sort.Strings(fns)
	sort.Strings(sites)
	sort.Strings(as)
	obl := 0
	for _, v := range r.counts {
		obl += v
	}
	vs := func(l []*Violation) []map[string]interface{} {
		out := []map[string]interface{}{}
		for _, v := range l {
			out = append(out, map[string]interface{}{"rule": v.rule, "construct": v.construct, "position": v.pos, "message": v.msg, "path": v.trace})
		}
		return out
	}
	ev := map[string]interface{}{
		"property": r.id,
		"tier":     tier,
		"level":    "other",
		"seed":     seed,
		"wall_s":   d.Seconds(),
		"coverage": map[string]interface{}{
			"explanation":    strings.Join(r.rules, " ") + " Decided on the SSA form of the current source of /repo by path-sensitive abstract interpretation with loop fixpoints; no code of /repo is executed.",
			"functions":      fns,
			"analyses":       r.runs,
			"instances":      r.counts,
			"sites":          sites,
			"obligations":    obl,
			"abstract_steps": r.steps,
		},
		"result":            map[bool]string{true: "held", false: "violated"}[len(news) == 0],
		"assumptions":       as,
		"violations":        len(news),
		"violation_details": vs(news),
		"known_findings":    vs(olds),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, r.id+".json"), append(b, '\n'), 0o644)
}
