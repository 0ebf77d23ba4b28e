package main

// Progress of loops (C33): once the fixpoint of a loop is known, the states
// at its back edges are compared with the state at its head. Each way around
// must either have consumed something (a value received, a read that
// succeeded, the next item of a map or string), or bring a quantity that the
// loop itself bounds closer to its bound: one lexicographic order of such
// quantities has to serve all ways around that consume nothing.

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// progressed: something from outside the loop was consumed.
func (x *Exec) progressed(st *State) {
	if !x.rank {
		return
	}
	for k := range st.auto {
		if strings.HasPrefix(k, "ev:") {
			st.auto[k] = "y"
		}
	}
}

// A read only consumes something as long as nothing is seeked.
func (x *Exec) progressedByRead(st *State) {
	for k, v := range st.auto {
		if strings.HasPrefix(k, "ev:") && v == "n" {
			st.auto[k] = "r"
		}
	}
}

func (x *Exec) rewound(st *State) {
	if !x.rank {
		return
	}
	for k, v := range st.auto {
		if strings.HasPrefix(k, "ev:") && v != "y" {
			st.auto[k] = "s"
		}
	}
}

func (x *Exec) inRankLoop(st *State) bool {
	if !x.rank {
		return false
	}
	for k, v := range st.auto {
		if strings.HasPrefix(k, "ev:") && v == "n" {
			return true
		}
	}
	return false
}

// readProgress splits the outcome of a read into one that got something and
// one that did not.
func (x *Exec) readProgress(c *Call, res []Res) []Res {
	if !x.rank || c.results == nil || c.results.Len() == 0 {
		return res
	}
	nm := c.method
	if nm == "" && c.fn != nil {
		nm = c.fn.Name()
	}
	full := false
	switch nm {
	case "Seek":
		for _, r := range res {
			if !r.exit && !r.pan {
				x.rewound(r.st)
			}
		}
		return res
	case "Read", "ReadByte", "ReadRune", "ReadString", "ReadBytes", "ReadLine":
	case "ReadFull", "ReadAtLeast", "ReadAll", "Copy", "CopyN", "CopyBuffer":
		// these may succeed without reading anything
		full = true
	default:
		return res
	}
	last := c.results.At(c.results.Len() - 1).Type()
	if !isErrorType(last) {
		return res
	}
	var out []Res
	for _, r := range res {
		if r.exit || r.pan || len(r.vals) != c.results.Len() || !x.inRankLoop(r.st) {
			out = append(out, r)
			continue
		}
		var n *Term
		if c.results.Len() == 2 && isIntType(c.results.At(0).Type()) {
			n = r.vals[0]
		}
		if n != nil && r.st.provesGe(n, mkInt(1)) {
			x.progressedByRead(r.st)
			out = append(out, r)
			continue
		}
		e := r.vals[len(r.vals)-1]
		switch r.st.nilClass(e) {
		case 2:
			// what a failed read returned counts if there was anything
			if n == nil || r.st.provesGe(mkInt(0), n) {
				out = append(out, r)
				continue
			}
			q := r
			q.st = r.st.clone()
			if r.st.addGe(mkInt(0), n) {
				out = append(out, r)
			}
			if q.st.addGe(n, mkInt(1)) {
				x.progressedByRead(q.st)
				out = append(out, q)
			}
		case 1:
			if full && n != nil {
				q := r
				q.st = r.st.clone()
				if r.st.addGe(mkInt(0), n) {
					out = append(out, r)
				}
				if q.st.addGe(n, mkInt(1)) {
					x.progressedByRead(q.st)
					out = append(out, q)
				}
				continue
			}
			x.progressedByRead(r.st)
			out = append(out, r)
		default:
			q := r
			q.st = r.st.clone()
			if r.st.assume(mkEq(e, nilT), false) {
				out = append(out, r)
			}
			if q.st.assume(mkEq(e, nilT), true) {
				x.progressedByRead(q.st)
				out = append(out, q)
			}
		}
	}
	return out
}

type rankLoc struct {
	name  string
	phi   *ssa.Phi
	cell  *Term
	ghost string
	part  int  // component of the ghost value, or -1
	kind  byte // i: integer, l: length, n: nilness, b: truth
	uns   bool
}

func (l *rankLoc) of(v *Term) *Term {
	switch l.kind {
	case 'l':
		if v.kind == KSlice {
			return mkSub(v.args[2], v.args[1])
		}
		return mkLen(v)
	}
	return v
}

func kindOfLoc(t types.Type) byte {
	if t == nil {
		return 0
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			return 'i'
		}
		if u.Info()&types.IsBoolean != 0 {
			return 'b'
		}
	case *types.Slice:
		return 'l'
	case *types.Pointer, *types.Interface, *types.Signature, *types.Chan, *types.Map:
		return 'n'
	}
	return 0
}

type backEdge struct {
	st     *State
	part   string
	locs   map[string]*rankLoc
	old    map[string]*Term
	cur    map[string]*Term
	header *State
}

// rankLoop checks that the loop makes progress.
func (x *Exec) rankLoop(fn *ssa.Function, ctx *Ctx, L *Loop, loopID string, acc map[string]*accState, order []string, inv map[*Term]bool, entryEpoch map[*Term]int) {
	fi := infoOf(fn)
	in := L.header.Instrs[0]
	for _, i := range L.header.Instrs {
		if _, ok := i.(*ssa.Phi); !ok {
			in = i
			break
		}
	}
	var bs []*backEdge
	for _, k := range order {
		h := acc[k].st.clone()
		locs := map[string]*rankLoc{}
		add := func(l *rankLoc, v *Term) {
			if v == nil || l.kind == 0 {
				return
			}
			locs[l.name] = l
			h.ghost["rk:"+loopID+":"+l.name] = l.of(v)
		}
		for i, instr := range L.header.Instrs {
			phi, ok := instr.(*ssa.Phi)
			if !ok {
				break
			}
			add(&rankLoc{name: fmt.Sprintf("p%d", i), phi: phi, kind: kindOfLoc(phi.Type()), uns: isUnsigned(phi.Type())}, h.env[reg{ctx, phi}])
		}
		for _, c := range sortedTerms(h.mem) {
			t := cellType(c)
			if t == nil {
				continue
			}
			add(&rankLoc{name: fmt.Sprintf("c%d", c.id), cell: c, kind: kindOfLoc(t), uns: isUnsigned(t)}, h.mem[c])
		}
		for _, g := range sortedNames(h.ghost) {
			v := h.ghost[g]
			if strings.HasPrefix(g, "rk:") || v == nil {
				continue
			}
			if isIntTerm(v) {
				add(&rankLoc{name: "g" + g, ghost: g, part: -1, kind: 'i'}, v)
				continue
			}
			for i, a := range v.args {
				if isIntTerm(a) {
					add(&rankLoc{name: fmt.Sprintf("g%s.%d", g, i), ghost: g, part: i, kind: 'i'}, a)
				}
			}
		}
		h.auto["ev:"+loopID] = "n"
		ex, _ := x.region(fn, ctx, L, []edge{{nil, L.header, h}})
		for _, e := range ex {
			if e.to != L.header {
				continue
			}
			st := x.phis(e.st, ctx, e.from, L.header)
			if v := st.auto["ev:"+loopID]; v != "n" && v != "s" {
				continue
			}
			x.gcAt(st, ctx, func(v ssa.Value) bool { return fi.liveIn[L.header][v] || isPhiOf(v, L.header) })
			if x.h.BackEdge != nil && !x.h.BackEdge(st.clone(), L.header) {
				continue
			}
			if !st.consistent() || infeasible(st.lin) {
				continue
			}
			b := &backEdge{st: st, part: k, locs: locs, old: map[string]*Term{}, cur: map[string]*Term{}, header: acc[k].st}
			for n, l := range locs {
				o := st.ghost["rk:"+loopID+":"+n]
				var v *Term
				if l.phi != nil {
					v = st.env[reg{ctx, l.phi}]
				} else if l.ghost != "" {
					v = st.ghost[l.ghost]
					if v != nil && l.part >= 0 {
						if l.part < len(v.args) && isIntTerm(v.args[l.part]) {
							v = v.args[l.part]
						} else {
							v = nil
						}
					}
				} else {
					v = st.mem[l.cell]
				}
				if o == nil || v == nil {
					continue
				}
				b.old[n], b.cur[n] = o, l.of(v)
			}
			bs = append(bs, b)
		}
	}
	x.count("loop", in)
	x.ranked[L.header] = true
	if len(bs) == 0 {
		return
	}
	// what changes
	vary := map[string]*rankLoc{}
	for _, b := range bs {
		for n, l := range b.locs {
			if b.old[n] == nil || b.cur[n] != b.old[n] {
				vary[n] = l
			}
		}
	}
	names := sortedNames(vary)
	sym := map[string]*Term{}
	symName := map[*Term]string{}
	for _, n := range names {
		if vary[n].kind == 'n' || vary[n].kind == 'b' {
			continue
		}
		s := mkSym("loc:"+loopID+":"+n, types.Typ[types.Int64])
		sym[n] = s
		symName[s] = n
	}
	// what does not change, but may have before
	var still []string
	for _, b := range bs {
		for n, l := range b.locs {
			if vary[n] != nil || sym[n] != nil || l.kind == 'n' || l.kind == 'b' || b.old[n] == nil {
				continue
			}
			if a := soleAtom(b.old[n]); a != nil && !fixedTerm(a, inv, entryEpoch) {
				t := mkSym("loc:"+loopID+":"+n, types.Typ[types.Int64])
				sym[n], symName[t] = t, n
				still = append(still, n)
			}
		}
	}
	sort.Strings(still)
	cands := map[string]*Poly{}
	var corder []string
	addCand := func(p *Poly) {
		if len(p.terms) == 0 || p.bad {
			return
		}
		kk := p.key()
		if cands[kk] == nil {
			cands[kk] = p
			corder = append(corder, kk)
		}
	}
	for _, n := range names {
		if s := sym[n]; s != nil {
			addCand(asPoly(s))
		}
	}
	for _, n := range names {
		if sym[n] == nil {
			continue
		}
		var max, min int64
		seen := false
		for _, b := range bs {
			for _, v := range []*Term{b.old[n], b.cur[n]} {
				if v == nil {
					continue
				}
				if c, ok := constInt(v); ok {
					if !seen || c > max {
						max = c
					}
					if !seen || c < min {
						min = c
					}
					seen = true
				}
			}
		}
		if seen {
			addCand(polyConst(max).add(asPoly(sym[n]), -1))
			if min < 0 {
				addCand(asPoly(sym[n]).add(polyConst(min), -1))
			}
		}
	}
	for _, b := range bs {
		// atoms standing for the old value of a location
		at := map[*Term]*Term{}
		for _, n := range append(append([]string(nil), names...), still...) {
			if o := b.old[n]; sym[n] != nil && o != nil {
				if a := soleAtom(o); a != nil {
					if at[a] == nil {
						at[a] = sym[n]
					}
				}
			}
		}
		for _, c := range b.st.lin {
			if c.p.bad {
				continue
			}
			used, ok := false, true
			p := c.p.subst(func(a *Term) *Poly {
				if s := at[a]; s != nil {
					used = true
					return asPoly(s)
				}
				return nil
			})
			p.eachAtom(func(a *Term) {
				if symName[a] != "" {
					return
				}
				if !fixedTerm(a, inv, entryEpoch) {
					ok = false
				}
			})
			if !used || !ok || len(corder) > 80 {
				continue
			}
			addCand(p)
			if c.eq {
				addCand(p.scale(-1))
			}
		}
	}
	eval := func(p *Poly, vals map[string]*Term) *Term {
		ok := true
		q := p.subst(func(a *Term) *Poly {
			n := symName[a]
			if n == "" {
				return nil
			}
			if vals[n] == nil {
				ok = false
				return nil
			}
			return asPoly(vals[n])
		})
		if !ok || q.bad {
			return nil
		}
		return fromPoly(q)
	}
	// 2: closer to its bound, 1: no further away, 0: unknown
	judge := func(p *Poly, b *backEdge) int {
		o, c := eval(p, b.old), eval(p, b.cur)
		if o == nil || c == nil {
			return 0
		}
		if !b.st.provesGe(o, c) {
			return 0
		}
		wrap := false
		p.eachAtom(func(a *Term) {
			if n := symName[a]; n != "" && vary[n] != nil && vary[n].uns && !b.st.provesGe(b.cur[n], mkInt(0)) {
				wrap = true
			}
		})
		if wrap {
			return 0
		}
		if b.st.provesGe(o, mkAdd(c, mkInt(1))) {
			if b.st.provesGe(o, mkInt(0)) {
				return 2
			}
			// the same combination with another bound
			for _, k := range corder {
				q := cands[k]
				d := q.add(p, -1)
				if !d.mentionsAny(symName) {
					if oq := eval(q, b.old); oq != nil && b.st.provesGe(oq, mkInt(0)) {
						return 2
					}
				}
			}
		}
		return 1
	}
	// references that become nil (or come to be set), truths that change
	judgeNil := func(n string, b *backEdge, want int) int {
		o, c := b.old[n], b.cur[n]
		if o == nil || c == nil {
			return 0
		}
		if o == c {
			return 1
		}
		class := b.st.nilClass
		if vary[n].kind == 'b' {
			class = func(t *Term) int {
				switch b.st.truth(t) {
				case 1:
					return 2
				case 0:
					return 1
				}
				return 0
			}
		}
		if class(c) == want {
			if class(o) == 3-want {
				return 2
			}
			return 1
		}
		if class(o) == 3-want {
			return 1
		}
		return 0
	}
	rest := bs
	for len(rest) > 0 {
		var left []*backEdge
		best := len(rest)
		try := func(j func(b *backEdge) int) {
			var l []*backEdge
			for _, b := range rest {
				switch j(b) {
				case 0:
					return
				case 1:
					l = append(l, b)
				}
			}
			if len(l) < best {
				best, left = len(l), l
			}
		}
		for _, k := range corder {
			if best == 0 {
				break
			}
			p := cands[k]
			try(func(b *backEdge) int { return judge(p, b) })
		}
		for _, n := range names {
			for _, want := range []int{1, 2} {
				if best > 0 && (vary[n].kind == 'n' || vary[n].kind == 'b') {
					try(func(b *backEdge) int { return judgeNil(n, b, want) })
				}
			}
		}
		if best == len(rest) {
			if x.dbg {
				for _, k := range corder {
					fmt.Fprintln(os.Stderr, "RANK cand", cands[k])
				}
				for _, b := range rest {
					fmt.Fprintln(os.Stderr, "RANK", x.pos(in), "part", b.part, "auto", b.st.autoKey())
					for _, n := range names {
						fmt.Fprintln(os.Stderr, "    ", n, vary[n].cell, vary[n].phi, ":", b.old[n], "->", b.cur[n])
					}
					for _, c := range b.st.lin {
						fmt.Fprintln(os.Stderr, "      ", c)
					}
				}
			}
			sort.SliceStable(rest, func(i, k int) bool { return traceLen(rest[i].st) < traceLen(rest[k].st) })
			x.report(rest[0].st, in, "no-progress", "this loop can go round without receiving or reading anything and without coming closer to its end")
			return
		}
		rest = left
	}
}

func traceLen(s *State) int {
	if s.trace == nil {
		return 0
	}
	return s.trace.n
}

// fixedTerm: t has the value it had when the loop was entered.
func fixedTerm(t *Term, inv map[*Term]bool, epoch map[*Term]int) bool {
	switch t.kind {
	case KSym, KAlloc:
		return inv[t]
	case KLoad:
		if t.name != fmt.Sprint(epoch[rootOf(t.args[0])]) {
			return false
		}
	case KCall:
		if len(t.args) == 0 {
			return false
		}
	}
	for _, a := range t.args {
		if !fixedTerm(a, inv, epoch) {
			return false
		}
	}
	if t.poly != nil {
		for _, m := range t.poly.terms {
			for _, a := range m.atoms {
				if !fixedTerm(a, inv, epoch) {
					return false
				}
			}
		}
	}
	return true
}

// soleAtom: the symbol t consists of.
func soleAtom(t *Term) *Term {
	p := asPoly(t)
	if p.c != 0 || len(p.terms) != 1 || p.bad {
		return nil
	}
	m := p.terms[0]
	if m.coef != 1 || len(m.atoms) != 1 {
		return nil
	}
	return m.atoms[0]
}

func (p *Poly) mentionsAny(m map[*Term]string) bool {
	r := false
	p.eachAtom(func(a *Term) {
		if m[a] != "" {
			r = true
		}
	})
	return r
}
