package main

// Join / widening of abstract states.

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type joinOpts struct {
	widen   bool
	sumBase *Term // ghost "$sum" is an element summary of this object
	hard    bool  // only keep what one side has
}

type jpair struct{ a, n *Term }

type jbind struct {
	j    *Term
	a, n *Term // nil: vacuous on that side
}

type joiner struct {
	x    *Exec
	A, N *State
	tag  string
	memo map[jpair]*Term
	bind []jbind
	fam  string // "" or the summary family of the cell being joined
	path string
	used map[string]bool
}

// sumFamily returns the summary family of a symbol ("" for plain symbols).
func sumFamily(t *Term) string {
	if t.kind == KSym && strings.HasPrefix(t.name, "sum:") {
		if i := strings.IndexByte(t.name, '|'); i > 0 {
			return t.name[:i]
		}
		return t.name
	}
	return ""
}

func polyFamilies(p *Poly) map[string]bool {
	var r map[string]bool
	p.eachAtom(func(a *Term) {
		for _, s := range a.atomsOf() {
			if f := sumFamily(s); f != "" {
				if r == nil {
					r = map[string]bool{}
				}
				r[f] = true
			}
		}
	})
	return r
}

func (j *joiner) fresh(typ types.Type) *Term {
	nm := j.tag + "." + j.path
	if j.fam != "" {
		nm = j.fam + "|" + nm
	}
	n := nm
	for k := 1; j.used[n]; k++ {
		n = fmt.Sprintf("%s#%d", nm, k)
	}
	j.used[n] = true
	t := mkSym(n, typ)
	if t.typ == nil && typ != nil {
		t.typ = typ
	}
	j.x.created[t] = true
	return t
}

func typOf(a, n *Term) types.Type {
	if a != nil && a.typ != nil && a != nilT {
		return a.typ
	}
	if n != nil && n.typ != nil && n != nilT {
		return n.typ
	}
	return nil
}

func (j *joiner) join(a, n *Term) *Term {
	if a == n {
		return a
	}
	if r, ok := j.memo[jpair{a, n}]; ok {
		return r
	}
	r := j.join1(a, n)
	j.memo[jpair{a, n}] = r
	return r
}

func (j *joiner) sub(i int, a, n *Term) *Term {
	sv := j.path
	j.path = fmt.Sprintf("%s.%d", sv, i)
	r := j.join(a, n)
	j.path = sv
	return r
}

func (j *joiner) leaf(a, n *Term) *Term {
	t := j.fresh(typOf(a, n))
	j.bind = append(j.bind, jbind{t, a, n})
	return t
}

func (j *joiner) join1(a, n *Term) *Term {
	if a == botT {
		return j.oneSided(n, false)
	}
	if n == botT {
		return j.oneSided(a, true)
	}
	if (isIntTerm(a) || isIntTerm(n)) && !(isPair(a) && isPair(n) && a.name == n.name) {
		return j.leaf(a, n)
	}
	// structs on one side only: explode the other
	if a.kind == KStruct && n.kind != KStruct && structOf(a.typ) != nil && len(a.args) > 0 {
		n = explode(n, a.typ)
	} else if n.kind == KStruct && a.kind != KStruct && structOf(n.typ) != nil && len(n.args) > 0 {
		a = explode(a, n.typ)
	}
	if a.kind == n.kind && len(a.args) == len(n.args) && len(a.args) > 0 {
		ok := false
		switch a.kind {
		case KStruct, KTuple, KStr:
			ok = true
		case KSlice:
			ok = true
		case KIface, KField:
			ok = a.name == n.name && typeKey(a.typ) == typeKey(n.typ)
			if a.kind == KField && ok {
				ok = typeKey(a.obj.(fieldRef).owner) == typeKey(n.obj.(fieldRef).owner)
			}
		case KIndex:
			ok = true
		case KClosure, KFieldV, KCall, KBin:
			ok = a.name == n.name && a.obj == n.obj || a.name == n.name && a.kind != KClosure
			if a.kind == KCall && (a.name == "nonnil:" || a.name == "byteSet" || a.name == "copied") {
				ok = false
			}
		case KLoad:
			ok = a.name == n.name && j.memo[jpair{a.args[0], n.args[0]}] != nil
		}
		if ok {
			args := make([]*Term, len(a.args))
			for i := range args {
				args[i] = j.sub(i, a.args[i], n.args[i])
			}
			return rebuild(a, args, nil)
		}
	}
	if isSliceish(a) && isSliceish(n) && (a.kind == KSlice || n.kind == KSlice) && a != nilT && n != nilT {
		ab, al, ah := sliceParts(a)
		nb, nl, nh := sliceParts(n)
		t := typOf(a, n)
		return mkSlice(j.sub(0, ab, nb), j.sub(1, al, nl), j.sub(2, ah, nh), t)
	}
	return j.leaf(a, n)
}

// isPair: integer terms that keep their structure at joins, so that the
// value stays tied to its argument.
func isPair(t *Term) bool {
	return t.kind == KCall && t.name == "last block of"
}

func isSliceish(t *Term) bool {
	return t.kind == KSlice || isSliceRef(t)
}

func explode(v *Term, typ types.Type) *Term {
	s := structOf(typ)
	vals := make([]*Term, s.NumFields())
	for i := range vals {
		vals[i] = mkFieldV(v, i)
		if vals[i].kind == KFieldV && vals[i].typ == nil {
			vals[i].typ = s.Field(i).Type()
		}
	}
	return mkStruct(typ, vals)
}

// oneSided generalises a value that exists on one side only.
func (j *joiner) oneSided(v *Term, inA bool) *Term {
	mk := func(v *Term) *Term {
		for _, b := range j.bind {
			if inA && b.a == v && b.n == nil || !inA && b.n == v && b.a == nil {
				if sumFamily(b.j) == j.fam {
					return b.j
				}
			}
		}
		t := j.fresh(v.typ)
		if inA {
			j.bind = append(j.bind, jbind{t, v, nil})
		} else {
			j.bind = append(j.bind, jbind{t, nil, v})
		}
		return t
	}
	has := false
	for _, a := range v.atomsOf() {
		if a.kind == KSym {
			has = true
		}
	}
	if !has || j.fam == "" {
		return v
	}
	if v.kind == KSym || isIntTerm(v) && !isPair(v) {
		return mk(v)
	}
	if len(v.args) > 0 && v.poly == nil {
		args := make([]*Term, len(v.args))
		sv := j.path
		for i, a := range v.args {
			j.path = fmt.Sprintf("%s.%d", sv, i)
			args[i] = j.oneSided(a, inA)
		}
		j.path = sv
		return rebuild(v, args, nil)
	}
	return mk(v)
}

func isTagSym(t *Term, tag string) bool {
	return t.kind == KSym && (strings.HasPrefix(t.name, tag+".") || strings.Contains(t.name, "|"+tag+"."))
}

func (s *State) allAtoms() map[*Term]bool {
	m := map[*Term]bool{}
	add := func(t *Term) {
		if t == nil {
			return
		}
		for _, a := range t.atomsOf() {
			m[a] = true
		}
	}
	for _, v := range s.env {
		add(v)
	}
	for k, v := range s.mem {
		add(k)
		add(v)
	}
	for k := range s.facts {
		add(k)
	}
	for _, c := range s.lin {
		c.p.eachAtom(add)
	}
	for _, v := range s.ghost {
		add(v)
	}
	for _, ds := range s.defers {
		for _, d := range ds {
			add(d.call.fnTerm)
			for _, a := range d.call.args {
				add(a)
			}
		}
	}
	for k := range s.epoch {
		add(k)
	}
	add(s.recov)
	return m
}

func renameTag(s *State, tag, suffix string) map[*Term]bool {
	at := s.allAtoms()
	m := substMap{}
	var as []*Term
	for a := range at {
		as = append(as, a)
	}
	sort.Slice(as, func(i, k int) bool { return as[i].id < as[k].id })
	for _, a := range as {
		if isTagSym(a, tag) {
			n := mkSym(a.name+suffix, a.typ)
			s.x.created[n] = true
			m[a] = n
		}
	}
	if len(m) > 0 {
		s.subst(m)
		return s.allAtoms()
	}
	return at
}

// exactGroups: bases with exact (non byte) element cells.
func (s *State) exactGroups() map[*Term][]*Term {
	r := map[*Term][]*Term{}
	for _, k := range sortedTerms(s.mem) {
		e := k
		for e.kind == KField {
			e = e.args[0]
		}
		if e.kind == KIndex && !isByteish(e.typ) {
			r[e.args[0]] = append(r[e.args[0]], k)
		}
	}
	return r
}

func elemTypeIn(cells []*Term) types.Type {
	e := cells[0]
	for e.kind == KField {
		e = e.args[0]
	}
	return e.typ
}

func joinStates(x *Exec, A, N *State, tag string, o *joinOpts) *State {
	if o == nil {
		o = &joinOpts{}
	}
	// unify the treatment of element cells
	if o.sumBase == nil {
		ga, gn := A.exactGroups(), N.exactGroups()
		bases := map[*Term]bool{}
		for b := range ga {
			bases[b] = true
		}
		for b := range gn {
			bases[b] = true
		}
		var bl []*Term
		for b := range bases {
			bl = append(bl, b)
		}
		sort.Slice(bl, func(i, k int) bool { return bl[i].id < bl[k].id })
		for _, b := range bl {
			same := len(ga[b]) == len(gn[b])
			sym := false
			if same {
				for _, k := range ga[b] {
					if _, ok := N.mem[k]; !ok {
						same = false
					}
					e := k
					for e.kind == KField {
						e = e.args[0]
					}
					if _, ok := constInt(e.args[1]); !ok {
						sym = true
					}
				}
			}
			if same && (!sym || !A.hasSummary(b)) {
				continue
			}
			ea, en := A.allAtoms(), N.allAtoms()
			for _, s := range []*State{A, N} {
				g := ga[b]
				at := ea
				if s == N {
					g = gn[b]
					at = en
				}
				known := true
				for _, r := range rootOf(b).atomsOf() {
					if !at[r] {
						known = false
					}
				}
				if !known {
					continue // the object does not exist on this side
				}
				if len(g) > 0 {
					s.absorb(b, elemTypeIn(g))
				} else if s.isFreshBase(b) && !s.hasSummary(b) {
					other := append(append([]*Term(nil), ga[b]...), gn[b]...)
					s.absorb(b, elemTypeIn(other))
				}
				for _, k := range g {
					delete(s.mem, k)
				}
			}
		}
	}
	ea := renameTag(A, tag, "~a")
	en := renameTag(N, tag, "~n")
	j := &joiner{x: x, A: A, N: N, tag: tag, memo: map[jpair]*Term{}, used: map[string]bool{}}
	R := newState(x)
	R.trace = A.trace
	// registers
	var regs []reg
	for _, r := range sortedRegs(A.env) {
		if _, ok := N.env[r]; ok {
			regs = append(regs, r)
		}
	}
	for _, r := range regs {
		j.path = fmt.Sprintf("r%d.%s", r.ctx.id, r.v.Name())
		R.env[r] = j.join(A.env[r], N.env[r])
	}
	var gs []string
	for g := range A.ghost {
		if _, ok := N.ghost[g]; ok {
			gs = append(gs, g)
		}
	}
	sort.Strings(gs)
	for _, g := range gs {
		j.path = "g" + g
		if g == "$sum" && o.sumBase != nil {
			j.fam = "sum:" + itoa(int64(o.sumBase.id))
		}
		R.ghost[g] = j.join(A.ghost[g], N.ghost[g])
		j.fam = ""
	}
	// deferred calls
	for c, ds := range A.defers {
		nd := N.defers[c]
		var out []deferred
		for i, d := range ds {
			cc := *d.call
			if i < len(nd) {
				cc.args = make([]*Term, len(d.call.args))
				for k := range cc.args {
					j.path = fmt.Sprintf("d%d.%d.%d", c.id, i, k)
					cc.args[k] = j.join(d.call.args[k], nd[i].call.args[k])
				}
				if cc.fnTerm != nil {
					j.path = fmt.Sprintf("d%d.%d.f", c.id, i)
					cc.fnTerm = j.join(cc.fnTerm, nd[i].call.fnTerm)
				}
			}
			out = append(out, deferred{&cc})
		}
		R.defers[c] = out
	}
	if A.recov != nil && N.recov != nil {
		j.path = "recov"
		R.recov = j.join(A.recov, N.recov)
	}
	// memory
	j.joinMem(R, ea, en, o)
	// metadata
	for k, v := range A.auto {
		R.auto[k] = v
	}
	for k, v := range A.iter {
		R.iter[k] = v
	}
	j.relations(R, o)
	return R
}

func (s *State) isFreshBase(b *Term) bool { return isFreshObj(s, rootOf(b)) }

func (j *joiner) joinMem(R *State, ea, en map[*Term]bool, o *joinOpts) {
	A, N := j.A, j.N
	exists := func(k *Term, at map[*Term]bool) bool {
		for _, a := range rootOf(k).atomsOf() {
			if !at[a] {
				return false
			}
		}
		return true
	}
	// key matching
	match := func(a, n *Term) *Term {
		var rec func(a, n *Term) *Term
		rec = func(a, n *Term) *Term {
			if a == n {
				return a
			}
			if r, ok := j.memo[jpair{a, n}]; ok {
				return r
			}
			if a.kind == n.kind && len(a.args) > 0 && len(a.args) == len(n.args) && a.name == n.name && a.poly == nil &&
				(a.kind == KField || a.kind == KIndex || a.kind == KElem || a.kind == KLoad) {
				if a.kind == KField && typeKey(a.obj.(fieldRef).owner) != typeKey(n.obj.(fieldRef).owner) {
					return nil
				}
				args := make([]*Term, len(a.args))
				for i := range args {
					args[i] = rec(a.args[i], n.args[i])
					if args[i] == nil {
						return nil
					}
				}
				return rebuild(a, args, nil)
			}
			return nil
		}
		return rec(a, n)
	}
	type cell struct {
		k, ka, kn *Term
	}
	doneA, doneN := map[*Term]bool{}, map[*Term]bool{}
	sortKeys := func(m map[*Term]*Term) []*Term {
		var ks []*Term
		for k := range m {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, k int) bool {
			di, dk := cellOrd(ks[i]), cellOrd(ks[k])
			if di != dk {
				return di < dk
			}
			return ks[i].id < ks[k].id
		})
		return ks
	}
	ka, kn := sortKeys(A.mem), sortKeys(N.mem)
	emit := func(k, a, n *Term) {
		sv := j.fam
		if k.kind == KElem {
			j.fam = "sum:" + itoa(int64(k.args[0].id))
		}
		j.path = "m" + itoa(int64(k.id))
		R.mem[k] = j.join(a, n)
		j.fam = sv
	}
	for {
		progress := false
		for _, k := range ka {
			if doneA[k] {
				continue
			}
			if _, ok := N.mem[k]; ok {
				doneA[k], doneN[k] = true, true
				progress = true
				emit(k, A.mem[k], N.mem[k])
				continue
			}
			for _, k2 := range kn {
				if doneN[k2] {
					continue
				}
				if r := match(k, k2); r != nil {
					doneA[k], doneN[k2] = true, true
					progress = true
					if _, dup := R.mem[r]; !dup {
						emit(r, A.mem[k], N.mem[k2])
					}
					break
				}
			}
		}
		if !progress {
			break
		}
	}
	// one sided cells
	one := func(S *State, keys []*Term, done map[*Term]bool, O *State, oat map[*Term]bool, inA bool) {
		for _, k := range keys {
			if done[k] {
				continue
			}
			if _, dup := R.mem[k]; dup {
				continue
			}
			taggy := false
			for _, a := range k.atomsOf() {
				if strings.HasSuffix(a.name, "~a") || strings.HasSuffix(a.name, "~n") {
					taggy = true
				}
			}
			if taggy {
				continue // forgotten below through the epoch
			}
			if !exists(k, oat) {
				sv := j.fam
				j.fam = "sum:" + itoa(int64(rootOf(k).id))
				if k.kind == KElem {
					j.fam = "sum:" + itoa(int64(k.args[0].id))
				}
				j.path = "m" + itoa(int64(k.id))
				R.mem[k] = j.oneSided(S.mem[k], inA)
				j.fam = sv
				continue
			}
			var ov *Term
			if k.kind == KElem {
				base := k.args[0]
				if isByteContent(S, k) {
					ov = O.contentOf(base)
				} else if O.isFreshBase(base) {
					// nothing was ever stored: zero elements
					if et := elemOfObj(base); et != nil && !O.hasSummary(base) {
						ov = zeroOf(et)
					} else {
						ov = botT
					}
				} else {
					continue
				}
			} else if isElemExact(k) {
				continue // both sides were brought to the same exact cells
			} else {
				t := cellType(k)
				ov = O.load(k, t)
			}
			if inA {
				emit(k, S.mem[k], ov)
			} else {
				emit(k, ov, S.mem[k])
			}
		}
	}
	one(A, ka, doneA, N, en, true)
	one(N, kn, doneN, A, ea, false)
	// epochs
	roots := map[*Term]bool{}
	for r := range A.epoch {
		roots[r] = true
	}
	for r := range N.epoch {
		roots[r] = true
	}
	for _, r := range sortedTerms(roots) {
		taggy := false
		for _, t := range r.atomsOf() {
			if strings.HasSuffix(t.name, "~a") || strings.HasSuffix(t.name, "~n") {
				taggy = true
			}
		}
		if taggy {
			continue
		}
		a, n := A.epoch[r], N.epoch[r]
		if a == n {
			R.epoch[r] = a
			continue
		}
		if !exists(r, ea) {
			R.epoch[r] = n
			continue
		}
		if !exists(r, en) {
			R.epoch[r] = a
			continue
		}
		used := map[string]bool{}
		A.loadEpochs(r, used)
		N.loadEpochs(r, used)
		e := 1000
		for used[fmt.Sprint(e)] {
			e++
		}
		R.epoch[r] = e
	}
	// joined roots (J symbols) inherit forgotten contents
	for _, b := range j.bind {
		if b.a != nil && b.n != nil && !isIntTerm(b.j) {
			ea, en := A.epoch[b.a], N.epoch[b.n]
			if ea == en && b.a.kind != KAlloc && b.n.kind != KAlloc {
				if ea != 0 {
					R.epoch[b.j] = ea
				}
				continue
			}
			// an epoch under which nothing is known about the other side
			usedA, usedN := map[string]bool{}, map[string]bool{}
			A.loadEpochs(b.a, usedA)
			N.loadEpochs(b.n, usedN)
			e := ea
			if b.a != b.j || ea < 1000 || usedN[fmt.Sprint(e)] {
				for e = 2000; usedA[fmt.Sprint(e)] || usedN[fmt.Sprint(e)]; e++ {
				}
			}
			R.epoch[b.j] = e
		}
	}
}

// cellOrd orders cells so that roots come first.
func cellOrd(k *Term) int {
	d := 0
	for k.kind == KField || k.kind == KIndex || k.kind == KElem {
		k = k.args[0]
		d++
	}
	if k.kind == KLoad {
		d += 10
	}
	return d
}

func isByteContent(s *State, k *Term) bool {
	v := s.mem[k]
	if v == nil {
		return false
	}
	if v.kind == KCall || v.kind == KConst && v.name == "zeros" || v.kind == KSym && v.typ == nil {
		return true
	}
	et := elemOfObj(k.args[0])
	return et != nil && isByteish(et)
}

// elemOfObj: element type of a slice / array object term, if known.
func elemOfObj(b *Term) types.Type {
	if b.typ == nil {
		return nil
	}
	switch u := b.typ.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		if a, ok := u.Elem().Underlying().(*types.Array); ok {
			return a.Elem()
		}
	}
	return nil
}

func cellType(k *Term) types.Type {
	switch k.kind {
	case KField, KIndex:
		return k.typ
	}
	return derefT(k.typ)
}

func (s *State) loadEpochs(root *Term, used map[string]bool) {
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.kind == KLoad && rootOf(t.args[0]) == root {
			used[t.name] = true
		}
		for _, a := range t.args {
			rec(a)
		}
		if t.poly != nil {
			t.poly.eachAtom(rec)
		}
	}
	for _, v := range s.env {
		rec(v)
	}
	for _, v := range s.mem {
		rec(v)
	}
	for f := range s.facts {
		rec(f)
	}
	for _, c := range s.lin {
		c.p.eachAtom(rec)
	}
	for _, v := range s.ghost {
		rec(v)
	}
}

// relations computes the constraints and facts of the joined state.
func (j *joiner) relations(R *State, o *joinOpts) {
	A, N := j.A, j.N
	live := map[*Term]bool{}
	for a := range (&State{x: R.x, env: R.env, mem: R.mem, ghost: R.ghost, defers: R.defers, recov: R.recov, epoch: R.epoch}).allAtoms() {
		live[a] = true
	}
	for p := range R.x.pinned {
		live[p] = true
	}
	dead := func(t *Term) bool {
		for _, a := range t.atomsOf() {
			if !live[a] {
				return true
			}
		}
		return false
	}
	sA, sN := substMap{}, substMap{}
	vacA, vacN := map[*Term]bool{}, map[*Term]bool{}
	for _, b := range j.bind {
		if b.a != nil {
			sA[b.j] = b.a
		} else {
			vacA[b.j] = true
		}
		if b.n != nil {
			sN[b.j] = b.n
		} else {
			vacN[b.j] = true
		}
	}
	mkLin := func(S *State, sub substMap) []Con {
		lin := append([]Con(nil), S.lin...)
		for _, b := range j.bind {
			v, ok := sub[b.j]
			if !ok {
				continue
			}
			if isIntTerm(b.j) {
				lin = append(lin, Con{asPoly(b.j).add(asPoly(v), -1), true})
				for s := range R.x.templates[b.j.name] {
					if s == b.j || dead(s) {
						continue
					}
					lin = append(lin, Con{asPoly(b.j).mul(asPoly(s)).add(asPoly(v).mul(asPoly(s)), -1), true})
				}
			} else if isSliceish(b.j) || isStringType2(b.j.typ) {
				lin = append(lin, Con{asPoly(mkLen(b.j)).add(asPoly(mkLen(v)), -1), true})
				if isSliceish(b.j) {
					lin = append(lin, Con{asPoly(mkCap(b.j)).add(asPoly(mkCap(v)), -1), true})
				}
			}
		}
		return project(lin, dead)
	}
	pa, pn := implicitEqs(mkLin(A, sA)), implicitEqs(mkLin(N, sN))
	if j.x.dbg && os.Getenv("VJOIN") != "" {
		fmt.Fprintln(os.Stderr, "JOIN", j.tag)
		for _, c := range pa {
			fmt.Fprintln(os.Stderr, "   A", c)
		}
		for _, c := range pn {
			fmt.Fprintln(os.Stderr, "   N", c)
		}
		for _, b := range j.bind {
			fmt.Fprintln(os.Stderr, "   bind", b.j, b.a, b.n)
		}
	}
	vac := func(p *Poly, m map[*Term]bool) bool {
		if len(m) == 0 {
			return false
		}
		r := false
		p.eachAtom(func(a *Term) {
			for _, s := range a.atomsOf() {
				if m[s] {
					r = true
				}
			}
		})
		return r
	}
	var out []Con
	// equalities
	split := func(cs []Con, m map[*Term]bool) (plain, sums, vacs []Con) {
		for _, c := range cs {
			if !c.eq {
				continue
			}
			switch {
			case vac(c.p, m):
				vacs = append(vacs, c)
			case len(polyFamilies(c.p)) > 0:
				sums = append(sums, c)
			default:
				plain = append(plain, c)
			}
		}
		return
	}
	plA, smA, vcA := split(pa, vacN) // constraints of A that are vacuous in N
	plN, smN, vcN := split(pn, vacA)
	out = append(out, vcA...)
	out = append(out, vcN...)
	out = append(out, affineHull(plA, plN)...)
	if len(smA) > 0 || len(smN) > 0 {
		for _, c := range affineHull(append(append([]Con(nil), plA...), smA...), append(append([]Con(nil), plN...), smN...)) {
			if len(polyFamilies(c.p)) > 0 {
				out = append(out, c)
			}
		}
	}
	// inequalities
	cand := map[string]bool{}
	addC := func(c Con) {
		c, triv, contra := c.norm()
		if triv || contra {
			return
		}
		k := c.key()
		if cand[k] {
			return
		}
		cand[k] = true
		if !vac(c.p, vacA) && !entails(pa, c) {
			return
		}
		if !vac(c.p, vacN) && !entails(pn, c) {
			return
		}
		if entails(out, c) {
			return
		}
		out = append(out, c)
	}
	from := func(cs []Con) {
		for _, c := range cs {
			if c.eq {
				addC(Con{c.p, false})
				addC(Con{c.p.scale(-1), false})
			} else {
				addC(c)
			}
		}
	}
	from(pa)
	if !o.widen {
		from(pn)
	} else {
		for _, c := range pn {
			if vac(c.p, vacA) {
				addC(c)
				continue
			}
			// a finite family, so that widening still ends
			if unitForm(c.p) {
				addC(Con{c.p, false})
				if c.eq {
					addC(Con{c.p.scale(-1), false})
				}
			}
		}
	}
	// The sign of a joined symbol may only be implied by what is known of the
	// values it equals.
	var tagged []*Term
	seenTag := map[*Term]bool{}
	for _, c := range pa {
		if c.eq {
			c.p.eachAtom(func(a *Term) {
				if isTagSym(a, j.tag) && !seenTag[a] {
					seenTag[a] = true
					tagged = append(tagged, a)
				}
			})
		}
	}
	for _, a := range tagged {
		addC(Con{asPoly(a), false})
	}
	// A joined symbol that is a constant on one side: the inequalities of that
	// side may have to be restated relative to it (n >= 1, j = 0 against
	// n >= 2, j = 1 is n >= j+1).
	shift := func(cs []Con) {
		for _, e := range cs {
			if !e.eq || len(e.p.terms) != 1 || len(e.p.terms[0].atoms) != 1 {
				continue
			}
			tagged := false
			e.p.eachAtom(func(a *Term) { tagged = tagged || isTagSym(a, j.tag) })
			if !tagged || entails(out, e) {
				continue
			}
			for _, c := range cs {
				if c.eq || len(c.p.terms) > 2 {
					continue
				}
				addC(Con{c.p.add(e.p, 1), false})
				addC(Con{c.p.add(e.p, -1), false})
			}
		}
	}
	if !o.hard {
		shift(pa)
	}
	if !o.widen {
		shift(pn)
	}
	// A joined symbol equal to another value on one side: the inequalities of
	// that side about the other value, restated about the symbol.
	restate := func(cs []Con) {
		for _, e := range cs {
			if !e.eq || len(e.p.terms) < 2 || len(e.p.terms) > 3 || len(polyFamilies(e.p)) > 0 {
				continue
			}
			tagged := 0
			var other []*Term
			lin := true
			for _, m := range e.p.terms {
				if len(m.atoms) != 1 || m.coef != 1 && m.coef != -1 {
					lin = false
					break
				}
				if isTagSym(m.atoms[0], j.tag) {
					tagged++
				} else {
					other = append(other, m.atoms[0])
				}
			}
			if !lin || tagged != 1 || entails(out, e) {
				continue
			}
			for _, a := range other {
				co, _ := coefOf(e.p, a)
				rep := e.p.scale(-co).add(asPoly(a), 1) // a = rep
				for _, c := range cs {
					if c.eq || len(c.p.terms) > 4 || len(polyFamilies(c.p)) > 0 {
						continue
					}
					if k, nl := coefOf(c.p, a); k == 0 || nl {
						continue
					}
					addC(Con{c.p.subst(func(t *Term) *Poly {
						if t == a {
							return rep
						}
						return nil
					}), false})
				}
			}
		}
	}
	if !o.hard {
		restate(pa)
	}
	if !o.widen {
		restate(pn)
	}
	if R.x.pairJoin && !o.hard {
		// what holds between any two values (and the fixed ones)
		at := map[*Term]bool{}
		for _, c := range append(append([]Con(nil), pa...), pn...) {
			c.p.eachAtom(func(a *Term) { at[a] = true })
		}
		var as []*Term
		for a := range at {
			if !R.x.pinned[a] && !vacA[a] && !vacN[a] {
				as = append(as, a)
			}
		}
		sort.Slice(as, func(i, k int) bool { return as[i].id < as[k].id })
		if len(as) > 16 {
			as = as[:16]
		}
		for i, u := range as {
			for _, v := range as[i+1:] {
				gone := func(t *Term) bool { return t != u && t != v && !R.x.pinned[t] }
				from(project(pa, gone))
				if !o.widen {
					from(project(pn, gone))
				}
			}
		}
	}
	if len(R.x.counts) > 0 && !o.hard {
		// u >= v + (one of the values the rule counts)
		at := map[*Term]bool{}
		for _, c := range append(append([]Con(nil), pa...), pn...) {
			c.p.eachAtom(func(a *Term) { at[a] = true })
		}
		live := map[*Term]bool{}
		for _, v := range R.env {
			for _, s := range v.atomsOf() {
				live[s] = true
			}
		}
		for _, v := range R.ghost {
			for _, s := range v.atomsOf() {
				live[s] = true
			}
		}
		var as []*Term
		for _, a := range sortedTerms(at) {
			ok := a.kind != KCap && !R.x.pinned[a] && !vacA[a] && !vacN[a] && len(as) < 16
			for _, s := range a.atomsOf() {
				ok = ok && live[s]
			}
			if ok {
				as = append(as, a)
			}
		}
		// lengths of slices that start somewhere in the middle
		lens := map[*Term]bool{}
		for _, vs := range [][]*Term{envVals(R), ghostVals(R)} {
			for _, v := range vs {
				if v.kind != KSlice {
					continue
				}
				_, lo, hi := sliceParts(v)
				if _, c := constInt(lo); c {
					continue
				}
				if n := mkSub(hi, lo); n.kind == KPoly && len(lens) < 4 {
					ok := true
					for _, a := range n.atomsOf() {
						ok = ok && !vacA[a] && !vacN[a]
					}
					if ok {
						lens[n] = true
					}
				}
			}
		}
		as = append(as, sortedTerms(lens)...)
		for _, g := range R.x.counts {
			w := R.ghost[g]
			if w == nil {
				continue
			}
			for _, u := range as {
				addC(Con{asPoly(u).add(polyConst(1), -1), false})
				for _, v := range as {
					if u != v && u != w && v != w {
						addC(Con{asPoly(u).add(asPoly(v), -1).add(asPoly(w), -1), false})
					}
				}
			}
		}
	}
	R.lin = dedupeCons(out)
	// facts
	type inv struct{ from, to *Term }
	var invA, invN []inv
	for _, b := range j.bind {
		if b.a != nil && (b.a.kind != KConst && b.a.kind != KPoly) {
			invA = append(invA, inv{b.a, b.j})
		}
		if b.n != nil && (b.n.kind != KConst && b.n.kind != KPoly) {
			invN = append(invN, inv{b.n, b.j})
		}
	}
	try := func(f *Term, v bool, S *State, sub substMap, vc map[*Term]bool) {
		if f.kind == KNot {
			f, v = f.args[0], !v
		}
		if f == trueT || f == falseT || dead(f) {
			return
		}
		if _, ok := R.facts[f]; ok {
			return
		}
		isVac := false
		for _, a := range f.atomsOf() {
			if vc[a] {
				isVac = true
			}
		}
		if !isVac {
			g := sub.apply(f)
			t := S.truth(g)
			if t < 0 || (t == 1) != v {
				return
			}
		}
		R.facts[f] = v
	}
	fromFacts := func(S *State, iv []inv, other *State, sub substMap, vc map[*Term]bool) {
		var fs []*Term
		for f := range S.facts {
			fs = append(fs, f)
		}
		sort.Slice(fs, func(i, k int) bool { return fs[i].id < fs[k].id })
		for _, f := range fs {
			v := S.facts[f]
			try(f, v, other, sub, vc)
			all := substMap{}
			for _, i := range iv {
				if termHas(f, i.from) {
					all[i.from] = i.to
					if f != i.from {
						try(substMap{i.from: i.to}.apply(f), v, other, sub, vc)
					} else {
						try(i.to, v, other, sub, vc)
					}
				}
			}
			if len(all) > 1 {
				try(all.apply(f), v, other, sub, vc)
			}
		}
	}
	fromFacts(A, invA, N, sN, vacN)
	fromFacts(N, invN, A, sA, vacA)
	for _, b := range j.bind {
		if b.a == nil || b.n == nil || isIntTerm(b.j) {
			if b.a == nil && b.n == nil || isIntTerm(b.j) {
				continue
			}
		}
		ca, cn := 2, 2
		if b.a != nil {
			ca = A.nilClass(b.a)
		}
		if b.n != nil {
			cn = N.nilClass(b.n)
		}
		if ca == 2 && cn == 2 && isNilable(b.j.typ) {
			f := mkEq(b.j, nilT)
			if f.kind == KEq {
				R.facts[f] = false
			}
		}
		// type tests decided on both sides by the dynamic type
	}
	// disequalities of integers implied by constants on one side
	_ = ssa.BuilderMode(0)
}

// unitForm: a sum and difference of at most four values.
func unitForm(p *Poly) bool {
	if p.c < -1 || p.c > 1 || len(p.terms) < 2 || len(p.terms) > 4 || len(polyFamilies(p)) > 0 {
		return false
	}
	for _, m := range p.terms {
		if len(m.atoms) != 1 || m.coef != 1 && m.coef != -1 {
			return false
		}
	}
	return true
}

func isStringType2(t types.Type) bool { return t != nil && isStringType(t) }

func termHas(t, s *Term) bool {
	if t == s {
		return true
	}
	if s.kind == KSym || s.kind == KAlloc {
		return t.contains(s)
	}
	for _, a := range t.args {
		if termHas(a, s) {
			return true
		}
	}
	if t.poly != nil {
		r := false
		t.poly.eachAtom(func(a *Term) {
			if !r && termHas(a, s) {
				r = true
			}
		})
		return r
	}
	return false
}

func envVals(s *State) []*Term {
	var out []*Term
	for _, r := range sortedRegs(s.env) {
		out = append(out, s.env[r])
	}
	return out
}

func ghostVals(s *State) []*Term {
	var out []*Term
	for _, g := range sortedNames(s.ghost) {
		out = append(out, s.ghost[g])
	}
	return out
}
