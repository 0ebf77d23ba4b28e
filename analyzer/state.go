package main

// Abstract states of the dataflow engine.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Ctx is an inlining context (call string).
type Ctx struct {
	id     int
	parent *Ctx
	site   ssa.Instruction
	fn     *ssa.Function
	depth  int
}

type reg struct {
	ctx *Ctx
	v   ssa.Value
}

type deferred struct {
	call *Call
}

type traceNode struct {
	parent *traceNode
	instr  ssa.Instruction
	note   string
	n      int
}

type State struct {
	x      *Exec
	env    map[reg]*Term
	mem    map[*Term]*Term
	facts  map[*Term]bool
	lin    []Con
	ghost  map[string]*Term
	auto   map[string]string
	defers map[*Ctx][]deferred
	epoch  map[*Term]int
	iter   map[string]int
	trace  *traceNode
	recov  *Term // current panic value while running defers
}

func newState(x *Exec) *State {
	st := &State{x: x, env: map[reg]*Term{}, mem: map[*Term]*Term{}, facts: map[*Term]bool{},
		ghost: map[string]*Term{}, auto: map[string]string{}, defers: map[*Ctx][]deferred{},
		epoch: map[*Term]int{}, iter: map[string]int{}}
	if x.crash {
		if g := x.p.global(modPath, "DefaultConcurrency"); g != nil {
			x.assumptions["the number of parallel searches is at least one"] = true
			v := st.load(g, intT)
			x.pinned[v] = true
			st.addGe(v, mkInt(1))
		}
	}
	return st
}

func (s *State) clone() *State {
	n := &State{x: s.x, env: make(map[reg]*Term, len(s.env)), mem: make(map[*Term]*Term, len(s.mem)),
		facts: make(map[*Term]bool, len(s.facts)), ghost: make(map[string]*Term, len(s.ghost)),
		auto: make(map[string]string, len(s.auto)), defers: map[*Ctx][]deferred{},
		epoch: make(map[*Term]int, len(s.epoch)), iter: make(map[string]int, len(s.iter)), trace: s.trace, recov: s.recov}
	for k, v := range s.env {
		n.env[k] = v
	}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	n.lin = append([]Con(nil), s.lin...)
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	for k, v := range s.auto {
		n.auto[k] = v
	}
	for k, v := range s.defers {
		n.defers[k] = append([]deferred(nil), v...)
	}
	for k, v := range s.epoch {
		n.epoch[k] = v
	}
	for k, v := range s.iter {
		n.iter[k] = v
	}
	return n
}

func (s *State) note(in ssa.Instruction, format string, a ...interface{}) {
	n := 0
	if s.trace != nil {
		n = s.trace.n + 1
	}
	s.trace = &traceNode{parent: s.trace, instr: in, note: fmt.Sprintf(format, a...), n: n}
}

// key identifies a state up to trace.
func (s *State) key() string {
	var sb strings.Builder
	ks := make([]string, 0, len(s.env))
	for k, v := range s.env {
		ks = append(ks, fmt.Sprintf("%d.%d=%d", k.ctx.id, s.x.valID(k.v), v.id))
	}
	sort.Strings(ks)
	sb.WriteString(strings.Join(ks, ","))
	sb.WriteString("|M")
	ks = ks[:0]
	for k, v := range s.mem {
		ks = append(ks, fmt.Sprintf("%d=%d", k.id, v.id))
	}
	sort.Strings(ks)
	sb.WriteString(strings.Join(ks, ","))
	sb.WriteString("|F")
	ks = ks[:0]
	for k, v := range s.facts {
		ks = append(ks, fmt.Sprintf("%d=%v", k.id, v))
	}
	sort.Strings(ks)
	sb.WriteString(strings.Join(ks, ","))
	sb.WriteString("|L")
	ks = ks[:0]
	for _, c := range s.lin {
		ks = append(ks, c.key())
	}
	sort.Strings(ks)
	sb.WriteString(strings.Join(ks, ","))
	sb.WriteString("|G")
	ks = ks[:0]
	for k, v := range s.ghost {
		ks = append(ks, fmt.Sprintf("%s=%d", k, v.id))
	}
	sort.Strings(ks)
	sb.WriteString(strings.Join(ks, ","))
	sb.WriteString("|A")
	sb.WriteString(s.autoKey())
	sb.WriteString("|D")
	sb.WriteString(s.deferKey())
	ks = ks[:0]
	for k, v := range s.epoch {
		ks = append(ks, fmt.Sprintf("%d=%d", k.id, v))
	}
	for k, v := range s.iter {
		ks = append(ks, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(ks)
	sb.WriteString(strings.Join(ks, ","))
	return sb.String()
}

func (s *State) autoKey() string {
	ks := make([]string, 0, len(s.auto))
	for k, v := range s.auto {
		ks = append(ks, k+"="+v)
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}

func (s *State) deferKey() string {
	var ks []string
	for c, ds := range s.defers {
		if len(ds) == 0 {
			continue
		}
		e := fmt.Sprintf("%d:", c.id)
		for _, d := range ds {
			e += fmt.Sprintf("%d,", s.x.instrID(d.call.instr))
		}
		ks = append(ks, e)
	}
	sort.Strings(ks)
	if s.recov != nil {
		ks = append(ks, "panicking")
	}
	return strings.Join(ks, ";")
}

// ---------- substitution ----------

// The order in which terms are created decides how they are ordered, so that
// maps are walked in a fixed order wherever terms may be made.
func sortedTerms[V any](m map[*Term]V) []*Term {
	r := make([]*Term, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}

func sortedNames[V any](m map[string]V) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func sortedRegs(m map[reg]*Term) []reg {
	r := make([]reg, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Slice(r, func(i, j int) bool {
		if r[i].ctx != r[j].ctx {
			return r[i].ctx.id < r[j].ctx.id
		}
		if a, b := r[i].v.Name(), r[j].v.Name(); a != b {
			return a < b
		}
		return r[i].v.Pos() < r[j].v.Pos()
	})
	return r
}

func (s *State) subst(m substMap) {
	if len(m) == 0 {
		return
	}
	for _, k := range sortedRegs(s.env) {
		v := s.env[k]
		if n := m.apply(v); n != v {
			s.env[k] = n
		}
	}
	nm := make(map[*Term]*Term, len(s.mem))
	for _, k := range sortedTerms(s.mem) {
		v := s.mem[k]
		nm[m.apply(k)] = m.apply(v)
	}
	s.mem = nm
	nf := make(map[*Term]bool, len(s.facts))
	for _, k := range sortedTerms(s.facts) {
		v := s.facts[k]
		n := m.apply(k)
		if n.kind == KNot {
			n, v = n.args[0], !v
		}
		if n != trueT && n != falseT {
			nf[n] = v
		}
	}
	s.facts = nf
	for i, c := range s.lin {
		s.lin[i] = Con{m.applyPoly(c.p), c.eq}
	}
	for _, k := range sortedNames(s.ghost) {
		s.ghost[k] = m.apply(s.ghost[k])
	}
	for c, ds := range s.defers {
		nd := make([]deferred, len(ds))
		for i, d := range ds {
			cc := *d.call
			cc.fnTerm = m.apply(cc.fnTerm)
			cc.args = make([]*Term, len(d.call.args))
			for j, a := range d.call.args {
				cc.args[j] = m.apply(a)
			}
			nd[i] = deferred{&cc}
		}
		s.defers[c] = nd
	}
	ne := make(map[*Term]int, len(s.epoch))
	for _, k := range sortedTerms(s.epoch) {
		ne[m.apply(k)] = s.epoch[k]
	}
	s.epoch = ne
	if s.recov != nil {
		s.recov = m.apply(s.recov)
	}
}

func (s *State) mentions(t *Term) bool {
	for _, v := range s.env {
		if v.contains(t) {
			return true
		}
	}
	for k, v := range s.mem {
		if k.contains(t) || v.contains(t) {
			return true
		}
	}
	for k := range s.facts {
		if k.contains(t) {
			return true
		}
	}
	for _, c := range s.lin {
		f := false
		c.p.eachAtom(func(a *Term) {
			if a.contains(t) {
				f = true
			}
		})
		if f {
			return true
		}
	}
	for _, v := range s.ghost {
		if v.contains(t) {
			return true
		}
	}
	for _, ds := range s.defers {
		for _, d := range ds {
			for _, a := range d.call.args {
				if a.contains(t) {
					return true
				}
			}
			if d.call.fnTerm != nil && d.call.fnTerm.contains(t) {
				return true
			}
		}
	}
	for k := range s.epoch {
		if k.contains(t) {
			return true
		}
	}
	return s.recov != nil && s.recov.contains(t)
}

// fresh returns a symbol with the given name that does not occur in the state
// (an older value with that name is renamed).
func (s *State) fresh(name string, typ types.Type) *Term {
	t := mkSym(name, typ)
	s.evict(t)
	return t
}

func (s *State) freshAlloc(name string, typ types.Type) *Term {
	t := mkAlloc(name, typ)
	s.evict(t)
	if s.x.h.Alloc != nil {
		s.x.h.Alloc(s, t)
	}
	return t
}

func (s *State) evict(t *Term) {
	if !s.x.created[t] {
		s.x.created[t] = true
		return
	}
	if !s.mentions(t) {
		return
	}
	for k := 1; ; k++ {
		var o *Term
		n := fmt.Sprintf("%s^%d", t.name, k)
		if t.kind == KAlloc {
			o = mkAlloc(n, t.typ)
		} else {
			o = mkSym(n, t.typ)
		}
		if !s.mentions(o) {
			s.subst(substMap{t: o})
			return
		}
		if k > 12 {
			s.x.undecided(nil, "too many live generations of %s", t.name)
			return
		}
	}
}

// ---------- boolean reasoning ----------

// truth: 1 true, 0 false, -1 unknown
func (s *State) truth(t *Term) int {
	switch t.kind {
	case KConst:
		if t == trueT {
			return 1
		}
		if t == falseT {
			return 0
		}
	case KNot:
		r := s.truth(t.args[0])
		if r >= 0 {
			return 1 - r
		}
		return -1
	case KEq0:
		if v, ok := s.facts[t]; ok {
			return boolInt(v)
		}
		if entails(s.lin, Con{t.poly, true}) {
			return 1
		}
		if infeasible(append(relevant(s.lin, t.poly), Con{t.poly, true})) {
			return 0
		}
		return -1
	case KGe0:
		if entails(s.lin, Con{t.poly, false}) {
			return 1
		}
		if entails(s.lin, Con{t.poly.scale(-1).add(polyConst(1), -1), false}) {
			return 0
		}
		return -1
	}
	if v, ok := s.facts[t]; ok {
		return boolInt(v)
	}
	if t.kind == KEq {
		// e == sentinel where e is known nil, etc.
		a, b := t.args[0], t.args[1]
		ca, cb := s.nilClass(a), s.nilClass(b)
		if ca == 1 && cb == 2 || ca == 2 && cb == 1 {
			return 0
		}
		if ca == 1 && cb == 1 {
			return 1
		}
	}
	return -1
}

// nilClass: 0 unknown, 1 nil, 2 non-nil
func (s *State) nilClass(t *Term) int {
	if c := classOf(t); c != 0 {
		return c
	}
	if t.kind == KSlice {
		// non-empty slices are non nil
		return s.nilClass(t.args[0])
	}
	if t.kind == KConst {
		return 2
	}
	a, b := t, nilT
	if a.id > b.id {
		a, b = b, a
	}
	if v, ok := s.facts[intern(KEq, "", []*Term{a, b}, nil, types.Typ[types.Bool], nil, "")]; ok {
		if v {
			return 1
		}
		return 2
	}
	return 0
}

// assume adds the fact t==b; false means the state became infeasible.
func (s *State) assume(t *Term, b bool) bool {
	if t.kind == KNot {
		return s.assume(t.args[0], !b)
	}
	switch s.truth(t) {
	case 1:
		return b
	case 0:
		return !b
	}
	switch t.kind {
	case KEq0:
		if b {
			return s.addCon(Con{t.poly, true})
		}
		s.facts[t] = false
		// sharpen when one side is known
		if entails(s.lin, Con{t.poly, false}) {
			return s.addCon(Con{t.poly.add(polyConst(1), -1), false})
		}
		if entails(s.lin, Con{t.poly.scale(-1), false}) {
			return s.addCon(Con{t.poly.scale(-1).add(polyConst(1), -1), false})
		}
		return true
	case KGe0:
		if b {
			return s.addCon(Con{t.poly, false})
		}
		return s.addCon(Con{t.poly.scale(-1).add(polyConst(1), -1), false})
	case KEq:
		if b {
			x, y := t.args[0], t.args[1]
			// substitute a symbol by the other side
			if x.kind == KSym && !y.contains(x) && !s.x.pinned[x] {
				s.subst(substMap{x: y})
				return s.consistent()
			}
			if y.kind == KSym && !x.contains(y) && !s.x.pinned[y] {
				s.subst(substMap{y: x})
				return s.consistent()
			}
			s.facts[t] = true
			if isSliceType(x.typ) || isSliceType(y.typ) {
				if x == nilT || y == nilT {
					o := x
					if x == nilT {
						o = y
					}
					return s.addCon(Con{asPoly(mkLen(o)), true})
				}
			}
			return true
		}
	}
	s.facts[t] = b
	return true
}

func isSliceType(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

// consistent re-checks facts after a substitution.
func (s *State) consistent() bool {
	for _, f := range sortedTerms(s.facts) {
		v := s.facts[f]
		if f == trueT && !v || f == falseT && v {
			return false
		}
		if f.kind == KEq {
			a, b := f.args[0], f.args[1]
			ca, cb := classOf(a), classOf(b)
			eq := mkEq(a, b)
			if eq == trueT && !v || eq == falseT && v {
				return false
			}
			_ = ca
			_ = cb
		}
	}
	return true
}

func (s *State) addCon(c Con) bool {
	c, triv, contra := c.norm()
	if triv {
		return true
	}
	if contra {
		return false
	}
	rel := append(relevant(s.lin, c.p), c)
	s.lin = append(s.lin, c)
	if infeasible(rel) {
		return false
	}
	// disequalities that become equalities
	for _, f := range sortedTerms(s.facts) {
		v := s.facts[f]
		if f.kind == KEq0 && !v {
			if entails(rel, Con{f.poly, true}) {
				return false
			}
			// sharpen
			if sharesAtom(f.poly, c.p) {
				if entails(s.lin, Con{f.poly, false}) {
					nc := Con{f.poly.add(polyConst(1), -1), false}
					if !entails(s.lin, nc) {
						s.lin = append(s.lin, nc)
						if infeasible(relevant(s.lin, nc.p)) {
							return false
						}
					}
				} else if entails(s.lin, Con{f.poly.scale(-1), false}) {
					nc := Con{f.poly.scale(-1).add(polyConst(1), -1), false}
					if !entails(s.lin, nc) {
						s.lin = append(s.lin, nc)
						if infeasible(relevant(s.lin, nc.p)) {
							return false
						}
					}
				}
			}
		}
	}
	return true
}

func sharesAtom(p, q *Poly) bool {
	r := false
	p.eachAtom(func(a *Term) {
		q.eachAtom(func(b *Term) {
			if a == b {
				r = true
			}
		})
	})
	return r
}

func (s *State) addEq(a, b *Term) bool { return s.addCon(Con{asPoly(a).add(asPoly(b), -1), true}) }
func (s *State) addGe(a, b *Term) bool { return s.addCon(Con{asPoly(a).add(asPoly(b), -1), false}) }

func (s *State) provesEq(a, b *Term) bool {
	if a == b {
		return true
	}
	if isIntTerm(a) || isIntTerm(b) || a.kind == KPoly || b.kind == KPoly {
		return entails(s.lin, Con{asPoly(a).add(asPoly(b), -1), true})
	}
	if a.kind == b.kind && a.name == b.name && len(a.args) == len(b.args) && len(a.args) > 0 {
		switch a.kind {
		case KSlice, KField, KIndex, KFieldV, KStruct, KIface, KCall, KLoad, KElem, KStr, KBin:
			if typeKey(a.typ) != typeKey(b.typ) && a.kind == KIface {
				return false
			}
			for i := range a.args {
				if !s.provesEq(a.args[i], b.args[i]) {
					return false
				}
			}
			return true
		}
	}
	return s.truth(mkEq(a, b)) == 1
}

// provesGe: a >= b
func (s *State) provesGe(a, b *Term) bool {
	return entails(s.lin, Con{asPoly(a).add(asPoly(b), -1), false})
}

// ---------- memory ----------

func rootOf(addr *Term) *Term {
	for addr.kind == KField || addr.kind == KIndex || addr.kind == KElem {
		addr = addr.args[0]
	}
	return addr
}

// sliceParts splits a slice value into object, low and high index.
func sliceParts(v *Term) (base, lo, hi *Term) {
	if v.kind == KSlice {
		return v.args[0], v.args[1], v.args[2]
	}
	return v, mkInt(0), mkLen(v)
}

func zeroOf(t types.Type) *Term {
	if t == nil {
		return nilT
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return falseT
		case u.Info()&types.IsInteger != 0:
			return mkInt(0)
		case u.Info()&types.IsString != 0:
			return mkStrConst("")
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			return nilT
		}
		return mkConst("0f", t)
	case *types.Struct:
		vals := make([]*Term, u.NumFields())
		for i := range vals {
			vals[i] = zeroOf(u.Field(i).Type())
		}
		return mkStruct(t, vals)
	case *types.Array:
		return mkConst("zeroarray:"+typeKey(t), t)
	}
	return nilT
}

func isFreshObj(s *State, root *Term) bool {
	return root.kind == KAlloc && s.epoch[root] == 0
}

func (s *State) load(addr *Term, typ types.Type) *Term {
	if st := structOf(typ); st != nil && st.NumFields() > 0 {
		if v, ok := s.mem[addr]; ok {
			return v
		}
		s.materialise(addr)
		vals := make([]*Term, st.NumFields())
		for i := range vals {
			vals[i] = s.load(mkField(addr, typ, i), st.Field(i).Type())
		}
		return mkStruct(typ, vals)
	}
	if v, ok := s.mem[addr]; ok {
		return v
	}
	if s.materialise(addr) {
		if v, ok := s.mem[addr]; ok {
			return v
		}
	}
	if addr.kind == KIndex {
		base := addr.args[0]
		if isByteish(typ) {
			return mkCall("byteAt", typ, s.contentOf(base), addr.args[1])
		}
	}
	root := rootOf(addr)
	if isFreshObj(s, root) {
		return zeroOf(typ)
	}
	v := mkLoad(addr, s.epoch[root], typ)
	return v
}

// initLoads lists the first reads of unknown memory (rules may attach facts).

func isByteish(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Byte || b.Kind() == types.Uint8 || b.Kind() == types.Int8)
}

// materialise instantiates the element summary for the innermost indexed
// element in the address, if there is one and it is not yet materialised.
func (s *State) materialise(addr *Term) bool {
	a := addr
	for a.kind == KField {
		a = a.args[0]
	}
	if a.kind != KIndex {
		return false
	}
	base := a.args[0]
	if isByteish(a.typ) {
		return false
	}
	sum, ok := s.mem[mkElem(base)]
	if !ok && isFreshObj(s, base) && !s.hasCell(a, a.typ) {
		// the element may be one that was stored under another index term
		maybe := false
		for _, k := range sortedTerms(s.mem) {
			e := k
			for e.kind == KField {
				e = e.args[0]
			}
			if e.kind != KIndex || e.args[0] != base || e == a {
				continue
			}
			if s.provesEq(e.args[1], a.args[1]) {
				s.storeRaw(a, s.load(e, a.typ), a.typ)
				return true
			}
			if s.truth(mkEq0(asPoly(e.args[1]).add(asPoly(a.args[1]), -1))) != 0 {
				maybe = true
			}
		}
		if maybe {
			s.absorb(base, a.typ)
			sum, ok = s.mem[mkElem(base)]
		}
	}
	if !ok || sum == botT {
		return false
	}
	if st := structOf(a.typ); st != nil {
		if st.NumFields() > 0 {
			if s.hasCell(a, a.typ) {
				return false
			}
		}
	} else if _, ok := s.mem[a]; ok {
		return false
	}
	// the element could be one with an exact cell under a different index term
	for _, k := range sortedTerms(s.mem) {
		if k.kind == KIndex && k.args[0] == base && k != a && s.provesEq(k.args[1], a.args[1]) {
			s.storeRaw(a, s.load(k, a.typ), a.typ)
			return true
		}
	}
	v := s.instantiate(sum)
	s.storeRaw(a, v, a.typ)
	return true
}

func (s *State) hasCell(a *Term, typ types.Type) bool {
	if st := structOf(typ); st != nil && st.NumFields() > 0 {
		for i := 0; i < st.NumFields(); i++ {
			if s.hasCell(mkField(a, typ, i), st.Field(i).Type()) {
				return true
			}
		}
		return false
	}
	_, ok := s.mem[a]
	return ok
}

// instantiate copies a summary value with fresh symbols.
func (s *State) instantiate(v *Term) *Term {
	m := substMap{}
	for _, a := range v.atomsOf() {
		if a.kind == KSym && strings.HasPrefix(a.name, "sum:") {
			s.x.instN++
			var n *Term
			for k := 0; ; k++ {
				n = mkSym(fmt.Sprintf("inst%d:%s", k, strings.TrimPrefix(a.name, "sum:")), a.typ)
				if !s.mentions(n) {
					break
				}
				if k > 40 {
					s.x.undecided(nil, "too many instances of %s", a.name)
					break
				}
			}
			m[a] = n
		}
	}
	if len(m) == 0 {
		return v
	}
	s.copyFacts(m)
	return m.apply(v)
}

func (s *State) copyFacts(m substMap) {
	add := map[*Term]bool{}
	for _, f := range sortedTerms(s.facts) {
		b := s.facts[f]
		n := m.apply(f)
		if n != f {
			if n.kind == KNot {
				add[n.args[0]] = !b
			} else {
				add[n] = b
			}
		}
	}
	for f, b := range add {
		if f != trueT && f != falseT {
			s.facts[f] = b
		}
	}
	var cons []Con
	for _, c := range s.lin {
		p := m.applyPoly(c.p)
		if p != c.p {
			cons = append(cons, Con{p, c.eq})
		}
	}
	s.lin = append(s.lin, cons...)
}

func (s *State) storeRaw(addr, val *Term, typ types.Type) {
	if st := structOf(typ); st != nil && st.NumFields() > 0 {
		for i := 0; i < st.NumFields(); i++ {
			s.storeRaw(mkField(addr, typ, i), mkFieldV(val, i), st.Field(i).Type())
		}
		return
	}
	s.mem[addr] = val
}

func (s *State) store(addr, val *Term, typ types.Type) {
	// find the indexed element, if any
	a := addr
	for a.kind == KField {
		a = a.args[0]
	}
	if a.kind == KIndex {
		base, idx := a.args[0], a.args[1]
		if isByteish(a.typ) {
			// byte store: content changes; remember as functional update
			if s.x.opaqueBytes {
				return
			}
			s.mem[mkElem(base)] = mkCall("byteSet", nil, s.contentOf(base), idx, val)
			return
		}
		s.materialise(a)
		// drop cells that may alias
		var drop []*Term
		for _, k := range sortedTerms(s.mem) {
			e := k
			for e.kind == KField {
				e = e.args[0]
			}
			if e.kind == KIndex && e.args[0] == base && e != a {
				d := asPoly(e.args[1]).add(asPoly(idx), -1)
				if s.provesEq(e.args[1], idx) {
					drop = append(drop, k)
					continue
				}
				if s.truth(mkEq0(d)) != 0 {
					drop = append(drop, k)
				}
			}
		}
		if len(drop) > 0 || s.hasSummary(base) {
			// elements not described by exact cells any more
			s.absorb(base, a.typ)
		}
		for _, k := range drop {
			delete(s.mem, k)
		}
		s.storeRaw(addr, val, typ)
		if s.hasSummary(base) {
			s.absorb(base, a.typ)
		}
		return
	}
	// stores through unknown pointers may hit the same field of others
	r := rootOf(addr)
	if r.kind != KAlloc && r.kind != KGlob && addr.kind == KField {
		ref := addr.obj.(fieldRef)
		for _, k := range sortedTerms(s.mem) {
			if k.kind == KField && k != addr {
				kr := k.obj.(fieldRef)
				r2 := rootOf(k)
				if kr.idx == ref.idx && typeKey(kr.owner) == typeKey(ref.owner) && r2.kind != KAlloc && r2.kind != KGlob && r2 != r {
					delete(s.mem, k)
					s.epoch[r2]++
				}
			}
		}
	}
	s.storeRaw(addr, val, typ)
}

func (s *State) hasSummary(base *Term) bool {
	_, ok := s.mem[mkElem(base)]
	return ok
}

// absorb folds all exact element cells of base into its summary.
func (s *State) absorb(base *Term, elem types.Type) {
	if isByteish(elem) {
		return
	}
	se := mkElem(base)
	sum, ok := s.mem[se]
	if !ok {
		if isFreshObj(s, base) {
			// zero initialised elements
			sum = zeroOf(elem)
			if s.fullyCovered(base) {
				sum = botT
			}
		} else {
			// unknown initial contents: every element becomes unknown
			s.epoch[base]++
			return
		}
	}
	var idxs []*Term
	seen := map[*Term]bool{}
	for _, k := range sortedTerms(s.mem) {
		e := k
		for e.kind == KField {
			e = e.args[0]
		}
		if e.kind == KIndex && e.args[0] == base && !seen[e] {
			seen[e] = true
			idxs = append(idxs, e)
		}
	}
	sort.Slice(idxs, func(i, j int) bool { return idxs[i].id < idxs[j].id })
	for _, e := range idxs {
		v := s.load(e, elem)
		sum = s.joinSummary(base, sum, v)
	}
	s.mem[se] = sum
}

// fullyCovered: every element of the (constant length) object has an exact cell.
func (s *State) fullyCovered(base *Term) bool {
	n := int64(-1)
	if base.typ != nil {
		if p, ok := base.typ.Underlying().(*types.Pointer); ok {
			if a, ok := p.Elem().Underlying().(*types.Array); ok {
				n = a.Len()
			}
		}
	}
	if n < 0 {
		for k := int64(0); k <= 8; k++ {
			if s.provesEq(mkLen(base), mkInt(k)) {
				n = k
				break
			}
		}
	}
	if n < 0 || n > 64 {
		return false
	}
	have := map[int64]bool{}
	for _, k := range sortedTerms(s.mem) {
		e := k
		for e.kind == KField {
			e = e.args[0]
		}
		if e.kind == KIndex && e.args[0] == base {
			if c, ok := constInt(e.args[1]); ok {
				have[c] = true
			}
		}
	}
	for i := int64(0); i < n; i++ {
		if !have[i] {
			return false
		}
	}
	return true
}

// joinSummary returns a value describing both a and b.
func (s *State) joinSummary(base, a, b *Term) *Term {
	if a == b || b == botT {
		return a
	}
	if a == botT {
		return b
	}
	A, N := s.clone(), s.clone()
	A.ghost["$sum"] = a
	N.ghost["$sum"] = b
	J := joinStates(s.x, A, N, "S"+itoa(int64(base.id)), &joinOpts{sumBase: base})
	r := J.ghost["$sum"]
	delete(J.ghost, "$sum")
	tr := s.trace
	*s = *J
	s.trace = tr
	return r
}

// contentOf is the version of the bytes of an object.
func (s *State) contentOf(base *Term) *Term {
	e := mkElem(base)
	if v, ok := s.mem[e]; ok {
		return v
	}
	if s.x.opaqueBytes {
		return mkCall("bytes in", nil, base)
	}
	if isFreshObj(s, base) {
		return mkConst("zeros", nil)
	}
	return mkLoad(e, s.epoch[base], nil)
}

func (s *State) setContent(base, v *Term) {
	s.mem[mkElem(base)] = v
}

// havoc forgets everything stored under the object.
func (s *State) havoc(root *Term) {
	for _, k := range sortedTerms(s.mem) {
		if rootOf(k) == root {
			delete(s.mem, k)
		}
	}
	s.epoch[root]++
}

// ---------- garbage collection ----------

func (s *State) gc(liveRegs func(reg) bool) {
	for k := range s.env {
		if !liveRegs(k) {
			delete(s.env, k)
		}
	}
	live := map[*Term]bool{}
	var work []*Term
	mark := func(t *Term) {
		if t == nil {
			return
		}
		for _, a := range t.atomsOf() {
			if !live[a] {
				live[a] = true
				work = append(work, a)
			}
		}
	}
	for _, v := range s.env {
		mark(v)
	}
	for _, v := range s.ghost {
		mark(v)
	}
	for t := range s.x.pinned {
		mark(t)
	}
	for _, ds := range s.defers {
		for _, d := range ds {
			mark(d.call.fnTerm)
			for _, a := range d.call.args {
				mark(a)
			}
		}
	}
	if s.recov != nil {
		mark(s.recov)
	}
	// memory cells: group by root
	byRoot := map[*Term][]*Term{}
	for _, k := range sortedTerms(s.mem) {
		r := rootOf(k)
		byRoot[r] = append(byRoot[r], k)
	}
	done := map[*Term]bool{}
	for {
		ch := false
		for r, cells := range byRoot {
			if done[r] {
				continue
			}
			ok := r.kind == KGlob
			if !ok {
				ok = true
				for _, a := range r.atomsOf() {
					if !live[a] {
						ok = false
					}
				}
				if len(r.atomsOf()) == 0 {
					ok = true
				}
			}
			if ok {
				done[r] = true
				ch = true
				for _, k := range cells {
					mark(s.mem[k])
					if isElemExact(k) {
						mark(k)
					}
				}
			}
		}
		if !ch {
			break
		}
	}
	for _, k := range sortedTerms(s.mem) {
		if !done[rootOf(k)] {
			delete(s.mem, k)
		}
	}
	for k := range s.epoch {
		for _, a := range k.atomsOf() {
			if !live[a] {
				delete(s.epoch, k)
				break
			}
		}
	}
	deadAtom := func(t *Term) bool {
		for _, a := range t.atomsOf() {
			if !live[a] {
				return true
			}
		}
		return false
	}
	for f := range s.facts {
		if deadAtom(f) {
			delete(s.facts, f)
		}
	}
	s.lin = project(s.lin, deadAtom)
}

func isElemExact(k *Term) bool {
	for k.kind == KField {
		k = k.args[0]
	}
	return k.kind == KIndex
}
