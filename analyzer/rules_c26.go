package main

// C26: construction of the index and lookups in it.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rule("C26", func(p *Prog, r *Report) {
		r.describe("Construction: with ghost cursors over the entries, every entry must be appended, in order, to the list found under a place computed from its weak checksum alone, and every list of every place must be sorted by strong checksum before the index is returned. Lookup: a weak lookup must return the list at the same place, and nothing only if nothing is stored there; the strong lookup, analysed for every sorted list, must return exactly the entries from the first equal one to the last equal one (search positions, comparisons and appends move ghost cursors over the list). The comparison used for sorting must be the byte order of the strong checksums.")
		b := &c26build{}
		if fn := r.anchor("index", "", "MakeChecksumIndex"); fn != nil {
			r.analyse(shortFn(fn), func(x *Exec) { b.reset(); c26make(x, fn, b) })
			r.need("entry stored", 1)
			r.need("list sorted", 1)
			r.need("index returned", 1)
		}
		c26writers(p, r)
		if fn := r.anchor("index", "ChecksumIndex", "FindWeakChecksum2"); fn != nil {
			r.analyse(shortFn(fn), func(x *Exec) { c26weak(x, fn, b) })
			r.need("weak lookup answered", 1)
		}
		if fn := r.anchor("index", "ChecksumIndex", "FindStrongChecksum2"); fn != nil {
			r.analyse(shortFn(fn), func(x *Exec) { c26strong(x, fn, b) })
			r.need("strong lookup answered", 1)
		}
		if fn := r.anchor("chunks", "ChunkChecksum", "Match"); fn != nil {
			r.analyse(shortFn(fn), func(x *Exec) { c26match(x, fn) })
			r.need("checksums compared", 1)
		}
	})
}

type c26build struct {
	idx, key *Term // place of an entry, over the placeholder
	flat     bool
	listT    types.Type
	lens     map[int]*Term // constant lengths of the fields of an index
}

func (b *c26build) reset() { b.idx, b.key, b.flat, b.lens = nil, nil, false, nil }

// fixedLens notes the fields that always have the same length.
func (b *c26build) fixedLens(s *State, obj *Term) {
	T := structOf(derefT(obj.typ))
	if T == nil {
		b.lens = map[int]*Term{}
		return
	}
	m := map[int]*Term{}
	for i := 0; i < T.NumFields(); i++ {
		if _, ok := T.Field(i).Type().Underlying().(*types.Slice); !ok {
			continue
		}
		n := lenOfArg(s.load(mkField(obj, derefT(obj.typ), i), T.Field(i).Type()))
		if b.lens == nil {
			if _, ok := constInt(n); ok {
				m[i] = n
				continue
			}
			for _, c := range s.lin {
				if k := mkInt(c.p.c); c.eq && s.provesEq(n, k) {
					m[i] = k
				} else if k := mkInt(-c.p.c); c.eq && s.provesEq(n, k) {
					m[i] = k
				}
			}
		} else if o := b.lens[i]; o != nil && s.provesEq(n, o) {
			m[i] = o
		}
	}
	b.lens = m
}

var c26X = mkSym("weak checksum", types.Typ[types.Uint32])

// maskToMod: x & (2^k-1) is x mod 2^k.
func maskToMod(t *Term) *Term {
	if t != nil && t.kind == KBin && t.name == "&" {
		a, b := t.args[0], t.args[1]
		if _, ok := constInt(a); ok {
			a, b = b, a
		}
		if c, ok := constInt(b); ok && c > 0 && c&(c+1) == 0 {
			return mkSub(a, mkMul(mkInt(c+1), mkBin("/", a.typ, a, mkInt(c+1))))
		}
	}
	return t
}

// c26cell: the index of the table cell holding the map m; nil index if m is
// itself a field of the index.
func c26cell(s *State, obj, m *Term) (idx *Term, flat, ok bool) {
	var cell *Term
	if m.kind == KLoad {
		cell = m.args[0]
	}
	if cell == nil {
		for k, v := range s.mem {
			if v == m && (k.kind == KIndex || k.kind == KField) {
				if cell != nil && cell != k {
					if cell.kind == KIndex && k.kind == KIndex && k.args[0] == cell.args[0] && s.provesEq(k.args[1], cell.args[1]) {
						continue
					}
					return nil, false, false
				}
				cell = k
			}
		}
	}
	if cell == nil {
		return nil, false, false
	}
	if cell.kind == KField {
		return nil, true, obj == nil || cell.args[0] == obj
	}
	if cell.kind == KIndex {
		return cell.args[1], false, true
	}
	return nil, false, false
}

func uint32LE(s *State, v *Term) *Term {
	if v == nilT {
		return mkCall("(encoding/binary.littleEndian).Uint32", types.Typ[types.Uint32], mkConst("none", nil), mkInt(0))
	}
	b, lo, _ := sliceParts(v)
	return mkCall("(encoding/binary.littleEndian).Uint32", types.Typ[types.Uint32], s.contentOf(b), lo)
}

func c26make(x *Exec, fn *ssa.Function, b *c26build) {
	args := x.params(fn)
	l := args[0]
	chT := x.p.namedType("chunks", "ChunkChecksum")
	st := newState(x)
	st.ghost["k"], st.ghost["t"] = mkInt(0), mkInt(0)
	isMap := func(m *Term) bool {
		mt, ok := m.typ.Underlying().(*types.Map)
		if !ok {
			return false
		}
		sl, ok := mt.Elem().Underlying().(*types.Slice)
		return ok && typeKey(sl.Elem()) == typeKey(chT)
	}
	entry := func(s *State, f string) *Term {
		return s.load(fieldAddr(mkIndex(l, s.ghost["k"], chT), chT, f), fieldType(chT, structFieldIdx(chT, f)))
	}
	x.h.Append = func(s *State, in ssa.Instruction, ctx *Ctx, old *Term, elems []*Term, spread, res *Term, elem types.Type) bool {
		if typeKey(elem) != typeKey(chT) {
			return true
		}
		if len(elems) != 1 {
			x.report(s, in, "not-one-entry", "a list of the index is extended by something other than one entry")
			return true
		}
		for _, f := range []string{"ChunkOffset", "WeakChecksum", "StrongChecksum"} {
			if !sameTerm(s, fieldVal(elems[0], chT, f), entry(s, f)) {
				x.report(s, in, "wrong-entry", "the entry added to the index is not the next one of the list given (%s)", f)
			}
		}
		s.ghost["old"], s.ghost["res"] = old, res
		return true
	}
	x.h.MapUpd = func(s *State, in ssa.Instruction, ctx *Ctx, m, k, v *Term) bool {
		if !isMap(m) {
			return true
		}
		x.count("entry stored", in)
		b.listT = m.typ.Underlying().(*types.Map).Elem()
		if s.auto["pend"] != "" {
			x.report(s, in, "changed-while-sorting", "a list is changed while the lists are being sorted")
		}
		if s.ghost["res"] == nil || v != s.ghost["res"] {
			x.report(s, in, "not-appended", "the list stored is not the one the entry was appended to")
			return true
		}
		old := s.ghost["old"]
		switch {
		case old == nilT:
			ok := mkCall(fmt.Sprintf("mapok#%d", s.epoch[m]), boolT, m, k)
			if s.truth(ok) != 0 && s.truth(mkEq(mkLen(mkCall(fmt.Sprintf("mapval#%d", s.epoch[m]), b.listT, m, k)), mkInt(0))) != 1 {
				x.report(s, in, "list-replaced", "an existing list may be replaced by one holding only the new entry")
			}
		case old.kind != KCall || !strings.HasPrefix(old.name, "mapval#") || old.args[0] != m || !sameTerm(s, old.args[1], k):
			x.report(s, in, "other-list", "the entry is appended to the list of another place than the one it is stored at")
		case old.name != fmt.Sprintf("mapval#%d", s.epoch[m]):
			x.report(s, in, "other-list", "the list may have changed since it was looked up")
		}
		idx, flat, ok := c26cell(s, nil, m)
		if !ok {
			x.report(s, in, "place-unknown", "the map changed is not known to be part of the index")
			return true
		}
		w := uint32LE(s, entry(s, "WeakChecksum"))
		key := maskToMod(substSame(s, k, w, c26X))
		if idx != nil {
			idx = maskToMod(substSame(s, idx, w, c26X))
		}
		for _, t := range []*Term{idx, key} {
			if t == nil {
				continue
			}
			for _, a := range t.atomsOf() {
				if a != c26X && a.kind != KConst {
					x.report(s, in, "place-unclear", "the place of an entry is not a function of its weak checksum read as a little endian number (%v)", t)
				}
			}
		}
		if b.key != nil && (b.key != key || b.idx != idx || b.flat != flat) {
			x.report(s, in, "two-places", "entries are stored at places computed in different ways")
		}
		b.key, b.idx, b.flat = key, idx, flat
		s.ghost["k"] = mkAdd(s.ghost["k"], mkInt(1))
		delete(s.ghost, "res")
		delete(s.ghost, "old")
		return true
	}
	x.h.IndexRd = func(s *State, in ssa.Instruction, ctx *Ctx, base, idx *Term, elem types.Type) bool {
		if base == l {
			if !s.provesEq(idx, s.ghost["k"]) && !s.provesGe(s.ghost["k"], mkAdd(idx, mkInt(1))) {
				x.report(s, in, "entry-skipped", "an entry is looked at although the ones before it may not have been stored")
			}
		}
		return true
	}
	x.h.LoadElem = func(s *State, in ssa.Instruction, ctx *Ctx, addr, val *Term) bool {
		if addr.kind == KIndex && val.typ != nil && isMap(val) {
			s.ghost["cm"], s.ghost["ci"] = val, addr.args[1]
		}
		return true
	}
	sorted := func(s *State, in ssa.Instruction) {
		if s.auto["pend"] != "" {
			x.report(s, in, "not-sorted", "a list of the index may be left unsorted")
		}
		delete(s.auto, "pend")
		delete(s.ghost, "pend")
	}
	// the table cell at the cursor holds no map
	settle := func(s *State) {
		for k, v := range s.mem {
			if k.kind != KIndex || v.typ == nil && v != nilT || !s.provesEq(k.args[1], s.ghost["t"]) {
				continue
			}
			if mt, ok := k.typ.Underlying().(*types.Map); ok && mt != nil && s.nilClass(v) == 1 {
				s.ghost["t"] = mkAdd(s.ghost["t"], mkInt(1))
				return
			}
		}
	}
	x.h.BackEdge = func(s *State, h *ssa.BasicBlock) bool { settle(s); return true }
	x.h.Next = func(s *State, in ssa.Instruction, ctx *Ctx, m, k, v *Term, more bool) bool {
		if m.typ == nil || !isMap(m) {
			return true
		}
		sorted(s, in)
		if more {
			s.auto["pend"] = "y"
			s.ghost["pend"] = v
			return true
		}
		if s.nilClass(m) == 1 {
			settle(s)
			return true
		}
		idx, flat, ok := c26cell(s, nil, m)
		if !ok && s.ghost["cm"] == m {
			idx, ok = s.ghost["ci"], true
		}
		switch {
		case !ok:
		case flat:
			s.auto["allsorted"] = "y"
		case s.provesEq(idx, s.ghost["t"]):
			s.ghost["t"] = mkAdd(s.ghost["t"], mkInt(1))
		}
		return true
	}
	x.h.PreCall = func(s *State, c *Call) bool {
		switch c.name {
		case "sort.Sort", "sort.Stable", "sort.Slice", "sort.SliceStable":
			x.count("list sorted", c.instr)
			v := stripIface(c.args[0])
			if s.auto["pend"] == "" || v != s.ghost["pend"] {
				return true
			}
			if strings.HasPrefix(c.name, "sort.Slice") {
				if !c26less(x, s, v, func(s *State, i, j *Term) []Outcome { return x.callTerm(s, c, c.args[1], i, j) }) {
					x.report(s, c.instr, "wrong-order", "the comparison used for sorting is not the byte order of the strong checksums")
				}
			} else if !c26sorter(x, s, c, v) {
				x.report(s, c.instr, "wrong-order", "the list is not sorted by the byte order of the strong checksums")
			}
			delete(s.auto, "pend")
			delete(s.ghost, "pend")
		}
		return true
	}
	for _, o := range x.enter(fn, st, args) {
		s := o.st
		if o.kind != oRet {
			continue // nothing is returned
		}
		x.count("index returned", o.at)
		b.fixedLens(s, o.vals[0])
		sorted(s, o.at)
		settle(s)
		if !s.provesEq(s.ghost["k"], mkLen(l)) {
			x.report(s, o.at, "entries-missing", "the index is returned although some entries may not have been stored")
		}
		if s.auto["allsorted"] != "" {
			continue
		}
		// the table
		obj := o.vals[0]
		done := false
		if T := structOf(derefT(obj.typ)); T != nil {
			for i := 0; i < T.NumFields(); i++ {
				sl, ok := T.Field(i).Type().Underlying().(*types.Slice)
				if !ok {
					continue
				}
				if _, ok := sl.Elem().Underlying().(*types.Map); !ok {
					continue
				}
				v := s.load(mkField(obj, derefT(obj.typ), i), T.Field(i).Type())
				if s.provesGe(s.ghost["t"], lenOfArg(v)) {
					done = true
				}
			}
		}
		if !done {
			x.report(s, o.at, "not-all-sorted", "the index is returned although the lists of some places may not have been sorted")
		}
	}
}

// cmpTerm: the result of comparing two byte slices, with what is known of it.
func cmpTerm(x *Exec, s *State, v, w *Term) *Term {
	a, b := x.bytesVal(s, v), x.bytesVal(s, w)
	c := mkCall("bytesCmp", intT, a, b)
	d := mkCall("bytesCmp", intT, b, a)
	s.addGe(c, mkInt(-1))
	s.addGe(mkInt(1), c)
	s.addEq(mkAdd(c, d), mkInt(0))
	p, q := a, b
	if p.id > q.id {
		p, q = q, p
	}
	if s.truth(mkCall("bytesEq", boolT, p, q)) == 1 {
		s.addEq(c, mkInt(0))
	}
	return c
}

func cmpDiffers(x *Exec, s *State, v, w *Term) bool {
	c := cmpTerm(x, s, v, w)
	a, b := x.bytesVal(s, v), x.bytesVal(s, w)
	if a.id > b.id {
		a, b = b, a
	}
	return s.truth(mkCall("bytesEq", boolT, a, b)) == 0 || s.truth(mkEq(c, mkInt(0))) == 0 ||
		s.provesGe(c, mkInt(1)) || s.provesGe(mkInt(-1), c)
}

// callTerm evaluates a function value.
func (x *Exec) callTerm(s *State, c *Call, f *Term, args ...*Term) []Outcome {
	if f.kind != KClosure && f.kind != KFunc {
		return nil
	}
	fn := f.obj.(*ssa.Function)
	if fn.Blocks == nil {
		return nil
	}
	return x.doCall(s, &Call{instr: c.instr, ctx: c.ctx, fnTerm: f, fn: fn, name: fn.String(), args: args, sig: fn.Signature, results: fn.Signature.Results(), common: c.common, isDef: true})
}

// decides: the outcomes return true exactly if val(s) >= 0 (ge) or val(s) > 0.
func decides(outs []Outcome, yes, no func(s *State) bool) bool {
	if len(outs) == 0 {
		return false
	}
	for _, o := range outs {
		if o.kind != oRet {
			return false
		}
		for _, b := range []bool{true, false} {
			c := o.st.clone()
			if !c.assume(o.vals[0], b) {
				continue
			}
			if b && !yes(c) || !b && !no(c) {
				return false
			}
		}
	}
	return true
}

func strongOf(x *Exec, s *State, list, i *Term) *Term {
	chT := x.p.namedType("chunks", "ChunkChecksum")
	b, lo, _ := sliceParts(list)
	return s.load(fieldAddr(mkIndex(b, mkAdd(lo, i), chT), chT, "StrongChecksum"), byteSliceT)
}

func c26less(x *Exec, st *State, list *Term, call func(s *State, i, j *Term) []Outcome) bool {
	s := st.clone()
	saved := x.h
	x.h = Hooks{}
	defer func() { x.h = saved }()
	i, j := mkSym("less.i", intT), mkSym("less.j", intT)
	for _, t := range []*Term{i, j} {
		s.addGe(t, mkInt(0))
		s.addGe(mkSub(lenOfArg(list), mkInt(1)), t)
	}
	cmp := func(c *State) *Term { return cmpTerm(x, c, strongOf(x, c, list, i), strongOf(x, c, list, j)) }
	return decides(call(s, i, j),
		func(c *State) bool { return c.provesGe(mkInt(-1), cmp(c)) || unsat(c, cmp(c), 0) },
		func(c *State) bool { return c.provesGe(cmp(c), mkInt(0)) || unsatNeg(c, cmp(c)) })
}

// unsat: v >= lo is impossible (negated equalities included).
func unsat(s *State, v *Term, lo int64) bool {
	for k := lo; k <= 1; k++ {
		c := s.clone()
		if c.assume(mkEq(v, mkInt(k)), true) && c.addEq(v, mkInt(k)) {
			return false
		}
	}
	return true
}

func unsatNeg(s *State, v *Term) bool {
	c := s.clone()
	return !(c.assume(mkEq(v, mkInt(-1)), true) && c.addEq(v, mkInt(-1)))
}

// c26sorter: the methods handed to package sort.
func c26sorter(x *Exec, st *State, c *Call, list *Term) bool {
	T := c.args[0]
	if T.kind != KIface {
		return false
	}
	named := T.typ
	find := func(n string) *ssa.Function {
		if sel := x.p.prog.MethodSets.MethodSet(named).Lookup(nil, n); sel != nil {
			return x.p.prog.MethodValue(sel)
		}
		return nil
	}
	less := find("Less")
	if less == nil {
		return false
	}
	call := func(fn *ssa.Function) func(s *State, i, j *Term) []Outcome {
		return func(s *State, i, j *Term) []Outcome {
			return x.doCall(s, &Call{instr: c.instr, ctx: c.ctx, fn: fn, name: fn.String(), args: []*Term{list, i, j}, sig: fn.Signature, results: fn.Signature.Results(), common: c.common, isDef: true})
		}
	}
	return c26less(x, st, list, call(less)) && sorterMoves(x, st, c, named, list, x.p.namedType("chunks", "ChunkChecksum"))
}

// c26match: two checksums match exactly if both halves are equal.
func c26match(x *Exec, fn *ssa.Function) {
	st := newState(x)
	args := x.params(fn)
	chT := x.p.namedType("chunks", "ChunkChecksum")
	val := func(s *State, v *Term, f string) *Term {
		if _, ok := v.typ.Underlying().(*types.Pointer); ok {
			return s.load(fieldAddr(v, chT, f), byteSliceT)
		}
		return fieldVal(v, chT, f)
	}
	if len(args) != 2 || fn.Signature.Results().Len() != 1 {
		x.undecided(nil, "the comparison has another form")
		return
	}
	outs := x.enter(fn, st, args)
	fields := []string{"WeakChecksum", "StrongChecksum"}
	for _, o := range outs {
		if o.kind != oRet {
			x.report(o.st, o.at, "match-crash", "comparing checksums may crash")
			continue
		}
		x.count("checksums compared", o.at)
		yes := decides([]Outcome{o}, func(c *State) bool {
			for _, f := range fields {
				cmpTerm(x, c, val(c, args[0], f), val(c, args[1], f))
				if !cmpEqual(x, c, val(c, args[0], f), val(c, args[1], f)) {
					return false
				}
			}
			return true
		}, func(*State) bool { return true })
		if !yes {
			x.report(o.st, o.at, "match-unequal", "checksums of which a half differs may match")
		}
		no := decides([]Outcome{o}, func(*State) bool { return true }, func(c *State) bool {
			for _, f := range fields {
				if !cmpForce(x, c, val(c, args[0], f), val(c, args[1], f)) {
					return true
				}
			}
			return false
		})
		if !no {
			x.report(o.st, o.at, "match-missed", "checksums both halves of which are equal may not match")
		}
	}
}

// cmpEqual: the byte strings are known to be equal.
func cmpEqual(x *Exec, s *State, v, w *Term) bool {
	a, b := x.bytesVal(s, v), x.bytesVal(s, w)
	if a.id > b.id {
		a, b = b, a
	}
	return a == b || s.truth(mkCall("bytesEq", boolT, a, b)) == 1 || s.provesEq(cmpTerm(x, s, v, w), mkInt(0)) || s.truth(mkEq(cmpTerm(x, s, v, w), mkInt(0))) == 1
}

// cmpForce: the byte strings are assumed to be equal, false if they cannot be.
func cmpForce(x *Exec, s *State, v, w *Term) bool {
	a, b := x.bytesVal(s, v), x.bytesVal(s, w)
	if a.id > b.id {
		a, b = b, a
	}
	if a == b {
		return true
	}
	if !s.assume(mkCall("bytesEq", boolT, a, b), true) || !s.addEq(lenOfArg(v), lenOfArg(w)) {
		return false
	}
	c, d := mkCall("bytesCmp", intT, a, b), mkCall("bytesCmp", intT, b, a)
	for _, t := range []*Term{c, d} {
		if !s.assume(mkEq(t, mkInt(0)), true) || !s.addEq(t, mkInt(0)) {
			return false
		}
	}
	return true
}

// sorterMoves: the Len and Swap methods of T, a slice type handed to package
// sort, give its length and exchange two of its elements.
func sorterMoves(x *Exec, st *State, c *Call, T types.Type, list *Term, elem types.Type) bool {
	find := func(n string) *ssa.Function {
		if sel := x.p.prog.MethodSets.MethodSet(T).Lookup(nil, n); sel != nil {
			return x.p.prog.MethodValue(sel)
		}
		return nil
	}
	swap, ln := find("Swap"), find("Len")
	if swap == nil || ln == nil {
		return false
	}
	saved := x.h
	x.h = Hooks{Bounds: func(*State, ssa.Instruction, *Ctx, string, []Con) bool { return true }}
	defer func() { x.h = saved }()
	call := func(s *State, fn *ssa.Function, args ...*Term) []Outcome {
		return x.doCall(s, &Call{instr: c.instr, ctx: c.ctx, fn: fn, name: fn.String(), args: args, sig: fn.Signature, results: fn.Signature.Results(), common: c.common, isDef: true})
	}
	outs := call(st.clone(), ln, list)
	for _, o := range outs {
		if o.kind != oRet || !o.st.provesEq(o.vals[0], lenOfArg(list)) {
			return false
		}
	}
	if len(outs) == 0 {
		return false
	}
	s := st.clone()
	i, j := mkSym("less.i", intT), mkSym("less.j", intT)
	for _, t := range []*Term{i, j} {
		s.addGe(t, mkInt(0))
		s.addGe(mkSub(lenOfArg(list), mkInt(1)), t)
	}
	if !s.addGe(j, mkAdd(i, mkInt(1))) {
		return true
	}
	whole := func(s *State, k *Term) *Term {
		b, lo, _ := sliceParts(list)
		return s.load(mkIndex(b, mkAdd(lo, k), elem), elem)
	}
	a, b := whole(s, i), whole(s, j)
	outs = call(s, swap, list, i, j)
	for _, o := range outs {
		if o.kind != oRet || whole(o.st, i) != b || whole(o.st, j) != a {
			return false
		}
	}
	return len(outs) > 0
}

// c26writers: nothing else in the module changes the maps of an index.
func c26writers(p *Prog, r *Report) {
	chT := p.namedType("chunks", "ChunkChecksum")
	own := func(fn *ssa.Function) bool {
		for fn.Parent() != nil {
			fn = fn.Parent()
		}
		return fn.Name() == "MakeChecksumIndex"
	}
	for _, fn := range p.all {
		if own(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				u, ok := in.(*ssa.MapUpdate)
				if !ok {
					continue
				}
				mt := u.Map.Type().Underlying().(*types.Map)
				if sl, ok := mt.Elem().Underlying().(*types.Slice); ok && typeKey(sl.Elem()) == typeKey(chT) && !onlyCalledFrom(p, fn, "MakeChecksumIndex", 0) {
					r.fail("other-writer", shortFn(fn), p.fset.Position(in.Pos()).String(), "%s changes a list of checksums outside the construction of the index", shortFn(fn))
				}
			}
		}
	}
}

func c26weak(x *Exec, fn *ssa.Function, b *c26build) {
	if b.key == nil {
		return
	}
	args := x.params(fn)
	obj, chk := args[0], args[1]
	st := newState(x)
	x.nonNil(st, obj)
	T := derefT(obj.typ)
	for i, n := range b.lens {
		v := st.load(mkField(obj, T, i), structOf(T).Field(i).Type())
		st.addEq(mkLen(v), n)
	}
	listLen := func(s *State, v *Term) bool { return s.provesEq(lenOfArg(v), mkInt(0)) }
	for _, o := range x.enter(fn, st, args) {
		if o.kind != oRet {
			continue
		}
		x.count("weak lookup answered", o.at)
		s, v := o.st, o.vals[0]
		w := uint32LE(s, chk)
		back := substMap{c26X: w}
		if v.kind == KIface && typeKey(v.typ) != typeKey(b.listT) {
			x.report(s, o.at, "wrong-type", "the list is returned as a %v, which is not what the strong lookup takes", v.typ)
		}
		v = stripIface(v)
		if v.kind == KCall && strings.HasPrefix(v.name, "mapval#") {
			idx, flat, ok := c26cell(s, obj, v.args[0])
			if idx != nil {
				idx = maskToMod(substSame(s, idx, w, c26X))
			}
			if key := maskToMod(substSame(s, v.args[1], w, c26X)); !ok || key != b.key || idx != b.idx || flat != b.flat {
				x.report(s, o.at, "other-place", "the list returned is not the one at the place where blocks with that weak checksum are stored")
			}
			continue
		}
		if v != nilT {
			x.report(s, o.at, "other-value", "what is returned is not a list of the index (%v)", v)
			continue
		}
		// nothing returned: nothing may be stored there
		sT := structOf(T)
		empty := false
		for i := 0; i < sT.NumFields(); i++ {
			f := mkField(obj, T, i)
			ft := sT.Field(i).Type()
			var m *Term
			if _, ok := ft.Underlying().(*types.Map); ok && b.flat {
				m = s.load(f, ft)
			} else if sl, ok := ft.Underlying().(*types.Slice); ok && !b.flat {
				if _, ok := sl.Elem().Underlying().(*types.Map); !ok {
					continue
				}
				tab, lo, _ := sliceParts(s.load(f, ft))
				want := mkAdd(lo, back.apply(b.idx))
				for _, k := range c26reads(s, tab, sl.Elem()) {
					if maskToMod(k.args[1]) == maskToMod(want) {
						m = k
					}
				}
				if m != nil {
					m = s.load(m, sl.Elem())
				}
			}
			if m == nil {
				continue
			}
			key := back.apply(b.key)
			val := mkCall(fmt.Sprintf("mapval#%d", s.epoch[m]), b.listT, m, key)
			if s.nilClass(m) == 1 || s.truth(mkCall(fmt.Sprintf("mapok#%d", s.epoch[m]), boolT, m, key)) == 0 || s.nilClass(val) == 1 || listLen(s, val) {
				empty = true
			}
		}
		if !empty {
			x.report(s, o.at, "not-found", "nothing is returned although blocks with that weak checksum may be stored")
		}
	}
}

// c26reads: the addresses of table cells mentioned in the state.
func c26reads(s *State, tab *Term, elem types.Type) (out []*Term) {
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.kind == KIndex && t.args[0] == tab {
			out = append(out, t)
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	for _, v := range s.env {
		rec(v)
	}
	for f := range s.facts {
		rec(f)
	}
	for _, c := range s.lin {
		c.p.eachAtom(rec)
	}
	return
}

func c26strong(x *Exec, fn *ssa.Function, b *c26build) {
	if b.listT == nil {
		return
	}
	args := x.params(fn)
	chT := x.p.namedType("chunks", "ChunkChecksum")
	list := mkSym("arg:list", b.listT)
	x.created[list], x.pinned[list] = true, true
	strong := args[1]
	x.assumptions["the list searched is sorted by strong checksum (established by the construction)"] = true
	args[2] = mkIface(list, b.listT)
	st := newState(x)
	n := mkLen(list)
	// p: entries before p are decided; a: how many of them were collected;
	// [qs,q) are equal; L, G: first not smaller, first greater
	st.ghost["p"], st.ghost["a"], st.ghost["q"], st.ghost["qs"] = mkInt(0), mkInt(0), mkInt(0), mkInt(0)
	at := func(s *State, i *Term) []*Term { // the entry, under every name in use
		out := []*Term{strongOf(x, s, list, i)}
		for _, a := range c26reads(s, list, nil) {
			if a.args[1] != i && s.provesEq(a.args[1], i) {
				out = append(out, strongOf(x, s, list, a.args[1]))
			}
		}
		return out
	}
	equalAt := func(s *State, i *Term) bool {
		if !s.provesGe(mkSub(n, mkInt(1)), i) {
			return false
		}
		for _, v := range at(s, i) {
			if s.provesEq(cmpTerm(x, s, v, strong), mkInt(0)) {
				return true
			}
		}
		return false
	}
	differsAt := func(s *State, i *Term) bool {
		for _, v := range at(s, i) {
			if cmpDiffers(x, s, v, strong) {
				return true
			}
		}
		return false
	}
	settle := func(s *State) {
		if equalAt(s, s.ghost["q"]) {
			s.ghost["q"] = mkAdd(s.ghost["q"], mkInt(1))
		}
		if differsAt(s, s.ghost["p"]) {
			s.ghost["p"] = mkAdd(s.ghost["p"], mkInt(1))
		}
	}
	x.h.BackEdge = func(s *State, h *ssa.BasicBlock) bool { settle(s); return true }
	x.h.LoopKey = func(s *State) string { settle(s); return "" }
	x.h.IndexRd = func(s *State, in ssa.Instruction, ctx *Ctx, base, idx *Term, elem types.Type) bool {
		if base == list {
			settle(s)
		}
		return true
	}
	x.h.Append = func(s *State, in ssa.Instruction, ctx *Ctx, old *Term, elems []*Term, spread, res *Term, elem types.Type) bool {
		if typeKey(elem) != typeKey(chT) {
			return true
		}
		settle(s)
		good := len(elems) == 1 && s.provesEq(lenOfArg(old), s.ghost["a"]) && (old == nilT || s.ghost["res"] == nil || s.provesEq(s.ghost["a"], mkInt(0)) || old == s.ghost["res"])
		if good {
			for _, f := range []string{"ChunkOffset", "WeakChecksum", "StrongChecksum"} {
				w := s.load(fieldAddr(mkIndex(list, s.ghost["p"], chT), chT, f), fieldType(chT, structFieldIdx(chT, f)))
				if !sameTerm(s, fieldVal(elems[0], chT, f), w) {
					good = false
				}
			}
			good = good && equalAt(s, s.ghost["p"])
		}
		if !good {
			x.report(s, in, "wrong-entry", "an entry is added to the result although it is not known to be the next one with an equal strong checksum")
			return true
		}
		s.ghost["a"] = mkAdd(s.ghost["a"], mkInt(1))
		s.ghost["p"] = mkAdd(s.ghost["p"], mkInt(1))
		s.ghost["res"] = res
		return true
	}
	x.h.Store = func(s *State, in ssa.Instruction, ctx *Ctx, addr, val *Term) bool {
		if r := rootOf(addr); r == list || r.kind == KLoad {
			x.report(s, in, "changed-by-lookup", "a lookup changes the list it searches")
		}
		return true
	}
	x.h.Model = func(s *State, c *Call) ([]Res, bool) {
		if strings.HasPrefix(c.name, "sort.") && !strings.HasPrefix(c.name, "sort.Search") {
			x.report(s, c.instr, "changed-by-lookup", "a lookup reorders the list it searches")
		}
		if c.name != "sort.Search" {
			return nil, false
		}
		i := s.fresh(x.name(c.ctx, c.instr, "i"), intT)
		s.addGe(i, mkInt(0))
		s.addGe(c.args[0], i)
		if !s.provesEq(c.args[0], n) {
			return []Res{{st: s, vals: []*Term{i}}}, true
		}
		saved := x.h
		x.h = Hooks{}
		j := mkSym("search.j", intT)
		probe := func() []Outcome {
			t := s.clone()
			t.addGe(j, mkInt(0))
			t.addGe(mkSub(n, mkInt(1)), j)
			return x.callTerm(t, c, c.args[1], j)
		}
		cmp := func(t *State) *Term { return cmpTerm(x, t, strongOf(x, t, list, j), strong) }
		geZero := func(t *State) bool { v := cmp(t); return t.provesGe(v, mkInt(0)) || unsatNeg(t, v) }
		ltZero := func(t *State) bool { v := cmp(t); return t.provesGe(mkInt(-1), v) || unsat(t, v, 0) }
		gtZero := func(t *State) bool {
			v := cmp(t)
			if t.provesGe(v, mkInt(1)) {
				return true
			}
			u := t.clone()
			return unsatNeg(t, v) && !(u.assume(mkEq(v, mkInt(0)), true) && u.addEq(v, mkInt(0)))
		}
		leZero := func(t *State) bool { v := cmp(t); return t.provesGe(mkInt(0), v) || unsat(t, v, 1) }
		switch {
		case decides(probe(), geZero, ltZero):
			s.ghost["L"] = i
			s.ghost["q"], s.ghost["qs"] = i, i
		case decides(probe(), gtZero, leZero):
			s.ghost["G"] = i
		}
		x.h = saved
		return []Res{{st: s, vals: []*Term{i}}}, true
	}
	for _, o := range x.enter(fn, st, args) {
		if o.kind != oRet {
			x.report(o.st, o.at, "no-answer", "the lookup does not return on some path")
			continue
		}
		x.count("strong lookup answered", o.at)
		s, v := o.st, o.vals[0]
		settle(s)
		L, G := s.ghost["L"], s.ghost["G"]
		noneAfter := func(i *Term) bool { // no entry at i or later is equal, given that those before i are not greater
			return s.provesGe(i, n) || s.provesGe(mkSub(n, mkInt(1)), i) && differsAt(s, i) || G != nil && s.provesEq(i, G)
		}
		if v == nilT || s.provesEq(lenOfArg(v), mkInt(0)) {
			none := s.provesEq(n, mkInt(0)) || s.provesGe(s.ghost["p"], n) && s.provesEq(s.ghost["a"], mkInt(0)) ||
				L != nil && (noneAfter(L) || G != nil && s.provesEq(L, G))
			if !none {
				x.report(s, o.at, "match-missed", "nothing is returned although an entry with an equal strong checksum may be in the list")
			}
			continue
		}
		base, lo, hi := sliceParts(v)
		if base == list {
			first := s.provesEq(lo, mkInt(0)) || L != nil && s.provesEq(lo, L) || s.provesEq(lo, s.ghost["p"]) && s.provesEq(s.ghost["a"], mkInt(0))
			if !first {
				x.report(s, o.at, "match-missed", "the first entry returned is not known to be the first one with an equal strong checksum")
			}
			between := L != nil && G != nil && s.provesEq(lo, L) && s.provesEq(hi, G)
			if !between && !(s.provesEq(lo, s.ghost["qs"]) && s.provesEq(hi, s.ghost["q"])) {
				x.report(s, o.at, "wrong-entry", "entries are returned whose strong checksum is not known to be equal")
			} else if !noneAfter(hi) {
				x.report(s, o.at, "match-missed", "entries after the last one returned may have an equal strong checksum")
			}
			continue
		}
		if !s.provesEq(lenOfArg(v), s.ghost["a"]) || !(s.provesEq(s.ghost["a"], mkInt(0)) || s.ghost["res"] == v) {
			x.report(s, o.at, "wrong-entry", "the list returned is not known to be the one built from the equal entries")
		} else if !s.provesGe(s.ghost["p"], n) {
			x.report(s, o.at, "match-missed", "the list is returned before every entry was looked at")
		}
	}
}

// onlyCalledFrom: fn is called (directly or not) by nothing but the named function.
func onlyCalledFrom(p *Prog, fn *ssa.Function, name string, depth int) bool {
	n := 0
	for _, g := range p.all {
		if g.Synthetic != "" {
			continue // wrappers of promoted methods
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op != ssa.Value(fn) {
						continue
					}
					n++
					if g.Name() != name && (depth > 4 || !onlyCalledFrom(p, g, name, depth+1)) {
						return false
					}
				}
			}
		}
	}
	return n > 0
}

// substSame replaces the calls in t that are the same as w.
func substSame(s *State, t, w, by *Term) *Term {
	sub := substMap{}
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.kind == w.kind && t.name == w.name && t != by && sameTerm(s, t, w) {
			sub[t] = by
			return
		}
		for _, a := range t.args {
			rec(a)
		}
		if t.poly != nil {
			t.poly.eachAtom(rec)
		}
	}
	rec(t)
	return sub.apply(t)
}
