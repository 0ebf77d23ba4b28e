package main

// C14: merging of matches.

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rule("C14", func(p *Prog, r *Report) {
		r.describe("The merge goroutine is analysed with the ordered tree as a map from position to item of which nothing is known but that it represents disjoint spans. For every match received, the operations made on the tree inside one critical section must turn the representation of the spans into that of the same spans plus the new block, where the new span may be joined with the one before or after it only if block and offset are known to continue; nothing may change if the block was covered. The lock must be the merger's, held at every access and released on every path. The ordering methods of the items must order by position; the spans returned must be the items that start a span, all of them, after all streams have ended. The patch operation and the diff command must merge with the block size the comparison used, and take the spans of the merger the streams went to.")
		fn := r.anchor("comparer", "MatchMerger", "StartMergeResultStream")
		if fn == nil {
			return
		}
		r.analyse(shortFn(fn), func(x *Exec) { (&merge14{x: x}).stream(fn) })
		if fn := r.anchor("comparer", "MatchMerger", "GetMergedBlocks"); fn != nil {
			r.analyse(shortFn(fn), func(x *Exec) { (&merge14{x: x}).collect(fn) })
		}
		r.analyse("order of items", func(x *Exec) { (&merge14{x: x}).order() })
		for _, root := range []struct{ pkg, typ, name string }{{"", "RSync", "Patch"}, {cmdPkg, "", "Diff"}} {
			if fn := r.anchor(root.pkg, root.typ, root.name); fn != nil {
				before := r.counts["stream merged"]
				r.analyse(shortFn(fn), func(x *Exec) { c14callers(x, fn, root.pkg) })
				if r.counts["stream merged"] == before {
					r.fail("coverage", shortFn(fn), "", "no merging of a stream was found in %s: the rule no longer covers the code it is about", shortFn(fn))
				}
			}
		}
		r.need("critical section", 1)
		r.need("match recorded", 1)
		r.need("spans returned", 1)
		r.need("ordering method", 2)
	})
}

const llrbT = "(*github.com/petar/GoLLRB/llrb.LLRB)."

type merge14 struct {
	x                  *Exec
	startT, endT, keyT types.Type
	resT, mergerT      types.Type
	obj, bs            *Term
	mutex              *Term
}

func (m *merge14) types() bool {
	p := m.x.p
	m.startT, m.endT, m.keyT = p.namedType("comparer", "BlockSpanStart"), p.namedType("comparer", "BlockSpanEnd"), p.namedType("comparer", "BlockSpanKey")
	m.resT, m.mergerT = p.namedType("comparer", "BlockMatchResult"), p.namedType("comparer", "MatchMerger")
	if m.startT == nil || m.endT == nil || m.keyT == nil || m.resT == nil || m.mergerT == nil {
		m.x.report(nil, nil, "anchor", "the types of the merger's items were not found")
		return false
	}
	return true
}

var uint14 = types.Typ[types.Uint]
var int64T = types.Typ[types.Int64]

func (m *merge14) item(kind string, S, E, O *Term) *Term {
	T := m.startT
	if kind == "end" {
		T = m.endT
	}
	vals := make([]*Term, structOf(T).NumFields())
	for i := range vals {
		vals[i] = zeroOf(fieldType(T, i))
	}
	vals[structFieldIdx(T, "StartBlock")] = S
	vals[structFieldIdx(T, "EndBlock")] = E
	vals[structFieldIdx(T, "ComparisonStartOffset")] = O
	return mkIface(mkStruct(T, vals), T)
}

// parse: what an item handed to the tree is.
func (m *merge14) parse(t *Term) (kind string, S, E, O, key *Term) {
	if t.kind != KIface {
		return
	}
	v := t.args[0]
	get := func(T types.Type) {
		S, E, O = fieldVal(v, T, "StartBlock"), fieldVal(v, T, "EndBlock"), fieldVal(v, T, "ComparisonStartOffset")
	}
	switch typeKey(t.typ) {
	case typeKey(m.startT):
		get(m.startT)
		return "start", S, E, O, S
	case typeKey(m.endT):
		get(m.endT)
		return "end", S, E, O, E
	case typeKey(m.keyT):
		return "key", nil, nil, nil, v
	}
	return
}

// what is at a position: kind is start, end, none or unknown
type at14 struct {
	s       *State
	kind    string
	S, E, O *Term
}

func list14(s *State, pre string) (out []*Term) {
	n, _ := strconv.Atoi(s.auto["n"+pre])
	for i := 0; i < n; i++ {
		out = append(out, s.ghost[pre+strconv.Itoa(i)])
	}
	return
}

func push14(s *State, pre, kind string, args ...*Term) {
	n, _ := strconv.Atoi(s.auto["n"+pre])
	s.ghost[pre+strconv.Itoa(n)] = mkCall(kind, nil, args...)
	s.auto["n"+pre] = strconv.Itoa(n + 1)
	s.auto["shape"+pre] += kind[:1]
}

func clear14(s *State) {
	for _, pre := range []string{"it", "op"} {
		for i := range list14(s, pre) {
			delete(s.ghost, pre+strconv.Itoa(i))
		}
		delete(s.auto, "n"+pre)
		delete(s.auto, "shape"+pre)
	}
	delete(s.auto, "cov")
}

// three: a < b, a == b, a > b
func three(s *State, a, b *Term) (lt, eq, gt *State) {
	if c := s.clone(); c.addGe(b, mkAdd(a, mkInt(1))) {
		lt = c
	}
	if c := s.clone(); c.addEq(a, b) && c.assume(mkEq(a, b), true) {
		eq = c
	}
	if c := s.clone(); c.addGe(a, mkAdd(b, mkInt(1))) {
		gt = c
	}
	return
}

func states(l ...*State) (out []*State) {
	for _, s := range l {
		if s != nil {
			out = append(out, s)
		}
	}
	return
}

// base: what was at key at the beginning of the critical section
func (m *merge14) base(s *State, key *Term) (out []at14) {
	todo := []*State{s}
	if s.auto["cov"] == "n" {
		lt, eq, gt := three(s, key, s.ghost["b"])
		if eq != nil {
			out = append(out, at14{s: eq, kind: "none"})
		}
		todo = states(lt, gt)
	}
	for _, it := range list14(s, "it") {
		var rest []*State
		for _, c := range todo {
			if it.name == "none" {
				lt, eq, gt := three(c, key, it.args[0])
				if eq != nil {
					out = append(out, at14{s: eq, kind: "none"})
				}
				rest = append(rest, states(lt, gt)...)
				continue
			}
			S, E, O := it.args[1], it.args[2], it.args[3]
			lt, eq, gt := three(c, key, S)
			rest = append(rest, states(lt)...)
			if eq != nil {
				out = append(out, at14{eq, "start", S, E, O})
			}
			if gt == nil {
				continue
			}
			lt, eq, gt = three(gt, key, E)
			rest = append(rest, states(gt)...)
			if eq != nil {
				out = append(out, at14{eq, "end", S, E, O})
			}
			if lt != nil {
				out = append(out, at14{s: lt, kind: "none"})
			}
		}
		todo = rest
	}
	for _, c := range todo {
		out = append(out, at14{s: c, kind: "unknown"})
	}
	return
}

// now: what is at key after the operations made so far
func (m *merge14) now(s *State, key *Term) (out []at14) {
	ops := list14(s, "op")
	todo := []*State{s}
	for i := len(ops) - 1; i >= 0; i-- {
		var rest []*State
		for _, c := range todo {
			lt, eq, gt := three(c, key, ops[i].args[0])
			rest = append(rest, states(lt, gt)...)
			if eq == nil {
				continue
			}
			if ops[i].name == "del" {
				out = append(out, at14{s: eq, kind: "none"})
			} else {
				out = append(out, at14{eq, ops[i].name, ops[i].args[1], ops[i].args[2], ops[i].args[3]})
			}
		}
		todo = rest
	}
	for _, c := range todo {
		out = append(out, m.base(c, key)...)
	}
	return
}

// uncovered: no span of the tree contains the block of the match
func (m *merge14) uncovered(s *State) []*State {
	b := s.ghost["b"]
	todo := []*State{s}
	for i, it := range list14(s, "it") {
		if it.name == "none" {
			continue
		}
		var next []*State
		for _, c := range todo {
			it := c.ghost["it"+strconv.Itoa(i)]
			if d := c.clone(); d.addGe(mkSub(b, mkInt(1)), it.args[2]) && d.addGe(mkSub(b, mkInt(1)), it.args[1]) {
				m.tie(d, it.args[2], mkSub(b, mkInt(1)))
				next = append(next, d)
			}
			if d := c.clone(); d.addGe(it.args[1], mkAdd(b, mkInt(1))) && d.addGe(it.args[2], mkAdd(b, mkInt(1))) {
				m.tie(d, it.args[1], mkAdd(b, mkInt(1)))
				next = append(next, d)
			}
		}
		todo = next
	}
	return todo
}

// tie replaces v by w if they are known to be equal.
func (m *merge14) tie(s *State, v, w *Term) {
	if v.kind == KSym && !m.x.pinned[v] && s.provesEq(v, w) {
		s.subst(substMap{v: w})
	}
}

// found: an item met in the tree, as a new unknown
func (m *merge14) found(s *State, c *Call, kind string, key *Term, label string) []at14 {
	x := m.x
	v := s.fresh(x.name(c.ctx, c.instr, label+"other end"), uint14)
	O := s.fresh(x.name(c.ctx, c.instr, label+"offset"), int64T)
	S, E := key, v
	if kind == "end" {
		S, E = v, key
	}
	if !s.addGe(S, mkInt(0)) || !s.addGe(E, mkAdd(S, mkInt(boolInt64(kind == "end")))) {
		return nil
	}
	push14(s, "it", kind, key, S, E, O)
	todo := []*State{s}
	if s.auto["cov"] == "n" {
		todo = m.uncovered(s)
	}
	var out []at14
	n := len(list14(s, "it")) - 1
	for _, c := range todo {
		it := c.ghost["it"+strconv.Itoa(n)]
		out = append(out, at14{c, kind, it.args[1], it.args[2], it.args[3]})
	}
	return out
}

func boolInt64(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

func (m *merge14) get(s *State, c *Call, key *Term) (out []at14) {
	for _, a := range m.now(s, key) {
		if a.kind != "unknown" {
			out = append(out, a)
			continue
		}
		n := a.s.clone()
		push14(n, "it", "none", key)
		out = append(out, at14{s: n, kind: "none"})
		out = append(out, m.found(a.s.clone(), c, "start", key, "")...)
		out = append(out, m.found(a.s.clone(), c, "end", key, "")...)
	}
	return
}

func (m *merge14) treeOp(s *State, c *Call, op string) ([]Res, bool) {
	x := m.x
	if s.auto["locked"] == "" {
		x.report(s, c.instr, "unlocked", "the shared tree is accessed (%s) without holding the merger's lock", op)
	}
	switch op {
	case "Get", "Has":
		_, _, _, _, key := m.parse(c.args[1])
		if key == nil {
			x.undecided(c.instr, "what is looked for in the tree is not known")
			return nil, false
		}
		var out []Res
		for _, a := range m.get(s, c, key) {
			v := nilT
			if a.kind != "none" {
				v = m.item(a.kind, a.S, a.E, a.O)
			}
			if op == "Has" {
				v = mkBool(a.kind != "none")
			}
			if a.kind != "none" && a.s.auto["nop"] == "" && a.s.ghost["b"] != nil && a.s.provesEq(key, a.s.ghost["b"]) {
				a.s.auto["cov"] = "y"
			}
			out = append(out, Res{st: a.s, vals: []*Term{v}})
		}
		return out, true
	case "Delete", "ReplaceOrInsert", "InsertNoReplace":
		kind, S, E, O, key := m.parse(c.args[1])
		if key == nil || kind == "key" && op != "Delete" || op == "InsertNoReplace" {
			x.undecided(c.instr, "what is put into the tree is not known")
			return nil, false
		}
		if op == "Delete" {
			push14(s, "op", "del", key)
		} else {
			x.count("match recorded", c.instr)
			push14(s, "op", kind, key, S, E, O)
		}
		r := Res{st: s}
		if c.results.Len() == 1 {
			r.vals = []*Term{s.fresh(x.name(c.ctx, c.instr, "replaced"), c.results.At(0).Type())}
		}
		return []Res{r}, true
	case "AscendGreaterOrEqual":
		return m.ascend(s, c), true
	case "Len":
		v := s.fresh(x.name(c.ctx, c.instr, "number of items"), intT)
		s.addGe(v, mkInt(0))
		return []Res{{st: s, vals: []*Term{v}}}, true
	}
	x.undecided(c.instr, "operation %s on the tree is not covered", op)
	return nil, false
}

func (m *merge14) ascend(s *State, c *Call) (out []Res) {
	x := m.x
	_, _, _, _, key := m.parse(c.args[1])
	b := s.ghost["b"]
	if key == nil || b == nil || s.auto["nop"] != "" {
		x.undecided(c.instr, "this walk over the tree is not covered")
		return
	}
	exact := s.provesEq(key, b)
	type start struct {
		s    *State
		item *Term
	}
	var starts []start
	add := func(s *State, cov string, it *Term) {
		if exact {
			if s.auto["cov"] != "" && s.auto["cov"] != cov {
				return
			}
			s.auto["cov"] = cov
		}
		if exact && cov == "n" {
			for _, c := range m.uncovered(s) {
				starts = append(starts, start{c, it})
			}
			return
		}
		starts = append(starts, start{s, it})
	}
	add(s.clone(), "n", nil)
	for i, kind := range []string{"start", "start", "end"} {
		n := s.clone()
		pos := n.fresh(x.name(c.ctx, c.instr, "position"), uint14)
		if i == 1 {
			pos = key
		} else if !n.addGe(pos, mkAdd(key, mkInt(boolInt64(i == 0)))) {
			continue
		}
		v := n.fresh(x.name(c.ctx, c.instr, "other end"), uint14)
		O := n.fresh(x.name(c.ctx, c.instr, "offset"), int64T)
		S, E := pos, v
		if kind == "end" {
			S, E = v, pos
		}
		if !n.addGe(S, mkInt(0)) || !n.addGe(E, mkAdd(S, mkInt(boolInt64(kind == "end")))) {
			continue
		}
		if kind == "end" && !n.addGe(mkSub(key, mkInt(1)), S) {
			continue
		}
		add(n, []string{"n", "y", "y"}[i], m.item(kind, S, E, O))
	}
	for _, st := range starts {
		if st.item == nil {
			out = append(out, Res{st: st.s})
			continue
		}
		out = append(out, m.walk(st.s, c, st.item, 0)...)
	}
	return
}

// walk calls the iterator with an item, and with others while it goes on.
func (m *merge14) walk(s *State, c *Call, item *Term, depth int) (out []Res) {
	x := m.x
	outs := x.callTerm(s, c, c.args[2], item)
	if len(outs) == 0 {
		x.undecided(c.instr, "the iterator is not known")
	}
	for _, o := range outs {
		if o.kind != oRet {
			x.report(o.st, o.at, "iterator-panics", "the iterator may panic")
			continue
		}
		if n := o.st.clone(); n.assume(o.vals[0], false) {
			out = append(out, Res{st: n})
		}
		n := o.st.clone()
		if !n.assume(o.vals[0], true) {
			continue
		}
		out = append(out, Res{st: n.clone()}) // no more items
		if depth >= 2 {
			x.undecided(c.instr, "the walk over the tree goes on for an unknown number of items")
			continue
		}
		for _, kind := range []string{"start", "end"} {
			d := n.clone()
			S := d.fresh(x.name(c.ctx, c.instr, fmt.Sprint("S", depth)), uint14)
			E := d.fresh(x.name(c.ctx, c.instr, fmt.Sprint("E", depth)), uint14)
			O := d.fresh(x.name(c.ctx, c.instr, fmt.Sprint("O", depth)), int64T)
			if d.addGe(S, mkInt(0)) && d.addGe(E, S) && d.addGe(mkCase(kind, S, E), mkAdd(d.ghost["b"], mkInt(1))) {
				out = append(out, m.walk(d, c, m.item(kind, S, E, O), depth+1)...)
			}
		}
	}
	return
}

func mkCase(kind string, S, E *Term) *Term {
	if kind == "start" {
		return S
	}
	return E
}

// finish: what was done to the tree for the match is what had to be done
func (m *merge14) finish(s *State, in ssa.Instruction) {
	x := m.x
	ops := list14(s, "op")
	if len(ops) == 0 {
		if s.auto["cov"] == "y" {
			s.auto["done"] = "y"
		}
		return
	}
	switch {
	case s.auto["res"] == "error":
		x.report(s, in, "error-recorded", "the result of a failed comparison is recorded as a match")
		return
	case s.auto["res"] == "":
		x.report(s, in, "nothing-received", "the tree is changed without a match having been received")
		return
	case s.auto["done"] != "":
		x.report(s, in, "recorded-twice", "the tree is changed a second time for the same match")
		return
	case s.auto["cov"] != "n":
		x.report(s, in, "recorded-twice", "the tree is changed although the block may be covered by a span already")
		s.auto["done"] = "y"
		return
	}
	s.auto["done"] = "y"
	b, o := s.ghost["b"], s.ghost["o"]
	var P, N *Term
	for _, it := range list14(s, "it") {
		if it.name == "none" {
			continue
		}
		if P == nil && s.provesEq(it.args[2], mkSub(b, mkInt(1))) {
			P = it
		}
		if N == nil && s.provesEq(it.args[1], mkAdd(b, mkInt(1))) {
			N = it
		}
	}
	shaped := false
	for i := 0; i < 4; i++ {
		mp, mn := i&1 != 0, i&2 != 0
		if mp && P == nil || mn && N == nil {
			continue
		}
		S, E, O := b, b, o
		just := true
		if mp {
			S, O = P.args[1], P.args[3]
			end := mkAdd(P.args[3], mkMul(m.bs, mkAdd(mkSub(P.args[2], P.args[1]), mkInt(1))))
			just = just && s.provesEq(end, o)
		}
		if mn {
			E = N.args[2]
			just = just && s.provesEq(mkAdd(o, m.bs), N.args[3])
		}
		if !m.represents(s, S, E, O) {
			continue
		}
		shaped = true
		if just {
			return
		}
	}
	if shaped {
		x.report(s, in, "not-contiguous", "spans are merged that are not known to continue each other in the local file")
	} else {
		x.report(s, in, "wrong-spans", "what is in the tree afterwards is not the spans that were there and the new block")
	}
}

// represents: the tree holds the span S..E at O and the other spans
func (m *merge14) represents(s *State, S, E, O *Term) bool {
	keys := []*Term{S, E, s.ghost["b"]}
	for _, op := range list14(s, "op") {
		keys = append(keys, op.args[0])
	}
	for _, it := range list14(s, "it") {
		keys = append(keys, it.args[0])
		if it.name != "none" {
			keys = append(keys, it.args[1], it.args[2])
		}
	}
	for _, k := range keys {
		for _, a := range m.now(s, k) {
			if !m.asExpected(a, k, S, E, O) {
				m.x.debugf("C14: at %v: %s %v %v %v; expected span %v %v %v", k, a.kind, a.S, a.E, a.O, S, E, O)
				return false
			}
		}
	}
	return true
}

func (m *merge14) asExpected(a at14, k, S, E, O *Term) bool {
	same := func(s *State, kind string, S, E, O *Term) bool {
		return a.kind == kind && s.provesEq(a.S, S) && s.provesEq(a.E, E) && s.provesEq(a.O, O)
	}
	lt, eq, gt := three(a.s, k, S)
	if eq != nil && !same(eq, "start", S, E, O) {
		return false
	}
	todo := states(lt)
	if gt != nil {
		lt, eq, gt = three(gt, k, E)
		if eq != nil && !same(eq, "end", S, E, O) || lt != nil && a.kind != "none" {
			return false
		}
		todo = append(todo, states(gt)...)
	}
	for _, s := range todo {
		// outside the new span: as before
		for _, p := range m.base(s, k) {
			switch {
			case p.kind != a.kind:
				return false
			case p.kind == "start" || p.kind == "end":
				if !same(p.s, p.kind, p.S, p.E, p.O) {
					return false
				}
			}
		}
	}
	return true
}

func (m *merge14) lock(s *State, c *Call, on bool) {
	x := m.x
	mu := c.args[0]
	if rootOf(mu) != m.obj {
		x.report(s, c.instr, "other-lock", "the lock used is not one of the merger, so other streams use another one")
	}
	if m.mutex == nil {
		m.mutex = mu
	} else if m.mutex != mu {
		x.report(s, c.instr, "other-lock", "different locks are used for the same tree")
	}
	if on {
		x.count("critical section", c.instr)
		if s.auto["locked"] != "" {
			x.report(s, c.instr, "locked-twice", "the lock is taken while it is held")
		}
		s.auto["locked"] = "y"
	} else {
		if s.auto["locked"] == "" {
			x.report(s, c.instr, "not-locked", "the lock is released without being held")
		}
		m.finish(s, c.instr)
		delete(s.auto, "locked")
	}
	clear14(s)
}

func (m *merge14) stream(fn *ssa.Function) {
	x := m.x
	if !m.types() {
		return
	}
	args := x.params(fn)
	m.obj, m.bs = args[0], args[2]
	src := args[1]
	st := newState(x)
	x.nonNil(st, m.obj)
	treeAddr := fieldAddr(m.obj, m.mergerT, "startEndBlockMap")
	x.assumptions["the block size is at least one byte"] = true
	st.addGe(m.bs, mkInt(1))
	x.h.Model = func(s *State, c *Call) ([]Res, bool) {
		switch {
		case c.name == "github.com/petar/GoLLRB/llrb.New":
			v := s.freshAlloc(x.name(c.ctx, c.instr, "tree"), c.results.At(0).Type())
			return []Res{{st: s, vals: []*Term{v}}}, true
		case strings.HasPrefix(c.name, llrbT):
			return m.treeOp(s, c, strings.TrimPrefix(c.name, llrbT))
		case c.name == "(*sync.Mutex).Lock", c.name == "(*sync.RWMutex).Lock":
			m.lock(s, c, true)
			return []Res{{st: s}}, true
		case c.name == "(*sync.Mutex).Unlock", c.name == "(*sync.RWMutex).Unlock":
			m.lock(s, c, false)
			return []Res{{st: s}}, true
		case strings.HasPrefix(c.name, "(*sync.RWMutex).R"):
			x.report(s, c.instr, "shared-lock", "the lock is not exclusive")
			return []Res{{st: s}}, true
		case strings.HasPrefix(c.name, "(*sync.WaitGroup)."):
			return []Res{{st: s}}, true
		}
		return nil, false
	}
	x.h.Store = func(s *State, in ssa.Instruction, ctx *Ctx, addr, val *Term) bool {
		if rootOf(addr) != m.obj {
			return true
		}
		if s.auto["go"] != "" && s.auto["locked"] == "" {
			x.report(s, in, "unlocked", "a field of the merger is written without holding its lock")
		}
		if addr == treeAddr {
			if s.auto["go"] != "" || s.auto["started"] != "" {
				x.report(s, in, "tree-replaced", "the tree is replaced while streams are being merged")
			} else if s.nilClass(s.load(addr, fieldType(m.mergerT, structFieldIdx(m.mergerT, "startEndBlockMap")))) != 1 {
				x.report(s, in, "tree-replaced", "a tree that may hold the matches of other streams is replaced")
			}
		}
		return true
	}
	var gs []goStart
	x.collectGo(&gs)
	collect := x.h.Go
	x.h.Go = func(s *State, c *Call) bool {
		if s.nilClass(s.load(treeAddr, fieldType(m.mergerT, structFieldIdx(m.mergerT, "startEndBlockMap")))) == 1 {
			x.report(s, c.instr, "no-tree", "the stream is started without a tree")
		}
		s.auto["started"] = "y"
		return collect(s, c)
	}
	outs := x.enter(fn, st, args)
	for _, o := range outs {
		if o.st.auto["locked"] != "" {
			x.report(o.st, o.at, "still-locked", "the function ends with the lock held")
		}
	}
	if len(gs) == 0 {
		x.report(nil, nil, "anchor", "no goroutine that merges a stream was found")
		return
	}
	x.h.Go = nil
	ft := func(f string) types.Type { return fieldType(m.resT, structFieldIdx(m.resT, f)) }
	next := func(s *State, in ssa.Instruction) {
		if s.auto["locked"] != "" {
			m.finish(s, in)
			clear14(s)
		}
		if s.auto["res"] == "match" && s.auto["done"] == "" {
			x.report(s, in, "match-dropped", "a match whose block is not known to be covered already is not recorded")
		}
		delete(s.auto, "res")
		delete(s.auto, "done")
		delete(s.ghost, "b")
		delete(s.ghost, "o")
	}
	x.h.Recv = func(st *State, in ssa.Instruction, ctx *Ctx, ch *Term, elem types.Type) []RecvRes {
		if ch != src {
			return nil
		}
		next(st, in)
		mk := func(s *State, e *Term) *Term {
			vals := make([]*Term, structOf(m.resT).NumFields())
			for i := range vals {
				vals[i] = s.fresh(x.name(ctx, in, "result."+structOf(m.resT).Field(i).Name()), fieldType(m.resT, i))
			}
			vals[structFieldIdx(m.resT, "Err")] = e
			return mkStruct(m.resT, vals)
		}
		s := st.clone()
		v := mk(s, nilT)
		s.ghost["b"], s.ghost["o"] = fieldVal(v, m.resT, "BlockIdx"), fieldVal(v, m.resT, "ComparisonOffset")
		s.addGe(s.ghost["b"], mkInt(0))
		s.auto["res"] = "match"
		e := st.clone()
		ev := e.fresh(x.name(ctx, in, "error"), ft("Err"))
		x.nonNil(e, ev)
		w := mk(e, ev)
		e.ghost["b"], e.ghost["o"] = fieldVal(w, m.resT, "BlockIdx"), fieldVal(w, m.resT, "ComparisonOffset")
		e.auto["res"] = "error"
		return []RecvRes{{st: s, val: v, ok: trueT}, {st: e, val: w, ok: trueT}, {st: st.clone(), val: zeroOf(m.resT), ok: falseT}}
	}
	for _, g := range gs {
		g.st.auto["go"] = "y"
		for _, o := range x.runGo(g) {
			if o.kind != oRet {
				continue
			}
			next(o.st, o.at)
			if o.st.auto["locked"] != "" {
				x.report(o.st, o.at, "still-locked", "the goroutine ends with the lock held")
			}
		}
	}
}

// ---------- the spans returned ----------

func (m *merge14) collect(fn *ssa.Function) {
	x := m.x
	if !m.types() {
		return
	}
	spanT := x.p.namedType("comparer", "BlockSpan")
	args := x.params(fn)
	m.obj = args[0]
	st := newState(x)
	x.nonNil(st, m.obj)
	var all *Term
	x.h.Model = func(s *State, c *Call) ([]Res, bool) {
		switch {
		case c.name == "(*sync.WaitGroup).Wait":
			if rootOf(c.args[0]) == m.obj {
				s.auto["waited"] = "y"
			}
			return []Res{{st: s}}, true
		case strings.HasPrefix(c.name, "(*sync.Mutex)."), strings.HasPrefix(c.name, "(*sync.RWMutex)."):
			return []Res{{st: s}}, true
		case strings.HasPrefix(c.name, llrbT):
			if s.auto["waited"] == "" {
				x.report(s, c.instr, "not-waited", "the tree is looked at without having waited for the streams to end")
			}
			switch op := strings.TrimPrefix(c.name, llrbT); op {
			case "Min":
				return []Res{{st: s, vals: []*Term{mkCall("llrb.min", c.results.At(0).Type(), c.args[0])}}}, true
			case "Len":
				v := s.fresh(x.name(c.ctx, c.instr, "number of items"), intT)
				s.addGe(v, mkInt(0))
				return []Res{{st: s, vals: []*Term{v}}}, true
			case "AscendGreaterOrEqual":
				_, _, _, _, key := m.parse(c.args[1])
				if !(c.args[1].kind == KCall && c.args[1].name == "llrb.min" && c.args[1].args[0] == c.args[0]) && !(key != nil && s.provesEq(key, mkInt(0))) {
					x.report(s, c.instr, "spans-missed", "the walk over the tree does not begin at its first item")
				}
				all = s.fresh(x.name(c.ctx, c.instr, "all spans"), types.NewSlice(spanT))
				return m.everyItem(s, c, all, spanT), true
			default:
				x.undecided(c.instr, "operation %s on the tree is not covered", op)
			}
		case c.name == "sort.Sort" || c.name == "sort.Stable" || strings.HasPrefix(c.name, "sort.Slice"):
			v := stripIface(c.args[0])
			if v == all || v == nilT || s.provesEq(lenOfArg(v), mkInt(0)) {
				if !m.sortedRight(s, c, v, spanT) {
					x.report(s, c.instr, "wrong-order", "the spans are not sorted by their first block")
				}
				return []Res{{st: s}}, true
			}
		}
		return nil, false
	}
	for _, o := range x.enter(fn, st, args) {
		if o.kind != oRet {
			continue
		}
		x.count("spans returned", o.at)
		v := o.vals[0]
		if v != all && !(o.st.auto["empty"] != "" && (v == nilT || o.st.provesEq(lenOfArg(v), mkInt(0)))) {
			x.report(o.st, o.at, "spans-missed", "the list returned is not the list of all spans in the tree")
		}
	}
}

// everyItem: the iterator appends the span of each item that starts one to
// the same variable, and does nothing else
func (m *merge14) everyItem(s *State, c *Call, all *Term, spanT types.Type) []Res {
	x := m.x
	f := c.args[2]
	if f.kind != KClosure {
		x.undecided(c.instr, "the iterator is not known")
		return []Res{{st: s}}
	}
	// the variable the spans are collected in
	var cell *Term
	n := 0
	fv := f.obj.(*ssa.Function).FreeVars
	for i, a := range f.args {
		t := derefT(fv[i].Type())
		if sl, ok := t.Underlying().(*types.Slice); ok && typeKey(sl.Elem()) == typeKey(spanT) {
			cell = a
			n++
		}
	}
	if n != 1 {
		x.undecided(c.instr, "the variable in which the spans are collected is not known")
		return []Res{{st: s}}
	}
	lt := elemTypeOfAddr(cell)
	if lt == nil {
		lt = types.NewSlice(spanT)
	}
	if v := s.load(cell, lt); v != nilT && !s.provesEq(lenOfArg(v), mkInt(0)) {
		x.report(s, c.instr, "more-spans", "the list is not empty before the spans of the tree are added")
	}
	saved := x.h.Append
	defer func() { x.h.Append = saved }()
	for _, kind := range []string{"start", "end"} {
		b := s.clone()
		for i, a := range f.args {
			if _, ok := fv[i].Type().Underlying().(*types.Pointer); ok && a.kind != KConst {
				b.havoc(rootOf(a))
			}
		}
		cur := b.fresh(x.name(c.ctx, c.instr, "spans so far"), lt)
		b.store(cell, cur, lt)
		S := b.fresh(x.name(c.ctx, c.instr, "S"), uint14)
		E := b.fresh(x.name(c.ctx, c.instr, "E"), uint14)
		O := b.fresh(x.name(c.ctx, c.instr, "O"), int64T)
		if !b.addGe(S, mkInt(0)) || !b.addGe(E, mkAdd(S, mkInt(boolInt64(kind == "end")))) {
			continue
		}
		x.h.Append = func(t *State, in ssa.Instruction, ctx *Ctx, old *Term, elems []*Term, spread, res *Term, elem types.Type) bool {
			if typeKey(elem) != typeKey(spanT) {
				return true
			}
			ok := len(elems) == 1 && old == cur && t.ghost["res"] == nil
			if ok {
				v := elems[0]
				ok = t.provesEq(fieldVal(v, spanT, "StartBlock"), S) && t.provesEq(fieldVal(v, spanT, "EndBlock"), E) && t.provesEq(fieldVal(v, spanT, "ComparisonStartOffset"), O)
			}
			if !ok || kind != "start" {
				x.report(t, in, "wrong-span", "what is added to the list is not the span of an item that starts one, once")
			}
			t.ghost["res"] = res
			return true
		}
		outs := x.callTerm(b, c, f, m.item(kind, S, E, O))
		if len(outs) == 0 {
			x.undecided(c.instr, "the iterator is not known")
		}
		for _, o := range outs {
			if o.kind != oRet {
				x.report(o.st, o.at, "iterator-panics", "the iterator may panic")
				continue
			}
			if d := o.st.clone(); d.assume(o.vals[0], false) {
				x.report(d, o.at, "spans-missed", "the walk over the tree may end before its last item")
			}
			want := cur
			if kind == "start" {
				want = o.st.ghost["res"]
			}
			if got := o.st.load(cell, lt); want == nil || got != want {
				x.report(o.st, o.at, "spans-missed", "the span of an item that starts one is not added to the list")
			}
		}
	}
	s.havoc(rootOf(cell))
	s.store(cell, all, lt)
	e := s.clone() // nothing in the tree
	e.store(cell, nilT, lt)
	e.auto["empty"] = "y"
	return []Res{{st: s}, {st: e}}
}

func (m *merge14) sortedRight(st *State, c *Call, list *Term, spanT types.Type) bool {
	x := m.x
	s := st.clone()
	saved := x.h
	x.h = Hooks{}
	defer func() { x.h = saved }()
	i, j := mkSym("less.i", intT), mkSym("less.j", intT)
	list = s.fresh(x.name(c.ctx, c.instr, "some spans"), types.NewSlice(spanT))
	for _, t := range []*Term{i, j} {
		s.addGe(t, mkInt(0))
		s.addGe(mkSub(lenOfArg(list), mkInt(1)), t)
	}
	at := func(c *State, i *Term) *Term {
		b, lo, _ := sliceParts(list)
		return c.load(fieldAddr(mkIndex(b, mkAdd(lo, i), spanT), spanT, "StartBlock"), uint14)
	}
	var outs []Outcome
	if strings.HasPrefix(c.name, "sort.Slice") {
		f := c.args[1]
		if f.kind == KClosure {
			// the captured variable holds the list
			for k, a := range f.args {
				if sl, ok := derefT(f.obj.(*ssa.Function).FreeVars[k].Type()).Underlying().(*types.Slice); ok && typeKey(sl.Elem()) == typeKey(spanT) {
					s.store(a, list, types.NewSlice(spanT))
				}
			}
		}
		outs = x.callTerm(s, c, f, i, j)
	} else {
		T := c.args[0]
		if T.kind != KIface {
			return false
		}
		sel := x.p.prog.MethodSets.MethodSet(T.typ).Lookup(nil, "Less")
		if sel == nil {
			return false
		}
		less := x.p.prog.MethodValue(sel)
		if !sorterMoves(x, s, c, T.typ, list, spanT) {
			return false
		}
		outs = x.doCall(s, &Call{instr: c.instr, ctx: c.ctx, fn: less, name: less.String(), args: []*Term{list, i, j}, sig: less.Signature, results: less.Signature.Results(), common: c.common, isDef: true})
	}
	return decides(outs,
		func(c *State) bool { return c.provesGe(at(c, j), at(c, i)) },
		func(c *State) bool { return c.provesGe(at(c, i), at(c, j)) })
}

// ---------- the order of the items ----------

func (m *merge14) order() {
	x := m.x
	if !m.types() {
		return
	}
	kinds := []types.Type{m.startT, m.endT, m.keyT}
	for i, T := range kinds {
		less := x.p.prog.LookupMethod(T, nil, "Less")
		if less == nil || less.Blocks == nil {
			x.report(nil, nil, "anchor", "the ordering method of %s was not found", typeKey(T))
			continue
		}
		x.count("ordering method", less.Blocks[0].Instrs[0])
		x.cnt["ordering method"]++
		for j, U := range kinds {
			s := newState(x)
			val := func(T types.Type, k int, nm string) (v, pos *Term) {
				if k == 2 {
					v = mkSym(nm, T)
					s.addGe(v, mkInt(0))
					return v, v
				}
				S, E, O := mkSym(nm+".S", uint14), mkSym(nm+".E", uint14), mkSym(nm+".O", int64T)
				s.addGe(S, mkInt(0))
				s.addGe(E, S)
				it := m.item([]string{"start", "end"}[k], S, E, O)
				return it.args[0], []*Term{S, E}[k]
			}
			a, pa := val(T, i, "a")
			b, pb := val(U, j, "b")
			if !decides(x.enter(less, s, []*Term{a, mkIface(b, U)}),
				func(c *State) bool { return c.provesGe(pb, mkAdd(pa, mkInt(1))) },
				func(c *State) bool { return c.provesGe(pa, pb) }) {
				x.report(nil, less.Blocks[0].Instrs[0], "wrong-order", "%s is not ordered by position relative to %s", typeKey(T), typeKey(U))
			}
		}
	}
}

// ---------- the callers ----------

func c14callers(x *Exec, fn *ssa.Function, pkg string) {
	genT := x.p.namedType("filechecksum", "FileChecksumGenerator")
	x.h.Go = func(st *State, c *Call) bool { return true }
	x.h.Inline = func(c *Call) bool {
		return c.fn != nil && (ownPkg(c.fn, pkg) || strings.HasSuffix(c.name, "filechecksum.NewFileChecksumGenerator"))
	}
	x.h.Model = func(s *State, c *Call) ([]Res, bool) { return searchModel(x, s, c) }
	x.h.PreCall = func(s *State, c *Call) bool {
		switch {
		case strings.HasSuffix(c.name, ".StartFindMatchingBlocks"):
			s.ghost["bs"] = s.load(fieldAddr(c.args[3], genT, "BlockSize"), uint14)
		case strings.HasSuffix(c.name, ".StartMergeResultStream"):
			x.count("stream merged", c.instr)
			x.cnt["stream merged"]++
			if bs := s.ghost["bs"]; bs == nil || !s.provesEq(bs, c.args[2]) {
				x.report(s, c.instr, "wrong-block-size", "matches are merged with a block size that is not the one they were found with")
			}
			if mg := s.ghost["merger"]; mg != nil && mg != rootOf(c.args[0]) {
				x.report(s, c.instr, "other-merger", "the streams are not all merged by the same merger")
			}
			s.ghost["merger"] = rootOf(c.args[0])
			s.auto["merged"] = "y"
		case strings.HasSuffix(c.name, ".GetMergedBlocks"):
			if s.auto["merged"] != "" && s.ghost["merger"] != rootOf(c.args[0]) {
				x.report(s, c.instr, "other-merger", "the spans are taken from a merger the streams did not go to")
			}
		}
		return true
	}
	x.enter(fn, newState(x), x.params(fn))
}
