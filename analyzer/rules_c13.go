package main

// C13: the circular buffer.
//
// The methods are run by a most general client: from every abstract state
// reachable by some history of operations, every operation is applied, until
// nothing new is reached. What the storage holds is described by ghosts kept
// for each array ("at" next position written, "idx" number of the next byte of
// the history written there, "old" the oldest byte of the history it has).

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rule("C13", func(p *Prog, r *Report) {
		r.describe("With T bytes written in all and lo the first one retained, a most general client applies every exported operation of the buffer, for every block size of at least one and all arguments, to every abstract state reachable (fixpoint). Every copy into the storage must write the next bytes of the history, in order, at the position after the last one written (or at the start after the end was reached); every slice returned is translated back to a range of the history and must be [lo, T) for the block, [lo, lo+min(k, T-lo)) for a truncation by k, and what the last write pushed out for the evicted bytes. Every index and slice bound must be proved.")
		mk := r.anchor("circularbuffer", "", "MakeC2Buffer")
		if mk == nil {
			return
		}
		var ms []*ssa.Function
		T := p.namedType("circularbuffer", "C2")
		if T == nil {
			r.fail("anchor", "circularbuffer.C2", "", "the type circularbuffer.C2 that this rule is about does not exist")
			return
		}
		set := types.NewMethodSet(types.NewPointer(T))
		for i := 0; i < set.Len(); i++ {
			if f := p.prog.MethodValue(set.At(i)); f != nil && f.Blocks != nil && set.At(i).Obj().Exported() {
				ms = append(ms, f)
			}
		}
		for _, n := range []string{"Write", "Evicted", "GetBlock", "Truncate", "Reset"} {
			r.anchor("circularbuffer", "C2", n)
		}
		r.analyse("circularbuffer.C2", func(x *Exec) { (&c13{x: x, mk: mk, ops: ms}).run() })
		for _, n := range []string{"Write", "Evicted", "GetBlock", "Truncate", "Reset"} {
			r.need(n+" checked", 1)
		}
		r.need("bytes stored", 1)
	})
}

type c13 struct {
	x   *Exec
	mk  *ssa.Function
	ops []*ssa.Function
	B   *Term
	op  string
}

var histContent = mkConst("bytes of the history", nil)

// tracked lists the arrays that bytes of the history were copied to.
func c13bases(s *State) (keys []string) {
	for k := range s.ghost {
		if strings.HasPrefix(k, "base:") {
			keys = append(keys, strings.TrimPrefix(k, "base:"))
		}
	}
	sort.Strings(keys)
	return
}

func c13base(s *State, b *Term) (string, bool) {
	for _, k := range c13bases(s) {
		if s.ghost["base:"+k] == b {
			return k, true
		}
	}
	return "", false
}

// hist translates the bytes [lo, hi) of an array to a range of the history.
func (c *c13) hist(s *State, base, lo, hi *Term) (*Term, string) {
	if g := s.ghost["arg"]; g != nil && base == g {
		return mkAdd(s.ghost["T"], lo), ""
	}
	k, ok := c13base(s, base)
	if !ok {
		return nil, "storage no byte was written to"
	}
	at, idx := s.ghost["at:"+k], s.ghost["idx:"+k]
	var first *Term
	switch {
	case s.provesGe(at, hi):
		first = mkAdd(mkSub(idx, at), lo)
	case s.provesGe(lo, at):
		first = mkSub(mkAdd(mkSub(idx, at), lo), mkLen(base))
	default:
		return nil, "a range that may cross the position written last"
	}
	if !s.provesGe(first, s.ghost["old:"+k]) && !s.provesEq(lo, hi) {
		return nil, "storage that may not have been written yet"
	}
	return first, ""
}

func (c *c13) put(s *State, in ssa.Instruction, base, lo, first, n *Term) {
	x := c.x
	x.count("bytes stored", in)
	k, ok := c13base(s, base)
	if !ok {
		k = base.String()
		s.ghost["base:"+k] = base
		s.ghost["at:"+k], s.ghost["idx:"+k], s.ghost["old:"+k] = mkAdd(lo, n), mkAdd(first, n), first
		return
	}
	at, idx := s.ghost["at:"+k], s.ghost["idx:"+k]
	switch {
	case s.provesEq(lo, at):
	case s.provesEq(lo, mkInt(0)) && s.provesEq(at, mkLen(base)):
		if s.auto["wrapped:"+k] == "" {
			s.auto["wrapped:"+k] = "1"
		} else {
			s.auto["wrapped:"+k] = "2"
		}
	default:
		x.report(s, in, "wrong-position", "bytes are stored at a position that is not known to follow the one stored last")
	}
	if !s.provesEq(first, idx) {
		x.report(s, in, "wrong-bytes", "the bytes stored are not known to be the ones following those stored last")
	}
	end := mkAdd(idx, n)
	s.ghost["at:"+k], s.ghost["idx:"+k] = mkAdd(lo, n), end
	if !s.provesGe(mkAdd(mkLen(base), s.ghost["old:"+k]), end) {
		s.ghost["old:"+k] = mkSub(end, mkLen(base))
	}
}

func (c *c13) run() {
	x := c.x
	x.opaqueBytes, x.pairJoin = true, true
	x.assumptions["the block size is at least one byte"] = true
	x.assumptions["at most one block is written at a time, and truncations are by no negative count"] = true
	x.h.Bounds = func(s *State, in ssa.Instruction, ctx *Ctx, what string, cons []Con) bool {
		for _, k := range cons {
			if !entails(s.lin, k) {
				x.report(s, in, "bounds", "the %s bounds are not known to lie inside the storage", what)
				return true
			}
		}
		return true
	}
	x.h.Copy = func(s *State, in ssa.Instruction, ctx *Ctx, dst, src, n *Term) bool {
		if dst == nilT || src == nilT || s.provesEq(n, mkInt(0)) {
			return true
		}
		db, dlo, _ := sliceParts(dst)
		sb, slo, _ := sliceParts(src)
		first, why := c.hist(s, sb, slo, mkAdd(slo, n))
		if first == nil {
			if _, ok := c13base(s, db); ok || why != "" {
				x.report(s, in, "wrong-bytes", "the bytes copied come from %s", why)
			}
			return true
		}
		c.put(s, in, db, dlo, first, n)
		return true
	}
	x.h.Store = func(s *State, in ssa.Instruction, ctx *Ctx, addr, val *Term) bool {
		if addr.kind != KIndex || !isByteish(addr.typ) {
			return true
		}
		base, i := addr.args[0], addr.args[1]
		if val.kind == KCall && val.name == "byteAt" && val.args[0] == histContent {
			c.put(s, in, base, i, mkAdd(s.ghost["T"], val.args[1]), mkInt(1))
			return true
		}
		if val.kind == KCall && val.name == "byteAt" && val.args[0].kind == KCall && val.args[0].name == "bytes in" {
			if first, _ := c.hist(s, val.args[0].args[0], val.args[1], mkAdd(val.args[1], mkInt(1))); first != nil {
				c.put(s, in, base, i, first, mkInt(1))
				return true
			}
		}
		x.report(s, in, "wrong-bytes", "the byte stored is not known to be one of those written")
		return true
	}
	x.h.LoopKey = func(s *State) string {
		k := ""
		for _, b := range c13bases(s) {
			k += fmt.Sprint(s.provesEq(s.ghost["at:"+b], mkLen(s.ghost["base:"+b])), ",")
		}
		return k
	}
	st := newState(x)
	c.B = mkSym("block size", intT)
	x.created[c.B], x.pinned[c.B] = true, true
	st.addGe(c.B, mkInt(1))
	st.ghost["T"], st.ghost["lo"] = mkInt(0), mkInt(0)
	acc := map[string]*accState{}
	var order, dirty []string
	known := func(s *State) {
		s.addGe(s.ghost["lo"], mkInt(0))
		s.addGe(s.ghost["T"], s.ghost["lo"])
		s.addGe(mkAdd(s.ghost["lo"], c.B), s.ghost["T"])
		for _, k := range c13bases(s) {
			s.addGe(s.ghost["at:"+k], mkInt(0))
			s.addGe(mkLen(s.ghost["base:"+k]), s.ghost["at:"+k])
		}
	}
	add := func(s *State) {
		known(s)
		c.settle(s)
		k := c.classify(s)
		s.auto = map[string]string{}
		a := acc[k]
		if a == nil {
			tag := "Q" + itoa(int64(len(order)))
			acc[k] = &accState{st: joinStates(x, s.clone(), s.clone(), tag, &joinOpts{})}
			order, dirty = append(order, k), append(dirty, k)
			return
		}
		j := joinStates(x, a.st.clone(), s.clone(), "Q"+itoa(int64(indexOf(order, k))), &joinOpts{widen: a.n > 6})
		known(j)
		if statesEqual(a.st, j) {
			return
		}
		if a.n++; a.n > 60 {
			x.undecided(nil, "the states of the circular buffer do not converge")
			return
		}
		a.st = j
		if indexOf(dirty, k) == len(dirty) {
			dirty = append(dirty, k)
		}
	}
	for _, o := range x.enter(c.mk, st, []*Term{c.B}) {
		if o.kind != oRet {
			x.report(o.st, o.at, "crash", "creating the buffer crashes")
			continue
		}
		o.st.ghost["obj"] = o.vals[0]
		add(o.st)
	}
	for len(dirty) > 0 {
		k := dirty[0]
		dirty = dirty[1:]
		if x.steps > x.maxStep || len(acc) > 60 {
			x.undecided(nil, "analysis budget exceeded")
			return
		}
		if len(x.viol) > 0 {
			return
		}
		x.debugf("C13 state %s: lin %v", k, acc[k].st.lin)
		for _, op := range c.ops {
			for _, s := range c.apply(acc[k].st.clone(), op) {
				add(s)
			}
		}
	}
	x.count("client states", nil)
	x.cnt["client states"] = len(acc)
}

// settle forgets everything that is not part of the object.
func (c *c13) settle(s *State) {
	for k := range s.ghost {
		switch {
		case k == "T" || k == "lo" || k == "obj":
		case strings.HasPrefix(k, "base:"), strings.HasPrefix(k, "at:"), strings.HasPrefix(k, "idx:"):
		case strings.HasPrefix(k, "old:"):
			if !s.provesGe(s.ghost["lo"], s.ghost[k]) {
				c.x.report(s, nil, "overwritten", "after %s a retained byte may have been overwritten in the storage %s", c.op, strings.TrimPrefix(k, "old:"))
			}
			s.ghost[k] = s.ghost["lo"]
		default:
			delete(s.ghost, k)
		}
	}
	s.defers = map[*Ctx][]deferred{}
	s.iter = map[string]int{}
	s.gc(func(reg) bool { return false })
}

func (c *c13) classify(s *State) string {
	bs := c13bases(s)
	k := fmt.Sprintf("full=%v ", s.provesEq(mkSub(s.ghost["T"], s.ghost["lo"]), c.B))
	for i, b := range bs {
		at := s.ghost["at:"+b]
		k += fmt.Sprintf("%d:end=%v ", i, s.provesEq(at, mkLen(s.ghost["base:"+b])))
		for _, o := range bs[i+1:] {
			k += fmt.Sprintf("%v/%v ", s.provesGe(at, s.ghost["at:"+o]), s.provesGe(s.ghost["at:"+o], at))
		}
	}
	return k
}

// is: the slice v holds the bytes [from, to) of the history.
func (c *c13) is(s *State, v, from, to *Term) (bool, string) {
	empty := s.provesEq(from, to)
	if v == nilT {
		return empty, "nothing is returned"
	}
	base, lo, hi := sliceParts(v)
	if !s.provesEq(mkSub(hi, lo), mkSub(to, from)) {
		if s.nilClass(v) == 1 {
			return empty, "nothing is returned"
		}
		return false, "their number is not known to be right"
	}
	if empty {
		return true, ""
	}
	first, why := c.hist(s, base, lo, hi)
	if first == nil {
		// the storage may be read only when the range is not empty
		t := s.clone()
		if !t.addGe(hi, mkAdd(lo, mkInt(1))) {
			return true, ""
		}
		if first, why = c.hist(t, base, lo, hi); first == nil {
			return false, "they are read from " + why
		}
	}
	if !s.provesEq(first, from) {
		t := s.clone()
		if !t.addGe(hi, mkAdd(lo, mkInt(1))) || t.provesEq(first, from) {
			return true, ""
		}
		return false, "they are not known to be the right ones"
	}
	return true, ""
}

func (c *c13) apply(st *State, op *ssa.Function) (res []*State) {
	x := c.x
	c.op = shortFn(op)
	args := []*Term{st.ghost["obj"]}
	for _, p := range op.Params[1:] {
		args = append(args, st.fresh("arg:"+p.Name(), p.Type()))
	}
	T, lo := st.ghost["T"], st.ghost["lo"]
	switch op.Name() {
	case "Write":
		if len(args) != 2 || !isSliceType(args[1].typ) {
			x.undecided(nil, "Write does not take a slice")
			return
		}
		st.ghost["arg"] = args[1]
		st.setContent(args[1], histContent)
		st.addGe(mkLen(args[1]), mkInt(0))
		st.addGe(c.B, mkLen(args[1]))
	case "Truncate":
		if len(args) != 2 {
			x.undecided(nil, "Truncate does not take a count")
			return
		}
		st.ghost["arg"] = args[1]
		st.addGe(args[1], mkInt(0))
	default:
		if len(args) > 1 {
			x.undecided(nil, "%s takes arguments this rule does not know", c.op)
			return
		}
	}
	bad := func(s *State, o Outcome, f string, a ...interface{}) { x.report(s, o.at, "wrong-result", f, a...) }
	outs := x.enter(op, st.clone(), args)
	if len(outs) == 0 {
		x.report(st, op.Blocks[0].Instrs[0], "no-return", "%s never returns in some state", c.op)
	}
	for _, o := range outs {
		s := o.st
		if o.kind != oRet {
			x.report(s, o.at, "crash", "%s crashes", c.op)
			continue
		}
		x.count(op.Name()+" checked", o.at)
		// the ghosts may have been renamed by the analysis
		T, lo = s.ghost["T"], s.ghost["lo"]
		arg := s.ghost["arg"]
		one := len(o.vals) == 1
		switch op.Name() {
		case "Write":
			nT := mkAdd(T, mkLen(arg))
			s.ghost["T"] = nT
			// which bytes are pushed out depends on the fill level
			a, b := s.clone(), s.clone()
			if a.addGe(mkAdd(lo, c.B), nT) {
				c.evicted(a.clone(), lo, lo)
				res = append(res, a)
			}
			if b.addGe(nT, mkAdd(lo, c.B)) {
				b.ghost["lo"] = mkSub(nT, c.B)
				c.evicted(b.clone(), lo, b.ghost["lo"])
				res = append(res, b)
			}
			c.op = shortFn(op)
			continue
		case "Truncate":
			if !one {
				x.undecided(o.at, "Truncate does not return one value")
				continue
			}
			a, b := s.clone(), s.clone()
			if held := mkSub(T, lo); a.addGe(held, arg) {
				if ok, why := c.is(a, o.vals[0], lo, mkAdd(lo, arg)); !ok {
					bad(a, o, "a truncation does not return the oldest bytes: %s", why)
				}
				a.ghost["lo"] = mkAdd(lo, arg)
				res = append(res, a)
			}
			if held := mkSub(T, lo); b.addGe(arg, mkAdd(held, mkInt(1))) {
				if ok, why := c.is(b, o.vals[0], lo, T); !ok {
					bad(b, o, "a truncation by more than there is does not return everything: %s", why)
				}
				b.ghost["lo"] = T
				res = append(res, b)
			}
			continue
		case "Reset":
			s.ghost["lo"] = T
			for _, k := range c13bases(s) {
				for _, g := range []string{"base:", "at:", "idx:", "old:"} {
					delete(s.ghost, g+k)
				}
			}
		case "GetBlock":
			if len(o.vals) != 1 {
				x.undecided(o.at, "GetBlock does not return one value")
			} else if ok, why := c.is(s, o.vals[0], lo, T); !ok {
				bad(s, o, "the block returned is not the bytes retained: %s", why)
			}
		case "Len":
			if len(o.vals) == 1 && !s.provesEq(o.vals[0], mkSub(T, lo)) {
				bad(s, o, "the length returned is not the number of bytes retained")
			}
		case "Empty":
			if len(o.vals) == 1 {
				for _, v := range []bool{true, false} {
					q := s.clone()
					if !q.assume(o.vals[0], v) {
						continue
					}
					if v && !q.provesEq(T, lo) || !v && !q.provesGe(T, mkAdd(lo, mkInt(1))) {
						bad(s, o, "the buffer says that it is empty (%v) although it may be otherwise", v)
					}
				}
			}
		}
		res = append(res, s)
	}
	return
}

// evicted: right after a write, the evicted bytes are [from, to).
func (c *c13) evicted(st *State, from, to *Term) {
	x := c.x
	st.ghost["from"], st.ghost["to"] = from, to
	for _, op := range c.ops {
		if op.Name() != "Evicted" {
			continue
		}
		for _, o := range x.enter(op, st.clone(), []*Term{st.ghost["obj"]}) {
			if o.kind != oRet || len(o.vals) != 1 {
				x.report(o.st, o.at, "crash", "asking for the evicted bytes crashes")
				continue
			}
			if ok, why := c.is(o.st, o.vals[0], o.st.ghost["from"], o.st.ghost["to"]); !ok {
				x.report(o.st, o.at, "wrong-result", "the evicted bytes are not those the last write pushed out: %s", why)
			}
		}
	}
}
