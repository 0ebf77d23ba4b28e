package main

// C16: missing spans and the conversion of span lists.

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rule("C16", func(p *Prog, r *Report) {
		r.describe("Enumeration: analysed for every sorted list of disjoint spans, with the next block not yet covered as a ghost value. A gap appended must start there, not be empty, and end right before the next matched span or, after the last one, at the last block; no span may be passed while blocks before it are uncovered, and the list returned must leave nothing uncovered. Conversion: in every function from matched spans to patcher spans each element made must carry start, end, offset and block size of the element at the same place; all elements are made. Use: the patch operation must enumerate the gaps of the merged matches up to the last block, and give the patcher the converted matches and the converted gaps.")
		if fn := r.anchor("comparer", "BlockSpanList", "GetMissingBlocks"); fn != nil {
			c16gaps(r, fn)
			r.need("gap made", 1)
			r.need("enumeration returned", 1)
		}
		convs := map[*ssa.Function]string{}
		for _, t := range []string{"FoundBlockSpan", "MissingBlockSpan"} {
			conv := c16converters(p, t)
			for _, fn := range conv {
				convs[fn] = t
			}
			for _, fn := range conv {
				c16convert(r, fn, t)
			}
			if len(conv) == 0 {
				r.fail("coverage", t, "", "no function that turns matched spans into patcher.%s was found", t)
			}
		}
		r.need("conversion returned", 1)
		if fn := r.anchor("", "RSync", "Patch"); fn != nil {
			r.analyse(shortFn(fn), func(x *Exec) { c16patch(x, fn, convs) })
			r.need("spans given to the patcher", 1)
		}
	})
}

// c16converters: functions from spans of the comparer to spans of the patcher.
func c16converters(p *Prog, name string) (out []*ssa.Function) {
	spanT, resT := p.namedType("comparer", "BlockSpan"), p.namedType("patcher", name)
	for _, fn := range p.all {
		sig := fn.Signature
		if fn.Blocks == nil || sig.Recv() != nil || sig.Params().Len() < 2 || sig.Results().Len() != 1 {
			continue
		}
		in, ok1 := sig.Params().At(0).Type().Underlying().(*types.Slice)
		res, ok2 := sig.Results().At(0).Type().Underlying().(*types.Slice)
		if !ok1 || !ok2 || typeKey(in.Elem()) != typeKey(spanT) || typeKey(res.Elem()) != typeKey(resT) {
			continue
		}
		if !isIntType(sig.Params().At(1).Type()) {
			continue
		}
		out = append(out, fn)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return
}

func c16gaps(r *Report, fn *ssa.Function) {
	r.analyse(shortFn(fn), func(x *Exec) {
		args := x.params(fn)
		l, max := args[0], args[1]
		spanT := x.p.namedType("comparer", "BlockSpan")
		st := newState(x)
		x.assumptions["the matched spans are sorted, disjoint and within block 0 to the last block, and there is at least one block"] = true
		st.addGe(max, mkInt(0))
		st.ghost["due"], st.ghost["m"], st.ghost["n"] = mkInt(0), mkInt(0), mkInt(0)
		settle := func(s *State, in ssa.Instruction, quiet bool) bool {
			if s.auto["open"] == "" {
				return true
			}
			if !s.provesEq(s.ghost["due"], s.ghost["S"]) {
				if quiet {
					return false
				}
				x.report(s, in, "gap-missed", "a matched span is passed although blocks before it may not be covered by a missing span")
			}
			s.ghost["due"] = mkAdd(s.ghost["E"], mkInt(1))
			s.ghost["m"] = mkAdd(s.ghost["m"], mkInt(1))
			delete(s.ghost, "S")
			delete(s.ghost, "E")
			delete(s.auto, "open")
			return true
		}
		x.h.IndexRd = func(s *State, in ssa.Instruction, ctx *Ctx, base, idx *Term, elem types.Type) bool {
			if base != l {
				return true
			}
			m := s.ghost["m"]
			if s.auto["open"] != "" && s.provesGe(idx, mkAdd(m, mkInt(1))) {
				settle(s, in, false)
				m = s.ghost["m"]
			}
			switch {
			case s.provesGe(m, mkAdd(idx, mkInt(1))):
				return true
			case !s.provesEq(idx, m):
				x.report(s, in, "span-skipped", "a matched span is looked at before the ones preceding it")
				return true
			case s.auto["open"] != "":
				return true
			}
			ld := func(f string) *Term {
				a := fieldAddr(mkIndex(l, idx, spanT), spanT, f)
				return s.load(a, fieldType(spanT, structFieldIdx(spanT, f)))
			}
			S, E := ld("StartBlock"), ld("EndBlock")
			s.auto["open"] = "y"
			s.ghost["S"], s.ghost["E"] = S, E
			return s.addGe(S, s.ghost["due"]) && s.addGe(E, S) && s.addGe(max, E)
		}
		x.h.BackEdge = func(s *State, h *ssa.BasicBlock) bool { settle(s, nil, true); return true }
		x.h.Append = func(s *State, in ssa.Instruction, ctx *Ctx, old *Term, elems []*Term, spread, res *Term, elem types.Type) bool {
			if typeKey(elem) != typeKey(spanT) {
				return true
			}
			if len(elems) == 0 || !s.provesEq(lenOfArg(old), s.ghost["n"]) {
				x.report(s, in, "list-unclear", "missing spans are appended to a list that is not the one built so far")
				return true
			}
			for _, q := range elems {
				x.count("gap made", in)
				S, E := fieldVal(q, spanT, "StartBlock"), fieldVal(q, spanT, "EndBlock")
				if !s.provesEq(S, s.ghost["due"]) {
					x.report(s, in, "wrong-start", "a missing span does not start at the first block not yet covered")
				}
				if !s.provesGe(E, S) {
					x.report(s, in, "empty-gap", "a missing span may end before it starts")
				}
				if s.auto["open"] != "" {
					if !s.provesEq(mkAdd(E, mkInt(1)), s.ghost["S"]) {
						x.report(s, in, "wrong-end", "a missing span does not end right before the next matched span")
					}
				} else {
					if !s.provesEq(s.ghost["m"], mkLen(l)) {
						x.report(s, in, "span-ignored", "the last missing span is made before all matched spans were looked at")
					}
					if !s.provesEq(E, max) {
						x.report(s, in, "wrong-end", "the last missing span does not end at the last block")
					}
				}
				s.ghost["due"] = mkAdd(E, mkInt(1))
			}
			s.ghost["n"] = mkAdd(s.ghost["n"], mkInt(int64(len(elems))))
			return true
		}
		for _, o := range x.enter(fn, st, args) {
			s := o.st
			if o.kind != oRet {
				x.report(s, o.at, "no-list", "no list is returned on some path")
				continue
			}
			x.count("enumeration returned", o.at)
			settle(s, o.at, false)
			_, lo, _ := sliceParts(o.vals[0])
			if o.vals[0] != nilT && !s.provesEq(lo, mkInt(0)) || !s.provesEq(lenOfArg(o.vals[0]), s.ghost["n"]) {
				x.report(s, o.at, "not-all", "the list returned is not known to hold every missing span made")
			}
			if !s.provesEq(s.ghost["m"], mkLen(l)) {
				x.report(s, o.at, "span-ignored", "the list is returned before all matched spans were looked at")
			}
			if !s.provesEq(s.ghost["due"], mkAdd(max, mkInt(1))) {
				x.report(s, o.at, "uncovered-tail", "the list is returned although the last blocks may be uncovered")
			}
		}
	})
}

func c16convert(r *Report, fn *ssa.Function, name string) {
	r.analyse(shortFn(fn), func(x *Exec) {
		args := x.params(fn)
		l, bs := args[0], args[1]
		spanT, resT := x.p.namedType("comparer", "BlockSpan"), x.p.namedType("patcher", name)
		from := map[string]string{"StartBlock": "StartBlock", "EndBlock": "EndBlock"}
		if name == "FoundBlockSpan" {
			from["MatchOffset"] = "ComparisonStartOffset"
		}
		st := newState(x)
		st.ghost["k"] = mkInt(0)
		want := func(s *State, f string, k *Term) *Term {
			if f == "BlockSize" {
				return bs
			}
			if from[f] == "" {
				return nil
			}
			return s.load(fieldAddr(mkIndex(l, k, spanT), spanT, from[f]), fieldType(spanT, structFieldIdx(spanT, from[f])))
		}
		need := []string{"BlockSize"}
		for f := range from {
			need = append(need, f)
		}
		sort.Strings(need)
		settle := func(s *State, in ssa.Instruction, quiet bool) {
			some, all := false, true
			for _, f := range need {
				if s.auto["f."+f] == "" {
					all = false
				} else {
					some = true
				}
			}
			if !some || quiet && !all {
				return
			}
			if !all {
				x.report(s, in, "field-dropped", "an element is left without one of %v", need)
			}
			for _, f := range need {
				delete(s.auto, "f."+f)
			}
			s.ghost["k"] = mkAdd(s.ghost["k"], mkInt(1))
		}
		set := func(s *State, in ssa.Instruction, f string, v *Term) {
			w := want(s, f, s.ghost["k"])
			if w == nil {
				return
			}
			x.count("field set", in)
			if !sameTerm(s, v, w) {
				x.report(s, in, "wrong-field", "%s of a converted span is not that of the span at the same place of the list (%v)", f, v)
			}
			s.auto["f."+f] = "y"
		}
		setAll := func(s *State, in ssa.Instruction, v *Term) {
			sT := structOf(resT)
			for i := 0; i < sT.NumFields(); i++ {
				set(s, in, sT.Field(i).Name(), fieldVal(v, resT, sT.Field(i).Name()))
			}
			settle(s, in, false)
		}
		x.h.Store = func(s *State, in ssa.Instruction, ctx *Ctx, addr, val *Term) bool {
			el := addr
			if addr.kind == KField {
				el = addr.args[0]
			}
			if el.kind != KIndex || typeKey(el.typ) != typeKey(resT) {
				return true
			}
			if b := el.args[0]; b.kind == KAlloc {
				if a, ok := derefT(b.typ).(*types.Array); ok && a != nil {
					return true // the argument of an append
				}
			}
			if !s.provesEq(el.args[1], s.ghost["k"]) {
				settle(s, in, false)
			}
			if !s.provesEq(el.args[1], s.ghost["k"]) {
				x.report(s, in, "wrong-place", "an element is not stored at the place after the previous one")
			}
			s.ghost["obj"] = el.args[0]
			if addr.kind == KField {
				set(s, in, fieldName(addr), val)
				return true
			}
			setAll(s, in, val)
			return true
		}
		x.h.Append = func(s *State, in ssa.Instruction, ctx *Ctx, old *Term, elems []*Term, spread, res *Term, elem types.Type) bool {
			if typeKey(elem) != typeKey(resT) {
				return true
			}
			if len(elems) == 0 || !s.provesEq(lenOfArg(old), s.ghost["k"]) {
				x.report(s, in, "list-unclear", "spans are appended to a list that is not the one built so far")
				return true
			}
			for _, q := range elems {
				setAll(s, in, q)
			}
			delete(s.ghost, "obj")
			return true
		}
		x.h.BackEdge = func(s *State, h *ssa.BasicBlock) bool { settle(s, nil, true); return true }
		for _, o := range x.enter(fn, st, args) {
			s := o.st
			if o.kind != oRet {
				x.report(s, o.at, "no-list", "no list is returned on some path")
				continue
			}
			x.count("conversion returned", o.at)
			settle(s, o.at, false)
			b, lo, _ := sliceParts(o.vals[0])
			if obj := s.ghost["obj"]; o.vals[0] != nilT && (!s.provesEq(lo, mkInt(0)) || obj != nil && obj != b) {
				x.report(s, o.at, "not-all", "the list returned is not the one that was filled")
			}
			if !s.provesEq(s.ghost["k"], mkLen(l)) || !s.provesEq(lenOfArg(o.vals[0]), mkLen(l)) {
				x.report(s, o.at, "not-all", "the list returned is not known to hold one span for every span given")
			}
		}
	})
}

// c16patch: what the patch operation does with the spans.
func c16patch(x *Exec, fn *ssa.Function, convs map[*ssa.Function]string) {
	x.h.Go = func(st *State, c *Call) bool { return true }
	x.h.Inline = func(c *Call) bool { return c.fn != nil && ownPkg(c.fn, "") && convs[c.fn] == "" }
	x.h.Model = func(s *State, c *Call) ([]Res, bool) {
		if t := convs[c.fn]; c.fn != nil && t != "" {
			v := mkCall("converted."+t, c.results.At(0).Type(), c.args[0], c.args[1])
			return []Res{{st: s, vals: []*Term{v}}}, true
		}
		return searchModel(x, s, c)
	}
	x.h.PostCall = func(c *Call, r *Res) bool {
		if len(r.vals) == 1 && (c.method == "GetBlockSize" || c.method == "GetBlockCount") {
			r.st.ghost[c.method] = r.vals[0]
		}
		return true
	}
	x.h.PreCall = func(s *State, c *Call) bool {
		if !strings.HasSuffix(c.name, ".SequentialPatcher") {
			return true
		}
		x.count("spans given to the patcher", c.instr)
		for i, a := range c.args {
			sl, ok := c.sig.Params().At(i).Type().Underlying().(*types.Slice)
			if !ok {
				continue
			}
			name := typeKey(sl.Elem())
			name = name[strings.LastIndex(name, ".")+1:]
			if name != "FoundBlockSpan" && name != "MissingBlockSpan" {
				continue
			}
			if a.kind != KCall || a.name != "converted."+name {
				x.report(s, c.instr, "not-converted", "the %s list given to the patcher is not known to be the result of the conversion", name)
				continue
			}
			if bs := s.ghost["GetBlockSize"]; bs == nil || !s.provesEq(a.args[1], bs) {
				x.report(s, c.instr, "wrong-block-size", "the %s list is converted with something other than the block size of the summary", name)
			}
			l, m := a.args[0], s.ghost["merged"]
			if name == "FoundBlockSpan" {
				if m == nil || l != m {
					x.report(s, c.instr, "wrong-list", "the matches given to the patcher are not all the merged matches")
				}
				continue
			}
			if l.kind != KCall || l.name != "missing" || m == nil || l.args[0] != m {
				x.report(s, c.instr, "wrong-list", "the spans to download are not the gaps of the merged matches")
				continue
			}
			if n := s.ghost["GetBlockCount"]; n == nil || !s.provesEq(l.args[1], mkSub(n, mkInt(1))) {
				x.report(s, c.instr, "wrong-last-block", "the gaps are not enumerated up to the last block")
			} else if !s.provesGe(n, mkInt(1)) {
				x.report(s, c.instr, "no-last-block", "the gaps are enumerated up to a last block although the index may have no blocks: everything up to the largest number would be missing")
			}
		}
		return true
	}
	x.enter(fn, newState(x), x.params(fn))
}
