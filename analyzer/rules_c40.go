package main

// C40: patching fails only if something it depends on failed.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rule("C40", func(p *Prog, r *Report) {
		r.describe("The patch loop is analysed in the world in which nothing goes wrong: seeking, copying, writing and requesting succeed, every response starts with the block and covers the number of blocks asked for, the source reports no error, and the local and remote spans are a complete plan (at any time before the end the first span of one of the lists that was not used yet starts with the next block due). The numbers of spans used up, counted where their bytes are written, and the end of the plan are ghost values; the analysis is made for every combination of empty and longer lists. Where the loop gives up with an error, every way in which the next block could be at hand must contradict the path taken. The patch operation is analysed likewise for a summary whose block count is that of its file size, writers of the module included. The source goroutine may send an error only after a request failed or a block range was rejected, and ends only after that or a close.")
		fn := r.anchor("patcher/sequential", "", "SequentialPatcher")
		if fn == nil {
			return
		}
		for _, w := range []string{"local only", "remote only", "ends with local", "ends with remote"} {
			w := w
			r.analyse(shortFn(fn)+" "+w, func(x *Exec) { c40plan(x, fn, w) })
		}
		if patch := r.anchor("", "RSync", "Patch"); patch != nil {
			r.analyse(shortFn(patch), func(x *Exec) { c39(x, patch, true) })
			r.need("success returned", 1)
		}
		sourceLoop(p, r, "C40")
		r.need("error sent", 1)
		r.need("source ended", 1)
		r.need("response written", 1)
		r.need("local span copied", 1)
		r.need("success", 1)
	})
}

func c40plan(x *Exec, fn *ssa.Function, world string) {
	args := x.params(fn)
	source, output := args[1], args[5]
	respT := x.p.namedType("patcher", "BlockReponse")
	missT := x.p.namedType("patcher", "MissingBlockSpan")
	foundT := x.p.namedType("patcher", "FoundBlockSpan")
	if respT == nil || missT == nil || foundT == nil {
		return
	}
	uintT := types.Typ[types.Uint]
	st := newState(x)
	x.nonNil(st, args[0])
	x.nonNil(st, source)
	x.nonNil(st, output)
	x.assumptions["the spans are a complete plan, every operation succeeds, every response is the one asked for"] = true
	due, used := "due", map[string]string{"L": "used L", "R": "used R"}
	st.ghost[due] = mkInt(0)
	list := map[string]*Term{"R": args[2], "L": args[3]}
	elem := map[string]types.Type{"R": missT, "L": foundT}
	for _, k := range used {
		st.ghost[k] = mkInt(0)
	}
	span := func(s *State, k, f string, i *Term) *Term {
		return s.load(fieldAddr(mkIndex(list[k], i, elem[k]), elem[k], f), uintT)
	}
	end := st.fresh("last block", uintT)
	x.pinned[end] = true
	st.addGe(end, mkInt(0))
	lastOf := func(k string, d int64, eq bool) {
		n := mkLen(list[k])
		st.addGe(n, mkInt(1))
		e := span(st, k, "EndBlock", mkSub(n, mkInt(1)))
		x.pinned[e] = true
		st.addGe(e, mkInt(0))
		if eq {
			st.addEq(e, end)
		} else {
			st.addGe(end, mkAdd(e, mkInt(d)))
		}
	}
	switch world {
	case "local only":
		st.addEq(mkLen(list["R"]), mkInt(0))
		lastOf("L", 0, true)
	case "remote only":
		st.addEq(mkLen(list["L"]), mkInt(0))
		lastOf("R", 0, true)
	case "ends with local":
		lastOf("L", 0, true)
		lastOf("R", 1, false)
	case "ends with remote":
		lastOf("R", 0, true)
		lastOf("L", 1, false)
	}
	consume := func(s *State, k string, n *Term) {
		s.ghost[used[k]] = mkAdd(s.ghost[used[k]], mkInt(1))
		s.ghost[due] = mkAdd(s.ghost[due], n)
		delete(s.ghost, k+".S")
		delete(s.ghost, k+".E")
		delete(s.ghost, "due at "+k)
	}
	x.counts = []string{}
	x.pairJoin = true
	x.h.Load = func(s *State, in ssa.Instruction, ctx *Ctx, addr, val *Term) {
		a := addr
		for a != nil && a.kind == KField {
			a = a.args[0]
		}
		if a == nil || a.kind != KIndex {
			return
		}
		for k, l := range list {
			if a.args[0] != l || !s.provesEq(a.args[1], s.ghost[used[k]]) {
				continue
			}
			S := s.load(fieldAddr(a, elem[k], "StartBlock"), uintT)
			E := s.load(fieldAddr(a, elem[k], "EndBlock"), uintT)
			s.addGe(E, S)
			s.addGe(S, s.ghost[due])
			s.addGe(end, E)
			s.ghost[k+".S"], s.ghost[k+".E"] = S, E
		}
	}
	x.h.Model = func(s *State, c *Call) ([]Res, bool) {
		if r, ok := channelGetters(s, c); ok {
			return r, true
		}
		if c.method == "Write" && len(c.args) == 2 && stripIface(c.args[0]) == output {
			x.count("response written", c.instr)
			if s.ghost["blocks"] != nil {
				consume(s, "R", s.ghost["blocks"])
				delete(s.ghost, "blocks")
			}
			return []Res{{st: s, vals: []*Term{lenOfArg(c.args[1]), nilT}, label: "ok"}}, true
		}
		return nil, false
	}
	x.h.PreCall = func(s *State, c *Call) bool {
		if c.method == "RequestBlocks" && len(c.args) == 2 {
			sp := c.args[1]
			S, E, bs := fieldVal(sp, missT, "StartBlock"), fieldVal(sp, missT, "EndBlock"), fieldVal(sp, missT, "BlockSize")
			s.addGe(bs, mkInt(1))
			s.ghost["askS"], s.ghost["askE"], s.ghost["askBS"] = S, E, bs
			// the plan: a span that holds the block due starts with it
			if d := s.ghost[due]; s.provesGe(d, S) && s.provesGe(E, d) {
				s.addEq(d, S)
			}
		}
		return true
	}
	x.h.PostCall = func(c *Call, res *Res) bool {
		s := res.st
		if res.label == "fail" {
			return false
		}
		if (c.name == "io.Copy" || c.name == "io.CopyN" || c.name == "io.CopyBuffer") && stripIface(c.args[0]) == output {
			if !s.assume(mkEq(res.vals[1], nilT), true) {
				return false
			}
			x.count("local span copied", c.instr)
			S, E := s.ghost["L.S"], s.ghost["L.E"]
			if S != nil && E != nil {
				if d := s.ghost[due]; s.provesGe(d, S) && s.provesGe(E, d) {
					s.addEq(d, S)
				}
				consume(s, "L", mkAdd(mkSub(E, S), mkInt(1)))
			}
		}
		return true
	}
	x.h.Recv = func(s *State, in ssa.Instruction, ctx *Ctx, ch *Term, et types.Type) []RecvRes {
		if ch.kind != KCall {
			return nil
		}
		switch ch.name {
		case "EncounteredError":
			return []RecvRes{}
		case "GetResultChannel":
			if s.ghost["askS"] == nil {
				return nil
			}
			v := s.fresh(x.name(ctx, in, "response"), et)
			if !s.addEq(fieldVal(v, respT, "StartBlock"), s.ghost["askS"]) {
				return []RecvRes{}
			}
			ln, bs := mkLen(fieldVal(v, respT, "Data")), s.ghost["askBS"]
			want := mkAdd(mkSub(s.ghost["askE"], s.ghost["askS"]), mkInt(1))
			q := x.quo(s, ln, bs, uintT)
			rem := mkSub(ln, mkMul(bs, q))
			var out []RecvRes
			for _, exact := range []bool{true, false} {
				n := s.clone()
				if !n.assume(mkEq0(asPoly(rem)), exact) {
					continue
				}
				got := q
				if !exact {
					n.addGe(rem, mkInt(1))
					got = mkAdd(q, mkInt(1))
				}
				up := mkBin("/", uintT, mkSub(mkAdd(ln, bs), mkInt(1)), bs)
				n.addEq(up, got)
				if !n.addEq(got, want) || !n.consistent() {
					continue
				}
				n.ghost["blocks"] = want
				delete(n.ghost, "askS")
				delete(n.ghost, "askE")
				delete(n.ghost, "askBS")
				out = append(out, RecvRes{st: n, val: v})
			}
			return out
		}
		return nil
	}
	for _, o := range x.enter(fn, st, args) {
		if o.kind != oRet {
			continue
		}
		s := o.st
		if s.nilClass(o.vals[0]) == 1 {
			x.count("success", o.at)
			continue
		}
		for _, k := range []string{"L", "R"} {
			t := s.clone()
			if !t.addGe(mkLen(list[k]), mkAdd(t.ghost[used[k]], mkInt(1))) {
				continue
			}
			if S := t.ghost[k+".S"]; S != nil && !t.addEq(S, t.ghost[due]) {
				continue
			}
			if !t.addGe(end, t.ghost[due]) || !t.consistent() || infeasible(t.lin) {
				continue
			}
			x.report(s, o.at, "spurious-failure", "the patch fails although the next block is the first of the next %s span and nothing went wrong", map[string]string{"L": "local", "R": "remote"}[k])
		}
		if t := s.clone(); t.addGe(t.ghost[due], mkAdd(end, mkInt(1))) && t.consistent() && !infeasible(t.lin) {
			x.report(s, o.at, "spurious-failure", "the patch fails although the last block was written and nothing went wrong")
		}
	}
}
