package main

// C02: the patched output is assembled in block order.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rule("C02", func(p *Prog, r *Report) {
		r.describe("The patch loop is analysed with the next block due as a ghost value. Every write to the output must be the payload of a received response whose start block is the block due and whose number of blocks is the number asked for, or a copy limited to span blocks times block size from the offset of the local span that holds the block due, after positioning the local file there. Success requires that the block due lies beyond the last block of both lists.")
		fn := r.anchor("patcher/sequential", "", "SequentialPatcher")
		if fn == nil {
			return
		}
		r.analyse(shortFn(fn), func(x *Exec) { c02(x, fn) })
		r.need("response written", 1)
		r.need("local span copied", 1)
		r.need("blocks requested", 1)
		r.need("success", 1)
	})
}

// spanOf: the address of the element of a list whose field f has value t.
func spanOf(t *Term, owner types.Type, f string) *Term {
	i := structFieldIdx(owner, f)
	if t == nil || t.kind != KLoad || i < 0 {
		return nil
	}
	a := t.args[0]
	if a.kind != KField || a != mkField(a.args[0], owner, i) {
		return nil
	}
	return a.args[0]
}

func c02(x *Exec, fn *ssa.Function) {
	args := x.params(fn)
	local, remoteL, localL, output := args[0], args[2], args[3], args[5]
	st := newState(x)
	st.ghost["due"] = mkInt(0)
	respT := x.p.namedType("patcher", "BlockReponse")
	missT := x.p.namedType("patcher", "MissingBlockSpan")
	foundT := x.p.namedType("patcher", "FoundBlockSpan")
	if respT == nil || missT == nil || foundT == nil {
		return
	}
	x.assumptions["block spans have a block size of at least one byte"] = true
	uintT := types.Typ[types.Uint]
	i64 := types.Typ[types.Int64]

	x.assumptions["the lists of spans are sorted and disjoint: the span that holds the next block due starts with it"] = true
	whole := func(s *State, S, E *Term) {
		if due := s.ghost["due"]; s.provesGe(due, S) && s.provesGe(E, due) {
			s.addEq(S, due)
		}
	}
	// settled: the last response written must have covered what was asked for
	settled := func(s *State, in ssa.Instruction) {
		if s.auto["pend"] == "" {
			return
		}
		if !s.provesEq(s.ghost["wrote"], s.ghost["askedblocks"]) {
			x.report(s, in, "short-response", "the patch continues without knowing that the response just written covers exactly the blocks asked for")
		}
		delete(s.auto, "pend")
		delete(s.ghost, "wrote")
		delete(s.ghost, "askedblocks")
	}
	// copying n bytes of the local file
	localCopy := func(s *State, c *Call, src, n *Term) {
		x.count("local span copied", c.instr)
		if s.auto["pos"] == "" || stripIface(src) != local {
			x.report(s, c.instr, "not-positioned", "bytes are copied without positioning the local file first")
			return
		}
		delete(s.auto, "pos")
		off := s.ghost["off"]
		span := spanOf(off, foundT, "MatchOffset")
		if span == nil || rootOf(span) != rootOf(mkIndex(localL, mkInt(0), foundT)) {
			x.report(s, c.instr, "wrong-offset", "the local file is positioned at %v, which is not the match offset of a local span", off)
			return
		}
		ld := func(f string, t types.Type) *Term { return s.load(fieldAddr(span, foundT, f), t) }
		S, E, bs := ld("StartBlock", uintT), ld("EndBlock", uintT), ld("BlockSize", i64)
		due := s.ghost["due"]
		if !s.provesGe(due, S) || !s.provesGe(E, due) {
			x.report(s, c.instr, "wrong-span", "the local span copied is not known to hold the next block due")
		}
		whole(s, S, E)
		want := mkMul(mkAdd(mkSub(E, S), mkInt(1)), bs)
		if n == nil || !s.provesEq(n, want) {
			x.report(s, c.instr, "wrong-length", "%v bytes are copied, not the number of blocks of the span times its block size", n)
		}
		s.ghost["due"] = mkAdd(E, mkInt(1))
	}
	response := func(s *State, in ssa.Instruction, data *Term) bool {
		resp := s.ghost["resp"]
		if resp == nil || data != fieldVal(resp, respT, "Data") {
			x.report(s, in, "foreign-data", "what is written to the output (%v) is not the payload of the response received last", data)
			return false
		}
		if s.auto["asked"] == "" {
			x.report(s, in, "not-asked", "a response is written although no blocks are asked for")
			return false
		}
		if !s.provesEq(s.ghost["askS"], s.ghost["due"]) {
			x.report(s, in, "wrong-request", "the blocks asked for are not known to start at the next block due")
		}
		if !s.provesEq(fieldVal(resp, respT, "StartBlock"), s.ghost["due"]) {
			x.report(s, in, "wrong-block", "a response is written without knowing that it starts at the next block due")
		}
		return true
	}
	x.h.Model = func(st *State, c *Call) ([]Res, bool) {
		if r, ok := channelGetters(st, c); ok {
			return r, true
		}
		if c.name == "io.LimitReader" {
			v := mkCall("limited", c.results.At(0).Type(), stripIface(c.args[0]), c.args[1])
			st.assume(mkEq(v, nilT), false)
			return []Res{{st: st, vals: []*Term{v}}}, true
		}
		if c.method == "Write" && len(c.args) == 2 && stripIface(c.args[0]) == output {
			settled(st, c.instr)
			f := st.clone()
			out := []Res{{st: f, vals: []*Term{f.fresh(x.name(c.ctx, c.instr, "n"), intT), x.mkErr(f, c, "Write")}, label: "fail"}}
			data := c.args[1]
			if !response(st, c.instr, data) {
				return append(out, Res{st: st, vals: []*Term{lenOfArg(data), nilT}, label: "ok"}), true
			}
			x.count("response written", c.instr)
			ln, bs := lenOfArg(data), st.ghost["askBS"]
			q := x.quo(st, ln, bs, uintT)
			rem := mkSub(ln, mkMul(bs, q))
			for _, exact := range []bool{true, false} {
				s := st.clone()
				n := q
				if exact {
					if !s.assume(mkEq0(asPoly(rem)), true) {
						continue
					}
				} else {
					if !s.assume(mkEq0(asPoly(rem)), false) {
						continue
					}
					s.addGe(rem, mkInt(1))
					n = mkAdd(q, mkInt(1))
				}
				// other ways to round up
				up := mkBin("/", uintT, mkSub(mkAdd(ln, bs), mkInt(1)), bs)
				s.addEq(up, n)
				if exact {
					s.addEq(mkMul(up, bs), ln)
				}
				s.auto["pend"] = "y"
				delete(s.auto, "asked")
				s.ghost["wrote"] = n
				s.ghost["askedblocks"] = mkAdd(mkSub(s.ghost["askE"], s.ghost["askS"]), mkInt(1))
				s.ghost["due"] = mkAdd(s.ghost["due"], n)
				delete(s.ghost, "resp")
				out = append(out, Res{st: s, vals: []*Term{ln, nilT}, label: "ok"})
			}
			return out, true
		}
		return nil, false
	}
	x.h.PreCall = func(s *State, c *Call) bool {
		switch {
		case c.method == "RequestBlocks":
			x.count("blocks requested", c.instr)
			sp := c.args[1]
			bs := fieldVal(sp, missT, "BlockSize")
			s.addGe(bs, mkInt(1))
			s.auto["asked"] = "y"
			s.ghost["askS"] = fieldVal(sp, missT, "StartBlock")
			s.ghost["askE"] = fieldVal(sp, missT, "EndBlock")
			s.ghost["askBS"] = bs
			whole(s, s.ghost["askS"], s.ghost["askE"])
		case c.name == "io.Copy" || c.name == "io.CopyN" || c.name == "io.CopyBuffer":
			if stripIface(c.args[0]) != output {
				return true
			}
			settled(s, c.instr)
			src := stripIface(c.args[1])
			if c.name == "io.CopyN" {
				localCopy(s, c, src, c.args[2])
			} else if src.kind == KCall && src.name == "limited" {
				localCopy(s, c, src.args[0], src.args[1])
			} else {
				x.report(s, c.instr, "unlimited-copy", "an unlimited copy to the output")
			}
		case c.method == "ReadFrom" || c.method == "WriteString" || c.method == "WriteByte" || c.name == "io.WriteString" || c.name == "fmt.Fprintf":
			for _, a := range c.args[:1] {
				if stripIface(a) == output {
					x.report(s, c.instr, "foreign-data", "something other than a response or a local span is written to the output")
				}
			}
		}
		return true
	}
	x.h.PostCall = func(c *Call, res *Res) bool {
		s := res.st
		if x.opKind(c) == "Seek" && stripIface(c.args[0]) == local {
			delete(s.auto, "pos")
			if res.label == "ok" {
				if s.provesEq(c.args[2], mkInt(0)) {
					s.auto["pos"] = "y"
					s.ghost["off"] = c.args[1]
				}
			}
		}
		return true
	}
	x.h.Recv = func(st *State, in ssa.Instruction, ctx *Ctx, ch *Term, elem types.Type) []RecvRes {
		if ch.kind == KCall && ch.name == "GetResultChannel" {
			v := st.fresh(x.name(ctx, in, "response"), elem)
			st.ghost["resp"] = v
			return []RecvRes{{st: st, val: v}}
		}
		return nil
	}
	for _, o := range x.enter(fn, st, args) {
		if o.kind != oRet || o.st.nilClass(o.vals[0]) == 2 {
			continue
		}
		s := o.st
		x.count("success", o.at)
		settled(s, o.at)
		for i, l := range []*Term{remoteL, localL} {
			t := []types.Type{missT, foundT}[i]
			n := mkLen(l)
			if s.provesEq(n, mkInt(0)) {
				continue
			}
			last := s.load(fieldAddr(mkIndex(l, mkSub(n, mkInt(1)), t), t, "EndBlock"), uintT)
			if !s.provesGe(s.ghost["due"], mkAdd(last, mkInt(1))) {
				x.report(s, o.at, "incomplete", "success is reported without knowing that the last block of the %s list was written", []string{"remote", "local"}[i])
			}
		}
	}
}
