package main

// C27: verification of a block range.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rule("C27", func(p *Prog, r *Report) {
		r.describe("Range verification is analysed with the number of blocks looked up as a ghost value. Lookup k must ask for block start+k; before the next lookup and before returning true, the checksum found must be nil or equal the digest of exactly bytes k*BlockSize to min((k+1)*BlockSize, length) fed to a freshly reset hash; returning true needs the blocks looked up to cover the data; returning false needs the checksum looked up last to be known to differ from the digest of exactly its block.")
		fn := r.anchor("filechecksum", "HashVerifier", "VerifyBlockRange")
		if fn == nil {
			return
		}
		r.analyse(shortFn(fn), func(x *Exec) { verifier(x, fn, true) })
		r.need("checksum looked up", 1)
		r.need("range accepted", 1)
		r.need("range rejected", 1)
	})
}

func verifier(x *Exec, fn *ssa.Function, verdict bool) {
	args := x.params(fn)
	v, start, data := args[0], args[1], args[2]
	st := newState(x)
	x.positiveBlockSize(st, v, "filechecksum", "HashVerifier")
	vT := x.p.namedType("filechecksum", "HashVerifier")
	bs := st.load(fieldAddr(v, vT, "BlockSize"), types.Typ[types.Uint])
	st.ghost["k"] = mkInt(0)
	st.ghost["bs"] = bs
	dc := x.bytesTerm(st, data)
	ht := &hashTrack{x: x}
	ht.onSum = func(s *State, c *Call, h, state, res *Term) {
		s.ghost["sum.state"] = state
		s.ghost["sum.val"] = mkCall("bytesOf", nil, s.contentOf(res), mkInt(0), mkLen(res))
		if !verdict {
			x.count("digest taken", c.instr)
			by := digestOf(state)
			if by == nil {
				x.report(s, c.instr, "hash-state", "the digest is taken of %v, not of one block fed to a fresh hash", state)
				return
			}
			if by.args[0] != dc.args[0] || !oneBlock(x, s, by, bs, mkLen(data)) {
				x.report(s, c.instr, "not-a-block", "the digest is taken of %v, which is not known to be one block of the data", by)
			}
		}
	}
	ht.install()
	// problem: why the last lookup is not settled yet
	problem := func(s *State) (string, string) {
		e, k := s.ghost["exp"], s.ghost["kk"]
		if s.nilClass(e) == 1 || s.provesEq(mkLen(e), mkInt(0)) {
			return "", ""
		}
		ev := x.bytesVal(s, e)
		sv := s.ghost["sum.val"]
		if sv == nil || !(s.provesEq(mkCall("bytesCmp", intT, ev, sv), mkInt(0)) || s.provesEq(mkCall("bytesCmp", intT, sv, ev), mkInt(0)) || s.truth(mkCall("bytesEq", boolT, ev, sv)) == 1 || s.truth(mkCall("bytesEq", boolT, sv, ev)) == 1) {
			return "unverified-block", "the verification goes on without knowing that the checksum found for a block equals the digest of the data"
		}
		by := digestOf(s.ghost["sum.state"])
		if by == nil || by.args[0] != dc.args[0] {
			return "wrong-digest", "the digest compared is not that of one block of the data fed to a freshly reset hash"
		}
		end := mkMul(mkAdd(k, mkInt(1)), bs)
		if !s.provesEq(by.args[1], mkMul(k, bs)) || !(s.provesEq(by.args[2], end) || s.provesEq(by.args[2], mkLen(data)) && s.provesGe(end, mkLen(data))) {
			return "wrong-block", "the bytes compared with the checksum of a block are not that block"
		}
		return "", ""
	}
	settle := func(s *State, in ssa.Instruction, quiet bool) {
		if s.auto["pend"] == "" {
			return
		}
		rule, msg := problem(s)
		if rule != "" {
			if quiet {
				return
			}
			x.report(s, in, rule, "%s", msg)
		}
		delete(s.auto, "pend")
		for _, g := range []string{"exp", "kk", "sum.val", "sum.state"} {
			delete(s.ghost, g)
		}
	}
	// rejected: a digest must be known to differ
	rejected := func(s *State, in ssa.Instruction) {
		e, k, sv := s.ghost["exp"], s.ghost["kk"], s.ghost["sum.val"]
		if s.auto["pend"] == "" || e == nil || sv == nil {
			x.report(s, in, "rejected-unseen", "the range is rejected although no digest was compared with the checksum looked up last")
			return
		}
		by := digestOf(s.ghost["sum.state"])
		end := mkMul(mkAdd(k, mkInt(1)), bs)
		if by == nil || by.args[0] != dc.args[0] || !s.provesEq(by.args[1], mkMul(k, bs)) || !(s.provesEq(by.args[2], end) || s.provesEq(by.args[2], mkLen(data)) && s.provesGe(end, mkLen(data))) {
			x.report(s, in, "rejected-other", "the range is rejected for a digest that is not known to be that of the bytes of the block looked up")
			return
		}
		ev := x.bytesVal(s, e)
		if s.nilClass(e) == 1 {
			x.report(s, in, "rejected-unknown", "the range is rejected although no checksum is known for the block")
		}
		for _, eq := range []*Term{mkEq(mkCall("bytesCmp", intT, ev, sv), mkInt(0)), mkEq(mkCall("bytesCmp", intT, sv, ev), mkInt(0)), mkCall("bytesEq", boolT, ev, sv), mkCall("bytesEq", boolT, sv, ev)} {
			if s.truth(eq) == 0 || !s.clone().assume(eq, true) {
				return
			}
		}
		x.report(s, in, "rejected-equal", "the range is rejected without knowing that the checksum found for a block differs from the digest of its bytes")
	}
	x.h.LoopKey = func(s *State) string {
		if s.provesGe(mkLen(data), mkMul(s.ghost["k"], bs)) {
			return "inside"
		}
		return ""
	}
	x.h.BackEdge = func(s *State, h *ssa.BasicBlock) bool { settle(s, nil, true); return true }
	prev := x.h.PostCall
	x.h.PostCall = func(c *Call, res *Res) bool {
		s := res.st
		if c.method == "GetStrongChecksumForBlock" && c.fn == nil && verdict {
			settle(s, c.instr, false)
			x.count("checksum looked up", c.instr)
			if !s.provesEq(c.args[1], mkAdd(start, s.ghost["k"])) {
				x.report(s, c.instr, "wrong-block-number", "the checksum looked up is that of block %v, not of the next block of the range", c.args[1])
			}
			x.noteTemplates(mkMul(s.ghost["k"], bs))
			s.auto["pend"] = "y"
			s.ghost["exp"], s.ghost["kk"] = res.vals[0], s.ghost["k"]
			s.ghost["k"] = mkAdd(s.ghost["k"], mkInt(1))
			delete(s.ghost, "sum.val")
			delete(s.ghost, "sum.state")
		}
		return prev(c, res)
	}
	for _, o := range x.enter(fn, st, args) {
		if o.kind != oRet {
			continue
		}
		s := o.st
		if n := s.clone(); verdict && s.truth(o.vals[0]) == -1 {
			if n.assume(o.vals[0], false) && n.consistent() {
				rejected(n, o.at)
			}
			if !s.assume(o.vals[0], true) {
				continue
			}
		}
		if s.truth(o.vals[0]) == 0 {
			x.count("range rejected", o.at)
			if verdict {
				rejected(s, o.at)
			}
			continue
		}
		x.count("range accepted", o.at)
		if !verdict {
			continue
		}
		settle(s, o.at, false)
		if !s.provesGe(mkMul(s.ghost["k"], bs), mkLen(data)) {
			x.report(s, o.at, "unchecked-tail", "the range is accepted without knowing that the blocks looked up cover the data")
		}
	}
}

// oneBlock: the byte range is not longer than a block and a whole block unless
// it ends at the end of the data.
func oneBlock(x *Exec, s *State, by, bs, end *Term) bool {
	n := mkSub(by.args[2], by.args[1])
	return s.provesEq(n, bs) || s.provesGe(bs, n) && s.provesEq(by.args[2], end)
}
