package main

// C17: byte ranges of blocks and splitting of block ranges.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rule("C17", func(p *Prog, r *Report) {
		r.describe("Offsets: every return value of the start (end) offset of block b must be b (b+1) times the block size if no file size is known or that does not exceed it, and the file size otherwise. Splitting: every sub-range appended must start at the block due, not end before it starts nor after the last block asked for, and span at most the desired size unless it is one block; the list returned must end with the last block.")
		for _, n := range []string{"GetBlockStartOffset", "GetBlockEndOffset"} {
			if fn := r.anchor("blocksources", "FixedSizeBlockResolver", n); fn != nil {
				c17offset(r, fn, n == "GetBlockEndOffset")
			}
		}
		r.need("offset returned", 1)
		if fn := r.anchor("blocksources", "FixedSizeBlockResolver", "SplitBlockRangeToDesiredSize"); fn != nil {
			c17split(r, fn)
		}
		r.need("split returned", 1)
		r.need("sub-range made", 1)
	})
}

func resolverState(x *Exec, args []*Term) (st *State, bs, fs, max *Term) {
	T := x.p.namedType("blocksources", "FixedSizeBlockResolver")
	st = newState(x)
	x.positiveBlockSize(st, args[0], "blocksources", "FixedSizeBlockResolver")
	get := func(f string) *Term {
		v := st.load(fieldAddr(args[0], T, f), fieldType(T, structFieldIdx(T, f)))
		x.pinned[v] = true
		return v
	}
	bs, fs, max = get("BlockSize"), get("FileSize"), get("MaxDesiredRequestSize")
	x.assumptions["a known file size is not negative"] = true
	st.addGe(fs, mkInt(0))
	st.addGe(max, mkInt(0))
	return
}

func c17offset(r *Report, fn *ssa.Function, end bool) {
	r.analyse(shortFn(fn), func(x *Exec) {
		args := x.params(fn)
		st, bs, fs, _ := resolverState(x, args)
		b := args[1]
		st.addGe(b, mkInt(0))
		if end {
			b = mkAdd(b, mkInt(1))
		}
		full := mkMul(b, bs)
		for _, o := range x.enter(fn, st, args) {
			if o.kind != oRet {
				x.report(o.st, o.at, "no-offset", "the offset of a block is not returned on every path")
				continue
			}
			x.count("offset returned", o.at)
			x.cnt["offset returned"]++
			s, v := o.st, o.vals[0]
			// with and without a known file size
			for _, known := range []bool{false, true} {
				c := s.clone()
				if !c.assume(mkEq(fs, mkInt(0)), !known) {
					continue
				}
				if known {
					if !c.addGe(fs, mkInt(1)) {
						continue
					}
					if c.provesEq(v, full) && c.provesGe(fs, full) || c.provesEq(v, fs) && c.provesGe(full, fs) {
						continue
					}
				} else if c.provesEq(v, full) {
					continue
				}
				x.report(c, o.at, "wrong-offset", "the offset returned (%v) is not the block number times the block size, limited to a known file size", v)
			}
		}
	})
}

func c17split(r *Report, fn *ssa.Function) {
	r.analyse(shortFn(fn), func(x *Exec) {
		args := x.params(fn)
		st, bs, _, max := resolverState(x, args)
		qT := x.p.namedType("blocksources", "QueuedRequest")
		first, last := args[1], args[2]
		x.assumptions["ranges asked for do not end before they start"] = true
		st.addGe(first, mkInt(0))
		st.addGe(last, first)
		st.ghost["n"], st.ghost["due"] = mkInt(0), first
		sub := func(s *State, in ssa.Instruction, q *Term) {
			x.count("sub-range made", in)
			x.cnt["sub-range made"]++
			S, E := fieldVal(q, qT, "StartBlockID"), fieldVal(q, qT, "EndBlockID")
			if !s.provesEq(S, s.ghost["due"]) {
				x.report(s, in, "gap-or-overlap", "a sub-range does not start at the block after the previous one")
			}
			if !s.provesGe(E, S) {
				x.report(s, in, "empty-sub-range", "a sub-range may end before it starts")
			}
			if !s.provesGe(last, E) {
				x.report(s, in, "beyond-end", "a sub-range may end after the last block asked for")
			}
			if s.truth(mkEq(max, mkInt(0))) != 1 && !s.provesEq(S, E) {
				size := mkMul(mkAdd(mkSub(E, S), mkInt(1)), bs)
				if !s.provesGe(max, size) {
					x.report(s, in, "too-large", "a sub-range of several blocks may exceed the desired size")
				}
			}
			s.ghost["due"] = mkAdd(E, mkInt(1))
		}
		x.h.Append = func(s *State, in ssa.Instruction, ctx *Ctx, old *Term, elems []*Term, spread, res *Term, elem types.Type) bool {
			if typeKey(elem) != typeKey(qT) {
				return true
			}
			if len(elems) == 0 || !s.provesEq(lenOfArg(old), s.ghost["n"]) {
				x.report(s, in, "list-unclear", "sub-ranges are appended to a list that is not the one built so far")
				return true
			}
			for _, q := range elems {
				sub(s, in, q)
			}
			s.ghost["n"] = mkAdd(s.ghost["n"], mkInt(int64(len(elems))))
			return true
		}
		for _, o := range x.enter(fn, st, args) {
			if o.kind != oRet {
				x.report(o.st, o.at, "no-list", "no list is returned on some path")
				continue
			}
			x.count("split returned", o.at)
			s, v := o.st, o.vals[0]
			b, lo, hi := sliceParts(v)
			if c, ok := constInt(s.ghost["n"]); ok && c == 0 && v != nilT {
				// a literal list
				if n, ok := constInt(mkSub(hi, lo)); ok && n < 8 {
					for i := int64(0); i < n; i++ {
						sub(s, o.at, s.load(mkIndex(b, mkAdd(lo, mkInt(i)), qT), qT))
					}
					s.ghost["n"] = mkInt(n)
				}
			}
			if !s.provesEq(lenOfArg(v), s.ghost["n"]) || !s.provesEq(lo, mkInt(0)) {
				x.report(s, o.at, "not-all", "the list returned is not known to hold every sub-range made")
			}
			if !s.provesEq(s.ghost["due"], mkAdd(last, mkInt(1))) {
				x.report(s, o.at, "incomplete", "the sub-ranges returned do not end with the last block asked for")
			}
		}
	})
}
