package main

// C09: every checksum covers exactly one block.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rule("C09", func(p *Prog, r *Report) {
		r.describe("Generation: the goroutine started by StartChecksumGeneration is analysed with the input's bytes identified by position. The entry appended for block k must carry number k, the digest of exactly the bytes after the previous entry's up to the last byte read, fed once to a freshly reset hash, and the rolling checksum of the same bytes; only the last block may be shorter than a block; the final checksum must be the digest of all bytes read. Comparison: each strong lookup uses the digest of exactly the window. Verification: each digest taken is that of one block of the data.")
		if fn := r.anchor("filechecksum", "FileChecksumGenerator", "StartChecksumGeneration"); fn != nil {
			c09generator(r, fn)
			r.need("entry appended", 1)
			r.need("final checksum message", 1)
			r.need("stream read", 1)
		}
		comparison(p, r, "C09")
		r.need("strong lookup", 1)
		if fn := r.anchor("filechecksum", "HashVerifier", "VerifyBlockRange"); fn != nil {
			r.analyse(shortFn(fn), func(x *Exec) { verifier(x, fn, false) })
			r.need("digest taken", 1)
		}
	})
}

func wholeContent(s *State, v *Term) *Term {
	if v == nil || v == nilT {
		return nil
	}
	b, lo, hi := sliceParts(v)
	if !s.provesEq(lo, mkInt(0)) || !s.provesEq(hi, mkLen(b)) {
		return nil
	}
	return s.contentOf(b)
}

func c09generator(r *Report, fn *ssa.Function) {
	r.analyse(shortFn(fn), func(x *Exec) {
		resT := x.p.namedType("filechecksum", "ChecksumResults")
		ccT := x.p.namedType("chunks", "ChunkChecksum")
		var gs []goStart
		x.collectGo(&gs)
		st := newState(x)
		args := x.params(fn)
		src := args[1]
		x.positiveBlockSize(st, args[0], "filechecksum", "FileChecksumGenerator")
		genT := x.p.namedType("filechecksum", "FileChecksumGenerator")
		bs := st.load(fieldAddr(args[0], genT, "BlockSize"), types.Typ[types.Uint])
		var ch *Term
		for _, o := range x.enter(fn, st, args) {
			if o.kind == oRet {
				ch = o.vals[0]
			}
		}
		if ch == nil || len(gs) == 0 {
			x.report(nil, nil, "anchor", "no result stream with a producer was found")
			return
		}
		x.h.Go = nil
		(&hashTrack{x: x}).install()
		(&rolling{x: x}).install()
		tr := &streamTrack{x: x, src: src}
		tr.before = func(s *State, c *Call) {
			x.count("stream read", c.instr)
			if !s.provesEq(s.ghost["cover"], s.ghost["rd"]) {
				x.report(s, c.instr, "bytes-without-entry", "more is read although the bytes already read have no entry yet")
				s.ghost["cover"] = s.ghost["rd"]
			}
		}
		x.h.Append = func(s *State, in ssa.Instruction, ctx *Ctx, old *Term, elems []*Term, spread, res *Term, elem types.Type) bool {
			if typeKey(elem) != modPath+"/chunks.ChunkChecksum" {
				return true
			}
			for _, e := range elems {
				x.count("entry appended", in)
				x.cnt["entry appended"]++
				blk := streamBytes(s.ghost["cover"], s.ghost["rd"])
				n := bytesLen(blk)
				if !s.provesEq(n, bs) {
					if s.auto["short"] != "" {
						x.report(s, in, "after-short-block", "an entry follows that of a block shorter than the block size")
					}
					if !s.provesGe(bs, n) || !s.provesGe(n, mkInt(1)) {
						x.report(s, in, "not-a-block", "the bytes of the entry are not known to be one block")
					}
					s.auto["short"] = "y"
				}
				if !s.provesEq(fieldVal(e, ccT, "ChunkOffset"), s.ghost["k"]) {
					x.report(s, in, "wrong-number", "the entry does not carry the number of its block")
				}
				sc := wholeContent(s, fieldVal(e, ccT, "StrongChecksum"))
				if sc == nil || sc.kind != KCall || sc.name != "digest" || !sameBytes(s, digestOf(sc.args[0]), blk) {
					x.report(s, in, "wrong-strong", "the strong checksum of the entry is not the digest of exactly the bytes of its block, fed once to a fresh hash")
				}
				wc := wholeContent(s, fieldVal(e, ccT, "WeakChecksum"))
				if wc == nil || wc.kind != KCall || wc.name != "weaksum" || !sameBytes(s, wc.args[0], blk) {
					x.report(s, in, "wrong-weak", "the weak checksum of the entry is not the rolling checksum of exactly the bytes of its block")
				}
				s.ghost["k"] = mkAdd(s.ghost["k"], mkInt(1))
				s.ghost["cover"] = s.ghost["rd"]
			}
			if len(elems) == 0 {
				x.report(s, in, "entry-unclear", "entries are appended in a way that is not followed")
			}
			return true
		}
		x.h.Send = func(s *State, in ssa.Instruction, ctx *Ctx, c, v *Term) bool {
			if c != ch {
				return true
			}
			fc := fieldVal(v, resT, "Filechecksum")
			if s.nilClass(fc) == 1 {
				return true
			}
			x.count("final checksum message", in)
			ct := wholeContent(s, fc)
			okd := false
			if ct != nil && ct.kind == KCall && ct.name == "digest" {
				if ct.args[0] == hashEmpty {
					okd = s.provesEq(s.ghost["rd"], mkInt(0))
				} else {
					okd = sameBytes(s, digestOf(ct.args[0]), streamBytes(mkInt(0), s.ghost["rd"]))
				}
			}
			if !okd {
				x.report(s, in, "wrong-file-checksum", "the file checksum is not the digest of exactly the bytes read, each fed once in order to a fresh hash")
			}
			return true
		}
		x.h.LoopKey = func(s *State) string {
			var ks []string
			for k, v := range s.ghost {
				if strings.HasPrefix(k, "H") {
					switch {
					case v == hashEmpty:
						ks = append(ks, k+"empty")
					case digestOf(v) == nil:
						ks = append(ks, k+"other")
					}
				}
			}
			sort.Strings(ks)
			return fmt.Sprint(ks)
		}
		// the bytes fed are expressed in the terms of the position read
		x.h.BackEdge = func(s *State, h *ssa.BasicBlock) bool {
			rd := s.ghost["rd"]
			for k, v := range s.ghost {
				if d := digestOf(v); d != nil && isBytes(d) && strings.HasPrefix(k, "H") && s.provesEq(d.args[2], rd) {
					s.ghost[k] = mkCall("hash:feed", nil, hashEmpty, mkCall("bytesOf", nil, d.args[0], d.args[1], rd))
				}
			}
			return true
		}
		for _, g := range gs {
			g.st.ghost["k"] = mkInt(0)
			g.st.ghost["cover"] = mkInt(0)
			tr.install(g.st)
			x.runGo(g)
		}
	})
}
