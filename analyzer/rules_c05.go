package main

// C05: building an index fails if anything could not be read, compressed or written.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rule("C05", func(p *Prog, r *Report) {
		r.describe("Producer: the goroutine started by StartChecksumGeneration is analysed with every read and compression split into outcomes; its messages must account for every block read, the final checksum is sent only after the end of the input was seen, and a failure ends in an error message and no checksum. Consumer: GenerateChecksums and the helpers that call it are analysed for every message they can receive; each received checksum pair is written in order and every failed operation or error message gives a non-nil error and no checksum.")
		if fn := r.anchor("filechecksum", "FileChecksumGenerator", "StartChecksumGeneration"); fn != nil {
			c05producer(r, fn)
			r.need("block read", 1)
			r.need("final checksum message", 1)
			r.need("error message", 1)
			r.need("entry appended", 1)
		}
		if fn := r.anchor("filechecksum", "FileChecksumGenerator", "GenerateChecksums"); fn != nil {
			c05consumer(r, fn, true)
			r.need("weak checksum written", 1)
			r.need("strong checksum written", 1)
			r.need("complete run returned", 1)
		}
		for _, n := range []string{"BuildChecksumIndex", "BuildIndexFromString"} {
			if fn := r.anchor("indexbuilder", "", n); fn != nil {
				c05consumer(r, fn, false)
			}
		}
	})
}

func c05producer(r *Report, fn *ssa.Function) {
	r.analyse(shortFn(fn), func(x *Exec) {
		resT := x.p.namedType("filechecksum", "ChecksumResults")
		var gs []goStart
		x.collectGo(&gs)
		st := newState(x)
		args := x.params(fn)
		x.positiveBlockSize(st, args[0], "filechecksum", "FileChecksumGenerator")
		outs := x.enter(fn, st, args)
		var ch *Term
		for _, o := range outs {
			if o.kind == oRet {
				ch = o.vals[0]
			}
		}
		if ch == nil || len(gs) == 0 {
			x.report(nil, nil, "anchor", "no result stream with a producer was found")
			return
		}
		ft := x.trackFailures(true, nil)
		prev := x.h.PostCall
		x.h.PostCall = func(c *Call, res *Res) bool {
			s := res.st
			switch x.opKind(c) {
			case "Read", "io.ReadFull", "io.ReadAtLeast":
				x.count("block read", c.instr)
				x.cnt["block read"]++
				if s.auto["block"] == "pending" {
					x.report(s, c.instr, "block-dropped", "the next block is read although no checksum entry was made for the previous one")
				}
				if s.auto["failed"] != "" {
					x.report(s, c.instr, "read-after-failure", "the input is read after a failed operation")
				}
				if res.label == "eof" || res.label == "ueof" {
					s.auto["ended"] = "y"
				}
				n := res.vals[0]
				if res.label != "fail" {
					// fork: empty or not
					s.auto["block"] = ""
					if s.truth(mkEq(n, mkInt(0))) != 1 {
						s.ghost["n"] = n
						s.auto["block"] = "read"
					}
				}
			}
			return prev(c, res)
		}
		x.h.Append = func(s *State, in ssa.Instruction, ctx *Ctx, old *Term, elems []*Term, spread, res *Term, elem types.Type) bool {
			if typeKey(elem) != modPath+"/chunks.ChunkChecksum" {
				return true
			}
			x.count("entry appended", in)
			u := s.ghost["unsent"]
			if u == nil {
				u = mkInt(0)
			}
			if len(elems) != 1 || !s.provesEq(lenOfArg(old), u) {
				x.report(s, in, "entry-lost", "an entry is appended to a list that does not hold exactly the entries not yet sent")
			}
			s.ghost["unsent"] = mkAdd(u, mkInt(1))
			if s.auto["block"] != "read" {
				x.report(s, in, "entry-without-block", "an entry is made without a newly read block")
			}
			s.auto["block"] = ""
			return true
		}
		x.h.Assume = func(s *State, in ssa.Instruction, cond *Term, val bool) bool { return true }
		x.h.Send = func(s *State, in ssa.Instruction, ctx *Ctx, c, v *Term) bool {
			if c != ch {
				return true
			}
			if s.auto["last"] == "final" || s.auto["last"] == "error" {
				x.report(s, in, "after-last", "a message is sent after the last one")
			}
			u := s.ghost["unsent"]
			if u == nil {
				u = mkInt(0)
			}
			e, fc, cs := fieldVal(v, resT, "Err"), fieldVal(v, resT, "Filechecksum"), fieldVal(v, resT, "Checksums")
			if s.nilClass(e) != 1 {
				x.count("error message", in)
				s.auto["last"] = "error"
				if s.nilClass(e) != 2 {
					x.report(s, in, "error-unclear", "the error of the message may be nil")
				}
				if s.nilClass(fc) != 1 {
					x.report(s, in, "checksum-with-error", "an error message carries a file checksum")
				}
				return true
			}
			if s.auto["failed"] != "" {
				x.report(s, in, "failure-lost", "after %s a message without error is sent", s.auto["failed"])
			}
			if s.nilClass(fc) != 1 {
				x.count("final checksum message", in)
				s.auto["last"] = "final"
				if s.auto["ended"] != "y" {
					x.report(s, in, "incomplete-input", "the file checksum is reported although the end of the input was not reached")
				}
				if s.nilClass(fc) != 2 {
					x.report(s, in, "checksum-unclear", "the file checksum may be nil")
				}
				if !s.provesEq(u, mkInt(0)) && !(cs != nil && s.provesEq(lenOfArg(cs), u)) {
					x.report(s, in, "entries-unsent", "the run is reported complete with entries that were not sent")
				}
				s.ghost["unsent"] = mkInt(0)
				return true
			}
			x.count("entries message", in)
			if !s.provesEq(lenOfArg(cs), u) {
				x.report(s, in, "entries-lost", "the message does not hold exactly the entries not yet sent")
			}
			s.ghost["unsent"] = mkInt(0)
			return true
		}
		for _, g := range gs {
			g.st.ghost["unsent"] = mkInt(0)
			for _, o := range x.runGo(g) {
				s := o.st
				if o.kind == oPanic {
					continue
				}
				if k := s.auto["failed"]; k != "" {
					x.count("failing path exit", o.at)
					if s.auto["last"] != "error" {
						x.report(s, ft.site[k], "failure-lost", "a path on which %s ends without an error message", k)
					}
					continue
				}
				x.count("failure-free exit", o.at)
				if s.auto["last"] != "final" {
					x.report(s, o.at, "no-result", "the generation ends without reporting a checksum or an error")
				}
				if s.auto["block"] == "read" && s.truth(mkEq(s.ghost["n"], mkInt(0))) != 1 {
					x.report(s, o.at, "block-dropped", "the run ends although no checksum entry was made for the last block read")
				}
			}
		}
	})
}

func c05consumer(r *Report, fn *ssa.Function, direct bool) {
	r.analyse(shortFn(fn), func(x *Exec) {
		resT := x.p.namedType("filechecksum", "ChecksumResults")
		ccT := x.p.namedType("chunks", "ChunkChecksum")
		wi, si := structFieldIdx(ccT, "WeakChecksum"), structFieldIdx(ccT, "StrongChecksum")
		ft := x.trackFailures(true, nil)
		args := x.params(fn)
		done := func(s *State, in ssa.Instruction) {
			m := s.ghost["msg"]
			if m == nil || s.auto["failed"] != "" {
				return
			}
			k := s.ghost["k"]
			if !s.provesEq(k, lenOfArg(m)) || s.auto["half"] != "" {
				x.report(s, in, "entries-unwritten", "not every received checksum was written")
			}
		}
		x.h.Recv = func(st *State, in ssa.Instruction, ctx *Ctx, ch *Term, elem types.Type) []RecvRes {
			if typeKey(elem) != typeKey(resT) {
				return nil
			}
			done(st, in)
			delete(st.ghost, "msg")
			delete(st.ghost, "k")
			if st.auto["final"] != "" {
				x.cnt["message after the last"]++
			}
			var out []RecvRes
			mk := func(csum, fc, e *Term, s *State) {
				vals := make([]*Term, structOf(resT).NumFields())
				vals[structFieldIdx(resT, "Checksums")] = csum
				vals[structFieldIdx(resT, "Filechecksum")] = fc
				vals[structFieldIdx(resT, "Err")] = e
				out = append(out, RecvRes{st: s, val: mkStruct(resT, vals), ok: trueT})
			}
			ft0 := func(f string) types.Type { return fieldType(resT, structFieldIdx(resT, f)) }
			// entries
			s := st.clone()
			cs := s.fresh(x.name(ctx, in, "entries"), ft0("Checksums"))
			s.addGe(mkLen(cs), mkInt(1))
			s.assume(mkEq(cs, nilT), false)
			if s.auto["failed"] == "" {
				s.ghost["msg"], s.ghost["k"] = cs, mkInt(0)
			}
			mk(cs, nilT, nilT, s)
			// file checksum
			s = st.clone()
			fc := s.fresh(x.name(ctx, in, "filechecksum"), ft0("Filechecksum"))
			s.assume(mkEq(fc, nilT), false)
			s.auto["final"] = "y"
			s.ghost["fc"] = fc
			mk(nilT, fc, nilT, s)
			// error
			s = st.clone()
			e := s.fresh(x.name(ctx, in, "streamerr"), ft0("Err"))
			s.assume(mkEq(e, nilT), false)
			s.auto["final"] = "y"
			ft.mark(s, in, "received an error")
			mk(nilT, nilT, e, s)
			// end of stream (only after the last message)
			if st.auto["final"] != "" || st.auto["failed"] != "" {
				s = st.clone()
				out = append(out, RecvRes{st: s, val: zeroOf(resT), ok: falseT})
			}
			if st.auto["final"] != "" {
				// nothing follows the last message
				out = out[len(out)-1:]
			}
			return out
		}
		prev := x.h.PostCall
		x.h.PostCall = func(c *Call, res *Res) bool {
			s := res.st
			k := x.opKind(c)
			if (k == "Write" || k == "buffer.Write") && s.ghost["msg"] != nil && s.auto["failed"] == "" {
				cs := s.ghost["msg"]
				at := func(fi int, i *Term) *Term {
					return s.load(mkField(mkIndex(cs, i, ccT), ccT, fi), fieldType(ccT, fi))
				}
				switch {
				case s.auto["half"] == "" && s.provesEq(c.args[1], at(wi, s.ghost["k"])):
					x.count("weak checksum written", c.instr)
					s.auto["half"] = "weak"
				case s.auto["half"] == "weak" && s.provesEq(c.args[1], at(si, s.ghost["k"])):
					x.count("strong checksum written", c.instr)
					s.auto["half"] = ""
					s.ghost["k"] = mkAdd(s.ghost["k"], mkInt(1))
				default:
					x.report(s, c.instr, "write-order", "the bytes written (%v) are not the checksum that is due", c.args[1])
				}
			}
			return prev(c, res)
		}
		st := newState(x)
		outs := x.enter(fn, st, args)
		errAt := fn.Signature.Results().Len() - 1
		for _, o := range outs {
			if o.kind != oRet {
				continue
			}
			s := o.st
			err := o.vals[errAt]
			if k := s.auto["failed"]; k != "" {
				x.count("failing path exit", o.at)
				if s.nilClass(err) != 2 {
					x.report(s, ft.site[k], "failure-lost", "a path on which %s returns without an error", k)
				}
				if direct && s.nilClass(o.vals[0]) != 1 {
					x.report(s, ft.site[k], "checksum-with-error", "a path on which %s returns a file checksum", k)
				}
				continue
			}
			if s.nilClass(err) == 2 {
				continue
			}
			done(s, o.at)
			x.count("complete run returned", o.at)
			if s.ghost["fc"] == nil || o.vals[0] != s.ghost["fc"] {
				x.report(s, o.at, "no-checksum", "success is returned without the file checksum of the run")
			}
		}
	})
}
