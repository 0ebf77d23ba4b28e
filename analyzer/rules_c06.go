package main

// C06: loading a checksum stream.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rule("C06", func(p *Prog, r *Report) {
		r.describe("The loader is analysed with the number of entries loaded as a ghost value and every read split into complete, end of stream, cut short and failed. Entry k appended must hold block offset k and the bytes of the weak then the strong read that follow entry k-1; success needs the end of the stream exactly at an entry boundary and returns all entries; every other end returns an error without entries, and an error needs a read that failed or was cut short.")
		fn := r.anchor("chunks", "", "LoadChecksumsFromReader")
		if fn == nil {
			return
		}
		r.analyse(shortFn(fn), func(x *Exec) { c06(x, fn) })
		r.need("entry appended", 1)
		r.need("stream read", 1)
		r.need("success", 1)
		r.need("failure", 1)
	})
}

func c06(x *Exec, fn *ssa.Function) {
	args := x.params(fn)
	stream, weak, strong := args[0], args[1], args[2]
	cT := x.p.namedType("chunks", "ChunkChecksum")
	st := newState(x)
	st.addGe(weak, mkInt(1))
	st.addGe(strong, mkInt(1))
	x.assumptions["checksum sizes are at least one byte"] = true
	st.ghost["k"] = mkInt(0)
	// auto at: "" entry boundary, "w" after the weak bytes, "ws" after the entry
	x.h.Alloc = func(s *State, obj *Term) { s.assume(mkCall("unshared", boolT, obj), true) }
	seg := func(s *State, name string, buf *Term) {
		b, lo, hi := sliceParts(buf)
		s.ghost[name+".b"], s.ghost[name+".lo"], s.ghost[name+".hi"], s.ghost[name+".c"] = b, lo, hi, s.contentOf(b)
	}
	same := func(s *State, name string, v, off, n *Term) bool {
		if v == nilT || s.ghost[name+".b"] == nil {
			return false
		}
		b, lo, hi := sliceParts(v)
		return b == s.ghost[name+".b"] && s.provesEq(lo, mkAdd(s.ghost[name+".lo"], off)) && s.provesEq(mkSub(hi, lo), n) && s.contentOf(b) == s.ghost[name+".c"]
	}
	x.h.PostCall = func(c *Call, res *Res) bool {
		s := res.st
		k := x.opKind(c)
		var src, buf *Term
		switch k {
		case "io.ReadFull", "Read":
			src, buf = c.args[0], c.args[1]
		default:
			for _, a := range c.args {
				if handleOf(a) == stream && c.name != "bufio.NewReader" && c.fn == nil {
					x.report(s, c.instr, "read-shape", "%s reads the stream in a way the rule does not know", shortName(c.name))
				}
			}
			return true
		}
		if handleOf(src) != stream {
			return true
		}
		x.count("stream read", c.instr)
		if b, _, _ := sliceParts(buf); s.truth(mkCall("unshared", boolT, b)) != 1 {
			x.report(s, c.instr, "shared-storage", "bytes are read into storage that may already belong to an entry")
		}
		if k != "io.ReadFull" {
			x.report(s, c.instr, "read-shape", "a plain Read may return a part of a checksum")
			return true
		}
		if s.auto["end"] != "" {
			x.report(s, c.instr, "read-after-end", "the stream is read on after it ended or failed")
		}
		n := lenOfArg(buf)
		at := s.auto["at"]
		switch {
		case at == "" && s.provesEq(n, weak) && (!s.provesEq(weak, strong) || true):
			if res.label == "ok" {
				s.auto["at"] = "w"
				seg(s, "weak", buf)
			}
		case at == "" && s.provesEq(n, mkAdd(weak, strong)):
			if res.label == "ok" {
				s.auto["at"] = "both"
				seg(s, "entry", buf)
			}
		case at == "w" && s.provesEq(n, strong):
			if res.label == "ok" {
				s.auto["at"] = "ws"
				seg(s, "strong", buf)
			}
		default:
			x.report(s, c.instr, "read-size", "a read of %v bytes does not fit the sequence of weak and strong checksums", n)
		}
		switch res.label {
		case "ok":
		case "eof":
			if at == "" {
				s.auto["end"] = "clean"
			} else {
				s.auto["end"] = "partial"
			}
		default:
			s.auto["end"] = "partial"
		}
		return true
	}
	x.h.Append = func(s *State, in ssa.Instruction, ctx *Ctx, old *Term, elems []*Term, spread *Term, res *Term, elem types.Type) bool {
		if typeKey(elem) != typeKey(cT) {
			return true
		}
		x.count("entry appended", in)
		if len(elems) != 1 {
			x.report(s, in, "append-shape", "entries are not appended one at a time")
			return true
		}
		e := elems[0]
		if !s.provesEq(mkLen(res), mkAdd(s.ghost["k"], mkInt(1))) {
			x.report(s, in, "append-place", "the entry is not appended to the entries loaded so far")
		}
		if !s.provesEq(fieldVal(e, cT, "ChunkOffset"), s.ghost["k"]) {
			x.report(s, in, "wrong-offset", "the block offset of an entry (%v) is not its position in the stream", fieldVal(e, cT, "ChunkOffset"))
		}
		w, g := fieldVal(e, cT, "WeakChecksum"), fieldVal(e, cT, "StrongChecksum")
		for _, v := range []*Term{w, g} {
			if v != nilT {
				b, _, _ := sliceParts(v)
				delete(s.facts, mkCall("unshared", boolT, b))
			}
		}
		ok := false
		switch s.auto["at"] {
		case "ws":
			ok = same(s, "weak", w, mkInt(0), weak) && same(s, "strong", g, mkInt(0), strong)
		case "both":
			ok = same(s, "entry", w, mkInt(0), weak) && same(s, "entry", g, weak, strong)
		}
		if !ok {
			x.report(s, in, "wrong-bytes", "the checksums of an entry are not exactly the weak and strong bytes read for it")
		}
		s.auto["at"] = ""
		for _, n := range []string{"weak", "strong", "entry"} {
			for _, f := range []string{".b", ".lo", ".hi", ".c"} {
				delete(s.ghost, n+f)
			}
		}
		s.ghost["k"] = mkAdd(s.ghost["k"], mkInt(1))
		s.ghost["result"] = res
		return true
	}
	for _, o := range x.enter(fn, st, args) {
		if o.kind != oRet {
			if o.kind == oPanic {
				x.report(o.st, o.at, "crash", "loading a stream can crash")
			}
			continue
		}
		s := o.st
		switch s.nilClass(o.vals[1]) {
		case 2:
			x.count("failure", o.at)
			x.cnt["failure"]++
			if s.nilClass(o.vals[0]) != 1 && !s.provesEq(lenOfArg(o.vals[0]), mkInt(0)) {
				x.report(s, o.at, "entries-with-error", "entries are returned together with an error")
			}
			if s.auto["end"] != "partial" {
				x.report(s, o.at, "spurious-failure", "an error is returned although no read failed or was cut short")
			}
		default:
			x.count("success", o.at)
			if s.auto["end"] != "clean" || s.auto["at"] != "" {
				x.report(s, o.at, "unclean-end", "success although the stream did not end exactly at an entry boundary")
			}
			if !s.provesEq(lenOfArg(o.vals[0]), s.ghost["k"]) {
				x.report(s, o.at, "lost-entries", "the number of entries returned is not the number loaded")
			}
			if rs := s.ghost["result"]; rs != nil && o.vals[0] != rs {
				x.report(s, o.at, "other-result", "what is returned is not the list of the entries loaded")
			}
		}
	}
}
