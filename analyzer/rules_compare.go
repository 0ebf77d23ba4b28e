package main

// C10, C11, C29, C37: the search for matching blocks.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rule("C10", func(p *Prog, r *Report) {
		r.describe("The search goroutine is analysed with the bytes of the stream identified by position. The strong lookup must be made with the digest, from a fresh hash, of exactly the window and with the result of the weak lookup for that window; every match sent must be the next entry of that lookup's result, at base offset plus position of the window; all entries are sent before the search goes on.")
		comparison(p, r, "C10")
		r.need("weak lookup", 1)
		r.need("strong lookup", 1)
		r.need("match reported", 1)
	})
	rule("C11", func(p *Prog, r *Report) {
		r.describe("The search goroutine is analysed with the bytes of the stream identified by position; window (circular buffer) and rolling checksum are tracked as ranges of positions through every write, truncation, addition and removal. Each operation must keep its range meaningful, at each lookup both ranges must be equal, and each match must be reported at the position of that range; storage of the window is never overwritten from outside.")
		comparison(p, r, "C11")
		r.need("weak lookup", 1)
		r.need("stream read", 1)
		r.need("match reported", 1)
	})
	rule("C29", func(p *Prog, r *Report) {
		r.describe("The search goroutine is analysed with every read split into data, end of stream and failure. After a failed read nothing is read any more, the last message is a non-nil error, and the goroutine ends; it ends without an error only after the end of the stream, and then reports none once a full first block was read.")
		comparison(p, r, "C29")
		r.need("stream read", 1)
		r.need("error reported", 1)
		r.need("search ended", 1)
	})
	rule("C37", func(p *Prog, r *Report) {
		r.describe("The search goroutine is analysed with the bytes of the stream identified by position and the window as a range of positions. The first window looked up must be the first block; each later one may start at most one byte after the one before, or, if a block was found for that one, at most where it ended; a window may be shorter than a block only at the end of the stream. Between two lookups the candidates of the weak lookup must have been compared. Without a failure the search may end only when the window is empty or a block was found for the last one, and the stream has ended.")
		comparison(p, r, "C37")
		r.need("weak lookup", 1)
		r.need("strong lookup", 1)
		r.need("search ended", 1)
	})
}

func comparison(p *Prog, r *Report, want string) {
	fn := r.anchor("comparer", "Comparer", "StartFindMatchingBlocks")
	if fn == nil {
		return
	}
	r.analyse(shortFn(fn), func(x *Exec) {
		args := x.params(fn)
		src, base, gen := args[1], args[2], args[3]
		st := newState(x)
		x.positiveBlockSize(st, gen, "filechecksum", "FileChecksumGenerator")
		var gs []goStart
		x.collectGo(&gs)
		var ch *Term
		for _, o := range x.enter(fn, st, args) {
			if o.kind == oRet {
				ch = o.vals[0]
			}
		}
		if ch == nil || len(gs) == 0 {
			x.report(nil, nil, "anchor", "no result stream with a producer was found")
			return
		}
		x.h.Go = nil
		resT := x.p.namedType("comparer", "BlockMatchResult")
		ccT := x.p.namedType("chunks", "ChunkChecksum")
		genT := x.p.namedType("filechecksum", "FileChecksumGenerator")
		size := st.load(fieldAddr(gen, genT, "BlockSize"), fieldType(genT, structFieldIdx(genT, "BlockSize")))
		for _, g := range gs {
			compareBody(x, want, g, ch, src, base, size, resT, ccT)
		}
	})
}

func compareBody(x *Exec, want string, g goStart, ch, src, base, size *Term, resT, ccT types.Type) {
	say := func(prop string, s *State, in ssa.Instruction, rule, f string, a ...interface{}) {
		if prop == want {
			x.report(s, in, rule, f, a...)
		}
	}
	desync := func(s *State, c *Call, f string, a ...interface{}) {
		say("C11", s, c.instr, "out-of-step", f, a...)
	}
	g.st.ghost["R"] = mkCall("bytesOf", nil, mkConst("earlier use", nil), mkSym("R.lo", intT), mkSym("R.hi", intT))
	reported := func(s *State, in ssa.Instruction) {
		if l := s.ghost["list"]; l != nil {
			if s.provesGe(lenOfArg(l), mkInt(1)) {
				s.auto["found"] = "y"
			}
			if !s.provesEq(s.ghost["k"], lenOfArg(l)) {
				say("C10", s, in, "match-dropped", "the search goes on although not every block found was reported")
			}
			delete(s.ghost, "list")
			delete(s.ghost, "k")
		}
	}
	compared := func(s *State, in ssa.Instruction) {
		if s.auto["candidates"] != "" && s.nilClass(s.ghost["weak.res"]) != 1 {
			say("C37", s, in, "not-compared", "the search goes on although the candidates for this window were not compared")
		}
	}
	next := func(s *State, in ssa.Instruction, W *Term) {
		if want != "C37" {
			return
		}
		compared(s, in)
		if W == rollEmpty {
			return
		}
		if !isBytes(W) {
			say("C37", s, in, "window-unknown", "the window looked up is not known")
			return
		}
		lo, hi := W.args[1], W.args[2]
		full := s.provesEq(mkSub(hi, lo), size)
		first := s.ghost["lo"] == nil
		switch {
		case first:
			if !full || !s.provesEq(lo, mkInt(0)) {
				say("C37", s, in, "window-skipped", "the first window looked up (%v) is not the first block", W)
			}
		case s.auto["found"] != "":
			if !s.provesGe(s.ghost["hi"], lo) {
				say("C37", s, in, "window-skipped", "the search may move on by more than the block it found, windows in between are not looked up")
			}
		case !s.provesGe(mkAdd(s.ghost["lo"], mkInt(1)), lo):
			say("C37", s, in, "window-skipped", "the search may move on by more than one byte although no block was found for the window before")
		}
		if !first && !full && (s.auto["ended"] == "" || !s.provesEq(hi, s.ghost["rd"])) {
			say("C37", s, in, "short-window", "the window may be shorter than a block before the end of the stream")
		}
		s.ghost["lo"], s.ghost["hi"] = lo, hi
		delete(s.auto, "found")
	}
	x.h.Model = nil
	(&hashTrack{x: x}).install()
	(&rolling{x: x, desync: desync}).install()
	(&ring{x: x, desync: desync}).install()
	isLookup := func(c *Call, name string) bool { return c.method == name && (c.fn == nil || c.fn.Blocks == nil) }
	// the content must be looked at before the call, which may change it
	prevPre := x.h.PreCall
	x.h.PreCall = func(s *State, c *Call) bool {
		switch {
		case isLookup(c, "FindWeakChecksum2"):
			x.count("weak lookup", c.instr)
			reported(s, c.instr)
			W, R := s.ghost["W"], s.ghost["R"]
			next(s, c.instr, W)
			b, lo, hi := sliceParts(c.args[1])
			ct := s.contentOf(b)
			if ct.kind != KCall || ct.name != "weaksum" || !s.provesEq(lo, mkInt(0)) || !s.provesEq(hi, mkLen(b)) || ct.args[0] != R && !sameBytes(s, ct.args[0], R) {
				say("C10", s, c.instr, "stale-weak", "the weak lookup is not made with the current rolling checksum")
			}
			if W == nil || !sameBytes(s, W, R) && !(emptyBytes(s, W) && emptyBytes(s, R)) {
				say("C11", s, c.instr, "out-of-step", "window (%v) and rolling checksum (%v) are not known to cover the same bytes", W, R)
			}
		case isLookup(c, "FindStrongChecksum2"):
			x.count("strong lookup", c.instr)
			reported(s, c.instr)
			delete(s.auto, "candidates")
			W := s.ghost["W"]
			okd := false
			if c.args[1] != nilT {
				b, lo, hi := sliceParts(c.args[1])
				ct := s.contentOf(b)
				if ct.kind == KCall && ct.name == "digest" && s.provesEq(lo, mkInt(0)) && s.provesEq(hi, mkLen(b)) {
					d := digestOf(ct.args[0])
					if d == nil && ct.args[0] == hashEmpty {
						d = rollEmpty
					}
					okd = d != nil && (sameBytes(s, d, W) || emptyBytes(s, d) && emptyBytes(s, W))
				}
			}
			if !okd {
				say("C09", s, c.instr, "wrong-digest", "the digest compared is not that of exactly the current window, fed once to a fresh hash")
				say("C10", s, c.instr, "wrong-digest", "the strong lookup is not made with the digest of exactly the current window")
			}
			if c.args[2] != s.ghost["weak.res"] {
				say("C10", s, c.instr, "wrong-candidates", "the strong lookup is not made with the result of the weak lookup")
			} else if s.ghost["weak.win"] != W && !sameBytes(s, s.ghost["weak.win"], W) {
				say("C10", s, c.instr, "stale-candidates", "the weak lookup whose result is used was made for another window")
			}
		}
		return prevPre == nil || prevPre(s, c)
	}
	prev := x.h.PostCall
	x.h.PostCall = func(c *Call, res *Res) bool {
		s := res.st
		switch {
		case isLookup(c, "FindWeakChecksum2"):
			s.ghost["weak.res"], s.ghost["weak.win"] = res.vals[0], s.ghost["W"]
			s.auto["candidates"] = "y"
		case isLookup(c, "FindStrongChecksum2"):
			s.ghost["list"], s.ghost["k"] = res.vals[0], mkInt(0)
		}
		return prev == nil || prev(c, res)
	}
	// at the end of an iteration the window and the checksum are expressed in
	// the same terms as far as they are known to be equal
	x.h.BackEdge = func(s *State, h *ssa.BasicBlock) bool {
		delete(s.ghost, "E")
		rd, W, R := s.ghost["rd"], s.ghost["W"], s.ghost["R"]
		if isBytes(W) && s.provesEq(W.args[2], rd) {
			W = mkCall("bytesOf", nil, W.args[0], W.args[1], rd)
			s.ghost["W"] = W
		}
		if isBytes(W) && isBytes(R) && sameBytes(s, W, R) {
			s.ghost["R"] = W
		}
		return true
	}
	tr := &streamTrack{x: x, src: src}
	tr.before = func(s *State, c *Call) {
		x.count("stream read", c.instr)
		x.cnt["stream read"]++
		reported(s, c.instr)
		if s.auto["failed"] != "" {
			say("C29", s, c.instr, "read-after-failure", "the stream is read after a failed read")
		}
		if b, _, _ := sliceParts(c.args[1]); isView(b) {
			say("C11", s, c.instr, "window-overwritten", "the stream is read into the storage of the window")
		}
	}
	tr.after = func(s *State, c *Call, res *Res, from, n *Term) {
		switch res.label {
		case "ok":
			if x.opKind(c) == "io.ReadFull" {
				s.auto["full"] = "y"
			}
		case "eof", "ueof":
			s.auto["ended"] = "y"
		default:
			s.auto["failed"] = "y"
		}
	}
	tr.install(g.st)
	x.h.Send = func(s *State, in ssa.Instruction, ctx *Ctx, c, v *Term) bool {
		if c != ch {
			return true
		}
		e := fieldVal(v, resT, "Err")
		if s.auto["reported"] != "" {
			say("C29", s, in, "after-error", "a message is sent after the error")
		}
		if s.nilClass(e) != 1 {
			x.count("error reported", in)
			s.auto["reported"] = "y"
			if s.nilClass(e) != 2 {
				say("C29", s, in, "error-unclear", "the error reported may be nil")
			}
			if s.auto["failed"] == "" && s.auto["full"] != "" {
				say("C29", s, in, "end-as-error", "an error is reported although no read failed")
			}
			return true
		}
		x.count("match reported", in)
		if s.auto["failed"] != "" {
			if l := s.ghost["list"]; l == nil {
				say("C29", s, in, "match-after-failure", "a message without an error is sent after a failed read")
			}
		}
		l := s.ghost["list"]
		if l == nil {
			say("C10", s, in, "no-lookup", "a match is reported without a strong lookup for the current window")
			return true
		}
		k := s.ghost["k"]
		idx := s.load(fieldAddr(mkIndex(l, k, ccT), ccT, "ChunkOffset"), fieldType(ccT, structFieldIdx(ccT, "ChunkOffset")))
		if b := fieldVal(v, resT, "BlockIdx"); !sameTerm(s, b, idx) {
			say("C10", s, in, "wrong-block", "the block reported (%v) is not the next one found by the lookup", b)
		}
		W := s.ghost["W"]
		if !isBytes(W) || !s.provesEq(fieldVal(v, resT, "ComparisonOffset"), mkAdd(base, W.args[1])) {
			say("C10", s, in, "wrong-offset", "the offset reported is not the base offset plus the position of the window")
			say("C11", s, in, "wrong-offset", "the offset reported is not the base offset plus the position of the window")
		}
		s.ghost["k"] = mkAdd(k, mkInt(1))
		return true
	}
	x.h.LoopKey = func(s *State) string {
		var ks []string
		for k, v := range s.ghost {
			if v == hashEmpty && strings.HasPrefix(k, "H") {
				ks = append(ks, k)
			}
		}
		if s.ghost["E"] == rollEmpty {
			ks = append(ks, "E")
		}
		sort.Strings(ks)
		return fmt.Sprint(ks)
	}
	for _, o := range x.runGo(g) {
		s := o.st
		if o.kind != oRet {
			continue
		}
		x.count("search ended", o.at)
		x.cnt["search ended"]++
		reported(s, o.at)
		switch {
		case s.auto["failed"] != "":
			if s.auto["reported"] == "" {
				say("C29", s, o.at, "error-lost", "the search ends after a failed read without reporting an error")
			}
		case s.auto["ended"] != "" && s.auto["full"] != "":
			compared(s, o.at)
			last := s.auto["found"] != "" && s.ghost["hi"] != nil && s.provesEq(s.ghost["hi"], s.ghost["rd"])
			if W := s.ghost["W"]; !last && !emptyBytes(s, W) {
				say("C37", s, o.at, "end-skipped", "the search ends although the window is not empty and no block was found at the end of the stream")
			}
		case s.auto["ended"] == "":
			say("C29", s, o.at, "ends-early", "the search ends before the end of the stream was reached")
		}
	}
}
