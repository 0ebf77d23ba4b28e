package main

// Bytes read from a stream, identified by their position in it, and the
// abstract data types that hold them: rolling hash and circular buffer.

import (
	"strings"
)

// streamTrack gives the bytes read from src the positions they have in it:
// ghost "rd" is the number of bytes read so far.
type streamTrack struct {
	x   *Exec
	src *Term
	// called for every read before the content changes
	before func(s *State, c *Call)
	// called for every outcome of a read: rd is already advanced
	after func(s *State, c *Call, res *Res, from, n *Term)
}

func (t *streamTrack) install(st *State) {
	x := t.x
	st.ghost["rd"] = mkInt(0)
	prevPre := x.h.PreCall
	is := func(c *Call) (src, buf *Term, ok bool) {
		if c.fn != nil && c.fn.Blocks != nil && x.p.inModule(c.fn) {
			return
		}
		switch x.opKind(c) {
		case "Read", "io.ReadFull":
			src, buf = handleOf(c.args[0]), c.args[1]
		case "io.ReadAtLeast":
			src, buf = handleOf(c.args[0]), c.args[1]
		}
		return src, buf, src != nil && src == t.src
	}
	x.h.PreCall = func(s *State, c *Call) bool {
		if _, _, ok := is(c); ok && t.before != nil {
			t.before(s, c)
		}
		return prevPre == nil || prevPre(s, c)
	}
	prev := x.h.PostCall
	x.h.PostCall = func(c *Call, res *Res) bool {
		s := res.st
		if _, buf, ok := is(c); ok {
			n, from := res.vals[0], s.ghost["rd"]
			if buf != nilT {
				b, lo, _ := sliceParts(buf)
				s.setContent(b, mkCall("stream", nil, mkSub(from, lo), mkAdd(lo, n), lo))
			}
			s.ghost["rd"] = mkAdd(from, n)
			if t.after != nil {
				t.after(s, c, res, from, n)
			}
		}
		return prev == nil || prev(c, res)
	}
}

func streamBytes(lo, hi *Term) *Term {
	return mkCall("bytesOf", nil, mkConst("the stream", nil), lo, hi)
}

func bytesLen(b *Term) *Term { return mkSub(b.args[2], b.args[1]) }

func isBytes(b *Term) bool { return b != nil && b.kind == KCall && b.name == "bytesOf" }

// follows: b starts in the same byte source where a ends.
func follows(s *State, a, b *Term) bool {
	return isBytes(a) && isBytes(b) && a.args[0] == b.args[0] && s.provesEq(a.args[2], b.args[1])
}

func emptyBytes(s *State, b *Term) bool {
	return isBytes(b) && s.provesEq(b.args[1], b.args[2])
}

var rollEmpty = mkCall("bytesOf", nil, mkConst("nobytes", nil), mkInt(0), mkInt(0))

// rolling models filechecksum.RollingHash: ghost "R" denotes the bytes its
// value is the checksum of.
type rolling struct {
	x *Exec
	// desync is told about steps that do not keep the checksum meaningful
	desync func(s *State, c *Call, format string, a ...interface{})
}

func isRolling(c *Call) bool {
	return c.recvT != nil && (strings.HasSuffix(typeKey(c.recvT), "filechecksum.RollingHash") || strings.HasSuffix(typeKey(c.recvT), "rollsum.Rollsum32Base"))
}

func (t *rolling) install() {
	x := t.x
	prevM := x.h.Model
	x.h.Model = func(s *State, c *Call) ([]Res, bool) {
		if prevM != nil {
			if r, ok := prevM(s, c); ok {
				return r, true
			}
		}
		if !isRolling(c) {
			return nil, false
		}
		R := s.ghost["R"]
		lost := func(f string, a ...interface{}) {
			if t.desync != nil {
				t.desync(s, c, f, a...)
			}
			s.ghost["R"] = s.fresh(x.name(c.ctx, c.instr, "rolling state"), nil)
		}
		add := func(v *Term) {
			b := x.bytesTerm(s, v)
			R := s.ghost["R"]
			switch {
			case emptyBytes(s, b):
			case emptyBytes(s, R) && !follows(s, R, b):
				s.ghost["R"] = b
			case follows(s, R, b):
				s.ghost["R"] = mkCall("bytesOf", nil, R.args[0], R.args[1], b.args[2])
			default:
				lost("bytes are added to the rolling checksum that do not follow the ones it holds")
			}
		}
		remove := func(v, n *Term, full *Term) {
			R := s.ghost["R"]
			if !isBytes(R) {
				lost("bytes are removed from a rolling checksum that is out of step")
				return
			}
			if full != nil && !s.provesEq(full, bytesLen(R)) {
				lost("the window length given to the rolling checksum is not that of the bytes it holds")
				return
			}
			b := x.bytesTerm(s, v)
			if emptyBytes(s, b) {
				return
			}
			if b.args[0] != R.args[0] || !s.provesEq(b.args[1], R.args[1]) || !s.provesGe(R.args[2], b.args[2]) {
				lost("bytes are removed from the rolling checksum that are not the oldest ones it holds")
				return
			}
			s.ghost["R"] = mkCall("bytesOf", nil, R.args[0], b.args[2], R.args[2])
		}
		switch c.method {
		case "SetBlock":
			s.ghost["R"] = x.bytesTerm(s, c.args[1])
		case "Reset":
			s.ghost["R"] = rollEmpty
		case "AddBytes":
			add(c.args[1])
		case "RemoveBytes":
			remove(c.args[1], nil, c.args[2])
		case "AddAndRemoveBytes":
			if !isBytes(R) || !s.provesEq(c.args[3], bytesLen(R)) {
				lost("the window length given to the rolling checksum is not that of the bytes it holds")
				break
			}
			add(c.args[1])
			if isBytes(s.ghost["R"]) {
				remove(c.args[2], nil, nil)
			}
		case "GetSum":
			if c.args[1] != nilT {
				b, lo, _ := sliceParts(c.args[1])
				if s.provesEq(lo, mkInt(0)) {
					s.setContent(b, mkCall("weaksum", nil, R))
				} else {
					s.setContent(b, s.fresh(x.name(c.ctx, c.instr, "bytes"), nil))
				}
			}
		case "Size":
			n := mkCall("rolling size", intT, c.args[0])
			s.addGe(n, mkInt(0))
			return []Res{{st: s, vals: []*Term{n}}}, true
		default:
			lost("the rolling checksum is changed by %s, which is not followed", c.method)
		}
		return []Res{{st: s}}, true
	}
}

// ring models circularbuffer.C2: ghost "W" denotes the bytes it holds, "C" its
// capacity, "E" what the last write pushed out.
type ring struct {
	x      *Exec
	desync func(s *State, c *Call, format string, a ...interface{})
}

func isC2(c *Call) bool {
	return c.recvT != nil && strings.HasSuffix(typeKey(c.recvT), "circularbuffer.C2")
}

func (t *ring) view(s *State, name string) *Term { return mkSym("c2view:"+name, byteSliceT) }

func isView(b *Term) bool { return b != nil && b.kind == KSym && strings.HasPrefix(b.name, "c2view:") }

func (t *ring) install() {
	x := t.x
	prevM := x.h.Model
	views := []string{"block", "truncated", "evicted"}
	x.h.Model = func(s *State, c *Call) ([]Res, bool) {
		if prevM != nil {
			if r, ok := prevM(s, c); ok {
				return r, true
			}
		}
		if strings.HasSuffix(c.name, "circularbuffer.MakeC2Buffer") {
			s.ghost["C"] = c.args[0]
			s.ghost["W"] = rollEmpty
			s.ghost["E"] = rollEmpty
			s.addGe(c.args[0], mkInt(1))
			v := s.freshAlloc(x.name(c.ctx, c.instr, "c2"), c.results.At(0).Type())
			return []Res{{st: s, vals: []*Term{v}}}, true
		}
		if !isC2(c) {
			return nil, false
		}
		W, C, E := s.ghost["W"], s.ghost["C"], s.ghost["E"]
		if isBytes(W) {
			s.addGe(W.args[2], W.args[1])
		}
		lost := func(f string, a ...interface{}) {
			if t.desync != nil {
				t.desync(s, c, f, a...)
			}
			s.ghost["W"] = s.fresh(x.name(c.ctx, c.instr, "window"), nil)
			s.ghost["E"] = s.fresh(x.name(c.ctx, c.instr, "evicted"), nil)
		}
		unknown := func(n int) []Res {
			vals := make([]*Term, c.results.Len())
			for i := range vals {
				vals[i] = s.fresh(x.name(c.ctx, c.instr, "r"), c.results.At(i).Type())
			}
			return []Res{{st: s, vals: vals}}
		}
		ret := func(s *State, name string, b *Term) Res {
			v := t.view(s, name)
			n := bytesLen(b)
			if b.args[0].name == "nobytes" {
				return Res{st: s, vals: []*Term{nilT}}
			}
			s.setContent(v, mkCall("stream", nil, b.args[1], n, mkInt(0)))
			s.addGe(mkLen(v), n)
			s.assume(mkEq(v, nilT), false)
			return Res{st: s, vals: []*Term{mkSlice(v, mkInt(0), n, byteSliceT)}}
		}
		switch c.method {
		case "Reset":
			s.ghost["W"], s.ghost["E"] = rollEmpty, rollEmpty
			return []Res{{st: s}}, true
		case "Write":
			b := x.bytesTerm(s, c.args[1])
			n := lenOfArg(c.args[1])
			for _, v := range views {
				if vw := t.view(s, v); s.mem[mkElem(vw)] != nil {
					s.setContent(vw, s.fresh(x.name(c.ctx, c.instr, "overwritten view"), nil))
				}
			}
			if s.provesEq(n, mkInt(0)) {
				s.ghost["E"] = rollEmpty
				return []Res{{st: s}}, true
			}
			if b.args[0].name != "the stream" {
				lost("bytes are written to the window that were not read from the stream: %v", b)
				return []Res{{st: s}}, true
			}
			if !isBytes(W) {
				return []Res{{st: s}}, true
			}
			if !s.provesGe(C, n) {
				lost("more than one block is written to the window (%v, %v)", C, n)
				return []Res{{st: s}}, true
			}
			if W == rollEmpty || emptyBytes(s, W) && !follows(s, W, b) {
				s.ghost["W"], s.ghost["E"] = b, rollEmpty
				return []Res{{st: s}}, true
			}
			if s.provesEq(n, C) {
				// everything held before is replaced
				s.ghost["W"] = b
				s.ghost["E"] = s.fresh(x.name(c.ctx, c.instr, "evicted"), nil)
				return []Res{{st: s}}, true
			}
			if !follows(s, W, b) {
				lost("bytes are written to the window that do not follow the ones it holds")
				return []Res{{st: s}}, true
			}
			var out []Res
			// no overflow
			total := mkAdd(bytesLen(W), n)
			f := s.clone()
			if f.addGe(C, total) {
				f.ghost["W"] = streamBytes(W.args[1], b.args[2])
				f.ghost["E"] = rollEmpty
				out = append(out, Res{st: f})
			}
			if s.addGe(total, mkAdd(C, mkInt(1))) {
				lo := mkSub(b.args[2], C)
				s.ghost["W"] = streamBytes(lo, b.args[2])
				s.ghost["E"] = streamBytes(W.args[1], lo)
				out = append(out, Res{st: s})
			}
			return out, true
		case "Len":
			if !isBytes(W) {
				return unknown(1), true
			}
			return []Res{{st: s, vals: []*Term{bytesLen(W)}}}, true
		case "Empty":
			if !isBytes(W) {
				return unknown(1), true
			}
			return []Res{{st: s, vals: []*Term{mkEq0(asPoly(bytesLen(W)))}}}, true
		case "GetBlock":
			if !isBytes(W) {
				return unknown(1), true
			}
			return []Res{ret(s, "block", W)}, true
		case "Evicted":
			if !isBytes(E) {
				return unknown(1), true
			}
			return []Res{ret(s, "evicted", E)}, true
		case "Truncate":
			if !isBytes(W) {
				return unknown(1), true
			}
			k := c.args[1]
			var out []Res
			f := s.clone()
			if f.addGe(bytesLen(W), k) {
				f.ghost["W"] = streamBytes(mkAdd(W.args[1], k), W.args[2])
				f.ghost["E"] = f.fresh(x.name(c.ctx, c.instr, "evicted"), nil)
				out = append(out, ret(f, "truncated", streamBytes(W.args[1], mkAdd(W.args[1], k))))
			}
			if s.addGe(k, mkAdd(bytesLen(W), mkInt(1))) {
				s.ghost["W"] = streamBytes(W.args[2], W.args[2])
				s.ghost["E"] = s.fresh(x.name(c.ctx, c.instr, "evicted"), nil)
				out = append(out, ret(s, "truncated", W))
			}
			return out, true
		}
		lost("the window is changed by %s, which is not followed", c.method)
		return unknown(1), true
	}
}
