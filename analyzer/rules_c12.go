package main

// C12: the rolling checksum.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rule("C12", func(p *Prog, r *Report) {
		r.describe("The window checksum is (A, B) = (sum of the bytes, sum of the running sums) modulo 2^32; adding byte v gives (A+v, B+A+v), removing the oldest byte v of a window of length n gives (A-v, B-n*v). Every method that changes the checksum is analysed for every state and argument with these sums as ghost values, advanced as each byte of the arguments is read: on return the fields must equal them and every byte must have been read once, in order. The serialised value must be the low halves of A and B in little-endian order. The hash wrapper must add to the checksum exactly what it adds to its buffer and remove what the buffer pushed out, telling the right window length.")
		sumF, wgtF := c12serial(p, r)
		if sumF != "" {
			for _, m := range []string{"AddByte", "AddBytes", "RemoveByte", "RemoveBytes", "AddAndRemoveBytes", "SetBlock", "Reset"} {
				if fn := r.anchor("rollsum", "Rollsum32Base", m); fn != nil {
					r.analyse(shortFn(fn), func(x *Exec) { c12method(x, fn, sumF, wgtF) })
				}
			}
			r.need("checksum returned", 7)
		}
		if fn := r.anchor("rollsum", "Rollsum32", "Write"); fn != nil {
			r.analyse(shortFn(fn), func(x *Exec) { c12write(x, fn) })
			r.need("window written", 1)
		}
		if fn := r.anchor("rollsum", "Rollsum32", "Reset"); fn != nil {
			r.analyse(shortFn(fn), func(x *Exec) { c12reset(x, fn) })
		}
		if fn := r.anchor("rollsum", "Rollsum32", "Sum"); fn != nil {
			r.analyse(shortFn(fn), func(x *Exec) { c12sum(x, fn) })
			r.need("sum returned", 1)
		}
	})
}

type byteSrc struct {
	t *Term // nil: constant
	k int64 // byte number, or the constant
}

// byteOf: byte k of a value built by masks, shifts and sums from whole terms.
func byteOf(t *Term, k int64) (byteSrc, bool) {
	if c, ok := constInt(t); ok {
		if k < 0 || k > 7 {
			return byteSrc{nil, 0}, true
		}
		return byteSrc{nil, (c >> (8 * uint(k))) & 255}, true
	}
	if k < 0 {
		return byteSrc{nil, 0}, true
	}
	join := func(ts []byteSrc) (byteSrc, bool) {
		res := byteSrc{nil, 0}
		for _, b := range ts {
			if b == (byteSrc{nil, 0}) {
				continue
			}
			if res != (byteSrc{nil, 0}) {
				return res, false
			}
			res = b
		}
		return res, true
	}
	switch {
	case t.kind == KBin && t.name == "&":
		a, b := t.args[0], t.args[1]
		if _, ok := constInt(a); ok {
			a, b = b, a
		}
		c, ok := constInt(b)
		if !ok {
			return byteSrc{}, false
		}
		switch (c >> (8 * uint(k))) & 255 {
		case 255:
			return byteOf(a, k)
		case 0:
			return byteSrc{nil, 0}, true
		}
		return byteSrc{}, false
	case t.kind == KBin && (t.name == "|" || t.name == "^"):
		a, ok1 := byteOf(t.args[0], k)
		b, ok2 := byteOf(t.args[1], k)
		if !ok1 || !ok2 {
			return byteSrc{}, false
		}
		return join([]byteSrc{a, b})
	case t.kind == KBin && (t.name == "<<" || t.name == ">>" || t.name == "/"):
		c, ok := constInt(t.args[1])
		if !ok {
			return byteSrc{}, false
		}
		if t.name == "/" {
			n := int64(0)
			for c > 1 && c%256 == 0 {
				c, n = c/256, n+8
			}
			if c != 1 {
				return byteSrc{}, false
			}
			c = n
		}
		if c%8 != 0 {
			return byteSrc{}, false
		}
		if t.name == "<<" {
			return byteOf(t.args[0], k-c/8)
		}
		return byteOf(t.args[0], k+c/8)
	case t.kind == KBin && strings.HasPrefix(t.name, "conv:") && t.typ != nil:
		if k >= int64(intBits(t.typ))/8 {
			return byteSrc{nil, 0}, true
		}
		return byteOf(t.args[0], k)
	case t.kind == KPoly:
		var parts []byteSrc
		if c := t.poly.c; c != 0 {
			parts = append(parts, byteSrc{nil, (c >> (8 * uint(k))) & 255})
		}
		for _, m := range t.poly.terms {
			if len(m.atoms) != 1 || m.coef < 1 {
				return byteSrc{}, false
			}
			c, n := m.coef, int64(0)
			for c > 1 && c%256 == 0 {
				c, n = c/256, n+1
			}
			if c != 1 {
				return byteSrc{}, false
			}
			b, ok := byteOf(m.atoms[0], k-n)
			if !ok {
				return b, false
			}
			parts = append(parts, b)
		}
		return join(parts)
	}
	if w := intBits(t.typ); w > 0 && k >= int64(w)/8 {
		return byteSrc{nil, 0}, true
	}
	return byteSrc{t, k}, true
}

// c12serial: what GetSum writes; gives the names of the fields holding the two sums.
func c12serial(p *Prog, r *Report) (sumF, wgtF string) {
	fn := r.anchor("rollsum", "Rollsum32Base", "GetSum")
	if fn == nil {
		return
	}
	r.analyse(shortFn(fn), func(x *Exec) {
		sumF, wgtF = "", ""
		x.ringMode = true
		args := x.params(fn)
		st := newState(x)
		x.nonNil(st, args[0])
		st.addGe(mkLen(args[1]), mkInt(4))
		note := func(s *State, in ssa.Instruction, at *Term, v *Term, n int64) {
			c, ok := constInt(at)
			if !ok || c < 0 || c+n > 4 {
				x.report(s, in, "outside", "the checksum is written outside the first four bytes")
				return
			}
			for i := int64(0); i < n; i++ {
				s.ghost["byte"+itoa(c+i)] = mkCall("byteof", intT, v, mkInt(i))
			}
		}
		x.h.Model = func(s *State, c *Call) ([]Res, bool) {
			n := int64(0)
			switch c.name {
			case "(encoding/binary.littleEndian).PutUint32":
				n = 4
			case "(encoding/binary.littleEndian).PutUint16":
				n = 2
			default:
				return nil, false
			}
			b, lo, _ := sliceParts(c.args[1])
			if b == args[1] {
				note(s, c.instr, lo, c.args[2], n)
			}
			return []Res{{st: s}}, true
		}
		x.h.Store = func(s *State, in ssa.Instruction, ctx *Ctx, addr, val *Term) bool {
			if addr.kind == KIndex && addr.args[0] == args[1] {
				note(s, in, addr.args[1], val, 1)
			}
			return true
		}
		for _, o := range x.enter(fn, st, args) {
			if o.kind != oRet {
				x.report(o.st, o.at, "no-sum", "no checksum is written on some path")
				continue
			}
			x.count("checksum serialised", o.at)
			var src [4]byteSrc
			good := true
			for i := range src {
				g := o.st.ghost["byte"+itoa(int64(i))]
				if g == nil {
					good = false
					break
				}
				k, _ := constInt(g.args[1])
				b, ok := byteOf(g.args[0], k)
				if !ok || b.t == nil || b.t.kind != KLoad || b.t.args[0].kind != KField || b.t.args[0].args[0] != args[0] {
					good = false
					break
				}
				src[i] = b
			}
			if !good || src[0].t != src[1].t || src[2].t != src[3].t || src[0].t == src[2].t ||
				src[0].k != 0 || src[1].k != 1 || src[2].k != 0 || src[3].k != 1 {
				x.report(o.st, o.at, "wrong-bytes", "the four bytes written are not the low halves of the two sums in little-endian order")
				continue
			}
			sumF, wgtF = fieldName(src[0].t.args[0]), fieldName(src[2].t.args[0])
		}
	})
	r.need("checksum serialised", 1)
	for _, T := range []string{"Rollsum32Base", "Rollsum32"} {
		if fn := r.anchor("rollsum", T, "Size"); fn != nil {
			r.analyse(shortFn(fn), func(x *Exec) {
				st := newState(x)
				args := x.params(fn)
				x.nonNil(st, args[0])
				for _, o := range x.enter(fn, st, args) {
					x.count("size returned", o.at)
					if o.kind != oRet || !o.st.provesEq(o.vals[0], mkInt(4)) {
						x.report(o.st, o.at, "wrong-size", "the size returned is not that of the four bytes of a checksum")
					}
				}
			})
		}
	}
	r.need("size returned", 2)
	return
}

func c12method(x *Exec, fn *ssa.Function, sumF, wgtF string) {
	x.ringMode = true
	args := x.params(fn)
	T := derefT(args[0].typ)
	u32 := types.Typ[types.Uint32]
	st := newState(x)
	x.nonNil(st, args[0])
	get := func(s *State, f string) *Term { return s.load(fieldAddr(args[0], T, f), u32) }
	a0, b0 := get(st, sumF), get(st, wgtF)
	x.pinned[a0], x.pinned[b0] = true, true
	st.ghost["A"], st.ghost["B"] = a0, b0
	add := func(s *State, v *Term) {
		s.ghost["A"] = mkAdd(s.ghost["A"], v)
		s.ghost["B"] = mkAdd(s.ghost["B"], s.ghost["A"])
		if s.ghost["L"] != nil {
			s.ghost["L"] = mkAdd(s.ghost["L"], mkInt(1))
		}
	}
	remove := func(s *State, v *Term) {
		s.ghost["A"] = mkSub(s.ghost["A"], v)
		s.ghost["B"] = mkSub(s.ghost["B"], mkMul(s.ghost["L"], v))
		s.ghost["L"] = mkSub(s.ghost["L"], mkInt(1))
	}
	var adds, removes *Term // slices
	switch fn.Name() {
	case "AddByte":
		add(st, args[1])
	case "RemoveByte":
		st.ghost["L"] = args[2]
		remove(st, args[1])
	case "AddBytes":
		adds = args[1]
	case "RemoveBytes":
		st.ghost["L"] = args[2]
		removes = args[1]
	case "AddAndRemoveBytes":
		st.ghost["L"] = args[3]
		adds, removes = args[1], args[2]
		x.assumptions["no more bytes are removed than are added by a combined operation"] = true
		st.addGe(mkLen(adds), mkLen(removes))
	case "SetBlock":
		st.ghost["A"], st.ghost["B"] = mkInt(0), mkInt(0)
		adds = args[1]
	case "Reset":
		st.ghost["A"], st.ghost["B"] = mkInt(0), mkInt(0)
	}
	st.ghost["i"], st.ghost["j"] = mkInt(0), mkInt(0)
	elem := func(s *State, sl *Term, i *Term) *Term {
		return s.load(mkIndex(sl, i, types.Typ[types.Byte]), types.Typ[types.Byte])
	}
	x.h.IndexRd = func(s *State, in ssa.Instruction, ctx *Ctx, base, idx *Term, et types.Type) bool {
		for _, q := range []struct {
			sl  *Term
			cur string
			do  func(*State, *Term)
		}{{adds, "i", add}, {removes, "j", remove}} {
			if q.sl == nil || base != q.sl {
				continue
			}
			i := s.ghost[q.cur]
			switch {
			case s.provesEq(idx, i):
				q.do(s, elem(s, q.sl, idx))
				s.ghost[q.cur] = mkAdd(i, mkInt(1))
			case s.provesGe(i, mkAdd(idx, mkInt(1))):
			default:
				x.report(s, in, "out-of-order", "a byte is read before the ones preceding it")
			}
		}
		return true
	}
	for _, o := range x.enter(fn, st, args) {
		s := o.st
		if o.kind != oRet {
			x.report(s, o.at, "no-checksum", "the operation does not return on some path")
			continue
		}
		x.count("checksum returned", o.at)
		if adds != nil && !s.provesEq(s.ghost["i"], mkLen(adds)) {
			x.report(s, o.at, "bytes-missed", "not every byte to be added is known to have been looked at")
		}
		if removes != nil && !s.provesEq(s.ghost["j"], mkLen(removes)) {
			x.report(s, o.at, "bytes-missed", "not every byte to be removed is known to have been looked at")
		}
		if !s.provesEq(get(s, sumF), s.ghost["A"]) {
			x.report(s, o.at, "wrong-sum", "%s is not known to be the sum of the bytes in the window", sumF)
		}
		if !s.provesEq(get(s, wgtF), s.ghost["B"]) {
			x.report(s, o.at, "wrong-weighted-sum", "%s is not known to be the sum of the running sums of the window", wgtF)
		}
	}
}

// c12window: a hash whose buffer and checksum hold the last w bytes.
func c12window(x *Exec, fn *ssa.Function, args []*Term) *State {
	st := newState(x)
	x.nonNil(st, args[0])
	T := derefT(args[0].typ)
	bs := c12blockSize(x, st, args[0], T)
	x.assumptions["the window is at least one byte"] = true
	if bs != nil {
		x.pinned[bs] = true
		st.addGe(bs, mkInt(1))
	}
	rd, w := mkSym("bytes so far", intT), mkSym("window length", intT)
	for _, t := range []*Term{rd, w} {
		x.created[t], x.pinned[t] = true, true
		st.addGe(t, mkInt(0))
	}
	st.addGe(rd, w)
	st.ghost["rd"] = rd
	st.ghost["C"] = bs
	st.ghost["W"] = streamBytes(mkSub(rd, w), rd)
	st.ghost["R"] = st.ghost["W"]
	st.ghost["E"] = rollEmpty
	if bs != nil {
		st.addGe(bs, w)
	}
	return st
}

func c12blockSize(x *Exec, st *State, obj *Term, T types.Type) *Term {
	s := structOf(T)
	for i := 0; s != nil && i < s.NumFields(); i++ {
		f := mkField(obj, T, i)
		if s.Field(i).Name() == "blockSize" {
			return st.load(f, s.Field(i).Type())
		}
		if s.Field(i).Anonymous() {
			if v := c12blockSize(x, st, f, s.Field(i).Type()); v != nil {
				return v
			}
		}
	}
	return nil
}

func c12write(x *Exec, fn *ssa.Function) {
	args := x.params(fn)
	st := c12window(x, fn, args)
	if st.ghost["C"] == nil {
		x.undecided(nil, "the block size of the hash was not found")
		return
	}
	p := args[1]
	st.addGe(mkLen(p), mkInt(0))
	rd := st.ghost["rd"]
	st.setContent(p, mkCall("stream", nil, rd, mkLen(p), mkInt(0)))
	late := func(s *State, c *Call, f string, a ...interface{}) {
		x.report(s, c.instr, "out-of-step", f, a...)
	}
	(&ring{x: x, desync: late}).install()
	(&rolling{x: x, desync: late}).install()
	for _, o := range x.enter(fn, st, args) {
		s := o.st
		if o.kind != oRet {
			x.report(s, o.at, "no-return", "the write does not return on some path")
			continue
		}
		x.count("window written", o.at)
		W, R, C := s.ghost["W"], s.ghost["R"], s.ghost["C"]
		if !isBytes(W) || !isBytes(R) {
			continue // reported
		}
		end := mkAdd(rd, mkLen(p))
		if !s.provesEq(W.args[2], end) && !(emptyBytes(s, W) && s.provesEq(mkLen(p), mkInt(0))) {
			x.report(s, o.at, "buffer-behind", "the buffer does not hold the last bytes written")
		}
		w := bytesLen(st.ghost["W"])
		if n := bytesLen(W); !s.provesEq(n, C) && !s.provesEq(n, mkAdd(w, mkLen(p))) {
			x.report(s, o.at, "window-short", "the buffer holds fewer bytes than a block although more were written")
		}
		if !(emptyBytes(s, W) && emptyBytes(s, R)) && !(s.provesEq(W.args[1], R.args[1]) && s.provesEq(W.args[2], R.args[2])) {
			x.report(s, o.at, "out-of-step", "the checksum is not that of the bytes in the buffer after the write")
		}
		if len(o.vals) == 2 && (!s.provesEq(o.vals[0], mkLen(p)) || s.nilClass(o.vals[1]) != 1) {
			x.report(s, o.at, "wrong-count", "the write does not report that all bytes were taken")
		}
	}
}

func c12reset(x *Exec, fn *ssa.Function) {
	args := x.params(fn)
	st := c12window(x, fn, args)
	late := func(s *State, c *Call, f string, a ...interface{}) {}
	(&ring{x: x, desync: late}).install()
	(&rolling{x: x, desync: late}).install()
	for _, o := range x.enter(fn, st, args) {
		if o.kind != oRet {
			continue
		}
		for _, g := range []string{"W", "R"} {
			if !emptyBytes(o.st, o.st.ghost[g]) {
				x.report(o.st, o.at, "not-reset", "after a reset the window of the hash is not empty (%v)", o.st.ghost[g])
			}
		}
	}
}

// c12sum: Sum appends what GetSum writes.
func c12sum(x *Exec, fn *ssa.Function) {
	args := x.params(fn)
	st := newState(x)
	x.nonNil(st, args[0])
	b := args[1]
	before := mkConst("bytes before the sum", nil)
	st.setContent(b, before)
	x.h.Model = func(s *State, c *Call) ([]Res, bool) {
		if !isRolling(c) || c.method != "GetSum" {
			return nil, false
		}
		buf, lo, _ := sliceParts(c.args[1])
		if !s.provesGe(lenOfArg(c.args[1]), mkInt(4)) {
			x.report(s, c.instr, "short-buffer", "the checksum is written to a buffer that may be shorter than four bytes")
		}
		s.ghost["buf"], s.ghost["at"] = buf, lo
		s.setContent(buf, mkCall("sum", nil, s.contentOf(buf), lo))
		return []Res{{st: s}}, true
	}
	x.h.Append = func(s *State, in ssa.Instruction, ctx *Ctx, old *Term, elems []*Term, spread, res *Term, elem types.Type) bool {
		if spread != nil && s.ghost["buf"] != nil {
			base, lo, hi := sliceParts(spread)
			if base == s.ghost["buf"] && s.provesEq(lo, s.ghost["at"]) && s.provesEq(mkSub(hi, lo), mkInt(4)) && (old == b || old == nilT && s.nilClass(b) == 1) {
				s.ghost["appended"] = res
			}
		}
		return true
	}
	for _, o := range x.enter(fn, st, args) {
		s := o.st
		if o.kind != oRet {
			x.report(s, o.at, "no-sum", "no sum is returned on some path")
			continue
		}
		x.count("sum returned", o.at)
		v := o.vals[0]
		if v == s.ghost["appended"] {
			continue
		}
		base, lo, hi := sliceParts(v)
		if base == s.ghost["buf"] && base == b && s.provesEq(lo, mkInt(0)) && s.provesEq(s.ghost["at"], mkLen(b)) && s.provesEq(hi, mkAdd(mkLen(b), mkInt(4))) {
			continue
		}
		x.report(s, o.at, "wrong-sum", "what is returned is not the slice given followed by the four bytes of the checksum")
	}
}
