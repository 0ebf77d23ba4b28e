package main

// C25: checksums and payloads handed out are never overwritten later.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rule("C25", func(p *Prog, r *Report) {
		r.describe("Ownership of storage: a slice made on the path owns its storage; putting it into a checksum entry, sending it or returning it gives the storage away, which needs it to be owned and not given away before. On every path of the checksum generator, the loader and every range requester, each write (store, copy, append in place, read, digest) into storage that may have been given away is a violation, and what a requester returns is not kept in memory that outlives the call.")
		c25generator(p, r)
		if fn := r.anchor("chunks", "", "LoadChecksumsFromReader"); fn != nil {
			r.analyse(shortFn(fn), func(x *Exec) {
				o := newOwner(x)
				st := newState(x)
				args := x.params(fn)
				st.addGe(args[1], mkInt(1))
				st.addGe(args[2], mkInt(1))
				for _, out := range x.enter(fn, st, args) {
					if out.kind == oRet && out.vals[0] != nilT && !errNonNil(out) {
						o.give(out.st, out.at, "the list of entries", out.vals[0])
						x.count("list returned", out.at)
					}
				}
			})
		}
		for _, fn := range p.all {
			if fn.Name() == "DoRequest" && fn.Signature.Recv() != nil && fn.Blocks != nil && ownPkg(fn, "blocksources") && fn.Synthetic == "" {
				c25requester(r, fn)
			}
		}
		r.need("entry made", 2)
		r.need("list sent", 1)
		r.need("list returned", 1)
		r.need("file checksum sent", 1)
		r.need("payload returned", 2)
	})
}

type owner struct {
	x      *Exec
	chunkT types.Type
}

func newOwner(x *Exec) *owner {
	o := &owner{x: x, chunkT: x.p.namedType("chunks", "ChunkChecksum")}
	h := &x.h
	h.Alloc = func(s *State, obj *Term) { s.assume(unshared(obj), true) }
	h.Store = func(s *State, in ssa.Instruction, ctx *Ctx, addr, val *Term) bool {
		if addr.kind == KField && o.element(addr.args[0]) {
			o.write(s, in, addr.args[0].args[0])
		}
		if !o.element(addr) {
			if addr.kind == KField && isSliceVal(val) && val != nilT && o.element(addr.args[0]) {
				x.count("entry made", in)
				o.give(s, in, "a checksum of an entry", val)
			}
			return true
		}
		if ia, ok := in.(*ssa.Store).Addr.(*ssa.IndexAddr); ok {
			if al, ok := ia.X.(*ssa.Alloc); ok && al.Comment == "varargs" {
				return true
			}
		}
		o.write(s, in, addr.args[0])
		if typeKey(addr.typ) == typeKey(o.chunkT) {
			o.entry(s, in, val)
		}
		return true
	}
	h.Copy = func(s *State, in ssa.Instruction, ctx *Ctx, dst, src, n *Term) bool {
		if dst != nilT {
			b, _, _ := sliceParts(dst)
			o.write(s, in, b)
		}
		return true
	}
	h.Append = func(s *State, in ssa.Instruction, ctx *Ctx, old *Term, elems []*Term, spread, res *Term, elem types.Type) bool {
		if typeKey(elem) == typeKey(o.chunkT) {
			for _, e := range elems {
				o.entry(s, in, e)
			}
			if elems == nil {
				x.report(s, in, "append-shape", "entries of another list are appended: whose storage they are in is not known")
			}
		}
		if old == nilT || s.provesEq(mkCap(old), mkInt(0)) || s.provesEq(mkCap(old), lenOfArg(old)) {
			s.assume(unshared(res), true)
			return true
		}
		b, _, _ := sliceParts(old)
		o.write(s, in, b)
		if o.owned(s, b) {
			s.assume(unshared(res), true)
			o.drop(s, b)
		} else {
			o.drop(s, res)
		}
		return true
	}
	h.Model = func(s *State, c *Call) ([]Res, bool) {
		switch {
		case x.opKind(c) == "hash.Sum" && c.args[1] != nilT && s.nilClass(c.args[1]) != 1:
			old := c.args[1]
			if s.provesEq(mkCap(old), lenOfArg(old)) {
				return nil, false
			}
			b, lo, hi := sliceParts(old)
			o.write(s, c.instr, b)
			s.addGe(mkCall("hashsize", types.Typ[types.Uint], c.args[0]), mkInt(1))
			return []Res{{st: s, vals: []*Term{mkSlice(b, lo, mkAdd(hi, mkCall("hashsize", types.Typ[types.Uint], c.args[0])), c.results.At(0).Type())}}}, true
		case c.name == "bytes.NewBuffer":
			res := s.freshAlloc(x.name(c.ctx, c.instr, "buffer"), c.results.At(0).Type())
			x.nonNil(s, res)
			if a := c.args[0]; a != nilT && s.nilClass(a) != 1 {
				b, _, _ := sliceParts(a)
				if !o.owned(s, b) {
					o.drop(s, res)
				} else {
					o.drop(s, b)
				}
			}
			return []Res{{st: s, vals: []*Term{res}}}, true
		}
		return nil, false
	}
	h.PreCall = func(s *State, c *Call) bool {
		if c.fn != nil && c.fn.Blocks != nil && (strings.HasPrefix(pkgOfName(c.fn.String()), modPath) || c.fn.Parent() != nil) {
			return true
		}
		switch k := x.opKind(c); {
		case k == "Write" || k == "hash.Write" || k == "hash.Sum" || k == "hash.Reset" || pureFns[c.name]:
		case c.name == "(*sync.Pool).Put" || strings.HasPrefix(c.name, "(*sync.Map)."):
			for _, a := range c.args[1:] {
				if a = stripIface(a); a.kind != KConst {
					b, _, _ := sliceParts(a)
					o.drop(s, b)
				}
			}
		case c.fn == nil && !c.invoke:
			// a function value: the compression of a block
		case c.invoke && !c24writes[c.method] && !strings.HasPrefix(c.method, "Put") && k == "":
			// hashes take bytes, they do not change them
		default:
			for _, p := range readOnlyPkgs {
				if pkgOfName(c.name) == p {
					return true
				}
			}
			for _, a := range c.args {
				if !isSliceVal(a) || a == nilT {
					continue
				}
				b, _, _ := sliceParts(a)
				o.write(s, c.instr, b)
			}
		}
		return true
	}
	h.PostCall = func(c *Call, res *Res) bool {
		switch c.name {
		case "io.ReadAll", "io/ioutil.ReadAll", "bytes.Clone", "bytes.Repeat", "bytes.Join":
			if len(res.vals) > 0 && res.vals[0] != nilT {
				b, _, _ := sliceParts(res.vals[0])
				res.st.assume(unshared(b), true)
			}
		}
		return true
	}
	return o
}

// methods that fill the slice they are given
var c24writes = map[string]bool{"GetSum": true, "Read": true, "ReadAt": true}

func unshared(b *Term) *Term { return mkCall("unshared", boolT, b) }

func isSliceVal(t *Term) bool {
	if t == nil {
		return false
	}
	if t.kind == KSlice {
		return true
	}
	if t.typ == nil {
		return false
	}
	_, ok := t.typ.Underlying().(*types.Slice)
	return ok
}

// element: the address of a byte or an entry in a slice or array.
func (o *owner) element(addr *Term) bool {
	return (addr.kind == KIndex || addr.kind == KElem) && (isByteish(addr.typ) || addr.typ != nil && typeKey(addr.typ) == typeKey(o.chunkT))
}

func storage(b *Term) *Term {
	if b.kind == KCall && strings.HasPrefix(b.name, "buffer.Bytes#") {
		return rootOf(stripIface(b.args[0]))
	}
	return b
}

func (o *owner) owned(s *State, b *Term) bool {
	return s.truth(unshared(storage(b))) == 1
}

func (o *owner) drop(s *State, b *Term) { delete(s.facts, unshared(storage(b))) }

// earlier: memory that existed before and was not given away on this path.
func earlier(b *Term) bool {
	for len(b.args) > 0 {
		b = b.args[0]
	}
	return b.kind == KGlob || b.kind == KConst || b.kind == KSym && strings.HasPrefix(b.name, "arg:")
}

func (o *owner) write(s *State, in ssa.Instruction, b *Term) {
	if o.owned(s, b) || earlier(storage(b)) {
		return
	}
	o.x.report(s, in, "overwritten", "this writes into storage that may already have been handed out (%v)", b)
}

func (o *owner) give(s *State, in ssa.Instruction, what string, vals ...*Term) {
	type part struct{ b, lo, hi *Term }
	var parts []part
	for _, v := range vals {
		if v == nil || v == nilT || s.nilClass(v) == 1 {
			continue
		}
		b, lo, hi := sliceParts(v)
		shared := false
		for _, p := range parts {
			if storage(p.b) == storage(b) {
				shared = true
				if !s.provesGe(lo, p.hi) && !s.provesGe(p.lo, hi) {
					o.x.report(s, in, "overlap", "%s shares storage with another slice handed out with it", what)
				}
			}
		}
		parts = append(parts, part{b, lo, hi})
		if !shared && !o.owned(s, b) {
			o.x.report(s, in, "not-owned", "%s is handed out in storage that is not made for it alone (%v)", what, b)
		}
	}
	for _, p := range parts {
		o.drop(s, p.b)
	}
}

func (o *owner) entry(s *State, in ssa.Instruction, e *Term) {
	o.x.count("entry made", in)
	o.give(s, in, "a checksum of an entry", fieldVal(e, o.chunkT, "WeakChecksum"), fieldVal(e, o.chunkT, "StrongChecksum"))
}

// kept: storage that was given away is still reachable from memory that
// outlives the analysed code.
func (o *owner) kept(s *State, in ssa.Instruction, vals ...*Term) {
	for _, v := range vals {
		if v == nil || v == nilT {
			continue
		}
		b, _, _ := sliceParts(v)
		b = storage(b)
		for _, k := range sortedTerms(s.mem) {
			if earlier(rootOf(k)) && termHas(s.mem[k], b) {
				o.x.report(s, in, "kept", "what is handed out is also kept in %v", k)
			}
		}
	}
}

func c25generator(p *Prog, r *Report) {
	fn := r.anchor("filechecksum", "FileChecksumGenerator", "StartChecksumGeneration")
	if fn == nil {
		return
	}
	r.analyse(shortFn(fn), func(x *Exec) {
		o := newOwner(x)
		resT := p.namedType("filechecksum", "ChecksumResults")
		var gs []goStart
		x.collectGo(&gs)
		st := newState(x)
		args := x.params(fn)
		x.positiveBlockSize(st, args[0], "filechecksum", "FileChecksumGenerator")
		for _, a := range args {
			if a.typ != nil && typeKey(a.typ) == "uint" {
				st.addGe(a, mkInt(1))
				x.assumptions["results hold at least one block"] = true
			}
		}
		x.enter(fn, st, args)
		if len(gs) == 0 {
			x.report(nil, nil, "anchor", "no producer was found")
			return
		}
		x.h.Go = nil
		x.h.Send = func(s *State, in ssa.Instruction, ctx *Ctx, ch, v *Term) bool {
			if v.typ == nil || typeKey(v.typ) != typeKey(resT) {
				return true
			}
			fc, cs := fieldVal(v, resT, "Filechecksum"), fieldVal(v, resT, "Checksums")
			if cs != nil && s.nilClass(cs) != 1 {
				x.count("list sent", in)
				o.give(s, in, "a list of entries", cs)
				o.kept(s, in, cs)
			}
			if fc != nil && s.nilClass(fc) != 1 {
				x.count("file checksum sent", in)
				o.give(s, in, "the file checksum", fc)
				o.kept(s, in, fc)
			}
			return true
		}
		for _, g := range gs {
			x.runGo(g)
		}
	})
}

func c25requester(r *Report, fn *ssa.Function) {
	r.analyse(shortFn(fn), func(x *Exec) {
		o := newOwner(x)
		st := newState(x)
		args := x.params(fn)
		if len(args) == 3 {
			st.addGe(args[1], mkInt(0))
			st.addGe(args[2], args[1])
		}
		for _, out := range x.enter(fn, st, args) {
			if out.kind != oRet || errNonNil(out) || out.vals[0] == nilT {
				continue
			}
			x.count("payload returned", out.at)
			o.give(out.st, out.at, "a payload", out.vals[0])
			o.kept(out.st, out.at, out.vals[0])
		}
	})
}
