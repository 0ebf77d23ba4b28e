package main

// C41: a file based session fetches from the reference it was given, in
// blocks of the size the index says, and verifies what it fetched against the
// index, with the hash the index is made with.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rule("C41", func(p *Prog, r *Report) {
		r.describe("MakeRSync is analysed with every file operation split into success and failure. In every session it can return, the block source is taken apart: its requester holds the reference path and neither of the file names, its resolver the block size and the file size the summary reports, its verifier (which must be present) that block size, the summary itself as the source of checksums, and a hash made by the same function as the strong hash of the generator with which indexes are written; the session keeps the summary it was given.")
		mk, gen := r.anchor("", "", "MakeRSync"), r.anchor("filechecksum", "", "NewFileChecksumGenerator")
		if mk == nil || gen == nil {
			return
		}
		r.analyse("session set-up", func(x *Exec) { c41(x, mk, gen) })
		r.need("session set up", 1)
		r.need("requester", 1)
		r.need("resolver", 1)
		r.need("verifier", 1)
	})
}

func c41(x *Exec, mk, gen *ssa.Function) {
	x.unroll = 6
	x.h.Model = func(s *State, c *Call) ([]Res, bool) {
		switch c.method {
		case "GetBlockSize", "GetFileSize", "GetBlockCount":
			if c.fn == nil && c.results.Len() == 1 {
				v := mkCall("summary "+c.method, c.results.At(0).Type(), stripIface(c.args[0]))
				x.pinned[v] = true
				s.addGe(v, mkInt(0))
				return []Res{{st: s, vals: []*Term{v}}}, true
			}
		}
		if r, ok := hashKinds(s, c); ok {
			return r, true
		}
		return bufioModel(s, c)
	}
	outs, args := makeSession(x, mk, "blocksources", "filechecksum")
	// the hash of the indexes
	var hash *Term
	inl := x.h.Inline
	x.h.Inline = func(c *Call) bool { return c.fn != nil && (c24inline(c) || inl(c)) }
	genT := x.p.namedType("filechecksum", "FileChecksumGenerator")
	gs := newState(x)
	for _, o := range x.enter(gen, gs, x.params(gen)) {
		if o.kind == oRet {
			if h := o.st.load(fieldAddr(o.vals[0], genT, "StrongHash"), fieldType(genT, structFieldIdx(genT, "StrongHash"))); h != nil && h.kind == KCall && strings.HasPrefix(h.name, "hash by ") {
				hash = h
			}
		}
	}
	x.h.Inline = inl
	if hash == nil {
		x.report(gs, gen.Blocks[0].Instrs[0], "hash-unknown", "the strong hash of the generator is not known")
		return
	}
	rsT := x.p.namedType("", "RSync")
	in, ref, out, sum := args[0], args[1], args[2], args[3]
	for _, o := range outs {
		s := o.st
		if o.kind != oRet || s.nilClass(o.vals[0]) != 2 || s.nilClass(o.vals[1]) != 1 {
			continue
		}
		x.count("session set up", o.at)
		ld := func(ptr *Term, t types.Type, f string) *Term {
			a := fieldAddr(ptr, t, f)
			if a == nil {
				return nil
			}
			return s.load(a, fieldType(t, structFieldIdx(t, f)))
		}
		bad := func(k, f string, a ...interface{}) { x.report(s, o.at, k, f, a...) }
		// the parts of the source behind an interface: pointer and struct type
		part := func(v *Term) (*Term, types.Type) {
			if v == nil || v.kind != KIface || s.nilClass(v.args[0]) == 1 {
				return nil, nil
			}
			if pt, ok := v.typ.Underlying().(*types.Pointer); ok && structOf(pt.Elem()) != nil {
				return v.args[0], pt.Elem()
			}
			return nil, nil
		}
		if v := ld(o.vals[0], rsT, "Summary"); v == nil || stripIface(v) != stripIface(sum) {
			bad("other-summary", "the session does not keep the summary it was given")
		}
		src, srcT := part(ld(o.vals[0], rsT, "Source"))
		if src == nil {
			bad("source", "the block source of the session is not known")
			continue
		}
		bs := mkCall("summary GetBlockSize", types.Typ[types.Uint], stripIface(sum))
		fs := mkCall("summary GetFileSize", types.Typ[types.Int64], stripIface(sum))
		eq := func(v, w *Term) bool { return v != nil && (v == w || s.provesEq(v, w)) }
		seen := map[string]bool{}
		for _, f := range []string{"Requester", "BlockSourceResolver", "Verifier"} {
			q, qt := part(ld(src, srcT, f))
			if q == nil {
				bad("no-"+strings.ToLower(f), "the %s of the block source is missing or not known", f)
				continue
			}
			switch f {
			case "Requester":
				x.count("requester", o.at)
				st := structOf(qt)
				for i := 0; i < st.NumFields(); i++ {
					if b, ok := st.Field(i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
						v := ld(q, qt, st.Field(i).Name())
						switch {
						case v == nil:
						case v.contains(in) || v.contains(out):
							bad("other-reference", "blocks are requested from a path other than the reference: %v", v)
						case v.contains(ref):
							seen["ref"] = true
						}
					}
				}
				if !seen["ref"] {
					bad("other-reference", "the requester of the block source does not know the reference path")
				}
			case "BlockSourceResolver":
				x.count("resolver", o.at)
				if v := ld(q, qt, "BlockSize"); !eq(v, bs) {
					bad("block-size", "the block size with which offsets in the reference are computed is not that of the summary: %v", v)
				}
				if v := ld(q, qt, "FileSize"); !eq(v, fs) {
					bad("file-size", "the file size with which offsets in the reference are computed is not that of the summary: %v", v)
				}
			case "Verifier":
				x.count("verifier", o.at)
				if v := ld(q, qt, "BlockSize"); !eq(v, bs) {
					bad("verified-block-size", "the block size with which fetched data is verified is not that of the summary: %v", v)
				}
				if v := ld(q, qt, "Hash"); v == nil || stripIface(v) != stripIface(hash) {
					bad("other-hash", "fetched data is verified with %v, indexes are made with %v", v, hash)
				}
				if v := ld(q, qt, "BlockChecksumGetter"); v == nil || stripIface(v) != stripIface(sum) {
					bad("other-checksums", "fetched data is not verified against the checksums of the summary")
				}
			}
		}
	}
}
