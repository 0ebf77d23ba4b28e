package main

// C15: sections searched in parallel.  Also the use made of the spans found
// (C16, callers).

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rule("C15", func(p *Prog, r *Report) {
		r.describe("The patch operation and the diff command are analysed for every size, block size and number of sections, with the end of the bytes searched so far as a ghost value. Each comparison started must read a section of the local file whose start is the base offset given to it; the first starts at zero, each later one at least a block minus one byte before the previous end; when the matches are collected the end must have reached the size of the local file (from Stat, or from a Seek to its end), not merely that of the reference.")
		for _, root := range []struct{ pkg, typ, name string }{{"", "RSync", "Patch"}, {cmdPkg, "", "Diff"}} {
			fn := r.anchor(root.pkg, root.typ, root.name)
			if fn == nil {
				continue
			}
			before := r.counts["section started"]
			r.analyse(shortFn(fn), func(x *Exec) { c15sections(x, fn, root.pkg) })
			if r.counts["section started"] == before {
				r.fail("coverage", shortFn(fn), "", "no comparison of a section was found in %s: the rule no longer covers the code it is about", shortFn(fn))
			}
		}
		r.need("matches collected", 1)
	})
}

// searchModel stands in for the comparison, the merging and their results.
func searchModel(x *Exec, s *State, c *Call) ([]Res, bool) {
	switch {
	case c.fn == nil && (c.method == "GetBlockSize" || c.method == "GetBlockCount" || c.method == "GetFileSize"):
		x.assumptions["the summary of the reference does not change while it is used"] = true
		v := mkCall("summary."+c.method, c.results.At(0).Type(), c.args[0])
		if x.crash && c.method == "GetBlockSize" {
			x.assumptions["the block size is at least one byte (C35)"] = true
			s.addGe(v, mkInt(1))
		}
		return []Res{{st: s, vals: []*Term{v}}}, true
	case c.name == "io.NewSectionReader":
		v := mkCall("section", c.results.At(0).Type(), stripIface(c.args[0]), c.args[1], c.args[2])
		s.assume(mkEq(v, nilT), false)
		return []Res{{st: s, vals: []*Term{v}}}, true
	case strings.HasSuffix(c.name, ".StartFindMatchingBlocks"):
		v := s.freshAlloc(x.name(c.ctx, c.instr, "matches"), c.results.At(0).Type())
		return []Res{{st: s, vals: []*Term{v}}}, true
	case strings.HasSuffix(c.name, ".StartMergeResultStream"):
		return []Res{{st: s}}, true
	case strings.HasSuffix(c.name, ".GetMergedBlocks"):
		v := s.fresh(x.name(c.ctx, c.instr, "spans"), c.results.At(0).Type())
		s.ghost["merged"] = v
		return []Res{{st: s, vals: []*Term{v}}}, true
	case strings.HasSuffix(c.name, ".GetMissingBlocks"):
		v := mkCall("missing", c.results.At(0).Type(), c.args[0], c.args[1])
		return []Res{{st: s, vals: []*Term{v}}}, true
	}
	return bufioModel(s, c)
}

func c15sections(x *Exec, fn *ssa.Function, pkg string) {
	genT := x.p.namedType("filechecksum", "FileChecksumGenerator")
	x.h.Go = func(st *State, c *Call) bool { return true }
	x.h.Inline = func(c *Call) bool {
		return c.fn != nil && (ownPkg(c.fn, pkg) || strings.HasSuffix(c.name, "filechecksum.NewFileChecksumGenerator"))
	}
	x.h.Model = func(s *State, c *Call) ([]Res, bool) { return searchModel(x, s, c) }
	x.h.PreCall = func(s *State, c *Call) bool {
		switch {
		case strings.HasSuffix(c.name, ".StartFindMatchingBlocks"):
			x.count("section started", c.instr)
			x.cnt["section started"]++
			rd, base := handleOf(c.args[1]), c.args[2]
			if rd == nil || rd.kind != KCall || rd.name != "section" {
				x.report(s, c.instr, "not-a-section", "a comparison is started on something that is not known to be a section of the local file")
				return true
			}
			off, n := rd.args[1], rd.args[2]
			bs := s.load(fieldAddr(c.args[3], genT, "BlockSize"), types.Typ[types.Uint])
			if s.ghost["cnt"] == nil {
				s.ghost["cnt"] = mkInt(0)
			}
			x.noteTemplates(off)
			x.noteTemplates(mkMul(s.ghost["cnt"], n))
			x.noteTemplates(mkMul(s.ghost["cnt"], bs))
			s.ghost["cnt"] = mkAdd(s.ghost["cnt"], mkInt(1))
			if !s.provesEq(off, base) {
				x.report(s, c.instr, "wrong-base", "the base offset given to the comparison is not the offset of its section")
			}
			if s.auto["started"] == "" {
				if !s.provesEq(off, mkInt(0)) {
					x.report(s, c.instr, "start-missed", "the first section is not known to start at offset zero")
				}
				s.ghost["src"] = rd.args[0]
			} else {
				if !s.provesGe(mkAdd(mkSub(s.ghost["end"], bs), mkInt(1)), off) {
					x.report(s, c.instr, "no-overlap", "a section may start later than one block minus one byte before the end of the previous one")
				}
				if s.ghost["src"] != rd.args[0] {
					x.report(s, c.instr, "other-file", "the sections are not sections of the same file")
				}
			}
			s.auto["started"] = "y"
			s.ghost["end"] = mkAdd(off, n)
		case strings.HasSuffix(c.name, ".GetMergedBlocks"):
			x.count("matches collected", c.instr)
			x.cnt["matches collected"]++
			okd := false
			for k, v := range s.ghost {
				if k == "size.Seek" && s.ghost["sought"] != s.ghost["src"] {
					continue
				}
				if strings.HasPrefix(k, "size.") && s.ghost["end"] != nil && s.provesGeProd(s.ghost["end"], v) {
					okd = true
				}
			}
			if !okd {
				x.report(s, c.instr, "end-missed", "the sections are not known to reach the end of the local file")
			}
		}
		return true
	}
	x.h.PostCall = func(c *Call, r *Res) bool {
		s := r.st
		switch {
		case c.method == "GetBlockSize" && len(r.vals) == 1:
			x.assumptions["the block size is at least one byte"] = true
			s.addGe(r.vals[0], mkInt(1))
		case c.method == "GetFileSize" && len(r.vals) == 1:
			// the size of the reference says nothing about the local file
			x.assumptions["file sizes are not negative"] = true
			s.addGe(r.vals[0], mkInt(0))
		case c.method == "Size" && len(r.vals) == 1 && c.results.At(0).Type().String() == "int64":
			x.assumptions["file sizes are not negative"] = true
			s.addGe(r.vals[0], mkInt(0))
			s.ghost["size."+c.method] = r.vals[0]
		case x.opKind(c) == "Seek":
			x.assumptions["file sizes are not negative"] = true
			s.addGe(r.vals[0], mkInt(0))
			if s.provesEq(c.args[1], mkInt(0)) && s.provesEq(c.args[2], mkInt(2)) {
				s.ghost["size.Seek"] = r.vals[0]
				s.ghost["sought"] = stripIface(c.args[0])
			}
		}
		return true
	}
	st := newState(x)
	if g := x.p.global(modPath, "DefaultConcurrency"); g != nil {
		x.assumptions["the number of parallel searches is at least one"] = true
		v := st.load(g, intT)
		x.pinned[v] = true
		st.addGe(v, mkInt(1))
	}
	x.enter(fn, st, x.params(fn))
}
