package main

// C35: impossible settings are refused.

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rule("C35", func(p *Prog, r *Report) {
		r.describe("The commands are analysed with any flag values and any header of the gosync file. Wherever they make a checksum generator its block size must be known to be at least one byte; wherever they hand over the description of a reference its block size must be known to be at least one byte and its file size not to be negative; wherever they divide by such a setting it must be known to be at least one. A block size from the command line must be known to fit the 32 bits it is stored in.")
		own := func(fn *ssa.Function) bool {
			g := fn
			for g != nil && g.Parent() != nil {
				g = g.Parent()
			}
			return g != nil && g.Pkg != nil && g.Pkg.Pkg.Path() == modPath+"/"+cmdPkg
		}
		for _, n := range []string{"Build", "Diff", "Patch"} {
			fn := r.anchor(cmdPkg, "", n)
			if fn == nil {
				continue
			}
			r.analyse(shortFn(fn), func(x *Exec) {
				x.h.Inline = func(c *Call) bool { return own(c.fn) }
				x.h.Go = func(st *State, c *Call) bool { return true }
				x.h.Bounds = func(st *State, in ssa.Instruction, ctx *Ctx, what string, cons []Con) bool {
					if what != "division" || !own(in.Parent()) {
						return true
					}
					x.count("setting used", in)
					for _, c := range cons {
						if !entails(st.lin, c) {
							x.report(st, in, "division", "a setting that may be less than one is divided by (%v is not known to hold)", c)
						}
					}
					return true
				}
				x.h.PreCall = func(st *State, c *Call) bool {
					switch {
					case strings.HasSuffix(c.name, "filechecksum.NewFileChecksumGenerator"):
						x.count("setting used", c.instr)
						if !st.provesGe(c.args[0], mkInt(1)) {
							x.report(st, c.instr, "block-size", "checksums are made for blocks that may be empty")
						}
						if n == "Build" && !st.provesGe(mkInt(1<<32-1), c.args[0]) {
							x.report(st, c.instr, "block-size", "checksums are made for blocks of a size that does not fit 32 bits")
						}
					case c.fn != nil && !own(c.fn) && p.inModule(c.fn):
						for _, a := range c.args {
							o := stripIface(a)
							if o.kind == KStruct || o.typ == nil {
								continue
							}
							T := derefT(o.typ)
							S := structOf(T)
							if S == nil || structFieldIdx(T, "BlockSize") < 0 || structFieldIdx(T, "FileSize") < 0 {
								continue
							}
							x.count("reference described", c.instr)
							for _, f := range []struct {
								name string
								min  int64
							}{{"BlockSize", 1}, {"FileSize", 0}} {
								v := st.load(fieldAddr(o, T, f.name), fieldType(T, structFieldIdx(T, f.name)))
								if !st.provesGe(v, mkInt(f.min)) {
									x.report(st, c.instr, "reference", "the %s of the reference may be less than %d", f.name, f.min)
								}
							}
						}
					}
					return true
				}
				x.enter(fn, newState(x), x.params(fn))
			})
		}
		r.need("setting used", 3)
		r.need("reference described", 1)
	})
}
