package main

// C07: command line failures end in a non-zero exit status.

import (
	"golang.org/x/tools/go/ssa"
)

const cmdPkg = "cmd/gosync"

func init() {
	rule("C07", func(p *Prog, r *Report) {
		r.describe("Every fallible operation of the build, diff and patch commands and of the program entry (calls into the library count as one operation) is split into success and failure; a path on which one failed must end the process with a non-zero status, crash, or return a non-nil error. A call into the library may also panic, which is a failure of that step. Each of them must also have a path on which nothing fails and that ends with status zero.")
		own := func(fn *ssa.Function) bool {
			g := fn
			for g.Parent() != nil {
				g = g.Parent()
			}
			return g.Pkg != nil && g.Pkg.Pkg.Path() == modPath+"/"+cmdPkg
		}
		for _, n := range []string{"Build", "Diff", "Patch", "main"} {
			fn := r.anchor(cmdPkg, "", n)
			if fn == nil {
				continue
			}
			r.analyse(shortFn(fn), func(x *Exec) {
				ft := x.trackFailures(true, func(c *Call, res *Res) bool { return readOnlyClose(x, c, res) })
				x.h.Inline = func(c *Call) bool { return own(c.fn) }
				x.h.Model = func(st *State, c *Call) ([]Res, bool) {
					// what the library does may also panic
					if c.fn == nil || c.fn.Pkg == nil || own(c.fn) || !p.inModule(c.fn) {
						return nil, false
					}
					s := st.clone()
					e := s.fresh(x.name(c.ctx, c.instr, "panic"), nil)
					s.assume(mkEq(e, nilT), false)
					return append(x.extern(st, c), Res{st: s, vals: []*Term{e}, pan: true, label: "fail"}), true
				}
				x.h.Go = func(st *State, c *Call) bool { return true }
				outs := x.enter(fn, newState(x), x.params(fn))
				ft.checkExits(outs, "status-lost", func(o Outcome) bool {
					return o.kind == oPanic || nonZeroExit(o) || o.kind == oRet && len(o.vals) > 0 && errNonNil(o)
				}, "a path on which %s ends without an error and without a non-zero exit status")
				fine := false
				for _, o := range outs {
					if o.st.auto["failed"] != "" {
						continue
					}
					if o.kind == oExit && !nonZeroExit(o) || o.kind == oRet && !errNonNil(o) {
						x.count("successful exit", o.at)
						fine = true
					}
				}
				if !fine && len(outs) > 0 {
					x.report(outs[0].st, fn.Blocks[0].Instrs[0], "never-succeeds", "no path on which every step succeeds ends with status zero")
				}
			})
		}
		r.need("fallible operation", 8)
		r.need("failing path exit", 1)
		r.need("failure-free exit", 1)
		r.need("successful exit", 1)
	})
}
