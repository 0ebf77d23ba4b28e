package main

// C34: no operation panics.

import (
	"go/token"
	"go/types"
	"os"

	"golang.org/x/tools/go/ssa"
)

var c34contexts = append([]string{"C05", "C07", "C08", "C11", "C25", "C28"}, c33contexts...)

func init() {
	rule("C34", func(p *Prog, r *Report) {
		r.describe("Every function is analysed in the contexts in which the operations of the library and the commands reach it (functions that none of them reaches, on their own). At every index, slice, allocation and integer division the bounds must follow from the facts of the path; a reference that is nil on a path must not be used on it; a type assertion without check must hold; an explicit panic must not be reached; no entry is stored in a nil map.")
		inContexts(p, r, c34contexts, "may-panic", "bounded operation", func(sub *Report) { sub.crash = true }, func(*Report) {})
		if os.Getenv("C33ONLY") != "" {
			return
		}
		for _, f := range p.all {
			if r.fns[f.String()] {
				continue
			}
			n := 0
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if canPanic(in) {
						n++
					}
				}
			}
			if n == 0 {
				continue
			}
			if os.Getenv("VDEBUG") != "" {
				println("alone", shortFn(f))
			}
			f := f
			r.crash = true
			r.analyse(shortFn(f), func(x *Exec) {
				st := newState(x)
				args := x.params(f)
				if f.Signature.Recv() != nil && len(args) > 0 {
					x.nonNil(st, args[0])
				}
				x.calledBack(st, f, args)
				x.enter(f, st, args)
			})
			r.crash = false
		}
		r.need("bounded operation", 30)
	})
}

// calledBack: what sorting and the tree guarantee of the methods they call.
func (x *Exec) calledBack(st *State, f *ssa.Function, args []*Term) {
	if f.Signature.Recv() == nil {
		return
	}
	_, slice := args[0].typ.Underlying().(*types.Slice)
	switch {
	case slice && f.Name() == "GetStrongChecksumForBlock" && len(args) == 2:
		x.assumptions["ranges verified hold blocks of the index (C04, C16, C17)"] = true
		st.addGe(args[1], mkInt(0))
		st.addGe(mkSub(lenOfArg(args[0]), mkInt(1)), args[1])
	case slice && (f.Name() == "Less" || f.Name() == "Swap") && len(args) == 3:
		x.assumptions["sorting calls Less and Swap with positions inside the list"] = true
		for _, a := range args[1:] {
			st.addGe(a, mkInt(0))
			st.addGe(mkSub(lenOfArg(args[0]), mkInt(1)), a)
		}
	case f.Name() == "Less" && len(args) == 2:
		// whatever else is in the tree (C14)
		x.assumptions["everything in the tree of matches is a block span or a key"] = true
		x.nonNil(st, args[1])
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if a, ok := in.(*ssa.TypeAssert); ok && a.X == f.Params[1] {
					if _, isI := a.AssertedType.Underlying().(*types.Interface); isI {
						st.assume(mkCall("typeis:"+typeKey(a.AssertedType), types.Typ[types.Bool], args[1]), true)
					}
				}
			}
		}
	}
}

// canPanic: operations with bounds.
func canPanic(in ssa.Instruction) bool {
	switch in := in.(type) {
	case *ssa.IndexAddr:
		if u, ok := in.X.Type().Underlying().(*types.Pointer); ok {
			if c, ok := in.Index.(*ssa.Const); ok && c.Int64() < u.Elem().Underlying().(*types.Array).Len() {
				return false
			}
		}
		return true
	case *ssa.Slice:
		return in.Low != nil || in.High != nil
	case *ssa.MakeSlice:
		return true
	case *ssa.BinOp:
		_, c := in.Y.(*ssa.Const)
		return (in.Op == token.QUO || in.Op == token.REM) && isIntType(in.X.Type()) && !c
	case *ssa.TypeAssert:
		return !in.CommaOk
	case *ssa.Panic:
		return true
	}
	return false
}
