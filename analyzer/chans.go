package main

// Which channels may be closed while somebody receives from them: channels
// are put into classes by everything that passes one on, without regard to
// the order of statements.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type chanClasses struct {
	parent map[interface{}]interface{}
	closes map[interface{}][]*ssa.Function // class: functions that close it when they end; nil entry: any time
	ext    map[interface{}]bool
}

var chanInfo = map[*Prog]*chanClasses{}

func (c *chanClasses) find(k interface{}) interface{} {
	for {
		p, ok := c.parent[k]
		if !ok || p == k {
			return k
		}
		if g, ok := c.parent[p]; ok {
			c.parent[k] = g
		}
		k = p
	}
}

func (c *chanClasses) union(a, b interface{}) {
	a, b = c.find(a), c.find(b)
	if a != b {
		c.parent[a] = b
	}
}

type chanKey string

func isChanish(t types.Type) bool {
	if t == nil {
		return false
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return isChanish(p.Elem())
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func classesOf(p *Prog) *chanClasses {
	if c := chanInfo[p]; c != nil {
		return c
	}
	c := &chanClasses{parent: map[interface{}]interface{}{}, closes: map[interface{}][]*ssa.Function{}, ext: map[interface{}]bool{}}
	chanInfo[p] = c
	external := chanKey("external")
	type closing struct {
		v  ssa.Value
		fn *ssa.Function
	}
	var cl []closing
	ret := func(f *ssa.Function, i int) chanKey { return chanKey(fmt.Sprintf("ret:%s:%d", f, i)) }
	deferredIn := map[*ssa.Function]*ssa.Function{} // closure -> function that only defers it
	for _, f := range p.all {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					only := true
					for _, r := range *mc.Referrers() {
						if d, ok := r.(*ssa.Defer); !ok || d.Call.Value != mc {
							only = false
						}
					}
					if only {
						deferredIn[mc.Fn.(*ssa.Function)] = f
					}
				}
			}
		}
	}
	for _, f := range p.all {
		if ob := f.Object(); ob != nil && ob.Exported() && f.Parent() == nil {
			for _, q := range f.Params {
				if isChanish(q.Type()) {
					c.union(q, external)
				}
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				v, _ := in.(ssa.Value)
				ch := v != nil && isChanish(v.Type())
				switch in := in.(type) {
				case *ssa.Phi:
					if ch {
						for _, e := range in.Edges {
							c.union(in, e)
						}
					}
				case *ssa.UnOp:
					if ch {
						c.union(in, in.X)
					}
				case *ssa.ChangeType:
					if ch {
						c.union(in, in.X)
					}
				case *ssa.Store:
					if isChanish(in.Val.Type()) {
						c.union(in.Addr, in.Val)
					}
				case *ssa.FieldAddr:
					if ch {
						c.union(in, chanKey(fmt.Sprintf("%s.%d", typeKey(derefT(in.X.Type())), in.Field)))
					}
				case *ssa.Field:
					if ch {
						c.union(in, chanKey(fmt.Sprintf("%s.%d", typeKey(in.X.Type()), in.Field)))
					}
				case *ssa.IndexAddr, *ssa.Index, *ssa.Lookup, *ssa.Extract, *ssa.TypeAssert, *ssa.Convert:
					if ch {
						if e, ok := in.(*ssa.Extract); ok {
							if call, ok := e.Tuple.(*ssa.Call); ok && call.Call.StaticCallee() != nil && p.inModule(call.Call.StaticCallee()) {
								c.union(e, ret(call.Call.StaticCallee(), e.Index))
								continue
							}
						}
						c.union(v, external)
					}
				case *ssa.MakeInterface:
					if isChanish(in.X.Type()) {
						c.union(in.X, external)
					}
				case *ssa.MapUpdate:
					if isChanish(in.Value.Type()) {
						c.union(in.Value, external)
					}
				case *ssa.Send:
					if isChanish(in.X.Type()) {
						c.union(in.X, external)
					}
				case *ssa.MakeClosure:
					for i, fv := range in.Fn.(*ssa.Function).FreeVars {
						if isChanish(fv.Type()) {
							c.union(fv, in.Bindings[i])
						}
					}
				case *ssa.Return:
					for i, r := range in.Results {
						if isChanish(r.Type()) {
							c.union(r, ret(f, i))
						}
					}
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					cc := ci.Common()
					if bi, ok := cc.Value.(*ssa.Builtin); ok {
						if bi.Name() == "close" {
							var w *ssa.Function
							if _, ok := in.(*ssa.Defer); ok {
								w = f
							} else {
								w = deferredIn[f]
							}
							cl = append(cl, closing{cc.Args[0], w})
						}
						continue
					}
					callee := cc.StaticCallee()
					if callee != nil && callee.Blocks != nil && p.inModule(callee) {
						for i, a := range cc.Args {
							if isChanish(a.Type()) && i < len(callee.Params) {
								c.union(a, callee.Params[i])
							}
						}
						if ch {
							c.union(v, ret(callee, 0))
						}
					} else {
						for _, a := range cc.Args {
							if isChanish(a.Type()) {
								c.union(a, external)
							}
						}
						if ch {
							c.union(v, external)
						}
					}
				}
			}
		}
	}
	for _, k := range cl {
		r := c.find(k.v)
		c.closes[r] = append(c.closes[r], k.fn)
	}
	c.ext[c.find(external)] = true
	return c
}

// mayClose: v may be closed while a function called in ctx receives from it.
func (x *Exec) mayClose(v ssa.Value, ctx *Ctx) bool {
	c := classesOf(x.p)
	r := c.find(v)
	if c.ext[r] {
		return true
	}
	for _, f := range c.closes[r] {
		running := false
		for k := ctx; k != nil && f != nil; k = k.parent {
			if k.fn == f {
				running = true
			}
		}
		if !running {
			return true
		}
	}
	return false
}
