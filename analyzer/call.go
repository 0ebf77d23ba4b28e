package main

// Calls: resolution, builtins, inlining.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) mkCall(st *State, ctx *Ctx, in ssa.Instruction, cc *ssa.CallCommon) *Call {
	c := &Call{instr: in, ctx: ctx, common: cc, sig: cc.Signature(), results: cc.Signature().Results()}
	if cc.IsInvoke() {
		c.invoke = true
		c.method = cc.Method.Name()
		c.recvT = cc.Value.Type()
		c.name = cc.Method.FullName()
		c.args = append(c.args, x.val(st, ctx, cc.Value))
	} else {
		c.fnTerm = x.val(st, ctx, cc.Value)
		if f := cc.StaticCallee(); f != nil {
			c.fn = f
			c.name = f.String()
			if f.Signature.Recv() != nil {
				c.method = f.Name()
				c.recvT = f.Signature.Recv().Type()
			}
		} else if b, ok := cc.Value.(*ssa.Builtin); ok {
			c.name = "builtin:" + b.Name()
		} else {
			c.name = "dynamic"
		}
	}
	for _, a := range cc.Args {
		c.args = append(c.args, x.val(st, ctx, a))
	}
	return c
}

// resolve determines the callee in the given state.
func (x *Exec) resolve(st *State, c *Call) {
	if c.invoke {
		r := c.args[0]
		if r.kind == KIface {
			pkg := c.common.Method.Pkg()
			if f := x.p.prog.LookupMethod(r.typ, pkg, c.method); f != nil {
				c.fn = f
				c.name = f.String()
				c.recvT = r.typ
				c.args = append([]*Term{r.args[0]}, c.args[1:]...)
				c.invoke = false
				c.fnTerm = mkFunc(f)
			}
		}
		return
	}
	t := c.fnTerm
	if t == nil {
		return
	}
	if t.kind == KLoad && t.args[0].kind == KGlob {
		if g, ok := t.args[0].obj.(*ssa.Global); ok {
			if f, ok := x.p.globInit[g].(*ssa.Function); ok {
				c.fn = f
				c.name = f.String()
				c.fnTerm = mkFunc(f)
			}
		}
	}
	if t.kind == KFunc || t.kind == KClosure {
		c.fn = t.obj.(*ssa.Function)
		c.name = c.fn.String()
	}
}

func (x *Exec) call(st *State, ctx *Ctx, in *ssa.Call) []ires {
	c := x.mkCall(st, ctx, in, &in.Call)
	if strings.HasPrefix(c.name, "builtin:") {
		return x.builtin(st, ctx, in, c)
	}
	var out []ires
	for _, o := range x.doCall(st, c) {
		switch o.kind {
		case oRet:
			n := c.results.Len()
			if n == 1 {
				o.st.env[reg{ctx, in}] = o.vals[0]
			} else if n > 1 {
				o.st.env[reg{ctx, in}] = mkTuple(o.vals)
			} else {
				o.st.env[reg{ctx, in}] = mkTuple(nil)
			}
			out = append(out, ires{st: o.st})
		default:
			oo := o
			out = append(out, ires{out: &oo})
		}
	}
	return out
}

const maxDepth = 24

func (x *Exec) doCall(st *State, c *Call) []Outcome {
	cc := *c
	c = &cc
	if strings.HasPrefix(c.name, "builtin:") {
		// deferred builtins
		var outs []Outcome
		for _, r := range x.builtin(st, c.ctx, c.instr, c) {
			if r.out != nil {
				outs = append(outs, *r.out)
			} else {
				outs = append(outs, Outcome{kind: oRet, st: r.st, at: c.instr})
			}
		}
		return outs
	}
	x.resolve(st, c)
	if c.invoke && st.nilClass(c.args[0]) == 1 || !c.invoke && c.fnTerm != nil && st.nilClass(c.fnTerm) == 1 {
		if x.crash {
			x.report(st, c.instr, "may-panic", "a method or function can be called on nil here")
		}
		if x.h.NilDeref != nil {
			x.h.NilDeref(st, c.instr, c.ctx)
		}
		return []Outcome{{kind: oPanic, vals: []*Term{mkSym("nil call", nil)}, st: st, at: c.instr}}
	}
	if c.invoke && st.nilClass(c.args[0]) == 0 {
		st.assume(mkEq(c.args[0], nilT), false)
	}
	if x.h.PreCall != nil && !x.h.PreCall(st, c) {
		return nil
	}
	var res []Res
	done := false
	if x.h.Model != nil {
		res, done = x.h.Model(st, c)
	}
	if !done {
		if c.fn != nil && c.fn.Blocks != nil && (x.h.Inline == nil || x.h.Inline(c)) {
			return x.inline(st, c)
		}
		res = x.extern(st, c)
	}
	res = x.readProgress(c, res)
	var outs []Outcome
	for i := range res {
		r := &res[i]
		if r.label != "" {
			r.st.note(c.instr, "%s: %s", shortName(c.name), r.label)
		}
		if x.h.PostCall != nil && !x.h.PostCall(c, r) {
			continue
		}
		switch {
		case r.exit:
			outs = append(outs, Outcome{kind: oExit, vals: r.vals, st: r.st, at: c.instr})
		case r.pan:
			outs = append(outs, Outcome{kind: oPanic, vals: r.vals, st: r.st, at: c.instr})
		default:
			outs = append(outs, Outcome{kind: oRet, vals: r.vals, st: r.st, at: c.instr})
		}
	}
	return outs
}

func shortName(n string) string {
	n = strings.ReplaceAll(n, modPath+"/", "")
	return strings.ReplaceAll(n, modPath, "gosync")
}

func (x *Exec) inline(st *State, c *Call) []Outcome {
	fn := c.fn
	if c.ctx != nil {
		rec := 0
		for k := c.ctx; k != nil; k = k.parent {
			if k.fn == fn {
				rec++
			}
		}
		if rec > 0 || c.ctx.depth > maxDepth {
			x.undecided(c.instr, "recursive call of %s", fn)
			return nil
		}
	}
	ctx := x.mkCtx(c.ctx, c.instr, fn)
	params := fn.Params
	if len(params) != len(c.args) {
		x.undecided(c.instr, "argument mismatch calling %s", fn)
		return nil
	}
	for i, p := range params {
		st.env[reg{ctx, p}] = c.args[i]
	}
	if c.fnTerm != nil && c.fnTerm.kind == KClosure {
		for i, fv := range fn.FreeVars {
			st.env[reg{ctx, fv}] = c.fnTerm.args[i]
		}
	} else if len(fn.FreeVars) > 0 {
		for _, fv := range fn.FreeVars {
			st.env[reg{ctx, fv}] = st.fresh(fmt.Sprintf("free:%s@%d", fv.Name(), ctx.id), fv.Type())
		}
	}
	outs := x.runFunction(fn, ctx, st)
	if x.h.PostCall != nil {
		d := outs[:0]
		for _, o := range outs {
			if o.kind == oRet {
				r := &Res{st: o.st, vals: o.vals}
				if !x.h.PostCall(c, r) {
					continue
				}
				o.st, o.vals = r.st, r.vals
			}
			d = append(d, o)
		}
		outs = d
	}
	// drop duplicates
	if len(outs) > 1 {
		seen := map[string]bool{}
		d := outs[:0]
		for _, o := range outs {
			k := fmt.Sprint(o.kind)
			for _, v := range o.vals {
				k += fmt.Sprintf(",%d", v.id)
			}
			live := liveAfterCall(c)
			if live != nil {
				// keep result terms alive while collecting
				for i, v := range o.vals {
					o.st.ghost[fmt.Sprintf("$ret%d", i)] = v
				}
				x.gcAt(o.st, c.ctx, live)
				for i := range o.vals {
					delete(o.st.ghost, fmt.Sprintf("$ret%d", i))
				}
			}
			k += "/" + o.st.key()
			if !seen[k] {
				seen[k] = true
				d = append(d, o)
			}
		}
		outs = d
	}
	return outs
}

func liveAfterCall(c *Call) func(ssa.Value) bool {
	if c.instr == nil || c.ctx == nil || c.instr.Block() == nil {
		return nil
	}
	if c.isDef {
		return nil
	}
	m := liveAfter(c.instr)
	return func(v ssa.Value) bool { return m[v] || isInstrVal(c.instr, v) }
}

// ---------- builtins ----------

func (x *Exec) builtin(st *State, ctx *Ctx, in ssa.Instruction, c *Call) []ires {
	name := strings.TrimPrefix(c.name, "builtin:")
	val, _ := in.(ssa.Value)
	set := func(t *Term) []ires {
		if val == nil || c.isDef {
			return one(st)
		}
		return x.set(st, ctx, val, t)
	}
	switch name {
	case "len":
		return set(x.lenOf(st, c.args[0], c.common.Args[0].Type()))
	case "cap":
		v := c.args[0]
		t := mkCap(v)
		st.addGe(t, mkLen(v))
		return set(t)
	case "append":
		return x.doAppend(st, ctx, in, c)
	case "copy":
		return x.doCopy(st, ctx, in, c)
	case "delete":
		if x.h.MapDel != nil {
			x.h.MapDel(st, in, ctx, c.args[0])
		}
		st.epoch[c.args[0]]++
		return set(nilT)
	case "close":
		if x.h.Close != nil && !x.h.Close(st, in, ctx, c.args[0]) {
			return nil
		}
		return set(nilT)
	case "print", "println":
		return set(nilT)
	case "recover":
		if st.recov == nil {
			return set(nilT)
		}
		st.recov = nil
		v := st.fresh(x.name(ctx, in, "recovered"), c.results.At(0).Type())
		st.assume(mkEq(v, nilT), false)
		return set(v)
	case "min", "max":
		var out []ires
		for i, a := range c.args {
			n := st.clone()
			ok := true
			for k, b := range c.args {
				if k == i {
					continue
				}
				d := 0
				if k < i {
					d = 1 // strict against earlier ones: disjoint cases
				}
				if name == "min" {
					ok = ok && n.addGe(b, mkAdd(a, mkInt(int64(d))))
				} else {
					ok = ok && n.addGe(a, mkAdd(b, mkInt(int64(d))))
				}
			}
			if ok {
				n.env[reg{ctx, val}] = a
				out = append(out, ires{st: n})
			}
		}
		return out
	case "ssa:wrapnilchk":
		return set(c.args[0])
	}
	x.undecided(in, "unsupported builtin %s", name)
	return nil
}

func (x *Exec) lenOf(st *State, v *Term, t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Map:
		if v == nilT {
			return mkInt(0)
		}
		return mkCall(fmt.Sprintf("maplen#%d", st.epoch[v]), types.Typ[types.Uint], v)
	case *types.Chan:
		return mkCall("chanlen", types.Typ[types.Uint], v)
	case *types.Array:
		return mkInt(u.Len())
	case *types.Pointer:
		return mkInt(u.Elem().Underlying().(*types.Array).Len())
	}
	if st.nilClass(v) == 1 {
		return mkInt(0)
	}
	return mkLen(v)
}

// elemSummary describes all elements of the slice value v.
func (x *Exec) elemSummary(st *State, v *Term, elem types.Type, nm string) *Term {
	if v == nilT || st.nilClass(v) == 1 {
		return botT
	}
	base, _, _ := sliceParts(v)
	if st.provesEq(mkLen(v), mkInt(0)) {
		return botT
	}
	if st.hasSummary(base) || st.isFreshBase(base) {
		g := false
		for _, k := range sortedTerms(st.mem) {
			e := k
			for e.kind == KField {
				e = e.args[0]
			}
			if e.kind == KIndex && e.args[0] == base {
				g = true
			}
		}
		if g {
			st.absorb(base, elem)
		}
		if sm, ok := st.mem[mkElem(base)]; ok {
			return sm
		}
		if st.isFreshBase(base) {
			return zeroOf(elem)
		}
	}
	// unknown contents
	return mkSym("sum:"+itoa(int64(base.id))+"|elem:"+nm, elem)
}

func (x *Exec) doAppend(st *State, ctx *Ctx, in ssa.Instruction, c *Call) []ires {
	old := c.args[0]
	typ := in.(ssa.Value).Type()
	elem := typ.Underlying().(*types.Slice).Elem()
	var spread *Term
	var elems []*Term
	if len(c.args) > 1 {
		spread = c.args[1]
	}
	if st.nilClass(old) == 1 {
		old = nilT
	}
	set := func(t *Term) []ires { return x.set(st, ctx, in.(ssa.Value), t) }
	if spread == nil || spread == nilT || st.nilClass(spread) == 1 {
		return set(old)
	}
	n := mkLen(spread)
	isStr := isStringType(c.common.Args[1].Type())
	if isByteish(elem) {
		res := st.freshAlloc(x.name(ctx, in, "append"), typ)
		delete(st.epoch, res)
		var oc *Term = mkConst("none", nil)
		olo, ohi := mkInt(0), mkInt(0)
		if old != nilT {
			var ob *Term
			ob, olo, ohi = sliceParts(old)
			oc = st.contentOf(ob)
		}
		var sc *Term
		slo, shi := mkInt(0), n
		if isStr {
			sc = mkCall("string2bytes", nil, spread)
		} else {
			var sb *Term
			sb, slo, shi = sliceParts(spread)
			sc = st.contentOf(sb)
		}
		st.addEq(mkLen(res), mkAdd(mkSub(ohi, olo), n))
		st.addGe(mkCap(res), mkLen(res))
		st.addGe(n, mkInt(0))
		st.setContent(res, mkCall("bytes.append", nil, oc, olo, ohi, sc, slo, shi))
		if x.h.Append != nil && !x.h.Append(st, in, ctx, old, nil, spread, res, elem) {
			return nil
		}
		return set(res)
	}
	// literal element list?
	sb, slo, _ := sliceParts(spread)
	if k, ok := constInt(n); ok && k <= 8 {
		if lo, ok := constInt(slo); ok {
			for i := int64(0); i < k; i++ {
				elems = append(elems, st.load(mkIndex(sb, mkInt(lo+i), elem), elem))
			}
		}
	}
	// capture the elements of the old slice
	var exact []*Term
	okExact := false
	if old == nilT || st.provesEq(mkLen(old), mkInt(0)) {
		okExact = true
	} else if elems != nil {
		ob, olo, _ := sliceParts(old)
		if lo, ok := constInt(olo); ok {
			for k := int64(1); k <= 8; k++ {
				if !st.provesEq(mkLen(old), mkInt(k)) {
					continue
				}
				okExact = true
				for i := int64(0); i < k; i++ {
					a := mkIndex(ob, mkInt(lo+i), elem)
					if !st.hasCell(a, elem) {
						okExact = false
						break
					}
					exact = append(exact, st.load(a, elem))
				}
				break
			}
		}
	}
	nm := x.name(ctx, in, "append")
	var sum *Term
	if !okExact {
		sum = x.elemSummary(st, old, elem, nm)
	}
	var ssum *Term
	if elems == nil {
		ssum = x.elemSummary(st, spread, elem, nm+"s")
	}
	oldLen := mkInt(0)
	if old != nilT {
		oldLen = mkLen(old)
	}
	// protect terms across the allocation of the result
	st.ghost["$a.old"] = old
	st.ghost["$a.spread"] = spread
	for i, e := range exact {
		st.ghost[fmt.Sprintf("$a.x%d", i)] = e
	}
	for i, e := range elems {
		st.ghost[fmt.Sprintf("$a.e%d", i)] = e
	}
	if sum != nil {
		st.ghost["$a.sum"] = sum
	}
	if ssum != nil {
		st.ghost["$a.ssum"] = ssum
	}
	st.ghost["$a.ol"], st.ghost["$a.n"] = oldLen, n
	res := st.freshAlloc(nm, typ)
	delete(st.epoch, res)
	for _, k := range sortedTerms(st.mem) {
		if rootOf(k) == res {
			delete(st.mem, k)
		}
	}
	old, spread = st.ghost["$a.old"], st.ghost["$a.spread"]
	for i := range exact {
		exact[i] = st.ghost[fmt.Sprintf("$a.x%d", i)]
	}
	for i := range elems {
		elems[i] = st.ghost[fmt.Sprintf("$a.e%d", i)]
	}
	if sum != nil {
		sum = st.ghost["$a.sum"]
	}
	if ssum != nil {
		ssum = st.ghost["$a.ssum"]
	}
	oldLen, n = st.ghost["$a.ol"], st.ghost["$a.n"]
	for k := range st.ghost {
		if strings.HasPrefix(k, "$a.") {
			delete(st.ghost, k)
		}
	}
	st.addEq(mkLen(res), mkAdd(oldLen, n))
	st.addGe(oldLen, mkInt(0))
	st.addGe(n, mkInt(0))
	st.addGe(mkCap(res), mkLen(res))
	if okExact && elems != nil && len(exact)+len(elems) <= 8 {
		for i, e := range append(append([]*Term(nil), exact...), elems...) {
			st.storeRaw(mkIndex(res, mkInt(int64(i)), elem), e, elem)
		}
	} else {
		if sum == nil {
			sum = botT
			for _, e := range exact {
				sum = st.joinSummary(res, sum, e)
			}
		}
		vals := elems
		if elems == nil {
			vals = []*Term{ssum}
		}
		st.ghost["$b.res"], st.ghost["$b.old"], st.ghost["$b.spread"] = res, old, spread
		for i, e := range vals {
			st.ghost[fmt.Sprintf("$b.e%d", i)] = e
		}
		for i := range vals {
			sum = st.joinSummary(res, sum, st.ghost[fmt.Sprintf("$b.e%d", i)])
		}
		old, spread = st.ghost["$b.old"], st.ghost["$b.spread"]
		for i := range elems {
			elems[i] = st.ghost[fmt.Sprintf("$b.e%d", i)]
		}
		for k := range st.ghost {
			if strings.HasPrefix(k, "$b.") {
				delete(st.ghost, k)
			}
		}
		st.mem[mkElem(res)] = sum
	}
	if x.h.Append != nil && !x.h.Append(st, in, ctx, old, elems, spread, res, elem) {
		return nil
	}
	return set(res)
}

func (x *Exec) doCopy(st *State, ctx *Ctx, in ssa.Instruction, c *Call) []ires {
	dst, src := c.args[0], c.args[1]
	elem := c.common.Args[0].Type().Underlying().(*types.Slice).Elem()
	dl := x.lenOf(st, dst, c.common.Args[0].Type())
	sl := x.lenOf(st, src, c.common.Args[1].Type())
	var out []ires
	fin := func(n *State, cnt *Term) {
		if x.h.Copy != nil && !x.h.Copy(n, in, ctx, dst, src, cnt) {
			return
		}
		if dst != nilT {
			db, dlo, _ := sliceParts(dst)
			if isByteish(elem) {
				if x.opaqueBytes {
					db = nil
				}
				var sc *Term
				slo := mkInt(0)
				if isStringType(c.common.Args[1].Type()) {
					sc = mkCall("string2bytes", nil, src)
				} else if src == nilT {
					sc = mkConst("none", nil)
				} else {
					var sb *Term
					sb, slo, _ = sliceParts(src)
					sc = n.contentOf(sb)
				}
				if db != nil {
					n.setContent(db, mkCall("copied", nil, n.contentOf(db), dlo, sc, slo, cnt))
				}
			} else {
				n.havoc(db)
			}
		}
		if v, ok := in.(ssa.Value); ok && !c.isDef {
			n.env[reg{ctx, v}] = cnt
		}
		out = append(out, ires{st: n})
	}
	a := st.clone()
	if a.addGe(sl, dl) {
		fin(a, dl)
	}
	b := st.clone()
	if b.addGe(dl, mkAdd(sl, mkInt(1))) {
		fin(b, sl)
	}
	return out
}
