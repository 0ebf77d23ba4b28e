package main

// C39: a successful patch wrote exactly the number of bytes of the reference.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rule("C39", func(p *Prog, r *Report) {
		r.describe("RSync.Patch is analysed with the number of bytes written to the output as ghost. The operations that are given a writer may write anything, any number of times: for a writer of this module the rule proves, by analysing one call of its Write method in an arbitrary state, that what it passes on is a prefix of what it is given, that bytes are left out only if nothing is passed on afterwards, and which of its counters moves along with the number of bytes written. Where Patch returns without an error the ghost must equal the file size of the summary; where the patching starts, the number of blocks of the summary must be that of a file of this size.")
		fn := r.anchor("", "RSync", "Patch")
		if fn == nil {
			return
		}
		r.analyse(shortFn(fn), func(x *Exec) { c39(x, fn, false) })
		r.need("output handed over", 1)
		r.need("success returned", 1)
	})
}

const written39 = "written"

// c39 with healthy set looks for failures where nothing went wrong (C40).
func c39(x *Exec, fn *ssa.Function, healthy bool) {
	rsT := x.p.namedType("", "RSync")
	st, args := newState(x), x.params(fn)
	x.nonNil(st, args[0])
	outI := structFieldIdx(rsT, "Output")
	if outI < 0 {
		x.report(nil, nil, "anchor", "RSync has no Output")
		return
	}
	out := st.load(fieldAddr(args[0], rsT, "Output"), fieldType(rsT, outI))
	x.nonNil(st, out)
	st.ghost[written39] = mkInt(0)
	summary := func(m string, T types.Type) *Term {
		i := structFieldIdx(rsT, "Summary")
		return mkCall("summary."+m, T, st.load(fieldAddr(args[0], rsT, "Summary"), fieldType(rsT, i)))
	}
	size := summary("GetFileSize", types.Typ[types.Int64])
	block := summary("GetBlockSize", types.Typ[types.Uint])
	count := summary("GetBlockCount", types.Typ[types.Uint])
	x.assumptions["the block size is at least one byte and fits an int64 (C35)"] = true
	x.assumptions["a writer that reports no error wrote everything it was given, and never more"] = true
	st.addGe(block, mkInt(1))
	st.addGe(mkInt(1<<63-1), block)

	starts := []*State{st}
	if healthy {
		x.only = map[string]bool{"spurious-failure": true}
		starts = nil
		for _, exact := range []bool{true, false} {
			n := st.clone()
			n.addGe(size, mkInt(0))
			q := x.quo(n, size, block, types.Typ[types.Int64])
			rem := mkSub(size, mkMul(block, q))
			blocks := q
			if !exact {
				n.addGe(rem, mkInt(1))
				blocks = mkAdd(q, mkInt(1))
			} else {
				n.addEq(rem, mkInt(0))
			}
			n.addEq(count, blocks)
			n.addEq(mkBin("/", types.Typ[types.Int64], mkSub(mkAdd(size, block), mkInt(1)), block), blocks)
			starts = append(starts, n)
		}
	}
	isOut := func(s *State, t *Term) bool { return handleOf(t) == handleOf(out) }
	unknown := func(s *State) {
		s.ghost[written39] = s.fresh("bytes written", intT)
	}
	testing := false
	x.h.Go = func(s *State, c *Call) bool { return true }
	x.h.Inline = func(c *Call) bool { return c.fn != nil && ownPkg(c.fn, "") }
	x.h.Model = func(s *State, c *Call) ([]Res, bool) {
		if c.method == "Write" && len(c.args) == 2 && isOut(s, c.args[0]) {
			if p := s.ghost["given"]; p != nil {
				b, lo, _ := sliceParts(p)
				b2, lo2, _ := sliceParts(c.args[1])
				before := mkSub(s.ghost[written39], s.ghost["before"])
				if b != b2 || !s.provesEq(lo2, mkAdd(lo, before)) {
					x.report(s, c.instr, "other-bytes", "what is passed on to the output is not known to be the beginning of what was given to the writer")
				}
			}
			n := s.clone()
			n.ghost[written39] = mkAdd(n.ghost[written39], lenOfArg(c.args[1]))
			f := s.clone()
			k := f.fresh(x.name(c.ctx, c.instr, "n"), intT)
			f.addGe(k, mkInt(0))
			f.addGe(lenOfArg(c.args[1]), k)
			f.ghost[written39] = mkAdd(f.ghost[written39], k)
			return []Res{{st: n, vals: []*Term{lenOfArg(c.args[1]), nilT}, label: "ok"}, {st: f, vals: []*Term{k, x.mkErr(f, c, "write")}, label: "fail"}}, true
		}
		return searchModel(x, s, c)
	}
	// law describes a writer of the module: after any number of calls that
	// report no error, written + sign * field is what it was before.
	law := func(s *State, c *Call, w *Term) (field *Term, sign int64, ok bool) {
		T := derefT(w.typ)
		S := structOf(T)
		wr := findMethod(x.p, w.typ, "Write")
		if S == nil || wr == nil || wr.Blocks == nil || !x.p.inModule(wr) {
			x.report(s, c.instr, "writer-unknown", "the output is handed over in a %s, which is not known to write what it is given", typeKey(w.typ))
			return nil, 0, false
		}
		for _, m := range []string{"ReadFrom", "WriteString"} {
			if findMethod(x.p, w.typ, m) != nil {
				x.report(s, c.instr, "writer-unknown", "the writer also has the method %s, which is not analysed", m)
			}
		}
		obj := stripIface(w)
		addr := func(i int) *Term { return fieldAddr(obj, T, S.Field(i).Name()) }
		isInt := func(i int) bool {
			b, ok := S.Field(i).Type().Underlying().(*types.Basic)
			return ok && b.Info()&types.IsInteger != 0
		}
		a := s.clone()
		for i := 0; i < S.NumFields(); i++ {
			if isInt(i) {
				a.store(addr(i), a.fresh("any "+S.Field(i).Name(), S.Field(i).Type()), S.Field(i).Type())
			}
		}
		a.ghost[written39] = a.fresh("written before", intT)
		run := func(q *State) (*State, *Term, []Outcome) {
			q = q.clone()
			p := q.fresh("given", byteSliceT)
			q.ghost["given"], q.ghost["before"] = p, q.ghost[written39]
			testing = true
			defer func() { testing = false }()
			return q, p, x.doCall(q, &Call{instr: c.instr, ctx: c.ctx, fn: wr, name: wr.String(), fnTerm: mkFunc(wr), args: []*Term{obj, p}, sig: wr.Signature, results: wr.Signature.Results(), common: c.common})
		}
		type lawT struct {
			i    int
			sign int64
		}
		n := S.NumFields()
		// orders between counters that hold now
		var orders [][2]int
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				if i != j && isInt(i) && isInt(j) && s.provesGe(s.load(addr(i), S.Field(i).Type()), s.load(addr(j), S.Field(j).Type())) {
					orders = append(orders, [2]int{i, j})
				}
			}
		}
		var laws []lawT
		changed := map[int]bool{}
		for again := true; again; {
			again = false
			laws = nil
			for i := 0; i < n; i++ {
				if isInt(i) {
					laws = append(laws, lawT{i, 1}, lawT{i, -1})
				}
			}
			q := a.clone()
			for _, o := range orders {
				q.addGe(q.load(addr(o[0]), S.Field(o[0]).Type()), q.load(addr(o[1]), S.Field(o[1]).Type()))
			}
			b, p, outs := run(q)
			for _, o := range outs {
				if o.kind != oRet {
					continue
				}
				e := o.st
				for i := 0; i < n; i++ {
					if e.load(addr(i), S.Field(i).Type()) != b.load(addr(i), S.Field(i).Type()) {
						changed[i] = true
						if !isInt(i) {
							x.report(e, o.at, "writer-unknown", "the writer changes its %s", S.Field(i).Name())
							return nil, 0, false
						}
					}
				}
				if e.nilClass(o.vals[1]) == 2 {
					continue
				}
				e.assume(mkEq(o.vals[1], nilT), true)
				if healthy && !e.provesEq(o.vals[0], lenOfArg(p)) {
					x.report(e, o.at, "spurious-failure", "the writer may report no error and fewer bytes than it was given, which is taken for a failed write")
				}
				var still [][2]int
				for _, o := range orders {
					if e.provesGe(e.load(addr(o[0]), S.Field(o[0]).Type()), e.load(addr(o[1]), S.Field(o[1]).Type())) {
						still = append(still, o)
					} else {
						again = true
					}
				}
				orders = still
				var keep []lawT
				for _, l := range laws {
					T := S.Field(l.i).Type()
					before := mkAdd(b.ghost[written39], mkMul(mkInt(l.sign), b.load(addr(l.i), T)))
					after := mkAdd(e.ghost[written39], mkMul(mkInt(l.sign), e.load(addr(l.i), T)))
					if e.provesEq(before, after) {
						keep = append(keep, l)
					}
				}
				laws = keep
				if !again && !e.provesEq(mkSub(e.ghost[written39], b.ghost[written39]), lenOfArg(p)) {
					x.count("bytes left out", o.at)
					_, _, next := run(e)
					for _, u := range next {
						if u.kind == oRet && !u.st.provesEq(u.st.ghost[written39], e.ghost[written39]) {
							x.report(u.st, o.at, "gap", "the writer may leave out bytes and then pass on later ones")
						}
					}
				}
			}
		}
		if len(laws) == 0 {
			return nil, 0, false
		}
		// what does not change
		for i := 0; i < n; i++ {
			if !changed[i] {
				s.ghost["kept "+S.Field(i).Name()] = s.load(addr(i), S.Field(i).Type())
			}
		}
		for _, o := range orders {
			s.auto[fmt.Sprint("order ", o[0], " ", o[1])] = "y"
		}
		return addr(laws[0].i), laws[0].sign, true
	}
	// handed lists the writers given to an operation that is not followed.
	handed := func(s *State, c *Call) (ws []*Term) {
		if testing || c.fn != nil && x.h.Inline(c) || c.method == "Write" {
			return nil
		}
		for i, a := range c.args {
			sig := i
			if c.sig.Recv() != nil || c.invoke {
				sig--
			}
			if sig < 0 || sig >= c.sig.Params().Len() {
				continue
			}
			if m, _, _ := types.LookupFieldOrMethod(c.sig.Params().At(sig).Type(), false, nil, "Write"); m == nil {
				continue
			}
			if isOut(s, a) || a.kind == KIface {
				ws = append(ws, a)
			}
		}
		return ws
	}
	x.h.PreCall = func(s *State, c *Call) bool {
		if testing {
			return true
		}
		if strings.HasSuffix(c.name, ".SequentialPatcher") {
			q := s.clone()
			quotients(q)
			if !q.provesGeProd(mkMul(count, block), size) || !q.provesGeProd(mkSub(size, mkInt(1)), mkMul(mkSub(count, mkInt(1)), block)) {
				x.report(q, c.instr, "wrong-count", "patching starts although the number of blocks is not known to be that of a file of the size of the reference")
			}
		}
		for n, w := range handed(s, c) {
			x.count("output handed over", c.instr)
			k := fmt.Sprint("law ", n)
			delete(s.ghost, k)
			if isOut(s, w) {
				continue
			}
			f, sign, ok := law(s, c, w)
			if !ok {
				continue
			}
			// what holds before and after
			s.ghost[k] = mkAdd(s.ghost[written39], mkMul(mkInt(sign), s.load(f, addrType(f))))
			s.ghost[k+" field"], s.ghost[k+" sign"] = f, mkInt(sign)
		}
		return true
	}
	x.h.PostCall = func(c *Call, r *Res) bool {
		s := r.st
		if healthy && !testing && r.label == "fail" {
			return false
		}
		for n := range handed(s, c) {
			k := fmt.Sprint("law ", n)
			if s.ghost[k] == nil {
				unknown(s)
				continue
			}
			f := s.ghost[k+" field"]
			sign, _ := constInt(s.ghost[k+" sign"])
			obj := f.args[0]
			T := derefT(obj.typ)
			S := structOf(T)
			for i := 0; i < S.NumFields(); i++ {
				g := "kept " + S.Field(i).Name()
				if v := s.ghost[g]; v != nil {
					s.store(fieldAddr(obj, T, S.Field(i).Name()), v, S.Field(i).Type())
					delete(s.ghost, g)
				}
			}
			for i := 0; i < S.NumFields(); i++ {
				for j := 0; j < S.NumFields(); j++ {
					if a := fmt.Sprint("order ", i, " ", j); s.auto[a] != "" {
						if r.label != "fail" {
							s.addGe(s.load(fieldAddr(obj, T, S.Field(i).Name()), S.Field(i).Type()), s.load(fieldAddr(obj, T, S.Field(j).Name()), S.Field(j).Type()))
						}
						delete(s.auto, a)
					}
				}
			}
			s.ghost[written39] = mkSub(s.ghost[k], mkMul(mkInt(sign), s.load(f, addrType(f))))
			delete(s.ghost, k)
			delete(s.ghost, k+" field")
			delete(s.ghost, k+" sign")
		}
		return true
	}
	var outs []Outcome
	for _, n := range starts {
		outs = append(outs, x.enter(fn, n, args)...)
	}
	for _, o := range outs {
		if healthy && o.kind == oRet && o.st.nilClass(o.vals[0]) != 1 {
			s := o.st.clone()
			quotients(s)
			if s.addEq(s.ghost[written39], size) && s.consistent() && !infeasible(s.lin) {
				x.report(s, o.at, "spurious-failure", "the patch fails although the index fits the file size, every operation succeeded and the whole file was written")
			}
			continue
		}
		if o.kind != oRet || o.st.nilClass(o.vals[0]) == 2 {
			continue
		}
		x.count("success returned", o.at)
		o.st.assume(mkEq(o.vals[0], nilT), true)
		quotients(o.st)
		if !o.st.provesEq(o.st.ghost[written39], size) {
			x.report(o.st, o.at, "wrong-size", "success is reported although the number of bytes written is not known to be the size of the reference")
		}
	}
}

func findMethod(p *Prog, T types.Type, name string) *ssa.Function {
	sel := types.NewMethodSet(T).Lookup(nil, name)
	if sel == nil {
		return nil
	}
	return p.prog.MethodValue(sel)
}

// quotients adds what is known of the remainders of divisions whose operands
// have become known not to be negative.
func quotients(s *State) {
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			walk(a)
		}
		if t.kind == KPoly {
			t.poly.eachAtom(walk)
		}
	}
	for f := range s.facts {
		walk(f)
	}
	for _, c := range s.lin {
		c.p.eachAtom(walk)
	}
	var all []*Term
	for a := range seen {
		all = append(all, a)
	}
	sort.Slice(all, func(i, j int) bool { return all[i].id < all[j].id })
	for _, a := range all {
		if a.kind != KBin || a.name != "/" || !s.provesGe(a.args[0], mkInt(0)) || !s.provesGe(a.args[1], mkInt(1)) {
			continue
		}
		r := mkSub(a.args[0], mkMul(a, a.args[1]))
		s.addGe(a, mkInt(0))
		s.addGe(r, mkInt(0))
		s.addGe(mkSub(a.args[1], mkInt(1)), r)
		if s.truth(mkEq(r, mkInt(0))) == 0 {
			s.addGe(r, mkInt(1))
		}
	}
}
