package main

// C31: a block source delivers every range asked for once, the lowest first.
//
// The lists the source goroutine keeps are followed by the terms that stand
// for them: the ranges queued (Q), the start blocks of the requests that were
// made and not yet answered to the consumer (RO), and the responses received
// and not yet delivered (RS). What is said of the smallest start block in RO
// and RS holds because every change of the lists is accounted for: a change
// that is not one of those the protocol consists of leaves the lists unknown,
// and what depends on them is reported.

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rule("C31", func(p *Prog, r *Report) {
		r.describe("The source goroutine is analysed while it is running, with ghost values for the list of ranges queued, the list of start blocks asked for and the list of responses kept. Every split result must be queued as a whole, every range taken off the queue must be the one requested, every successful result must be kept, and every response sent must be taken off both lists and no other. A response sent must be the lowest of those outstanding, and whenever the source waits while the lowest outstanding response has arrived, it must offer it.")
		sourceLoop(p, r, "C31")
		r.need("ranges queued", 1)
		r.need("request taken", 1)
		r.need("response kept", 1)
		r.need("response sent", 1)
		r.need("wait", 1)
	})
}

type src31 struct {
	l      *srcLoop
	x      *Exec
	first  *Term // of the request goroutine analysed last
	reqT   types.Type
	rspT   types.Type
	header *ssa.Function
}

func (k *src31) rep(s *State, in ssa.Instruction, rule, f string, a ...interface{}) {
	k.x.report(s, in, rule, f, a...)
}

// drop: nothing is demanded once the source has been stopped.
func (k *src31) drop(s *State) {
	for _, g := range []string{"Q", "RO", "RS", "ROm", "RSm", "ROn", "RSn", "spl", "splk", "li", "lv", "rof", "resp"} {
		delete(s.ghost, "31"+g)
	}
	for _, a := range []string{"Q", "RO", "RS", "ro", "spl", "rs", "due"} {
		delete(s.auto, "31"+a)
	}
}

func (k *src31) running(s *State) bool {
	if s.auto["stopped"] != "" {
		k.drop(s)
		return false
	}
	return true
}

// is: the slice is the list of that role as it is now.
func (k *src31) is(s *State, role string, v *Term) bool {
	L := s.ghost["31"+role]
	if L == nil {
		return s.auto["31"+role] == "" && (v == nilT || s.provesEq(lenOfArg(v), mkInt(0)))
	}
	if L == v {
		return true
	}
	if v == nilT {
		return false
	}
	a, alo, ahi := sliceParts(L)
	b, blo, bhi := sliceParts(v)
	return a == b && s.provesEq(alo, blo) && s.provesEq(ahi, bhi)
}

func (k *src31) empty(s *State, role string) bool {
	L := s.ghost["31"+role]
	if L == nil {
		return s.auto["31"+role] == ""
	}
	return s.provesEq(lenOfArg(L), mkInt(0))
}

func (k *src31) length(s *State, role string) *Term {
	if L := s.ghost["31"+role]; L != nil {
		return lenOfArg(L)
	}
	if s.auto["31"+role] == "" {
		return mkInt(0)
	}
	return nil
}

// lost: the list is not what the protocol makes it any more.
func (k *src31) lost(s *State, role string) {
	k.forget(s)
	for _, g := range []string{"", "m", "n"} {
		delete(s.ghost, "31"+role+g)
	}
	s.auto["31"+role] = "lost"
}

// low: where the smallest start block of a sorted list is.
func (k *src31) low(s *State, role string) (base, idx *Term) {
	L := s.ghost["31"+role]
	if L == nil {
		return nil, nil
	}
	b, lo, hi := sliceParts(L)
	switch s.auto["31"+role] {
	case "asc":
		return b, lo
	case "desc":
		return b, mkSub(hi, mkInt(1))
	}
	return nil, nil
}

// pop: the list without its lowest element.
func (k *src31) pop(s *State, role string) {
	L := s.ghost["31"+role]
	if L == nil {
		k.lost(s, role)
		return
	}
	b, lo, hi := sliceParts(L)
	T := L.typ
	switch s.auto["31"+role] {
	case "asc":
		s.ghost["31"+role] = mkSlice(b, mkAdd(lo, mkInt(1)), hi, T)
	case "desc":
		s.ghost["31"+role] = mkSlice(b, lo, mkSub(hi, mkInt(1)), T)
	default:
		k.lost(s, role)
	}
}

func (k *src31) startOf(v *Term) *Term {
	switch {
	case v == nil || v.typ == nil:
		return nil
	case isIntType(v.typ):
		return v
	case typeKey(v.typ) == typeKey(k.rspT):
		return fieldVal(v, k.rspT, "StartBlock")
	case k.reqT != nil && typeKey(v.typ) == typeKey(k.reqT):
		return fieldVal(v, k.reqT, "StartBlockID")
	}
	return nil
}

func (k *src31) elemStart(s *State, elem types.Type, addr *Term) *Term {
	switch {
	case isIntType(elem):
		return s.load(addr, elem)
	case typeKey(elem) == typeKey(k.rspT):
		return s.load(fieldAddr(addr, k.rspT, "StartBlock"), fieldType(k.rspT, structFieldIdx(k.rspT, "StartBlock")))
	case k.reqT != nil && typeKey(elem) == typeKey(k.reqT):
		return s.load(fieldAddr(addr, k.reqT, "StartBlockID"), fieldType(k.reqT, structFieldIdx(k.reqT, "StartBlockID")))
	}
	return nil
}

func (k *src31) append(s *State, in ssa.Instruction, old *Term, elems []*Term, spread, res *Term, elem types.Type) {
	if !k.running(s) {
		return
	}
	// the ranges of a request
	if spl := s.ghost["31spl"]; spl != nil && k.reqT != nil && typeKey(elem) == typeKey(k.reqT) {
		switch {
		case !k.is(s, "Q", old):
			k.rep(s, in, "queue-replaced", "the ranges of a request are not added to the ranges queued before")
		case elems == nil && spread == spl && s.provesEq(s.ghost["31splk"], mkInt(0)):
			s.ghost["31splk"] = lenOfArg(spl)
		case len(elems) == 1 && s.ghost["31li"] != nil && s.provesEq(s.ghost["31li"], s.ghost["31splk"]) && sameTerm(s, k.startOf(elems[0]), s.ghost["31lv"]):
			s.ghost["31splk"] = mkAdd(s.ghost["31splk"], mkInt(1))
		default:
			k.rep(s, in, "other-ranges", "what is queued is not the ranges the request was split into, each once")
		}
		k.x.count("ranges queued", in)
		s.ghost["31Q"] = res
		s.auto["31Q"] = "unsorted"
		return
	}
	if len(elems) != 1 {
		for _, role := range []string{"Q", "RO", "RS"} {
			if s.ghost["31"+role] != nil && k.is(s, role, old) {
				k.rep(s, in, "list-changed", "a list of the source is extended by something other than what was just received or requested")
				k.lost(s, role)
			}
		}
		return
	}
	e := k.startOf(elems[0])
	switch {
	case e == nil:
	case typeKey(elem) == typeKey(k.rspT):
		if !k.is(s, "RS", old) {
			k.rep(s, in, "responses-replaced", "a response is not added to the responses kept before")
			return
		}
		k.x.count("response kept", in)
		if s.auto["31rs"] == "" {
			k.rep(s, in, "kept-twice", "something other than the result just received is kept as a response")
		} else if !sameTerm(s, e, s.ghost["31resp"]) {
			k.rep(s, in, "other-response", "the response kept is not for the start block of the result received")
		}
		delete(s.auto, "31rs")
		delete(s.ghost, "31resp")
		k.added(s, "RS", e, res)
	case isIntType(elem):
		if s.ghost["31RO"] == nil && typeKey(elem) != "uint" || !k.is(s, "RO", old) {
			if s.auto["31ro"] == "go" && sameTerm(s, e, s.ghost["31rof"]) {
				k.rep(s, in, "requests-replaced", "the start block of a request is not added to the list of those before")
			}
			return
		}
		switch s.auto["31ro"] {
		case "go":
			if !sameTerm(s, e, s.ghost["31rof"]) {
				k.rep(s, in, "other-start", "the start block recorded is not that of the request started")
			}
			delete(s.auto, "31ro")
			delete(s.ghost, "31rof")
		case "":
			s.auto["31ro"], s.ghost["31rof"] = "added", e
		default:
			k.rep(s, in, "recorded-twice", "the start block of a request may be recorded more than once")
		}
		k.added(s, "RO", e, res)
	}
}

func (k *src31) at(list, i *Term, elem types.Type) *Term {
	b, lo, _ := sliceParts(list)
	return mkIndex(b, mkAdd(lo, i), elem)
}

func (k *src31) added(s *State, role string, e, res *Term) {
	if s.ghost["31"+role+"n"] != nil {
		// two since the list was sorted
		k.forget(s)
		delete(s.ghost, "31"+role+"m")
		s.auto["31"+role] = "lost"
		s.ghost["31"+role] = res
		return
	}
	s.ghost["31"+role] = res
	s.ghost["31"+role+"n"] = e
	s.auto["31"+role] = "unsorted"
}

// sorted: the list was put in order. What the smallest element is depends on
// the one added since.
func (k *src31) sorted(s *State, role, order string) []Res {
	if s.auto["31"+role] == "lost" {
		return []Res{{st: s}}
	}
	s.auto["31"+role] = order
	if role == "Q" {
		return []Res{{st: s}}
	}
	e := s.ghost["31"+role+"n"]
	if e == nil {
		return []Res{{st: s}}
	}
	delete(s.ghost, "31"+role+"n")
	k.forget(s)
	n := mkSub(lenOfArg(s.ghost["31"+role]), mkInt(1))
	m := s.ghost["31"+role+"m"]
	var out []Res
	one := s.clone()
	if one.addEq(n, mkInt(0)) {
		one.ghost["31"+role+"m"] = e
		if k.facts(one) {
			out = append(out, Res{st: one, label: "the only one"})
		}
	}
	more := s.clone()
	if m == nil || !more.addGe(n, mkInt(1)) {
		if len(out) == 0 || m == nil && s.provesEq(n, mkInt(0)) {
			return out
		}
		if m == nil && s.addGe(n, mkInt(1)) {
			k.lost(s, role)
			out = append(out, Res{st: s})
		}
		return out
	}
	lower := more.clone()
	if more.addGe(e, m) && k.facts(more) {
		out = append(out, Res{st: more, label: "not the lowest"})
	}
	if lower.addGe(m, mkAdd(e, mkInt(1))) {
		lower.ghost["31"+role+"m"] = e
		if k.facts(lower) {
			out = append(out, Res{st: lower, label: "the lowest"})
		}
	}
	return out
}

// refresh: the relation between the lowest response and the lowest request
// that paths were told apart by.
func (k *src31) refresh(s *State) {
	a, m := s.ghost["31RSm"], s.ghost["31ROm"]
	switch s.auto["31due"] {
	case "due":
		s.addEq(a, m)
	case "later":
		s.addGe(a, mkAdd(m, mkInt(1)))
	default:
		// responses are for blocks that were asked for
		if a != nil && m != nil {
			s.addGe(a, m)
		}
	}
}

// forget is called before one of the two changes.
func (k *src31) forget(s *State) {
	k.refresh(s)
	delete(s.auto, "31due")
}

// facts: what holds of lists all changes of which were accounted for.
func (k *src31) facts(s *State) bool {
	ro, rs := k.length(s, "RO"), k.length(s, "RS")
	if ro != nil && rs != nil && !s.addGe(ro, rs) {
		return false
	}
	return true
}

// order: how a sorted list is ordered by what the sort was told.
func (k *src31) order(st *State, c *Call, elem types.Type) (list *Term, order string) {
	x := k.x
	v := c.args[0]
	rev := false
	for {
		if v.kind == KIface && v.args[0].kind == KCall && v.args[0].name == "sort.Reverse" {
			v = v.args[0]
			continue
		}
		if v.kind == KCall && v.name == "sort.Reverse" {
			rev = !rev
			v = v.args[0]
			continue
		}
		break
	}
	T := v.typ
	list = v
	if v.kind == KIface {
		list = v.args[0]
	}
	s := st.clone()
	saved := x.h
	x.h = Hooks{Bounds: func(*State, ssa.Instruction, *Ctx, string, []Con) bool { return true }}
	defer func() { x.h = saved }()
	i, j := mkSym("less.i", intT), mkSym("less.j", intT)
	some := s.fresh(x.name(c.ctx, c.instr, "some list"), types.NewSlice(elem))
	for _, t := range []*Term{i, j} {
		s.addGe(t, mkInt(0))
		s.addGe(mkSub(lenOfArg(some), mkInt(1)), t)
	}
	at := func(c *State, i *Term) *Term { return k.elemStart(c, elem, k.at(some, i, elem)) }
	var outs []Outcome
	switch {
	case strings.Contains(c.name, "Slice") && len(c.args) > 1:
		f := c.args[1]
		if f.kind == KClosure {
			for n, a := range f.args {
				fv := f.obj.(*ssa.Function).FreeVars[n].Type()
				if sl, ok := derefT(fv).Underlying().(*types.Slice); ok && typeKey(sl.Elem()) == typeKey(elem) {
					s.store(a, some, derefT(fv))
				}
			}
		}
		outs = x.callTerm(s, c, f, i, j)
	case strings.HasPrefix(c.name, "slices.Sort") || strings.HasPrefix(c.name, "sort.Ints"):
		if len(c.args) == 1 {
			return list, "asc"
		}
		return list, ""
	default:
		sel := x.p.prog.MethodSets.MethodSet(T).Lookup(nil, "Less")
		if sel == nil {
			return list, ""
		}
		less := x.p.prog.MethodValue(sel)
		if !sorterMoves(x, s, c, T, some, elem) {
			return list, ""
		}
		outs = x.doCall(s, &Call{instr: c.instr, ctx: c.ctx, fn: less, name: less.String(), args: []*Term{some, i, j}, sig: less.Signature, results: less.Signature.Results(), common: c.common, isDef: true})
	}
	lt := func(c *State) bool { return c.provesGe(at(c, j), mkAdd(at(c, i), mkInt(1))) }
	ge := func(c *State) bool { return c.provesGe(at(c, i), at(c, j)) }
	le := func(c *State) bool { return c.provesGe(at(c, j), at(c, i)) }
	gt := func(c *State) bool { return c.provesGe(at(c, i), mkAdd(at(c, j), mkInt(1))) }
	switch {
	case decides(outs, lt, ge) || decides(outs, le, gt) || decides(outs, le, ge):
		if rev {
			return list, "desc"
		}
		return list, "asc"
	case decides(outs, gt, le) || decides(outs, ge, lt) || decides(outs, ge, le):
		if rev {
			return list, "asc"
		}
		return list, "desc"
	}
	return list, ""
}

// wait: what must be settled when the source waits.
func (k *src31) wait(s *State, in ssa.Instruction, ctx *Ctx) {
	if k.l.body || !k.running(s) {
		return
	}
	if v, ok := in.(*ssa.Select); ok && !v.Blocking {
		return
	}
	k.x.count("wait", in)
	k.settled(s, in)
	offered := false
	switch v := in.(type) {
	case *ssa.Select:
		for _, c := range v.States {
			if c.Dir == types.SendOnly && k.x.val(s, ctx, c.Chan) == k.l.resp {
				offered = true
			}
		}
	case *ssa.Send:
		offered = k.x.val(s, ctx, v.Chan) == k.l.resp
	}
	if offered || k.empty(s, "RS") {
		return
	}
	k.refresh(s)
	a, b := s.ghost["31RSm"], s.ghost["31ROm"]
	if a == nil || b == nil || !s.provesGe(a, mkAdd(b, mkInt(1))) {
		k.debug(s, "held-back")
		k.rep(s, in, "held-back", "the source may wait here without offering the response for the lowest block asked for, although it may have arrived")
	}
}

func (k *src31) settled(s *State, in ssa.Instruction) {
	switch s.auto["31ro"] {
	case "go":
		k.rep(s, in, "not-recorded", "a request was started without its start block being recorded")
	case "added":
		k.rep(s, in, "not-started", "the start block of a request was recorded that was not started")
	}
	if spl := s.ghost["31spl"]; spl != nil && !s.provesEq(s.ghost["31splk"], lenOfArg(spl)) {
		k.rep(s, in, "not-queued", "some of the ranges a request was split into may not have been queued")
	}
	if s.auto["31spl"] == "owed" {
		k.rep(s, in, "request-dropped", "a request received may be dropped")
	}
	if s.auto["31rs"] != "" {
		k.rep(s, in, "response-dropped", "a result received without an error may not be kept as a response")
	}
	for _, g := range []string{"spl", "splk", "li", "lv", "rof", "resp"} {
		delete(s.ghost, "31"+g)
	}
	for _, a := range []string{"ro", "spl", "rs"} {
		delete(s.auto, "31"+a)
	}
}

// hooks adds to those of the source goroutine.
func (k *src31) hooks() {
	l, x := k.l, k.x
	h := x.h
	x.counts = append(x.counts, "31splk")
	k.rspT = x.p.namedType("patcher", "BlockReponse")
	x.h.Go = func(s *State, c *Call) bool {
		k.first = nil
		before := x.cnt["request started"]
		_ = before
		n := s.ghost["inflight"]
		r := h.Go(s, c)
		if s.ghost["inflight"] == n || !k.running(s) {
			return r
		}
		x.count("request taken", c.instr)
		f := k.first
		if f == nil {
			k.rep(s, c.instr, "request-unknown", "which block a request starts at is not known")
			return r
		}
		if base, idx := k.low(s, "Q"); base == nil {
			k.rep(s, c.instr, "not-lowest", "a request is made for a range not known to be the lowest of those queued")
		} else {
			L := s.ghost["31Q"]
			if !s.provesGe(lenOfArg(L), mkInt(1)) || !sameTerm(s, f, k.elemStart(s, k.reqT, mkIndex(base, idx, k.reqT))) {
				k.rep(s, c.instr, "not-taken", "a request is made for something other than the lowest range queued, which is then taken off the queue")
			}
		}
		k.pop(s, "Q")
		switch s.auto["31ro"] {
		case "added":
			if !sameTerm(s, f, s.ghost["31rof"]) {
				k.rep(s, c.instr, "other-start", "the start block recorded is not that of the request started")
			}
			delete(s.auto, "31ro")
			delete(s.ghost, "31rof")
		case "":
			s.auto["31ro"], s.ghost["31rof"] = "go", f
		default:
			k.rep(s, c.instr, "not-recorded", "a request was started without its start block being recorded")
		}
		return r
	}
	x.h.Model = func(s *State, c *Call) ([]Res, bool) {
		if !l.body && c.invoke && c.method == "SplitBlockRangeToDesiredSize" {
			r, ok := h.Model(s, c)
			for i := range r {
				n := r[i].st
				q := r[i].vals[0]
				k.reqT = q.typ.Underlying().(*types.Slice).Elem()
				if k.running(n) {
					n.ghost["31spl"], n.ghost["31splk"] = q, mkInt(0)
					delete(n.auto, "31spl")
				}
			}
			return r, ok
		}
		if (strings.HasPrefix(c.name, "sort.S") || strings.HasPrefix(c.name, "slices.Sort")) && len(c.args) > 0 && !strings.Contains(c.name, "Search") && !strings.Contains(c.name, "IsSorted") && k.running(s) {
			v := c.args[0]
			for v.kind == KIface || v.kind == KCall && v.name == "sort.Reverse" {
				v = v.args[0]
			}
			for _, role := range []string{"Q", "RO", "RS"} {
				if s.ghost["31"+role] == nil || !k.is(s, role, v) {
					continue
				}
				sl, ok := v.typ.Underlying().(*types.Slice)
				if !ok {
					break
				}
				_, o := k.order(s, c, sl.Elem())
				x.permute(s, v)
				if o == "" {
					k.lost(s, role)
					return []Res{{st: s}}, true
				}
				return k.sorted(s, role, o), true
			}
		}
		return h.Model(s, c)
	}
	x.h.Append = func(s *State, in ssa.Instruction, ctx *Ctx, old *Term, elems []*Term, spread, res *Term, elem types.Type) bool {
		if !l.body {
			k.append(s, in, old, elems, spread, res, elem)
		}
		return true
	}
	x.h.Load = func(s *State, in ssa.Instruction, ctx *Ctx, addr, val *Term) {
		if l.body || s.auto["stopped"] != "" {
			return
		}
		a := addr
		for a.kind == KField {
			a = a.args[0]
		}
		if a.kind != KIndex {
			return
		}
		if spl := s.ghost["31spl"]; spl != nil {
			if b, lo, _ := sliceParts(spl); b == a.args[0] {
				if e := k.elemStart(s, a.typ, a); e != nil {
					s.ghost["31li"], s.ghost["31lv"] = mkSub(a.args[1], lo), e
				}
			}
		}
		for _, role := range []string{"RO", "RS"} {
			base, idx := k.low(s, role)
			m := s.ghost["31"+role+"m"]
			if base == nil || m == nil || base != a.args[0] || !s.provesEq(idx, a.args[1]) {
				continue
			}
			k.refresh(s)
			if e := k.elemStart(s, a.typ, a); e != nil {
				s.addEq(e, m)
				s.ghost["31"+role+"m"] = e
			}
		}
	}
	x.h.Store = func(s *State, in ssa.Instruction, ctx *Ctx, addr, val *Term) bool {
		a := addr
		for a.kind == KField {
			a = a.args[0]
		}
		if a.kind != KIndex || l.body || s.auto["stopped"] != "" {
			return true
		}
		for _, role := range []string{"Q", "RO", "RS"} {
			if L := s.ghost["31"+role]; L != nil {
				if b, _, _ := sliceParts(L); b == a.args[0] {
					k.lost(s, role)
				}
			}
		}
		return true
	}
	x.h.Recv = func(s *State, in ssa.Instruction, ctx *Ctx, ch *Term, elem types.Type) []RecvRes {
		if l.body {
			return h.Recv(s, in, ctx, ch, elem)
		}
		s = s.clone()
		k.wait(s, in, ctx)
		rr := h.Recv(s, in, ctx, ch, elem)
		for i := range rr {
			n := rr[i].st
			if !k.running(n) {
				continue
			}
			switch {
			case l.results[ch] && n.auto["msg"] != "failed":
				n.auto["31rs"] = "owed"
				n.ghost["31resp"] = n.ghost["mS"]
				if m := n.ghost["31ROm"]; m != nil && n.auto["31RO"] != "lost" {
					n.addGe(n.ghost["mS"], m)
				}
				if ro, rs := k.length(n, "RO"), k.length(n, "RS"); ro != nil && rs != nil {
					n.addGe(ro, mkAdd(rs, mkInt(1)))
				}
			case l.reqCh[ch]:
				n.auto["31spl"] = "owed"
			}
		}
		return rr
	}
	x.h.Send = func(s *State, in ssa.Instruction, ctx *Ctx, ch, v *Term) bool {
		if l.body {
			return h.Send(s, in, ctx, ch, v)
		}
		k.wait(s, in, ctx)
		r := h.Send(s, in, ctx, ch, v)
		if ch != l.resp || !k.running(s) {
			return r
		}
		S := fieldVal(v, k.rspT, "StartBlock")
		k.forget(s)
		a, b := s.ghost["31RSm"], s.ghost["31ROm"]
		so, ss := s.auto["31RO"], s.auto["31RS"]
		if S == nil || a == nil || b == nil || so != "asc" && so != "desc" || ss != "asc" && ss != "desc" || !s.provesEq(S, a) || !s.provesEq(S, b) {
			k.debug(s, "not-lowest")
			k.rep(s, in, "not-lowest-first", "a response is sent that is not known to be the lowest of those asked for and not yet delivered")
		}
		if n := k.length(s, "RS"); n != nil && !s.provesGe(n, mkInt(1)) {
			if s.provesEq(n, mkInt(0)) {
				k.rep(s, in, "sent-twice", "a response is sent that was already taken off the list of those kept")
			}
			s.addGe(n, mkInt(1))
		}
		for _, role := range []string{"RO", "RS"} {
			k.pop(s, role)
			old := s.ghost["31"+role+"m"]
			if old == nil {
				continue
			}
			m := s.fresh(x.name(ctx, in, "next "+role), old.typ)
			s.addGe(m, s.ghost["31"+role+"m"])
			s.ghost["31"+role+"m"] = m
		}
		if a, b := s.ghost["31RSm"], s.ghost["31ROm"]; a != nil && b != nil {
			s.addGe(a, b)
		}
		k.facts(s)
		return r
	}
	x.h.BackEdge = func(s *State, b *ssa.BasicBlock) bool {
		if !h.BackEdge(s, b) {
			return false
		}
		if !k.running(s) {
			return true
		}
		a, m := s.ghost["31RSm"], s.ghost["31ROm"]
		k.refresh(s)
		due := "?"
		switch {
		case k.empty(s, "RS"):
			due = "none"
		case a == nil || m == nil:
		case s.provesEq(a, m):
			due = "due"
			s.ghost["31ROm"] = a
		case s.provesGe(a, mkAdd(m, mkInt(1))):
			due = "later"
		}
		s.auto["31due"] = due
		return true
	}
}

var _ = token.ADD

func (k *src31) debug(s *State, what string) {
	if !k.x.dbg {
		return
	}
	println("C31", what)
	for _, g := range sortedNames(s.ghost) {
		println("   ", g, s.ghost[g].String())
	}
	for _, g := range sortedNames(s.auto) {
		println("   auto", g, s.auto[g])
	}
	for _, c := range s.lin {
		println("   lin", c.String())
	}
}
