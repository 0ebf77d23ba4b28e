package main

// C21: result streams are closed, waiters released, producers not left behind.

import (
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rule("C21", func(p *Prog, r *Report) {
		r.describe("Every function that returns a result stream is analysed with the goroutine it starts: on each path exactly one producer is started for the stream, the producer closes it exactly once on every path by which it ends, and sends nothing after closing it or after its final message (an error or the file checksum). The merger registers with its wait group before each goroutine and each goroutine signals exactly once on every path. Every consumer is analysed with messages, final messages and the end of the stream in any order: it ends, or starts the next stream, only after the end, after a final message, or after having handed the stream over.")
		starters := c21starters(p)
		for _, a := range []struct{ pkg, typ, name string }{{"filechecksum", "FileChecksumGenerator", "StartChecksumGeneration"}, {"comparer", "Comparer", "StartFindMatchingBlocks"}} {
			fn := r.anchor(a.pkg, a.typ, a.name)
			found := false
			for _, s := range starters {
				found = found || s == fn
			}
			if fn != nil && !found {
				starters = append(starters, fn)
			}
		}
		for _, fn := range starters {
			r.analyse(shortFn(fn), func(x *Exec) { c21producer(x, fn) })
		}
		if fn := r.anchor("comparer", "MatchMerger", "StartMergeResultStream"); fn != nil {
			r.analyse(shortFn(fn), func(x *Exec) { c21merger(x, fn) })
		}
		for _, fn := range c21consumers(p, starters) {
			r.analyse(shortFn(fn), func(x *Exec) { c21consumer(x, fn, starters) })
		}
		r.need("producer started", 2)
		r.need("stream closed", 2)
		r.need("registered", 1)
		r.need("signalled", 1)
		r.need("stream obtained", 2)
		r.need("end of a consumer", 2)
	})
}

// resultStream: a channel of results that may carry an error.
func resultStream(t types.Type) types.Type {
	ch, ok := t.Underlying().(*types.Chan)
	if !ok || structOf(ch.Elem()) == nil || !isModType(ch.Elem()) {
		return nil
	}
	if structFieldIdx(ch.Elem(), "Err") < 0 {
		return nil
	}
	return ch.Elem()
}

func isModType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && isModPkg(n.Obj().Pkg().Path())
}

// c21starters: functions that return a result stream and start a goroutine.
func c21starters(p *Prog) (out []*ssa.Function) {
	for _, fn := range p.all {
		if fn.Blocks == nil || !p.inModule(fn) || fn.Synthetic != "" || fn.Parent() != nil {
			continue
		}
		res := fn.Signature.Results()
		ok := false
		for i := 0; i < res.Len(); i++ {
			ok = ok || resultStream(res.At(i).Type()) != nil
		}
		if !ok {
			continue
		}
		hasGo := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.Go); ok {
					hasGo = true
				}
			}
		}
		if hasGo {
			out = append(out, fn)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return
}

// c21consumers: functions of the module that call a starter themselves, and
// are no starters; a function that only passes the stream on is analysed with
// its callers too.
func c21consumers(p *Prog, starters []*ssa.Function) (out []*ssa.Function) {
	is := map[*ssa.Function]bool{}
	for _, s := range starters {
		is[s] = true
	}
	wrap := map[*ssa.Function]bool{}
	for n := 0; n < 3; n++ {
		for _, fn := range p.all {
			if fn.Blocks == nil || !p.inModule(fn) || fn.Synthetic != "" || is[fn] || wrap[fn] {
				continue
			}
			calls := false
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok {
						if f := c.Common().StaticCallee(); f != nil && (is[f] || wrap[f] && returnsStream(f)) {
							calls = true
						}
					}
				}
			}
			if calls {
				wrap[fn] = true
			}
		}
	}
	for fn := range wrap {
		root := fn
		for root.Parent() != nil {
			root = root.Parent()
		}
		dup := false
		for _, o := range out {
			dup = dup || o == root
		}
		if !dup {
			out = append(out, root)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return
}

func returnsStream(fn *ssa.Function) bool {
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		if resultStream(fn.Signature.Results().At(i).Type()) != nil {
			return true
		}
	}
	return false
}

// finalMsg: 1 the message is the last one, 0 it is not, -1 unknown
func finalMsg(s *State, v *Term, T types.Type) int {
	res := 0
	for _, f := range []string{"Err", "Filechecksum"} {
		if structFieldIdx(T, f) < 0 {
			continue
		}
		switch s.nilClass(fieldVal(v, T, f)) {
		case 2:
			return 1
		case 1:
		default:
			res = -1
		}
	}
	return res
}

func c21producer(x *Exec, fn *ssa.Function) {
	args := x.params(fn)
	st := newState(x)
	for _, t := range args {
		if strings.HasSuffix(typeKey(derefT(t.typ)), "filechecksum.FileChecksumGenerator") {
			x.positiveBlockSize(st, t, "filechecksum", "FileChecksumGenerator")
		}
	}
	x.h.Inline = func(c *Call) bool { return c.fn != nil && (c.fn.Pkg == fn.Pkg || c.fn.Parent() != nil) }
	var gs []goStart
	x.collectGo(&gs)
	collect := x.h.Go
	x.h.Go = func(s *State, c *Call) bool {
		x.count("producer started", c.instr)
		n, _ := strconv.Atoi(s.auto["producers"])
		s.auto["producers"] = strconv.Itoa(n + 1)
		return collect(s, c)
	}
	closed := func(s *State, in ssa.Instruction, ctx *Ctx, ch *Term) bool {
		if resultStream(ch.typ) == nil && ch.kind != KAlloc {
			return true
		}
		if s.auto["closed"] != "" && s.ghost["closed"] == ch {
			x.report(s, in, "closed-twice", "the stream is closed twice")
		}
		s.auto["closed"] = "y"
		s.ghost["closed"] = ch
		return true
	}
	x.h.Close = closed
	var ch *Term
	for _, o := range x.enter(fn, st, args) {
		if o.kind != oRet {
			continue
		}
		for _, v := range o.vals {
			if v.typ != nil && resultStream(v.typ) != nil || v.kind == KAlloc {
				if ch != nil && ch != v {
					x.undecided(o.at, "which stream is returned is not known")
				}
				ch = v
			}
			if v == nilT {
				x.report(o.st, o.at, "no-stream", "a nil stream may be returned, on which receivers wait for ever")
			}
		}
		if n := o.st.auto["producers"]; n == "" && o.st.auto["closed"] == "" {
			x.report(o.st, o.at, "no-producer", "a stream is returned for which no producer was started and which is not closed")
		} else if n != "" && n != "1" {
			x.report(o.st, o.at, "two-producers", "more than one goroutine is started for the same stream")
		}
	}
	x.h.Go = nil
	if ch == nil || len(gs) == 0 {
		x.report(nil, nil, "anchor", "no result stream with a producer was found")
		return
	}
	x.h.Close = func(s *State, in ssa.Instruction, ctx *Ctx, c *Term) bool {
		if c != ch {
			return true
		}
		x.count("stream closed", in)
		x.cnt["stream closed"]++
		if s.auto["closed"] != "" {
			x.report(s, in, "closed-twice", "the stream is closed twice")
		}
		s.auto["closed"] = "y"
		return true
	}
	x.h.Send = func(s *State, in ssa.Instruction, ctx *Ctx, c, v *Term) bool {
		if c != ch {
			return true
		}
		if s.auto["closed"] != "" {
			x.report(s, in, "send-after-close", "a message is sent on the closed stream")
		}
		if s.auto["final"] != "" {
			x.report(s, in, "send-after-final", "a message is sent after the final one, when nobody may be receiving any more")
		}
		if T := resultStream(ch.typ); T != nil && finalMsg(s, v, T) != 0 {
			s.auto["final"] = "y"
		}
		return true
	}
	x.h.Go = func(s *State, c *Call) bool {
		for _, a := range c.args {
			if a == ch {
				x.report(s, c.instr, "shared-stream", "the producer shares the stream with another goroutine: when it may be closed is not known")
			}
		}
		return true
	}
	for _, g := range gs {
		for _, o := range x.runGo(g) {
			if o.kind == oRet && o.st.auto["closed"] == "" {
				x.report(o.st, o.at, "not-closed", "the producer ends without having closed the stream")
			}
			if o.kind == oRet && o.st.auto["closed"] != "" {
				x.count("end of a producer", o.at)
			}
		}
	}
}

func c21merger(x *Exec, fn *ssa.Function) {
	args := x.params(fn)
	obj, src := args[0], args[1]
	st := newState(x)
	x.nonNil(st, obj)
	num := func(s *State, k string) int { n, _ := strconv.Atoi(s.auto[k]); return n }
	put := func(s *State, k string, n int) {
		if n == 0 {
			delete(s.auto, k)
		} else {
			s.auto[k] = strconv.Itoa(n)
		}
	}
	x.h.Model = func(s *State, c *Call) ([]Res, bool) {
		switch c.name {
		case "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done":
			if rootOf(c.args[0]) != obj {
				x.report(s, c.instr, "other-group", "the wait group is not the merger's, on which the results are waited for")
				return []Res{{st: s}}, true
			}
			n := int64(-1)
			if strings.HasSuffix(c.name, "Add") {
				k, ok := constInt(c.args[1])
				if !ok {
					x.undecided(c.instr, "the number of goroutines registered is not constant")
				}
				n = k
			}
			if n > 0 {
				x.count("registered", c.instr)
				if s.auto["go"] != "" {
					x.report(s, c.instr, "late-registration", "the goroutine registers itself, which may be too late for whoever waits")
				}
				put(s, "registered", num(s, "registered")+int(n))
				return []Res{{st: s}}, true
			}
			x.count("signalled", c.instr)
			if s.auto["go"] == "" {
				put(s, "registered", num(s, "registered")+int(n))
				return []Res{{st: s}}, true
			}
			if num(s, "done") > 0 {
				x.report(s, c.instr, "signalled-twice", "the goroutine may signal its end twice")
				return []Res{{st: s}}, true
			}
			put(s, "done", num(s, "done")-int(n))
			return []Res{{st: s}}, true
		case "(*sync.WaitGroup).Wait":
			return []Res{{st: s}}, true
		}
		if strings.HasPrefix(c.name, "(*sync.") {
			return []Res{{st: s}}, true
		}
		if strings.HasPrefix(c.name, llrbT+"Ascend") || strings.HasPrefix(c.name, llrbT+"Descend") {
			// what the walk finds is of no interest here
			if f := c.args[len(c.args)-1]; f.kind == KClosure {
				x.clobberClosure(s, f)
			}
			return []Res{{st: s}}, true
		}
		return nil, false
	}
	var gs []goStart
	x.collectGo(&gs)
	collect := x.h.Go
	x.h.Go = func(s *State, c *Call) bool {
		x.cnt["merge goroutine"]++
		if num(s, "registered") == 0 {
			x.report(s, c.instr, "not-registered", "the goroutine is started before it was registered with the wait group")
		}
		put(s, "registered", num(s, "registered")-1)
		return collect(s, c)
	}
	for _, o := range x.enter(fn, st, args) {
		if o.kind == oRet && num(o.st, "registered") != 0 {
			x.report(o.st, o.at, "registered-without-goroutine", "more is registered with the wait group than goroutines are started: the results are never returned")
		}
	}
	if len(gs) == 0 {
		x.report(nil, nil, "anchor", "no goroutine that merges a stream was found")
		return
	}
	x.h.Go = nil
	c21receive(x, func(ch *Term) bool { return ch == src })
	for _, g := range gs {
		g.st.auto["go"] = "y"
		delete(g.st.auto, "registered")
		g.st.auto["open"] = "y"
		for _, o := range x.runGo(g) {
			if o.kind != oRet {
				continue
			}
			x.count("end of a consumer", o.at)
			x.cnt["end of a consumer"]++
			if num(o.st, "done") != 1 {
				x.report(o.st, o.at, "not-signalled", "the goroutine ends without having signalled its end: whoever waits for it does so for ever")
			}
			if o.st.auto["open"] != "" {
				x.report(o.st, o.at, "producer-left", "the goroutine ends although the producer of the stream may still want to send")
			}
		}
	}
}

// c21receive: messages come in any order, until a final one or the end.
func c21receive(x *Exec, ours func(ch *Term) bool) {
	x.h.Recv = func(st *State, in ssa.Instruction, ctx *Ctx, ch *Term, elem types.Type) []RecvRes {
		if !ours(ch) || structOf(elem) == nil {
			return nil
		}
		x.cnt["stream received from"]++
		var out []RecvRes
		mk := func(s *State, final string) *Term {
			vals := make([]*Term, structOf(elem).NumFields())
			for i := range vals {
				f := structOf(elem).Field(i)
				switch {
				case f.Name() == final:
					v := s.fresh(x.name(ctx, in, "final "+final), f.Type())
					x.nonNil(s, v)
					vals[i] = v
				case f.Name() == "Err" || f.Name() == "Filechecksum":
					vals[i] = nilT
				default:
					vals[i] = s.fresh(x.name(ctx, in, "message."+f.Name()), f.Type())
				}
			}
			return mkStruct(elem, vals)
		}
		if st.auto["open"] != "" {
			s := st.clone()
			out = append(out, RecvRes{st: s, val: mk(s, ""), ok: trueT})
			for _, f := range []string{"Err", "Filechecksum"} {
				if structFieldIdx(elem, f) < 0 {
					continue
				}
				s := st.clone()
				v := mk(s, f)
				delete(s.auto, "open")
				out = append(out, RecvRes{st: s, val: v, ok: trueT})
			}
		}
		s := st.clone()
		delete(s.auto, "open")
		return append(out, RecvRes{st: s, val: zeroOf(elem), ok: falseT})
	}
}

func c21consumer(x *Exec, fn *ssa.Function, starters []*ssa.Function) {
	pkg := fn.Pkg
	started := func(c *Call) bool {
		for _, s := range starters {
			if c.fn == s {
				return true
			}
		}
		return false
	}
	x.h.Inline = func(c *Call) bool { return c.fn != nil && (c.fn.Pkg == pkg || c.fn.Parent() != nil) }
	handed := func(s *State, v *Term) {
		if v != nil && s.ghost["stream"] == v {
			delete(s.auto, "open")
		}
	}
	x.h.Model = func(s *State, c *Call) ([]Res, bool) {
		if started(c) {
			x.count("stream obtained", c.instr)
			x.cnt["stream obtained"]++
			if s.auto["open"] != "" {
				x.report(s, c.instr, "producer-left", "another stream is started although the producer of this one may still want to send")
			}
			v := s.freshAlloc(x.name(c.ctx, c.instr, "stream"), c.results.At(0).Type())
			s.ghost["stream"] = v
			s.auto["open"] = "y"
			return []Res{{st: s, vals: []*Term{v}}}, true
		}
		if strings.HasSuffix(c.name, ".StartMergeResultStream") {
			for _, a := range c.args {
				handed(s, a)
			}
			return []Res{{st: s}}, true
		}
		return searchModel(x, s, c)
	}
	x.h.Go = func(s *State, c *Call) bool {
		for _, a := range c.args {
			handed(s, a)
		}
		if c.fnTerm != nil {
			for _, a := range c.fnTerm.args {
				handed(s, a)
			}
		}
		return true
	}
	x.h.Store = func(s *State, in ssa.Instruction, ctx *Ctx, addr, val *Term) bool {
		if addr.kind == KIndex || addr.kind == KField {
			handed(s, val) // kept for whoever receives from it
		}
		return true
	}
	x.h.Append = func(s *State, in ssa.Instruction, ctx *Ctx, old *Term, elems []*Term, spread, res *Term, elem types.Type) bool {
		for _, e := range elems {
			handed(s, e)
		}
		return true
	}
	x.h.Send = func(s *State, in ssa.Instruction, ctx *Ctx, ch, v *Term) bool { handed(s, v); return true }
	c21receive(x, func(ch *Term) bool { return ch.typ != nil && resultStream(ch.typ) != nil })
	st := newState(x)
	for _, o := range x.enter(fn, st, x.params(fn)) {
		if o.kind != oRet {
			continue
		}
		for _, v := range o.vals {
			handed(o.st, v)
		}
		x.count("end of a consumer", o.at)
		x.cnt["end of a consumer"]++
		if o.st.auto["open"] != "" {
			x.report(o.st, o.at, "producer-left", "the function ends although the producer of the stream may still want to send: it is left blocked for ever")
		}
	}
}
