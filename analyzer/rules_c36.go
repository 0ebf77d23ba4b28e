package main

// C36: the statistics reported are those of what happened.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rule("C36", func(p *Prog, r *Report) {
		r.describe("Number of events and total of what was added to a counter are ghosts; both must be equal at the end of the goroutine that counts. Search: windows looked up, windows for which the weak lookup found candidates, windows for which the strong lookup found blocks. Source: bytes of the results received without an error. Index: the number of blocks is that of the checksums given.")
		c36search(p, r)
		r.need("weak lookup", 1)
		r.need("strong lookup", 1)
		r.need("search ended", 1)
		c36source(p, r)
		r.need("source ended", 1)
		r.need("result received", 1)
		r.need("total returned", 1)
		c36index(p, r)
		r.need("index returned", 1)
	})
}

// counter watches what is added to fields of obj: what[field] is the event counted.
type counter struct {
	x      *Exec
	obj    *Term
	fields map[string]string
	off    func() bool
}

func (k *counter) field(addr *Term) string {
	if addr.kind == KField && addr.args[0] == k.obj {
		return k.fields[fieldName(addr)]
	}
	return ""
}

func (k *counter) start(s *State) {
	for _, w := range k.fields {
		s.ghost["ev:"+w], s.ghost["ad:"+w] = mkInt(0), mkInt(0)
	}
}

func (k *counter) event(s *State, w string, n *Term) {
	s.ghost["ev:"+w] = mkAdd(s.ghost["ev:"+w], n)
}

func (k *counter) install() {
	x := k.x
	model, store := x.h.Model, x.h.Store
	x.h.Model = func(s *State, c *Call) ([]Res, bool) {
		if strings.HasPrefix(c.name, "sync/atomic.Add") && len(c.args) == 2 || strings.HasPrefix(c.name, "(*sync/atomic.") && c.fn != nil && c.fn.Name() == "Add" && len(c.args) == 2 {
			if w := k.field(c.args[0]); w != "" && s.ghost["ad:"+w] != nil {
				x.count("counter raised", c.instr)
				s.ghost["ad:"+w] = mkAdd(s.ghost["ad:"+w], c.args[1])
				return []Res{{st: s, vals: []*Term{s.fresh(x.name(c.ctx, c.instr, "total"), c.results.At(0).Type())}}}, true
			}
		}
		if strings.HasPrefix(c.name, "sync/atomic.Store") || strings.HasPrefix(c.name, "sync/atomic.Swap") || strings.HasPrefix(c.name, "sync/atomic.CompareAndSwap") {
			if w := k.field(c.args[0]); w != "" && s.ghost["ad:"+w] != nil {
				x.undecided(c.instr, "the counter of %s is not only added to", w)
			}
		}
		if model != nil {
			return model(s, c)
		}
		return nil, false
	}
	x.h.Store = func(s *State, in ssa.Instruction, ctx *Ctx, addr, val *Term) bool {
		if w := k.field(addr); w != "" && s.ghost["ad:"+w] != nil {
			x.count("counter raised", in)
			s.ghost["ad:"+w] = mkAdd(s.ghost["ad:"+w], mkSub(val, s.load(addr, addrType(addr))))
		}
		if store != nil {
			return store(s, in, ctx, addr, val)
		}
		return true
	}
}

func (k *counter) settle(s *State, at ssa.Instruction) {
	for _, f := range sortedKeys(k.fields) {
		w := k.fields[f]
		ev, ad := s.ghost["ev:"+w], s.ghost["ad:"+w]
		if ev == nil || ad == nil || !s.provesEq(ev, ad) {
			k.x.report(s, at, "miscounted", "%s may not be the number of %s (%v counted for %v)", f, w, ad, ev)
		}
	}
}

func sortedKeys(m map[string]string) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	for i := range ks {
		for j := i + 1; j < len(ks); j++ {
			if ks[j] < ks[i] {
				ks[i], ks[j] = ks[j], ks[i]
			}
		}
	}
	return ks
}

func addrType(a *Term) types.Type {
	if T := elemTypeOfAddr(a); T != nil {
		return T
	}
	return int64T
}

func c36search(p *Prog, r *Report) {
	fn := r.anchor("comparer", "Comparer", "StartFindMatchingBlocks")
	if fn == nil {
		return
	}
	r.analyse(shortFn(fn), func(x *Exec) {
		args := x.params(fn)
		st := newState(x)
		x.nonNil(st, args[0])
		x.positiveBlockSize(st, args[3], "filechecksum", "FileChecksumGenerator")
		k := &counter{x: x, obj: args[0], fields: map[string]string{"Comparisons": "windows looked up", "WeakHashHits": "windows with candidates", "StrongHashHits": "windows found"}}
		for f := range k.fields {
			if structFieldIdx(derefT(args[0].typ), f) < 0 {
				x.report(nil, nil, "anchor", "a comparer has no counter %s", f)
				return
			}
		}
		var gs []goStart
		x.h.Model = func(s *State, c *Call) ([]Res, bool) {
			if c.fn != nil && c.fn.Blocks != nil {
				return nil, false
			}
			switch c.method {
			case "FindWeakChecksum2":
				x.count("weak lookup", c.instr)
				k.event(s, "windows looked up", mkInt(1))
				n := s.clone()
				v := s.fresh(x.name(c.ctx, c.instr, "candidates"), c.results.At(0).Type())
				x.nonNil(s, v)
				k.event(s, "windows with candidates", mkInt(1))
				return []Res{{st: s, vals: []*Term{v}, label: "candidates"}, {st: n, vals: []*Term{nilT}, label: "none"}}, true
			case "FindStrongChecksum2":
				x.count("strong lookup", c.instr)
				n := s.clone()
				v := s.fresh(x.name(c.ctx, c.instr, "blocks"), c.results.At(0).Type())
				x.nonNil(s, v)
				if !s.addGe(lenOfArg(v), mkInt(1)) {
					return nil, false
				}
				k.event(s, "windows found", mkInt(1))
				return []Res{{st: s, vals: []*Term{v}, label: "found"}, {st: n, vals: []*Term{nilT}, label: "none"}}, true
			}
			return nil, false
		}
		k.install()
		x.h.Inline = func(c *Call) bool { return c.fn != nil && ownPkg(c.fn, "comparer") }
		x.collectGo(&gs)
		k.start(st)
		for _, o := range x.enter(fn, st, args) {
			if o.kind == oRet {
				k.settle(o.st, o.at)
			}
		}
		x.h.Go = nil
		x.counts = []string{}
		for _, g := range gs {
			for _, o := range x.runGo(g) {
				if o.kind != oRet {
					continue
				}
				x.count("search ended", o.at)
				k.settle(o.st, o.at)
			}
		}
	})
}

func c36source(p *Prog, r *Report) {
	fn := r.anchor("blocksources", "BlockSourceBase", "ReadBytes")
	if fn == nil {
		return
	}
	field := ""
	r.analyse(shortFn(fn), func(x *Exec) {
		st := newState(x)
		args := x.params(fn)
		x.nonNil(st, args[0])
		T := derefT(args[0].typ)
		x.h.Model = func(s *State, c *Call) ([]Res, bool) {
			if (strings.HasPrefix(c.name, "sync/atomic.Load") || strings.HasPrefix(c.name, "(*sync/atomic.") && c.fn != nil && c.fn.Name() == "Load") && c.args[0].kind == KField {
				v := s.fresh(x.name(c.ctx, c.instr, "total"), c.results.At(0).Type())
				s.ghost["read"] = v
				field = fieldName(c.args[0])
				return []Res{{st: s, vals: []*Term{v}}}, true
			}
			return nil, false
		}
		for _, o := range x.enter(fn, st, args) {
			if o.kind != oRet {
				x.report(o.st, o.at, "no-total", "no total is returned on some path")
				continue
			}
			x.count("total returned", o.at)
			if v := o.st.ghost["read"]; v != nil && o.vals[0] == v {
				continue
			}
			ok := false
			for _, f := range structFieldNames(T) {
				if o.vals[0] == o.st.load(fieldAddr(args[0], T, f), o.vals[0].typ) && (field == "" || field == f) {
					field, ok = f, true
				}
			}
			if !ok {
				x.report(o.st, o.at, "no-total", "what is returned is not the counter of a source")
			}
		}
	})
	if field == "" {
		return
	}
	c36field = field
	sourceLoop(p, r, "C36")
}

var c36field string

// counted36 watches the bytes received by a source.
func (l *srcLoop) counted36(s *State) *counter {
	k := &counter{x: l.x, obj: l.obj, fields: map[string]string{c36field: "bytes received"}}
	k.start(s)
	return k
}

func c36index(p *Prog, r *Report) {
	fn := r.anchor("index", "", "MakeChecksumIndex")
	if fn == nil {
		return
	}
	r.analyse(shortFn(fn), func(x *Exec) {
		st := newState(x)
		args := x.params(fn)
		for _, o := range x.enter(fn, st, args) {
			if o.kind != oRet {
				continue
			}
			x.count("index returned", o.at)
			T := derefT(o.vals[0].typ)
			if n := o.st.load(fieldAddr(o.vals[0], T, "BlockCount"), intT); !o.st.provesEq(n, lenOfArg(args[0])) {
				x.report(o.st, o.at, "miscounted", "the number of blocks of an index is not that of the checksums it is made of")
			}
		}
	})
}

func structFieldNames(T types.Type) (fs []string) {
	if st := structOf(T); st != nil {
		for i := 0; i < st.NumFields(); i++ {
			fs = append(fs, st.Field(i).Name())
		}
	}
	return
}
