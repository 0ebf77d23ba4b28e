package main

import (
	"fmt"
	"go/types"
	"os"
)

var boolT = types.Typ[types.Bool]
var intT = types.Typ[types.Int]
var byteSliceT = types.NewSlice(types.Typ[types.Byte])
var types_string = types.Typ[types.String]

// goStart is a goroutine start met while analysing its parent.
type goStart struct {
	st *State
	c  *Call
}

func (x *Exec) collectGo(out *[]goStart) {
	x.h.Go = func(st *State, c *Call) bool {
		if x.ranking > 0 {
			return true
		}
		for _, o := range *out {
			if o.c.instr == c.instr && o.st.key() == st.key() {
				return true
			}
		}
		*out = append(*out, goStart{st.clone(), c})
		return true
	}
}

// runGo analyses the body of a goroutine.
func (x *Exec) runGo(g goStart) []Outcome {
	c := *g.c
	c.ctx = nil
	c.isGo = true
	st := g.st.clone()
	st.defers = map[*Ctx][]deferred{}
	st.iter = map[string]int{}
	return x.doCall(st, &c)
}

// positiveBlockSize assumes that the configured block size is not zero.
func (x *Exec) positiveBlockSize(st *State, obj *Term, pkg, typ string) {
	t := x.p.namedType(pkg, typ)
	if t == nil {
		return
	}
	x.assumptions[pkg+"."+typ+" is configured with a block size of at least one byte"] = true
	if a := fieldAddr(obj, t, "BlockSize"); a != nil {
		v := st.load(a, fieldType(t, structFieldIdx(t, "BlockSize")))
		x.pinned[v] = true
		st.addGe(v, mkInt(1))
	}
}

func (x *Exec) debugf(f string, a ...interface{}) {
	if x.dbg {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

// sameTerm: equal up to integer components that are provably equal.
func sameTerm(s *State, a, b *Term) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil {
		return false
	}
	if isIntTerm(a) && isIntTerm(b) && s.provesEq(a, b) {
		return true
	}
	if a.kind != b.kind || a.name != b.name || len(a.args) != len(b.args) || len(a.args) == 0 || a.kind == KPoly {
		return false
	}
	for i := range a.args {
		if !sameTerm(s, a.args[i], b.args[i]) {
			return false
		}
	}
	return true
}

// askedRange: requests are for a range that does not end before it starts.
func (x *Exec) askedRange(st *State, args []*Term) {
	x.assumptions["requests do not end before they start (C17)"] = true
	st.addGe(args[1], mkInt(0))
	st.addGe(args[2], args[1])
}
