package main

// Fail-stop rules: an operation that failed must be visible at the exit.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// failOps installs the tracking of failed operations: the automaton "failed"
// holds the operation that failed.
type failTrack struct {
	x      *Exec
	site   map[string]ssa.Instruction
	skip   func(c *Call, r *Res) bool
	newErr bool // errors created by the program count as failures
}

func (f *failTrack) mark(st *State, in ssa.Instruction, what string) {
	f.x.count("fallible operation", in)
	if st.auto["failed"] != "" {
		return
	}
	k := f.x.construct(in) + " " + what + " @" + f.x.pos(in)
	f.site[k] = in
	st.auto["failed"] = k
}

func (x *Exec) trackFailures(newErr bool, skip func(c *Call, r *Res) bool) *failTrack {
	f := &failTrack{x: x, site: map[string]ssa.Instruction{}, skip: skip, newErr: newErr}
	prev := x.h.PostCall
	x.h.PostCall = func(c *Call, r *Res) bool {
		if prev != nil && !prev(c, r) {
			return false
		}
		if c.name == "os.Open" && r.label == "ok" {
			r.st.assume(mkCall("readonly", boolT, r.vals[0]), true)
		}
		switch {
		case r.label == "fail" || r.label == "notexist":
			if skip != nil && skip(c, r) {
				return true
			}
			f.mark(r.st, c.instr, "failed")
		case f.newErr && (c.name == "errors.New" || c.name == "fmt.Errorf"):
			f.mark(r.st, c.instr, "created an error")
		}
		return true
	}
	return f
}

// checkExits: outcomes that ended with a failed operation must satisfy ok.
func (f *failTrack) checkExits(outs []Outcome, rule string, ok func(o Outcome) bool, msg string) {
	for _, o := range outs {
		k := o.st.auto["failed"]
		if k == "" {
			f.x.count("failure-free exit", o.at)
			continue
		}
		f.x.count("failing path exit", o.at)
		if !ok(o) {
			in := f.site[k]
			f.x.report(o.st, in, rule, msg, k)
		}
	}
}

func errNonNil(o Outcome) bool {
	if o.kind != oRet || len(o.vals) == 0 {
		return o.kind == oExit && nonZeroExit(o)
	}
	return o.st.nilClass(o.vals[len(o.vals)-1]) == 2
}

func nonZeroExit(o Outcome) bool {
	if o.kind != oExit || len(o.vals) == 0 {
		return false
	}
	return o.st.truth(mkEq(o.vals[0], mkInt(0))) == 0
}

func init() {
	rule("C01", func(p *Prog, r *Report) {
		r.describe("Every fallible operation reached from the patch operations (the library's Patch and the sequential patcher) is split into success and failure; a path on which one failed, or on which an error arrived from the block source's error channel, must return a non-nil error.")
		entries := []*ssa.Function{r.anchor("patcher/sequential", "", "SequentialPatcher"), r.anchor("", "RSync", "Patch")}
		for _, fn := range entries {
			if fn == nil {
				continue
			}
			r.analyse(shortFn(fn), func(x *Exec) {
				ft := x.trackFailures(true, nil)
				x.h.Model = channelGetters
				x.h.Recv = func(st *State, in ssa.Instruction, ctx *Ctx, ch *Term, elem types.Type) []RecvRes {
					if !isErrorType(elem) {
						return nil
					}
					// an error was reported
					s := st.clone()
					e := s.fresh(x.name(ctx, in, "received error"), elem)
					s.assume(mkEq(e, nilT), false)
					ft.mark(s, in, "received an error")
					// the channel was closed
					n := st.clone()
					return []RecvRes{{st: s, val: e, ok: trueT}, {st: n, val: nilT, ok: falseT}}
				}
				st := newState(x)
				args := x.params(fn)
				outs := x.enter(fn, st, args)
				ft.checkExits(outs, "failure-lost", func(o Outcome) bool { return o.kind == oPanic || errNonNil(o) },
					"a path on which %s returns without an error")
			})
		}
		r.need("fallible operation", 3)
		r.need("failure-free exit", 1)
	})
}

// channelGetters: calls that only return a channel of the receiver.
func channelGetters(st *State, c *Call) ([]Res, bool) {
	if (c.method == "GetResultChannel" || c.method == "EncounteredError") && c.results.Len() == 1 && len(c.args) == 1 && c.invoke {
		v := mkCall(c.method, c.results.At(0).Type(), c.args[0])
		st.assume(mkEq(v, nilT), false)
		return []Res{{st: st, vals: []*Term{v}}}, true
	}
	return nil, false
}

var _ = strings.Contains
