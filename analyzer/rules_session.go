package main

// C08, C22, C23: file based patch sessions (MakeRSync, Patch, Close) and the
// files and connections of requesters and commands.

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// resTrack follows opened resources.
//
// auto["h<id>"] = "open" | "closed" | "closefail" | "handed"
// ghost["h<id>"] = the handle, ghost["p<id>"] = its path
type resTrack struct {
	x    *Exec
	site map[string]ssa.Instruction
	what map[string]string
}

func newResTrack(x *Exec) *resTrack {
	return &resTrack{x: x, site: map[string]ssa.Instruction{}, what: map[string]string{}}
}

func (t *resTrack) open(st *State, in ssa.Instruction, h, path *Term, what string) string {
	k := fmt.Sprintf("h%d", h.id)
	t.x.count("resource opened", in)
	st.auto[k] = "open"
	st.ghost[k] = h
	if path != nil {
		st.ghost["p"+k[1:]] = path
	}
	t.site[k] = in
	t.what[k] = what
	return k
}

// openCall recognises calls that open a file; flags is nil unless constant.
func openCall(c *Call) (path *Term, write, trunc, create, excl, known, ok bool) {
	switch c.name {
	case "os.Open":
		return c.args[0], false, false, false, false, true, true
	case "os.Create":
		return c.args[0], true, true, true, false, true, true
	case "os.OpenFile":
		f, isc := constInt(c.args[1])
		if !isc {
			return c.args[0], true, false, false, false, false, true
		}
		// Linux values of the os.O_ constants
		return c.args[0], f&3 != 0, f&0x200 != 0, f&0x40 != 0, f&0x80 != 0, true, true
	case "os.CreateTemp", "io/ioutil.TempFile":
		return nil, true, true, true, true, true, true
	}
	return
}

// handleOf strips wrappers that only forward to a file.
func handleOf(t *Term) *Term {
	for t != nil {
		switch {
		case t.kind == KIface:
			t = t.args[0]
		case t.kind == KCall && t.name == "reader of":
			t = t.args[0]
		default:
			return t
		}
	}
	return t
}

func bufioModel(st *State, c *Call) ([]Res, bool) {
	switch c.name {
	case "bufio.NewReader", "bufio.NewReaderSize":
		v := mkCall("reader of", c.results.At(0).Type(), handleOf(c.args[0]))
		st.assume(mkEq(v, nilT), false)
		return []Res{{st: st, vals: []*Term{v}}}, true
	}
	return nil, false
}

func (t *resTrack) install(sources bool) {
	x := t.x
	prevM := x.h.Model
	x.h.Model = func(st *State, c *Call) ([]Res, bool) {
		if r, ok := bufioModel(st, c); ok {
			return r, true
		}
		if prevM != nil {
			return prevM(st, c)
		}
		return nil, false
	}
	prevP := x.h.PreCall
	x.h.PreCall = func(st *State, c *Call) bool {
		t.useAfterClose(st, c)
		return prevP == nil || prevP(st, c)
	}
	prev := x.h.PostCall
	x.h.PostCall = func(c *Call, r *Res) bool {
		if _, _, _, _, _, _, ok := openCall(c); ok && r.label == "ok" {
			p := c.args[0]
			if c.name == "os.CreateTemp" || c.name == "io/ioutil.TempFile" {
				p = nil
			}
			t.open(r.st, c.instr, r.vals[0], p, "file")
		}
		if sources && c.results.Len() >= 1 && len(r.vals) >= 1 && r.vals[0] != nilT && r.label != "fail" {
			switch typeKey(c.results.At(0).Type()) {
			case "*" + modPath + "/blocksources.BlockSourceBase":
				t.open(r.st, c.instr, r.vals[0], nil, "block source")
			}
		}
		if c.method == "Close" && len(c.args) == 1 {
			k := fmt.Sprintf("h%d", handleOf(c.args[0]).id)
			if r.st.auto[k] == "open" {
				x.count("resource closed", c.instr)
				r.st.auto[k] = "closed"
				if r.label == "fail" || len(r.vals) == 1 && r.label == "" && r.st.nilClass(r.vals[0]) != 1 {
					r.st.auto[k] = "closefail"
				}
			}
		}
		if prev != nil {
			return prev(c, r)
		}
		return true
	}
}

// useAfterClose reports a call that is given a resource already closed.
func (t *resTrack) useAfterClose(st *State, c *Call) {
	x := t.x
	switch c.method {
	case "Close", "Name", "Fd", "String":
		return
	}
	if c.fn != nil && c.fn.Pkg != nil && x.h.Inline != nil && len(c.fn.Blocks) > 0 && x.h.Inline(c) {
		return // looked at inside
	}
	for _, a := range c.args {
		h := handleOf(a)
		if h == nil {
			continue
		}
		k := fmt.Sprintf("h%d", h.id)
		if v := st.auto[k]; (v == "closed" || v == "closefail") && t.site[k] != nil && st.ghost[k] == h {
			x.report(st, c.instr, "used-after-close", "a %s opened at %s is used here although it has been closed", t.what[k], x.pos(t.site[k]))
		}
	}
}

// leaks lists the resources still open.
func (t *resTrack) leaks(st *State) []string {
	var out []string
	for k, v := range st.auto {
		if k[0] == 'h' && v == "open" && t.site[k] != nil {
			out = append(out, k)
		}
	}
	return out
}

func ownPkg(fn *ssa.Function, pkg string) bool {
	g := fn
	for g.Parent() != nil {
		g = g.Parent()
	}
	if g.Pkg == nil {
		// synthetic wrappers
		return strings.Contains(g.String(), modPath+strings.TrimSuffix("/"+pkg, "/")+".")
	}
	p := modPath
	if pkg != "" {
		p += "/" + pkg
	}
	return g.Pkg.Pkg.Path() == p
}

type session struct {
	st      *State
	r       *Term // *RSync
	in, out *Term // path arguments
	failed  bool  // Patch failed
}

// makeSession analyses MakeRSync and hands over the successful outcomes.
// Functions of the packages given are looked at inside.
func makeSession(x *Exec, fn *ssa.Function, pkgs ...string) (outs []Outcome, args []*Term) {
	args = x.params(fn)
	st := newState(x)
	x.h.Go = func(st *State, c *Call) bool { return true }
	x.h.Inline = func(c *Call) bool {
		if c.method == "Close" && !ownPkg(c.fn, "") {
			return false
		}
		for _, p := range pkgs {
			if ownPkg(c.fn, p) {
				return true
			}
		}
		return ownPkg(c.fn, "") || strings.HasPrefix(c.fn.Name(), "New") || strings.HasPrefix(c.fn.Name(), "Make")
	}
	return x.enter(fn, st, args), args
}

func init() {
	rule("C08", func(p *Prog, r *Report) {
		r.describe("MakeRSync, then Close on every session it can return, are analysed with every file operation split into success and failure: no path may crash; a nil error goes with a usable session of successfully opened files; a failed close, open or copy while closing must be returned.")
		mk, cl := r.anchor("", "", "MakeRSync"), r.anchor("", "RSync", "Close")
		if mk == nil || cl == nil {
			return
		}
		r.analyse("session set-up and close", func(x *Exec) {
			x.unroll = 6
			phase := "make"
			ft := x.trackFailures(true, func(c *Call, res *Res) bool {
				if c.name == "os.Stat" || c.name == "os.Lstat" {
					return true // superseded by the opening of the files, see C23
				}
				return readOnlyClose(x, c, res)
			})
			x.h.Model = bufioModel
			outs, _ := makeSession(x, mk)
			phase = "close"
			_ = phase
			rsT := x.p.namedType("", "RSync")
			for _, o := range outs {
				s := o.st
				switch o.kind {
				case oPanic:
					x.report(s, o.at, "crash", "setting up a session can crash")
					continue
				case oExit:
					x.report(s, o.at, "exit", "setting up a session ends the process")
					continue
				}
				if s.nilClass(o.vals[1]) == 2 {
					x.count("set-up failed", o.at)
					continue
				}
				if k := s.auto["failed"]; k != "" {
					x.report(s, ft.site[k], "failure-lost", "a path on which %s returns a session without an error", k)
					continue
				}
				if s.nilClass(o.vals[0]) != 2 || s.nilClass(o.vals[1]) != 1 {
					x.report(s, o.at, "no-session", "a nil error may be returned without a session")
					continue
				}
				for _, f := range []string{"Input", "Output", "Source"} {
					a := fieldAddr(o.vals[0], rsT, f)
					if a == nil {
						continue
					}
					v := s.load(a, fieldType(rsT, structFieldIdx(rsT, f)))
					if s.nilClass(v) != 2 || s.nilClass(handleOf(v)) == 1 {
						x.report(s, o.at, "unusable-session", "the %s of a session may be missing", f)
					}
				}
				x.count("session set up", o.at)
				for _, c := range x.enter(cl, s.clone(), []*Term{o.vals[0]}) {
					cs := c.st
					if c.kind != oRet {
						x.report(cs, c.at, "crash", "closing a session can crash or exit")
						continue
					}
					k := cs.auto["failed"]
					if k == "" {
						x.count("failure-free exit", c.at)
						continue
					}
					x.count("failing path exit", c.at)
					if !errNonNil(c) {
						x.report(cs, ft.site[k], "failure-lost", "a path on which %s ends the closing without an error", k)
					}
				}
			}
		})
		r.need("session set up", 1)
		r.need("set-up failed", 1)
		r.need("failing path exit", 1)
		r.need("failure-free exit", 1)
		r.need("fallible operation", 4)
	})

	rule("C22", func(p *Prog, r *Report) {
		r.describe("Every successful open, HTTP response and session is a resource; on every path out of the functions that open them each must have been closed, or have become part of a session whose Close closes it on every path. After an in-place patch the temporary file is removed. No call is given a resource after it was closed.")
		mk, cl, pt := r.anchor("", "", "MakeRSync"), r.anchor("", "RSync", "Close"), r.anchor("", "RSync", "Patch")
		if mk == nil || cl == nil || pt == nil {
			return
		}
		r.analyse("session", func(x *Exec) {
			x.unroll = 6
			t := newResTrack(x)
			t.install(true)
			prev := x.h.PostCall
			x.h.PostCall = func(c *Call, res *Res) bool {
				if (c.name == "os.CreateTemp" || c.name == "io/ioutil.TempFile") && res.label == "ok" {
					res.st.ghost["temp"] = res.vals[0]
				}
				if c.name == "os.Remove" || c.name == "os.Rename" {
					if tf := res.st.ghost["temp"]; tf != nil && isNameOf(c.args[0], tf) {
						x.count("temporary file removed", c.instr)
						res.st.auto["removed"] = "y"
						if res.label == "fail" {
							res.st.auto["removefailed"] = "y"
						}
					}
				}
				return prev(c, res)
			}
			ft := x.trackFailures(true, func(c *Call, res *Res) bool { return readOnlyClose(x, c, res) })
			_ = ft
			outs, _ := makeSession(x, mk)
			for _, o := range outs {
				s := o.st
				if o.kind != oRet {
					continue
				}
				if s.nilClass(o.vals[0]) != 2 || s.nilClass(o.vals[1]) != 1 {
					x.count("set-up failed", o.at)
					for _, k := range t.leaks(s) {
						x.report(s, t.site[k], "leak", "a %s opened here is not closed when setting up a session fails", t.what[k])
					}
					continue
				}
				x.count("session set up", o.at)
				for _, po := range patchSession(x, s, pt, o.vals[0]) {
					for _, c := range x.enter(cl, po.st.clone(), []*Term{o.vals[0]}) {
						if c.kind != oRet {
							continue
						}
						x.count("session closed", c.at)
						cs := c.st
						for _, k := range t.leaks(cs) {
							x.report(cs, t.site[k], "leak", "a %s opened here is not closed by closing the session", t.what[k])
						}
						if cs.ghost["temp"] != nil && cs.nilClass(c.vals[0]) == 1 && cs.auto["removed"] == "" {
							x.report(cs, c.at, "temp-left", "the session ends successfully without removing the temporary file")
						}
					}
				}
			}
		})
		r.need("session set up", 1)
		r.need("session closed", 1)
		r.need("set-up failed", 1)
		r.need("temporary file removed", 1)
		if fn := r.anchor("blocksources", "HttpRequester", "DoRequest"); fn != nil {
			r.analyse(shortFn(fn), func(x *Exec) {
				t := newResTrack(x)
				t.install(false)
				prev := x.h.PostCall
				x.h.PostCall = func(c *Call, res *Res) bool {
					if len(res.vals) == 2 && res.label == "ok" && typeKey(c.results.At(0).Type()) == "*net/http.Response" {
						rt := derefT(c.results.At(0).Type())
						body := res.st.load(fieldAddr(res.vals[0], rt, "Body"), fieldType(rt, structFieldIdx(rt, "Body")))
						x.pinned[body] = true
						x.count("response obtained", c.instr)
						t.open(res.st, c.instr, body, nil, "response body")
					}
					return prev(c, res)
				}
				x.trackFailures(true, nil)
				st, args := newState(x), x.params(fn)
				x.askedRange(st, args)
				for _, o := range x.enter(fn, st, args) {
					if o.kind != oRet {
						continue
					}
					x.count("request ended", o.at)
					for _, k := range t.leaks(o.st) {
						x.report(o.st, t.site[k], "leak", "a %s obtained here is not closed on every path", t.what[k])
					}
				}
			})
			r.need("response obtained", 1)
			r.need("request ended", 1)
		}
		for _, n := range []string{"Build", "Diff", "Patch"} {
			fn := r.anchor(cmdPkg, "", n)
			if fn == nil {
				continue
			}
			r.analyse(shortFn(fn), func(x *Exec) {
				t := newResTrack(x)
				t.install(false)
				prev := x.h.PostCall
				x.h.PostCall = func(c *Call, res *Res) bool {
					if len(res.vals) == 2 && res.label == "ok" && typeKey(c.results.At(0).Type()) == "*"+modPath+".RSync" {
						x.count("session opened by a command", c.instr)
						t.open(res.st, c.instr, res.vals[0], nil, "session")
					}
					return prev(c, res)
				}
				x.trackFailures(true, nil)
				x.h.Inline = func(c *Call) bool { return ownPkg(c.fn, cmdPkg) }
				x.h.Go = func(st *State, c *Call) bool { return true }
				for _, o := range x.enter(fn, newState(x), x.params(fn)) {
					x.count("command ended", o.at)
					for _, k := range t.leaks(o.st) {
						// the end of the process closes files, but does not
						// remove the temporary file of a session
						if o.kind == oRet || t.what[k] == "session" && o.kind == oExit {
							x.report(o.st, t.site[k], "leak", "a %s opened here is not closed when the command ends", t.what[k])
						}
					}
				}
			})
		}
		r.need("session opened by a command", 1)
		r.need("command ended", 1)
	})

	rule("C23", func(p *Prog, r *Report) {
		r.describe("MakeRSync, Patch and Close are analysed in sequence. A file is opened for writing while setting up only if it is new or provably not the input file, and then with its old content discarded; for the same file the output is a newly created file, and the original is replaced (truncating open and complete copy, or rename) only while closing, after the new file was closed without an error, and never after a failed patch.")
		mk, cl, pt := r.anchor("", "", "MakeRSync"), r.anchor("", "RSync", "Close"), r.anchor("", "RSync", "Patch")
		if mk == nil || cl == nil || pt == nil {
			return
		}
		r.analyse("session", func(x *Exec) { c23(x, mk, cl, pt) })
		r.need("in-place session", 1)
		r.need("session with another output", 1)
		r.need("original replaced", 1)
		r.need("in-place session closed after a failed patch", 1)
	})
}

func isNameOf(t, f *Term) bool {
	return t.kind == KCall && t.name == "(*os.File).Name" && t.args[0] == f
}

// patchSession runs RSync.Patch; the operations of other packages it uses are
// opaque and may fail.
func patchSession(x *Exec, s *State, pt *ssa.Function, rs *Term) []Outcome {
	inl := x.h.Inline
	x.h.Inline = func(c *Call) bool { return ownPkg(c.fn, "") }
	defer func() { x.h.Inline = inl }()
	un := x.unroll
	x.unroll = 0
	defer func() { x.unroll = un }()
	var outs []Outcome
	for _, o := range x.enter(pt, s.clone(), []*Term{rs}) {
		if o.kind != oRet {
			continue
		}
		delete(o.st.auto, "failed")
		o.st.auto["patch"] = "ok"
		if o.st.nilClass(o.vals[0]) != 1 {
			if o.st.nilClass(o.vals[0]) == 0 {
				// unknown: both
				n := o.st.clone()
				if n.assume(mkEq(o.vals[0], nilT), true) {
					outs = append(outs, Outcome{kind: oRet, st: n, vals: o.vals})
				}
				o.st.assume(mkEq(o.vals[0], nilT), false)
			}
			o.st.auto["patch"] = "failed"
		}
		outs = append(outs, o)
	}
	return outs
}

func c23(x *Exec, mk, cl, pt *ssa.Function) {
	x.unroll = 6
	t := newResTrack(x)
	t.install(true)
	phase := "make"
	var in, out *Term
	isOrig := func(p *Term) bool { return p == in || p == out }
	different := func(st *State) bool {
		if st.auto["missing"] != "" {
			return true
		}
		for i := 0; i < 3; i++ {
			for j := 0; j < 3; j++ {
				a, b := st.ghost[fmt.Sprint("stat in", i)], st.ghost[fmt.Sprint("stat out", j)]
				if a == nil || b == nil {
					continue
				}
				if st.truth(mkCall("os.SameFile", boolT, a, b)) == 0 || st.truth(mkCall("os.SameFile", boolT, b, a)) == 0 {
					return true
				}
			}
		}
		return false
	}
	prev := x.h.PostCall
	x.h.PreCall = func(st *State, c *Call) bool {
		path, write, trunc, create, excl, known, ok := openCall(c)
		temp := st.ghost["temp"]
		replace := func(what string) {
			switch {
			case phase != "close":
				x.report(st, c.instr, "original-touched", "the original may be %s before the session is closed", what)
			case temp == nil && !different(st):
				x.report(st, c.instr, "original-touched", "the original may be %s by a session that has no copy of the result", what)
			case temp != nil && st.auto[fmt.Sprintf("h%d", temp.id)] != "closed":
				x.report(st, c.instr, "too-early", "the original may be %s before the new file was closed without an error", what)
			case temp != nil && st.auto["patch"] == "failed":
				x.report(st, c.instr, "incomplete-result", "the original may be %s after the patch failed", what)
			}
		}
		if ok && path != nil && write && phase == "make" {
			switch {
			case excl && create:
			case !different(st):
				x.report(st, c.instr, "original-touched", "a file that may be the original is opened for writing before the patch")
			case path == in:
				x.report(st, c.instr, "original-touched", "the input file is opened for writing")
			case !known || !trunc && st.auto["missing out"] == "":
				x.report(st, c.instr, "stale-content", "the output file is opened without discarding its previous content")
			}
			if path == out {
				delete(st.auto, "uncreated")
				if known && !create && (st.auto["missing out"] != "" || st.auto["looked out"] == "") {
					st.auto["uncreated"] = "y" // fails for a missing output
				}
			}
		}
		if c.name == "os.CreateTemp" || c.name == "io/ioutil.TempFile" || c.name == "os.MkdirTemp" || c.name == "io/ioutil.TempDir" {
			d := c.args[0]
			if d.isStrConst() && d.strVal() != "" && d.strVal() != "." && !strings.HasPrefix(d.strVal(), "/") {
				x.report(st, c.instr, "no-directory", "the new file is made in a directory %q that need not exist", d.strVal())
			}
		}
		if ok && path != nil && write && phase == "close" {
			if isOrig(path) && temp != nil {
				x.count("original replaced", c.instr)
				replace("overwritten")
				if !known || !trunc {
					x.report(st, c.instr, "stale-content", "the original is overwritten without discarding its previous content")
				}
			} else if temp == nil {
				x.report(st, c.instr, "rewritten", "the output is opened for writing again while closing")
			}
		}
		if c.name == "os.Rename" && isOrig(c.args[1]) {
			x.count("original replaced", c.instr)
			replace("replaced")
			if temp == nil || !isNameOf(c.args[0], temp) {
				x.report(st, c.instr, "wrong-copy", "the original is replaced by something other than the new file")
			}
		}
		switch c.name {
		case "os.Remove", "os.RemoveAll", "os.Truncate", "os.WriteFile", "io/ioutil.WriteFile":
			if temp == nil || !isNameOf(c.args[0], temp) {
				x.report(st, c.instr, "original-touched", "%s may be applied to the original", c.name)
			} else if phase != "close" {
				x.report(st, c.instr, "result-lost", "the new file is removed before the session is closed")
			} else if st.auto["patch"] == "ok" && st.auto["replaced"] == "" {
				x.report(st, c.instr, "result-lost", "the new file is removed although it was not copied completely")
			} else if st.auto["patch"] == "ok" {
				for k, v := range st.auto {
					if k[0] == 'h' && v != "closed" && st.ghost["p"+k[1:]] == out && st.ghost[k] != nil {
						x.report(st, c.instr, "result-lost", "the new file is removed before its copy was closed without an error")
					}
				}
			}
		}
		return true
	}
	x.h.PostCall = func(c *Call, res *Res) bool {
		s := res.st
		if s.auto["uncreated"] != "" && s.ghost["uncreated"] == nil {
			if path, write, _, _, _, _, ok := openCall(c); ok && write && path == out {
				if res.label == "fail" || res.label == "err" {
					s.ghost["uncreated"] = res.vals[len(res.vals)-1]
				}
			}
		} else if s.auto["uncreated"] == "" {
			delete(s.ghost, "uncreated")
		}
		switch c.name {
		case "os.Stat", "os.Lstat":
			n := ""
			switch c.args[0] {
			case in:
				n = "in"
			case out:
				n = "out"
			}
			if n != "" {
				s.auto["looked "+n] = "y"
				delete(s.auto, "missing "+n)
				switch res.label {
				case "ok":
					if c.name == "os.Lstat" {
						break // about a link, not the file
					}
					i := 0
					for i < 2 && s.ghost[fmt.Sprint("stat "+n, i)] != nil {
						i++
					}
					s.ghost[fmt.Sprint("stat "+n, i)] = res.vals[0]
				case "notexist":
					s.auto["missing"] = "y"
					s.auto["missing "+n] = "y"
				}
			}
		case "io.Copy", "io.CopyBuffer":
			if res.label == "ok" && phase == "close" {
				dst, src := handleOf(c.args[0]), handleOf(c.args[1])
				dp, sp := s.ghost[fmt.Sprintf("p%d", dst.id)], s.ghost[fmt.Sprintf("p%d", src.id)]
				if dp == out && sp != nil && s.ghost["temp"] != nil && isNameOf(sp, s.ghost["temp"]) {
					s.auto["replaced"] = "y"
				}
			}
		case "os.Rename":
			if res.label == "ok" && c.args[1] == out && s.ghost["temp"] != nil && isNameOf(c.args[0], s.ghost["temp"]) {
				s.auto["replaced"] = "y"
			}
		case "os.CreateTemp", "io/ioutil.TempFile":
			if res.label == "ok" {
				s.ghost["temp"] = res.vals[0]
			}
		}
		return prev(c, res)
	}
	rsT := x.p.namedType("", "RSync")
	args := x.params(mk)
	in, out = args[0], args[2]
	x.h.Go = func(st *State, c *Call) bool { return true }
	x.h.Inline = func(c *Call) bool {
		if c.method == "Close" && !ownPkg(c.fn, "") {
			return false
		}
		return ownPkg(c.fn, "") || strings.HasPrefix(c.fn.Name(), "New") || strings.HasPrefix(c.fn.Name(), "Make")
	}
	for _, o := range x.enter(mk, newState(x), args) {
		s := o.st
		if e := s.ghost["uncreated"]; e != nil && o.kind == oRet && s.nilClass(o.vals[1]) == 2 && s.truth(mkCall("os.IsNotExist", boolT, e)) != 0 {
			x.report(s, o.at, "not-created", "an output that does not exist yet is not created")
		}
		if o.kind != oRet || s.nilClass(o.vals[1]) != 1 || s.nilClass(o.vals[0]) != 2 {
			continue
		}
		ov := s.load(fieldAddr(o.vals[0], rsT, "Output"), fieldType(rsT, structFieldIdx(rsT, "Output")))
		h := handleOf(ov)
		k := fmt.Sprintf("h%d", h.id)
		if s.auto[k] != "open" {
			x.report(s, o.at, "no-output", "the output of the session is not an open file")
			continue
		}
		iv := handleOf(s.load(fieldAddr(o.vals[0], rsT, "Input"), fieldType(rsT, structFieldIdx(rsT, "Input"))))
		if s.ghost[fmt.Sprintf("p%d", iv.id)] != in || s.auto[fmt.Sprintf("h%d", iv.id)] != "open" {
			x.report(s, o.at, "no-input", "the input of the session is not the opened input file")
		}
		if temp := s.ghost["temp"]; temp != nil {
			x.count("in-place session", o.at)
			if h != temp {
				x.report(s, o.at, "wrong-output", "the output of an in-place session is not the new file")
			}
		} else {
			x.count("session with another output", o.at)
			if s.ghost["p"+k[1:]] != out {
				x.report(s, o.at, "wrong-output", "the output of the session is not the output file")
			}
			if !different(s) {
				x.report(s, o.at, "same-file", "the output file may be the input file although no new file is used")
			}
		}
		phase = "patch"
		pos := patchSession(x, s, pt, o.vals[0])
		phase = "close"
		for _, po := range pos {
			for _, c := range x.enter(cl, po.st.clone(), []*Term{o.vals[0]}) {
				if c.kind != oRet {
					continue
				}
				cs := c.st
				if cs.ghost["temp"] != nil && cs.auto["patch"] == "failed" {
					x.count("in-place session closed after a failed patch", c.at)
				}
				if cs.ghost["temp"] != nil && cs.auto["patch"] == "ok" && cs.nilClass(c.vals[0]) != 2 {
					if cs.auto["replaced"] == "" {
						x.report(cs, c.at, "not-replaced", "closing the session reports success without having copied the new file completely over the original")
					}
					for _, hk := range t.leaks(cs) {
						if cs.ghost["p"+hk[1:]] == out {
							x.report(cs, c.at, "not-flushed", "closing the session reports success before the copy was closed")
						}
					}
				}
			}
		}
		phase = "make"
	}
}
