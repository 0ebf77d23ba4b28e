package main

// C38: the commands never write over the files they read.

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rule("C38", func(p *Prog, r *Report) {
		r.describe("The commands are analysed with any arguments. Whenever a command opens a file for writing, replaces, truncates or removes it, every file it has opened for reading must be known to be another one (told apart by os.SameFile, or the file written did not exist, or must not exist), and no file written may be opened for reading unless it is known to be another one.")
		for _, n := range []string{"Build", "Diff", "Patch"} {
			fn := r.anchor(cmdPkg, "", n)
			if fn == nil {
				continue
			}
			r.analyse(shortFn(fn), func(x *Exec) { c38(x, fn) })
		}
		r.need("file opened for reading", 3)
		r.need("file written", 1)
	})
}

func c38(x *Exec, fn *ssa.Function) {
	t := newResTrack(x)
	t.install(false)
	prevM := x.h.Model
	x.h.Model = func(st *State, c *Call) ([]Res, bool) {
		// the arguments and flags of a command do not change
		rt := c.recvT
		if rt == nil && c.fn != nil && c.fn.Signature.Recv() != nil {
			rt = c.fn.Signature.Recv().Type()
		}
		if rt != nil && strings.HasPrefix(strings.TrimPrefix(typeKey(rt), "*"), "github.com/urfave/cli/") && c.results.Len() == 1 {
			m := c.method
			if m == "" && c.fn != nil {
				m = c.fn.Name()
			}
			args := append([]*Term{}, c.args...)
			if m == "First" {
				m, args = "Get", []*Term{args[0], mkInt(0)}
			}
			v := mkCall("cli "+m, c.results.At(0).Type(), args...)
			if m == "Args" {
				st.assume(mkEq(v, nilT), false)
			}
			return []Res{{st: st, vals: []*Term{v}}}, true
		}
		return prevM(st, c)
	}
	// files by number: the path, and what is known of it
	number := func(st *State, kind string, path *Term) int {
		for i := 0; ; i++ {
			k := fmt.Sprint(kind, " ", i)
			switch st.ghost[k] {
			case nil:
				st.ghost[k] = path
				return i
			case path:
				return i
			}
		}
	}
	stats := func(st *State, path *Term) []*Term {
		var out []*Term
		for i := 0; st.ghost[fmt.Sprint("stat of ", path.id, " ", i)] != nil; i++ {
			out = append(out, st.ghost[fmt.Sprint("stat of ", path.id, " ", i)])
		}
		return out
	}
	addStat := func(st *State, path, fi *Term) {
		st.ghost[fmt.Sprint("stat of ", path.id, " ", len(stats(st, path)))] = fi
	}
	different := func(st *State, a, b *Term) bool {
		if st.auto[fmt.Sprint("differs ", a.id, " ", b.id)] != "" || st.auto[fmt.Sprint("differs ", b.id, " ", a.id)] != "" {
			return true // found out before one of them was made
		}
		for _, p := range []*Term{a, b} {
			if st.auto[fmt.Sprint("missing ", p.id)] != "" {
				return true
			}
		}
		for _, f := range stats(st, a) {
			for _, g := range stats(st, b) {
				if st.truth(mkCall("os.SameFile", boolT, f, g)) == 0 || st.truth(mkCall("os.SameFile", boolT, g, f)) == 0 {
					return true
				}
			}
		}
		return false
	}
	written := func(st *State, c *Call, path *Term, what string) {
		if path.kind == KCall && path.name == "(*os.File).Name" {
			h := path.args[0].id
			if path = st.ghost[fmt.Sprintf("p%d", h)]; path == nil {
				if st.ghost[fmt.Sprintf("h%d", h)] == nil {
					x.report(st, c.instr, "overwritten", "it is not known which file is %s", what)
				}
				return // a temporary file this command made
			}
		}
		x.count("file written", c.instr)
		for i := 0; st.ghost[fmt.Sprint("reads ", i)] != nil; i++ {
			if q := st.ghost[fmt.Sprint("reads ", i)]; !different(st, q, path) {
				x.report(st, c.instr, "overwritten", "the file %s may be the file %v the command reads", what, q)
				return
			} else {
				st.auto[fmt.Sprint("differs ", q.id, " ", path.id)] = "y"
			}
		}
		number(st, "writes", path)
	}
	x.h.PreCall = func(st *State, c *Call) bool {
		path, write, _, create, excl, _, ok := openCall(c)
		switch {
		case ok && path != nil && write:
			if !(excl && create) {
				written(st, c, path, "opened for writing")
			}
		case ok && path != nil:
			x.count("file opened for reading", c.instr)
			for i := 0; st.ghost[fmt.Sprint("writes ", i)] != nil; i++ {
				if q := st.ghost[fmt.Sprint("writes ", i)]; !different(st, q, path) {
					x.report(st, c.instr, "overwritten", "the file opened for reading may be the file %v the command has written", q)
				}
			}
		}
		switch c.name {
		case "os.WriteFile", "io/ioutil.WriteFile", "os.Truncate", "os.Remove", "os.RemoveAll":
			written(st, c, c.args[0], "changed by "+c.name)
		case "os.Rename":
			written(st, c, c.args[1], "replaced")
			written(st, c, c.args[0], "moved away")
		case "(*os.File).Truncate", "(*os.File).Write", "(*os.File).WriteAt", "(*os.File).WriteString":
			// harmless on a file opened for reading
		}
		return true
	}
	prev := x.h.PostCall
	x.h.PostCall = func(c *Call, res *Res) bool {
		s := res.st
		if path, write, _, _, _, _, ok := openCall(c); ok && path != nil && res.label == "ok" {
			if !write {
				if s.auto[fmt.Sprint("missing ", path.id)] != "" {
					return false // no other process creates it meanwhile
				}
				number(s, "reads", path)
			}
			delete(s.auto, fmt.Sprint("missing ", path.id))
		}
		switch c.name {
		case "os.Stat", "os.Lstat":
			delete(s.auto, fmt.Sprint("missing ", c.args[0].id))
			switch res.label {
			case "ok":
				if c.name == "os.Lstat" {
					break // about a link, not the file
				}
				addStat(s, c.args[0], res.vals[0])
			case "notexist":
				s.auto[fmt.Sprint("missing ", c.args[0].id)] = "y"
			}
		case "(*os.File).Stat":
			if path := s.ghost[fmt.Sprintf("p%d", handleOf(c.args[0]).id)]; path != nil && res.label != "fail" {
				addStat(s, path, res.vals[0])
			}
		}
		return prev(c, res)
	}
	x.trackFailures(true, nil)
	// sessions are C23
	session := func(c *Call) bool {
		return c.results.Len() > 0 && typeKey(c.results.At(0).Type()) == "*"+modPath+".RSync"
	}
	x.h.Inline = func(c *Call) bool {
		if c.fn == nil {
			return false
		}
		return ownPkg(c.fn, cmdPkg) || ownPkg(c.fn, "") && c.fn.Signature.Recv() == nil && !session(c)
	}
	x.h.Go = func(st *State, c *Call) bool { return true }
	x.enter(fn, newState(x), x.params(fn))
}
