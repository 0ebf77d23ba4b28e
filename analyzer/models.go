package main

// Models of functions outside the module.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// opKind classifies external operations by their documented contract.
func (x *Exec) opKind(c *Call) string {
	n := c.name
	switch n {
	case "io.ReadFull", "io.ReadAtLeast", "io.Copy", "io.CopyN", "io.CopyBuffer", "io.ReadAll", "io/ioutil.ReadAll",
		"os.Stat", "os.Lstat", "os.Open", "os.Create", "os.OpenFile", "os.Remove", "os.Rename",
		"errors.New", "fmt.Errorf", "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln",
		"errors.Is", "os.IsNotExist", "os.IsExist", "os.IsPermission",
		"fmt.Sprintf", "fmt.Sprint", "encoding/binary.Read", "encoding/binary.Write", "sync.Once.Do":
		return n
	}
	if n == "io.WriteString" {
		if a := c.args[0]; a.kind == KIface && isBufferType(a.typ) {
			return "buffer.Write"
		}
		return "Write"
	}
	if strings.HasPrefix(n, "fmt.Print") || strings.HasPrefix(n, "fmt.Fprint") || strings.HasPrefix(n, "log.Print") {
		return "print"
	}
	if c.method != "" && c.recvT != nil {
		sig := c.sig
		r := sig.Results()
		// receiver of method expressions is not part of Params for methods
		ps := sig.Params()
		isBytes := func(i int) bool {
			if ps.Len() <= i {
				return false
			}
			s, ok := ps.At(i).Type().Underlying().(*types.Slice)
			return ok && isByteish(s.Elem())
		}
		errLast := r.Len() > 0 && isErrorType(r.At(r.Len()-1).Type())
		switch c.method {
		case "Read":
			if ps.Len() == 1 && isBytes(0) && r.Len() == 2 && errLast {
				return "Read"
			}
		case "Write":
			if ps.Len() == 1 && isBytes(0) && r.Len() == 2 && errLast {
				if isHashType(c.recvT) || x.isHashTerm(c.args[0]) {
					return "hash.Write"
				}
				if isBufferType(c.recvT) {
					return "buffer.Write"
				}
				return "Write"
			}
		case "WriteString":
			if r.Len() == 2 && errLast {
				if isBufferType(c.recvT) {
					return "buffer.Write"
				}
				return "Write"
			}
		case "Seek":
			if r.Len() == 2 && errLast {
				return "Seek"
			}
		case "Close":
			if ps.Len() == 0 && r.Len() == 1 && errLast {
				return "Close"
			}
		case "Sum":
			if ps.Len() == 1 && isBytes(0) && r.Len() == 1 {
				return "hash.Sum"
			}
		case "Reset":
			if isHashType(c.recvT) || x.isHashTerm(c.args[0]) {
				return "hash.Reset"
			}
		case "Size":
			if isHashType(c.recvT) || x.isHashTerm(c.args[0]) {
				return "hash.Size"
			}
		case "Error":
			if ps.Len() == 0 && r.Len() == 1 && isStringType(r.At(0).Type()) {
				return "pure"
			}
		}
	}
	return ""
}

func isHashType(t types.Type) bool {
	if t == nil {
		return false
	}
	s := typeKey(t)
	return s == "hash.Hash" || s == "hash.Hash32" || s == "hash.Hash64"
}

func (x *Exec) isHashTerm(t *Term) bool {
	return t != nil && (isHashType(t.typ) || t.kind == KCall && strings.HasPrefix(t.name, "nonnil:hash"))
}

func isBufferType(t types.Type) bool {
	s := typeKey(t)
	return s == "*bytes.Buffer" || s == "*strings.Builder"
}

// read only / effect free functions of other packages: results depend on the
// arguments only
var pureFns = map[string]bool{
	"bytes.Compare": true, "bytes.Equal": true, "strings.Contains": true, "strings.HasPrefix": true, "strings.HasSuffix": true,
	"path/filepath.Ext": true, "path/filepath.Base": true, "path/filepath.Dir": true, "strings.ToLower": true, "strings.TrimSuffix": true,
	"os.IsNotExist": true, "os.IsExist": true, "os.IsPermission": true, "errors.Is": true, "os.SameFile": true,
	"(encoding/binary.littleEndian).Uint32": true, "(encoding/binary.littleEndian).Uint16": true, "(encoding/binary.littleEndian).Uint64": true,
	"(encoding/binary.bigEndian).Uint32": true, "(encoding/binary.bigEndian).Uint16": true, "(encoding/binary.bigEndian).Uint64": true,
	"strconv.Itoa": true, "strconv.FormatInt": true, "strings.EqualFold": true, "math.MaxInt": true,
	"(io/fs.FileInfo).Size": true, "(io/fs.FileInfo).Mode": true, "(io/fs.FileInfo).Name": true,
	"(time.Time).Sub": true, "(time.Duration).Seconds": true,
	"(*os.File).Name": true, "(error).Error": true,
	"(hash.Hash).Size": true, "(hash.Hash).BlockSize": true,
	"(*net/http.Request).ProtoAtLeast": true, "(net/http.Header).Get": true,
}

var readOnlyPkgs = []string{"fmt", "strings", "errors", "os", "time", "log", "path/filepath", "path", "strconv", "runtime", "math", "net/url", "sync", "sync/atomic", "github.com/urfave/cli/v2", "unicode/utf8", "math/bits"}

func pkgOfName(n string) string {
	s := strings.TrimLeft(n, "(*")
	if i := strings.LastIndexByte(s, '/'); i >= 0 {
		if j := strings.IndexByte(s[i:], '.'); j >= 0 {
			return s[:i+j]
		}
		return s
	}
	if j := strings.IndexByte(s, '.'); j >= 0 {
		return s[:j]
	}
	return s
}

// mkErr: fresh non-nil error distinct from the given sentinels.
func (x *Exec) mkErr(st *State, c *Call, label string, not ...*Term) *Term {
	e := st.fresh(x.name(c.ctx, c.instr, "err:"+label), errorType)
	st.assume(mkEq(e, nilT), false)
	for _, s := range not {
		st.assume(mkEq(e, s), false)
	}
	return e
}

func (x *Exec) eof() *Term  { return x.p.sentinel("io", "EOF") }
func (x *Exec) ueof() *Term { return x.p.sentinel("io", "ErrUnexpectedEOF") }

// newContent replaces the bytes of the slice argument.
func (x *Exec) newContent(st *State, c *Call, buf *Term) {
	if buf == nilT || buf == nil {
		return
	}
	b, lo, hi := sliceParts(buf)
	v := st.fresh(x.name(c.ctx, c.instr, "bytes"), nil)
	if z, ok := constInt(lo); ok && z == 0 && st.provesEq(hi, mkLen(b)) {
		st.setContent(b, v)
		return
	}
	st.setContent(b, mkCall("overwritten", nil, st.contentOf(b), lo, hi, v))
}

func argAt(c *Call, i int) *Term {
	if i < len(c.args) {
		return c.args[i]
	}
	return nilT
}

// extern models a call that is not analysed.
func (x *Exec) extern(st *State, c *Call) []Res {
	k := x.opKind(c)
	T := func(i int) types.Type { return c.results.At(i).Type() }
	_ = T
	switch k {
	case "Read":
		buf := c.args[1]
		return x.readModel(st, c, buf, false)
	case "io.ReadFull":
		return x.readModel(st, c, c.args[1], true)
	case "Write":
		var out []Res
		n := st.clone()
		out = append(out, Res{st: n, vals: []*Term{lenOfArg(c.args[1]), nilT}, label: "ok"})
		n = st.clone()
		cnt := n.fresh(x.name(c.ctx, c.instr, "n"), types.Typ[types.Int])
		n.addGe(cnt, mkInt(0))
		out = append(out, Res{st: n, vals: []*Term{cnt, x.mkErr(n, c, "write")}, label: "fail"})
		return out
	case "hash.Write", "buffer.Write":
		return []Res{{st: st, vals: []*Term{lenOfArg(c.args[1]), nilT}}}
	case "hash.Sum":
		res := st.freshAlloc(x.name(c.ctx, c.instr, "sum"), T(0))
		st.addEq(mkLen(res), mkAdd(x.lenSafe(c.args[1]), mkCall("hashsize", types.Typ[types.Uint], c.args[0])))
		st.setContent(res, st.fresh(x.name(c.ctx, c.instr, "digest"), nil))
		return []Res{{st: st, vals: []*Term{res}}}
	case "hash.Reset":
		return []Res{{st: st}}
	case "hash.Size":
		return []Res{{st: st, vals: []*Term{mkCall("hashsize", types.Typ[types.Uint], c.args[0])}}}
	case "Close":
		out := []Res{{st: st.clone(), vals: []*Term{nilT}, label: "ok"}}
		n := st.clone()
		return append(out, Res{st: n, vals: []*Term{x.mkErr(n, c, "close")}, label: "fail"})
	case "errors.New", "fmt.Errorf":
		e := st.fresh("newerr:"+x.name(c.ctx, c.instr, ""), errorType)
		st.assume(mkEq(e, nilT), false)
		return []Res{{st: st, vals: []*Term{e}}}
	case "os.Exit":
		return []Res{{st: st, vals: c.args, exit: true, label: "exit " + argAt(c, 0).String()}}
	case "log.Fatal", "log.Fatalf", "log.Fatalln":
		return []Res{{st: st, vals: []*Term{mkInt(1)}, exit: true, label: "exit 1"}}
	case "print":
		var out []Res
		vals := []*Term{}
		if c.results.Len() == 2 {
			n := st.clone()
			cnt := n.fresh(x.name(c.ctx, c.instr, "n"), types.Typ[types.Int])
			if strings.HasPrefix(c.name, "fmt.Fprint") && !x.stdStream(c.args[0]) {
				out = append(out, Res{st: n, vals: []*Term{cnt, nilT}, label: "ok"})
				f := st.clone()
				return append(out, Res{st: f, vals: []*Term{mkInt(0), x.mkErr(f, c, "write")}, label: "fail"})
			}
			return []Res{{st: n, vals: []*Term{cnt, nilT}}}
		}
		return []Res{{st: st, vals: vals}}
	case "errors.Is":
		if c.args[0] == nilT {
			return []Res{{st: st, vals: []*Term{falseT}}}
		}
		if c.args[1].kind == KLoad && c.args[1].args[0].kind == KGlob {
			switch c.args[1].args[0].name {
			case "os.ErrNotExist", "io/fs.ErrNotExist":
				return []Res{{st: st, vals: []*Term{mkCall("os.IsNotExist", types.Typ[types.Bool], c.args[0])}}}
			case "os.ErrExist", "io/fs.ErrExist":
				return []Res{{st: st, vals: []*Term{mkCall("os.IsExist", types.Typ[types.Bool], c.args[0])}}}
			}
		}
		if isSentinel(c.args[1]) && (isSentinel(c.args[0]) || isFreshErr(c.args[0]) || st.truth(mkEq(c.args[0], c.args[1])) == 0) {
			return []Res{{st: st, vals: []*Term{mkEq(c.args[0], c.args[1])}}}
		}
		if isSentinel(c.args[1]) {
			return []Res{{st: st, vals: []*Term{mkEq(c.args[0], c.args[1])}}}
		}
	case "os.IsNotExist", "os.IsExist", "os.IsPermission":
		if c.args[0] == nilT {
			return []Res{{st: st, vals: []*Term{falseT}}}
		}
		return []Res{{st: st, vals: []*Term{mkCall(k, types.Typ[types.Bool], c.args[0])}}}
	case "fmt.Sprintf":
		return []Res{{st: st, vals: []*Term{x.sprintf(st, c)}}}
	case "fmt.Sprint":
		return []Res{{st: st, vals: []*Term{st.fresh(x.name(c.ctx, c.instr, "str"), types.Typ[types.String])}}}
	case "pure":
		return []Res{{st: st, vals: []*Term{mkCall(c.name, T(0), c.args...)}}}
	}
	switch c.name {
	case "os.Stat", "os.Lstat":
		var out []Res
		n := st.clone()
		fi := n.fresh(x.name(c.ctx, c.instr, "fi"), T(0))
		n.assume(mkEq(fi, nilT), false)
		out = append(out, Res{st: n, vals: []*Term{fi, nilT}, label: "ok"})
		n = st.clone()
		e := x.mkErr(n, c, "notexist")
		n.assume(mkCall("os.IsNotExist", types.Typ[types.Bool], e), true)
		out = append(out, Res{st: n, vals: []*Term{nilT, e}, label: "notexist"})
		n = st.clone()
		e = x.mkErr(n, c, "stat")
		n.assume(mkCall("os.IsNotExist", types.Typ[types.Bool], e), false)
		return append(out, Res{st: n, vals: []*Term{nilT, e}, label: "fail"})
	case "(encoding/binary.littleEndian).PutUint32", "(encoding/binary.littleEndian).PutUint16", "(encoding/binary.littleEndian).PutUint64",
		"(encoding/binary.bigEndian).PutUint32", "(encoding/binary.bigEndian).PutUint16", "(encoding/binary.bigEndian).PutUint64":
		b, lo, _ := sliceParts(c.args[1])
		if c.args[1] != nilT {
			st.setContent(b, mkCall(c.name, nil, st.contentOf(b), lo, c.args[2]))
		}
		return []Res{{st: st}}
	case "bytes.Compare", "bytes.Equal":
		return []Res{{st: st, vals: []*Term{x.bytesCmp(st, c)}}}
	case "(encoding/binary.littleEndian).Uint32", "(encoding/binary.littleEndian).Uint16", "(encoding/binary.littleEndian).Uint64",
		"(encoding/binary.bigEndian).Uint32", "(encoding/binary.bigEndian).Uint16", "(encoding/binary.bigEndian).Uint64":
		b, lo, _ := sliceParts(c.args[1])
		var ct *Term = mkConst("none", nil)
		if c.args[1] != nilT {
			ct = st.contentOf(b)
		}
		return []Res{{st: st, vals: []*Term{mkCall(c.name, T(0), ct, lo)}}}
	case "sort.Sort", "sort.Stable", "sort.Slice", "sort.SliceStable", "slices.Sort":
		v := c.args[0]
		for v.kind == KIface || v.kind == KCall && v.name == "sort.Reverse" {
			v = v.args[0]
		}
		x.permute(st, v)
		return []Res{{st: st}}
	case "sort.Reverse":
		return []Res{{st: st, vals: []*Term{mkCall("sort.Reverse", T(0), c.args...)}}}
	case "sort.Search":
		i := st.fresh(x.name(c.ctx, c.instr, "i"), types.Typ[types.Int])
		st.addGe(i, mkInt(0))
		st.addGe(c.args[0], i)
		return []Res{{st: st, vals: []*Term{i}}}
	case "(*sync.Once).Do":
		var out []Res
		out = append(out, Res{st: st.clone(), label: "not the first call"})
		f := c.args[1]
		if f.kind == KClosure || f.kind == KFunc {
			fn := f.obj.(*ssa.Function)
			if fn.Blocks != nil {
				d := &Call{instr: c.instr, ctx: c.ctx, fnTerm: f, fn: fn, name: fn.String(), sig: fn.Signature, results: fn.Signature.Results(), common: c.common, isDef: true}
				for _, o := range x.doCall(st.clone(), d) {
					switch o.kind {
					case oRet:
						out = append(out, Res{st: o.st, label: "first call"})
					case oPanic:
						out = append(out, Res{st: o.st, vals: o.vals, pan: true})
					case oExit:
						out = append(out, Res{st: o.st, vals: o.vals, exit: true})
					}
				}
			}
		}
		return out
	case "io.CopyN":
		// a source that ends early is reported as io.EOF
		x.clobber(st, c, 0, c.args[0])
		x.clobber(st, c, 1, c.args[1])
		var out []Res
		for _, k := range []string{"ok", "eof", "fail"} {
			n := st.clone()
			cnt := c.args[2]
			if k != "ok" {
				cnt = n.fresh(x.name(c.ctx, c.instr, "n"), T(0))
				if !n.addGe(cnt, mkInt(0)) || !n.addGe(c.args[2], mkAdd(cnt, mkInt(1))) && k == "eof" {
					continue
				}
			}
			e := nilT
			switch k {
			case "eof":
				e = x.eof()
			case "fail":
				e = x.mkErr(n, c, "copy", x.eof())
			}
			out = append(out, Res{st: n, vals: []*Term{cnt, e}, label: k})
		}
		return out
	case "(*bytes.Buffer).Bytes":
		return []Res{{st: st, vals: []*Term{mkCall("buffer.Bytes#"+fmt.Sprint(st.epoch[c.args[0]]), T(0), c.args[0])}}}
	case "(*bytes.Buffer).Len":
		return []Res{{st: st, vals: []*Term{mkLen(mkCall("buffer.Bytes#"+fmt.Sprint(st.epoch[c.args[0]]), types.NewSlice(types.Typ[types.Byte]), c.args[0]))}}}
	case "(*bytes.Buffer).ReadFrom":
		st.epoch[c.args[0]]++
		var out []Res
		n := st.clone()
		cnt := n.fresh(x.name(c.ctx, c.instr, "n"), T(0))
		n.addGe(cnt, mkInt(0))
		out = append(out, Res{st: n, vals: []*Term{cnt, nilT}, label: "ok"})
		n = st.clone()
		cnt = n.fresh(x.name(c.ctx, c.instr, "n"), T(0))
		n.addGe(cnt, mkInt(0))
		return append(out, Res{st: n, vals: []*Term{cnt, x.mkErr(n, c, "read")}, label: "fail"})
	case "crypto/md5.New", "crypto/sha1.New", "crypto/sha256.New":
		h := st.freshAlloc(x.name(c.ctx, c.instr, "hash"), T(0))
		return []Res{{st: st, vals: []*Term{h}}}
	}
	if pureFns[c.name] {
		if c.results.Len() == 1 {
			if !c.invoke && c.sig.Recv() != nil && isPointer(c.recvT) && st.nilClass(c.args[0]) == 1 {
				return x.nilRecv(st, c)
			}
			v := mkCall(c.name, T(0), c.args...)
			switch c.name {
			case "(hash.Hash).Size", "(hash.Hash).BlockSize", "(io/fs.FileInfo).Size":
				st.addGe(v, mkInt(0))
			case "path/filepath.Ext":
				// a part of the path
				st.addGe(mkLen(c.args[0]), mkLen(v))
			}
			return []Res{{st: st, vals: []*Term{v}}}
		}
	}
	return x.generic(st, c)
}

func isPointer(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

func (x *Exec) nilRecv(st *State, c *Call) []Res {
	if x.crash {
		x.report(st, c.instr, "may-panic", "a method can be called on nil here")
	}
	if x.h.NilDeref != nil {
		x.h.NilDeref(st, c.instr, c.ctx)
	}
	return []Res{{st: st, vals: []*Term{mkSym("nil receiver", nil)}, pan: true, label: "panics: nil receiver"}}
}

func (x *Exec) stdStream(w *Term) bool {
	for w.kind == KIface {
		w = w.args[0]
	}
	return w.kind == KLoad && w.args[0].kind == KGlob && (w.args[0].name == "os.Stderr" || w.args[0].name == "os.Stdout")
}

func lenOfArg(a *Term) *Term {
	if a == nilT {
		return mkInt(0)
	}
	return mkLen(a)
}

func (x *Exec) lenSafe(a *Term) *Term { return lenOfArg(a) }

// readModel: results of Read / ReadFull into buf.
func (x *Exec) readModel(st *State, c *Call, buf *Term, full bool) []Res {
	var out []Res
	L := lenOfArg(buf)
	nT := types.Typ[types.Int]
	mk := func(label string, n *Term, lo, hi *Term, err func(s *State) *Term) {
		s := st.clone()
		if n == nil {
			n = s.fresh(x.name(c.ctx, c.instr, "n"), nT)
			if lo != nil && !s.addGe(n, lo) {
				return
			}
			if hi != nil && !s.addGe(hi, n) {
				return
			}
		}
		x.newContent(s, c, buf)
		out = append(out, Res{st: s, vals: []*Term{n, err(s)}, label: label})
	}
	isNil := func(s *State) *Term { return nilT }
	eof := func(s *State) *Term { return x.eof() }
	ueof := func(s *State) *Term { return x.ueof() }
	bad := func(s *State) *Term { return x.mkErr(s, c, "read", x.eof(), x.ueof()) }
	if full {
		mk("ok", L, nil, nil, isNil)
		{
			s := st.clone()
			if s.addGe(L, mkInt(1)) {
				x.newContent(s, c, buf)
				out = append(out, Res{st: s, vals: []*Term{mkInt(0), x.eof()}, label: "eof"})
			}
		}
		mk("ueof", nil, mkInt(1), mkSub(L, mkInt(1)), ueof)
		mk("fail", nil, mkInt(0), mkSub(L, mkInt(1)), bad)
	} else {
		mk("ok", nil, mkInt(0), L, isNil)
		mk("eof", nil, mkInt(0), L, eof)
		mk("fail", nil, mkInt(0), L, bad)
	}
	return out
}

func (x *Exec) bytesCmp(st *State, c *Call) *Term {
	a, b := x.bytesVal(st, c.args[0]), x.bytesVal(st, c.args[1])
	if c.name == "bytes.Equal" {
		if a == b {
			return trueT
		}
		p, q := a, b
		if p.id > q.id {
			p, q = q, p
		}
		return mkCall("bytesEq", types.Typ[types.Bool], p, q)
	}
	return mkCall("bytesCmp", types.Typ[types.Int], a, b)
}

// bytesVal: the byte string a slice denotes now.
func (x *Exec) bytesVal(st *State, v *Term) *Term {
	if v == nilT {
		return mkConst("nobytes", nil)
	}
	b, lo, hi := sliceParts(v)
	return mkCall("bytesOf", nil, st.contentOf(b), lo, hi)
}

// permute: the elements of the slice are reordered.
func (x *Exec) permute(st *State, v *Term) {
	if v == nilT {
		return
	}
	b, _, _ := sliceParts(v)
	var et types.Type
	var del []*Term
	for _, k := range sortedTerms(st.mem) {
		e := k
		for e.kind == KField {
			e = e.args[0]
		}
		if e.kind == KIndex && e.args[0] == b {
			et = e.typ
			del = append(del, k)
		}
	}
	if et != nil && !isByteish(et) {
		if st.provesEq(mkLen(v), mkInt(1)) {
			return
		}
		st.absorb(b, et)
		for _, k := range del {
			delete(st.mem, k)
		}
	} else if !st.hasSummary(b) && !isFreshObj(st, rootOf(b)) {
		st.epoch[b]++
	}
}

// sprintf builds the string normal form for the verbs it understands.
func (x *Exec) sprintf(st *State, c *Call) *Term {
	f := c.args[0]
	if !f.isStrConst() {
		return st.fresh(x.name(c.ctx, c.instr, "str"), types.Typ[types.String])
	}
	var args []*Term
	if len(c.args) > 1 && c.args[1] != nilT {
		b, lo, hi := sliceParts(c.args[1])
		l, ok1 := constInt(lo)
		h, ok2 := constInt(hi)
		if !ok1 || !ok2 {
			return st.fresh(x.name(c.ctx, c.instr, "str"), types.Typ[types.String])
		}
		for i := l; i < h; i++ {
			args = append(args, st.load(mkIndex(b, mkInt(i), types.NewInterfaceType(nil, nil)), types.NewInterfaceType(nil, nil)))
		}
	}
	s := f.strVal()
	var parts []*Term
	ai := 0
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			j := i
			for j < len(s) && s[j] != '%' {
				j++
			}
			parts = append(parts, mkStrConst(s[i:j]))
			i = j - 1
			continue
		}
		i++
		if i < len(s) && s[i] == '%' {
			parts = append(parts, mkStrConst("%"))
			continue
		}
		if i >= len(s) || ai >= len(args) {
			return st.fresh(x.name(c.ctx, c.instr, "str"), types.Typ[types.String])
		}
		a := args[ai]
		ai++
		v := a
		var t types.Type
		if a.kind == KIface {
			v, t = a.args[0], a.typ
		}
		switch {
		case (s[i] == 'v' || s[i] == 'd') && t != nil && isIntType(t):
			parts = append(parts, mkCall("dec", types.Typ[types.String], v))
		case (s[i] == 'v' || s[i] == 's') && t != nil && isStringType(t) && !hasMethods(t):
			parts = append(parts, v)
		default:
			parts = append(parts, mkCall("fmt:"+string(s[i]), types.Typ[types.String], a))
		}
	}
	return mkConcat(parts...)
}

func hasMethods(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.NumMethods() > 0
}

// generic: unknown function. Error results fork into success and failure.
func (x *Exec) generic(st *State, c *Call) []Res {
	// receivers
	if !c.invoke && c.fn != nil && c.fn.Signature.Recv() != nil && isPointer(c.fn.Signature.Recv().Type()) && st.nilClass(c.args[0]) == 1 {
		if c.name != "(*os.File).Close" {
			return x.nilRecv(st, c)
		}
	}
	ro := false
	pk := pkgOfName(c.name)
	for _, p := range readOnlyPkgs {
		if p == pk {
			ro = true
		}
	}
	if !ro {
		for i, a := range c.args {
			x.clobber(st, c, i, a)
		}
	} else {
		for _, a := range c.args {
			if a.kind == KClosure {
				x.clobberClosure(st, a)
			}
		}
	}
	n := c.results.Len()
	if n == 0 {
		return []Res{{st: st}}
	}
	mkVal := func(s *State, i int, ok bool) *Term {
		t := c.results.At(i).Type()
		v := s.fresh(x.name(c.ctx, c.instr, fmt.Sprintf("r%d", i)), t)
		if n == 1 && c.invoke && isIntType(t) && (c.method == "Size" || c.method == "Len" || c.method == "BlockSize") {
			s.addGe(v, mkInt(0))
		}
		if x.crash && n == 1 && c.invoke && c.method == "GetBlockSize" {
			x.assumptions["the block size is at least one byte (C35)"] = true
			s.addGe(v, mkInt(1))
		}
		if ok {
			switch t.Underlying().(type) {
			case *types.Pointer, *types.Interface, *types.Map, *types.Chan, *types.Signature:
				s.assume(mkEq(v, nilT), false)
			}
		}
		return v
	}
	if !isErrorType(c.results.At(n - 1).Type()) {
		vals := make([]*Term, n)
		for i := range vals {
			vals[i] = mkVal(st, i, x.neverNil(c))
		}
		return []Res{{st: st, vals: vals}}
	}
	var out []Res
	s := st.clone()
	vals := make([]*Term, n)
	for i := 0; i < n-1; i++ {
		vals[i] = mkVal(s, i, true)
	}
	vals[n-1] = nilT
	out = append(out, Res{st: s, vals: vals, label: "ok"})
	s = st.clone()
	vals = make([]*Term, n)
	for i := 0; i < n-1; i++ {
		t := c.results.At(i).Type()
		if isNilable(t) {
			vals[i] = nilT
		} else if isIntType(t) {
			vals[i] = mkVal(s, i, false)
		} else {
			vals[i] = mkVal(s, i, false)
		}
	}
	vals[n-1] = x.mkErr(s, c, shortName(c.name))
	return append(out, Res{st: s, vals: vals, label: "fail"})
}

func (x *Exec) neverNil(c *Call) bool {
	n := c.name
	return strings.Contains(n, "New") || strings.Contains(n, ".Args") || strings.Contains(n, "Reader") || strings.Contains(n, "context.")
}

// clobber: an unknown function may change what it can reach.
func (x *Exec) clobber(st *State, c *Call, i int, a *Term) {
	switch a.kind {
	case KIface:
		x.clobber(st, c, i, a.args[0])
	case KClosure:
		x.clobberClosure(st, a)
	case KAlloc:
		if a.typ != nil && isSliceType(a.typ) {
			if e := elemOfObj(a); e != nil && isByteish(e) {
				x.newContent(st, c, a)
				return
			}
		}
		st.havoc(a)
	case KField, KIndex:
		st.mem[a] = st.fresh(x.name(c.ctx, c.instr, fmt.Sprintf("out%d", i)), cellType(a))
	case KSlice:
		if e := elemOfObj(a.args[0]); e != nil && isByteish(e) || a.typ != nil && isSliceType(a.typ) && isByteish(a.typ.Underlying().(*types.Slice).Elem()) {
			x.newContent(st, c, a)
			return
		}
		st.havoc(a.args[0])
	case KSym, KLoad, KFieldV:
		if isSliceType(a.typ) {
			if isByteish(a.typ.Underlying().(*types.Slice).Elem()) {
				x.newContent(st, c, a)
			} else {
				st.havoc(a)
			}
		}
	}
}

func (x *Exec) clobberClosure(st *State, cl *Term) {
	for _, b := range cl.args {
		if b.kind == KAlloc {
			if v, ok := st.mem[b]; ok {
				st.mem[b] = st.fresh("cb:"+b.name, v.typ)
			} else {
				st.havoc(b)
			}
		}
	}
}
