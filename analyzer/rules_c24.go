package main

// C24: the format of index files.

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type idxField struct {
	off, width int
	order      string // "le", "be", "" for a string
	val        *Term
}

// idxFormat is what the build command writes.
type idxFormat struct {
	fields       []idxField
	total        int
	magic        string
	size, block  int // indices of fields
	major        int
	weak, strong *Term // sizes of the checksums
	weakT        string
	strongH      *Term
}

func (f *idxFormat) String() string {
	var out []string
	for _, e := range f.fields {
		out = append(out, fmt.Sprintf("%d%s", e.width, e.order))
	}
	return strings.Join(out, " ")
}

func init() {
	rule("C24", func(p *Prog, r *Report) {
		r.describe("The build command is analysed to obtain the sequence of header fields (offset, width, byte order, role of the value) on every path that goes on to write checksums. The commands that read an index are analysed with the offset in the file as state, every value decoded being identified by its offset, width and byte order: the checksums may be loaded only right after the last field, with the magic string and the major version compared, nothing failed or cut short, and the sizes of the hashes used for writing; block size, file size, block count, index and strong checksums must then be used in the roles in which they were written. The writer of the body must write weak then strong checksum of every entry once, in order, and every entry generated must have the sizes of the hashes. A path on which a header with the right magic string, major version and values in range was read may give up before the index is made only after a step that failed.")
		fn := r.anchor(cmdPkg, "", "Build")
		if fn == nil {
			return
		}
		var f *idxFormat
		r.analyse(shortFn(fn), func(x *Exec) { f = c24write(x, fn) })
		if f == nil {
			if len(r.viols) == 0 {
				r.fail("format", shortFn(fn), "", "no path of the build command writes a header and checksums")
			}
			return
		}
		r.need("header complete", 1)
		for _, n := range []string{"Patch", "Diff"} {
			fn := r.anchor(cmdPkg, "", n)
			if fn == nil {
				continue
			}
			x := r.analyse
			got := 0
			x(shortFn(fn), func(x *Exec) { c24read(x, fn, f); got += x.cnt["checksums loaded"] })
			if got == 0 {
				r.fail("coverage", shortFn(fn), "", "%s is not known to load the checksums of an index", shortFn(fn))
			}
		}
		r.need("value used", 1)
		if fn := r.anchor("", "RSync", "Patch"); fn != nil {
			r.analyse(shortFn(fn), func(x *Exec) { c24search(x, fn, f) })
		}
		if fn := r.anchor("filechecksum", "FileChecksumGenerator", "GenerateChecksums"); fn != nil {
			r.analyse(shortFn(fn), func(x *Exec) { c24body(x, fn) })
			r.need("checksum written", 1)
		}
		if fn := r.anchor("filechecksum", "FileChecksumGenerator", "StartChecksumGeneration"); fn != nil {
			r.analyse(shortFn(fn), func(x *Exec) { c24entries(x, fn) })
			r.need("entry generated", 1)
		}
	})
}

func c24inline(c *Call) bool {
	if c.fn == nil {
		return false
	}
	if ownPkg(c.fn, cmdPkg) || ownPkg(c.fn, "rollsum") {
		return true
	}
	return ownPkg(c.fn, "filechecksum") && !strings.Contains(c.fn.Name(), "enerat") || strings.HasPrefix(c.fn.Name(), "NewFileChecksumGenerator")
}

// hashKinds: constructors outside the module return hashes identified by the
// constructor.
func hashKinds(s *State, c *Call) ([]Res, bool) {
	if (c.fn == nil || c.fn.Blocks == nil || !strings.Contains(c.name, modPath)) && c.results != nil && c.results.Len() == 1 && isHashType(c.results.At(0).Type()) {
		v := mkCall("hash by "+c.name, c.results.At(0).Type(), c.args...)
		s.assume(mkEq(v, nilT), false)
		return []Res{{st: s, vals: []*Term{v}}}, true
	}
	return nil, false
}

// genHashes: sizes and kinds of the hashes of a generator.
func genHashes(x *Exec, s *State, c *Call, gen *Term) (weak, strong *Term, weakT string, strongH *Term) {
	genT := x.p.namedType("filechecksum", "FileChecksumGenerator")
	ld := func(f string) *Term {
		a := fieldAddr(gen, genT, f)
		if a == nil {
			return nil
		}
		return s.load(a, fieldType(genT, structFieldIdx(genT, f)))
	}
	if w := ld("WeakRollingHash"); w != nil && w.kind == KIface {
		weakT = typeKey(w.typ)
		if m := x.p.prog.LookupMethod(w.typ, nil, "Size"); m != nil {
			o := x.callTerm(s.clone(), c, mkFunc(m), w.args[0])
			if len(o) == 1 && o[0].kind == oRet {
				weak = o[0].vals[0]
			}
		}
	}
	if h := ld("StrongHash"); h != nil {
		strongH = stripIface(h)
		strong = mkCall("hashsize", types.Typ[types.Uint], strongH)
	}
	return
}

// orderOf: the byte order of a value of one of the types of encoding/binary.
func orderOf(t *Term) string {
	n := ""
	if t.kind == KIface {
		n = typeKey(t.typ)
	} else {
		n = t.String()
	}
	switch {
	case strings.Contains(n, "ittleEndian"):
		return "le"
	case strings.Contains(n, "igEndian"):
		return "be"
	}
	return ""
}

// widths: the widths of the fixed size values a type consists of.
func widths(t types.Type) []int {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Int8, types.Uint8, types.Bool:
			return []int{1}
		case types.Int16, types.Uint16:
			return []int{2}
		case types.Int32, types.Uint32, types.Float32:
			return []int{4}
		case types.Int64, types.Uint64, types.Float64:
			return []int{8}
		}
	case *types.Struct:
		var out []int
		for i := 0; i < u.NumFields(); i++ {
			w := widths(u.Field(i).Type())
			if len(w) != 1 {
				return nil
			}
			out = append(out, w...)
		}
		return out
	}
	return nil
}

// writtenVals expands the argument of binary.Write.
func (x *Exec) writtenVals(s *State, v *Term) (vals []*Term, ws []int) {
	if v.kind != KIface {
		return nil, nil
	}
	t, w := v.typ, v.args[0]
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
		w = s.load(w, t)
	}
	if sl, ok := t.Underlying().(*types.Slice); ok {
		b, lo, hi := sliceParts(w)
		l, ok1 := constInt(lo)
		hv := hi
		if s.provesEq(hi, hi) {
			for n := int64(0); n < 64; n++ {
				if s.provesEq(hi, mkInt(n)) {
					hv = mkInt(n)
					break
				}
			}
		}
		h, ok2 := constInt(hv)
		ew := widths(sl.Elem())
		if !ok1 || !ok2 || len(ew) != 1 {
			return nil, nil
		}
		for i := l; i < h; i++ {
			vals = append(vals, s.load(mkIndex(b, mkInt(i), sl.Elem()), sl.Elem()))
			ws = append(ws, ew[0])
		}
		return
	}
	if ar, ok := t.Underlying().(*types.Array); ok {
		ew := widths(ar.Elem())
		if len(ew) != 1 || ar.Len() > 64 {
			return nil, nil
		}
		for i := int64(0); i < ar.Len(); i++ {
			vals = append(vals, mkElemOfArray(s, x, v, i, ar.Elem()))
			ws = append(ws, ew[0])
		}
		return
	}
	ws = widths(t)
	if structOf(t) != nil {
		for i := range ws {
			vals = append(vals, x.fieldOf(w, t, i))
		}
		return
	}
	if len(ws) == 1 {
		vals = []*Term{w}
	}
	return
}

func mkElemOfArray(s *State, x *Exec, v *Term, i int64, t types.Type) *Term {
	if v.args[0].kind == KAlloc || v.args[0].kind == KField {
		return s.load(mkIndex(v.args[0], mkInt(i), t), t)
	}
	return s.fresh("array element", t)
}

func cscope(p *Prog, name string) (int64, bool) {
	pk := p.pkgs[modPath+"/"+cmdPkg]
	if pk == nil {
		return 0, false
	}
	c, ok := pk.Pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		return 0, false
	}
	return constant.Int64Val(constant.ToInt(c.Val()))
}

func writerOf(t *Term) *Term {
	for t != nil {
		switch {
		case t.kind == KIface:
			t = t.args[0]
		case t.kind == KCall && t.name == "writer of":
			t = t.args[0]
		default:
			return t
		}
	}
	return t
}

func c24write(x *Exec, fn *ssa.Function) (res *idxFormat) {
	x.unroll = 16
	genT := x.p.namedType("filechecksum", "FileChecksumGenerator")
	lk := func(w *Term) string { return fmt.Sprintf("L%d", writerOf(w).id) }
	emit := func(s *State, c *Call, w *Term, width int, order string, v *Term) {
		x.count("header field written", c.instr)
		k := lk(w)
		n := 0
		if s.auto[k] != "" {
			n = strings.Count(s.auto[k], " ") + 1
		}
		s.ghost[fmt.Sprintf("%s.%d", k, n)] = v
		s.auto[k] = strings.TrimSpace(s.auto[k] + " " + fmt.Sprintf("%d%s", width, order))
	}
	unknown := func(s *State, c *Call, w *Term, what string) {
		if s.auto[lk(w)+"?"] == "" {
			s.auto[lk(w)+"?"] = what + " @" + x.pos(c.instr)
		}
	}
	// emitContent: bytes put together by byte order functions
	var emitContent func(s *State, c *Call, w, v *Term) bool
	emitContent = func(s *State, c *Call, w, v *Term) bool {
		if v == nilT {
			return true
		}
		if v.kind == KCall && v.name == "string2bytes" && v.args[0].isStrConst() {
			emit(s, c, w, len(v.args[0].strVal()), "", v.args[0])
			return true
		}
		b, lo, _ := sliceParts(v)
		ln := lenOfArg(v)
		n := int64(-1)
		for i := int64(0); i <= 64; i++ {
			if s.provesEq(ln, mkInt(i)) {
				n = i
			}
		}
		at, ok := constInt(lo)
		if n < 0 || !ok {
			return false
		}
		for at < n {
			hit := false
			for ct := s.contentOf(b); ct.kind == KCall && strings.Contains(ct.name, ".PutUint"); ct = ct.args[0] {
				wd := map[string]int64{"16": 2, "32": 4, "64": 8}[ct.name[len(ct.name)-2:]]
				o, ok := constInt(ct.args[1])
				if !ok || wd == 0 {
					return false
				}
				if o == at {
					emit(s, c, w, int(wd), map[bool]string{true: "le", false: "be"}[strings.Contains(ct.name, "little")], ct.args[2])
					at += wd
					hit = true
					break
				}
				if o < at+1 && at < o+wd {
					return false
				}
			}
			if !hit {
				return false
			}
		}
		return true
	}
	x.h.Inline = func(c *Call) bool { return c24inline(c) }
	x.h.Model = func(s *State, c *Call) ([]Res, bool) {
		switch {
		case c.name == "bufio.NewWriter" || c.name == "bufio.NewWriterSize":
			v := mkCall("writer of", c.results.At(0).Type(), writerOf(c.args[0]))
			s.assume(mkEq(v, nilT), false)
			return []Res{{st: s, vals: []*Term{v}}}, true
		case c.name == "(*bytes.Buffer).Bytes":
			v := mkCall("buffered", c.results.At(0).Type(), c.args[0])
			return []Res{{st: s, vals: []*Term{v}}}, true
		case c.name == "encoding/binary.Write":
			ok, bad := s.clone(), s.clone()
			vals, ws := x.writtenVals(ok, c.args[2])
			o := orderOf(c.args[1])
			if len(vals) == 0 || o == "" {
				unknown(ok, c, c.args[0], "a value of unknown width or byte order is written")
			} else {
				for i := range vals {
					emit(ok, c, c.args[0], ws[i], o, vals[i])
				}
			}
			return []Res{{st: ok, vals: []*Term{nilT}, label: "ok"}, {st: bad, vals: []*Term{x.mkErr(bad, c, "write")}, label: "fail"}}, true
		case strings.HasSuffix(c.name, "FileChecksumGenerator).GenerateChecksums"):
			return nil, false
		}
		return hashKinds(s, c)
	}
	x.h.PostCall = func(c *Call, r *Res) bool {
		s := r.st
		k := x.opKind(c)
		switch {
		case r.label == "fail" && (k == "Write" || k == "buffer.Write" || c.name == "encoding/binary.Write"):
			s.auto["writefail"] = "y"
		case (k == "Write" || k == "buffer.Write") && r.label != "fail":
			w, v := c.args[0], c.args[1]
			if x.stdStream(w) {
				return true
			}
			switch {
			case v.isStrConst():
				emit(s, c, w, len(v.strVal()), "", v)
			case v.kind == KCall && v.name == "buffered":
				src := lk(v.args[0])
				if s.auto[src+"?"] != "" {
					s.auto[lk(w)+"?"] = s.auto[src+"?"]
				}
				for i, f := range strings.Fields(s.auto[src]) {
					var wd int
					var o string
					fmt.Sscanf(f, "%d%s", &wd, &o)
					emit(s, c, w, wd, o, s.ghost[fmt.Sprintf("%s.%d", src, i)])
				}
			case emitContent(s, c, w, v):
			default:
				unknown(s, c, w, "bytes of unknown layout are written")
			}
		case c.method == "Flush" && r.label == "ok":
			s.auto["flushed"] = "y"
		case c.method == "Stat" && len(r.vals) == 2 && r.vals[0] != nilT:
			s.ghost["stat"], s.ghost["stat.of"] = r.vals[0], handleOf(c.args[0])
		case c.name == "os.Stat" && len(r.vals) == 2 && r.vals[0] != nilT:
			s.ghost["stat"], s.ghost["stat.path"] = r.vals[0], c.args[0]
		}
		if p, write, _, _, _, _, ok := openCall(c); ok && r.label == "ok" && !write {
			s.ghost["in.path"], s.ghost["in"] = p, r.vals[0]
			x.pinned[r.vals[0]] = true
		}
		if strings.HasSuffix(c.name, "FileChecksumGenerator).GenerateChecksums") && r.label != "fail" {
			s.auto["body"] = "y"
		}
		return true
	}
	x.h.PreCall = func(s *State, c *Call) bool {
		k := x.opKind(c)
		if s.auto["body"] != "" && (k == "Write" || c.name == "encoding/binary.Write") && !x.stdStream(c.args[0]) {
			x.report(s, c.instr, "written-after", "something is written after the checksums")
		}
		if !strings.HasSuffix(c.name, "FileChecksumGenerator).GenerateChecksums") {
			return true
		}
		x.count("header complete", c.instr)
		gen, in, out := c.args[0], handleOf(c.args[1]), c.args[2]
		key := lk(out)
		if s.auto["writefail"] != "" {
			x.report(s, c.instr, "after-failure", "checksums are written although a part of the header could not be written")
			return true
		}
		if u := s.auto[key+"?"]; u != "" {
			x.report(s, c.instr, "unknown-field", "%s", u)
			return true
		}
		f := &idxFormat{size: -1, block: -1, major: -1}
		bs := s.load(fieldAddr(gen, genT, "BlockSize"), types.Typ[types.Uint])
		major, haveMajor := cscope(x.p, "majorVersion")
		nconst := 0
		for i, e := range strings.Fields(s.auto[key]) {
			var wd int
			var o string
			fmt.Sscanf(e, "%d%s", &wd, &o)
			v := s.ghost[fmt.Sprintf("%s.%d", key, i)]
			fd := idxField{off: f.total, width: wd, order: o, val: v}
			f.total += wd
			f.fields = append(f.fields, fd)
			role := ""
			cv, isc := constInt(v)
			isSize := func() bool {
				if v.kind != KCall || !strings.HasSuffix(v.name, "FileInfo).Size") || s.ghost["stat"] != v.args[0] {
					return false
				}
				return s.ghost["stat.of"] == in && in != nil || s.ghost["stat.path"] != nil && s.ghost["stat.path"] == s.ghost["in.path"] && s.ghost["in"] == in
			}
			switch {
			case v.isStrConst():
				role = "magic"
				f.magic = v.strVal()
				if i != 0 || f.magic == "" {
					x.report(s, c.instr, "magic", "the magic string is not the first thing written, or is empty")
				}
			case isc:
				role = "version"
				nconst++
				if wd != 2 {
					x.report(s, c.instr, "version-width", "a version number is written with %d bytes", wd)
				}
				if f.major < 0 && (!haveMajor || cv == major) {
					f.major = i
				}
			case isSize():
				role = "size"
				if f.size >= 0 {
					role = ""
				}
				f.size = i
				if wd != 8 {
					x.report(s, c.instr, "size-width", "the file size is written with %d bytes", wd)
				}
			case s.provesEq(v, bs):
				role = "block size"
				if f.block >= 0 {
					role = ""
				}
				f.block = i
				if wd < 4 {
					x.report(s, c.instr, "block-size-width", "the block size is written with %d bytes", wd)
				}
			}
			if role == "" {
				x.report(s, c.instr, "role", "header field %d (offset %d) is neither the magic string, a version number, the size of the input file nor the block size used for the checksums: %v", i, fd.off, v)
			}
		}
		if f.magic == "" || f.major < 0 || nconst != 3 || f.size < 0 || f.block < 0 {
			x.report(s, c.instr, "field-missing", "on this path the header does not consist of magic string, three version numbers, file size and block size (%s)", f)
			return true
		}
		f.weak, f.strong, f.weakT, f.strongH = genHashes(x, s, c, gen)
		if f.weak == nil || f.strong == nil {
			x.report(s, c.instr, "hashes", "the hashes of the generator are not known")
			return true
		}
		if res != nil && res.String() != f.String() {
			x.report(s, c.instr, "two-formats", "the header is written in different layouts on different paths (%s, %s)", res, f)
			return true
		}
		res = f
		return true
	}
	for _, o := range x.enter(fn, newState(x), x.params(fn)) {
		s := o.st
		if o.kind == oRet && len(o.vals) == 1 && s.nilClass(o.vals[0]) != 2 && s.auto["body"] == "" {
			x.report(s, o.at, "no-index", "the build command can succeed without having written the checksums")
		}
	}
	return
}

func cutBytes(c *Term) bool {
	if c.kind == KCall && (c.name == "bytesToString" || c.name == "bytesOf") {
		c = c.args[0]
	}
	return c.kind == KCall && c.name == "index bytes cut"
}

// idxReader follows the reading of an index.
type idxReader struct {
	x *Exec
	f *idxFormat
}

func (t *idxReader) key(h *Term) string { return fmt.Sprintf("R%d", h.id) }

// src: the underlying file of a reader and whether it is tracked.
func (t *idxReader) src(s *State, r *Term) *Term {
	h := handleOf(r)
	if h != nil && s.auto[t.key(h)] != "" {
		return h
	}
	return nil
}

func (t *idxReader) pos(s *State, h *Term) (int, bool) {
	var n int
	_, err := fmt.Sscanf(s.auto[t.key(h)], "%d", &n)
	return n, err == nil
}

// through: bytes taken by a buffered reader are lost to others.
func (t *idxReader) through(s *State, in ssa.Instruction, r, h *Term) {
	raw := stripIface(r)
	k := t.key(h) + "b"
	if raw.kind == KCall && raw.name == "reader of" {
		if s.auto[k] == "" {
			s.auto[k] = fmt.Sprint(raw.id)
		}
	}
	if s.auto[k] != "" && s.auto[k] != fmt.Sprint(raw.id) {
		t.x.report(s, in, "buffered-bytes-lost", "the index is read on without the bytes that a buffered reader may already have taken")
	}
}

func (t *idxReader) field(h *Term, off, width int, order string, typ types.Type) *Term {
	return mkCall("index field", typ, h, mkInt(int64(off)), mkInt(int64(width)), mkStrConst(order))
}

func (t *idxReader) lose(s *State, h *Term, what string, in ssa.Instruction) {
	s.auto[t.key(h)] = "? " + what + " @" + t.x.pos(in)
}

func (t *idxReader) model(s *State, c *Call) ([]Res, bool) {
	x := t.x
	if r, ok := hashKinds(s, c); ok {
		return r, true
	}
	if c.name == "bufio.NewReader" || c.name == "bufio.NewReaderSize" {
		return bufioModel(s, c)
	}
	switch c.name {
	case "bytes.NewReader", "bytes.NewBuffer":
		if c.args[0] == nilT {
			return nil, false
		}
		b, lo, _ := sliceParts(c.args[0])
		ct := s.contentOf(b)
		if o, ok := constInt(lo); ok && ct.kind == KCall && ct.name == "index bytes" {
			v := mkCall("bytes of index", c.results.At(0).Type(), ct.args[0], mkAdd(ct.args[1], mkInt(o)))
			s.assume(mkEq(v, nilT), false)
			n, _ := constInt(mkAdd(ct.args[1], mkInt(o)))
			s.auto[t.key(v)] = fmt.Sprint(n)
			s.ghost[t.key(v)] = ct.args[0]
			return []Res{{st: s, vals: []*Term{v}}}, true
		}
	case "(encoding/binary.littleEndian).Uint16", "(encoding/binary.littleEndian).Uint32", "(encoding/binary.littleEndian).Uint64",
		"(encoding/binary.bigEndian).Uint16", "(encoding/binary.bigEndian).Uint32", "(encoding/binary.bigEndian).Uint64":
		if c.args[1] == nilT {
			return nil, false
		}
		b, lo, _ := sliceParts(c.args[1])
		ct := s.contentOf(b)
		if o, ok := constInt(lo); ok && ct.kind == KCall && ct.name == "index bytes" {
			off, _ := constInt(ct.args[1])
			w := map[string]int{"16": 2, "32": 4, "64": 8}[c.name[len(c.name)-2:]]
			ord := map[bool]string{true: "le", false: "be"}[strings.Contains(c.name, "little")]
			return []Res{{st: s, vals: []*Term{t.field(ct.args[0], int(off+o), w, ord, c.results.At(0).Type())}}}, true
		}
	}
	// reads of the index
	var h *Term
	var rd *Term
	for _, a := range c.args {
		if q := t.src(s, a); q != nil {
			h, rd = q, a
			break
		}
	}
	if h == nil {
		return nil, false
	}
	root := h
	if g := s.ghost[t.key(h)]; g != nil {
		root = g
	}
	k := x.opKind(c)
	pos, known := t.pos(s, h)
	switch {
	case k == "Read" || k == "io.ReadFull":
		x.count("header read", c.instr)
		t.through(s, c.instr, rd, h)
		buf := c.args[1]
		n := int64(-1)
		for i := int64(0); i <= 256; i++ {
			if s.provesEq(lenOfArg(buf), mkInt(i)) {
				n = i
			}
		}
		if n < 0 || !known || buf == nilT {
			t.lose(s, h, "a read of unknown size", c.instr)
			return nil, false
		}
		b, lo, _ := sliceParts(buf)
		at, okc := constInt(lo)
		zero := s.contentOf(b) == mkConst("zeros", nil)
		var out []Res
		set := func(st *State, cut bool) {
			if !okc {
				x.newContent(st, c, buf)
				return
			}
			nm := "index bytes"
			if cut {
				nm = "index bytes cut"
				if !zero {
					x.newContent(st, c, buf)
					return
				}
			}
			// content of the object, counted from its start
			ct := mkCall(nm, nil, root, mkInt(int64(pos)-at))
			x.pinned[ct] = true
			st.setContent(b, ct)
		}
		full := s.clone()
		set(full, false)
		full.auto[t.key(h)] = fmt.Sprint(pos + int(n))
		out = append(out, Res{st: full, vals: []*Term{mkInt(n), nilT}, label: "ok"})
		if k == "Read" {
			part := s.clone()
			set(part, true)
			cnt := part.fresh(x.name(c.ctx, c.instr, "n"), intT)
			part.addGe(cnt, mkInt(0))
			part.addGe(mkInt(n-1), cnt)
			part.auto["short"] = "a read of the header at " + x.pos(c.instr) + " returned fewer bytes"
			t.lose(part, h, "a read that may have been cut short", c.instr)
			out = append(out, Res{st: part, vals: []*Term{cnt, nilT}, label: "ok"})
		}
		for _, e := range []string{"eof", "ueof", "fail"} {
			if e == "ueof" && k == "Read" {
				continue
			}
			f := s.clone()
			x.newContent(f, c, buf)
			f.auto["readfail"] = "a failed read at " + x.pos(c.instr)
			t.lose(f, h, "a failed read", c.instr)
			cnt := f.fresh(x.name(c.ctx, c.instr, "n"), intT)
			f.addGe(cnt, mkInt(0))
			f.addGe(mkInt(n), cnt)
			var er *Term
			switch e {
			case "eof":
				er = x.eof()
			case "ueof":
				er = x.ueof()
			default:
				er = x.mkErr(f, c, "read", x.eof(), x.ueof())
			}
			out = append(out, Res{st: f, vals: []*Term{cnt, er}, label: e})
		}
		return out, true
	case c.name == "encoding/binary.Read":
		x.count("header read", c.instr)
		t.through(s, c.instr, rd, h)
		ok, bad := s.clone(), s.clone()
		bad.auto["readfail"] = "a failed read at " + x.pos(c.instr)
		t.lose(bad, h, "a failed read", c.instr)
		ord := orderOf(c.args[1])
		dst := c.args[2]
		okc := known && ord != "" && dst.kind == KIface
		put := func(addr *Term, typ types.Type) {
			w := widths(typ)
			if len(w) != 1 {
				okc = false
				return
			}
			v := t.field(root, pos, w[0], ord, typ)
			x.pinned[v] = true
			ok.store(addr, v, typ)
			pos += w[0]
		}
		if okc {
			switch u := dst.typ.Underlying().(type) {
			case *types.Pointer:
				if sT := structOf(u.Elem()); sT != nil {
					for i := 0; i < sT.NumFields(); i++ {
						put(fieldAddr(dst.args[0], u.Elem(), sT.Field(i).Name()), sT.Field(i).Type())
					}
				} else if ar, isA := u.Elem().Underlying().(*types.Array); isA && ar.Len() <= 64 {
					for i := int64(0); i < ar.Len(); i++ {
						put(mkIndex(dst.args[0], mkInt(i), ar.Elem()), ar.Elem())
					}
				} else {
					put(dst.args[0], u.Elem())
				}
			case *types.Slice:
				b, lo, _ := sliceParts(dst.args[0])
				l, isc := constInt(lo)
				n := int64(-1)
				for i := int64(0); i <= 64; i++ {
					if ok.provesEq(lenOfArg(dst.args[0]), mkInt(i)) {
						n = i
					}
				}
				if !isc || n < 0 || isByteish(u.Elem()) {
					okc = false
				}
				for i := int64(0); i < n && okc; i++ {
					put(mkIndex(b, mkInt(l+i), u.Elem()), u.Elem())
				}
			default:
				okc = false
			}
		}
		if okc {
			ok.auto[t.key(h)] = fmt.Sprint(pos)
		} else {
			if dst.kind == KIface {
				x.clobber(ok, c, 2, dst.args[0])
			}
			t.lose(ok, h, "a value of unknown width or byte order", c.instr)
		}
		return []Res{{st: ok, vals: []*Term{nilT}, label: "ok"}, {st: bad, vals: []*Term{x.mkErr(bad, c, "read")}, label: "fail"}}, true
	case c.method == "Close" || c.method == "Stat" || c.method == "Name" || k == "print":
		return nil, false
	case k == "Seek":
		if o, isc := constInt(c.args[1]); isc && c.args[2] == mkInt(0) {
			s.auto[t.key(h)] = fmt.Sprint(o)
		} else {
			t.lose(s, h, "a seek", c.instr)
		}
		return nil, false
	case c.fn == nil || c.fn.Blocks == nil || !c24inline(c):
		if strings.HasSuffix(c.name, "chunks.LoadChecksumsFromReader") {
			return nil, false
		}
		t.lose(s, h, "a call of "+shortName(c.name), c.instr)
	}
	return nil, false
}

// magicChecked: the magic string is known to be equal to the bytes read.
func (t *idxReader) magicChecked(s *State, h *Term) bool {
	str, n := mkStrConst(t.f.magic), int64(len(t.f.magic))
	cand := map[*Term]bool{}
	for f := range s.facts {
		if s.truth(f) == 1 {
			cand[f] = true
		}
	}
	for _, c := range s.lin {
		c.p.eachAtom(func(a *Term) {
			if a.kind == KCall && a.name == "bytesCmp" && s.provesEq(a, mkInt(0)) {
				cand[a] = true
			}
		})
	}
	for f := range cand {
		for _, a := range f.args {
			if a.kind != KCall || a.name != "bytesToString" && a.name != "bytesOf" {
				continue
			}
			ct := a.args[0]
			if ct.kind != KCall || ct.name != "index bytes" || ct.args[0] != h {
				continue
			}
			lo, ok1 := constInt(mkAdd(ct.args[1], a.args[1]))
			if !ok1 || lo != 0 || !s.provesEq(mkSub(a.args[2], a.args[1]), mkInt(n)) {
				continue
			}
			for _, b := range f.args {
				if b == str {
					return true
				}
				if b.kind == KCall && b.name == "bytesOf" && b.args[1] == mkInt(0) && b.args[0].kind == KLoad && b.args[0].args[0] == mkElem(mkCall("string2bytes", byteSliceT, str)) {
					return true
				}
				if b.kind == KCall && b.name == "bytesOf" && b.args[1] == mkInt(0) && b.args[0] == mkCall("string2bytes", byteSliceT, str) {
					return true
				}
			}
		}
	}
	return false
}

func c24read(x *Exec, fn *ssa.Function, f *idxFormat) {
	x.unroll = 16
	t := &idxReader{x, f}
	x.h.Inline = func(c *Call) bool { return c24inline(c) }
	x.h.Go = func(st *State, c *Call) bool { return true }
	x.h.Model = func(s *State, c *Call) ([]Res, bool) {
		if r, ok := t.model(s, c); ok {
			return r, true
		}
		switch {
		case strings.HasSuffix(c.name, "index.MakeChecksumIndex"):
			v := s.fresh(x.name(c.ctx, c.instr, "index"), c.results.At(0).Type())
			x.pinned[v] = true
			s.assume(mkEq(v, nilT), false)
			if s.ghost["list"] == nil || c.args[0] != s.ghost["list"] {
				x.report(s, c.instr, "other-list", "the index is not made from all the checksums loaded")
			}
			s.ghost["made"] = v
			return []Res{{st: s, vals: []*Term{v}}}, true
		case strings.HasSuffix(c.name, ".StartFindMatchingBlocks"), strings.HasSuffix(c.name, ".StartMergeResultStream"), strings.HasSuffix(c.name, ".GetMergedBlocks"), strings.HasSuffix(c.name, ".GetMissingBlocks"):
			return searchModel(x, s, c)
		}
		return nil, false
	}
	x.h.Assume = func(s *State, in ssa.Instruction, cond *Term, val bool) bool {
		if cond.kind == KNot {
			cond, val = cond.args[0], !val
		}
		if val && cond.kind != KPoly {
			for i, a := range cond.args {
				// bytes that stayed zero cannot end a magic string
				if cutBytes(a) && len(cond.args) == 2 && !strings.HasSuffix(f.magic, "\x00") && strings.Contains(cond.args[1-i].String(), f.magic) {
					return false
				}
			}
		}
		return true
	}
	x.h.PostCall = func(c *Call, r *Res) bool {
		s := r.st
		if _, write, _, _, _, _, ok := openCall(c); ok && r.label == "ok" && !write {
			x.pinned[r.vals[0]] = true
			s.auto[t.key(r.vals[0])] = "0"
		}
		if strings.HasSuffix(c.name, ".Context).Int") && len(r.vals) == 1 {
			x.assumptions["numbers given on the command line are valid"] = true
			s.addGe(r.vals[0], mkInt(1))
		}
		if r.label == "fail" || r.label == "notexist" {
			s.auto["opfail"] = "y"
		}
		if len(r.vals) == 2 && r.label == "ok" && typeKey(c.results.At(0).Type()) == "io.ReadCloser" {
			x.pinned[r.vals[0]] = true
			s.auto[t.key(r.vals[0])] = "0"
		}
		if strings.HasSuffix(c.name, "chunks.LoadChecksumsFromReader") {
			switch r.label {
			case "ok":
				s.ghost["list"] = r.vals[0]
				x.pinned[r.vals[0]] = true
				s.auto["loaded"] = "y"
			default:
				s.auto["loadfail"] = "y"
			}
		}
		return true
	}
	// is: the value is what was written as field i
	is := func(s *State, v *Term, i int) bool {
		fd := f.fields[i]
		if v == nil || s.ghost["h"] == nil {
			return false
		}
		for _, a := range asPoly(v).terms {
			for _, q := range a.atoms {
				if q.kind == KCall && q.name == "index field" && q.args[0] == s.ghost["h"] {
					if q.args[1] == mkInt(int64(fd.off)) && q.args[2] == mkInt(int64(fd.width)) && q.args[3] == mkStrConst(fd.order) && s.provesEq(v, q) {
						return true
					}
				}
			}
		}
		return false
	}
	x.h.PreCall = func(s *State, c *Call) bool {
		switch {
		case strings.HasSuffix(c.name, "chunks.LoadChecksumsFromReader"):
			x.count("checksums loaded", c.instr)
			x.cnt["checksums loaded"]++
			h := t.src(s, c.args[0])
			if h == nil {
				x.report(s, c.instr, "other-reader", "the checksums are not read from a file that was opened and whose header was read")
				return true
			}
			t.through(s, c.instr, c.args[0], h)
			root := h
			if g := s.ghost[t.key(h)]; g != nil {
				root = g
			}
			s.ghost["h"] = root
			if m := s.auto["readfail"]; m != "" {
				x.report(s, c.instr, "after-failure", "the checksums are loaded although %s", m)
				return true
			}
			if m := s.auto["short"]; m != "" {
				x.report(s, c.instr, "cut-short", "the checksums are loaded although %s", m)
				return true
			}
			pos, ok := t.pos(s, h)
			if !ok {
				x.report(s, c.instr, "position", "the position in the index is not known after %s", strings.TrimPrefix(s.auto[t.key(h)], "? "))
			} else if pos != f.total {
				x.report(s, c.instr, "position", "the checksums are loaded from offset %d, but written at offset %d", pos, f.total)
			}
			if !t.magicChecked(s, root) {
				x.report(s, c.instr, "magic-unchecked", "the checksums are loaded without the first bytes being known to be the magic string %q", f.magic)
			}
			mj := f.fields[f.major]
			okv := false
			for _, bt := range []types.BasicKind{types.Uint16, types.Int16, types.Uint32, types.Int32, types.Uint64, types.Int64} {
				if s.provesEq(t.field(root, mj.off, mj.width, mj.order, types.Typ[bt]), mj.val) {
					okv = true
				}
			}
			if !okv {
				x.report(s, c.instr, "version-unchecked", "the checksums are loaded without the major version (offset %d) being known to equal the tool's", mj.off)
			}
			if !sameTerm(s, c.args[1], f.weak) || !sameTerm(s, c.args[2], f.strong) {
				x.report(s, c.instr, "checksum-sizes", "the sizes given for loading (%v, %v) are not those of the weak and strong hashes used for writing (%v, %v)", c.args[1], c.args[2], f.weak, f.strong)
			}
		case strings.HasSuffix(c.name, ".MakeRSync"):
			x.count("value used", c.instr)
			s.auto["used"] = "y"
			var sum *Term
			for i, a := range c.args {
				if n, ok := c.sig.Params().At(i).Type().(*types.Named); ok && n.Obj().Name() == "FileSummary" {
					sum = a
				}
			}
			if s.auto["loaded"] == "" || s.auto["loadfail"] != "" {
				x.report(s, c.instr, "not-loaded", "a session is set up without the checksums having been loaded")
				return true
			}
			if sum == nil || sum.kind != KIface {
				x.report(s, c.instr, "summary", "the summary given to the session is not known")
				return true
			}
			get := func(m string) *Term {
				fn := x.p.prog.LookupMethod(sum.typ, nil, m)
				if fn == nil {
					return nil
				}
				pc := x.h.PreCall
				x.h.PreCall = nil
				in := x.h.Inline
				x.h.Inline = nil
				o := x.callTerm(s.clone(), c, mkFunc(fn), sum.args[0])
				x.h.PreCall = pc
				x.h.Inline = in
				if len(o) != 1 || o[0].kind != oRet {
					return nil
				}
				return o[0].vals[0]
			}
			if v := get("GetBlockSize"); !is(s, v, f.block) {
				x.report(s, c.instr, "block-size-role", "the block size of the summary is not the one read from the index: %v", v)
			}
			if v := get("GetFileSize"); !is(s, v, f.size) {
				x.report(s, c.instr, "file-size-role", "the file size of the summary is not the one read from the index: %v", v)
			}
			if v := get("GetBlockCount"); v == nil || !s.provesEq(v, mkLen(s.ghost["list"])) {
				x.report(s, c.instr, "block-count", "the block count of the summary is not the number of entries loaded: %v", v)
			}
			pt, _ := sum.typ.Underlying().(*types.Pointer)
			if pt == nil || structOf(pt.Elem()) == nil {
				x.report(s, c.instr, "summary", "the summary given to the session is not known")
				return true
			}
			sT := structOf(pt.Elem())
			idx, look := false, false
			for i := 0; i < sT.NumFields(); i++ {
				v := s.load(fieldAddr(sum.args[0], pt.Elem(), sT.Field(i).Name()), sT.Field(i).Type())
				if v == s.ghost["made"] {
					idx = true
				}
				if v.kind == KIface && strings.HasSuffix(typeKey(v.typ), "chunks.StrongChecksumGetter") {
					look = v.args[0] == s.ghost["list"] || sameTerm(s, v.args[0], s.ghost["list"])
				}
			}
			if !idx {
				x.report(s, c.instr, "other-index", "the summary does not hold the index made from the checksums loaded")
			}
			if !look {
				x.report(s, c.instr, "other-lookup", "the summary does not look strong checksums up in the entries loaded")
			}
		case strings.HasSuffix(c.name, ".StartFindMatchingBlocks"):
			s.auto["used"] = "y"
			x.count("value used", c.instr)
			c24hashes(x, s, c, f)
			if s.auto["loaded"] == "" || s.auto["loadfail"] != "" {
				x.report(s, c.instr, "not-loaded", "a comparison is started without the checksums having been loaded")
				return true
			}
			genT := x.p.namedType("filechecksum", "FileChecksumGenerator")
			if bs := s.load(fieldAddr(c.args[3], genT, "BlockSize"), types.Typ[types.Uint]); !is(s, bs, f.block) {
				x.report(s, c.instr, "block-size-role", "the block size used for comparing is not the one read from the index")
			}
			if stripIface(c.args[4]) != s.ghost["made"] {
				x.report(s, c.instr, "other-index", "the comparison does not use the index made from the checksums loaded")
			}
		}
		return true
	}
	for _, o := range x.enter(fn, newState(x), x.params(fn)) {
		s := o.st
		if o.kind == oPanic || s.auto["used"] != "" || s.ghost["made"] != nil || s.auto["loadfail"] != "" || s.auto["readfail"] != "" || s.auto["opfail"] != "" {
			continue
		}
		if w := s.auto["short"]; w != "" {
			x.report(s, o.at, "short-read-rejected", "the command gives up on an index after %s without an error; a reader may deliver the header in pieces", w)
			continue
		}
		if root := t.turnedAway(s); root != nil {
			x.report(s, o.at, "well-formed-rejected", "the command gives up on an index although its header was read, starts with the magic string and has the tool's major version, a block size of at least one byte and a file size that is not negative")
		}
	}
}

// turnedAway returns the index whose header was read up to the version, if
// nothing in the state speaks against the header.
func (t *idxReader) turnedAway(s *State) *Term {
	f := t.f
	type fld struct {
		v *Term
		i int
	}
	byRoot := map[*Term][]fld{}
	see := func(q *Term) {
		if q.kind != KCall || q.name != "index field" {
			return
		}
		for i, fd := range f.fields {
			if q.args[1] == mkInt(int64(fd.off)) && q.args[2] == mkInt(int64(fd.width)) && q.args[3] == mkStrConst(fd.order) {
				byRoot[q.args[0]] = append(byRoot[q.args[0]], fld{q, i})
			}
		}
	}
	for _, c := range s.lin {
		c.p.eachAtom(see)
	}
	for e := range s.facts {
		for _, a := range e.args {
			asPoly(a).eachAtom(see)
		}
	}
	for root, fs := range byRoot {
		if !t.magicChecked(s, root) {
			continue
		}
		n := s.clone()
		ok, major := true, false
		for _, q := range fs {
			switch q.i {
			case f.major:
				major = true
				ok = ok && n.addEq(q.v, f.fields[q.i].val)
			case f.block:
				ok = ok && n.addGe(q.v, mkInt(1))
			case f.size:
				ok = ok && n.addGe(q.v, mkInt(0))
			default:
				ok = ok && n.addGe(q.v, mkInt(0))
			}
		}
		if ok && major && n.consistent() && !infeasible(n.lin) {
			return root
		}
	}
	return nil
}

// c24hashes: the hashes used for comparing are those used for writing.
func c24hashes(x *Exec, s *State, c *Call, f *idxFormat) {
	_, _, wt, sh := genHashes(x, s, c, c.args[3])
	if wt == "" || wt != f.weakT {
		x.report(s, c.instr, "other-weak-hash", "the weak checksums compared are made with %s, those written with %s", wt, f.weakT)
	}
	if sh == nil || sh != f.strongH {
		x.report(s, c.instr, "other-strong-hash", "the strong checksums compared are made by %v, those written by %v", sh, f.strongH)
	}
}

func c24search(x *Exec, fn *ssa.Function, f *idxFormat) {
	x.h.Go = func(st *State, c *Call) bool { return true }
	x.h.Inline = func(c *Call) bool { return c.fn != nil && (ownPkg(c.fn, "") || c24inline(c)) }
	x.h.Model = func(s *State, c *Call) ([]Res, bool) {
		if r, ok := hashKinds(s, c); ok {
			return r, true
		}
		return searchModel(x, s, c)
	}
	x.h.PreCall = func(s *State, c *Call) bool {
		if strings.HasSuffix(c.name, ".StartFindMatchingBlocks") {
			x.count("value used", c.instr)
			c24hashes(x, s, c, f)
			genT := x.p.namedType("filechecksum", "FileChecksumGenerator")
			bs := s.load(fieldAddr(c.args[3], genT, "BlockSize"), types.Typ[types.Uint])
			if b := s.ghost["GetBlockSize"]; b == nil || !s.provesEq(b, bs) {
				x.report(s, c.instr, "block-size-role", "the block size used for comparing is not that of the summary")
			}
		}
		return true
	}
	x.h.PostCall = func(c *Call, r *Res) bool {
		if len(r.vals) == 1 && c.method == "GetBlockSize" {
			r.st.ghost[c.method] = r.vals[0]
		}
		return true
	}
	x.enter(fn, newState(x), x.params(fn))
}

// c24body: weak then strong checksum of every entry received.
func c24body(x *Exec, fn *ssa.Function) {
	args := x.params(fn)
	out := args[2]
	resT := x.p.namedType("filechecksum", "ChecksumResults")
	cT := x.p.namedType("chunks", "ChunkChecksum")
	st := newState(x)
	x.h.Inline = func(c *Call) bool {
		return c.fn != nil && ownPkg(c.fn, "filechecksum") && c.fn.Name() != "StartChecksumGeneration"
	}
	x.h.Model = func(s *State, c *Call) ([]Res, bool) {
		switch {
		case strings.HasSuffix(c.name, ".StartChecksumGeneration"):
			v := s.freshAlloc(x.name(c.ctx, c.instr, "results"), c.results.At(0).Type())
			x.pinned[v] = true
			return []Res{{st: s, vals: []*Term{v}}}, true
		case c.name == "bufio.NewWriter" || c.name == "bufio.NewWriterSize":
			v := mkCall("writer of", c.results.At(0).Type(), writerOf(c.args[0]))
			s.assume(mkEq(v, nilT), false)
			s.auto["unflushed"] = ""
			return []Res{{st: s, vals: []*Term{v}}}, true
		}
		return nil, false
	}
	settle := func(s *State, in ssa.Instruction) {
		l := s.ghost["L"]
		if l == nil || s.auto["done"] != "" || s.auto["writefail"] != "" {
			return
		}
		// results that end the generation carry no entries
		if s.auto["at"] != "" || !s.provesEq(s.ghost["k"], lenOfArg(l)) {
			x.report(s, in, "entry-not-written", "entries received may be left unwritten")
		}
		s.auto["done"] = "y"
	}
	x.h.Recv = func(s *State, in ssa.Instruction, ctx *Ctx, ch *Term, elem types.Type) []RecvRes {
		if typeKey(elem) != typeKey(resT) {
			return nil
		}
		x.count("result received", in)
		settle(s, in)
		var outs []RecvRes
		for _, kind := range []string{"entries", "checksum", "error", "closed"} {
			n := s.clone()
			cs, fc, er := nilT, nilT, nilT
			ok := trueT
			switch kind {
			case "entries":
				cs = n.fresh(x.name(ctx, in, "entries"), fieldType(resT, structFieldIdx(resT, "Checksums")))
				n.ghost["L"], n.ghost["k"] = cs, mkInt(0)
				n.auto["done"], n.auto["at"] = "", ""
			case "checksum":
				fc = n.fresh(x.name(ctx, in, "checksum"), fieldType(resT, structFieldIdx(resT, "Filechecksum")))
				n.assume(mkEq(fc, nilT), false)
			case "error":
				er = n.fresh(x.name(ctx, in, "err"), errorType)
				n.assume(mkEq(er, nilT), false)
			case "closed":
				ok = falseT
			}
			if kind != "entries" {
				delete(n.ghost, "L")
				delete(n.ghost, "k")
			}
			var fs []*Term
			sT := structOf(resT)
			for i := 0; i < sT.NumFields(); i++ {
				switch sT.Field(i).Name() {
				case "Checksums":
					fs = append(fs, cs)
				case "Filechecksum":
					fs = append(fs, fc)
				case "Err":
					fs = append(fs, er)
				default:
					fs = append(fs, n.fresh(x.name(ctx, in, sT.Field(i).Name()), sT.Field(i).Type()))
				}
			}
			outs = append(outs, RecvRes{st: n, val: mkStruct(resT, fs), ok: ok})
		}
		return outs
	}
	x.h.PostCall = func(c *Call, r *Res) bool {
		if x.opKind(c) != "Write" || writerOf(c.args[0]) != out {
			return true
		}
		s := r.st
		x.count("checksum written", c.instr)
		if r.label == "fail" {
			s.auto["writefail"] = "y"
			return true
		}
		l := s.ghost["L"]
		if l == nil {
			x.report(s, c.instr, "foreign-bytes", "something other than a checksum of an entry received is written")
			return true
		}
		if s.auto["writefail"] != "" {
			x.report(s, c.instr, "after-failure", "writing goes on after a failed write")
			return true
		}
		want := "WeakChecksum"
		if s.auto["at"] == "w" {
			want = "StrongChecksum"
		}
		el := s.load(mkIndex(l, s.ghost["k"], cT), cT)
		w := fieldVal(el, cT, want)
		if !sameTerm(s, c.args[1], w) {
			x.report(s, c.instr, "order", "what is written is not the %s of the next entry: %v", want, c.args[1])
		}
		if want == "WeakChecksum" {
			s.auto["at"] = "w"
		} else {
			s.auto["at"] = ""
			s.ghost["k"] = mkAdd(s.ghost["k"], mkInt(1))
		}
		return true
	}
	for _, o := range x.enter(fn, st, args) {
		if o.kind == oRet && o.st.nilClass(o.vals[len(o.vals)-1]) != 2 {
			settle(o.st, o.at)
		}
	}
}

// c24entries: sizes of the checksums of the entries generated, and which
// results carry entries.
func c24entries(x *Exec, fn *ssa.Function) {
	args := x.params(fn)
	gen := args[0]
	genT := x.p.namedType("filechecksum", "FileChecksumGenerator")
	cT := x.p.namedType("chunks", "ChunkChecksum")
	resT := x.p.namedType("filechecksum", "ChecksumResults")
	st := newState(x)
	x.positiveBlockSize(st, gen, "filechecksum", "FileChecksumGenerator")
	weak := st.load(fieldAddr(gen, genT, "WeakRollingHash"), fieldType(genT, structFieldIdx(genT, "WeakRollingHash")))
	strong := st.load(fieldAddr(gen, genT, "StrongHash"), fieldType(genT, structFieldIdx(genT, "StrongHash")))
	x.pinned[weak], x.pinned[strong] = true, true
	wn, sn := mkCall("rollsize", types.Typ[types.Uint], weak), mkCall("hashsize", types.Typ[types.Uint], strong)
	x.pinned[wn], x.pinned[sn] = true, true
	x.h.Model = func(s *State, c *Call) ([]Res, bool) {
		if c.method == "Size" && c.fn == nil && c.args[0] == weak {
			return []Res{{st: s, vals: []*Term{wn}}}, true
		}
		return nil, false
	}
	x.h.Append = func(s *State, in ssa.Instruction, ctx *Ctx, old *Term, elems []*Term, spread, res *Term, elem types.Type) bool {
		if typeKey(elem) != typeKey(cT) {
			return true
		}
		for _, e := range elems {
			x.count("entry generated", in)
			if v := fieldVal(e, cT, "WeakChecksum"); !s.provesEq(lenOfArg(v), wn) {
				x.report(s, in, "weak-size", "the weak checksum of an entry does not have the size of the weak hash")
			}
			if v := fieldVal(e, cT, "StrongChecksum"); !s.provesEq(lenOfArg(v), sn) {
				x.report(s, in, "strong-size", "the strong checksum of an entry does not have the size of the strong hash")
			}
		}
		return true
	}
	x.h.Send = func(s *State, in ssa.Instruction, ctx *Ctx, ch, v *Term) bool {
		if v.typ == nil || typeKey(v.typ) != typeKey(resT) {
			return true
		}
		x.count("result sent", in)
		if cs := fieldVal(v, resT, "Checksums"); s.nilClass(cs) != 1 && !s.provesEq(lenOfArg(cs), mkInt(0)) {
			if s.nilClass(fieldVal(v, resT, "Err")) != 1 || s.nilClass(fieldVal(v, resT, "Filechecksum")) != 1 {
				x.report(s, in, "mixed-result", "a result carries entries together with an error or the checksum of the file")
			}
		}
		return true
	}
	var gs []goStart
	x.collectGo(&gs)
	x.enter(fn, st, args)
	x.h.Go = nil
	for _, g := range gs {
		x.runGo(g)
	}
}
