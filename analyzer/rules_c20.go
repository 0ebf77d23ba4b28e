package main

// C20: state shared between goroutines.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rule("C20", func(p *Prog, r *Report) {
		r.describe("Accesses to memory reachable from several goroutines are collected, with the locks held, whether they are atomic, and whether they are ordered by a channel, and every pair of which one is a write must be ordered or protected. Block source: fields against the source goroutine, request goroutines, and methods of callers; variables captured by request goroutines against what the source goroutine does after starting them. Comparisons: the generator, its hashes and the reader are new for every comparison that is started, not touched by the producer after its final message, and the counters are accessed atomically while comparisons run. Merger: the lock of the tree. Methods that several goroutines call on a shared object (index lookups, block offsets, requests) must not write to it. Package variables are written by initialisation only.")
		c20source(p, r)
		if fn := r.anchor("comparer", "MatchMerger", "StartMergeResultStream"); fn != nil {
			r.analyse(shortFn(fn), func(x *Exec) { x.only = c20lockRules; (&merge14{x: x}).stream(fn) })
		}
		if fn := r.anchor("comparer", "MatchMerger", "GetMergedBlocks"); fn != nil {
			r.analyse(shortFn(fn), func(x *Exec) { x.only = c20lockRules; (&merge14{x: x}).collect(fn) })
		}
		starters := c21starters(p)
		methods := map[string]bool{}
		for _, fn := range starters {
			r.analyse(shortFn(fn), func(x *Exec) { c20producer(x, fn, methods) })
		}
		consumers := c21consumers(p, starters)
		for _, fn := range append(consumers, c20users(p, consumers)...) {
			r.analyse(shortFn(fn), func(x *Exec) { c20sections(x, fn) })
		}
		c20sharedMethods(p, r)
		c20others(p, r)
		c20globals(p, r)
		r.need("goroutine", 3)
		r.need("access to shared memory", 5)
		r.need("section started", 2)
		r.need("method of a shared object", 6)
	})
}

var c20lockRules = map[string]bool{"unlocked": true, "other-lock": true, "shared-lock": true, "not-waited": true, "tree-replaced": true, "not-locked": true, "anchor": true}

// ---------- where an access goes ----------

type acc20 struct {
	loc, class    string
	write, atomic bool
	locks         map[string]bool
	in            ssa.Instruction
	before, after map[string]bool // channels closed after it, known closed before it
}

// rec20 names the memory behind some objects and tells on of each access.
type rec20 struct {
	x     *Exec
	roots map[*Term]string
	on    func(s *State, in ssa.Instruction, loc string, write, atomic bool)
	raw   func(s *State, in ssa.Instruction, addr *Term, write bool)
	read  func(addr, val *Term)
	// methods called on objects behind interfaces
	invoked func(s *State, c *Call, loc string)
}

// loc: the place an address denotes
func (r *rec20) loc(a *Term) string {
	if a == nil {
		return ""
	}
	if l := r.roots[a]; l != "" {
		return l
	}
	switch a.kind {
	case KIface, KSlice:
		return r.loc(a.args[0])
	case KField:
		if b := r.loc(a.args[0]); b != "" {
			f, _ := a.obj.(fieldRef)
			if st := structOf(f.owner); st != nil && f.idx < st.NumFields() {
				return b + "." + st.Field(f.idx).Name()
			}
			return b + ".?"
		}
	case KIndex, KElem:
		if b := r.loc(a.args[0]); b != "" {
			return b + "[]"
		}
	case KLoad:
		if b := r.loc(a.args[0]); b != "" {
			return b + "→"
		}
	case KCall:
		if strings.HasPrefix(a.name, "assert:") {
			return r.loc(a.args[0])
		}
	case KGlob:
		if g, ok := a.obj.(*ssa.Global); ok && g.Pkg != nil && isModPkg(g.Pkg.Pkg.Path()) {
			return "variable " + g.Name()
		}
	}
	return ""
}

func refType(t types.Type) bool {
	if t == nil {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface:
		return true
	}
	return false
}

func (r *rec20) access(s *State, in ssa.Instruction, addr *Term, write, atomic bool) {
	if r.raw != nil {
		r.raw(s, in, addr, write)
	}
	if l := r.loc(addr); l != "" && r.on != nil {
		r.on(s, in, l, write, atomic)
	}
}

// learn: a reference read from a named place
func (r *rec20) learn(addr, val *Term) {
	if val == nil || val == nilT || val.kind == KConst || val.kind == KLoad || val.kind == KGlob || r.roots[val] != "" {
		return
	}
	l := r.loc(addr)
	if l == "" {
		return
	}
	switch val.kind {
	case KSym, KAlloc, KCall:
		if refType(val.typ) || val.kind == KAlloc {
			r.roots[val] = l + "→"
		}
	case KIface, KSlice:
		r.learn(addr, val.args[0])
	case KStruct:
		for i, v := range val.args {
			if st := structOf(val.typ); st != nil && i < st.NumFields() && refType(st.Field(i).Type()) {
				r.learn(mkField(addr, val.typ, i), v)
			}
		}
	}
}

var mutators20 = map[string]bool{}

func init() {
	for _, m := range strings.Fields("Write WriteString WriteByte WriteRune Reset Sum SetBlock AddByte AddBytes RemoveByte RemoveBytes AddAndRemoveBytes GetSum Read ReadByte ReadRune ReadString ReadBytes Seek Next Scan ReadFrom WriteTo Truncate Grow Peek Discard Flush UnreadByte Int Intn Int63 Int31 Float64 Perm Shuffle Seed") {
		mutators20[m] = true
	}
}

// what fills the slices given to it
var fillers20 = map[string]bool{"Read": true, "ReadAt": true, "GetSum": true, "PutUint16": true, "PutUint32": true, "PutUint64": true}

func (r *rec20) install() {
	x := r.x
	x.h.Load = func(s *State, in ssa.Instruction, ctx *Ctx, addr, val *Term) {
		r.access(s, in, addr, false, false)
		r.learn(addr, val)
		if r.read != nil {
			r.read(addr, val)
		}
	}
	store := x.h.Store
	x.h.Store = func(s *State, in ssa.Instruction, ctx *Ctx, addr, val *Term) bool {
		r.access(s, in, addr, true, false)
		return store == nil || store(s, in, ctx, addr, val)
	}
	elems := func(s *State, in ssa.Instruction, v *Term, write bool) {
		v = stripIface(v)
		if v == nil || v == nilT {
			return
		}
		b, _, _ := sliceParts(v)
		r.access(s, in, mkElem(b), write, false)
	}
	app := x.h.Append
	x.h.Append = func(s *State, in ssa.Instruction, ctx *Ctx, old *Term, el []*Term, spread, res *Term, elem types.Type) bool {
		elems(s, in, old, true)
		if spread != nil {
			elems(s, in, spread, false)
		}
		return app == nil || app(s, in, ctx, old, el, spread, res, elem)
	}
	x.h.Copy = func(s *State, in ssa.Instruction, ctx *Ctx, dst, src, n *Term) bool {
		elems(s, in, dst, true)
		elems(s, in, src, false)
		return true
	}
	x.h.MapUpd = func(s *State, in ssa.Instruction, ctx *Ctx, m, k, v *Term) bool {
		r.access(s, in, mkElem(m), true, false)
		return true
	}
	x.h.MapDel = func(s *State, in ssa.Instruction, ctx *Ctx, m *Term) { r.access(s, in, mkElem(m), true, false) }
	x.h.MapGet = func(s *State, in ssa.Instruction, ctx *Ctx, m, k *Term) bool {
		r.access(s, in, mkElem(m), false, false)
		return true
	}
	pre := x.h.PreCall
	x.h.PreCall = func(s *State, c *Call) bool {
		if pre != nil && !pre(s, c) {
			return false
		}
		if fillers20[c.method] || c.name == "io.ReadFull" || c.name == "io.ReadAtLeast" {
			for _, a := range c.args[1:] {
				if a.typ != nil && isSliceType(a.typ) || a.kind == KSlice {
					elems(s, c.instr, a, true)
				}
			}
		}
		switch {
		case strings.HasPrefix(c.name, "(*sync.Mutex).") || strings.HasPrefix(c.name, "(*sync.RWMutex)."):
			l := "lock:" + r.loc(c.args[0])
			switch c.method {
			case "Lock":
				s.auto[l] = "w"
			case "RLock":
				s.auto[l] = "r"
			case "Unlock", "RUnlock":
				delete(s.auto, l)
			}
		case strings.HasPrefix(c.name, "sync/atomic.") && len(c.args) > 0:
			r.access(s, c.instr, c.args[0], !strings.HasPrefix(c.name, "sync/atomic.Load"), true)
		case strings.HasPrefix(c.name, "(*sync/atomic."):
			r.access(s, c.instr, c.args[0], c.method != "Load", true)
		case strings.HasPrefix(c.name, "sort.") && len(c.args) > 0 && !strings.HasPrefix(c.name, "sort.Search") && !strings.HasPrefix(c.name, "sort.Reverse") && !strings.Contains(c.name, "AreSorted") && !strings.Contains(c.name, "IsSorted"):
			elems(s, c.instr, c.args[0], true)
		case c.method != "" && len(c.args) > 0 && (c.fn == nil || !x.p.inModule(c.fn)):
			v := stripIface(c.args[0])
			l := r.loc(v)
			if l == "" {
				break
			}
			if c.invoke && r.invoked != nil {
				r.invoked(s, c, l)
			}
			if mutators20[c.method] && r.on != nil {
				r.on(s, c.instr, l+".state", true, false)
			}
		}
		return true
	}
}

func locks20(s *State) map[string]bool {
	var m map[string]bool
	for k, v := range s.auto {
		if strings.HasPrefix(k, "lock:") {
			if m == nil {
				m = map[string]bool{}
			}
			m[k[5:]] = v == "w"
		}
	}
	return m
}

// overlap: one place is (part of) the other
func overlap20(a, b string) bool {
	if len(a) > len(b) {
		a, b = b, a
	}
	if !strings.HasPrefix(b, a) {
		return false
	}
	rest := b[len(a):]
	return rest == "" || (rest[0] == '.' || rest[0] == '[') && !strings.Contains(rest, "→")
}

type race20 struct {
	x    *Exec
	accs []acc20
	seen map[string]bool
	self map[string]bool // classes of which several goroutines may run
}

func (q *race20) add(a acc20) {
	var ks []string
	for l, w := range a.locks {
		ks = append(ks, fmt.Sprint(l, w))
	}
	for l := range a.before {
		ks = append(ks, "b"+l)
	}
	for l := range a.after {
		ks = append(ks, "a"+l)
	}
	sort.Strings(ks)
	k := fmt.Sprint(a.loc, a.class, a.write, a.atomic, ks, q.x.pos(a.in))
	if q.seen == nil {
		q.seen = map[string]bool{}
	}
	if !q.seen[k] {
		q.seen[k] = true
		q.accs = append(q.accs, a)
	}
	q.x.count("access to shared memory", a.in)
}

func (q *race20) conflicts() {
	x := q.x
	for i, a := range q.accs {
		for _, b := range q.accs[i:] {
			if a.class == b.class && !q.self[a.class] || !a.write && !b.write || a.atomic && b.atomic || !overlap20(a.loc, b.loc) {
				continue
			}
			common := false
			for l, w := range a.locks {
				if w2, ok := b.locks[l]; ok && (w || w2) && (w || !a.write) && (w2 || !b.write) {
					common = true
				}
			}
			if common || ordered20(a, b) || ordered20(b, a) {
				continue
			}
			v, o := a, b
			if !v.write || v.atomic && !o.atomic {
				v, o = b, a
			}
			how := map[bool]string{true: "writes", false: "reads"}
			x.report(nil, v.in, "data-race", "the %s %s %s here while the %s may access it (%s) without synchronisation", v.class, how[v.write], strings.ReplaceAll(v.loc, "→", ""), o.class, x.pos(o.in))
		}
	}
}

// ordered20: b happens after a channel was closed, a before
func ordered20(a, b acc20) bool {
	for ch := range b.after {
		if a.before[ch] {
			return true
		}
	}
	return false
}

// ---------- variables shared with a goroutine that was started ----------

// pub20 follows the memory handed to goroutines.
type pub20 struct {
	x      *Exec
	rec    *rec20 // of the goroutine bodies
	inBody bool
	caps   map[*Term]bool
	acc    map[*Term]string // r or w, of the body being analysed
	self   bool
}

// install chains to hooks already set
func (q *pub20) install() {
	x := q.x
	al := x.h.Alloc
	x.h.Alloc = func(s *State, obj *Term) {
		if al != nil {
			al(s, obj)
		}
		if !q.inBody {
			delete(s.auto, "pub:"+obj.name)
		}
	}
}

func (q *pub20) spawn(s *State, c *Call) func() {
	x := q.x
	x.count("goroutine", c.instr)
	prev, pa := q.inBody, q.acc
	q.inBody = true
	q.rec.read = q.learn
	q.acc = map[*Term]string{}
	ts := append([]*Term{}, c.args...)
	if c.fnTerm != nil {
		ts = append(ts, c.fnTerm.args...)
	}
	for _, t := range ts {
		t = stripIface(t)
		if t == nil || !refType(t.typ) && t.kind != KAlloc && t.kind != KIndex && t.kind != KField {
			continue
		}
		root := rootOf(t)
		if b, _, _ := sliceParts(root); b != root {
			root = rootOf(b)
		}
		if q.rec.loc(root) == "" {
			q.caps[root] = true
		}
	}
	return func() {
		for t, k := range q.acc {
			key := "pub:" + t.name
			old := s.auto[key]
			if old == "w" || old != "" && k == "w" {
				x.report(s, c.instr, "shared-variable", "a variable (%s) is written by a goroutine while another one started here has access to it", t.name)
			}
			if k == "w" || old == "" {
				s.auto[key] = k
			}
		}
		q.inBody, q.acc = prev, pa
	}
}

func inArray20(a *Term) bool {
	for ; a.kind == KField || a.kind == KIndex || a.kind == KElem; a = a.args[0] {
		if a.kind != KField {
			return true
		}
	}
	return false
}

// learn: what captured variables refer to
func (q *pub20) learn(addr, val *Term) {
	val = stripIface(val)
	if !q.inBody || val == nil || val == nilT || !q.caps[rootOf(addr)] || q.rec.loc(val) != "" {
		return
	}
	if !refType(val.typ) && val.kind != KIndex && val.kind != KField && val.kind != KAlloc {
		return
	}
	b, _, _ := sliceParts(rootOf(val))
	q.caps[rootOf(b)] = true
}

// note is told of every access by address.
func (q *pub20) note(s *State, in ssa.Instruction, addr *Term, write bool) {
	root := rootOf(addr)
	if b, _, _ := sliceParts(root); b != root {
		root = rootOf(b)
	}
	if q.inBody {
		if !q.caps[root] {
			return
		}
		q.x.count("access to shared memory", in)
		if len(locks20(s)) > 0 {
			return
		}
		if root.kind != KAlloc && inArray20(addr) {
			// part of an array of the parent
			q.acc[root] = "w"
			return
		}
		if write {
			q.acc[root] = "w"
		} else if q.acc[root] == "" {
			q.acc[root] = "r"
		}
		return
	}
	k := s.auto["pub:"+root.name]
	if k == "w" || k != "" && write {
		q.x.report(s, in, "shared-variable", "a variable (%s) is accessed here while a goroutine that was started may still use it", root.name)
	}
}

// ---------- block source ----------

func c20source(p *Prog, r *Report) {
	fn := r.anchor("blocksources", "", "NewBlockSourceBase")
	base := p.namedType("blocksources", "BlockSourceBase")
	if fn == nil || base == nil {
		return
	}
	r.analyse(shortFn(fn), func(x *Exec) {
		l := &srcLoop{x: x, r: r, want: "C20", results: map[*Term]bool{}, exitCh: map[*Term]bool{}, reqCh: map[*Term]bool{}, closed: map[*Term]bool{}}
		q := &race20{x: x, self: map[string]bool{"request goroutine": true}}
		class := "constructor"
		rec := &rec20{x: x, roots: map[*Term]string{}}
		pub := &pub20{x: x, rec: rec, caps: map[*Term]bool{}}
		type rawAcc struct {
			a    *Term
			in   ssa.Instruction
			w    bool
			lock map[string]bool
		}
		var ctor []rawAcc
		rec.raw = func(s *State, in ssa.Instruction, addr *Term, write bool) {
			if class == "constructor" {
				if s.auto["started"] != "" {
					ctor = append(ctor, rawAcc{addr, in, write, locks20(s)})
				}
				return
			}
			if class == "source goroutine" {
				pub.note(s, in, addr, write)
			}
		}
		rec.on = func(s *State, in ssa.Instruction, loc string, write, atomic bool) {
			cl := class
			if cl == "constructor" {
				return
			}
			a := acc20{loc: loc, write: write, atomic: atomic, in: in, locks: locks20(s), before: map[string]bool{}, after: map[string]bool{}}
			if l.body || pub.inBody {
				cl = "request goroutine"
			}
			a.class = cl
			for k := range s.auto {
				if strings.HasPrefix(k, "after:") {
					a.after[k[6:]] = true
				}
			}
			if cl == "source goroutine" {
				// what is closed later than this
				a.before = notClosed20{l}.of(s)
			}
			q.add(a)
		}
		shared := map[string]bool{}
		rec.invoked = func(s *State, c *Call, loc string) {
			if (l.body || pub.inBody) && strings.HasPrefix(loc, "source.") {
				k := typeKey(c.recvT) + "\x00" + c.method
				if !shared[k] {
					shared[k] = true
					c20invoked[k] = c.recvT
				}
			}
		}
		rec.install()
		pub.install()
		l.started = func(s *State) { s.auto["started"] = "y" }
		l.spawn = pub.spawn
		l.setup = func(ret *State, in *Call) {
			rec.roots[l.obj] = "source"
			for _, a := range ctor {
				if loc := rec.loc(a.a); loc != "" {
					q.add(acc20{loc: loc, class: "constructor", write: a.w, in: a.in, locks: a.lock})
				}
			}
			class = "caller's goroutine"
			ms := types.NewMethodSet(types.NewPointer(base))
			recv := x.h.Recv
			for i := 0; i < ms.Len(); i++ {
				f := x.p.prog.MethodValue(ms.At(i))
				if f == nil || f.Blocks == nil || !ms.At(i).Obj().Exported() {
					continue
				}
				x.h.Recv = func(s *State, in ssa.Instruction, ctx *Ctx, ch *Term, elem types.Type) []RecvRes {
					n := s.clone()
					n.auto["after:"+fmt.Sprint(ch.id)] = "y"
					return []RecvRes{{st: n, val: n.fresh(x.name(ctx, in, "recv"), elem), ok: nil}}
				}
				s := ret.clone()
				delete(s.auto, "started")
				args := []*Term{l.obj}
				for j := 1; j < len(f.Params); j++ {
					args = append(args, s.fresh("arg:"+f.Params[j].Name(), f.Params[j].Type()))
				}
				x.enter(f, s, args)
			}
			x.h.Recv = recv
			class = "source goroutine"
		}
		l.run(fn, base, true)
		q.conflicts()
	})
}

// c20invoked: interface methods that goroutines call on shared objects
var c20invoked = map[string]types.Type{}

type notClosed20 struct{ l *srcLoop }

// of: the channels not closed yet
func (n notClosed20) of(s *State) map[string]bool {
	m := map[string]bool{}
	for _, ch := range n.l.chans(s) {
		if s.auto["closed:"+ch] == "" {
			m[ch] = true
		}
	}
	return m
}

// chans: the channels of the source
func (l *srcLoop) chans(s *State) (out []string) {
	T := derefT(l.obj.typ)
	st := structOf(T)
	if st == nil {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		if _, ok := st.Field(i).Type().Underlying().(*types.Chan); ok {
			out = append(out, fmt.Sprint(s.load(mkField(l.obj, T, i), st.Field(i).Type()).id))
		}
	}
	return
}

// ---------- comparisons and generators ----------

// c20producer: nothing that belongs to the receiver after the final message
// is touched; what several comparisons share is not written.
func c20producer(x *Exec, fn *ssa.Function, methods map[string]bool) {
	args := x.params(fn)
	st := newState(x)
	rec := &rec20{x: x, roots: map[*Term]string{}}
	q := &race20{x: x, self: map[string]bool{"producer": true}}
	for i, t := range args {
		k := typeKey(derefT(t.typ))
		switch {
		case strings.HasSuffix(k, "filechecksum.FileChecksumGenerator"):
			x.positiveBlockSize(st, t, "filechecksum", "FileChecksumGenerator")
			rec.roots[t] = "own generator"
		case types.IsInterface(t.typ) && types.NewMethodSet(t.typ).Lookup(nil, "Read") != nil:
			rec.roots[t] = "own reader"
		case refType(t.typ):
			rec.roots[t] = fn.Params[i].Name()
		}
	}
	x.h.Inline = func(c *Call) bool {
		return c.fn != nil && (c.fn.Pkg == fn.Pkg || c.fn.Parent() != nil || ownPkg(c.fn, "filechecksum"))
	}
	var gs []goStart
	x.collectGo(&gs)
	var ch *Term
	for _, o := range x.enter(fn, st, args) {
		for _, v := range o.vals {
			if o.kind == oRet && v.typ != nil && resultStream(v.typ) != nil || v.kind == KAlloc {
				ch = v
			}
		}
	}
	if ch == nil || len(gs) == 0 {
		x.report(nil, nil, "anchor", "no result stream with a producer was found")
		return
	}
	x.h.Go = func(s *State, c *Call) bool { return true }
	x.h.Send = func(s *State, in ssa.Instruction, ctx *Ctx, c, v *Term) bool {
		if T := resultStream(ch.typ); c == ch && (T == nil || finalMsg(s, v, T) != 0) {
			s.auto["final"] = "y"
		}
		return true
	}
	x.h.Close = func(s *State, in ssa.Instruction, ctx *Ctx, c *Term) bool {
		if c == ch {
			s.auto["final"] = "y"
		}
		return true
	}
	rec.on = func(s *State, in ssa.Instruction, loc string, write, atomic bool) {
		x.count("access to shared memory", in)
		if strings.HasPrefix(loc, "own ") {
			if s.auto["final"] != "" {
				x.report(s, in, "after-final", "the producer still uses the %s after its final message or the end of the stream, when whoever received that may use it again", strings.ReplaceAll(loc[4:], "→", ""))
			}
			return
		}
		q.add(acc20{loc: loc, class: "producer", write: write, atomic: atomic, in: in, locks: locks20(s)})
	}
	rec.invoked = func(s *State, c *Call, loc string) {
		if !strings.HasPrefix(loc, "own ") {
			c20invoked[typeKey(c.recvT)+"\x00"+c.method] = c.recvT
		}
	}
	rec.install()
	x.h.PostCall = func(c *Call, r *Res) bool {
		// what lookups return belongs to the object
		if c.invoke && len(c.args) > 0 {
			if l := rec.loc(stripIface(c.args[0])); l != "" && !strings.HasPrefix(l, "own ") {
				for _, v := range r.vals {
					if v = stripIface(v); v != nil && v != nilT && rec.roots[v] == "" && (refType(v.typ) || v.kind == KSym) {
						rec.roots[v] = l + ".result→"
					}
				}
			}
		}
		return true
	}
	for _, g := range gs {
		x.count("goroutine", g.c.instr)
		x.runGo(g)
	}
	q.conflicts()
}

func new20(t *Term) *Term { return mkCall("new", boolT, t) }

// c20sections: comparisons and generations share nothing.
func c20sections(x *Exec, fn *ssa.Function) {
	pkg := fn.Pkg
	genT := x.p.namedType("filechecksum", "FileChecksumGenerator")
	if genT == nil {
		x.report(nil, nil, "anchor", "no checksum generator type")
		return
	}
	x.h.Go = func(st *State, c *Call) bool { return true }
	x.h.Inline = func(c *Call) bool {
		return c.fn != nil && (c.fn.Pkg == pkg || c.fn.Parent() != nil || ownPkg(c.fn, "filechecksum") || ownPkg(c.fn, "rollsum"))
	}
	isNew := func(s *State, t *Term) bool {
		t = stripIface(t)
		return t == nilT || s.truth(new20(t)) == 1
	}
	use := func(s *State, t *Term) { delete(s.facts, new20(stripIface(t))) }
	x.h.Alloc = func(s *State, obj *Term) { s.assume(new20(obj), true) }
	x.h.Model = func(s *State, c *Call) ([]Res, bool) {
		mk := func() *Term {
			v := s.freshAlloc(x.name(c.ctx, c.instr, "new object"), c.results.At(0).Type())
			x.nonNil(s, v)
			return v
		}
		switch {
		case c.name == "io.NewSectionReader":
			return []Res{{st: s, vals: []*Term{mk()}}}, true
		case c.name == "bufio.NewReader" || c.name == "bufio.NewReaderSize":
			under := c.args[0]
			ok := isNew(s, under)
			use(s, under)
			v := mk()
			if !ok {
				use(s, v)
			}
			return []Res{{st: s, vals: []*Term{v}}}, true
		case strings.HasSuffix(c.name, ".StartChecksumGeneration"):
			v := mk()
			return []Res{{st: s, vals: []*Term{v}}}, true
		case c.fn != nil && c.results.Len() == 1 && refType(c.results.At(0).Type()) && !isModPkg(pkgOf20(c.fn)) && strings.HasPrefix(c.fn.Name(), "New"):
			return []Res{{st: s, vals: []*Term{mk()}}}, true
		}
		return searchModel(x, s, c)
	}
	running := func(s *State, addr *Term) bool {
		return s.auto["running"] != "" && s.ghost["cmp"] != nil && rootOf(addr) == s.ghost["cmp"]
	}
	x.h.PostCall = func(c *Call, r *Res) bool {
		if _, _, _, _, _, _, ok := openCall(c); ok && r.label == "ok" {
			r.st.assume(new20(stripIface(r.vals[0])), true)
		}
		return true
	}
	x.h.PreCall = func(s *State, c *Call) bool {
		switch {
		case strings.HasSuffix(c.name, ".StartFindMatchingBlocks"):
			x.count("section started", c.instr)
			x.cnt["section started"]++
			rd, gen := c.args[1], c.args[3]
			if !isNew(s, rd) {
				x.report(s, c.instr, "shared-reader", "the reader given to the comparison is not known to be new: another one may be reading from it")
			}
			use(s, rd)
			if !isNew(s, gen) {
				x.report(s, c.instr, "shared-generator", "the generator given to the comparison is not known to be new: another one may be using it")
			}
			use(s, gen)
			st := structOf(genT)
			for i := 0; i < st.NumFields(); i++ {
				if !types.IsInterface(st.Field(i).Type()) {
					continue
				}
				h := s.load(mkField(gen, genT, i), st.Field(i).Type())
				if !isNew(s, h) {
					x.report(s, c.instr, "shared-hash", "the hash %s of the generator given to the comparison is not known to be new: another one may be using it", st.Field(i).Name())
				}
				use(s, h)
			}
			s.ghost["cmp"] = rootOf(c.args[0])
			s.auto["running"] = "y"
		case strings.HasSuffix(c.name, ".GetMergedBlocks"):
			delete(s.auto, "running")
		case strings.HasPrefix(c.name, "sync/atomic."):
		}
		return true
	}
	x.h.Load = func(s *State, in ssa.Instruction, ctx *Ctx, addr, val *Term) {
		if running(s, addr) {
			x.report(s, in, "read-while-running", "the counters of a comparison are read without synchronisation while it may be running")
		}
	}
	x.h.Store = func(s *State, in ssa.Instruction, ctx *Ctx, addr, val *Term) bool {
		if running(s, addr) {
			x.report(s, in, "write-while-running", "the counters of a comparison are written without synchronisation while it may be running")
		}
		return true
	}
	x.enter(fn, newState(x), x.params(fn))
}

func pkgOf20(fn *ssa.Function) string {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	return modPath
}

// c20users: functions that get running comparisons from others
func c20users(p *Prog, consumers []*ssa.Function) (out []*ssa.Function) {
	for _, fn := range p.all {
		if fn.Blocks == nil || fn.Synthetic != "" || fn.Parent() != nil {
			continue
		}
		found := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok || c.Common().StaticCallee() == nil {
					continue
				}
				f := c.Common().StaticCallee()
				for _, o := range consumers {
					for i := 0; o == f && i < f.Signature.Results().Len(); i++ {
						found = found || strings.HasPrefix(typeKey(derefT(f.Signature.Results().At(i).Type())), modPath+"/comparer.")
					}
				}
			}
		}
		for _, o := range append(consumers, out...) {
			found = found && o != fn
		}
		if found {
			out = append(out, fn)
		}
	}
	return
}

// ---------- methods called on shared objects ----------

func c20sharedMethods(p *Prog, r *Report) {
	want := map[string]map[string]bool{}
	ifaces := map[string]types.Type{}
	add := func(T types.Type, m string) {
		k := typeKey(T)
		if want[k] == nil {
			want[k] = map[string]bool{}
			ifaces[k] = T
		}
		want[k][m] = true
	}
	for _, a := range []struct{ pkg, name string }{{"comparer", "Index"}, {"blocksources", "BlockSourceRequester"}, {"blocksources", "BlockSourceOffsetResolver"}} {
		T := p.namedType(a.pkg, a.name)
		if T == nil || !types.IsInterface(T) {
			r.fail("anchor", a.pkg+"."+a.name, "", "the interface %s.%s does not exist", a.pkg, a.name)
			continue
		}
		ms := types.NewMethodSet(T)
		for i := 0; i < ms.Len(); i++ {
			add(T, ms.At(i).Obj().Name())
		}
	}
	for k, T := range c20invoked {
		if types.IsInterface(T) {
			add(T, k[strings.Index(k, "\x00")+1:])
		}
	}
	var names []string
	for k := range want {
		names = append(names, k)
	}
	sort.Strings(names)
	done := map[*ssa.Function]bool{}
	for _, k := range names {
		I := ifaces[k].Underlying().(*types.Interface)
		for _, T := range modTypes20(p) {
			if types.IsInterface(T) {
				continue
			}
			R := types.Type(types.NewPointer(T))
			if types.Implements(T, I) {
				R = T
			} else if !types.Implements(R, I) {
				continue
			}
			if n, ok := T.(*types.Named); ok && strings.HasSuffix(k, "BlockSourceRequester") && oneFile(mkIface(mkSym("x", R), R)) {
				_ = n
				r.assume["requesters over a single seekable file are configured for one request at a time (checked by C18)"] = true
				continue
			}
			var fns []*ssa.Function
			var ms []string
			for m := range want[k] {
				ms = append(ms, m)
			}
			sort.Strings(ms)
			for _, m := range ms {
				if f := p.prog.LookupMethod(R, nil, m); f != nil && f.Blocks != nil && !done[f] {
					done[f] = true
					fns = append(fns, f)
				}
			}
			if len(fns) == 0 {
				continue
			}
			r.analyse("methods of "+strings.TrimPrefix(typeKey(R), modPath+"/")+" as "+k[strings.LastIndex(k, ".")+1:], func(x *Exec) {
				q := &race20{x: x, self: map[string]bool{"goroutine": true}}
				for _, f := range fns {
					x.count("method of a shared object", f.Blocks[0].Instrs[0])
					x.cnt["method of a shared object"]++
					x.h = Hooks{}
					rec := &rec20{x: x, roots: map[*Term]string{}}
					rec.on = func(s *State, in ssa.Instruction, loc string, write, atomic bool) {
						q.add(acc20{loc: loc, class: "goroutine", write: write, atomic: atomic, in: in, locks: locks20(s)})
					}
					x.h.Go = func(s *State, c *Call) bool { return true }
					x.h.Inline = func(c *Call) bool { return c.fn != nil && p.inModule(c.fn) }
					rec.install()
					args := x.params(f)
					for i, t := range args {
						if i == 0 {
							rec.roots[t] = "receiver"
						} else if types.IsInterface(t.typ) {
							rec.roots[t] = "argument " + f.Params[i].Name()
						}
					}
					x.enter(f, newState(x), args)
				}
				q.conflicts()
			})
		}
	}
}

func modTypes20(p *Prog) (out []types.Type) {
	var paths []string
	for k := range p.pkgs {
		if isModPkg(k) {
			paths = append(paths, k)
		}
	}
	sort.Strings(paths)
	for _, k := range paths {
		var ns []string
		for n := range p.pkgs[k].Members {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			if t, ok := p.pkgs[k].Members[n].(*ssa.Type); ok {
				out = append(out, t.Type())
			}
		}
	}
	return
}

// ---------- any other goroutine ----------

func c20others(p *Prog, r *Report) {
	base := map[string]bool{}
	for _, fn := range p.all {
		if fn.Blocks == nil || fn.Parent() != nil || strings.HasSuffix(pkgOf20(fn), cmdPkg) {
			continue
		}
		if !hasGo20(fn) || fn.Name() == "loop" || base[fn.String()] {
			continue
		}
		base[fn.String()] = true
		fn := fn
		r.analyse("goroutines of "+shortFn(fn), func(x *Exec) {
			rec := &rec20{x: x, roots: map[*Term]string{}}
			pub := &pub20{x: x, rec: rec, caps: map[*Term]bool{}}
			rec.raw = pub.note
			x.h.Inline = func(c *Call) bool { return c.fn != nil && (c.fn.Parent() != nil || c.fn.Pkg == fn.Pkg) }
			x.h.Go = func(s *State, c *Call) bool {
				if pub.inBody {
					return true
				}
				done := pub.spawn(s, c)
				g := s.clone()
				g.auto = map[string]string{}
				x.runGo(goStart{g, c})
				done()
				return true
			}
			clear := func(s *State) {
				for k := range s.auto {
					if strings.HasPrefix(k, "pub:") {
						delete(s.auto, k)
					}
				}
			}
			x.h.Recv = func(s *State, in ssa.Instruction, ctx *Ctx, ch *Term, elem types.Type) []RecvRes {
				if !pub.inBody {
					clear(s)
				}
				return nil
			}
			x.h.Model = func(s *State, c *Call) ([]Res, bool) {
				switch {
				case c.name == "(*sync.WaitGroup).Wait":
					if !pub.inBody {
						clear(s)
					}
				case strings.HasPrefix(c.name, llrbT+"Ascend") || strings.HasPrefix(c.name, llrbT+"Descend"):
					if f := c.args[len(c.args)-1]; f.kind == KClosure {
						x.clobberClosure(s, f)
					}
					return []Res{{st: s}}, true
				}
				return nil, false
			}
			rec.install()
			pub.install()
			x.enter(fn, newState(x), x.params(fn))
		})
	}
}

func hasGo20(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Go); ok {
				return true
			}
		}
	}
	for _, a := range fn.AnonFuncs {
		if hasGo20(a) {
			return true
		}
	}
	return false
}

// ---------- package variables ----------

func c20globals(p *Prog, r *Report) {
	r.analyse("package variables", func(x *Exec) {
		for _, fn := range p.all {
			root := fn
			for root.Parent() != nil {
				root = root.Parent()
			}
			if root.Name() == "init" || strings.HasPrefix(root.Name(), "init#") || strings.HasSuffix(pkgOf20(root), cmdPkg) {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					var a ssa.Value
					switch in := in.(type) {
					case *ssa.Store:
						a = in.Addr
					case *ssa.MapUpdate:
						a = in.Map
					default:
						continue
					}
					if g := globalBehind(a); g != nil && g.Pkg != nil && isModPkg(g.Pkg.Pkg.Path()) {
						x.report(nil, in, "shared-variable", "the package variable %s, which all goroutines share, is written", g.Name())
					}
				}
			}
		}
	})
}

func globalBehind(v ssa.Value) *ssa.Global {
	for i := 0; i < 20; i++ {
		switch t := v.(type) {
		case *ssa.Global:
			return t
		case *ssa.FieldAddr:
			v = t.X
		case *ssa.IndexAddr:
			v = t.X
		case *ssa.UnOp:
			v = t.X
		case *ssa.Slice:
			v = t.X
		case *ssa.ChangeType:
			v = t.X
		default:
			return nil
		}
	}
	return nil
}
