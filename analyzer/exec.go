package main

// Interprocedural, path sensitive dataflow engine over go/ssa.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type OutKind int

const (
	oRet OutKind = iota
	oPanic
	oExit
)

type Outcome struct {
	kind OutKind
	vals []*Term // results; panic value; exit code
	st   *State
	at   ssa.Instruction
}

type Call struct {
	instr   ssa.Instruction
	ctx     *Ctx
	fnTerm  *Term
	fn      *ssa.Function
	name    string
	method  string
	recvT   types.Type // static receiver type of an interface call
	args    []*Term
	sig     *types.Signature
	common  *ssa.CallCommon
	isGo    bool
	isDef   bool
	invoke  bool
	results *types.Tuple
}

type Res struct {
	st    *State
	vals  []*Term
	label string
	exit  bool
	pan   bool
}

type Hooks struct {
	PreCall  func(st *State, c *Call) bool
	Model    func(st *State, c *Call) ([]Res, bool)
	PostCall func(c *Call, r *Res) bool
	Inline   func(c *Call) bool // nil: default
	Send     func(st *State, in ssa.Instruction, ctx *Ctx, ch, val *Term) bool
	Recv     func(st *State, in ssa.Instruction, ctx *Ctx, ch *Term, elem types.Type) []RecvRes
	Close    func(st *State, in ssa.Instruction, ctx *Ctx, ch *Term) bool
	Store    func(st *State, in ssa.Instruction, ctx *Ctx, addr, val *Term) bool
	LoadElem func(st *State, in ssa.Instruction, ctx *Ctx, addr, val *Term) bool
	Load     func(st *State, in ssa.Instruction, ctx *Ctx, addr, val *Term)
	MapDel   func(st *State, in ssa.Instruction, ctx *Ctx, m *Term)
	IndexRd  func(st *State, in ssa.Instruction, ctx *Ctx, base, idx *Term, elem types.Type) bool
	Append   func(st *State, in ssa.Instruction, ctx *Ctx, old *Term, elems []*Term, spread *Term, res *Term, elem types.Type) bool
	Copy     func(st *State, in ssa.Instruction, ctx *Ctx, dst, src, n *Term) bool
	MapUpd   func(st *State, in ssa.Instruction, ctx *Ctx, m, k, v *Term) bool
	MapGet   func(st *State, in ssa.Instruction, ctx *Ctx, m, k *Term) bool
	Next     func(st *State, in ssa.Instruction, ctx *Ctx, m, k, v *Term, more bool) bool
	Go       func(st *State, c *Call) bool
	Panic    func(st *State, in ssa.Instruction, ctx *Ctx, what string) bool
	Bounds   func(st *State, in ssa.Instruction, ctx *Ctx, what string, cons []Con) bool
	Assume   func(st *State, in ssa.Instruction, cond *Term, val bool) bool
	NilDeref func(st *State, in ssa.Instruction, ctx *Ctx) bool
	MayBeNil bool
	Alloc    func(st *State, obj *Term)
	LoopKey  func(st *State) string
	BackEdge func(st *State, header *ssa.BasicBlock) bool
}

type RecvRes struct {
	st  *State
	val *Term
	ok  *Term
}

type Exec struct {
	p           *Prog
	rule        string
	h           Hooks
	created     map[*Term]bool
	allocAt     map[*Term]*ssa.Alloc
	pinned      map[*Term]bool
	instN       int
	ctxs        map[string]*Ctx
	steps       int
	maxStep     int
	viol        map[string]*Violation
	violOrd     []string
	templates   map[string]map[*Term]bool
	restart     bool
	unroll      int
	cnt         map[string]int
	sites       map[string]bool
	fns         map[string]bool
	quiet       int
	only        map[string]bool // nil: all; else the kinds of violation reported
	assumptions map[string]bool
	ringMode    bool
	pairJoin    bool     // joins look for relations between any two values
	counts      []string // ghost values that joins relate to pairs of others
	opaqueBytes bool     // the rule keeps track of stored bytes itself
	crash       bool     // nothing may panic (C34)
	rank        bool     // loops must make progress (C33)
	ranking     int      // inside the extra pass for that
	ranked      map[*ssa.BasicBlock]bool
	dbg         bool
	trace       bool
}

type Violation struct {
	rule, construct, msg, pos string
	trace                     []string
}

func newExec(p *Prog, rule string) *Exec {
	return &Exec{p: p, rule: rule, created: map[*Term]bool{}, allocAt: map[*Term]*ssa.Alloc{}, pinned: map[*Term]bool{}, ctxs: map[string]*Ctx{},
		maxStep: 400000, ranked: map[*ssa.BasicBlock]bool{}, viol: map[string]*Violation{}, templates: map[string]map[*Term]bool{}, cnt: map[string]int{},
		sites: map[string]bool{}, fns: map[string]bool{}, assumptions: map[string]bool{}, dbg: os.Getenv("VDEBUG") != "", trace: os.Getenv("VTRACE") != ""}
}

var valIDs = map[ssa.Value]int{}

func (x *Exec) valID(v ssa.Value) int {
	if id, ok := valIDs[v]; ok {
		return id
	}
	id := len(valIDs) + 1
	valIDs[v] = id
	return id
}

var instrIDs = map[ssa.Instruction]int{}

func (x *Exec) instrID(v ssa.Instruction) int {
	if id, ok := instrIDs[v]; ok {
		return id
	}
	id := len(instrIDs) + 1
	instrIDs[v] = id
	return id
}

func (x *Exec) mkCtx(parent *Ctx, site ssa.Instruction, fn *ssa.Function) *Ctx {
	pid := 0
	d := 0
	if parent != nil {
		pid, d = parent.id, parent.depth+1
	}
	k := fmt.Sprintf("%d/%d/%p", pid, x.instrID(site), fn)
	if site == nil {
		k = fmt.Sprintf("%d/0/%p", pid, fn)
	}
	if c, ok := x.ctxs[k]; ok {
		return c
	}
	c := &Ctx{id: len(x.ctxs) + 1, parent: parent, site: site, fn: fn, depth: d}
	x.ctxs[k] = c
	return c
}

// ---------- reports ----------

func (x *Exec) pos(in ssa.Instruction) string {
	if in == nil {
		return "?"
	}
	p := in.Pos()
	if !p.IsValid() {
		// neighbours
		if b := in.Block(); b != nil {
			for _, o := range b.Instrs {
				if o.Pos().IsValid() {
					p = o.Pos()
					if o == in {
						break
					}
				}
			}
		}
	}
	if !p.IsValid() && in.Parent() != nil {
		p = in.Parent().Pos()
	}
	ps := x.p.fset.Position(p)
	fn := "?"
	if in.Parent() != nil {
		fn = in.Parent().RelString(nil)
		fn = strings.ReplaceAll(fn, modPath+"/", "")
		fn = strings.ReplaceAll(fn, modPath, "gosync")
	}
	file := strings.TrimPrefix(ps.Filename, "/repo/")
	return fmt.Sprintf("%s:%d (%s)", file, ps.Line, fn)
}

// construct names a program construct without line numbers.
func (x *Exec) construct(in ssa.Instruction) string {
	if in == nil {
		return "?"
	}
	fn := in.Parent().RelString(nil)
	fn = strings.ReplaceAll(fn, modPath+"/", "")
	fn = strings.ReplaceAll(fn, modPath, "gosync")
	desc := ""
	if c, ok := in.(ssa.CallInstruction); ok {
		cc := c.Common()
		if cc.IsInvoke() {
			desc = cc.Method.Name()
		} else if f := cc.StaticCallee(); f != nil {
			desc = f.Name()
		} else {
			desc = "call"
		}
	} else {
		desc = strings.TrimPrefix(fmt.Sprintf("%T", in), "*ssa.")
	}
	return fn + "/" + desc
}

func (x *Exec) report(st *State, in ssa.Instruction, rule, format string, a ...interface{}) {
	if x.quiet > 0 || x.only != nil && !x.only[rule] {
		return
	}
	v := &Violation{rule: rule, construct: x.construct(in), msg: fmt.Sprintf(format, a...), pos: x.pos(in)}
	k := rule + "|" + v.construct
	if _, ok := x.viol[k]; ok {
		return
	}
	if st != nil {
		var t []string
		for n := st.trace; n != nil && len(t) < 40; n = n.parent {
			t = append(t, x.pos(n.instr)+": "+n.note)
		}
		for i, j := 0, len(t)-1; i < j; i, j = i+1, j-1 {
			t[i], t[j] = t[j], t[i]
		}
		v.trace = t
		if x.dbg {
			fmt.Fprintf(os.Stderr, "VIOL %s %s %s\n", rule, v.pos, v.msg)
			for _, c := range st.lin {
				fmt.Fprintln(os.Stderr, "   lin", c)
			}
			for f, b := range st.facts {
				fmt.Fprintln(os.Stderr, "   fact", f, b)
			}
			for g, v := range st.ghost {
				fmt.Fprintln(os.Stderr, "   ghost", g, v)
			}
			fmt.Fprintln(os.Stderr, "   auto", st.autoKey())
		}
	}
	x.viol[k] = v
	x.violOrd = append(x.violOrd, k)
}

func (x *Exec) undecided(in ssa.Instruction, format string, a ...interface{}) {
	x.report(nil, in, "undecided", format, a...)
}

func (x *Exec) count(what string, in ssa.Instruction) {
	k := what + "@" + x.pos(in)
	if !x.sites[k] {
		x.sites[k] = true
		x.cnt[what]++
	}
}

// ---------- function info ----------

type Loop struct {
	header   *ssa.BasicBlock
	blocks   map[*ssa.BasicBlock]bool
	parent   *Loop
	children []*Loop
	id       int
}

type fnInfo struct {
	rpo     map[*ssa.BasicBlock]int
	loops   map[*ssa.BasicBlock]*Loop // by header
	inner   map[*ssa.BasicBlock]*Loop // innermost loop containing block
	liveIn  map[*ssa.BasicBlock]map[ssa.Value]bool
	liveOut map[*ssa.BasicBlock]map[ssa.Value]bool
	enum    map[*ssa.Phi]bool
}

var fnInfos = map[*ssa.Function]*fnInfo{}
var loopCount int

func infoOf(fn *ssa.Function) *fnInfo {
	if i, ok := fnInfos[fn]; ok {
		return i
	}
	fi := &fnInfo{rpo: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]*Loop{}, inner: map[*ssa.BasicBlock]*Loop{},
		liveIn: map[*ssa.BasicBlock]map[ssa.Value]bool{}, liveOut: map[*ssa.BasicBlock]map[ssa.Value]bool{}, enum: map[*ssa.Phi]bool{}}
	fnInfos[fn] = fi
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := range post {
		fi.rpo[post[i]] = len(post) - 1 - i
	}
	// natural loops
	for b := range seen {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := fi.loops[s]
				if l == nil {
					loopCount++
					l = &Loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}, id: loopCount}
					fi.loops[s] = l
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					n := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if l.blocks[n] {
						continue
					}
					l.blocks[n] = true
					for _, p := range n.Preds {
						if seen[p] {
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	var ls []*Loop
	for _, l := range fi.loops {
		ls = append(ls, l)
	}
	sort.Slice(ls, func(i, j int) bool {
		if len(ls[i].blocks) != len(ls[j].blocks) {
			return len(ls[i].blocks) < len(ls[j].blocks)
		}
		return fi.rpo[ls[i].header] < fi.rpo[ls[j].header]
	})
	for i, l := range ls {
		for _, o := range ls[i+1:] {
			if o.blocks[l.header] && o != l {
				l.parent = o
				o.children = append(o.children, l)
				break
			}
		}
		for b := range l.blocks {
			if fi.inner[b] == nil {
				fi.inner[b] = l
			}
		}
	}
	// liveness
	use := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	def := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	blocks := fn.Blocks
	if fn.Recover != nil {
		has := false
		for _, b := range blocks {
			if b == fn.Recover {
				has = true
			}
		}
		if !has {
			blocks = append(append([]*ssa.BasicBlock(nil), blocks...), fn.Recover)
		}
	}
	for _, b := range blocks {
		use[b], def[b] = map[ssa.Value]bool{}, map[ssa.Value]bool{}
		for _, in := range b.Instrs {
			if phi, ok := in.(*ssa.Phi); ok {
				def[b][phi] = true
				continue
			}
			for _, op := range in.Operands(nil) {
				if *op != nil && !def[b][*op] {
					use[b][*op] = true
				}
			}
			if v, ok := in.(ssa.Value); ok {
				def[b][v] = true
			}
		}
		fi.liveIn[b] = map[ssa.Value]bool{}
		fi.liveOut[b] = map[ssa.Value]bool{}
	}
	for ch := true; ch; {
		ch = false
		for i := len(blocks) - 1; i >= 0; i-- {
			b := blocks[i]
			for _, s := range b.Succs {
				for v := range fi.liveIn[s] {
					if !fi.liveOut[b][v] {
						fi.liveOut[b][v] = true
						ch = true
					}
				}
				for pi, p := range s.Preds {
					if p != b {
						continue
					}
					for _, in := range s.Instrs {
						if phi, ok := in.(*ssa.Phi); ok {
							v := phi.Edges[pi]
							if !fi.liveOut[b][v] {
								fi.liveOut[b][v] = true
								ch = true
							}
						}
					}
				}
			}
			for v := range use[b] {
				if !fi.liveIn[b][v] {
					fi.liveIn[b][v] = true
					ch = true
				}
			}
			for v := range fi.liveOut[b] {
				if !def[b][v] && !fi.liveIn[b][v] {
					fi.liveIn[b][v] = true
					ch = true
				}
			}
		}
	}
	// the recover block needs its operands (allocs of named results) everywhere
	if fn.Recover != nil {
		for _, in := range fn.Recover.Instrs {
			for _, op := range in.Operands(nil) {
				if *op == nil {
					continue
				}
				for _, b := range blocks {
					fi.liveIn[b][*op] = true
					fi.liveOut[b][*op] = true
				}
			}
		}
	}
	// enumerated phis: all transitive inputs are constants
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				continue
			}
			seen := map[ssa.Value]bool{}
			all := true
			var rec func(v ssa.Value)
			rec = func(v ssa.Value) {
				if seen[v] || !all {
					return
				}
				seen[v] = true
				switch v := v.(type) {
				case *ssa.Const:
				case *ssa.Phi:
					for _, e := range v.Edges {
						rec(e)
					}
				default:
					all = false
				}
			}
			rec(phi)
			fi.enum[phi] = all
		}
	}
	return fi
}

var liveAfterCache = map[ssa.Instruction]map[ssa.Value]bool{}

// liveAfter: values used after the instruction.
func liveAfter(in ssa.Instruction) map[ssa.Value]bool {
	if m, ok := liveAfterCache[in]; ok {
		return m
	}
	b := in.Block()
	fi := infoOf(in.Parent())
	m := map[ssa.Value]bool{}
	for v := range fi.liveOut[b] {
		m[v] = true
	}
	for i := len(b.Instrs) - 1; i >= 0; i-- {
		if b.Instrs[i] == in {
			break
		}
		for _, op := range b.Instrs[i].Operands(nil) {
			if *op != nil {
				m[*op] = true
			}
		}
	}
	liveAfterCache[in] = m
	return m
}

func (x *Exec) gcAt(st *State, ctx *Ctx, live func(ssa.Value) bool) {
	chain := map[*Ctx]map[ssa.Value]bool{}
	for c := ctx; c != nil && c.parent != nil; c = c.parent {
		if c.site != nil {
			chain[c.parent] = liveAfter(c.site)
		}
	}
	st.gc(func(r reg) bool {
		if r.ctx == ctx {
			return live(r.v)
		}
		m, ok := chain[r.ctx]
		if !ok {
			return r.ctx.parent == nil && r.ctx != ctx && !x.onStack(ctx, r.ctx)
		}
		return m[r.v]
	})
}

func (x *Exec) onStack(c, r *Ctx) bool {
	for ; c != nil; c = c.parent {
		if c == r {
			return true
		}
	}
	return false
}

// ---------- regions ----------

type edge struct {
	from, to *ssa.BasicBlock
	st       *State
}

func (x *Exec) runFunction(fn *ssa.Function, ctx *Ctx, st *State) []Outcome {
	x.fns[fn.String()] = true
	exits, outs := x.region(fn, ctx, nil, []edge{{nil, fn.Blocks[0], st}})
	_ = exits
	// drop registers of the frame
	for _, o := range outs {
		for r := range o.st.env {
			if r.ctx == ctx {
				delete(o.st.env, r)
			}
		}
		delete(o.st.defers, ctx)
		for k := range o.st.iter {
			if strings.HasPrefix(k, fmt.Sprintf("%d.", ctx.id)) {
				delete(o.st.iter, k)
			}
		}
	}
	return outs
}

const maxPending = 3000

func (x *Exec) region(fn *ssa.Function, ctx *Ctx, L *Loop, entries []edge) (exits []edge, outs []Outcome) {
	fi := infoOf(fn)
	pend := map[*ssa.BasicBlock][]edge{}
	first := true
	for _, e := range entries {
		pend[e.to] = append(pend[e.to], e)
	}
	for len(pend) > 0 {
		var b *ssa.BasicBlock
		for c := range pend {
			if b == nil || fi.rpo[c] < fi.rpo[b] {
				b = c
			}
		}
		es := pend[b]
		delete(pend, b)
		isEntry := first && L != nil && b == L.header
		first = false
		if x.steps > x.maxStep {
			x.undecided(b.Instrs[0], "analysis budget exceeded")
			return
		}
		if len(es) > maxPending {
			x.undecided(b.Instrs[0], "too many abstract states")
			return
		}
		var inl *Loop
		if l := fi.loops[b]; l != nil && l != L {
			inl = l
		}
		if inl != nil {
			// each distinct entry state gets its own fixpoint
			seen := map[string]bool{}
			for _, e := range es {
				st := x.phis(e.st, ctx, e.from, b)
				x.gcAt(st, ctx, func(v ssa.Value) bool { return fi.liveIn[b][v] || isPhiOf(v, b) })
				k := st.key()
				if seen[k] {
					continue
				}
				seen[k] = true
				ex, os := x.loop(fn, ctx, inl, st)
				outs = append(outs, os...)
				for _, e2 := range ex {
					if L != nil && (e2.to == L.header || !L.blocks[e2.to]) {
						exits = append(exits, e2)
					} else {
						pend[e2.to] = append(pend[e2.to], e2)
					}
				}
			}
			continue
		}
		seen := map[string]bool{}
		for _, e := range es {
			st := e.st
			if !isEntry {
				st = x.phis(st, ctx, e.from, b)
				if len(b.Preds) > 1 || len(es) > 1 {
					x.gcAt(st, ctx, func(v ssa.Value) bool { return fi.liveIn[b][v] || isPhiOf(v, b) })
				}
			}
			if len(es) > 1 {
				k := st.key()
				if seen[k] {
					continue
				}
				seen[k] = true
			}
			sc, os := x.block(b, ctx, st)
			outs = append(outs, os...)
			for _, e2 := range sc {
				if L != nil && (e2.to == L.header || !L.blocks[e2.to]) {
					exits = append(exits, e2)
				} else {
					pend[e2.to] = append(pend[e2.to], e2)
				}
			}
		}
	}
	return exits, outs
}

func isPhiOf(v ssa.Value, b *ssa.BasicBlock) bool {
	p, ok := v.(*ssa.Phi)
	return ok && p.Block() == b
}

func (x *Exec) phis(st *State, ctx *Ctx, from, b *ssa.BasicBlock) *State {
	if from == nil {
		return st
	}
	pi := -1
	for i, p := range b.Preds {
		if p == from {
			pi = i
			break
		}
	}
	var vals []*Term
	var regs []reg
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, x.val(st, ctx, phi.Edges[pi]))
		regs = append(regs, reg{ctx, phi})
	}
	for i := range vals {
		st.env[regs[i]] = vals[i]
	}
	return st
}

type accState struct {
	st    *State
	n     int
	exits []edge
	outs  []Outcome
}

func (x *Exec) loop(fn *ssa.Function, ctx *Ctx, L *Loop, entry *State) ([]edge, []Outcome) {
	fi := infoOf(fn)
	acc := map[string]*accState{}
	var order []string
	var dirty []string
	loopID := fmt.Sprintf("%d.%d", ctx.id, L.id)
	constSeen := map[string]map[string]bool{}
	tag := fmt.Sprintf("J%d.%d", ctx.id, L.id)
	entry.iter[loopID] = 0
	retireTag(entry, tag+"k")
	var inv map[*Term]bool
	var entryEpoch map[*Term]int
	if x.rank {
		inv = entry.allAtoms()
		entryEpoch = entry.clone().epoch
	}
	arrive := func(st *State) {
		k := x.loopKey(st, ctx, L, fi, constSeen)
		a := acc[k]
		if a == nil {
			acc[k] = &accState{st: st.clone()}
			order = append(order, k)
			dirty = append(dirty, k)
			return
		}
		j := joinStates(x, a.st.clone(), st.clone(), tag+"k"+fmt.Sprint(indexOf(order, k)), &joinOpts{widen: a.n > 4, hard: a.n > 20})
		if x.dbg && a.n > 30 {
			fmt.Fprintln(os.Stderr, "SLOW", a.n, k)
			diffStates(a.st, j)
		}
		if statesEqual(a.st, j) {
			return
		}
		if a.n++; a.n > 60 {
			x.undecided(L.header.Instrs[0], "loop analysis does not converge")
			return
		}
		j.trace = a.st.trace
		a.st = j
		for _, d := range dirty {
			if d == k {
				return
			}
		}
		dirty = append(dirty, k)
	}
	arrive(entry)
	for len(dirty) > 0 {
		k := dirty[0]
		dirty = dirty[1:]
		a := acc[k]
		if x.steps > x.maxStep {
			x.undecided(L.header.Instrs[0], "analysis budget exceeded")
			break
		}
		if len(acc) > 400 {
			x.undecided(L.header.Instrs[0], "too many loop partitions")
			break
		}
		t0 := time.Now()
		ex, outs := x.region(fn, ctx, L, []edge{{nil, L.header, a.st.clone()}})
		a.exits, a.outs = nil, outs
		if x.trace {
			fmt.Fprintf(os.Stderr, "LOOP %s %s n=%d parts=%d dirty=%d exits=%d lin=%d facts=%d mem=%d env=%d steps=%d %v key=%s\n", tag, x.pos(L.header.Instrs[0]), a.n, len(acc), len(dirty), len(ex), len(a.st.lin), len(a.st.facts), len(a.st.mem), len(a.st.env), x.steps, time.Since(t0), k)
			if os.Getenv("VTRACE") == "2" {
				for _, c := range a.st.lin {
					fmt.Fprintln(os.Stderr, "   ", c)
				}
				for g, v := range a.st.ghost {
					fmt.Fprintln(os.Stderr, "    ghost", g, v)
				}
			}
		}
		for _, e := range ex {
			if e.to == L.header {
				st := x.phis(e.st, ctx, e.from, L.header)
				x.gcAt(st, ctx, func(v ssa.Value) bool { return fi.liveIn[L.header][v] || isPhiOf(v, L.header) })
				if st.iter[loopID] < x.unroll {
					st.iter[loopID]++
				}
				if x.h.BackEdge != nil && !x.h.BackEdge(st, L.header) {
					continue
				}
				arrive(st)
			} else {
				a.exits = append(a.exits, e)
			}
		}
	}
	if x.rank {
		x.ranking++
		x.rankLoop(fn, ctx, L, loopID, acc, order, inv, entryEpoch)
		x.ranking--
	}
	var exits []edge
	var outs []Outcome
	for _, k := range order {
		a := acc[k]
		for _, e := range a.exits {
			delete(e.st.iter, loopID)
			exits = append(exits, e)
		}
		outs = append(outs, a.outs...)
	}
	return exits, outs
}

// retireTag renames what an earlier run of the same loop introduced, so that
// it is not confused with what this run introduces.
func retireTag(s *State, prefix string) {
	at := s.allAtoms()
	names := map[string]bool{}
	var as []*Term
	for a := range at {
		if a.kind != KSym {
			continue
		}
		names[a.name] = true
		if strings.HasPrefix(a.name, prefix) {
			as = append(as, a)
		}
	}
	if len(as) == 0 {
		return
	}
	sort.Slice(as, func(i, k int) bool { return as[i].id < as[k].id })
	m := substMap{}
	for _, a := range as {
		n := "'" + a.name
		for names[n] {
			n = "'" + n
		}
		t := mkSym(n, a.typ)
		s.x.created[t] = true
		m[a] = t
	}
	s.subst(m)
}

func indexOf(a []string, s string) int {
	for i, v := range a {
		if v == s {
			return i
		}
	}
	return len(a)
}

func statesEqual(a, b *State) bool {
	if len(a.env) != len(b.env) || len(a.mem) != len(b.mem) || len(a.facts) != len(b.facts) {
		return false
	}
	for k, v := range a.env {
		if b.env[k] != v {
			return false
		}
	}
	for k, v := range a.mem {
		if b.mem[k] != v {
			return false
		}
	}
	for k, v := range a.ghost {
		if b.ghost[k] != v {
			return false
		}
	}
	for k, v := range a.facts {
		if w, ok := b.facts[k]; !ok || v != w {
			return false
		}
	}
	for k, v := range a.epoch {
		if b.epoch[k] != v {
			return false
		}
	}
	// b is weaker than a: equal iff a's constraints follow from b's
	for _, c := range a.lin {
		if !entails(b.lin, c) {
			return false
		}
	}
	return true
}

func diffStates(a, b *State) {
	p := func(f string, v ...interface{}) { fmt.Fprintf(os.Stderr, "  "+f+"\n", v...) }
	for k, v := range a.facts {
		if w, ok := b.facts[k]; !ok || w != v {
			p("fact lost %v %v", k, v)
		}
	}
	for k, v := range b.facts {
		if w, ok := a.facts[k]; !ok || w != v {
			p("fact new %v %v", k, v)
		}
	}
	for k, v := range a.epoch {
		if b.epoch[k] != v {
			p("epoch %v %d %d", k, v, b.epoch[k])
		}
	}
	for k, v := range a.ghost {
		if b.ghost[k] != v {
			p("ghost %v %v %v", k, v, b.ghost[k])
		}
	}
	for k := range b.mem {
		if a.mem[k] == nil {
			p("mem new %v", k)
		}
	}
	for k, v := range a.env {
		if b.env[k] != v {
			p("env %s: %v -> %v", k.v.Name(), v, b.env[k])
		}
	}
	for k, v := range a.mem {
		if b.mem[k] != v {
			p("mem %v: %v -> %v", k, v, b.mem[k])
		}
	}
	for k, v := range b.mem {
		if a.mem[k] == nil {
			p("mem new %v: %v", k, v)
		}
	}
	for k, v := range a.ghost {
		if b.ghost[k] != v {
			p("ghost %s: %v -> %v", k, v, b.ghost[k])
		}
	}
	for k, v := range a.facts {
		if w, ok := b.facts[k]; !ok || v != w {
			p("fact lost %v=%v", k, v)
		}
	}
	for k, v := range b.facts {
		if w, ok := a.facts[k]; !ok || v != w {
			p("fact new %v=%v", k, v)
		}
	}
	for _, c := range a.lin {
		if !entails(b.lin, c) {
			p("lin lost %v", c)
		}
	}
}

func (x *Exec) loopKey(st *State, ctx *Ctx, L *Loop, fi *fnInfo, constSeen map[string]map[string]bool) string {
	var parts []string
	parts = append(parts, st.autoKey(), st.deferKey())
	for k, v := range st.iter {
		parts = append(parts, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(parts[2:])
	if x.h.LoopKey != nil {
		parts = append(parts, x.h.LoopKey(st))
	}
	decided := x.headerDecided(st, ctx, L)
	for _, in := range L.header.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		v := st.env[reg{ctx, phi}]
		if v == nil {
			continue
		}
		cls := ""
		if fi.enum[phi] && (v.kind == KConst || v.kind == KPoly) {
			cls = v.String()
		} else if isNilable(phi.Type()) {
			cls = fmt.Sprint(st.nilClass(v))
		} else if isBoolType(phi.Type()) {
			cls = fmt.Sprint(st.truth(v))
		} else if c, ok := constInt(v); ok && decided && headerTests(L, phi) {
			id := fmt.Sprint(x.valID(phi))
			if constSeen[id] == nil {
				constSeen[id] = map[string]bool{}
			}
			if len(constSeen[id]) < 16 || constSeen[id][fmt.Sprint(c)] {
				constSeen[id][fmt.Sprint(c)] = true
				cls = fmt.Sprint(c)
			}
		}
		parts = append(parts, cls)
	}
	// allocated cells
	var cells []string
	for k, v := range st.mem {
		if rootOf(k).kind != KAlloc || isElemExact(k) || k.kind == KElem {
			continue
		}
		cls := ""
		switch {
		case v == trueT || v == falseT:
			cls = v.name
		case v == nilT:
			cls = "nil"
		case v.kind == KPoly:
			if a := x.allocAt[k]; a != nil && !enumCell(a) {
				break
			}
			if c, ok := constInt(v); ok {
				id := fmt.Sprintf("m%d", k.id)
				if constSeen[id] == nil {
					constSeen[id] = map[string]bool{}
				}
				cs := fmt.Sprint(c)
				if len(constSeen[id]) < 3 || constSeen[id][cs] {
					constSeen[id][cs] = true
					cls = cs
				}
			}
		case isNilable(v.typ) && st.nilClass(v) == 2:
			cls = "nn"
		}
		if cls != "" {
			cells = append(cells, fmt.Sprintf("%d:%s", k.id, cls))
		}
	}
	sort.Strings(cells)
	return strings.Join(parts, ";") + "|" + strings.Join(cells, ",")
}

var enumCells = map[*ssa.Alloc]bool{}

// enumCell: only constants are ever stored in the variable.
func enumCell(a *ssa.Alloc) bool {
	if r, ok := enumCells[a]; ok {
		return r
	}
	var only func(v ssa.Value) bool
	only = func(v ssa.Value) bool {
		refs := v.Referrers()
		if refs == nil {
			return false
		}
		for _, in := range *refs {
			switch in := in.(type) {
			case *ssa.DebugRef, *ssa.UnOp:
			case *ssa.Store:
				if _, ok := in.Val.(*ssa.Const); !ok || in.Addr != v {
					return false
				}
			case *ssa.MakeClosure:
				f := in.Fn.(*ssa.Function)
				for i, b := range in.Bindings {
					if b == v && !only(f.FreeVars[i]) {
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}
	r := only(a)
	enumCells[a] = r
	return r
}

func isBoolType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isNilable(t types.Type) bool {
	if t == nil {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Slice, *types.Map, *types.Chan, *types.Signature:
		return true
	}
	return false
}

// headerTests: the exit test of the loop header looks at this variable.
func headerTests(L *Loop, phi *ssa.Phi) bool {
	iff, ok := L.header.Instrs[len(L.header.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	var reach func(v ssa.Value) bool
	reach = func(v ssa.Value) bool {
		if v == phi {
			return true
		}
		in, ok := v.(ssa.Instruction)
		if _, isPhi := v.(*ssa.Phi); !ok || isPhi || in.Block() != L.header {
			return false
		}
		for _, o := range in.Operands(nil) {
			if *o != nil && reach(*o) {
				return true
			}
		}
		return false
	}
	return reach(iff.Cond)
}

// headerDecided: the exit test of the loop header is decided by constants in
// this state (loops over literals).
func (x *Exec) headerDecided(st *State, ctx *Ctx, L *Loop) bool {
	iff, ok := L.header.Instrs[len(L.header.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	s := st.clone()
	for _, in := range L.header.Instrs {
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.BinOp:
			s.env[reg{ctx, in}] = x.binop(s, ctx, in, in.Op, x.val(s, ctx, in.X), x.val(s, ctx, in.Y), in.X.Type(), in.Type())
		case *ssa.Call:
			if b, ok := in.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				s.env[reg{ctx, in}] = mkLen(x.val(s, ctx, in.Call.Args[0]))
				continue
			}
			return false
		case *ssa.If:
		default:
			return false
		}
	}
	c := x.val(s, ctx, iff.Cond)
	return c == trueT || c == falseT
}

// ---------- values ----------

func (x *Exec) val(st *State, ctx *Ctx, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		return constTerm(v)
	case *ssa.Function:
		return mkFunc(v)
	case *ssa.Global:
		return mkGlob(v)
	case *ssa.Builtin:
		return mkConst("builtin:"+v.Name(), nil)
	}
	if t, ok := st.env[reg{ctx, v}]; ok {
		return t
	}
	x.undecided(nil, "no value for %s in %s", v.Name(), ctx.fn)
	return mkSym(fmt.Sprintf("undef:%s", v.Name()), v.Type())
}

func constTerm(v *ssa.Const) *Term {
	if v.Value == nil {
		return zeroOf(v.Type())
	}
	switch v.Value.Kind() {
	case constant.Bool:
		return mkBool(constant.BoolVal(v.Value))
	case constant.String:
		return mkStrConst(constant.StringVal(v.Value))
	case constant.Int:
		if isIntType(v.Type()) {
			if i, ok := constant.Int64Val(v.Value); ok && abs64(i) < coefLimit {
				return mkInt(i)
			}
		}
		return mkConst("c"+v.Value.ExactString()+":"+typeKey(v.Type()), v.Type())
	}
	return mkConst("c"+v.Value.ExactString()+":"+typeKey(v.Type()), v.Type())
}

func (x *Exec) name(ctx *Ctx, in ssa.Instruction, label string) string {
	return fmt.Sprintf("%s@%d.%d", label, ctx.id, x.instrID(in))
}

// ---------- blocks and instructions ----------

type ires struct {
	st  *State
	out *Outcome
}

func (x *Exec) block(b *ssa.BasicBlock, ctx *Ctx, st *State) (succs []edge, outs []Outcome) {
	cur := []*State{st}
	for _, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		var next []*State
		switch in := in.(type) {
		case *ssa.Jump:
			for _, s := range cur {
				succs = append(succs, edge{b, b.Succs[0], s})
			}
			return
		case *ssa.If:
			for _, s := range cur {
				c := x.val(s, ctx, in.Cond)
				switch s.truth(c) {
				case 1:
					succs = append(succs, edge{b, b.Succs[0], s})
				case 0:
					succs = append(succs, edge{b, b.Succs[1], s})
				default:
					for i, v := range []bool{true, false} {
						n := s.clone()
						if x.h.Assume != nil && !x.h.Assume(n, in, c, v) {
							continue
						}
						if !n.assume(c, v) {
							continue
						}
						n.note(in, "%s is %v", trunc(c.String(), 120), v)
						succs = append(succs, edge{b, b.Succs[i], n})
					}
				}
			}
			return
		case *ssa.Return:
			for _, s := range cur {
				vals := make([]*Term, len(in.Results))
				for i, r := range in.Results {
					vals[i] = x.val(s, ctx, r)
				}
				outs = append(outs, Outcome{kind: oRet, vals: vals, st: s, at: in})
			}
			return
		case *ssa.Panic:
			for _, s := range cur {
				if x.crash {
					x.report(s, in, "may-panic", "this panic can be reached")
				}
				if x.h.Panic != nil && !x.h.Panic(s, in, ctx, "explicit panic") {
					continue
				}
				v := x.val(s, ctx, in.X)
				outs = append(outs, x.unwind(s, ctx, v, in)...)
			}
			return
		}
		for _, s := range cur {
			x.steps++
			for _, r := range x.instr(s, ctx, in) {
				if r.out != nil {
					if r.out.kind == oPanic {
						outs = append(outs, x.unwind(r.out.st, ctx, r.out.vals[0], in)...)
					} else {
						outs = append(outs, *r.out)
					}
				} else {
					next = append(next, r.st)
				}
			}
		}
		if len(next) > 4 {
			seen := map[string]bool{}
			d := next[:0]
			la := liveAfter(in)
			for _, s := range next {
				x.gcAt(s, ctx, func(v ssa.Value) bool { return la[v] || ssa.Value(nil) == v || isInstrVal(in, v) })
				k := s.key()
				if !seen[k] {
					seen[k] = true
					d = append(d, s)
				}
			}
			next = d
		}
		cur = next
		if len(cur) == 0 {
			return
		}
		if len(cur) > maxPending {
			x.undecided(in, "too many abstract states")
			return nil, outs
		}
	}
	return
}

func isInstrVal(in ssa.Instruction, v ssa.Value) bool {
	w, ok := in.(ssa.Value)
	return ok && w == v
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// unwind runs the deferred calls of the frame with a panic in flight.
func (x *Exec) unwind(st *State, ctx *Ctx, val *Term, at ssa.Instruction) []Outcome {
	saved := st.recov
	st.recov = val
	var outs []Outcome
	for _, r := range x.runDefers(st, ctx, at) {
		if r.out != nil {
			outs = append(outs, *r.out)
			continue
		}
		s := r.st
		if s.recov != nil {
			v := s.recov
			s.recov = saved
			outs = append(outs, Outcome{kind: oPanic, vals: []*Term{v}, st: s, at: at})
			continue
		}
		s.recov = saved
		// recovered
		fn := ctx.fn
		if fn.Recover != nil {
			_, os := x.block(fn.Recover, ctx, s)
			outs = append(outs, os...)
		} else {
			var vals []*Term
			for i := 0; i < fn.Signature.Results().Len(); i++ {
				vals = append(vals, zeroOf(fn.Signature.Results().At(i).Type()))
			}
			outs = append(outs, Outcome{kind: oRet, vals: vals, st: s, at: at})
		}
	}
	return outs
}

func (x *Exec) runDefers(st *State, ctx *Ctx, at ssa.Instruction) []ires {
	ds := st.defers[ctx]
	if len(ds) == 0 {
		return []ires{{st: st}}
	}
	d := ds[len(ds)-1]
	st.defers[ctx] = ds[:len(ds)-1]
	if len(st.defers[ctx]) == 0 {
		delete(st.defers, ctx)
	}
	var out []ires
	for _, o := range x.doCall(st, d.call) {
		switch o.kind {
		case oRet:
			out = append(out, x.runDefers(o.st, ctx, at)...)
		case oPanic:
			s := o.st
			s.recov = o.vals[0]
			for _, r := range x.runDefers(s, ctx, at) {
				if r.out == nil && r.st.recov != nil {
					v := r.st.recov
					r.st.recov = nil
					r.out = &Outcome{kind: oPanic, vals: []*Term{v}, st: r.st, at: at}
				}
				out = append(out, r)
			}
		default:
			oo := o
			out = append(out, ires{out: &oo})
		}
	}
	return out
}

func one(st *State) []ires { return []ires{{st: st}} }

func (x *Exec) set(st *State, ctx *Ctx, v ssa.Value, t *Term) []ires {
	st.env[reg{ctx, v}] = t
	return one(st)
}

func (x *Exec) checkDeref(st *State, ctx *Ctx, in ssa.Instruction, p *Term) ([]ires, bool) {
	c := st.nilClass(p)
	if c == 1 {
		if x.crash {
			x.report(st, in, "may-panic", "nil can be dereferenced here")
		}
		if x.h.NilDeref != nil {
			x.h.NilDeref(st, in, ctx)
		}
		return []ires{{out: &Outcome{kind: oPanic, vals: []*Term{mkSym("nilderef", nil)}, st: st, at: in}}}, false
	}
	if c == 0 && p.kind == KSym {
		st.assume(mkEq(p, nilT), false)
	}
	return nil, true
}

func (x *Exec) instr(st *State, ctx *Ctx, in ssa.Instruction) []ires {
	switch in := in.(type) {
	case *ssa.DebugRef:
		return one(st)
	case *ssa.Alloc:
		nm := x.name(ctx, in, "new:"+in.Comment)
		t := st.freshAlloc(nm, in.Type())
		x.allocAt[t] = in
		for _, k := range sortedTerms(st.mem) {
			if rootOf(k) == t {
				delete(st.mem, k)
			}
		}
		delete(st.epoch, t)
		return x.set(st, ctx, in, t)
	case *ssa.UnOp:
		return x.unop(st, ctx, in)
	case *ssa.BinOp:
		if in.Op == token.QUO || in.Op == token.REM {
			if isIntType(in.X.Type()) {
				y := x.val(st, ctx, in.Y)
				x.inBounds(st, in, ctx, "division", []Con{{asPoly(y).add(polyConst(1), -1), false}})
			}
		}
		if (in.Op == token.QUO || in.Op == token.REM) && isIntType(in.X.Type()) {
			a, b := x.val(st, ctx, in.X), x.val(st, ctx, in.Y)
			_, c := constInt(b)
			if !c && st.provesGe(a, mkInt(0)) && st.provesGe(b, mkInt(1)) && st.provesGe(mkSub(mkAdd(b, b), mkInt(1)), a) {
				// the quotient is zero or one
				var out []ires
				for q, n := range []*State{st.clone(), st.clone()} {
					ok := false
					if q == 0 {
						ok = n.addGe(b, mkAdd(a, mkInt(1)))
					} else {
						ok = n.addGe(a, b)
					}
					if !ok {
						continue
					}
					v := mkInt(int64(q))
					if in.Op == token.REM {
						v = mkSub(a, mkMul(b, v))
					}
					out = append(out, x.set(n, ctx, in, v)...)
				}
				return out
			}
		}
		return x.set(st, ctx, in, x.binop(st, ctx, in, in.Op, x.val(st, ctx, in.X), x.val(st, ctx, in.Y), in.X.Type(), in.Type()))
	case *ssa.ChangeType:
		return x.set(st, ctx, in, x.retype(x.val(st, ctx, in.X), in.Type()))
	case *ssa.ChangeInterface:
		return x.set(st, ctx, in, x.val(st, ctx, in.X))
	case *ssa.Convert:
		return x.set(st, ctx, in, x.convert(st, x.val(st, ctx, in.X), in.X.Type(), in.Type()))
	case *ssa.MakeInterface:
		v := x.val(st, ctx, in.X)
		return x.set(st, ctx, in, mkIface(v, in.X.Type()))
	case *ssa.MakeClosure:
		fn := in.Fn.(*ssa.Function)
		bs := make([]*Term, len(in.Bindings))
		for i, b := range in.Bindings {
			bs[i] = x.val(st, ctx, b)
		}
		return x.set(st, ctx, in, mkClosure(fn, bs))
	case *ssa.Extract:
		return x.set(st, ctx, in, mkFieldV(x.val(st, ctx, in.Tuple), in.Index))
	case *ssa.Field:
		return x.set(st, ctx, in, x.fieldOf(x.val(st, ctx, in.X), in.X.Type(), in.Field))
	case *ssa.FieldAddr:
		p := x.val(st, ctx, in.X)
		if r, ok := x.checkDeref(st, ctx, in, p); !ok {
			return r
		}
		return x.set(st, ctx, in, mkField(p, derefT(in.X.Type()), in.Field))
	case *ssa.IndexAddr:
		return x.indexAddr(st, ctx, in)
	case *ssa.Index:
		v := x.val(st, ctx, in.X)
		i := x.val(st, ctx, in.Index)
		return x.set(st, ctx, in, mkCall("index", in.Type(), v, i))
	case *ssa.Lookup:
		return x.lookup(st, ctx, in)
	case *ssa.MapUpdate:
		m, k, v := x.val(st, ctx, in.Map), x.val(st, ctx, in.Key), x.val(st, ctx, in.Value)
		if x.crash {
			x.count("bounded operation", in)
			if st.nilClass(m) != 2 {
				x.report(st, in, "may-panic", "the map this entry is stored in can be nil")
			}
		}
		if x.h.MapUpd != nil && !x.h.MapUpd(st, in, ctx, m, k, v) {
			return nil
		}
		st.epoch[m]++
		for c := range st.mem {
			if c.kind == KElem && c.args[0] == m {
				delete(st.mem, c)
			}
		}
		return one(st)
	case *ssa.MakeMap:
		return x.set(st, ctx, in, st.freshAlloc(x.name(ctx, in, "map"), in.Type()))
	case *ssa.MakeChan:
		t := st.freshAlloc(x.name(ctx, in, "chan"), in.Type())
		return x.set(st, ctx, in, t)
	case *ssa.MakeSlice:
		t := st.freshAlloc(x.name(ctx, in, "make"), in.Type())
		delete(st.epoch, t)
		n, c := x.val(st, ctx, in.Len), x.val(st, ctx, in.Cap)
		x.inBounds(st, in, ctx, "make", []Con{{asPoly(n), false}, {asPoly(c).add(asPoly(n), -1), false}})
		st.addEq(mkLen(t), n)
		st.addEq(mkCap(t), c)
		st.addGe(n, mkInt(0))
		if !isByteish(in.Type().Underlying().(*types.Slice).Elem()) {
			if z, ok := constInt(n); ok && z == 0 {
				st.mem[mkElem(t)] = botT
			}
		}
		return x.set(st, ctx, in, t)
	case *ssa.Slice:
		return x.slice(st, ctx, in)
	case *ssa.Store:
		a := x.val(st, ctx, in.Addr)
		v := x.val(st, ctx, in.Val)
		if r, ok := x.checkDeref(st, ctx, in, a); !ok {
			return r
		}
		if x.h.Store != nil && !x.h.Store(st, in, ctx, a, v) {
			return nil
		}
		st.store(a, v, in.Val.Type())
		return one(st)
	case *ssa.TypeAssert:
		return x.typeAssert(st, ctx, in)
	case *ssa.Range:
		return x.set(st, ctx, in, mkCall("range", nil, x.val(st, ctx, in.X)))
	case *ssa.Next:
		return x.next(st, ctx, in)
	case *ssa.Send:
		ch, v := x.val(st, ctx, in.Chan), x.val(st, ctx, in.X)
		if st.nilClass(ch) == 1 {
			return nil
		}
		st.note(in, "send %s", trunc(v.String(), 80))
		if x.h.Send != nil && !x.h.Send(st, in, ctx, ch, v) {
			return nil
		}
		return one(st)
	case *ssa.Select:
		return x.sel(st, ctx, in)
	case *ssa.Defer:
		c := x.mkCall(st, ctx, in, &in.Call)
		c.isDef = true
		st.defers[ctx] = append(st.defers[ctx], deferred{c})
		return one(st)
	case *ssa.RunDefers:
		return x.runDefers(st, ctx, in)
	case *ssa.Go:
		c := x.mkCall(st, ctx, in, &in.Call)
		c.isGo = true
		if x.h.Go != nil && !x.h.Go(st, c) {
			return nil
		}
		return one(st)
	case *ssa.Call:
		return x.call(st, ctx, in)
	}
	x.undecided(in, "unsupported instruction %T", in)
	return nil
}

func (x *Exec) retype(t *Term, typ types.Type) *Term {
	if t.kind == KStruct {
		return mkStruct(typ, t.args)
	}
	if structOf(typ) != nil {
		// explode so that the new type is recorded
		s := structOf(typ)
		vals := make([]*Term, s.NumFields())
		for i := range vals {
			vals[i] = mkFieldV(t, i)
		}
		return mkStruct(typ, vals)
	}
	return t
}

func (x *Exec) fieldOf(v *Term, t types.Type, i int) *Term {
	r := mkFieldV(v, i)
	if r.kind == KFieldV && r.typ == nil {
		r.typ = fieldType(t, i)
	}
	return r
}

func (x *Exec) unop(st *State, ctx *Ctx, in *ssa.UnOp) []ires {
	v := x.val(st, ctx, in.X)
	switch in.Op {
	case token.MUL:
		if r, ok := x.checkDeref(st, ctx, in, v); !ok {
			return r
		}
		t := st.load(v, in.Type())
		if x.h.Load != nil {
			x.h.Load(st, in, ctx, v, t)
		}
		if x.h.LoadElem != nil && isElemExact(v) {
			if !x.h.LoadElem(st, in, ctx, v, t) {
				return nil
			}
		}
		return x.set(st, ctx, in, t)
	case token.NOT:
		return x.set(st, ctx, in, mkNot(v))
	case token.SUB:
		if isIntType(in.Type()) {
			return x.set(st, ctx, in, mkSub(mkInt(0), v))
		}
		return x.set(st, ctx, in, mkBin("neg", in.Type(), v))
	case token.XOR:
		return x.set(st, ctx, in, mkBin("^", in.Type(), v))
	case token.ARROW:
		if st.nilClass(v) == 1 {
			return nil
		}
		var out []ires
		et := in.X.Type().Underlying().(*types.Chan).Elem()
		rs := x.recv(st, in, ctx, v, et)
		if x.rank && !in.CommaOk && x.mayClose(in.X, ctx) {
			rs = append(rs, RecvRes{st: st.clone(), val: zeroOf(et), ok: falseT})
		}
		for _, r := range rs {
			if in.CommaOk {
				// closed or not
				oks := []*Term{trueT, falseT}
				if r.ok != nil {
					oks = []*Term{r.ok}
				}
				for _, ok := range oks {
					n := r.st.clone()
					val := r.val
					if ok == falseT {
						val = zeroOf(et)
						n.note(in, "channel closed")
					} else {
						n.note(in, "received %s", trunc(val.String(), 60))
						x.progressed(n)
					}
					if r.ok == nil && ok == falseT {
						// undo effects of a received value: take the state before
						n = st.clone()
						n.note(in, "channel closed")
					}
					n.env[reg{ctx, in}] = mkTuple([]*Term{val, ok})
					out = append(out, ires{st: n})
				}
			} else {
				if r.ok != falseT {
					x.progressed(r.st)
				}
				r.st.env[reg{ctx, in}] = r.val
				out = append(out, ires{st: r.st})
			}
		}
		return out
	}
	return x.set(st, ctx, in, mkBin(in.Op.String(), in.Type(), v))
}

// recv returns the possible received values. A nil ok means: the default
// (value or closed).
func (x *Exec) recv(st *State, in ssa.Instruction, ctx *Ctx, ch *Term, et types.Type) []RecvRes {
	if x.h.Recv != nil {
		if r := x.h.Recv(st.clone(), in, ctx, ch, et); r != nil {
			return r
		}
	}
	n := st.clone()
	v := n.fresh(x.name(ctx, in, "recv"), et)
	return []RecvRes{{st: n, val: v}}
}

func (x *Exec) sel(st *State, ctx *Ctx, in *ssa.Select) []ires {
	var out []ires
	nrecv := 0
	for _, c := range in.States {
		if c.Dir == types.RecvOnly {
			nrecv++
		}
	}
	mk := func(s *State, idx int, ok *Term, ri int, val *Term) {
		vals := []*Term{mkInt(int64(idx)), ok}
		k := 0
		for _, c := range in.States {
			if c.Dir == types.RecvOnly {
				if k == ri {
					vals = append(vals, val)
				} else {
					vals = append(vals, zeroOf(c.Chan.Type().Underlying().(*types.Chan).Elem()))
				}
				k++
			}
		}
		s.env[reg{ctx, in}] = mkTuple(vals)
		out = append(out, ires{st: s})
	}
	ri := 0
	for i, c := range in.States {
		ch := x.val(st, ctx, c.Chan)
		my := ri
		if c.Dir == types.RecvOnly {
			ri++
		}
		if st.nilClass(ch) == 1 {
			continue
		}
		if c.Dir == types.SendOnly {
			n := st.clone()
			v := x.val(n, ctx, c.Send)
			n.note(in, "select: send %s", trunc(v.String(), 80))
			if x.h.Send != nil && !x.h.Send(n, in, ctx, ch, v) {
				continue
			}
			mk(n, i, falseT, -1, nil)
			continue
		}
		et := c.Chan.Type().Underlying().(*types.Chan).Elem()
		rs := x.recv(st, in, ctx, ch, et)
		if x.rank {
			q := rs[:0:0]
			for _, r := range rs {
				if r.ok != falseT {
					r.ok = trueT
					x.progressed(r.st)
				}
				q = append(q, r)
			}
			rs = q
			if x.mayClose(c.Chan, ctx) {
				rs = append(rs, RecvRes{st: st.clone(), val: zeroOf(et), ok: falseT})
			}
		}
		for _, r := range rs {
			ok := r.ok
			if ok == nil {
				ok = r.st.fresh(x.name(ctx, in, fmt.Sprintf("ok%d", i)), types.Typ[types.Bool])
			}
			r.st.note(in, "select: received %s from %s", trunc(r.val.String(), 60), trunc(ch.String(), 60))
			mk(r.st, i, ok, my, r.val)
		}
	}
	if !in.Blocking {
		n := st.clone()
		mk(n, -1, falseT, -1, nil)
	}
	return out
}

func (x *Exec) indexAddr(st *State, ctx *Ctx, in *ssa.IndexAddr) []ires {
	v, i := x.val(st, ctx, in.X), x.val(st, ctx, in.Index)
	var et types.Type
	switch u := in.X.Type().Underlying().(type) {
	case *types.Slice:
		et = u.Elem()
		if st.nilClass(v) == 1 {
			return x.oob(st, ctx, in, "index of nil slice")
		}
		base, lo, hi := sliceParts(v)
		n := mkSub(hi, lo)
		cons := []Con{{asPoly(i), false}, {asPoly(n).add(asPoly(i), -1).add(polyConst(1), -1), false}}
		if !x.inBounds(st, in, ctx, "index", cons) {
			return nil
		}
		if x.h.IndexRd != nil && !x.h.IndexRd(st, in, ctx, base, mkAdd(lo, i), et) {
			return nil
		}
		for _, c := range cons {
			if !st.addCon(c) {
				return x.oob(st, ctx, in, "index out of range")
			}
		}
		return x.set(st, ctx, in, mkIndex(base, mkAdd(lo, i), et))
	case *types.Pointer:
		arr := u.Elem().Underlying().(*types.Array)
		et = arr.Elem()
		cons := []Con{{asPoly(i), false}, {polyConst(arr.Len()-1).add(asPoly(i), -1), false}}
		if !x.inBounds(st, in, ctx, "index", cons) {
			return nil
		}
		return x.set(st, ctx, in, mkIndex(v, i, et))
	}
	x.undecided(in, "index of %s", in.X.Type())
	return nil
}

// inBounds: the conditions of an operation that panics unless they hold.
func (x *Exec) inBounds(st *State, in ssa.Instruction, ctx *Ctx, what string, cons []Con) bool {
	x.mayCrash(st, in, ctx, what, cons)
	return x.h.Bounds == nil || x.h.Bounds(st, in, ctx, what, cons)
}

func (x *Exec) mayCrash(st *State, in ssa.Instruction, ctx *Ctx, what string, cons []Con) {
	if !x.crash {
		return
	}
	x.count("bounded operation", in)
	for _, c := range cons {
		if !entails(st.lin, c) {
			x.report(st, in, "may-panic", "this %s can panic: %v is not known to hold", what, c)
			return
		}
	}
}

func (x *Exec) oob(st *State, ctx *Ctx, in ssa.Instruction, what string) []ires {
	if x.h.Panic != nil && !x.h.Panic(st, in, ctx, what) {
		return nil
	}
	return []ires{{out: &Outcome{kind: oPanic, vals: []*Term{mkSym(what, nil)}, st: st, at: in}}}
}

func (x *Exec) slice(st *State, ctx *Ctx, in *ssa.Slice) []ires {
	v := x.val(st, ctx, in.X)
	if isStringType(in.X.Type()) {
		lo, hi := mkInt(0), mkLen(v)
		if in.Low != nil {
			lo = x.val(st, ctx, in.Low)
		}
		if in.High != nil {
			hi = x.val(st, ctx, in.High)
		}
		x.mayCrash(st, in, ctx, "slice", []Con{
			{asPoly(lo), false},
			{asPoly(hi).add(asPoly(lo), -1), false},
			{asPoly(mkLen(v)).add(asPoly(hi), -1), false},
		})
		return x.set(st, ctx, in, mkCall("substr", in.Type(), v, lo, hi))
	}
	var base, blo, bhi, capEnd *Term
	switch u := in.X.Type().Underlying().(type) {
	case *types.Pointer:
		n := u.Elem().Underlying().(*types.Array).Len()
		base, blo, bhi = v, mkInt(0), mkInt(n)
		capEnd = bhi
	default:
		base, blo, bhi = sliceParts(v)
		capEnd = mkAdd(blo, mkCap(v))
		if v == nilT {
			capEnd = mkInt(0)
		}
	}
	lo, hi := blo, bhi
	if in.Low != nil {
		lo = mkAdd(blo, x.val(st, ctx, in.Low))
	}
	if in.High != nil {
		hi = mkAdd(blo, x.val(st, ctx, in.High))
	}
	// upper bound of hi is the capacity; len(v) <= cap(v)
	st.addGe(capEnd, bhi)
	cons := []Con{
		{asPoly(lo).add(asPoly(blo), -1), false},
		{asPoly(hi).add(asPoly(lo), -1), false},
		{asPoly(capEnd).add(asPoly(hi), -1), false},
	}
	if !x.inBounds(st, in, ctx, "slice", cons) {
		return nil
	}
	for _, c := range cons {
		if !st.addCon(c) {
			return x.oob(st, ctx, in, "slice bounds out of range")
		}
	}
	return x.set(st, ctx, in, mkSlice(base, lo, hi, in.Type()))
}

func (x *Exec) lookup(st *State, ctx *Ctx, in *ssa.Lookup) []ires {
	m, k := x.val(st, ctx, in.X), x.val(st, ctx, in.Index)
	if isStringType(in.X.Type()) {
		return x.set(st, ctx, in, mkCall("strIndex", in.Type(), m, k))
	}
	if x.h.MapGet != nil && !x.h.MapGet(st, in, ctx, m, k) {
		return nil
	}
	et := in.X.Type().Underlying().(*types.Map).Elem()
	ep := fmt.Sprint(st.epoch[m])
	v := mkCall("mapval#"+ep, et, m, k)
	if !in.CommaOk {
		return x.set(st, ctx, in, v)
	}
	okT := mkCall("mapok#"+ep, types.Typ[types.Bool], m, k)
	var out []ires
	for _, b := range []bool{true, false} {
		n := st.clone()
		if !n.assume(okT, b) {
			continue
		}
		val := v
		if !b {
			val = zeroOf(et)
		}
		n.note(in, "map entry present: %v", b)
		n.env[reg{ctx, in}] = mkTuple([]*Term{val, mkBool(b)})
		out = append(out, ires{st: n})
	}
	return out
}

func (x *Exec) next(st *State, ctx *Ctx, in *ssa.Next) []ires {
	var out []ires
	it := x.val(st, ctx, in.Iter)
	tup := in.Type().(*types.Tuple)
	{
		n := st.clone()
		k := n.fresh(x.name(ctx, in, "key"), tup.At(1).Type())
		var v *Term
		if in.IsString {
			v = n.fresh(x.name(ctx, in, "val"), tup.At(2).Type())
		} else {
			m := it.args[0]
			vt := tup.At(2).Type()
			if vt == types.Typ[types.Invalid] {
				vt = nil
			}
			v = mkCall(fmt.Sprintf("mapval#%d", n.epoch[m]), vt, m, k)
		}
		n.note(in, "next map entry")
		x.progressed(n)
		n.env[reg{ctx, in}] = mkTuple([]*Term{trueT, k, v})
		// a nil map has no entries
		if st.nilClass(it.args[0]) != 1 && (x.h.Next == nil || x.h.Next(n, in, ctx, it.args[0], k, v, true)) {
			out = append(out, ires{st: n})
		}
	}
	n := st.clone()
	n.note(in, "no more map entries")
	if x.h.Next != nil && !x.h.Next(n, in, ctx, it.args[0], nil, nil, false) {
		return out
	}
	n.env[reg{ctx, in}] = mkTuple([]*Term{falseT, nilT, nilT})
	out = append(out, ires{st: n})
	return out
}

func (x *Exec) typeAssert(st *State, ctx *Ctx, in *ssa.TypeAssert) []ires {
	v := x.val(st, ctx, in.X)
	T := in.AssertedType
	yes := -1
	var val *Term
	_, isI := T.Underlying().(*types.Interface)
	if v == nilT {
		yes = 0
	} else if v.kind == KIface {
		if isI {
			yes = boolInt(types.Implements(v.typ, T.Underlying().(*types.Interface)))
			val = v
		} else {
			yes = boolInt(types.Identical(v.typ, T))
			val = v.args[0]
		}
	} else {
		if isI {
			val = v
		} else {
			val = mkCall("assert:"+typeKey(T), T, v)
		}
	}
	q := mkCall("typeis:"+typeKey(T), types.Typ[types.Bool], v)
	if yes < 0 {
		yes = st.truth(q)
		if yes < 0 && isI && types.Implements(in.X.Type(), T.Underlying().(*types.Interface)) && st.nilClass(v) == 2 {
			yes = 1
		}
	}
	var out []ires
	for _, b := range []bool{true, false} {
		if yes >= 0 && (yes == 1) != b {
			continue
		}
		n := st.clone()
		if yes < 0 {
			if !n.assume(q, b) {
				continue
			}
			if b {
				n.assume(mkEq(v, nilT), false)
				if !isI {
					// concrete dynamic types exclude each other
					n.typeIs(v, T)
				}
			}
			n.note(in, "%s is a %s: %v", trunc(v.String(), 60), typeKey(T), b)
		}
		if in.CommaOk {
			r := val
			if !b {
				r = zeroOf(T)
			}
			n.env[reg{ctx, in}] = mkTuple([]*Term{r, mkBool(b)})
			out = append(out, ires{st: n})
		} else if b {
			n.env[reg{ctx, in}] = val
			out = append(out, ires{st: n})
		} else if yes == 0 || x.crash {
			if x.crash {
				x.report(n, in, "may-panic", "this type assertion can fail")
			}
			out = append(out, x.oob(n, ctx, in, "failed type assertion")...)
		}
	}
	return out
}

// typeIs records that other concrete type tests on v fail.
func (s *State) typeIs(v *Term, T types.Type) {
	for _, o := range s.x.p.assertTypes {
		if !types.Identical(o, T) {
			if _, isI := o.Underlying().(*types.Interface); isI {
				continue
			}
			s.facts[mkCall("typeis:"+typeKey(o), types.Typ[types.Bool], v)] = false
		}
	}
}

func intBits(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 64
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

func (x *Exec) convert(st *State, v *Term, from, to types.Type) *Term {
	fi, ti := isIntType(from), isIntType(to)
	if fi && ti {
		if _, ok := constInt(v); ok && intBits(to) >= 32 {
			return v
		}
		if intBits(to) < intBits(from) {
			if x.ringMode && intBits(to) >= 32 {
				return v
			}
			if v.kind == KBin && v.name == "&" || nonNarrow(st, v, to) {
				return v
			}
			return mkBin("conv:"+typeKey(to.Underlying()), to, v)
		}
		return v
	}
	if isStringType(to) {
		if isSliceType(from) {
			// the string is a copy of the bytes now
			base, lo, hi := sliceParts(v)
			return mkCall("bytesToString", to, st.contentOf(base), lo, hi)
		}
		if isStringType(from) {
			return v
		}
	}
	if isSliceType(to) && isStringType(from) {
		return mkCall("string2bytes", to, v)
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	return mkBin("conv:"+typeKey(to.Underlying()), to, v)
}

// nonNarrow: the value is known to fit.
func nonNarrow(st *State, v *Term, to types.Type) bool {
	b := intBits(to)
	max := int64(1)<<uint(b) - 1
	lo := int64(0)
	if !isUnsigned(to) {
		max = int64(1)<<uint(b-1) - 1
		lo = -max - 1
	}
	return st.provesGe(mkInt(max), v) && st.provesGe(v, mkInt(lo))
}

func (x *Exec) binop(st *State, ctx *Ctx, in ssa.Instruction, op token.Token, a, b *Term, opT, resT types.Type) *Term {
	if isStringType(opT) && a.kind == KCall && a.name == "bytesToString" && b.kind == KCall && b.name == "bytesToString" {
		// two byte strings compared as strings
		p, q := mkCall("bytesOf", nil, a.args...), mkCall("bytesOf", nil, b.args...)
		cmp := mkCall("bytesCmp", intT, p, q)
		if p.id > q.id {
			p, q = q, p
		}
		eq := mkCall("bytesEq", boolT, p, q)
		if p == q {
			cmp, eq = mkInt(0), trueT
		}
		switch op {
		case token.EQL:
			return eq
		case token.NEQ:
			return mkNot(eq)
		case token.LSS:
			return mkLt(cmp, mkInt(0))
		case token.LEQ:
			return mkLe(cmp, mkInt(0))
		case token.GTR:
			return mkLt(mkInt(0), cmp)
		case token.GEQ:
			return mkLe(mkInt(0), cmp)
		}
	}
	if isIntType(opT) {
		switch op {
		case token.ADD:
			return mkAdd(a, b)
		case token.SUB:
			return mkSub(a, b)
		case token.MUL:
			r := mkMul(a, b)
			x.noteTemplates(r)
			return r
		case token.QUO:
			return x.quo(st, a, b, resT)
		case token.REM:
			r := mkSub(a, mkMul(b, x.quo(st, a, b, resT)))
			x.noteTemplates(r)
			return r
		case token.LSS:
			return mkLt(a, b)
		case token.LEQ:
			return mkLe(a, b)
		case token.GTR:
			return mkLt(b, a)
		case token.GEQ:
			return mkLe(b, a)
		case token.EQL:
			return mkEq0(asPoly(a).add(asPoly(b), -1))
		case token.NEQ:
			return mkNot(mkEq0(asPoly(a).add(asPoly(b), -1)))
		case token.SHL:
			if c, ok := constInt(b); ok && c >= 0 && c < 40 {
				return mkMul(a, mkInt(1<<uint(c)))
			}
		case token.SHR:
			if c, ok := constInt(b); ok && c >= 0 && c < 40 {
				return x.quo(st, a, mkInt(1<<uint(c)), resT)
			}
		case token.AND:
			ca, oka := constInt(a)
			cb, okb := constInt(b)
			if oka && okb {
				return mkInt(ca & cb)
			}
			if oka {
				a, b = b, a
			} else if !okb && a.id > b.id {
				a, b = b, a
			}
			if c, ok := constInt(b); ok && c >= 0 {
				r := mkBin(op.String(), resT, a, b)
				st.addGe(r, mkInt(0))
				st.addGe(b, r)
				return r
			}
		case token.OR, token.XOR:
			ca, oka := constInt(a)
			cb, okb := constInt(b)
			if oka && okb {
				if op == token.OR {
					return mkInt(ca | cb)
				}
				return mkInt(ca ^ cb)
			}
			if a.id > b.id {
				a, b = b, a
			}
		}
		return mkBin(op.String(), resT, a, b)
	}
	switch op {
	case token.EQL:
		return x.eq(st, a, b, opT)
	case token.NEQ:
		return mkNot(x.eq(st, a, b, opT))
	}
	if isStringType(opT) && op == token.ADD {
		return mkConcat(a, b)
	}
	if isBoolType(resT) && !isStringType(opT) {
		// float comparison
		return mkBin(op.String(), resT, a, b)
	}
	return mkBin(op.String(), resT, a, b)
}

func (x *Exec) eq(st *State, a, b *Term, t types.Type) *Term {
	if s := structOf(t); s != nil {
		if a.kind == KStruct && b.kind == KStruct {
			all := true
			for i := range a.args {
				e := mkEq(a.args[i], b.args[i])
				if e == falseT {
					return falseT
				}
				if e != trueT {
					all = false
				}
			}
			if all {
				return trueT
			}
		}
		return mkCall("structEq", types.Typ[types.Bool], a, b)
	}
	return mkEq(a, b)
}

func (x *Exec) quo(st *State, a, b *Term, typ types.Type) *Term {
	if ca, ok := constInt(a); ok {
		if cb, ok := constInt(b); ok && cb != 0 {
			return mkInt(ca / cb)
		}
		if ca == 0 {
			return mkInt(0)
		}
	}
	if cb, ok := constInt(b); ok && cb == 1 {
		return a
	}
	if st.provesEq(a, b) && st.provesGe(b, mkInt(1)) {
		return mkInt(1)
	}
	// the operation does not go on with a divisor of zero
	if _, ok := constInt(b); !ok && st.provesGe(b, mkInt(0)) {
		st.addGe(b, mkInt(1))
	}
	q := mkBin("/", typ, a, b)
	// lemma: a >= 0, b >= 1  =>  0 <= q, b*q <= a <= b*q + b - 1
	if st.provesGe(a, mkInt(0)) && st.provesGe(b, mkInt(1)) {
		bq := asPoly(b).mul(asPoly(q))
		st.addCon(Con{asPoly(q), false})
		if st.provesGe(a, b) {
			st.addGe(q, mkInt(1))
		}
		st.addCon(Con{asPoly(a).add(bq, -1), false})
		st.addCon(Con{bq.add(asPoly(b), 1).add(polyConst(1), -1).add(asPoly(a), -1), false})
	}
	return q
}

// noteTemplates records products of loop variables with other values, so that
// joins can keep relations over them.
func (x *Exec) noteTemplates(t *Term) {
	if t.kind != KPoly {
		return
	}
	for _, m := range t.poly.terms {
		if len(m.atoms) < 2 {
			continue
		}
		for i, j := range m.atoms {
			o := mkInt(1)
			for k, a := range m.atoms {
				if k != i {
					o = mkMul(o, a)
				}
			}
			if j.kind == KSym && strings.HasPrefix(j.name, "J") {
				if x.templates[j.name] == nil {
					x.templates[j.name] = map[*Term]bool{}
				}
				if !x.templates[j.name][o] && len(x.templates[j.name]) < 6 {
					x.templates[j.name][o] = true
					x.restart = true
				}
			}
		}
	}
}
