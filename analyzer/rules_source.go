package main

// C03, C18, C19, C28: the goroutine that serves a block source.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rule("C03", func(p *Prog, r *Report) {
		r.describe("The source goroutine is analysed with and without a verifier, each received result being either a failed one or one whose bytes are data for a start block. Every value sent on the response channel must carry data and start block of a result without error and, with a verifier, of one it accepted (asked about exactly that data and block); a failed or rejected result must be followed by an error on the error channel before the goroutine ends; every request goroutine must hand over what DoRequest returned for the offsets of the blocks it stands for.")
		sourceLoop(p, r, "C03")
		r.need("response sent", 1)
		r.need("error sent", 1)
		r.need("result received", 1)
		r.need("result handed over", 1)
		r.need("range split", 1)
	})
	rule("C18", func(p *Prog, r *Report) {
		r.describe("The source goroutine is analysed with the number of requests in flight as a ghost value: it grows with every request goroutine started and shrinks with every result received. Starting one needs the number to be provably below the configured concurrency; every request goroutine sends exactly one result on every path. Constructors: a source over a seekable file is configured for one request, others for what they were asked.")
		sourceLoop(p, r, "C18")
		sourceConfig(p, r)
		r.need("request started", 1)
		r.need("result handed over", 1)
		r.need("source configured", 2)
	})
	rule("C19", func(p *Prog, r *Report) {
		r.describe("Every path of the source goroutine and of request goroutines is checked for panics, for closing a channel twice, sending on a closed one, and ending or closing the result channel while requests are in flight; every blocking operation must be able to take a result while requests are in flight. RequestBlocks and Close may only send on channels that are never closed, and must be released by a channel that the source goroutine closes on every path.")
		sourceLoop(p, r, "C19")
		r.need("source ended", 1)
		r.need("result received", 1)
		r.need("call released by shutdown", 2)
	})
	rule("C28", func(p *Prog, r *Report) {
		r.describe("The source goroutine is analysed with a stopped state, entered by a failed result, a rejected block range or a close: no request goroutine may be started in it, and when the goroutine ends no request is in flight and the error of the failure that stopped it was sent.")
		sourceLoop(p, r, "C28")
		r.need("request started", 1)
		r.need("source ended", 1)
		r.need("stopped", 2)
	})
}

type srcLoop struct {
	x    *Exec
	r    *Report
	want string

	obj, conc, verifier  *Term
	resp, errs           *Term
	exitCh, reqCh        map[*Term]bool
	results              map[*Term]bool
	msgT                 types.Type
	errF, dataF, startF  int
	body                 bool
	closedAlways, closed map[*Term]bool
	ends                 int
	split                bool
	// C20: called when a goroutine is started, returns what to do after its analysis
	spawn   func(s *State, c *Call) func()
	started func(s *State)
	setup   func(ret *State, in *Call)
	lists   *src31
}

func (l *srcLoop) rep(want string, s *State, in ssa.Instruction, rule, f string, a ...interface{}) {
	if strings.Contains(want, l.want) {
		l.x.report(s, in, rule, f, a...)
	}
}

func sourceLoop(p *Prog, r *Report, want string) {
	fn := r.anchor("blocksources", "", "NewBlockSourceBase")
	base := p.namedType("blocksources", "BlockSourceBase")
	if fn == nil || base == nil {
		return
	}
	for _, withVerifier := range []bool{true, false} {
		r.analyse(fmt.Sprintf("%s (verifier: %v)", shortFn(fn), withVerifier), func(x *Exec) {
			l := &srcLoop{x: x, r: r, want: want, results: map[*Term]bool{}, exitCh: map[*Term]bool{}, reqCh: map[*Term]bool{}, closed: map[*Term]bool{}}
			l.run(fn, base, withVerifier)
		})
	}
}

func (l *srcLoop) run(fn *ssa.Function, base types.Type, withVerifier bool) {
	x := l.x
	st := newState(x)
	args := x.params(fn)
	for i, prm := range fn.Params {
		switch t := prm.Type(); {
		case typeKey(t) == modPath+"/blocksources.BlockVerifier":
			if withVerifier {
				x.nonNil(st, args[i])
			} else {
				args[i] = nilT
			}
			l.verifier = args[i]
		case isIntType(t) && typeKey(t) == "int":
			if l.conc == nil {
				l.conc = args[i]
			}
		case types.IsInterface(t):
			x.nonNil(st, args[i])
		}
	}
	if l.conc == nil || l.verifier == nil {
		x.report(nil, nil, "anchor", "concurrency and verifier are not among the parameters of %s", shortFn(fn))
		return
	}
	x.assumptions["a source is configured for at least one request at a time"] = true
	st.addGe(l.conc, mkInt(1))
	var gs []goStart
	x.collectGo(&gs)
	if l.started != nil {
		collect := x.h.Go
		x.h.Go = func(s *State, c *Call) bool { l.started(s); return collect(s, c) }
	}
	x.h.Inline = func(c *Call) bool { return c.fn != nil && ownPkg(c.fn, "blocksources") }
	var ret *State
	for _, o := range x.enter(fn, st, args) {
		if o.kind == oRet {
			ret, l.obj = o.st, o.vals[0]
		} else {
			l.rep("C19", o.st, o.at, "crash", "creating a source can crash")
		}
	}
	x.h.Go = nil
	if ret != nil {
		delete(ret.auto, "started")
	}
	if ret == nil || len(gs) == 0 {
		x.report(nil, nil, "anchor", "no source goroutine is started by %s", shortFn(fn))
		return
	}
	// the channels behind the methods
	in := gs[0].c
	get := func(m string) *Term {
		f := x.p.prog.LookupMethod(types.NewPointer(base), nil, m)
		if f == nil {
			return nil
		}
		o := x.callTerm(ret.clone(), in, mkFunc(f), l.obj)
		if len(o) == 1 && o[0].kind == oRet && len(o[0].vals) == 1 {
			return o[0].vals[0]
		}
		return nil
	}
	l.resp, l.errs = get("GetResultChannel"), get("EncounteredError")
	if l.resp == nil || l.errs == nil {
		x.report(nil, nil, "anchor", "the response and error channels are not known")
		return
	}
	callers := l.callers(ret, base)
	for _, ch := range callers["Close"].sends {
		l.exitCh[ch] = true
	}
	for _, ch := range callers["RequestBlocks"].sends {
		l.reqCh[ch] = true
	}
	x.pinned[l.obj] = true
	for _, ch := range append([]*Term{l.resp, l.errs}, append(callers["Close"].sends, callers["RequestBlocks"].sends...)...) {
		x.pinned[ch] = true
	}
	if l.setup != nil {
		l.setup(ret, in)
	}
	for i, g := range gs {
		if i > 0 && g.c.instr == gs[0].c.instr {
			continue
		}
		l.loop(g)
	}
	if l.ends == 0 {
		x.report(nil, nil, "no-end", "the source goroutine is not known to end")
		return
	}
	// calls around the shutdown
	for _, m := range []string{"RequestBlocks", "Close"} {
		ci := callers[m]
		for _, b := range ci.blocks {
			x.count("call released by shutdown", b.in)
			okr := false
			for _, ch := range b.recvs {
				if l.closedAlways[ch] {
					okr = true
				}
			}
			if !okr && !b.nonblocking {
				l.rep("C19", nil, b.in, "stuck-caller", "%s can block for ever once the source has quit: none of its cases is released by a channel the source closes on every path", m)
			}
			for _, ch := range b.sends {
				if l.closed[ch] {
					l.rep("C19", nil, b.in, "send-on-closed", "%s can send on a channel that the source closes", m)
				}
			}
		}
		for _, in := range ci.panics {
			l.rep("C19", nil, in, "caller-crash", "%s can crash", m)
		}
		for _, in := range ci.lost {
			l.rep("C19", nil, in, "lost-request", "%s returns no error although the source did not take the request", m)
		}
	}
}

type blockOp struct {
	in           ssa.Instruction
	recvs, sends []*Term
	nonblocking  bool
}

type callerInfo struct {
	sends  []*Term
	blocks []blockOp
	panics []ssa.Instruction
	lost   []ssa.Instruction
}

// callers looks at the channel operations of the methods callers use.
func (l *srcLoop) callers(ret *State, base types.Type) map[string]*callerInfo {
	x := l.x
	out := map[string]*callerInfo{}
	for _, m := range []string{"RequestBlocks", "Close"} {
		ci := &callerInfo{}
		out[m] = ci
		f := x.p.prog.LookupMethod(types.NewPointer(base), nil, m)
		if f == nil {
			x.report(nil, nil, "anchor", "no method %s", m)
			continue
		}
		ops := map[ssa.Instruction]*blockOp{}
		op := func(in ssa.Instruction) *blockOp {
			b := ops[in]
			if b == nil {
				b = &blockOp{in: in}
				if s, ok := in.(*ssa.Select); ok && !s.Blocking {
					b.nonblocking = true
				}
				ops[in] = b
			}
			return b
		}
		x.h.Send = func(s *State, in ssa.Instruction, ctx *Ctx, ch, v *Term) bool {
			b := op(in)
			b.sends = append(b.sends, ch)
			ci.sends = append(ci.sends, ch)
			x.pinned[ch] = true
			s.auto["sent"] = "y"
			return true
		}
		x.h.Recv = func(s *State, in ssa.Instruction, ctx *Ctx, ch *Term, elem types.Type) []RecvRes {
			b := op(in)
			b.recvs = append(b.recvs, ch)
			x.pinned[ch] = true
			return nil
		}
		args := []*Term{l.obj}
		s := ret.clone()
		for i := 1; i < len(f.Params); i++ {
			args = append(args, s.fresh("arg:"+f.Params[i].Name(), f.Params[i].Type()))
		}
		for _, o := range x.enter(f, s, args) {
			switch o.kind {
			case oRet:
				if m == "RequestBlocks" && o.st.auto["sent"] == "" && !errNonNil(o) {
					ci.lost = append(ci.lost, o.at)
				}
			case oPanic:
				ci.panics = append(ci.panics, o.at)
			}
		}
		for _, b := range ops {
			ci.blocks = append(ci.blocks, *b)
		}
		x.h.Send, x.h.Recv = nil, nil
	}
	return out
}

// blocking checks that an operation that may wait can take a result.
func (l *srcLoop) blocking(s *State, in ssa.Instruction, ctx *Ctx) {
	if l.body {
		return
	}
	ok := false
	switch v := in.(type) {
	case *ssa.Select:
		if !v.Blocking {
			return
		}
		for _, c := range v.States {
			if c.Dir == types.RecvOnly && l.results[l.x.val(s, ctx, c.Chan)] {
				ok = true
			}
		}
	case *ssa.UnOp:
		ok = l.results[l.x.val(s, ctx, v.X)]
	}
	if !ok && !s.provesEq(s.ghost["inflight"], mkInt(0)) {
		l.rep("C19", s, in, "result-not-taken", "the source may wait here without being able to take the results of requests in flight")
	}
	if s.auto["stopped"] == "" || s.provesGe(s.ghost["inflight"], mkInt(1)) {
		return
	}
	if s.auto["owe"] == "" {
		l.rep("C28", s, in, "does-not-end", "the source was stopped by a %s and may wait here although nothing is in flight and there is no error to deliver", s.auto["stopped"])
		return
	}
	offered := false
	switch v := in.(type) {
	case *ssa.Select:
		for _, c := range v.States {
			offered = offered || c.Dir == types.SendOnly && l.x.val(s, ctx, c.Chan) == l.errs
		}
	case *ssa.Send:
		offered = l.x.val(s, ctx, v.Chan) == l.errs
	}
	if !offered {
		l.rep("C28", s, in, "error-held", "the source may wait here without offering the error of a %s", s.auto["owe"])
	}
}

// requestBody analyses a request goroutine.
func (l *srcLoop) requestBody(s *State, c *Call) bool {
	x := l.x
	saved, pc := x.h, l.body
	l.body = true
	defer func() { x.h = saved; l.body = pc }()
	var sent *Term
	is := false
	x.h.Bounds = nil
	x.h.Go = nil
	x.h.Close = func(s *State, in ssa.Instruction, ctx *Ctx, ch *Term) bool {
		l.rep("C19", s, in, "close-by-request", "a request goroutine closes a channel")
		return true
	}
	x.h.Model = func(s *State, c *Call) ([]Res, bool) {
		if !c.invoke {
			return nil, false
		}
		switch c.method {
		case "GetBlockStartOffset", "GetBlockEndOffset":
			return []Res{{st: s, vals: []*Term{mkCall("off:"+c.method, c.results.At(0).Type(), c.args[1])}}}, true
		case "DoRequest":
			is = true
			x.count("request made", c.instr)
			if s.auto["did"] != "" {
				l.rep("C18", s, c.instr, "two-requests", "a request goroutine makes more than one request")
			}
			s.auto["did"] = "y"
			a, b := c.args[1], c.args[2]
			if a.kind == KCall && a.name == "off:GetBlockStartOffset" && b.kind == KCall && b.name == "off:GetBlockEndOffset" {
				s.ghost["first"], s.ghost["last"] = a.args[0], b.args[0]
				if l.lists != nil {
					l.lists.first = a.args[0]
				}
				if l.split {
					if e := b.args[0]; e.kind != KCall || e.name != "last block of" || !s.provesEq(e.args[0], a.args[0]) {
						l.rep("C03", s, c.instr, "request-range", "a request does not reach from the first to the last block of one of the ranges queued (%v to %v)", a.args[0], b.args[0])
					}
				}
			} else {
				l.rep("C03", s, c.instr, "request-range", "a request is not made for the start offset of a block to the end offset of a block")
			}
			ok, bad := s.clone(), s.clone()
			d := ok.fresh(x.name(c.ctx, c.instr, "data"), c.results.At(0).Type())
			ok.ghost["data"], ok.ghost["err"] = d, nilT
			d2 := bad.fresh(x.name(c.ctx, c.instr, "partial data"), c.results.At(0).Type())
			e := x.mkErr(bad, c, "request")
			bad.ghost["data"], bad.ghost["err"] = d2, e
			return []Res{{st: ok, vals: []*Term{d, nilT}, label: "ok"}, {st: bad, vals: []*Term{d2, e}, label: "fail"}}, true
		}
		return nil, false
	}
	x.h.Send = func(s *State, in ssa.Instruction, ctx *Ctx, ch, v *Term) bool {
		x.count("result handed over", in)
		if s.auto["sent"] != "" {
			l.rep("C18", s, in, "two-results", "a request goroutine may deliver more than one result")
		}
		s.auto["sent"] = "y"
		if sent != nil && sent != ch {
			l.rep("C18", s, in, "two-channels", "a request goroutine delivers results on different channels")
		}
		sent = ch
		mt := ch.typ.Underlying().(*types.Chan).Elem()
		l.msgT = mt
		sT := structOf(mt)
		if sT == nil {
			l.rep("C03", s, in, "result-shape", "the result is not a structure with data, error and start block")
			return true
		}
		if s.ghost["err"] == nil {
			l.rep("C03", s, in, "result-without-request", "a result is handed over without a request having been made")
			return true
		}
		ef, df, sf := -1, -1, -1
		failed := s.ghost["err"] != nilT
		for i := 0; i < sT.NumFields(); i++ {
			fv, ft := x.fieldOf(v, mt, i), sT.Field(i).Type()
			switch {
			case isErrorType(ft):
				ef = i
				if failed && s.nilClass(fv) != 2 {
					l.rep("C03", s, in, "error-dropped", "the result of a failed request is handed over without its error")
				}
				if !failed && s.nilClass(fv) == 2 {
					l.rep("C03", s, in, "error-invented", "the result of a successful request is handed over with an error")
				}
			case isSliceType(ft):
				df = i
				if !failed && !sameTerm(s, fv, s.ghost["data"]) {
					l.rep("C03", s, in, "other-data", "the data handed over is not what the request returned")
				}
			case isIntType(ft) && s.ghost["first"] != nil && s.provesEq(fv, s.ghost["first"]):
				sf = i
			}
		}
		if ef < 0 || df < 0 || sf < 0 {
			l.rep("C03", s, in, "result-shape", "the result handed over lacks the data, the error or the start block of the request")
			return true
		}
		l.errF, l.dataF, l.startF = ef, df, sf
		return true
	}
	x.h.Recv = nil
	g := s.clone()
	g.ghost = map[string]*Term{}
	g.auto = map[string]string{}
	outs := x.runGo(goStart{g, c})
	if !is {
		return false
	}
	for _, o := range outs {
		switch {
		case o.kind == oPanic:
			l.rep("C19", o.st, o.at, "request-crash", "a request goroutine can crash")
		case o.kind == oExit:
			l.rep("C19", o.st, o.at, "request-exit", "a request goroutine can end the process")
		case o.st.auto["sent"] == "":
			l.rep("C18C19", o.st, o.at, "no-result", "a request goroutine can end without delivering a result")
		}
	}
	if sent != nil {
		l.results[sent] = true
		x.pinned[sent] = true
	}
	return true
}

func (l *srcLoop) stop(s *State, in ssa.Instruction, why string) {
	l.x.count("stopped", in)
	if l.want == "C40" && why != "close" {
		s.auto["failed"] = "y"
	}
	if s.auto["stopped"] == "" {
		s.auto["stopped"] = why
		if why != "close" {
			s.auto["owe"] = why
		}
	}
}

func (l *srcLoop) loop(g goStart) {
	x := l.x
	g.st.ghost["inflight"] = mkInt(0)
	x.counts = []string{"inflight"}
	// bytes that are the right ones for a start block are named after it, so
	// that the pair stays recognisable wherever it is kept
	right := func(start *Term, t types.Type) *Term { return mkCall("right data", t, start) }
	accepted := func(s *State, start, data *Term) bool {
		return data.kind == KCall && data.name == "right data" && s.provesEq(data.args[0], start)
	}
	rspT := x.p.namedType("patcher", "BlockReponse")
	spanT := x.p.namedType("patcher", "MissingBlockSpan")
	dispatch := func(s *State, in ssa.Instruction) {
		x.count("request started", in)
		if !s.provesGe(l.conc, mkAdd(s.ghost["inflight"], mkInt(1))) {
			l.rep("C18", s, in, "too-many", "a request may be started although as many as configured are in flight")
		}
		if w := s.auto["stopped"]; w != "" {
			l.rep("C28", s, in, "started-after-stop", "a request may be started after a %s", w)
		}
	}
	x.h.Go = func(s *State, c *Call) bool {
		if l.spawn != nil {
			defer l.spawn(s, c)()
		}
		if l.requestBody(s, c) {
			dispatch(s, c.instr)
			s.ghost["inflight"] = mkAdd(s.ghost["inflight"], mkInt(1))
		}
		return true
	}
	x.h.Model = func(s *State, c *Call) ([]Res, bool) {
		switch {
		case c.invoke && c.method == "DoRequest" && !l.body:
			// made by the source goroutine itself
			dispatch(s, c.instr)
			l.rep("C18C19", s, c.instr, "blocking-request", "a request is made by the source goroutine itself")
		case c.invoke && c.method == "SplitBlockRangeToDesiredSize":
			x.count("range split", c.instr)
			if r := s.ghost["mR"]; r == nil || !s.provesEq(c.args[1], fieldVal(r, spanT, "StartBlock")) || !s.provesEq(c.args[2], fieldVal(r, spanT, "EndBlock")) {
				l.rep("C03", s, c.instr, "other-range", "the range split up is not the one that was requested")
			}
			T := c.results.At(0).Type()
			et := T.Underlying().(*types.Slice).Elem()
			q := s.fresh(x.name(c.ctx, c.instr, "ranges"), T)
			sT := structOf(et)
			var fs []*Term
			first := mkSym("sum:"+itoa(int64(q.id))+"|first", types.Typ[types.Uint])
			for i := 0; i < sT.NumFields(); i++ {
				switch sT.Field(i).Name() {
				case "StartBlockID":
					fs = append(fs, first)
				case "EndBlockID":
					fs = append(fs, mkCall("last block of", sT.Field(i).Type(), first))
					l.split = true
				default:
					fs = append(fs, mkSym("sum:"+itoa(int64(q.id))+"|"+sT.Field(i).Name(), sT.Field(i).Type()))
				}
			}
			s.mem[mkElem(q)] = mkStruct(et, fs)
			s.addGe(mkLen(q), mkInt(0))
			return []Res{{st: s, vals: []*Term{q}}}, true
		case c.invoke && c.method == "VerifyBlockRange":
			x.count("verified", c.instr)
			if s.auto["msg"] == "" || s.auto["msg"] == "failed" || s.ghost["mS"] == nil || !s.provesEq(c.args[1], s.ghost["mS"]) || !sameTerm(s, c.args[2], s.ghost["mD"]) {
				l.rep("C03", s, c.instr, "other-data-verified", "the verifier is not asked about the data and the start block just received")
				return nil, false
			}
			if accepted(s, s.ghost["mS"], s.ghost["mD"]) {
				return []Res{{st: s, vals: []*Term{trueT}, label: "accepted"}}, true
			}
			l.stop(s, c.instr, "rejected block range")
			return []Res{{st: s, vals: []*Term{falseT}, label: "rejected"}}, true
		}
		return nil, false
	}
	x.h.Recv = func(s *State, in ssa.Instruction, ctx *Ctx, ch *Term, elem types.Type) []RecvRes {
		l.blocking(s, in, ctx)
		s = s.clone()
		delete(s.ghost, "mS")
		delete(s.ghost, "mD")
		delete(s.ghost, "mR")
		delete(s.auto, "msg")
		switch {
		case l.results[ch]:
			sT := structOf(l.msgT)
			if !s.addGe(s.ghost["inflight"], mkInt(1)) || sT == nil {
				return []RecvRes{}
			}
			x.count("result received", in)
			s.ghost["inflight"] = mkAdd(s.ghost["inflight"], mkInt(-1))
			var out []RecvRes
			for _, kind := range []string{"ok", "wrong", "failed"} {
				n := s.clone()
				if kind == "wrong" && l.verifier == nilT {
					continue
				}
				var fs []*Term
				for i := 0; i < sT.NumFields(); i++ {
					if i == l.errF && kind != "failed" {
						fs = append(fs, nilT)
						continue
					}
					v := n.fresh(x.name(ctx, in, kind+" "+sT.Field(i).Name()), sT.Field(i).Type())
					if i == l.errF {
						n.assume(mkEq(v, nilT), false)
					}
					fs = append(fs, v)
				}
				n.auto["msg"] = kind
				if kind == "failed" {
					l.stop(n, in, "failed request")
				}
				if kind == "ok" {
					fs[l.dataF] = right(fs[l.startF], sT.Field(l.dataF).Type())
				}
				n.ghost["mS"], n.ghost["mD"] = fs[l.startF], fs[l.dataF]
				out = append(out, RecvRes{st: n, val: mkStruct(l.msgT, fs), ok: trueT})
			}
			return out
		case l.exitCh[ch]:
			n := s.clone()
			l.stop(n, in, "close")
			return []RecvRes{{st: n, val: n.fresh(x.name(ctx, in, "exit"), elem), ok: trueT}}
		case ch.kind == KAlloc && !l.reqCh[ch] && ch != l.resp && ch != l.errs:
			// nothing was sent yet
			if s.auto["closed:"+fmt.Sprint(ch.id)] == "" {
				return []RecvRes{}
			}
		}
		v := s.fresh(x.name(ctx, in, "recv"), elem)
		if l.reqCh[ch] {
			s.ghost["mR"] = v
		}
		return []RecvRes{{st: s, val: v, ok: trueT}}
	}
	x.h.Send = func(s *State, in ssa.Instruction, ctx *Ctx, ch, v *Term) bool {
		l.blocking(s, in, ctx)
		if s.auto["closed:"+fmt.Sprint(ch.id)] != "" {
			l.rep("C19", s, in, "send-on-closed", "the source sends on a channel it has closed")
		}
		switch ch {
		case l.errs:
			x.count("error sent", in)
			if s.nilClass(v) != 2 {
				l.rep("C03", s, in, "nil-error", "the error sent may be nil")
			}
			if l.want == "C40" && s.auto["failed"] == "" {
				l.rep("C40", s, in, "spurious-error", "an error is reported although no request failed and no block range was rejected")
			}
			delete(s.auto, "owe")
		case l.resp:
			x.count("response sent", in)
			S, D := fieldVal(v, rspT, "StartBlock"), fieldVal(v, rspT, "Data")
			if S == nil || D == nil || !accepted(s, S, D) {
				l.rep("C03", s, in, "unverified", "a response is sent whose data is not known to be that of a successful request%s for its start block", map[bool]string{true: " that the verifier accepted", false: ""}[l.verifier != nilT])
			}
		}
		return true
	}
	x.h.Close = func(s *State, in ssa.Instruction, ctx *Ctx, ch *Term) bool {
		k := "closed:" + fmt.Sprint(ch.id)
		x.count("channel closed", in)
		if s.auto[k] != "" {
			l.rep("C19", s, in, "closed-twice", "a channel may be closed twice")
		}
		s.auto[k] = "y"
		l.closed[ch] = true
		if l.results[ch] && !s.provesEq(s.ghost["inflight"], mkInt(0)) {
			l.rep("C19", s, in, "closed-in-flight", "the result channel may be closed while requests are in flight")
		}
		if l.reqCh[ch] || l.exitCh[ch] {
			l.rep("C19", s, in, "caller-channel-closed", "a channel that callers send on is closed")
		}
		return true
	}
	x.h.Bounds = func(s *State, in ssa.Instruction, ctx *Ctx, what string, cons []Con) bool {
		for _, c := range cons {
			if !entails(s.lin, c) {
				l.rep("C19", s, in, "out-of-range", "the source goroutine can crash here: %s may be out of range (%v is not known to hold)", what, c)
				break
			}
		}
		return true
	}
	x.h.BackEdge = func(s *State, b *ssa.BasicBlock) bool {
		// a count of goroutines, never negative
		s.addGe(s.ghost["inflight"], mkInt(0))
		if b.Parent() == g.c.fn {
			delete(s.auto, "msg")
			delete(s.ghost, "mS")
			delete(s.ghost, "mD")
			delete(s.ghost, "mR")
		}
		return true
	}
	if l.want == "C31" {
		l.lists = &src31{l: l, x: x}
		l.lists.hooks()
	}
	var k36 *counter
	if l.want == "C36" {
		k36 = l.counted36(g.st)
		k36.install()
		recv := x.h.Recv
		x.h.Recv = func(s *State, in ssa.Instruction, ctx *Ctx, ch *Term, elem types.Type) []RecvRes {
			rr := recv(s, in, ctx, ch, elem)
			for _, r := range rr {
				if l.results[ch] && !l.body && (r.st.auto["msg"] == "ok" || r.st.auto["msg"] == "wrong") {
					k36.event(r.st, "bytes received", lenOfArg(r.st.ghost["mD"]))
				}
			}
			return rr
		}
	}
	for _, o := range x.runGo(g) {
		s := o.st
		if k36 != nil && o.kind == oRet {
			k36.settle(s, o.at)
		}
		if o.kind != oRet {
			l.rep("C19", s, o.at, "crash", "the source goroutine can crash or exit")
			if o.kind == oPanic {
				continue
			}
		}
		l.ends++
		x.count("source ended", o.at)
		if !s.provesEq(s.ghost["inflight"], mkInt(0)) {
			l.rep("C19C28", s, o.at, "ended-in-flight", "the source goroutine may end while requests are in flight")
		}
		if w := s.auto["owe"]; w != "" {
			l.rep("C03C28", s, o.at, "error-lost", "the source goroutine may end without reporting the error of a %s", w)
		}
		if s.auto["stopped"] == "" {
			l.rep("C28C40", s, o.at, "ended-running", "the source goroutine may end without having been stopped")
		}
		cl := map[*Term]bool{}
		for ch := range l.closed {
			if s.auto["closed:"+fmt.Sprint(ch.id)] != "" && (l.closedAlways == nil || l.closedAlways[ch]) {
				cl[ch] = true
			}
		}
		l.closedAlways = cl
		for _, ch := range []*Term{l.resp, l.errs} {
			if !cl[ch] {
				l.rep("C19", s, o.at, "not-closed", "the source goroutine can end without closing the channels its consumers wait for")
			}
		}
	}
}

// sourceConfig: the concurrency sources are created with.
func sourceConfig(p *Prog, r *Report) {
	for _, fn := range p.all {
		if fn.Blocks == nil || fn.Name() == "NewBlockSourceBase" {
			continue
		}
		calls := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok && c.Call.StaticCallee() != nil && strings.HasSuffix(c.Call.StaticCallee().String(), "blocksources.NewBlockSourceBase") {
					calls = true
				}
			}
		}
		if !calls {
			continue
		}
		fn := fn
		r.analyse(shortFn(fn), func(x *Exec) {
			args := x.params(fn)
			x.h.Go = func(st *State, c *Call) bool { return true }
			x.h.Model = func(s *State, c *Call) ([]Res, bool) {
				if c.fn == nil || !strings.HasSuffix(c.name, "blocksources.NewBlockSourceBase") {
					return nil, false
				}
				x.count("source configured", c.instr)
				x.cnt["source configured"]++
				var n, req *Term
				for i, prm := range c.fn.Params {
					if n == nil && typeKey(prm.Type()) == "int" {
						n = c.args[i]
					}
					if typeKey(prm.Type()) == modPath+"/blocksources.BlockSourceRequester" {
						req = c.args[i]
					}
				}
				if n == nil || req == nil {
					x.report(s, c.instr, "anchor", "the concurrency is not among the arguments")
					return nil, false
				}
				if oneFile(req) {
					if !s.provesGe(mkInt(1), n) {
						x.report(s, c.instr, "shared-position", "a source over a single seekable file is configured for more than one request at a time")
					}
				} else {
					ok := false
					for i, prm := range fn.Params {
						if typeKey(prm.Type()) == "int" && s.provesGe(args[i], n) {
							ok = true
						}
					}
					if _, isc := constInt(n); isc {
						ok = true
					}
					if !ok {
						x.report(s, c.instr, "other-concurrency", "a source is configured for a number of requests other than the one asked for")
					}
				}
				v := s.freshAlloc(x.name(c.ctx, c.instr, "source"), c.results.At(0).Type())
				return []Res{{st: s, vals: []*Term{v}}}, true
			}
			x.enter(fn, newState(x), args)
		})
	}
}

// oneFile: the requester holds something with a position that requests move.
func oneFile(req *Term) bool {
	if req.kind != KIface {
		return true
	}
	t := req.typ
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	sT := structOf(t)
	if sT == nil {
		return false
	}
	for i := 0; i < sT.NumFields(); i++ {
		if types.NewMethodSet(sT.Field(i).Type()).Lookup(nil, "Seek") != nil {
			return true
		}
	}
	return false
}
