package main

// C04: requests return exactly the range asked for.

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// readOnlyResource: closing it cannot lose data.
func readOnlyClose(x *Exec, c *Call, r *Res) bool {
	if c.method != "Close" || len(c.args) == 0 {
		return false
	}
	h := stripIface(c.args[0])
	if r.st.truth(mkCall("readonly", boolT, h)) == 1 {
		return true
	}
	if strings.HasPrefix(typeKey(c.recvT), "io.ReadCloser") || strings.HasPrefix(typeKey(h.typ), "io.ReadCloser") {
		return true
	}
	return false
}

func stripIface(t *Term) *Term {
	for t != nil && t.kind == KIface {
		t = t.args[0]
	}
	return t
}

func init() {
	rule("C04", func(p *Prog, r *Report) {
		r.describe("Each return of the range requesters with a nil error is checked for the facts that must hold on the path: request headers, status, encoding, complete body and length for HTTP; seek target, single full read and returned prefix for the local file.")
		if fn := r.anchor("blocksources", "HttpRequester", "DoRequest"); fn != nil {
			c04HTTP(r, fn)
			r.need("successful HTTP return", 1)
			r.need("HTTP request sent", 1)
			r.need("HTTP failing exit", 1)
		}
		if fn := r.anchor("blocksources", "ReadSeekerRequester", "DoRequest"); fn != nil {
			c04File(r, fn)
			r.need("successful file return", 1)
		}
	})
}

func c04HTTP(r *Report, fn *ssa.Function) {
	r.analyse(shortFn(fn), func(x *Exec) {
		x.h.PreCall = func(st *State, c *Call) bool {
			if (c.name == "(net/http.Header).Add" || c.name == "(net/http.Header).Set") && len(c.args) == 3 && c.args[1].isStrConst() {
				k := "hdr:" + strings.ToLower(c.args[1].strVal())
				if old, dup := st.ghost[k]; dup && old != c.args[2] && strings.HasSuffix(c.name, "Add") {
					st.auto[k] = "ambiguous"
				}
				st.ghost[k] = c.args[2]
				st.ghost[k+":map"] = c.args[0]
			}
			return true
		}
		x.h.PostCall = func(c *Call, res *Res) bool {
			st := res.st
			switch {
			case c.name == "(*net/http.Client).Do" || c.method == "RoundTrip":
				x.count("HTTP request sent", c.instr)
				if res.label == "ok" {
					st.ghost["resp"] = res.vals[0]
				}
				req := c.args[1]
				st.ghost["req"] = req
				hm := st.load(fieldAddr(req, derefT(req.typ), "Header"), fieldType(derefT(req.typ), structFieldIdx(derefT(req.typ), "Header")))
				for _, k := range []string{"range", "accept-encoding"} {
					if m := st.ghost["hdr:"+k+":map"]; m == nil || !st.provesEq(m, hm) {
						x.report(st, c.instr, "http-header", "the request is sent without the header %q", k)
					}
				}
			case strings.HasPrefix(c.name, "(*bytes.Buffer).ReadFrom"):
				if body := x.respBody(st); body != nil && stripIface(c.args[1]) == body && res.label == "ok" {
					st.ghost["body:buf"] = c.args[0]
				}
			case c.name == "io.ReadAll" || c.name == "io/ioutil.ReadAll":
				if body := x.respBody(st); body != nil && stripIface(c.args[0]) == body && res.label == "ok" {
					st.ghost["body:data"] = res.vals[0]
				}
			case c.name == "io.ReadFull":
				if body := x.respBody(st); body != nil && stripIface(c.args[0]) == body && res.label == "ok" {
					st.ghost["body:data"] = c.args[1]
				}
			case c.name == "io.Copy":
				if body := x.respBody(st); body != nil && stripIface(c.args[1]) == body && res.label == "ok" {
					st.ghost["body:buf"] = stripIface(c.args[0])
				}
			}
			return true
		}
		ft := x.trackFailures(false, func(c *Call, res *Res) bool { return readOnlyClose(x, c, res) })
		st := newState(x)
		args := x.params(fn)
		start, end := args[1], args[2]
		st.addGe(start, mkInt(0))
		st.addGe(end, start)
		outs := x.enter(fn, st, args)
		ft.checkExits(outs, "failure-lost", errNonNil, "a path on which %s does not return an error")
		want := mkConcat(mkStrConst("bytes="), mkCall("dec", types_string, start), mkStrConst("-"), mkCall("dec", types_string, mkSub(end, mkInt(1))))
		for _, o := range outs {
			if o.kind != oRet {
				continue
			}
			if o.st.nilClass(o.vals[1]) == 2 {
				x.count("HTTP failing exit", ft.site[o.st.auto["failed"]])
				x.cnt["HTTP failing exit"]++
				continue
			}
			x.count("successful HTTP return", o.at)
			s, data := o.st, o.vals[0]
			resp := s.ghost["resp"]
			if resp == nil {
				x.report(s, o.at, "http-response", "success without a response from the server")
				continue
			}
			rt := derefT(resp.typ)
			code := s.load(fieldAddr(resp, rt, "StatusCode"), intT)
			if !s.provesEq(code, mkInt(206)) {
				x.report(s, o.at, "http-status", "success without knowing that the status is 206")
			}
			if h := s.ghost["hdr:range"]; h != nil && (!s.provesEq(h, want) || s.auto["hdr:range"] != "") {
				x.report(s, o.at, "http-range", "the Range header is %v, not bytes=start-(end-1)", h)
			}
			if h := s.ghost["hdr:accept-encoding"]; h != nil && (h != mkStrConst("identity") || s.auto["hdr:accept-encoding"] != "") {
				x.report(s, o.at, "http-accept", "the Accept-Encoding header is %v, not identity", h)
			}
			if !notGzip(s) {
				x.report(s, o.at, "http-gzip", "success without knowing that the response is not gzip encoded")
			}
			if !s.provesEq(lenOfArg(data), mkSub(end, start)) {
				x.report(s, o.at, "http-length", "success without knowing that the length of the data is end-start")
			}
			okData := false
			if b := s.ghost["body:buf"]; b != nil && data.kind == KCall && strings.HasPrefix(data.name, "buffer.Bytes#") && data.args[0] == b {
				okData = true
			}
			if b := s.ghost["body:data"]; b != nil && s.provesEq(b, data) {
				okData = true
			}
			if !okData {
				x.report(s, o.at, "http-body", "the data returned (%v) is not known to be the complete response body", data)
			}
		}
	})
}

func (x *Exec) respBody(st *State) *Term {
	resp := st.ghost["resp"]
	if resp == nil || resp.typ == nil {
		return nil
	}
	rt := derefT(resp.typ)
	i := structFieldIdx(rt, "Body")
	if i < 0 {
		return nil
	}
	return stripIface(st.load(mkField(resp, rt, i), fieldType(rt, i)))
}

// notGzip: a branch fact excludes gzip in the content encoding.
func notGzip(s *State) bool {
	isEnc := func(t *Term) bool {
		found := false
		var rec func(t *Term)
		rec = func(t *Term) {
			if t.kind == KSym || len(t.args) == 0 {
				if v := s.ghost["enc:"+t.String()]; v != nil {
					found = true
				}
			}
			if t.kind == KCall && strings.HasSuffix(t.name, "http.Header).Get") && len(t.args) == 2 && t.args[1].isStrConst() && strings.EqualFold(t.args[1].strVal(), "Content-Encoding") {
				found = true
			}
			for _, a := range t.args {
				rec(a)
			}
		}
		rec(t)
		return found
	}
	for f, v := range s.facts {
		if !isEnc(f) {
			continue
		}
		switch f.kind {
		case KCall:
			if !v && f.name == "strings.Contains" && f.args[1] == mkStrConst("gzip") {
				return true
			}
		case KEq:
			for i := range f.args {
				c := f.args[i]
				if c.isStrConst() && v && !strings.Contains(c.strVal(), "gzip") {
					return true
				}
			}
		}
	}
	return false
}

func c04File(r *Report, fn *ssa.Function) {
	r.analyse(shortFn(fn), func(x *Exec) {
		args := x.params(fn)
		start, end := args[1], args[2]
		x.h.PostCall = func(c *Call, res *Res) bool {
			st := res.st
			switch x.opKind(c) {
			case "Seek":
				if st.auto["read"] != "" {
					x.report(st, c.instr, "seek-after-read", "the file is repositioned after reading")
				}
				if !st.provesEq(c.args[1], start) || !st.provesEq(c.args[2], mkInt(0)) {
					x.report(st, c.instr, "seek-target", "the file is positioned at %v (whence %v), not at the start offset", c.args[1], c.args[2])
				}
				if res.label == "ok" {
					st.auto["seek"] = "done"
					st.ghost["file"] = stripIface(c.args[0])
				}
			case "Read", "io.ReadFull", "io.ReadAtLeast", "io.ReadAll", "io/ioutil.ReadAll", "io.Copy", "io.CopyN":
				if x.opKind(c) != "io.ReadFull" {
					x.report(st, c.instr, "read-shape", "%s does not guarantee a complete read of the range", shortName(c.name))
					return true
				}
				if st.auto["read"] != "" {
					x.report(st, c.instr, "read-twice", "the range is read more than once")
				}
				if st.auto["seek"] != "done" || st.ghost["file"] != stripIface(c.args[0]) {
					x.report(st, c.instr, "read-before-seek", "the file is read without having been positioned")
				}
				if !st.provesEq(lenOfArg(c.args[1]), mkSub(end, start)) {
					x.report(st, c.instr, "read-size", "the read asks for %v bytes, not for end-start", lenOfArg(c.args[1]))
				}
				st.auto["read"] = res.label
				st.ghost["buf"] = c.args[1]
				st.ghost["n"] = res.vals[0]
			}
			return true
		}
		st := newState(x)
		st.addGe(start, mkInt(0))
		st.addGe(end, start)
		ft := x.trackFailures(false, nil)
		outs := x.enter(fn, st, args)
		ft.checkExits(outs, "failure-lost", errNonNil, "a path on which %s does not return an error")
		for _, o := range outs {
			if o.kind != oRet || o.st.nilClass(o.vals[1]) == 2 {
				if o.st.auto["read"] == "ueof" && o.st.auto["failed"] == "" {
					x.report(o.st, o.at, "short-read-refused", "the bytes before the end of the file are not returned when the range goes beyond it")
				}
				continue
			}
			s := o.st
			x.count("successful file return", o.at)
			x.cnt["successful file return"]++
			switch s.auto["read"] {
			case "ok", "ueof":
			case "eof":
				if !s.provesEq(end, start) {
					x.report(s, o.at, "empty-read", "end of file before the first byte is returned as success")
				}
			default:
				x.report(s, o.at, "no-read", "success without a successful read (%q)", s.auto["read"])
				continue
			}
			b, lo, _ := sliceParts(s.ghost["buf"])
			db, dlo, dhi := sliceParts(o.vals[0])
			if b != db || !s.provesEq(lo, dlo) || !s.provesEq(mkSub(dhi, dlo), s.ghost["n"]) {
				x.report(s, o.at, "returned-bytes", "the data returned (%v) is not exactly the bytes read", o.vals[0])
			}
		}
	})
}
