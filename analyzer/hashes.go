package main

// Abstract hash objects: what has been fed since the last reset.

import "fmt"

var hashEmpty = mkConst("hash:empty", nil)

// hashTrack models hash.Hash: ghost "H<id>" holds the state of a hash object,
// a term hash:empty, hash:feed(state, bytes) or unknown.
type hashTrack struct {
	x *Exec
	// optional cumulative component, see c05/c09
	onFeed  func(st *State, c *Call, h, bytes *Term)
	onReset func(st *State, c *Call, h *Term)
	onSum   func(st *State, c *Call, h, state, res *Term)
}

func hashKey(h *Term) string { return fmt.Sprintf("H%d", stripIface(h).id) }

func (t *hashTrack) state(s *State, h *Term) *Term {
	k := hashKey(h)
	if v := s.ghost[k]; v != nil {
		return v
	}
	v := mkCall("hash:before", nil, stripIface(h))
	s.ghost[k] = v
	return v
}

// bytesTerm: the byte string denoted by a slice, with stream positions if its
// content is known to come from a stream.
func (x *Exec) bytesTerm(s *State, v *Term) *Term {
	if v == nilT {
		return mkCall("bytesOf", nil, mkConst("nobytes", nil), mkInt(0), mkInt(0))
	}
	b, lo, hi := sliceParts(v)
	ct := s.contentOf(b)
	if ct.kind == KCall && ct.name == "stream" && s.provesGe(ct.args[1], hi) && s.provesGe(lo, ct.args[2]) {
		return mkCall("bytesOf", nil, mkConst("the stream", nil), mkAdd(ct.args[0], lo), mkAdd(ct.args[0], hi))
	}
	return mkCall("bytesOf", nil, ct, lo, hi)
}

// sameBytes: the byte strings are provably equal.
func sameBytes(s *State, a, b *Term) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil || a.kind != KCall || b.kind != KCall || a.name != "bytesOf" || b.name != "bytesOf" {
		return false
	}
	return a.args[0] == b.args[0] && s.provesEq(a.args[1], b.args[1]) && s.provesEq(a.args[2], b.args[2])
}

// digestOf: the fed bytes, if the state is one (possibly split) feed after a
// reset.
func digestOf(st *Term) *Term {
	if st != nil && st.kind == KCall && st.name == "hash:feed" && st.args[0] == hashEmpty {
		return st.args[1]
	}
	return nil
}

func (t *hashTrack) install() {
	x := t.x
	prevM := x.h.Model
	x.h.Model = func(s *State, c *Call) ([]Res, bool) {
		if prevM != nil {
			if r, ok := prevM(s, c); ok {
				return r, true
			}
		}
		switch x.opKind(c) {
		case "hash.Reset":
			s.ghost[hashKey(c.args[0])] = hashEmpty
			if t.onReset != nil {
				t.onReset(s, c, c.args[0])
			}
			return nil, false
		case "hash.Write":
			k := hashKey(c.args[0])
			old := t.state(s, c.args[0])
			by := x.bytesTerm(s, c.args[1])
			nw := mkCall("hash:feed", nil, old, by)
			if p := digestOf(old); p != nil && p.args[0] == by.args[0] && s.provesEq(p.args[2], by.args[1]) {
				nw = mkCall("hash:feed", nil, hashEmpty, mkCall("bytesOf", nil, p.args[0], p.args[1], by.args[2]))
			} else if s.provesEq(by.args[1], by.args[2]) {
				nw = old
			}
			s.ghost[k] = nw
			if t.onFeed != nil {
				t.onFeed(s, c, c.args[0], by)
			}
			return nil, false
		case "hash.Sum":
			state := t.state(s, c.args[0])
			r := x.extern(s, c)
			res := r[0].vals[0]
			d := mkCall("digest", nil, state)
			if !s.provesEq(lenOfArg(c.args[1]), mkInt(0)) {
				d = mkCall("appended digest", nil, x.bytesTerm(s, c.args[1]), d)
			}
			s.setContent(res, d)
			if t.onSum != nil {
				t.onSum(s, c, c.args[0], state, res)
			}
			return r, true
		}
		// a hash handed to code that is not analysed
		if c.fn == nil || c.fn.Blocks == nil {
			for _, a := range c.args {
				if k := hashKey(a); s.ghost[k] != nil {
					if m := c.method; m == "Size" || m == "BlockSize" {
						continue
					}
					s.ghost[k] = s.fresh(x.name(c.ctx, c.instr, "hash state"), nil)
				}
			}
		}
		return nil, false
	}
	prevP := x.h.PostCall
	x.h.PostCall = func(c *Call, r *Res) bool {
		switch c.name {
		case "crypto/md5.New", "crypto/sha1.New", "crypto/sha256.New":
			r.st.ghost[hashKey(r.vals[0])] = hashEmpty
		}
		return prevP == nil || prevP(c, r)
	}
}
