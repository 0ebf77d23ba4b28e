package main

// Hash-consed value terms ("value numbers") used by the dataflow engine.

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Kind uint8

const (
	KSym     Kind = iota // unknown value, identified by name
	KConst               // nil, bool, string, float constant
	KPoly                // integer polynomial (also integer constants)
	KAlloc               // address (or slice/map/chan reference) of an allocated object
	KGlob                // address of a package level variable
	KFunc                // function value
	KClosure             // closure: obj = *ssa.Function, args = bindings
	KField               // address of field name of args[0]
	KIndex               // address of element args[1] of object args[0]
	KElem                // pseudo address: content / element summary of object args[0]
	KLoad                // initial value of the cell at address args[0]
	KFieldV              // field of struct value args[0]
	KStruct              // struct value
	KTuple               // tuple
	KSlice               // slice of object args[0] from args[1] to args[2]
	KLen
	KCap
	KIface // interface holding args[0] of type obj
	KCall  // pure function application
	KEq    // args[0] == args[1] (non integers)
	KEq0   // poly == 0
	KGe0   // poly >= 0
	KNot
	KBin // opaque binary / unary operation
	KBot // no element (empty summary)
	KStr // string concatenation normal form
)

var kindNames = []string{"sym", "const", "poly", "alloc", "glob", "func", "closure", "field", "index", "elem", "load", "fieldv", "struct", "tuple", "slice", "len", "cap", "iface", "call", "eq", "eq0", "ge0", "not", "bin", "bot", "str"}

type Term struct {
	id   int
	kind Kind
	name string
	args []*Term
	poly *Poly
	typ  types.Type
	obj  interface{}
	atm  []*Term // symbols and allocations occurring in the term, sorted by id
	atmD bool
}

var internTab = map[string]*Term{}
var termByID []*Term

func intern(k Kind, name string, args []*Term, poly *Poly, typ types.Type, obj interface{}, objKey string) *Term {
	var sb strings.Builder
	sb.WriteByte(byte('A' + k))
	sb.WriteString(name)
	sb.WriteByte('|')
	sb.WriteString(objKey)
	for _, a := range args {
		fmt.Fprintf(&sb, ",%d", a.id)
	}
	if poly != nil {
		sb.WriteByte('p')
		sb.WriteString(poly.key())
	}
	key := sb.String()
	if t, ok := internTab[key]; ok {
		return t
	}
	t := &Term{id: len(termByID), kind: k, name: name, args: args, poly: poly, typ: typ, obj: obj}
	termByID = append(termByID, t)
	internTab[key] = t
	return t
}

// ---------- polynomials ----------

type mono struct {
	atoms []*Term // sorted by id, with repetition
	coef  int64
}

type Poly struct {
	c     int64
	terms []mono // sorted by monoKey
	bad   bool   // overflow: value unknown
	k     string
}

func monoKey(atoms []*Term) string {
	b := make([]byte, 0, 24)
	for _, a := range atoms {
		b = append(b, '.')
		b = strconv.AppendInt(b, int64(a.id), 10)
	}
	return string(b)
}

func (p *Poly) key() string {
	if p.k == "" {
		b := make([]byte, 0, 64)
		b = strconv.AppendInt(b, p.c, 10)
		for _, m := range p.terms {
			b = append(b, '+')
			b = strconv.AppendInt(b, m.coef, 10)
			b = append(b, '*')
			for _, a := range m.atoms {
				b = append(b, '.')
				b = strconv.AppendInt(b, int64(a.id), 10)
			}
		}
		if p.bad {
			b = append(b, "!bad"...)
		}
		p.k = string(b)
	}
	return p.k
}

const coefLimit = int64(1) << 56

func polyConst(c int64) *Poly { return &Poly{c: c} }

func polyAtom(t *Term) *Poly {
	return &Poly{terms: []mono{{atoms: []*Term{t}, coef: 1}}}
}

func normPoly(c int64, ms []mono, bad bool) *Poly {
	if !sort.SliceIsSorted(ms, func(i, j int) bool { return lessAtoms(ms[i].atoms, ms[j].atoms) }) {
		ms = append([]mono(nil), ms...)
		sort.SliceStable(ms, func(i, j int) bool { return lessAtoms(ms[i].atoms, ms[j].atoms) })
	}
	res := make([]mono, 0, len(ms))
	for i := 0; i < len(ms); {
		m := ms[i]
		for i++; i < len(ms) && sameAtoms(ms[i].atoms, m.atoms); i++ {
			m.coef += ms[i].coef
		}
		if m.coef > coefLimit || m.coef < -coefLimit {
			bad = true
		}
		if m.coef != 0 {
			res = append(res, m)
		}
	}
	if c > coefLimit*32 || c < -coefLimit*32 {
		bad = true
	}
	return &Poly{c: c, terms: res, bad: bad}
}

func sameAtoms(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func lessAtoms(a, b []*Term) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i].id < b[i].id
		}
	}
	return false
}

func (p *Poly) add(q *Poly, f int64) *Poly {
	ms := make([]mono, 0, len(p.terms)+len(q.terms))
	i, j := 0, 0
	for i < len(p.terms) || j < len(q.terms) {
		if j == len(q.terms) || i < len(p.terms) && !lessAtoms(q.terms[j].atoms, p.terms[i].atoms) {
			ms = append(ms, p.terms[i])
			i++
			continue
		}
		ms = append(ms, mono{q.terms[j].atoms, q.terms[j].coef * f})
		j++
	}
	return normPoly(p.c+q.c*f, ms, p.bad || q.bad)
}

func (p *Poly) scale(f int64) *Poly {
	return (&Poly{bad: p.bad}).add(p, f)
}

func (p *Poly) mul(q *Poly) *Poly {
	var ms []mono
	bad := p.bad || q.bad
	pm := append([]mono{{nil, p.c}}, p.terms...)
	qm := append([]mono{{nil, q.c}}, q.terms...)
	var c int64
	for _, a := range pm {
		for _, b := range qm {
			if a.coef == 0 || b.coef == 0 {
				continue
			}
			if abs64(a.coef) > 1<<30 && abs64(b.coef) > 1<<26 {
				bad = true
				continue
			}
			at := make([]*Term, 0, len(a.atoms)+len(b.atoms))
			at = append(at, a.atoms...)
			at = append(at, b.atoms...)
			sort.Slice(at, func(i, j int) bool { return at[i].id < at[j].id })
			if len(at) == 0 {
				c += a.coef * b.coef
			} else {
				ms = append(ms, mono{at, a.coef * b.coef})
			}
		}
	}
	if len(ms) > 200 {
		bad = true
	}
	return normPoly(c, ms, bad)
}

func abs64(a int64) int64 {
	if a < 0 {
		return -a
	}
	return a
}

func (p *Poly) isConst() bool { return len(p.terms) == 0 && !p.bad }

// subst replaces atoms by polynomials.
func (p *Poly) subst(f func(*Term) *Poly) *Poly {
	changed := false
	for _, m := range p.terms {
		for _, a := range m.atoms {
			if f(a) != nil {
				changed = true
			}
		}
	}
	if !changed {
		return p
	}
	c, bad := p.c, p.bad
	var ms []mono
	for _, m := range p.terms {
		if len(m.atoms) == 1 {
			if r := f(m.atoms[0]); r == nil {
				ms = append(ms, m)
			} else {
				q := r.scale(m.coef)
				ms, c, bad = append(ms, q.terms...), c+q.c, bad || q.bad
			}
			continue
		}
		q := polyConst(m.coef)
		for _, a := range m.atoms {
			if r := f(a); r != nil {
				q = q.mul(r)
			} else {
				q = q.mul(polyAtom(a))
			}
		}
		ms, c, bad = append(ms, q.terms...), c+q.c, bad || q.bad
	}
	return normPoly(c, ms, bad)
}

// ---------- constructors ----------

func asPoly(t *Term) *Poly {
	if t.kind == KPoly {
		return t.poly
	}
	return polyAtom(t)
}

func fromPoly(p *Poly) *Term {
	if p.bad {
		return intern(KSym, "overflow:"+p.key(), nil, nil, types.Typ[types.Int], nil, "")
	}
	if p.c == 0 && len(p.terms) == 1 && p.terms[0].coef == 1 && len(p.terms[0].atoms) == 1 {
		return p.terms[0].atoms[0]
	}
	return intern(KPoly, "", nil, p, types.Typ[types.Int], nil, "")
}

func mkInt(c int64) *Term { return fromPoly(polyConst(c)) }

func mkSym(name string, typ types.Type) *Term {
	return intern(KSym, name, nil, nil, typ, nil, typeKey(typ))
}

var nilT = intern(KConst, "nil", nil, nil, types.Typ[types.UntypedNil], nil, "")
var trueT = intern(KConst, "true", nil, nil, types.Typ[types.Bool], nil, "")
var falseT = intern(KConst, "false", nil, nil, types.Typ[types.Bool], nil, "")
var botT = intern(KBot, "", nil, nil, nil, nil, "")

func mkBool(b bool) *Term {
	if b {
		return trueT
	}
	return falseT
}

func mkConst(name string, typ types.Type) *Term {
	return intern(KConst, name, nil, nil, typ, nil, "")
}

// strings: normal form is a concatenation of pieces; constant pieces are
// KConst with name starting with '"'.
func mkStrConst(s string) *Term { return mkConst("\""+s, types.Typ[types.String]) }

func (t *Term) isStrConst() bool {
	return t.kind == KConst && strings.HasPrefix(t.name, "\"")
}
func (t *Term) strVal() string { return t.name[1:] }

func mkConcat(parts ...*Term) *Term {
	var flat []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if t.kind == KStr {
			for _, a := range t.args {
				rec(a)
			}
			return
		}
		if t.isStrConst() {
			if t.strVal() == "" {
				return
			}
			if n := len(flat); n > 0 && flat[n-1].isStrConst() {
				flat[n-1] = mkStrConst(flat[n-1].strVal() + t.strVal())
				return
			}
		}
		flat = append(flat, t)
	}
	for _, p := range parts {
		rec(p)
	}
	if len(flat) == 0 {
		return mkStrConst("")
	}
	if len(flat) == 1 {
		return flat[0]
	}
	return intern(KStr, "", flat, nil, types.Typ[types.String], nil, "")
}

func mkAdd(a, b *Term) *Term { return fromPoly(asPoly(a).add(asPoly(b), 1)) }
func mkSub(a, b *Term) *Term { return fromPoly(asPoly(a).add(asPoly(b), -1)) }
func mkMul(a, b *Term) *Term { return fromPoly(asPoly(a).mul(asPoly(b))) }

func constInt(t *Term) (int64, bool) {
	if t.kind == KPoly && t.poly.isConst() {
		return t.poly.c, true
	}
	return 0, false
}

func mkAlloc(name string, typ types.Type) *Term {
	return intern(KAlloc, name, nil, nil, typ, nil, "")
}

func mkGlob(g *ssa.Global) *Term {
	return intern(KGlob, g.String(), nil, nil, g.Type(), g, "")
}

func mkFunc(f *ssa.Function) *Term {
	return intern(KFunc, f.String(), nil, nil, f.Signature, f, fmt.Sprintf("%p", f))
}

func mkClosure(f *ssa.Function, b []*Term) *Term {
	return intern(KClosure, f.String(), b, nil, f.Signature, f, fmt.Sprintf("%p", f))
}

func derefT(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func structOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func fieldType(t types.Type, i int) types.Type {
	if s := structOf(t); s != nil && i < s.NumFields() {
		return s.Field(i).Type()
	}
	return nil
}

// elemType is the type of the cell an address term points to.
func elemTypeOfAddr(a *Term) types.Type {
	switch a.kind {
	case KField:
		return a.typ
	case KIndex:
		return a.typ
	}
	return derefT(a.typ)
}

type fieldRef struct {
	idx   int
	owner types.Type
}

// mkField: address of field i in the struct at address base. typ of the term
// is the type of the FIELD (not pointer to it).
func mkField(base *Term, st types.Type, i int) *Term {
	return intern(KField, fmt.Sprint(i), []*Term{base}, nil, fieldType(st, i), fieldRef{i, st}, typeKey(st))
}

func typeKey(t types.Type) string {
	if t == nil {
		return ""
	}
	return types.TypeString(t, nil)
}

func mkIndex(base, idx *Term, elem types.Type) *Term {
	return intern(KIndex, "", []*Term{base, idx}, nil, elem, nil, "")
}

func mkElem(base *Term) *Term { return intern(KElem, "", []*Term{base}, nil, nil, nil, "") }

func mkLoad(addr *Term, epoch int, typ types.Type) *Term {
	return intern(KLoad, fmt.Sprint(epoch), []*Term{addr}, nil, typ, nil, "")
}

func mkStruct(typ types.Type, vals []*Term) *Term {
	// eta: all components are fields of the same value
	if len(vals) > 0 && vals[0].kind == KFieldV && vals[0].obj.(int) == 0 {
		v := vals[0].args[0]
		if s := structOf(v.typ); s != nil && s.NumFields() == len(vals) && (typ == nil || types.Identical(typ, v.typ)) {
			same := true
			for i, c := range vals {
				if c.kind != KFieldV || c.args[0] != v || c.obj.(int) != i {
					same = false
				}
			}
			if same {
				return v
			}
		}
	}
	return intern(KStruct, "", vals, nil, typ, nil, typeKey(typ))
}

func mkTuple(vals []*Term) *Term { return intern(KTuple, "", vals, nil, nil, nil, "") }

func mkFieldV(v *Term, i int) *Term {
	if v.kind == KStruct || v.kind == KTuple {
		if i < len(v.args) {
			return v.args[i]
		}
	}
	return intern(KFieldV, fmt.Sprint(i), []*Term{v}, nil, fieldType(v.typ, i), i, "")
}

func mkSlice(base, lo, hi *Term, typ types.Type) *Term {
	if base.kind == KSlice {
		return mkSlice(base.args[0], mkAdd(base.args[1], lo), mkAdd(base.args[1], hi), typ)
	}
	if base.kind == KConst && base.name == "nil" {
		return nilT
	}
	if c, ok := constInt(lo); ok && c == 0 && isSliceRef(base) && hi == mkLen(base) {
		return base
	}
	return intern(KSlice, "", []*Term{base, lo, hi}, nil, typ, nil, "")
}

// isSliceRef reports whether the term denotes a whole slice value by itself.
func isSliceRef(t *Term) bool {
	if t.typ == nil {
		return false
	}
	_, ok := t.typ.Underlying().(*types.Slice)
	return ok
}

func mkLen(v *Term) *Term {
	switch {
	case v.kind == KSlice:
		return mkSub(v.args[2], v.args[1])
	case v == nilT:
		return mkInt(0)
	case v.isStrConst():
		return mkInt(int64(len(v.strVal())))
	case v.kind == KStr:
		n := mkInt(0)
		for _, a := range v.args {
			n = mkAdd(n, mkLen(a))
		}
		return n
	case v.kind == KCall && (v.name == "string2bytes" || v.name == "bytes2string"):
		return mkLen(v.args[0])
	}
	return intern(KLen, "", []*Term{v}, nil, types.Typ[types.Uint], nil, "")
}

func mkCap(v *Term) *Term {
	if v == nilT {
		return mkInt(0)
	}
	if v.kind == KSlice {
		return mkSub(mkCap(v.args[0]), v.args[1])
	}
	return intern(KCap, "", []*Term{v}, nil, types.Typ[types.Uint], nil, "")
}

func mkIface(v *Term, typ types.Type) *Term {
	return intern(KIface, "", []*Term{v}, nil, typ, typ, typeKey(typ))
}

func mkCall(name string, typ types.Type, args ...*Term) *Term {
	return intern(KCall, name, args, nil, typ, nil, "")
}

func mkBin(op string, typ types.Type, args ...*Term) *Term {
	return intern(KBin, op, args, nil, typ, nil, "")
}

func mkNot(t *Term) *Term {
	switch {
	case t == trueT:
		return falseT
	case t == falseT:
		return trueT
	case t.kind == KNot:
		return t.args[0]
	}
	return intern(KNot, "", []*Term{t}, nil, types.Typ[types.Bool], nil, "")
}

// mkEq0: p == 0, canonical sign.
func mkEq0(p *Poly) *Term {
	if p.isConst() {
		return mkBool(p.c == 0)
	}
	if !p.bad {
		if p.terms[0].coef < 0 {
			p = p.scale(-1)
		}
		// unsatisfiable by divisibility is left to the solver
	}
	return intern(KEq0, "", nil, p, types.Typ[types.Bool], nil, "")
}

func mkGe0(p *Poly) *Term {
	if p.isConst() {
		return mkBool(p.c >= 0)
	}
	return intern(KGe0, "", nil, p, types.Typ[types.Bool], nil, "")
}

// classOf returns how much is known about nil-ness from the term alone:
// 0 unknown, 1 nil, 2 non-nil.
func classOf(t *Term) int {
	switch t.kind {
	case KConst:
		if t == nilT {
			return 1
		}
		return 2
	case KAlloc, KGlob, KFunc, KClosure, KField, KIndex, KIface, KStruct:
		return 2
	case KSlice:
		return 0
	case KCall:
		if strings.HasPrefix(t.name, "nonnil:") || nonNilCalls[t.name] {
			return 2
		}
	case KLoad:
		if isSentinel(t) {
			return 2
		}
	}
	return 0
}

var nonNilCalls = map[string]bool{}

// isSentinel: value of a package level error variable.
func isSentinel(t *Term) bool {
	if t.kind != KLoad || t.args[0].kind != KGlob {
		return false
	}
	return isErrorType(t.typ)
}

var errorType = types.Universe.Lookup("error").Type()

func isErrorType(t types.Type) bool {
	return t != nil && types.Identical(t, errorType)
}

func isIntType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isUnsigned(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func mkEq(a, b *Term) *Term {
	if a == b {
		return trueT
	}
	if (isIntTerm(a) && isIntTerm(b)) || a.kind == KPoly || b.kind == KPoly {
		return mkEq0(asPoly(a).add(asPoly(b), -1))
	}
	if a.id > b.id {
		a, b = b, a
	}
	// booleans
	if a == trueT || b == trueT {
		if a == trueT {
			return b
		}
		return a
	}
	if a == falseT || b == falseT {
		if a == falseT {
			return mkNot(b)
		}
		return mkNot(a)
	}
	if a.kind == KConst && b.kind == KConst {
		return falseT // distinct interned constants
	}
	ca, cb := classOf(a), classOf(b)
	if (ca == 1 && cb == 2) || (ca == 2 && cb == 1) {
		return falseT
	}
	if a.kind == KAlloc && b.kind == KAlloc {
		return falseT
	}
	if isSentinel(a) && isSentinel(b) {
		return falseT
	}
	if a.kind == KIface && b.kind == KIface {
		if typeKey(a.typ) != typeKey(b.typ) {
			return falseT
		}
		return mkEq(a.args[0], b.args[0])
	}
	// freshly made error values differ from sentinels
	if (isFreshErr(a) && isSentinel(b)) || (isFreshErr(b) && isSentinel(a)) {
		return falseT
	}
	// slice compared with nil
	if a == nilT && b.kind == KSlice || b == nilT && a.kind == KSlice {
		s := a
		if a == nilT {
			s = b
		}
		return mkEq(nilT, s.args[0])
	}
	return intern(KEq, "", []*Term{a, b}, nil, types.Typ[types.Bool], nil, "")
}

func isFreshErr(t *Term) bool {
	return t.kind == KSym && strings.HasPrefix(t.name, "newerr:")
}

func isIntTerm(t *Term) bool {
	if t.kind == KPoly || t.kind == KLen || t.kind == KCap {
		return true
	}
	return isIntType(t.typ)
}

// mkCmp builds a<b for integers (or opaque for others)
func mkLt(a, b *Term) *Term {
	return mkGe0(asPoly(b).add(asPoly(a), -1).add(polyConst(1), -1))
}
func mkLe(a, b *Term) *Term {
	return mkGe0(asPoly(b).add(asPoly(a), -1))
}

// ---------- traversal ----------

// atoms returns the symbols / allocations occurring in t.
func (t *Term) atomsOf() []*Term {
	if t.atmD {
		return t.atm
	}
	set := map[*Term]bool{}
	if t.kind == KSym || t.kind == KAlloc {
		set[t] = true
	}
	for _, a := range t.args {
		for _, s := range a.atomsOf() {
			set[s] = true
		}
	}
	if t.poly != nil {
		for _, m := range t.poly.terms {
			for _, a := range m.atoms {
				for _, s := range a.atomsOf() {
					set[s] = true
				}
			}
		}
	}
	out := make([]*Term, 0, len(set))
	for s := range set {
		out = append(out, s)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	t.atm, t.atmD = out, true
	return out
}

func (t *Term) contains(s *Term) bool {
	as := t.atomsOf()
	i := sort.Search(len(as), func(i int) bool { return as[i].id >= s.id })
	return i < len(as) && as[i] == s
}

// rebuild reconstructs t with new args/poly through the smart constructors.
func rebuild(t *Term, args []*Term, poly *Poly) *Term {
	switch t.kind {
	case KSym, KConst, KAlloc, KGlob, KFunc, KBot:
		return t
	case KPoly:
		return fromPoly(poly)
	case KClosure:
		return mkClosure(t.obj.(*ssa.Function), args)
	case KField:
		r := t.obj.(fieldRef)
		return mkField(args[0], r.owner, r.idx)
	case KIndex:
		return mkIndex(args[0], args[1], t.typ)
	case KElem:
		return mkElem(args[0])
	case KLoad:
		return intern(KLoad, t.name, args, nil, t.typ, nil, "")
	case KFieldV:
		return mkFieldV(args[0], t.obj.(int))
	case KStruct:
		return mkStruct(t.typ, args)
	case KTuple:
		return mkTuple(args)
	case KSlice:
		return mkSlice(args[0], args[1], args[2], t.typ)
	case KLen:
		return mkLen(args[0])
	case KCap:
		return mkCap(args[0])
	case KIface:
		return mkIface(args[0], t.typ)
	case KCall:
		return mkCall(t.name, t.typ, args...)
	case KEq:
		return mkEq(args[0], args[1])
	case KEq0:
		return mkEq0(poly)
	case KGe0:
		return mkGe0(poly)
	case KNot:
		return mkNot(args[0])
	case KBin:
		return mkBin(t.name, t.typ, args...)
	case KStr:
		return mkConcat(args...)
	}
	panic("rebuild")
}

type substMap map[*Term]*Term

// apply replaces atoms (any terms in the map) in t.
func (m substMap) apply(t *Term) *Term {
	if len(m) == 0 || t == nil {
		return t
	}
	memo := map[*Term]*Term{}
	return m.rec(t, memo)
}

func (m substMap) touches(t *Term) bool {
	if len(m) > 8 {
		for _, a := range t.atomsOf() {
			if _, ok := m[a]; ok {
				return true
			}
		}
		if _, ok := m[t]; ok {
			return true
		}
		return !m.onlyAtoms()
	}
	for k := range m {
		if k.kind == KSym || k.kind == KAlloc {
			if t.contains(k) {
				return true
			}
		} else {
			return true
		}
	}
	return false
}

func (m substMap) onlyAtoms() bool {
	for k := range m {
		if k.kind != KSym && k.kind != KAlloc {
			return false
		}
	}
	return true
}

func (m substMap) rec(t *Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 && t.poly == nil {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	if !m.touches(t) {
		memo[t] = t
		return t
	}
	var args []*Term
	ch := false
	if len(t.args) > 0 {
		args = make([]*Term, len(t.args))
		for i, a := range t.args {
			args[i] = m.rec(a, memo)
			if args[i] != a {
				ch = true
			}
		}
	}
	poly := t.poly
	if poly != nil {
		poly = poly.subst(func(a *Term) *Poly {
			r := m.rec(a, memo)
			if r == a {
				return nil
			}
			return asPoly(r)
		})
		if poly != t.poly {
			ch = true
		}
	}
	res := t
	if ch {
		res = rebuild(t, args, poly)
	}
	memo[t] = res
	return res
}

func (m substMap) applyPoly(p *Poly) *Poly {
	memo := map[*Term]*Term{}
	return p.subst(func(a *Term) *Poly {
		r := m.rec(a, memo)
		if r == a {
			return nil
		}
		return asPoly(r)
	})
}

// ---------- printing ----------

func (p *Poly) String() string {
	var sb strings.Builder
	first := true
	for _, m := range p.terms {
		if m.coef >= 0 && !first {
			sb.WriteString(" + ")
		} else if m.coef < 0 {
			sb.WriteString(" - ")
		}
		first = false
		if abs64(m.coef) != 1 {
			fmt.Fprintf(&sb, "%d*", abs64(m.coef))
		}
		for i, a := range m.atoms {
			if i > 0 {
				sb.WriteString("*")
			}
			sb.WriteString(a.String())
		}
	}
	if p.c != 0 || first {
		if p.c >= 0 && !first {
			sb.WriteString(" + ")
		}
		fmt.Fprintf(&sb, "%d", p.c)
	}
	return sb.String()
}

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if d > 6 {
		return "…"
	}
	list := func() string {
		var s []string
		for _, a := range t.args {
			s = append(s, a.str(d+1))
		}
		return strings.Join(s, ", ")
	}
	switch t.kind {
	case KSym, KConst, KAlloc, KGlob, KFunc:
		return t.name
	case KPoly:
		return "(" + t.poly.String() + ")"
	case KField:
		return t.args[0].str(d+1) + "." + fieldName(t)
	case KIndex:
		return t.args[0].str(d+1) + "[" + t.args[1].str(d+1) + "]"
	case KLoad:
		return "*" + t.args[0].str(d+1) + strings.Repeat("'", len(t.name)*boolInt(t.name != "0"))
	case KFieldV:
		n := t.name
		if s := structOf(t.args[0].typ); s != nil && t.obj.(int) < s.NumFields() {
			n = s.Field(t.obj.(int)).Name()
		}
		return t.args[0].str(d+1) + "." + n
	case KStruct:
		return "{" + list() + "}"
	case KSlice:
		return t.args[0].str(d+1) + "[" + t.args[1].str(d+1) + ":" + t.args[2].str(d+1) + "]"
	case KLen:
		return "len(" + list() + ")"
	case KCap:
		return "cap(" + list() + ")"
	case KIface:
		return "iface(" + list() + ")"
	case KEq:
		return t.args[0].str(d+1) + "==" + t.args[1].str(d+1)
	case KEq0:
		return t.poly.String() + "==0"
	case KGe0:
		return t.poly.String() + ">=0"
	case KNot:
		return "!(" + list() + ")"
	}
	return kindNames[t.kind] + ":" + t.name + "(" + list() + ")"
}

func boolInt(b bool) int {
	if b {
		return 1
	}
	return 0
}

func fieldName(t *Term) string {
	r := t.obj.(fieldRef)
	if s := structOf(r.owner); s != nil && r.idx < s.NumFields() {
		return s.Field(r.idx).Name()
	}
	return t.name
}
