package main

// Linear-relations domain over polynomial monomials: entailment, projection
// and join (affine hull of the equalities, plus inequalities that hold on
// both sides).

import (
	"go/types"
	"math/big"
	"sort"
	"strconv"
)

// Con is p >= 0, or p == 0 when eq is set.
type Con struct {
	p  *Poly
	eq bool
}

func (c Con) key() string {
	if c.eq {
		return "=" + c.p.key()
	}
	return ">" + c.p.key()
}

func (c Con) String() string {
	if c.eq {
		return c.p.String() + " = 0"
	}
	return c.p.String() + " >= 0"
}

func gcd64(a, b int64) int64 {
	a, b = abs64(a), abs64(b)
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// norm divides by the gcd of the coefficients (with integer tightening).
// ok=false: the constraint is trivially true; bad=true: trivially false.
func (c Con) norm() (res Con, trivial, contra bool) {
	p := c.p
	if p.bad {
		return c, true, false
	}
	if len(p.terms) == 0 {
		if c.eq {
			return c, p.c == 0, p.c != 0
		}
		return c, p.c >= 0, p.c < 0
	}
	g := int64(0)
	for _, m := range p.terms {
		g = gcd64(g, m.coef)
	}
	if c.eq {
		if p.c%g != 0 {
			return c, false, true
		}
		if g > 1 || p.terms[0].coef < 0 {
			if p.terms[0].coef < 0 {
				g = -g
			}
			p = divPoly(p, g)
		}
		return Con{p, true}, false, false
	}
	if g > 1 {
		q := &Poly{terms: make([]mono, len(p.terms))}
		for i, m := range p.terms {
			q.terms[i] = mono{m.atoms, m.coef / g}
		}
		q.c = floorDiv(p.c, g)
		p = q
	}
	return Con{p, false}, false, false
}

func divPoly(p *Poly, g int64) *Poly {
	q := &Poly{c: p.c / g, terms: make([]mono, len(p.terms))}
	for i, m := range p.terms {
		q.terms[i] = mono{m.atoms, m.coef / g}
	}
	return q
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// nonNegAtom: atoms that are >= 0 by their nature.
func nonNegAtom(t *Term) bool {
	switch t.kind {
	case KLen, KCap:
		return true
	case KBin:
		if t.name == "&" {
			for _, a := range t.args {
				if c, ok := constInt(a); ok && c >= 0 {
					return true
				}
			}
		}
	}
	return isUnsigned(t.typ)
}

// monoAtoms visits the atoms of a constraint.
func (p *Poly) eachAtom(f func(*Term)) {
	for _, m := range p.terms {
		for _, a := range m.atoms {
			f(a)
		}
	}
}

// solveEqs turns equalities into an acyclic substitution (applied to all other
// constraints).  prefer(t) > 0 means: eliminate t first.
// returns the rewritten remaining constraints, the substitution, and false if
// contradictory.
func solveEqs(cons []Con, prefer func(*Term) int) (rest []Con, sub map[*Term]*Poly, ok bool) {
	work := append([]Con(nil), cons...)
	sub = map[*Term]*Poly{}
	for {
		// choose an equality with an atom of degree one and unit coefficient
		best, bestAtom, bestScore := -1, (*Term)(nil), -1
		var bestCoef int64
		for i, c := range work {
			if !c.eq {
				continue
			}
			for _, m := range c.p.terms {
				if len(m.atoms) != 1 || (m.coef != 1 && m.coef != -1) {
					continue
				}
				a := m.atoms[0]
				// must not occur elsewhere in the same polynomial
				occ := 0
				c.p.eachAtom(func(b *Term) {
					if b == a || b.contains(a) || termMentions(b, a) {
						occ++
					}
				})
				if occ != 1 {
					continue
				}
				score := prefer(a)
				if score < 0 {
					continue
				}
				if score > bestScore || (score == bestScore && best >= 0 && a.id > bestAtom.id) {
					best, bestAtom, bestScore, bestCoef = i, a, score, m.coef
				}
			}
		}
		if best < 0 {
			break
		}
		c := work[best]
		// a*coef + r = 0  =>  a = -coef*r   (coef = ±1)
		r := c.p.add(polyAtom(bestAtom), -bestCoef)
		val := r.scale(-bestCoef)
		work = append(work[:best], work[best+1:]...)
		f := func(t *Term) *Poly {
			if t == bestAtom {
				return val
			}
			return nil
		}
		for k, v := range sub {
			sub[k] = v.subst(f)
		}
		sub[bestAtom] = val
		nw := work[:0]
		for _, c := range work {
			c2, triv, contra := Con{c.p.subst(f), c.eq}.norm()
			if contra {
				return nil, nil, false
			}
			if !triv {
				nw = append(nw, c2)
			}
		}
		work = nw
	}
	return work, sub, true
}

// termMentions: the atom b contains term a as a sub term (non symbols).
func termMentions(b, a *Term) bool {
	if b == a {
		return true
	}
	for _, x := range b.args {
		if termMentions(x, a) {
			return true
		}
	}
	if b.poly != nil {
		f := false
		b.poly.eachAtom(func(t *Term) {
			if termMentions(t, a) {
				f = true
			}
		})
		return f
	}
	return false
}

const fmLimit = 900

// infeasible decides (incompletely) whether the constraints have no integer
// solution. Monomials of degree > 1 are treated as independent unknowns after
// substitution of the equalities.
func infeasible(cons []Con) bool {
	var ns []Con
	for _, c := range cons {
		c2, triv, contra := c.norm()
		if contra {
			return true
		}
		if !triv {
			ns = append(ns, c2)
		}
	}
	rest, sub, ok := solveEqs(ns, func(*Term) int { return 0 })
	if !ok {
		return true
	}
	return fmInfeasible(append(rest, signs(sub)...))
}

// signs: what equals a length is not negative.
func signs(sub map[*Term]*Poly) []Con {
	var r []Con
	for _, t := range sortedTerms(sub) {
		v := sub[t]
		if !nonNegAtom(t) || len(v.terms) > 3 || len(polyFamilies(v)) > 0 || len(polyFamilies(polyAtom(t))) > 0 {
			continue
		}
		plain, neg := true, v.c < 0
		for _, m := range v.terms {
			plain = plain && len(m.atoms) == 1
			neg = neg || m.coef < 0 || !nonNegAtom(m.atoms[0])
		}
		if plain && neg {
			if c, triv, _ := (Con{v, false}).norm(); !triv {
				r = append(r, c)
			}
		}
	}
	return r
}

// fmInfeasible: no rational (nor, after tightening, integer) solution; by
// Fourier-Motzkin elimination on rows of coefficients.
func fmInfeasible(cons []Con) bool {
	// columns
	var keys []string
	atoms := map[string][]*Term{}
	for _, c := range cons {
		for _, m := range c.p.terms {
			k := monoKey(m.atoms)
			if _, ok := atoms[k]; !ok {
				atoms[k] = m.atoms
				keys = append(keys, k)
			}
		}
	}
	sort.Strings(keys)
	n := len(keys)
	col := make(map[string]int, n)
	for i, k := range keys {
		col[k] = i
	}
	// a row is the coefficients followed by the constant
	var rows [][]int64
	seen := map[string]int{}
	kb := make([]byte, 0, 256)
	addRow := func(r []int64) bool { // false: contradiction found
		g := int64(0)
		for _, v := range r[:n] {
			if v == 0 {
				continue
			}
			if abs64(v) > coefLimit {
				return true // drop
			}
			g = gcd64(g, v)
		}
		if g == 0 {
			return r[n] >= 0
		}
		if g > 1 {
			for i := range r[:n] {
				r[i] /= g
			}
			r[n] = floorDiv(r[n], g)
		}
		kb = kb[:0]
		for i, v := range r[:n] {
			if v != 0 {
				kb = append(kb, byte(i), byte(i>>8), byte(v), byte(v>>8), byte(v>>16), byte(v>>24), byte(v>>32), byte(v>>40), byte(v>>48), byte(v>>56))
			}
		}
		if i, ok := seen[string(kb)]; ok {
			// the smaller constant is the stronger constraint
			if r[n] < rows[i][n] {
				rows[i] = r
			}
			return true
		}
		seen[string(kb)] = len(rows)
		rows = append(rows, r)
		return true
	}
	toRow := func(p *Poly, f int64) []int64 {
		r := make([]int64, n+1)
		r[n] = p.c * f
		for _, m := range p.terms {
			r[col[monoKey(m.atoms)]] = m.coef * f
		}
		return r
	}
	for _, c := range cons {
		if !addRow(toRow(c.p, 1)) {
			return true
		}
		// remaining equalities (non unit coefficients or nonlinear) are two
		// inequalities
		if c.eq && !addRow(toRow(c.p, -1)) {
			return true
		}
	}
	// natural non-negativity
	for i, k := range keys {
		at := atoms[k]
		nn := true
		for _, a := range at {
			if !nonNegAtom(a) {
				nn = false
			}
		}
		if len(at)%2 == 0 && !nn {
			// squares
			sq := true
			for i := 0; i+1 < len(at); i += 2 {
				if at[i] != at[i+1] {
					sq = false
				}
			}
			nn = sq
		}
		if nn {
			r := make([]int64, n+1)
			r[i] = 1
			if !addRow(r) {
				return true
			}
		}
	}
	for {
		// pick variable with the smallest number of combinations
		best, bs := -1, int64(1<<60)
		for k := 0; k < n; k++ {
			p, m := int64(0), int64(0)
			for _, r := range rows {
				if r[k] > 0 {
					p++
				} else if r[k] < 0 {
					m++
				}
			}
			if p+m == 0 {
				continue
			}
			if s := p*m*1000 - (p + m); s < bs {
				best, bs = k, s
			}
		}
		if best < 0 {
			return false
		}
		var pos, neg, keep [][]int64
		for _, r := range rows {
			switch v := r[best]; {
			case v > 0:
				pos = append(pos, r)
			case v < 0:
				neg = append(neg, r)
			default:
				keep = append(keep, r)
			}
		}
		if len(keep)+len(pos)*len(neg) > fmLimit {
			return false
		}
		rows = nil
		seen = map[string]int{}
		for _, r := range keep {
			addRow(r)
		}
		for _, p := range pos {
			for _, q := range neg {
				a, b := p[best], -q[best]
				g := gcd64(a, b)
				fa, fb := b/g, a/g
				if abs64(fa) > 1<<30 || abs64(fb) > 1<<30 {
					continue
				}
				ovf := false
				r := make([]int64, n+1)
				for i := range r {
					u, v := p[i], q[i]
					if u != 0 && abs64(u) > (1<<62)/maxi(abs64(fa), 1) || v != 0 && abs64(v) > (1<<62)/maxi(abs64(fb), 1) {
						ovf = true
						break
					}
					r[i] = u*fa + v*fb
				}
				if ovf {
					continue
				}
				if !addRow(r) {
					return true
				}
			}
		}
	}
}

func maxi(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

func itoa(v int64) string { return strconv.FormatInt(v, 10) }

// relevant selects the constraints connected to the given polynomials.
func relevant(cons []Con, goals ...*Poly) []Con {
	at := map[*Term]bool{}
	var addAtom func(t *Term)
	addAtom = func(t *Term) {
		if at[t] {
			return
		}
		at[t] = true
		// quotients bring in their operands
		for _, x := range t.args {
			if x.kind == KPoly {
				x.poly.eachAtom(addAtom)
			} else if isIntTerm(x) {
				addAtom(x)
			}
		}
	}
	fams := map[string]bool{}
	for _, g := range goals {
		g.eachAtom(addAtom)
		for f := range polyFamilies(g) {
			fams[f] = true
		}
	}
	used := make([]bool, len(cons))
	// facts about the elements of a summary hold only if there are elements:
	// they may not be used to derive facts about anything else
	for i, c := range cons {
		for f := range polyFamilies(c.p) {
			if !fams[f] {
				used[i] = true
			}
		}
	}
	var out []Con
	for {
		ch := false
		for i, c := range cons {
			if used[i] {
				continue
			}
			hit := false
			c.p.eachAtom(func(a *Term) {
				if at[a] {
					hit = true
				}
			})
			if hit {
				used[i] = true
				out = append(out, c)
				c.p.eachAtom(addAtom)
				ch = true
			}
		}
		if !ch {
			break
		}
	}
	return out
}

var entailCache = map[string]bool{}

func consKey(cons []Con) string {
	ks := make([]string, len(cons))
	for i, c := range cons {
		ks[i] = c.key()
	}
	sort.Strings(ks)
	s := ""
	for _, k := range ks {
		s += k + ";"
	}
	return s
}

// entails: cons |= c.  With products=true, products of inequalities with
// non-negative atoms are added for nonlinear goals.
func entails(cons []Con, c Con) bool {
	c, triv, contra := c.norm()
	if triv {
		return !c.p.bad
	}
	if contra {
		return infeasible(cons)
	}
	rel := relevant(cons, c.p)
	key := consKey(rel) + "|-" + c.key()
	if r, ok := entailCache[key]; ok {
		return r
	}
	r := entails1(rel, c)
	if !r {
		if pr := withProducts(rel, c.p); len(pr) > len(rel) {
			r = entails1(pr, c)
		}
	}
	entailCache[key] = r
	return r
}

func entails1(rel []Con, c Con) bool {
	neg1 := Con{c.p.scale(-1).add(polyConst(1), -1), false} // -p-1 >= 0
	sys := solved(rel)
	if c.eq {
		neg2 := Con{c.p.add(polyConst(1), -1), false} // p-1>=0
		return sys.excludes(neg1) && sys.excludes(neg2)
	}
	return sys.excludes(neg1)
}

// solvedSys is a system of constraints with its equalities substituted.
type solvedSys struct {
	rest  []Con
	sub   map[*Term]*Poly
	never bool
}

var solvedCache = map[string]*solvedSys{}

func solved(cons []Con) *solvedSys {
	k := consKey(cons)
	if r, ok := solvedCache[k]; ok {
		return r
	}
	r := &solvedSys{}
	var ns []Con
	for _, c := range cons {
		c2, triv, contra := c.norm()
		if contra {
			r.never = true
		}
		if !triv {
			ns = append(ns, c2)
		}
	}
	if !r.never {
		rest, sub, ok := solveEqs(ns, func(*Term) int { return 0 })
		r.rest, r.sub, r.never = append(rest, signs(sub)...), sub, !ok
	}
	solvedCache[k] = r
	return r
}

// excludes: the system has no solution with c.
func (r *solvedSys) excludes(c Con) bool {
	if r.never {
		return true
	}
	c, triv, contra := Con{c.p.subst(func(t *Term) *Poly { return r.sub[t] }), c.eq}.norm()
	if contra {
		return true
	}
	rest := r.rest
	if !triv {
		rest = append(append([]Con(nil), rest...), c)
	}
	return fmInfeasible(rest)
}

// withProducts multiplies inequalities by atoms known to be non negative
// when the product only creates monomials over atom pairs that occur in the
// problem.
func withProducts(cons []Con, goal *Poly) []Con {
	pairs := map[string]bool{}
	note := func(p *Poly) {
		for _, m := range p.terms {
			if len(m.atoms) == 2 {
				pairs[monoKey(m.atoms)] = true
			}
		}
	}
	rest, sub, ok := solveEqs(cons, func(*Term) int { return 0 })
	if !ok {
		return cons
	}
	g := goal.subst(func(t *Term) *Poly { return sub[t] })
	note(g)
	for _, c := range rest {
		note(c.p)
	}
	if len(pairs) == 0 {
		return cons
	}
	facs := map[*Term]*Poly{} // atom -> poly a - lower >= 0
	for _, c := range rest {
		if c.eq {
			continue
		}
		if len(c.p.terms) == 1 && len(c.p.terms[0].atoms) == 1 && c.p.terms[0].coef == 1 {
			a := c.p.terms[0].atoms[0]
			if old, ok := facs[a]; !ok || old.c > c.p.c {
				facs[a] = c.p
			}
		}
	}
	for k := range pairs {
		_ = k
	}
	allAtoms := map[*Term]bool{}
	noteAtoms := func(p *Poly) {
		for _, m := range p.terms {
			if len(m.atoms) >= 2 {
				for _, a := range m.atoms {
					allAtoms[a] = true
				}
			}
		}
	}
	noteAtoms(g)
	for _, c := range rest {
		noteAtoms(c.p)
	}
	out := append([]Con(nil), cons...)
	n := 0
	var keys []*Term
	for a := range allAtoms {
		keys = append(keys, a)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].id < keys[j].id })
	for _, a := range keys {
		f := facs[a]
		if f == nil {
			if !nonNegAtom(a) {
				continue
			}
			f = polyAtom(a)
		}
		for _, c := range rest {
			// only if linear and each product with a is a known pair (or linear)
			good := len(c.p.terms) > 0
			any := false
			for _, m := range c.p.terms {
				if len(m.atoms) != 1 {
					good = false
					break
				}
				pr := []*Term{a, m.atoms[0]}
				sort.Slice(pr, func(i, j int) bool { return pr[i].id < pr[j].id })
				if pairs[monoKey(pr)] {
					any = true
				}
			}
			if !good || !any || n > 40 {
				continue
			}
			n++
			if c.eq {
				out = append(out, Con{c.p.mul(polyAtom(a)), true})
			} else {
				out = append(out, Con{c.p.mul(f), false})
			}
		}
	}
	return out
}

// ---------- projection ----------

// project removes the atoms for which dead() holds.
func project(cons []Con, dead func(*Term) bool) []Con {
	any := false
	deadIn := func(p *Poly) bool {
		r := false
		p.eachAtom(func(t *Term) {
			if dead(t) {
				r = true
			}
		})
		return r
	}
	for _, c := range cons {
		if deadIn(c.p) {
			any = true
			break
		}
	}
	if !any {
		return cons
	}
	// dead summary symbols: forget, never combine
	{
		var keep []Con
		for _, c := range cons {
			drop := false
			if len(polyFamilies(c.p)) > 0 {
				c.p.eachAtom(func(t *Term) {
					if !drop && dead(t) && len(polyFamilies(polyAtom(t))) > 0 {
						drop = true
					}
				})
			}
			if !drop {
				keep = append(keep, c)
			}
		}
		cons = keep
	}
	// equalities first: eliminate dead atoms only
	rest, gone, ok := solveEqs(cons, func(t *Term) int {
		if dead(t) {
			return 1
		}
		return -1
	})
	if !ok {
		return []Con{{polyConst(-1), false}}
	}
	rest = liveSubst(append(rest, signs(gone)...), dead)
	// Fourier-Motzkin on the inequalities for the remaining dead atoms
	for round := 0; round < 60; round++ {
		var d *Term
		best := 1 << 30
		cand := map[*Term]bool{}
		for _, c := range rest {
			c.p.eachAtom(func(t *Term) {
				if dead(t) {
					cand[t] = true
				}
			})
		}
		for t := range cand {
			pos, neg, other := 0, 0, 0
			for _, c := range rest {
				co, nl := coefOf(c.p, t)
				if nl {
					other++
				} else if c.eq && co != 0 {
					pos++
					neg++
				} else if co > 0 {
					pos++
				} else if co < 0 {
					neg++
				}
			}
			sc := pos*neg*10 + other
			if sc < best || (sc == best && (d == nil || t.id < d.id)) {
				best, d = sc, t
			}
		}
		if d == nil {
			break
		}
		var pos, neg, keep []Con
		add := func(c Con) {
			co, nl := coefOf(c.p, d)
			switch {
			case nl: // drop
			case co > 0:
				pos = append(pos, c)
			case co < 0:
				neg = append(neg, c)
			default:
				keep = append(keep, c)
			}
		}
		for _, c := range rest {
			co, nl := coefOf(c.p, d)
			if c.eq && (co != 0 || nl) {
				add(Con{c.p, false})
				add(Con{c.p.scale(-1), false})
			} else {
				add(c)
			}
		}
		if nonNegAtom(d) {
			pos = append(pos, Con{polyAtom(d), false})
		}
		if len(pos)*len(neg) < 120 {
			for _, p := range pos {
				for _, n := range neg {
					a, _ := coefOf(p.p, d)
					b, _ := coefOf(n.p, d)
					b = -b
					g := gcd64(a, b)
					q := p.p.scale(b/g).add(n.p, a/g)
					if len(polyFamilies(q)) == 0 && (len(polyFamilies(p.p)) > 0 || len(polyFamilies(n.p)) > 0) {
						continue
					}
					c, triv, contra := Con{q, false}.norm()
					if contra {
						return []Con{{polyConst(-1), false}}
					}
					if !triv {
						keep = append(keep, c)
					}
				}
			}
		}
		rest = keep
	}
	return dedupeCons(rest)
}

// liveSubst rewrites the products that mention dead atoms with the equalities
// between live ones, so that products which cancel do.
func liveSubst(cons []Con, dead func(*Term) bool) []Con {
	deadProduct := func(p *Poly) bool {
		for _, m := range p.terms {
			if len(m.atoms) < 2 {
				continue
			}
			for _, a := range m.atoms {
				if dead(a) {
					return true
				}
			}
		}
		return false
	}
	var live, prods, others []Con
	for _, c := range cons {
		anyDead := false
		c.p.eachAtom(func(t *Term) {
			if dead(t) {
				anyDead = true
			}
		})
		switch {
		case deadProduct(c.p):
			prods = append(prods, c)
		case c.eq && !anyDead:
			live = append(live, c)
		default:
			others = append(others, c)
		}
	}
	if len(prods) == 0 || len(live) == 0 {
		return cons
	}
	_, sub, ok := solveEqs(live, func(t *Term) int { return 1 })
	if !ok || len(sub) == 0 {
		return cons
	}
	f := func(t *Term) *Poly {
		if p, ok := sub[t]; ok {
			return p
		}
		return nil
	}
	out := append(others, live...)
	for _, c := range prods {
		c2, triv, contra := Con{c.p.subst(f), c.eq}.norm()
		if contra {
			return []Con{{polyConst(-1), false}}
		}
		if !triv {
			out = append(out, c2)
		}
	}
	return out
}

func coefOf(p *Poly, t *Term) (c int64, nonlinear bool) {
	for _, m := range p.terms {
		if len(m.atoms) == 1 {
			if m.atoms[0] == t {
				c = m.coef
			} else if m.atoms[0].contains(t) || termMentions(m.atoms[0], t) {
				nonlinear = true
			}
			continue
		}
		for _, a := range m.atoms {
			if a == t || termMentions(a, t) {
				nonlinear = true
			}
		}
	}
	return
}

func dedupeCons(cons []Con) []Con {
	seen := map[string]bool{}
	var out []Con
	for _, c := range cons {
		c, triv, _ := c.norm()
		if triv {
			continue
		}
		k := c.key()
		if !seen[k] {
			seen[k] = true
			out = append(out, c)
		}
	}
	return out
}

// ---------- affine hull ----------

// affineHull returns the equalities (over monomial columns) that hold on both
// equality systems.
func affineHull(a, b []Con) []Con {
	cols := []string{}
	atoms := map[string][]*Term{}
	idx := map[string]int{}
	note := func(cs []Con) {
		for _, c := range cs {
			if !c.eq {
				continue
			}
			for _, m := range c.p.terms {
				k := monoKey(m.atoms)
				if _, ok := idx[k]; !ok {
					idx[k] = len(cols)
					cols = append(cols, k)
					atoms[k] = m.atoms
				}
			}
		}
	}
	note(a)
	note(b)
	n := len(cols)
	if n == 0 || n > 120 {
		return nil
	}
	mk := func(cs []Con) [][]*big.Rat {
		var rows [][]*big.Rat
		for _, c := range cs {
			if !c.eq || c.p.bad {
				continue
			}
			r := make([]*big.Rat, n+1)
			for i := range r {
				r[i] = new(big.Rat)
			}
			for _, m := range c.p.terms {
				r[idx[monoKey(m.atoms)]].SetInt64(m.coef)
			}
			r[n].SetInt64(-c.p.c) // sum coef*x = -c
			rows = append(rows, r)
		}
		return rows
	}
	pa, da, oka := solveAffine(mk(a), n)
	pb, db, okb := solveAffine(mk(b), n)
	if !oka || !okb {
		return nil
	}
	// directions of the hull
	var dirs [][]*big.Rat
	dirs = append(dirs, da...)
	dirs = append(dirs, db...)
	diff := make([]*big.Rat, n)
	for i := range diff {
		diff[i] = new(big.Rat).Sub(pb[i], pa[i])
	}
	dirs = append(dirs, diff)
	// normals: null space of dirs
	_, normals, _ := solveAffineHom(dirs, n)
	var out []Con
	for _, nv := range normals {
		// nv . x = nv . pa
		rhs := new(big.Rat)
		den := big.NewInt(1)
		for i := range nv {
			rhs.Add(rhs, new(big.Rat).Mul(nv[i], pa[i]))
			den = lcm(den, nv[i].Denom())
		}
		den = lcm(den, rhs.Denom())
		var ms []mono
		ok := true
		get := func(r *big.Rat) int64 {
			x := new(big.Int).Mul(r.Num(), new(big.Int).Div(den, r.Denom()))
			if !x.IsInt64() {
				ok = false
				return 0
			}
			return x.Int64()
		}
		for i := range nv {
			if nv[i].Sign() != 0 {
				ms = append(ms, mono{atoms[cols[i]], get(nv[i])})
			}
		}
		c := -get(rhs)
		if !ok {
			continue
		}
		con, triv, contra := Con{normPoly(c, ms, false), true}.norm()
		if !triv && !contra {
			out = append(out, con)
		}
	}
	return out
}

func lcm(a, b *big.Int) *big.Int {
	g := new(big.Int).GCD(nil, nil, a, b)
	return new(big.Int).Mul(a, new(big.Int).Div(b, g))
}

// rref in place; returns pivot column per row.
func rref(rows [][]*big.Rat, ncol int) ([][]*big.Rat, []int) {
	var piv []int
	r := 0
	for c := 0; c < ncol && r < len(rows); c++ {
		p := -1
		for i := r; i < len(rows); i++ {
			if rows[i][c].Sign() != 0 {
				p = i
				break
			}
		}
		if p < 0 {
			continue
		}
		rows[r], rows[p] = rows[p], rows[r]
		inv := new(big.Rat).Inv(rows[r][c])
		for j := range rows[r] {
			if rows[r][j].Sign() != 0 {
				rows[r][j] = new(big.Rat).Mul(rows[r][j], inv)
			}
		}
		for i := range rows {
			if i != r && rows[i][c].Sign() != 0 {
				f := new(big.Rat).Set(rows[i][c])
				for j := range rows[i] {
					if rows[r][j].Sign() != 0 {
						rows[i][j] = new(big.Rat).Sub(rows[i][j], new(big.Rat).Mul(f, rows[r][j]))
					}
				}
			}
		}
		piv = append(piv, c)
		r++
	}
	return rows[:r], piv
}

// solveAffine: particular solution and null space basis of rows (n vars + rhs).
func solveAffine(rows [][]*big.Rat, n int) (pt []*big.Rat, dirs [][]*big.Rat, ok bool) {
	all := rows
	red, piv := rref(rows, n)
	for _, r := range all[len(red):] {
		if r[n].Sign() != 0 {
			return nil, nil, false
		}
	}
	pt = make([]*big.Rat, n)
	for i := range pt {
		pt[i] = new(big.Rat)
	}
	isP := make([]int, n)
	for i := range isP {
		isP[i] = -1
	}
	for i, c := range piv {
		pt[c] = new(big.Rat).Set(red[i][n])
		isP[c] = i
	}
	for c := 0; c < n; c++ {
		if isP[c] >= 0 {
			continue
		}
		d := make([]*big.Rat, n)
		for i := range d {
			d[i] = new(big.Rat)
		}
		d[c].SetInt64(1)
		for i, pc := range piv {
			d[pc] = new(big.Rat).Neg(red[i][c])
		}
		dirs = append(dirs, d)
	}
	return pt, dirs, true
}

func solveAffineHom(dirs [][]*big.Rat, n int) (pt []*big.Rat, null [][]*big.Rat, ok bool) {
	rows := make([][]*big.Rat, len(dirs))
	for i, d := range dirs {
		rows[i] = make([]*big.Rat, n+1)
		for j := 0; j < n; j++ {
			rows[i][j] = new(big.Rat).Set(d[j])
		}
		rows[i][n] = new(big.Rat)
	}
	return solveAffine(rows, n)
}

func isStringType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// implicitEqs adds the equalities given by pairs of opposite inequalities.
func implicitEqs(cons []Con) []Con {
	for round := 0; round < 3; round++ {
		var plain []Con
		for _, c := range cons {
			if len(polyFamilies(c.p)) == 0 {
				plain = append(plain, c)
			}
		}
		rest, _, ok := solveEqs(plain, func(*Term) int { return 0 })
		if !ok {
			return cons
		}
		seen := map[string]bool{}
		found := false
		for _, c := range rest {
			if c.eq {
				continue
			}
			seen[c.key()] = true
			neg := Con{c.p.scale(-1), false}
			if seen[neg.key()] && len(c.p.terms) > 0 {
				cons = append(cons, Con{c.p, true})
				found = true
			}
		}
		if !found {
			break
		}
	}
	return cons
}

// provesGeProd: a >= b, with products of the known inequalities and of
// non-negative quantities and their pairwise products (up to degree three).
func (s *State) provesGeProd(a, b *Term) bool {
	if s.provesGe(a, b) {
		return true
	}
	goal := asPoly(a).add(asPoly(b), -1)
	var cons []Con
	for _, c := range relevant(s.lin, goal) {
		c2, triv, contra := c.norm()
		if contra {
			return true
		}
		if !triv {
			cons = append(cons, c2)
		}
	}
	rest, sub, ok := solveEqs(cons, func(*Term) int { return 0 })
	if !ok {
		return true
	}
	g := goal.subst(func(t *Term) *Poly { return sub[t] })
	neg := Con{g.scale(-1).add(polyConst(1), -1), false}
	known := map[string][]*Term{}
	note := func(p *Poly) {
		for _, m := range p.terms {
			if len(m.atoms) > 1 {
				known[monoKey(m.atoms)] = m.atoms
			}
		}
	}
	note(g)
	atoms := map[*Term]bool{}
	for _, c := range rest {
		note(c.p)
	}
	for _, m := range known {
		for _, t := range m {
			atoms[t] = true
		}
	}
	// multipliers: atoms and known products of two, all non negative
	nonneg := map[*Term]bool{}
	for t := range atoms {
		if nonNegAtom(t) || entails1(rest, Con{polyAtom(t), false}) {
			nonneg[t] = true
		}
	}
	var mult []*Poly
	for t := range nonneg {
		mult = append(mult, polyAtom(t))
	}
	for _, m := range known {
		if len(m) == 2 && nonneg[m[0]] && nonneg[m[1]] {
			mult = append(mult, polyAtom(m[0]).mul(polyAtom(m[1])))
		}
	}
	sort.Slice(mult, func(i, j int) bool { return mult[i].key() < mult[j].key() })
	all := append([]Con(nil), rest...)
	for _, m := range mult {
		all = append(all, Con{m, false})
		for _, c := range rest {
			p := c.p.mul(m)
			deg := 0
			for _, t := range p.terms {
				if len(t.atoms) > deg {
					deg = len(t.atoms)
				}
			}
			if deg <= 3 && !p.bad {
				all = append(all, Con{p, c.eq})
			}
		}
	}
	all = append(dedupeCons(all), neg)
	// a monomial with one sign only cannot be cancelled: drop its rows
	for {
		pos, ngt := map[string]bool{}, map[string]bool{}
		for _, c := range all {
			for _, m := range c.p.terms {
				k := monoKey(m.atoms)
				if m.coef > 0 || c.eq {
					pos[k] = true
				}
				if m.coef < 0 || c.eq {
					ngt[k] = true
				}
			}
		}
		var out []Con
		for _, c := range all {
			keep := true
			for _, m := range c.p.terms {
				if k := monoKey(m.atoms); !pos[k] || !ngt[k] {
					keep = false
				}
			}
			if keep {
				out = append(out, c)
			}
		}
		if len(out) == len(all) {
			break
		}
		all = out
	}
	return fmInfeasible(all)
}
