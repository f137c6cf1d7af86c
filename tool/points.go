package main

// Point level of the domain.  An abstract curve point is an integer linear
// combination of basis points (operands of the analysed operation, the standard
// base point) whose coefficients are integer polynomials.  Its affine
// coordinates are field variables related by the curve equation.  The contents
// of a point structure are recognised as a representation of such a point by
// checking the defining identities of the complete addition law as polynomial
// identities, and then replaced by a representation with a fresh unit Z.

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type ptKind byte

const (
	ptNone ptKind = 0
	ptExt  ptKind = 'E'
	ptComp ptKind = 'C'
	ptProj ptKind = 'P'
	ptNiel ptKind = 'N'
)

var kindName = map[ptKind]string{ptExt: "ExtendedPoint", ptComp: "CompletedPoint", ptProj: "ProjectivePoint", ptNiel: "NielsPoint"}

// combo is a linear combination of basis points.
type combo struct {
	co map[string]*Poly
}

func newCombo() *combo { return &combo{co: map[string]*Poly{}} }

func basis(name string) *combo { return &combo{co: map[string]*Poly{name: intPoly(1)}} }

func (g *combo) names() []string {
	var r []string
	for n := range g.co {
		r = append(r, n)
	}
	sort.Strings(r)
	return r
}

func (g *combo) key() string {
	var sb strings.Builder
	for _, n := range g.names() {
		fmt.Fprintf(&sb, "%s*(%s)+", n, g.co[n].Key())
	}
	return sb.String()
}

func (g *combo) str(c *Ctx) string {
	if len(g.co) == 0 {
		return "0"
	}
	var l []string
	for _, n := range g.names() {
		if g.co[n].isInt(1) {
			l = append(l, n)
			continue
		}
		l = append(l, fmt.Sprintf("(%s)*%s", c.str(g.co[n]), n))
	}
	return strings.Join(l, " + ")
}

func (g *combo) add(h *combo, k int64) *combo {
	r := newCombo()
	for n, p := range g.co {
		r.co[n] = p
	}
	for n, p := range h.co {
		q := p.ScaleInt(k)
		if o, ok := r.co[n]; ok {
			q = o.Add(q)
		}
		if q.IsZero() {
			delete(r.co, n)
		} else {
			r.co[n] = q
		}
	}
	return r
}

func (g *combo) scale(k int64) *combo { return newCombo().add(g, k) }

func (g *combo) mapCo(f func(*Poly) *Poly) *combo {
	r := newCombo()
	for n, p := range g.co {
		if q := f(p); !q.IsZero() {
			r.co[n] = q
		}
	}
	return r
}

type ptSyms struct{ x, y Sym }

// pointXY returns the affine coordinates of an abstract point.
func (it *Interp) pointXY(g *combo) (x, y *Poly) {
	if len(g.co) == 0 {
		return newPoly(), intPoly(1)
	}
	k := g.key()
	s, ok := it.pts[k]
	if !ok {
		it.npts++
		nm := fmt.Sprintf("pt%d", it.npts)
		if len(g.co) == 1 && g.co[g.names()[0]].isInt(1) {
			nm = g.names()[0]
		}
		s.x = it.c.fvar(Fp, "x("+nm+")", false)
		s.y = it.c.fvar(Fp, "y("+nm+")", false)
		it.c.syms[s.x].curveY = s.y
		it.pts[k] = s
		it.ptOf[s.x], it.ptOf[s.y] = g, g
	}
	return symPoly(s.x), symPoly(s.y)
}

func (it *Interp) freshUnit() *Poly {
	it.npts++
	return symPoly(it.c.fvar(Fp, fmt.Sprintf("Z%d", it.npts), true))
}

// pointKind classifies point structures.
func (it *Interp) pointKind(t types.Type) ptKind {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return ptNone
	}
	is := func(pk *ssa.Package, name string) bool {
		m := pk.Type(name)
		return m != nil && n.Obj() == m.Object()
	}
	switch {
	case is(it.p.ed, "ExtendedPoint"), is(it.p.rist, "Point"):
		return ptExt
	case is(it.p.ed, "CompletedPoint"):
		return ptComp
	case is(it.p.ed, "ProjectivePoint"):
		return ptProj
	case is(it.p.ed, "NielsPoint"):
		return ptNiel
	}
	return ptNone
}

func (k ptKind) leaves() int {
	if k == ptExt || k == ptComp {
		return 4
	}
	return 3
}

// pointOffsets lists the point structures inside a type.
func (it *Interp) pointOffsets(t types.Type) []ptAt {
	if r, ok := it.ptOff[t]; ok {
		return r
	}
	var out []ptAt
	var rec func(t types.Type, off int)
	rec = func(t types.Type, off int) {
		if k := it.pointKind(t); k != ptNone {
			out = append(out, ptAt{k, off})
			return
		}
		switch u := t.Underlying().(type) {
		case *types.Array:
			n := flatSize(u.Elem())
			if _, basic := u.Elem().Underlying().(*types.Basic); basic {
				return
			}
			for i := int64(0); i < u.Len(); i++ {
				rec(u.Elem(), off+int(i)*n)
			}
		case *types.Struct:
			if isBigInt(t) {
				return
			}
			for i := 0; i < u.NumFields(); i++ {
				rec(u.Field(i).Type(), off+fieldOff(u, i))
			}
		}
	}
	rec(t, 0)
	it.ptOff[t] = out
	return out
}

type ptAt struct {
	kind ptKind
	off  int
}

// pointVals are the values of the leaves of a representation of (x, y).
func (it *Interp) pointVals(k ptKind, g *combo) []*Poly {
	c := it.c
	x, y := it.pointXY(g)
	switch k {
	case ptExt:
		z := it.freshUnit()
		return []*Poly{c.Mul(x, z), c.Mul(y, z), z, c.Mul(c.Mul(x, y), z)}
	case ptProj:
		z := it.freshUnit()
		return []*Poly{c.Mul(x, z), c.Mul(y, z), z}
	case ptComp:
		z, t := it.freshUnit(), it.freshUnit()
		return []*Poly{c.Mul(x, z), c.Mul(y, t), z, t}
	default:
		d2 := new(big.Int).Lsh(curveD, 1)
		return []*Poly{y.Add(x), y.Sub(x).Mod(primeP), c.Mul(x, y).Scale(d2).Mod(primeP)}
	}
}

// putPoint stores a representation of g with the given limb bounds.
func (it *Interp) putPoint(st *State, o *Object, off int, k ptKind, g *combo, lims [][]Interval) {
	n := it.p.fe().n
	for i, V := range it.pointVals(k, g) {
		var lim []Interval
		if lims != nil {
			lim = lims[i]
		} else {
			lim = it.p.invariants().whole(kindName[k])[i]
		}
		it.putFE(st, o, off+i*n, "pt", V, lim)
	}
}

// leafGroups returns the groups of limbs that make up the leaves at o+off (nil if not whole groups).
func (it *Interp) leafGroups(cells []Val, off, n int) []*Group {
	w := it.p.fe().n
	var r []*Group
	for i := 0; i < n; i++ {
		var g *Group
		for j := 0; j < w; j++ {
			v, ok := cells[off+i*w+j].(IntV)
			if !ok || len(v.P.terms) != 1 {
				return nil
			}
			for k, co := range v.P.terms {
				fs := parseMono(k)
				if len(fs) != 1 || co.Cmp(bigOne) != 0 || fs[0].e.Cmp(bigOne) != 0 {
					return nil
				}
				si := it.c.syms[fs[0].s]
				if si.kind != kLimb || si.idx != j || (g != nil && si.grp != g) || si.grp.fld != Fp {
					return nil
				}
				g = si.grp
			}
		}
		r = append(r, g)
	}
	return r
}

// normalPoint: the leaf values are already those of a fresh representation.
func (it *Interp) normalPoint(k ptKind, V []*Poly) *combo {
	c := it.c
	unit := func(p *Poly) bool {
		if len(p.terms) != 1 {
			return false
		}
		for m, co := range p.terms {
			fs := parseMono(m)
			return len(fs) == 1 && co.Cmp(bigOne) == 0 && fs[0].e.Cmp(bigOne) == 0 && c.syms[fs[0].s].unit
		}
		return false
	}
	var g *combo
	for s := range V[0].Syms() {
		if h, ok := it.ptOf[s]; ok {
			g = h
		}
	}
	if g == nil {
		if !V[0].IsZero() {
			return nil
		}
		g = newCombo()
	}
	x, y := it.pointXY(g)
	switch k {
	case ptExt, ptProj:
		z := V[2]
		if !unit(z) || !V[0].Equal(c.Mul(x, z)) || !V[1].Equal(c.Mul(y, z)) {
			return nil
		}
		if k == ptExt && !V[3].Equal(c.Mul(c.Mul(x, y), z)) {
			return nil
		}
		return g
	case ptComp:
		if !unit(V[2]) || !unit(V[3]) || V[2].Equal(V[3]) || !V[0].Equal(c.Mul(x, V[2])) || !V[1].Equal(c.Mul(y, V[3])) {
			return nil
		}
		return g
	}
	return nil
}

// recognise finds the abstract point represented by leaf values (nil: none found).
func (it *Interp) recognise(st *State, k ptKind, V []*Poly) *combo {
	it.npRec++
	W := make([]*Poly, len(V))
	for i, v := range V {
		W[i] = it.c.unfold(Fp, v)
	}
	return it.recog(st, k, W, 0)
}

func (it *Interp) recog(st *State, k ptKind, V []*Poly, depth int) *combo {
	c := it.c
	if depth > 6 {
		return nil
	}
	var b Sym
	pts := map[string]*combo{}
	for _, v := range V {
		if len(v.terms) > 3000 {
			return nil
		}
		for s := range v.Syms() {
			si := c.syms[s]
			switch {
			case si.isBool || si.kind == kFloor && si.I.width().Cmp(bigOne) == 0:
				if b == 0 || s < b {
					b = s
				}
			case si.kind == kW || si.kind == kRho:
				return nil
			case si.unit:
			default:
				g, ok := it.ptOf[s]
				if !ok {
					return nil
				}
				pts[g.key()] = g
			}
		}
	}
	if b != 0 {
		return it.recogCases(st, k, V, b, depth)
	}
	if len(pts) > 2 {
		return nil
	}
	var ks []string
	for n := range pts {
		ks = append(ks, n)
	}
	sort.Strings(ks)
	one := intPoly(1)
	type cand struct {
		g              *combo
		xn, xd, yn, yd *Poly
	}
	mul := func(a, b *Poly) *Poly { return c.fmul(Fp, a, b) }
	nf := func(a *Poly) *Poly { return c.curveNF(Fp, a.Mod(primeP)) }
	d := constPoly(curveD)
	var cands []cand
	var kp *Poly
	switch len(ks) {
	case 0:
		cands = append(cands, cand{newCombo(), newPoly(), one, one, one})
		if g, x, y := it.constPoint(k, V); g != nil {
			cands = append(cands, cand{g, constPoly(x), one, constPoly(y), one})
		}
	case 1:
		g := pts[ks[0]]
		x, y := it.pointXY(g)
		xy := mul(x, y)
		kp = mul(mul(xy, xy), d)
		x2, y2 := mul(xy, intPoly(2)), mul(x, x).Add(mul(y, y))
		cands = []cand{
			{g, x, one, y, one},
			{g.scale(-1), x.Neg(), one, y, one},
			{g.scale(2), x2, one.Add(kp), y2, one.Sub(kp)},
			{newCombo(), newPoly(), one, one, one},
			{g.scale(-2), x2.Neg(), one.Add(kp), y2, one.Sub(kp)},
		}
	case 2:
		g, h := pts[ks[0]], pts[ks[1]]
		x1, y1 := it.pointXY(g)
		x2, y2 := it.pointXY(h)
		a, bb, cc, dd := mul(x1, y2), mul(y1, x2), mul(y1, y2), mul(x1, x2)
		kp = mul(mul(a, bb), d)
		sp, sm := a.Add(bb), a.Sub(bb)
		cands = []cand{
			{g.add(h, 1), sp, one.Add(kp), cc.Add(dd), one.Sub(kp)},
			{g.add(h, -1), sm, one.Sub(kp), cc.Sub(dd), one.Add(kp)},
			{h.add(g, -1), sm.Neg(), one.Sub(kp), cc.Sub(dd), one.Add(kp)},
			{g.add(h, 1).scale(-1), sp.Neg(), one.Add(kp), cc.Add(dd), one.Sub(kp)},
		}
	}
	eq := func(a, b *Poly) bool { return nf(a.Sub(b)).IsZero() }
	for _, t := range cands {
		xd, yd := nf(t.xd), nf(t.yd)
		switch k {
		case ptExt, ptProj:
			if !eq(mul(V[0], xd), mul(V[2], t.xn)) || !eq(mul(V[1], yd), mul(V[2], t.yn)) {
				continue
			}
			if k == ptExt && !eq(mul(mul(V[3], xd), yd), mul(mul(V[2], t.xn), t.yn)) {
				continue
			}
			if !it.isUnit(V[2], kp) {
				continue
			}
		case ptComp:
			if !eq(mul(V[0], xd), mul(V[2], t.xn)) || !eq(mul(V[1], yd), mul(V[3], t.yn)) {
				continue
			}
			if !it.isUnit(V[2], kp) || !it.isUnit(V[3], kp) {
				continue
			}
		case ptNiel:
			den := mul(xd, yd)
			X, Y := mul(t.xn, yd), mul(t.yn, xd)
			if !eq(mul(V[0], den), Y.Add(X)) || !eq(mul(V[1], den), Y.Sub(X)) ||
				!eq(mul(V[2], den), mul(mul(t.xn, t.yn), d.ScaleInt(2))) {
				continue
			}
		}
		return t.g
	}
	return nil
}

// isUnit: a polynomial is a constant times units times powers of 1+k and 1-k, which never vanish on the curve.
func (it *Interp) isUnit(P, kp *Poly) bool {
	c := it.c
	P = c.curveNF(Fp, P.Mod(primeP))
	if P.IsZero() {
		return false
	}
	// remove the common unit monomial; it has to be the same in all terms
	var mono string
	first := true
	Q := newPoly()
	for k, co := range P.terms {
		var u, r []factor
		for _, fa := range parseMono(k) {
			if c.syms[fa.s].unit {
				u = append(u, fa)
			} else {
				r = append(r, fa)
			}
		}
		um := monoKey(u)
		if first {
			mono, first = um, false
		} else if um != mono {
			return false
		}
		Q.addTerm(monoKey(r), co)
	}
	if _, ok := Q.IsConst(); ok {
		return true
	}
	if kp == nil {
		return false
	}
	one := intPoly(1)
	a, b := one.Add(kp), one.Sub(kp)
	pa := one
	for i := 0; i <= 2; i++ {
		pb := pa
		for j := 0; j <= 2; j++ {
			N := c.curveNF(Fp, pb.Mod(primeP))
			if len(N.terms) == len(Q.terms) {
				// proportional?
				var ratio *big.Int
				ok := true
				for k, co := range Q.terms {
					n, has := N.terms[k]
					if !has {
						ok = false
						break
					}
					if ratio == nil {
						ratio = new(big.Int).Mul(co, Fp.inv(n))
						ratio.Mod(ratio, primeP)
					}
					e := new(big.Int).Mul(n, ratio)
					if e.Mod(e, primeP).Cmp(co) != 0 {
						ok = false
						break
					}
				}
				if ok && ratio.Sign() != 0 {
					return true
				}
			}
			pb = c.fmul(Fp, pb, b)
		}
		pa = c.fmul(Fp, pa, a)
	}
	return false
}

// recogCases splits on a 0/1 atom (all values of its root at once).
func (it *Interp) recogCases(st *State, k ptKind, V []*Poly, b Sym, depth int) *combo {
	c := it.c
	si := c.syms[b]
	sub := func(m map[Sym]*Poly) *combo {
		W := make([]*Poly, len(V))
		for i, v := range V {
			W[i] = c.unfold(Fp, c.plainSubst(v, m))
		}
		return it.recog(st, k, W, depth+1)
	}
	if si.kind == kInd {
		oh := si.oh
		vals := it.rootVals(st, oh)
		if len(vals) == 0 {
			return nil
		}
		var gs []*combo
		names := map[string]bool{}
		for _, v := range vals {
			m := map[Sym]*Poly{}
			for s := range oh.syms {
				m[s] = intPoly(0)
				if c.syms[s].v == v {
					m[s] = intPoly(1)
				}
			}
			g := sub(m)
			if g == nil {
				return nil
			}
			g = g.mapCo(func(p *Poly) *Poly {
				if _, isC := p.IsConst(); isC {
					return p
				}
				if q, ok := c.substRoot(p, oh.root, v); ok {
					return q
				}
				return p
			})
			gs = append(gs, g)
			for n := range g.co {
				names[n] = true
			}
		}
		r := newCombo()
		for n := range names {
			var co []*Poly
			for _, g := range gs {
				p := g.co[n]
				if p == nil {
					p = newPoly()
				}
				co = append(co, p)
			}
			if p := it.tableAt(st, oh, vals, co); !p.IsZero() {
				r.co[n] = p
			}
		}
		return r
	}
	lo, hi := intPoly(0), intPoly(1)
	if !si.isBool {
		lo, hi = constPoly(si.I.lo), constPoly(si.I.hi)
	}
	g1 := sub(map[Sym]*Poly{b: hi})
	if g1 == nil {
		return nil
	}
	g0 := sub(map[Sym]*Poly{b: lo})
	if g0 == nil {
		return nil
	}
	g1 = g1.mapCo(func(p *Poly) *Poly { return c.plainSubst(p, map[Sym]*Poly{b: hi}) })
	g0 = g0.mapCo(func(p *Poly) *Poly { return c.plainSubst(p, map[Sym]*Poly{b: lo}) })
	return mergeCombo(g1, g0, func(p, q *Poly) *Poly { return c.Mul(symPoly(b).Sub(lo), p.Sub(q)).Add(q) })
}

func mergeCombo(g, h *combo, f func(p, q *Poly) *Poly) *combo {
	r := newCombo()
	names := map[string]bool{}
	for n := range g.co {
		names[n] = true
	}
	for n := range h.co {
		names[n] = true
	}
	for n := range names {
		p, q := g.co[n], h.co[n]
		if p == nil {
			p = newPoly()
		}
		if q == nil {
			q = newPoly()
		}
		v := f(p, q)
		if v == nil {
			return nil
		}
		if !v.IsZero() {
			r.co[n] = v
		}
	}
	return r
}

// tableAt is the polynomial taking value co[i] where the root is vals[i].
func (it *Interp) tableAt(st *State, oh *onehot, vals []int64, co []*Poly) *Poly {
	c := it.c
	if len(vals) == 1 {
		return co[0]
	}
	// affine in a small quantity that is a function of the root?  (first in
	// those the path compared, then in the root itself, then in the others)
	try := func(want func(D *Poly) bool) *Poly {
		seen := map[string]bool{oh.root.Key(): true}
		for _, s := range sortedSyms(oh.root.Syms()) {
		next:
			for _, D := range c.digits[s] {
				if seen[D.Key()] || !want(D) {
					continue
				}
				seen[D.Key()] = true
				var at []int64
				for _, v := range vals {
					x, ok := c.evalAt(D, oh.root, v)
					if !ok || !x.IsInt64() {
						continue next
					}
					at = append(at, x.Int64())
				}
				if r := it.affineIn(D, at, vals, co); r != nil {
					return r
				}
			}
		}
		return nil
	}
	compared := func(D *Poly) bool {
		_, ok := st.facts.lim[D.Sub(constPoly(D.Const())).Key()]
		return ok
	}
	if len(st.facts.lim) > 0 {
		if r := try(compared); r != nil {
			return r
		}
	}
	if r := it.affineIn(oh.root, vals, vals, co); r != nil {
		return r
	}
	if r := try(func(*Poly) bool { return true }); r != nil {
		return r
	}
	if debugging {
		t := ""
		for i := range co {
			t += fmt.Sprintf(" %d:%s", vals[i], c.brief(co[i], 2))
		}
		dbg("TABLE root %s %s", c.brief(oh.root, 4), t)
	}
	r := co[0]
	for i := 1; i < len(vals); i++ {
		r = r.Add(c.Mul(symPoly(c.ind(oh, vals[i])), co[i].Sub(co[0])))
	}
	return r
}

// affineIn: the polynomial q*(D-d0)+c0 taking value co[i] where D is at[i].
func (it *Interp) affineIn(D *Poly, at, vals []int64, co []*Poly) *Poly {
	j := 0
	for j < len(at) && at[j] == at[0] {
		j++
	}
	if j == len(at) {
		return nil
	}
	q, ok := co[j].Sub(co[0]).DivExact(big.NewInt(at[j] - at[0]))
	if !ok {
		return nil
	}
	for i := range at {
		if !co[i].Sub(co[0]).Equal(q.ScaleInt(at[i] - at[0])) {
			return nil
		}
	}
	return it.c.Mul(q, D.AddInt(-at[0])).Add(co[0])
}

// constPoint recognises literal points: small multiples of the base point in the tables.
func (it *Interp) constPoint(k ptKind, V []*Poly) (*combo, *big.Int, *big.Int) {
	var v []*big.Int
	for _, p := range V {
		x, ok := p.IsConst()
		if !ok {
			return nil, nil, nil
		}
		v = append(v, new(big.Int).Mod(x, primeP))
	}
	var x, y *big.Int
	md := func(a *big.Int) *big.Int { return a.Mod(a, primeP) }
	switch k {
	case ptExt, ptProj:
		if v[2].Sign() == 0 {
			return nil, nil, nil
		}
		zi := Fp.inv(v[2])
		x, y = md(new(big.Int).Mul(v[0], zi)), md(new(big.Int).Mul(v[1], zi))
	case ptComp:
		if v[2].Sign() == 0 || v[3].Sign() == 0 {
			return nil, nil, nil
		}
		x, y = md(new(big.Int).Mul(v[0], Fp.inv(v[2]))), md(new(big.Int).Mul(v[1], Fp.inv(v[3])))
	case ptNiel:
		x = md(new(big.Int).Mul(new(big.Int).Sub(v[0], v[1]), Fp.inv2))
		y = md(new(big.Int).Mul(new(big.Int).Add(v[0], v[1]), Fp.inv2))
	}
	D := baseMultiples()
	for _, sg := range []int64{1, -1} {
		xs := x
		if sg < 0 {
			xs = md(new(big.Int).Neg(x))
		}
		if n, ok := D[it.p.baseT][xs.String()+","+y.String()]; ok {
			g := newCombo()
			g.co["B"] = constPoly(n).ScaleInt(sg)
			return g, x, y
		}
	}
	for _, sg := range []int64{1, -1} {
		xs := x
		if sg < 0 {
			xs = md(new(big.Int).Neg(x))
		}
		for t := 0; t < 4; t++ {
			q := torsion(t).add(affine{xs, y})
			if n, ok := D[it.p.baseT][q.x.String()+","+q.y.String()]; ok {
				g := newCombo()
				g.co["B"] = constPoly(n).ScaleInt(sg)
				g.co["T"] = intPoly(int64(-t) * sg)
				return g, x, y
			}
		}
	}
	return nil, nil, nil
}

// ---- calls ---------------------------------------------------------------------------

type ptArg struct {
	i    int
	kind ptKind
	p    PtrV
}

func (it *Interp) pointArgs(fn *ssa.Function, args []Val) []ptArg {
	var r []ptArg
	for i, p := range fn.Params {
		pt, ok := p.Type().Underlying().(*types.Pointer)
		if !ok || i >= len(args) {
			continue
		}
		k := it.pointKind(pt.Elem())
		if k == ptNone {
			continue
		}
		if a, ok := args[i].(PtrV); ok && a.obj != nil && !a.obj.sym {
			r = append(r, ptArg{i, k, a})
		}
	}
	return r
}

// normalise recognises the point at a pointer and gives it a fresh representation.
func (it *Interp) normalise(st *State, k ptKind, p PtrV) (PtrV, *combo) {
	n := it.p.fe().n
	cells := it.block(st, p.obj).cells
	nl := k.leaves()
	if p.off+nl*n > len(cells) {
		return p, nil
	}
	var V []*Poly
	var lims [][]Interval
	if gs := it.leafGroups(cells, p.off, nl); gs != nil {
		for _, g := range gs {
			V = append(V, g.V)
		}
		if g := it.normalPoint(k, V); g != nil {
			return p, g
		}
		V = nil
	}
	for i := 0; i < nl; i++ {
		for j := 0; j < n; j++ {
			if _, ok := cells[p.off+i*n+j].(IntV); !ok {
				return p, nil
			}
		}
	}
	key := ""
	for i := 0; i < nl; i++ {
		v := it.viewLeaf(st, p.obj, p.off+i*n, leafFE)
		if v == nil || v.V == nil {
			return p, nil
		}
		V = append(V, v.V)
		var lim []Interval
		for j := 0; j < n; j++ {
			lim = append(lim, it.bnd(st, it.asInt(it.load1(st, p.obj, p.off+i*n+j))))
		}
		lims = append(lims, lim)
		key += v.V.Key() + ";"
	}
	if it.noPt[key] {
		return p, nil
	}
	g := it.recognise(st, k, V)
	if g == nil {
		if debugging {
			t := ""
			for _, v := range V {
				v = it.c.unfold(Fp, v)
				x := it.c.brief(v, 8)
				for s := range v.Syms() {
					if si := it.c.syms[s]; si.kind == kFloor {
						x += fmt.Sprintf(" %d:%v", s, si.I)
					}
				}
				t += "\n    " + x
			}
			at := ""
			if len(it.stack) > 0 {
				at = it.stack[len(it.stack)-1].String()
			}
			dbg("NOPT in %s: %s+%d kind %c%s", at, p.obj.name, p.off, k, t)
		}
		if len(st.facts.roots) == 0 {
			it.noPt[key] = true
		}
		return p, nil
	}
	if debugging {
		t := ""
		for _, l := range lims {
			t += l[0].String()
		}
		dbg("LIMS %s+%d %s %s", p.obj.name, p.off, t, g.str(it.c))
	}
	if p.obj.ro || p.obj.global {
		it.nobj++
		o := &Object{id: it.nobj, name: p.obj.name, typ: p.obj.typ, n: nl * n, ro: true}
		o.ro = false
		st.mem[o] = &cellBlock{cells: make([]Val, nl*n)}
		st.own[o] = true
		it.putPoint(st, o, 0, k, g, lims)
		o.ro = true
		return PtrV{o, 0}, g
	}
	it.putPoint(st, p.obj, p.off, k, g, lims)
	return p, g
}

func (it *Interp) callPoints(fn *ssa.Function, args, free []Val, st *State, in ssa.Instruction, pa []ptArg) []outcome {
	args = append([]Val(nil), args...)
	for _, a := range pa {
		q, _ := it.normalise(st, a.kind, a.p)
		args[a.i] = q
	}
	outs := it.exec(fn, args, free, st)
	for _, o := range outs {
		for _, a := range pa {
			if !a.p.obj.ro && !a.p.obj.global {
				it.normalise(o.st, a.kind, a.p)
			}
		}
	}
	return outs
}

// joinPoints joins the point structures of an object as points.
func (it *Interp) joinPoints(o *Object, ba, bb, nb *cellBlock, j *joiner) {
	n := it.p.fe().n
	for _, at := range it.pointOffsets(o.typ) {
		nl := at.kind.leaves()
		if at.off+nl*n > len(ba.cells) || at.off+nl*n > len(bb.cells) {
			continue
		}
		same := true
		for i := at.off; i < at.off+nl*n; i++ {
			if ba.cells[i] == nil || bb.cells[i] == nil || !sameVal(ba.cells[i], bb.cells[i]) {
				same = false
				break
			}
		}
		if same {
			continue
		}
		get := func(b *cellBlock) *combo {
			var V []*Poly
			consts := true
			if gs := it.leafGroups(b.cells, at.off, nl); gs != nil {
				consts = false
				for _, g := range gs {
					V = append(V, g.V)
				}
			} else {
				for i := 0; i < nl; i++ {
					P := newPoly()
					for q, w := range it.p.fe().w {
						v, ok := b.cells[at.off+i*n+q].(IntV)
						if !ok {
							return nil
						}
						k, ok := v.P.IsConst()
						if !ok {
							return nil
						}
						P = P.Add(constPoly(new(big.Int).Lsh(k, w)))
					}
					V = append(V, P.Mod(primeP))
				}
			}
			if at.kind == ptNiel || consts {
				return it.recog(&State{facts: &Facts{}}, at.kind, V, 0)
			}
			return it.normalPoint(at.kind, V)
		}
		ga := get(ba)
		gb := get(bb)
		if ga == nil || gb == nil {
			if debugging {
				dbg("PTJ %s+%d unrecognised %v %v", o.name, at.off, ga == nil, gb == nil)
			}
			// not a point on one of the paths: only good for overwriting
			if (ga == nil) != (gb == nil) {
				for i := at.off; i < at.off+nl*n; i++ {
					nb.cells[i] = BotV{"join of a point and something else"}
				}
			}
			continue
		}
		g := mergeCombo(ga, gb, j.poly)
		if g == nil {
			if debugging {
				dbg("PTJ %s+%d %s | %s", o.name, at.off, ga.str(it.c), gb.str(it.c))
			}
			continue
		}
		for i, V := range it.pointVals(at.kind, g) {
			var lim []Interval
			for q := 0; q < n; q++ {
				k := at.off + i*n + q
				lim = append(lim, ivHull(ba.cells[k].(IntV).I, bb.cells[k].(IntV).I))
			}
			gr := it.c.newGroup("ptj", Fp, it.p.fe().w, V, lim, nil)
			for q, s := range gr.limbs {
				nb.cells[at.off+i*n+q] = IntV{symPoly(s), lim[q]}
			}
		}
	}
}

// ---- concrete curve arithmetic (specification of the literal tables) ------------------------

type affine struct{ x, y *big.Int }

func (p affine) add(q affine) affine {
	m := func(a ...*big.Int) *big.Int {
		r := new(big.Int).Set(a[0])
		for _, b := range a[1:] {
			r.Mul(r, b)
			r.Mod(r, primeP)
		}
		return r
	}
	k := m(curveD, p.x, q.x, p.y, q.y)
	xn := new(big.Int).Add(m(p.x, q.y), m(p.y, q.x))
	yn := new(big.Int).Add(m(p.y, q.y), m(p.x, q.x))
	xd := new(big.Int).Add(bigOne, k)
	yd := new(big.Int).Sub(bigOne, k)
	return affine{m(xn.Mod(xn, primeP), Fp.inv(xd)), m(yn.Mod(yn, primeP), Fp.inv(yd.Mod(yd, primeP)))}
}

// basePoint is the point with y = 4/5 and x even.
func basePoint() affine {
	y := new(big.Int).Mul(big.NewInt(4), Fp.inv(big.NewInt(5)))
	y.Mod(y, primeP)
	y2 := new(big.Int).Mul(y, y)
	u := new(big.Int).Sub(y2, bigOne)
	v := new(big.Int).Mul(curveD, y2)
	v.Add(v, bigOne)
	v.Mod(v, primeP)
	u.Mul(u, Fp.inv(v))
	x := new(big.Int).ModSqrt(u.Mod(u, primeP), primeP)
	if x.Bit(0) == 1 {
		x.Sub(primeP, x)
	}
	return affine{x, y}
}

// torsion is t times the point (i,0) of order four.
func torsion(t int) affine {
	switch t & 3 {
	case 1:
		return affine{sqrtM1, new(big.Int)}
	case 2:
		return affine{new(big.Int), new(big.Int).Set(Fp.pm1)}
	case 3:
		return affine{new(big.Int).Sub(primeP, sqrtM1), new(big.Int)}
	}
	return affine{new(big.Int), big.NewInt(1)}
}

var baseMul [4]map[string]*big.Int

// baseMultiples names (v+1)*256^i*(B+T), i < 32, v < 8, by coordinates, for T in the four-torsion.
func baseMultiples() *[4]map[string]*big.Int {
	if baseMul[0] != nil {
		return &baseMul
	}
	for t := 0; t < 4; t++ {
		m := map[string]*big.Int{}
		q := basePoint().add(torsion(t))
		n := big.NewInt(1)
		for i := 0; i < 32; i++ {
			c := q
			for v := int64(1); v <= 8; v++ {
				m[c.x.String()+","+c.y.String()] = new(big.Int).Mul(n, big.NewInt(v))
				c = c.add(q)
			}
			for j := 0; j < 8; j++ {
				q = q.add(q)
			}
			n = new(big.Int).Lsh(n, 8)
		}
		baseMul[t] = m
	}
	return &baseMul
}

// findBase determines which representative of the base element the library uses.
func (b *bench) findBase() {
	p := b.p
	if p.baseKnown {
		return
	}
	p.baseKnown = true
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(undecidedErr); !ok {
				panic(x)
			}
		}
	}()
	fn := p.method(p.rist, "Point", "SetBase")
	st := newState()
	r, _ := b.newPoint(st, "R0", 0)
	pts := b.it.points
	b.it.points = false
	defer func() { b.it.points = pts }()
	for _, o := range b.it.callFn(fn, []Val{r}, nil, st, nil) {
		var v []*big.Int
		for i := 0; i < 4; i++ {
			V, ok := b.it.feValue(o.st, r.obj, i*p.fe().n)
			if !ok {
				return
			}
			x, ok := V.IsConst()
			if !ok {
				return
			}
			v = append(v, x)
		}
		if new(big.Int).Mod(v[2], primeP).Sign() == 0 {
			return
		}
		zi := Fp.inv(v[2])
		x, y := new(big.Int).Mul(v[0], zi), new(big.Int).Mul(v[1], zi)
		x.Mod(x, primeP)
		y.Mod(y, primeP)
		for t := 0; t < 4; t++ {
			q := basePoint().add(torsion(t))
			if q.x.Cmp(x) == 0 && q.y.Cmp(y) == 0 {
				p.baseT = t
			}
		}
	}
}
