package main

// Field level of the domain: values modulo a prime as polynomials in field
// variables.  A stored value is kept folded (a single term whose factors may be
// opaque polynomials W_U); sums are computed unfolded.

import (
	"fmt"
	"math/big"
	"runtime/debug"
	"sort"
)

type Field struct {
	name   string
	mod    *big.Int
	pm1    *big.Int
	rhoExp *big.Int // (7p-11)/8: U^rhoExp is an inverse square root of U up to a fourth root of unity
	inv2   *big.Int
	par    bool // canonical representatives are split into parity and half
}

func mkField(name string, p *big.Int) *Field {
	f := &Field{name: name, mod: p, pm1: new(big.Int).Sub(p, bigOne)}
	e := new(big.Int).Mul(p, big.NewInt(7))
	e.Sub(e, big.NewInt(11))
	f.rhoExp = e.Rsh(e, 3)
	f.inv2 = new(big.Int).Rsh(new(big.Int).Add(p, bigOne), 1)
	return f
}

var (
	primeP = new(big.Int).Sub(pow2(255), big.NewInt(19))
	primeL = func() *big.Int {
		v, _ := new(big.Int).SetString("1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed", 16)
		return v
	}()
	Fp = mkField("p", primeP)
	Fl = mkField("l", primeL)
)

func init() { Fp.par = true }

func (f *Field) normExp(e *big.Int, unit bool) *big.Int {
	if e.Sign() == 0 {
		return e
	}
	if unit {
		return new(big.Int).Mod(e, f.pm1)
	}
	if e.Cmp(f.pm1) <= 0 {
		return e
	}
	r := new(big.Int).Sub(e, bigOne)
	r.Mod(r, f.pm1)
	return r.Add(r, bigOne)
}

func (f *Field) inv(c *big.Int) *big.Int { return new(big.Int).ModInverse(c, f.mod) }

// fvar makes a field variable.
func (c *Ctx) fvar(f *Field, name string, unit bool) Sym {
	return c.keyed("fv:"+f.name+":"+name, func() *symInfo {
		return &symInfo{kind: kFV, name: name, fld: f, unit: unit}
	})
}

func (c *Ctx) wsym(f *Field, U *Poly) Sym {
	return c.keyed("w:"+f.name+":"+U.Key(), func() *symInfo { return &symInfo{kind: kW, fld: f, fp: U} })
}

func (c *Ctx) rhosym(f *Field, U *Poly) Sym {
	return c.keyed("rho:"+f.name+":"+U.Key(), func() *symInfo { return &symInfo{kind: kRho, fld: f, fp: U} })
}

// decompose writes e as a*rhoExp + k modulo p-1 with small a, k.
func (f *Field) decompose(e *big.Int, max int64) (a, k int64, ok bool) {
	if e.IsInt64() && e.Int64() <= max {
		return 0, e.Int64(), true
	}
	if e.BitLen() < 100 {
		return 0, 0, false
	}
	for a = 1; a <= 7; a++ {
		d := new(big.Int).Mul(f.rhoExp, big.NewInt(a))
		d.Sub(e, d)
		d.Mod(d, f.pm1)
		if d.IsInt64() && d.Int64() <= max {
			return a, d.Int64(), true
		}
	}
	return 0, 0, false
}

// hasW reports whether P contains an opaque factor.
func (c *Ctx) hasW(P *Poly) bool {
	for k := range P.terms {
		w := false
		monoSyms(k, func(s Sym) {
			if c.syms[s].kind == kW {
				w = true
			}
		})
		if w {
			return true
		}
	}
	return false
}

const maxTerms = 20000

// unfold expands opaque factors of small exponent.
func (c *Ctx) unfold(f *Field, P *Poly) *Poly {
	P = P.Mod(f.mod)
	for iter := 0; c.hasW(P) && iter < 12; iter++ {
		changed := false
		r := newPoly()
		for k, co := range P.terms {
			var keep []factor
			var t *Poly
			for _, fa := range parseMono(k) {
				si := c.syms[fa.s]
				if si.kind != kW {
					keep = append(keep, fa)
					continue
				}
				a, n, ok := f.decompose(fa.e, 24)
				if !ok {
					keep = append(keep, fa)
					continue
				}
				changed = true
				if t == nil {
					t = intPoly(1)
				}
				for i := int64(0); i < n; i++ {
					t = c.MulM(t, si.fp, f.mod)
					if len(t.terms) > maxTerms {
						dbg("BIG %d terms n=%d %d %s\n%s", len(t.terms), n, len(si.fp.terms), c.str(si.fp), debug.Stack())
						panic(undecided("field polynomial grows too large"))
					}
				}
				if a > 0 {
					q := newPoly()
					q.terms[monoKey([]factor{{c.rhosym(f, si.fp), big.NewInt(a)}})] = bigOne
					t = c.Mul(t, q)
				}
			}
			if t == nil {
				r.addTerm(k, co)
				continue
			}
			sort.Slice(keep, func(i, j int) bool { return keep[i].s < keep[j].s })
			base := newPoly()
			base.terms[monoKey(keep)] = co
			t = c.MulM(base, t, f.mod)
			for k2, c2 := range t.terms {
				r.addTerm(k2, c2)
			}
			if len(r.terms) > maxTerms {
				dbg("BIG %d terms %s\n%s", len(r.terms), c.str(P), debug.Stack())
				panic(undecided("field polynomial grows too large"))
			}
		}
		P = r.Mod(f.mod)
		if !changed {
			break
		}
	}
	return c.curveNF(f, P)
}

// curveNF reduces modulo the curve equations of point variables.
func (c *Ctx) curveNF(f *Field, P *Poly) *Poly {
	for iter := 0; iter < 400; iter++ {
		var hit string
		var xs, ys Sym
		for k := range P.terms {
			fs := parseMono(k)
			for _, a := range fs {
				si := c.syms[a.s]
				if si.curveY == 0 || !a.e.IsInt64() || a.e.Int64() < 2 {
					continue
				}
				for _, b := range fs {
					if b.s == si.curveY && b.e.IsInt64() && b.e.Int64() >= 2 {
						hit, xs, ys = k, a.s, b.s
					}
				}
			}
			if hit != "" {
				break
			}
		}
		if hit == "" {
			return P
		}
		// all terms with x^>=2 y^>=2 in these two variables
		r := newPoly()
		di := f.inv(curveD)
		rel := newPoly() // (y^2 - x^2 - 1)/d
		rel.addTerm(monoKey([]factor{{ys, bigTwo}}), di)
		rel.addTerm(monoKey([]factor{{xs, bigTwo}}), new(big.Int).Sub(f.mod, di))
		rel.addTerm("", new(big.Int).Sub(f.mod, di))
		for k, co := range P.terms {
			fs := parseMono(k)
			ix, iy := -1, -1
			for i, a := range fs {
				if a.s == xs && a.e.IsInt64() && a.e.Int64() >= 2 {
					ix = i
				}
				if a.s == ys && a.e.IsInt64() && a.e.Int64() >= 2 {
					iy = i
				}
			}
			if ix < 0 || iy < 0 {
				r.addTerm(k, co)
				continue
			}
			fs[ix].e = new(big.Int).Sub(fs[ix].e, bigTwo)
			fs[iy].e = new(big.Int).Sub(fs[iy].e, bigTwo)
			base := newPoly()
			base.terms[monoKey(fs)] = co
			t := c.Mul(base, rel)
			for k2, c2 := range t.terms {
				r.addTerm(k2, c2)
			}
		}
		P = r.Mod(f.mod)
	}
	panic(undecided("curve normal form does not terminate"))
}

var curveD = func() *big.Int {
	// -121665/121666
	v := new(big.Int).ModInverse(big.NewInt(121666), primeP)
	v.Mul(v, big.NewInt(-121665))
	return v.Mod(v, primeP)
}()

// sqrt(-1) = 2^((p-1)/4)
var sqrtM1 = new(big.Int).Exp(bigTwo, new(big.Int).Rsh(new(big.Int).Sub(primeP, bigOne), 2), primeP)

// fold rewrites a field polynomial as a single term.
func (c *Ctx) fold(f *Field, P *Poly) *Poly {
	P = P.Mod(f.mod)
	if len(P.terms) > 1 {
		P = c.unfold(f, P)
	}
	if len(P.terms) <= 1 {
		return c.rhoToW(f, P)
	}
	// common monomial
	type mm struct{ e *big.Int }
	var common map[Sym]*big.Int
	ks := make([]string, 0, len(P.terms))
	for k := range P.terms {
		ks = append(ks, k)
		m := map[Sym]*big.Int{}
		for _, fa := range parseMono(k) {
			m[fa.s] = fa.e
		}
		if common == nil {
			common = m
			continue
		}
		for s, e := range common {
			e2, ok := m[s]
			if !ok {
				delete(common, s)
			} else if e2.Cmp(e) < 0 {
				common[s] = e2
			}
		}
	}
	sort.Strings(ks)
	U := P
	mono := intPoly(1)
	if len(common) > 0 {
		U = newPoly()
		for k, co := range P.terms {
			var fs []factor
			for _, fa := range parseMono(k) {
				e := fa.e
				if ce, ok := common[fa.s]; ok {
					if c.syms[fa.s].isBool {
						continue
					}
					e = new(big.Int).Sub(e, ce)
				}
				fs = append(fs, factor{fa.s, e})
			}
			U.addTerm(monoKey(fs), co)
		}
		var fs []factor
		for s, e := range common {
			fs = append(fs, factor{s, e})
		}
		sort.Slice(fs, func(i, j int) bool { return fs[i].s < fs[j].s })
		mono = newPoly()
		mono.terms[monoKey(fs)] = bigOne
		ks = ks[:0]
		for k := range U.terms {
			ks = append(ks, k)
		}
		sort.Strings(ks)
	}
	lead := U.terms[ks[len(ks)-1]]
	U = U.Scale(f.inv(lead)).Mod(f.mod)
	r := c.Mul(mono, symPoly(c.wsym(f, U))).Scale(lead)
	return c.rhoToW(f, r)
}

func (c *Ctx) rhoToW(f *Field, P *Poly) *Poly {
	for k, co := range P.terms {
		has := false
		fs := parseMono(k)
		for _, fa := range fs {
			if c.syms[fa.s].kind == kRho {
				has = true
			}
		}
		if !has {
			return P
		}
		r := constPoly(co)
		for _, fa := range fs {
			q := newPoly()
			if si := c.syms[fa.s]; si.kind == kRho {
				e := new(big.Int).Mul(fa.e, f.rhoExp)
				q.terms[monoKey([]factor{{c.wsym(f, si.fp), f.normExp(e, false)}})] = bigOne
			} else {
				q.terms[monoKey([]factor{fa})] = bigOne
			}
			r = c.Mul(r, q)
		}
		return r.Mod(f.mod)
	}
	return P
}

// fpow raises a field value to a power; the result is folded.
func (c *Ctx) fpow(f *Field, A *Poly, e *big.Int) *Poly {
	A = c.fold(f, A)
	if e.Sign() == 0 {
		return intPoly(1)
	}
	for k, co := range A.terms {
		var fs []factor
		for _, fa := range parseMono(k) {
			si := c.syms[fa.s]
			if si.isBool {
				fs = append(fs, fa)
				continue
			}
			ne := new(big.Int).Mul(fa.e, e)
			if ne.BitLen() > 200 {
				ne = f.normExp(ne, si.unit)
			}
			fs = append(fs, factor{fa.s, ne})
		}
		r := newPoly()
		cc := new(big.Int).Exp(co, e, f.mod)
		if cc.Sign() != 0 {
			r.terms[monoKey(fs)] = cc
		}
		return r
	}
	return newPoly()
}

func (c *Ctx) fmul(f *Field, a, b *Poly) *Poly { return c.MulM(a, b, f.mod) }

// firstBool returns a 0/1 atom on which a field polynomial depends (0: none).
func (c *Ctx) firstBool(P *Poly, seen map[Sym]bool) Sym {
	var best Sym
	for _, s := range sortedSyms(P.Syms()) {
		if seen[s] {
			continue
		}
		seen[s] = true
		si := c.syms[s]
		var b Sym
		if si.isBool {
			b = s
		} else if si.kind == kW || si.kind == kRho {
			b = c.firstBool(si.fp, seen)
		}
		if b != 0 && (best == 0 || b < best) {
			best = b
		}
	}
	return best
}

// fcof substitutes a 0/1 atom in a field polynomial.
func (c *Ctx) fcof(f *Field, P *Poly, b Sym, v int64) *Poly {
	return c.fold(f, c.cofactor(P, b, v))
}

// izF returns the 0/1 polynomial [A == 0 in f].
func (c *Ctx) izF(f *Field, A *Poly) *Poly {
	A = c.fold(f, A)
	if A.IsZero() {
		return intPoly(1)
	}
	if c.orc != nil && f == Fp && c.firstBool(A, map[Sym]bool{}) == 0 {
		if c.orc.isZero(A) {
			return intPoly(1)
		}
		return intPoly(0)
	}
	nz := intPoly(1)
	for k := range A.terms {
		for _, fa := range parseMono(k) {
			si := c.syms[fa.s]
			switch {
			case si.isBool:
				nz = c.Mul(nz, symPoly(fa.s))
			case si.unit:
			case si.kind == kW || si.kind == kRho:
				nz = c.Mul(nz, intPoly(1).Sub(c.izU(f, si.fp)))
			case c.orc != nil && f == Fp:
				nz = c.Mul(nz, intPoly(1).Sub(c.izF(f, symPoly(fa.s))))
			default:
				nz = c.Mul(nz, intPoly(1).Sub(c.izAtom(f, symPoly(fa.s))))
			}
		}
	}
	return intPoly(1).Sub(nz)
}

func (c *Ctx) izU(f *Field, U *Poly) *Poly {
	if b := c.firstBool(U, map[Sym]bool{}); b != 0 {
		f1 := c.izF(f, c.fcof(f, U, b, 1))
		f0 := c.izF(f, c.fcof(f, U, b, 0))
		return c.ite(b, f1, f0)
	}
	n := c.unfold(f, U)
	if len(n.terms) <= 1 || c.fold(f, n).Key() != symPoly(c.wsym(f, U)).Key() {
		return c.izF(f, n)
	}
	if c.nonzero[f.name+U.Key()] {
		return intPoly(0)
	}
	return c.izAtom(f, U)
}

func (c *Ctx) izAtom(f *Field, U *Poly) *Poly {
	// value of an integer known to lie in [0, mod)
	s := c.keyed("izf:"+f.name+":"+U.Key(), func() *symInfo {
		return &symInfo{kind: kIzF, fld: f, fp: U, isBool: true, I: iv64(0, 1)}
	})
	if si := c.syms[s]; si.oh == nil {
		// the same expression cannot equal two different constants
		k := "izf:" + f.name + ":" + U.Sub(constPoly(U.Const())).Key()
		oh := c.ohs[k]
		if oh == nil {
			oh = &onehot{key: k, syms: map[Sym]bool{}}
			c.ohs[k] = oh
		}
		oh.syms[s] = true
		si.oh = oh
	}
	return symPoly(s)
}

// canonRep returns (neg, h) with 2h+neg the representative of A in [0, mod).
func (c *Ctx) canonRep(f *Field, A *Poly) (neg, h *Poly) {
	if !f.par {
		panic(undecided("parity of a representative modulo %s", f.name))
	}
	if c.orc != nil && c.firstBool(A, map[Sym]bool{}) == 0 {
		n, h := c.orc.sign(A)
		return intPoly(n), h
	}
	A = c.unfold(f, A)
	if v, ok := A.IsConst(); ok {
		v = new(big.Int).Mod(v, f.mod)
		return constPoly(big.NewInt(int64(v.Bit(0)))), constPoly(new(big.Int).Rsh(v, 1))
	}
	if b := c.firstBool(A, map[Sym]bool{}); b != 0 {
		n1, h1 := c.canonRep(f, c.fcof(f, A, b, 1))
		n0, h0 := c.canonRep(f, c.fcof(f, A, b, 0))
		return c.ite(b, n1, n0), c.ite(b, h1, h0)
	}
	ks := make([]string, 0, len(A.terms))
	for k := range A.terms {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	if new(big.Int).Lsh(A.terms[ks[len(ks)-1]], 1).Cmp(f.mod) > 0 {
		B := A.Neg().Mod(f.mod)
		n, hh := c.canonAtoms(f, B)
		nz := intPoly(1).Sub(c.izF(f, B))
		return nz.Sub(n), nz.Scale(new(big.Int).Rsh(f.pm1, 1)).Sub(hh)
	}
	return c.canonAtoms(f, A)
}

func (c *Ctx) canonAtoms(f *Field, A *Poly) (neg, h *Poly) {
	ns := c.keyed("neg:"+f.name+":"+A.Key(), func() *symInfo {
		return &symInfo{kind: kNeg, fld: f, fp: A, isBool: true, I: iv64(0, 1)}
	})
	hs := c.keyed("half:"+f.name+":"+A.Key(), func() *symInfo {
		return &symInfo{kind: kH, fld: f, fp: A, I: iv(bigZero, new(big.Int).Rsh(f.pm1, 1))}
	})
	n, hp := symPoly(ns), symPoly(hs)
	c.setBound(hp.ScaleInt(2).Add(n), iv(bigZero, f.pm1))
	return n, hp
}

// canon returns the representative of A in [0, mod) as an integer polynomial.
func (c *Ctx) canon(f *Field, A *Poly) *Poly {
	if !f.par {
		return c.canonWhole(f, A)
	}
	n, h := c.canonRep(f, A)
	r := h.ScaleInt(2).Add(n)
	c.setBound(r, iv(bigZero, f.pm1))
	return r
}

// canonWhole is canon for fields whose representatives are single symbols.
func (c *Ctx) canonWhole(f *Field, A *Poly) *Poly {
	A = c.unfold(f, A)
	if v, ok := A.IsConst(); ok {
		return constPoly(new(big.Int).Mod(v, f.mod))
	}
	if b := c.firstBool(A, map[Sym]bool{}); b != 0 {
		h1 := c.canonWhole(f, c.fcof(f, A, b, 1))
		h0 := c.canonWhole(f, c.fcof(f, A, b, 0))
		r := c.ite(b, h1, h0)
		c.setBound(r, iv(bigZero, f.pm1))
		return r
	}
	ks := make([]string, 0, len(A.terms))
	for k := range A.terms {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	at := func(B *Poly) *Poly {
		return symPoly(c.keyed("half:"+f.name+":"+B.Key(), func() *symInfo {
			return &symInfo{kind: kH, fld: f, fp: B, I: iv(bigZero, f.pm1)}
		}))
	}
	if new(big.Int).Lsh(A.terms[ks[len(ks)-1]], 1).Cmp(f.mod) > 0 {
		B := A.Neg().Mod(f.mod)
		nz := intPoly(1).Sub(c.izF(f, B))
		r := nz.Scale(f.mod).Sub(at(B))
		c.setBound(r, iv(bigZero, f.pm1))
		return r
	}
	return at(A)
}

// asCanon recognises 2h(A)+neg(A).
func (c *Ctx) asCanon(P *Poly) (*Field, *Poly) {
	for s := range P.Syms() {
		si := c.syms[s]
		if si.kind == kH {
			for _, A := range []*Poly{si.fp, si.fp.Neg().Mod(si.fld.mod)} {
				if c.canon(si.fld, A).Equal(P) {
					return si.fld, A
				}
			}
		}
	}
	return nil, nil
}

// asCanonDiff views P as the difference, up to sign, of two canonical representatives
// (or of one and a constant in its range), and returns the difference of the values.
func (c *Ctx) asCanonDiff(P *Poly) (*Field, *Poly) {
	var hs []*symInfo
	for _, s := range sortedSyms(P.Syms()) {
		if c.syms[s].kind == kH {
			hs = append(hs, c.syms[s])
		}
	}
	if len(hs) == 0 || len(hs) > 2 {
		return nil, nil
	}
	f := hs[0].fld
	for _, A := range []*Poly{hs[0].fp, hs[0].fp.Neg().Mod(f.mod)} {
		CA := c.canon(f, A)
		if len(hs) == 1 {
			for _, d := range []*Poly{CA.Sub(P), CA.Add(P)} {
				if k, ok := d.IsConst(); ok && k.Sign() >= 0 && k.Cmp(f.mod) < 0 {
					return f, A.Sub(constPoly(k))
				}
			}
			continue
		}
		if hs[1].fld != f {
			return nil, nil
		}
		for _, B := range []*Poly{hs[1].fp, hs[1].fp.Neg().Mod(f.mod)} {
			D := CA.Sub(c.canon(f, B))
			if D.Equal(P) || D.Neg().Equal(P) {
				return f, A.Sub(B)
			}
		}
	}
	return nil, nil
}

// toField maps an integer polynomial to the field: h symbols become values.
func (c *Ctx) toField(f *Field, P *Poly) *Poly {
	m := map[Sym]*Poly{}
	for s := range P.Syms() {
		si := c.syms[s]
		if si.kind == kH && si.fld == f {
			if !f.par {
				m[s] = si.fp
				continue
			}
			m[s] = si.fp.Sub(c.negOf(si)).Scale(f.inv2)
		}
	}
	if len(m) > 0 {
		P = c.plainSubst(P, m)
	}
	return P.Mod(f.mod)
}

func (c *Ctx) negOf(si *symInfo) *Poly {
	if c.orc != nil {
		n, _ := c.orc.sign(si.fp)
		return intPoly(n)
	}
	return symPoly(c.negSymOf(si))
}

func (c *Ctx) negSymOf(si *symInfo) Sym {
	return c.keyed("neg:"+si.fld.name+":"+si.fp.Key(), func() *symInfo {
		return &symInfo{kind: kNeg, fld: si.fld, fp: si.fp, isBool: true, I: iv64(0, 1)}
	})
}

// feq decides equality of two field values (true only if proved).
func (c *Ctx) feq(f *Field, a, b *Poly) bool {
	if a.Equal(b) {
		return true
	}
	return c.unfold(f, a.Sub(b)).IsZero()
}

// ---- groups -----------------------------------------------------------------

// A Group is a vector of limbs known only through the bounds of each limb and
// the value of their weighted sum modulo the field.
type Group struct {
	name  string
	fld   *Field
	w     []uint
	limbs []Sym
	V     *Poly
	sumI  *Interval
	sp    *Poly
}

func (g *Group) sum() *Poly {
	if g.sp == nil {
		r := newPoly()
		for i, s := range g.limbs {
			r.addTerm(symKey(s), pow2(g.w[i]))
		}
		g.sp = r
	}
	return g.sp
}

func (g *Group) canonical() bool { return false }

func (c *Ctx) newGroup(name string, f *Field, w []uint, V *Poly, Is []Interval, sumI *Interval) *Group {
	g := &Group{name: fmt.Sprintf("%s#%d", name, len(c.groups)), fld: f, w: w, V: V, sumI: sumI}
	for i := range w {
		g.limbs = append(g.limbs, c.newSym(&symInfo{kind: kLimb, grp: g, idx: i, I: Is[i]}))
	}
	c.groups = append(c.groups, g)
	return g
}

// dependsOnLimb reports whether P depends, through definitions, on limbs.
func (c *Ctx) dependsOnLimb(P *Poly) bool {
	for s := range P.Syms() {
		if c.symLimb(s) {
			return true
		}
	}
	return false
}

func (c *Ctx) symLimb(s Sym) bool {
	si := c.syms[s]
	if si.limbDep != 0 {
		return si.limbDep == 2
	}
	r := false
	switch si.kind {
	case kLimb:
		r = si.grp.fld != nil
	case kFloor, kIz:
		r = c.dependsOnLimb(si.m)
	case kInd:
		r = c.dependsOnLimb(si.oh.root)
	case kXor, kOp:
		for _, a := range si.args {
			r = r || c.dependsOnLimb(a)
		}
	case kOr:
		for _, a := range si.parts {
			r = r || c.dependsOnLimb(a.p)
		}
	case kIzF, kNeg, kH, kW, kRho:
		r = c.dependsOnLimb(si.fp)
	}
	si.limbDep = 1
	if r {
		si.limbDep = 2
	}
	return r
}

// close expresses the weighted sum of cells modulo f, without limbs.
func (c *Ctx) closeSum(f *Field, sum *Poly) (*Poly, bool) {
	R := sum.Mod(f.mod)
	for iter := 0; iter < 6; iter++ {
		m := map[Sym]*Poly{}
		limbs := false
		for s := range R.Syms() {
			si := c.syms[s]
			if si.kind == kLimb && si.grp.fld != nil {
				limbs = true
				if si.idx == 0 && si.grp.fld == f {
					g := si.grp
					rest := g.sum().Sub(symPoly(s))
					if g.w[0] != 0 {
						return nil, false
					}
					m[s] = g.V.Sub(rest)
				}
			}
		}
		if !limbs {
			break
		}
		if len(m) == 0 {
			return nil, false
		}
		R = c.plainSubst(R, m).Mod(f.mod)
	}
	if c.dependsOnLimb(R) {
		return nil, false
	}
	R = c.toField(f, R)
	return c.fold(f, R), true
}
