package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type symKind uint8

const (
	kIn    symKind = iota // integer input
	kFloor                // floor(m / 2^k)
	kLimb                 // limb of a Group
	kIz                   // [m == 0] over the integers
	kInd                  // [root == v], one-hot per root
	kOr                   // bitwise or of shifted words
	kXor                  // bitwise xor of words
	kOp                   // opaque canonical operation
	kFV                   // field variable
	kIzF                  // [fp == 0] in the field
	kNeg                  // parity of the canonical representative of fp
	kH                    // floor(canonical representative of fp / 2)
	kW                    // the field polynomial fp as an opaque factor
	kRho                  // fp^rhoExp (inverse square root candidate)
	kCell                 // joined memory cell
)

type Interval struct{ lo, hi *big.Int }

func iv(lo, hi *big.Int) Interval { return Interval{lo, hi} }
func iv64(lo, hi int64) Interval  { return Interval{big.NewInt(lo), big.NewInt(hi)} }
func ivPoint(c *big.Int) Interval { return Interval{c, c} }
func (a Interval) isPoint() bool  { return a.lo.Cmp(a.hi) == 0 }
func (a Interval) within(b Interval) bool {
	return a.lo.Cmp(b.lo) >= 0 && a.hi.Cmp(b.hi) <= 0
}
func (a Interval) empty() bool { return a.lo.Cmp(a.hi) > 0 }
func (a Interval) String() string {
	return fmt.Sprintf("[%s, %s]", shortBig(a.lo), shortBig(a.hi))
}
func (a Interval) width() *big.Int { return new(big.Int).Sub(a.hi, a.lo) }
func (a Interval) contains(c *big.Int) bool {
	return a.lo.Cmp(c) <= 0 && c.Cmp(a.hi) <= 0
}

func shortBig(b *big.Int) string {
	s := b.String()
	if len(s) > 24 {
		bl := b.BitLen()
		d := new(big.Int).Sub(new(big.Int).Abs(b), pow2(uint(bl-1)))
		sg := ""
		if b.Sign() < 0 {
			sg = "-"
		}
		if d.BitLen() < 20 {
			return fmt.Sprintf("%s(2^%d+%s)", sg, bl-1, d)
		}
		d.Sub(pow2(uint(bl)), new(big.Int).Abs(b))
		if d.BitLen() < 20 {
			return fmt.Sprintf("%s(2^%d-%s)", sg, bl, d)
		}
		return fmt.Sprintf("%s~2^%d", sg, bl)
	}
	return s
}

func ivAdd(a, b Interval) Interval {
	return Interval{new(big.Int).Add(a.lo, b.lo), new(big.Int).Add(a.hi, b.hi)}
}
func ivNeg(a Interval) Interval {
	return Interval{new(big.Int).Neg(a.hi), new(big.Int).Neg(a.lo)}
}
func ivSub(a, b Interval) Interval { return ivAdd(a, ivNeg(b)) }
func ivMul(a, b Interval) Interval {
	x := []*big.Int{new(big.Int).Mul(a.lo, b.lo), new(big.Int).Mul(a.lo, b.hi), new(big.Int).Mul(a.hi, b.lo), new(big.Int).Mul(a.hi, b.hi)}
	lo, hi := x[0], x[0]
	for _, v := range x[1:] {
		if v.Cmp(lo) < 0 {
			lo = v
		}
		if v.Cmp(hi) > 0 {
			hi = v
		}
	}
	return Interval{lo, hi}
}
func ivScale(a Interval, c *big.Int) Interval { return ivMul(a, ivPoint(c)) }
func ivMeet(a, b Interval) Interval {
	r := a
	if b.lo.Cmp(r.lo) > 0 {
		r.lo = b.lo
	}
	if b.hi.Cmp(r.hi) < 0 {
		r.hi = b.hi
	}
	return r
}
func ivHull(a, b Interval) Interval {
	r := a
	if b.lo.Cmp(r.lo) < 0 {
		r.lo = b.lo
	}
	if b.hi.Cmp(r.hi) > 0 {
		r.hi = b.hi
	}
	return r
}
func ivShr(a Interval, k uint) Interval {
	return Interval{new(big.Int).Rsh(a.lo, k), new(big.Int).Rsh(a.hi, k)}
}

type onehot struct {
	key  string
	syms map[Sym]bool
	root *Poly // for kInd
	rlo  int64
	rhi  int64
}

type symInfo struct {
	kind   symKind
	name   string
	I      Interval
	isBool bool
	oh     *onehot
	// kFloor: m, k.  kIz: m.
	m *Poly
	k uint
	// kLimb
	grp *Group
	idx int
	// kInd
	v int64
	// kOr/kXor/kOp
	parts []orPart
	args  []*Poly
	op    string
	// field-level
	fp   *Poly
	fld  *Field
	unit bool
	// kFV: the y coordinate belonging to an x coordinate of a curve point
	curveY  Sym
	limbDep uint8
	vals    []int64
	// kOr: width in bits of the words
	w uint
}

type orPart struct {
	p  *Poly
	sh uint
}

// Ctx owns the symbols of one abstract interpretation.
type Ctx struct {
	defs    map[Sym]*Poly // abbreviations
	syms    []*symInfo
	byKey   map[string]Sym
	pb      map[string]Interval // best unconditional interval known for a polynomial
	bmemo   map[string]Interval
	ohs     map[string]*onehot
	stats   struct{ floors, splits, bounds int }
	groups  []*Group
	nonzero map[string]bool
	orc     *oracle         // decisions of the case under analysis
	digits  map[Sym][]*Poly // small quantities used by bit operations, by the symbols in them
	rounds  map[Sym]*Poly
	cmps    map[string]*Poly // [d < 0] by its polynomial
	eqs     map[string]*Poly // [d = 0] by its polynomial
	digSeen map[string]bool
	evals   map[evalKey]*big.Int
}

// digit notes a small quantity that bit operations are applied to.
func (c *Ctx) digit(P *Poly) {
	if len(P.terms) < 2 || len(P.terms) > 8 {
		return
	}
	k := P.Key()
	if c.digSeen[k] {
		return
	}
	c.digSeen[k] = true
	I, ok := c.tryBound(P)
	if !ok {
		return
	}
	if w := I.width(); !w.IsInt64() || w.Int64() > maxRoot || w.Int64() < 2 {
		return
	}
	for s := range P.Syms() {
		c.digits[s] = append(c.digits[s], P)
	}
}

func newCtx() *Ctx {
	c := &Ctx{byKey: map[string]Sym{}, pb: map[string]Interval{}, bmemo: map[string]Interval{}, ohs: map[string]*onehot{}, nonzero: map[string]bool{}, digits: map[Sym][]*Poly{}, digSeen: map[string]bool{}, evals: map[evalKey]*big.Int{}}
	c.syms = append(c.syms, &symInfo{name: "?"})
	return c
}

func (c *Ctx) info(s Sym) *symInfo { return c.syms[s] }

func (c *Ctx) newSym(si *symInfo) Sym {
	c.syms = append(c.syms, si)
	return Sym(len(c.syms) - 1)
}

func (c *Ctx) keyed(key string, mk func() *symInfo) Sym {
	if s, ok := c.byKey[key]; ok {
		return s
	}
	s := c.newSym(mk())
	c.byKey[key] = s
	return s
}

func (c *Ctx) input(name string, I Interval) Sym {
	return c.keyed("in:"+name, func() *symInfo { return &symInfo{kind: kIn, name: name, I: I} })
}

func (c *Ctx) boolInput(name string) Sym {
	return c.keyed("inb:"+name, func() *symInfo { return &symInfo{kind: kIn, name: name, I: iv64(0, 1), isBool: true} })
}

// ---- multiplication -------------------------------------------------------

// special reports whether a monomial needs the slow path of mulMono.
func (c *Ctx) mulMono(a, b string) (string, *Poly) {
	if a == "" {
		return b, nil
	}
	if b == "" {
		return a, nil
	}
	fa, fb := parseMono(a), parseMono(b)
	out := make([]factor, 0, len(fa)+len(fb))
	i, j := 0, 0
	for i < len(fa) || j < len(fb) {
		switch {
		case j == len(fb) || (i < len(fa) && fa[i].s < fb[j].s):
			out = append(out, fa[i])
			i++
		case i == len(fa) || fb[j].s < fa[i].s:
			out = append(out, fb[j])
			j++
		default:
			si := c.syms[fa[i].s]
			if si.isBool {
				out = append(out, factor{fa[i].s, bigOne})
			} else {
				e := new(big.Int).Add(fa[i].e, fb[j].e)
				if si.fld != nil && e.BitLen() > 200 {
					e = si.fld.normExp(e, si.unit)
				}
				if e.Sign() != 0 {
					out = append(out, factor{fa[i].s, e})
				}
			}
			i++
			j++
		}
	}
	// one-hot groups and annihilation
	for x := 0; x < len(out); x++ {
		sx := c.syms[out[x].s]
		if sx.oh != nil {
			for y := x + 1; y < len(out); y++ {
				if c.syms[out[y].s].oh == sx.oh {
					return "", newPoly()
				}
			}
		}
		if sx.kind == kIzF {
			for y := range out {
				sy := c.syms[out[y].s]
				if (sy.kind == kNeg || sy.kind == kH) && sy.fld == sx.fld && c.zeroWith(sx.fp, sy.fp) {
					return "", newPoly()
				}
			}
		}
	}
	return monoKey(out), nil
}

// zeroWith: A is zero whenever the atom U is.
func (c *Ctx) zeroWith(U, A *Poly) bool {
	if U.Key() == A.Key() {
		return true
	}
	v := Sym(0)
	if len(U.terms) == 1 {
		for k, co := range U.terms {
			fs := parseMono(k)
			if len(fs) != 1 || co.Cmp(bigOne) != 0 || fs[0].e.Cmp(bigOne) != 0 {
				return false
			}
			v = fs[0].s
		}
	} else {
		for s := range A.Syms() {
			if si := c.syms[s]; si.kind == kW && si.fp.Key() == U.Key() {
				v = s
			}
		}
	}
	if v == 0 || A.IsZero() {
		return false
	}
	for k := range A.terms {
		if !monoHas(k, v) {
			return false
		}
	}
	return true
}

func (c *Ctx) Mul(p, q *Poly) *Poly {
	if k, ok := p.IsConst(); ok {
		return q.Scale(k)
	}
	if k, ok := q.IsConst(); ok {
		return p.Scale(k)
	}
	r := newPoly()
	for ka, ca := range p.terms {
		for kb, cb := range q.terms {
			k, ex := c.mulMono(ka, kb)
			cc := new(big.Int).Mul(ca, cb)
			if ex == nil {
				r.addTerm(k, cc)
			} else {
				for ke, ce := range ex.terms {
					r.addTerm(ke, new(big.Int).Mul(cc, ce))
				}
			}
		}
	}
	return r
}

// MulM multiplies modulo m.
func (c *Ctx) MulM(p, q *Poly, m *big.Int) *Poly { return c.Mul(p, q).Mod(m) }

// ---- substitution ---------------------------------------------------------

// subst replaces symbols by polynomials, rebuilding derived symbols.
type substitution struct {
	c    *Ctx
	m    map[Sym]*Poly
	memo map[Sym]*Poly // nil entry: unchanged
	mod  *big.Int
	look func(Sym) *Poly
}

func (c *Ctx) newSubst(m map[Sym]*Poly) *substitution {
	return &substitution{c: c, m: m, memo: map[Sym]*Poly{}}
}

func (s *substitution) sym(x Sym) *Poly { // nil: unchanged
	if p, ok := s.m[x]; ok {
		return p
	}
	if p, ok := s.memo[x]; ok {
		return p
	}
	s.memo[x] = nil
	if s.look != nil {
		if p := s.look(x); p != nil {
			s.memo[x] = p
			return p
		}
	}
	c := s.c
	si := c.syms[x]
	var r *Poly
	switch si.kind {
	case kFV:
		if d := c.defs[x]; d != nil {
			if m, ch := s.apply2(d); ch {
				r = c.named(si.fld, m)
			}
		}
	case kFloor:
		if m, ch := s.apply2(si.m); ch {
			r = c.floorPoly(m, si.k, nil)
		}
	case kIz:
		if m, ch := s.apply2(si.m); ch {
			r = c.izInt(m)
		}
	case kInd:
		if m, ch := s.apply2(si.oh.root); ch {
			r = c.indOf(m, si.v)
		}
	case kXor:
		ch := false
		var acc *Poly
		for _, a := range si.args {
			b, h := s.apply2(a)
			ch = ch || h
			if acc == nil {
				acc = b
			} else {
				acc = c.xorPoly(acc, b, si.w)
			}
		}
		if ch {
			r = acc
		}
	case kOr:
		ch := false
		var ps []orPart
		for _, a := range si.parts {
			b, h := s.apply2(a.p)
			ch = ch || h
			ps = append(ps, orPart{b, a.sh})
		}
		if ch {
			r = c.orParts(ps, si.w)
		}
	case kOp:
		ch := false
		var as []*Poly
		for _, a := range si.args {
			b, h := s.apply2(a)
			ch = ch || h
			as = append(as, b)
		}
		if ch {
			r = c.opSym(si.op, as, si.I)
		}
	case kIzF, kNeg, kH, kW, kRho:
		if m, ch := s.apply2(si.fp); ch {
			m = c.fold(si.fld, c.toField(si.fld, m))
			switch si.kind {
			case kIzF:
				r = c.izF(si.fld, m)
			case kNeg:
				r, _ = c.canonRep(si.fld, m)
			case kH:
				if !si.fld.par {
					r = c.canonWhole(si.fld, m)
				} else {
					_, r = c.canonRep(si.fld, m)
				}
			case kW:
				r = m
			case kRho:
				r = c.fpow(si.fld, m, si.fld.rhoExp)
			}
		}
	}
	s.memo[x] = r
	return r
}

func (s *substitution) apply2(p *Poly) (*Poly, bool) {
	ch := false
	for x := range p.Syms() {
		if s.sym(x) != nil {
			ch = true
			break
		}
	}
	if !ch {
		return p, false
	}
	return s.apply(p), true
}

func (s *substitution) apply(p *Poly) *Poly {
	c := s.c
	r := newPoly()
	for k, co := range p.terms {
		var t *Poly
		keep := make([]factor, 0, 4)
		for _, f := range parseMono(k) {
			q := s.sym(f.s)
			if q == nil {
				keep = append(keep, f)
				continue
			}
			var qe *Poly
			if si := c.syms[f.s]; si.fld != nil && (si.kind == kFV || si.kind == kW || si.kind == kRho) {
				qe = c.fpow(si.fld, q, f.e)
			} else {
				qe = c.powSmall(q, f.e)
			}
			if t == nil {
				t = qe
			} else {
				t = c.Mul(t, qe)
			}
		}
		if t == nil {
			r.addTerm(k, co)
			continue
		}
		base := newPoly()
		base.terms[monoKey(keep)] = co
		t = c.Mul(base, t)
		for k2, c2 := range t.terms {
			r.addTerm(k2, c2)
		}
	}
	return r
}

func (c *Ctx) powSmall(p *Poly, e *big.Int) *Poly {
	if !e.IsInt64() || e.Int64() > 64 {
		panic(undecided("power too large"))
	}
	r := intPoly(1)
	for i := int64(0); i < e.Int64(); i++ {
		r = c.Mul(r, p)
	}
	return r
}

func (c *Ctx) Subst(p *Poly, m map[Sym]*Poly) *Poly {
	return c.newSubst(m).apply(p)
}

// cofactor sets a 0/1 symbol to a constant (one-hot aware).
func (c *Ctx) cofactor(p *Poly, b Sym, v int64) *Poly {
	m := map[Sym]*Poly{b: intPoly(v)}
	if v == 1 && c.syms[b].oh != nil {
		for s := range c.syms[b].oh.syms {
			if s != b {
				m[s] = intPoly(0)
			}
		}
	}
	return c.Subst(p, m)
}

// ---- intervals ------------------------------------------------------------

func ivPow(a Interval, e int64) Interval {
	r := ivPoint(bigOne)
	for i := int64(0); i < e; i++ {
		r = ivMul(r, a)
	}
	if e%2 == 0 && r.lo.Sign() < 0 {
		r.lo = bigZero
	}
	return r
}

func (c *Ctx) monoIv(k string) (Interval, bool) {
	r := ivPoint(bigOne)
	for _, f := range parseMono(k) {
		si := c.syms[f.s]
		if si.I.lo == nil || !f.e.IsInt64() || f.e.Int64() > 8 {
			return r, false
		}
		if f.e.Int64() == 1 {
			r = ivMul(r, si.I)
		} else {
			r = ivMul(r, ivPow(si.I, f.e.Int64()))
		}
	}
	return r, true
}

// direct interval: sum of monomial intervals, with one-hot groups taken jointly.
func (c *Ctx) direct(p *Poly) (Interval, bool) {
	r := ivPoint(bigZero)
	var ohv map[*onehot]Interval
	for k, co := range p.terms {
		if len(k) == 6 {
			s := Sym(uint32(k[0])<<24 | uint32(k[1])<<16 | uint32(k[2])<<8 | uint32(k[3]))
			if oh := c.syms[s].oh; oh != nil {
				if ohv == nil {
					ohv = map[*onehot]Interval{}
				}
				o, ok := ohv[oh]
				if !ok {
					o = ivPoint(bigZero)
				}
				ohv[oh] = ivHull(o, ivPoint(co))
				continue
			}
		}
		m, ok := c.monoIv(k)
		if !ok {
			return r, false
		}
		r = ivAdd(r, ivScale(m, co))
	}
	for _, o := range ohv {
		r = ivAdd(r, o)
	}
	return r, true
}

func (c *Ctx) setBound(p *Poly, I Interval) {
	if _, ok := p.IsConst(); ok {
		return
	}
	k := p.Key()
	if o, ok := c.pb[k]; ok {
		I = ivMeet(o, I)
	}
	c.pb[k] = I
	if o, ok := c.bmemo[k]; ok {
		c.bmemo[k] = ivMeet(o, I)
	}
}

// bound returns a sound interval for p.
func (c *Ctx) bound(p *Poly) Interval {
	if v, ok := p.IsConst(); ok {
		return ivPoint(v)
	}
	I, ok := c.boundD(p, 0)
	if !ok {
		panic(undecided("no bound for %s", c.str(p)))
	}
	return I
}

func (c *Ctx) tryBound(p *Poly) (Interval, bool) {
	if v, ok := p.IsConst(); ok {
		return ivPoint(v), true
	}
	return c.boundD(p, 0)
}

func (c *Ctx) boundD(p *Poly, depth int) (Interval, bool) {
	if v, ok := p.IsConst(); ok {
		return ivPoint(v), true
	}
	key := p.Key()
	if r, ok := c.bmemo[key]; ok {
		return r, true
	}
	c.stats.bounds++
	r, ok := c.direct(p)
	if o, ok2 := c.pb[key]; ok2 {
		if ok {
			r = ivMeet(r, o)
		} else {
			r, ok = o, true
		}
	}
	if !ok {
		return r, false
	}
	if len(p.terms) > 1 && depth < 12 {
		// constant-shifted, or scaled, versions of a known polynomial
		k0 := p.Const()
		if k0.Sign() != 0 {
			q := p.Sub(constPoly(k0))
			if o, ok2 := c.boundD(q, depth+1); ok2 {
				r = ivMeet(r, ivAdd(o, ivPoint(k0)))
			}
		} else {
			r = c.refine(p, r, depth)
			// sign-flipped knowledge
			if o, ok2 := c.pb[p.Neg().Key()]; ok2 {
				r = ivMeet(r, ivNeg(o))
			}
			if b := c.gatingBool(p); b != 0 && len(p.terms) < 64 && depth < 6 {
				o1, ok1 := c.boundD(c.cofactor(p, b, 1), depth+1)
				o0, ok0 := c.boundD(c.cofactor(p, b, 0), depth+1)
				if ok1 && ok0 {
					r = ivMeet(r, ivHull(o1, o0))
				}
			}
			g := content(p)
			if g.Cmp(bigOne) > 0 {
				q, _ := p.DivExact(g)
				if o, ok2 := c.boundD(q, depth+1); ok2 {
					r = ivMeet(r, ivScale(o, g))
				}
			}
		}
	}
	c.bmemo[key] = r
	return r, true
}

func content(p *Poly) *big.Int {
	g := new(big.Int)
	for _, co := range p.terms {
		g.GCD(nil, nil, g, new(big.Int).Abs(co))
	}
	return g
}

// refine uses M - 2^k floor(M/2^k) in [0, 2^k) and the sums known for groups.
func (c *Ctx) refine(p *Poly, r Interval, depth int) Interval {
	seen := 0
	budget := []int{12, 6, 3, 2, 1, 1, 1}
	max := 1
	if depth < len(budget) {
		max = budget[depth]
	}
	rs := reverseSyms(p)
	for _, s := range rs {
		si := c.syms[s]
		co := p.linearCoef(s)
		if co.Sign() == 0 {
			continue
		}
		if si.kind == kFloor {
			// a digit of the same number: F_j - 2^(k-j) F_k in [0, 2^(k-j))
			for _, t := range rs {
				ti := c.syms[t]
				if ti.kind != kFloor || ti.k >= si.k || !ti.m.Equal(si.m) {
					continue
				}
				d := si.k - ti.k
				var q, m big.Int
				q.QuoRem(co, pow2(d), &m)
				if m.Sign() != 0 || new(big.Int).Neg(&q).Cmp(p.linearCoef(t)) != 0 {
					continue
				}
				q.Neg(&q)
				rest := p.Sub(symPoly(t).Sub(symPoly(s).Scale(pow2(d))).Scale(&q))
				if o, ok := c.boundD(rest, depth+1); ok {
					x := ivScale(iv(bigZero, new(big.Int).Sub(pow2(d), bigOne)), &q)
					r = ivMeet(r, ivAdd(o, x))
				}
				seen++
			}
		}
		if si.kind == kFloor {
			if co.CmpAbs(bigOne) == 0 {
				// p = floor((M + 2^k rest)/2^k)
				q := p
				if co.Sign() < 0 {
					q = p.Neg()
				}
				M2 := q.Sub(symPoly(s)).Scale(pow2(si.k)).Add(si.m)
				if len(M2.terms) <= len(p.terms)+2 {
					if o, ok := c.boundD(M2, depth+1); ok {
						o = ivShr(o, si.k)
						if co.Sign() < 0 {
							o = ivNeg(o)
						}
						r = ivMeet(r, o)
					}
					seen++
				}
			}
			// p = -co/2^k * (M - 2^k F) + rest
			var q, m big.Int
			q.QuoRem(co, pow2(si.k), &m)
			exact := m.Sign() == 0
			if q.Sign() == 0 {
				continue
			}
			q.Neg(&q)
			rem := si.m.Sub(symPoly(s).Scale(pow2(si.k)))
			rest := p.Sub(rem.Scale(&q))
			if exact {
				if len(rest.terms) >= len(p.terms) {
					continue
				}
			} else {
				if depth > 3 || len(rest.terms) > len(p.terms)+2 {
					continue
				}
				w, ok := c.direct(rest)
				if !ok || new(big.Int).Lsh(w.width(), 4).Cmp(r.width()) > 0 {
					continue
				}
			}
			if o, ok := c.boundD(rest, depth+1); ok {
				x := ivScale(iv(bigZero, new(big.Int).Sub(pow2(si.k), bigOne)), &q)
				r = ivMeet(r, ivAdd(o, x))
			}
			seen++
		}
		if si.kind == kLimb && si.idx == 0 && si.grp.sumI != nil {
			rest := p.Sub(si.grp.sum().Scale(co))
			if len(rest.terms) < len(p.terms) {
				if o, ok := c.boundD(rest, depth+1); ok {
					r = ivMeet(r, ivAdd(o, ivScale(*si.grp.sumI, co)))
				}
			}
			seen++
		}
		if seen >= max {
			break
		}
	}
	return r
}

func reverseSyms(p *Poly) []Sym {
	r := sortedSyms(p.Syms())
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

// ---- constraints and case splitting --------------------------------------

type constraint struct {
	p *Poly
	I Interval
}

// boundSplit bounds p, splitting on floor symbols of small range.
func (c *Ctx) boundSplit(p *Poly, maxRange int64, maxDepth int) (Interval, bool) {
	return c.bsplit(p, nil, map[Sym]int64{}, maxRange, maxDepth)
}

func (c *Ctx) bsplit(p *Poly, cs []constraint, fixed map[Sym]int64, maxRange int64, depth int) (Interval, bool) {
	I, ok := c.boundUnder(p, cs)
	if !ok {
		return I, false
	}
	if depth == 0 || I.isPoint() {
		return I, true
	}
	// choose a floor symbol of small range in p or in the constraints, not yet fixed
	cand := map[Sym]bool{}
	for s := range p.Syms() {
		cand[s] = true
	}
	for _, k := range cs {
		for s := range k.p.Syms() {
			cand[s] = true
		}
	}
	// a symbol that is used with a coefficient other than its own remainder's
	var pick Sym
	var pickI Interval
	ord := sortedSyms(cand)
	for i := len(ord) - 1; i >= 0; i-- {
		s := ord[i]
		si := c.syms[s]
		if si.kind != kFloor {
			continue
		}
		if _, done := fixed[s]; done {
			continue
		}
		J := si.I
		for _, k := range cs {
			if len(k.p.terms) == 1 {
				if co, ok := k.p.terms[symKey(s)]; ok && co.Cmp(bigOne) == 0 {
					J = ivMeet(J, k.I)
				}
			}
		}
		w := J.width()
		if !w.IsInt64() || w.Int64() > maxRange {
			continue
		}
		if pick == 0 || w.Cmp(pickI.width()) < 0 {
			pick, pickI = s, J
		}
	}
	if pick == 0 {
		return I, true
	}
	c.stats.splits++
	si := c.syms[pick]
	var res Interval
	have := false
	for v := pickI.lo.Int64(); v <= pickI.hi.Int64(); v++ {
		bv := big.NewInt(v)
		// M in [v 2^k, (v+1) 2^k - 1]
		lo := new(big.Int).Lsh(bv, si.k)
		hi := new(big.Int).Add(lo, pow2(si.k))
		hi.Sub(hi, bigOne)
		sub := map[Sym]*Poly{pick: constPoly(bv)}
		plain := func(q *Poly) *Poly { return c.plainSubst(q, sub) }
		ncs := make([]constraint, 0, len(cs)+1)
		feasible := true
		for _, k := range cs {
			ncs = append(ncs, constraint{plain(k.p), k.I})
		}
		ncs = append(ncs, constraint{plain(si.m), iv(lo, hi)})
		for _, k := range ncs {
			J, ok := c.boundUnder(k.p, ncs)
			if ok && (J.empty() || ivMeet(J, k.I).empty()) {
				feasible = false
				break
			}
		}
		if !feasible {
			continue
		}
		nf := map[Sym]int64{pick: v}
		for a, b := range fixed {
			nf[a] = b
		}
		J, ok := c.bsplit(plain(p), ncs, nf, maxRange, depth-1)
		if !ok {
			return I, true
		}
		if J.empty() {
			continue
		}
		if !have {
			res, have = J, true
		} else {
			res = ivHull(res, J)
		}
	}
	if !have {
		return I, true
	}
	return ivMeet(I, res), true
}

// plainSubst replaces only direct occurrences (no rebuilding of derived symbols).
func (c *Ctx) plainSubst(p *Poly, m map[Sym]*Poly) *Poly {
	s := &substitution{c: c, m: m, memo: map[Sym]*Poly{}}
	for x := range p.Syms() {
		if _, ok := m[x]; !ok {
			s.memo[x] = nil
		}
	}
	return s.apply(p)
}

// boundUnder bounds p using linear constraints.
func (c *Ctx) boundUnder(p *Poly, cs []constraint) (Interval, bool) {
	r, ok := c.tryBound(p)
	if !ok {
		return r, false
	}
	if len(cs) == 0 {
		return r, true
	}
	// tighten single symbols from single-symbol constraints
	tight := map[Sym]Interval{}
	for _, k := range cs {
		q := k.p.Sub(constPoly(k.p.Const()))
		if len(q.terms) != 1 {
			continue
		}
		for key, co := range q.terms {
			fs := parseMono(key)
			if len(fs) != 1 || fs[0].e.Cmp(bigOne) != 0 {
				continue
			}
			J := ivSub(k.I, ivPoint(k.p.Const()))
			lo, hi := J.lo, J.hi
			if co.Sign() < 0 {
				lo, hi = hi, lo
			}
			l := ceilDiv(lo, co)
			h := floorDivBig(hi, co)
			nI := iv(l, h)
			if o, ok := tight[fs[0].s]; ok {
				nI = ivMeet(nI, o)
			} else {
				nI = ivMeet(nI, c.syms[fs[0].s].I)
			}
			tight[fs[0].s] = nI
		}
	}
	under := func(q *Poly) Interval {
		base, _ := c.tryBound(q)
		if len(tight) == 0 {
			return base
		}
		rest := q
		acc := ivPoint(bigZero)
		for s, I := range tight {
			co := rest.linearCoef(s)
			if co.Sign() == 0 {
				continue
			}
			acc = ivAdd(acc, ivScale(I, co))
			rest = rest.Sub(symPoly(s).Scale(co))
		}
		if rest == q {
			return base
		}
		if o, ok := c.tryBound(rest); ok {
			return ivMeet(base, ivAdd(o, acc))
		}
		return base
	}
	r = ivMeet(r, under(p))
	for _, k := range cs {
		// align on the term with the largest coefficient of k.p that also occurs in p
		var best string
		var bc *big.Int
		for key, co := range k.p.terms {
			if key == "" {
				continue
			}
			if _, ok := p.terms[key]; !ok {
				continue
			}
			if bc == nil || co.CmpAbs(bc) > 0 || (co.CmpAbs(bc) == 0 && key < best) {
				best, bc = key, co
			}
		}
		if bc == nil {
			continue
		}
		// b*p = a*k.p + rest with a/b the ratio of the coefficients
		a, b := new(big.Int).Set(p.terms[best]), new(big.Int).Set(bc)
		g := new(big.Int).GCD(nil, nil, new(big.Int).Abs(a), new(big.Int).Abs(b))
		a.Quo(a, g)
		b.Quo(b, g)
		if b.Sign() < 0 {
			a.Neg(a)
			b.Neg(b)
		}
		rest := p.Scale(b).Sub(k.p.Scale(a))
		J := ivAdd(under(rest), ivScale(k.I, a))
		J = iv(ceilDiv(J.lo, b), floorDivBig(J.hi, b))
		r = ivMeet(r, J)
	}
	return r, true
}

func floorDivBig(a, b *big.Int) *big.Int {
	q, m := new(big.Int), new(big.Int)
	q.QuoRem(a, b, m)
	if m.Sign() != 0 && (m.Sign() < 0) != (b.Sign() < 0) {
		q.Sub(q, bigOne)
	}
	return q
}
func ceilDiv(a, b *big.Int) *big.Int {
	q := floorDivBig(new(big.Int).Neg(a), b)
	return q.Neg(q)
}

// ---- printing ---------------------------------------------------------------

func (c *Ctx) symName(s Sym, d int) string {
	si := c.syms[s]
	switch si.kind {
	case kFloor:
		if d <= 0 {
			return fmt.Sprintf("fl%d", s)
		}
		return fmt.Sprintf("floor((%s)/2^%d)", c.strD(si.m, d-1), si.k)
	case kLimb:
		return fmt.Sprintf("%s.%d", si.grp.name, si.idx)
	case kIz:
		return fmt.Sprintf("[%s=0]", c.strD(si.m, d-1))
	case kInd:
		return fmt.Sprintf("[%s=%d]", c.strD(si.oh.root, d-1), si.v)
	case kIzF:
		return fmt.Sprintf("[%s==0]", c.strD(si.fp, d-1))
	case kNeg:
		return fmt.Sprintf("neg(%s)", c.strD(si.fp, d-1))
	case kH:
		return fmt.Sprintf("half(%s)", c.strD(si.fp, d-1))
	case kW:
		if d <= 0 {
			return fmt.Sprintf("W%d", s)
		}
		return fmt.Sprintf("(%s)", c.strD(si.fp, d-1))
	case kRho:
		return fmt.Sprintf("rho(%s)", c.strD(si.fp, d-1))
	case kOp:
		return fmt.Sprintf("%s#%d", si.op, s)
	case kXor, kOr:
		return fmt.Sprintf("bits#%d", s)
	}
	return si.name
}

func (c *Ctx) str(p *Poly) string { return c.strD(p, 2) }

var strMax = 8

func (c *Ctx) strD(p *Poly, d int) string {
	if p == nil {
		return "<nil>"
	}
	if len(p.terms) == 0 {
		return "0"
	}
	ks := make([]string, 0, len(p.terms))
	for k := range p.terms {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	for i, k := range ks {
		if i >= strMax {
			fmt.Fprintf(&sb, " + ... (%d terms)", len(ks))
			break
		}
		if i > 0 {
			sb.WriteString(" + ")
		}
		co := p.terms[k]
		if k == "" || co.Cmp(bigOne) != 0 {
			sb.WriteString(shortBig(co))
			if k != "" {
				sb.WriteString("*")
			}
		}
		for j, f := range parseMono(k) {
			if j > 0 {
				sb.WriteString("*")
			}
			sb.WriteString(c.symName(f.s, d))
			if f.e.Cmp(bigOne) != 0 {
				sb.WriteString("^" + shortBig(f.e))
			}
		}
	}
	return sb.String()
}
