package main

// Transfer functions of the integer domain that are not polynomial: floor
// division by powers of two, bit operations, comparisons.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

func v2(c *big.Int) uint { return c.TrailingZeroBits() }

// floorPoly returns floor(M / 2^k).  res, if not nil, bounds the result.
func (c *Ctx) floorPoly(M *Poly, k uint, res *Interval) *Poly {
	if k == 0 {
		return M
	}
	r := c.floorPoly0(M, k, res)
	if len(r.terms) > 1 {
		if bM, ok := c.tryBound(M); ok {
			k0 := r.Const()
			c.setBound(r.Sub(constPoly(k0)), ivSub(ivShr(bM, k), ivPoint(k0)))
		}
	}
	// the remainder
	rem := M.Sub(r.Scale(pow2(k)))
	if k0 := rem.Const(); len(rem.terms) > 1 || k0.Sign() == 0 {
		c.setBound(rem.Sub(constPoly(k0)), ivSub(iv(bigZero, new(big.Int).Sub(pow2(k), bigOne)), ivPoint(k0)))
	}
	return r
}

func (c *Ctx) floorPoly0(M *Poly, k uint, res *Interval) *Poly {
	if v, ok := M.IsConst(); ok {
		return constPoly(new(big.Int).Rsh(v, k))
	}
	if res != nil && res.isPoint() {
		return constPoly(res.lo)
	}
	if r := c.floorOr(M, k); r != nil {
		return r
	}
	// pull out the terms divisible by 2^k
	A, B := newPoly(), newPoly()
	for key, co := range M.terms {
		// keep the residue in (-2^(k-1), 2^(k-1)]
		q := new(big.Int).Rsh(new(big.Int).Sub(pow2(k-1), co), k)
		q.Neg(q)
		if q.Sign() == 0 {
			B.terms[key] = co
			continue
		}
		A.terms[key] = q
		if rest := new(big.Int).Sub(co, new(big.Int).Lsh(q, k)); rest.Sign() != 0 {
			B.terms[key] = rest
		}
	}
	if !A.IsZero() {
		var r2 *Interval
		if res != nil {
			if ba, ok := c.tryBound(A); ok && ba.isPoint() {
				x := ivSub(*res, ba)
				r2 = &x
			}
		}
		f := c.floorPoly(B, k, r2)
		r := A.Add(f)
		return r
	}
	bM, okM := c.tryBound(M)
	if okM {
		f := ivShr(bM, k)
		if res != nil {
			f = ivMeet(f, *res)
		}
		if f.isPoint() {
			return constPoly(f.lo)
		}
	}
	// drop a low part that cannot carry
	vals := map[uint]bool{}
	for _, co := range M.terms {
		if v := v2(co); v > 0 && v < k {
			vals[v] = true
		}
	}
	if len(vals) > 0 {
		vs := make([]int, 0, len(vals))
		for v := range vals {
			vs = append(vs, int(v))
		}
		sort.Sort(sort.Reverse(sort.IntSlice(vs)))
		for _, v := range vs {
			m := uint(v)
			lo, hi := newPoly(), newPoly()
			for key, co := range M.terms {
				if v2(co) < m {
					lo.terms[key] = co
				} else {
					hi.terms[key] = co
				}
			}
			if b, ok := c.tryBound(lo); ok {
				f := ivShr(b, m)
				if f.isPoint() {
					q, _ := hi.DivExact(pow2(m))
					return c.floorPoly(q.Add(constPoly(f.lo)), k-m, res)
				}
			}
		}
	}
	// the sign of a small quantity
	if okM && bM.lo.Sign() < 0 && bM.lo.Cmp(new(big.Int).Neg(pow2(k-1))) >= 0 && bM.hi.Cmp(pow2(k-1)) < 0 {
		if c.hasDigits(M) {
			if root, lo, hi, ok := c.univ(M, false); ok {
				return c.tableOf(M, root, lo, hi, func(x *big.Int) *big.Int { return new(big.Int).Rsh(x, k) })
			}
		}
	}
	// flatten a nested floor
	if okM {
		var fl Sym
		n := 0
		for key, co := range M.terms {
			if len(key) == 6 && co.Cmp(bigOne) == 0 {
				s := parseMono(key)[0].s
				if c.syms[s].kind == kFloor {
					fl = s
					n++
				}
			}
		}
		if n == 1 {
			si := c.syms[fl]
			rest := M.Sub(symPoly(fl))
			M2 := rest.Scale(pow2(si.k)).Add(si.m)
			lo := new(big.Int).Lsh(bM.lo, si.k)
			hi := new(big.Int).Lsh(new(big.Int).Add(bM.hi, bigOne), si.k)
			k0 := M2.Const()
			c.setBound(M2.Sub(constPoly(k0)), ivSub(iv(lo, hi.Sub(hi, bigOne)), ivPoint(k0)))
			r2 := ivShr(bM, k)
			if res != nil {
				r2 = ivMeet(r2, *res)
			}
			return c.floorPoly(M2, si.k+k, &r2)
		}
	}
	// gated values: Shannon expansion over 0/1 atoms that multiply something
	if b := c.gatingBool(M); b != 0 {
		f1 := c.floorPoly(c.cofactor(M, b, 1), k, nil)
		f0 := c.floorPoly(c.cofactor(M, b, 0), k, nil)
		return c.ite(b, f1, f0)
	}
	if okM {
		// linear 0/1 symbols whose cofactors decide the floor
		if p := c.floorShannon(M, k); p != nil {
			return p
		}
		// result in {-1, 0}: canonical exponent
		j := uint(0)
		for ; j < k; j++ {
			if bM.lo.Cmp(new(big.Int).Neg(pow2(j))) >= 0 && bM.hi.Cmp(pow2(j)) < 0 {
				break
			}
		}
		if j < k {
			return c.floorPoly(M, j, res)
		}
		if bM.lo.Cmp(big.NewInt(-1)) == 0 && bM.hi.Cmp(pow2(k)) < 0 {
			return c.izInt(M.AddInt(1)).Neg()
		}
		// a function of a small root that is already named by indicators
		if root, lo, hi, ok := c.univ(M, true); ok {
			return c.tableOf(M, root, lo, hi, func(x *big.Int) *big.Int { return new(big.Int).Rsh(x, k) })
		}
	}
	if okM {
		if r := c.floorNear(M, k); r != nil {
			return r
		}
		if w := ivShr(bM, k).width(); w.IsInt64() && w.Int64() <= 8 {
			n := 0
			for s := range M.Syms() {
				if si := c.syms[s]; si.kind == kFloor {
					if x := si.I.width(); x.IsInt64() && x.Int64() <= 16 {
						n++
					}
				}
			}
			if n > 0 && n <= 3 {
				if I, ok := c.bsplit(M, nil, map[Sym]int64{}, 16, n); ok {
					if f := ivShr(I, k); f.isPoint() {
						return constPoly(f.lo)
					}
				}
			}
		}
	}
	f := Interval{}
	if okM {
		f = ivShr(bM, k)
		if res != nil {
			f = ivMeet(f, *res)
		}
	} else if res != nil {
		f = *res
	} else {
		panic(undecided("shift of unbounded value %s", c.str(M)))
	}
	key := fmt.Sprintf("fl:%d:%s", k, M.Key())
	s := c.keyed(key, func() *symInfo {
		c.stats.floors++
		return &symInfo{kind: kFloor, m: M, k: k, I: f}
	})
	si := c.syms[s]
	if !si.I.within(f) {
		si.I = ivMeet(si.I, f)
	}
	return symPoly(s)
}

// floorNear recognises floor(M/2^k) = F + j for a quotient F that M contains.
func (c *Ctx) floorNear(M *Poly, k uint) *Poly {
	for _, s := range reverseSyms(M) {
		si := c.syms[s]
		if si.kind != kFloor || si.k < k {
			continue
		}
		w := si.I.width()
		if !w.IsInt64() || w.Int64() > 64 {
			continue
		}
		D := M.Sub(symPoly(s).Scale(pow2(k)))
		I, ok := c.tryBound(D)
		if !ok || I.width().Cmp(pow2(k+8)) > 0 {
			continue
		}
		I, ok = c.bsplit(D, nil, map[Sym]int64{}, 64, 3)
		if !ok {
			continue
		}
		if f := ivShr(I, k); f.isPoint() {
			return symPoly(s).Add(constPoly(f.lo))
		}
	}
	return nil
}

// gatingBool finds a 0/1 atom occurring in a product.
func (c *Ctx) gatingBool(M *Poly) Sym {
	var best Sym
	for key := range M.terms {
		if len(key) <= 6 {
			continue
		}
		monoSyms(key, func(s Sym) {
			if c.syms[s].isBool && (best == 0 || s < best) {
				best = s
			}
		})
	}
	return best
}

func (c *Ctx) ite(b Sym, t, e *Poly) *Poly {
	bp := symPoly(b)
	return c.Mul(bp, t.Sub(e)).Add(e)
}

// floorShannon tries to decide floor(M/2^k) by expanding 0/1-ranged symbols.
func (c *Ctx) floorShannon(M *Poly, k uint) *Poly {
	var bs []Sym
	for _, s := range reverseSyms(M) {
		si := c.syms[s]
		if si.I.lo == nil {
			continue
		}
		w := si.I.width()
		if w.Cmp(bigOne) == 0 && (si.isBool || si.kind == kFloor) {
			bs = append(bs, s)
		}
	}
	for _, s := range bs {
		si := c.syms[s]
		var f [2]*big.Int
		ok := true
		for v := 0; v < 2; v++ {
			val := new(big.Int).Add(si.I.lo, big.NewInt(int64(v)))
			Mv := c.plainSubst(M, map[Sym]*Poly{s: constPoly(val)})
			var cs []constraint
			if si.kind == kFloor {
				lo := new(big.Int).Lsh(val, si.k)
				hi := new(big.Int).Add(lo, pow2(si.k))
				hi.Sub(hi, bigOne)
				cs = append(cs, constraint{si.m, iv(lo, hi)})
			}
			I, ok2 := c.boundUnder(Mv, cs)
			if !ok2 || I.empty() {
				ok = false
				break
			}
			fI := ivShr(I, k)
			if !fI.isPoint() {
				ok = false
				break
			}
			f[v] = fI.lo
		}
		if ok {
			// f0 + (f1-f0) * (s - lo)
			d := new(big.Int).Sub(f[1], f[0])
			return constPoly(f[0]).Add(symPoly(s).Sub(constPoly(si.I.lo)).Scale(d))
		}
	}
	// several atoms of kind bool only
	nb := bs[:0:0]
	for _, s := range bs {
		if c.syms[s].isBool {
			nb = append(nb, s)
		}
	}
	if len(nb) >= 2 && len(nb) <= 6 {
		all := true
		for s := range M.Syms() {
			if !c.syms[s].isBool {
				all = false
			}
		}
		if all {
			b := nb[0]
			f1 := c.floorPoly(c.cofactor(M, b, 1), k, nil)
			f0 := c.floorPoly(c.cofactor(M, b, 0), k, nil)
			return c.ite(b, f1, f0)
		}
	}
	return nil
}

// ---- functions of a small root ---------------------------------------------

const maxRoot = 80

// hasDigits: P mentions symbols of noted small quantities.
func (c *Ctx) hasDigits(P *Poly) bool {
	if len(P.terms) > 200 {
		return false
	}
	for s := range P.Syms() {
		if len(c.digits[s]) > 0 || c.syms[s].kind == kInd {
			return true
		}
	}
	return false
}

// univ finds a polynomial root of small range such that P is a function of it.
func (c *Ctx) univ(P *Poly, onlyDerived bool) (root *Poly, lo, hi int64, ok bool) {
	var cands []*Poly
	seen := map[string]bool{}
	add := func(q *Poly) {
		if !seen[q.Key()] {
			seen[q.Key()] = true
			cands = append(cands, q)
		}
	}
	derived := false
	var visit func(p *Poly, d int)
	vis := map[Sym]int{} // symbol -> least depth it was visited at, plus 1
	visit = func(p *Poly, d int) {
		if d > 6 {
			return
		}
		for _, s := range sortedSyms(p.Syms()) {
			si := c.syms[s]
			if v := vis[s]; v != 0 && v <= d+1 {
				continue
			}
			vis[s] = d + 1
			switch si.kind {
			case kInd:
				derived = true
				add(si.oh.root)
			case kFloor:
				derived = true
				visit(si.m, d+1)
				add(si.m)
			case kXor, kOp:
				for _, a := range si.args {
					visit(a, d+1)
					add(a)
				}
			}
		}
	}
	visit(P, 0)
	if onlyDerived && !derived {
		return nil, 0, 0, false
	}
	if !onlyDerived {
		for _, s := range sortedSyms(P.Syms()) {
			for _, d := range c.digits[s] {
				add(d)
			}
		}
		add(P)
	}
	for _, r := range cands {
		I, ok2 := c.tryBound(r)
		if !ok2 {
			continue
		}
		w := I.width()
		if !w.IsInt64() || w.Int64() > maxRoot || !I.lo.IsInt64() {
			continue
		}
		l, h := I.lo.Int64(), I.hi.Int64()
		good := true
		for v := l; v <= h; v++ {
			if _, ok3 := c.evalAt(P, r, v); !ok3 {
				good = false
				break
			}
		}
		if good {
			return r, l, h, true
		}
	}
	return nil, 0, 0, false
}

// evalAt evaluates P under root == v.
func (c *Ctx) evalAt(P, root *Poly, v int64) (val *big.Int, ok bool) {
	k := evalKey{P.Key(), root.Key(), v}
	if x, has := c.evals[k]; has {
		return x, true
	}
	q, ok := c.substRoot(P, root, v)
	if !ok {
		return nil, false
	}
	x, ok := q.IsConst()
	if ok {
		c.evals[k] = x
	}
	return x, ok
}

type evalKey struct {
	p, r string
	v    int64
}

func (c *Ctx) substRoot(P, root *Poly, v int64) (q *Poly, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(undecidedErr); is {
				ok = false
				return
			}
			panic(r)
		}
	}()
	if P.Equal(root) {
		return intPoly(v), true
	}
	var lead Sym
	var lc *big.Int
	for _, s := range reverseSyms(root) {
		co := root.linearCoef(s)
		if co.CmpAbs(bigOne) == 0 {
			// s must not occur elsewhere in root
			n := 0
			for k := range root.terms {
				if monoHas(k, s) {
					n++
				}
			}
			if n == 1 && c.syms[s].kind != kInd {
				// avoid choosing a symbol whose definition others depend on: latest first
				lead, lc = s, co
				break
			}
		}
	}
	m := map[Sym]*Poly{}
	if lead != 0 {
		rest := root.Sub(symPoly(lead).Scale(lc))
		m[lead] = intPoly(v).Sub(rest).Scale(lc)
		if ld := c.syms[lead]; ld.kind == kFloor {
			// coarser quotients of the same quantity are functions of the finer one
			inRoot := root.Syms()
			for s := range P.Syms() {
				si := c.syms[s]
				if inRoot[s] || si.kind != kFloor || si.k < ld.k {
					continue
				}
				if d, ok := si.m.Sub(ld.m).DivExact(pow2(ld.k)); ok {
					m[s] = c.floorPoly(m[lead].Add(d), si.k-ld.k, nil)
				}
			}
		}
	}
	if oh, has := c.ohs["root:"+root.Key()]; has {
		for s := range oh.syms {
			if c.syms[s].v == v {
				m[s] = intPoly(1)
			} else {
				m[s] = intPoly(0)
			}
		}
	}
	if len(m) == 0 {
		return P, true
	}
	return c.Subst(P, m), true
}

// tableOf represents f(P) where P is a function of root.
func (c *Ctx) tableOf(P, root *Poly, lo, hi int64, f func(*big.Int) *big.Int) *Poly {
	vals := make([]*big.Int, hi-lo+1)
	for v := lo; v <= hi; v++ {
		x, ok := c.evalAt(P, root, v)
		if !ok {
			panic(undecided("table of %s", c.str(P)))
		}
		vals[v-lo] = f(x)
	}
	return c.table(root, lo, hi, vals)
}

// table returns the function root |-> vals[root-lo] as a polynomial.
func (c *Ctx) table(root *Poly, lo, hi int64, vals []*big.Int) *Poly {
	// affine?
	if len(vals) == 1 {
		return constPoly(vals[0])
	}
	d := new(big.Int).Sub(vals[1], vals[0])
	aff := true
	for i := 1; i < len(vals); i++ {
		e := new(big.Int).Sub(vals[i], vals[i-1])
		if e.Cmp(d) != 0 {
			aff = false
			break
		}
	}
	if aff {
		return root.AddInt(-lo).Scale(d).Add(constPoly(vals[0]))
	}
	if hi-lo == 1 { // root-lo is 0/1: affine always
		panic("unreachable")
	}
	oh := c.rootOnehot(root, lo, hi)
	r := constPoly(vals[0])
	for i := 1; i < len(vals); i++ {
		e := new(big.Int).Sub(vals[i], vals[0])
		if e.Sign() == 0 {
			continue
		}
		s := c.ind(oh, lo+int64(i))
		r = r.Add(symPoly(s).Scale(e))
	}
	lo2, hi2 := vals[0], vals[0]
	for _, v := range vals {
		if v.Cmp(lo2) < 0 {
			lo2 = v
		}
		if v.Cmp(hi2) > 0 {
			hi2 = v
		}
	}
	c.setBound(r, iv(lo2, hi2))
	return r
}

func (c *Ctx) rootOnehot(root *Poly, lo, hi int64) *onehot {
	k := "root:" + root.Key()
	oh, ok := c.ohs[k]
	if !ok {
		oh = &onehot{key: k, syms: map[Sym]bool{}, root: root, rlo: lo, rhi: hi}
		c.ohs[k] = oh
	}
	return oh
}

func (c *Ctx) ind(oh *onehot, v int64) Sym {
	s := c.keyed(fmt.Sprintf("ind:%d:%s", v, oh.key), func() *symInfo {
		return &symInfo{kind: kInd, oh: oh, v: v, isBool: true, I: iv64(0, 1)}
	})
	oh.syms[s] = true
	return s
}

// indOf returns [root == v].
func (c *Ctx) indOf(root *Poly, v int64) *Poly {
	if k, ok := root.IsConst(); ok {
		if k.IsInt64() && k.Int64() == v {
			return intPoly(1)
		}
		return intPoly(0)
	}
	I, ok := c.tryBound(root)
	if ok {
		if !I.contains(big.NewInt(v)) {
			return intPoly(0)
		}
		w := I.width()
		if w.IsInt64() && w.Int64() > 1 && w.Int64() <= maxRoot && !c.allBoolSyms(root) && I.lo.IsInt64() {
			// a shifted or negated root is the same root
			return symPoly(c.ind(c.rootOnehot(root, I.lo.Int64(), I.hi.Int64()), v))
		}
	}
	return c.izInt(root.AddInt(-v))
}

func (c *Ctx) allBoolSyms(p *Poly) bool {
	for s := range p.Syms() {
		if !c.syms[s].isBool {
			return false
		}
	}
	return true
}

// ---- zero test ----------------------------------------------------------------

func (c *Ctx) isBoolPoly(p *Poly) bool {
	I, ok := c.tryBound(p)
	return ok && I.lo.Sign() >= 0 && I.hi.Cmp(bigOne) <= 0
}

// izInt returns the 0/1 polynomial [P == 0].
func (c *Ctx) izInt(P *Poly) *Poly {
	if v, ok := P.IsConst(); ok {
		if v.Sign() == 0 {
			return intPoly(1)
		}
		return intPoly(0)
	}
	g := content(P)
	if g.Cmp(bigOne) > 0 {
		P, _ = P.DivExact(g)
	}
	I, ok := c.tryBound(P)
	if ok {
		if I.lo.Sign() > 0 || I.hi.Sign() < 0 {
			return intPoly(0)
		}
		if I.lo.Sign() >= 0 && I.hi.Cmp(bigOne) <= 0 {
			return intPoly(1).Sub(P)
		}
		if I.hi.Sign() <= 0 && I.lo.Cmp(big.NewInt(-1)) >= 0 {
			return intPoly(1).Add(P)
		}
	}
	// a single word-or
	if len(P.terms) == 1 {
		for key := range P.terms {
			fs := parseMono(key)
			if len(fs) == 1 && c.syms[fs[0].s].kind == kOr {
				if r := c.orNonZero(c.syms[fs[0].s].parts, c.syms[fs[0].s].w); r != nil {
					return intPoly(1).Sub(r)
				}
			}
			if len(fs) == 1 && c.syms[fs[0].s].kind == kXor && len(c.syms[fs[0].s].args) == 2 {
				si := c.syms[fs[0].s]
				return c.izInt(si.args[0].Sub(si.args[1]))
			}
		}
	}
	if b := c.gatingBool(P); b != 0 {
		f1 := c.izInt(c.cofactor(P, b, 1))
		f0 := c.izInt(c.cofactor(P, b, 0))
		return c.ite(b, f1, f0)
	}
	// only 0/1 atoms
	allBool := true
	n := 0
	var lastB Sym
	for _, s := range sortedSyms(P.Syms()) {
		if !c.syms[s].isBool {
			allBool = false
		} else {
			lastB = s
			n++
		}
	}
	if allBool && n <= 8 {
		f1 := c.izInt(c.cofactor(P, lastB, 1))
		f0 := c.izInt(c.cofactor(P, lastB, 0))
		return c.ite(lastB, f1, f0)
	}
	if ok {
		if root, lo, hi, ok2 := c.univ(P, false); ok2 {
			return c.tableOf(P, root, lo, hi, func(x *big.Int) *big.Int {
				if x.Sign() == 0 {
					return bigOne
				}
				return bigZero
			})
		}
	}
	// a complete canonical representative: 2h(A)+neg(A)
	if f, A := c.asCanon(P); f != nil {
		return c.izF(f, A)
	}
	if f, D := c.asCanonDiff(P); f != nil {
		return c.izF(f, D)
	}
	// the weighted sum of a canonical group
	if gr := c.asGroupSum(P); gr != nil && gr.canonical() {
		return c.izF(gr.fld, gr.V)
	}
	// canonical sign
	ks := make([]string, 0, len(P.terms))
	for k := range P.terms {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	if P.terms[ks[len(ks)-1]].Sign() < 0 {
		P = P.Neg()
	}
	s := c.keyed("iz:"+P.Key(), func() *symInfo { return &symInfo{kind: kIz, m: P, isBool: true, I: iv64(0, 1)} })
	return symPoly(s)
}

// asGroupSum recognises the weighted sum of the limbs of one group.
func (c *Ctx) asGroupSum(P *Poly) *Group {
	for s := range P.Syms() {
		si := c.syms[s]
		if si.kind == kLimb {
			if si.grp.sum().Equal(P) {
				return si.grp
			}
		}
		return nil
	}
	return nil
}

// ---- bit operations -----------------------------------------------------------

// wrap reduces P into the range of an integer type of w bits.
func (c *Ctx) wrap(P *Poly, I Interval, w uint, signed bool) (*Poly, Interval) {
	var T Interval
	if signed {
		T = iv(new(big.Int).Neg(pow2(w-1)), new(big.Int).Sub(pow2(w-1), bigOne))
	} else {
		T = iv(bigZero, new(big.Int).Sub(pow2(w), bigOne))
	}
	if I.within(T) {
		return P, I
	}
	c.digit(P)
	if c.hasDigits(P) {
		// a two's-complement image of a small value is that value plus its sign bit
		small := iv(new(big.Int).Neg(pow2(w-1)), new(big.Int).Sub(pow2(w-1), bigOne))
		if root, lo, hi, ok := c.univ(P, false); ok && (signed || !I.within(small)) {
			m := new(big.Int).Sub(pow2(w), bigOne)
			q := c.tableOf(P, root, lo, hi, func(x *big.Int) *big.Int {
				y := new(big.Int).And(x, m)
				if signed && y.Bit(int(w-1)) == 1 {
					y.Sub(y, pow2(w))
				}
				return y
			})
			if b, ok := c.tryBound(q); ok {
				return q, ivMeet(T, b)
			}
			return q, T
		}
	}
	M := P
	J := I
	if signed {
		M = P.Add(constPoly(pow2(w - 1)))
		J = ivAdd(I, ivPoint(pow2(w-1)))
	}
	r := ivShr(J, w)
	f := c.floorPoly(M, w, &r)
	q := P.Sub(f.Scale(pow2(w)))
	b, ok := c.tryBound(q)
	if ok {
		T = ivMeet(T, b)
	}
	return q, T
}

// xorPoly returns the xor of two w-bit patterns (w=0: non-negative unbounded).
func (c *Ctx) xorPoly(a, b *Poly, w uint) *Poly {
	if a.Equal(b) {
		return intPoly(0)
	}
	if a.IsZero() {
		return b
	}
	if b.IsZero() {
		return a
	}
	if va, ok := a.IsConst(); ok {
		if vb, ok2 := b.IsConst(); ok2 {
			return constPoly(new(big.Int).Xor(va, vb))
		}
	}
	if c.isBoolPoly(a) && c.isBoolPoly(b) {
		return a.Add(b).Sub(c.Mul(a, b).ScaleInt(2))
	}
	for _, xy := range [][2]*Poly{{a, b}, {b, a}} {
		if v, ok := xy[0].IsConst(); ok {
			if v.Cmp(big.NewInt(-1)) == 0 {
				return xy[1].Neg().AddInt(-1)
			}
			I := c.bound(xy[1])
			if I.lo.Sign() >= 0 && new(big.Int).Add(v, bigOne).BitLen() == v.BitLen()+1 && I.hi.Cmp(v) <= 0 {
				return constPoly(v).Sub(xy[1])
			}
		}
	}
	if c.bitDisjoint(a, b) {
		return a.Add(b)
	}
	// a mask of no or all bits
	for _, p := range []*Poly{a, b} {
		if I, ok := c.tryBound(p); ok && I.hi.Sign() <= 0 && I.lo.Cmp(big.NewInt(-1)) >= 0 {
			return a.Add(b).Add(c.Mul(a, b).ScaleInt(2))
		}
	}
	// gated operands
	for _, p := range []*Poly{a, b} {
		if s := c.gatingBool(p); s != 0 {
			f1 := c.xorPoly(c.cofactor(a, s, 1), c.cofactor(b, s, 1), w)
			f0 := c.xorPoly(c.cofactor(a, s, 0), c.cofactor(b, s, 0), w)
			return c.ite(s, f1, f0)
		}
	}
	// small root and a constant
	for _, xy := range [][2]*Poly{{a, b}, {b, a}} {
		if v, ok := xy[1].IsConst(); ok {
			if root, lo, hi, ok2 := c.univ(xy[0], false); ok2 {
				return c.tableOf(xy[0], root, lo, hi, func(x *big.Int) *big.Int { return new(big.Int).Xor(x, v) })
			}
		}
	}
	if r := c.smallBin(a, b, func(x, y *big.Int) *big.Int { return new(big.Int).Xor(x, y) }); r != nil {
		return r
	}
	// symmetric difference of xor sets
	set := map[string]*Poly{}
	k := new(big.Int)
	var add func(p *Poly)
	add = func(p *Poly) {
		if v, ok := p.IsConst(); ok {
			k.Xor(k, v)
			return
		}
		if len(p.terms) == 1 {
			for key, co := range p.terms {
				fs := parseMono(key)
				if len(fs) == 1 && fs[0].e.Cmp(bigOne) == 0 && co.Cmp(bigOne) == 0 && c.syms[fs[0].s].kind == kXor {
					for _, q := range c.syms[fs[0].s].args {
						add(q)
					}
					return
				}
			}
		}
		if _, ok := set[p.Key()]; ok {
			delete(set, p.Key())
		} else {
			set[p.Key()] = p
		}
	}
	add(a)
	add(b)
	if len(set) == 0 {
		return constPoly(k)
	}
	keys := make([]string, 0)
	for kk := range set {
		keys = append(keys, kk)
	}
	sort.Strings(keys)
	if len(set) == 1 && k.Sign() == 0 {
		return set[keys[0]]
	}
	if len(set) == 1 {
		p := set[keys[0]]
		if !(p.Equal(a) || p.Equal(b)) {
			return c.xorPoly(p, constPoly(k), w)
		}
	}
	var args []*Poly
	neg := false
	bits := k.BitLen()
	if k.Sign() < 0 {
		neg = true
	}
	for _, kk := range keys {
		args = append(args, set[kk])
		I := c.bound(set[kk])
		if I.lo.Sign() < 0 {
			neg = true
		}
		for _, e := range []*big.Int{I.lo, I.hi} {
			if e.BitLen() > bits {
				bits = e.BitLen()
			}
		}
	}
	if k.Sign() != 0 {
		args = append(args, constPoly(k))
	}
	I := iv(bigZero, new(big.Int).Sub(pow2(uint(bits)), bigOne))
	if neg {
		I.lo = new(big.Int).Neg(pow2(uint(bits)))
	}
	s := c.keyed("xor:"+strings.Join(keys, "^")+k.String(), func() *symInfo {
		return &symInfo{kind: kXor, args: args, I: I, w: w}
	})
	return symPoly(s)
}

// smallBin tabulates a binary operation of two values that depend on few 0/1 atoms.
func (c *Ctx) smallBin(a, b *Poly, f func(x, y *big.Int) *big.Int) *Poly {
	syms := map[Sym]bool{}
	for s := range a.Syms() {
		syms[s] = true
	}
	for s := range b.Syms() {
		syms[s] = true
	}
	if len(syms) == 0 {
		va, _ := a.IsConst()
		vb, _ := b.IsConst()
		return constPoly(f(va, vb))
	}
	if len(syms) > 8 {
		// functions of a common root
		if root, lo, hi, ok := c.univ(a, true); ok {
			if r := c.binRoot(a, b, root, lo, hi, f); r != nil {
				return r
			}
		}
		return nil
	}
	for s := range syms {
		if !c.syms[s].isBool {
			if root, lo, hi, ok := c.univ(a, true); ok {
				if r := c.binRoot(a, b, root, lo, hi, f); r != nil {
					return r
				}
			}
			return nil
		}
	}
	s := sortedSyms(syms)[0]
	f1 := c.smallBin(c.cofactor(a, s, 1), c.cofactor(b, s, 1), f)
	f0 := c.smallBin(c.cofactor(a, s, 0), c.cofactor(b, s, 0), f)
	if f1 == nil || f0 == nil {
		return nil
	}
	return c.ite(s, f1, f0)
}

func (c *Ctx) binRoot(a, b, root *Poly, lo, hi int64, f func(x, y *big.Int) *big.Int) *Poly {
	vals := make([]*big.Int, hi-lo+1)
	for v := lo; v <= hi; v++ {
		x, ok := c.evalAt(a, root, v)
		if !ok {
			return nil
		}
		y, ok := c.evalAt(b, root, v)
		if !ok {
			return nil
		}
		vals[v-lo] = f(x, y)
	}
	return c.table(root, lo, hi, vals)
}

// bitDisjoint: one operand fits below the lowest bit of the other.
func (c *Ctx) bitDisjoint(a, b *Poly) bool {
	chk := func(lo, hi *Poly) bool {
		I, ok := c.tryBound(lo)
		if !ok || I.lo.Sign() < 0 {
			return false
		}
		m := uint(1 << 20)
		for _, co := range hi.terms {
			if v := v2(co); v < m {
				m = v
			}
		}
		if uint(I.hi.BitLen()) <= m {
			return true
		}
		return false
	}
	return chk(a, b) || chk(b, a) || c.bitRangesDisjoint(a, b)
}

// bitRangesDisjoint: sums of terms occupying disjoint bit positions.
func (c *Ctx) bitRangesDisjoint(a, b *Poly) bool {
	ra, ok := c.bitRanges(a)
	if !ok {
		return false
	}
	rb, ok := c.bitRanges(b)
	if !ok {
		return false
	}
	for _, x := range ra {
		for _, y := range rb {
			if x[0] < y[1] && y[0] < x[1] {
				return false
			}
		}
	}
	return true
}

// bitRanges partitions p, by growing valuation, into chunks that occupy disjoint bit ranges.
func (c *Ctx) bitRanges(p *Poly) ([][2]uint, bool) {
	if len(p.terms) > 64 {
		return nil, false
	}
	type term struct {
		k string
		c *big.Int
		v uint
	}
	var ts []term
	for k, co := range p.terms {
		ts = append(ts, term{k, co, v2(co)})
	}
	sort.Slice(ts, func(i, j int) bool {
		if ts[i].v != ts[j].v {
			return ts[i].v < ts[j].v
		}
		return ts[i].k < ts[j].k
	})
	var out [][2]uint
	i := 0
	for i < len(ts) {
		// grow a chunk until its bound fits below the next valuation
		chunk := newPoly()
		j := i
		for j < len(ts) {
			v := ts[j].v
			for j < len(ts) && ts[j].v == v {
				chunk.terms[ts[j].k] = ts[j].c
				j++
			}
			chunk.key = ""
			I, ok := c.tryBound(chunk.clone())
			if !ok {
				return nil, false
			}
			if I.lo.Sign() < 0 {
				continue
			}
			if j == len(ts) || uint(I.hi.BitLen()) <= ts[j].v {
				out = append(out, [2]uint{ts[i].v, uint(I.hi.BitLen())})
				break
			}
			if j == len(ts) {
				break
			}
		}
		if len(out) == 0 || out[len(out)-1][0] != ts[i].v {
			return nil, false
		}
		i = j
	}
	return out, true
}

// andPoly returns a & b for non-negative or two's complement operands of w bits.
func (c *Ctx) andPoly(a, b *Poly, Ia, Ib Interval, w uint, signed bool) *Poly {
	if v, ok := a.IsConst(); ok {
		if _, ok2 := b.IsConst(); !ok2 {
			return c.andPoly(b, a, Ib, Ia, w, signed)
		} else {
			vb, _ := b.IsConst()
			return constPoly(new(big.Int).And(v, vb))
		}
	}
	if a.Equal(b) {
		return a
	}
	if v, ok := b.IsConst(); ok {
		if v.Sign() == 0 {
			return intPoly(0)
		}
		if v.Cmp(big.NewInt(-1)) == 0 {
			return a
		}
		m := v
		if v.Sign() < 0 { // complement form: a & v = a - (a & ^v)
			nv := new(big.Int).Not(v)
			return a.Sub(c.andPoly(a, constPoly(nv), Ia, ivPoint(nv), w, signed))
		}
		// all bits of a covered?
		if Ia.lo.Sign() >= 0 && new(big.Int).Add(m, bigOne).BitLen() == m.BitLen()+1 && Ia.hi.Cmp(m) <= 0 {
			return a
		}
		if s := c.gatingBool(a); s != 0 {
			a1, a0 := c.cofactor(a, s, 1), c.cofactor(a, s, 0)
			return c.ite(s, c.andPoly(a1, b, c.bound(a1), Ib, w, signed), c.andPoly(a0, b, c.bound(a0), Ib, w, signed))
		}
		// a single or-symbol masked by 1
		if r := c.orBit0(a, m); r != nil {
			return r
		}
		r := newPoly()
		bit := uint(0)
		n := uint(m.BitLen())
		for bit < n {
			if m.Bit(int(bit)) == 0 {
				bit++
				continue
			}
			st := bit
			for bit < n && m.Bit(int(bit)) == 1 {
				bit++
			}
			// bits [st, bit)
			rl := ivShr(Ia, st)
			rh := ivShr(Ia, bit)
			lo := c.floorPoly(a, st, &rl)
			hi := c.floorPoly(a, bit, &rh)
			r = r.Add(lo.Scale(pow2(st))).Sub(hi.Scale(pow2(bit)))
		}
		c.setBound(r, iv(bigZero, m))
		return r
	}
	if c.isBoolPoly(a) && c.isBoolPoly(b) {
		return c.Mul(a, b)
	}
	// 0/1 mask times all ones
	for _, xy := range [][2]*Poly{{a, b}, {b, a}} {
		mk, x := xy[0], xy[1]
		if beta, ok := c.asMask(mk, w); ok {
			return c.Mul(beta, x)
		}
		// 0/1 and an arbitrary value: the low bit
		if c.isBoolPoly(mk) {
			one := c.andPoly(x, intPoly(1), c.bound(x), ivPoint(bigOne), w, signed)
			return c.Mul(mk, one)
		}
	}
	if r := c.smallBin(a, b, func(x, y *big.Int) *big.Int { return new(big.Int).And(x, y) }); r != nil {
		return r
	}
	I := iv(new(big.Int).Neg(pow2(w)), pow2(w))
	if Ia.lo.Sign() >= 0 {
		I = iv(bigZero, Ia.hi)
	}
	if Ib.lo.Sign() >= 0 {
		J := iv(bigZero, Ib.hi)
		if I.lo.Sign() >= 0 {
			I = ivMeet(I, J)
		} else {
			I = J
		}
	}
	if a.Key() > b.Key() {
		a, b = b, a
	}
	return c.opSym("and", []*Poly{a, b}, I)
}

func (c *Ctx) opSym(op string, args []*Poly, I Interval) *Poly {
	var ks []string
	for _, a := range args {
		ks = append(ks, a.Key())
	}
	s := c.keyed("op:"+op+":"+strings.Join(ks, "|"), func() *symInfo {
		return &symInfo{kind: kOp, op: op, args: args, I: I}
	})
	return symPoly(s)
}

// asMask recognises beta * (2^w - 1) or -beta with beta in {0,1}.
func (c *Ctx) asMask(p *Poly, w uint) (*Poly, bool) {
	n := p.Neg()
	if c.isBoolPoly(n) {
		return n, true
	}
	if w > 0 {
		full := new(big.Int).Sub(pow2(w), bigOne)
		if q, ok := p.DivExact(full); ok && c.isBoolPoly(q) {
			return q, true
		}
	}
	return nil, false
}

// ---- or ---------------------------------------------------------------------------

func (c *Ctx) orPoly(a, b *Poly, w uint, signed bool) *Poly {
	if a.Equal(b) || b.IsZero() {
		return a
	}
	if a.IsZero() {
		return b
	}
	if va, ok := a.IsConst(); ok {
		if vb, ok2 := b.IsConst(); ok2 {
			return constPoly(new(big.Int).Or(va, vb))
		}
	}
	if c.isBoolPoly(a) && c.isBoolPoly(b) {
		return a.Add(b).Sub(c.Mul(a, b))
	}
	if c.bitDisjoint(a, b) {
		return a.Add(b)
	}
	if r := c.smallBin(a, b, func(x, y *big.Int) *big.Int { return new(big.Int).Or(x, y) }); r != nil {
		return r
	}
	if r := c.orNeg(a, b, w, signed); r != nil {
		return r
	}
	for _, p := range []*Poly{a, b} {
		if s := c.gatingBool(p); s != 0 {
			f1 := c.orPoly(c.cofactor(a, s, 1), c.cofactor(b, s, 1), w, signed)
			f0 := c.orPoly(c.cofactor(a, s, 0), c.cofactor(b, s, 0), w, signed)
			return c.ite(s, f1, f0)
		}
	}
	return c.orParts(append(c.orSplit(a), c.orSplit(b)...), w)
}

// floorOr: floor of an affine function of an or of words that only depends on whether it is zero.
func (c *Ctx) floorOr(M *Poly, k uint) *Poly {
	if len(M.terms) > 2 {
		return nil
	}
	k0 := M.Const()
	X := M.Sub(constPoly(k0))
	if len(X.terms) != 1 {
		return nil
	}
	for key, co := range X.terms {
		fs := parseMono(key)
		if len(fs) != 1 || fs[0].e.Cmp(bigOne) != 0 || c.syms[fs[0].s].kind != kOr {
			return nil
		}
		I := c.syms[fs[0].s].I
		if I.lo.Sign() != 0 || I.hi.Sign() <= 0 {
			return nil
		}
		at := func(x *big.Int) *big.Int {
			y := new(big.Int).Mul(co, x)
			return y.Rsh(y.Add(y, k0), k)
		}
		v0, v1, vh := at(bigZero), at(bigOne), at(I.hi)
		if v1.Cmp(vh) != 0 || v0.Cmp(v1) == 0 {
			return nil
		}
		z := c.izInt(symPoly(fs[0].s))
		return z.Scale(new(big.Int).Sub(v0, v1)).Add(constPoly(v1))
	}
	return nil
}

// orNeg: the or of two words that are opposite modulo 2^w: its top bit tells zero from non-zero.
func (c *Ctx) orNeg(a, b *Poly, w uint, signed bool) *Poly {
	if w == 0 {
		return nil
	}
	sum := a.Add(b)
	if _, ok := sum.DivExact(pow2(w)); !ok {
		return nil
	}
	if len(b.terms) < len(a.terms) {
		a = b
	}
	nz := intPoly(1).Sub(c.izInt(a))
	I := iv(bigZero, new(big.Int).Sub(pow2(w-1), bigOne))
	low := c.opSym(fmt.Sprintf("opposites%d", w), []*Poly{a}, I)
	top := pow2(w - 1)
	if signed {
		top = new(big.Int).Neg(top)
	}
	return nz.Scale(top).Add(low)
}

// orSplit views p as a list of or-ed parts.
func (c *Ctx) orSplit(p *Poly) []orPart {
	if len(p.terms) == 1 {
		for key, co := range p.terms {
			fs := parseMono(key)
			if len(fs) == 1 && fs[0].e.Cmp(bigOne) == 0 && co.Cmp(bigOne) == 0 {
				si := c.syms[fs[0].s]
				if si.kind == kOr {
					return si.parts
				}
				if si.kind == kFloor && len(si.m.terms) == 1 {
					for k2, c2 := range si.m.terms {
						f2 := parseMono(k2)
						if len(f2) == 1 && c2.Cmp(bigOne) == 0 && c.syms[f2[0].s].kind == kOr {
							var r []orPart
							for _, q := range c.syms[f2[0].s].parts {
								r = append(r, orPart{q.p, q.sh + si.k})
							}
							return r
						}
					}
				}
			}
		}
	}
	return []orPart{{p, 0}}
}

func (c *Ctx) orParts(ps []orPart, w uint) *Poly {
	seen := map[string]orPart{}
	neg := false
	bits := 0
	for _, q := range ps {
		if q.p.IsZero() {
			continue
		}
		I := c.bound(q.p)
		if I.lo.Sign() < 0 {
			neg = true
		}
		if int(I.hi.BitLen())-int(q.sh) > bits {
			bits = int(I.hi.BitLen()) - int(q.sh)
		}
		seen[fmt.Sprintf("%04d:%s", q.sh, q.p.Key())] = q
	}
	ks := make([]string, 0, len(seen))
	for k := range seen {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	if len(ks) == 0 {
		return intPoly(0)
	}
	if len(ks) == 1 {
		q := seen[ks[0]]
		return c.floorPoly(q.p, q.sh, nil)
	}
	var parts []orPart
	for _, k := range ks {
		parts = append(parts, seen[k])
	}
	I := iv(bigZero, new(big.Int).Sub(pow2(uint(bits)), bigOne))
	if neg {
		I = iv(new(big.Int).Neg(pow2(w)), new(big.Int).Sub(pow2(w), bigOne))
	}
	s := c.keyed("or:"+strings.Join(ks, "|"), func() *symInfo {
		return &symInfo{kind: kOr, parts: parts, I: I, w: w}
	})
	return symPoly(s)
}

// orBit0 evaluates (or of parts) & 1.
func (c *Ctx) orBit0(a *Poly, m *big.Int) *Poly {
	if m.Cmp(bigOne) != 0 {
		return nil
	}
	ps := c.orSplit(a)
	if len(ps) == 1 && ps[0].sh == 0 {
		return nil
	}
	// per word: which shifts?
	type word struct {
		p  *Poly
		sh map[uint]bool
	}
	ws := map[string]*word{}
	for _, q := range ps {
		k := q.p.Key()
		if ws[k] == nil {
			ws[k] = &word{q.p, map[uint]bool{}}
		}
		ws[k].sh[q.sh] = true
	}
	var words []orPart
	acc := intPoly(0)
	keys := make([]string, 0)
	for k := range ws {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		x := ws[k]
		I := c.bound(x.p)
		if I.lo.Sign() < 0 {
			return nil
		}
		full := true
		for i := 0; i < I.hi.BitLen(); i++ {
			if !x.sh[uint(i)] {
				full = false
			}
		}
		if full {
			words = append(words, orPart{x.p, 0})
		} else {
			for sh := uint(0); sh < uint(I.hi.BitLen()); sh++ {
				if x.sh[sh] {
					lo := c.floorPoly(x.p, sh, nil)
					hi := c.floorPoly(x.p, sh+1, nil)
					bit := lo.Sub(hi.ScaleInt(2))
					c.setBound(bit, iv64(0, 1))
					acc = c.orBoolPoly(acc, bit)
				}
			}
		}
	}
	if len(words) > 0 {
		nz := c.orNonZero(words, 0)
		if nz == nil {
			return nil
		}
		acc = c.orBoolPoly(acc, nz)
	}
	return acc
}

func (c *Ctx) orBoolPoly(a, b *Poly) *Poly { return a.Add(b).Sub(c.Mul(a, b)) }

// orNonZero returns [some part is non-zero] for non-negative parts.
func (c *Ctx) orNonZero(ps []orPart, w uint) *Poly {
	var words []*Poly
	for _, q := range ps {
		I := c.bound(q.p)
		if I.lo.Sign() < 0 {
			return nil
		}
		x := q.p
		if q.sh > 0 {
			// dominated by an unshifted occurrence?
			dom := false
			for _, r := range ps {
				if r.sh == 0 && r.p.Equal(q.p) {
					dom = true
				}
			}
			if dom {
				continue
			}
			x = c.floorPoly(q.p, q.sh, nil)
		}
		words = append(words, x)
	}
	return intPoly(1).Sub(c.allZero(words))
}

// allZero returns [all words are zero] for non-negative words.  The words are
// combined into one number with positive weights, choosing adjacent digits of a
// larger number when they telescope.
func (c *Ctx) allZero(words []*Poly) *Poly {
	// try to chain: find order such that sum telescopes (fewest terms)
	ws := append([]*Poly(nil), words...)
	sort.Slice(ws, func(i, j int) bool { return ws[i].Key() < ws[j].Key() })
	if gr := c.coverGroup(ws); gr != nil {
		return c.izInt(gr.sum())
	}
	for len(ws) > 1 {
		best := -1
		bi, bj := 0, 0
		var bp *Poly
		for i := range ws {
			I := c.bound(ws[i])
			for j := range ws {
				if i == j {
					continue
				}
				for _, sh := range []uint{8, 16, 32, 64, 128, uint(I.hi.BitLen())} {
					if uint(I.hi.BitLen()) > sh {
						continue
					}
					s := ws[i].Add(ws[j].Scale(pow2(sh)))
					gain := len(ws[i].terms) + len(ws[j].terms) - len(s.terms)
					if gain > best {
						best, bi, bj, bp = gain, i, j, s
					}
				}
			}
		}
		J := ivAdd(c.bound(ws[bi]), ivScale(c.bound(ws[bj]), bigOne))
		_ = J
		// bounds of the combination
		lo := ws[bi]
		hi := ws[bj]
		_ = lo
		_ = hi
		nw := []*Poly{}
		for i := range ws {
			if i != bi && i != bj {
				nw = append(nw, ws[i])
			}
		}
		ws = append(nw, bp)
	}
	return c.izInt(ws[0])
}

// coverGroup: the words are exactly the limbs of one group.
func (c *Ctx) coverGroup(ws []*Poly) *Group {
	var g *Group
	seen := map[int]bool{}
	for _, p := range ws {
		if len(p.terms) != 1 {
			return nil
		}
		for key, co := range p.terms {
			fs := parseMono(key)
			if len(fs) != 1 || co.Cmp(bigOne) != 0 {
				return nil
			}
			si := c.syms[fs[0].s]
			if si.kind != kLimb || (g != nil && si.grp != g) {
				return nil
			}
			g = si.grp
			seen[si.idx] = true
		}
	}
	if g == nil || len(seen) != len(g.limbs) {
		return nil
	}
	return g
}
