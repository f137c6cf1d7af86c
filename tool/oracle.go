package main

// Partition of abstract states by cases.  The code that encodes, decodes and
// maps points is straight-line code over the field whose only decisions are
// signs, zero tests and whether a radicand is a square.  While an oracle is
// installed each of these decisions has been taken for the run at hand, so
// that every field value is a polynomial without case distinctions; all
// combinations of decisions are enumerated.  Roots are symbols q with the
// relation q^2 V = kappa.

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

type rootRel struct {
	q     Sym
	V     *Poly
	kappa *big.Int // q^2 V = kappa
	sq    bool
	// linear relation q*den = num instead
	num, den *Poly
}

type zeroRec struct {
	P    *Poly
	zero bool
}

type signRec struct {
	A   *Poly
	neg int64
	h   *Poly
}

type oracle struct {
	c        *Ctx
	dec      []int
	max      []int
	what     []string
	pos      int
	zeros    []zeroRec
	signs    []signRec
	roots    []*rootRel
	free     []*rootRel // values returned for non-squares by functions that do not allow them
	square   bool       // radicands are squares
	hints    []rootHint
	mono     []monoRel
	zeroSyms []Sym
	prune    bool // zero tests are decided by the zeros in the field where possible
}

// rootHint: a candidate for an inverse root of a later radicand, q = num/den.
type rootHint struct{ num, den *Poly }

// monoRel: x^2 = P.
type monoRel struct {
	x Sym
	P *Poly
}

func (o *oracle) choose(n int, what string) int {
	if o.pos == len(o.dec) {
		o.dec = append(o.dec, 0)
		o.max = append(o.max, n)
		o.what = append(o.what, what)
	}
	o.max[o.pos] = n
	o.what[o.pos] = what
	o.pos++
	if o.pos > 40 {
		panic(undecided("too many case distinctions"))
	}
	return o.dec[o.pos-1]
}

func (o *oracle) String() string {
	s := ""
	for i, w := range o.what {
		if i < o.pos {
			s += fmt.Sprintf("%s=%d ", w, o.dec[i])
		}
	}
	return s
}

// byCases runs f once for each combination of decisions.
func (b *bench) byCases(f func(o *oracle)) {
	var dec []int
	for n := 0; ; n++ {
		if n > 3000 {
			panic(undecided("too many cases"))
		}
		o := &oracle{c: b.c, dec: dec, max: make([]int, len(dec)), what: make([]string, len(dec))}
		b.c.orc = o
		func() {
			defer func() { b.c.orc = nil }()
			f(o)
		}()
		b.rep.count("cases", 1)
		dec = append([]int(nil), o.dec[:o.pos]...)
		i := len(dec) - 1
		for i >= 0 && dec[i]+1 >= o.max[i] {
			i--
		}
		if i < 0 {
			return
		}
		dec = dec[:i+1]
		dec[i]++
	}
}

// off suspends the oracle.
func (c *Ctx) withoutOracle() func() {
	o := c.orc
	c.orc = nil
	return func() { c.orc = o }
}

// parts splits P into polynomials that all vanish if P does, and whose
// vanishing implies that of P: relations of roots are eliminated.
func (o *oracle) parts(P *Poly) []*Poly {
	P = o.atZero(o.c.unfold(Fp, P))
	out := []*Poly{P}
	for i := len(o.roots) - 1; i >= 0; i-- {
		r := o.roots[i]
		var next []*Poly
		for _, Q := range out {
			next = append(next, o.elimRoot(r, Q)...)
		}
		out = next
	}
	for _, m := range o.mono {
		for i := range out {
			out[i] = o.elimMono(m, out[i])
		}
	}
	return out
}

// atZero replaces the variables that are zero in this case.
func (o *oracle) atZero(P *Poly) *Poly {
	for _, s := range o.zeroSyms {
		by, _ := o.c.byPower(P, s)
		if P = by[0]; P == nil {
			return newPoly()
		}
	}
	return P
}

// byPower splits P by the powers of s.
func (c *Ctx) byPower(P *Poly, s Sym) (map[int64]*Poly, int64) {
	r := map[int64]*Poly{}
	var top int64
	for k, co := range P.terms {
		var e int64
		var keep []factor
		for _, fa := range parseMono(k) {
			if fa.s == s {
				if !fa.e.IsInt64() || fa.e.Int64() > 64 {
					panic(undecided("large power of a root"))
				}
				e = fa.e.Int64()
				continue
			}
			keep = append(keep, fa)
		}
		if r[e] == nil {
			r[e] = newPoly()
		}
		r[e].addTerm(monoKey(keep), co)
		if e > top {
			top = e
		}
	}
	return r, top
}

func (c *Ctx) smallPow(P *Poly, n int64) *Poly {
	t := intPoly(1)
	for i := int64(0); i < n; i++ {
		t = c.unfold(Fp, c.MulM(t, P, primeP))
		if len(t.terms) > maxTerms {
			panic(undecided("field polynomial grows too large"))
		}
	}
	return t
}

func (o *oracle) elimRoot(r *rootRel, P *Poly) []*Poly {
	c := o.c
	by, top := c.byPower(P, r.q)
	if top == 0 {
		return []*Poly{P}
	}
	if r.den != nil {
		t := newPoly()
		for e, C := range by {
			x := c.MulM(c.MulM(C, c.smallPow(r.num, e), primeP), c.smallPow(r.den, top-e), primeP)
			t = t.Add(x)
		}
		return []*Poly{c.unfold(Fp, t)}
	}
	M := top / 2
	var t [2]*Poly
	t[0], t[1] = newPoly(), newPoly()
	V := c.unfold(Fp, r.V)
	for e, C := range by {
		m := e / 2
		x := C.Scale(new(big.Int).Exp(r.kappa, big.NewInt(m), primeP))
		if M-m > 0 {
			x = c.MulM(x, c.smallPow(V, M-m), primeP)
		}
		t[e%2] = t[e%2].Add(x)
	}
	return []*Poly{c.unfold(Fp, t[0]), c.unfold(Fp, t[1])}
}

func (o *oracle) elimMono(m monoRel, P *Poly) *Poly {
	c := o.c
	by, top := c.byPower(P, m.x)
	if top < 2 {
		return P
	}
	t := newPoly()
	for e, C := range by {
		x := c.MulM(C, c.smallPow(m.P, e/2), primeP)
		if e%2 == 1 {
			x = c.MulM(x, symPoly(m.x), primeP)
		}
		t = t.Add(x)
	}
	return c.unfold(Fp, t)
}

// vanishes: P is zero by the relations.
func (o *oracle) vanishes(P *Poly) bool {
	for _, Q := range o.parts(P) {
		if !Q.IsZero() {
			return false
		}
	}
	return true
}

func (o *oracle) equal(A, B *Poly) bool { return o.vanishes(A.Sub(B).Mod(primeP)) }

// isZero decides whether A is zero in this case.
func (o *oracle) isZero(A *Poly) bool {
	c := o.c
	A = c.fold(Fp, A)
	for k := range A.terms {
		for _, fa := range parseMono(k) {
			si := c.syms[fa.s]
			if si.isBool {
				panic(undecided("zero test of a value with an undecided case: %s", c.str(A)))
			}
			if si.unit {
				continue
			}
			U := symPoly(fa.s)
			if si.kind == kW || si.kind == kRho {
				U = si.fp
			}
			if o.zeroAtom(U) {
				return true
			}
		}
		return false
	}
	return true
}

// monic scales P so that its leading term has coefficient one.
func (c *Ctx) monic(P *Poly) *Poly {
	top := ""
	for k := range P.terms {
		if k >= top {
			top = k
		}
	}
	if len(P.terms) == 0 {
		return P
	}
	return P.Scale(Fp.inv(P.terms[top])).Mod(primeP)
}

func (o *oracle) zeroAtom(U *Poly) bool {
	c := o.c
	U = c.monic(c.unfold(Fp, U))
	if b := c.firstBool(U, map[Sym]bool{}); b != 0 {
		panic(undecided("zero test of a value with an undecided case: %s", c.str(U)))
	}
	if v, ok := U.IsConst(); ok {
		return v.Sign() == 0
	}
	if o.vanishes(U) {
		return true
	}
	for _, z := range o.zeros {
		if o.equal(U, z.P) || o.equal(U, z.P.Neg()) {
			return z.zero
		}
	}
	// up to a constant factor, without roots
	ps := o.parts(U)
	nz := 0
	var R *Poly
	for _, q := range ps {
		if !q.IsZero() {
			nz++
			R = q
		}
	}
	if nz == 1 {
		if _, ok := R.IsConst(); ok {
			return false
		}
		F := c.fold(Fp, R)
		for k := range F.terms {
			fs := parseMono(k)
			if len(fs) > 1 || !R.Equal(U) {
				// a product, or an expression that has become simpler
				for _, fa := range fs {
					si := c.syms[fa.s]
					if si.unit {
						continue
					}
					G := symPoly(fa.s)
					if si.kind == kW {
						G = si.fp
					}
					if G.Equal(U) {
						continue
					}
					if o.zeroAtom(G) {
						return true
					}
				}
				return false
			}
		}
	}
	if o.prune && o.noZeros(U) {
		return false
	}
	z := o.choose(2, "zero["+c.brief(U, 6)+"]") == 1
	o.zeros = append(o.zeros, zeroRec{U, z})
	if s := anySym(U); z && U.Equal(symPoly(s)) {
		o.zeroSyms = append(o.zeroSyms, s)
	}
	return z
}

// sign decides the parity of the representative of A and names its half.
func (o *oracle) sign(A *Poly) (int64, *Poly) {
	c := o.c
	A = c.unfold(Fp, A)
	if v, ok := A.IsConst(); ok {
		v = new(big.Int).Mod(v, primeP)
		return int64(v.Bit(0)), constPoly(new(big.Int).Rsh(v, 1))
	}
	if c.firstBool(A, map[Sym]bool{}) != 0 {
		panic(undecided("sign of a value with an undecided case: %s", c.str(A)))
	}
	for _, s := range o.signs {
		if s.A.Equal(A) {
			return s.neg, s.h
		}
	}
	if o.isZero(A) {
		return 0, newPoly()
	}
	half := new(big.Int).Rsh(Fp.pm1, 1)
	for _, s := range o.signs {
		if o.equal(A, s.A) {
			return s.neg, s.h
		}
		if o.equal(A, s.A.Neg()) {
			return 1 - s.neg, constPoly(half).Sub(s.h)
		}
	}
	n := int64(o.choose(2, "negative["+c.brief(A, 6)+"]"))
	hs := c.keyed(fmt.Sprintf("half%d:p:%s", n, A.Key()), func() *symInfo {
		return &symInfo{kind: kH, fld: Fp, fp: A, I: iv(bigZero, half)}
	})
	h := symPoly(hs)
	o.signs = append(o.signs, signRec{A, n, h})
	return n, h
}

// root returns an inverse root of V (of V/kappa) in this case.
func (o *oracle) root(V *Poly, both bool) (q *Poly, zero, square bool) {
	c := o.c
	V = c.fold(Fp, V)
	if o.isZero(V) {
		return newPoly(), true, false
	}
	for _, r := range o.roots {
		if r.V != nil && o.equal(V, r.V) {
			return symPoly(r.q), false, r.sq
		}
	}
	for _, r := range o.free {
		if o.equal(V, r.V) {
			return symPoly(r.q), false, false
		}
	}
	for _, h := range o.hints {
		if o.vanishes(h.den) {
			continue
		}
		// V num^2 = kappa den^2 for kappa = 1 or -i
		for ki, k := range []*big.Int{bigOne, new(big.Int).Sub(primeP, sqrtM1)} {
			n2 := c.MulM(h.num, h.num, primeP)
			d2 := c.MulM(h.den, h.den, primeP)
			if o.vanishes(c.MulM(V, n2, primeP).Sub(d2.Scale(k)).Mod(primeP)) {
				if o.isZero(h.den) {
					panic(undecided("a radicand vanishes: %s, hint %s (%s)", c.brief(V, 6), c.brief(h.den, 4), o))
				}
				r := &rootRel{q: c.fvar(Fp, fmt.Sprintf("q%d", len(o.roots)), true), V: V, sq: ki == 0, num: h.num, den: h.den}
				if o.choose(2, "root") == 1 {
					r.num = h.num.Neg().Mod(primeP)
				}
				o.roots = append(o.roots, r)
				return symPoly(r.q), false, r.sq
			}
		}
	}
	sq := o.square
	if k, ok := o.atZero(c.unfold(Fp, V)).IsConst(); ok && !sq {
		sq = big.Jacobi(new(big.Int).Mod(k, primeP), primeP) == 1
	} else if !sq {
		sq = o.choose(2, "non-square["+c.brief(V, 6)+"]") == 0
	}
	if !sq && !both {
		// nothing is known of the value, except that it is no inverse root
		r := &rootRel{q: c.fvar(Fp, fmt.Sprintf("g%d", len(o.free)), false), V: V}
		o.free = append(o.free, r)
		q := symPoly(r.q)
		w := c.unfold(Fp, c.MulM(c.MulM(q, q, primeP), V, primeP).Sub(intPoly(1)))
		o.zeros = append(o.zeros, zeroRec{c.monic(w), false})
		return q, false, false
	}
	r := &rootRel{q: c.fvar(Fp, fmt.Sprintf("q%d", len(o.roots)), true), V: V, kappa: bigOne, sq: sq}
	if !sq {
		r.kappa = new(big.Int).Sub(primeP, sqrtM1) // i q^2 V = 1
	}
	o.roots = append(o.roots, r)
	return symPoly(r.q), false, sq
}

// abs returns the non-negative one of A and -A.
func (o *oracle) abs(A *Poly) *Poly {
	if n, _ := o.sign(A); n == 1 {
		return o.c.fold(Fp, A.Neg())
	}
	return A
}

// rootFn: 1 for InvSqrt, 2 for InvSqrtI.
func (it *Interp) rootFn(fn *ssa.Function) int {
	if fn.Signature.Recv() == nil || len(fn.Params) != 2 {
		return 0
	}
	pt, ok := fn.Signature.Recv().Type().(*types.Pointer)
	if !ok || !sameType(pt.Elem(), it.p.fe().t) || !sameType(fn.Params[1].Type(), pt) {
		return 0
	}
	switch fn.Name() {
	case "InvSqrt":
		return 1
	case "InvSqrtI":
		return 2
	}
	return 0
}

// usesRoot: the function takes roots, directly or through calls.
func (it *Interp) usesRoot(fn *ssa.Function) bool {
	if v, ok := it.p.roots[fn]; ok {
		return v
	}
	if it.p.roots == nil {
		it.p.roots = map[*ssa.Function]bool{}
	}
	it.p.roots[fn] = false
	r := false
	for _, bl := range fn.Blocks {
		for _, in := range bl.Instrs {
			for _, op := range in.Operands(nil) {
				if v, ok := (*op).(*ssa.Function); ok {
					if it.rootFn(v) != 0 || v.Blocks != nil && it.usesRoot(v) {
						r = true
					}
				}
			}
		}
	}
	it.p.roots[fn] = r
	return r
}

// callRoot applies the contract of the root functions (established by rootCases).
func (it *Interp) callRoot(kind int, fn *ssa.Function, args []Val, st *State, in ssa.Instruction) []outcome {
	c := it.c
	o := c.orc
	src, ok1 := args[1].(PtrV)
	dst, ok2 := args[0].(PtrV)
	if !ok1 || !ok2 {
		panic(undecided("root of an unknown operand"))
	}
	v := it.viewLeaf(st, src.obj, src.off, leafFE)
	if v == nil || v.V == nil {
		panic(undecided("the operand of a root has no closed value"))
	}
	q, zero, sq := o.root(v.V, kind == 2)
	// limb bounds: by the analysis of the function on an arbitrary operand within the same bounds
	n := it.p.fe().n
	lim := v.lim
	if len(lim) != n {
		lim = nil
		for i := 0; i < n; i++ {
			lim = append(lim, roundOut(it.bnd(st, it.asInt(it.load1(st, src.obj, src.off+i)))))
		}
	}
	t := it.p.fe().t
	st2 := newState()
	a := it.newObj(st2, "a", t, n)
	r := it.newObj(st2, "r", t, n)
	for i := 0; i < n; i++ {
		it.store1(st2, r, i, constInt(0))
	}
	restore := c.withoutOracle()
	it.putFE(st2, a, 0, "a", symPoly(c.fvar(Fp, "radicand", false)), lim)
	outs, ok := it.summarized(fn, []Val{PtrV{r, 0}, PtrV{a, 0}}, st2, in)
	restore()
	if !ok || len(outs) != 1 {
		panic(undecided("%s is not summarised", fn.Name()))
	}
	w := it.viewLeaf(outs[0].st, r, 0, leafFE)
	if w == nil {
		panic(undecided("%s has no closed value", fn.Name()))
	}
	rl := w.lim
	if len(rl) != n {
		rl = nil
		for i := 0; i < n; i++ {
			rl = append(rl, roundOut(it.bnd(outs[0].st, it.asInt(it.load1(outs[0].st, r, i)))))
		}
	}
	it.putFE(st, dst.obj, dst.off, "root", q, rl)
	if kind == 1 {
		return one(dst, st)
	}
	ret := int64(0)
	if sq && !zero {
		ret = 1
	}
	return one(constInt(ret), st)
}
