package main

// C05 to C08: encoding, decoding, equality and the map to points, compared
// with the formulas of RFC 9496.

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

const (
	ruleC05 = "abstract interpretation of the encoder on an arbitrary representation of an arbitrary even point, partitioned by the signs taken: in every case the bytes are those of the polynomial that ENCODE of RFC 9496 specifies, modulo the relations of the inverse root; the point's cells are not written"
	ruleC06 = "abstract interpretation of the decoder on every byte string, partitioned by canonical/non-canonical input, signs, zero tests and squareness of the radicand: in every case the result and, on success, the point are those that DECODE of RFC 9496 specifies"
	ruleC07 = "abstract interpretation of the equality tests on arbitrary representations of two arbitrary points: the result is [x1 y2 = y1 x2] or [x1 x2 = y1 y2], the condition for Ristretto equality"
	ruleC08 = "abstract interpretation of the map to points on every byte string, partitioned by squareness, signs and zero tests: in every case the coordinates are those of the point MAP of RFC 9496 specifies; derivations apply it to the SHA-512 digest"
)

// constants of RFC 9496
var (
	one9496     = bigOne
	dMinus1Sq   = modp(func(z *big.Int) *big.Int { z.Sub(curveD, bigOne); return z.Mul(z, z) })
	oneMinusDSq = modp(func(z *big.Int) *big.Int { z.Mul(curveD, curveD); return z.Sub(bigOne, z) })
	// SQRT_AD_MINUS_ONE and INVSQRT_A_MINUS_D as given in the RFC
	sqrtADm1, _   = new(big.Int).SetString("25063068953384623474111414158702152701244531502492656460079210482610430750235", 10)
	invSqrtAmD, _ = new(big.Int).SetString("54469307008909316920995813868745141605393597292927456921205312896311721017578", 10)
)

func modp(f func(z *big.Int) *big.Int) *big.Int {
	r := f(new(big.Int))
	return r.Mod(r, primeP)
}

func init() {
	// the printed constants satisfy their definitions
	x := new(big.Int).Mul(sqrtADm1, sqrtADm1)
	x.Add(x, curveD).Add(x, bigOne).Mod(x, primeP)
	y := new(big.Int).Mul(invSqrtAmD, invSqrtAmD)
	z := new(big.Int).Add(curveD, bigOne)
	y.Mul(y, z).Add(y, bigOne).Mod(y, primeP)
	if x.Sign() != 0 || y.Sign() != 0 {
		panic("constants")
	}
	assume := []string{
		"points are even and satisfy the curve equation with non-zero Z (every exported operation of C01 to C09 establishes it)",
		"for even points the radicand of the encoder is a square (Hamburg, Decaf; RFC 9496)",
	}
	checks["C05"] = checkFn{rule: ruleC05, run: runC05, floor: map[string]int{"methods": 4, "cases": 8}, assume: assume}
	checks["C06"] = checkFn{rule: ruleC06, run: runC06, floor: map[string]int{"methods": 2, "cases": 8}, assume: nil}
	checks["C07"] = checkFn{rule: ruleC07, run: runC07, floor: map[string]int{"methods": 4}, assume: assume[:1]}
	checks["C08"] = checkFn{rule: ruleC08, run: runC08, floor: map[string]int{"methods": 6, "cases": 8}, assume: []string{
		"MAP of RFC 9496 yields valid points", "completeness of the twisted Edwards addition law for a=-1 and non-square d"}}
}

// fp arithmetic of specifications
type spec struct {
	c *Ctx
	o *oracle
}

func (s spec) mul(xs ...*Poly) *Poly {
	r := intPoly(1)
	for _, x := range xs {
		r = s.c.fold(Fp, s.c.MulM(r, x, primeP))
	}
	return r
}
func (s spec) add(x, y *Poly) *Poly        { return s.c.fold(Fp, x.Add(y)) }
func (s spec) sub(x, y *Poly) *Poly        { return s.c.fold(Fp, x.Sub(y)) }
func (s spec) neg(x *Poly) *Poly           { return s.c.fold(Fp, x.Neg()) }
func (s spec) k(x *Poly, v *big.Int) *Poly { return s.c.fold(Fp, x.Scale(v)) }
func (s spec) isNeg(x *Poly) bool          { n, _ := s.o.sign(x); return n == 1 }
func (s spec) konst(v *big.Int) *Poly      { return constPoly(v) }

// sqrtRatio is SQRT_RATIO_M1 with the root taken of the product u*v.
func (s spec) sqrtRatio(u, v *Poly, both bool) (bool, *Poly) {
	q, zero, sq := s.o.root(s.mul(u, v), both)
	if zero {
		return s.o.isZero(u), newPoly()
	}
	r := s.mul(u, q)
	if !sq {
		r = s.k(r, sqrtM1)
	}
	return sq, s.o.abs(r)
}

// encode is ENCODE.
func (s spec) encode(x0, y0, z0, t0 *Poly) *Poly {
	u1 := s.mul(s.add(z0, y0), s.sub(z0, y0))
	u2 := s.mul(x0, y0)
	_, inv := s.sqrtRatio(intPoly(1), s.mul(u1, u2, u2), false)
	den1, den2 := s.mul(inv, u1), s.mul(inv, u2)
	zinv := s.mul(den1, den2, t0)
	x, y, den := x0, y0, den2
	if s.isNeg(s.mul(t0, zinv)) {
		x, y, den = s.k(y0, sqrtM1), s.k(x0, sqrtM1), s.k(den1, invSqrtAmD)
	}
	if s.isNeg(s.mul(x, zinv)) {
		y = s.neg(y)
	}
	return s.o.abs(s.mul(den, s.sub(z0, y)))
}

// decode is DECODE for a canonical, non-negative s.
func (s spec) decode(v *Poly) (ok bool, x, y *Poly) {
	if s.isNeg(v) {
		return false, nil, nil
	}
	ss := s.mul(v, v)
	u1, u2 := s.sub(intPoly(1), ss), s.add(intPoly(1), ss)
	u2s := s.mul(u2, u2)
	w := s.sub(s.neg(s.k(s.mul(u1, u1), curveD)), u2s)
	sq, inv := s.sqrtRatio(intPoly(1), s.mul(w, u2s), false)
	if !sq {
		return false, nil, nil
	}
	dx := s.mul(inv, u2)
	dy := s.mul(inv, dx, w)
	x = s.o.abs(s.k(s.mul(v, dx), bigTwo))
	y = s.mul(u1, dy)
	if s.isNeg(s.mul(x, y)) || s.o.isZero(y) {
		return false, nil, nil
	}
	return true, x, y
}

// elligator is MAP; the point is (X:Y:Z).
func (s spec) elligator(t *Poly) (X, Y, Z *Poly) {
	one := intPoly(1)
	r := s.k(s.mul(t, t), sqrtM1)
	u := s.k(s.add(r, one), oneMinusDSq)
	v := s.mul(s.sub(s.neg(s.k(r, curveD)), one), s.add(r, s.konst(curveD)))
	sq, sv := s.sqrtRatio(u, v, true)
	c := one.Neg()
	if !sq {
		sv = s.neg(s.o.abs(s.mul(sv, t)))
		c = r
	}
	N := s.sub(s.k(s.mul(c, s.sub(r, one)), dMinus1Sq), v)
	w0 := s.k(s.mul(sv, v), bigTwo)
	w1 := s.k(N, sqrtADm1)
	w2 := s.sub(one, s.mul(sv, sv))
	w3 := s.add(one, s.mul(sv, sv))
	return s.mul(w0, w3), s.mul(w2, w1), s.mul(w1, w3)
}

// newCaseBench prepares a run with an oracle.
func newCaseBench(p *Program, rep *Report, rule string) *bench {
	b := newBench(p, rep, rule)
	p.invariants()
	b.it.naming = true
	return b
}

// rootContract checks the functions the cases rely on.
func (b *bench) rootContract(names ...string) {
	for _, nm := range names {
		b.guard("FieldElement."+nm, func() {
			b.rootOf(nm, b.method(b.p.ed, "FieldElement", nm), newState())
		})
	}
}

// coords returns the values of the coordinates of an extended point.
func (b *bench) coords(st *State, p PtrV) []*Poly {
	n := b.p.fe().n
	var r []*Poly
	for i := 0; i < 4; i++ {
		v := b.it.viewLeaf(st, p.obj, p.off+i*n, leafFE)
		if v == nil || v.V == nil {
			return nil
		}
		r = append(r, v.V)
	}
	return r
}

// isSpecPoint checks that p represents the Ristretto element of (X:Y:Z).
func (b *bench) isSpecPoint(st *State, o *oracle, p PtrV, X, Y, Z *Poly, what string) bool {
	s := spec{b.c, o}
	v := b.coords(st, p)
	if v == nil {
		b.fail("%s (%s): the coordinates have no closed value", what, o)
		return false
	}
	dy := v[2] // denominator of y
	if b.it.pointKind(p.obj.typ) == ptComp {
		dy = v[3]
	} else if !o.equal(s.mul(v[0], v[1]), s.mul(v[2], v[3])) {
		b.fail("%s (%s): the coordinates do not satisfy XY = ZT", what, o)
		return false
	}
	same := func(x, y *Poly) bool {
		return o.equal(s.mul(v[0], Z), s.mul(v[2], x)) && o.equal(s.mul(v[1], Z), s.mul(dy, y))
	}
	iX, iY := s.k(X, sqrtM1), s.k(Y, sqrtM1)
	if !same(X, Y) && !same(s.neg(X), s.neg(Y)) && !same(iY, iX) && !same(s.neg(iY), s.neg(iX)) {
		b.fail("%s (%s): the point is not the one specified: (%s : %s : %s)", what, o, b.c.brief(v[0], 4), b.c.brief(v[1], 4), b.c.brief(v[2], 4))
		return false
	}
	if !o.nonZero(v[2]) || !o.nonZero(dy) {
		b.fail("%s (%s): Z is not shown to be non-zero: %s", what, o, b.c.brief(v[2], 8))
		return false
	}
	b.rep.count("points compared", 1)
	return true
}

// nonZero shows, without taking decisions, that A does not vanish.
func (o *oracle) nonZero(A *Poly) bool {
	c := o.c
	A = c.fold(Fp, A)
	for k := range A.terms {
		for _, fa := range parseMono(k) {
			si := c.syms[fa.s]
			if si.unit {
				continue
			}
			U := symPoly(fa.s)
			if si.kind == kW {
				U = c.monic(c.unfold(Fp, si.fp))
			}
			known := false
			for _, z := range o.zeros {
				if !z.zero && (o.equal(U, z.P) || o.equal(U, z.P.Neg())) {
					known = true
				}
			}
			if !known && !o.noZeros(U) {
				return false
			}
		}
		return true
	}
	return false
}

// noZeros: no value of the single variable makes P vanish.
func (o *oracle) noZeros(P *Poly) bool {
	c := o.c
	P = c.unfold(Fp, P)
	// the norm with respect to each root, last first
	for i := len(o.roots) - 1; i >= 0; i-- {
		r := o.roots[i]
		ps := o.elimRoot(r, P)
		if len(ps) == 1 {
			P = ps[0]
			continue
		}
		a2 := c.MulM(c.MulM(ps[0], ps[0], primeP), c.unfold(Fp, r.V), primeP)
		b2 := c.MulM(ps[1], ps[1], primeP).Scale(r.kappa)
		P = c.unfold(Fp, a2.Sub(b2))
	}
	for _, m := range o.mono {
		P = o.elimMono(m, P)
		by, top := c.byPower(P, m.x)
		if top == 0 {
			continue
		}
		b0 := by[0]
		if b0 == nil {
			b0 = newPoly()
		}
		P = c.unfold(Fp, c.MulM(b0, b0, primeP).Sub(c.MulM(c.MulM(by[1], by[1], primeP), m.P, primeP)))
	}
	var x Sym
	for s := range P.Syms() {
		if x != 0 && s != x {
			return false
		}
		x = s
	}
	if x == 0 {
		return !P.IsZero()
	}
	f := c.coeffs(P, x)
	g := rootPart(f)
	if len(g) == 1 {
		return true
	}
	// zeros excluded by what is known not to vanish
	known := intPoly(1)
	one := func(Q *Poly) {
		Q = c.unfold(Fp, Q)
		for s := range Q.Syms() {
			if s != x {
				return
			}
		}
		known = c.MulM(known, Q, primeP)
	}
	for _, r := range o.roots {
		if r.V != nil {
			one(r.V)
		}
	}
	for _, z := range o.zeros {
		if !z.zero {
			one(z.P)
		}
	}
	return len(polyRem(c.coeffs(known, x), g)) == 0
}

// coeffs lists the coefficients of a polynomial in x alone.
func (c *Ctx) coeffs(P *Poly, x Sym) []*big.Int {
	by, top := c.byPower(P, x)
	f := make([]*big.Int, top+1)
	for i := range f {
		f[i] = new(big.Int)
		if q := by[int64(i)]; q != nil {
			f[i] = new(big.Int).Mod(q.Const(), primeP)
		}
	}
	return f
}

func polyTrim(a []*big.Int) []*big.Int {
	for len(a) > 0 && a[len(a)-1].Sign() == 0 {
		a = a[:len(a)-1]
	}
	return a
}

func polyRem(a, m []*big.Int) []*big.Int {
	a = append([]*big.Int(nil), a...)
	inv := new(big.Int).ModInverse(m[len(m)-1], primeP)
	for a = polyTrim(a); len(a) >= len(m); a = polyTrim(a) {
		q := new(big.Int).Mul(a[len(a)-1], inv)
		q.Mod(q, primeP)
		d := len(a) - len(m)
		for i := range m {
			t := new(big.Int).Mul(q, m[i])
			t.Sub(a[d+i], t)
			a[d+i] = t.Mod(t, primeP)
		}
	}
	return a
}

// rootPart returns gcd(x^p - x, f), the product of x - a over the zeros a of f.
func rootPart(f []*big.Int) []*big.Int {
	mul := func(a, b []*big.Int) []*big.Int {
		if len(a) == 0 || len(b) == 0 {
			return nil
		}
		r := make([]*big.Int, len(a)+len(b)-1)
		for i := range r {
			r[i] = new(big.Int)
		}
		for i := range a {
			for j := range b {
				r[i+j].Add(r[i+j], new(big.Int).Mul(a[i], b[j]))
			}
		}
		for i := range r {
			r[i].Mod(r[i], primeP)
		}
		return r
	}
	f = polyTrim(f)
	if len(f) <= 1 {
		return f
	}
	x := polyRem([]*big.Int{new(big.Int), bigOne}, f)
	r := []*big.Int{bigOne}
	for i := primeP.BitLen() - 1; i >= 0; i-- {
		r = polyRem(mul(r, r), f)
		if primeP.Bit(i) == 1 {
			r = polyRem(mul(r, x), f)
		}
	}
	for len(r) < 2 {
		r = append(r, new(big.Int))
	}
	r[1] = new(big.Int).Mod(new(big.Int).Sub(r[1], bigOne), primeP)
	a, b := f, polyTrim(r)
	for len(b) > 0 {
		a, b = b, polyRem(a, b)
	}
	return a
}

func runC05(e *Env, rep *Report) {
	for _, p := range e.configs {
		b := newCaseBench(p, rep, ruleC05)
		b.rootContract("InvSqrt")
		enc := func(pk *ssa.Package, typ, name string) {
			b.guard(typ+"."+name, func() {
				fn := b.method(pk, typ, name)
				rep.count("methods", 1)
				for alt := range b.p.invariants()["ExtendedPoint"] {
					b.byCases(func(o *oracle) {
						o.square = true
						st := newState()
						q, _ := b.newPoint(st, "P", alt)
						v := b.coords(st, q)
						before := b.snapshot(st, q.obj)
						args := []Val{q}
						var buf PtrV
						if len(fn.Params) == 2 {
							buf, _ = b.newBytes(st, "buf", 32)
							args = append(args, buf)
						}
						for _, out := range b.run(fn, args, st) {
							var got []*Poly
							if len(fn.Params) == 2 {
								got = b.cellsAt(out.st, buf.obj, 0, 32)
								b.retIs(out, q)
							} else {
								sl, ok := out.ret.(SliceV)
								n, known := b.it.sliceKnown(out.st, sl)
								if !ok || !known || n != 32 {
									b.fail("the result is not a slice of 32 bytes")
									continue
								}
								got = b.cellsAt(out.st, sl.obj, sl.off, 32)
							}
							want := spec{b.c, o}.encode(v[0], v[1], v[2], v[3])
							b.isBytes(out.st, got, b.c.canon(Fp, want), "encoding ("+o.String()+")")
							b.same(out.st, q.obj, before, "the point")
						}
					})
				}
			})
		}
		enc(p.rist, "Point", "BytesInto")
		enc(p.rist, "Point", "Bytes")
	}
}

func runC06(e *Env, rep *Report) {
	for _, p := range e.configs {
		b := newCaseBench(p, rep, ruleC06)
		b.rootContract("InvSqrt")
		b.guard("Point.SetBytes", func() {
			fn := b.method(p.rist, "Point", "SetBytes")
			rep.count("methods", 1)
			b.decodes(fn, func(st *State, buf PtrV) (args []Val, r PtrV) {
				r, _ = b.newPoint(st, "R", 0)
				return []Val{r, buf}, r
			})
		})
	}
}

// decodes compares a decoder of 32 bytes with DECODE.
func (b *bench) decodes(fn *ssa.Function, mk func(st *State, buf PtrV) ([]Val, PtrV)) {
	// the bytes are the canonical encoding of a field element
	naming := b.it.naming
	b.it.naming = false
	defer func() { b.it.naming = naming }()
	b.byCases(func(o *oracle) {
		st := newState()
		buf, _ := b.newBytes(st, "buf", 32)
		s := symPoly(b.c.fvar(Fp, "s", false))
		for i, d := range b.c.digitsOf(b.c.canon(Fp, s), byteW(32), 0) {
			b.it.store1(st, buf.obj, i, d)
		}
		before := b.snapshot(st, buf.obj)
		args, r := mk(st, buf)
		for _, out := range b.run(fn, args, st) {
			ok, x, y := spec{b.c, o}.decode(s)
			w := int64(0)
			if ok {
				w = 1
			}
			got, isC := b.it.norm(out.st, b.it.asInt(out.ret)).konst()
			if !isC || !got.IsInt64() || got.Int64() != w {
				b.fail("result %s for canonical input, specified is %d (%s)", b.c.str(b.it.asInt(out.ret).P), w, o)
				continue
			}
			b.rep.count("results compared", 1)
			if ok {
				b.isSpecPoint(out.st, o, r, x, y, intPoly(1), "decoded point")
			}
			b.same(out.st, buf.obj, before, "the input")
		}
	})
	b.it.naming = true
	// any other bytes
	b.byCases(func(o *oracle) {
		st := newState()
		buf, bs := b.newBytes(st, "buf", 32)
		args, _ := mk(st, buf)
		// [the bytes are the canonical ones of their value]
		N := b.numberIn(st, buf, bs)
		var va, vb []Val
		for i, d := range b.c.digitsOf(b.c.canon(Fp, N), byteW(32), 0) {
			va = append(va, IntV{bs[i], iv64(0, 255)})
			vb = append(vb, d)
		}
		E := b.it.mkBool(b.it.equalCells(st, va, vb, types.Typ[types.Uint8])).P
		for _, out := range b.run(fn, args, st) {
			R := b.it.asInt(out.ret).P
			if !R.IsZero() {
				m := map[Sym]*Poly{}
				for s := range E.Syms() {
					m[s] = newPoly()
				}
				if len(m) != 1 || !E.Equal(symPoly(anySym(E))) || !b.c.plainSubst(R, m).IsZero() {
					b.fail("non-canonical input is not rejected: result %s, canonical if %s (%s)", b.c.brief(R, 6), b.c.brief(E, 6), o)
					continue
				}
			}
			b.rep.count("results compared", 1)
		}
	})
}

// numberIn names the field element in 32 bytes whose top bit is ignored, as FieldElement.SetBytes does.
func (b *bench) numberIn(st *State, buf PtrV, bs []*Poly) *Poly {
	fn := b.p.method(b.p.ed, "FieldElement", "SetBytes")
	r, _ := b.newFE(st, "n")
	outs := b.it.callFn(fn, []Val{r, buf}, nil, st.fork(), nil)
	if len(outs) != 1 {
		panic(undecided("FieldElement.SetBytes has several outcomes"))
	}
	N, _, ok := b.value(outs[0].st, leafFE, r)
	want := leSum(bs).Sub(b.c.floorPoly(bs[31], 7, nil).Scale(pow2(255)))
	D := N
	if ok {
		for s := range N.Syms() {
			if d := b.c.defs[s]; d != nil {
				D = D.Sub(symPoly(s).Scale(N.linearCoef(s))).Add(d.Scale(N.linearCoef(s)))
			}
		}
	}
	if !ok || !D.Sub(want).Mod(primeP).IsZero() {
		b.fail("FieldElement.SetBytes does not return the number in the lower 255 bits: %s", b.c.str(D.Sub(want).Mod(primeP)))
	}
	return N
}

func anySym(P *Poly) Sym {
	for s := range P.Syms() {
		return s
	}
	return 0
}

func runC07(e *Env, rep *Report) {
	for _, p := range e.configs {
		b := newCaseBench(p, rep, ruleC07)
		for _, name := range []string{"EqualsI", "Equals"} {
			b.guard("Point."+name, func() {
				fn := b.method(p.rist, "Point", name)
				rep.count("methods", 1)
				b.ptAlts(2, func(alt []int) {
					b.byCases(func(o *oracle) {
						st := newState()
						q, _ := b.newPoint(st, "P", alt[0])
						r, _ := b.newPoint(st, "Q", alt[1])
						s := spec{b.c, o}
						v, w := b.coords(st, q), b.coords(st, r)
						want := int64(0)
						if o.isZero(s.sub(s.mul(v[0], w[1]), s.mul(w[0], v[1]))) || o.isZero(s.sub(s.mul(v[0], w[0]), s.mul(v[1], w[1]))) {
							want = 1
						}
						for _, out := range b.run(fn, []Val{q, r}, st) {
							got, isC := b.it.norm(out.st, b.it.asInt(out.ret)).konst()
							if !isC || !got.IsInt64() || got.Int64() != want {
								b.fail("result %s, specified is %d (%s)", b.c.brief(b.it.asInt(out.ret).P, 6), want, o)
								continue
							}
							b.rep.count("results compared", 1)
						}
					})
				})
			})
		}
	}
}

func runC08(e *Env, rep *Report) {
	for _, p := range e.configs {
		b := newCaseBench(p, rep, ruleC08)
		b.rootContract("InvSqrtI")
		b.guard("Point.SetElligator", func() {
			fn := b.method(p.rist, "Point", "SetElligator")
			rep.count("methods", 1)
			b.byCases(func(o *oracle) {
				st := newState()
				r, _ := b.newPoint(st, "R", 0)
				buf, bs := b.newBytes(st, "buf", 32)
				N := b.numberIn(st, buf, bs)
				for _, out := range b.run(fn, []Val{r, buf}, st) {
					X, Y, Z := spec{b.c, o}.elligator(N)
					b.isSpecPoint(out.st, o, r, X, Y, Z, "mapped point")
					b.retIs(out, r)
				}
			})
		})
		b.guard("CompletedPoint.SetRistrettoElligator2", func() {
			fn := b.method(p.ed, "CompletedPoint", "SetRistrettoElligator2")
			rep.count("methods", 1)
			b.byCases(func(o *oracle) {
				st := newState()
				r, _ := b.newPointT(st, "R", p.ed.Type("CompletedPoint").Type(), ptComp, 0)
				fe, v := b.newFE(st, "r0")
				for _, out := range b.run(fn, []Val{r, fe}, st) {
					X, Y, Z := spec{b.c, o}.elligator(v)
					b.isSpecPoint(out.st, o, r, X, Y, Z, "mapped point")
					b.retIs(out, r)
				}
			})
		})
		b2 := newPointBench(p, rep, ruleC08)
		b2.it.naming, b2.it.maps = true, true
		for _, name := range []string{"Derive", "DeriveDalek"} {
			b2.guard("Point."+name, func() {
				fn := b2.method(p.rist, "Point", name)
				rep.count("methods", 1)
				st := newState()
				r, _ := b2.newPoint(st, "R", 0)
				data, _ := b2.unknownSlice(st, "data")
				h := b2.shaOf(st, "Sum512", data, 64)
				want := newCombo()
				for i := 0; i < 64; i += 32 {
					if i == 0 || name == "DeriveDalek" {
						want = want.add(basis(b2.mapName(b2.numberOf(st, h[i:i+32]))), 1)
					}
				}
				for _, out := range b2.run(fn, []Val{r, data}, st) {
					b2.isPoint(out.st, ptExt, r, want, "value")
					b2.retIs(out, r)
				}
			})
		}
	}
}

// numberOf is numberIn for given bytes.
func (b *bench) numberOf(st *State, bs []*Poly) *Poly {
	buf, _ := b.newBytes(st, "tmp", 32)
	for i, x := range bs {
		b.it.store1(st, buf.obj, i, IntV{x, iv64(0, 255)})
	}
	return b.numberIn(st, buf, bs)
}

func (b *bench) mapName(V *Poly) string { return b.it.mapName(V) }

// mapName names the image of V under the map to points.
func (it *Interp) mapName(V *Poly) string {
	V = it.c.fold(Fp, it.c.named(Fp, V))
	return "map(" + it.c.str(V) + "#" + V.Key() + ")"
}

// mapFn: the map from field elements to points.
func (it *Interp) mapFn(fn *ssa.Function) bool {
	return fn.Name() == "SetRistrettoElligator2" && fn.Pkg == it.p.ed && len(fn.Params) == 2
}

// callMap names the image of the operand.
func (it *Interp) callMap(args []Val, st *State) []outcome {
	dst, src := args[0].(PtrV), args[1].(PtrV)
	v := it.viewLeaf(st, src.obj, src.off, leafFE)
	if v == nil || v.V == nil {
		panic(undecided("the operand of the map to points has no closed value"))
	}
	it.putPoint(st, dst.obj, dst.off, ptComp, basis(it.mapName(v.V)), nil)
	return one(dst, st)
}

// callCodec names the point encoded in given bytes, respectively the bytes of a point (see C05, C06).
func (it *Interp) callCodec(fn *ssa.Function, args []Val, st *State) []outcome {
	if len(fn.Params) != 2 || len(args) != 2 {
		return nil
	}
	p, ok1 := args[0].(PtrV)
	buf, ok2 := args[1].(PtrV)
	if !ok1 || !ok2 || it.pointKind(fn.Params[0].Type().Underlying().(*types.Pointer).Elem()) != ptExt {
		return nil
	}
	switch fn.Name() {
	case "SetRistretto":
		var bs []*Poly
		for i := 0; i < 32; i++ {
			bs = append(bs, it.under(st.facts, it.asInt(it.load1(st, buf.obj, buf.off+i)).P))
		}
		it.putPoint(st, p.obj, p.off, ptExt, basis("decoded("+polyKeys(bs)+")"), nil)
		return one(IntV{it.boolOp("decodes", bs), iv64(0, 1)}, st)
	case "RistrettoInto":
		var vs []*Poly
		n := it.p.fe().n
		for i := 0; i < 4; i++ {
			v := it.viewLeaf(st, p.obj, p.off+i*n, leafFE)
			if v == nil || v.V == nil {
				panic(undecided("encoding of a point without closed coordinates"))
			}
			vs = append(vs, v.V)
		}
		for i := 0; i < 32; i++ {
			it.store1(st, buf.obj, buf.off+i, IntV{it.c.opSym(fmt.Sprintf("encoded[%d]", i), vs, iv64(0, 255)), iv64(0, 255)})
		}
		return one(p, st)
	}
	return nil
}
