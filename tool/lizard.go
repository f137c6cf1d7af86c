package main

// C09: Lizard.

import (
	"crypto/sha256"
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

const ruleC09 = "abstract interpretation: the embedding maps exactly the specified 32 bytes; the inverse of the map, partitioned by signs, squareness and zero tests, returns for every point of the Jacobi quartic a preimage if and only if there is one; it is applied to all points of the quartic above the class of an arbitrary point; and the decoder succeeds exactly if one of eight arbitrary candidates carries consistent check bits, with that candidate's data"

func init() {
	checks["C09"] = checkFn{rule: ruleC09, run: runC09, floor: map[string]int{"methods": 8, "preimages compared": 40, "points of the quartic": 100, "combinations of candidates": 1024},
		assume: []string{"SHA-256 is an uninterpreted function", "points are even and satisfy the curve equation with non-zero Z", "MAP of RFC 9496 is that of C08"}}
}

// inverseFn: the inverse of the map to points.
func (it *Interp) inverseFn(fn *ssa.Function) bool {
	return fn.Name() == "RistrettoElligator2Inverse" && fn.Pkg == it.p.ed && len(fn.Params) == 2
}

// callInverse returns arbitrary candidates and an arbitrary mask.
func (it *Interp) callInverse(fn *ssa.Function, args []Val, st *State) []outcome {
	dst, ok := args[1].(PtrV)
	if !ok {
		panic(undecided("inverse of the map to points: unknown result"))
	}
	n := it.p.fe().n
	mask := newPoly()
	src, ok := args[0].(PtrV)
	if !ok {
		panic(undecided("inverse of the map to points: unknown point"))
	}
	var cs []*Poly
	for i := 0; i < 4; i++ {
		v := it.viewLeaf(st, src.obj, src.off+i*n, leafFE)
		if v == nil || v.V == nil {
			panic(undecided("preimages of a point without closed coordinates"))
		}
		cs = append(cs, v.V)
	}
	key := polyKeys(cs)
	for j := 0; j < 8; j++ {
		it.putFE(st, dst.obj, dst.off+j*n, fmt.Sprintf("fes%d", j), symPoly(it.c.fvar(Fp, fmt.Sprintf("f%d:%s", j, key), false)), it.p.fe().lim)
		mask = mask.Add(symPoly(it.c.boolInput(fmt.Sprintf("m%d:%s", j, key))).Scale(pow2(uint(j))))
	}
	return one(IntV{mask, iv64(0, 255)}, st)
}

// payload lists the bytes of the field element made of 16 bytes of data.
func (b *bench) payload(data []*Poly) []*Poly {
	var bs []*Poly
	for i := 0; i < 32; i++ {
		h := b.c.opSym(fmt.Sprintf("Sum256[%d]", i), data, iv64(0, 255))
		switch {
		case i == 0:
			h = b.c.floorPoly(h, 1, nil).Scale(bigTwo)
		case i >= 8 && i < 24:
			h = data[i-8]
		case i == 31:
			h = h.Sub(b.c.floorPoly(h, 6, nil).Scale(pow2(6)))
		}
		bs = append(bs, h)
	}
	return bs
}

func runC09(e *Env, rep *Report) {
	for _, p := range e.configs {
		b := newPointBench(p, rep, ruleC09)
		b.it.naming, b.it.maps = true, true
		b.guard("Point.SetLizard", func() {
			fn := b.method(p.rist, "Point", "SetLizard")
			rep.count("methods", 1)
			st := newState()
			r, _ := b.newPoint(st, "R", 0)
			buf, bs := b.newBytes(st, "data", 16)
			want := basis(b.mapName(b.numberOf(st, b.payload(bs))))
			for _, out := range b.run(fn, []Val{r, buf}, st) {
				b.isPoint(out.st, ptExt, r, want, "value")
				b.retIs(out, r)
				rep.count("values compared", 1)
			}
		})
		{
			b := newCaseBench(p, rep, ruleC09)
			b.rootContract("InvSqrt", "InvSqrtI")
			b.guard("preimages", func() { b.preimages() })
			b.guard("ExtendedPoint.RistrettoElligator2Inverse", func() {
				fn := b.method(p.ed, "ExtendedPoint", "RistrettoElligator2Inverse")
				rep.count("methods", 1)
				for alt := range p.invariants()["ExtendedPoint"] {
					b.allPreimages(fn, alt)
				}
			})
			b.guard("values mapped to the identity", func() {
				for _, v := range identityPreimages {
					if isPayload(v) {
						b.fail("%v is a payload", v)
					}
					rep.count("values mapped to the identity", 1)
				}
			})
		}
		for _, name := range []string{"LizardInto", "Lizard"} {
			b := newBench(p, rep, ruleC09)
			p.invariants()
			b.it.naming, b.it.inverse, b.it.apart = true, true, true
			b.guard("Point."+name, func() {
				fn := b.method(p.rist, "Point", name)
				rep.count("methods", 1)
				b.lizards(fn)
			})
		}
	}
}

// lizards checks the choice among the candidates.
func (b *bench) lizards(fn *ssa.Function) {
	st := newState()
	q, _ := b.newPoint(st, "P", 0)
	args := []Val{q}
	var buf PtrV
	if len(fn.Params) == 2 {
		buf, _ = b.newBytes(st, "buf", 16)
		args = append(args, buf)
	}
	// candidates
	key := polyKeys(b.coords(st, q))
	var oks [8][2]*Poly
	var data [8][]*Poly
	for j := range oks {
		f := symPoly(b.c.fvar(Fp, fmt.Sprintf("f%d:%s", j, key), false))
		var cand []*Poly
		var va, vb []Val
		for _, d := range b.c.digitsOf(b.c.canon(Fp, f), byteW(32), 0) {
			cand = append(cand, b.it.asInt(d).P)
			va = append(va, d)
		}
		data[j] = cand[8:24]
		for _, x := range b.payload(data[j]) {
			vb = append(vb, IntV{x, iv64(0, 255)})
		}
		oks[j] = [2]*Poly{symPoly(b.c.boolInput(fmt.Sprintf("m%d:%s", j, key))), b.it.mkBool(b.it.equalCells(st, va, vb, types.Typ[types.Uint8])).P}
	}
	outs := b.run(fn, args, st)
	var sets []lizardOut
	for _, out := range outs {
		l := lizardOut{}
		b.lizardOut(fn, out, buf, &l)
		sets = append(sets, l)
	}
	// candidates whose mask and check bits occur only together are taken as one
	var vals [8][][2]int64
	for j := range vals {
		vals[j] = [][2]int64{{0, 0}, {1, 1}}
		m, e := anySym(oks[j][0]), anySym(oks[j][1])
		if !oks[j][1].Equal(symPoly(e)) {
			panic(undecided("check bits of a candidate: %s", b.c.brief(oks[j][1], 4)))
		}
		for _, l := range sets {
			for _, P := range l.polys() {
				for k := range P.terms {
					n := 0
					for _, f := range parseMono(k) {
						if f.s == m || f.s == e {
							n++
						}
					}
					if n == 1 {
						vals[j] = [][2]int64{{0, 0}, {1, 1}, {1, 0}, {0, 1}}
					}
				}
			}
		}
	}
	ns := make([]int, 8)
	total := 1
	for j := range ns {
		ns[j] = len(vals[j])
		total *= ns[j]
	}
	if total > 5000 {
		for j := range ns {
			ns[j] = 2
		}
	}
	bad := false
	product(ns, func(pick []int) {
		if bad {
			return
		}
		m := map[Sym]*Poly{}
		n, which := 0, 0
		for j, k := range pick {
			v := vals[j][k]
			m[anySym(oks[j][0])], m[anySym(oks[j][1])] = intPoly(v[0]), intPoly(v[1])
			if v[0] == 1 && v[1] == 1 {
				n++
				which = j
			}
		}
		hit := 0
		for _, l := range sets {
			on := true
			for _, a := range l.atoms {
				k, ok := b.c.plainSubst(a.p, m).IsConst()
				if !ok {
					panic(undecided("the result depends on %s", b.c.brief(b.c.plainSubst(a.p, m), 4)))
				}
				on = on && k.IsInt64() && k.Int64() == a.v
			}
			if !on {
				continue
			}
			hit++
			k, isC := b.c.plainSubst(l.ok, m).IsConst()
			if !isC || (k.Sign() != 0) != (n == 1) {
				b.fail("with %d consistent candidates the decoder reports success: %v", n, k)
				bad = true
				return
			}
			for i, P := range l.buf {
				if n == 1 && !b.c.plainSubst(P, m).Equal(data[which][i]) {
					b.fail("byte %d of the data is not that of the only consistent candidate: %s", i, b.c.brief(b.c.plainSubst(P, m), 4))
					bad = true
					return
				}
			}
		}
		if hit != 1 {
			b.fail("%d results for one combination of candidates", hit)
			bad = true
			return
		}
		b.rep.count("combinations of candidates", 1)
	})
	if total > 5000 && !bad {
		panic(undecided("mask and check bits of the candidates are not combined"))
	}
}

type lizardOut struct {
	ok    *Poly // [success]
	atoms []fact
	buf   []*Poly
}

func (l lizardOut) polys() []*Poly {
	r := append([]*Poly{l.ok}, l.buf...)
	for _, a := range l.atoms {
		r = append(r, a.p)
	}
	return r
}

func (b *bench) lizardOut(fn *ssa.Function, out outcome, buf PtrV, l *lizardOut) {
	l.atoms = out.st.facts.atoms
	l.ok = newPoly()
	switch r := out.ret.(type) {
	case IfaceV:
		l.ok = r.nilP
		if buf.obj != nil {
			l.buf = b.cellsAt(out.st, buf.obj, buf.off, 16)
		}
	case SliceV:
		if r.obj == nil {
			return
		}
		l.ok = intPoly(1)
		n, known := b.it.sliceKnown(out.st, r)
		if !known || n != 16 {
			b.fail("the result is not a slice of 16 bytes")
			return
		}
		l.buf = b.cellsAt(out.st, r.obj, r.off, 16)
	default:
		panic(undecided("unknown result %T", out.ret))
	}
}

// ---- the inverse of the map to points -------------------------------------------------

// The Jacobi quartic t^2 = s^4 + 2(1-d)/(1+d) s^2 + 1 and its map
// (s, t) -> (kappa s/t, (1-s^2)/(1+s^2)) to the curve, kappa^2 (-d-1) = 4.
var (
	quarticK = modp(func(z *big.Int) *big.Int {
		z.Add(curveD, bigOne).ModInverse(z, primeP)
		return z.Mul(z, new(big.Int).Sub(bigTwo, new(big.Int).Mul(bigTwo, curveD)))
	})
	quarticMap = modp(func(z *big.Int) *big.Int {
		z.ModInverse(sqrtADm1, primeP)
		return z.Mul(z, bigTwo)
	})
	dp1OverDm1 = modp(func(z *big.Int) *big.Int {
		z.Sub(curveD, bigOne).ModInverse(z, primeP)
		return z.Mul(z, new(big.Int).Add(curveD, bigOne))
	})
)

func (s spec) quartic(v *Poly) *Poly {
	v2 := s.mul(v, v)
	return s.add(s.add(s.mul(v2, v2), s.k(v2, quarticK)), intPoly(1))
}

// preimageFn finds the function that inverts the map for one point of the quartic.
func (b *bench) preimageFn() *ssa.Function {
	if fn := b.p.preimage; fn != nil {
		return fn
	}
	jt := b.p.ed.Type("JacobiPoint")
	if jt == nil {
		panic(undecided("no type JacobiPoint"))
	}
	ptr := func(t types.Type) types.Type {
		if p, ok := t.(*types.Pointer); ok {
			return p.Elem()
		}
		return nil
	}
	var found []*ssa.Function
	for _, fn := range b.p.all {
		if fn.Pkg != b.p.ed || len(fn.Params) != 2 || fn.Blocks == nil || fn.Signature.Results().Len() != 1 || fn.Synthetic != "" {
			continue
		}
		if _, _, ok := intType(fn.Signature.Results().At(0).Type()); !ok {
			continue
		}
		a, c := ptr(fn.Params[0].Type()), ptr(fn.Params[1].Type())
		if a == nil || c == nil || !sameType(a, jt.Type()) || !sameType(c, b.p.fe().t) {
			continue
		}
		found = append(found, fn)
	}
	if len(found) != 1 {
		panic(undecided("%d functions look like the inverse of the map for one point of the quartic", len(found)))
	}
	b.p.preimage = found[0]
	return found[0]
}

func (b *bench) newJacobi(st *State, S, T *Poly) PtrV {
	t := b.p.ed.Type("JacobiPoint").Type()
	n := b.p.fe().n
	o := b.it.newObj(st, "jc", t, 2*n)
	b.it.putFE(st, o, 0, "S", S, b.p.fe().lim)
	b.it.putFE(st, o, n, "T", T, b.p.fe().lim)
	return PtrV{o, 0}
}

func (b *bench) feAt(st *State, p PtrV) *Poly {
	v := b.it.viewLeaf(st, p.obj, p.off, leafFE)
	if v == nil || v.V == nil {
		panic(undecided("a field element has no closed value"))
	}
	return v.V
}

// onQuarticImage: (X:Y:Z) is the image of (s, t).
func (sp spec) onQuarticImage(kappa *big.Int, s, t, X, Y, Z *Poly) bool {
	s2 := sp.mul(s, s)
	one := intPoly(1)
	return sp.o.equal(sp.mul(sp.k(s, kappa), Z), sp.mul(t, X)) && sp.o.equal(sp.mul(sp.sub(one, s2), Z), sp.mul(sp.add(one, s2), Y))
}

// preimages checks the inverse on one point of the quartic.
func (b *bench) preimages() {
	fn := b.preimageFn()
	b.pos = b.p.pos(fn.Pos())
	kappa := quarticMap
	// what is returned is a preimage
	b.byCases(func(o *oracle) {
		sp := spec{b.c, o}
		o.prune = true
		st := newState()
		s, t := symPoly(b.c.fvar(Fp, "s", false)), symPoly(b.c.fvar(Fp, "t", false))
		o.mono = []monoRel{{anySym(t), b.c.unfold(Fp, sp.quartic(s))}}
		o.isZero(s)
		jc := b.newJacobi(st, s, t)
		fe, _ := b.newFE(st, "fe")
		for _, out := range b.run(fn, []Val{jc, fe}, st) {
			k, isC := b.it.norm(out.st, b.it.asInt(out.ret)).konst()
			if !isC || k.Sign() != 0 && k.Cmp(bigOne) != 0 {
				b.fail("result %s is not 0 or 1 (%s)", b.c.brief(b.it.asInt(out.ret).P, 6), o)
				continue
			}
			if k.Sign() == 0 {
				continue
			}
			f := b.feAt(out.st, fe)
			if sp.isNeg(f) {
				b.fail("a negative preimage is returned (%s)", o)
				continue
			}
			sp.preimageOf(s, f)
			X, Y, Z := sp.elligator(f)
			if !sp.onQuarticImage(kappa, s, t, X, Y, Z) {
				b.fail("what is returned is not a preimage (%s)", o)
				continue
			}
			b.rep.count("preimages compared", 1)
		}
	})
	// every preimage is returned
	b.byCases(func(o *oracle) {
		sp := spec{b.c, o}
		o.prune = true
		st := newState()
		f := symPoly(b.c.fvar(Fp, "f", false))
		if sp.isNeg(f) {
			return
		}
		s, t, ok := sp.quarticPoint(kappa, f)
		if ok && o.isZero(s) {
			ok = false
		}
		if !ok {
			// one of the values mapped to the identity
			if !o.amongst(anySym(f), identityPreimages) {
				b.fail("a value is mapped to s = 0 (%s)", o)
			}
			return
		}
		jc := b.newJacobi(st, s, t)
		fe, _ := b.newFE(st, "fe")
		a := sp.k(sp.add(t, intPoly(1)), dp1OverDm1)
		s2 := sp.mul(s, s)
		o.hints = append(o.hints, rootHint{f, sp.add(a, s2)}, rootHint{f, sp.sub(a, s2)})
		for _, out := range b.run(fn, []Val{jc, fe}, st) {
			k, isC := b.it.norm(out.st, b.it.asInt(out.ret)).konst()
			if !isC || k.Cmp(bigOne) != 0 {
				b.fail("no preimage is found for the image of a field element (%s)", o)
				continue
			}
			if g := b.feAt(out.st, fe); !o.equal(f, g) {
				b.fail("the preimage found is another one (%s): %s", o, b.c.brief(g, 4))
				continue
			}
			b.rep.count("preimages compared", 1)
		}
	})
}

// identityPreimages are the non-negative field elements that the map sends to the identity.
var identityPreimages = func() []*big.Int {
	r := []*big.Int{new(big.Int)}
	for k := 0; k < 2; k++ {
		// r = i f^2 is -d or -1/d
		x := new(big.Int).Set(curveD)
		if k == 1 {
			x.ModInverse(x, primeP)
		}
		x.Mul(x, sqrtM1).Mod(x, primeP)
		x.ModSqrt(x, primeP)
		if x.Bit(0) == 1 {
			x.Sub(primeP, x)
		}
		r = append(r, x)
	}
	return r
}()

// amongst: in this case x is one of the values.
func (o *oracle) amongst(x Sym, vs []*big.Int) bool {
	f := []*big.Int{bigOne}
	for _, v := range vs {
		g := make([]*big.Int, len(f)+1)
		for i := range g {
			g[i] = new(big.Int)
			if i > 0 {
				g[i].Add(g[i], f[i-1])
			}
			if i < len(f) {
				g[i].Sub(g[i], new(big.Int).Mul(f[i], v))
			}
			g[i].Mod(g[i], primeP)
		}
		f = g
	}
	// both signs of each
	n := make([]*big.Int, len(f))
	for i := range f {
		n[i] = new(big.Int).Set(f[i])
		if i%2 == 1 {
			n[i].Neg(n[i])
		}
	}
	all := make([]*big.Int, 2*len(f)-1)
	for i := range all {
		all[i] = new(big.Int)
	}
	for i := range f {
		for j := range n {
			all[i+j].Add(all[i+j], new(big.Int).Mul(f[i], n[j]))
			all[i+j].Mod(all[i+j], primeP)
		}
	}
	for _, z := range o.zeros {
		if !z.zero {
			continue
		}
		P := o.c.unfold(Fp, z.P)
		only := true
		for s := range P.Syms() {
			only = only && s == x
		}
		if only && len(polyRem(all, rootPart(o.c.coeffs(P, x)))) == 0 {
			return true
		}
	}
	return false
}

// quarticPoint is the point of the quartic that the map passes through; it fails if a denominator vanishes.
func (sp spec) quarticPoint(kappa *big.Int, f *Poly) (s, t *Poly, ok bool) {
	one := intPoly(1)
	r := sp.k(sp.mul(f, f), sqrtM1)
	u := sp.k(sp.add(r, one), oneMinusDSq)
	v := sp.mul(sp.sub(sp.neg(sp.k(r, curveD)), one), sp.add(r, sp.konst(curveD)))
	if sp.o.isZero(u) || sp.o.isZero(v) {
		return nil, nil, false
	}
	q, _, sq := sp.o.root(sp.mul(u, v), true)
	_, sv := sp.sqrtRatio(u, v, true)
	c := one.Neg()
	inv := sp.mul(u, q, q) // 1/v, up to kappa
	if !sq {
		sv = sp.neg(sp.o.abs(sp.mul(sv, f)))
		c = r
		inv = sp.k(inv, sqrtM1)
	}
	N := sp.sub(sp.k(sp.mul(c, sp.sub(r, one)), dMinus1Sq), v)
	// x = 2 s v / (N sqrt(ad-1)) = kappa s/t
	m := new(big.Int).Mul(kappa, sqrtADm1)
	m.Mul(m, new(big.Int).ModInverse(bigTwo, primeP)).Mod(m, primeP)
	return sv, sp.k(sp.mul(N, inv), m), true
}

// preimageOf notes what the inverse root in the map of f is, if its image is the point (s, t) of the quartic.
func (sp spec) preimageOf(s, f *Poly) {
	r := sp.k(sp.mul(f, f), sqrtM1)
	u := sp.k(sp.add(r, intPoly(1)), oneMinusDSq)
	sp.o.hints = append(sp.o.hints, rootHint{s, u}, rootHint{s, sp.k(sp.mul(u, f), sqrtM1)})
}

// isPayload: the field element carries consistent check bits.
func isPayload(v *big.Int) bool {
	var le [32]byte
	v.FillBytes(le[:])
	for i := 0; i < 16; i++ {
		le[i], le[31-i] = le[31-i], le[i]
	}
	h := sha256.Sum256(le[8:24])
	copy(h[8:], le[8:24])
	h[0] &= 254
	h[31] &= 63
	return h == le
}

type quarticArg struct {
	S, T *Poly
	fe   Sym
	ok   Sym
}

// callPreimage names the preimage of a point of the quartic.
func (it *Interp) callPreimage(args []Val, st *State) []outcome {
	jc, ok1 := args[0].(PtrV)
	dst, ok2 := args[1].(PtrV)
	if !ok1 || !ok2 {
		panic(undecided("preimage of an unknown point"))
	}
	n := it.p.fe().n
	var v [2]*Poly
	for i := range v {
		x := it.viewLeaf(st, jc.obj, jc.off+i*n, leafFE)
		if x == nil || x.V == nil {
			panic(undecided("preimage of a point without closed coordinates"))
		}
		v[i] = it.c.unfold(Fp, x.V)
	}
	key := polyKeys(v[:])
	a := quarticArg{v[0], v[1], it.c.fvar(Fp, "preimage:"+key, false), it.c.boolInput("found:" + key)}
	it.quartics[a.fe] = a
	it.putFE(st, dst.obj, dst.off, "preimage", symPoly(a.fe), it.p.fe().lim)
	return one(IntV{symPoly(a.ok), iv64(0, 1)}, st)
}

// allPreimages checks that the inverse is applied to all points of the quartic above the point's class.
func (b *bench) allPreimages(fn *ssa.Function, alt int) {
	b.it.preim = b.preimageFn()
	defer func() { b.it.preim = nil }()
	n := b.p.fe().n
	b.byCases(func(o *oracle) {
		o.square = true
		sp := spec{b.c, o}
		st := newState()
		q, _ := b.newPoint(st, "P", alt)
		v := b.coords(st, q)
		xz, yz := o.isZero(v[0]), o.isZero(v[1])
		if xz && yz {
			return
		}
		// Z^2 - Y^2 = -X^2 (Z^2 + d Y^2)/Z^2, and -d is no square
		note := func(P *Poly, zero bool) {
			F := b.c.fold(Fp, P)
			if len(F.terms) != 1 {
				o.zeros = append(o.zeros, zeroRec{b.c.monic(b.c.unfold(Fp, F)), zero})
			}
			for k := range F.terms {
				for _, fa := range parseMono(k) {
					if si := b.c.syms[fa.s]; si.kind == kW {
						o.zeros = append(o.zeros, zeroRec{b.c.monic(b.c.unfold(Fp, si.fp)), zero})
					}
				}
			}
		}
		note(sp.sub(sp.mul(v[2], v[2]), sp.mul(v[1], v[1])), xz)
		if !xz {
			note(sp.sub(v[2], v[1]), false)
			note(sp.add(v[2], v[1]), false)
		}
		ft := fn.Params[1].Type().Underlying().(*types.Pointer).Elem()
		fo := b.it.newObj(st, "fes", ft, flatSize(ft))
		for j := 0; j < 8; j++ {
			b.it.putFE(st, fo, j*n, "old", symPoly(b.c.fvar(Fp, fmt.Sprintf("old%d", j), false)), b.p.fe().lim)
		}
		b.it.quartics = map[Sym]quarticArg{}
		for _, out := range b.run(fn, []Val{q, PtrV{fo, 0}}, st) {
			want := newPoly()
			var args []quarticArg
			bad := false
			for j := 0; j < 8; j++ {
				V := b.feAt(out.st, PtrV{fo, j * n})
				a, ok := b.it.quartics[anySym(V)]
				if !ok || !V.Equal(symPoly(a.fe)) {
					b.fail("element %d is not a preimage of a point of the quartic (%s): %s", j, o, b.c.brief(V, 4))
					bad = true
					break
				}
				args = append(args, a)
				want = want.Add(symPoly(a.ok).Scale(pow2(uint(j))))
			}
			if bad {
				continue
			}
			if got := b.it.under(out.st.facts, b.it.asInt(out.ret).P); !got.Equal(want) {
				b.fail("the mask does not tell which preimages exist (%s): %s", o, b.c.brief(got.Sub(want), 8))
				continue
			}
			b.allAbove(sp, v, xz || yz, args)
		}
	})
}

// allAbove: the points of the quartic are those above the class of the point.
func (b *bench) allAbove(sp spec, v []*Poly, special bool, args []quarticArg) {
	o := sp.o
	one := intPoly(1)
	for j, a := range args {
		if !o.equal(sp.mul(a.T, a.T), sp.quartic(a.S)) {
			b.fail("pair %d is no point of the quartic (%s)", j, o)
			return
		}
	}
	has := func(S, T *Poly) bool {
		for _, a := range args {
			if o.equal(a.S, S) && o.equal(a.T, T) {
				return true
			}
		}
		return false
	}
	if special {
		// (0, 1), (0, -1) and the points with s^2 = 1
		t := new(big.Int).Add(bigTwo, quarticK)
		t.ModSqrt(t.Mod(t, primeP), primeP)
		pts := [][2]*Poly{{newPoly(), one}, {newPoly(), one.Neg().Mod(primeP)}}
		for k := 0; k < 4; k++ {
			S, T := one, constPoly(t)
			if k&1 != 0 {
				S = S.Neg().Mod(primeP)
			}
			if k&2 != 0 {
				T = T.Neg().Mod(primeP)
			}
			pts = append(pts, [2]*Poly{S, T})
		}
		for _, p := range pts {
			if !has(p[0], p[1]) {
				b.fail("a point of the quartic above the identity is missing (%s)", o)
				return
			}
		}
		for _, a := range args {
			ok := false
			for _, p := range pts {
				ok = ok || o.equal(a.S, p[0]) && o.equal(a.T, p[1])
			}
			if !ok {
				b.fail("a point of the quartic is not above the identity (%s)", o)
				return
			}
		}
		b.rep.count("points of the quartic", len(args))
		return
	}
	iX, iY := sp.k(v[0], sqrtM1), sp.k(v[1], sqrtM1)
	for k, p := range [][2]*Poly{{v[0], v[1]}, {sp.neg(v[0]), sp.neg(v[1])}, {iY, iX}, {sp.neg(iY), sp.neg(iX)}} {
		var on []quarticArg
		for _, a := range args {
			if sp.onQuarticImage(quarticMap, a.S, a.T, p[0], p[1], v[2]) {
				on = append(on, a)
			}
		}
		if len(on) != 2 || !o.equal(on[0].S, on[1].S.Neg()) || !o.equal(on[0].T, on[1].T.Neg()) {
			b.fail("the two points of the quartic above representative %d are not both considered (%s)", k, o)
			return
		}
	}
	b.rep.count("points of the quartic", len(args))
}
