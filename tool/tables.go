package main

// C04: multiplication tables and numeric constants.

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"

	"golang.org/x/tools/go/ssa"
)

const ruleC04 = "abstract interpretation of the table computation for an arbitrary point: entry (i,v) is a Niels representation of (v+1)*256^i times the operand; every entry of the literal base table is compared with the multiple computed from the curve equation, and every field constant with its defining equation"

func init() {
	checks["C04"] = checkFn{rule: ruleC04, run: runC04,
		floor: map[string]int{"table entries computed": 512, "literal table entries": 512, "field constants": 8},
		assume: []string{
			"the operand of Compute is a valid point (C01)",
			"completeness of the twisted Edwards addition law for a=-1 and non-square d",
		}}
}

func runC04(e *Env, rep *Report) {
	for _, p := range e.configs {
		b := newPointBench(p, rep, ruleC04)
		b.guard("ScalarMultTable.Compute", func() {
			fn := b.method(p.rist, "ScalarMultTable", "Compute")
			b.ptAlts(1, func(alt []int) {
				st := newState()
				t := fn.Params[0].Type().Underlying().(*types.Pointer).Elem()
				o := b.it.newObj(st, "T", t, flatSize(t))
				for i := 0; i < flatSize(t); i++ {
					b.it.store1(st, o, i, BotV{"entry not written"})
				}
				q, g := b.newPoint(st, "Q", alt[0])
				ats := b.it.pointOffsets(t)
				if len(ats) != 256 {
					panic(undecided("the multiplication table does not hold 256 entries"))
				}
				for _, out := range b.run(fn, []Val{PtrV{o, 0}, q}, st) {
					for n, at := range ats {
						h := g.mapCo(func(p *Poly) *Poly { return p.Scale(pow2(uint(8 * (n / 8)))).ScaleInt(int64(n%8 + 1)) })
						b.isPoint(out.st, at.kind, PtrV{o, at.off}, h, fmt.Sprintf("entry [%d][%d]", n/8, n%8))
						rep.count("table entries computed", 1)
					}
				}
			})
		})
		b.guard("BaseScalarMultTable", func() { b.literalTable() })
		b.guard("field constants", func() { b.constants() })
	}
}

func (b *bench) globalOf(name string) *Object {
	for g, o := range b.it.gobj {
		if g.Name() == name && g.Pkg == b.p.ed {
			return o
		}
	}
	return nil
}

func (b *bench) literalTable() {
	o := b.globalOf("BaseScalarMultTable")
	if o == nil {
		panic(undecided("edwards25519.BaseScalarMultTable not found"))
	}
	st := newState()
	ats := b.it.pointOffsets(o.typ)
	if len(ats) != 256 {
		panic(undecided("the base table does not hold 256 entries"))
	}
	n := b.p.fe().n
	// the representative in use: entry [0][0]
	leaf := func(off int) *big.Int {
		V, ok := b.it.feValue(st, o, off)
		if !ok {
			panic(undecided("the base table is not a literal"))
		}
		x, ok := V.IsConst()
		if !ok {
			panic(undecided("the base table is not a literal"))
		}
		return x.Mod(new(big.Int).Set(x), primeP)
	}
	dd := new(big.Int).Lsh(curveD, 1)
	niels := func(q affine) [3]*big.Int {
		m := func(x *big.Int) *big.Int { return x.Mod(x, primeP) }
		xy := new(big.Int).Mul(q.x, q.y)
		return [3]*big.Int{m(new(big.Int).Add(q.y, q.x)), m(new(big.Int).Sub(q.y, q.x)), m(xy.Mul(xy, dd))}
	}
	same := func(off int, q affine) bool {
		w := niels(q)
		for i := 0; i < 3; i++ {
			if leaf(off+i*n).Cmp(w[i]) != 0 {
				return false
			}
		}
		return true
	}
	// Any representative of the base element serves; all entries have to be
	// multiples of the same one, up to four-torsion.
	q := basePoint()
	for i := 0; i < 32; i++ {
		c := q
		for v := 0; v < 8; v++ {
			at := ats[i*8+v]
			ok := false
			for t := 0; t < 4; t++ {
				if same(at.off, c.add(torsion(t))) {
					ok = true
				}
			}
			if !ok {
				b.fail("the literal entry [%d][%d] of the base table is not %d*256^%d times the base point", i, v, v+1, i)
			}
			b.rep.count("literal table entries", 1)
			c = c.add(q)
		}
		for j := 0; j < 8; j++ {
			q = q.add(q)
		}
	}
}

// constants compares the named field constants with what defines them.
func (b *bench) constants() {
	m := func(x *big.Int) *big.Int { return x.Mod(x, primeP) }
	one := big.NewInt(1)
	d := curveD
	add := func(x, y *big.Int) *big.Int { return m(new(big.Int).Add(x, y)) }
	sub := func(x, y *big.Int) *big.Int { return m(new(big.Int).Sub(x, y)) }
	mul := func(x, y *big.Int) *big.Int { return m(new(big.Int).Mul(x, y)) }
	is := func(w *big.Int) func(*big.Int) bool {
		return func(v *big.Int) bool { return v.Cmp(m(new(big.Int).Set(w))) == 0 }
	}
	sq := func(k, w *big.Int) func(*big.Int) bool { // k*v^2 = w
		return func(v *big.Int) bool { return mul(k, mul(v, v)).Cmp(m(new(big.Int).Set(w))) == 0 }
	}
	mdm1 := sub(sub(new(big.Int), d), one) // -d-1 = a-d
	defs := map[string]struct {
		def string
		ok  func(*big.Int) bool
	}{
		"feZero":                         {"0", is(new(big.Int))},
		"feOne":                          {"1", is(one)},
		"feMinusOne":                     {"-1", is(Fp.pm1)},
		"feI":                            {"SQRT_M1, the even square root of -1", is(sqrtM1)},
		"feMinusI":                       {"-SQRT_M1", is(new(big.Int).Sub(primeP, sqrtM1))},
		"feD":                            {"-121665/121666", is(d)},
		"fe2D":                           {"2d", is(add(d, d))},
		"feInvSqrtMinusDMinusOne":        {"1/sqrt(-d-1)", sq(mdm1, one)},
		"feDoubleInvSqrtMinusDMinusOne":  {"2/sqrt(-d-1)", sq(mdm1, big.NewInt(4))},
		"feDoubleIInvSqrtMinusDMinusOne": {"2i/sqrt(-d-1)", sq(mdm1, big.NewInt(-4))},
		"feDMinusOneSquared":             {"(d-1)^2", is(mul(sub(d, one), sub(d, one)))},
		"feOneMinusDSquared":             {"1-d^2", is(sub(one, mul(d, d)))},
		"feDp1OverDm1":                   {"(d+1)/(d-1)", func(v *big.Int) bool { return mul(v, sub(d, one)).Cmp(add(d, one)) == 0 }},
		"feSqrtID":                       {"sqrt(i*d)", sq(one, mul(sqrtM1, d))},
		"feInvSqrt1pD":                   {"1/sqrt(1+d)", sq(add(one, d), one)},
	}
	st := newState()
	var gs []*ssa.Global
	for g := range b.it.gobj {
		if _, ok := defs[g.Name()]; ok && g.Pkg == b.p.ed {
			gs = append(gs, g)
		}
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].Name() < gs[j].Name() })
	for _, g := range gs {
		o := b.it.gobj[g]
		if flatSize(o.typ) != b.p.fe().n {
			continue
		}
		V, ok := b.it.feValue(st, o, 0)
		if !ok {
			continue
		}
		v, ok := V.IsConst()
		if !ok {
			continue
		}
		b.rep.count("field constants", 1)
		if f := defs[g.Name()]; !f.ok(m(new(big.Int).Set(v))) {
			b.fail("%s is not %s (%s)", g.Name(), f.def, b.p.pos(g.Pos()))
		}
	}
}
