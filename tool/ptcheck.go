package main

// Checks on points: C01 to C04.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func newPointBench(p *Program, rep *Report, rule string) *bench {
	b := newBench(p, rep, rule)
	b.it.points = true
	p.invariants()
	b.findBase()
	return b
}

// newPoint allocates an arbitrary valid point in an arbitrary representation.
func (b *bench) newPoint(st *State, name string, alt int) (PtrV, *combo) {
	return b.newPointT(st, name, b.p.rist.Type("Point").Type(), ptExt, alt)
}

func (b *bench) newPointT(st *State, name string, t types.Type, k ptKind, alt int) (PtrV, *combo) {
	o := b.it.newObj(st, name, t, flatSize(t))
	g := basis(name)
	b.it.putPoint(st, o, 0, k, g, b.p.invariants()[kindName[k]][alt])
	return PtrV{o, 0}, g
}

// ptAlts enumerates the limb shapes of n point operands.
func (b *bench) ptAlts(n int, f func(alt []int)) {
	k := len(b.p.invariants()["ExtendedPoint"])
	ns := make([]int, n)
	for i := range ns {
		ns[i] = k
	}
	if n == 0 {
		f(nil)
		return
	}
	product(ns, f)
}

// isPoint checks that a valid representation of want is stored at p.
func (b *bench) isPoint(st *State, k ptKind, p PtrV, want *combo, what string) {
	_, g := b.it.normalise(st, k, p)
	if g == nil {
		b.fail("%s: the result is not recognised as a representation of a sum of the operands: %s", what, b.describe(st, k, p))
		return
	}
	d := mergeCombo(g, want, func(x, y *Poly) *Poly {
		return b.it.elim(b.it.under(st.facts, x.Sub(y)))
	})
	delete(d.co, "T") // four-torsion: the same Ristretto element
	if len(d.co) != 0 {
		b.fail("%s: the result is %s, specified is %s", what, g.str(b.c), want.str(b.c))
		return
	}
	b.rep.count("points compared", 1)
}

func (b *bench) describe(st *State, k ptKind, p PtrV) string {
	n := b.p.fe().n
	s := ""
	for i := 0; i < k.leaves(); i++ {
		v := b.it.viewLeaf(st, p.obj, p.off+i*n, leafFE)
		if v == nil || v.V == nil {
			s += " ?"
			continue
		}
		t := b.c.str(v.V)
		if len(t) > 160 {
			t = t[:160] + "..."
		}
		s += " " + t + ";"
	}
	return s
}

const ruleC01 = "abstract interpretation of each point operation on arbitrary representations of arbitrary curve points: the coordinates written satisfy the identities of the complete addition law for the specified combination of the operands, with a unit Z"

func init() {
	checks["C01"] = checkFn{rule: ruleC01, run: runC01, floor: map[string]int{"methods": 14, "points compared": 14},
		assume: []string{
			"operands satisfy the curve equation and have non-zero Z (every exported operation of C01 to C09 establishes it)",
			"completeness of the twisted Edwards addition law for a=-1 and non-square d: 1+k and 1-k do not vanish on curve points",
		}}
}

func runC01(e *Env, rep *Report) {
	for _, p := range e.configs {
		b := newPointBench(p, rep, ruleC01)
		op := func(name string, n int, spec func(g []*combo) *combo) {
			b.guard("Point."+name, func() {
				fn := b.method(p.rist, "Point", name)
				rep.count("methods", 1)
				b.ptAlts(n, func(alt []int) {
					st := newState()
					r, _ := b.newPoint(st, "R", 0)
					args := []Val{r}
					var gs []*combo
					for i := 0; i < n; i++ {
						q, g := b.newPoint(st, string(rune('P'+i)), alt[i])
						args = append(args, q)
						gs = append(gs, g)
					}
					for _, o := range b.run(fn, args, st) {
						b.isPoint(o.st, ptExt, r, spec(gs), "value")
						b.retIs(o, r)
					}
				})
			})
		}
		base := newCombo()
		base.co["B"] = intPoly(1)
		op("SetZero", 0, func(g []*combo) *combo { return newCombo() })
		op("SetBase", 0, func(g []*combo) *combo { return base })
		op("Set", 1, func(g []*combo) *combo { return g[0] })
		op("Neg", 1, func(g []*combo) *combo { return g[0].scale(-1) })
		op("Double", 1, func(g []*combo) *combo { return g[0].scale(2) })
		op("Add", 2, func(g []*combo) *combo { return g[0].add(g[1], 1) })
		op("Sub", 2, func(g []*combo) *combo { return g[0].add(g[1], -1) })
		rep.count("recognitions", b.it.npRec)
	}
}

// ---- C02, C03 -----------------------------------------------------------------------

const ruleC02 = "abstract interpretation of the constant-time scalar multiplications for an arbitrary reduced scalar and point: the accumulated point is a combination of the operand whose coefficient is, as an integer polynomial in the scalar's digits, the scalar itself"
const ruleC03 = "abstract interpretation of the variable-time scalar multiplications for an arbitrary reduced scalar and point, joining at every loop position: on every path the accumulated point is a combination of the operand whose coefficient is, as an integer polynomial in the scalar's digits, the scalar itself"

func init() {
	assume := []string{
		"operands are valid points and reduced scalars (established by C01, C06, C08, C10, C11)",
		"tables passed to the table methods were filled by Compute for the point (C04)",
		"completeness of the twisted Edwards addition law for a=-1 and non-square d",
	}
	checks["C02"] = checkFn{rule: ruleC02, run: func(e *Env, rep *Report) { runMults(e, rep, ruleC02, "") }, floor: map[string]int{"methods": 6, "points compared": 6}, assume: assume}
	checks["C03"] = checkFn{rule: ruleC03, run: func(e *Env, rep *Report) { runMults(e, rep, ruleC03, "Public") }, floor: map[string]int{"methods": 6, "points compared": 6}, assume: assume}
}

// newTable allocates a table with the multiples of a point.
func (b *bench) newTable(st *State, name string, t types.Type) (PtrV, *combo) {
	o := b.it.newObj(st, "table("+name+")", t, flatSize(t))
	g := basis(name)
	ats := b.it.pointOffsets(t)
	if len(ats) != 256 {
		panic(undecided("the multiplication table does not hold 256 entries"))
	}
	for n, at := range ats {
		h := g.mapCo(func(p *Poly) *Poly { return p.Scale(pow2(uint(8 * (n / 8)))).ScaleInt(int64(n%8 + 1)) })
		b.it.putPoint(st, o, at.off, at.kind, h, nil)
	}
	return PtrV{o, 0}, g
}

func runMults(e *Env, rep *Report, rule, pre string) {
	for _, p := range e.configs {
		b := newPointBench(p, rep, rule)
		sp := b.p.rist
		mult := func(name string, kind int) {
			b.guard("Point."+name, func() {
				fn := b.method(sp, "Point", name)
				rep.count("methods", 1)
				na := 0
				if kind == 0 {
					na = 1
				}
				b.ptAlts(na, func(alt []int) {
					st := newState()
					r, _ := b.newPoint(st, "R", 0)
					s, sv := b.newScalar(st, "s")
					args := []Val{r}
					var g *combo
					switch kind {
					case 0:
						var q PtrV
						q, g = b.newPoint(st, "Q", alt[0])
						args = append(args, q, s)
					case 1:
						t := fn.Params[1].Type().Underlying().(*types.Pointer).Elem()
						var q PtrV
						q, g = b.newTable(st, "Q", t)
						args = append(args, q, s)
					case 2:
						g = basis("B")
						args = append(args, s)
					}
					want := g.mapCo(func(x *Poly) *Poly { return b.c.canon(Fl, sv) })
					for _, o := range b.run(fn, args, st) {
						b.isPoint(o.st, ptExt, r, want, "value")
						b.retIs(o, r)
					}
				})
			})
		}
		mult(pre+"ScalarMult", 0)
		mult(pre+"ScalarMultTable", 1)
		mult(pre+"ScalarMultBase", 2)
		rep.count("recognitions", b.it.npRec)
	}
}

var _ = fmt.Sprint
var _ *ssa.Function
