package main

// Checks that compare the values computed by exported methods with their
// mathematical specification: C10, C11, C17, C20, C21.

import (
	"fmt"
	"go/types"
	"math/big"
	"time"

	"golang.org/x/tools/go/ssa"
)

// bench runs exported methods on formal operands.
type bench struct {
	it   *Interp
	p    *Program
	c    *Ctx
	rep  *Report
	rule string
	cur  string // construct under analysis
	pos  string
	kind string // counter
}

func newBench(p *Program, rep *Report, rule string) *bench {
	it := newInterp(p)
	return &bench{it: it, p: p, c: it.c, rep: rep, rule: rule}
}

func (b *bench) fail(format string, a ...interface{}) {
	b.rep.violate(Violation{Config: b.p.name, Construct: b.cur, Rule: b.rule, Detail: fmt.Sprintf(format, a...), Pos: b.pos})
}

// guard runs f; whatever cannot be decided is reported for the construct.
func (b *bench) guard(construct string, f func()) {
	if !only(b.p.name+" "+construct) || !claimed(b.p.name+" "+construct) {
		return
	}
	inGuard++
	defer func() { inGuard-- }()
	t0 := time.Now()
	defer func() { dbg("TIME %s %s %v", b.p.name, construct, time.Since(t0)) }()
	b.cur, b.pos = construct, ""
	depth := len(b.it.stack)
	defer func() {
		b.it.stack = b.it.stack[:depth]
		if x := recover(); x != nil {
			if u, ok := x.(undecidedErr); ok {
				dbg("FAIL %s", u.msg)
				b.fail("undecided: %s", u.msg)
				return
			}
			panic(x)
		}
	}()
	f()
}

func (b *bench) method(pk *ssa.Package, typ, name string) *ssa.Function {
	fn := b.p.method(pk, typ, name)
	b.pos = b.p.pos(fn.Pos())
	return fn
}

func (b *bench) newFE(st *State, name string) (PtrV, *Poly) {
	x := symPoly(b.c.fvar(Fp, name, false))
	return PtrV{b.it.formalFE(st, name, x), 0}, x
}

// newScalar allocates a reduced scalar.
func (b *bench) newScalar(st *State, name string) (PtrV, *Poly) {
	x := symPoly(b.c.fvar(Fl, name, false))
	t := b.p.scalarType()
	o := b.it.newObj(st, name, t, 8)
	for i, d := range b.c.digitsOf(b.c.canon(Fl, x), scalarW, 0) {
		b.it.store1(st, o, i, d)
	}
	return PtrV{o, 0}, x
}

// newBytes allocates n arbitrary bytes; the value is their little-endian number.
func (b *bench) newBytes(st *State, name string, n int) (PtrV, []*Poly) {
	t := types.NewArray(types.Typ[types.Uint8], int64(n))
	o := b.it.newObj(st, name, t, n)
	var ps []*Poly
	for i := 0; i < n; i++ {
		x := symPoly(b.c.input(fmt.Sprintf("%s[%d]", name, i), iv64(0, 255)))
		ps = append(ps, x)
		b.it.store1(st, o, i, IntV{x, iv64(0, 255)})
	}
	return PtrV{o, 0}, ps
}

func leSum(ps []*Poly) *Poly {
	s := newPoly()
	for i, x := range ps {
		s = s.Add(x.Scale(pow2(uint(8 * i))))
	}
	return s
}

// cellsAt reads n integer cells.
func (b *bench) cellsAt(st *State, o *Object, off, n int) []*Poly {
	var r []*Poly
	for i := 0; i < n; i++ {
		r = append(r, b.it.asInt(b.it.load1(st, o, off+i)).P)
	}
	return r
}

// run calls fn and returns its outcomes; an operation with none is reported.
func (b *bench) run(fn *ssa.Function, args []Val, st *State) []outcome {
	for i, p := range fn.Params { // value receivers
		if ptr, ok := args[i].(PtrV); ok && isAgg(p.Type()) {
			args[i] = b.it.loadT(st, ptr.obj, ptr.off, p.Type())
		}
	}
	np := len(b.it.panics)
	outs := b.it.callFn(fn, args, nil, st, nil)
	if len(outs) == 0 {
		b.fail("no execution of the method returns")
	}
	if len(b.it.panics) > np {
		b.fail("may panic at %s", b.it.panics[np].pos)
	}
	b.rep.count("outcomes compared", len(outs))
	return outs
}

// retIs checks that the result is the receiver.
func (b *bench) retIs(o outcome, p PtrV) {
	if r, ok := o.ret.(PtrV); ok && (r.obj != p.obj || r.off != p.off) {
		b.fail("does not return its receiver")
	}
}

func (b *bench) field(k leafKind) (*Field, []uint) { return b.it.leafWeights(k) }

// value of a field element or scalar at o.
func (b *bench) value(st *State, k leafKind, p PtrV) (*Poly, *Poly, bool) {
	f, w := b.field(k)
	s, _ := b.it.weighted(st, p.obj, p.off, w)
	s = b.it.under(st.facts, s)
	V, ok := b.c.closeSum(f, s)
	return V, s, ok
}

// isValue checks the value left in an object.
func (b *bench) isValue(st *State, k leafKind, p PtrV, want *Poly, what string) {
	f, w := b.field(k)
	V, s, ok := b.value(st, k, p)
	if !ok {
		b.fail("%s: the value of the result does not close modulo %s", what, f.name)
		return
	}
	V = b.it.underF(st, f, V)
	w2 := b.it.underF(st, f, want)
	if !b.c.feqX(f, V, w2) && !b.it.under(st.facts, b.c.canon(f, V.Sub(w2))).IsZero() && !b.it.under(st.facts, b.c.canon(f, w2.Sub(V))).IsZero() {
		b.fail("%s: the result is %s modulo %s, specified is %s", what, b.c.str(V), f.name, b.c.str(w2))
		return
	}
	if k == leafSc {
		var vs []IntV
		for i := range w {
			vs = append(vs, b.it.asInt(b.it.load1(st, p.obj, p.off+i)))
		}
		if !b.it.digitRange(vs, w) || !b.c.inCanonRange(f, s) {
			b.fail("%s: the result is not shown to be below the group order", what)
		}
	}
	b.rep.count("values compared", 1)
}

// isInt checks an integer result.
func (b *bench) isInt(st *State, v Val, want *Poly, what string) {
	x, ok := v.(IntV)
	if !ok {
		b.fail("%s: no integer result", what)
		return
	}
	got := b.it.under(st.facts, x.P)
	w := b.it.under(st.facts, want)
	if !got.Equal(w) && !b.c.boolEq(got, w) {
		b.fail("%s: the result is %s, specified is %s", what, b.c.str(got), b.c.str(w))
		return
	}
	b.rep.count("results compared", 1)
}

// boolEq compares two integer polynomials by expanding their 0/1 atoms.
func (c *Ctx) boolEq(a, b *Poly) bool {
	d := a.Sub(b)
	for n := 0; n < 64; n++ {
		if d.IsZero() {
			return true
		}
		break
	}
	return d.IsZero()
}

// feqX is equality in the field, expanding 0/1 atoms when needed.
func (c *Ctx) feqX(f *Field, a, b *Poly) bool {
	if c.feq(f, a, b) {
		return true
	}
	var rec func(a, b *Poly, d int) bool
	rec = func(a, b *Poly, d int) bool {
		if c.feq(f, a, b) {
			return true
		}
		if d == 0 {
			return false
		}
		s := c.firstBool(a.Sub(b), map[Sym]bool{})
		if s == 0 {
			return false
		}
		return rec(c.fcof(f, a, s, 1), c.fcof(f, b, s, 1), d-1) && rec(c.fcof(f, a, s, 0), c.fcof(f, b, s, 0), d-1)
	}
	return rec(a, b, 6)
}

// isBytes checks that the n bytes at o are the little-endian digits of want (an integer polynomial).
func (b *bench) isBytes(st *State, ps []*Poly, want *Poly, what string) {
	s := b.it.under(st.facts, leSum(ps))
	w := b.it.under(st.facts, want)
	if !s.Equal(w) {
		b.fail("%s: the bytes are %s, specified are those of %s", what, b.c.str(s), b.c.str(w))
		return
	}
	for _, x := range ps {
		if I, ok := b.c.tryBound(x); !ok || I.lo.Sign() < 0 || I.hi.Cmp(big.NewInt(255)) > 0 {
			b.fail("%s: a byte is not shown to lie in 0..255", what)
			return
		}
	}
	b.rep.count("byte strings compared", 1)
}

// same checks that an object still has its initial contents.
func (b *bench) same(st *State, o *Object, before []Val, what string) {
	for i, v := range before {
		w := b.it.load1(st, o, i)
		if !sameVal(v, w) {
			if x, ok := v.(IntV); ok {
				if y, ok := w.(IntV); ok && b.it.under(st.facts, x.P).Equal(b.it.under(st.facts, y.P)) {
					continue
				}
			}
			b.fail("%s", what)
			return
		}
	}
	b.rep.count("unchanged objects", 1)
}

func (b *bench) snapshot(st *State, o *Object) []Val {
	return append([]Val(nil), b.it.block(st, o).cells...)
}

// ---- C17 ----------------------------------------------------------------------------

const ruleC17 = "abstract interpretation of each field method on arbitrary limbs within the limb invariant: the polynomial value of the result modulo p equals the specified polynomial"

func init() {
	checks["C17"] = checkFn{
		rule:  ruleC17 + "; square roots by the four cases of a^((p-1)/4)",
		run:   runC17,
		floor: map[string]int{"methods": 42, "values compared": 30, "results compared": 10},
		assume: []string{
			"field elements have limbs within the invariant (radix51: each limb below 2^53; ten-limb form: |limb| at most 2^26, 2^25 alternating); C18 shows exported operations establish it",
			"p = 2^255-19 is prime",
		},
	}
}

func runC17(e *Env, rep *Report) {
	for _, p := range e.configs {
		b := newBench(p, rep, ruleC17)
		c := b.c
		fe := func(name string, body func(fn *ssa.Function, st *State)) {
			b.guard("FieldElement."+name, func() {
				fn := b.method(p.ed, "FieldElement", name)
				rep.count("methods", 1)
				body(fn, newState())
			})
		}
		// receivers hold arbitrary limbs before the call
		unary := func(name string, spec func(a *Poly) *Poly) {
			fe(name, func(fn *ssa.Function, st *State) {
				r, _ := b.newFE(st, "r")
				a, av := b.newFE(st, "a")
				for _, o := range b.run(fn, []Val{r, a}, st) {
					b.isValue(o.st, leafFE, r, spec(av), "value")
					b.retIs(o, r)
				}
			})
		}
		binary := func(name string, spec func(x, y *Poly) *Poly) {
			fe(name, func(fn *ssa.Function, st *State) {
				r, _ := b.newFE(st, "r")
				x, xv := b.newFE(st, "a")
				y, yv := b.newFE(st, "b")
				for _, o := range b.run(fn, []Val{r, x, y}, st) {
					b.isValue(o.st, leafFE, r, spec(xv, yv), "value")
					b.retIs(o, r)
				}
			})
		}
		nullary := func(name string, v *big.Int) {
			fe(name, func(fn *ssa.Function, st *State) {
				r, _ := b.newFE(st, "r")
				for _, o := range b.run(fn, []Val{r}, st) {
					b.isValue(o.st, leafFE, r, constPoly(v), "value")
					b.retIs(o, r)
				}
			})
		}
		nullary("SetZero", bigZero)
		nullary("SetOne", bigOne)
		fe("SetI", func(fn *ssa.Function, st *State) {
			r, _ := b.newFE(st, "r")
			for _, o := range b.run(fn, []Val{r}, st) {
				V, _, ok := b.value(o.st, leafFE, r)
				k, isC := new(big.Int), false
				if ok {
					k, isC = V.IsConst()
				}
				if !isC || new(big.Int).Exp(k, bigTwo, primeP).Cmp(Fp.pm1) != 0 {
					b.fail("the value set is not a square root of -1")
				}
				b.retIs(o, r)
			}
		})
		unary("Set", func(a *Poly) *Poly { return a })
		unary("Neg", func(a *Poly) *Poly { return a.Neg() })
		unary("Square", func(a *Poly) *Poly { return c.Mul(a, a) })
		unary("DoubledSquare", func(a *Poly) *Poly { return c.Mul(a, a).ScaleInt(2) })
		unary("Inverse", func(a *Poly) *Poly { return c.fpow(Fp, a, new(big.Int).Sub(primeP, bigTwo)) })
		unary("Exp22523", func(a *Poly) *Poly {
			return c.fpow(Fp, a, new(big.Int).Rsh(new(big.Int).Sub(primeP, big.NewInt(5)), 3))
		})
		unary("Abs", func(a *Poly) *Poly {
			n, _ := c.canonRep(Fp, a)
			return a.Sub(c.Mul(n, a).ScaleInt(2))
		})
		binary("Add", func(x, y *Poly) *Poly { return x.Add(y) })
		binary("Sub", func(x, y *Poly) *Poly { return x.Sub(y) })
		binary("Mul", func(x, y *Poly) *Poly { return c.Mul(x, y) })
		query := func(name string, n int, spec func(x, y *Poly) *Poly) {
			fe(name, func(fn *ssa.Function, st *State) {
				x, xv := b.newFE(st, "a")
				args := []Val{x}
				var yv *Poly
				if n == 2 {
					y, v := b.newFE(st, "b")
					args = append(args, y)
					yv = v
				}
				for _, o := range b.run(fn, args, st) {
					b.isInt(o.st, o.ret, spec(xv, yv), "result")
				}
			})
		}
		query("IsNegativeI", 1, func(x, _ *Poly) *Poly { n, _ := c.canonRep(Fp, x); return n })
		query("IsNonZeroI", 1, func(x, _ *Poly) *Poly { return intPoly(1).Sub(c.izF(Fp, x)) })
		query("IsOneI", 1, func(x, _ *Poly) *Poly { return c.izF(Fp, x.AddInt(-1)) })
		query("EqualsI", 2, func(x, y *Poly) *Poly { return c.izF(Fp, x.Sub(y)) })
		query("Equals", 2, func(x, y *Poly) *Poly { return c.izF(Fp, x.Sub(y)) })
		fe("BytesInto", func(fn *ssa.Function, st *State) {
			a, av := b.newFE(st, "a")
			buf, _ := b.newBytes(st, "buf", 32)
			for _, o := range b.run(fn, []Val{a, buf}, st) {
				b.isBytes(o.st, b.cellsAt(o.st, buf.obj, 0, 32), c.canon(Fp, av), "encoding")
				b.retIs(o, a)
			}
		})
		fe("Bytes", func(fn *ssa.Function, st *State) {
			a, av := b.newFE(st, "a")
			for _, o := range b.run(fn, []Val{a}, st) {
				g, ok := o.ret.(AggV)
				if !ok || len(g.cells) != 32 {
					b.fail("no byte array is returned")
					continue
				}
				var ps []*Poly
				for _, x := range g.cells {
					ps = append(ps, b.it.asInt(x).P)
				}
				b.isBytes(o.st, ps, c.canon(Fp, av), "encoding")
			}
		})
		fe("SetBytes", func(fn *ssa.Function, st *State) {
			r, _ := b.newFE(st, "r")
			buf, ps := b.newBytes(st, "buf", 32)
			want := leSum(ps).Sub(c.floorPoly(ps[31], 7, nil).Scale(pow2(255)))
			for _, o := range b.run(fn, []Val{r, buf}, st) {
				b.isValue(o.st, leafFE, r, want, "value")
				b.retIs(o, r)
			}
		})
		// square roots
		for _, nm := range []string{"InvSqrt", "Sqrt", "InvSqrtI"} {
			nm := nm
			fe(nm, func(fn *ssa.Function, st *State) {
				b.rootOf(nm, fn, st)
			})
		}
		b.rep.count("summaries", len(b.it.sums))
	}
}

// rootOf checks a root function on an arbitrary operand, distinct from or identical with the receiver.
func (b *bench) rootOf(nm string, fn *ssa.Function, st *State) {
	for _, alias := range []bool{false, true} {
		st := st.fork()
		a, av := b.newFE(st, "a")
		r := a
		if !alias {
			r, _ = b.newFE(st, "r")
		}
		as := sortedSyms(av.Syms())[0]
		for _, o := range b.run(fn, []Val{r, a}, st) {
			V, _, ok := b.value(o.st, leafFE, r)
			if !ok {
				b.fail("the value of the result does not close modulo p")
				continue
			}
			ret := intPoly(1)
			if nm == "InvSqrtI" {
				ret = b.it.under(o.st.facts, b.it.asInt(o.ret).P)
			} else {
				b.retIs(o, r)
			}
			b.rootCases(nm, as, V, ret)
		}
	}
}

// rootCases checks an (inverse) square root of the variable a by cases of w = a^((p-1)/4).
func (b *bench) rootCases(nm string, a Sym, V, ret *Poly) {
	c := b.c
	q4 := new(big.Int).Rsh(Fp.pm1, 2)
	im := sqrtM1
	for ci, w := range []*big.Int{bigOne, Fp.pm1, im, new(big.Int).Sub(primeP, im)} {
		square := ci < 2
		if !square && nm != "InvSqrtI" {
			continue // the argument has to be a square
		}
		Vc := c.fold(Fp, c.atQuartic(V, a, w))
		rc, isC := c.atQuartic(ret, a, w).IsConst()
		if !isC {
			b.fail("the result flag is not decided in the case a^((p-1)/4) = case %d", ci)
			continue
		}
		if rc.Cmp(big.NewInt(map[bool]int64{true: 1, false: 0}[square])) != 0 {
			b.fail("the result flag is %s for a %s", rc, map[bool]string{true: "square", false: "non-square"}[square])
			continue
		}
		// the square of the value
		X := Vc
		switch nm {
		case "Sqrt":
			// sign first: V is +-k a^E with the sign chosen by the parity of k a^E
			if !c.isNonNegative(X) {
				b.fail("the square root is not the non-negative one (case %d): %s", ci, c.str(X))
				continue
			}
			X = c.dropSign(X)
		}
		X = c.fmul(Fp, X, X)
		want := bigOne
		if nm == "Sqrt" {
			X = c.fmul(Fp, X, c.fpow(Fp, symPoly(a), new(big.Int).Sub(Fp.pm1, bigOne))) // divided by a
		} else {
			X = c.fmul(Fp, X, symPoly(a))
			if !square {
				X = c.fmul(Fp, X, constPoly(im))
			}
		}
		k, ok := c.quarticConst(X, a, w, q4)
		if !ok || k.Cmp(want) != 0 {
			b.fail("case %d of a^((p-1)/4): the square of the result is wrong: %s", ci, c.str(X))
			continue
		}
		b.rep.count("root cases", 1)
	}
	z := c.Subst(V, map[Sym]*Poly{a: intPoly(0)})
	if !c.feq(Fp, z, intPoly(0)) {
		b.fail("the root of zero is %s", c.str(z))
	}
	if zr := c.Subst(ret, map[Sym]*Poly{a: intPoly(0)}); nm == "InvSqrtI" && !zr.IsZero() {
		b.fail("the result flag for zero is %s", c.str(zr))
	}
	b.rep.count("values compared", 1)
}

// quarticConst evaluates a polynomial whose exponents of a are multiples of (p-1)/4, a non-zero.
func (c *Ctx) quarticConst(P *Poly, a Sym, w, q4 *big.Int) (*big.Int, bool) {
	P = c.unfold(Fp, P)
	r := new(big.Int)
	for k, co := range P.terms {
		v := new(big.Int).Set(co)
		for _, fa := range parseMono(k) {
			if fa.s != a {
				return nil, false
			}
			e := new(big.Int).Mod(fa.e, Fp.pm1)
			j, m := new(big.Int).QuoRem(e, q4, new(big.Int))
			if m.Sign() != 0 {
				return nil, false
			}
			v.Mul(v, new(big.Int).Exp(w, j, primeP))
		}
		r.Add(r, v)
	}
	return r.Mod(r, primeP), true
}

// atQuartic decides the zero tests in P that the value of a^((p-1)/4) determines (a non-zero).
func (c *Ctx) atQuartic(P *Poly, a Sym, w *big.Int) *Poly {
	q4 := new(big.Int).Rsh(Fp.pm1, 2)
	for n := 0; n < 40; n++ {
		m := map[Sym]*Poly{}
		var walk func(p *Poly, d int)
		seen := map[Sym]bool{}
		walk = func(p *Poly, d int) {
			for _, s := range sortedSyms(p.Syms()) {
				if seen[s] || d > 8 {
					continue
				}
				seen[s] = true
				si := c.syms[s]
				if si.kind == kIzF && si.fld == Fp {
					if si.fp.Equal(symPoly(a)) {
						m[s] = intPoly(0)
					} else if k, ok := c.quarticConst(si.fp, a, w, q4); ok {
						m[s] = intPoly(0)
						if k.Sign() == 0 {
							m[s] = intPoly(1)
						}
					}
				}
				if si.fp != nil {
					walk(si.fp, d+1)
				}
			}
		}
		walk(P, 0)
		if len(m) == 0 {
			return P
		}
		Q := c.Subst(P, m)
		if Q.Equal(P) {
			return P
		}
		P = Q
	}
	return P
}

// isNonNegative: the canonical representative of V is even.
func (c *Ctx) isNonNegative(V *Poly) bool {
	n, _ := c.canonRep(Fp, V)
	return n.IsZero()
}

// dropSign replaces the parity atoms in V by zero: V is X or -X.
func (c *Ctx) dropSign(V *Poly) *Poly {
	s := c.firstBool(V, map[Sym]bool{})
	if s == 0 || c.syms[s].kind != kNeg {
		return V
	}
	x1, x0 := c.fcof(Fp, V, s, 1), c.fcof(Fp, V, s, 0)
	if !c.feq(Fp, x1, x0.Neg()) {
		panic(undecided("the two branches of a sign do not agree"))
	}
	return x0
}

// ---- C20 ----------------------------------------------------------------------------

const ruleC20 = "abstract interpretation of ConditionalSet with the condition symbolic in {0,1}: every cell of the receiver equals c*other + (1-c)*receiver"

func init() {
	checks["C20"] = checkFn{rule: ruleC20, run: runC20, floor: map[string]int{"methods": 8, "cells compared": 2 * (8 + 40)},
		assume: []string{"the condition is 0 or 1, as documented"}}
}

func runC20(e *Env, rep *Report) {
	for _, p := range e.configs {
		b := newBench(p, rep, ruleC20)
		for _, tm := range []struct {
			pk  *ssa.Package
			typ string
		}{{p.rist, "Scalar"}, {p.rist, "Point"}, {p.ed, "ExtendedPoint"}, {p.ed, "NielsPoint"}, {p.ed, "FieldElement"}} {
			tm := tm
			b.guard(tm.typ+".ConditionalSet", func() {
				fn := b.method(tm.pk, tm.typ, "ConditionalSet")
				rep.count("methods", 1)
				st := newState()
				t := tm.pk.Type(tm.typ).Type()
				ls, ok := b.it.layout(t)
				if !ok {
					panic(undecided("layout of %s", tm.typ))
				}
				mk := func(name string) PtrV {
					o := b.it.newObj(st, name, t, flatSize(t))
					for i, l := range ls {
						switch l.kind {
						case leafFE:
							b.it.putFE(st, o, l.off, fmt.Sprintf("%s.%d", name, i), symPoly(b.c.fvar(Fp, fmt.Sprintf("%s.%d", name, i), false)), p.fe().lim)
						default:
							for j := 0; j < l.n; j++ {
								el := leafElem(l.t)
								I := typeRange(el)
								x := b.c.input(fmt.Sprintf("%s.%d.%d", name, i, j), I)
								b.it.store1(st, o, l.off+j, IntV{symPoly(x), I})
							}
						}
					}
					return PtrV{o, 0}
				}
				r, q := mk("r"), mk("q")
				rb, qb := b.snapshot(st, r.obj), b.snapshot(st, q.obj)
				// concrete conditions, limb by limb
				for cond := int64(0); cond <= 1; cond++ {
					s2 := st.fork()
					b.it.noSum = true // limbs, not values
					outs := b.run(fn, []Val{r, q, constInt(cond)}, s2)
					b.it.noSum = false
					want := rb
					if cond == 1 {
						want = qb
					}
					for _, o := range outs {
						b.retIs(o, r)
						for i, v := range want {
							x := b.it.under(o.st.facts, b.it.asInt(b.it.load1(o.st, r.obj, i)).P)
							if !x.Equal(b.it.asInt(v).P) {
								b.fail("condition %d: cell %d of the receiver becomes %s", cond, i, b.c.str(x))
								break
							}
							rep.count("cells compared", 1)
						}
						b.same(o.st, q.obj, qb, fmt.Sprintf("condition %d: the operand is modified", cond))
					}
				}
			})
		}
	}
}

// ---- C21 ----------------------------------------------------------------------------

const ruleC21 = "abstract interpretation of the conversions: BigInt returns the canonical representative, SetBigInt of an arbitrary integer X stores X modulo the field"

func init() {
	checks["C21"] = checkFn{rule: ruleC21, run: runC21, floor: map[string]int{"methods": 8, "outcomes compared": 8},
		assume: []string{"math/big's Mod, SetBytes, Bytes, SetString as documented"}}
}

func runC21(e *Env, rep *Report) {
	for _, p := range e.configs {
		b := newBench(p, rep, ruleC21)
		for _, tk := range []struct {
			pk  *ssa.Package
			typ string
			k   leafKind
		}{{p.rist, "Scalar", leafSc}, {p.ed, "FieldElement", leafFE}} {
			tk := tk
			f, _ := b.field(tk.k)
			mk := b.newFE
			if tk.k == leafSc {
				mk = b.newScalar
			}
			b.guard(tk.typ+".BigInt", func() {
				fn := b.method(tk.pk, tk.typ, "BigInt")
				rep.count("methods", 1)
				st := newState()
				a, av := mk(st, "a")
				for _, o := range b.run(fn, []Val{a}, st) {
					_, P := b.it.bigCell(o.st, o.ret)
					if !b.it.under(o.st.facts, P).Equal(b.it.under(o.st.facts, b.c.canon(f, av))) {
						b.fail("the integer returned is %s", b.c.str(P))
					}
				}
			})
			b.guard(tk.typ+".SetBigInt", func() {
				fn := b.method(tk.pk, tk.typ, "SetBigInt")
				rep.count("methods", 1)
				st := newState()
				r, _ := mk(st, "r")
				bt := fn.Params[1].Type().Underlying().(*types.Pointer).Elem()
				X := symPoly(b.c.keyed("bigX", func() *symInfo { return &symInfo{kind: kIn, name: "X"} }))
				o := b.it.newObj(st, "X", bt, flatSize(bt))
				b.it.store1(st, o, 0, BigV{X})
				for _, o := range b.run(fn, []Val{r, PtrV{o, 0}}, st) {
					b.isValue(o.st, tk.k, r, X, "value")
					b.retIs(o, r)
				}
			})
		}
	}
}

// ---- C10 ----------------------------------------------------------------------------

const ruleC10 = "abstract interpretation of each scalar method on arbitrary reduced scalars: the result is congruent modulo l to the specified polynomial and its words are the digits of a number in [0,l)"

func init() {
	checks["C10"] = checkFn{rule: ruleC10, run: runC10, floor: map[string]int{"methods": 30, "values compared": 22, "results compared": 6},
		assume: []string{"operands are reduced, as every operation of the library leaves them (C10, C11)", "l is prime (inversion as the power l-2)"}}
}

func runC10(e *Env, rep *Report) {
	for _, p := range e.configs {
		b := newBench(p, rep, ruleC10)
		c := b.c
		op := func(name string, n int, spec func(v []*Poly) *Poly) {
			b.guard("Scalar."+name, func() {
				fn := b.method(p.rist, "Scalar", name)
				rep.count("methods", 1)
				st := newState()
				r, _ := b.newScalar(st, "r")
				args := []Val{r}
				var vs []*Poly
				for i := 0; i < n; i++ {
					a, v := b.newScalar(st, string(rune('a'+i)))
					args = append(args, a)
					vs = append(vs, v)
				}
				for _, o := range b.run(fn, args, st) {
					b.isValue(o.st, leafSc, r, spec(vs), "value")
					b.retIs(o, r)
				}
			})
		}
		op("SetZero", 0, func(v []*Poly) *Poly { return intPoly(0) })
		op("SetOne", 0, func(v []*Poly) *Poly { return intPoly(1) })
		op("Set", 1, func(v []*Poly) *Poly { return v[0] })
		op("Neg", 1, func(v []*Poly) *Poly { return v[0].Neg() })
		op("Add", 2, func(v []*Poly) *Poly { return v[0].Add(v[1]) })
		op("Sub", 2, func(v []*Poly) *Poly { return v[0].Sub(v[1]) })
		op("Mul", 2, func(v []*Poly) *Poly { return c.Mul(v[0], v[1]) })
		op("Square", 1, func(v []*Poly) *Poly { return c.Mul(v[0], v[0]) })
		op("MulAdd", 3, func(v []*Poly) *Poly { return c.Mul(v[0], v[1]).Add(v[2]) })
		op("MulSub", 3, func(v []*Poly) *Poly { return c.Mul(v[0], v[1]).Sub(v[2]) })
		op("Inverse", 1, func(v []*Poly) *Poly { return c.fpow(Fl, v[0], new(big.Int).Sub(primeL, bigTwo)) })
		query := func(name string, n int, spec func(v []*Poly) *Poly) {
			b.guard("Scalar."+name, func() {
				fn := b.method(p.rist, "Scalar", name)
				rep.count("methods", 1)
				st := newState()
				var args []Val
				var vs []*Poly
				for i := 0; i < n; i++ {
					a, v := b.newScalar(st, string(rune('a'+i)))
					args = append(args, a)
					vs = append(vs, v)
				}
				for _, o := range b.run(fn, args, st) {
					b.isInt(o.st, o.ret, spec(vs), "result")
				}
			})
		}
		query("IsNonZeroI", 1, func(v []*Poly) *Poly { return intPoly(1).Sub(c.izF(Fl, v[0])) })
		query("EqualsI", 2, func(v []*Poly) *Poly { return c.izF(Fl, v[0].Sub(v[1])) })
		query("Equals", 2, func(v []*Poly) *Poly { return c.izF(Fl, v[0].Sub(v[1])) })
		// constants: SetUint64 belongs to C11
		b.guard("Scalar.SetUint64", func() {
			fn := b.method(p.rist, "Scalar", "SetUint64")
			rep.count("methods", 1)
			st := newState()
			r, _ := b.newScalar(st, "r")
			I := typeRange(types.Typ[types.Uint64])
			x := symPoly(c.input("x", I))
			for _, o := range b.run(fn, []Val{r, IntV{x, I}}, st) {
				b.isValue(o.st, leafSc, r, x, "value")
				b.retIs(o, r)
			}
		})
		rep.count("summaries", len(b.it.sums))
	}
}

// ---- C11 ----------------------------------------------------------------------------

const ruleC11 = "abstract interpretation of the scalar decoders and encoders on arbitrary bytes: value modulo l, canonical range, acceptance condition and bytes written equal the specification"

func init() {
	checks["C11"] = checkFn{rule: ruleC11, run: runC11, floor: map[string]int{"methods": 16, "values compared": 12, "byte strings compared": 4},
		assume: []string{"crypto/sha512 computes SHA-512"}}
}

// unknownSlice makes a byte slice of arbitrary length and contents.
func (b *bench) unknownSlice(st *State, name string) (SliceV, *Object) {
	u8 := types.Typ[types.Uint8]
	n := symPoly(b.c.input("len("+name+")", iv(bigZero, new(big.Int).Sub(pow2(62), bigOne))))
	nv := IntV{n, b.c.bound(n)}
	o := b.it.newObj(st, name, u8, 0)
	o.sym = true
	o.lenP = n
	st.mem[o].cells = nil
	return SliceV{o, 0, nv, nv, u8}, o
}

// shaOf names the digest bytes of a slice.
func (b *bench) shaOf(st *State, op string, s SliceV, n int) []*Poly {
	args := b.it.content(st, s)
	var r []*Poly
	for i := 0; i < n; i++ {
		r = append(r, b.c.opSym(fmt.Sprintf("%s[%d]", op, i), args, iv64(0, 255)))
	}
	return r
}

func runC11(e *Env, rep *Report) {
	for _, p := range e.configs {
		b := newBench(p, rep, ruleC11)
		c := b.c
		sc := func(name string, body func(fn *ssa.Function, st *State)) {
			b.guard("Scalar."+name, func() {
				fn := b.method(p.rist, "Scalar", name)
				rep.count("methods", 1)
				body(fn, newState())
			})
		}
		sc("SetBytes", func(fn *ssa.Function, st *State) {
			r, _ := b.newScalar(st, "r")
			buf, ps := b.newBytes(st, "buf", 32)
			want := leSum(ps).Sub(c.floorPoly(ps[31], 5, nil).Scale(pow2(253)))
			for _, o := range b.run(fn, []Val{r, buf}, st) {
				b.isValue(o.st, leafSc, r, want, "value")
				b.retIs(o, r)
			}
		})
		sc("SetReduced", func(fn *ssa.Function, st *State) {
			r, _ := b.newScalar(st, "r")
			buf, ps := b.newBytes(st, "buf", 64)
			for _, o := range b.run(fn, []Val{r, buf}, st) {
				b.isValue(o.st, leafSc, r, leSum(ps), "value")
				b.retIs(o, r)
			}
		})
		sc("SetUint64", func(fn *ssa.Function, st *State) {
			r, _ := b.newScalar(st, "r")
			I := typeRange(types.Typ[types.Uint64])
			x := symPoly(c.input("x", I))
			for _, o := range b.run(fn, []Val{r, IntV{x, I}}, st) {
				b.isValue(o.st, leafSc, r, x, "value")
				b.retIs(o, r)
			}
		})
		sc("SetBytesStrict", func(fn *ssa.Function, st *State) {
			r, rv := b.newScalar(st, "r")
			buf, ps := b.newBytes(st, "buf", 32)
			N := leSum(ps)
			okP := c.floorPoly(N.Sub(constPoly(primeL)), 256, nil).Neg() // [N < l]
			want := c.Mul(okP, N.Sub(rv)).Add(rv)
			for _, o := range b.run(fn, []Val{r, buf}, st) {
				b.isInt(o.st, o.ret, okP, "result")
				b.isValue(o.st, leafSc, r, want, "value")
			}
		})
		sc("BytesInto", func(fn *ssa.Function, st *State) {
			a, av := b.newScalar(st, "a")
			buf, _ := b.newBytes(st, "buf", 32)
			for _, o := range b.run(fn, []Val{a, buf}, st) {
				b.isBytes(o.st, b.cellsAt(o.st, buf.obj, 0, 32), c.canon(Fl, av), "encoding")
				b.retIs(o, a)
			}
		})
		sc("Bytes", func(fn *ssa.Function, st *State) {
			a, av := b.newScalar(st, "a")
			for _, o := range b.run(fn, []Val{a}, st) {
				s, ok := o.ret.(SliceV)
				if n, ok2 := b.it.sliceKnown(o.st, s); !ok || !ok2 || n != 32 {
					b.fail("does not return 32 bytes")
					continue
				}
				b.isBytes(o.st, b.cellsAt(o.st, s.obj, s.off, 32), c.canon(Fl, av), "encoding")
			}
		})
		for _, d := range []struct {
			name string
			n    int
		}{{"Derive", 64}, {"DeriveShort", 16}} {
			d := d
			sc(d.name, func(fn *ssa.Function, st *State) {
				r, _ := b.newScalar(st, "r")
				data, _ := b.unknownSlice(st, "data")
				h := b.shaOf(st, "Sum512", data, 64)
				for _, o := range b.run(fn, []Val{r, data}, st) {
					b.isValue(o.st, leafSc, r, leSum(h[:d.n]), "value")
					b.retIs(o, r)
				}
			})
		}
	}
}
