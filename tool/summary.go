package main

// Function summaries.  A function whose pointer parameters refer to field
// elements, scalars, structures of these and byte arrays is analysed once per
// calling pattern (aliasing, limb bounds, constant integers) on formal inputs;
// the result, as polynomials in the formal values, is instantiated at calls.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type leafKind byte

const (
	leafFE leafKind = 'F'
	leafSc leafKind = 'S'
	leafBy leafKind = 'B'
	leafI  leafKind = 'I'
)

type leaf struct {
	kind   leafKind
	off, n int
	t      types.Type
}

func sameType(a, b types.Type) bool { return types.Identical(a, b) }

// layout splits a type into leaves; false if it holds anything else.
func (it *Interp) layout(t types.Type) ([]leaf, bool) {
	var out []leaf
	off := 0
	fe := it.p.fe().t
	sc := it.p.scalarType()
	var rec func(t types.Type) bool
	rec = func(t types.Type) bool {
		if sameType(t, fe) {
			out = append(out, leaf{leafFE, off, it.p.fe().n, t})
			off += it.p.fe().n
			return true
		}
		if sameType(t, sc) {
			out = append(out, leaf{leafSc, off, 8, t})
			off += 8
			return true
		}
		switch u := t.Underlying().(type) {
		case *types.Array:
			if w, s, ok := intType(u.Elem()); ok && w == 8 && !s {
				out = append(out, leaf{leafBy, off, int(u.Len()), t})
				off += int(u.Len())
				return true
			}
			for i := int64(0); i < u.Len(); i++ {
				if len(out) > 64 || !rec(u.Elem()) {
					return false
				}
			}
			return true
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				if !rec(u.Field(i).Type()) {
					return false
				}
			}
			return true
		case *types.Basic:
			if _, _, ok := intType(t); ok {
				out = append(out, leaf{leafI, off, 1, t})
				off++
				return true
			}
		}
		return false
	}
	if !rec(t) {
		return nil, false
	}
	return out, true
}

func (p *Program) scalarType() types.Type { return p.rist.Type("Scalar").Type() }

var scalarW = []uint{0, 32, 64, 96, 128, 160, 192, 224}

func (it *Interp) leafWeights(k leafKind) (*Field, []uint) {
	if k == leafFE {
		return Fp, it.p.fe().w
	}
	return Fl, scalarW
}

// view describes the contents of a field-element or scalar leaf.
type view struct {
	kind byte // 'u' unknown contents, 'c' canonical digits, 'g' limbs within bounds
	V    *Poly
	lim  []Interval
	// 'k': constant contents
	cells []IntV
}

// digitsOf writes a number as digits of the given weights.
func (c *Ctx) digitsOf(P *Poly, w []uint, elemBits uint) []IntV {
	out := make([]IntV, len(w))
	for i := range w {
		lo := c.floorPoly(P, w[i], nil)
		d := lo
		nb := uint(0)
		if i+1 < len(w) {
			nb = w[i+1] - w[i]
			hi := c.floorPoly(P, w[i+1], nil)
			d = lo.Sub(hi.Scale(pow2(nb)))
			c.setBound(d, iv(bigZero, new(big.Int).Sub(pow2(nb), bigOne)))
		}
		I, ok := c.tryBound(d)
		if !ok {
			panic(undecided("digits of an unbounded number"))
		}
		out[i] = IntV{d, I}
	}
	return out
}

func roundOut(I Interval) Interval {
	up := func(x *big.Int) *big.Int { // away from zero for positive magnitudes
		n := x.BitLen()
		if n <= 8 {
			if x.Sign() == 0 {
				return bigZero
			}
			return big.NewInt(255)
		}
		sh := uint(n - 8)
		m := new(big.Int).Rsh(new(big.Int).Add(x, new(big.Int).Sub(pow2(sh), bigOne)), sh)
		// upper end 2^n - 1 stays
		r := m.Lsh(m, sh)
		if new(big.Int).Add(x, bigOne).Cmp(r) == 0 {
			return x
		}
		return r
	}
	lo, hi := bigZero, bigZero
	if I.hi.Sign() > 0 {
		hi = up(I.hi)
	}
	if I.lo.Sign() < 0 {
		lo = new(big.Int).Neg(up(new(big.Int).Neg(I.lo)))
	}
	if hi.Sign() == 0 && lo.Sign() == 0 {
		hi = big.NewInt(255)
	}
	return iv(lo, hi)
}

// viewLeaf abstracts the cells of a leaf; nil if it has no closed value.
func (it *Interp) viewLeaf(st *State, o *Object, off int, k leafKind) *view {
	c := it.c
	f, w := it.leafWeights(k)
	bots := 0
	var cells []IntV
	for i := range w {
		v, ok := it.load1(st, o, off+i).(IntV)
		if !ok {
			bots++
			continue
		}
		cells = append(cells, v)
	}
	if bots == len(w) {
		return &view{kind: 'u'}
	}
	if bots > 0 {
		return nil
	}
	return it.viewCells(st, cells, f, w, c)
}

func (it *Interp) viewCells(st *State, cells []IntV, f *Field, w []uint, c *Ctx) *view {
	s := newPoly()
	allC := f == Fl
	for i, x := range cells {
		s = s.Add(x.P.Scale(pow2(w[i])))
		if _, isC := x.P.IsConst(); !isC {
			allC = false
		}
	}
	if allC {
		return &view{kind: 'k', V: s.Mod(f.mod), cells: cells}
	}
	lims := func() []Interval {
		var l []Interval
		for _, x := range cells {
			l = append(l, roundOut(it.bnd(st, x)))
		}
		return l
	}
	// limbs of one group
	if g := c.asGroupSum(s); g != nil && g.fld == f {
		whole := true
		for i, x := range cells {
			if !x.P.Equal(symPoly(g.limbs[i])) {
				whole = false
			}
		}
		if whole {
			return &view{kind: 'g', V: it.underF(st, f, g.V), lim: lims()}
		}
	}
	if _, isC := s.IsConst(); !isC {
		if I, ok := c.tryBound(s); ok && I.lo.Sign() >= 0 && I.hi.Cmp(f.mod) < 0 {
			if g2, A := c.asCanon(s); g2 == f {
				ds := c.digitsOf(s, w, 0)
				same := true
				for i := range ds {
					if !ds[i].P.Equal(cells[i].P) {
						same = false
					}
				}
				if same {
					return &view{kind: 'c', V: it.underF(st, f, c.fold(f, A))}
				}
			}
		}
	}
	V, ok := c.closeSum(f, it.under(st.facts, s))
	if !ok {
		return nil
	}
	return &view{kind: 'g', V: V, lim: lims()}
}

func (it *Interp) underF(st *State, f *Field, V *Poly) *Poly {
	if len(st.facts.sub) == 0 && len(st.facts.roots) == 0 {
		return V
	}
	return it.c.fold(f, it.c.toField(f, it.under(st.facts, V)))
}

type region struct {
	obj    *Object
	off    int
	t      types.Type
	leaves []leaf
	size   int
}

// effect is what a summary does to a leaf.
type leafEffect struct {
	reg, leaf int
	kind      byte // 'c','g' values; 'p' exact polynomials per cell
	V         *Poly
	lim       []Interval
	cells     []IntV
	fld       *Field // 'd': bytes of the canonical representative of V
	any       bool   // the value is unknown
}

type fnSummary struct {
	inline  bool
	why     string
	formals []Sym // all formal symbols
	eff     []leafEffect
	ret     Val // in formal terms; pointers refer to formal objects
	objs    []*Object
	npanics int
	calls   int
	exact   bool // only field elements and integers are involved
}

func (it *Interp) summarized(fn *ssa.Function, args []Val, st *State, in ssa.Instruction) ([]outcome, bool) {
	if it.noSum || len(fn.FreeVars) > 0 || it.p.usesRand(fn) || it.c.orc != nil && it.usesRoot(fn) {
		return nil, false
	}
	sig := fn.Signature
	_ = sig
	var regs []*region
	regOf := make([]int, len(args)) // region index of pointer params, -1 for integers
	key := strings.Builder{}
	key.WriteString(fn.String())
	if it.points {
		key.WriteString("*")
	}
	interesting := false
	for i, p := range fn.Params {
		regOf[i] = -1
		switch t := p.Type().Underlying().(type) {
		case *types.Pointer:
			ls, ok := it.layout(t.Elem())
			if !ok {
				return nil, false
			}
			a, ok := args[i].(PtrV)
			if !ok || a.obj == nil || a.obj.sym {
				return nil, false
			}
			size := 0
			for _, l := range ls {
				size += l.n
				if l.kind == leafFE || l.kind == leafSc {
					interesting = true
				}
			}
			for j, r := range regs {
				if r.obj != a.obj {
					continue
				}
				if r.off == a.off && r.size == size {
					regOf[i] = j
				} else if a.off < r.off+r.size && r.off < a.off+size {
					return nil, false
				}
			}
			if regOf[i] < 0 {
				regOf[i] = len(regs)
				regs = append(regs, &region{a.obj, a.off, t.Elem(), ls, size})
			}
			fmt.Fprintf(&key, "|@%d", regOf[i])
		case *types.Basic:
			if _, _, ok := intType(p.Type()); !ok {
				return nil, false
			}
			v, ok := args[i].(IntV)
			if !ok {
				return nil, false
			}
			v = it.norm(st, v)
			args[i] = v
			if k, isC := v.konst(); isC {
				fmt.Fprintf(&key, "|=%s", k)
			} else if I := it.bnd(st, v); I.lo.Sign() >= 0 && I.hi.Cmp(bigOne) <= 0 {
				key.WriteString("|b")
			} else {
				if debugging {
					t := ""
					for _, x := range sortedSyms(v.P.Syms()) {
						t += fmt.Sprintf(" %d=%s", x, it.c.str(symPoly(x)))
						if len(t) > 400 {
							break
						}
					}
					dbg("ARG %s %s %s", fn, it.c.brief(v.P, 10), t)
				}
				I = roundOut(I)
				fmt.Fprintf(&key, "|i%s", I)
			}
		default:
			return nil, false
		}
	}
	if !interesting {
		return nil, false
	}
	views := make([][]*view, len(regs))
	for ri, r := range regs {
		views[ri] = make([]*view, len(r.leaves))
		for li, l := range r.leaves {
			switch l.kind {
			case leafFE, leafSc:
				v := it.viewLeaf(st, r.obj, r.off+l.off, l.kind)
				if v == nil {
					if debugging {
						v := it.asInt(it.load1(st, r.obj, r.off+l.off))
						dbg("no view %s %s+%d %s", fn, r.obj.name, r.off, it.c.str(v.P))
					}
					return nil, false
				}
				views[ri][li] = v
				fmt.Fprintf(&key, ";%c", v.kind)
				for _, x := range v.cells {
					fmt.Fprintf(&key, "%s,", x.P.Const())
				}
				if v.kind == 'g' {
					for _, I := range v.lim {
						fmt.Fprintf(&key, "%s,%s ", I.lo, I.hi)
					}
				}
			default:
				for i := 0; i < l.n; i++ {
					if _, ok := it.load1(st, r.obj, r.off+l.off+i).(IntV); !ok {
						return nil, false
					}
				}
			}
		}
	}
	k := key.String()
	s, ok := it.sums[k]
	if !ok {
		restore := it.c.withoutOracle()
		s = it.summarize(fn, args, regOf, regs, views, st)
		restore()
		s.exact = it.feOnly(fn)
		it.sums[k] = s
		if s.inline {
			dbg("inline %.400s: %s\n   key %s", fn, s.why, k)
		}
	}
	if s.inline && it.feOnly(fn) {
		// the analysis may close for wider limbs
		k = "wide " + k
		if s, ok = it.sums[k]; !ok {
			wide := make([][]*view, len(views))
			any := false
			for ri := range views {
				for _, v := range views[ri] {
					if v != nil && v.kind == 'g' {
						w := *v
						w.lim = it.p.fe().lim
						within := len(w.lim) == len(v.lim)
						for i, I := range v.lim {
							within = within && w.lim[i].lo.Cmp(I.lo) <= 0 && w.lim[i].hi.Cmp(I.hi) >= 0
						}
						if !within {
							w.lim = nil
						}
						for _, I := range v.lim {
							if within {
								break
							}
							w.lim = append(w.lim, iv(new(big.Int).Lsh(I.lo, 1), new(big.Int).Add(new(big.Int).Lsh(I.hi, 1), bigOne)))
						}
						v = &w
						any = true
					}
					wide[ri] = append(wide[ri], v)
				}
			}
			s = &fnSummary{inline: true}
			if any {
				restore := it.c.withoutOracle()
				s = it.summarize(fn, args, regOf, regs, wide, st)
				restore()
				s.exact = true
			}
			it.sums[k] = s
		}
	}
	if s.inline {
		return nil, false
	}
	s.calls++
	outs := it.instantiate(s, args, regOf, regs, views, st)
	return outs, outs != nil
}

// closeInst instantiates a field value; integer arguments may bring in limbs.
func (it *Interp) closeInst(f *Field, sub *substitution, V *Poly) (*Poly, bool) {
	c := it.c
	for _, q := range sub.m {
		if c.dependsOnLimb(q) {
			return c.closeSum(f, sub.apply(c.unfold(f, V)))
		}
	}
	return c.fold(f, c.toField(f, sub.apply(V))), true
}

// summarize analyses fn on formal inputs.
func (it *Interp) summarize(fn *ssa.Function, args []Val, regOf []int, regs []*region, views [][]*view, st *State) (s *fnSummary) {
	c := it.c
	it.nsum++
	id := it.nsum
	s = &fnSummary{}
	defer func() {
		if x := recover(); x != nil {
			if u, ok := x.(undecidedErr); ok {
				s.inline = true
				s.why = u.msg
				return
			}
			panic(x)
		}
	}()
	depth := len(it.stack)
	defer func() { it.stack = it.stack[:depth] }()
	fst := newState()
	// formal objects
	for ri, r := range regs {
		name := fmt.Sprintf("s%d.%d", id, ri)
		o := it.newObj(fst, name, r.t, r.size)
		s.objs = append(s.objs, o)
		for li, l := range r.leaves {
			nm := fmt.Sprintf("%s.%d", name, li)
			switch l.kind {
			case leafFE, leafSc:
				f, w := it.leafWeights(l.kind)
				v := views[ri][li]
				if v.kind == 'k' {
					for i, x := range v.cells {
						it.store1(fst, o, l.off+i, x)
					}
					s.formals = append(s.formals, 0)
					continue
				}
				if v.kind == 'u' {
					for i := 0; i < l.n; i++ {
						it.store1(fst, o, l.off+i, BotV{"uninitialised"})
					}
					s.formals = append(s.formals, 0)
					continue
				}
				x := c.fvar(f, nm, false)
				s.formals = append(s.formals, x)
				if v.kind == 'c' {
					for i, d := range c.digitsOf(c.canon(f, symPoly(x)), w, 0) {
						it.store1(fst, o, l.off+i, d)
					}
				} else {
					g := c.newGroup(nm, f, w, symPoly(x), v.lim, nil)
					for i, ls := range g.limbs {
						it.store1(fst, o, l.off+i, IntV{symPoly(ls), v.lim[i]})
					}
				}
			default:
				I := typeRange(leafElem(l.t))
				for i := 0; i < l.n; i++ {
					x := c.input(fmt.Sprintf("%s[%d]", nm, i), I)
					s.formals = append(s.formals, x)
					it.store1(fst, o, l.off+i, IntV{symPoly(x), I})
				}
			}
		}
	}
	fargs := make([]Val, len(args))
	for i := range args {
		if regOf[i] >= 0 {
			fargs[i] = PtrV{s.objs[regOf[i]], 0}
			continue
		}
		v := args[i].(IntV)
		if _, isC := v.konst(); isC {
			fargs[i] = v
			continue
		}
		I := it.bnd(st, v)
		var x Sym
		if I.lo.Sign() >= 0 && I.hi.Cmp(bigOne) <= 0 {
			x = c.boolInput(fmt.Sprintf("s%d.a%d", id, i))
			fargs[i] = IntV{symPoly(x), iv64(0, 1)}
		} else {
			I = roundOut(I)
			x = c.input(fmt.Sprintf("s%d.a%d", id, i), I)
			fargs[i] = IntV{symPoly(x), I}
		}
		s.formals = append(s.formals, x)
	}
	before := map[*Object][]Val{}
	for _, o := range s.objs {
		before[o] = append([]Val(nil), it.block(fst, o).cells...)
	}
	np := len(it.panics)
	outs := it.exec(fn, fargs, nil, fst)
	s.npanics = len(it.panics) - np
	if len(outs) != 1 {
		s.inline = true
		s.why = fmt.Sprintf("%d outcomes", len(outs))
		return s
	}
	ost := outs[0].st
	ost.facts = newState().facts
	// results
	switch r := outs[0].ret.(type) {
	case nil:
	case IntV:
		if c.dependsOnLimb(r.P) {
			panic(undecided("result depends on limbs"))
		}
		s.ret = r
	case PtrV:
		found := r.obj == nil
		for _, o := range s.objs {
			if o == r.obj {
				found = true
			}
		}
		if !found {
			panic(undecided("result points to other memory"))
		}
		s.ret = r
	case AggV:
		for _, x := range r.cells {
			v, ok := x.(IntV)
			if !ok || c.dependsOnLimb(v.P) {
				panic(undecided("aggregate result"))
			}
		}
		s.ret = r
	case TupV:
		for _, x := range r {
			v, ok := x.(IntV)
			if !ok || c.dependsOnLimb(v.P) {
				panic(undecided("tuple result"))
			}
		}
		s.ret = r
	default:
		panic(undecided("result of type %T", r))
	}
	// effects
	for ri, r := range regs {
		o := s.objs[ri]
		cells := it.block(ost, o).cells
		for li, l := range r.leaves {
			changed := false
			for i := 0; i < l.n; i++ {
				if !sameVal(before[o][l.off+i], cells[l.off+i]) {
					changed = true
				}
			}
			if !changed {
				continue
			}
			var vs []IntV
			for i := 0; i < l.n; i++ {
				v, ok := cells[l.off+i].(IntV)
				if !ok {
					panic(undecided("partly initialised result"))
				}
				vs = append(vs, v)
			}
			s.eff = append(s.eff, it.closeLeaf(ri, li, l, vs))
		}
	}
	return s
}

func leafElem(t types.Type) types.Type {
	if a, ok := t.Underlying().(*types.Array); ok {
		return a.Elem()
	}
	return t
}

// closeLeaf turns the final cells of a leaf into an effect.
func (it *Interp) closeLeaf(ri, li int, l leaf, vs []IntV) leafEffect {
	c := it.c
	dep := false
	for _, v := range vs {
		if c.dependsOnLimb(v.P) {
			dep = true
		}
	}
	e := leafEffect{reg: ri, leaf: li}
	switch l.kind {
	case leafFE, leafSc:
		f, w := it.leafWeights(l.kind)
		s := newPoly()
		for i, v := range vs {
			s = s.Add(v.P.Scale(pow2(w[i])))
		}
		V, ok := c.closeSum(f, s)
		if !ok && it.havoc && f == Fp {
			// limb bounds alone are wanted: any value
			e.any = true
			V, ok = newPoly(), true
		}
		if !ok {
			panic(undecided("the value of a result does not close modulo %s: %s", f.name, c.str(s.Mod(f.mod))))
		}
		e.V = V
		if !e.any && !((it.havoc || it.points) && f == Fp && it.smallDigits(vs, w)) && c.inCanonRange(f, s) && it.digitRange(vs, w) {
			e.kind = 'c'
			return e
		}
		if f == Fl {
			panic(undecided("a scalar result is not shown to be canonical"))
		}
		e.kind = 'g'
		for _, v := range vs {
			I := v.I
			if J, ok := c.tryBound(v.P); ok {
				I = ivMeet(I, J)
			}
			if I.isPoint() {
				I = roundOut(I)
			}
			e.lim = append(e.lim, I)
		}
		return e
	case leafBy:
		if !dep {
			e.kind = 'p'
			e.cells = vs
			return e
		}
		s := newPoly()
		for i, v := range vs {
			s = s.Add(v.P.Scale(pow2(uint(8 * i))))
		}
		for _, f := range []*Field{Fp, Fl} {
			V, ok := c.closeSum(f, s)
			if !ok || !c.inCanonRange(f, s) {
				continue
			}
			e.kind = 'd'
			e.V = V
			e.lim = nil
			e.fld = f
			return e
		}
		panic(undecided("bytes written are not the canonical encoding of a value: %s", c.str(s)))
	default:
		if dep {
			panic(undecided("integer written depends on limbs"))
		}
		e.kind = 'p'
		e.cells = vs
		return e
	}
}

func byteW(n int) []uint {
	var w []uint
	for i := 0; i < n; i++ {
		w = append(w, uint(8*i))
	}
	return w
}

// digitRange: every cell lies in the range of its digit, so the cells are the digits of their sum.
func (it *Interp) digitRange(vs []IntV, w []uint) bool {
	for i, v := range vs {
		I := v.I
		if J, ok := it.c.tryBound(v.P); ok {
			I = ivMeet(I, J)
		}
		if I.lo.Sign() < 0 {
			return false
		}
		if i+1 < len(w) && I.hi.Cmp(pow2(w[i+1]-w[i])) >= 0 {
			return false
		}
	}
	return true
}

// inCanonRange proves s in [0, mod).
func (c *Ctx) inCanonRange(f *Field, s *Poly) bool {
	R := iv(bigZero, f.pm1)
	I, ok := c.tryBound(s)
	if !ok {
		return false
	}
	if I.within(R) {
		return true
	}
	I, ok = c.bsplit(s, nil, map[Sym]int64{}, 64, 3)
	if ok && I.within(R) {
		return true
	}
	return false
}

func (it *Interp) instantiate(s *fnSummary, args []Val, regOf []int, regs []*region, views [][]*view, st *State) []outcome {
	c := it.c
	m := map[Sym]*Poly{}
	fi := 0
	next := func() Sym {
		x := s.formals[fi]
		fi++
		return x
	}
	for ri, r := range regs {
		for li, l := range r.leaves {
			switch l.kind {
			case leafFE, leafSc:
				x := next()
				if x != 0 {
					m[x] = views[ri][li].V
					if it.naming && l.kind == leafFE {
						m[x] = c.named(Fp, m[x])
					}
				}
			default:
				for i := 0; i < l.n; i++ {
					m[next()] = it.asInt(it.load1(st, r.obj, r.off+l.off+i)).P
				}
			}
		}
	}
	for i := range args {
		if regOf[i] >= 0 {
			continue
		}
		v := args[i].(IntV)
		if _, isC := v.konst(); isC {
			continue
		}
		m[next()] = v.P
	}
	sub := c.newSubst(m)
	intv := func(v IntV) IntV {
		if _, isC := v.konst(); it.havoc && !isC && !s.exact {
			I := v.I
			if J, ok := c.tryBound(v.P); ok {
				I = ivMeet(I, J)
			}
			return it.freshInt(I)
		}
		P := sub.apply(v.P)
		I := v.I
		if s.npanics == 0 {
			c.setBound(P, I)
		}
		if J, ok := c.tryBound(P); ok {
			I = ivMeet(I, J)
		}
		return IntV{P, I}
	}
	type wr struct {
		o   *Object
		off int
		v   Val
	}
	var ws []wr
	for _, e := range s.eff {
		r := regs[e.reg]
		l := r.leaves[e.leaf]
		switch e.kind {
		case 'p':
			for i, v := range e.cells {
				ws = append(ws, wr{r.obj, r.off + l.off + i, intv(v)})
			}
		case 'd':
			V, ok := e.V, true
			if it.havoc && e.fld == Fp && !s.exact {
				V = it.freshFE()
			} else if V, ok = it.closeInst(e.fld, sub, e.V); !ok {
				return nil
			}
			for i, v := range c.digitsOf(c.canon(e.fld, V), byteW(l.n), 0) {
				ws = append(ws, wr{r.obj, r.off + l.off + i, v})
			}
		default:
			f, w := it.leafWeights(l.kind)
			var V *Poly
			if e.any || it.havoc && f == Fp && !it.insideFE() {
				V = it.freshFE()
			} else {
				var ok bool
				if V, ok = it.closeInst(f, sub, e.V); !ok {
					return nil
				}
				if it.naming {
					V = c.named(f, V)
				}
			}
			var cells []IntV
			if e.kind == 'c' {
				cells = c.digitsOf(c.canon(f, V), w, 0)
			} else {
				g := c.newGroup("v", f, w, V, e.lim, nil)
				for i, x := range g.limbs {
					cells = append(cells, IntV{symPoly(x), e.lim[i]})
				}
			}
			for i, v := range cells {
				ws = append(ws, wr{r.obj, r.off + l.off + i, v})
			}
		}
	}
	for _, w := range ws {
		it.store1(st, w.o, w.off, w.v)
	}
	var ret Val
	switch r := s.ret.(type) {
	case IntV:
		ret = intv(r)
	case PtrV:
		ret = r
		for i, o := range s.objs {
			if o == r.obj {
				ret = PtrV{regs[i].obj, regs[i].off + r.off}
			}
		}
	case AggV:
		a := AggV{t: r.t}
		for _, x := range r.cells {
			a.cells = append(a.cells, intv(x.(IntV)))
		}
		ret = a
	case TupV:
		t := TupV{}
		for _, x := range r {
			t = append(t, intv(x.(IntV)))
		}
		ret = t
	}
	return one(ret, st)
}

// named abbreviates a long linear combination of inputs (the number in a byte
// string) by a symbol of its own.
func (c *Ctx) named(f *Field, V *Poly) *Poly {
	if f != Fp {
		return V
	}
	if c.longInput(V) {
		return symPoly(c.nameOf(f, V))
	}
	any := false
	for s := range V.Syms() {
		if c.syms[s].kind == kW && c.longInput(c.syms[s].fp) {
			any = true
		}
	}
	if !any {
		return V
	}
	r := newPoly()
	for k, co := range V.terms {
		t := constPoly(co)
		for _, fa := range parseMono(k) {
			if c.syms[fa.s].kind == kW && c.longInput(c.syms[fa.s].fp) {
				fa.s = c.nameOf(f, c.syms[fa.s].fp)
			}
			q := newPoly()
			q.terms[monoKey([]factor{fa})] = bigOne
			t = c.Mul(t, q)
		}
		r = r.Add(t)
	}
	return r.Mod(f.mod)
}

// longInput: a linear combination of many integers that are inputs.
func (c *Ctx) longInput(V *Poly) bool {
	if len(V.terms) < 12 || !V.linear() {
		return false
	}
	for s := range V.Syms() {
		if k := c.syms[s].kind; k == kFV || k == kW || k == kRho {
			return false
		}
	}
	return true
}

func (c *Ctx) nameOf(f *Field, V *Poly) Sym {
	s := c.keyed("named:"+f.name+":"+V.Key(), func() *symInfo {
		return &symInfo{kind: kFV, name: fmt.Sprintf("N%d", len(c.defs)), fld: f}
	})
	if c.defs == nil {
		c.defs = map[Sym]*Poly{}
	}
	c.defs[s] = V
	return s
}

// usesRand: the function refers to a random source, directly or through calls.
func (p *Program) usesRand(fn *ssa.Function) bool {
	if v, ok := p.rnd[fn]; ok {
		return v
	}
	if p.rnd == nil {
		p.rnd = map[*ssa.Function]bool{}
	}
	p.rnd[fn] = false
	r := false
	isRand := func(pk *ssa.Package) bool {
		return pk != nil && (pk.Pkg.Path() == "crypto/rand" || pk.Pkg.Path() == "math/rand" || pk.Pkg.Path() == "math/rand/v2")
	}
	for _, bl := range fn.Blocks {
		for _, in := range bl.Instrs {
			for _, op := range in.Operands(nil) {
				switch v := (*op).(type) {
				case *ssa.Function:
					if isRand(v.Pkg) || v.Blocks != nil && p.usesRand(v) {
						r = true
					}
				case *ssa.Global:
					if isRand(v.Pkg) {
						r = true
					}
				}
			}
		}
	}
	p.rnd[fn] = r
	return r
}
