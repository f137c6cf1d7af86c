package main

// Bounds-only mode: the values of field elements are forgotten at every call of
// a function with a closed result; limb bounds, flags and control stay.

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func (it *Interp) freshFE() *Poly {
	it.npts++
	return symPoly(it.c.fvar(Fp, fmt.Sprintf("h%d", it.npts), false))
}

func (it *Interp) freshInt(I Interval) IntV {
	it.npts++
	nm := fmt.Sprintf("hi%d", it.npts)
	if I.within(iv64(0, 1)) {
		return IntV{symPoly(it.c.boolInput(nm)), iv64(0, 1)}
	}
	return IntV{symPoly(it.c.input(nm, I)), I}
}

// smallDigits: some limb does not reach the end of the range of its digit.
func (it *Interp) smallDigits(vs []IntV, w []uint) bool {
	for i, v := range vs {
		if i+1 == len(w) {
			break
		}
		I := v.I
		if J, ok := it.c.tryBound(v.P); ok {
			I = ivMeet(I, J)
		}
		if I.hi.Cmp(new(big.Int).Sub(pow2(w[i+1]-w[i]), bigOne)) < 0 {
			return true
		}
	}
	return false
}

// feOnly: a function on field elements, byte strings and integers.
func (it *Interp) feOnly(fn *ssa.Function) bool {
	for _, p := range fn.Params {
		t := p.Type()
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			t = pt.Elem()
		}
		if sameType(t, it.p.fe().t) {
			continue
		}
		if a, ok := t.Underlying().(*types.Array); ok {
			if w, s, ok := intType(a.Elem()); ok && w == 8 && !s {
				continue
			}
		}
		if _, _, ok := intType(t); !ok {
			return false
		}
	}
	return len(fn.Params) > 0
}

// insideFE: the caller works on field elements only, so values are kept.
func (it *Interp) insideFE() bool {
	return len(it.stack) > 0 && it.feOnly(it.stack[len(it.stack)-1])
}

// joinHavoc replaces differing field elements by arbitrary ones within the hull of the bounds,
// and other integers without a common description by arbitrary ones in the hull.
func (it *Interp) joinHavoc(o *Object, ba, bb, nb *cellBlock) {
	n := it.p.fe().n
	done := map[int]bool{}
	for _, off := range it.feOffsets(o.typ) {
		if off+n > len(ba.cells) {
			continue
		}
		same, ok := true, true
		var lim []Interval
		for i := off; i < off+n; i++ {
			x, ok1 := ba.cells[i].(IntV)
			y, ok2 := bb.cells[i].(IntV)
			if !ok1 || !ok2 {
				ok = false
				break
			}
			if !x.P.Equal(y.P) {
				same = false
			}
			lim = append(lim, ivHull(x.I, y.I))
		}
		if !ok || same {
			continue
		}
		g := it.c.newGroup("hj", Fp, it.p.fe().w, it.freshFE(), lim, nil)
		for i, s := range g.limbs {
			nb.cells[off+i] = IntV{symPoly(s), lim[i]}
			done[off+i] = true
		}
	}
	for i := range ba.cells {
		if done[i] {
			continue
		}
		if _, bot := nb.cells[i].(BotV); !bot {
			continue
		}
		x, ok1 := ba.cells[i].(IntV)
		y, ok2 := bb.cells[i].(IntV)
		if !ok1 || !ok2 {
			continue
		}
		it.npts++
		I := ivHull(x.I, y.I)
		nb.cells[i] = IntV{symPoly(it.c.input(fmt.Sprintf("hj%d", it.npts), I)), I}
	}
}

// feOffsets lists the field elements inside a type.
func (it *Interp) feOffsets(t types.Type) []int {
	if r, ok := it.feOff[t]; ok {
		return r
	}
	var out []int
	fe := it.p.fe().t
	var rec func(t types.Type, off int)
	rec = func(t types.Type, off int) {
		if sameType(t, fe) {
			out = append(out, off)
			return
		}
		switch u := t.Underlying().(type) {
		case *types.Array:
			if _, basic := u.Elem().Underlying().(*types.Basic); basic {
				return
			}
			n := flatSize(u.Elem())
			for i := int64(0); i < u.Len(); i++ {
				rec(u.Elem(), off+int(i)*n)
			}
		case *types.Struct:
			if isBigInt(t) {
				return
			}
			for i := 0; i < u.NumFields(); i++ {
				rec(u.Field(i).Type(), off+fieldOff(u, i))
			}
		}
	}
	rec(t, 0)
	it.feOff[t] = out
	return out
}

// ---- limb invariants of the point structures ------------------------------------------

// shape bounds every limb of a structure of field elements.
type shape [][]Interval

func (s shape) within(t shape) bool {
	for i := range s {
		for j := range s[i] {
			if !s[i][j].within(t[i][j]) {
				return false
			}
		}
	}
	return true
}

func (s shape) hull(t shape) shape {
	var r shape
	for i := range s {
		var l []Interval
		for j := range s[i] {
			l = append(l, ivHull(s[i][j], t[i][j]))
		}
		r = append(r, l)
	}
	return r
}

// near: the hull with t is wider than s or t by at most a quarter.
func (s shape) near(t shape) bool {
	h := s.hull(t)
	ok := func(x shape) bool {
		for i := range x {
			for j := range x[i] {
				w := new(big.Int).Mul(x[i][j].width(), big.NewInt(5))
				if new(big.Int).Mul(h[i][j].width(), big.NewInt(4)).Cmp(w) > 0 {
					return false
				}
			}
		}
		return true
	}
	return ok(s) || ok(t)
}

// limbInv gives, per structure of field elements, the shapes that the exported
// operations of edwards25519 establish and preserve: every structure they leave
// has one of the shapes.
type limbInv map[string][]shape

const maxShapes = 6

// simple rounds bounds outwards: symmetric or starting at zero.
func (s shape) simple() shape {
	var r shape
	for _, l := range s {
		var o []Interval
		for _, I := range l {
			I = roundOut(I)
			if I.lo.Sign() < 0 {
				m := new(big.Int).Neg(I.lo)
				if I.hi.Cmp(m) > 0 {
					m = I.hi
				}
				I = iv(new(big.Int).Neg(m), m)
			}
			o = append(o, I)
		}
		r = append(r, o)
	}
	return r
}

func (inv limbInv) add(name string, s shape) bool {
	s = s.simple()
	for _, t := range inv[name] {
		if s.within(t) {
			return false
		}
	}
	var keep []shape
	for _, t := range inv[name] {
		switch {
		case t.within(s):
		case s.near(t):
			s = s.hull(t)
		default:
			keep = append(keep, t)
		}
	}
	keep = append(keep, s)
	if len(keep) > maxShapes {
		h := keep[0]
		for _, t := range keep[1:] {
			h = h.hull(t)
		}
		keep = []shape{h}
	}
	inv[name] = keep
	return true
}

// whole is the hull of all shapes.
func (inv limbInv) whole(name string) shape {
	var h shape
	for _, t := range inv[name] {
		if h == nil {
			h = t
		} else {
			h = h.hull(t)
		}
	}
	return h
}

func structName(p *Program, t types.Type) string {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return ""
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return ""
	}
	if m := p.rist.Type("Point"); m != nil && n.Obj() == m.Object() {
		return "ExtendedPoint"
	}
	if n.Obj().Pkg() != p.ed.Pkg {
		return ""
	}
	return n.Obj().Name()
}

type structAt struct {
	name string
	off  int
}

// structOffsets lists the structures of field elements inside a type.
func (it *Interp) structOffsets(t types.Type) []structAt {
	var out []structAt
	var rec func(t types.Type, off int)
	rec = func(t types.Type, off int) {
		if n := structName(it.p, t); n != "" {
			out = append(out, structAt{n, off})
			return
		}
		if sameType(t, it.p.fe().t) {
			out = append(out, structAt{"FieldElement", off})
			return
		}
		if u, ok := t.Underlying().(*types.Array); ok {
			if _, basic := u.Elem().Underlying().(*types.Basic); basic {
				return
			}
			n := flatSize(u.Elem())
			for i := int64(0); i < u.Len(); i++ {
				rec(u.Elem(), off+int(i)*n)
			}
		}
	}
	rec(t, 0)
	return out
}

// choices is the number of alternatives to try for a parameter type.
func (b *bench) choices(t types.Type, inv limbInv) int {
	if bt, ok := t.Underlying().(*types.Basic); ok && bt.Kind() == types.Int32 {
		return 2
	}
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		if n := structName(b.p, pt.Elem()); n != "" {
			return len(inv[n])
		}
	}
	if n := structName(b.p, t); n != "" {
		return len(inv[n])
	}
	return 1
}

// arbitrary allocates an arbitrary value of a parameter type within alternative alt of the invariants.
func (b *bench) arbitrary(st *State, name string, t types.Type, inv limbInv, alt int) Val {
	it, c := b.it, b.c
	if _, _, ok := intType(t); ok {
		if bt, isB := t.Underlying().(*types.Basic); isB && bt.Kind() == types.Int32 {
			return constInt(int64(alt)) // conditions
		}
		I := typeRange(t)
		return IntV{symPoly(c.input(name, I)), I}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		el := u.Elem()
		if isBigInt(el) {
			X := symPoly(c.keyed("big"+name, func() *symInfo { return &symInfo{kind: kIn, name: name} }))
			o := it.newObj(st, name, el, flatSize(el))
			it.store1(st, o, 0, BigV{X})
			return PtrV{o, 0}
		}
		if sameType(el, b.p.scalarType()) {
			p, _ := b.newScalar(st, name)
			return p
		}
		if a, ok := el.Underlying().(*types.Array); ok {
			if w, s, isI := intType(a.Elem()); isI && w == 8 && !s {
				p, _ := b.newBytes(st, name, int(a.Len()))
				return p
			}
		}
		n := flatSize(el)
		o := it.newObj(st, name, el, n)
		k := 0
		for _, at := range it.structOffsets(el) {
			var ls shape
			switch {
			case at.name == "FieldElement":
				ls = shape{b.p.fe().lim}
			case structName(b.p, el) != "":
				ls = inv[at.name][alt]
			default:
				ls = inv.whole(at.name)
			}
			if ls == nil { // nothing makes one yet
				m := flatSize(b.p.ed.Type(at.name).Type())
				for i := 0; i < m; i++ {
					it.store1(st, o, at.off+i, BotV{"uninitialised"})
				}
				k += m / b.p.fe().n
			}
			for i, lim := range ls {
				it.putFE(st, o, at.off+i*b.p.fe().n, fmt.Sprintf("%s.%d", name, k), symPoly(c.fvar(Fp, fmt.Sprintf("%s.%d", name, k), false)), lim)
				k++
			}
		}
		if k*b.p.fe().n != n {
			panic(undecided("parameter of type %s", t))
		}
		return PtrV{o, 0}
	case *types.Slice:
		if w, s, isI := intType(u.Elem()); isI && w == 8 && !s {
			sl, _ := b.unknownSlice(st, name)
			return sl
		}
	case *types.Array, *types.Struct:
		return b.arbitrary(st, name, types.NewPointer(t), inv, alt)
	}
	panic(undecided("parameter of type %s", t))
}

// exported lists the exported methods of the exported types of a package, and its exported functions.
func exported(p *Program, pk *ssa.Package) []*ssa.Function {
	var r []*ssa.Function
	var names []string
	for n := range pk.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		switch m := pk.Members[n].(type) {
		case *ssa.Function:
			if m.Object() != nil && m.Object().Exported() && m.Blocks != nil {
				r = append(r, m)
			}
		case *ssa.Type:
			if !m.Object().Exported() {
				continue
			}
			ms := types.NewMethodSet(types.NewPointer(m.Type()))
			for i := 0; i < ms.Len(); i++ {
				o := ms.At(i).Obj().(*types.Func)
				if !o.Exported() || o.Pkg() != pk.Pkg {
					continue
				}
				fn := pk.Prog.FuncValue(o)
				if fn != nil && fn.Blocks != nil {
					r = append(r, fn)
				}
			}
		}
	}
	return r
}

// producers are the exported methods of edwards25519 whose receiver is a structure of field
// elements and which return it or nothing, except scalar multiplications.
func producers(p *Program) []*ssa.Function {
	var r []*ssa.Function
	for _, fn := range exported(p, p.ed) {
		if len(fn.Params) == 0 || fn.Signature.Recv() == nil || fn.Name() == "ScalarMult" || fn.Name() == "VarTimeScalarMult" {
			continue
		}
		pt, ok := fn.Params[0].Type().Underlying().(*types.Pointer)
		if !ok || structName(p, pt.Elem()) == "" {
			continue
		}
		if res := fn.Signature.Results(); res.Len() == 1 && !types.Identical(res.At(0).Type(), fn.Params[0].Type()) {
			if bt, ok := res.At(0).Type().Underlying().(*types.Basic); !ok || bt.Kind() != types.Bool {
				continue
			}
		}
		r = append(r, fn)
	}
	return r
}

// product calls f for every combination of alternatives.
func product(n []int, f func(alt []int)) {
	alt := make([]int, len(n))
	for _, k := range n {
		if k == 0 {
			return
		}
	}
	for {
		f(alt)
		i := 0
		for ; i < len(n); i++ {
			alt[i]++
			if alt[i] < n[i] {
				break
			}
			alt[i] = 0
		}
		if i == len(n) {
			return
		}
	}
}

// shapesAt reads the bounds of the structures of field elements in an object.
func (b *bench) shapesAt(st *State, o *Object, t types.Type, f func(name string, s shape)) {
	n := b.p.fe().n
	for _, at := range b.it.structOffsets(t) {
		sz := n
		if at.name != "FieldElement" {
			sz = flatSize(b.p.ed.Type(at.name).Type())
		}
		var s shape
		for l := 0; l*n < sz; l++ {
			var lim []Interval
			for j := 0; j < n; j++ {
				v, ok := b.it.load1(st, o, at.off+l*n+j).(IntV)
				if !ok {
					panic(undecided("a limb of the result has no known value"))
				}
				I := b.it.bnd(st, v)
				if I.isPoint() {
					I = roundOut(I)
				}
				lim = append(lim, I)
			}
			s = append(s, lim)
		}
		f(at.name, s)
	}
}

// invariants infers the limb invariants as a fixpoint over the producers.
func (p *Program) invariants() limbInv {
	if p.inv != nil {
		return p.inv
	}
	inv := limbInv{}
	rep := &Report{Counts: map[string]int{}}
	b := newBench(p, rep, "")
	b.it.havoc = true
	ed := p.ed
	// the multiplication tables
	for g, o := range b.it.gobj {
		if g.Pkg != ed {
			continue
		}
		if a, ok := o.typ.Underlying().(*types.Array); !ok || sameType(o.typ, p.fe().t) || a.Len() < 8 {
			continue
		}
		var h shape
		b.guard(g.Name(), func() {
			b.shapesAt(b.it.global, o, o.typ, func(name string, s shape) {
				if name != "NielsPoint" {
					return
				}
				if h == nil {
					h = s
				} else {
					h = h.hull(s)
				}
			})
		})
		if h != nil {
			inv.add("NielsPoint", h)
		}
	}
	fns := producers(p)
	done, readsRecv, bad := map[string]bool{}, map[*ssa.Function]bool{}, map[string]string{}
	for round := 0; ; round++ {
		if round > 12 {
			panic(undecided("the limb bounds of the point structures do not stabilise"))
		}
		ch := false
		for _, fn := range fns {
			var shapes []shape
			var names []string
			try := func(fresh bool) (ok bool) {
				shapes, names = nil, nil
				depth := len(b.it.stack)
				defer func() {
					b.it.stack = b.it.stack[:depth]
					if x := recover(); x != nil {
						u, isU := x.(undecidedErr)
						if !isU {
							panic(x)
						}
						bad[fn.String()] = u.msg
					}
				}()
				alts := make([]int, len(fn.Params))
				for i, q := range fn.Params {
					alts[i] = b.choices(q.Type(), inv)
				}
				if fresh {
					alts[0] = 1
				}
				product(alts, func(alt []int) {
					st := newState()
					var args []Val
					key := fn.String()
					for i, q := range fn.Params {
						t := q.Type()
						if pt, ok := t.Underlying().(*types.Pointer); ok {
							if i == 0 && fresh {
								o := b.it.newObj(st, "r", pt.Elem(), flatSize(pt.Elem()))
								for j := 0; j < o.n; j++ {
									b.it.store1(st, o, j, BotV{"uninitialised"})
								}
								args = append(args, PtrV{o, 0})
								continue
							}
							if sn := structName(p, pt.Elem()); sn != "" {
								key += fmt.Sprint(inv[sn][alt[i]])
							}
						} else {
							key += fmt.Sprint(alt[i])
						}
						args = append(args, b.arbitrary(st, fmt.Sprintf("%s.%d", fn.Name(), i), t, inv, alt[i]))
					}
					if done[key] {
						return
					}
					for _, o := range b.it.callFn(fn, args, nil, st, nil) {
						for i, q := range fn.Params {
							pt, ok := q.Type().Underlying().(*types.Pointer)
							if !ok || isBigInt(pt.Elem()) {
								continue
							}
							b.shapesAt(o.st, args[i].(PtrV).obj, pt.Elem(), func(name string, s shape) {
								if name != "FieldElement" {
									shapes = append(shapes, s)
									names = append(names, name)
								}
							})
						}
					}
					done[key] = true
				})
				delete(bad, fn.String())
				return true
			}
			if readsRecv[fn] || !try(true) {
				readsRecv[fn] = true
				try(false)
			}
			for i, s := range shapes {
				if inv.add(names[i], s) {
					ch = true
					dbg("%d %s: %s %v", round, fn, names[i], s)
				}
			}
		}
		if !ch {
			break
		}
	}
	p.invBad = bad
	p.inv = inv
	return inv
}
