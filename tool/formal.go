package main

// Formal inputs.

import (
	"go/types"
	"math/big"
)

// feInfo describes the representation of field elements in a configuration.
type feInfo struct {
	t    types.Type
	n    int
	w    []uint
	lim  []Interval // the limb invariant
	elem types.Type
}

func (p *Program) fe() *feInfo {
	if p.feI != nil {
		return p.feI
	}
	t := p.ed.Type("FieldElement").Type()
	arr, ok := t.Underlying().(*types.Array)
	if !ok {
		panic(undecided("FieldElement is not an array"))
	}
	f := &feInfo{t: t, n: int(arr.Len()), elem: arr.Elem()}
	w, signed, _ := intType(arr.Elem())
	switch {
	case f.n == 5 && w == 64 && !signed:
		for i := 0; i < 5; i++ {
			f.w = append(f.w, uint(51*i))
			f.lim = append(f.lim, iv(bigZero, new(big.Int).Sub(pow2(53), bigOne)))
		}
	case f.n == 10 && w == 32 && signed:
		acc := uint(0)
		for i := 0; i < 10; i++ {
			f.w = append(f.w, acc)
			b := new(big.Int)
			if i%2 == 0 {
				acc += 26
				b = pow2(26)
			} else {
				acc += 25
				b = new(big.Int).Add(pow2(25), pow2(18))
			}
			f.lim = append(f.lim, iv(new(big.Int).Neg(b), b))
		}
	default:
		panic(undecided("unknown representation of field elements: %s", arr))
	}
	p.feI = f
	return f
}

// formalFE allocates a field element with value V and limbs within lim.
func (it *Interp) formalFE(st *State, name string, V *Poly) *Object {
	f := it.p.fe()
	o := it.newObj(st, name, f.t, f.n)
	it.putFE(st, o, 0, name, V, f.lim)
	return o
}

func (it *Interp) putFE(st *State, o *Object, off int, name string, V *Poly, lim []Interval) {
	f := it.p.fe()
	g := it.c.newGroup(name, Fp, f.w, V, lim, nil)
	for i, s := range g.limbs {
		it.store1(st, o, off+i, IntV{symPoly(s), lim[i]})
	}
}

// weighted sums the cells at o+off.
func (it *Interp) weighted(st *State, o *Object, off int, w []uint) (*Poly, Interval) {
	s := newPoly()
	I := iv64(0, 0)
	for i := range w {
		x := it.asInt(it.load1(st, o, off+i))
		s = s.Add(x.P.Scale(pow2(w[i])))
		I = ivAdd(I, ivScale(x.I, pow2(w[i])))
	}
	return s, I
}

// feValue is the value modulo p of the field element at o+off.
func (it *Interp) feValue(st *State, o *Object, off int) (*Poly, bool) {
	s, _ := it.weighted(st, o, off, it.p.fe().w)
	return it.c.closeSum(Fp, it.under(st.facts, s))
}
