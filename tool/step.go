package main

// Transfer functions of single instructions.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func isAgg(t types.Type) bool {
	if isBigInt(t) {
		return true
	}
	switch t.Underlying().(type) {
	case *types.Array, *types.Struct:
		return true
	}
	return false
}

func (it *Interp) loadT(st *State, o *Object, off int, t types.Type) Val {
	n := flatSize(t)
	if !isAgg(t) {
		return it.load1(st, o, off)
	}
	r := AggV{t: t, cells: make([]Val, n)}
	for i := 0; i < n; i++ {
		r.cells[i] = it.load1(st, o, off+i)
	}
	return r
}

func (it *Interp) storeT(st *State, o *Object, off int, v Val, t types.Type) {
	if a, ok := v.(AggV); ok && isAgg(t) {
		for i, x := range a.cells {
			it.store1(st, o, off+i, x)
		}
		return
	}
	if isAgg(t) {
		panic(undecided("store of %T as %s", v, t))
	}
	it.store1(st, o, off, v)
}

// fit wraps an exact result into the type of the instruction.
func (it *Interp) fit(P *Poly, I Interval, t types.Type) IntV {
	if J, ok := it.c.tryBound(P); ok {
		I = ivMeet(I, J)
	}
	w, s, ok := intType(t)
	if !ok {
		panic(undecided("arithmetic on %s", t))
	}
	Q, J := it.c.wrap(P, I, w, s)
	return IntV{Q, J}
}

// fitK is fit for a result whose interval holds whatever path is taken; the
// interval is kept with the polynomial, which may simplify later.
func (it *Interp) fitK(st *State, P *Poly, I Interval, t types.Type) IntV {
	it.keep(st, P, I)
	return it.fit(P, I, t)
}

// keep records an interval with a polynomial unless it depends on the path.
func (it *Interp) keep(st *State, P *Poly, I Interval) {
	f := st.facts
	if len(f.atoms) == 0 && len(f.sub) == 0 && len(f.roots) == 0 && len(f.lim) == 0 && len(P.terms) > 1 {
		k0 := P.Const()
		it.c.setBound(P.Sub(constPoly(k0)), ivSub(I, ivPoint(k0)))
	}
}

// step executes one instruction; false ends the path.
func (fr *iframe) step(x *item, in ssa.Instruction) bool {
	it := fr.it
	st := x.st
	set := func(v ssa.Value, r Val) { x.env[v] = r }
	switch in := in.(type) {
	case *ssa.Alloc:
		t := in.Type().(*types.Pointer).Elem()
		// the paths of one activation that reach this allocation share its object
		key := fmt.Sprintf("%p", in)
		for _, h := range fr.fi.nest[x.b] {
			key += ";" + x.lkey[h]
		}
		o := fr.allocs[key]
		if _, used := st.mem[o]; o == nil || used {
			o = it.newObj(st, fmt.Sprintf("%s.%s", fname(fr.fn), in.Comment), t, flatSize(t))
			if fr.allocs == nil {
				fr.allocs = map[string]*Object{}
			}
			fr.allocs[key] = o
		} else {
			st.mem[o] = &cellBlock{cells: zeroCells(t, o.n)}
			st.own[o] = true
		}
		set(in, PtrV{o, 0})
	case *ssa.Store:
		p, ok := fr.pointer(x, in.Addr, in)
		if !ok {
			return false
		}
		it.storeT(st, p.obj, p.off, fr.get(x, in.Val), in.Val.Type())
	case *ssa.UnOp:
		return fr.unop(x, in)
	case *ssa.BinOp:
		return fr.binop(x, in)
	case *ssa.FieldAddr:
		p, ok := fr.pointer(x, in.X, in)
		if !ok {
			return false
		}
		s := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		set(in, PtrV{p.obj, p.off + fieldOff(s, in.Field)})
	case *ssa.Field:
		a, ok := fr.get(x, in.X).(AggV)
		if !ok {
			panic(undecided("field of %T", fr.get(x, in.X)))
		}
		s := in.X.Type().Underlying().(*types.Struct)
		set(in, subAgg(a, fieldOff(s, in.Field), s.Field(in.Field).Type()))
	case *ssa.IndexAddr:
		return fr.indexAddr(x, in)
	case *ssa.Index:
		a, ok := fr.get(x, in.X).(AggV)
		if !ok {
			panic(undecided("index of %T", fr.get(x, in.X)))
		}
		arr := in.X.Type().Underlying().(*types.Array)
		o := it.newObj(st, "value", arr, 0)
		st.mem[o].cells = a.cells
		o.n = len(a.cells)
		p, ok := fr.element(x, in, o, 0, constInt(arr.Len()), arr.Elem(), fr.get(x, in.Index))
		if !ok {
			return false
		}
		set(in, it.loadT(st, p.obj, p.off, arr.Elem()))
	case *ssa.Slice:
		return fr.slice(x, in)
	case *ssa.Convert:
		set(in, fr.convert(x, fr.get(x, in.X), in.X.Type(), in.Type(), in))
	case *ssa.ChangeType:
		v := fr.get(x, in.X)
		if a, ok := v.(AggV); ok {
			v = AggV{in.Type(), a.cells}
		}
		set(in, v)
	case *ssa.ChangeInterface:
		set(in, fr.get(x, in.X))
	case *ssa.MakeInterface:
		set(in, IfaceV{nilP: intPoly(0), tag: in.X.Type().String(), dyn: fr.get(x, in.X)})
	case *ssa.MakeClosure:
		f := FnV{fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			f.free = append(f.free, fr.get(x, b))
		}
		set(in, f)
	case *ssa.MakeSlice:
		n := it.norm(st, it.asInt(fr.get(x, in.Len)))
		cp := it.norm(st, it.asInt(fr.get(x, in.Cap)))
		el := in.Type().Underlying().(*types.Slice).Elem()
		I := it.bnd(st, n)
		it.oblige("make length", in, I.lo.Sign() >= 0, "length may be negative")
		k, ok := n.konst()
		if !ok || !k.IsInt64() || k.Int64() > 1<<16 {
			o := it.newObj(st, fmt.Sprintf("%s.make", fname(fr.fn)), el, 0)
			o.sym = true
			o.lenP = n.P
			o.zero = true
			st.mem[o].cells = nil
			set(in, SliceV{o, 0, n, cp, el})
			break
		}
		o := it.newObj(st, fmt.Sprintf("%s.make", fname(fr.fn)), el, int(k.Int64())*flatSize(el))
		set(in, SliceV{o, 0, n, n, el})
	case *ssa.SliceToArrayPointer:
		s, ok := fr.get(x, in.X).(SliceV)
		if !ok {
			panic(undecided("slice conversion of %T", fr.get(x, in.X)))
		}
		arr := in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		n := it.norm(st, s.n)
		good := it.bnd(st, n).lo.Cmp(big.NewInt(arr.Len())) >= 0
		it.oblige("slice to array conversion", in, good, fmt.Sprintf("length %s may be below %d", it.c.str(n.P), arr.Len()))
		if !good {
			return false
		}
		set(in, PtrV{s.obj, s.off})
	case *ssa.Extract:
		t, ok := fr.get(x, in.Tuple).(TupV)
		if !ok {
			panic(undecided("tuple expected"))
		}
		set(in, t[in.Index])
	case *ssa.TypeAssert:
		panic(undecided("type assertion in %s", fname(fr.fn)))
	case *ssa.Defer, *ssa.RunDefers, *ssa.Go, *ssa.Send, *ssa.Select, *ssa.MapUpdate, *ssa.MakeMap, *ssa.MakeChan, *ssa.Lookup, *ssa.Range, *ssa.Next:
		if l, ok := in.(*ssa.Lookup); ok {
			if s, ok := fr.get(x, l.X).(StrV); ok && s.known {
				i := it.norm(st, it.asInt(fr.get(x, l.Index)))
				if k, ok := i.konst(); ok && k.IsInt64() && k.Int64() >= 0 && int(k.Int64()) < len(s.s) {
					set(l, constInt(int64(s.s[k.Int64()])))
					break
				}
			}
		}
		if _, ok := in.(*ssa.RunDefers); ok {
			break
		}
		panic(undecided("instruction %T in %s", in, fname(fr.fn)))
	default:
		panic(undecided("instruction %T in %s", in, fname(fr.fn)))
	}
	return true
}

func subAgg(a AggV, off int, t types.Type) Val {
	if !isAgg(t) {
		return a.cells[off]
	}
	return AggV{t, a.cells[off : off+flatSize(t)]}
}

// pointer evaluates an address operand.
func (fr *iframe) pointer(x *item, v ssa.Value, in ssa.Instruction) (PtrV, bool) {
	switch p := fr.get(x, v).(type) {
	case PtrV:
		fr.it.oblige("pointer", in, p.obj != nil, "nil dereference")
		return p, p.obj != nil
	case PtrJoin:
		g := fr.it.norm(x.st, IntV{p.gate, iv64(0, 1)})
		if k, ok := g.konst(); ok {
			if k.Sign() != 0 {
				return p.a, p.a.obj != nil
			}
			return p.b, p.b.obj != nil
		}
		panic(undecided("dereference of one of two pointers in %s", fname(fr.fn)))
	case OpqV:
		panic(undecided("dereference of %s", p.tag))
	case BotV:
		panic(undecided("dereference of a pointer joined paths disagree on (%s)", p.why))
	}
	panic(undecided("pointer expected in %s, have %T", fname(fr.fn), fr.get(x, v)))
}

func (fr *iframe) unop(x *item, in *ssa.UnOp) bool {
	it := fr.it
	switch in.Op {
	case token.MUL:
		if g, ok := in.X.(*ssa.Global); ok && it.gobj[g] == nil {
			x.env[in] = OpqV{"value of " + g.String()}
			return true
		}
		p, ok := fr.pointer(x, in.X, in)
		if !ok {
			return false
		}
		x.env[in] = it.loadT(x.st, p.obj, p.off, in.Type())
	case token.SUB:
		v := it.asInt(fr.get(x, in.X))
		x.env[in] = it.fit(v.P.Neg(), ivNeg(it.bnd(x.st, v)), in.Type())
	case token.XOR:
		v := it.asInt(fr.get(x, in.X))
		w, s, _ := intType(in.Type())
		if s {
			x.env[in] = it.fit(v.P.Neg().AddInt(-1), ivAdd(ivNeg(it.bnd(x.st, v)), iv64(-1, -1)), in.Type())
		} else {
			m := new(big.Int).Sub(pow2(w), bigOne)
			x.env[in] = it.fit(constPoly(m).Sub(v.P), ivSub(ivPoint(m), it.bnd(x.st, v)), in.Type())
		}
	case token.NOT:
		v := it.asInt(fr.get(x, in.X))
		x.env[in] = IntV{intPoly(1).Sub(v.P), iv64(0, 1)}
	default:
		panic(undecided("unary %s", in.Op))
	}
	return true
}

func (it *Interp) mkBool(P *Poly) IntV { return IntV{P, iv64(0, 1)} }

// lessZero returns [d < 0].
func (it *Interp) lessZero(st *State, d IntV) IntV {
	d = it.norm(st, d)
	I := it.bnd(st, d)
	if I.hi.Sign() < 0 {
		return constInt(1)
	}
	if I.lo.Sign() >= 0 {
		return constInt(0)
	}
	J, ok := it.c.tryBound(d.P)
	if !ok {
		J = d.I
	}
	k := uint(J.lo.BitLen())
	if b := uint(J.hi.BitLen()); b > k {
		k = b
	}
	if new(big.Int).Neg(pow2(k)).Cmp(J.lo) > 0 {
		k++
	}
	r := iv64(-1, 0)
	P := it.c.floorPoly(d.P, k, &r).Neg()
	if _, isC := P.IsConst(); !isC {
		if it.c.cmps == nil {
			it.c.cmps = map[string]*Poly{}
		}
		it.c.cmps[P.Key()] = d.P
		it.c.digit(d.P)
	}
	return it.mkBool(P)
}

func (fr *iframe) binop(x *item, in *ssa.BinOp) bool {
	it := fr.it
	st := x.st
	c := it.c
	a, b := fr.get(x, in.X), fr.get(x, in.Y)
	set := func(v Val) { x.env[in] = v }
	switch in.Op {
	case token.EQL, token.NEQ:
		P := it.equal(st, a, b, in.X.Type())
		if va, ok := a.(IntV); ok {
			if vb, ok := b.(IntV); ok {
				d := va.P.Sub(vb.P)
				if _, isC := P.IsConst(); !isC && d.linear() {
					if c.eqs == nil {
						c.eqs = map[string]*Poly{}
					}
					c.eqs[P.Key()] = d
				}
			}
		}
		if in.Op == token.NEQ {
			P = intPoly(1).Sub(P)
		}
		set(it.mkBool(P))
		return true
	}
	if s1, ok := a.(StrV); ok {
		s2, ok2 := b.(StrV)
		if ok2 && in.Op == token.ADD {
			if s1.known && s2.known {
				set(StrV{known: true, s: s1.s + s2.s})
			} else {
				set(StrV{tag: "concat"})
			}
			return true
		}
		panic(undecided("string operation %s", in.Op))
	}
	va, vb := it.asInt(a), it.asInt(b)
	switch in.Op {
	case token.SHR, token.AND, token.XOR, token.OR, token.AND_NOT, token.QUO, token.REM:
		c.digit(va.P)
	}
	switch in.Op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		d := IntV{va.P.Sub(vb.P), ivSub(it.bnd(st, va), it.bnd(st, vb))}
		e := IntV{d.P.Neg(), ivNeg(d.I)}
		switch in.Op {
		case token.LSS:
			set(it.lessZero(st, d))
		case token.GTR:
			set(it.lessZero(st, e))
		case token.GEQ:
			set(it.mkBool(intPoly(1).Sub(it.lessZero(st, d).P)))
		case token.LEQ:
			set(it.mkBool(intPoly(1).Sub(it.lessZero(st, e).P)))
		}
		return true
	}
	w, signed, ok := intType(in.Type())
	if !ok {
		panic(undecided("operation %s on %s", in.Op, in.Type()))
	}
	Ia, Ib := it.bnd(st, va), it.bnd(st, vb)
	switch in.Op {
	case token.ADD:
		set(it.fitK(st, va.P.Add(vb.P), ivAdd(Ia, Ib), in.Type()))
	case token.SUB:
		set(it.fitK(st, va.P.Sub(vb.P), ivSub(Ia, Ib), in.Type()))
	case token.MUL:
		set(it.fit(c.Mul(va.P, vb.P), ivMul(Ia, Ib), in.Type()))
	case token.AND:
		set(it.fit(c.andPoly(va.P, vb.P, Ia, Ib, w, signed), typeRange(in.Type()), in.Type()))
	case token.AND_NOT:
		P := va.P.Sub(c.andPoly(va.P, vb.P, Ia, Ib, w, signed))
		set(it.fit(P, typeRange(in.Type()), in.Type()))
	case token.OR:
		it.keep(st, va.P, Ia)
		it.keep(st, vb.P, Ib)
		P := c.orPoly(va.P, vb.P, w, signed)
		R := typeRange(in.Type())
		if P.Equal(va.P.Add(vb.P)) {
			R = ivMeet(R, ivAdd(Ia, Ib))
		}
		set(it.fitK(st, P, R, in.Type()))
	case token.XOR:
		set(it.fit(c.xorPoly(va.P, vb.P, w), typeRange(in.Type()), in.Type()))
	case token.SHL, token.SHR:
		n := it.norm(st, vb)
		_, nSigned, _ := intType(in.Y.Type())
		if nSigned {
			it.oblige("shift count", in, it.bnd(st, n).lo.Sign() >= 0, "negative shift count")
		}
		k, isC := n.konst()
		if !isC {
			if v, ok := it.shiftTable(st, va, n, in.Op, in.Type()); ok {
				set(v)
				return true
			}
			panic(undecided("shift by a variable count in %s (%s)", fname(fr.fn), it.p.pos(in.Pos())))
		}
		if k.Sign() < 0 {
			return false
		}
		s := uint(200)
		if k.IsInt64() && k.Int64() < 200 {
			s = uint(k.Int64())
		}
		if in.Op == token.SHL {
			if s >= w {
				set(constInt(0))
				return true
			}
			set(it.fit(va.P.Scale(pow2(s)), ivScale(Ia, pow2(s)), in.Type()))
		} else {
			r := ivShr(Ia, s)
			set(IntV{c.floorPoly(va.P, s, &r), r})
		}
	case token.QUO, token.REM:
		n := it.norm(st, vb)
		J := it.bnd(st, n)
		nz := !J.contains(bigZero)
		it.oblige("division", in, nz, "divisor may be zero")
		k, isC := n.konst()
		if !isC || !nz {
			panic(undecided("division by a variable in %s", fname(fr.fn)))
		}
		va = it.norm(st, va)
		Ia = it.bnd(st, va)
		var q *Poly
		if vc, ok := va.konst(); ok {
			q = constPoly(new(big.Int).Quo(vc, k))
		} else if k.Sign() > 0 && new(big.Int).And(k, new(big.Int).Sub(k, bigOne)).Sign() == 0 && Ia.lo.Sign() >= 0 {
			sh := uint(k.BitLen() - 1)
			r := ivShr(Ia, sh)
			q = c.floorPoly(va.P, sh, &r)
		} else if t, ok := it.funcOfSmall(st, va, func(v *big.Int) *big.Int { return new(big.Int).Quo(v, k) }); ok {
			q = t
		} else {
			q = c.opSym("div"+k.String(), []*Poly{va.P}, ivMeet(iv(new(big.Int).Quo(Ia.lo, k), new(big.Int).Quo(Ia.hi, k)), iv(new(big.Int).Quo(Ia.lo, k), new(big.Int).Quo(Ia.hi, k))))
		}
		qi := iv(new(big.Int).Quo(Ia.lo, k), new(big.Int).Quo(Ia.hi, k))
		if k.Sign() < 0 {
			qi = iv(qi.hi, qi.lo)
		}
		if in.Op == token.QUO {
			set(it.fit(q, qi, in.Type()))
		} else {
			m := new(big.Int).Sub(new(big.Int).Abs(k), bigOne)
			R := iv(bigZero, m)
			if Ia.lo.Sign() < 0 {
				R.lo = new(big.Int).Neg(m)
			}
			set(it.fit(va.P.Sub(q.Scale(k)), R, in.Type()))
		}
	default:
		panic(undecided("operation %s", in.Op))
	}
	return true
}

// funcOfSmall tabulates f over a value with few possibilities.
func (it *Interp) funcOfSmall(st *State, v IntV, f func(*big.Int) *big.Int) (*Poly, bool) {
	c := it.c
	if s, vals, ok := it.smallSym(st, v.P); ok {
		lo, hi := vals[0], vals[len(vals)-1]
		tab := make([]*big.Int, hi-lo+1)
		var last *big.Int
		for _, x := range vals {
			y, ok := c.evalAt(v.P, symPoly(s), x)
			if !ok {
				return nil, false
			}
			last = f(y)
			for i := x - lo; i >= 0 && tab[i] == nil; i-- {
				tab[i] = last // values in the gaps do not occur
			}
		}
		return c.table(symPoly(s), lo, hi, tab), true
	}
	root, lo, hi, ok := c.univ(v.P, false)
	if !ok {
		return nil, false
	}
	return c.tableOf(v.P, root, lo, hi, f), true
}

// smallSym: P depends on one symbol that has a known list of values.
func (it *Interp) smallSym(st *State, P *Poly) (Sym, []int64, bool) {
	syms := map[Sym]bool{}
	var walk func(p *Poly, d int)
	walk = func(p *Poly, d int) {
		for s := range p.Syms() {
			si := it.c.syms[s]
			switch {
			case si.vals != nil:
				syms[s] = true
			case si.kind == kInd && d < 8:
				walk(si.oh.root, d+1)
			case (si.kind == kFloor || si.kind == kIz) && d < 8:
				walk(si.m, d+1)
			default:
				syms[s] = true
			}
		}
	}
	walk(P, 0)
	if len(syms) != 1 {
		return 0, nil, false
	}
	for s := range syms {
		if vals := it.limbVals(st, s); vals != nil {
			return s, vals, true
		}
	}
	return 0, nil, false
}

func (it *Interp) shiftTable(st *State, v, n IntV, op token.Token, t types.Type) (IntV, bool) {
	k, ok := v.konst()
	if !ok {
		return IntV{}, false
	}
	I := it.bnd(st, n)
	if I.lo.Sign() < 0 || I.hi.Cmp(big.NewInt(64)) > 0 {
		return IntV{}, false
	}
	P, ok := it.funcOfSmall(st, n, func(s *big.Int) *big.Int {
		if op == token.SHL {
			return new(big.Int).Lsh(k, uint(s.Int64()))
		}
		return new(big.Int).Rsh(k, uint(s.Int64()))
	})
	if !ok {
		return IntV{}, false
	}
	return it.fit(P, it.c.bound(P), t), true
}

// equal returns the 0/1 polynomial [a == b].
func (it *Interp) equal(st *State, a, b Val, t types.Type) *Poly {
	switch x := a.(type) {
	case IntV:
		y := it.asInt(b)
		d := it.norm(st, IntV{x.P.Sub(y.P), ivSub(it.bnd(st, x), it.bnd(st, y))})
		if !it.bnd(st, d).contains(bigZero) {
			return intPoly(0)
		}
		if len(d.P.terms) > 0 {
			if s, vals, ok := it.smallSym(st, d.P); ok {
				// decided by the values alone?
				yes, no := false, false
				for _, v := range vals {
					e, ok := it.c.evalAt(d.P, symPoly(s), v)
					if !ok {
						yes, no = true, true
						break
					}
					if e.Sign() == 0 {
						yes = true
					} else {
						no = true
					}
				}
				if !yes {
					return intPoly(0)
				}
				if !no {
					return intPoly(1)
				}
			}
		}
		return it.c.izInt(d.P)
	case AggV:
		y, ok := b.(AggV)
		if !ok || len(y.cells) != len(x.cells) {
			panic(undecided("comparison of %T with %T", a, b))
		}
		return it.equalCells(st, x.cells, y.cells, t)
	case IfaceV:
		if y, ok := b.(IfaceV); ok {
			if y.nilP.isInt(1) {
				return x.nilP
			}
			if x.nilP.isInt(1) {
				return y.nilP
			}
		}
	case PtrV:
		if y, ok := b.(PtrV); ok {
			if x.obj == y.obj && x.off == y.off {
				return intPoly(1)
			}
			return intPoly(0)
		}
	case SliceV:
		if y, ok := b.(SliceV); ok && (x.obj == nil || y.obj == nil) {
			if x.obj == nil && y.obj == nil {
				return intPoly(1)
			}
			return intPoly(0)
		}
	case SliceJoin:
		if y, ok := b.(SliceV); ok && y.obj == nil {
			pa, pb := intPoly(0), intPoly(0)
			if x.a.obj == nil {
				pa = intPoly(1)
			}
			if x.b.obj == nil {
				pb = intPoly(1)
			}
			return it.c.Mul(x.gate, pa.Sub(pb)).Add(pb)
		}
	case StrV:
		if y, ok := b.(StrV); ok && x.known && y.known {
			if x.s == y.s {
				return intPoly(1)
			}
			return intPoly(0)
		}
	}
	panic(undecided("comparison of %T with %T", a, b))
}

// equalCells compares vectors of unsigned words through their radix sums.
func (it *Interp) equalCells(st *State, a, b []Val, t types.Type) *Poly {
	el := t
	for {
		if arr, ok := el.Underlying().(*types.Array); ok {
			el = arr.Elem()
			continue
		}
		if s, ok := el.Underlying().(*types.Struct); ok && s.NumFields() > 0 {
			el = s.Field(0).Type()
			continue
		}
		break
	}
	w, signed, ok := intType(el)
	if !ok {
		panic(undecided("comparison of %s", t))
	}
	if signed {
		w++
	}
	s := newPoly()
	lo, hi := new(big.Int), new(big.Int)
	for i := range a {
		x, y := it.asInt(a[i]), it.asInt(b[i])
		s = s.Add(x.P.Sub(y.P).Scale(pow2(w * uint(i))))
		d := ivScale(ivSub(x.I, y.I), pow2(w*uint(i)))
		lo.Add(lo, d.lo)
		hi.Add(hi, d.hi)
	}
	return it.c.izInt(it.under(st.facts, s))
}

// ---- indexing ------------------------------------------------------------------------

func (fr *iframe) indexAddr(x *item, in *ssa.IndexAddr) bool {
	switch b := fr.get(x, in.X).(type) {
	case PtrV:
		fr.it.oblige("pointer", in, b.obj != nil, "nil dereference")
		if b.obj == nil {
			return false
		}
		arr := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		p, ok := fr.element(x, in, b.obj, b.off, constInt(arr.Len()), arr.Elem(), fr.get(x, in.Index))
		if !ok {
			return false
		}
		x.env[in] = p
	case SliceV:
		p, ok := fr.element(x, in, b.obj, b.off, b.n, b.elem, fr.get(x, in.Index))
		if !ok {
			return false
		}
		x.env[in] = p
	default:
		panic(undecided("index into %T in %s", b, fname(fr.fn)))
	}
	return true
}

// element returns a pointer to element i of n elements starting at o+off.
func (fr *iframe) element(x *item, in ssa.Instruction, o *Object, off int, n IntV, el types.Type, iv Val) (PtrV, bool) {
	it := fr.it
	st := x.st
	i := it.norm(st, it.asInt(iv))
	n = it.norm(st, n)
	sz := flatSize(el)
	I := it.bnd(st, i)
	ok := I.lo.Sign() >= 0
	if ok {
		d := IntV{i.P.Sub(n.P), ivSub(I, it.bnd(st, n))}
		d = it.norm(st, d)
		ok = it.bnd(st, d).hi.Sign() < 0
	}
	var vals []int64
	if !ok {
		// exact value set
		if vs, ok2 := it.indexVals(st, i); ok2 {
			if k, isC := n.konst(); isC && k.IsInt64() {
				ok = true
				for _, v := range vs {
					if v < 0 || v >= k.Int64() {
						ok = false
					}
				}
			}
		}
	}
	it.oblige("index", in, ok, fmt.Sprintf("index %s outside [0, %s)", it.c.str(i.P), it.c.str(n.P)))
	if k, isC := i.konst(); isC {
		if !ok || o == nil {
			return PtrV{}, false
		}
		return PtrV{o, off + int(k.Int64())*sz}, true
	}
	vals, okv := it.indexVals(st, i)
	if !okv {
		panic(undecided("%s: index %s takes too many values", fname(fr.fn), it.c.str(i.P)))
	}
	k, isC := n.konst()
	if !isC || !k.IsInt64() {
		panic(undecided("%s: variable index into a slice of unknown length", fname(fr.fn)))
	}
	var in2 []int64
	for _, v := range vals {
		if v >= 0 && v < k.Int64() {
			in2 = append(in2, v)
		}
	}
	if len(in2) == 0 {
		return PtrV{}, false
	}
	return it.selectElem(st, o, off, sz, el, i, in2), true
}

// indexVals enumerates the values an index can take.
func (it *Interp) indexVals(st *State, i IntV) ([]int64, bool) {
	if k, ok := i.konst(); ok {
		if !k.IsInt64() {
			return nil, false
		}
		return []int64{k.Int64()}, true
	}
	if s, vals, ok := it.smallSym(st, i.P); ok {
		m := map[int64]bool{}
		for _, v := range vals {
			y, ok := it.c.evalAt(i.P, symPoly(s), v)
			if !ok || !y.IsInt64() {
				return nil, false
			}
			m[y.Int64()] = true
		}
		return sortedVals(m), true
	}
	if root, lo, hi, ok := it.c.univ(i.P, false); ok {
		allowed := map[int64]bool{}
		if oh, has := it.c.ohs["root:"+root.Key()]; has {
			for _, v := range it.rootVals(st, oh) {
				allowed[v] = true
			}
		} else {
			for v := lo; v <= hi; v++ {
				allowed[v] = true
			}
		}
		J := it.bnd(st, IntV{root, iv64(lo, hi)})
		m := map[int64]bool{}
		for v := lo; v <= hi; v++ {
			if !allowed[v] || !J.contains(big.NewInt(v)) {
				continue
			}
			y, ok := it.c.evalAt(i.P, root, v)
			if !ok || !y.IsInt64() {
				return nil, false
			}
			m[y.Int64()] = true
		}
		return sortedVals(m), true
	}
	I := it.bnd(st, i)
	w := I.width()
	if w.IsInt64() && w.Int64() <= maxRoot && I.lo.IsInt64() {
		var r []int64
		for v := I.lo.Int64(); v <= I.hi.Int64(); v++ {
			r = append(r, v)
		}
		return r, true
	}
	return nil, false
}

func sortedVals(m map[int64]bool) []int64 {
	var r []int64
	for v := range m {
		r = append(r, v)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

// selectElem makes a read-only view of the element selected by a variable index.
func (it *Interp) selectElem(st *State, o *Object, off, sz int, el types.Type, i IntV, vals []int64) PtrV {
	if len(vals) == 1 {
		return PtrV{o, off + int(vals[0])*sz}
	}
	c := it.c
	it.nobj++
	ob := &Object{id: it.nobj, name: o.name + "[...]", typ: el, n: sz, ro: true, src: o, srcVer: it.block(st, o).ver}
	b := &cellBlock{cells: make([]Val, sz)}
	for k := 0; k < sz; k++ {
		v0, ok := it.load1(st, o, off+int(vals[0])*sz+k).(IntV)
		if !ok {
			panic(undecided("variable index into an array of non-integers"))
		}
		P := v0.P
		I := v0.I
		same := true
		for _, v := range vals[1:] {
			x := it.asInt(it.load1(st, o, off+int(v)*sz+k))
			if !x.P.Equal(v0.P) {
				same = false
			}
		}
		if !same {
			for _, v := range vals[1:] {
				x := it.asInt(it.load1(st, o, off+int(v)*sz+k))
				P = P.Add(c.Mul(it.indexInd(st, i, v), x.P.Sub(v0.P)))
				I = ivHull(I, x.I)
			}
		}
		b.cells[k] = IntV{P, I}
	}
	st.mem[ob] = b
	st.own[ob] = true
	ob.sel = &selInfo{obj: o, off: off, sz: sz, idx: i, vals: vals}
	return PtrV{ob, 0}
}

type selInfo struct {
	obj  *Object
	off  int
	sz   int
	idx  IntV
	vals []int64
}

// indexInd returns [i == v].
func (it *Interp) indexInd(st *State, i IntV, v int64) *Poly {
	c := it.c
	if s, vals, ok := it.smallSym(st, i.P); ok {
		r := newPoly()
		oh := c.rootOnehot(symPoly(s), c.syms[s].vals[0], c.syms[s].vals[len(c.syms[s].vals)-1])
		for _, x := range vals {
			y, _ := c.evalAt(i.P, symPoly(s), x)
			if y != nil && y.IsInt64() && y.Int64() == v {
				r = r.Add(symPoly(c.ind(oh, x)))
			}
		}
		return r
	}
	if root, lo, hi, ok := c.univ(i.P, false); ok {
		r := newPoly()
		for x := lo; x <= hi; x++ {
			y, _ := c.evalAt(i.P, root, x)
			if y != nil && y.IsInt64() && y.Int64() == v {
				r = r.Add(c.indOf(root, x))
			}
		}
		return r
	}
	return c.indOf(i.P, v)
}

func (fr *iframe) slice(x *item, in *ssa.Slice) bool {
	it := fr.it
	st := x.st
	var o *Object
	var off int
	var n, cp IntV
	var el types.Type
	switch b := fr.get(x, in.X).(type) {
	case PtrV:
		it.oblige("pointer", in, b.obj != nil, "nil dereference")
		if b.obj == nil {
			return false
		}
		arr := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		o, off, n, cp, el = b.obj, b.off, constInt(arr.Len()), constInt(arr.Len()), arr.Elem()
	case SliceV:
		o, off, n, cp, el = b.obj, b.off, b.n, b.cap, b.elem
	default:
		panic(undecided("slice of %T in %s", b, fname(fr.fn)))
	}
	lo, hi, mx := constInt(0), n, cp
	var rawHi *Poly
	if in.Low != nil {
		lo = it.norm(st, it.asInt(fr.get(x, in.Low)))
	}
	if in.High != nil {
		hi = it.asInt(fr.get(x, in.High))
		rawHi = hi.P
		hi = it.norm(st, hi)
	}
	if in.Max != nil {
		mx = it.norm(st, it.asInt(fr.get(x, in.Max)))
	}
	le := func(a, b IntV) bool {
		d := it.norm(st, IntV{a.P.Sub(b.P), ivSub(it.bnd(st, a), it.bnd(st, b))})
		return it.bnd(st, d).hi.Sign() <= 0
	}
	fits := le(hi, mx)
	if !fits && rawHi != nil {
		fits = it.bnd(st, IntV{rawHi.Sub(mx.P), ivSub(it.bnd(st, hi), it.bnd(st, mx))}).hi.Sign() <= 0
	}
	ok := it.bnd(st, lo).lo.Sign() >= 0 && le(lo, hi) && fits && le(mx, cp)
	it.oblige("slice bounds", in, ok, fmt.Sprintf("[%s:%s] of capacity %s", it.c.str(lo.P), it.c.str(hi.P), it.c.str(cp.P)))
	if !ok {
		// continue under the assumption that the check succeeds, if that is decidable
		if kl, ok1 := lo.konst(); ok1 {
			if kh, ok2 := hi.konst(); ok2 {
				if kc, ok3 := it.norm(st, cp).konst(); ok3 && (kl.Sign() < 0 || kl.Cmp(kh) > 0 || kh.Cmp(kc) > 0) {
					return false
				}
			}
		}
	}
	kl, isC := lo.konst()
	if !isC {
		panic(undecided("%s: slice with a variable start", fname(fr.fn)))
	}
	l := int(kl.Int64())
	x.env[in] = SliceV{o, off + l*flatSize(el), it.norm(st, IntV{hi.P.AddInt(int64(-l)), ivAdd(it.bnd(st, hi), iv64(int64(-l), int64(-l)))}),
		it.norm(st, IntV{mx.P.AddInt(int64(-l)), ivAdd(it.bnd(st, mx), iv64(int64(-l), int64(-l)))}), el}
	return true
}

func (fr *iframe) convert(x *item, v Val, from, to types.Type, in ssa.Instruction) Val {
	it := fr.it
	if _, _, ok := intType(to); ok {
		if i, ok2 := v.(IntV); ok2 {
			return it.fit(i.P, it.bnd(x.st, i), to)
		}
	}
	tb, isB := to.Underlying().(*types.Basic)
	if isB && tb.Info()&types.IsString != 0 {
		switch s := v.(type) {
		case SliceV:
			return StrV{sl: it.snapshot(x.st, s)}
		case StrV:
			return s
		}
	}
	if ts, ok := to.Underlying().(*types.Slice); ok {
		if s, ok := v.(StrV); ok {
			if s.known {
				o := it.newObj(x.st, "string bytes", ts.Elem(), len(s.s))
				for i := range s.s {
					it.store1(x.st, o, i, constInt(int64(s.s[i])))
				}
				return SliceV{o, 0, constInt(int64(len(s.s))), constInt(int64(len(s.s))), ts.Elem()}
			}
			if s.sl != nil {
				return *it.snapshot(x.st, *s.sl)
			}
		}
	}
	if _, ok := to.Underlying().(*types.Pointer); ok {
		return v
	}
	panic(undecided("conversion from %s to %s in %s", from, to, fname(fr.fn)))
}

// snapshot copies the bytes of a slice.
func (it *Interp) snapshot(st *State, s SliceV) *SliceV {
	n := it.norm(st, s.n)
	k, ok := n.konst()
	if !ok || s.obj == nil {
		c := s
		return &c
	}
	o := it.newObj(st, "copy", s.elem, int(k.Int64()))
	for i := 0; i < int(k.Int64()); i++ {
		it.store1(st, o, i, it.load1(st, s.obj, s.off+i))
	}
	return &SliceV{o, 0, n, n, s.elem}
}
