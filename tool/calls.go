package main

// Calls: builtins, models of library functions, functions of the module.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func one(ret Val, st *State) []outcome { return []outcome{{ret, st}} }

func (it *Interp) call(fr *iframe, x *item, cc *ssa.CallCommon, in ssa.Instruction) []outcome {
	st := x.st
	var args []Val
	for _, a := range cc.Args {
		args = append(args, fr.get(x, a))
	}
	if cc.IsInvoke() {
		if i, ok := fr.get(x, cc.Value).(IfaceV); ok {
			if p, ok := i.dyn.(PtrV); ok && p.obj != nil && strings.HasPrefix(p.obj.name, "hash:") {
				return it.hashCall(p, cc.Method.Name(), args, st)
			}
		}
		panic(undecided("interface call of %s in %s", cc.Method.Name(), fname(fr.fn)))
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return it.builtin(fr, x, b.Name(), args, cc, in)
	}
	fv, ok := fr.get(x, cc.Value).(FnV)
	if !ok {
		panic(undecided("call of an unknown function value in %s", fname(fr.fn)))
	}
	return it.callFn(fv.fn, args, fv.free, st, in)
}

func (it *Interp) callFn(fn *ssa.Function, args, free []Val, st *State, in ssa.Instruction) []outcome {
	if fn.Pkg != nil && fn.Name() == "init" && fn.Pkg != it.p.ed && fn.Pkg != it.p.rist {
		return one(nil, st)
	}
	if fn.Pkg != nil && fn.Name() == "init" && it.initing {
		return one(nil, st) // packages are initialised in order by initGlobals
	}
	if fn.Blocks == nil || !it.p.inModule(fn) {
		return it.external(fn, args, st, in)
	}
	if it.codec && fn.Pkg == it.p.ed {
		if outs := it.callCodec(fn, args, st); outs != nil {
			return outs
		}
	}
	if it.preim != nil && it.preim == fn {
		return it.callPreimage(args, st)
	}
	if it.inverse && it.inverseFn(fn) {
		return it.callInverse(fn, args, st)
	}
	if it.maps && it.mapFn(fn) {
		return it.callMap(args, st)
	}
	if it.points && !it.initing {
		if pa := it.pointArgs(fn, args); len(pa) > 0 {
			return it.callPoints(fn, args, free, st, in, pa)
		}
	}
	if it.c.orc != nil {
		if k := it.rootFn(fn); k != 0 {
			return it.callRoot(k, fn, args, st, in)
		}
	}
	if !it.initing {
		if out, ok := it.summarized(fn, args, st, in); ok {
			return out
		}
	}
	return it.exec(fn, args, free, st)
}

func (it *Interp) builtin(fr *iframe, x *item, name string, args []Val, cc *ssa.CallCommon, in ssa.Instruction) []outcome {
	st := x.st
	switch name {
	case "len", "cap":
		switch v := args[0].(type) {
		case SliceV:
			if name == "cap" {
				return one(v.cap, st)
			}
			return one(v.n, st)
		case StrV:
			if v.known {
				return one(constInt(int64(len(v.s))), st)
			}
			if v.sl != nil {
				return one(v.sl.n, st)
			}
		case AggV:
			if a, ok := v.t.Underlying().(*types.Array); ok {
				return one(constInt(a.Len()), st)
			}
		case PtrV:
			if a, ok := cc.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
				return one(constInt(a.Len()), st)
			}
		}
		panic(undecided("len of %T in %s", args[0], fname(fr.fn)))
	case "copy":
		dst, ok := args[0].(SliceV)
		if !ok {
			panic(undecided("copy to %T", args[0]))
		}
		src, ok := it.bytesOf(st, args[1])
		if !ok {
			panic(undecided("copy from %T", args[1]))
		}
		n := it.minLen(st, dst.n, src.n)
		it.move(st, dst, src, n)
		return one(constInt(int64(n)), st)
	case "append":
		dst, ok := args[0].(SliceV)
		src, ok2 := it.bytesOf(st, args[1])
		if !ok || !ok2 {
			panic(undecided("append to %T", args[0]))
		}
		a, ok := it.norm(st, dst.n).konst()
		b, ok2 := it.norm(st, src.n).konst()
		if !ok || !ok2 {
			panic(undecided("append of unknown length in %s", fname(fr.fn)))
		}
		cp, ok := it.norm(st, dst.cap).konst()
		n := new(big.Int).Add(a, b)
		sz := flatSize(dst.elem)
		if ok && n.Cmp(cp) <= 0 && dst.obj != nil {
			d := SliceV{dst.obj, dst.off + int(a.Int64())*sz, constBig(b), constBig(b), dst.elem}
			it.move(st, d, src, int(b.Int64()))
			return one(SliceV{dst.obj, dst.off, constBig(n), dst.cap, dst.elem}, st)
		}
		o := it.newObj(st, "append", dst.elem, int(n.Int64())*sz)
		if a.Sign() > 0 {
			it.move(st, SliceV{o, 0, constBig(a), constBig(a), dst.elem}, dst, int(a.Int64()))
		}
		if b.Sign() > 0 {
			it.move(st, SliceV{o, int(a.Int64()) * sz, constBig(b), constBig(b), dst.elem}, src, int(b.Int64()))
		}
		return one(SliceV{o, 0, constBig(n), constBig(n), dst.elem}, st)
	case "min", "max":
		r := it.asInt(args[0])
		for _, a := range args[1:] {
			y := it.asInt(a)
			d := IntV{r.P.Sub(y.P), ivSub(it.bnd(st, r), it.bnd(st, y))}
			lt := it.lessZero(st, d) // r < y
			g := lt.P
			if name == "max" {
				g = intPoly(1).Sub(g)
			}
			r = IntV{it.c.Mul(g, r.P.Sub(y.P)).Add(y.P), ivHull(r.I, y.I)}
		}
		return one(r, st)
	case "clear":
		s, ok := args[0].(SliceV)
		if ok {
			n, ok := it.norm(st, s.n).konst()
			if ok {
				z := zeroCells(s.elem, int(n.Int64())*flatSize(s.elem))
				for i, v := range z {
					it.store1(st, s.obj, s.off+i, v)
				}
				return one(nil, st)
			}
		}
	case "print", "println":
		return one(nil, st)
	case "ssa:wrapnilchk":
		return one(args[0], st)
	}
	panic(undecided("builtin %s in %s", name, fname(fr.fn)))
}

func (it *Interp) bytesOf(st *State, v Val) (SliceV, bool) {
	switch s := v.(type) {
	case SliceV:
		return s, true
	case StrV:
		if s.known {
			o := it.newObj(st, "string", types.Typ[types.Uint8], len(s.s))
			for i := range s.s {
				it.store1(st, o, i, constInt(int64(s.s[i])))
			}
			n := constInt(int64(len(s.s)))
			return SliceV{o, 0, n, n, types.Typ[types.Uint8]}, true
		}
		if s.sl != nil {
			return *s.sl, true
		}
	}
	return SliceV{}, false
}

func (it *Interp) minLen(st *State, a, b IntV) int {
	a, b = it.norm(st, a), it.norm(st, b)
	Ia, Ib := it.bnd(st, a), it.bnd(st, b)
	m := a
	if Ia.hi.Cmp(Ib.lo) > 0 {
		if Ib.hi.Cmp(Ia.lo) > 0 {
			d := it.norm(st, IntV{a.P.Sub(b.P), ivSub(Ia, Ib)})
			if J := it.bnd(st, d); J.hi.Sign() > 0 && J.lo.Sign() < 0 {
				panic(undecided("copy of unknown length (%s, %s)", it.c.str(a.P), it.c.str(b.P)))
			} else if J.hi.Sign() > 0 {
				m = b
			}
		} else {
			m = b
		}
	}
	k, ok := m.konst()
	if !ok || !k.IsInt64() {
		panic(undecided("copy of unknown length %s", it.c.str(m.P)))
	}
	return int(k.Int64())
}

func (it *Interp) move(st *State, dst, src SliceV, n int) {
	if n <= 0 {
		return
	}
	sz := flatSize(dst.elem)
	tmp := make([]Val, n*sz)
	for i := range tmp {
		tmp[i] = it.load1(st, src.obj, src.off+i)
	}
	for i, v := range tmp {
		it.store1(st, dst.obj, dst.off+i, v)
	}
}

// content names the bytes of a slice: polynomials that determine them.
func (it *Interp) content(st *State, s SliceV) []*Poly {
	n := it.norm(st, s.n)
	if k, ok := n.konst(); ok && k.IsInt64() && k.Int64() < 1<<16 {
		var r []*Poly
		for i := 0; i < int(k.Int64()); i++ {
			r = append(r, it.asInt(it.load1(st, s.obj, s.off+i)).P)
		}
		return r
	}
	if s.obj == nil || !s.obj.sym {
		panic(undecided("contents of a slice of unknown length"))
	}
	b := it.block(st, s.obj)
	tag := "in:" + s.obj.name
	if b.gen != nil {
		tag = b.gen.op
	}
	if s.obj.zero && b.gen == nil {
		tag = "zeros"
	}
	// the whole object: offset 0 and its full length
	P := it.c.input(fmt.Sprintf("content(%s+%d)", tag, s.off), iv64(0, 1<<62))
	r := []*Poly{symPoly(P), s.n.P}
	if b.gen != nil {
		r = append(r, b.gen.args...)
	}
	for i, v := range b.cells { // explicit writes
		if x, ok := v.(IntV); ok && b.gen == nil && s.obj.zero && !x.P.IsZero() {
			panic(undecided("contents of a partly written slice of unknown length (%d)", i))
		}
	}
	return r
}

var opNames = map[string]int{}

func (it *Interp) sliceKnown(st *State, s SliceV) (int, bool) {
	k, ok := it.norm(st, s.n).konst()
	if !ok || !k.IsInt64() {
		return 0, false
	}
	return int(k.Int64()), true
}

// le returns whether a <= b is proved.
func (it *Interp) le(st *State, a, b IntV) bool {
	d := it.norm(st, IntV{a.P.Sub(b.P), ivSub(it.bnd(st, a), it.bnd(st, b))})
	if it.bnd(st, d).hi.Sign() <= 0 {
		return true
	}
	// as written, before facts are used: a recorded limit may relate the two
	return it.bnd(st, IntV{a.P.Sub(b.P), d.I}).hi.Sign() <= 0
}

func (it *Interp) boolOp(op string, args []*Poly) *Poly {
	var ks []string
	for _, a := range args {
		ks = append(ks, a.Key())
	}
	s := it.c.keyed("bop:"+op+":"+strings.Join(ks, "|"), func() *symInfo {
		return &symInfo{kind: kOp, op: op, args: args, isBool: true, I: iv64(0, 1)}
	})
	return symPoly(s)
}

func (it *Interp) errVal(nilP *Poly, tag string) IfaceV { return IfaceV{nilP: nilP, tag: tag} }

func (it *Interp) bigCell(st *State, v Val) (PtrV, *Poly) {
	p, ok := v.(PtrV)
	if !ok || p.obj == nil {
		panic(undecided("big.Int expected, have %T", v))
	}
	b, ok := it.load1(st, p.obj, p.off).(BigV)
	if !ok {
		panic(undecided("big.Int expected"))
	}
	return p, b.P
}

// digit returns byte i (little endian) of a non-negative number.
func (it *Interp) digit(P *Poly, i uint) *Poly {
	lo := it.c.floorPoly(P, 8*i, nil)
	hi := it.c.floorPoly(P, 8*i+8, nil)
	r := lo.Sub(hi.ScaleInt(256))
	it.c.setBound(r, iv64(0, 255))
	return r
}

func (it *Interp) external(fn *ssa.Function, args []Val, st *State, in ssa.Instruction) []outcome {
	c := it.c
	name := fn.String()
	u64 := types.Typ[types.Uint64]
	sl := func(i int) SliceV {
		s, ok := it.bytesOf(st, args[i])
		if !ok {
			panic(undecided("%s: slice expected, have %T", name, args[i]))
		}
		return s
	}
	num := func(i int) IntV { return it.norm(st, it.asInt(args[i])) }
	switch {
	case strings.HasPrefix(name, "(encoding/binary.littleEndian).") || strings.HasPrefix(name, "(encoding/binary.bigEndian)."):
		be := strings.Contains(name, "bigEndian")
		op := name[strings.LastIndex(name, ".")+1:]
		put := strings.HasPrefix(op, "Put")
		var w int
		switch strings.TrimPrefix(op, "Put") {
		case "Uint16":
			w = 2
		case "Uint32":
			w = 4
		case "Uint64":
			w = 8
		default:
			panic(undecided("call of %s", name))
		}
		s := sl(1)
		ok := it.le(st, constInt(int64(w)), s.n)
		it.oblige("slice length", in, ok, fmt.Sprintf("%s needs %d bytes", op, w))
		if !ok {
			return nil
		}
		at := func(i int) int {
			if be {
				return s.off + w - 1 - i
			}
			return s.off + i
		}
		if put {
			v := num(2)
			for i := 0; i < w; i++ {
				d := it.digit(v.P, uint(i))
				I := iv64(0, 255)
				if J, ok := c.tryBound(d); ok {
					I = ivMeet(I, J)
				}
				it.store1(st, s.obj, at(i), IntV{d, I})
			}
			return one(nil, st)
		}
		P := newPoly()
		I := iv64(0, 0)
		for i := 0; i < w; i++ {
			b := it.asInt(it.load1(st, s.obj, at(i)))
			P = P.Add(b.P.Scale(pow2(uint(8 * i))))
			I = ivAdd(I, ivScale(b.I, pow2(uint(8*i))))
		}
		if J, ok := c.tryBound(P); ok {
			I = ivMeet(I, J)
		}
		return one(IntV{P, I}, st)
	}
	switch name {
	case "math/bits.Mul64":
		a, b := num(0), num(1)
		P := c.Mul(a.P, b.P)
		I := ivMul(it.bnd(st, a), it.bnd(st, b))
		r := ivShr(I, 64)
		hi := c.floorPoly(P, 64, &r)
		lo := P.Sub(hi.Scale(pow2(64)))
		return one(TupV{IntV{hi, r}, it.fit(lo, typeRange(u64), u64)}, st)
	case "math/bits.Add64":
		P := num(0).P.Add(num(1).P).Add(num(2).P)
		I := ivAdd(ivAdd(it.bnd(st, num(0)), it.bnd(st, num(1))), it.bnd(st, num(2)))
		if J, ok := c.tryBound(P); ok {
			I = ivMeet(I, J)
		}
		r := ivShr(I, 64)
		co := c.floorPoly(P, 64, &r)
		J := typeRange(u64)
		if I.within(J) {
			J = I
		}
		return one(TupV{IntV{P.Sub(co.Scale(pow2(64))), J}, IntV{co, r}}, st)
	case "math/bits.Sub64":
		P := num(0).P.Sub(num(1).P).Sub(num(2).P)
		I := ivSub(ivSub(it.bnd(st, num(0)), it.bnd(st, num(1))), it.bnd(st, num(2)))
		if J, ok := c.tryBound(P); ok {
			I = ivMeet(I, J)
		}
		r := ivShr(I, 64)
		co := c.floorPoly(P, 64, &r)
		J := typeRange(u64)
		if I.within(J) {
			J = I
		}
		return one(TupV{IntV{P.Sub(co.Scale(pow2(64))), J}, IntV{co.Neg(), ivNeg(r)}}, st)
	case "crypto/subtle.ConstantTimeCompare", "bytes.Equal":
		a, b := sl(0), sl(1)
		na, ok1 := it.sliceKnown(st, a)
		nb, ok2 := it.sliceKnown(st, b)
		if !ok1 || !ok2 {
			panic(undecided("%s of unknown length", name))
		}
		if na != nb {
			return one(constInt(0), st)
		}
		var va, vb []Val
		for i := 0; i < na; i++ {
			va = append(va, it.load1(st, a.obj, a.off+i))
			vb = append(vb, it.load1(st, b.obj, b.off+i))
		}
		return one(it.mkBool(it.equalCells(st, va, vb, types.Typ[types.Uint8])), st)
	case "crypto/subtle.ConstantTimeCopy":
		v := num(0)
		I := it.bnd(st, v)
		if I.lo.Sign() < 0 || I.hi.Cmp(bigOne) > 0 {
			panic(undecided("%s with a selector outside 0, 1", name))
		}
		a, b := sl(1), sl(2)
		na, ok1 := it.sliceKnown(st, a)
		nb, ok2 := it.sliceKnown(st, b)
		good := ok1 && ok2 && na == nb
		it.oblige("slice length", in, good, "ConstantTimeCopy of slices of different length")
		if !good {
			return nil
		}
		var vs []Val
		for i := 0; i < na; i++ {
			x, y := it.asInt(it.load1(st, a.obj, a.off+i)), it.asInt(it.load1(st, b.obj, b.off+i))
			vs = append(vs, IntV{c.Mul(v.P, y.P.Sub(x.P)).Add(x.P), ivHull(x.I, y.I)})
		}
		for i, x := range vs {
			it.store1(st, a.obj, a.off+i, x)
		}
		return one(nil, st)
	case "crypto/subtle.ConstantTimeByteEq", "crypto/subtle.ConstantTimeEq":
		return one(it.mkBool(it.equal(st, args[0], args[1], types.Typ[types.Int32])), st)
	case "crypto/subtle.ConstantTimeSelect":
		v := num(0)
		I := it.bnd(st, v)
		if I.lo.Sign() < 0 || I.hi.Cmp(bigOne) > 0 {
			panic(undecided("%s with a selector outside 0, 1", name))
		}
		x, y := num(1), num(2)
		return one(IntV{c.Mul(v.P, x.P.Sub(y.P)).Add(y.P), ivHull(x.I, y.I)}, st)
	case "crypto/subtle.ConstantTimeLessOrEq":
		d := IntV{num(1).P.Sub(num(0).P), ivSub(num(1).I, num(0).I)}
		return one(it.mkBool(intPoly(1).Sub(it.lessZero(st, d).P)), st)
	case "crypto/sha256.New", "crypto/sha512.New":
		sum := "Sum256"
		if strings.Contains(name, "sha512") {
			sum = "Sum512"
		}
		o := it.newObj(st, "hash:"+sum, types.Typ[types.Uint8], 1)
		it.store1(st, o, 0, AggV{})
		return one(IfaceV{nilP: intPoly(0), tag: "hash", dyn: PtrV{o, 0}}, st)
	case "crypto/sha256.Sum256", "crypto/sha512.Sum512", "crypto/sha512.Sum384", "crypto/sha512.Sum512_256":
		n := int(fn.Signature.Results().At(0).Type().Underlying().(*types.Array).Len())
		args := it.content(st, sl(0))
		r := AggV{t: fn.Signature.Results().At(0).Type()}
		for i := 0; i < n; i++ {
			r.cells = append(r.cells, IntV{c.opSym(fmt.Sprintf("%s[%d]", fn.Name(), i), args, iv64(0, 255)), iv64(0, 255)})
		}
		return one(r, st)
	case "crypto/rand.Read", "io.ReadFull":
		k := 0
		if name == "io.ReadFull" {
			k = 1
			o, ok := args[0].(IfaceV)
			if ok {
				if q, is := o.dyn.(OpqV); is {
					args[0] = q
				}
			}
			q, is := args[0].(OpqV)
			if !is || q.tag != "value of crypto/rand.Reader" {
				panic(undecided("io.ReadFull from an unknown reader"))
			}
		}
		s := sl(k)
		n, ok := it.sliceKnown(st, s)
		if !ok {
			panic(undecided("rand.Read of unknown length"))
		}
		it.nrand++
		id := it.nrand
		for i := 0; i < n; i++ {
			b := c.input(fmt.Sprintf("rand%d[%d]", id, i), iv64(0, 255))
			it.store1(st, s.obj, s.off+i, IntV{symPoly(b), iv64(0, 255)})
		}
		e := c.boolInput(fmt.Sprintf("rand%d.err", id))
		it.randLog = append(it.randLog, randRead{fn: fname(in.Parent()), pos: it.p.pos(in.Pos()), n: int64(n), obj: s.obj, off: s.off, id: id, err: e})
		// fewer bytes than asked for come with an error, and only then
		got := IntV{intPoly(int64(n)).Sub(symPoly(e)), iv64(int64(n)-1, int64(n))}
		return one(TupV{got, it.errVal(intPoly(1).Sub(symPoly(e)), "rand error")}, st)
	case "errors.New", "fmt.Errorf":
		return one(it.errVal(intPoly(0), "error"), st)
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln":
		return one(StrV{tag: "formatted"}, st)
	case "fmt.Printf", "fmt.Println", "fmt.Print", "fmt.Fprintf", "fmt.Fprintln":
		return one(TupV{constInt(0), it.errVal(intPoly(1), "nil")}, st)
	case "encoding/hex.EncodeToString":
		return one(StrV{tag: "hex(" + polyKeys(it.content(st, sl(0))) + ")"}, st)
	case "encoding/hex.DecodedLen":
		n := num(0)
		r := ivShr(it.bnd(st, n), 1)
		return one(IntV{c.floorPoly(n.P, 1, &r), r}, st)
	case "encoding/hex.EncodedLen":
		n := num(0)
		return one(IntV{n.P.ScaleInt(2), ivScale(it.bnd(st, n), bigTwo)}, st)
	case "encoding/hex.Encode":
		dst, src := sl(0), sl(1)
		n, ok := it.sliceKnown(st, src)
		if !ok {
			panic(undecided("hex.Encode of unknown length"))
		}
		good := it.le(st, constInt(int64(2*n)), dst.n)
		it.oblige("slice length", in, good, "hex.Encode destination too small")
		if !good {
			return nil
		}
		a := it.content(st, src)
		for i := 0; i < 2*n; i++ {
			it.store1(st, dst.obj, dst.off+i, IntV{c.opSym(fmt.Sprintf("hex[%d]", i), a, iv64(0, 255)), iv64(0, 255)})
		}
		return one(constInt(int64(2*n)), st)
	case "encoding/hex.Decode", "encoding/hex.DecodeString":
		str := name == "encoding/hex.DecodeString"
		var dst, src SliceV
		if str {
			src = it.strBytes(st, args[0])
		} else {
			dst, src = sl(0), sl(1)
		}
		n, ok := it.sliceKnown(st, src)
		if !ok {
			panic(undecided("hex.Decode of unknown length"))
		}
		if str {
			k := constInt(int64(n / 2))
			dst = SliceV{it.newObj(st, "hex", types.Typ[types.Uint8], n/2), 0, k, k, types.Typ[types.Uint8]}
		}
		count := func(st *State, v IntV) Val {
			if !str {
				return v
			}
			d := dst
			d.n = it.norm(st, v)
			return d
		}
		good := it.le(st, constInt(int64(n/2)), dst.n)
		it.oblige("slice length", in, good, "hex.Decode destination too small")
		if !good {
			return nil
		}
		a := it.content(st, src)
		okP := it.boolOp("hexok", a)
		if n%2 == 1 {
			okP = intPoly(0)
		}
		top := int64(n / 2)
		if n > 0 && n%2 == 0 {
			top-- // an invalid digit is found before the last byte is counted
		}
		cnt := c.opSym("hexn", a, iv64(0, top))
		for i := 0; i < n/2; i++ {
			old := it.asInt(it.load1(st, dst.obj, dst.off+i))
			d := c.opSym(fmt.Sprintf("unhex[%d]", i), a, iv64(0, 255))
			e := c.opSym(fmt.Sprintf("unhexpart[%d]", i), append(append([]*Poly{}, a...), old.P), iv64(0, 255))
			it.store1(st, dst.obj, dst.off+i, IntV{c.Mul(okP, d.Sub(e)).Add(e), iv64(0, 255)})
		}
		np := c.Mul(okP, intPoly(int64(n/2)).Sub(cnt)).Add(cnt)
		if _, isC := it.under(st.facts, okP).IsConst(); it.apart && !isC {
			var outs []outcome
			for v := int64(0); v < 2; v++ {
				s2 := st.fork()
				if it.assume(s2, okP, v) {
					ret := TupV{count(s2, it.norm(s2, IntV{np, iv64(0, int64(n/2))})), it.errVal(intPoly(v), "hex error")}
					outs = append(outs, outcome{ret, s2})
				}
			}
			return outs
		}
		return one(TupV{count(st, IntV{np, iv64(0, int64(n/2))}), it.errVal(okP, "hex error")}, st)
	}
	if strings.HasPrefix(name, "(*encoding/base64.Encoding).") || strings.HasPrefix(name, "(encoding/base64.Encoding).") {
		q, ok := args[0].(OpqV)
		if !ok {
			panic(undecided("unknown base64 encoding"))
		}
		enc := strings.TrimPrefix(q.tag, "value of encoding/base64.")
		pad := false
		switch enc {
		case "RawURLEncoding", "RawStdEncoding":
		case "URLEncoding", "StdEncoding":
			pad = true
		default:
			panic(undecided("unknown base64 encoding %s", q.tag))
		}
		encLen := func(n int64) int64 {
			if pad {
				return (n + 2) / 3 * 4
			}
			return n/3*4 + (n%3*8+5)/6
		}
		decLen := func(n IntV) IntV {
			if k, ok := n.konst(); ok {
				if pad {
					return constInt(k.Int64() / 4 * 3)
				}
				return constInt(k.Int64()/4*3 + k.Int64()%4*6/8)
			}
			I := it.bnd(st, n)
			return IntV{c.opSym("b64declen"+enc, []*Poly{n.P}, iv(bigZero, I.hi)), iv(bigZero, I.hi)}
		}
		switch fn.Name() {
		case "EncodedLen":
			k, ok := num(1).konst()
			if !ok {
				panic(undecided("EncodedLen of unknown length"))
			}
			return one(constInt(encLen(k.Int64())), st)
		case "DecodedLen":
			return one(decLen(num(1)), st)
		case "Encode", "EncodeToString":
			si := 2
			if fn.Name() != "Encode" {
				si = 1
			}
			src := sl(si)
			n, ok := it.sliceKnown(st, src)
			if !ok {
				panic(undecided("base64 encoding of unknown length"))
			}
			a := it.content(st, src)
			m := encLen(int64(n))
			var dst SliceV
			if si == 2 {
				dst = sl(1)
				good := it.le(st, constInt(m), dst.n)
				it.oblige("slice length", in, good, "base64 destination too small")
				if !good {
					return nil
				}
			} else {
				o := it.newObj(st, "base64", types.Typ[types.Uint8], int(m))
				dst = SliceV{o, 0, constInt(m), constInt(m), types.Typ[types.Uint8]}
			}
			for i := 0; i < int(m); i++ {
				it.store1(st, dst.obj, dst.off+i, IntV{c.opSym(fmt.Sprintf("b64%s[%d]", enc, i), a, iv64(0, 255)), iv64(0, 255)})
			}
			if si == 1 {
				return one(StrV{sl: &dst}, st)
			}
			return one(nil, st)
		case "Decode", "DecodeString":
			str := fn.Name() == "DecodeString"
			var dst, src SliceV
			if str {
				src = it.strBytes(st, args[1])
			} else {
				dst, src = sl(1), sl(2)
			}
			a := it.content(st, src)
			dl := decLen(it.norm(st, src.n))
			if str {
				u8 := types.Typ[types.Uint8]
				if k, ok := dl.konst(); ok && k.IsInt64() && k.Int64() < 1<<16 {
					dst = SliceV{it.newObj(st, "base64", u8, int(k.Int64())), 0, dl, dl, u8}
				} else {
					o := it.newObj(st, "base64", u8, 0)
					o.sym, o.lenP, o.zero = true, dl.P, true
					st.mem[o].cells = nil
					dst = SliceV{o, 0, dl, dl, u8}
				}
			}
			good := it.le(st, dl, dst.n)
			it.oblige("slice length", in, good, "base64 destination may be too small for the decoded data")
			okP := it.boolOp("b64ok"+enc, a)
			I := iv(bigZero, it.bnd(st, dl).hi)
			cnt := c.opSym("b64n"+enc, a, I)
			op := "unb64" + enc
			if dst.obj != nil && dst.obj.sym {
				it.vers++
				st.mem[dst.obj] = &cellBlock{gen: &genCells{op, a}, ver: it.vers}
				st.own[dst.obj] = true
			} else if n, ok := it.sliceKnown(st, dst); ok {
				for i := 0; i < n; i++ {
					old := it.asInt(it.load1(st, dst.obj, dst.off+i))
					wr := it.lessZero(st, IntV{intPoly(int64(i)).Sub(cnt), ivSub(iv64(int64(i), int64(i)), I)})
					d := c.opSym(fmt.Sprintf("%s[%d]", op, i), a, iv64(0, 255))
					it.store1(st, dst.obj, dst.off+i, IntV{c.Mul(wr.P, d.Sub(old.P)).Add(old.P), iv64(0, 255)})
				}
			} else {
				panic(undecided("base64 decoding into a slice of unknown length"))
			}
			// the count never exceeds DecodedLen
			nv := IntV{cnt, I}
			it.limit(st, cnt.Sub(dl.P), iv(new(big.Int).Neg(new(big.Int).Add(I.hi, bigOne)), bigZero))
			if str {
				dst.n = it.norm(st, nv)
				return one(TupV{dst, it.errVal(okP, "base64 error")}, st)
			}
			return one(TupV{nv, it.errVal(okP, "base64 error")}, st)
		}
	}
	if strings.HasPrefix(name, "(*math/big.Int).") {
		return it.bigCall(fn, args, st, in)
	}
	panic(undecided("call of %s (no model of this function)", name))
}

// strBytes gives the bytes of a string.
func (it *Interp) strBytes(st *State, v Val) SliceV {
	u8 := types.Typ[types.Uint8]
	s, ok := v.(StrV)
	if ok && s.known {
		n := constInt(int64(len(s.s)))
		o := it.newObj(st, "string bytes", u8, len(s.s))
		for i := range s.s {
			it.store1(st, o, i, constInt(int64(s.s[i])))
		}
		return SliceV{o, 0, n, n, u8}
	}
	if !ok || s.sl == nil {
		panic(undecided("contents of an unknown string"))
	}
	return *s.sl
}

// hashCall is a method of a running hash; its object holds what was written.
func (it *Interp) hashCall(p PtrV, method string, args []Val, st *State) []outcome {
	sum := strings.TrimPrefix(p.obj.name, "hash:")
	n := 32
	if sum == "Sum512" {
		n = 64
	}
	had, ok := it.load1(st, p.obj, 0).(AggV)
	if !ok {
		panic(undecided("state of a hash"))
	}
	slice := func(v Val) SliceV {
		s, ok := v.(SliceV)
		if !ok {
			panic(undecided("slice expected"))
		}
		return s
	}
	switch method {
	case "Reset":
		it.store1(st, p.obj, 0, AggV{})
		return one(nil, st)
	case "Size":
		return one(constInt(int64(n)), st)
	case "Write":
		s := slice(args[0])
		k, known := it.sliceKnown(st, s)
		if known && k == 0 {
			return one(TupV{it.norm(st, s.n), it.errVal(intPoly(1), "nil")}, st)
		}
		if had.t != nil || (!known && len(had.cells) > 0) {
			panic(undecided("hash of several writes of unknown length"))
		}
		r := AggV{cells: append([]Val{}, had.cells...)}
		for _, q := range it.content(st, s) {
			r.cells = append(r.cells, IntV{q, it.c.bound(q)})
		}
		if !known {
			r.t = s.elem // nothing may follow
		}
		it.store1(st, p.obj, 0, r)
		return one(TupV{it.norm(st, s.n), it.errVal(intPoly(1), "nil")}, st)
	case "Sum":
		b := slice(args[0])
		if k, known := it.sliceKnown(st, b); !known || k != 0 {
			panic(undecided("hash sum appended to data"))
		}
		u8 := types.Typ[types.Uint8]
		dst := SliceV{b.obj, b.off, constInt(int64(n)), b.cap, u8}
		if b.obj == nil || !it.le(st, constInt(int64(n)), b.cap) {
			dst = SliceV{it.newObj(st, "sum", u8, n), 0, constInt(int64(n)), constInt(int64(n)), u8}
		}
		var a []*Poly
		for _, v := range had.cells {
			a = append(a, v.(IntV).P)
		}
		for i := 0; i < n; i++ {
			it.store1(st, dst.obj, dst.off+i, IntV{it.c.opSym(fmt.Sprintf("%s[%d]", sum, i), a, iv64(0, 255)), iv64(0, 255)})
		}
		return one(dst, st)
	}
	panic(undecided("hash method %s", method))
}

func polyKeys(ps []*Poly) string {
	var sb strings.Builder
	for _, p := range ps {
		fmt.Fprintf(&sb, "%x,", p.Key())
	}
	return sb.String()
}

func (it *Interp) bigCall(fn *ssa.Function, args []Val, st *State, in ssa.Instruction) []outcome {
	c := it.c
	set := func(z PtrV, P *Poly) []outcome {
		it.store1(st, z.obj, z.off, BigV{P})
		return one(z, st)
	}
	switch fn.Name() {
	case "SetBytes":
		z, _ := it.bigCell(st, args[0])
		s, _ := it.bytesOf(st, args[1])
		n, ok := it.sliceKnown(st, s)
		if !ok {
			panic(undecided("big.Int.SetBytes of unknown length"))
		}
		P := newPoly()
		for i := 0; i < n; i++ {
			P = P.Add(it.asInt(it.load1(st, s.obj, s.off+i)).P.Scale(pow2(uint(8 * (n - 1 - i)))))
		}
		return set(z, P)
	case "SetString":
		z, _ := it.bigCell(st, args[0])
		s, ok := args[1].(StrV)
		b, ok2 := it.asInt(args[2]).konst()
		if !ok || !s.known || !ok2 {
			panic(undecided("big.Int.SetString of a variable"))
		}
		v, good := new(big.Int).SetString(s.s, int(b.Int64()))
		if !good {
			return one(TupV{PtrV{}, constInt(0)}, st)
		}
		it.store1(st, z.obj, z.off, BigV{constPoly(v)})
		return one(TupV{z, constInt(1)}, st)
	case "SetInt64", "SetUint64":
		z, _ := it.bigCell(st, args[0])
		return set(z, it.asInt(args[1]).P)
	case "Set":
		z, _ := it.bigCell(st, args[0])
		_, x := it.bigCell(st, args[1])
		return set(z, x)
	case "Add", "Sub", "Mul":
		z, _ := it.bigCell(st, args[0])
		_, x := it.bigCell(st, args[1])
		_, y := it.bigCell(st, args[2])
		switch fn.Name() {
		case "Add":
			return set(z, x.Add(y))
		case "Sub":
			return set(z, x.Sub(y))
		}
		return set(z, c.Mul(x, y))
	case "Neg":
		z, _ := it.bigCell(st, args[0])
		_, x := it.bigCell(st, args[1])
		return set(z, x.Neg())
	case "Mod":
		z, _ := it.bigCell(st, args[0])
		_, x := it.bigCell(st, args[1])
		_, m := it.bigCell(st, args[2])
		k, ok := m.IsConst()
		if !ok {
			panic(undecided("big.Int.Mod with a variable modulus"))
		}
		it.oblige("division", in, k.Sign() != 0, "modulus zero")
		if I, ok := c.tryBound(x); ok && I.lo.Sign() >= 0 && I.hi.Cmp(k) < 0 {
			return set(z, x)
		}
		for _, f := range []*Field{Fp, Fl} {
			if k.Cmp(f.mod) == 0 {
				return set(z, c.canon(f, c.toField(f, x)))
			}
		}
		if k.Sign() > 0 && new(big.Int).And(k, new(big.Int).Sub(k, bigOne)).Sign() == 0 {
			sh := uint(k.BitLen() - 1)
			return set(z, x.Sub(c.floorPoly(x, sh, nil).Scale(k)))
		}
		return set(z, c.opSym("mod"+k.String(), []*Poly{x}, iv(bigZero, new(big.Int).Sub(new(big.Int).Abs(k), bigOne))))
	case "Bytes":
		_, x := it.bigCell(st, args[0])
		I, ok := c.tryBound(x)
		if !ok || I.lo.Sign() < 0 || I.hi.BitLen() > 512 {
			panic(undecided("big.Int.Bytes of an unbounded value"))
		}
		max := (I.hi.BitLen() + 7) / 8
		var outs []outcome
		for L := 0; L <= max; L++ {
			s2 := st.fork()
			good := true
			for k := L; k < max; k++ {
				fl := c.floorPoly(x, uint(8*k), nil)
				if !it.limit(s2, fl, iv64(0, 0)) {
					good = false
					break
				}
			}
			if good && L > 0 {
				top := it.norm(s2, IntV{c.floorPoly(x, uint(8*(L-1)), nil), iv(bigZero, I.hi)})
				if it.bnd(s2, top).hi.Sign() <= 0 {
					good = false
				}
			}
			if !good {
				continue
			}
			s2.facts.atoms = append(s2.facts.atoms, fact{c.opSym("byteLen", []*Poly{x}, iv64(0, int64(max))), int64(L)})
			s2.tag += fmt.Sprintf("len%d;", L)
			o := it.newObj(s2, "big.Int.Bytes", types.Typ[types.Uint8], L)
			for i := 0; i < L; i++ {
				d := it.digit(x, uint(L-1-i))
				it.store1(s2, o, i, IntV{d, iv64(0, 255)})
			}
			n := constInt(int64(L))
			outs = append(outs, outcome{SliceV{o, 0, n, n, types.Typ[types.Uint8]}, s2})
		}
		return outs
	case "FillBytes":
		_, x := it.bigCell(st, args[0])
		s, _ := it.bytesOf(st, args[1])
		n, ok := it.sliceKnown(st, s)
		I, ok2 := c.tryBound(x)
		if !ok || !ok2 || I.lo.Sign() < 0 {
			panic(undecided("big.Int.FillBytes"))
		}
		good := I.hi.BitLen() <= 8*n
		it.oblige("slice length", in, good, "FillBytes buffer too small")
		if !good {
			return nil
		}
		for i := 0; i < n; i++ {
			it.store1(st, s.obj, s.off+i, IntV{it.digit(x, uint(n-1-i)), iv64(0, 255)})
		}
		return one(s, st)
	case "String", "Text":
		_, x := it.bigCell(st, args[0])
		return one(StrV{tag: "dec(" + polyKeys([]*Poly{x}) + ")"}, st)
	case "Sign":
		_, x := it.bigCell(st, args[0])
		if I, ok := c.tryBound(x); ok && I.lo.Sign() >= 0 {
			return one(it.mkBool(intPoly(1).Sub(c.izInt(x))), st)
		}
	case "Cmp":
		_, x := it.bigCell(st, args[0])
		_, y := it.bigCell(st, args[1])
		d := x.Sub(y)
		if I, ok := c.tryBound(d); ok {
			lt := it.lessZero(st, IntV{d, I}).P
			gt := it.lessZero(st, IntV{d.Neg(), ivNeg(I)}).P
			return one(IntV{gt.Sub(lt), iv64(-1, 1)}, st)
		}
	}
	panic(undecided("call of %s", fn.String()))
}
