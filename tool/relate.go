package main

// C12, C16, C19: relations between two operations.  The first is interpreted,
// the second from each of its final states, and the results are compared.

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

const ruleC16 = "abstract interpretation with a random source that may fail: exactly the specified number of fresh bytes is read on every returning path, an error of the source never reaches a return, and the result is that of the deterministic constructor applied to those bytes"

func init() {
	checks["C16"] = checkFn{rule: ruleC16, run: runC16, floor: map[string]int{"methods": 4, "random reads": 4, "values compared": 10},
		assume: []string{"crypto/rand.Read fills the buffer exactly when it reports no error", "the deterministic constructors are those of C08 and C11"}}
}

func runC16(e *Env, rep *Report) {
	for _, p := range e.configs {
		for _, k := range []struct {
			typ, det string
			n        int
		}{{"Scalar", "SetReduced", 64}, {"Point", "SetElligator", 32}} {
			b := newBench(p, rep, ruleC16)
			b.it.naming = true
			b.guard(k.typ+".Rand", func() {
				fn := b.method(p.rist, k.typ, "Rand")
				det := p.method(p.rist, k.typ, k.det)
				rep.count("methods", 1)
				it := b.it
				st := newState()
				t := p.rist.Type(k.typ).Type()
				r1 := b.blank(st, "r1", t)
				r2 := b.blank(st, "r2", t)
				first := len(it.panics)
				outs := it.callFn(fn, []Val{r1}, nil, st, nil)
				for _, pr := range it.panics[first:] {
					if !it.failed(pr.facts) {
						b.fail("panics at %s although the random source reported no error", pr.pos)
					}
				}
				if len(outs) == 0 {
					b.fail("never returns")
				}
				if len(it.randLog) != 1 {
					b.fail("reads the random source %d times", len(it.randLog))
					return
				}
				rd := it.randLog[0]
				rep.count("random reads", 1)
				if rd.n != int64(k.n) {
					b.fail("reads %d random bytes at %s, specified are %d", rd.n, rd.pos, k.n)
					return
				}
				if len(it.panics) == first {
					b.fail("does not panic when the random source fails")
				}
				for _, o := range outs {
					if v, ok := it.under(o.st.facts, symPoly(rd.err)).IsConst(); !ok || v.Sign() != 0 {
						b.fail("returns a value although the random source at %s may have failed", rd.pos)
						continue
					}
					b.retIs(o, r1)
					arr := types.NewArray(types.Typ[types.Uint8], int64(k.n))
					src := it.newObj(o.st, "bytes", arr, k.n)
					for i := 0; i < k.n; i++ {
						x := b.c.input(fmt.Sprintf("rand%d[%d]", rd.id, i), iv64(0, 255))
						it.store1(o.st, src, i, IntV{symPoly(x), iv64(0, 255)})
					}
					for _, o2 := range b.run(det, []Val{r2, PtrV{src, 0}}, o.st) {
						b.sameLeaves(o2.st, t, r1, r2, "the result is not "+k.det+" of the random bytes")
					}
				}
			})
		}
	}
}

// failed: an error of the random source is known.
func (it *Interp) failed(f *Facts) bool {
	for _, r := range it.randLog {
		if k, isC := it.under(f, symPoly(r.err)).IsConst(); isC && k.Sign() != 0 {
			return true
		}
	}
	return false
}

// blank allocates a receiver with unknown contents.
func (b *bench) blank(st *State, name string, t types.Type) PtrV {
	o := b.it.newObj(st, name, t, flatSize(t))
	for j := 0; j < o.n; j++ {
		b.it.store1(st, o, j, BotV{"uninitialised"})
	}
	return PtrV{o, 0}
}

// leaves lists the field elements or the scalar in a value.
func (b *bench) leaves(t types.Type) (leafKind, []int) {
	if sameType(t, b.p.scalarType()) {
		return leafSc, []int{0}
	}
	n := b.p.fe().n
	if flatSize(t)%n != 0 {
		panic(undecided("a value of type %s is not made of field elements", t))
	}
	var r []int
	for i := 0; i < flatSize(t); i += n {
		r = append(r, i)
	}
	return leafFE, r
}

// sameLeaves checks that two objects hold the same values.
func (b *bench) sameLeaves(st *State, t types.Type, x, y PtrV, what string) {
	k, offs := b.leaves(t)
	f, _ := b.field(k)
	for i, off := range offs {
		u, _, ok := b.value(st, k, PtrV{x.obj, x.off + off})
		v, _, ok2 := b.value(st, k, PtrV{y.obj, y.off + off})
		if !ok || !ok2 {
			b.fail("%s: the value of part %d does not close modulo %s", what, i, f.name)
			continue
		}
		if !b.sameValue(st, f, u, v) {
			b.fail("%s: part %d is %s and %s", what, i, b.c.str(u), b.c.str(v))
		}
		b.rep.count("values compared", 1)
	}
}

func (b *bench) sameValue(st *State, f *Field, u, v *Poly) bool {
	u = b.it.underF(st, f, u)
	v = b.it.underF(st, f, v)
	return b.c.feqX(f, u, v) || b.it.under(st.facts, b.c.canon(f, u.Sub(v))).IsZero()
}

// ---- C12 ----------------------------------------------------------------------------

const ruleC12 = "abstract interpretation of each method twice, with distinct variables of equal contents and with the variables shared in each possible pattern: the receivers and results end with equal values"

func init() {
	checks["C12"] = checkFn{rule: ruleC12, run: runC12, split: true, floor: map[string]int{"methods": 30, "aliasing patterns": 60, "values compared": 100},
		assume: []string{"operands are valid points and reduced scalars"}}
}

func runC12(e *Env, rep *Report) {
	for _, p := range []*Program{e.configs[1], e.configs[0]} {
		fns := append([]*ssa.Function{}, exported(p, p.rist)...)
		sort.SliceStable(fns, func(i, j int) bool { return weight(fns[i]) > weight(fns[j]) })
		for _, fn := range fns {
			if fn.Signature.Recv() == nil {
				continue
			}
			t := deref(fn.Params[0].Type())
			if _, ok := fn.Params[0].Type().Underlying().(*types.Pointer); !ok {
				continue
			}
			if !sameType(t, p.scalarType()) && structName(p, t) != "ExtendedPoint" {
				continue
			}
			var vars []int // parameters of the receiver's type
			for i, q := range fn.Params {
				if _, ok := q.Type().Underlying().(*types.Pointer); ok && types.Identical(deref(q.Type()), t) {
					vars = append(vars, i)
				}
			}
			if len(vars) < 2 {
				continue
			}
			parts := partitions(len(vars))
			b := newBench(p, rep, ruleC12)
			b.guard(shortName(fn), func() {
				b.pos = p.pos(fn.Pos())
				rep.count("methods", 1)
				for _, part := range parts {
					b.aliased(fn, t, vars, part)
				}
			})
		}
	}
}

// partitions of n variables with at least one shared block; part[i] is the block of i.
func partitions(n int) [][]int {
	var r [][]int
	part := make([]int, n)
	var rec func(i, blocks int)
	rec = func(i, blocks int) {
		if i == n {
			if blocks < n {
				r = append(r, append([]int{}, part...))
			}
			return
		}
		for k := 0; k <= blocks; k++ {
			part[i] = k
			nb := blocks
			if k == blocks {
				nb++
			}
			rec(i+1, nb)
		}
	}
	rec(0, 0)
	return r
}

func (b *bench) aliased(fn *ssa.Function, t types.Type, vars, part []int) {
	nb := 0
	for _, k := range part {
		if k+1 > nb {
			nb = k + 1
		}
	}
	isPt := structName(b.p, t) == "ExtendedPoint"
	mult := isPt
	if rs := fn.Signature.Results(); rs.Len() > 0 {
		if bt, ok := rs.At(0).Type().Underlying().(*types.Basic); ok && bt.Info()&(types.IsInteger|types.IsBoolean) != 0 {
			mult = false // a comparison
		}
	}
	x := b
	if mult {
		x = newPointBench(b.p, b.rep, b.rule)
		x.cur, x.pos = b.cur, b.pos
	}
	alts := make([]int, nb+len(fn.Params))
	for i := range alts {
		alts[i] = 1
		if i < nb && isPt {
			alts[i] = len(b.p.invariants()["ExtendedPoint"])
		} else if i >= nb {
			if bt, ok := fn.Params[i-nb].Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Int32 {
				alts[i] = 2
			}
		}
	}
	b.rep.count("aliasing patterns", 1)
	it := x.it
	names := ""
	for i, k := range part {
		names += fmt.Sprintf("%s=v%d ", fn.Params[vars[i]].Name(), k)
	}
	product(alts, func(alt []int) {
		st := newState()
		// the contents of the blocks
		shared := make([]PtrV, nb)
		for k := range shared {
			n := fmt.Sprintf("v%d", k)
			switch {
			case mult:
				shared[k], _ = x.newPoint(st, n, alt[k])
			case isPt:
				shared[k] = x.arbitrary(st, n, types.NewPointer(t), b.p.invariants(), alt[k]).(PtrV)
			default:
				shared[k], _ = x.newScalar(st, n)
			}
		}
		blockOf := map[int]int{}
		for i, v := range vars {
			blockOf[v] = part[i]
		}
		var d, a []Val
		for i, q := range fn.Params {
			if k, ok := blockOf[i]; ok {
				o := it.newObj(st, fmt.Sprintf("d%d", i), t, flatSize(t))
				for j, v := range x.snapshot(st, shared[k].obj) {
					it.store1(st, o, j, v)
				}
				d = append(d, PtrV{o, 0})
				a = append(a, shared[k])
				continue
			}
			v := x.arbitrary(st, fmt.Sprintf("a%d", i), q.Type(), b.p.invariants(), alt[nb+i])
			d = append(d, v)
			a = append(a, v)
		}
		for _, o := range x.run(fn, d, st) {
			for _, o2 := range x.run(fn, a, o.st) {
				r1, r2 := d[0].(PtrV), a[0].(PtrV)
				what := "with " + names
				if x.samePoint(o2.st, isPt, r1, r2) {
					b.rep.count("values compared", 1)
				} else {
					x.sameLeaves(o2.st, t, r1, r2, what)
				}
				if v, ok := o.ret.(IntV); ok {
					x.isInt(o2.st, o2.ret, v.P, what)
				} else if v, ok := o.ret.(PtrV); ok && v.obj == r1.obj {
					x.retIs(o2, r2)
				}
			}
		}
	})
}

// samePoint: both are recognised as the same combination of points.
func (b *bench) samePoint(st *State, isPt bool, p, q PtrV) bool {
	if !b.it.points || !isPt {
		return false
	}
	_, g := b.it.normalise(st, ptExt, p)
	_, h := b.it.normalise(st, ptExt, q)
	if g == nil || h == nil {
		return false
	}
	d := mergeCombo(g, h, func(x, y *Poly) *Poly {
		return b.it.elim(b.it.under(st.facts, x.Sub(y)))
	})
	delete(d.co, "T")
	return len(d.co) == 0
}

// ---- C19 ----------------------------------------------------------------------------

const ruleC19 = "abstract interpretation of the marshalling methods on slices of arbitrary length and contents: an error is returned exactly when the text or length is wrong or the bytes do not encode a value, and otherwise the receiver is that of SetBytes on the decoded bytes; marshalling yields the bytes of BytesInto, respectively their unpadded URL-safe base64 text"

func init() {
	checks["C19"] = checkFn{rule: ruleC19, run: runC19, floor: map[string]int{"methods": 16, "error results": 16, "byte strings compared": 8, "values compared": 10},
		assume: []string{"encoding/base64 and encoding/hex decode as documented and invert their encoders", "encoding and decoding of 32 bytes are those of C05, C06 and C11"}}
}

func runC19(e *Env, rep *Report) {
	for _, p := range e.configs {
		for _, typ := range []string{"Scalar", "Point"} {
			t := p.rist.Type(typ).Type()
			with := func(name string, f func(b *bench, fn *ssa.Function)) {
				b := newBench(p, rep, ruleC19)
				b.it.naming, b.it.codec, b.it.apart = true, true, true
				b.guard(typ+"."+name, func() {
					fn := b.method(p.rist, typ, name)
					rep.count("methods", 1)
					f(b, fn)
				})
			}
			for _, text := range []bool{false, true} {
				name := map[bool]string{false: "MarshalBinary", true: "MarshalText"}[text]
				with(name, func(b *bench, fn *ssa.Function) { b.marshals(fn, typ, t, text) })
			}
			with("UnmarshalBinary", func(b *bench, fn *ssa.Function) {
				st := newState()
				sl, _ := b.unknownSlice(st, "data")
				is32 := b.c.izInt(sl.n.P.Sub(intPoly(32)))
				b.unmarshals(fn, typ, t, st, sl, func(st *State) (*Poly, []*Poly) {
					if k, ok := b.it.under(st.facts, is32).IsConst(); ok && k.Sign() != 0 {
						return is32, b.sliceBytes(st, sl, 32)
					}
					return is32, nil
				})
			})
			with("UnmarshalText", func(b *bench, fn *ssa.Function) {
				decoded := func(st *State, a []*Poly, op, n string) (*Poly, []*Poly) {
					ok := b.it.boolOp(op+"ok"+n, a)
					if op == "hex" {
						var bs []*Poly
						for i := 0; i < 32; i++ {
							bs = append(bs, b.c.opSym(fmt.Sprintf("unhex[%d]", i), a, iv64(0, 255)))
						}
						return ok, bs
					}
					cnt := b.c.opSym("b64n"+n, a, iv64(0, 1<<62))
					var bs []*Poly
					for i := 0; i < 32; i++ {
						bs = append(bs, b.c.opSym(fmt.Sprintf("unb64%s[%d]", n, i), a, iv64(0, 255)))
					}
					return b.c.Mul(ok, b.c.izInt(cnt.Sub(intPoly(32)))), bs
				}
				// texts of 64 characters
				{
					st := newState()
					arr, _ := b.newBytes(st, "txt64", 64)
					sl := SliceV{arr.obj, 0, constInt(64), constInt(64), types.Typ[types.Uint8]}
					b.unmarshals(fn, typ, t, st, sl, func(st *State) (*Poly, []*Poly) {
						a := b.it.content(st, sl)
						if typ == "Point" {
							hok, hb := decoded(st, a, "hex", "")
							k, isC := b.it.under(st.facts, hok).IsConst()
							if !isC {
								return nil, nil
							}
							if k.Sign() != 0 {
								return hok, hb
							}
						}
						return decoded(st, a, "b64", "RawURLEncoding")
					})
				}
				// texts of any other length
				st := newState()
				sl, _ := b.unknownSlice(st, "txt")
				if !b.it.assume(st, b.c.izInt(sl.n.P.Sub(intPoly(64))), 0) {
					panic(undecided("length of the text"))
				}
				b.unmarshals(fn, typ, t, st, sl, func(st *State) (*Poly, []*Poly) {
					return decoded(st, b.it.content(st, sl), "b64", "RawURLEncoding")
				})
			})
		}
	}
}

// sliceBytes reads the first n bytes of a slice.
func (b *bench) sliceBytes(st *State, s SliceV, n int) []*Poly {
	var r []*Poly
	for i := 0; i < n; i++ {
		r = append(r, b.it.asInt(b.it.load1(st, s.obj, s.off+i)).P)
	}
	return r
}

// someValue allocates an arbitrary valid operand of type Scalar or Point.
func (b *bench) someValue(st *State, name, typ string, t types.Type) PtrV {
	if typ == "Scalar" {
		p, _ := b.newScalar(st, name)
		return p
	}
	return b.arbitrary(st, name, types.NewPointer(t), limbInv{"ExtendedPoint": {b.p.invariants().whole("ExtendedPoint")}}, 0).(PtrV)
}

func (b *bench) marshals(fn *ssa.Function, typ string, t types.Type, text bool) {
	it := b.it
	st := newState()
	x := b.someValue(st, "x", typ, t)
	buf := it.newObj(st, "buf", types.NewArray(types.Typ[types.Uint8], 32), 32)
	into := b.p.method(b.p.rist, typ, "BytesInto")
	for _, o := range b.run(into, []Val{x, PtrV{buf, 0}}, st) {
		want := b.cellsAt(o.st, buf, 0, 32)
		if text {
			var cs []*Poly
			for i := 0; i < 43; i++ {
				cs = append(cs, b.c.opSym(fmt.Sprintf("b64RawURLEncoding[%d]", i), want, iv64(0, 255)))
			}
			want = cs
		}
		for _, o2 := range b.run(fn, []Val{x}, o.st) {
			ret, ok := o2.ret.(TupV)
			if !ok || len(ret) != 2 {
				b.fail("results not understood")
				continue
			}
			if e, ok := ret[1].(IfaceV); !ok || !b.isOne(o2.st, e.nilP) {
				b.fail("may return an error")
			}
			b.rep.count("error results", 1)
			s, ok := ret[0].(SliceV)
			if !ok {
				b.fail("no byte slice is returned")
				continue
			}
			n, known := it.sliceKnown(o2.st, s)
			if !known || n != len(want) {
				b.fail("returns a slice of length %s, specified is %d", b.c.str(s.n.P), len(want))
				continue
			}
			for i, v := range b.sliceBytes(o2.st, s, n) {
				if !it.under(o2.st.facts, v).Equal(it.under(o2.st.facts, want[i])) {
					b.fail("byte %d of the result is %s, specified is %s", i, b.c.str(v), b.c.str(want[i]))
					break
				}
			}
			b.rep.count("byte strings compared", 1)
		}
	}
}

func (b *bench) isOne(st *State, p *Poly) bool {
	k, ok := b.it.under(st.facts, p).IsConst()
	return ok && k.Cmp(bigOne) == 0
}

// unmarshals compares with SetBytes; source gives, in a final state, the
// condition that the input is well formed and the bytes it stands for.
func (b *bench) unmarshals(fn *ssa.Function, typ string, t types.Type, st *State, sl SliceV, source func(*State) (*Poly, []*Poly)) {
	it := b.it
	r1 := b.someValue(st, "r1", typ, t)
	r2 := b.someValue(st, "r2", typ, t)
	set := b.p.method(b.p.rist, typ, "SetBytes")
	accepted, rejected := 0, 0
	for _, o := range b.run(fn, []Val{r1, sl}, st) {
		e, ok := o.ret.(IfaceV)
		if !ok {
			b.fail("no error result")
			continue
		}
		good, bytes := source(o.st)
		if good == nil {
			b.fail("which form the text has does not decide a path that returns")
			continue
		}
		k, isC := it.under(o.st.facts, good).IsConst()
		if !isC {
			b.fail("a path that returns does not depend on whether the input is well formed: %s", b.c.str(it.under(o.st.facts, good)))
			continue
		}
		b.rep.count("error results", 1)
		if k.Sign() == 0 {
			if n, isC := it.under(o.st.facts, e.nilP).IsConst(); !isC || n.Sign() != 0 {
				b.fail("no error for malformed input")
			}
			rejected++
			continue
		}
		src := it.newObj(o.st, "bytes", types.NewArray(types.Typ[types.Uint8], 32), 32)
		for i, x := range bytes {
			it.store1(o.st, src, i, IntV{x, iv64(0, 255)})
		}
		for _, o2 := range b.run(set, []Val{r2, PtrV{src, 0}}, o.st) {
			want := intPoly(1)
			if v, ok := o2.ret.(IntV); ok {
				want = v.P
			}
			b.isInt(o2.st, IntV{e.nilP, iv64(0, 1)}, want, "error is nil")
			if n, isC := it.under(o2.st.facts, want).IsConst(); isC && n.Sign() == 0 {
				rejected++
				continue
			}
			accepted++
			b.sameLeaves(o2.st, t, r1, r2, "the value set is not that of SetBytes on the decoded bytes")
		}
	}
	if accepted == 0 {
		b.fail("no well formed input is accepted")
	}
	b.rep.count("accepting paths", accepted)
	b.rep.count("rejecting paths", rejected)
}
