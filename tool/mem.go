package main

// Values, memory and states of the abstract interpreter.

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

type Val interface{}

// IntV is an integer (or boolean) value: an exact polynomial and an interval.
type IntV struct {
	P *Poly
	I Interval
}

// PtrV points at a flat cell of an object (obj nil: nil pointer).
type PtrV struct {
	obj *Object
	off int
}

type SliceV struct {
	obj  *Object
	off  int
	n    IntV // length
	cap  IntV
	elem types.Type
}

// AggV is a struct or array value.
type AggV struct {
	t     types.Type
	cells []Val
}
type TupV []Val
type FnV struct {
	fn   *ssaFunc
	free []Val
}

// IfaceV is an interface value; nilP is the 0/1 polynomial [value is nil].
type IfaceV struct {
	nilP *Poly
	tag  string
	dyn  Val
}

// StrV is a string: constant, or the bytes of an object.
type StrV struct {
	known bool
	s     string
	sl    *SliceV
	tag   string
}

// BigV is the content of a math/big.Int.
type BigV struct{ P *Poly }

// BotV is a value on which joined paths disagree.
type BotV struct{ why string }

// OpqV is an opaque library value (encodings, readers ...).
type OpqV struct{ tag string }

type Object struct {
	id     int
	name   string
	typ    types.Type
	n      int
	global bool
	ro     bool // snapshot of selected storage
	src    *Object
	srcVer int
	sym    bool // symbolic length: cells are created on demand
	lenP   *Poly
	formal int  // index+1 of the formal region
	zero   bool // symbolic length, all zero
	sel    *selInfo
}

type cellBlock struct {
	cells []Val
	ver   int
	gen   *genCells // contents of an object of symbolic length
}

// genCells: cell i is the i-th byte of op(args).
type genCells struct {
	op   string
	args []*Poly
}

type Facts struct {
	atoms []fact
	sub   map[Sym]*Poly
	roots map[string][]int64 // allowed values per one-hot root
	lim   map[string]Interval
}

type fact struct {
	p *Poly
	v int64
}

func (f *Facts) clone() *Facts {
	g := &Facts{atoms: append([]fact(nil), f.atoms...), sub: map[Sym]*Poly{}, roots: map[string][]int64{}, lim: map[string]Interval{}}
	for k, v := range f.sub {
		g.sub[k] = v
	}
	for k, v := range f.roots {
		g.roots[k] = v
	}
	for k, v := range f.lim {
		g.lim[k] = v
	}
	return g
}

type State struct {
	mem   map[*Object]*cellBlock
	own   map[*Object]bool
	facts *Facts
	tag   string // states with different tags are not joined inside a function
}

func newState() *State {
	return &State{mem: map[*Object]*cellBlock{}, own: map[*Object]bool{}, facts: &Facts{sub: map[Sym]*Poly{}, roots: map[string][]int64{}, lim: map[string]Interval{}}}
}

func (s *State) fork() *State {
	t := &State{mem: make(map[*Object]*cellBlock, len(s.mem)), own: map[*Object]bool{}, facts: s.facts.clone(), tag: s.tag}
	for k, v := range s.mem {
		t.mem[k] = v
	}
	s.own = map[*Object]bool{}
	return t
}

func (it *Interp) block(st *State, o *Object) *cellBlock {
	if b, ok := st.mem[o]; ok {
		return b
	}
	if b, ok := it.global.mem[o]; ok {
		return b
	}
	panic(undecided("object %s has no storage here", o.name))
}

func (it *Interp) load1(st *State, o *Object, i int) Val {
	if o.src != nil {
		if it.block(st, o.src).ver != o.srcVer {
			panic(undecided("selected element of %s is used after the array changed", o.src.name))
		}
	}
	b := it.block(st, o)
	if o.sym {
		for len(b.cells) <= i {
			b.cells = append(b.cells, nil)
		}
		if b.cells[i] == nil && b.gen != nil {
			b.cells[i] = IntV{it.c.opSym(fmt.Sprintf("%s[%d]", b.gen.op, i), b.gen.args, iv64(0, 255)), iv64(0, 255)}
		}
		if b.cells[i] == nil && o.zero {
			b.cells[i] = constInt(0)
		}
		if b.cells[i] == nil {
			s := it.c.input(fmt.Sprintf("%s[%d]", o.name, i), iv64(0, 255))
			b.cells[i] = IntV{symPoly(s), iv64(0, 255)}
		}
		return b.cells[i]
	}
	if i < 0 || i >= len(b.cells) {
		panic(undecided("access outside object %s", o.name))
	}
	return b.cells[i]
}

func (it *Interp) store1(st *State, o *Object, i int, v Val) {
	if o.ro {
		panic(undecided("write through a selected element of an array"))
	}
	if o.global && !it.initing {
		panic(undecided("write to package-level variable %s", o.name))
	}
	b := it.block(st, o)
	if !st.own[o] {
		nb := &cellBlock{cells: append([]Val(nil), b.cells...), ver: b.ver, gen: b.gen}
		st.mem[o] = nb
		st.own[o] = true
		b = nb
	}
	if o.sym {
		for len(b.cells) <= i {
			b.cells = append(b.cells, nil)
		}
	}
	if i < 0 || i >= len(b.cells) {
		panic(undecided("write outside object %s", o.name))
	}
	it.vers++
	b.ver = it.vers
	b.cells[i] = v
}

func (it *Interp) newObj(st *State, name string, t types.Type, n int) *Object {
	it.nobj++
	o := &Object{id: it.nobj, name: name, typ: t, n: n}
	b := &cellBlock{}
	b.cells = zeroCells(t, n)
	st.mem[o] = b
	st.own[o] = true
	return o
}

// ---- types ------------------------------------------------------------------------

func isBigInt(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "math/big" && n.Obj().Name() == "Int"
}

func flatSize(t types.Type) int {
	if isBigInt(t) {
		return 1
	}
	switch u := t.Underlying().(type) {
	case *types.Array:
		return int(u.Len()) * flatSize(u.Elem())
	case *types.Struct:
		n := 0
		for i := 0; i < u.NumFields(); i++ {
			n += flatSize(u.Field(i).Type())
		}
		return n
	}
	return 1
}

func fieldOff(s *types.Struct, i int) int {
	n := 0
	for j := 0; j < i; j++ {
		n += flatSize(s.Field(j).Type())
	}
	return n
}

func zeroCells(t types.Type, n int) []Val {
	var out []Val
	var rec func(t types.Type)
	rec = func(t types.Type) {
		if isBigInt(t) {
			out = append(out, BigV{intPoly(0)})
			return
		}
		switch u := t.Underlying().(type) {
		case *types.Array:
			for i := int64(0); i < u.Len(); i++ {
				rec(u.Elem())
			}
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				rec(u.Field(i).Type())
			}
		case *types.Basic:
			if u.Info()&types.IsString != 0 {
				out = append(out, StrV{known: true})
			} else {
				out = append(out, constInt(0))
			}
		case *types.Pointer:
			out = append(out, PtrV{})
		case *types.Slice:
			out = append(out, SliceV{n: constInt(0), cap: constInt(0), elem: u.Elem()})
		case *types.Interface:
			out = append(out, IfaceV{nilP: intPoly(1)})
		default:
			out = append(out, BotV{"zero of " + t.String()})
		}
	}
	for len(out) < n {
		rec(t)
		if flatSize(t) == 0 {
			break
		}
	}
	return out
}

func constInt(v int64) IntV { return IntV{intPoly(v), iv64(v, v)} }
func constBig(v *big.Int) IntV {
	return IntV{constPoly(v), ivPoint(v)}
}

func (v IntV) konst() (*big.Int, bool) { return v.P.IsConst() }
func (v IntV) isInt(k int64) bool      { return v.P.isInt(k) }

// intType returns width and signedness.
func intType(t types.Type) (w uint, signed, ok bool) {
	b, is := t.Underlying().(*types.Basic)
	if !is {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt, types.UntypedRune:
		return 64, true, true
	case types.Int32:
		return 32, true, true
	case types.Int16:
		return 16, true, true
	case types.Int8:
		return 8, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint8:
		return 8, false, true
	case types.Bool, types.UntypedBool:
		return 1, false, true
	}
	return 0, false, false
}

func typeRange(t types.Type) Interval {
	w, s, _ := intType(t)
	if s {
		return iv(new(big.Int).Neg(pow2(w-1)), new(big.Int).Sub(pow2(w-1), bigOne))
	}
	return iv(bigZero, new(big.Int).Sub(pow2(w), bigOne))
}

// ---- value equality and joins ------------------------------------------------------

func valKey(v Val) string {
	switch v := v.(type) {
	case IntV:
		return "i" + v.P.Key()
	case PtrV:
		if v.obj == nil {
			return "nil"
		}
		return fmt.Sprintf("p%d+%d", v.obj.id, v.off)
	case SliceV:
		if v.obj == nil {
			return "s-nil"
		}
		return fmt.Sprintf("s%d+%d:%s:%s", v.obj.id, v.off, v.n.P.Key(), v.cap.P.Key())
	case AggV:
		var sb strings.Builder
		sb.WriteString("a(")
		for _, x := range v.cells {
			sb.WriteString(valKey(x))
			sb.WriteByte(',')
		}
		return sb.String() + ")"
	case TupV:
		return valKey(AggV{cells: v})
	case FnV:
		return fmt.Sprintf("f%p", v.fn)
	case IfaceV:
		return "if" + v.nilP.Key() + v.tag + valKey(v.dyn)
	case StrV:
		k := fmt.Sprintf("str%v:%s:%s", v.known, v.s, v.tag)
		if v.sl != nil {
			k += valKey(*v.sl)
		}
		return k
	case BigV:
		return "B" + v.P.Key()
	case BotV:
		return "bot"
	case OpqV:
		return "o" + v.tag
	case nil:
		return "-"
	}
	return fmt.Sprintf("?%T", v)
}

func sameVal(a, b Val) bool {
	if x, ok := a.(IntV); ok {
		if y, ok := b.(IntV); ok {
			return x.P.Equal(y.P)
		}
		return false
	}
	return valKey(a) == valKey(b)
}

// under rewrites p with the facts.
func (it *Interp) under(f *Facts, p *Poly) *Poly {
	if len(f.sub) == 0 && len(f.roots) == 0 {
		return p
	}
	look := func(x Sym) *Poly {
		if v, ok := f.sub[x]; ok {
			return v
		}
		si := it.c.syms[x]
		if si.kind != kInd {
			return nil
		}
		vals, ok := f.roots[si.oh.key]
		if !ok {
			return nil
		}
		for _, v := range vals {
			if v == si.v {
				if len(vals) == 1 {
					return intPoly(1)
				}
				return nil
			}
		}
		return intPoly(0)
	}
	r := p
	for i := 0; i < 64; i++ {
		sub := it.c.newSubst(nil)
		sub.look = look
		q, ch := sub.apply2(r)
		if !ch || q.Equal(r) {
			break
		}
		r = q
	}
	return r
}

type joiner struct {
	it     *Interp
	fa, fb *Facts
	gate   *Poly // [state A] if known
	memo   map[string]Val
}

func (it *Interp) newJoiner(a, b *Facts) *joiner {
	j := &joiner{it: it, fa: a, fb: b, memo: map[string]Val{}}
	i := 0
	for i < len(a.atoms) && i < len(b.atoms) && a.atoms[i].v == b.atoms[i].v && a.atoms[i].p.Equal(b.atoms[i].p) {
		i++
	}
	if i < len(a.atoms) && i < len(b.atoms) {
		x, y := a.atoms[i], b.atoms[i]
		if I, ok := it.c.tryBound(x.p); ok && I.within(iv64(0, 1)) && x.p.Equal(y.p) && x.v != y.v {
			if x.v == 1 {
				j.gate = x.p
			} else {
				j.gate = intPoly(1).Sub(x.p)
			}
		}
	}
	return j
}

func (j *joiner) facts() *Facts {
	r := &Facts{sub: map[Sym]*Poly{}, roots: map[string][]int64{}, lim: map[string]Interval{}}
	for i := range j.fa.atoms {
		if i < len(j.fb.atoms) && j.fa.atoms[i].v == j.fb.atoms[i].v && j.fa.atoms[i].p.Equal(j.fb.atoms[i].p) {
			r.atoms = append(r.atoms, j.fa.atoms[i])
		} else {
			break
		}
	}
	for s, p := range j.fa.sub {
		if q, ok := j.fb.sub[s]; ok && q.Equal(p) {
			r.sub[s] = p
		}
	}
	for k, v := range j.fa.roots {
		if w, ok := j.fb.roots[k]; ok {
			u := map[int64]bool{}
			for _, x := range v {
				u[x] = true
			}
			for _, x := range w {
				u[x] = true
			}
			var l []int64
			for x := range u {
				l = append(l, x)
			}
			sort.Slice(l, func(a, b int) bool { return l[a] < l[b] })
			r.roots[k] = l
		}
	}
	for k, v := range j.fa.lim {
		if w, ok := j.fb.lim[k]; ok {
			r.lim[k] = ivHull(v, w)
		}
	}
	return r
}

// intJoin: nil if no common description is found.
func (j *joiner) poly(a, b *Poly) *Poly {
	if a.Equal(b) {
		return a
	}
	it := j.it
	if d := a.Sub(b); it.under(j.fb, d).IsZero() {
		return a
	} else if it.under(j.fa, d).IsZero() {
		return b
	}
	if d := it.elim(a.Sub(b)); it.elim(it.under(j.fb, d)).IsZero() {
		return a
	} else if it.elim(it.under(j.fa, d)).IsZero() {
		return b
	}
	if u := it.elim(it.under(j.fa, it.elim(a))); u.Equal(it.elim(it.under(j.fb, it.elim(b)))) {
		return u
	}
	for _, first := range []bool{true, false} {
		if x := j.meet(it.elim(a.Sub(b)), first); x != nil {
			return it.elim(a).Sub(x)
		}
	}
	if j.gate != nil {
		return it.c.Mul(j.gate, a.Sub(b)).Add(b)
	}
	return nil
}

// meet reduces a linear difference d by the equations of both states; when it vanishes,
// the multiples of the equations of the first state that were used are returned.
func (j *joiner) meet(d *Poly, first bool) *Poly {
	if !d.linear() {
		return nil
	}
	acc := newPoly()
	for n := 0; n < 1000; n++ {
		if d.IsZero() {
			return acc
		}
		hit := false
		for _, s := range sortedSyms(d.Syms()) {
			ra, ina := j.fa.sub[s]
			rb, inb := j.fb.sub[s]
			if ina && !ra.linear() {
				ina = false
			}
			if inb && !rb.linear() {
				inb = false
			}
			if !ina && !inb {
				continue
			}
			hit = true
			co := d.linearCoef(s)
			if ina && (first || !inb) {
				e := symPoly(s).Sub(ra).Scale(co)
				d = j.it.round(d.Sub(e))
				acc = acc.Add(e)
			} else {
				d = j.it.round(d.Sub(symPoly(s).Sub(rb).Scale(co)))
			}
			break
		}
		if !hit {
			break
		}
	}
	k, isC := d.IsConst()
	if !isC {
		return nil
	}
	// a symbol with different constants in the two states
	var both []Sym
	for s := range j.fa.sub {
		if _, ok := j.fb.sub[s]; ok {
			both = append(both, s)
		}
	}
	sort.Slice(both, func(a, b int) bool { return both[a] < both[b] })
	for _, s := range both {
		ra, ok := j.fa.sub[s].IsConst()
		rb, ok2 := j.fb.sub[s].IsConst()
		if !ok || !ok2 || ra.Cmp(rb) == 0 {
			continue
		}
		q, r := new(big.Int).QuoRem(k, new(big.Int).Sub(rb, ra), new(big.Int))
		if r.Sign() == 0 {
			return acc.Add(symPoly(s).Sub(constPoly(ra)).Scale(q))
		}
	}
	return nil
}

func (j *joiner) val(a, b Val) Val {
	if sameVal(a, b) {
		return a
	}
	switch x := a.(type) {
	case IntV:
		y, ok := b.(IntV)
		if !ok {
			return BotV{"join"}
		}
		if p := j.poly(x.P, y.P); p != nil {
			return IntV{p, ivHull(x.I, y.I)}
		}
		return BotV{"join of integers"}
	case AggV:
		y, ok := b.(AggV)
		if !ok || len(y.cells) != len(x.cells) {
			return BotV{"join"}
		}
		r := AggV{t: x.t}
		for i := range x.cells {
			r.cells = append(r.cells, j.val(x.cells[i], y.cells[i]))
		}
		return r
	case TupV:
		y, ok := b.(TupV)
		if !ok || len(y) != len(x) {
			return BotV{"join"}
		}
		r := TupV{}
		for i := range x {
			r = append(r, j.val(x[i], y[i]))
		}
		return r
	case IfaceV:
		y, ok := b.(IfaceV)
		if !ok {
			return BotV{"join"}
		}
		p := j.poly(x.nilP, y.nilP)
		if p == nil {
			return BotV{"join of interfaces"}
		}
		return IfaceV{nilP: p, tag: x.tag + "|" + y.tag}
	case BigV:
		if y, ok := b.(BigV); ok {
			if p := j.poly(x.P, y.P); p != nil {
				return BigV{p}
			}
		}
	case PtrV:
		if y, ok := b.(PtrV); ok && j.gate != nil {
			if debugging {
				dbg("PTRJOIN %s+%d %s+%d", x.obj.name, x.off, y.obj.name, y.off)
			}
			return PtrJoin{gate: j.gate, a: x, b: y}
		}
	case SliceV:
		if y, ok := b.(SliceV); ok && (x.obj == nil || y.obj == nil) && j.gate != nil {
			return SliceJoin{gate: j.gate, a: x, b: y}
		}
	}
	return BotV{fmt.Sprintf("join of %T and %T", a, b)}
}

// PtrJoin is one of two pointers.
type PtrJoin struct {
	gate *Poly
	a, b PtrV
}
type SliceJoin struct {
	gate *Poly
	a, b SliceV
}

func (it *Interp) joinStates(a, b *State) (*State, *joiner) {
	j := it.newJoiner(a.facts, b.facts)
	r := &State{mem: map[*Object]*cellBlock{}, own: map[*Object]bool{}}
	if a.tag == b.tag {
		r.tag = a.tag
	}
	for o, ba := range a.mem {
		bb, ok := b.mem[o]
		if !ok {
			// allocated on one path only
			r.mem[o] = ba
			continue
		}
		if ba == bb {
			r.mem[o] = ba
			continue
		}
		it.vers++
		nb := &cellBlock{cells: make([]Val, len(ba.cells)), ver: it.vers}
		same := true
		if len(ba.cells) != len(bb.cells) { // lazily created symbolic cells
			if len(bb.cells) > len(ba.cells) {
				r.mem[o] = bb
			} else {
				r.mem[o] = ba
			}
			continue
		}
		var bad []int
		digits := isDigits(o.typ)
		for i := range ba.cells {
			if ba.cells[i] == nil {
				nb.cells[i] = bb.cells[i]
				continue
			}
			if bb.cells[i] == nil {
				nb.cells[i] = ba.cells[i]
				continue
			}
			if sameVal(ba.cells[i], bb.cells[i]) {
				nb.cells[i] = ba.cells[i]
				continue
			}
			same = false
			if digits {
				nb.cells[i] = BotV{"join of digits"}
				bad = append(bad, i)
				continue
			}
			v := j.val(ba.cells[i], bb.cells[i])
			nb.cells[i] = v
			if _, bot := v.(BotV); bot {
				bad = append(bad, i)
			}
		}
		if !same && it.points {
			it.joinPoints(o, ba, bb, nb, j)
			var still []int
			for _, i := range bad {
				if _, bot := nb.cells[i].(BotV); bot {
					still = append(still, i)
				}
			}
			bad = still
		}
		if len(bad) > 0 && !it.joinArray(o, ba, bb, nb, j) && digits {
			for _, i := range bad {
				nb.cells[i] = j.val(ba.cells[i], bb.cells[i])
			}
		}
		if !same && it.havoc {
			it.joinHavoc(o, ba, bb, nb)
		}
		if same {
			nb.ver = ba.ver
		}
		r.mem[o] = nb
	}
	for o, bb := range b.mem {
		if _, ok := a.mem[o]; !ok {
			r.mem[o] = bb
		}
	}
	r.facts = j.facts()
	return r, j
}

// joinArray joins an integer array through the value of its weighted sum.
// isDigits: an array of signed bytes, such as holds a signed-digit expansion.
func isDigits(t types.Type) bool {
	a, ok := t.Underlying().(*types.Array)
	if !ok || a.Len() < 16 {
		return false
	}
	w, signed, ok := intType(a.Elem())
	return ok && signed && w == 8
}

func (it *Interp) joinArray(o *Object, ba, bb, nb *cellBlock, j *joiner) bool {
	c := it.c
	var idx []int
	for i := range ba.cells {
		x, ok := ba.cells[i].(IntV)
		y, ok2 := bb.cells[i].(IntV)
		if !ok || !ok2 {
			return false
		}
		if !x.P.Equal(y.P) {
			idx = append(idx, i)
		} else {
			nb.cells[i] = ba.cells[i]
		}
	}
	for _, radix := range []uint{1, 8, 4, 5, 32} {
		sa, sb := newPoly(), newPoly()
		for _, i := range idx {
			w := pow2(radix * uint(i))
			sa = sa.Add(ba.cells[i].(IntV).P.Scale(w))
			sb = sb.Add(bb.cells[i].(IntV).P.Scale(w))
		}
		sa, sb = it.elim(sa), it.elim(sb)
		g := j.gate
		j.gate = nil
		V := j.poly(sa, sb)
		j.gate = g
		if V == nil {
			continue
		}
		grp := &Group{name: fmt.Sprintf("join#%d", len(c.groups)), V: V}
		for k, i := range idx {
			x, y := ba.cells[i].(IntV), bb.cells[i].(IntV)
			si := &symInfo{kind: kLimb, grp: grp, idx: k, I: ivHull(x.I, y.I)}
			va, ok := it.valueSet(x.P, it.bnd(&State{facts: j.fa}, x), j.fa)
			vb, ok2 := it.valueSet(y.P, it.bnd(&State{facts: j.fb}, y), j.fb)
			if ok && ok2 && len(va)+len(vb) > 0 {
				si.vals = unionVals(va, vb)
				si.I = iv64(si.vals[0], si.vals[len(si.vals)-1])
			}
			s := c.newSym(si)
			grp.w = append(grp.w, radix*uint(i))
			grp.limbs = append(grp.limbs, s)
			nb.cells[i] = IntV{symPoly(s), si.I}
		}
		c.groups = append(c.groups, grp)
		return true
	}
	if debugging {
		sa, sb := newPoly(), newPoly()
		for _, i := range idx {
			w := pow2(uint(i))
			sa = sa.Add(ba.cells[i].(IntV).P.Scale(w))
			sb = sb.Add(bb.cells[i].(IntV).P.Scale(w))
		}
		d := it.elim(sa.Sub(sb))
		dbg("JOINARRAY %s %v\n %s\n%s\n%s", o.name, idx, c.str(d), c.str(it.under(j.fa, d)), c.str(it.under(j.fb, d)))
		for _, f := range []*Facts{j.fa, j.fb} {
			for _, a := range f.atoms {
				dbg("  atom %s = %d", c.str(a.p), a.v)
			}
			for s, p := range f.sub {
				dbg("  sub %s = %s", c.str(symPoly(s)), c.str(p))
			}
			for r, v := range f.roots {
				dbg("  root %s = %v", r, v)
			}
		}
	}
	return false
}

func unionVals(a, b []int64) []int64 {
	m := map[int64]bool{}
	for _, x := range a {
		m[x] = true
	}
	for _, x := range b {
		m[x] = true
	}
	var r []int64
	for x := range m {
		r = append(r, x)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

// valueSet enumerates the values of p (few 0/1 atoms, or a limb with known values).
func (it *Interp) valueSet(p *Poly, I Interval, f *Facts) ([]int64, bool) {
	p = it.round(it.under(f, it.round(p)))
	if v, ok := p.IsConst(); ok {
		if !v.IsInt64() {
			return nil, false
		}
		return []int64{v.Int64()}, true
	}
	syms := sortedSyms(p.Syms())
	if len(syms) == 1 && len(p.terms) == 1 && p.linearCoef(syms[0]).Cmp(bigOne) == 0 && it.c.syms[syms[0]].vals != nil {
		return it.c.syms[syms[0]].vals, true
	}
	bools := len(syms) <= 8
	for _, s := range syms {
		if !it.c.syms[s].isBool {
			bools = false
		}
	}
	if !bools && I.lo != nil {
		// a residue class within the bounds
		g := new(big.Int)
		for k, co := range p.terms {
			if k != "" {
				g.GCD(nil, nil, g, new(big.Int).Abs(co))
			}
		}
		if w := new(big.Int).Sub(I.hi, I.lo); w.IsInt64() && w.Int64() <= 64 && I.lo.IsInt64() && I.hi.IsInt64() && g.Sign() != 0 {
			var r []int64
			for x := I.lo.Int64(); x <= I.hi.Int64(); x++ {
				d := new(big.Int).Sub(big.NewInt(x), p.Const())
				if d.Mod(d, g).Sign() == 0 {
					r = append(r, x)
				}
			}
			return r, true // (empty: the state is impossible)
		}
		return nil, false
	}
	if len(syms) > 8 {
		return nil, false
	}
	for _, s := range syms {
		if !it.c.syms[s].isBool {
			return nil, false
		}
	}
	s := syms[0]
	a, ok := it.valueSet(it.c.cofactor(p, s, 0), Interval{}, f)
	if !ok {
		return nil, false
	}
	b, ok := it.valueSet(it.c.cofactor(p, s, 1), Interval{}, f)
	if !ok {
		return nil, false
	}
	return unionVals(a, b), true
}

// round rewrites floor((m + 2^(k-1)) / 2^k) as floor(m / 2^(k-1)) - floor(m / 2^k).
func (it *Interp) round(p *Poly) *Poly {
	c := it.c
	for n := 0; n < 600; n++ {
		m := map[Sym]*Poly{}
		for s := range p.Syms() {
			si := c.syms[s]
			if si.kind != kFloor || si.k == 0 {
				continue
			}
			r, ok := c.rounds[s]
			if !ok {
				h := pow2(si.k - 1)
				if new(big.Int).Mod(si.m.Const(), pow2(si.k)).Cmp(h) == 0 {
					q := si.m.Sub(constPoly(h))
					if _, isC := q.IsConst(); !isC {
						r = c.floorPoly(q, si.k-1, nil).Sub(c.floorPoly(q, si.k, nil))
					}
				}
				if c.rounds == nil {
					c.rounds = map[Sym]*Poly{}
				}
				c.rounds[s] = r
			}
			if r != nil && !r.Has(s) {
				m[s] = r
			}
		}
		if len(m) == 0 {
			break
		}
		p = c.Subst(p, m)
	}
	return p
}

// elim replaces the first limb of joined arrays by the known sum.
func (it *Interp) elim(p *Poly) *Poly {
	c := it.c
	p = it.round(p)
	for n := 0; n < 4000; n++ {
		m := map[Sym]*Poly{}
		for s := range p.Syms() {
			si := c.syms[s]
			if si.kind == kLimb && si.grp.fld == nil && si.idx == 0 {
				co := pow2(si.grp.w[0])
				full := p.linearCoef(s)
				if new(big.Int).Mod(full, co).Sign() != 0 {
					continue
				}
				// scale: p = (full/co) * (V - rest)
				rest := si.grp.sum().Sub(symPoly(s).Scale(co))
				q := new(big.Int).Div(full, co)
				p = p.Sub(symPoly(s).Scale(full)).Add(si.grp.V.Sub(rest).Scale(q))
				m[s] = nil
				break
			}
		}
		if len(m) == 0 {
			return p
		}
	}
	return p
}
