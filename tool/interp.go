package main

// Abstract interpreter over go/ssa.  It computes, for every function analysed,
// the values of memory and results as exact polynomials over the symbols of a
// Ctx together with sound intervals; states that reach the same program point
// are joined.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type ssaFunc = ssa.Function

type outcome struct {
	ret Val
	st  *State
}

type obligation struct {
	kind, pos, fn, detail string
	ok                    bool
}

type panicRec struct {
	fn    *ssa.Function
	pos   string
	facts *Facts
}

type Interp struct {
	c        *Ctx
	p        *Program
	global   *State
	initing  bool
	vers     int
	nobj     int
	gobj     map[*ssa.Global]*Object
	fi       map[*ssa.Function]*fnInfo
	stack    []*ssa.Function
	steps    int
	max      int
	obls     map[string]*obligation
	panics   []panicRec
	sums     map[string]*fnSummary
	noSum    bool
	points   bool
	havoc    bool // forget the values of field elements, keep the limb bounds
	nrand    int
	randLog  []randRead
	codec    bool          // encoding and decoding of points are not analysed but named
	apart    bool          // returns are not joined
	preim    *ssa.Function // preimages of points of the quartic are named
	quartics map[Sym]quarticArg
	inverse  bool // preimages of points are arbitrary
	maps     bool // the map to points is not analysed but named
	naming   bool // abbreviate the numbers in byte strings
	seen     map[*ssa.Function]bool
	nsum     int
	pts      map[string]ptSyms
	ptOf     map[Sym]*combo
	ptOff    map[types.Type][]ptAt
	feOff    map[types.Type][]int
	noPt     map[string]bool
	npts     int
	npRec    int
}

type randRead struct {
	fn  string
	pos string
	n   int64
	obj *Object
	off int
	id  int
	err Sym
}

func newInterp(p *Program) *Interp {
	it := &Interp{c: newCtx(), p: p, gobj: map[*ssa.Global]*Object{}, fi: map[*ssa.Function]*fnInfo{},
		obls: map[string]*obligation{}, sums: map[string]*fnSummary{}, max: 40_000_000, seen: map[*ssa.Function]bool{},
		pts: map[string]ptSyms{}, ptOf: map[Sym]*combo{}, ptOff: map[types.Type][]ptAt{}, noPt: map[string]bool{}, feOff: map[types.Type][]int{}}
	it.global = newState()
	it.initGlobals()
	return it
}

// initGlobals interprets the initialisers of the module's packages.
func (it *Interp) initGlobals() {
	it.initing = true
	st := it.global
	for _, pk := range []*ssa.Package{it.p.ed, it.p.rist} {
		var names []string
		for n := range pk.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			if g, ok := pk.Members[n].(*ssa.Global); ok {
				t := g.Type().(*types.Pointer).Elem()
				o := it.newObj(st, g.String(), t, flatSize(t))
				o.global = true
				it.gobj[g] = o
			}
		}
	}
	for _, pk := range []*ssa.Package{it.p.ed, it.p.rist} {
		fn := pk.Func("init")
		if fn == nil || fn.Blocks == nil {
			continue
		}
		outs := it.exec(fn, nil, nil, st)
		if len(outs) != 1 {
			panic(undecided("package initialisation of %s has several outcomes", pk.Pkg.Path()))
		}
		st = outs[0].st
	}
	// variables changed at run time have any value when an operation starts
	for g := range it.p.mutable() {
		o := it.gobj[g]
		if o == nil {
			continue
		}
		cells := it.block(st, o).cells
		for i := range cells {
			v := Val(BotV{"package variable " + g.Name() + " changes at run time"})
			if x, ok := cells[i].(IntV); ok {
				if t, ok := cellType(o.typ, i); ok {
					I := typeRange(t)
					v = IntV{symPoly(it.c.input(fmt.Sprintf("%s[%d]", g.Name(), i), I)), I}
				}
				_ = x
			}
			it.store1(st, o, i, v)
		}
	}
	it.global = st
	it.initing = false
}

// cellType is the type of the i-th cell of a flattened value.
func cellType(t types.Type, i int) (types.Type, bool) {
	switch u := t.Underlying().(type) {
	case *types.Array:
		n := flatSize(u.Elem())
		if n == 0 {
			return nil, false
		}
		return cellType(u.Elem(), i%n)
	case *types.Struct:
		for k := 0; k < u.NumFields(); k++ {
			n := flatSize(u.Field(k).Type())
			if i < n {
				return cellType(u.Field(k).Type(), i)
			}
			i -= n
		}
		return nil, false
	case *types.Basic:
		if _, _, ok := intType(t); ok {
			return t, true
		}
	}
	return nil, false
}

// ---- static information about a function ---------------------------------------

type fnInfo struct {
	rpo   map[*ssa.BasicBlock]int
	nest  map[*ssa.BasicBlock][]*ssa.BasicBlock // enclosing loop headers, outermost first
	live  map[*ssa.BasicBlock]map[ssa.Value]bool
	isHdr map[*ssa.BasicBlock]bool
	dir   map[*ssa.Phi]int
	split []*ssa.Phi // carried to the header of a loop: constants are kept apart
}

func (it *Interp) info(fn *ssa.Function) *fnInfo {
	if f, ok := it.fi[fn]; ok {
		return f
	}
	f := &fnInfo{rpo: map[*ssa.BasicBlock]int{}, nest: map[*ssa.BasicBlock][]*ssa.BasicBlock{}, live: map[*ssa.BasicBlock]map[ssa.Value]bool{}, isHdr: map[*ssa.BasicBlock]bool{}, dir: map[*ssa.Phi]int{}}
	it.fi[fn] = f
	var order []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		order = append(order, b)
	}
	dfs(fn.Blocks[0])
	n := len(order)
	for i, b := range order {
		f.rpo[b] = n - 1 - i
	}
	// natural loops
	loops := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range order {
		for _, h := range b.Succs {
			if h.Dominates(b) {
				body := loops[h]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{h: true}
					loops[h] = body
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if body[x] {
						continue
					}
					body[x] = true
					for _, p := range x.Preds {
						if seen[p] {
							work = append(work, p)
						}
					}
				}
			}
		}
	}
	for _, b := range order {
		var hs []*ssa.BasicBlock
		for h, body := range loops {
			if body[b] {
				hs = append(hs, h)
			}
		}
		sort.Slice(hs, func(i, j int) bool { return f.rpo[hs[i]] < f.rpo[hs[j]] })
		f.nest[b] = hs
	}
	for h := range loops {
		f.isHdr[h] = true
	}
	// liveness
	for _, b := range order {
		f.live[b] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for _, b := range order { // postorder
			lv := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range f.live[s] {
					lv[v] = true
				}
				for _, in := range s.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					delete(lv, phi)
				}
				for pi, pr := range s.Preds {
					if pr != b {
						continue
					}
					for _, in := range s.Instrs {
						phi, ok := in.(*ssa.Phi)
						if !ok {
							break
						}
						addLive(lv, phi.Edges[pi])
					}
				}
			}
			for i := len(b.Instrs) - 1; i >= 0; i-- {
				in := b.Instrs[i]
				if v, ok := in.(ssa.Value); ok {
					if _, isPhi := in.(*ssa.Phi); !isPhi {
						delete(lv, v)
					}
				}
				if _, isPhi := in.(*ssa.Phi); isPhi {
					continue
				}
				for _, op := range in.Operands(nil) {
					addLive(lv, *op)
				}
			}
			// live at the point after the phis: phis used here stay
			if len(lv) != len(f.live[b]) {
				f.live[b] = lv
				changed = true
			}
		}
	}
	// direction of loop counters
	for h := range loops {
		for _, in := range h.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			f.dir[phi] = phiDir(phi, h, loops[h])
		}
	}
	fed := map[*ssa.Phi]bool{}
	var feed func(v ssa.Value)
	feed = func(v ssa.Value) {
		phi, ok := v.(*ssa.Phi)
		if !ok || fed[phi] {
			return
		}
		fed[phi] = true
		for _, e := range phi.Edges {
			feed(e)
		}
	}
	for h := range loops {
		for _, in := range h.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			for _, e := range phi.Edges {
				feed(e)
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if phi, ok := in.(*ssa.Phi); ok && fed[phi] {
				f.split = append(f.split, phi)
			}
		}
	}
	return f
}

func addLive(m map[ssa.Value]bool, v ssa.Value) {
	switch v.(type) {
	case nil, *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin:
		return
	}
	m[v] = true
}

func phiDir(phi *ssa.Phi, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) int {
	pos, neg := false, false
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value, sg int) bool
	walk = func(v ssa.Value, sg int) bool {
		if v == phi {
			if sg > 0 {
				pos = true
			} else if sg < 0 {
				neg = true
			}
			return true
		}
		if seen[v] {
			return true
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.BinOp:
			if c, ok := v.Y.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
				s := constant.Sign(c.Value)
				if v.Op == token.ADD {
					return walk(v.X, sg+s)
				}
				if v.Op == token.SUB {
					return walk(v.X, sg-s)
				}
			}
			return false
		case *ssa.Phi:
			for _, e := range v.Edges {
				if !walk(e, sg) {
					return false
				}
			}
			return true
		}
		return false
	}
	for i, pr := range h.Preds {
		if body[pr] {
			if !walk(phi.Edges[i], 0) {
				return 0
			}
		}
	}
	switch {
	case pos && !neg:
		return 1
	case neg && !pos:
		return -1
	}
	return 0
}

// ---- execution ---------------------------------------------------------------------

type item struct {
	b    *ssa.BasicBlock
	idx  int
	env  map[ssa.Value]Val
	st   *State
	rank map[*ssa.BasicBlock][]int64
	lkey map[*ssa.BasicBlock]string
	key  string
	prio []int64
	seq  int
}

func lessPrio(a, b *item) bool {
	for i := 0; i < len(a.prio) && i < len(b.prio); i++ {
		if a.prio[i] != b.prio[i] {
			return a.prio[i] < b.prio[i]
		}
	}
	if len(a.prio) != len(b.prio) {
		return len(a.prio) > len(b.prio)
	}
	return a.seq < b.seq
}

type iframe struct {
	it    *Interp
	fn    *ssa.Function
	fi    *fnInfo
	queue []*item
	outs  []outcome
	seq   int

	allocs map[string]*Object
}

func cloneEnv(m map[ssa.Value]Val) map[ssa.Value]Val {
	r := make(map[ssa.Value]Val, len(m))
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (it *Interp) exec(fn *ssa.Function, args, free []Val, st *State) []outcome {
	if len(it.stack) > 60 {
		panic(undecided("recursion too deep in %s", fname(fn)))
	}
	for _, g := range it.stack {
		if g == fn {
			panic(undecided("recursive call of %s", fname(fn)))
		}
	}
	it.stack = append(it.stack, fn)
	defer func() { it.stack = it.stack[:len(it.stack)-1] }()
	it.seen[fn] = true
	first := it.nobj
	fr := &iframe{it: it, fn: fn, fi: it.info(fn)}
	env := map[ssa.Value]Val{}
	for i, p := range fn.Params {
		env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		env[p] = free[i]
	}
	fr.push(&item{b: fn.Blocks[0], env: env, st: st, rank: map[*ssa.BasicBlock][]int64{}, lkey: map[*ssa.BasicBlock]string{}})
	for len(fr.queue) > 0 {
		bi := 0
		for i := range fr.queue {
			if lessPrio(fr.queue[i], fr.queue[bi]) {
				bi = i
			}
		}
		x := fr.queue[bi]
		fr.queue = append(fr.queue[:bi], fr.queue[bi+1:]...)
		fr.run(x)
	}
	if !it.initing {
		for _, o := range fr.outs {
			it.collect(o, first)
		}
	}
	if it.havoc && len(it.stack) == 1 || it.apart && fn.Pkg == it.p.rist {
		return fr.outs
	}
	return it.mergeOutcomes(fr.outs)
}

// collect drops objects allocated by a call that nothing refers to any more.
func (it *Interp) collect(o outcome, first int) {
	mark := map[*Object]bool{}
	var work []*Object
	var val func(v Val)
	val = func(v Val) {
		var p *Object
		switch v := v.(type) {
		case PtrV:
			p = v.obj
		case SliceV:
			p = v.obj
		case PtrJoin:
			val(v.a)
			val(v.b)
		case SliceJoin:
			val(v.a)
			val(v.b)
		case StrV:
			if v.sl != nil {
				p = v.sl.obj
			}
		case TupV:
			for _, x := range v {
				val(x)
			}
		case AggV:
			for _, x := range v.cells {
				val(x)
			}
		case IfaceV:
			if v.dyn != nil {
				val(v.dyn)
			}
		case FnV:
			for _, x := range v.free {
				val(x)
			}
		}
		if p != nil && !mark[p] {
			mark[p] = true
			work = append(work, p)
		}
	}
	val(o.ret)
	for obj := range o.st.mem {
		if obj.id <= first && !mark[obj] {
			mark[obj] = true
			work = append(work, obj)
		}
	}
	for len(work) > 0 {
		obj := work[len(work)-1]
		work = work[:len(work)-1]
		if obj.src != nil && !mark[obj.src] {
			mark[obj.src] = true
			work = append(work, obj.src)
		}
		if b, ok := o.st.mem[obj]; ok {
			for _, v := range b.cells {
				switch v.(type) {
				case IntV, BotV, nil, BigV, OpqV:
				default:
					val(v)
				}
			}
		}
	}
	for obj := range o.st.mem {
		if obj.id > first && !mark[obj] {
			delete(o.st.mem, obj)
		}
	}
}

// push queues an item at the start of a block (after its phis) or mid-block.
func (fr *iframe) push(x *item) {
	fi := fr.fi
	fr.seq++
	x.seq = fr.seq
	x.prio = x.prio[:0]
	var sb strings.Builder
	nest := fi.nest[x.b]
	for i, h := range nest {
		x.prio = append(x.prio, int64(fi.rpo[h]))
		rank := x.rank[h]
		if h != x.b && !fi.phiLive(h, x.b) && !strings.Contains(x.lkey[h], "#") {
			// the position of this loop does not matter any more: the next loop counts on
			for _, g := range nest[i+1:] {
				if !strings.Contains(x.lkey[g], "#") && x.rank[g] != nil {
					x.prio = append(x.prio, x.rank[g]...)
					rank = nil
					break
				}
			}
			if rank == nil {
				sb.WriteByte(';')
				continue
			}
		}
		x.prio = append(x.prio, rank...)
		sb.WriteString(x.lkey[h])
		sb.WriteByte(';')
	}
	x.prio = append(x.prio, int64(fi.rpo[x.b]))
	if x.idx > 0 {
		x.key = fmt.Sprintf("mid%d", x.seq)
	} else {
		for i, phi := range fi.split {
			if fi.live[x.b][phi] {
				if v, ok := x.env[phi].(IntV); ok {
					if k, isC := v.konst(); isC {
						fmt.Fprintf(&sb, "%d=%s,", i, k)
					}
				}
			}
		}
		x.key = fmt.Sprintf("%d|%s|%s", x.b.Index, sb.String(), x.st.tag)
		if fr.it.apart && fr.fn.Pkg == fr.it.p.rist && len(nest) == 0 && len(fr.queue) < 50 {
			x.key = fmt.Sprintf("apart%d", x.seq)
		}
		for i, y := range fr.queue {
			if y.key == x.key {
				fr.queue[i] = fr.join(y, x)
				return
			}
		}
	}
	fr.queue = append(fr.queue, x)
}

// phiLive: a value carried by the loop of h is needed at b.
func (f *fnInfo) phiLive(h, b *ssa.BasicBlock) bool {
	for _, in := range h.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if f.live[b][phi] {
			return true
		}
	}
	return false
}

func (fr *iframe) join(a, b *item) *item {
	st, j := fr.it.joinStates(a.st, b.st)
	r := &item{b: a.b, idx: 0, st: st, env: map[ssa.Value]Val{}, rank: a.rank, lkey: a.lkey, key: a.key, prio: a.prio, seq: a.seq}
	for v := range fr.fi.live[a.b] {
		x, ok := a.env[v]
		y, ok2 := b.env[v]
		if !ok || !ok2 {
			continue
		}
		r.env[v] = j.val(x, y)
	}
	return r
}

// jump moves control along an edge.
func (fr *iframe) jump(x *item, to *ssa.BasicBlock) {
	pi := -1
	for i, p := range to.Preds {
		if p == x.b {
			pi = i
		}
	}
	var vals []Val
	var phis []*ssa.Phi
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		// two edges from the same block carry the same value here
		vals = append(vals, fr.get(x, phi.Edges[pi]))
		phis = append(phis, phi)
	}
	for i, phi := range phis {
		x.env[phi] = vals[i]
	}
	from := x.b
	x.b = to
	x.idx = 0
	if fr.fi.isHdr[to] {
		rank := map[*ssa.BasicBlock][]int64{}
		lk := map[*ssa.BasicBlock]string{}
		for k, v := range x.rank {
			rank[k] = v
		}
		for k, v := range x.lkey {
			lk[k] = v
		}
		back := false
		for _, h := range fr.fi.nest[from] {
			if h == to {
				back = true
			}
		}
		// forget loops nested inside
		for h := range rank {
			inside := false
			for _, g := range fr.fi.nest[h] {
				if g == to && h != to {
					inside = true
				}
			}
			if inside {
				delete(rank, h)
				delete(lk, h)
			}
		}
		cnt := int64(0)
		if back {
			if r := x.rank[to]; len(r) > 0 {
				cnt = r[len(r)-1] + 1
			}
		}
		var sb strings.Builder
		var dirv int64
		have := false
		for i, phi := range phis {
			v, ok := vals[i].(IntV)
			if !ok || !fr.fi.live[to][phi] {
				continue
			}
			k, isC := v.konst()
			if !isC {
				sb.WriteByte('*')
				continue
			}
			sb.WriteString(k.String())
			sb.WriteByte(',')
			if d := fr.fi.dir[phi]; d != 0 && !have && k.IsInt64() {
				have = true
				dirv = k.Int64() * int64(d)
			}
		}
		if have {
			rank[to] = []int64{dirv, 0}
		} else {
			rank[to] = []int64{cnt, cnt}
			fmt.Fprintf(&sb, "#%d", cnt)
		}
		lk[to] = sb.String()
		x.rank, x.lkey = rank, lk
	}
	// drop dead values
	for v := range x.env {
		if !fr.fi.live[to][v] {
			delete(x.env, v)
		}
	}
	fr.push(x)
}

func (fr *iframe) get(x *item, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return fr.it.constVal(v)
	case *ssa.Global:
		o := fr.it.gobj[v]
		if o == nil {
			return OpqV{"global " + v.String()}
		}
		return PtrV{o, 0}
	case *ssa.Function:
		return FnV{fn: v}
	case *ssa.Builtin:
		return OpqV{"builtin"}
	}
	r, ok := x.env[v]
	if !ok {
		panic(undecided("%s: value %s is not available", fname(fr.fn), v.Name()))
	}
	return r
}

func (it *Interp) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		z := zeroCells(t, flatSize(t))
		if len(z) == 1 {
			if _, isArr := t.Underlying().(*types.Array); !isArr {
				if _, isSt := t.Underlying().(*types.Struct); !isSt {
					return z[0]
				}
			}
		}
		return AggV{t, z}
	}
	switch c.Value.Kind() {
	case constant.Bool:
		if constant.BoolVal(c.Value) {
			return constInt(1)
		}
		return constInt(0)
	case constant.Int:
		v, ok := new(big.Int).SetString(c.Value.ExactString(), 10)
		if !ok {
			panic(undecided("constant %s", c.Value))
		}
		return constBig(v)
	case constant.String:
		return StrV{known: true, s: constant.StringVal(c.Value)}
	}
	return BotV{"constant " + c.Value.String()}
}

// oblige records a run-time check of the language.
func (it *Interp) oblige(kind string, in ssa.Instruction, ok bool, detail string) {
	pos := it.p.pos(in.Pos())
	fn := fname(in.Parent())
	k := kind + "|" + fn + "|" + pos + "|" + fmt.Sprint(in)
	o := it.obls[k]
	if o == nil {
		o = &obligation{kind: kind, pos: pos, fn: fn, ok: true}
		it.obls[k] = o
	}
	if !ok {
		o.ok = false
		o.detail = detail
	}
}

func (it *Interp) asInt(v Val) IntV {
	x, ok := v.(IntV)
	if !ok {
		if b, is := v.(BotV); is {
			panic(undecided("integer expected, have a value joined paths disagree on (%s)", b.why))
		}
		panic(undecided("integer expected, have %T", v))
	}
	return x
}

// bnd is the best interval for v in state st.
func (it *Interp) bnd(st *State, v IntV) Interval {
	I := v.I
	if J, ok := it.c.tryBound(v.P); ok {
		I = ivMeet(I, J)
	}
	if len(st.facts.lim) > 0 {
		k0 := v.P.Const()
		q := v.P.Sub(constPoly(k0))
		if J, ok := st.facts.lim[q.Key()]; ok {
			I = ivMeet(I, ivAdd(J, ivPoint(k0)))
		}
		if J, ok := st.facts.lim[q.Neg().Key()]; ok {
			I = ivMeet(I, ivAdd(ivNeg(J), ivPoint(k0)))
		}
		if len(st.facts.sub) > 0 && len(q.terms) > 1 {
			u := it.under(st.facts, v.P)
			k1 := u.Const()
			if r := u.Sub(constPoly(k1)); !r.Equal(q) {
				if J, ok := st.facts.lim[r.Key()]; ok {
					I = ivMeet(I, ivAdd(J, ivPoint(k1)))
				}
			}
		}
	}
	if len(st.facts.lim) > 0 && v.P.linear() && len(v.P.terms) <= 4 {
		// floors of limited quantities
		J := ivPoint(v.P.Const())
		any := false
		for s := range v.P.Syms() {
			si := it.c.syms[s]
			b := si.I
			if b.lo == nil {
				any = false
				break
			}
			if si.kind == kFloor {
				m0 := si.m.Const()
				if M, ok := st.facts.lim[si.m.Sub(constPoly(m0)).Key()]; ok && M.lo != nil {
					b = ivMeet(b, ivShr(ivAdd(M, ivPoint(m0)), si.k))
					any = true
				}
			}
			J = ivAdd(J, ivScale(b, v.P.linearCoef(s)))
		}
		if any {
			I = ivMeet(I, J)
		}
	}
	if len(v.P.terms) == 1 {
		for s := range v.P.Syms() {
			if vals := it.limbVals(st, s); vals != nil && v.P.linearCoef(s).Cmp(bigOne) == 0 {
				I = ivMeet(I, iv64(vals[0], vals[len(vals)-1]))
			}
		}
	}
	return I
}

// limbVals: the possible values of a symbol that is known to take few values.
func (it *Interp) limbVals(st *State, s Sym) []int64 {
	si := it.c.syms[s]
	if si.vals == nil {
		return nil
	}
	if a, ok := st.facts.roots["vals:"+symKey(s)]; ok {
		return a
	}
	return si.vals
}

// norm rewrites an integer value with the facts of the state.
func (it *Interp) norm(st *State, v IntV) IntV {
	P := it.under(st.facts, v.P)
	if P != v.P && !P.Equal(v.P) {
		I := v.I
		if J, ok := it.c.tryBound(P); ok {
			I = ivMeet(I, J)
		}
		v = IntV{P, I}
	}
	I := it.bnd(st, v)
	if I.isPoint() {
		return constBig(I.lo)
	}
	v.I = I
	return v
}

func (fr *iframe) run(x *item) {
	it := fr.it
	for {
		in := x.b.Instrs[x.idx]
		it.steps++
		if it.steps > it.max {
			panic(undecided("step limit reached in %s", fname(fr.fn)))
		}
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			x.idx++
		case *ssa.Jump:
			fr.jump(x, x.b.Succs[0])
			return
		case *ssa.If:
			fr.branch(x, it.asInt(fr.get(x, in.Cond)), in)
			return
		case *ssa.Return:
			var r Val
			if len(in.Results) == 1 {
				r = fr.get(x, in.Results[0])
			} else if len(in.Results) > 1 {
				t := TupV{}
				for _, v := range in.Results {
					t = append(t, fr.get(x, v))
				}
				r = t
			}
			fr.outs = append(fr.outs, outcome{r, x.st})
			return
		case *ssa.Panic:
			it.panics = append(it.panics, panicRec{fr.fn, it.p.pos(in.Pos()), x.st.facts})
			return
		case *ssa.Call:
			outs := it.call(fr, x, &in.Call, in)
			if len(outs) == 0 {
				return
			}
			if len(outs) == 1 {
				x.st = outs[0].st
				if outs[0].ret != nil {
					x.env[in] = outs[0].ret
				}
				x.idx++
				continue
			}
			for _, o := range outs {
				y := &item{b: x.b, idx: x.idx + 1, env: cloneEnv(x.env), st: o.st, rank: x.rank, lkey: x.lkey}
				if o.ret != nil {
					y.env[in] = o.ret
				}
				fr.push(y)
			}
			return
		default:
			if !fr.step(x, in) {
				return // the path ends (a failing run-time check)
			}
			x.idx++
		}
	}
}

// ---- branches ------------------------------------------------------------------------

func (fr *iframe) branch(x *item, cond IntV, in *ssa.If) {
	it := fr.it
	cond = it.norm(x.st, cond)
	if v, ok := cond.konst(); ok {
		if v.Sign() != 0 {
			fr.jump(x, x.b.Succs[0])
		} else {
			fr.jump(x, x.b.Succs[1])
		}
		return
	}
	y := &item{b: x.b, idx: 0, env: cloneEnv(x.env), st: x.st.fork(), rank: x.rank, lkey: x.lkey}
	okT := it.assume(y.st, cond.P, 1)
	okF := it.assume(x.st, cond.P, 0)
	if okT {
		fr.jump(y, y.b.Succs[0])
	}
	if okF {
		fr.jump(x, x.b.Succs[1])
	}
}

// assume adds the fact P == v (P is 0/1 valued); false if contradictory.
func (it *Interp) assume(st *State, P *Poly, v int64) bool {
	c := it.c
	f := st.facts
	f.atoms = append(f.atoms, fact{P, v})
	if len(c.cmps) > 0 {
		for _, neg := range []bool{false, true} {
			Q := P
			if neg {
				Q = intPoly(1).Sub(P)
			}
			if d, ok := c.cmps[Q.Key()]; ok {
				I := iv(new(big.Int).Neg(pow2(600)), big.NewInt(-1))
				if (v == 1) == neg {
					I = iv(bigZero, pow2(600))
				}
				if !it.limit(st, d, I) {
					return false
				}
			}
		}
	}
	// single symbol: P = a*s + b
	syms := sortedSyms(P.Syms())
	if len(syms) == 1 && len(P.Sub(constPoly(P.Const())).terms) == 1 {
		s := syms[0]
		co := P.linearCoef(s)
		if co.CmpAbs(bigOne) == 0 {
			val := new(big.Int).Sub(big.NewInt(v), P.Const())
			val.Mul(val, co)
			return it.setSym(st, s, val)
		}
		return true
	}
	// sum of indicators of one root
	var oh *onehot
	all := true
	for _, s := range syms {
		si := c.syms[s]
		if si.kind != kInd || (oh != nil && si.oh != oh) {
			all = false
			break
		}
		oh = si.oh
	}
	if all && oh != nil {
		var keep []int64
		for _, r := range it.rootVals(st, oh) {
			y, ok := c.evalAt(P, oh.root, r)
			if !ok {
				return true
			}
			if y.Cmp(big.NewInt(v)) == 0 {
				keep = append(keep, r)
			}
		}
		// the comparison behind it
		d, eq := c.eqs[P.Key()]
		if !eq || v != 1 {
			d, eq = c.eqs[intPoly(1).Sub(P).Key()]
			eq = eq && v == 0
		}
		if _, _, _, unit := unitRoot(oh.root); eq && !unit && !it.limit(st, d, ivPoint(bigZero)) {
			return false
		}
		return it.noteRoot(st, oh, keep)
	}
	// conjunctions of 0/1 products
	if len(P.terms) == 1 && v == 1 {
		for _, co := range P.terms {
			if co.Cmp(bigOne) == 0 {
				for _, s := range syms {
					if c.syms[s].isBool && !it.setSym(st, s, bigOne) {
						return false
					}
				}
			}
		}
	}
	if q := intPoly(1).Sub(P); len(q.terms) == 1 && v == 0 {
		for _, co := range q.terms {
			if co.Cmp(bigOne) == 0 {
				for s := range q.Syms() {
					if c.syms[s].isBool && !it.setSym(st, s, bigOne) {
						return false
					}
				}
			}
		}
	}
	// a linear equation
	if Q := it.round(P); Q.linear() {
		floors := true
		for s := range Q.Syms() {
			if k := c.syms[s].kind; k != kFloor && k != kH && k != kNeg {
				floors = false
			}
		}
		if floors {
			return it.limit(st, Q, iv64(v, v))
		}
	}
	return true
}

func (it *Interp) rootVals(st *State, oh *onehot) []int64 {
	var r []int64
	if v, ok := st.facts.roots[oh.key]; ok {
		r = v
	} else {
		for v := oh.rlo; v <= oh.rhi; v++ {
			r = append(r, v)
		}
	}
	// a root that is a symbol with few values
	if s, co, k, ok := unitRoot(oh.root); ok {
		if vals := it.limbVals(st, s); vals != nil {
			has := map[int64]bool{}
			for _, v := range vals {
				has[co*v+k] = true
			}
			var m []int64
			for _, v := range r {
				if has[v] {
					m = append(m, v)
				}
			}
			return m
		}
		return r
	}
	// limits on quantities that are functions of the root
	if len(st.facts.lim) > 0 {
		seen := map[string]bool{}
		for _, s := range sortedSyms(oh.root.Syms()) {
			for _, D := range it.c.digits[s] {
				k := D.Sub(constPoly(D.Const())).Key()
				J, ok := st.facts.lim[k]
				if !ok || seen[k] {
					continue
				}
				seen[k] = true
				J = ivAdd(J, ivPoint(D.Const()))
				var m []int64
				for _, v := range r {
					if x, ok := it.c.evalAt(D, oh.root, v); !ok || J.contains(x) {
						m = append(m, v)
					}
				}
				r = m
			}
		}
	}
	return r
}

// unitRoot: the polynomial is co*s + k with co = 1 or -1.
func unitRoot(p *Poly) (s Sym, co, k int64, ok bool) {
	syms := p.Syms()
	if len(syms) != 1 || !p.linear() || !p.Const().IsInt64() {
		return
	}
	for s = range syms {
	}
	c := p.linearCoef(s)
	if c.CmpAbs(bigOne) != 0 {
		return
	}
	return s, c.Int64(), p.Const().Int64(), true
}

// noteRoot records the values a root can take.
func (it *Interp) noteRoot(st *State, oh *onehot, keep []int64) bool {
	f := st.facts
	f.roots[oh.key] = keep
	if len(keep) == 0 {
		return false
	}
	s, co, k, ok := unitRoot(oh.root)
	if !ok {
		if oh.root.linear() && len(keep) < int(oh.rhi-oh.rlo+1) {
			return it.limit(st, oh.root, iv64(keep[0], keep[len(keep)-1]))
		}
		return true
	}
	if it.c.syms[s].vals != nil {
		var vs []int64
		for _, v := range keep {
			vs = append(vs, co*(v-k))
		}
		sort.Slice(vs, func(i, j int) bool { return vs[i] < vs[j] })
		f.roots["vals:"+symKey(s)] = vs
		if len(vs) == 1 {
			f.sub[s] = intPoly(vs[0])
		}
	} else if it.c.syms[s].kind == kOp && len(keep) == 1 {
		f.sub[s] = intPoly(co * (keep[0] - k))
	}
	return true
}

func (it *Interp) setSym(st *State, s Sym, val *big.Int) bool {
	c := it.c
	f := st.facts
	si := c.syms[s]
	if si.I.lo != nil && !si.I.contains(val) {
		return false
	}
	if o, ok := f.sub[s]; ok {
		if k, isC := o.IsConst(); isC && k.Cmp(val) != 0 {
			return false
		}
	}
	switch si.kind {
	case kInd:
		var keep []int64
		for _, r := range it.rootVals(st, si.oh) {
			if (r == si.v) == (val.Sign() != 0) {
				keep = append(keep, r)
			}
		}
		return it.noteRoot(st, si.oh, keep)
	case kFloor:
		// m in [val 2^k, (val+1) 2^k - 1]
		lo := new(big.Int).Lsh(val, si.k)
		hi := new(big.Int).Add(lo, pow2(si.k))
		hi.Sub(hi, bigOne)
		f.sub[s] = constPoly(val)
		return it.limit(st, si.m, iv(lo, hi))
	case kIz:
		f.sub[s] = constPoly(val)
		if val.Sign() != 0 {
			return it.limit(st, si.m, iv64(0, 0))
		}
		return true
	case kIzF:
		if val.Sign() != 0 {
			for o := range si.oh.syms {
				if o != s && !it.setSym(st, o, bigZero) {
					return false
				}
			}
		}
	}
	f.sub[s] = constPoly(val)
	return true
}

// limit records m in I.
func (it *Interp) limit(st *State, m *Poly, I Interval) bool {
	c := it.c
	k0 := m.Const()
	q := m.Sub(constPoly(k0))
	I = ivSub(I, ivPoint(k0))
	if J, ok := c.tryBound(q); ok {
		I = ivMeet(I, J)
	}
	// normal sign
	if len(q.terms) == 1 {
		for _, co := range q.terms {
			if co.Sign() < 0 {
				q = q.Neg()
				I = ivNeg(I)
			}
		}
	}
	if J, ok := st.facts.lim[q.Key()]; ok {
		I = ivMeet(I, J)
	}
	if I.empty() {
		return false
	}
	st.facts.lim[q.Key()] = I
	syms := sortedSyms(q.Syms())
	if len(syms) == 1 && len(q.terms) == 1 && q.linearCoef(syms[0]).Cmp(bigOne) == 0 {
		s := syms[0]
		if vals := it.limbVals(st, s); vals != nil {
			var keep []int64
			for _, v := range vals {
				if I.contains(big.NewInt(v)) {
					keep = append(keep, v)
				}
			}
			if len(keep) == 0 {
				return false
			}
			st.facts.roots["vals:"+symKey(s)] = keep
			if len(keep) == 1 {
				st.facts.sub[s] = intPoly(keep[0])
			}
		}
		if I.isPoint() {
			st.facts.sub[s] = constPoly(I.lo)
		}
	} else if I.isPoint() {
		// an equation: solve for a symbol of coefficient +-1 (the latest)
		for i := len(syms) - 1; i >= 0; i-- {
			s := syms[i]
			co := q.linearCoef(s)
			if co.CmpAbs(bigOne) != 0 || c.syms[s].kind == kInd {
				continue
			}
			n := 0
			for k := range q.terms {
				if monoHas(k, s) {
					n++
				}
			}
			if n != 1 {
				continue
			}
			if _, has := st.facts.sub[s]; has {
				continue
			}
			rest := q.Sub(symPoly(s).Scale(co))
			st.facts.sub[s] = constPoly(I.lo).Sub(rest).Scale(co)
			break
		}
	}
	return true
}

// mergeOutcomes joins the returns of a function.
func (it *Interp) mergeOutcomes(outs []outcome) []outcome {
	if len(outs) <= 1 {
		return outs
	}
	// binary-tree join in order: later siblings first (deepest common prefix)
	for len(outs) > 1 {
		bi, bj, best := -1, -1, -1
		for i := range outs {
			for j := i + 1; j < len(outs); j++ {
				if it.points && distinctRet(outs[i].ret, outs[j].ret) {
					continue
				}
				n := commonAtoms(outs[i].st.facts, outs[j].st.facts)
				if n > best {
					best, bi, bj = n, i, j
				}
			}
		}
		if bi < 0 {
			return outs
		}
		a, b := outs[bi], outs[bj]
		st, j := it.joinStates(a.st, b.st)
		var ret Val
		if a.ret != nil || b.ret != nil {
			ret = j.val(a.ret, b.ret)
		}
		if hasBot(ret) || it.newBots(a.st, b.st, st) {
			return outs
		}
		rest := outs[:0:0]
		for k := range outs {
			if k != bi && k != bj {
				rest = append(rest, outs[k])
			}
		}
		outs = append(rest, outcome{ret, st})
	}
	return outs
}

func commonAtoms(a, b *Facts) int {
	i := 0
	for i < len(a.atoms) && i < len(b.atoms) && a.atoms[i].v == b.atoms[i].v && a.atoms[i].p.Equal(b.atoms[i].p) {
		i++
	}
	return i
}

func hasBot(v Val) bool {
	switch v := v.(type) {
	case BotV:
		return true
	case TupV:
		for _, x := range v {
			if hasBot(x) {
				return true
			}
		}
	case AggV:
		for _, x := range v.cells {
			if hasBot(x) {
				return true
			}
		}
	}
	return false
}

func (it *Interp) newBots(a, b, j *State) bool {
	for o, jb := range j.mem {
		x, ok := a.mem[o]
		y, ok2 := b.mem[o]
		if !ok || !ok2 || x == y {
			continue
		}
		for i, v := range jb.cells {
			if _, bot := v.(BotV); bot {
				if i < len(x.cells) && i < len(y.cells) && !hasBot(x.cells[i]) && !hasBot(y.cells[i]) {
					return true
				}
			}
		}
	}
	return false
}

// distinctRet: two different constants are returned (they distinguish the
// paths for the caller, so the states are kept apart).
func distinctRet(a, b Val) bool {
	x, ok := a.(IntV)
	y, ok2 := b.(IntV)
	if !ok || !ok2 {
		return false
	}
	u, ok := x.P.IsConst()
	v, ok2 := y.P.IsConst()
	return ok && ok2 && u.Cmp(v) != 0
}
