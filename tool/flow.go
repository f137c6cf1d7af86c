package main

// Interprocedural, context-sensitive taint and effect analysis over SSA.
//
// A function is analysed under a context (which argument values and which
// argument pointees are secret, which functions are passed).  Inside, the
// analysis is a flow-insensitive fixpoint over abstract locations: one per
// parameter pointee, allocation site, global and external result.  There is no
// recursion in the module; a recursive call is reported as undecided.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type locKind uint8

const (
	lParam  locKind = iota // pointee of parameter i (free variables follow the parameters)
	lAlloc                 // allocation site or fresh result of a call
	lGlobal                // package level variable
	lExtern                // memory of unknown origin
)

type loc struct {
	kind locKind
	i    int
	v    ssa.Value // lAlloc: the instruction
	g    *ssa.Global
}

func (l loc) String() string {
	switch l.kind {
	case lParam:
		return fmt.Sprintf("param%d", l.i)
	case lAlloc:
		return "local " + l.v.Name()
	case lGlobal:
		return "global " + l.g.Name()
	}
	return "unknown memory"
}

type absv struct {
	taint bool
	pts   map[loc]bool
	fns   map[*ssa.Function][]*absv // closures: function -> bindings
	tup   []*absv
}

func newAbsv() *absv { return &absv{} }

func (a *absv) addPt(l loc) bool {
	if a.pts == nil {
		a.pts = map[loc]bool{}
	}
	if a.pts[l] {
		return false
	}
	a.pts[l] = true
	return true
}

func (a *absv) join(b *absv) bool {
	if b == nil {
		return false
	}
	ch := false
	if b.taint && !a.taint {
		a.taint = true
		ch = true
	}
	for l := range b.pts {
		if a.addPt(l) {
			ch = true
		}
	}
	for f, bs := range b.fns {
		if a.fns == nil {
			a.fns = map[*ssa.Function][]*absv{}
		}
		if _, ok := a.fns[f]; !ok {
			a.fns[f] = bs
			ch = true
		}
	}
	for i, t := range b.tup {
		for len(a.tup) <= i {
			a.tup = append(a.tup, newAbsv())
		}
		if a.tup[i].join(t) {
			ch = true
		}
	}
	return ch
}

type effect struct {
	l   loc
	pos string
	via string
}

type sink struct {
	fn   *ssa.Function
	rule string
	what string
	pos  string
}

// summary of a function under a context
type summary struct {
	fn       *ssa.Function
	ret      *absv          // results (tuple), in terms of the function's own locations
	retTaint map[loc]bool   // taint of fresh memory reachable from results
	parOut   []bool         // pointee taint of parameters on exit
	writes   map[loc]effect // parameters, globals and unknown memory written
	sinks    []sink
	callees  map[*ssa.Function]bool
	verdict  bool // contains a permitted branch on an outcome
}

type flow struct {
	p        *Program
	memo     map[string]*summary
	stack    map[*ssa.Function]bool
	contexts int
	obl      map[string]int // obligations examined, by rule
	// callersOf decoders only: functions permitted to compare secret arrays
	decoderOnly map[*ssa.Function]bool
}

func newFlow(p *Program) *flow {
	return &flow{p: p, memo: map[string]*summary{}, stack: map[*ssa.Function]bool{}, obl: map[string]int{}, decoderOnly: map[*ssa.Function]bool{}}
}

// ctxArg describes one argument.
type ctxArg struct {
	taint   bool
	pointee bool
	fns     map[*ssa.Function][]*absv
}

func ctxKey(f *ssa.Function, args []ctxArg) string {
	var sb strings.Builder
	sb.WriteString(f.String())
	for _, a := range args {
		c := byte('0')
		if a.taint {
			c |= 1
		}
		if a.pointee {
			c |= 2
		}
		sb.WriteByte(c)
		if len(a.fns) > 0 {
			var ns []string
			for g := range a.fns {
				ns = append(ns, g.String())
			}
			sort.Strings(ns)
			sb.WriteString("{" + strings.Join(ns, ",") + "}")
		}
	}
	return sb.String()
}

func isPointery(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Interface, *types.Signature:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if isPointery(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return isPointery(u.Elem())
	}
	return false
}

func isErrorType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "error" && n.Obj().Pkg() == nil
}

// entryArgs: everything an API function receives is secret, except lengths.
func entryArgs(f *ssa.Function) []ctxArg {
	var r []ctxArg
	for _, p := range f.Params {
		if isPointery(p.Type()) {
			r = append(r, ctxArg{pointee: true})
		} else {
			r = append(r, ctxArg{taint: true})
		}
	}
	return r
}

type frame struct {
	fl     *flow
	fn     *ssa.Function
	args   []ctxArg
	val    map[ssa.Value]*absv
	mem    map[loc]*absv // contents: taint, and pointers stored there
	sum    *summary
	ch     bool
	report bool
	loop   map[*ssa.BasicBlock]bool
}

func (fl *flow) analyse(f *ssa.Function, args []ctxArg) *summary {
	key := ctxKey(f, args)
	if s, ok := fl.memo[key]; ok {
		return s
	}
	if fl.stack[f] {
		panic(undecided("recursive call of %s", fname(f)))
	}
	fl.stack[f] = true
	defer delete(fl.stack, f)
	fl.contexts++
	fr := &frame{fl: fl, fn: f, args: args, val: map[ssa.Value]*absv{}, mem: map[loc]*absv{}, loop: cyclicBlocks(f)}
	fr.sum = &summary{fn: f, ret: newAbsv(), retTaint: map[loc]bool{}, writes: map[loc]effect{}, callees: map[*ssa.Function]bool{}}
	n := 0
	params := []ssa.Value{}
	for _, p := range f.Params {
		params = append(params, p)
	}
	for _, p := range f.FreeVars {
		params = append(params, p)
	}
	for i, p := range params {
		a := newAbsv()
		var c ctxArg
		if i < len(args) {
			c = args[i]
		}
		a.taint = c.taint
		a.fns = c.fns
		if isPointery(p.Type()) {
			a.addPt(loc{kind: lParam, i: i})
			m := fr.memOf(loc{kind: lParam, i: i})
			m.taint = c.pointee
			// pointers inside the pointee lead to memory of the same origin
			m.addPt(loc{kind: lParam, i: i})
		}
		fr.val[p] = a
		n++
	}
	for iter := 0; ; iter++ {
		fr.ch = false
		fr.pass()
		if !fr.ch {
			break
		}
		if iter > 200 {
			panic(undecided("flow analysis of %s does not converge", fname(f)))
		}
	}
	fr.report = true
	fr.pass()
	fr.sum.parOut = make([]bool, n)
	for i := 0; i < n; i++ {
		fr.sum.parOut[i] = fr.memOf(loc{kind: lParam, i: i}).taint
	}
	if fr.sum.verdict {
		fr.sum.ret.taint = true
		for _, t := range fr.sum.ret.tup {
			t.taint = true
		}
	}
	for _, t := range append([]*absv{fr.sum.ret}, fr.sum.ret.tup...) {
		for l := range t.pts {
			if l.kind == lAlloc {
				fr.sum.retTaint[l] = fr.memOf(l).taint
			}
		}
	}
	fl.memo[key] = fr.sum
	return fr.sum
}

// cyclicBlocks returns the blocks that lie on a cycle.
func cyclicBlocks(f *ssa.Function) map[*ssa.BasicBlock]bool {
	r := map[*ssa.BasicBlock]bool{}
	for _, b := range f.Blocks {
		seen := map[*ssa.BasicBlock]bool{}
		st := append([]*ssa.BasicBlock(nil), b.Succs...)
		for len(st) > 0 {
			x := st[len(st)-1]
			st = st[:len(st)-1]
			if seen[x] {
				continue
			}
			seen[x] = true
			st = append(st, x.Succs...)
		}
		r[b] = seen[b]
	}
	return r
}

func (fr *frame) memOf(l loc) *absv {
	m, ok := fr.mem[l]
	if !ok {
		m = newAbsv()
		if l.kind == lExtern {
			m.taint = true
			m.addPt(l)
		}
		fr.mem[l] = m
	}
	return m
}

func (fr *frame) get(v ssa.Value) *absv {
	switch v := v.(type) {
	case *ssa.Const, *ssa.Builtin:
		return newAbsv()
	case *ssa.Global:
		a := newAbsv()
		a.addPt(loc{kind: lGlobal, g: v})
		return a
	case *ssa.Function:
		return &absv{fns: map[*ssa.Function][]*absv{v: nil}}
	}
	a, ok := fr.val[v]
	if !ok {
		a = newAbsv()
		fr.val[v] = a
	}
	return a
}

func (fr *frame) set(v ssa.Value, b *absv) {
	a, ok := fr.val[v]
	if !ok {
		a = newAbsv()
		fr.val[v] = a
	}
	if a.join(b) {
		fr.ch = true
	}
}

func (fr *frame) sinkAt(rule, what string, pos token.Pos) {
	if !fr.report {
		return
	}
	fr.sum.sinks = append(fr.sum.sinks, sink{fr.fn, rule, what, fr.fl.p.pos(pos)})
}

func (fr *frame) oblig(rule string) {
	if fr.report {
		fr.fl.obl[rule]++
	}
}

func (fr *frame) write(a *absv, val *absv, pos token.Pos, via string) {
	for l := range a.pts {
		fr.writeLoc(l, val, fr.fl.p.pos(pos), via)
	}
	if len(a.pts) == 0 && fr.report && via != "" {
		// a write through a pointer of unknown origin
		fr.sum.writes[loc{kind: lExtern}] = effect{loc{kind: lExtern}, fr.fl.p.pos(pos), via}
	}
}

func (fr *frame) writeLoc(l loc, val *absv, pos, via string) {
	if l.kind != lAlloc {
		if _, ok := fr.sum.writes[l]; !ok {
			fr.sum.writes[l] = effect{l, pos, via}
			fr.ch = true
		}
	}
	m := fr.memOf(l)
	if val != nil && m.join(val) {
		fr.ch = true
	}
}

func (fr *frame) loadVia(a *absv) *absv {
	r := newAbsv()
	for l := range a.pts {
		m := fr.memOf(l)
		r.join(m)
	}
	if a.taint {
		r.taint = true
	}
	return r
}

// strip keeps pointers only if the type can hold them.
func strip(t types.Type, a *absv) *absv {
	if isPointery(t) {
		return a
	}
	return &absv{taint: a.taint}
}

func (fr *frame) pass() {
	if fr.report {
		fr.sum.sinks = nil
	}
	for _, b := range fr.fn.Blocks {
		for _, in := range b.Instrs {
			fr.instr(b, in)
		}
	}
}

func (fr *frame) instr(b *ssa.BasicBlock, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Alloc:
		a := newAbsv()
		a.addPt(loc{kind: lAlloc, v: x})
		fr.set(x, a)
	case *ssa.Phi:
		for _, e := range x.Edges {
			fr.set(x, fr.get(e))
		}
	case *ssa.BinOp:
		l, r := fr.get(x.X), fr.get(x.Y)
		t := l.taint || r.taint
		switch x.Op {
		case token.QUO, token.REM:
			fr.oblig("division")
			if t && !powerOfTwo(x.Y) {
				fr.sinkAt("no secret operand of a division", "division or remainder of a secret value", x.Pos())
			}
		case token.SHL, token.SHR:
			fr.oblig("shift")
			if r.taint {
				fr.sinkAt("no secret shift count", "shift by a secret amount", x.Pos())
			}
		case token.EQL, token.NEQ:
			switch u := x.X.Type().Underlying().(type) {
			case *types.Array, *types.Struct:
				fr.oblig("aggregate comparison")
				ct := t
				if ct && !(fr.fl.decoderOnly[fr.fn] && fr.onlyVerdict(x)) {
					fr.sinkAt("no early-exit comparison of secrets", "comparison of secret arrays with ==/!=", x.Pos())
				}
			case *types.Basic:
				if u.Info()&types.IsString != 0 && t {
					fr.sinkAt("no early-exit comparison of secrets", "comparison of secret strings", x.Pos())
				}
			case *types.Interface:
				// comparison with nil only inspects the outcome
				if t && !isNilConst(x.X) && !isNilConst(x.Y) {
					fr.sinkAt("no early-exit comparison of secrets", "comparison of secret interface values", x.Pos())
				}
			}
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			if u, ok := x.X.Type().Underlying().(*types.Basic); ok && u.Info()&types.IsString != 0 && t {
				fr.sinkAt("no early-exit comparison of secrets", "comparison of secret strings", x.Pos())
			}
		}
		fr.set(x, &absv{taint: t})
	case *ssa.UnOp:
		a := fr.get(x.X)
		if x.Op == token.MUL {
			fr.set(x, strip(x.Type(), fr.loadVia(a)))
		} else {
			fr.set(x, &absv{taint: a.taint})
		}
	case *ssa.ChangeType:
		fr.set(x, fr.get(x.X))
	case *ssa.Convert:
		// string <-> []byte copies
		a := fr.get(x.X)
		_, fromS := x.X.Type().Underlying().(*types.Slice)
		_, toS := x.Type().Underlying().(*types.Slice)
		if fromS || toS {
			l := loc{kind: lAlloc, v: x}
			r := newAbsv()
			ld := a
			if fromS {
				ld = fr.loadVia(a)
			}
			r.taint = fromS && ld.taint
			if toS {
				r.taint = false
				r.addPt(l)
				m := fr.memOf(l)
				if ld.taint && !m.taint {
					m.taint = true
					fr.ch = true
				}
			}
			fr.set(x, r)
		} else {
			fr.set(x, a)
		}
	case *ssa.MultiConvert:
		fr.set(x, fr.get(x.X))
	case *ssa.ChangeInterface:
		fr.set(x, fr.get(x.X))
	case *ssa.SliceToArrayPointer:
		fr.set(x, fr.get(x.X))
	case *ssa.MakeInterface:
		fr.set(x, fr.get(x.X))
	case *ssa.MakeClosure:
		f := x.Fn.(*ssa.Function)
		var bs []*absv
		for _, q := range x.Bindings {
			bs = append(bs, fr.get(q))
		}
		a := &absv{fns: map[*ssa.Function][]*absv{f: bs}}
		fr.set(x, a)
	case *ssa.MakeSlice:
		if fr.get(x.Len).taint || fr.get(x.Cap).taint {
			fr.sinkAt("no secret length", "allocation of secret size", x.Pos())
		}
		a := newAbsv()
		a.addPt(loc{kind: lAlloc, v: x})
		fr.set(x, a)
	case *ssa.MakeMap, *ssa.MakeChan:
		a := newAbsv()
		a.addPt(loc{kind: lAlloc, v: x.(ssa.Value)})
		fr.set(x.(ssa.Value), a)
	case *ssa.Slice:
		for _, q := range []ssa.Value{x.Low, x.High, x.Max} {
			if q != nil {
				fr.oblig("slice bound")
				if fr.get(q).taint {
					fr.sinkAt("no secret slice bound", "slice bound depends on a secret", x.Pos())
				}
			}
		}
		fr.set(x, fr.get(x.X))
	case *ssa.FieldAddr:
		fr.set(x, fr.get(x.X))
	case *ssa.Field:
		fr.set(x, strip(x.Type(), fr.get(x.X)))
	case *ssa.IndexAddr:
		fr.oblig("memory index")
		if fr.get(x.Index).taint {
			fr.sinkAt("no secret memory index", "memory index depends on a secret", x.Pos())
		}
		fr.set(x, fr.get(x.X))
	case *ssa.Index:
		fr.oblig("memory index")
		if fr.get(x.Index).taint {
			fr.sinkAt("no secret memory index", "memory index depends on a secret", x.Pos())
		}
		fr.set(x, strip(x.Type(), fr.get(x.X)))
	case *ssa.Lookup:
		fr.oblig("memory index")
		if fr.get(x.Index).taint {
			fr.sinkAt("no secret memory index", "map or string lookup depends on a secret", x.Pos())
		}
		r := fr.loadVia(fr.get(x.X))
		r.join(&absv{taint: fr.get(x.X).taint})
		if x.CommaOk {
			fr.set(x, &absv{tup: []*absv{r, {taint: r.taint}}})
		} else {
			fr.set(x, r)
		}
	case *ssa.Range:
		fr.set(x, fr.get(x.X))
	case *ssa.Next:
		r := fr.loadVia(fr.get(x.Iter))
		fr.set(x, &absv{tup: []*absv{{}, r, r}})
	case *ssa.TypeAssert:
		a := fr.get(x.X)
		if x.CommaOk {
			fr.set(x, &absv{tup: []*absv{a, {taint: a.taint}}})
		} else {
			fr.set(x, a)
		}
	case *ssa.Extract:
		t := fr.get(x.Tuple)
		if x.Index < len(t.tup) {
			fr.set(x, t.tup[x.Index])
		} else if t.taint {
			fr.set(x, &absv{taint: true})
		}
	case *ssa.Store:
		a, v := fr.get(x.Addr), fr.get(x.Val)
		fr.oblig("store")
		fr.write(a, v, x.Pos(), "store")
	case *ssa.MapUpdate:
		fr.write(fr.get(x.Map), fr.get(x.Value), x.Pos(), "map update")
		if fr.get(x.Key).taint {
			fr.sinkAt("no secret memory index", "map key is secret", x.Pos())
		}
	case *ssa.If:
		fr.oblig("branch")
		if fr.get(x.Cond).taint {
			if fr.permittedVerdict(b) {
				fr.sum.verdict = true
			} else {
				fr.sinkAt("no secret-dependent branch", "branch depends on a secret", condPos(x))
			}
		}
	case *ssa.Return:
		for len(fr.sum.ret.tup) < len(x.Results) {
			fr.sum.ret.tup = append(fr.sum.ret.tup, newAbsv())
		}
		for i, r := range x.Results {
			if fr.sum.ret.tup[i].join(fr.get(r)) {
				fr.ch = true
			}
		}
	case *ssa.Call:
		fr.call(x, &x.Call)
	case *ssa.Defer:
		fr.call(nil, &x.Call)
	case *ssa.Go:
		fr.call(nil, &x.Call)
		if fr.report {
			fr.sum.sinks = append(fr.sum.sinks, sink{fr.fn, "no goroutines", "starts a goroutine", fr.fl.p.pos(x.Pos())})
		}
	case *ssa.Send:
		fr.write(fr.get(x.Chan), fr.get(x.X), x.Pos(), "send")
	case *ssa.Jump, *ssa.Panic, *ssa.DebugRef, *ssa.RunDefers:
	case *ssa.Select:
		panic(undecided("select statement in %s", fname(fr.fn)))
	default:
		panic(undecided("instruction %T in %s", in, fname(fr.fn)))
	}
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

func condPos(x *ssa.If) token.Pos {
	if x.Cond.Pos().IsValid() {
		return x.Cond.Pos()
	}
	for _, in := range x.Block().Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	return x.Block().Parent().Pos()
}

// onlyVerdict: the comparison is used only as a permitted verdict condition.
func (fr *frame) onlyVerdict(x *ssa.BinOp) bool {
	for _, r := range *x.Referrers() {
		switch r := r.(type) {
		case *ssa.If:
			if !fr.permittedVerdict(r.Block()) {
				return false
			}
		case *ssa.Return, *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

// permittedVerdict: the branch at the end of b only selects the outcome that
// is reported to the caller: it is not in a loop, the function reports a
// boolean or an error, and nothing after it computes on secrets.
func (fr *frame) permittedVerdict(b *ssa.BasicBlock) bool {
	if fr.loop[b] {
		return false
	}
	res := fr.fn.Signature.Results()
	ok := false
	for i := 0; i < res.Len(); i++ {
		t := res.At(i).Type()
		if isErrorType(t) {
			ok = true
		}
		if bt, is := t.Underlying().(*types.Basic); is && bt.Kind() == types.Bool {
			ok = true
		}
		if _, is := t.Underlying().(*types.Slice); is { // nil slice as verdict
			ok = true
		}
	}
	if !ok {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	st := append([]*ssa.BasicBlock(nil), b.Succs...)
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		if fr.loop[x] {
			return false
		}
		for _, in := range x.Instrs {
			switch q := in.(type) {
			case *ssa.Return, *ssa.Jump, *ssa.If, *ssa.Phi, *ssa.MakeInterface, *ssa.ChangeType, *ssa.ChangeInterface,
				*ssa.Store, *ssa.Alloc, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Slice, *ssa.DebugRef, *ssa.Extract, *ssa.Convert, *ssa.MakeSlice,
				*ssa.RunDefers, *ssa.Panic:
			case *ssa.UnOp:
				if q.Op != token.MUL && q.Op != token.NOT {
					return false
				}
			case *ssa.BinOp:
				// another look at the verdict: comparison with a constant
				_, c1 := q.X.(*ssa.Const)
				_, c2 := q.Y.(*ssa.Const)
				switch q.Op {
				case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
					if !c1 && !c2 {
						return false
					}
				default:
					if fr.get(q).taint {
						return false
					}
				}
			case *ssa.Call:
				if bi, is := q.Call.Value.(*ssa.Builtin); is && (bi.Name() == "copy" || bi.Name() == "len" || bi.Name() == "append") {
					continue
				}
				callee := q.Call.StaticCallee()
				if callee == nil {
					return false
				}
				if callee.Pkg != nil && (callee.Pkg.Pkg.Path() == "errors" || callee.Pkg.Pkg.Path() == "fmt") {
					continue
				}
				if callee.Blocks != nil && fr.isPlainCopy(callee) {
					continue
				}
				return false
			default:
				return false
			}
		}
		st = append(st, x.Succs...)
	}
	return true
}

// isPlainCopy: the callee only moves data (no arithmetic on loaded values).
func (fr *frame) isPlainCopy(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch q := in.(type) {
			case *ssa.If:
				return false
			case *ssa.BinOp:
				return false
			case *ssa.UnOp:
				if q.Op != token.MUL {
					return false
				}
			case *ssa.Call:
				if bi, is := q.Call.Value.(*ssa.Builtin); is && (bi.Name() == "copy" || bi.Name() == "len") {
					continue
				}
				if c := q.Call.StaticCallee(); c != nil && c.Blocks != nil && fr.isPlainCopy(c) {
					continue
				}
				if c := q.Call.StaticCallee(); c != nil && c.Pkg != nil && (c.Pkg.Pkg.Path() == "errors" || c.Pkg.Pkg.Path() == "fmt") {
					continue
				}
				return false
			}
		}
	}
	return true
}

func (fr *frame) call(res *ssa.Call, cc *ssa.CallCommon) {
	fr.oblig("call")
	var args []*absv
	for _, a := range cc.Args {
		args = append(args, fr.get(a))
	}
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		fr.builtin(res, bi, cc, args)
		return
	}
	if cc.IsInvoke() {
		recv := fr.get(cc.Value)
		fr.extern(res, "invoke."+cc.Method.Name(), append([]*absv{recv}, args...), cc)
		return
	}
	targets := map[*ssa.Function][]*absv{}
	if f := cc.StaticCallee(); f != nil {
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			var bs []*absv
			for _, q := range mc.Bindings {
				bs = append(bs, fr.get(q))
			}
			targets[f] = bs
		} else {
			targets[f] = nil
		}
	} else {
		for f, bs := range fr.get(cc.Value).fns {
			targets[f] = bs
		}
		if len(targets) == 0 {
			if !fr.report {
				return
			}
			panic(undecided("call of an unresolved function value in %s at %s", fname(fr.fn), fr.fl.p.pos(cc.Pos())))
		}
		if fr.get(cc.Value).taint {
			fr.sinkAt("no secret-dependent branch", "the function called depends on a secret", cc.Pos())
		}
	}
	for f, bs := range targets {
		if f.Blocks == nil {
			name := f.String()
			fr.extern(res, name, args, cc)
			continue
		}
		fr.callBody(res, f, append(append([]*absv(nil), args...), bs...), cc)
	}
}

func (fr *frame) callBody(res *ssa.Call, f *ssa.Function, args []*absv, cc *ssa.CallCommon) {
	var ca []ctxArg
	for _, a := range args {
		c := ctxArg{taint: a.taint, fns: a.fns}
		if len(a.pts) > 0 {
			c.pointee = fr.loadVia(a).taint
		}
		ca = append(ca, c)
	}
	s := fr.fl.analyse(f, ca)
	fr.sum.callees[f] = true
	mapLoc := func(l loc) []loc {
		switch l.kind {
		case lParam:
			if l.i < len(args) {
				var r []loc
				for q := range args[l.i].pts {
					r = append(r, q)
				}
				return r
			}
			return []loc{{kind: lExtern}}
		case lAlloc:
			if res != nil {
				return []loc{{kind: lAlloc, v: res}}
			}
			return nil
		}
		return []loc{l}
	}
	for l, e := range s.writes {
		for _, q := range mapLoc(l) {
			via := fname(f)
			if e.via != "" && e.via != "store" {
				via += " -> " + e.via
			}
			var val *absv
			if l.kind == lParam {
				val = &absv{taint: s.parOut[l.i]}
			} else {
				val = &absv{taint: true}
			}
			fr.writeLoc(q, val, e.pos, via)
		}
	}
	conv := func(a *absv) *absv {
		r := &absv{taint: a.taint, fns: a.fns}
		for l := range a.pts {
			for _, q := range mapLoc(l) {
				r.addPt(q)
				if l.kind == lAlloc {
					if s.retTaint[l] {
						m := fr.memOf(q)
						if !m.taint {
							m.taint = true
							fr.ch = true
						}
					}
				}
			}
		}
		return r
	}
	if res != nil {
		switch len(s.ret.tup) {
		case 0:
		case 1:
			fr.set(res, conv(s.ret.tup[0]))
		default:
			t := &absv{}
			for _, q := range s.ret.tup {
				t.tup = append(t.tup, conv(q))
			}
			fr.set(res, t)
		}
	}
	if fr.report {
		for _, k := range s.sinks {
			fr.sum.sinks = append(fr.sum.sinks, k)
		}
	}
}

func (fr *frame) builtin(res *ssa.Call, bi *ssa.Builtin, cc *ssa.CallCommon, args []*absv) {
	out := newAbsv()
	switch bi.Name() {
	case "len", "cap":
		if len(args) > 0 {
			// lengths are public unless the value itself was selected by a secret
			if _, isStr := cc.Args[0].Type().Underlying().(*types.Basic); !isStr {
				out.taint = args[0].taint
			}
		}
	case "copy":
		v := fr.loadVia(args[1])
		fr.oblig("store")
		fr.write(args[0], &absv{taint: v.taint, pts: v.pts}, cc.Pos(), "copy")
	case "append":
		fr.oblig("store")
		v := newAbsv()
		for _, a := range args[1:] {
			v.join(fr.loadVia(a))
		}
		fr.write(args[0], v, cc.Pos(), "append")
		out.join(args[0])
		if res != nil {
			l := loc{kind: lAlloc, v: res}
			out.addPt(l)
			m := fr.memOf(l)
			w := fr.loadVia(args[0])
			w.join(v)
			if m.join(w) {
				fr.ch = true
			}
		}
	case "clear":
		fr.write(args[0], newAbsv(), cc.Pos(), "clear")
	case "min", "max":
		for _, a := range args {
			out.taint = out.taint || a.taint
		}
		if out.taint {
			fr.sinkAt("no secret-dependent branch", "min/max of a secret", cc.Pos())
		}
	case "print", "println", "panic", "recover", "close", "delete":
		for _, a := range args {
			if a.taint && bi.Name() != "panic" {
				fr.sinkAt("no secret passed to variable-time code", bi.Name()+" of a secret", cc.Pos())
			}
		}
	case "ssa:wrapnilchk":
		out.join(args[0])
	default:
		panic(undecided("builtin %s in %s", bi.Name(), fname(fr.fn)))
	}
	if res != nil {
		fr.set(res, out)
	}
}

// Models of functions outside the module.
type extModel struct {
	writes  []int // arguments whose pointee is written with data derived from all arguments
	public  []int // written with public data (rand is secret, so not here)
	ct      bool  // constant time in the values (not lengths) of its arguments
	retRecv bool  // returns argument 0
	secret  bool  // result or output is secret regardless of the arguments
	noTaint bool  // results do not depend on secret contents
}

func extFor(name string) (extModel, bool) {
	switch {
	case strings.HasPrefix(name, "crypto/subtle."):
		m := extModel{ct: true}
		if strings.HasSuffix(name, "ConstantTimeCopy") {
			m.writes = []int{1}
		}
		if strings.HasSuffix(name, "XORBytes") {
			m.writes = []int{0}
			m.noTaint = true
		}
		return m, true
	case strings.HasPrefix(name, "crypto/sha256.") || strings.HasPrefix(name, "crypto/sha512."):
		return extModel{ct: true}, true
	case strings.HasPrefix(name, "math/bits."):
		f := name[len("math/bits."):]
		for _, p := range []string{"Mul", "Add", "Sub", "Rotate", "Reverse"} {
			if strings.HasPrefix(f, p) {
				return extModel{ct: true}, true
			}
		}
		return extModel{}, true
	case strings.HasPrefix(name, "(encoding/binary."):
		m := extModel{ct: true}
		if strings.Contains(name, ").Put") {
			m.writes = []int{1}
		}
		if strings.Contains(name, ").Append") {
			m.writes = []int{1}
			m.retRecv = false
		}
		return m, true
	case name == "crypto/rand.Read":
		return extModel{ct: true, writes: []int{0}, secret: true, noTaint: true}, true
	case name == "io.ReadFull" || name == "io.ReadAtLeast":
		return extModel{ct: true, writes: []int{1}, secret: true, noTaint: true}, true
	case name == "errors.New":
		return extModel{noTaint: true}, true
	case strings.HasPrefix(name, "fmt."):
		return extModel{}, true
	case strings.HasPrefix(name, "(*encoding/base64.Encoding).") || strings.HasPrefix(name, "encoding/hex."):
		f := name[strings.LastIndex(name, ".")+1:]
		m := extModel{}
		switch f {
		case "Encode", "Decode":
			if strings.HasPrefix(name, "encoding/hex.") {
				m.writes = []int{0}
			} else {
				m.writes = []int{1}
			}
		case "EncodedLen", "DecodedLen", "Strict", "WithPadding":
			m.ct = true
		}
		return m, true
	case strings.HasPrefix(name, "(*math/big.Int)."):
		f := name[len("(*math/big.Int)."):]
		m := extModel{}
		switch f {
		case "Bytes", "BitLen", "Bit", "Cmp", "CmpAbs", "Sign", "Int64", "Uint64", "IsInt64", "IsUint64", "String", "Text", "Bits", "TrailingZeroBits", "ProbablyPrime", "Float64", "Append":
		case "FillBytes":
			m.writes = []int{1}
		default:
			m.writes = []int{0}
			m.retRecv = true
		}
		return m, true
	case strings.HasPrefix(name, "math/big.") || strings.HasPrefix(name, "bytes.") || strings.HasPrefix(name, "strings.") || strings.HasPrefix(name, "strconv.") || strings.HasPrefix(name, "reflect."):
		return extModel{}, true
	case name == "invoke.Write":
		return extModel{ct: true, writes: []int{0}, noTaint: true}, true
	case name == "invoke.Sum":
		return extModel{ct: true, writes: []int{1}}, true
	case name == "invoke.Read":
		return extModel{ct: true, writes: []int{1}, secret: true, noTaint: true}, true
	case name == "invoke.Error" || name == "invoke.Reset" || name == "invoke.Size" || name == "invoke.BlockSize":
		return extModel{ct: true}, true
	}
	return extModel{}, false
}

func (fr *frame) extern(res *ssa.Call, name string, args []*absv, cc *ssa.CallCommon) {
	m, known := extFor(name)
	if !known {
		// unknown code: it may write everything it can reach
		for i := range args {
			m.writes = append(m.writes, i)
		}
	}
	t := false
	for i, a := range args {
		isErr := i < len(cc.Args) && isErrorType(cc.Args[i].Type())
		if a.taint && !isErr {
			t = true
		}
		if fr.loadVia(a).taint && len(a.pts) > 0 {
			t = true
		}
	}
	if t && !m.ct {
		fr.sinkAt("no secret passed to variable-time code", "secret data passed to "+name, cc.Pos())
	}
	for _, i := range m.writes {
		if i < len(args) && len(args[i].pts) > 0 {
			fr.oblig("store")
			fr.write(args[i], &absv{taint: t || m.secret}, cc.Pos(), name)
		}
	}
	if res == nil {
		return
	}
	mk := func(ty types.Type) *absv {
		a := &absv{taint: (t || m.secret) && !m.noTaint}
		if isPointery(ty) {
			if isErrorType(ty) {
				return &absv{taint: t && !m.ct && !m.noTaint}
			}
			if m.retRecv && len(args) > 0 {
				a.join(args[0])
				a.taint = false
				return a
			}
			l := loc{kind: lAlloc, v: res}
			a.taint = false
			a.addPt(l)
			mm := fr.memOf(l)
			if (t || m.secret) && !mm.taint {
				mm.taint = true
				fr.ch = true
			}
			if name == "invoke.Sum" || strings.Contains(name, ").Append") {
				if len(args) > 1 {
					a.join(&absv{pts: args[1].pts})
				}
			}
		}
		return a
	}
	if tt, ok := res.Type().(*types.Tuple); ok {
		out := &absv{}
		for i := 0; i < tt.Len(); i++ {
			out.tup = append(out.tup, mk(tt.At(i).Type()))
		}
		fr.set(res, out)
	} else {
		fr.set(res, mk(res.Type()))
	}
}

// powerOfTwo: a constant divisor for which the compiler emits shifts and masks.
func powerOfTwo(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
		return false
	}
	n, exact := constant.Uint64Val(k.Value)
	return exact && n != 0 && n&(n-1) == 0
}
