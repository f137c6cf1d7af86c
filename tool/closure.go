package main

// C15 and C18: every exported function, on arbitrary operands within the limb
// invariants, values of field elements forgotten.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

const ruleC15 = "abstract interpretation of every exported function on arbitrary operands and slices of arbitrary length: every index, slice bound, conversion, dereference and division is within its bounds, and no panic statement is reachable except under an error of the random source"
const ruleC18 = "abstract interpretation of every exported function on all limb vectors of the inferred limb invariant: every field operation keeps its exact value (no machine word wraps) and every structure it leaves is again within the invariant, so the invariant holds after every sequence of operations"

func init() {
	checks["C15"] = checkFn{rule: ruleC15, run: func(e *Env, rep *Report) { runClosure(e, rep, ruleC15, true) },
		split: true, floor: map[string]int{"functions": 100, "obligations": 200},
		assume: []string{
			"pointer operands are not nil and scalars are reduced (C10, C11)",
			"the standard library functions called do not panic within their documented preconditions",
		}}
	checks["C18"] = checkFn{rule: ruleC18, run: func(e *Env, rep *Report) { runClosure(e, rep, ruleC18, false) },
		split: true, floor: map[string]int{"functions": 100, "structures within the invariant": 100},
		assume: []string{
			"field elements passed directly to the exported FieldElement methods are within the documented limb bounds",
		}}
}

func runClosure(e *Env, rep *Report, rule string, safety bool) {
	for _, p := range []*Program{e.configs[1], e.configs[0]} {
		t0 := time.Now()
		inv := p.invariants()
		dbg("TIME invariants %s %v", p.name, time.Since(t0))
		if !safety {
			var fs []string
			for f := range p.invBad {
				fs = append(fs, f)
			}
			sort.Strings(fs)
			for _, f := range fs {
				rep.violate(Violation{Rule: rule, Config: p.name, Construct: f, Detail: "the limb bounds of the result are not established: " + p.invBad[f]})
			}
		}
		for _, pk := range []*ssa.Package{p.rist, p.ed} {
			fns := append([]*ssa.Function{}, exported(p, pk)...)
			sort.SliceStable(fns, func(i, j int) bool { return weight(fns[i]) > weight(fns[j]) })
			for _, fn := range fns {
				name := shortName(fn)
				if !only(p.name + " " + name) {
					continue
				}
				if viaRist(p, fn) {
					rep.count("functions analysed through their callers", 1)
					continue
				}
				b := newBench(p, rep, rule)
				b.it.havoc = true
				b.guard(name, func() {
					b.pos = p.pos(fn.Pos())
					rep.count("functions", 1)
					b.closure(fn, inv, safety)
				})
			}
		}
	}
}

// weight orders the functions: the expensive ones first.
func weight(fn *ssa.Function) int {
	w := 0
	if strings.Contains(fn.Name(), "ScalarMult") {
		w += 2
		if strings.Contains(fn.Name(), "Public") {
			w++
		}
	}
	return w
}

func shortName(fn *ssa.Function) string {
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			return fn.Pkg.Pkg.Name() + "." + n.Obj().Name() + "." + fn.Name()
		}
	}
	return fn.Pkg.Pkg.Name() + "." + fn.Name()
}

// closure analyses one function.
func (b *bench) closure(fn *ssa.Function, inv limbInv, safety bool) {
	if b.multClosure(fn, inv, safety) {
		return
	}
	// a receiver that is only written needs no case distinction
	if len(fn.Params) > 0 {
		if pt, ok := fn.Params[0].Type().Underlying().(*types.Pointer); ok && structName(b.p, pt.Elem()) != "" {
			if b.attempt(fn, inv, safety) {
				return
			}
			np := newBench(b.p, b.rep, b.rule)
			np.it.havoc = true
			np.cur, np.pos = b.cur, b.pos
			np.closed(fn, inv, safety, false)
			return
		}
	}
	b.closed(fn, inv, safety, false)
}

// viaRist: a scalar multiplication of package edwards25519 that is called by
// an exported method of package ristretto (with reduced scalars).
func viaRist(p *Program, fn *ssa.Function) bool {
	if fn.Pkg != p.ed || !strings.Contains(fn.Name(), "ScalarMult") {
		return false
	}
	for _, g := range exported(p, p.rist) {
		if g.Pkg == p.rist && reaches(g, fn, map[*ssa.Function]bool{}) {
			return true
		}
	}
	return false
}

func reaches(from, to *ssa.Function, seen map[*ssa.Function]bool) bool {
	if from == to {
		return true
	}
	if seen[from] {
		return false
	}
	seen[from] = true
	for _, bl := range from.Blocks {
		for _, in := range bl.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if f := c.Common().StaticCallee(); f != nil && reaches(f, to, seen) {
					return true
				}
			}
		}
	}
	return false
}

// multClosure analyses a scalar multiplication with the values of points and
// digits kept.
func (b *bench) multClosure(fn *ssa.Function, inv limbInv, safety bool) bool {
	if fn.Pkg != b.p.rist || !strings.Contains(fn.Name(), "ScalarMult") || structName(b.p, deref(fn.Params[0].Type())) == "" {
		return false
	}
	var kinds []int // per operand: 0 scalar, 1 point, 2 table
	alts := []int{1}
	for _, q := range fn.Params[1:] {
		t := deref(q.Type())
		switch {
		case sameType(t, b.p.scalarType()):
			kinds, alts = append(kinds, 0), append(alts, 1)
		case structName(b.p, t) == "ExtendedPoint":
			kinds, alts = append(kinds, 1), append(alts, len(inv["ExtendedPoint"]))
		case len(b.it.pointOffsets(t)) == 256:
			kinds, alts = append(kinds, 2), append(alts, 1)
		default:
			return false
		}
	}
	np := newPointBench(b.p, b.rep, b.rule)
	np.cur, np.pos = b.cur, b.pos
	product(alts, func(alt []int) {
		st := newState()
		r, _ := np.newPoint(st, "R", 0)
		args := []Val{r}
		for i, k := range kinds {
			var a PtrV
			switch k {
			case 0:
				a, _ = np.newScalar(st, fmt.Sprintf("s%d", i))
			case 1:
				a, _ = np.newPoint(st, fmt.Sprintf("Q%d", i), alt[i+1])
			case 2:
				a, _ = np.newTable(st, fmt.Sprintf("Q%d", i), deref(fn.Params[i+1].Type()))
			}
			args = append(args, a)
		}
		before := len(np.it.panics)
		outs := np.it.callFn(fn, args, nil, st, nil)
		if safety {
			np.reachable(before)
			return
		}
		for _, o := range outs {
			np.shapesAt(o.st, r.obj, deref(fn.Params[0].Type()), func(name string, s shape) {
				np.within(inv, name, s, 0)
			})
		}
	})
	if safety {
		np.obligations()
	}
	return true
}

func deref(t types.Type) types.Type {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		return pt.Elem()
	}
	return t
}

// reachable reports the panics found since the given count.
func (b *bench) reachable(n int) {
	it := b.it
	for _, pr := range it.panics[n:] {
		ok := false
		for _, r := range it.randLog {
			if k, isC := it.under(pr.facts, symPoly(r.err)).IsConst(); isC && k.Sign() != 0 {
				ok = true
			}
		}
		if !ok {
			b.fail("a panic is reachable at %s", pr.pos)
		}
		b.rep.count("panics under a random source error", 1)
	}
}

func (b *bench) obligations() {
	for _, o := range b.it.obls {
		b.rep.count("obligations", 1)
		if !o.ok {
			b.fail("%s: %s in %s at %s", o.kind, o.detail, o.fn, o.pos)
		}
	}
}

func (b *bench) within(inv limbInv, name string, s shape, i int) {
	b.rep.count("structures within the invariant", 1)
	if name == "FieldElement" {
		if !s.within(shape{b.p.fe().lim}) {
			b.fail("operand %d is left with limbs %v, outside the documented bounds", i, s)
		}
		return
	}
	for _, t := range inv[name] {
		if s.within(t) {
			return
		}
	}
	b.fail("operand %d is left with limbs outside the invariant: %v", i, s)
}

func (b *bench) attempt(fn *ssa.Function, inv limbInv, safety bool) (ok bool) {
	depth := len(b.it.stack)
	rep := b.rep
	b.rep = &Report{Counts: map[string]int{}}
	defer func() {
		b.it.stack = b.it.stack[:depth]
		tried := b.rep
		b.rep = rep
		if x := recover(); x != nil {
			if _, is := x.(undecidedErr); !is {
				panic(x)
			}
			return
		}
		if len(tried.Violations) > 0 {
			return
		}
		for k, n := range tried.Counts {
			rep.count(k, n)
		}
		ok = true
	}()
	b.closed(fn, inv, safety, true)
	return
}

func (b *bench) closed(fn *ssa.Function, inv limbInv, safety, fresh bool) {
	it := b.it
	alts := make([]int, len(fn.Params))
	for i, q := range fn.Params {
		alts[i] = b.choices(q.Type(), inv)
	}
	if fresh {
		alts[0] = 1
	}
	product(alts, func(alt []int) {
		st := newState()
		var args []Val
		for i, q := range fn.Params {
			if i == 0 && fresh {
				t := q.Type().Underlying().(*types.Pointer).Elem()
				o := it.newObj(st, "r", t, flatSize(t))
				for j := 0; j < o.n; j++ {
					it.store1(st, o, j, BotV{"uninitialised"})
				}
				args = append(args, PtrV{o, 0})
				continue
			}
			args = append(args, b.arbitrary(st, fmt.Sprintf("a%d", i), q.Type(), inv, alt[i]))
		}
		objs := append([]Val{}, args...)
		for i, p := range fn.Params { // value receivers
			if ptr, ok := args[i].(PtrV); ok && isAgg(p.Type()) {
				args[i] = it.loadT(st, ptr.obj, ptr.off, p.Type())
			}
		}
		np := len(it.panics)
		outs := it.callFn(fn, args, nil, st, nil)
		if safety {
			b.reachable(np)
			return
		}
		for _, o := range outs {
			for i, q := range fn.Params {
				pt, ok := q.Type().Underlying().(*types.Pointer)
				if !ok || isBigInt(pt.Elem()) {
					continue
				}
				b.shapesAt(o.st, objs[i].(PtrV).obj, pt.Elem(), func(name string, s shape) {
					b.within(inv, name, s, i)
				})
			}
		}
	})
	if safety {
		b.obligations()
	}
}
