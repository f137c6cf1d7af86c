package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C13"] = checkFn{
		rule:   "Interprocedural taint analysis over SSA, context sensitive, both back ends. Sources: all values and memory an exported operation receives (scalars, points, field elements, byte contents), hash output, random data. Sinks: branch conditions, memory indices, slice bounds and lengths, division, shift counts, ==/!= on arrays and strings, calls of code outside the module that is not known to be constant time. Roots: every exported function except those documented as variable time; a root that reaches a variable-time function is reported through the branches of that function. A branch on the outcome of a decoder is permitted when nothing secret is computed after it.",
		run:    checkConstantTime,
		floor:  map[string]int{"roots": 120, "obligations: branch": 20, "obligations: memory index": 1000},
		assume: []string{"lengths of byte strings are public", "crypto/subtle, math/bits Mul/Add/Sub, encoding/binary and SHA-2 of the standard library are constant time", "the Go compiler does not introduce branches for mask arithmetic"},
	}
	checks["C14"] = checkFn{
		rule:   "Interprocedural effect (mod) and result-alias analysis over SSA in both back ends: for every exported function the set of memory regions it may write (parameter pointees, globals, unknown memory) must be contained in the receiver and output buffers its contract allows; no package variable is written outside initialisation; returned pointers and slices are the receiver or fresh memory.",
		run:    checkEffects,
		floor:  map[string]int{"exported functions": 140, "obligations: store": 1000},
		assume: []string{"models of the standard library functions used (which arguments they write)"},
	}
}

// documented as variable time
func documentedVarTime(f *ssa.Function) bool {
	n := f.Name()
	if strings.HasPrefix(n, "Public") || strings.HasPrefix(n, "VarTime") {
		return true
	}
	switch n {
	case "BigInt", "SetBigInt", "String", "MarshalText", "UnmarshalText":
		return true
	}
	return false
}

func isDecoder(f *ssa.Function) bool {
	switch f.Name() {
	case "SetBytesStrict", "UnmarshalBinary", "SetRistretto":
		return true
	case "SetBytes":
		return f.Signature.Results().Len() == 1 && types.Identical(f.Signature.Results().At(0).Type(), types.Typ[types.Bool])
	}
	return false
}

func reachable(fl *flow, roots []*ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						visit(g)
					}
				}
			}
		}
		for _, g := range f.AnonFuncs {
			visit(g)
		}
	}
	for _, f := range roots {
		visit(f)
	}
	return seen
}

func checkConstantTime(env *Env, rep *Report) {
	for _, p := range env.configs {
		fl := newFlow(p)
		var roots, dec, nondec []*ssa.Function
		for _, f := range p.exported() {
			if documentedVarTime(f) {
				continue
			}
			roots = append(roots, f)
			if isDecoder(f) {
				dec = append(dec, f)
			} else {
				nondec = append(nondec, f)
			}
		}
		nd := reachable(fl, nondec)
		for f := range reachable(fl, dec) {
			if !nd[f] {
				fl.decoderOnly[f] = true
			}
		}
		for _, f := range roots {
			s := fl.analyse(f, entryArgs(f))
			rep.count("roots", 1)
			seen := map[string]bool{}
			for _, k := range s.sinks {
				if k.rule == "no goroutines" {
					continue
				}
				key := k.pos + k.rule
				if seen[key] {
					continue
				}
				seen[key] = true
				rep.violate(Violation{Config: p.name, Construct: fname(k.fn), Rule: k.rule, Detail: k.what + ", reached from " + fname(f), Pos: k.pos})
			}
		}
		rep.count("function contexts", fl.contexts)
		rep.count("functions reachable", len(reachable(fl, roots)))
		for k, n := range fl.obl {
			rep.count("obligations: "+k, n)
		}
		rep.sample("%s: %d roots, e.g. %s, %s", p.name, len(roots), fname(roots[0]), fname(roots[len(roots)-1]))
	}
}

// mayWrite lists the parameters (0 = receiver) whose pointee the contract lets f write.
func mayWrite(f *ssa.Function) (map[int]bool, bool) {
	recv := ""
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			recv = n.Obj().Name()
		}
	}
	switch f.Name() {
	case "Bytes", "Equals", "EqualsI", "IsNonZeroI", "IsNegativeI", "IsOneI", "BigInt", "String", "MarshalBinary",
		"MarshalText", "Lizard", "Ristretto", "RistrettoEqualsI":
		return map[int]bool{}, true
	case "BytesInto", "LizardInto", "RistrettoInto", "RistrettoElligator2Inverse", "ToJacobiQuarticRistretto":
		return map[int]bool{1: true}, true
	case "ScalarMult", "VarTimeScalarMult":
		if recv == "ScalarMultTable" {
			return map[int]bool{1: true}, true
		}
		return map[int]bool{0: true}, true
	case "Set", "SetZero", "SetOne", "SetI", "SetBase", "Add", "Sub", "Double", "Neg", "Mul", "Square", "DoubledSquare", "MulAdd", "MulSub",
		"Inverse", "Abs", "Sqrt", "InvSqrt", "InvSqrtI", "Exp22523", "ConditionalSet", "SetBytes", "SetBytesStrict", "SetReduced", "SetBigInt", "SetUint64",
		"Derive", "DeriveShort", "DeriveDalek", "Rand", "SetElligator", "SetLizard", "ScalarMultTable", "ScalarMultBase", "PublicScalarMult",
		"PublicScalarMultTable", "PublicScalarMultBase", "UnmarshalBinary", "UnmarshalText", "Compute", "SetRistretto", "SetCompleted", "SetExtended",
		"SetTorsion1", "SetTorsion2", "SetTorsion3", "AddExtended", "SubExtended", "DoubleProjective", "DoubleExtended", "AddExtendedNiels",
		"SubExtendedNiels", "Dual", "SetJacobiQuartic", "SetRistrettoElligator2":
		return map[int]bool{0: true}, true
	}
	return nil, false
}

func checkEffects(env *Env, rep *Report) {
	for _, p := range env.configs {
		fl := newFlow(p)
		for _, f := range p.exported() {
			s := fl.analyse(f, entryArgs(f))
			rep.count("exported functions", 1)
			allowed, listed := mayWrite(f)
			var ls []loc
			for l := range s.writes {
				ls = append(ls, l)
			}
			sort.Slice(ls, func(i, j int) bool { return ls[i].String() < ls[j].String() })
			for _, l := range ls {
				e := s.writes[l]
				switch l.kind {
				case lParam:
					if listed && !allowed[l.i] {
						pn := "?"
						if l.i < len(f.Params) {
							pn = f.Params[l.i].Name()
						}
						rep.violate(Violation{Config: p.name, Construct: fname(f), Rule: "an operation writes only its receiver and documented outputs",
							Detail: fmt.Sprintf("may write the memory of %s (via %s)", pn, e.via), Pos: e.pos})
					}
					if listed && allowed[l.i] {
						rep.count("permitted outputs", 1)
					}
				case lGlobal:
					rep.violate(Violation{Config: p.name, Construct: fname(f), Rule: "no package state is written", Detail: fmt.Sprintf("may write package variable %s (via %s)", l.g.Name(), e.via), Pos: e.pos})
				case lExtern:
					rep.violate(Violation{Config: p.name, Construct: fname(f), Rule: "an operation writes only its receiver and documented outputs", Detail: fmt.Sprintf("writes through a pointer of unknown origin (via %s)", e.via), Pos: e.pos})
				}
			}
			for _, k := range s.sinks {
				if k.rule == "no goroutines" {
					rep.violate(Violation{Config: p.name, Construct: fname(f), Rule: k.rule, Detail: k.what, Pos: k.pos})
				}
			}
			// results
			for i, r := range s.ret.tup {
				rt := f.Signature.Results().At(i).Type()
				if !isPointery(rt) || isErrorType(rt) {
					continue
				}
				rep.count("pointer results", 1)
				_, isPtr := rt.Underlying().(*types.Pointer)
				for l := range r.pts {
					switch {
					case l.kind == lAlloc:
					case l.kind == lParam && l.i == 0 && isPtr && f.Signature.Recv() != nil:
					case l.kind == lParam && !listed:
					default:
						rep.violate(Violation{Config: p.name, Construct: fname(f), Rule: "results do not alias operands or shared storage",
							Detail: fmt.Sprintf("result %d may alias %s", i, locName(f, l)), Pos: p.pos(f.Pos())})
					}
				}
			}
		}
		// package initialisers and unexported functions never reachable are covered through the roots
		rep.count("function contexts", fl.contexts)
		for k, n := range fl.obl {
			if k == "store" || k == "call" {
				rep.count("obligations: "+k, n)
			}
		}
		// no init function beyond the variable initialisers may start work
		for _, pk := range []*ssa.Package{p.rist, p.ed} {
			for _, m := range pk.Members {
				if g, ok := m.(*ssa.Global); ok {
					rep.count("package variables", 1)
					if isPointery(g.Type().(*types.Pointer).Elem()) {
						rep.sample("package variable %s holds pointers", g.Name())
					}
				}
			}
		}
	}
}

func locName(f *ssa.Function, l loc) string {
	if l.kind == lParam && l.i < len(f.Params) {
		return "the memory of " + f.Params[l.i].Name()
	}
	return l.String()
}
