package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/bwesterb/go-ristretto"
const edPath = modPath + "/edwards25519"

// Program is /repo under one build configuration.
type Program struct {
	name      string
	prog      *ssa.Program
	fset      *token.FileSet
	rist      *ssa.Package
	ed        *ssa.Package
	all       []*ssa.Function
	feI       *feInfo
	inv       limbInv
	invBad    map[string]string // producers that were not decided
	baseT     int               // the base point literal is B plus this multiple of (i,0)
	baseKnown bool
	mut       map[*ssa.Global]bool
	rnd       map[*ssa.Function]bool
	roots     map[*ssa.Function]bool
	preimage  *ssa.Function
}

// mutable lists the package variables that an exported function may write.
func (p *Program) mutable() map[*ssa.Global]bool {
	if p.mut == nil {
		p.mut = map[*ssa.Global]bool{}
		fl := newFlow(p)
		for _, f := range p.exported() {
			for l := range fl.analyse(f, entryArgs(f)).writes {
				if l.kind == lGlobal {
					p.mut[l.g] = true
				}
			}
		}
	}
	return p.mut
}

func (e *Env) load() {
	for _, c := range []struct {
		name string
		tags string
	}{{"radix51", ""}, {"generic", "forcegeneric"}} {
		e.configs = append(e.configs, loadProgram(e.repo, c.name, c.tags))
	}
}

func loadProgram(repo, name, tags string) *Program {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedExportFile | packages.NeedTypes | packages.NeedSyntax |
			packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: repo,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "GO111MODULE=on",
			"GOENV=off", "CGO_ENABLED=0", "GOOS=linux", "GOARCH=amd64"),
	}
	cfg.Mode &^= packages.NeedDeps
	if tags != "" {
		cfg.BuildFlags = []string{"-tags=" + tags}
	}
	pkgs, err := packages.Load(cfg, ".", "./edwards25519")
	if err != nil {
		panic(fmt.Sprintf("loading %s: %v", repo, err))
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			panic(fmt.Sprintf("type checking %s (%s): %v", p.PkgPath, name, e))
		}
	}
	prog, ssapkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	pr := &Program{name: name, prog: prog, fset: prog.Fset}
	for _, p := range ssapkgs {
		if p == nil {
			panic("no SSA for a package")
		}
		switch p.Pkg.Path() {
		case modPath:
			pr.rist = p
		case edPath:
			pr.ed = p
		}
	}
	if pr.rist == nil || pr.ed == nil {
		panic("packages of the module not found")
	}
	fns := ssautil.AllFunctions(prog)
	for f := range fns {
		if f.Blocks != nil && pr.inModule(f) {
			pr.all = append(pr.all, f)
		}
	}
	sort.Slice(pr.all, func(i, j int) bool { return pr.all[i].String() < pr.all[j].String() })
	return pr
}

func (p *Program) inModule(f *ssa.Function) bool {
	for g := f; g != nil; g = g.Parent() {
		if g.Pkg != nil {
			return strings.HasPrefix(g.Pkg.Pkg.Path(), modPath)
		}
		if g.Origin() != nil && g.Origin() != g {
			return p.inModule(g.Origin())
		}
	}
	return false
}

func (p *Program) pos(ps token.Pos) string {
	if !ps.IsValid() {
		return ""
	}
	q := p.fset.Position(ps)
	f := q.Filename
	if i := strings.LastIndex(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// fname is a short name: Point.Add, edwards25519.ExtendedPoint.Add, load3 ...
func fname(f *ssa.Function) string {
	s := f.String()
	s = strings.ReplaceAll(s, modPath+"/", "")
	s = strings.ReplaceAll(s, modPath+".", "")
	s = strings.NewReplacer("(*", "", "(", "", ")", "").Replace(s)
	return s
}

// method finds a method of a named type (pointer or value receiver).
func (p *Program) method(pk *ssa.Package, typ, name string) *ssa.Function {
	t := pk.Type(typ)
	if t == nil {
		panic(fmt.Sprintf("type %s.%s not found", pk.Pkg.Path(), typ))
	}
	for _, T := range []types.Type{types.NewPointer(t.Type()), t.Type()} {
		ms := p.prog.MethodSets.MethodSet(T)
		sel := ms.Lookup(pk.Pkg, name)
		if sel != nil {
			if f := p.prog.MethodValue(sel); f != nil {
				if f.Synthetic == "" {
					return f
				}
				if ff := pk.Prog.FuncValue(sel.Obj().(*types.Func)); ff != nil {
					return ff
				}
			}
		}
	}
	panic(fmt.Sprintf("method %s.%s not found", typ, name))
}

// exported returns the exported functions and methods of both packages.
func (p *Program) exported() []*ssa.Function {
	var r []*ssa.Function
	seen := map[*ssa.Function]bool{}
	add := func(f *ssa.Function) {
		if f != nil && f.Blocks != nil && !seen[f] && f.Synthetic == "" {
			seen[f] = true
			r = append(r, f)
		}
	}
	for _, pk := range []*ssa.Package{p.rist, p.ed} {
		for _, m := range pk.Members {
			switch m := m.(type) {
			case *ssa.Function:
				if token.IsExported(m.Name()) {
					add(m)
				}
			case *ssa.Type:
				if !token.IsExported(m.Name()) {
					continue
				}
				n, ok := m.Type().(*types.Named)
				if !ok {
					continue
				}
				for i := 0; i < n.NumMethods(); i++ {
					if n.Method(i).Exported() {
						add(p.prog.FuncValue(n.Method(i)))
					}
				}
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}
