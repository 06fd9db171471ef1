package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Prog is the type-checked SSA form of the repository's current source.
type Prog struct {
	Mod      string
	SSA      *ssa.Program
	Pkgs     map[string]*ssa.Package // by path relative to the module ("" = root)
	TPkgs    map[string]*types.Package
	Funcs    []*ssa.Function // every source function of the analysed packages
	Fset     *token.FileSet
	mutable  map[*types.Var]bool
	owner    map[*types.Var]string
	NFiles   int
	inMod    map[*types.Package]bool
	setMem   map[*types.Named]map[*types.Var]bool
	deadMem  map[*types.Named]bool
	dialsMem map[*ssa.Function]bool
	loopsMem map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
}

func skipPkg(rel string) bool {
	for _, p := range strings.Split(rel, "/") {
		switch p {
		case "examples", "example", "bench", "test", "mock", "batch":
			return true
		}
	}
	return false
}

func Load(dir string) (*Prog, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedSyntax | packages.NeedTypes | packages.NeedTypesInfo |
			packages.NeedImports | packages.NeedDeps | packages.NeedExportFile | packages.NeedTypesSizes | packages.NeedModule | packages.NeedCompiledGoFiles,
		Dir: dir,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local"),
	}
	// first the names, so that examples, benches and tests are left out
	names, err := packages.Load(&packages.Config{Mode: packages.NeedName | packages.NeedModule, Dir: dir, Env: cfg.Env}, "./...")
	if err != nil {
		return nil, err
	}
	mod := ""
	var pats []string
	for _, n := range names {
		if n.Module != nil {
			mod = n.Module.Path
		}
		rel := strings.TrimPrefix(strings.TrimPrefix(n.PkgPath, mod), "/")
		if skipPkg(rel) {
			continue
		}
		pats = append(pats, n.PkgPath)
	}
	if len(pats) == 0 {
		return nil, fmt.Errorf("no packages")
	}
	initial, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	p := &Prog{Mod: mod, Pkgs: map[string]*ssa.Package{}, TPkgs: map[string]*types.Package{}, mutable: map[*types.Var]bool{},
		owner: map[*types.Var]string{}, inMod: map[*types.Package]bool{}, dialsMem: map[*ssa.Function]bool{}, loopsMem: map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	for _, in := range initial {
		for _, e := range in.Errors {
			return nil, fmt.Errorf("%s: %s", e.Pos, e.Msg)
		}
		p.NFiles += len(in.CompiledGoFiles)
	}
	prog, pkgs := ssautil.Packages(initial, ssa.InstantiateGenerics)
	prog.Build()
	p.SSA = prog
	p.Fset = prog.Fset
	for i, sp := range pkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", initial[i].PkgPath)
		}
		rel := strings.TrimPrefix(strings.TrimPrefix(initial[i].PkgPath, mod), "/")
		p.Pkgs[rel] = sp
		p.TPkgs[rel] = sp.Pkg
		p.inMod[sp.Pkg] = true
	}
	all := ssautil.AllFunctions(prog)
	for fn := range all {
		if fn.Pkg != nil && p.inMod[fn.Pkg.Pkg] && len(fn.Blocks) > 0 {
			p.Funcs = append(p.Funcs, fn)
		}
	}
	sort.Slice(p.Funcs, func(i, j int) bool {
		if p.Funcs[i].String() != p.Funcs[j].String() {
			return p.Funcs[i].String() < p.Funcs[j].String()
		}
		return p.Funcs[i].Pos() < p.Funcs[j].Pos()
	})
	for rel, tp := range p.TPkgs {
		sc := tp.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			if st, ok := tn.Type().Underlying().(*types.Struct); ok {
				base := rel[strings.LastIndex(rel, "/")+1:]
				if base == "" {
					base = tp.Name()
				}
				for i := 0; i < st.NumFields(); i++ {
					p.owner[st.Field(i)] = base + "." + n + "." + st.Field(i).Name()
				}
			}
		}
	}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
						if _, fresh := rootOf(fa.X).(*ssa.Alloc); !fresh {
							p.mutable[fieldVar(fa)] = true
						}
					}
				}
			}
		}
	}
	return p, nil
}

func rootOf(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.UnOp:
			if x.Op == token.MUL {
				// a pointer loaded from a field of a fresh struct is treated as fresh
				if fa, ok := x.X.(*ssa.FieldAddr); ok {
					v = fa.X
					continue
				}
				if al, ok := x.X.(*ssa.Alloc); ok && al.Heap {
					return v
				}
			}
			return v
		default:
			return v
		}
	}
}

func fieldVar(fa *ssa.FieldAddr) *types.Var {
	return deref(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field)
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (p *Prog) Label(v *types.Var) string {
	if s, ok := p.owner[v]; ok {
		return s
	}
	return v.Name()
}

func (p *Prog) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	q := p.Fset.Position(pos)
	f := q.Filename
	if i := strings.Index(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// Named returns a named type of a package given relative to the module.
func (p *Prog) Named(pkg, name string) *types.Named {
	tp := p.TPkgs[pkg]
	if tp == nil {
		return nil
	}
	o := tp.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := o.Type().(*types.Named)
	return n
}

// Method finds method name of *pkg.typ (own or promoted).
func (p *Prog) Method(pkg, typ, name string) *ssa.Function {
	n := p.Named(pkg, typ)
	if n == nil {
		return nil
	}
	return p.MethodOf(types.NewPointer(n), name)
}

func (p *Prog) MethodOf(t types.Type, name string) *ssa.Function {
	ms := p.SSA.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return p.SSA.MethodValue(ms.At(i))
		}
	}
	return nil
}

func (p *Prog) Func(pkg, name string) *ssa.Function {
	sp := p.Pkgs[pkg]
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

// loops returns header -> body blocks of the natural loops of fn.
func (p *Prog) loops(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	if l, ok := p.loopsMem[fn]; ok {
		return l
	}
	res := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				body := res[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					res[s] = body
				}
				var stack []*ssa.BasicBlock
				if !body[b] {
					body[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, pr := range x.Preds {
						if !body[pr] {
							body[pr] = true
							stack = append(stack, pr)
						}
					}
				}
			}
		}
	}
	p.loopsMem[fn] = res
	return res
}
