package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/callgraph"
	"golang.org/x/tools/go/callgraph/cha"
	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const module = "github.com/arl/go-detour"

// A variant is a build configuration of the program.
type variant struct {
	name string
	tags string
	env  []string
}

var variants = []variant{
	{name: "default"},
	{name: "tags=debug", tags: "debug"},
	{name: "GOARCH=386", env: []string{"GOARCH=386", "CGO_ENABLED=0"}},
	{name: "GOOS=windows", env: []string{"GOOS=windows", "CGO_ENABLED=0"}},
}

// Prog is the loaded program.
type Prog struct {
	variant  string
	repo     string
	fset     *token.FileSet
	prog     *ssa.Program
	pkgs     []*packages.Package // of the module
	ssaPkgs  map[string]*ssa.Package
	astPkgs  map[string]*packages.Package
	srcFuncs []*ssa.Function // all functions of the module, with bodies
	cg       *callgraph.Graph
	flowMemo map[string]interface{}
	mu       sync.Mutex
	cgOnce   sync.Once
}

func load(repo string, v variant) (*Prog, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo,
		Env: append(append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off"), v.env...)}
	if v.tags != "" {
		cfg.BuildFlags = []string{"-tags=" + v.tags}
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages")
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("%s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Prog{variant: v.name, repo: repo, fset: pkgs[0].Fset, prog: prog, ssaPkgs: map[string]*ssa.Package{},
		astPkgs: map[string]*packages.Package{}, flowMemo: map[string]interface{}{}}
	for _, pk := range pkgs {
		if !strings.HasPrefix(pk.PkgPath, module) {
			continue
		}
		p.pkgs = append(p.pkgs, pk)
		name := strings.TrimPrefix(strings.TrimPrefix(pk.PkgPath, module), "/")
		p.ssaPkgs[name] = prog.Package(pk.Types)
		p.astPkgs[name] = pk
	}
	for f := range ssautil.AllFunctions(prog) {
		if f.Blocks != nil && p.inModule(f) {
			p.srcFuncs = append(p.srcFuncs, f)
		}
	}
	sort.Slice(p.srcFuncs, func(i, j int) bool {
		a, b := p.srcFuncs[i], p.srcFuncs[j]
		if a.String() != b.String() {
			return a.String() < b.String()
		}
		return a.Pos() < b.Pos()
	})
	for _, n := range []string{"detour", "recast", "sample", "sample/solomesh", "sample/tilemesh", "cmd/recast/cmd", "cmd/recast"} {
		if p.ssaPkgs[n] == nil {
			return nil, fmt.Errorf("package %s not found", n)
		}
	}
	return p, nil
}

// funcPkg is the package a function belongs to, also for wrappers and closures.
func funcPkg(f *ssa.Function) *types.Package {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg
	}
	if obj := f.Object(); obj != nil {
		return obj.Pkg()
	}
	return nil
}

func (p *Prog) inModule(f *ssa.Function) bool {
	pk := funcPkg(f)
	return pk != nil && (pk.Path() == module || strings.HasPrefix(pk.Path(), module+"/"))
}

// relPkg returns the path of a package of the module relative to it.
func relPkg(pk *types.Package) string {
	return strings.TrimPrefix(strings.TrimPrefix(pk.Path(), module), "/")
}

// callGraph is the class hierarchy call graph of the whole program.
func (p *Prog) callGraph() *callgraph.Graph {
	p.cgOnce.Do(func() { p.cg = cha.CallGraph(p.prog) })
	return p.cg
}

// fn returns a package level function or method ("T.M") of the module, or nil.
func (p *Prog) lookup(pkg, name string) *ssa.Function {
	sp := p.ssaPkgs[pkg]
	if sp == nil {
		return nil
	}
	if t, m, ok := strings.Cut(name, "."); ok {
		obj := sp.Pkg.Scope().Lookup(t)
		if obj == nil {
			return nil
		}
		return p.prog.LookupMethod(types.NewPointer(obj.Type()), sp.Pkg, m)
	}
	return sp.Func(name)
}

// fn is lookup for a construct the rule is anchored on.
func (p *Prog) fn(pkg, name string) *ssa.Function {
	f := p.lookup(pkg, name)
	if f == nil {
		panic(fmt.Sprintf("function %s.%s not found", pkg, name))
	}
	// methods of the value receiver are wrapped for the pointer type
	if f.Synthetic != "" && strings.Contains(f.Synthetic, "wrapper") {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok && c.Call.StaticCallee() != nil && c.Call.StaticCallee().Name() == f.Name() {
					return c.Call.StaticCallee()
				}
			}
		}
	}
	return f
}

func (p *Prog) typ(pkg, name string) types.Type {
	sp := p.ssaPkgs[pkg]
	if sp != nil {
		if obj := sp.Pkg.Scope().Lookup(name); obj != nil {
			return obj.Type()
		}
	}
	panic(fmt.Sprintf("type %s.%s not found", pkg, name))
}

func (p *Prog) constVal(pkg, name string) int64 {
	sp := p.ssaPkgs[pkg]
	if sp != nil {
		if obj, ok := sp.Pkg.Scope().Lookup(name).(*types.Const); ok {
			if v, ok := constInt(obj.Val()); ok {
				return v
			}
		}
	}
	panic(fmt.Sprintf("constant %s.%s not found", pkg, name))
}

// pos renders a position relative to the repository.
func (p *Prog) pos(ps token.Pos) string {
	if !ps.IsValid() {
		return "-"
	}
	q := p.fset.Position(ps)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, p.repo+"/"), q.Line)
}

// instrPos is the position of an instruction, or of the closest one before it.
func (p *Prog) instrPos(in ssa.Instruction) string {
	if in == nil {
		return "-"
	}
	if in.Pos().IsValid() {
		return p.pos(in.Pos())
	}
	b := in.Block()
	best := token.NoPos
	for _, o := range b.Instrs {
		if o.Pos().IsValid() {
			best = o.Pos()
		}
		if o == in && best.IsValid() {
			break
		}
	}
	if best.IsValid() {
		return p.pos(best)
	}
	return p.pos(in.Parent().Pos())
}

// fname is a short stable name of a function.
func fname(f *ssa.Function) string {
	s := f.String()
	s = strings.ReplaceAll(s, module+"/", "")
	return s
}

func (p *Prog) dump(s string) {
	for _, f := range p.srcFuncs {
		if strings.Contains(f.String(), s) {
			f.WriteTo(os.Stdout)
		}
	}
}
