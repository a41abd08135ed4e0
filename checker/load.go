package main

import (
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/smartbch/moeingads"

// The packages that make up the product. Fuzz and benchmark drivers are not
// part of it.
var prodPkgs = []string{
	".", "./types", "./datatree", "./indextree", "./indextree/b",
	"./indextree/b/cppbtree", "./metadb", "./store", "./store/rabbit", "./store/types",
}

// Test doubles that live in non-test files.
var mockTypes = map[string]bool{
	"MockIndexTree": true, "MockDataTree": true, "MockRootStore": true,
	"MockRootStore4Test": true, "MockMetaDB": true,
}

type Program struct {
	Repo  string
	Prog  *ssa.Program
	Pkgs  map[string]*ssa.Package // keyed by path relative to the module ("" is the root)
	Syn   map[string]*packages.Package
	Funcs []*ssa.Function // every function with a body of the production packages, closures included
	loops map[*ssa.Function]*LoopInfo
	names [3]map[string]bool
}

func (p *Program) prepNames() {
	if p.names[0] != nil {
		return
	}
	for i := range p.names {
		p.names[i] = map[string]bool{}
	}
	for _, pk := range p.Syn {
		p.names[2][pk.Types.Name()] = true
		for id, o := range pk.TypesInfo.Defs {
			p.names[0][id.Name] = true
			if _, ok := o.(*types.TypeName); ok {
				p.names[2][id.Name] = true
			}
		}
		for id := range pk.TypesInfo.Uses {
			p.names[1][id.Name] = true
		}
	}
}

// idents: the names declared in the module; externs: the names used in it;
// ownScope: the names of its packages and types.
func (p *Program) idents() map[string]bool   { p.prepNames(); return p.names[0] }
func (p *Program) externs() map[string]bool  { p.prepNames(); return p.names[1] }
func (p *Program) ownScope() map[string]bool { p.prepNames(); return p.names[2] }

func loadEnv(repo string) []string {
	env := os.Environ()
	out, err := exec.Command("bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0").Output()
	if err == nil && len(out) > 0 {
		env = nil
		for _, kv := range strings.Split(string(out), "\x00") {
			if kv != "" {
				env = append(env, kv)
			}
		}
	}
	return env
}

func Load(repo string) (*Program, error) {
	env := loadEnv(repo)
	// go/packages runs "go" from PATH of this process
	for _, kv := range env {
		if strings.HasPrefix(kv, "PATH=") {
			os.Setenv("PATH", kv[5:])
		}
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles |
			packages.NeedImports | packages.NeedTypes | packages.NeedTypesSizes |
			packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule | packages.NeedExportFile,
		Dir:        repo,
		Env:        env,
		BuildFlags: []string{"-tags", "cppbtree"},
	}
	pkgs, err := packages.Load(cfg, prodPkgs...)
	if err != nil {
		return nil, err
	}
	p := &Program{Repo: repo, Pkgs: map[string]*ssa.Package{}, Syn: map[string]*packages.Package{}, loops: map[*ssa.Function]*LoopInfo{}}
	for _, pk := range pkgs {
		for _, e := range pk.Errors {
			return nil, fmt.Errorf("load %s: %v", pk.PkgPath, e)
		}
	}
	prog, sp := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p.Prog = prog
	for i, pk := range pkgs {
		rel := strings.TrimPrefix(strings.TrimPrefix(pk.PkgPath, modPath), "/")
		if sp[i] == nil {
			return nil, fmt.Errorf("no SSA for %s", pk.PkgPath)
		}
		p.Pkgs[rel] = sp[i]
		p.Syn[rel] = pk
	}
	if len(p.Pkgs) < 8 {
		return nil, fmt.Errorf("only %d packages loaded", len(p.Pkgs))
	}
	inProd := map[*ssa.Package]bool{}
	for _, s := range p.Pkgs {
		inProd[s] = true
	}
	for f := range ssautil.AllFunctions(prog) {
		if f.Blocks == nil || f.Pkg == nil || !inProd[f.Pkg] {
			continue
		}
		if isMock(f) || strings.HasSuffix(p.File(f), "_test.go") {
			continue
		}
		p.Funcs = append(p.Funcs, f)
	}
	sort.Slice(p.Funcs, func(i, j int) bool { return p.Funcs[i].String() < p.Funcs[j].String() })
	return p, nil
}

func isMock(f *ssa.Function) bool {
	for g := f; g != nil; g = g.Parent() {
		if r := g.Signature.Recv(); r != nil {
			if mockTypes[namedName(r.Type())] || strings.HasPrefix(namedName(r.Type()), "Mock") {
				return true
			}
		}
		if g.Parent() == nil {
			if strings.Contains(g.Name(), "Mock") {
				return true
			}
		}
	}
	return false
}

func namedName(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if a, ok := t.(*types.Alias); ok {
		t = types.Unalias(a)
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

func (p *Program) File(f *ssa.Function) string {
	if !f.Pos().IsValid() {
		return ""
	}
	return p.Prog.Fset.Position(f.Pos()).Filename
}

// Where gives file:line of an instruction, relative to the repository.
func (p *Program) Where(ins ssa.Instruction) string {
	if ins == nil {
		return "?"
	}
	pos := ins.Pos()
	if !pos.IsValid() {
		// take a neighbour's position
		for _, x := range ins.Block().Instrs {
			if x.Pos().IsValid() {
				pos = x.Pos()
				break
			}
		}
	}
	if !pos.IsValid() {
		pos = ins.Parent().Pos()
	}
	ps := p.Prog.Fset.Position(pos)
	rel, err := filepath.Rel(p.Repo, ps.Filename)
	if err != nil {
		rel = ps.Filename
	}
	return fmt.Sprintf("%s:%d", rel, ps.Line)
}

// Fn finds a function or method: Fn("datatree", "(*HPFile).Append") or
// Fn("datatree", "RecoverTree"). It is nil when there is none.
func (p *Program) Fn(pkg, name string) *ssa.Function {
	sp := p.Pkgs[pkg]
	if sp == nil {
		return nil
	}
	if !strings.HasPrefix(name, "(") {
		return sp.Func(name)
	}
	i := strings.Index(name, ").")
	tn, mn := strings.TrimPrefix(name[1:i], "*"), name[i+2:]
	obj := sp.Pkg.Scope().Lookup(tn)
	if obj == nil {
		return nil
	}
	t := types.Type(obj.Type())
	for _, ty := range []types.Type{t, types.NewPointer(t)} {
		ms := p.Prog.MethodSets.MethodSet(ty)
		for j := 0; j < ms.Len(); j++ {
			s := ms.At(j)
			if s.Obj().Name() == mn {
				f := p.Prog.MethodValue(s)
				if f != nil && f.Synthetic == "" {
					return f
				}
				if f != nil && len(s.Index()) == 1 {
					return f
				}
			}
		}
	}
	return nil
}

func relPkg(pk *types.Package) string {
	if pk == nil {
		return ""
	}
	return strings.TrimPrefix(strings.TrimPrefix(pk.Path(), modPath), "/")
}

func inModule(pk *types.Package) bool {
	return pk != nil && strings.HasPrefix(pk.Path(), modPath)
}
