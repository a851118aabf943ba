package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/clipperhouse/jargon"

// Verifier holds the program under verification, the contracts and the theory.
type Verifier struct {
	specs     *Specs
	th        *Theory
	prog      *ssa.Program
	pkgs      []*ssa.Package
	pathAlias map[string]string
	byName    map[string]*ssa.Function
	solver    *Solver
	dropped   map[string]bool // soft contracts that no longer fit: their functions are inlined
	repo      string
	compSort  map[string]Sort // sorts of memory components
	refuted   func() bool     // whether a failing input is known (nil: can not tell)
	hints     map[string]Hint // loop invariants found earlier, by unit
}

// Hint lists the loop invariants and variants with which a unit was verified. It only saves the search for
// them: they are proved again on every run, and searched for again if that fails.
type Hint struct {
	Choice int
	Cands  []string
}

func newVerifier(repo, contractDir string) (*Verifier, error) {
	v := &Verifier{pathAlias: map[string]string{}, byName: map[string]*ssa.Function{}, dropped: map[string]bool{}, repo: repo, compSort: map[string]Sort{}}
	var err error
	v.th, err = loadTheory(filepath.Join(contractDir, "theory.lisp"))
	if err != nil {
		return nil, err
	}
	if b, err := os.ReadFile(filepath.Join(contractDir, "hints.json")); err == nil && os.Getenv("GOCV_NOHINTS") == "" {
		if err := json.Unmarshal(b, &v.hints); err != nil {
			return nil, err
		}
	}
	wins := map[string]string{}
	if b, err := os.ReadFile(filepath.Join(contractDir, "wins.json")); err == nil && os.Getenv("GOCV_NOHINTS") == "" {
		if err := json.Unmarshal(b, &wins); err != nil {
			return nil, err
		}
	}
	v.specs = newSpecs()
	fs, _ := filepath.Glob(filepath.Join(contractDir, "*.spec"))
	sort.Strings(fs)
	for _, f := range fs {
		if err := v.specs.loadFile(f); err != nil {
			return nil, err
		}
	}
	v.solver = newSolver(v.th)
	v.solver.wins = wins
	if err := v.solver.loadFold(contractDir); err != nil {
		return nil, err
	}
	for a, p := range v.specs.aliases {
		v.pathAlias[p] = a
	}
	if err := v.load(); err != nil {
		return nil, err
	}
	return v, nil
}

func (v *Verifier) load() error {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:  v.repo,
		Env:  append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off"),
	}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return err
	}
	for _, p := range ps {
		if len(p.Errors) > 0 {
			return fmt.Errorf("package %s does not load: %v", p.PkgPath, p.Errors[0])
		}
	}
	prog, pkgs := ssautil.Packages(ps, ssa.InstantiateGenerics)
	v.prog = prog
	for _, p := range pkgs {
		if p == nil {
			continue
		}
		if strings.Contains(p.Pkg.Path(), "/generate") {
			continue
		}
		p.Build()
		v.pkgs = append(v.pkgs, p)
	}
	sort.Slice(v.pkgs, func(i, j int) bool { return v.pkgs[i].Pkg.Path() < v.pkgs[j].Pkg.Path() })
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Pkg == nil || !v.inRepo(fn.Pkg.Pkg) || fn.Synthetic != "" {
			continue
		}
		v.byName[v.fnName(fn)] = fn
	}
	for _, p := range v.pkgs {
		for _, m := range p.Members {
			switch m := m.(type) {
			case *ssa.Function:
				v.byName[v.fnName(m)] = m
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						if fn := prog.MethodValue(ms.At(i)); fn != nil && fn.Synthetic == "" {
							v.byName[v.fnName(fn)] = fn
						}
					}
				}
			}
		}
	}
	return nil
}

func (v *Verifier) pkgByAlias(a string) *ssa.Package {
	for _, p := range v.pkgs {
		if v.alias(p.Pkg) == a {
			return p
		}
	}
	for _, p := range v.prog.AllPackages() {
		if v.alias(p.Pkg) == a {
			return p
		}
	}
	return nil
}

func (v *Verifier) global(alias, name string) *ssa.Global {
	p := v.pkgByAlias(alias)
	if p == nil {
		return nil
	}
	g, _ := p.Members[name].(*ssa.Global)
	return g
}

func (v *Verifier) findFn(name string) *ssa.Function {
	if f := v.byName[name]; f != nil {
		return f
	}
	if i := strings.LastIndexByte(name, '.'); i > 0 && !strings.HasPrefix(name, "(") {
		if p := v.pkgByAlias(name[:i]); p != nil {
			return p.Func(name[i+1:])
		}
	}
	return nil
}

func (v *Verifier) namedType(name string) types.Type {
	i := strings.LastIndexByte(name, '.')
	if i < 0 {
		return nil
	}
	p := v.pkgByAlias(name[:i])
	if p == nil {
		return nil
	}
	o := p.Pkg.Scope().Lookup(name[i+1:])
	if o == nil {
		return nil
	}
	return o.Type()
}

func (v *Verifier) tokStruct() *types.Struct {
	t := v.namedType("jargon.Token")
	if t == nil {
		panic(Unsupported{"no type jargon.Token"})
	}
	return t.Underlying().(*types.Struct)
}

// ifaceContract finds the contract of an interface method through the interface that declares it
func (v *Verifier) ifaceContract(m *types.Func) *Contract {
	r := m.Type().(*types.Signature).Recv()
	if r == nil {
		return nil
	}
	return v.contract("(" + v.typeKey(r.Type()) + ")." + m.Name())
}

func (v *Verifier) contract(name string) *Contract {
	if v.dropped[name] {
		return nil
	}
	return v.specs.contracts[name]
}
