package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/PatchLens/go-update-lens"

// World is the type-checked, SSA-form program of /repo's current tree.
type World struct {
	Repo    string
	Fset    *token.FileSet
	Pkgs    []*packages.Package // the repository's own packages
	Prog    *ssa.Program
	Lens    *ssa.Package
	LensPkg *packages.Package
	Own     map[*ssa.Package]bool
	Fns     []*ssa.Function // every function with a body in the repository's packages (incl. closures)
	NDeps   int

	callersOf map[*ssa.Function][]ssa.CallInstruction
	closures  map[*ssa.Function]*ssa.MakeClosure
	sums      map[string]any
	loopMemo  map[*ssa.Function][]*loop
	pfx       map[*ssa.Function]*paramFx
	fstores   map[*types.Var][]*ssa.Store
}

func repoDir() string {
	if d := os.Getenv("LENSCHECK_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func load() (*World, error) {
	repo := repoDir()
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo |
			packages.NeedTypesSizes | packages.NeedModule,
		Dir:  repo,
		Fset: fset,
		Env:  os.Environ(),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages found in %s", repo)
	}
	w := &World{Repo: repo, Fset: fset, Own: map[*ssa.Package]bool{}, sums: map[string]any{}}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
		w.Pkgs = append(w.Pkgs, p)
	}
	if len(errs) > 0 {
		sort.Strings(errs)
		return nil, fmt.Errorf("the tree does not type-check: %s", strings.Join(errs, "; "))
	}
	packages.Visit(pkgs, nil, func(p *packages.Package) { w.NDeps++ })
	sort.Slice(w.Pkgs, func(i, j int) bool { return w.Pkgs[i].PkgPath < w.Pkgs[j].PkgPath })
	prog, spkgs := ssautil.Packages(w.Pkgs, ssa.InstantiateGenerics)
	w.Prog = prog
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", w.Pkgs[i].PkgPath)
		}
		sp.Build()
		w.Own[sp] = true
		if strings.HasSuffix(w.Pkgs[i].PkgPath, "/lens") {
			w.Lens = sp
			w.LensPkg = w.Pkgs[i]
		}
	}
	if w.Lens == nil {
		return nil, fmt.Errorf("package lens not found among %d packages", len(w.Pkgs))
	}
	w.collect()
	return w, nil
}

func (w *World) collect() {
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		w.Fns = append(w.Fns, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for sp := range w.Own {
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				if named, ok := m.Type().(*types.Named); ok && named.TypeParams().Len() == 0 {
					for i := 0; i < named.NumMethods(); i++ {
						add(w.Prog.FuncValue(named.Method(i)))
					}
				}
			}
		}
	}
	// generic instances reached from source functions
	for i := 0; i < len(w.Fns); i++ {
		for _, b := range w.Fns[i].Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if cal := c.Common().StaticCallee(); cal != nil && cal.Origin() != nil && w.Own[cal.Origin().Pkg] {
						add(cal)
					}
				}
			}
		}
	}
	sort.SliceStable(w.Fns, func(i, j int) bool {
		a, b := w.Fset.Position(w.Fns[i].Pos()), w.Fset.Position(w.Fns[j].Pos())
		if a.Filename != b.Filename {
			return a.Filename < b.Filename
		}
		if a.Offset != b.Offset {
			return a.Offset < b.Offset
		}
		return w.Fns[i].String() < w.Fns[j].String()
	})
	w.callersOf = map[*ssa.Function][]ssa.CallInstruction{}
	w.closures = map[*ssa.Function]*ssa.MakeClosure{}
	for _, f := range w.Fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					w.closures[mc.Fn.(*ssa.Function)] = mc
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					for _, t := range w.Callees(c) {
						w.callersOf[t] = append(w.callersOf[t], c)
					}
				}
			}
		}
	}
}

// Pos renders a position relative to the repository.
func (w *World) Pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	pp := w.Fset.Position(p)
	rel, err := filepath.Rel(w.Repo, pp.Filename)
	if err != nil {
		rel = pp.Filename
	}
	return fmt.Sprintf("%s:%d", rel, pp.Line)
}

// FnName renders a function name without the module path.
func FnName(f *ssa.Function) string {
	if f == nil {
		return "<nil>"
	}
	return strings.ReplaceAll(strings.ReplaceAll(f.String(), modPath+"/", ""), modPath, "")
}
