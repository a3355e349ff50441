package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Prog is the type-checked program in SSA form.
type Prog struct {
	Dir     string
	SSA     *ssa.Program
	Fset    *token.FileSet
	Pkgs    map[string]*ssa.Package // by import path, library packages
	TPkgs   map[string]*types.Package
	Funcs   []*ssa.Function // all source functions of the library
	infos   map[*ssa.Function]*fnInfo
	Mutable map[*types.Var]bool // fields stored outside construction
	globals map[*ssa.Global]int
	tabs    map[string]*table
	impls   map[types.Type][]types.Type
	AllPkgs []*packages.Package
}

func loadProg(dir string) (*Prog, error) {
	env := append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=0")
	cfg := &packages.Config{
		Dir:  dir,
		Mode: packages.LoadAllSyntax,
		Env:  env,
	}
	pats := []string{"./..."}
	ex, _ := filepath.Glob(filepath.Join(dir, "_examples", "*", "main.go"))
	for _, e := range ex {
		rel, _ := filepath.Rel(dir, filepath.Dir(e))
		pats = append(pats, "./"+rel)
	}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("type-checking failed: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	P := &Prog{
		Dir: dir, SSA: prog, Fset: prog.Fset,
		Pkgs: map[string]*ssa.Package{}, TPkgs: map[string]*types.Package{},
		infos: map[*ssa.Function]*fnInfo{}, Mutable: map[*types.Var]bool{},
		globals: map[*ssa.Global]int{}, impls: map[types.Type][]types.Type{},
		AllPkgs: pkgs,
	}
	for _, p := range pkgs {
		if p.Types == nil || !inRepoPkg(p.PkgPath) {
			continue
		}
		P.Pkgs[p.PkgPath] = prog.Package(p.Types)
		P.TPkgs[p.PkgPath] = p.Types
	}
	all := ssautil.AllFunctions(prog)
	for fn := range all {
		if len(fn.Blocks) == 0 || !inRepoPkg(fnPkg(fn)) {
			continue
		}
		if strings.Contains(fnPkg(fn), "/_examples/") {
			continue
		}
		if fn.Synthetic != "" && fn.Parent() == nil {
			continue
		}
		P.Funcs = append(P.Funcs, fn)
	}
	sort.Slice(P.Funcs, func(i, j int) bool { return P.Funcs[i].Pos() < P.Funcs[j].Pos() })
	P.findMutable()
	return P, nil
}

func (P *Prog) globalID(g *ssa.Global) int {
	if v, ok := P.globals[g]; ok {
		return v
	}
	P.globals[g] = len(P.globals) + 1
	return P.globals[g]
}

// findMutable marks the struct fields that are stored to other than
// while building a fresh object in the storing function.
func (P *Prog) findMutable() {
	for _, fn := range P.Funcs {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				s, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				a := s.Addr
				var f *types.Var
				for {
					switch t := a.(type) {
					case *ssa.FieldAddr:
						if f == nil {
							f = structField(t.X.Type(), t.Field)
						}
						a = t.X
						continue
					case *ssa.IndexAddr:
						if _, ok := t.X.Type().Underlying().(*types.Pointer); ok {
							a = t.X
							continue
						}
					}
					break
				}
				if f == nil {
					continue
				}
				if _, ok := a.(*ssa.Alloc); ok {
					continue
				}
				// nobody else changes a response once it was returned
				if f.Pkg() != nil && f.Pkg().Path() == "net/http" && (f.Name() == "StatusCode" || f.Name() == "Request" || f.Name() == "Header") {
					continue
				}
				P.Mutable[f] = true
			}
		}
	}
}

// Method finds the method called name on concrete type T.
func (P *Prog) Method(T types.Type, full string) *ssa.Function {
	name := full[strings.LastIndexByte(full, '.')+1:]
	ms := P.SSA.MethodSets.MethodSet(T)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return P.SSA.MethodValue(ms.At(i))
		}
	}
	return nil
}

// internalImpls lists the implementations of an unexported interface of
// the library; nil for any other interface.
func (P *Prog) internalImpls(t types.Type) []types.Type {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Exported() || n.Obj().Pkg() == nil || !inRepoPkg(n.Obj().Pkg().Path()) {
		return nil
	}
	it, ok := n.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	return P.Implementers(it)
}

// Implementers lists the library's concrete types implementing it.
func (P *Prog) Implementers(it *types.Interface) []types.Type {
	var out []types.Type
	var paths []string
	for p := range P.TPkgs {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		if strings.Contains(p, "_examples") {
			continue
		}
		sc := P.TPkgs[p].Scope()
		for _, name := range sc.Names() {
			tn, ok := sc.Lookup(name).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			T := tn.Type()
			if types.IsInterface(T) {
				continue
			}
			if nn, ok := T.(*types.Named); ok && nn.TypeParams().Len() > 0 {
				continue
			}
			if types.Implements(T, it) {
				out = append(out, T)
			} else if types.Implements(types.NewPointer(T), it) {
				out = append(out, types.NewPointer(T))
			}
		}
	}
	return out
}

// Func finds a package-level function.
func (P *Prog) Func(pkg, name string) *ssa.Function {
	p := P.Pkgs[pkg]
	if p == nil {
		return nil
	}
	return p.Func(name)
}

// Named finds a named type.
func (P *Prog) Named(pkg, name string) types.Type {
	p := P.TPkgs[pkg]
	if p == nil {
		return nil
	}
	o := p.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

// Meth finds a method of pkg.typ (pointer receiver set).
func (P *Prog) Meth(pkg, typ, name string) *ssa.Function {
	t := P.Named(pkg, typ)
	if t == nil {
		return nil
	}
	if m := P.methodOf(t, name); m != nil {
		return m
	}
	return P.methodOf(types.NewPointer(t), name)
}

func (P *Prog) methodOf(t types.Type, name string) *ssa.Function {
	ms := P.SSA.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return P.SSA.MethodValue(ms.At(i))
		}
	}
	return nil
}

// Field finds a field of a struct type by name.
func (P *Prog) Field(t types.Type, name string) (int, *types.Var) {
	if t == nil {
		return -1, nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1, nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i, s.Field(i)
		}
	}
	return -1, nil
}

func (P *Prog) Pos(p token.Pos) string {
	if p == token.NoPos {
		return "-"
	}
	q := P.Fset.Position(p)
	f := q.Filename
	if r, err := filepath.Rel(P.Dir, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (P *Prog) pkg(path string) *ssa.Package { return P.Pkgs[path] }

// stdType finds a named type of a dependency.
func (P *Prog) stdType(pkg, name string) types.Type {
	p := P.SSA.ImportedPackage(pkg)
	if p == nil {
		return nil
	}
	o := p.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

func (P *Prog) httpReq() types.Type  { return P.stdType("net/http", "Request") }
func (P *Prog) httpResp() types.Type { return P.stdType("net/http", "Response") }
func (P *Prog) httpURL() types.Type  { return P.stdType("net/url", "URL") }

// globalInit is the integer a package-level variable or constant starts as.
func (P *Prog) globalInit(pkg, name string) (int64, bool) {
	p := P.Pkgs[pkg]
	if p == nil {
		return 0, false
	}
	switch g := p.Members[name].(type) {
	case *ssa.NamedConst:
		return constTerm(g.Value).isInt()
	case *ssa.Global:
		for _, fn := range []*ssa.Function{p.Func("init")} {
			for _, b := range fn.Blocks {
				for _, i := range b.Instrs {
					if s, ok := i.(*ssa.Store); ok && s.Addr == g {
						if c, ok := s.Val.(*ssa.Const); ok && c.Value != nil {
							return constTerm(c).isInt()
						}
					}
				}
			}
		}
	}
	return 0, false
}
