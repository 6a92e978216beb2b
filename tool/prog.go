package main

// Loading of the program under analysis, and naming of its parts by their role.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const repoModule = "github.com/williamflynt/topolith"

type Prog struct {
	dir     string
	fset    *token.FileSet
	pkgs    []*packages.Package
	prog    *ssa.Program
	spkgs   map[string]*ssa.Package // by import path
	byPath  map[string]*packages.Package
	nlCache map[*ssa.Function]map[*ssa.BasicBlock]*natLoop
	role    map[*types.TypeName]string     // concrete type -> role
	impl    map[*types.TypeName]types.Type // interface -> its only implementation (pointer type)
	goos    string
	consts  *constTables
}

// Load type-checks and builds the packages of dir. Any error in them is fatal: nothing could be decided.
func Load(dir string, env []string, patterns ...string) (*Prog, error) {
	return loadOverlay(dir, env, nil, patterns...)
}

func loadOverlay(dir string, env []string, overlay map[string][]byte, patterns ...string) (*Prog, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes |
			packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedDeps | packages.NeedModule | packages.NeedEmbedFiles,
		Dir:     dir,
		Overlay: overlay,
		Env:     append(append(cleanEnv(), "GOPROXY=off", "GOFLAGS=-mod=readonly", "GOTOOLCHAIN=local", "GOWORK=off"), env...),
	}
	ps, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	if len(ps) == 0 {
		return nil, fmt.Errorf("no packages in %s", dir)
	}
	p := &Prog{dir: dir, pkgs: ps, fset: ps[0].Fset, spkgs: map[string]*ssa.Package{}, byPath: map[string]*packages.Package{},
		nlCache: map[*ssa.Function]map[*ssa.BasicBlock]*natLoop{}, role: map[*types.TypeName]string{}, impl: map[*types.TypeName]types.Type{}}
	for _, q := range ps {
		for _, e := range q.Errors {
			return nil, fmt.Errorf("%s: %v", q.PkgPath, e)
		}
		if q.IllTyped || q.Types == nil {
			return nil, fmt.Errorf("%s does not type-check", q.PkgPath)
		}
	}
	prog, sp := ssautil.Packages(ps, ssa.InstantiateGenerics)
	p.prog = prog
	for i, q := range sp {
		if q == nil {
			return nil, fmt.Errorf("no SSA for %s", ps[i].PkgPath)
		}
		q.Build()
		p.spkgs[ps[i].PkgPath] = q
		p.byPath[ps[i].PkgPath] = ps[i]
	}
	p.findRoles()
	return p, nil
}

func cleanEnv() []string {
	var out []string
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOOS=") || strings.HasPrefix(e, "GOARCH=") || strings.HasPrefix(e, "GOWORK=") {
			continue
		}
		out = append(out, e)
	}
	return out
}

func (p *Prog) repoPkg(q *types.Package) bool {
	return q != nil && (q.Path() == repoModule || strings.HasPrefix(q.Path(), repoModule+"/"))
}

func (p *Prog) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*natLoop {
	if r, ok := p.nlCache[fn]; ok {
		return r
	}
	r := naturalLoops(fn)
	p.nlCache[fn] = r
	return r
}

// findRoles links every interface of the repository that has exactly one implementation to it,
// and names that implementation after the interface.
func (p *Prog) findRoles() {
	var ifaces, concs []*types.TypeName
	for _, q := range p.pkgs {
		sc := q.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			if nm, ok := tn.Type().(*types.Named); ok && nm.TypeParams().Len() > 0 {
				continue
			}
			if it, ok := tn.Type().Underlying().(*types.Interface); ok {
				if it.NumMethods() > 0 {
					ifaces = append(ifaces, tn)
				}
			} else {
				concs = append(concs, tn)
			}
		}
	}
	cand := map[*types.TypeName][]*types.TypeName{}
	for _, i := range ifaces {
		it := i.Type().Underlying().(*types.Interface)
		var found []*types.TypeName
		byPtr := false
		for _, c := range concs {
			if types.Implements(c.Type(), it) {
				found = append(found, c)
			} else if types.Implements(types.NewPointer(c.Type()), it) {
				found = append(found, c)
				byPtr = true
			}
		}
		if len(found) == 1 && byPtr {
			p.impl[i] = types.NewPointer(found[0].Type())
			cand[found[0]] = append(cand[found[0]], i)
		}
	}
	for c, is := range cand {
		sort.Slice(is, func(a, b int) bool {
			ea := strings.EqualFold(is[a].Name(), c.Pkg().Name())
			eb := strings.EqualFold(is[b].Name(), c.Pkg().Name())
			if ea != eb {
				return ea
			}
			na := is[a].Type().Underlying().(*types.Interface).NumMethods()
			nb := is[b].Type().Underlying().(*types.Interface).NumMethods()
			if na != nb {
				return na > nb
			}
			return is[a].Name() < is[b].Name()
		})
		p.role[c] = is[0].Name()
	}
}

func typeName(t types.Type) *types.TypeName {
	if t == nil {
		return nil
	}
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	if a, ok := t.(*types.Alias); ok {
		t = types.Unalias(a)
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj()
	}
	return nil
}

// soleImpl gives the only implementation of an interface type of the repository, or nil.
func (p *Prog) soleImpl(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if _, ok := t.Underlying().(*types.Interface); !ok {
		return nil
	}
	if tn := typeName(t); tn != nil {
		return p.impl[tn]
	}
	return nil
}

// mkIface puts a value into an interface. Pointers to the only implementation of an interface
// stay what they are, so that they are the same whatever they are held as.
func (p *Prog) mkIface(v *Term, conc, iface types.Type) *Term {
	if _, ok := conc.(*types.Pointer); ok {
		if tn := typeName(conc); tn != nil && p.role[tn] != "" {
			return v
		}
	}
	return mk(OIface, "", 0, conc, v)
}

func (p *Prog) roleOf(t types.Type) string {
	tn := typeName(t)
	if tn == nil {
		return ""
	}
	if r, ok := p.role[tn]; ok {
		return r
	}
	if i, ok := p.impl[tn]; ok {
		if r, ok := p.role[typeName(i)]; ok {
			return r
		}
	}
	return tn.Name()
}

// canon names a function by its role.
func (p *Prog) canon(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Parent() != nil {
		return p.canon(fn.Parent()) + "$" + fn.Name()
	}
	if r := fn.Signature.Recv(); r != nil {
		n := fn.Name()
		tn := typeName(r.Type())
		if tn == nil {
			return n
		}
		if p.repoPkg(tn.Pkg()) {
			return p.roleOf(r.Type()) + "." + n
		}
		if tn.Pkg() == nil {
			return tn.Name() + "." + n
		}
		return tn.Pkg().Path() + "." + tn.Name() + "." + n
	}
	pk := fnPkg(fn)
	if pk == nil {
		return fn.String()
	}
	if p.repoPkg(pk) {
		if pk.Name() == "errors" {
			return "topoerrors." + fn.Name()
		}
		return pk.Name() + "." + fn.Name()
	}
	return pk.Path() + "." + fn.Name()
}

func fnPkg(fn *ssa.Function) *types.Package {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg
	}
	if fn.Object() != nil {
		return fn.Object().Pkg()
	}
	if fn.Parent() != nil {
		return fnPkg(fn.Parent())
	}
	return nil
}

// pkg finds a package of the repository by the end of its path, e.g. "pkg/world".
func (p *Prog) pkg(suffix string) *ssa.Package {
	return p.spkgs[repoModule+"/"+suffix]
}

// fn finds a package-level function.
func (p *Prog) fn(pkg, name string) *ssa.Function {
	q := p.pkg(pkg)
	if q == nil {
		return nil
	}
	f, _ := q.Members[name].(*ssa.Function)
	return f
}

// typ finds a type of a package.
func (p *Prog) typ(pkg, name string) types.Type {
	q := p.pkg(pkg)
	if q == nil {
		return nil
	}
	o := q.Pkg.Scope().Lookup(name)
	if tn, ok := o.(*types.TypeName); ok {
		return tn.Type()
	}
	return nil
}

// implOf gives the implementation type of the named interface.
func (p *Prog) implOf(pkg, iface string) types.Type {
	return p.soleImpl(p.typ(pkg, iface))
}

// method finds the method of a type.
func (p *Prog) method(t types.Type, name string) *ssa.Function {
	if t == nil {
		return nil
	}
	ms := p.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			f := p.prog.MethodValue(ms.At(i))
			return f
		}
	}
	return nil
}

// methodsOf lists the declared methods of an interface.
func ifaceMethods(t types.Type) []string {
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []string
	for i := 0; i < it.NumMethods(); i++ {
		out = append(out, it.Method(i).Name())
	}
	sort.Strings(out)
	return out
}

// repoFuncs lists every function of the repository with a body, closures and instances included.
func (p *Prog) repoFuncs() []*ssa.Function {
	var out []*ssa.Function
	for fn := range ssautil.AllFunctions(p.prog) {
		if len(fn.Blocks) > 0 && p.repoPkg(fnPkg(fn)) {
			out = append(out, fn)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func (p *Prog) pos(pos token.Pos) string {
	q := p.fset.Position(pos)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, p.dir+"/"), q.Line)
}

// fileOf finds the syntax of a file by the end of its name.
func (p *Prog) fileOf(pkg, name string) *ast.File {
	q := p.byPath[repoModule+"/"+pkg]
	if q == nil {
		return nil
	}
	for i, f := range q.CompiledGoFiles {
		if strings.HasSuffix(f, "/"+name) && i < len(q.Syntax) {
			return q.Syntax[i]
		}
	}
	return nil
}
