package main

// C23: nothing is shared between instances, and results and parameters are copies.

import (
	"go/ast"
	"go/token"
	"go/types"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{id: "C23", run: runC23,
		rule:        "Package variables: each is of an immutable type or a table that is only read, is written by nothing but the initialisation of its package, and if it refers to an object that can be changed, that object is handed to nobody. Constructors (package functions, and loading, that give a world, tree, application or store): on every trace partition the result is nil or was made in that call, and so was everything it refers to, except instances that were given. Operations: on every partition of every exported method, a list or table that is returned is not one that the receiver, a parameter or a package variable holds, is not kept as well, and has elements without references; nothing that is kept refers to what a pointer, list or table among the parameters refers to.",
		assumptions: []string{"worlds, trees, stores and commands that are returned are the instances themselves, by design", "library functions keep no references to what they are given"}})
}

type c23 struct {
	r     *Run
	p     *Prog
	roles map[string]types.Type // role -> implementation
	ctors map[string]bool
	own   map[string]bool // fields that hold no shared list

	callers map[*ssa.Function][]*ssa.Function
}

func runC23(r *Run) {
	p := r.prog()
	freshTags = true
	defer func() { freshTags = false }()
	x := &c23{r: r, p: p, roles: map[string]types.Type{}, ctors: map[string]bool{}}
	for _, q := range [][2]string{{"pkg/world", "World"}, {"pkg/world", "Tree"}, {"pkg/app", "App"}, {"pkg/persistence", "Persistence"}} {
		t := p.implOf(q[0], q[1])
		if t == nil {
			r.missing("the implementation of " + q[1])
			return
		}
		x.roles[q[1]] = t
	}
	x.globals()
	for _, n := range []string{"Item", "Rel"} {
		t := p.typ("pkg/world", n)
		if t == nil {
			r.missing(n)
			continue
		}
		why := x.plain(t, 0)
		r.must(why == "", "values of "+n, token.NoPos, "%s is returned by value but %s: copies share it", n, why)
	}
	x.constructors()
	x.operations()
}

func (x *c23) instance(t types.Type) bool {
	for role, impl := range x.roles {
		if types.Identical(t, impl) {
			return true
		}
		if tn := typeName(t); tn != nil && x.p.repoPkg(tn.Pkg()) && (tn.Name() == role || strings.HasPrefix(tn.Name(), role+"With")) {
			if _, ok := t.Underlying().(*types.Interface); ok {
				return true
			}
		}
	}
	return false
}

// plain: a copy of a value of this type shares nothing.
func (x *c23) plain(t types.Type, d int) string {
	if x.instance(t) || isErrorType(t) {
		return ""
	}
	switch u := t.Underlying().(type) {
	case *types.Basic, *types.Signature:
		return ""
	case *types.Array:
		return x.plain(u.Elem(), d+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if why := x.plain(u.Field(i).Type(), d+1); why != "" {
				return "its field " + u.Field(i).Name() + " " + strings.TrimPrefix(why, "it ")
			}
		}
		return ""
	case *types.Interface:
		if tn := typeName(t); tn != nil && x.p.repoPkg(tn.Pkg()) && tn.Name() == "Command" {
			return "" // the command itself
		}
	}
	return "it holds a reference of type " + types.TypeString(t, (*types.Package).Name)
}

func isRefType(t types.Type) bool {
	if t == nil {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice, *types.Chan, *types.Interface:
		return true
	}
	return false
}

// --- package variables ---

func (x *c23) globals() {
	n := 0
	for _, sp := range x.p.spkgs {
		if !strings.Contains(sp.Pkg.Path(), "/pkg/") {
			continue
		}
		for _, m := range sp.Members {
			g, ok := m.(*ssa.Global)
			if !ok || strings.Contains(g.Name(), "$") || g.Name() == "_" {
				continue
			}
			file := filepath.ToSlash(x.p.fset.Position(g.Pos()).Filename)
			if strings.HasSuffix(file, "_test.go") {
				continue
			}
			n++
			x.global(g)
		}
	}
	x.r.need("package variables", n, 1)
}

func immutable(t types.Type) bool {
	if tn := typeName(t); tn != nil && tn.Pkg() != nil {
		switch tn.Pkg().Path() + "." + tn.Name() {
		case "regexp.Regexp", "strings.Replacer", "sync.Mutex", "sync.RWMutex", "time.Location", "text/template.Template":
			return true
		}
	}
	errT := types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
	if types.Implements(t, errT) {
		return true // the errors package changes none of its values (C22)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic, *types.Signature:
		return true
	case *types.Array:
		return immutable(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !immutable(u.Field(i).Type()) {
				return false
			}
		}
		return true
	}
	return false
}

func (x *c23) global(g *ssa.Global) {
	p := x.p
	name := g.Pkg.Pkg.Name() + "." + g.Name()
	t := ptrElem(g.Type())
	imm := immutable(t)
	x.r.ok("package variable " + name)
	for _, fn := range p.repoFuncs() {
		if fn.Name() == "init" && fn.Synthetic != "" && fnPkg(fn) == g.Pkg.Pkg {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				uses := false
				for _, op := range ins.Operands(nil) {
					uses = uses || *op == g
				}
				if !uses {
					continue
				}
				why := x.globalUse(g, ins, t, imm)
				if why != "" {
					for _, u := range x.exportedUsers(fn) {
						key := "package variable " + name + " " + why + " " + u
						x.r.bad(key, ins.Pos(), "the package variable %s, which every instance shares, is %s %s", name, why, u)
					}
				}
			}
		}
	}
}

// exportedUsers names the exported functions that call an unexported one, directly or
// through other unexported ones.
func (x *c23) exportedUsers(fn *ssa.Function) []string {
	if x.callers == nil {
		x.callers = map[*ssa.Function][]*ssa.Function{}
		for _, f := range x.p.repoFuncs() {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					if c, ok := ins.(ssa.CallInstruction); ok {
						if g := c.Common().StaticCallee(); g != nil {
							x.callers[g] = append(x.callers[g], f)
						}
					}
				}
			}
		}
	}
	seen := map[*ssa.Function]bool{}
	out := map[string]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		if f.Parent() != nil {
			walk(f.Parent())
			return
		}
		if ast.IsExported(f.Name()) || len(x.callers[f]) == 0 {
			out[x.p.canon(f)] = true
			return
		}
		for _, c := range x.callers[f] {
			walk(c)
		}
	}
	walk(fn)
	if len(out) == 0 {
		out[x.p.canon(fn)] = true
	}
	var names []string
	for n := range out {
		names = append(names, n)
	}
	sort.Strings(names)
	return names
}

// globalUse says what is wrong with a use of a package variable.
func (x *c23) globalUse(g *ssa.Global, ins ssa.Instruction, t types.Type, imm bool) string {
	switch i := ins.(type) {
	case *ssa.DebugRef:
		return ""
	case *ssa.Store:
		if i.Addr == g {
			return "written by"
		}
		return "handed out by"
	case *ssa.UnOp:
		if imm || x.p.readOnly(ins) && !x.refElems(t) {
			return ""
		}
		if x.onlyCompared(i) {
			return ""
		}
		return "handed out by"
	case *ssa.FieldAddr, *ssa.IndexAddr:
		if w := x.throughAddr(ins.(ssa.Value)); w != "" {
			return w
		}
		return ""
	case *ssa.Call:
		// a method of a lock, or of another type that protects itself
		if imm && i.Call.StaticCallee() != nil && len(i.Call.Args) > 0 && i.Call.Args[0] == ssa.Value(g) {
			return ""
		}
	case *ssa.Defer:
		if imm {
			return ""
		}
	}
	return "changed or handed out by"
}

// refElems: the elements of a table are themselves references.
func (x *c23) refElems(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Map:
		return !immutable(u.Elem())
	case *types.Slice:
		return !immutable(u.Elem())
	case *types.Array:
		return !immutable(u.Elem())
	}
	return true
}

func (x *c23) onlyCompared(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch r.(type) {
		case *ssa.DebugRef, *ssa.BinOp:
		default:
			return false
		}
	}
	return true
}

func (x *c23) throughAddr(v ssa.Value) string {
	for _, r := range *v.Referrers() {
		switch i := r.(type) {
		case *ssa.DebugRef:
		case *ssa.UnOp:
			if !immutable(i.Type()) && !x.onlyCompared(i) {
				return "handed out by"
			}
		case *ssa.FieldAddr:
			if w := x.throughAddr(i); w != "" {
				return w
			}
		case *ssa.IndexAddr:
			if w := x.throughAddr(i); w != "" {
				return w
			}
		case *ssa.Store:
			if i.Addr == v {
				return "written by"
			}
			return "handed out by"
		default:
			return "changed or handed out by"
		}
	}
	return ""
}

// --- constructors ---

func (x *c23) isCtor(fn *ssa.Function) bool {
	if !declared(fn) || fn.Parent() != nil || fn.TypeParams().Len() > 0 || fn.Signature.Recv() != nil {
		return false
	}
	res := fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		if x.instance(res.At(i).Type()) {
			return true
		}
	}
	return false
}

func (x *c23) repoDecls(f func(fn *ssa.Function)) {
	for _, fn := range x.p.repoFuncs() {
		file := filepath.ToSlash(x.p.fset.Position(fn.Pos()).Filename)
		if strings.HasSuffix(file, "_test.go") || strings.HasSuffix(file, ".peg.go") || !strings.Contains(file, "/pkg/") || !declared(fn) || fn.Parent() != nil || fn.Name() == "init" {
			continue
		}
		f(fn)
	}
}

func (x *c23) policy(fn *ssa.Function) Policy {
	var pol Policy
	recv := fn.Signature.Recv()
	switch {
	case recv != nil && types.Identical(recv.Type(), x.roles["World"]):
		pol = worldPolicy(x.p)
	case recv != nil && types.Identical(recv.Type(), x.roles["Tree"]):
		pol = treePolicy(x.p)
	default:
		pol = appPolicy(x.p)
	}
	o, k := pol.opaque, pol.kind
	self := x.p.canon(fn)
	pol.opaque = func(n string, f *ssa.Function) bool {
		return x.ctors[n] && n != "world.newTree" || n == self && f == fn && false || o(n, f)
	}
	pol.kind = func(n string) byte {
		if x.ctors[n] {
			return 0
		}
		return k(n)
	}
	return pol
}

func (x *c23) constructors() {
	var fns []*ssa.Function
	x.repoDecls(func(fn *ssa.Function) {
		if x.isCtor(fn) {
			fns = append(fns, fn)
			x.ctors[x.p.canon(fn)] = true
		}
	})
	if m := x.p.method(x.roles["Persistence"], "Load"); m != nil {
		fns = append(fns, m)
	} else {
		x.r.missing("Persistence.Load")
	}
	n := 0
	for _, fn := range fns {
		n++
		x.constructor(fn)
	}
	x.r.need("constructors", n, 5)
}

func (x *c23) constructor(fn *ssa.Function) {
	r, p := x.r, x.p
	name := p.canon(fn)
	pol := x.policy(fn)
	o := pol.opaque
	pol.opaque = func(n string, f *ssa.Function) bool {
		return (x.ctors[n] && f != fn) || n == name && f != fn || o(n, f) && f != fn
	}
	in := NewInterp(p, pol)
	args := paramSyms(fn)
	outs := r.execIn(in, fn, newState(), args...)
	for _, o := range outs {
		if o.panic {
			continue
		}
		res := fn.Signature.Results()
		for i := 0; i < res.Len() && i < len(o.rets); i++ {
			if !isRefType(res.At(i).Type()) || isErrorType(res.At(i).Type()) {
				continue
			}
			why := x.fresh(in, o.st, o.rets[i], fn, args, map[*Term]bool{})
			r.must(why == "", "made by "+name, o.pos, "%s gives %s, when %s", name, why, cut(o.st.facts.String(), 300))
		}
	}
}

// fresh says what is not new about a value, or nothing.
func (x *c23) fresh(in *Interp, st *State, t *Term, fn *ssa.Function, args []*Term, seen map[*Term]bool) string {
	if t == nil || seen[t] {
		return ""
	}
	seen[t] = true
	switch t.op {
	case ONil, OConst, OZero, OFunc:
		return ""
	case OPtr, OMake:
		c, ok := st.mem[t]
		if !ok {
			return "something of unknown content"
		}
		return x.fresh(in, st, c, fn, args, seen)
	case OAddr:
		return x.fresh(in, st, t.args[0], fn, args, seen)
	case OIface, OOne, OWith, OSeq, OTuple, OClosure, OMPut, OMDel, OCopy, OConcat, OFold, OEach, OClip, OConv:
		if t.typ != nil && isBasic(t.typ, types.IsString|types.IsNumeric|types.IsBoolean) {
			return ""
		}
		for _, a := range t.args {
			if why := x.fresh(in, st, a, fn, args, seen); why != "" {
				return why
			}
		}
		return ""
	case OSym:
		if t.typ != nil && x.plain(t.typ, 0) == "" && !isRefType(t.typ) {
			return ""
		}
		for _, a := range args {
			if a == t {
				if x.instance(t.typ) || !ast.IsExported(fn.Name()) {
					return ""
				}
				return "what refers to the parameter " + t.s
			}
		}
		return "what refers to " + t.s
	}
	if t.typ != nil && !isRefType(t.typ) && x.plain(t.typ, 0) == "" {
		return ""
	}
	if t.op == OExtract && t.args[0].op == OCall {
		return x.freshCall(st, t.args[0])
	}
	if t.op == OCall {
		return x.freshCall(st, t)
	}
	if t.typ == nil && x.owner(t) == "" {
		return ""
	}
	if o := x.owner(t); o != "" {
		if !ast.IsExported(fn.Name()) && !strings.HasPrefix(o, "package variable") {
			return ""
		}
		return "what " + o + " refers to (" + cut(t.String(), 120) + ")"
	}
	return ""
}

func (x *c23) freshCall(st *State, c *Term) string {
	if x.ctors[c.s] {
		return "" // by the obligation of that function
	}
	for _, role := range []string{"World.", "Tree.", "App.", "Persistence."} {
		if strings.HasPrefix(c.s, role) {
			k := byte(0)
			switch role {
			case "World.":
				k = worldKind(c.s)
			case "Tree.":
				k = treeKind(c.s)
			}
			if k == 'm' || k == 'w' {
				if len(c.args) > 0 && c.args[0].op == OCall {
					return x.freshCall(st, c.args[0]) // the world itself
				}
			}
			if c.s == "Persistence.Load" {
				return ""
			}
			return "the answer of " + c.s
		}
	}
	for _, a := range c.args {
		if o := x.owner(a); strings.HasPrefix(o, "package variable") {
			return "what is reached from " + o
		}
	}
	return ""
}

// owner names the holder of the storage that a reference leads to, or nothing if it is new.
func (x *c23) owner(t *Term) string {
	for {
		switch t.op {
		case OSym:
			return "the parameter " + t.s
		case OGlobal:
			return "package variable " + t.s
		case OField, ODeref, OC0, OLookup, OIndex, OElem, OSlice, OClip, OFieldP, OIndexP, OIface, OExtract, OFold, OConv:
			if len(t.args) == 0 {
				return ""
			}
			t = t.args[0]
			continue
		case OTuple:
			return ""
		case OSeq:
			if len(t.args) == 0 {
				return ""
			}
			f := t.args[0]
			if f.op == OOne || f.op == OEach {
				return ""
			}
			t = f
			continue
		case OCall:
			if strings.HasPrefix(t.s, "slices.") && len(t.args) > 0 || t.s == setPath+"Set.Union" {
				t = t.args[0]
				continue
			}
			if strings.HasSuffix(t.s, "Components") && strings.HasPrefix(t.s, "Tree.") {
				return "the tree (its set of components)"
			}
			return ""
		case OTop:
			if strings.Contains(t.s, "copied") {
				return ""
			}
			return "something unknown"
		}
		return ""
	}
}

// --- operations ---

func (x *c23) operations() {
	lists, kept := 0, 0
	for _, role := range []string{"World", "Tree", "App", "Persistence"} {
		for _, fn := range x.p.methodsOfType(x.roles[role]) {
			if !ast.IsExported(fn.Name()) || !declared(fn) {
				continue
			}
			a, b := x.operation(role, fn)
			lists += a
			kept += b
		}
	}
	// the other functions that answer with lists or keep what they are given
	x.repoDecls(func(fn *ssa.Function) {
		if fn.Signature.Recv() == nil && ast.IsExported(fn.Name()) && fn.TypeParams().Len() == 0 && !x.isCtor(fn) {
			pk := fnPkg(fn).Path()
			if strings.HasSuffix(pk, "/pkg/world") || strings.HasSuffix(pk, "/pkg/app") || strings.HasSuffix(pk, "/pkg/persistence") {
				a, b := x.operation("", fn)
				lists += a
				kept += b
			}
		}
	})
	x.r.need("operations that return lists", lists, 9)
	x.r.need("operations with references among their parameters", kept, 5)
}

// returnsList: results through which something could be changed.
func (x *c23) returnsList(fn *ssa.Function) bool {
	res := fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		if x.listLike(res.At(i).Type()) {
			return true
		}
	}
	return false
}

func (x *c23) listLike(t types.Type) bool {
	if x.instance(t) || isErrorType(t) {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Slice, *types.Map, *types.Pointer, *types.Chan:
		return true
	}
	return false
}

func (x *c23) refParams(fn *ssa.Function) []int {
	var out []int
	for i, q := range fn.Params {
		if i == 0 && fn.Signature.Recv() != nil {
			continue
		}
		if x.instance(q.Type()) || isErrorType(q.Type()) {
			continue
		}
		if x.plain(q.Type(), 0) != "" {
			out = append(out, i)
		}
	}
	return out
}

func (x *c23) operation(role string, fn *ssa.Function) (int, int) {
	r, p := x.r, x.p
	refs := x.refParams(fn)
	lists := x.returnsList(fn)
	if !lists && len(refs) == 0 {
		return 0, 0
	}
	name := p.canon(fn)
	pol := x.policy(fn)
	o := pol.opaque
	pol.opaque = func(n string, f *ssa.Function) bool { return f != fn && o(n, f) }
	in := NewInterp(p, pol)
	args := paramSyms(fn)
	outs := r.execIn(in, fn, newState(), args...)
	res := fn.Signature.Results()
	nl, nk := 0, 0
	for i := 0; i < res.Len(); i++ {
		t := res.At(i).Type()
		if !x.listLike(t) {
			continue
		}
		nl = 1
		et := t
		switch u := t.Underlying().(type) {
		case *types.Slice:
			et = u.Elem()
		case *types.Map:
			et = u.Elem()
		case *types.Pointer:
			et = u.Elem()
		}
		if !x.instance(et) {
			why := x.plain(et, 0)
			r.must(why == "", "elements of "+name, fn.Pos(), "what %s returns is made of %s, but %s", name, et, why)
		}
		for _, o := range outs {
			if o.panic || i >= len(o.rets) {
				continue
			}
			v := in.val(o.st, o.rets[i])
			own := x.owner(v)
			r.must(own == "", "copy from "+name, o.pos, "%s returns a list or table that %s holds (%s): changing it changes that", name, own, cut(v.String(), 200))
			if own == "" && v.op != ONil && v != tEmptySeq {
				flat(o.st.trace, func(e *Ev, _ []*Loop) {
					if e.kind != "store" && e.kind != "mput" {
						return
					}
					for _, a := range append(append([]*Term{}, e.raw...), e.args...) {
						if a == v || a == o.rets[i] || storage(a) == storage(v) && storage(v).op != OSeq || o.rets[i].op == OMake && contains(a, o.rets[i]) {
							r.bad("kept by "+name, e.pos, "%s returns a list or table that it also keeps: changing it changes what is kept", name)
						}
					}
				})
			}
		}
	}
	if len(refs) > 0 {
		nk = 1
		for _, o := range outs {
			if o.panic {
				continue
			}
			for _, k := range x.keeps(in, o.st) {
				for _, i := range refs {
					if x.leads(in, o.st, k.t, args[i], map[*Term]bool{}) {
						r.bad("parameter kept by "+name, k.pos, "%s keeps a reference to what its parameter %s refers to (%s): changing that afterwards changes what is stored", name, fn.Params[i].Name(), cut(k.t.String(), 200))
					}
				}
			}
			r.ok("parameters of " + name)
		}
	}
	return nl, nk
}

// storage is the list that a part of it is in.
func storage(t *Term) *Term {
	for (t.op == OSlice || t.op == OClip || t.op == OIface) && len(t.args) > 0 {
		t = t.args[0]
	}
	return t
}

type keptValue struct {
	t   *Term
	pos token.Pos
}

// keeps lists the values that a trace puts into objects that existed before, or gives to operations that change some.
func (x *c23) keeps(in *Interp, st *State) []keptValue {
	var out []keptValue
	flat(st.trace, func(e *Ev, _ []*Loop) {
		switch e.kind {
		case "store", "mput":
			for i, a := range e.raw {
				if i > 0 {
					out = append(out, keptValue{a, e.pos})
				}
			}
			for i, a := range e.args {
				if i > 0 {
					out = append(out, keptValue{a, e.pos})
				}
			}
		case "call":
			k := byte(0)
			switch {
			case strings.HasPrefix(e.name, "Tree."):
				k = treeKind(e.name)
			case strings.HasPrefix(e.name, "World."):
				k = worldKind(e.name)
			}
			if k == 'm' || k == 'w' {
				for i, a := range e.raw {
					if i > 0 && x.keepsArg(e.name) {
						out = append(out, keptValue{a, e.pos})
					}
				}
			}
		}
	})
	return out
}

// keepsArg: operations are obliged to keep no references, so what is given to one of this check's own is not kept.
func (x *c23) keepsArg(name string) bool { return false }

// leads: a value contains a reference to what a parameter refers to.
func (x *c23) leads(in *Interp, st *State, t, param *Term, seen map[*Term]bool) bool {
	if t == nil || seen[t] {
		return false
	}
	seen[t] = true
	if t.typ != nil && isBasic(t.typ, types.IsString|types.IsNumeric|types.IsBoolean) {
		return false
	}
	switch t.op {
	case OPtr, OMake:
		return x.leads(in, st, st.mem[t], param, seen)
	case OSeq, OOne, OEach, OWith, OTuple, OIface, OMPut, OMDel, OAddr, OClosure, OFold:
		for _, a := range t.args {
			if x.leads(in, st, a, param, seen) {
				return true
			}
		}
		return false
	case OSym:
		return t == param && (isRefType(t.typ) || x.plain(t.typ, 0) != "")
	case OCopy:
		// new, but its elements are those of the other
		if t.typ != nil {
			if s, ok := t.typ.Underlying().(*types.Slice); ok && x.plain(s.Elem(), 0) == "" {
				return false
			}
		}
		return len(t.args) > 0 && x.leads(in, st, t.args[0], param, seen)
	case OField, ODeref, OC0, OIndex, OElem, OSlice, OClip, OFieldP, OIndexP, OLookup, OExtract:
		if t.typ != nil && !isRefType(t.typ) && x.plain(t.typ, 0) == "" {
			return false
		}
		root := t
		for len(root.args) > 0 && root.op != OSym && root.op != OCall {
			root = root.args[0]
		}
		return root == param
	}
	return false
}
