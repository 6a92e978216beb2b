package main

// C18: nothing panics.

import (
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{id: "C18", run: runC18,
		rule: "Nil: the places that can hold nil (fields, parameters, results, elements, package variables) are the greatest fixed point over every write in the hand-written functions and the actions of the grammar; every use of a pointer, interface, function or table that needs it not to be nil must be of a value that cannot hold nil or that a test on every way to it found not to be nil, with no write in between that could make it nil. Bounds: on every trace partition of every function, the index, the part, the length and the divisor at each place follow from what is known there (lengths that the grammar gives the lists of a command, kept relations between the numbers and lists of the application, library facts), by adding up known inequalities; a place that no partition reaches is an alarm. Others: no explicit panic, no assertion without ok, no comparison of interfaces that can hold what cannot be compared, no close of a channel, no library call that panics on what it is given.",
		assumptions: []string{
			"callers give worlds, trees and commands that are not nil, and objects made by the constructors",
			"the generated matchers hand the actions the bounds of the text that was matched",
			"a list made with a length is filled before it is read where the function that made it stores to it",
			"a pointer result of a library function that reports no failure is not nil",
			"stack exhaustion, memory exhaustion and concurrent use are not covered",
		}})
}

// nilness: which places can hold nil, as the greatest fixed point over all that is written to them.
type nilness struct {
	p       *Prog
	null    map[string]string // place -> why it can be nil
	level   map[string]int    // result -> 0 never nil, 1 not nil unless the call fails, 2 can be nil
	changed bool
	funcs   []*ssa.Function
	callers map[*ssa.Function][]ssa.CallInstruction
	taken   map[*ssa.Function]bool // used as a value
	bound   map[*ssa.Function][]*ssa.MakeClosure
	active  map[any]bool
	clears  map[*ssa.Function]map[string]bool // fields that a function, or what it runs, can set to nil
}

// isRef: a value of this type can be nil in a way that matters.
func isNilable(t types.Type) bool {
	if t == nil {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		if _, ok := t.(*types.TypeParam); ok {
			return false
		}
		return true
	}
	return false
}

// handWritten functions of the programs and packages, with their closures, and the actions of the grammar.
func handWritten(p *Prog, fn *ssa.Function) bool {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Synthetic != "" && f.Origin() == nil || len(fn.Blocks) == 0 || fn.TypeParams().Len() > 0 && len(fn.TypeArgs()) == 0 {
		return false
	}
	file := filepath.ToSlash(p.fset.Position(fn.Pos()).Filename)
	if strings.HasSuffix(file, ".peg.go") {
		return fn.Name() == "Execute"
	}
	return !strings.HasSuffix(file, "_test.go") && (strings.Contains(file, "/pkg/") || strings.Contains(file, "/cmd/"))
}

func newNilness(p *Prog) *nilness {
	n := &nilness{p: p, null: map[string]string{}, level: map[string]int{}, callers: map[*ssa.Function][]ssa.CallInstruction{}, taken: map[*ssa.Function]bool{}, bound: map[*ssa.Function][]*ssa.MakeClosure{}, active: map[any]bool{}, clears: map[*ssa.Function]map[string]bool{}}
	for _, fn := range p.repoFuncs() {
		if !handWritten(p, fn) {
			continue
		}
		n.funcs = append(n.funcs, fn)
	}
	for _, fn := range n.funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				var callee *ssa.Function
				if c, ok := ins.(ssa.CallInstruction); ok {
					if callee = n.callee(c.Common()); callee != nil {
						n.callers[callee] = append(n.callers[callee], c)
					}
				}
				if mc, ok := ins.(*ssa.MakeClosure); ok {
					f := mc.Fn.(*ssa.Function)
					n.bound[f] = append(n.bound[f], mc)
				}
				for i, op := range ins.Operands(nil) {
					f, ok := (*op).(*ssa.Function)
					if !ok {
						continue
					}
					if c, isCall := ins.(ssa.CallInstruction); isCall && i == 0 && c.Common().Value == ssa.Value(f) {
						continue
					}
					n.taken[f] = true
				}
			}
		}
	}
	for n.changed = true; n.changed; {
		n.changed = false
		n.round()
	}
	return n
}

// callee is the function that a call runs, also when an interface has one implementation only.
func (n *nilness) callee(c *ssa.CallCommon) *ssa.Function {
	if f := c.StaticCallee(); f != nil {
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			return mc.Fn.(*ssa.Function)
		}
		return f
	}
	if c.IsInvoke() {
		if s := n.p.soleImpl(c.Value.Type()); s != nil {
			return n.p.prog.LookupMethod(s, c.Method.Pkg(), c.Method.Name())
		}
	}
	return nil
}

func (n *nilness) mark(slot, why string) {
	if slot == "" {
		return
	}
	if _, ok := n.null[slot]; !ok {
		n.null[slot] = why
		n.changed = true
	}
}

func (n *nilness) raise(slot string, l int) {
	if n.level[slot] < l {
		n.level[slot] = l
		n.changed = true
	}
}

func fieldSlot(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	return "F:" + types.TypeString(t, nil) + "." + s.Field(i).Name()
}

func elemSlot(t types.Type) string { return "E:" + types.TypeString(t, nil) }

func paramSlot(fn *ssa.Function, i int) string { return "P:" + fn.String() + "." + itoaN(i) }

func resultSlot(fn *ssa.Function, i int) string { return "R:" + fn.String() + "." + itoaN(i) }

func itoaN(i int) string { return constant.MakeInt64(int64(i)).String() }

func (n *nilness) pos(p token.Pos) string { return n.p.pos(p) }

// round looks at every write.
func (n *nilness) round() {
	for _, fn := range n.funcs {
		n.outside(fn)
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				n.writes(fn, b, ins)
			}
		}
	}
	n.clearing()
	for _, sp := range n.p.spkgs {
		if f := sp.Func("init"); f != nil {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					n.writes(f, b, ins)
				}
			}
		}
	}
}

// outside: what callers outside can give.
func (n *nilness) outside(fn *ssa.Function) {
	if fn.Parent() != nil || !ast.IsExported(fn.Name()) {
		return
	}
	for i, q := range fn.Params {
		if i == 0 && fn.Signature.Recv() != nil {
			continue
		}
		t := q.Type()
		n.given(t, paramSlot(fn, i), 0)
	}
}

// given: a value of this type can be anything that a caller can make.
func (n *nilness) given(t types.Type, slot string, d int) {
	if d > 4 {
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		n.mark(slot, "a caller can give nil")
		n.given(u.Elem(), "", d+1)
	case *types.Map, *types.Signature, *types.Chan:
		n.mark(slot, "a caller can give nil")
	case *types.Interface:
		if isErrorType(t) || typeName(t) == nil {
			n.mark(slot, "a caller can give nil")
		}
	case *types.Slice:
		if isNilable(u.Elem()) {
			n.given(u.Elem(), elemSlot(u.Elem()), d+1)
		} else {
			n.given(u.Elem(), "", d+1)
		}
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if f.Exported() {
				n.given(f.Type(), fieldSlot(t, i), d+1)
			}
		}
	}
}

func (n *nilness) writes(fn *ssa.Function, b *ssa.BasicBlock, ins ssa.Instruction) {
	put := func(slot string, v ssa.Value) {
		if slot == "" || !isNilable(v.Type()) {
			return
		}
		if why := n.mayNil(v, b, ins); why != "" {
			n.mark(slot, why+" ("+n.pos(ins.Pos())+")")
		}
	}
	switch i := ins.(type) {
	case *ssa.Store:
		put(n.addrSlot(i.Addr), i.Val)
		// a structure as a whole, into a field
		if o, ok := i.Addr.(*ssa.FieldAddr); ok {
			if st, ok := i.Val.Type().Underlying().(*types.Struct); ok {
				for k := 0; k < st.NumFields(); k++ {
					if why := n.fieldOf(i.Val, k, b, i); why != "" {
						n.mark(nestedIn(fieldSlot(o.X.Type(), o.Field), st.Field(k).Name()), why)
					}
				}
			}
		}
	case *ssa.UnOp:
		// and out of one
		if o, ok := i.X.(*ssa.FieldAddr); ok && i.Op == token.MUL {
			if st, ok := i.Type().Underlying().(*types.Struct); ok {
				for k := 0; k < st.NumFields(); k++ {
					if why := n.null[nestedIn(fieldSlot(o.X.Type(), o.Field), st.Field(k).Name())]; why != "" {
						n.mark(fieldSlot(i.Type(), k), why)
					}
				}
			}
		}
	case *ssa.MapUpdate:
		put(elemSlot(i.Value.Type()), i.Value)
		put(elemSlot(i.Key.Type()), i.Key)
	case *ssa.Send:
		put(elemSlot(i.X.Type()), i.X)
	case *ssa.Alloc:
		n.made(fn, i, ptrElem(i.Type()))
	case *ssa.MakeSlice:
		et := i.Type().Underlying().(*types.Slice).Elem()
		if c, ok := i.Len.(*ssa.Const); ok && c.Int64() == 0 || n.filled(i) {
			break
		}
		n.zero(et, elemSlot(et), "made without a value ("+n.pos(i.Pos())+")", 0)
	case *ssa.Return:
		n.returns(fn, b, i)
	}
	if c, ok := ins.(ssa.CallInstruction); ok {
		cc := c.Common()
		if g := n.callee(cc); g != nil && handWritten(n.p, g) {
			args := cc.Args
			if cc.IsInvoke() {
				args = append([]ssa.Value{cc.Value}, args...)
			}
			for k, a := range args {
				if k < len(g.Params) {
					if k == 0 && g.Signature.Recv() != nil && !isNilable(g.Params[0].Type()) {
						continue
					}
					put(paramSlot(g, k), a)
				}
			}
		} else if cc.IsInvoke() && cc.Method.Name() == "Add" || !cc.IsInvoke() && g != nil && g.Name() == "Add" {
			// a set
			for _, a := range cc.Args {
				put(elemSlot(a.Type()), a)
			}
		}
	}
	// zero structures as constants
	for _, op := range ins.Operands(nil) {
		if c, ok := (*op).(*ssa.Const); ok && c.Value == nil && !isNilable(c.Type()) {
			if _, ok := c.Type().Underlying().(*types.Struct); ok {
				if _, ok := ins.(*ssa.Return); ok && n.failing(fn, b, ins.(*ssa.Return)) {
					continue
				}
				n.zero(c.Type(), "", "an empty "+types.TypeString(c.Type(), (*types.Package).Name)+" ("+n.pos(ins.Pos())+")", 0)
			}
		}
	}
}

// fieldOf: why a field of a structure can be nil.
func (n *nilness) fieldOf(v ssa.Value, k int, b *ssa.BasicBlock, at ssa.Instruction) string {
	if c, ok := v.(*ssa.Call); ok && !n.active[c] {
		// what a function of the repository makes
		if g := n.callee(&c.Call); g != nil && handWritten(n.p, g) && !c.Call.IsInvoke() {
			n.active[c] = true
			defer delete(n.active, c)
			for _, b := range g.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 {
					if why := n.fieldOf(r.Results[0], k, b, r); why != "" {
						return why
					}
				}
			}
			return ""
		}
	}
	l, ok := v.(*ssa.UnOp)
	if !ok || l.Op != token.MUL {
		return n.null[fieldSlot(v.Type(), k)]
	}
	a, ok := l.X.(*ssa.Alloc)
	if !ok {
		return n.null[fieldSlot(v.Type(), k)]
	}
	set, why := false, ""
	for _, r := range *a.Referrers() {
		switch i := r.(type) {
		case *ssa.FieldAddr:
			if i.Field != k {
				continue
			}
			for _, q := range *i.Referrers() {
				if s, ok := q.(*ssa.Store); ok && s.Addr == ssa.Value(i) {
					set = true
					if !isNilable(s.Val.Type()) {
						continue
					}
					if w := n.mayNil(s.Val, s.Block(), s); w != "" {
						why = w
					}
				}
			}
		case *ssa.UnOp, *ssa.DebugRef:
		default:
			return n.null[fieldSlot(v.Type(), k)]
		}
	}
	if !set && isNilable(structOf(v.Type()).Field(k).Type()) {
		return "made without a value (" + n.pos(at.Pos()) + ")"
	}
	return why
}

func (n *nilness) zero(t types.Type, slot, why string, d int) {
	if isNilable(t) {
		n.mark(slot, why)
		return
	}
	if s, ok := t.Underlying().(*types.Struct); ok && d < 4 && n.ours(t) {
		for i := 0; i < s.NumFields(); i++ {
			n.zero(s.Field(i).Type(), fieldSlot(t, i), why, d+1)
		}
	}
}

func (n *nilness) ours(t types.Type) bool {
	tn := typeName(t)
	return tn == nil || n.p.repoPkg(tn.Pkg())
}

// nestedIn is the place of a field of a structure that is a field itself.
func nestedIn(outer string, field string) string { return "N:" + outer + "." + field }

// addrSlot is the place that an address is of.
func (n *nilness) addrSlot(a ssa.Value) string {
	switch x := a.(type) {
	case *ssa.FieldAddr:
		if o, ok := x.X.(*ssa.FieldAddr); ok {
			return nestedIn(fieldSlot(o.X.Type(), o.Field), structOf(ptrElem(x.X.Type())).Field(x.Field).Name())
		}
		return fieldSlot(x.X.Type(), x.Field)
	case *ssa.IndexAddr:
		return elemSlot(ptrElem(x.Type()))
	case *ssa.Global:
		return "G:" + x.String()
	case *ssa.Alloc, *ssa.FreeVar:
		return "" // followed by its stores
	}
	return "D:" + types.TypeString(ptrElem(a.Type()), nil)
}

// filled: the elements of a new slice are set in the same function.
func (n *nilness) filled(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch i := r.(type) {
		case *ssa.IndexAddr:
			for _, q := range *i.Referrers() {
				if s, ok := q.(*ssa.Store); ok && s.Addr == ssa.Value(i) {
					return true
				}
			}
		case *ssa.Call:
			if b, ok := i.Call.Value.(*ssa.Builtin); ok && b.Name() == "copy" && i.Call.Args[0] == v {
				return true
			}
		case *ssa.Slice:
			if n.filled(i) {
				return true
			}
		}
	}
	return false
}

// made: the fields of a new structure that are not set.
func (n *nilness) made(fn *ssa.Function, a *ssa.Alloc, t types.Type) {
	s, ok := t.Underlying().(*types.Struct)
	if !ok || !n.ours(t) {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		if isNilable(ft) && !n.sets(a, a.Block(), i, 0) {
			n.mark(fieldSlot(t, i), "made without a value ("+n.pos(a.Pos())+")")
		}
		if st, ok := ft.Underlying().(*types.Struct); ok && n.ours(ft) && !n.sets(a, a.Block(), i, 0) {
			// a structure within: each of its own fields
			for j := 0; j < st.NumFields(); j++ {
				if !isNilable(st.Field(j).Type()) {
					continue
				}
				set := false
				for _, r := range *a.Referrers() {
					if fa, ok := r.(*ssa.FieldAddr); ok && fa.Field == i && n.sets(fa, a.Block(), j, 0) {
						set = true
					}
				}
				if !set {
					n.mark(nestedIn(fieldSlot(t, i), st.Field(j).Name()), "made without a value ("+n.pos(a.Pos())+")")
				}
			}
		}
	}
}

// sets: on every way from a block to where the value leaves the function, the field of what v points to is set.
func (n *nilness) sets(v ssa.Value, from *ssa.BasicBlock, field, d int) bool {
	if d > 5 || v.Referrers() == nil {
		return false
	}
	fn := from.Parent()
	if to := copiedTo(v); to != nil && n.sets(to, to.Block(), field, d+1) {
		return true
	}
	for _, r := range *v.Referrers() {
		var at *ssa.BasicBlock
		switch i := r.(type) {
		case *ssa.FieldAddr:
			if i.X != v || i.Field != field {
				continue
			}
			for _, q := range *i.Referrers() {
				if s, ok := q.(*ssa.Store); ok && s.Addr == ssa.Value(i) && n.unavoidable(v, from, s.Block(), fn) {
					return true
				}
			}
		case *ssa.Store:
			if i.Addr == v {
				at = i.Block()
			}
		case ssa.CallInstruction:
			g := n.callee(i.Common())
			if g == nil || !handWritten(n.p, g) || i.Common().IsInvoke() {
				continue
			}
			for k, a := range i.Common().Args {
				if a == v && k < len(g.Params) && n.sets(g.Params[k], g.Blocks[0], field, d+1) {
					at = i.Block()
				}
			}
		case *ssa.Return:
			if ast.IsExported(fn.Name()) || n.taken[fn] || len(n.callers[fn]) == 0 || len(i.Results) != 1 {
				continue
			}
			all := true
			for _, c := range n.callers[fn] {
				cv, ok := c.(*ssa.Call)
				all = all && ok && n.sets(cv, cv.Block(), field, d+1)
			}
			if all {
				return true
			}
		}
		if at != nil && n.unavoidable(v, from, at, fn) {
			return true
		}
	}
	return false
}

// copiedTo: the variable that a structure is made for, if it is copied there and used in no other way.
func copiedTo(v ssa.Value) *ssa.Alloc {
	if a, ok := v.(*ssa.Alloc); !ok || a.Comment != "complit" {
		return nil
	}
	var to *ssa.Alloc
	for _, r := range *v.Referrers() {
		switch i := r.(type) {
		case *ssa.DebugRef:
		case *ssa.FieldAddr:
			for _, q := range *i.Referrers() {
				if s, ok := q.(*ssa.Store); !ok || s.Addr != ssa.Value(i) {
					return nil
				}
			}
		case *ssa.UnOp:
			for _, q := range *i.Referrers() {
				if _, ok := q.(*ssa.DebugRef); ok {
					continue
				}
				s, ok := q.(*ssa.Store)
				if !ok || s.Val != ssa.Value(i) || to != nil {
					return nil
				}
				if to, ok = s.Addr.(*ssa.Alloc); !ok {
					return nil
				}
			}
		default:
			return nil
		}
	}
	return to
}

// unavoidable: every way from a block to a return that gives v, or to any if v leaves otherwise, goes through another.
func (n *nilness) unavoidable(v ssa.Value, from, via *ssa.BasicBlock, fn *ssa.Function) bool {
	if from == via {
		return true
	}
	returned := false
	gives := func(b *ssa.BasicBlock) bool {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			return false
		}
		for _, x := range r.Results {
			for {
				if m, ok := x.(*ssa.MakeInterface); ok {
					x = m.X
					continue
				}
				break
			}
			if ph, ok := x.(*ssa.Phi); ok {
				for _, e := range ph.Edges {
					if e == v {
						return true
					}
				}
			}
			if x == v {
				return true
			}
		}
		return false
	}
	for _, b := range fn.Blocks {
		returned = returned || gives(b)
	}
	seen := map[*ssa.BasicBlock]bool{via: true}
	ok := true
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		if _, isRet := b.Instrs[len(b.Instrs)-1].(*ssa.Return); isRet && (!returned || gives(b)) {
			ok = false
		}
		for _, s := range b.Succs {
			walk(s)
		}
	}
	walk(from)
	return ok
}

// failing: this return reports a failure.
func (n *nilness) failing(fn *ssa.Function, b *ssa.BasicBlock, r *ssa.Return) bool {
	res := fn.Signature.Results()
	k := res.Len() - 1
	if k < 1 || len(r.Results) != res.Len() {
		return false
	}
	last := r.Results[k]
	if isErrorType(res.At(k).Type()) {
		return n.mayNil(last, b, r) == ""
	}
	if c, ok := last.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool {
		return !constant.BoolVal(c.Value)
	}
	return false
}

func (n *nilness) returns(fn *ssa.Function, b *ssa.BasicBlock, r *ssa.Return) {
	res := fn.Signature.Results()
	for i := 0; i < res.Len() && i < len(r.Results); i++ {
		if !isNilable(res.At(i).Type()) {
			continue
		}
		why := n.mayNil(r.Results[i], b, r)
		if why == "" {
			continue
		}
		slot := resultSlot(fn, i)
		switch {
		case i == res.Len()-1:
			n.raise(slot, 2)
		case n.failing(fn, b, r):
			n.raise(slot, 1)
		case n.together(r.Results[i], r.Results[res.Len()-1]):
			n.raise(slot, 1)
		default:
			n.raise(slot, 2)
		}
	}
}

// together: a value and the error or success of the same call are handed on.
func (n *nilness) together(v, e ssa.Value) bool {
	for {
		if m, ok := v.(*ssa.MakeInterface); ok {
			v = m.X
			continue
		}
		if m, ok := v.(*ssa.ChangeInterface); ok {
			v = m.X
			continue
		}
		break
	}
	a, ok1 := v.(*ssa.Extract)
	b, ok2 := e.(*ssa.Extract)
	if !ok1 || !ok2 || a.Tuple != b.Tuple {
		return false
	}
	return n.extractLevel(a) <= 1
}

// extractLevel: how sure a result of a call is.
func (n *nilness) extractLevel(e *ssa.Extract) int {
	switch t := e.Tuple.(type) {
	case *ssa.Call:
		g := n.callee(&t.Call)
		if g != nil && handWritten(n.p, g) {
			return n.level[resultSlot(g, e.Index)]
		}
		res := t.Call.Signature().Results()
		if e.Index == res.Len()-1 {
			return 2
		}
		return 1
	case *ssa.Lookup, *ssa.TypeAssert:
		return 1
	}
	return 2
}

// mayNil says why a value can be nil at a place, or nothing.
func (n *nilness) mayNil(v ssa.Value, b *ssa.BasicBlock, at ssa.Instruction) string {
	if !isNilable(v.Type()) {
		return ""
	}
	if n.guarded(v, b) {
		return ""
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return "nil"
		}
		return ""
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan, *ssa.MakeClosure, *ssa.Function, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Global, *ssa.FreeVar, *ssa.Builtin:
		return ""
	case *ssa.MakeInterface:
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			return n.mayNil(x.X, b, at)
		}
		return ""
	case *ssa.ChangeInterface:
		return n.mayNil(x.X, b, at)
	case *ssa.ChangeType:
		return n.mayNil(x.X, b, at)
	case *ssa.Parameter:
		fn := x.Parent()
		for i, q := range fn.Params {
			if q == x {
				return n.null[paramSlot(fn, i)]
			}
		}
	case *ssa.Phi:
		if n.active[x] {
			return ""
		}
		n.active[x] = true
		defer delete(n.active, x)
		for i, e := range x.Edges {
			pred := x.Block().Preds[i]
			if n.guardedEdge(e, pred, x.Block()) {
				continue
			}
			if why := n.mayNil(e, pred, at); why != "" {
				return why
			}
		}
		return ""
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			return n.loaded(x.X, x)
		case token.ARROW:
			return n.null[elemSlot(x.Type())]
		}
	case *ssa.Field:
		return n.null[fieldSlot(x.X.Type(), x.Field)]
	case *ssa.Index:
		return n.null[elemSlot(x.Type())]
	case *ssa.Lookup:
		return "what a table does not have"
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Next:
			return n.null[elemSlot(x.Type())]
		case *ssa.UnOp:
			return n.null[elemSlot(x.Type())]
		case *ssa.Call:
			l := n.extractLevel(x)
			if l == 0 || l == 1 && n.succeeded(t, b) {
				return ""
			}
			return "a result of " + callName(&t.Call)
		case *ssa.Lookup, *ssa.TypeAssert:
			if n.succeeded(x.Tuple, b) {
				return ""
			}
			return "a value that is not there"
		}
	case *ssa.Call:
		g := n.callee(&x.Call)
		if g != nil && handWritten(n.p, g) {
			if n.level[resultSlot(g, 0)] == 0 {
				return ""
			}
			return "the result of " + callName(&x.Call)
		}
		if isErrorType(x.Type()) {
			return "the error of " + callName(&x.Call)
		}
		return n.library(x)
	}
	return ""
}

func callName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return c.Method.Name()
	}
	if f := c.StaticCallee(); f != nil {
		return f.Name()
	}
	return "a function value"
}

// library: results of library functions are not nil, unless they are known to be.
func (n *nilness) library(c *ssa.Call) string {
	switch callName(&c.Call) {
	case "Unwrap", "Getenv", "Value", "Err", "MatchReader", "FindStringSubmatchIndex", "Recover", "recover":
		return "the result of " + callName(&c.Call)
	}
	if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "recover" {
		return "what recover gives"
	}
	return ""
}

// loaded: what is read from an address.
func (n *nilness) loaded(a ssa.Value, at ssa.Instruction) string {
	switch x := a.(type) {
	case *ssa.Alloc:
		return n.variable(x, at)
	case *ssa.FreeVar:
		fn := x.Parent()
		for i, fv := range fn.FreeVars {
			if fv != x {
				continue
			}
			for _, mc := range n.bound[fn] {
				if why := n.loaded(mc.Bindings[i], mc); why != "" {
					return why
				}
			}
		}
		return ""
	case *ssa.Phi:
		return ""
	}
	return n.null[n.addrSlot(a)]
}

// variable: what a local variable in memory can hold.
func (n *nilness) variable(a *ssa.Alloc, at ssa.Instruction) string {
	if n.active[a] {
		return ""
	}
	n.active[a] = true
	defer delete(n.active, a)
	first := false
	only := n.soleStore(a)
	for _, r := range *a.Referrers() {
		s, ok := r.(*ssa.Store)
		if !ok || s.Addr != ssa.Value(a) {
			continue
		}
		if s == only && s.Parent() == at.Parent() && s.Block().Dominates(at.Block()) && n.mayNil(s.Val, at.Block(), at) == "" {
			first = true // what is known of it by now
			continue
		}
		if why := n.mayNil(s.Val, s.Block(), s); why != "" {
			return why
		}
		if s.Block().Dominates(at.Block()) || s.Parent() != at.Parent() {
			first = true
		}
	}
	if !first {
		return "a variable that was not set"
	}
	return ""
}

// soleStore: the one place where a variable is set, if nothing else can set it.
func (n *nilness) soleStore(a *ssa.Alloc) *ssa.Store {
	var only *ssa.Store
	var reads func(v ssa.Value, d int) bool
	reads = func(v ssa.Value, d int) bool {
		for _, r := range *v.Referrers() {
			switch i := r.(type) {
			case *ssa.DebugRef:
			case *ssa.UnOp:
				if i.Op != token.MUL {
					return false
				}
			case *ssa.Store:
				if i.Addr != v || i.Val == v || only != nil || v != ssa.Value(a) {
					return false
				}
				only = i
			case *ssa.MakeClosure:
				f := i.Fn.(*ssa.Function)
				for k, q := range i.Bindings {
					if q == v && (d > 3 || !reads(f.FreeVars[k], d+1)) {
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}
	if !reads(a, 0) {
		return nil
	}
	return only
}

// guarded: a test on the way to a block found the value not nil.
func (n *nilness) guarded(v ssa.Value, b *ssa.BasicBlock) bool {
	return n.tested(b, func(cond ssa.Value, truth bool) bool { return n.says(cond, truth, v) })
}

// says: the condition having this value means that v is not nil.
func (n *nilness) says(cond ssa.Value, truth bool, v ssa.Value) bool {
	return n.means(cond, truth, func(q ssa.Value) bool { return n.sameValue(q, v) }, func(c *ssa.Call) func(ssa.Value) bool {
		return func(q ssa.Value) bool { return n.across(q, v, c) }
	})
}

// means: the condition having this value means that what is recognised is not nil.
func (n *nilness) means(cond ssa.Value, truth bool, is func(ssa.Value) bool, inside func(*ssa.Call) func(ssa.Value) bool) bool {
	if n.active[cond] {
		return false
	}
	switch c := cond.(type) {
	case *ssa.BinOp:
		if c.Op != token.EQL && c.Op != token.NEQ || (c.Op == token.NEQ) != truth {
			return false
		}
		for _, q := range [][2]ssa.Value{{c.X, c.Y}, {c.Y, c.X}} {
			k, ok := q[1].(*ssa.Const)
			if ok && k.Value == nil && is(q[0]) {
				return true
			}
		}
	case *ssa.UnOp:
		if c.Op == token.NOT {
			return n.means(c.X, !truth, is, inside)
		}
	case *ssa.Phi:
		n.active[cond] = true
		defer delete(n.active, cond)
		return n.either(len(c.Edges), truth, func(i int) (ssa.Value, *ssa.BasicBlock) {
			return c.Edges[i], c.Block().Preds[i]
		}, c.Block(), is, inside)
	case *ssa.Call:
		g := n.callee(&c.Call)
		if inside == nil || g == nil || !handWritten(n.p, g) || c.Call.IsInvoke() || g.Signature.Results().Len() != 1 || len(n.clears[g]) > 0 {
			return false
		}
		var rets []*ssa.Return
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				switch i := ins.(type) {
				case *ssa.Return:
					rets = append(rets, i)
				case *ssa.Store:
					return false
				}
			}
		}
		return len(rets) > 0 && n.either(len(rets), truth, func(i int) (ssa.Value, *ssa.BasicBlock) {
			return rets[i].Results[0], rets[i].Block()
		}, nil, inside(c), nil)
	}
	return false
}

// either: each of the values that can be this one means it, or is reached only when it is so.
func (n *nilness) either(count int, truth bool, get func(int) (ssa.Value, *ssa.BasicBlock), to *ssa.BasicBlock, is func(ssa.Value) bool, inside func(*ssa.Call) func(ssa.Value) bool) bool {
	for i := 0; i < count; i++ {
		v, b := get(i)
		if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool && constant.BoolVal(k.Value) != truth {
			continue
		}
		test := func(c ssa.Value, t bool) bool { return n.means(c, t, is, inside) }
		if test(v, truth) || n.tested(b, test) || to != nil && n.testedEdge(b, to, test) {
			continue
		}
		return false
	}
	return true
}

// across: a value of a called function is what the caller reads afterwards.
func (n *nilness) across(q, v ssa.Value, c *ssa.Call) bool {
	switch x := q.(type) {
	case *ssa.Parameter:
		for i, p := range x.Parent().Params {
			if p == x {
				return n.sameValue(c.Call.Args[i], v)
			}
		}
	case *ssa.UnOp:
		y, ok := v.(*ssa.UnOp)
		return ok && x.Op == token.MUL && y.Op == token.MUL && n.across(x.X, y.X, c) && !n.writtenBetween(c, y)
	case *ssa.FieldAddr:
		y, ok := v.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && n.across(x.X, y.X, c)
	}
	return false
}

// sameValue: two values are the same, or are read from the same place.
func (n *nilness) sameValue(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	for {
		if m, ok := a.(*ssa.ChangeInterface); ok {
			a = m.X
			continue
		}
		break
	}
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		return ok && x.Op == token.MUL && y.Op == token.MUL && n.sameValue(x.X, y.X) && !n.writtenBetween(x, y)
	case *ssa.FieldAddr:
		y, ok := b.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && n.sameValue(x.X, y.X)
	case *ssa.Field:
		y, ok := b.(*ssa.Field)
		return ok && x.Field == y.Field && n.sameValue(x.X, y.X)
	}
	return false
}

// writtenBetween: the place may have become nil between two reads of it.
func (n *nilness) writtenBetween(x ssa.Instruction, y *ssa.UnOp) bool {
	reach := func(a, b *ssa.BasicBlock) bool {
		seen := map[*ssa.BasicBlock]bool{}
		var w func(c *ssa.BasicBlock) bool
		w = func(c *ssa.BasicBlock) bool {
			if c == b {
				return true
			}
			if seen[c] {
				return false
			}
			seen[c] = true
			for _, s := range c.Succs {
				if w(s) {
					return true
				}
			}
			return false
		}
		return w(a)
	}
	fa, isField := y.X.(*ssa.FieldAddr)
	for _, b := range x.Parent().Blocks {
		if !(reach(x.Block(), b) && reach(b, y.Block())) {
			continue
		}
		for k, ins := range b.Instrs {
			if b == x.Block() && b != y.Block() && k < indexOf(b, x) {
				continue
			}
			if b == y.Block() && b != x.Block() && k > indexOf(b, y) {
				continue
			}
			if b == x.Block() && b == y.Block() && (k < indexOf(b, x) || k > indexOf(b, y)) {
				continue
			}
			if c, ok := ins.(ssa.CallInstruction); ok && isField && ins != x {
				if g := n.callee(c.Common()); g != nil && n.clears[g][fieldSlot(fa.X.Type(), fa.Field)] {
					return true
				}
				continue
			}
			s, ok := ins.(*ssa.Store)
			if !ok {
				continue
			}
			if isField {
				if types.Identical(s.Addr.Type(), fa.X.Type()) && !n.fresh(s.Addr) {
					return true // the whole structure
				}
				w, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || w.Field != fa.Field || !types.Identical(w.X.Type(), fa.X.Type()) {
					continue
				}
			} else if !types.Identical(s.Addr.Type(), y.X.Type()) {
				continue
			}
			if n.stores(s) {
				return true
			}
		}
	}
	return false
}

// stores: a write can write nil. That it does not may be assumed of its earlier runs.
func (n *nilness) stores(s *ssa.Store) bool {
	if n.active[s] {
		return false
	}
	n.active[s] = true
	defer delete(n.active, s)
	return n.mayNil(s.Val, s.Block(), s) != ""
}

// clearing finds which functions can set which fields to nil.
func (n *nilness) clearing() {
	add := func(fn *ssa.Function, slot string) {
		if n.clears[fn] == nil {
			n.clears[fn] = map[string]bool{}
		}
		if !n.clears[fn][slot] {
			n.clears[fn][slot], n.changed = true, true
		}
	}
	for _, fn := range n.funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch i := ins.(type) {
				case *ssa.Store:
					if fa, ok := i.Addr.(*ssa.FieldAddr); ok && isNilable(i.Val.Type()) && !n.fresh(fa.X) && n.stores(i) {
						add(fn, fieldSlot(fa.X.Type(), fa.Field))
					}
					if st, ok := i.Val.Type().Underlying().(*types.Struct); ok && !n.fresh(i.Addr) {
						for k := 0; k < st.NumFields(); k++ {
							if isNilable(st.Field(k).Type()) && n.null[fieldSlot(i.Val.Type(), k)] != "" {
								add(fn, fieldSlot(i.Val.Type(), k))
							}
						}
					}
				case ssa.CallInstruction:
					if g := n.callee(i.Common()); g != nil {
						for slot := range n.clears[g] {
							add(fn, slot)
						}
					}
				}
			}
		}
	}
}

// fresh: a structure that the function made itself.
func (n *nilness) fresh(v ssa.Value) bool {
	_, ok := v.(*ssa.Alloc)
	return ok
}

func indexOf(b *ssa.BasicBlock, ins ssa.Instruction) int {
	for i, x := range b.Instrs {
		if x == ins {
			return i
		}
	}
	return -1
}

// tested: some test that decides the way to a block satisfies f.
func (n *nilness) tested(b *ssa.BasicBlock, f func(cond ssa.Value, truth bool) bool) bool {
	for c := b; c != nil; c = c.Idom() {
		d := c.Idom()
		if d == nil {
			break
		}
		i, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		for k, truth := range []bool{true, false} {
			s := d.Succs[k]
			if d.Succs[0] != d.Succs[1] && s == c && len(c.Preds) == 1 || s != d.Succs[1-k] && s.Dominates(c) && len(s.Preds) == 1 {
				if f(i.Cond, truth) {
					return true
				}
			}
		}
	}
	return false
}

func (n *nilness) guardedEdge(v ssa.Value, pred, to *ssa.BasicBlock) bool {
	return n.testedEdge(pred, to, func(cond ssa.Value, truth bool) bool { return n.says(cond, truth, v) })
}

// testedEdge: the test at the end of a block, going to another, satisfies f.
func (n *nilness) testedEdge(pred, to *ssa.BasicBlock, f func(ssa.Value, bool) bool) bool {
	if i, ok := pred.Instrs[len(pred.Instrs)-1].(*ssa.If); ok && pred.Succs[0] != pred.Succs[1] {
		for k, truth := range []bool{true, false} {
			if pred.Succs[k] == to && f(i.Cond, truth) {
				return true
			}
		}
	}
	return false
}

// succeeded: the call, look-up or assertion is known to have succeeded.
func (n *nilness) succeeded(tuple ssa.Value, b *ssa.BasicBlock) bool {
	last := -1
	if tp, ok := tuple.Type().(*types.Tuple); ok {
		last = tp.Len() - 1
	}
	is := func(v ssa.Value) bool {
		e, ok := v.(*ssa.Extract)
		return ok && e.Tuple == tuple && e.Index == last
	}
	var says func(cond ssa.Value, truth bool) bool
	says = func(cond ssa.Value, truth bool) bool {
		switch c := cond.(type) {
		case *ssa.Extract:
			return is(c) && truth
		case *ssa.UnOp:
			return c.Op == token.NOT && says(c.X, !truth)
		case *ssa.BinOp:
			if c.Op != token.EQL && c.Op != token.NEQ || (c.Op == token.EQL) != truth {
				return false
			}
			k, ok := c.Y.(*ssa.Const)
			return ok && k.Value == nil && is(c.X)
		}
		return false
	}
	return n.tested(b, says)
}

// --- the check ---

type c18 struct {
	r     *Run
	p     *Prog
	n     *nilness
	roles map[string]types.Type
	sites map[string]*Site
	cmds  []readAs
	inv   []invariant
}

func runC18(r *Run) {
	p := r.prog()
	x := &c18{r: r, p: p, n: newNilness(p), roles: map[string]types.Type{}, sites: map[string]*Site{}}
	for _, q := range [][2]string{{"pkg/world", "World"}, {"pkg/world", "Tree"}, {"pkg/app", "App"}} {
		if x.roles[q[1]] = p.implOf(q[0], q[1]); x.roles[q[1]] == nil {
			r.missing("the implementation of " + q[1])
			return
		}
	}
	x.nils()
	x.commands()
	x.invariants()
	x.bounds()
	x.others()
}

// nils: nothing that may be nil is used.
func (x *c18) nils() {
	r, p := x.r, x.p
	total := 0
	for _, fn := range x.n.funcs {
		name := p.canon(fn)
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				v := nilUse(ins)
				if v == nil || !isNilable(v.Type()) {
					continue
				}
				total++
				why := x.n.mayNil(v, b, ins)
				r.must(why == "", "nil in "+name, ins.Pos(), "%s uses %s, which can be nil: %s", name, describe(v), why)
			}
		}
	}
	r.counts["uses of pointers, interfaces, functions and tables"] = total
	r.need("uses of what could be nil", total, 300)
	r.counts["places that can hold nil"] = len(x.n.null)
}

func describe(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			return "the field " + structOf(fa.X.Type()).Field(fa.Field).Name()
		}
	case *ssa.Field:
		return "the field " + structOf(x.X.Type()).Field(x.Field).Name()
	case *ssa.Parameter:
		return "its parameter " + x.Name()
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return "a result of " + callName(&c.Call)
		}
	case *ssa.Call:
		return "the result of " + callName(&x.Call)
	}
	return "a value of type " + types.TypeString(v.Type(), (*types.Package).Name)
}

// readAs is what the parser makes of a command.
type readAs struct {
	strs map[string]string // statement, type of the resource, verb
	in   int               // 1, -1, 0 unknown
	lens map[string]int    // how many elements the lists have at least
}

// commands: what the lists hold that the parser makes of each command.
func (x *c18) commands() {
	r, p := x.r, x.p
	t := r.newTmpl()
	if t == nil {
		return
	}
	parse, parserT := p.fn("pkg/grammar", "Parse"), p.typ("pkg/grammar", "Parser")
	if parse == nil || parserT == nil || t.g.rules["Command"] == nil {
		r.missing("grammar.Parse and the rule Command")
		return
	}
	iaT := fieldType(parserT, "InputAttributes")
	if iaT == nil {
		r.missing("Parser.InputAttributes")
		return
	}
	pol := t.policy(Policy{})
	done := map[string]bool{}
	seen := map[string]bool{}
	for mode := 0; mode < 2; mode++ {
		d := &deriver{g: t.g, mode: mode}
		for _, ls := range d.gen(t.g.rules["Command"]) {
			env := newTenv()
			_, text := r.words(ls, env, true)
			key := text.String()
			if done[key] {
				continue
			}
			done[key] = true
			t.guard("what the parser makes of commands", parse, func() {
				t.explore(env, func() {
					st := newState()
					if !t.env.assume(st) {
						return
					}
					in := NewInterp(p, pol)
					for _, o := range r.execIn(in, parse, st, text) {
						if o.panic || len(o.rets) != 2 || errStatus(o.st, o.rets[1]) == -1 {
							continue
						}
						ps := in.load(o.st, o.rets[0])
						ia := mkField(ps, "InputAttributes", iaT)
						c := readAs{strs: map[string]string{}, lens: map[string]int{}}
						get := func(f string) *Term { return canonIn(o.st, mkField(ia, f, fieldType(iaT, f))) }
						if s, ok := mkField(ps, "StmtType", types.Typ[types.String]).isStr(); ok {
							c.strs["StmtType"] = s
						}
						for _, f := range []string{"ResourceType", "Verb"} {
							if s, ok := get(f).isStr(); ok {
								c.strs[f] = s
							}
						}
						switch get("InItem") {
						case tTrue:
							c.in = 1
						case tFalse:
							c.in = -1
						}
						for _, f := range []string{"ResourceIds", "SecondaryIds", "Flags"} {
							if l, ok := in.texts(o.st, get(f)); ok {
								c.lens[f] = len(l)
							}
						}
						k := c.strs["StmtType"] + "|" + c.strs["ResourceType"] + "|" + c.strs["Verb"] + "|" + itoaN(c.in) + "|" + itoaN(c.lens["ResourceIds"]) + "|" + itoaN(c.lens["SecondaryIds"]) + "|" + itoaN(c.lens["Flags"])
						if !seen[k] {
							seen[k] = true
							x.cmds = append(x.cmds, c)
						}
					}
				})
			})
		}
		if d.over {
			r.bad("decided:commands", parse.Pos(), "the grammar derives commands in more ways than are gone through")
		}
	}
	r.need("texts of commands read", len(done), 30)
	r.need("kinds of commands read", len(x.cmds), 8)
}

// listLen: the parser has put at least so many elements into a list of a command.
func (x *c18) listLen(st *State, list *Term) (int, bool) {
	if list.op != OField {
		return 0, false
	}
	ia := list.args[0]
	if ia.op != OField || ia.s != "InputAttributes" {
		return 0, false
	}
	ps := ia.args[0]
	if !contains(ps, ps) || !strings.Contains(ps.String(), "grammar.Parse(") {
		return 0, false
	}
	say := func(base *Term, f string, typ types.Type, want string) int {
		return st.facts.eval(mkEq(mkField(base, f, typ), cStr(want)))
	}
	str := types.Typ[types.String]
	if say(ps, "StmtType", str, "Command") != 1 {
		return 0, false
	}
	least, any := 0, false
	for _, c := range x.cmds {
		if c.strs["StmtType"] != "" && c.strs["StmtType"] != "Command" {
			continue
		}
		possible := true
		for _, f := range []string{"ResourceType", "Verb"} {
			if v, ok := c.strs[f]; ok && say(ia, f, str, v) == -1 {
				possible = false
			}
			// it is known to be another text
			if v, ok := c.strs[f]; ok {
				if k := st.facts.constOf(mkField(ia, f, str)); k != nil {
					if s, ok := k.isStr(); ok && s != v {
						possible = false
					}
				}
			}
		}
		if e := st.facts.eval(mkField(ia, "InItem", types.Typ[types.Bool])); e*c.in == -1 {
			possible = false
		}
		if !possible {
			continue
		}
		n := c.lens[list.s]
		if !any || n < least {
			least, any = n, true
		}
	}
	return least, any
}

// invariant relates a number and a list of an object.
type invariant struct {
	num, list *types.Var
	low       int64 // num >= low
	high      int64 // num <= len(list)+high
}

func (v invariant) facts(in *Interp, st *State, recv *Term) []*Term {
	n, l := in.get(st, recv, v.num), in.get(st, recv, v.list)
	return []*Term{mkLe0(linOf(sub(cInt(v.low), n))), mkLe0(linOf(sub(n, addc(in.lenOf(st, l), v.high))))}
}

// invariants: what every method of the application keeps true of its place in the history.
func (x *c18) invariants() {
	t := x.roles["App"]
	nums := fieldsWhere(t, func(v *types.Var) bool { return isBasic(v.Type(), types.IsInteger) })
	lists := fieldsWhere(t, func(v *types.Var) bool { return isSliceT(v.Type()) })
	for _, n := range nums {
		for _, l := range lists {
			for low := int64(0); low >= -1; low-- {
				for high := int64(-1); high <= 0; high++ {
					x.inv = append(x.inv, invariant{n, l, low, high})
				}
			}
		}
	}
	var fns []*ssa.Function
	for _, fn := range x.n.funcs {
		if fn.Parent() != nil {
			continue
		}
		recv := fn.Signature.Recv()
		if recv != nil && types.Identical(recv.Type(), t) || recv == nil && x.makes(fn, t) {
			fns = append(fns, fn)
		}
	}
	x.r.need("functions of the application", len(fns), 4)
	for again := true; again && len(x.inv) > 0; {
		again = false
		for _, fn := range fns {
			pol := appPolicy(x.p)
			o := pol.opaque
			pol.opaque = func(n string, f *ssa.Function) bool { return f != fn && (f.Name() == "InputToCommand" || o(n, f)) }
			in := NewInterp(x.p, pol)
			args := paramSyms(fn)
			st := newState()
			if fn.Signature.Recv() != nil {
				x.assume(in, st, args[0])
			}
			for _, o := range x.r.execIn(in, fn, st, args...) {
				if o.panic {
					continue
				}
				var objs []*Term
				if fn.Signature.Recv() != nil {
					objs = append(objs, args[0])
				} else {
					for i, v := range o.rets {
						if v.op == OIface {
							v = v.args[0]
						}
						if v.op == OPtr && types.Identical(v.typ, t) {
							objs = append(objs, o.rets[i])
							objs[len(objs)-1] = v
						}
					}
				}
				for _, obj := range objs {
					var keep []invariant
					for _, v := range x.inv {
						holds := true
						for _, c := range v.facts(in, o.st, obj) {
							if in.eval(o.st, c) != 1 {
								holds = false
							}
						}
						if holds {
							keep = append(keep, v)
						} else {
							again = true
						}
					}
					x.inv = keep
				}
			}
		}
	}
	x.r.counts["invariants of the application kept"] = len(x.inv)
}

// makes: the function makes an object of the type.
func (x *c18) makes(fn *ssa.Function, t types.Type) bool {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if a, ok := ins.(*ssa.Alloc); ok && types.Identical(a.Type(), t) {
				return true
			}
		}
	}
	return false
}

func (x *c18) assume(in *Interp, st *State, recv *Term) {
	for _, v := range x.inv {
		for _, c := range v.facts(in, st, recv) {
			st.assume(c, true)
		}
	}
}

// bounds: indices, parts, assertions, divisions, lengths and explicit panics.
func (x *c18) bounds() {
	r, p := x.r, x.p
	for _, fn := range x.n.funcs {
		if fn.Parent() == nil && ast.IsExported(fn.Name()) && !x.ofCommands(fn) {
			x.explore(fn)
		}
	}
	// what was not reached from there, for itself
	tried := map[*ssa.Function]bool{}
	for round := 0; round < 3; round++ {
		for _, fn := range x.n.funcs {
			if tried[fn] || !x.unseen(fn) || fn.Parent() != nil && !tried[fn.Parent()] && round < 2 {
				continue
			}
			tried[fn] = true
			x.explore(fn)
		}
	}
	n := map[string]int{}
	for _, fn := range x.n.funcs {
		name := p.canon(fn)
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				k := siteKind(ins)
				if k == "" || x.generated(ins) {
					continue
				}
				n[k]++
				if x.sorted(ins) || x.ranged(ins) {
					r.ok(k + " in " + name)
					continue
				}
				s := x.sites[siteKey(k, fn, ins.Pos())]
				switch {
				case s == nil:
					r.bad(k+" in "+name, ins.Pos(), "%s: nothing shows that this cannot panic, for it was not reached", name)
				default:
					r.must(s.proven, k+" in "+name, ins.Pos(), "%s: %s", name, cut(s.detail, 300))
				}
			}
		}
	}
	r.counts["indices"], r.counts["parts of lists and texts"] = n["index"], n["slice"]
	r.need("indices", n["index"], 10)
	r.need("parts of lists and texts", n["slice"], 2)
}

// ofCommands: makes a command of what the parser read; it is gone through from where the parser is called.
func (x *c18) ofCommands(fn *ssa.Function) bool {
	ia := x.p.typ("pkg/grammar", "InputAttributes")
	for _, q := range fn.Params {
		if ia != nil && types.Identical(q.Type(), ia) {
			return true
		}
	}
	return false
}

func (x *c18) unseen(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if k := siteKind(ins); k != "" && !x.generated(ins) && !x.sorted(ins) && !x.ranged(ins) && x.sites[siteKey(k, fn, ins.Pos())] == nil {
				return true
			}
		}
	}
	return false
}

// generated: the text that the generated parser hands to the actions of the grammar.
func (x *c18) generated(ins ssa.Instruction) bool {
	s, ok := ins.(*ssa.Slice)
	if !ok || !strings.HasSuffix(x.p.fset.Position(ins.Pos()).Filename, ".peg.go") {
		return false
	}
	sl, ok := s.X.Type().Underlying().(*types.Slice)
	return ok && types.Identical(sl.Elem(), types.Typ[types.Rune])
}

// ranged: the index of a loop that goes over the same list.
func (x *c18) ranged(ins ssa.Instruction) bool {
	ia, ok := ins.(*ssa.IndexAddr)
	if !ok || !isSliceT(ia.X.Type()) {
		return false
	}
	add, ok := ia.Index.(*ssa.BinOp)
	if !ok || add.Op != token.ADD {
		return false
	}
	return x.n.tested(ia.Block(), func(cond ssa.Value, truth bool) bool {
		c, ok := cond.(*ssa.BinOp)
		if !ok || !truth || c.Op != token.LSS || c.X != ssa.Value(add) {
			return false
		}
		ln, ok := c.Y.(*ssa.Call)
		if !ok {
			return false
		}
		b, ok := ln.Call.Value.(*ssa.Builtin)
		if !ok || b.Name() != "len" || ln.Call.Args[0] != ia.X {
			return false
		}
		ph, ok := add.X.(*ssa.Phi)
		if !ok {
			return false
		}
		for _, e := range ph.Edges {
			if e == ssa.Value(add) {
				continue
			}
			if k, ok := e.(*ssa.Const); !ok || k.Int64() < -1 {
				return false
			}
		}
		k, ok := add.Y.(*ssa.Const)
		return ok && k.Int64() == 1
	})
}

// sorted: the places that the library gives a comparison are within the list that is sorted.
func (x *c18) sorted(ins ssa.Instruction) bool {
	ia, ok := ins.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	fn := ia.Parent()
	q, ok := ia.Index.(*ssa.Parameter)
	if !ok || fn.Parent() == nil || q.Parent() != fn {
		return false
	}
	ld, ok := ia.X.(*ssa.UnOp)
	var fv *ssa.FreeVar
	if ok && ld.Op == token.MUL {
		fv, _ = ld.X.(*ssa.FreeVar)
	} else {
		fv, _ = ia.X.(*ssa.FreeVar)
	}
	if fv == nil {
		return false
	}
	at := -1
	for i, f := range fn.FreeVars {
		if f == fv {
			at = i
		}
	}
	mcs := x.n.bound[fn]
	if at < 0 || len(mcs) == 0 {
		return false
	}
	for _, mc := range mcs {
		for _, r := range *mc.Referrers() {
			if _, ok := r.(*ssa.DebugRef); ok {
				continue
			}
			c, ok := r.(ssa.CallInstruction)
			if !ok || c.Common().StaticCallee() == nil {
				return false
			}
			switch c.Common().StaticCallee().String() {
			case "sort.Slice", "sort.SliceStable", "sort.SliceIsSorted":
			default:
				return false
			}
			v := c.Common().Args[0]
			if m, ok := v.(*ssa.MakeInterface); ok {
				v = m.X
			}
			if l, ok := v.(*ssa.UnOp); ok && l.Op == token.MUL && l.X == mc.Bindings[at] {
				continue
			}
			if v != mc.Bindings[at] {
				return false
			}
		}
	}
	return true
}

func (x *c18) explore(fn *ssa.Function) {
	var pol Policy
	recv := fn.Signature.Recv()
	switch {
	case recv != nil && types.Identical(recv.Type(), x.roles["World"]):
		pol = worldPolicy(x.p)
	case recv != nil && types.Identical(recv.Type(), x.roles["Tree"]):
		pol = treePolicy(x.p)
	default:
		pol = appPolicy(x.p)
	}
	o := pol.opaque
	pol.opaque = func(n string, f *ssa.Function) bool { return f != fn && o(n, f) }
	in := NewInterp(x.p, pol)
	in.checkPanics = true
	in.least = x.listLen
	args := paramSyms(fn)
	st := newState()
	if recv != nil && types.Identical(recv.Type(), x.roles["App"]) {
		x.assume(in, st, args[0])
	}
	x.r.execIn(in, fn, st, args...)
	for k, s := range in.collect() {
		if q := x.sites[k]; q == nil {
			x.sites[k] = s
		} else if q.proven {
			q.proven, q.detail = s.proven, s.detail
		}
	}
}

// siteKind is the kind of obligation that an instruction has, apart from the use of what may be nil.
func siteKind(ins ssa.Instruction) string {
	switch i := ins.(type) {
	case *ssa.IndexAddr:
		if isArrayPtr(i.X.Type()) {
			if _, ok := i.Index.(*ssa.Const); ok {
				return ""
			}
		}
		return "index"
	case *ssa.Index:
		if _, ok := i.Index.(*ssa.Const); ok && isArrayT(i.X.Type()) {
			return ""
		}
		return "index"
	case *ssa.Lookup:
		if _, ok := i.X.Type().Underlying().(*types.Map); !ok {
			return "index"
		}
	case *ssa.Slice:
		if i.Low == nil && i.High == nil && i.Max == nil {
			return ""
		}
		if al, ok := i.X.(*ssa.Alloc); ok && isArrayPtr(al.Type()) && i.Low == nil {
			if c, ok := i.High.(*ssa.Const); ok && c.Int64() >= 0 && c.Int64() <= ptrElem(al.Type()).Underlying().(*types.Array).Len() {
				return ""
			}
		}
		return "slice"
	case *ssa.TypeAssert:
		if !i.CommaOk {
			return "assert"
		}
	case *ssa.BinOp:
		if i.Op == token.QUO || i.Op == token.REM {
			if b, ok := i.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				return "div"
			}
		}
	case *ssa.MakeSlice:
		if sizeIsCount(i.Len) && (i.Cap == i.Len || isZero(i.Len) && sizeIsCount(i.Cap)) {
			return ""
		}
		return "makeslice"
	case *ssa.Panic:
		return "panic"
	}
	return ""
}

// sizeIsCount: a constant from 0 on, or the length of something.
func sizeIsCount(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return x.Value != nil && constant.Sign(x.Value) >= 0
	case *ssa.Call:
		b, ok := x.Call.Value.(*ssa.Builtin)
		return ok && (b.Name() == "len" || b.Name() == "cap")
	}
	return false
}

func isZero(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value != nil && constant.Sign(c.Value) == 0
}

// nilUse is the value that must not be nil for an instruction.
func nilUse(ins ssa.Instruction) ssa.Value {
	switch i := ins.(type) {
	case *ssa.UnOp:
		if i.Op == token.MUL {
			return i.X
		}
	case *ssa.FieldAddr:
		return i.X
	case *ssa.IndexAddr:
		if isArrayPtr(i.X.Type()) {
			return i.X
		}
	case *ssa.Store:
		return i.Addr
	case *ssa.MapUpdate:
		return i.Map
	case ssa.CallInstruction:
		c := i.Common()
		if c.IsInvoke() {
			return c.Value
		}
		if _, ok := c.Value.(*ssa.Builtin); ok {
			return nil
		}
		if c.StaticCallee() == nil {
			return c.Value
		}
		if f := c.StaticCallee(); f.Signature.Recv() != nil && len(c.Args) > 0 {
			if _, ok := c.Args[0].Type().Underlying().(*types.Pointer); ok {
				return c.Args[0]
			}
		}
	}
	return nil
}

// others: what else can panic.
func (x *c18) others() {
	r, p := x.r, x.p
	n := 0
	for _, fn := range x.n.funcs {
		name := p.canon(fn)
		program := strings.Contains(filepath.ToSlash(p.fset.Position(fn.Pos()).Filename), "/cmd/")
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch i := ins.(type) {
				case *ssa.BinOp:
					if i.Op == token.EQL || i.Op == token.NEQ {
						n++
						why := x.comparable(i)
						r.must(why == "", "comparison in "+name, i.Pos(), "%s compares values of type %s, which panics if both are of a type without comparison: %s", name, i.X.Type(), why)
					}
				case ssa.CallInstruction:
					c := i.Common()
					n++
					if bi, ok := c.Value.(*ssa.Builtin); ok && bi.Name() == "close" {
						r.bad("close in "+name, i.Pos(), "%s closes a channel, which panics the second time", name)
					}
					f := c.StaticCallee()
					if f == nil || handWritten(p, f) {
						continue
					}
					why := panicking(f, c, program)
					r.must(why == "", "library call in "+name, i.Pos(), "%s calls %s, which %s", name, f.String(), why)
				}
			}
		}
	}
	r.need("calls and comparisons", n, 100)
}

// comparable says which values of an interface cannot be compared.
func (x *c18) comparable(i *ssa.BinOp) string {
	if _, ok := i.X.Type().Underlying().(*types.Interface); !ok {
		return ""
	}
	for _, v := range []ssa.Value{i.X, i.Y} {
		switch q := v.(type) {
		case *ssa.Const:
			return ""
		case *ssa.MakeInterface:
			if types.Comparable(q.X.Type()) {
				return ""
			}
		case *ssa.UnOp:
			if g, ok := q.X.(*ssa.Global); ok && !x.p.repoPkg(g.Pkg.Pkg) {
				return "" // a value of the library such as io.EOF
			}
		}
	}
	it := i.X.Type().Underlying().(*types.Interface)
	for _, sp := range x.p.spkgs {
		for _, m := range sp.Members {
			t, ok := m.(*ssa.Type)
			if !ok {
				continue
			}
			if _, isI := t.Type().Underlying().(*types.Interface); isI || types.Comparable(t.Type()) {
				continue
			}
			if types.Implements(t.Type(), it) {
				return types.TypeString(t.Type(), (*types.Package).Name)
			}
		}
	}
	return ""
}

// panicking says why a library function can panic on what it is given, or nothing.
func panicking(f *ssa.Function, c *ssa.CallCommon, program bool) string {
	constant := func(i int) bool {
		if i >= len(c.Args) {
			return false
		}
		k, ok := c.Args[i].(*ssa.Const)
		return ok && (k.Value == nil || k.Value.Kind() != 3 || k.Int64() > 0)
	}
	pkg := ""
	if f.Pkg != nil {
		pkg = f.Pkg.Pkg.Path()
	} else if f.Origin() != nil && f.Origin().Pkg != nil {
		pkg = f.Origin().Pkg.Pkg.Path()
	}
	name := f.Name()
	if i := strings.IndexByte(name, '['); i > 0 {
		name = name[:i]
	}
	recv := f.Signature.Recv() != nil
	switch {
	case strings.HasPrefix(name, "Must") && !recv && !constant(0):
		return "panics on what is not well formed"
	case pkg == "log" && (strings.HasPrefix(name, "Panic") || strings.HasPrefix(name, "Fatal") && !program):
		return "ends the program"
	case pkg == "os" && name == "Exit" && !program:
		return "ends the program"
	case pkg == "strings" && name == "Repeat", pkg == "bytes" && name == "Repeat":
		if !constant(1) {
			return "panics on a negative count"
		}
	case pkg == "slices" && (name == "Insert" || name == "Delete" || name == "Replace" || name == "DeleteFunc" && false || name == "Grow" || name == "Chunk" || name == "Repeat"):
		return "panics when the places are not within the list"
	case pkg == "slices" && (name == "Max" || name == "Min" || name == "MaxFunc" || name == "MinFunc"):
		return "panics on an empty list"
	case pkg == "time" && (name == "NewTicker" || name == "Tick"), pkg == "math/rand" && strings.Contains(name, "ntn"), pkg == "math/rand" && strings.HasPrefix(name, "Int") && strings.HasSuffix(name, "n"):
		if !constant(len(c.Args) - 1) {
			return "panics on a number that is not positive"
		}
	case pkg == "strings" && name == "NewReplacer":
		if s, ok := c.Args[0].(*ssa.Slice); ok {
			if a, ok := s.X.(*ssa.Alloc); ok {
				if ptrElem(a.Type()).Underlying().(*types.Array).Len()%2 == 0 {
					return ""
				}
			}
		}
		return "panics on an odd number of texts"
	case pkg == "reflect", pkg == "unsafe":
		return "can panic on values of other types"
	}
	return ""
}
