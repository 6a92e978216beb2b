package main

// Helpers shared by the rules.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// norm forgets where the storage of a value is: copies are what they copy.
func norm(t *Term) *Term {
	if t == nil {
		return nil
	}
	return subst(t, func(x *Term) *Term {
		if x.op == OCopy || x.op == OClip {
			return norm(x.args[0])
		}
		return nil
	}, map[*Term]*Term{})
}

// canonIn rewrites slices that are the whole of what they slice in a state.
func canonIn(st *State, t *Term) *Term {
	t = norm(t)
	for i := 0; i < 4; i++ {
		u := subst(t, func(x *Term) *Term {
			if x.op == OSlice {
				s, lo, hi := x.args[0], x.args[1], x.args[2]
				n := mkLen(s)
				if st.facts.eval(mkEq(lo, cInt(0))) == 1 && st.facts.eval(mkEq(hi, n)) == 1 {
					return s
				}
				if st.facts.eval(mkEq(lo, hi)) == 1 {
					return tEmptySeq
				}
			}
			return nil
		}, map[*Term]*Term{})
		if u == t {
			break
		}
		t = u
	}
	return t
}

// same reports whether two values are equal in a state.
func same(st *State, a, b *Term) bool {
	a, b = canonIn(st, a), canonIn(st, b)
	if a == b {
		return true
	}
	if emptySeq(a) && emptySeq(b) {
		return true
	}
	if isIntT(a) || isIntT(b) {
		return st.facts.eval(mkEq(a, b)) == 1
	}
	return st.facts.eval(mkEq(a, b)) == 1
}

func emptySeq(t *Term) bool { return t.op == ONil || t == tEmptySeq }

// errStatus: 1 the error is nil, -1 it is not, 0 unknown.
func errStatus(st *State, e *Term) int {
	if e == nil {
		return 1
	}
	switch e.op {
	case ONil:
		return 1
	case OIface, OPtr, OAddr:
		return -1
	}
	return st.facts.eval(mkEq(e, tNil))
}

// boolIs reports whether the boolean t is exactly the condition w in a state.
func boolIs(st *State, t, w *Term) bool {
	if t == w {
		return true
	}
	a := st.clone()
	if a.assume(w, true) && !a.contradiction() && a.facts.eval(t) != 1 {
		return false
	}
	b := st.clone()
	if b.assume(w, false) && !b.contradiction() && b.facts.eval(t) != -1 {
		return false
	}
	return true
}

// contradiction looks for linear facts that cannot hold together.
func (s *State) contradiction() bool {
	if s.unequal() {
		return true
	}
	for _, l := range s.facts.lins() {
		n := l.neg()
		n.c++
		if s.facts.impliesLe(s.facts.lins(), n) {
			return true
		}
	}
	return false
}

// unequal: the equalities that are known contradict something else that is known.
func (s *State) unequal() bool {
	rep := map[*Term]*Term{}
	find := func(t *Term) *Term {
		for rep[t] != nil {
			t = rep[t]
		}
		return t
	}
	n := 0
	better := func(a, b *Term) bool { // a stands for b
		if (a.op == OConst || a.op == ONil) != (b.op == OConst || b.op == ONil) {
			return a.op == OConst || a.op == ONil
		}
		return a.id < b.id
	}
	bad := false
	s.facts.each(func(a *Term, v bool) bool {
		if v && a.op == OEq {
			x, y := find(a.args[0]), find(a.args[1])
			if x == y {
				return true
			}
			if mkEq(x, y) == tFalse {
				bad = true
				return false
			}
			if !better(x, y) {
				x, y = y, x
			}
			if contains(x, y) {
				return true
			}
			rep[y] = x
			n++
		}
		return true
	})
	if bad || n == 0 {
		return bad
	}
	norm := func(a *Term) *Term {
		for i := 0; i < 4; i++ {
			b := subst(a, func(t *Term) *Term {
				if rep[t] != nil {
					return find(t)
				}
				return nil
			}, map[*Term]*Term{})
			if b == a {
				break
			}
			a = b
		}
		return a
	}
	seen := map[*Term]bool{}
	s.facts.each(func(a *Term, v bool) bool {
		b := norm(a)
		switch {
		case v && a.op == OEq:
			return true
		case b == tTrue && !v, b == tFalse && v:
			bad = true
		}
		if w, ok := seen[b]; ok && w != v {
			bad = true
		}
		seen[b] = v
		return !bad
	})
	return bad
}

// flat lists the events of a trace, those inside loops included.
func flat(tr []*Ev, f func(e *Ev, in []*Loop)) {
	var rec func(tr []*Ev, in []*Loop)
	rec = func(tr []*Ev, in []*Loop) {
		for _, e := range tr {
			f(e, in)
			if e.kind == "loop" {
				for _, p := range e.loop.paths {
					rec(p.trace, append(in[:len(in):len(in)], e.loop))
				}
			}
		}
	}
	rec(tr, nil)
}

// callsOf lists the calls with the given name, those inside loops included.
func callsOf(tr []*Ev, name string) []*Ev {
	var out []*Ev
	flat(tr, func(e *Ev, in []*Loop) {
		if e.kind == "call" && e.name == name {
			out = append(out, e)
		}
	})
	return out
}

func topCalls(tr []*Ev, name string) []*Ev {
	var out []*Ev
	for _, e := range tr {
		if e.kind == "call" && e.name == name {
			out = append(out, e)
		}
	}
	return out
}

// fieldsWhere lists the fields of a struct type that satisfy a predicate.
func fieldsWhere(t types.Type, f func(v *types.Var) bool) []*types.Var {
	var out []*types.Var
	s := structOf(t)
	if s == nil {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if f(s.Field(i)) {
			out = append(out, s.Field(i))
		}
	}
	return out
}

// fieldPtr is the address of a field of the object a symbolic pointer points to.
func fieldPtr(recv *Term, f *types.Var) *Term {
	return mk(OFieldP, f.Name(), 0, types.NewPointer(f.Type()), recv)
}

func (in *Interp) get(st *State, recv *Term, f *types.Var) *Term {
	return in.val(st, in.load(st, fieldPtr(recv, f)))
}

func isBasic(t types.Type, info types.BasicInfo) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&info != 0
}

// declared reports whether fn is a function that is written in the source.
func declared(fn *ssa.Function) bool { return fn.Synthetic == "" && len(fn.Blocks) > 0 }

// closureOf lists the functions reachable from fn by static calls, sole implementations and closures.
func (p *Prog) closureOf(fn *ssa.Function) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function)
	rec = func(f *ssa.Function) {
		if f == nil || out[f] || len(f.Blocks) == 0 || !p.repoPkg(fnPkg(f)) {
			return
		}
		out[f] = true
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				for _, op := range i.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						rec(g)
					}
				}
				if mc, ok := i.(*ssa.MakeClosure); ok {
					rec(mc.Fn.(*ssa.Function))
				}
				if c, ok := i.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
					if s := p.soleImpl(c.Common().Value.Type()); s != nil {
						rec(p.prog.LookupMethod(s, c.Common().Method.Pkg(), c.Common().Method.Name()))
					}
				}
			}
		}
	}
	rec(fn)
	return out
}

// invokes reports whether a function reaches a call of the given interface method.
func (p *Prog) invokes(fn *ssa.Function, iface, method string) bool {
	for f := range p.closureOf(fn) {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(ssa.CallInstruction); ok && c.Common().IsInvoke() && c.Common().Method.Name() == method {
					if tn := typeName(c.Common().Value.Type()); tn != nil && tn.Name() == iface {
						return true
					}
				}
			}
		}
	}
	return false
}

// methodsOfType lists the declared methods of a pointer type.
func (p *Prog) methodsOfType(t types.Type) []*ssa.Function {
	var out []*ssa.Function
	ms := p.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		f := p.prog.MethodValue(ms.At(i))
		if f == nil {
			continue
		}
		if o, ok := ms.At(i).Obj().(*types.Func); ok && f.Synthetic != "" {
			if g := p.prog.FuncValue(o); g != nil {
				f = g
			}
		}
		out = append(out, f)
	}
	return out
}

func hasPrefixAny(s string, ps ...string) bool {
	for _, p := range ps {
		if strings.HasPrefix(s, p) {
			return true
		}
	}
	return false
}

// withOpaque adds operations that stay uninterpreted to a policy.
func withOpaque(pol Policy, kinds map[string]byte) Policy {
	o, k := pol.opaque, pol.kind
	pol.opaque = func(name string, fn *ssa.Function) bool {
		if _, ok := kinds[name]; ok {
			return true
		}
		return o != nil && o(name, fn)
	}
	pol.kind = func(name string) byte {
		if b, ok := kinds[name]; ok {
			return b
		}
		if k != nil {
			return k(name)
		}
		return 0
	}
	return pol
}
