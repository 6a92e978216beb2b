package main

// The operations of a world: what each of them does to the items, the relationships, the tree and
// the status, on every trace partition, compared with what it has to do. One analysis serves the
// properties that look at it from different sides.

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type wShape struct {
	r                 *Run
	t                 types.Type
	items, rels, tree *types.Var
	lItem, lRel, lErr *types.Var
	header            []*types.Var
	itemT, relT       types.Type
	proj              string // compare items by this field only
	keyF, keyT, key   *Term  // key of the relationship between keyF and keyT
	memo              map[string][]*wOut
	fns               map[string]*ssa.Function
}

type wOut struct {
	w              *wShape
	fn             *ssa.Function
	name           string
	o              Outcome
	st             *State
	in             *Interp
	args           []*Term
	I0, R0, T0     *Term
	I1, R1         *Term
	muts           []*Ev // mutations of the tree
	err, item, rel *Term
}

func structIs(t types.Type, named types.Type) bool { return types.Identical(t, named) }

func (r *Run) worldShape() *wShape {
	p := r.prog()
	t := p.implOf("pkg/world", "World")
	itemT, relT, treeT := p.typ("pkg/world", "Item"), p.typ("pkg/world", "Rel"), p.typ("pkg/world", "Tree")
	if t == nil || itemT == nil || relT == nil || treeT == nil {
		r.missing("the implementation of World and its types")
		return nil
	}
	w := &wShape{r: r, t: t, itemT: itemT, relT: relT, memo: map[string][]*wOut{}, fns: map[string]*ssa.Function{}}
	one := func(what string, f func(t types.Type) bool) *types.Var {
		vs := fieldsWhere(t, func(v *types.Var) bool { return f(v.Type()) })
		if len(vs) != 1 {
			r.missing(what + " of the world")
			return nil
		}
		return vs[0]
	}
	mapOf := func(e types.Type) func(t types.Type) bool {
		return func(t types.Type) bool {
			m, ok := t.Underlying().(*types.Map)
			return ok && types.Identical(m.Elem(), e) && isBasic(m.Key(), types.IsString)
		}
	}
	optional := func(e types.Type) func(t types.Type) bool {
		return func(t types.Type) bool {
			return types.Identical(t, e) || types.Identical(t, types.NewPointer(e))
		}
	}
	w.items = one("the items", mapOf(itemT))
	w.rels = one("the relationships", mapOf(relT))
	w.tree = one("the tree", func(t types.Type) bool { return types.Identical(t, treeT) })
	w.lItem = one("the latest item", optional(itemT))
	w.lRel = one("the latest relationship", optional(relT))
	w.lErr = one("the latest error", func(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) })
	w.header = fieldsWhere(t, func(v *types.Var) bool { return isBasic(v.Type(), types.IsString|types.IsInteger) })
	if w.items == nil || w.rels == nil || w.tree == nil || w.lItem == nil || w.lRel == nil || w.lErr == nil {
		return nil
	}
	return w
}

func initField(recv *Term, f *types.Var) *Term {
	return mkField(mk(ODeref, "", 0, ptrElem(recv.typ), recv), f.Name(), f.Type())
}

// run analyses an operation once.
func (w *wShape) run(name string) []*wOut {
	if o, ok := w.memo[name]; ok {
		return o
	}
	w.memo[name] = nil
	fn := w.r.p.method(w.t, name)
	if fn == nil {
		w.r.missing("World." + name)
		return nil
	}
	w.fns[name] = fn
	args := paramSyms(fn)
	outs, in := w.r.exec(worldPolicy(w.r.p), fn, newState(), args...)
	for _, o := range outs {
		if o.panic {
			continue // C18
		}
		x := &wOut{w: w, fn: fn, name: name, o: o, st: o.st, in: in, args: args}
		s0 := newState()
		x.I0 = in.mapContent(s0, initField(args[0], w.items))
		x.R0 = in.mapContent(s0, initField(args[0], w.rels))
		x.T0 = initField(args[0], w.tree)
		x.I1 = in.snapMap(o.st, in.mapContent(o.st, in.get(o.st, args[0], w.items)))
		x.R1 = in.snapMap(o.st, in.mapContent(o.st, in.get(o.st, args[0], w.rels)))
		x.err = in.snap(o.st, in.get(o.st, args[0], w.lErr), 0)
		x.item = w.deref(in, o.st, in.get(o.st, args[0], w.lItem), w.itemT)
		x.rel = w.deref(in, o.st, in.get(o.st, args[0], w.lRel), w.relT)
		flat(o.st.trace, func(e *Ev, _ []*Loop) {
			switch {
			case e.kind == "call" && treeKind(e.name) == 'm' && strings.HasPrefix(e.name, "Tree."):
				x.muts = append(x.muts, e)
			case e.kind == "call" && (strings.HasPrefix(e.name, "Tree.") || e.name == "") && treeKind(e.name) == 0:
				x.muts = append(x.muts, e)
			}
		})
		w.memo[name] = append(w.memo[name], x)
	}
	// invariants decide conditions that the code left open; impossible partitions go away
	if w.key == nil && name != "RelDelete" {
		w.findKey()
	}
	var keep []*wOut
	for _, x := range w.memo[name] {
		if st := x.refine(x.st); st != nil {
			x.st = st
			x.err, x.item, x.rel = x.rewrite(st, x.err), x.rewrite(st, x.item), x.rewrite(st, x.rel)
			keep = append(keep, x)
		}
	}
	w.memo[name] = keep
	return keep
}

// deref gives the value of an optional field: nil pointers stand for the zero value.
func (w *wShape) deref(in *Interp, st *State, v *Term, t types.Type) *Term {
	v = in.snap(st, v, 0)
	switch {
	case v.op == ONil:
		return mk(OZero, "", 0, t)
	case v.op == OAddr:
		return v.args[0]
	case v.typ != nil && types.Identical(v.typ, types.NewPointer(t)):
		return mk(ODeref, "", 0, t, v)
	}
	return v
}

// findKey finds the key under which relationships are stored.
func (w *wShape) findKey() {
	for _, x := range w.run("RelDelete") {
		if x.R1.op == OMDel && x.R1.args[0] == x.R0 && len(x.args) >= 3 {
			w.keyF, w.keyT, w.key = x.args[1], x.args[2], x.R1.args[1]
		}
	}
	if w.key == nil {
		w.r.missing("the key under which a relationship is deleted")
		w.key, w.keyF, w.keyT = tNil, tNil, tNil
	}
}

func (w *wShape) keyOf(f, t *Term) *Term {
	return subst(w.key, func(x *Term) *Term {
		switch x {
		case w.keyF:
			return f
		case w.keyT:
			return t
		}
		return nil
	}, map[*Term]*Term{})
}

// unkey recognises a key of a relationship.
func (w *wShape) unkey(k *Term) (f, t *Term, ok bool) {
	var m func(pat, x *Term) bool
	m = func(pat, x *Term) bool {
		switch pat {
		case w.keyF:
			if f != nil && f != x {
				return false
			}
			f = x
			return true
		case w.keyT:
			if t != nil && t != x {
				return false
			}
			t = x
			return true
		}
		if pat == x {
			return true
		}
		if pat.op != x.op || pat.s != x.s || pat.k != x.k || len(pat.args) != len(x.args) {
			return false
		}
		for i := range pat.args {
			if !m(pat.args[i], x.args[i]) {
				return false
			}
		}
		return true
	}
	if w.key == nil || w.key.op == ONil {
		return nil, nil, false
	}
	ok = m(w.key, k)
	return f, t, ok && f != nil && t != nil
}

// rewrite applies what holds of every world: items are stored under their identifier and have a
// place, relationships are stored under the key of their endpoints.
func (x *wOut) rewrite(st *State, t *Term) *Term {
	if t == nil {
		return nil
	}
	find := func(c *Term) (*Term, bool) { // id of a place found in the tree as it was
		if c.op == OCall && c.s == "Tree.Find" && len(c.args) >= 2 && c.args[0] == x.T0 && (len(c.args) < 3 || c.args[2].op != OEpoch || strings.HasPrefix(c.args[2].s, "0:")) {
			return c.args[1], true
		}
		return nil, false
	}
	var rw func(u *Term) *Term
	memo := map[*Term]*Term{}
	rw = func(u *Term) *Term {
		if r, ok := memo[u]; ok {
			return r
		}
		v := u
		if len(u.args) > 0 {
			args := make([]*Term, len(u.args))
			ch := false
			for i, a := range u.args {
				args[i] = rw(a)
				ch = ch || args[i] != a
			}
			if ch {
				v = rebuild(u, args)
			}
		}
		switch v.op {
		case OExtract:
			if id, ok := find(v.args[0]); ok && v.k == 1 {
				v = mkLookupOk(x.I0, id)
			}
		case OCall:
			switch v.s {
			case "Tree.Item":
				if v.args[0].op == OExtract && v.args[0].k == 0 {
					if id, ok := find(v.args[0].args[0]); ok {
						v = mkLookup(x.I0, id, x.w.itemT)
					}
				}
			case "world.ItemTypeFromString":
				if st.facts.eval(mkEmpty(v.args[0])) == 1 {
					v = cInt(0)
				}
			}
		case OLookup:
			if st.facts.eval(mkLookupOk(v.args[0], v.args[1])) == -1 && v.typ != nil {
				v = zeroOf(v.typ)
			}
		case OField:
			if v.s == "Id" {
				b := v.args[0]
				if b.op == OLookup && b.args[0] == x.I0 && st.facts.eval(mkLookupOk(x.I0, b.args[1])) == 1 {
					v = b.args[1]
				} else if b.op == OField && b.args[0].op == OLookup && b.args[0].args[0] == x.R0 {
					k := b.args[0].args[1]
					if f, to, ok := x.w.unkey(k); ok && st.facts.eval(mkLookupOk(x.R0, k)) == 1 {
						switch b.s {
						case "From":
							v = f
						case "To":
							v = to
						}
					}
				}
			}
		}
		// the key of a stored relationship
		if f, to, ok := x.w.unkey(v); ok && f.op == OField && f.s == "Id" && to.op == OField && to.s == "Id" {
			a, b := f.args[0], to.args[0]
			if a.op == OField && a.s == "From" && b.op == OField && b.s == "To" && a.args[0] == b.args[0] &&
				a.args[0].op == OLookup && a.args[0].args[0] == x.R0 {
				v = a.args[0].args[1]
			}
		}
		memo[u] = v
		return v
	}
	return rw(t)
}

// refine rebuilds the facts of a state under the invariants; nil if they cannot hold.
func (x *wOut) refine(st *State) *State {
	var fs []*Facts
	st.facts.each2(func(f *Facts) { fs = append(fs, f) })
	s := st.clone()
	s.facts = nil
	for i := len(fs) - 1; i >= 0; i-- {
		if !s.assume(x.rewrite(s, fs[i].atom), fs[i].val) {
			return nil
		}
	}
	if s.contradiction() {
		return nil
	}
	return s
}

func (x *wOut) nf(st *State, t *Term) *Term {
	t = x.in.snap(x.o.st, t, 0)
	if r := keyIs(st, x.w.memoK()); r != nil {
		t = subst(t, func(u *Term) *Term {
			if u == x.w.memoK() {
				return r
			}
			return nil
		}, map[*Term]*Term{})
	}
	return canonIn(st, x.rewrite(st, t))
}

func (w *wShape) memoK() *Term { return genericKey }

// genericKey stands for any key of a map.
var genericKey = sym("·K", types.Typ[types.String])

// keyIs finds what the facts say the generic key is.
func keyIs(st *State, K *Term) *Term {
	var r *Term
	st.facts.each(func(a *Term, v bool) bool {
		if v && a.op == OEq {
			if a.args[0] == K && !contains(a.args[1], K) {
				r = a.args[1]
			} else if a.args[1] == K && !contains(a.args[0], K) {
				r = a.args[0]
			}
		}
		return r == nil
	})
	return r
}

// congruent carries what is known about the entry of a key over to the generic key when they are equal.
func congruent(st *State, m0, K *Term) bool {
	k := keyIs(st, K)
	if k == nil {
		return true
	}
	switch st.facts.eval(mkLookupOk(m0, k)) {
	case 1:
		return st.assume(mkLookupOk(m0, K), true)
	case -1:
		return st.assume(mkLookupOk(m0, K), false)
	}
	switch st.facts.eval(mkLookupOk(m0, K)) {
	case 1:
		return st.assume(mkLookupOk(m0, k), true)
	case -1:
		return st.assume(mkLookupOk(m0, k), false)
	}
	return true
}

// equal compares two values of a type in a state, field by field if need be.
func (x *wOut) equal(st *State, a, b *Term, t types.Type) bool {
	a, b = x.nf(st, a), x.nf(st, b)
	if a == b || same(st, a, b) {
		return true
	}
	if t == nil {
		return false
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if x.w.proj != "" && f.Name() != x.w.proj && types.Identical(t, x.w.itemT) {
				continue
			}
			if !x.equal(st, mkField(a, f.Name(), f.Type()), mkField(b, f.Name(), f.Type()), f.Type()) {
				return false
			}
		}
		return true
	}
	if isBasic(t, types.IsInteger) && (a.op == OConst || b.op == OConst) {
		return st.facts.eval(mkEq(a, b)) == 1
	}
	return false
}

// splitAll makes the states in which all the given conditions are decided.
func splitAll(st *State, conds ...*Term) []*State {
	cur := []*State{st}
	for _, c := range conds {
		var next []*State
		for _, s := range cur {
			if s.facts.eval(c) != 0 {
				next = append(next, s)
				continue
			}
			for _, v := range []bool{true, false} {
				n := s.clone()
				if n.assume(c, v) && !n.contradiction() {
					next = append(next, n)
				}
			}
		}
		cur = next
	}
	return cur
}

// becomes compares what a map has become with what it has to be, at a generic key.
// want gives the value at K in a state (nil if absent); v0 is the former value (nil if absent).
func (x *wOut) becomes(st *State, m1, m0 *Term, elem types.Type, conds func(K *Term) []*Term, want func(s *State, K, v0 *Term) *Term) string {
	if m1 == m0 && want == nil {
		return ""
	}
	K := genericKey
	e := &entry{K: K, rew: x.rewrite}
	in0 := mkLookupOk(m0, K)
	cs := []*Term{in0}
	if conds != nil {
		for _, c := range conds(K) {
			cs = append(cs, x.rewrite(st, c))
		}
	}
	for _, s := range splitAll(st, cs...) {
		s = s.clone()
		if !congruent(s, m0, K) {
			continue
		}
		v0 := mkLookup(m0, K, elem)
		if s.facts.eval(in0) != 1 {
			v0 = nil
		}
		for _, c := range e.at(m1, s) {
			if !congruent(c.st, m0, K) {
				continue
			}
			w := v0
			if want != nil {
				w = want(c.st, K, v0)
			}
			switch {
			case w == tImpossible:
			case w == nil && c.present:
				return "an entry stays or appears that must not be there: " + c.val.String() + " when [" + relevant(c.st, K) + "]"
			case w != nil && !c.present:
				return "an entry is missing when [" + relevant(c.st, K) + "]"
			case w != nil && !x.equal(c.st, c.val, w, elem):
				return "an entry becomes " + x.nf(c.st, c.val).String() + ", not " + x.nf(c.st, w).String() + ", when [" + relevant(c.st, K) + "]"
			}
		}
		if e.why != "" {
			return "the content cannot be determined: " + e.why
		}
	}
	return ""
}

// tImpossible is wanted where an invariant of the worlds rules the entry out.
var tImpossible = sym("impossible", nil)

func relevant(st *State, K *Term) string {
	var out []string
	st.facts.each(func(a *Term, v bool) bool {
		if contains(a, K) {
			s := a.String()
			if !v {
				s = "!" + s
			}
			out = append(out, s)
		}
		return true
	})
	return strings.Join(out, " & ")
}

func (x *wOut) sameItems(st *State) string { return x.becomes(st, x.I1, x.I0, x.w.itemT, nil, nil) }
func (x *wOut) sameRels(st *State) string  { return x.becomes(st, x.R1, x.R0, x.w.relT, nil, nil) }

// must records an obligation for the properties it belongs to.
func (w *wShape) must(ids string, cond bool, key string, pos token.Pos, f string, a ...any) bool {
	if !strings.Contains(" "+ids+" ", " "+w.r.c.id+" ") {
		return cond
	}
	return w.r.must(cond, key, pos, f, a...)
}

func (w *wShape) none(ids string, why string, key string, pos token.Pos, what string) bool {
	return w.must(ids, why == "", key, pos, "%s: %s", what, why)
}

func (x *wOut) pos() token.Pos { return x.fn.Pos() }

// status gives the states in which the operation has succeeded and failed.
func (x *wOut) status() (okS, badS *State) {
	switch errStatus(x.st, x.err) {
	case 1:
		return x.st, nil
	case -1:
		return nil, x.st
	}
	okS, badS = x.st.clone(), x.st.clone()
	c := mkEq(x.err, tNil)
	if !okS.assume(c, true) {
		okS = nil
	}
	if !badS.assume(c, false) {
		badS = nil
	}
	return
}

// --- what the attributes become ---

// paramFields pairs the fields of a parameter struct with those of what they set.
func (w *wShape) paramFields(params, of types.Type) [][2]*types.Var {
	var out [][2]*types.Var
	ps := structOf(params)
	if ps == nil {
		return nil
	}
	for i := 0; i < ps.NumFields(); i++ {
		f := ps.Field(i)
		found := false
		s := structOf(of)
		for j := 0; j < s.NumFields(); j++ {
			if s.Field(j).Name() == f.Name() {
				out = append(out, [2]*types.Var{f, s.Field(j)})
				found = true
			}
		}
		if !found {
			w.r.missing("the attribute " + f.Name() + " of " + shortType(of))
		}
	}
	return out
}

type paramVal struct {
	name  string
	given *Term // condition: it is not given
	val   *Term // the value given
	raw   *Term // what was given, as text
	field *types.Var
	typed bool
}

func (w *wShape) paramVals(params *Term, of types.Type) []paramVal {
	var out []paramVal
	for _, pf := range w.paramFields(params.typ, of) {
		ptr := mkField(params, pf[0].Name(), pf[0].Type())
		raw := mk(ODeref, "", 0, ptrElem(pf[0].Type()), ptr)
		v := paramVal{name: pf[0].Name(), given: mkEq(ptr, tNil), val: raw, raw: raw, field: pf[1]}
		if !types.Identical(ptrElem(pf[0].Type()), pf[1].Type()) {
			v.typed = true
			v.val = mk(OCall, "world.ItemTypeFromString", 0, pf[1].Type(), raw)
		}
		out = append(out, v)
	}
	return out
}

// updated is the value with the given parameters applied, in a state in which it is decided which are given.
func updated(st *State, v *Term, ps []paramVal) *Term {
	for _, p := range ps {
		if st.facts.eval(p.given) == -1 {
			v = mkWith(v, p.field.Name(), p.val)
		}
	}
	return v
}

func given(ps []paramVal) []*Term {
	var out []*Term
	for _, p := range ps {
		out = append(out, p.given)
	}
	return out
}

// unusable: a parameter names no type.
func (x *wOut) unusable(st *State, ps []paramVal) bool {
	for _, p := range ps {
		if p.typed && st.facts.eval(p.given) == -1 && st.facts.eval(mkEmpty(p.raw)) == -1 && st.facts.eval(mkEq(p.val, cInt(0))) == 1 {
			return true
		}
	}
	return false
}

// usable: it is known that no parameter names an unknown type.
func (x *wOut) usable(st *State, ps []paramVal) bool {
	for _, p := range ps {
		if !p.typed || st.facts.eval(p.given) == 1 || st.facts.eval(mkEmpty(p.raw)) == 1 || st.facts.eval(mkEq(p.val, cInt(0))) == -1 {
			continue
		}
		return false
	}
	return true
}

// mismatch compares the parameters with what exists: 1 they differ, -1 they agree, 0 not decided.
func (x *wOut) mismatch(st *State, old *Term, ps []paramVal) int {
	r := -1
	for _, p := range ps {
		if st.facts.eval(p.given) == 1 {
			continue
		}
		cur := mkField(old, p.field.Name(), p.field.Type())
		d := st.facts.eval(mkEq(cur, p.val))
		if p.typed {
			if e := st.facts.eval(mkEq(mk(OCall, "world.StringFromItemType", 0, types.Typ[types.String], cur), p.raw)); e != 0 {
				d = e
			}
		}
		if d == -1 && st.facts.eval(p.given) == -1 {
			return 1
		}
		if d != 1 {
			r = 0
		}
	}
	return r
}

// isNil evaluates whether a result is nil.
func (x *wOut) isNil(st *State, t *Term) int { return st.facts.eval(mkEq(x.rewrite(st, t), tNil)) }
