package main

// C21: equality is exact.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{id: "C21", run: runC21,
		rule:        "For each of the four comparisons: on every partition that answers equal, the conditions imply that every attribute agrees (each field of the type, each header of a world, the counts, and in every round of the loops over the items, relationships and components the pair at hand, with the nesting of each item). On every partition that answers different, the conditions cannot hold when both sides are the same value (they become contradictory when one side is put for the other), so that a real difference was seen. Lists that come in no fixed order are sorted on both sides by a comparison under which only the same element ties, before they are compared pairwise. No partition panics or changes what it compares.",
		assumptions: []string{"an identifier is that of at most one element (C06, C07)", "equal worlds list their items and relationships in the same order (C15)", "the comparison of two components is exact when that of trees is (induction)"}})
}

type c21 struct {
	r                  *Run
	p                  *Prog
	itemT, relT, treeT types.Type
	itemE, relE, treeE *ssa.Function
	names              map[string]string // canonical name of a comparison -> its type
}

func runC21(r *Run) {
	p := r.prog()
	x := &c21{r: r, p: p, itemT: p.typ("pkg/world", "Item"), relT: p.typ("pkg/world", "Rel"), treeT: p.typ("pkg/world", "Tree")}
	x.itemE, x.relE, x.treeE = p.fn("pkg/world", "ItemEqual"), p.fn("pkg/world", "RelEqual"), p.fn("pkg/world", "TreeEqual")
	worldE := p.fn("pkg/world", "WorldEqual")
	worldT := p.typ("pkg/world", "World")
	if x.itemT == nil || x.relT == nil || x.treeT == nil || worldT == nil || x.itemE == nil || x.relE == nil || x.treeE == nil || worldE == nil {
		r.missing("the comparisons and their types")
		return
	}
	x.names = map[string]string{p.canon(x.itemE): "item", p.canon(x.relE): "rel", p.canon(x.treeE): "tree", p.canon(worldE): "world"}
	n := 0
	n += x.compare("items", x.itemE, func(o *cmp) []string { return x.itemDiff(o.st.facts, o.a, o.b, "") })
	n += x.compare("relationships", x.relE, func(o *cmp) []string { return x.relDiff(o.st.facts, o.a, o.b, "") })
	n += x.compare("trees", x.treeE, x.treeAgrees)
	n += x.compare("worlds", worldE, func(o *cmp) []string { return x.worldAgrees(o, worldT) })
	r.need("partitions of the comparisons", n, 20)
}

// cmp is one outcome of a comparison of a with b.
type cmp struct {
	in   *Interp
	st   *State
	fn   *ssa.Function
	a, b *Term
}

func (x *c21) compare(what string, fn *ssa.Function, agrees func(o *cmp) []string) int {
	r, p := x.r, x.p
	if len(fn.Params) != 2 || fn.Signature.Results().Len() != 1 {
		r.missing("a comparison of two " + what)
		return 0
	}
	pol := Policy{
		opaque: func(n string, f *ssa.Function) bool {
			if strings.HasPrefix(n, "World.") && worldKind(n) != 0 || strings.HasPrefix(n, "Tree.") && treeKind(n) != 0 {
				return true
			}
			return f != fn && x.names[n] != "" || f == fn || opaqueAlways(n)
		},
		kind: func(n string) byte {
			if strings.HasPrefix(n, "World.") {
				if k := worldKind(n); k == 'm' || k == 'w' {
					return 'm'
				}
				return 'p'
			}
			if strings.HasPrefix(n, "Tree.") {
				if treeKind(n) == 'm' {
					return 'm'
				}
				return 'p'
			}
			if x.names[n] != "" {
				return 'p'
			}
			return kindAlways(n)
		},
	}
	in := NewInterp(p, pol)
	name := p.canon(fn)
	a, b := sym(fn.Params[0].Name(), fn.Params[0].Type()), sym(fn.Params[1].Name(), fn.Params[1].Type())
	n, yes, no := 0, 0, 0
	for _, o := range r.execIn(in, fn, newState(), a, b) {
		n++
		if o.panic {
			r.bad("panic in "+name, o.pos, "comparing %s panics when [%s]", what, cut(o.st.facts.String(), 200))
			continue
		}
		flat(o.st.trace, func(e *Ev, _ []*Loop) {
			switch e.kind {
			case "store", "mput", "mdel", "mclear":
				r.bad("effects of "+name, e.pos, "comparing %s changes %s", what, cut(e.args[0].String(), 120))
			case "call":
				if in.pol.kind(e.name) == 'm' {
					r.bad("effects of "+name, e.pos, "comparing %s calls %s", what, e.name)
				}
			}
		})
		for _, v := range []bool{true, false} {
			st := o.st.clone()
			if !st.assume(o.rets[0], v) {
				continue
			}
			for _, s := range splitAll(st) {
				c := &cmp{in: in, st: s, fn: fn, a: a, b: b}
				x.pairing(c, what, name)
				if v {
					yes++
					if x.trivial(s.facts, a, b) {
						continue
					}
					why := agrees(c)
					r.must(len(why) == 0, "equal "+what, fn.Pos(), "two %s are called equal though %s need not agree, when [%s]", what, strings.Join(why, ", "), cut(s.facts.String(), 250))
				} else {
					no++
					r.must(x.contradicts(s, a, b), "different "+what, fn.Pos(), "two equal %s are called different, when [%s]", what, cut(s.facts.String(), 400))
				}
			}
		}
		r.ok("effects of " + name)
	}
	r.need("partitions that call "+what+" equal", yes, 1)
	r.need("partitions that call "+what+" different", no, 1)
	return n
}

// trivial: both sides are known to be the very same.
func (x *c21) trivial(f *Facts, a, b *Term) bool { return f.eval(mkEq(a, b)) == 1 }

// contradicts: the conditions cannot hold when b is a.
func (x *c21) contradicts(st *State, a, b *Term) bool {
	memo := map[*Term]*Term{}
	asked := func(y *Term) *Term { // equal worlds and trees give the same answers
		if y.op != OCall || len(y.args) == 0 || y.args[0] != b {
			return nil
		}
		if n := strings.TrimPrefix(y.s, "World."); n != y.s && worldKind(y.s) != 'q' && worldKind(y.s) != 'g' {
			return nil
		}
		if n := strings.TrimPrefix(y.s, "Tree."); n == "Parent" || n == "Root" {
			return nil
		}
		if !strings.HasPrefix(y.s, "World.") && !strings.HasPrefix(y.s, "Tree.") {
			return nil
		}
		return mk(OCall, y.s, y.k, y.typ, append([]*Term{a}, y.args[1:]...)...)
	}
	_, ref := a.typ.Underlying().(*types.Interface)
	ref = ref || ptrElem(a.typ) != nil
	one := func(t *Term) *Term {
		return subst(t, func(y *Term) *Term {
			if y == b && !ref {
				return a
			}
			if z := asked(y); z != nil && ref {
				return subst(z, func(w *Term) *Term { // the questions too
					if w != z {
						return asked(w)
					}
					return nil
				}, map[*Term]*Term{})
			}
			if y.op == OCall && ref && len(y.args) >= 2 && (y.args[0] == a && y.args[1] == b || y.args[0] == b && y.args[1] == a) && x.names[y.s] != "" {
				return tTrue
			}
			return nil
		}, memo)
	}
	// whether two references are the very same says nothing
	identity := func(t *Term) bool {
		return anyTerm(t, func(y *Term) bool {
			if y.op != OEq {
				return false
			}
			for _, z := range y.args {
				if z.typ != nil && types.IsInterface(z.typ) && !isErrorType(z.typ) || z.typ != nil && ptrElem(z.typ) != nil {
					return true
				}
			}
			return false
		})
	}
	s := newState()
	bad := false
	st.facts.each(func(f *Term, v bool) bool {
		if identity(f) {
			return true
		}
		g := x.reflexive(one(f))
		if !s.assume(g, v) {
			bad = true
		}
		return !bad
	})
	return bad || s.contradiction()
}

// reflexive: what is compared with itself is equal.
func (x *c21) reflexive(t *Term) *Term {
	return subst(t, func(y *Term) *Term {
		if y.op == OCall && len(y.args) >= 2 && y.args[0] == y.args[1] && (x.names[y.s] != "" || y.s == "slices.Equal" || y.s == "maps.Equal" || y.s == "reflect.DeepEqual") {
			return tTrue
		}
		if y.op == OCall && y.s == "slices.EqualFunc" && len(y.args) == 3 && y.args[0] == y.args[1] && x.byName(y.args[2]) != "" {
			return tTrue
		}
		if y.op == OFold && y.args[0] == tTrue { // stays true when every round leaves it so
			L := loops[y.k]
			for i, u := range y.args[1:] {
				if L == nil || i >= len(L.paths) {
					return nil
				}
				lost := false
				L.paths[i].facts.each(func(f *Term, v bool) bool {
					lost = lost || !v && f.op == OLV && f.k == y.k
					return true
				})
				if u = x.reflexive(u); u != tTrue && !(u.op == OLV && u.k == y.k) && !lost {
					return nil
				}
			}
			return tTrue
		}
		if y.op == OBin && y.s == "<" && y.args[0] == y.args[1] {
			return tFalse
		}
		return nil
	}, map[*Term]*Term{})
}

// byName: the type that a comparison given as a function compares.
func (x *c21) byName(f *Term) string {
	for f.op == OConv || f.op == OIface {
		f = f.args[0]
	}
	if fn, ok := f.fn.(*ssa.Function); ok {
		return x.names[x.p.canon(fn)]
	}
	return ""
}

// said: a comparison of the two was made, and answered equal.
func (x *c21) said(f *Facts, kind string, a, b *Term) bool {
	ok := false
	f.each(func(t *Term, v bool) bool {
		if v && t.op == OCall && x.names[t.s] == kind && len(t.args) >= 2 && (t.args[0] == a && t.args[1] == b || t.args[0] == b && t.args[1] == a) {
			ok = true
		}
		return !ok
	})
	return ok || f.eval(mkEq(a, b)) == 1
}

// itemDiff: the attributes in which two items may differ.
func (x *c21) itemDiff(f *Facts, a, b *Term, pre string) []string {
	if x.said(f, "item", a, b) {
		return nil
	}
	return x.fieldsDiff(f, a, b, x.itemT, pre)
}

func (x *c21) relDiff(f *Facts, a, b *Term, pre string) []string {
	if x.said(f, "rel", a, b) {
		return nil
	}
	return x.fieldsDiff(f, a, b, x.relT, pre)
}

func (x *c21) fieldsDiff(f *Facts, a, b *Term, t types.Type, pre string) []string {
	var out []string
	s := structOf(t)
	for i := 0; i < s.NumFields(); i++ {
		v := s.Field(i)
		p, q := mkField(a, v.Name(), v.Type()), mkField(b, v.Name(), v.Type())
		if f.eval(mkEq(p, q)) == 1 || p == q {
			continue
		}
		if f.eval(mkEmpty(p)) == 1 && f.eval(mkEmpty(q)) == 1 && isBasic(v.Type(), types.IsString) {
			continue
		}
		if types.Identical(v.Type(), x.itemT) {
			out = append(out, x.itemDiff(f, p, q, pre+v.Name()+".")...)
			continue
		}
		if bt, ok := v.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Bool {
			if e := f.eval(p); e != 0 && e == f.eval(q) {
				continue
			}
		}
		out = append(out, "the "+pre+v.Name())
	}
	return out
}

// counted: two lists, or sets, are as long as each other.
func counted(f *Facts, a, b *Term) bool {
	return f.eval(mkEq(mkLen(a), mkLen(b))) == 1 || f.eval(mkEmpty(a)) == 1 && f.eval(mkEmpty(b)) == 1
}

// whole: two lists were compared as a whole.
func (x *c21) whole(f *Facts, a, b *Term) bool {
	ok := false
	f.each(func(t *Term, v bool) bool {
		if v && t.op == OCall && t.s == "slices.EqualFunc" && len(t.args) == 3 && (t.args[0] == a && t.args[1] == b || t.args[0] == b && t.args[1] == a) && x.byName(t.args[2]) != "" {
			ok = true
		}
		return !ok
	})
	return ok
}

// elems: the elements of two lists that a loop is at, if it goes through one of them.
func elems(L *Loop, la, lb *Term, et types.Type) (p, q *Term, ok bool) {
	at := func(l *Term) *Term {
		if l.op == OCall && l.s == "keys" {
			return mk(OKey, "", L.id, et, l.args[0])
		}
		return mk(OElem, "", L.id, et, l)
	}
	if L.coll == nil || L.isMap {
		return nil, nil, false
	}
	c := strip(L.coll)
	if c != la && c != lb {
		return nil, nil, false
	}
	return at(la), at(lb), true
}

// everyRound: a loop through one of two lists that was run to its end, in every round of which the pair at hand agrees.
func (x *c21) everyRound(o *cmp, la, lb *Term, et types.Type, agree func(lp *LoopPath, all *Facts, p, q *Term) []string) []string {
	if o.st.facts.eval(mkEmpty(la)) == 1 && o.st.facts.eval(mkEmpty(lb)) == 1 {
		return nil
	}
	best := []string{"the elements"}
	if x.whole(o.st.facts, la, lb) {
		name := map[types.Type]*ssa.Function{x.itemT: x.itemE, x.relT: x.relE}[et]
		p, q := sym("one", et), sym("other", et)
		return agree(&LoopPath{facts: (*Facts)(nil)}, o.st.facts.with(mk(OCall, x.p.canon(name), 0, types.Typ[types.Bool], p, q), true), p, q)
	}
	for _, e := range o.st.trace {
		if e.kind != "loop" || !e.loop.natural {
			continue
		}
		p, q, ok := elems(e.loop, la, lb, et)
		if !ok {
			continue
		}
		var why []string
		for i, lp := range e.loop.paths {
			all := o.st.facts
			lp.facts.each(func(t *Term, v bool) bool { all = all.with(t, v); return true })
			if x.given(o.st.facts, e.loop, i, &all) {
				continue
			}
			why = append(why, agree(lp, all, p, q)...)
		}
		if len(why) == 0 {
			return nil
		}
		best = why
	}
	return best
}

// given adds what a round must have found for a condition that is carried along to be true in the end.
// It reports that the round cannot have been.
func (x *c21) given(f *Facts, L *Loop, i int, all **Facts) bool {
	never := false
	f.each(func(t *Term, v bool) bool {
		if !v || t.op != OFold || t.k != L.id || t.args[0] != tTrue || len(t.args) != len(L.paths)+1 {
			return true
		}
		// once lost it stays lost
		lostBy := func(j int) (lost bool) {
			L.paths[j].facts.each(func(g *Term, w bool) bool {
				lost = lost || !w && g.op == OLV && g.k == L.id
				return true
			})
			return
		}
		for j := range L.paths {
			if lostBy(j) && t.args[j+1] != tFalse && t.args[j+1].op != OLV {
				return true
			}
			kept := false
			L.paths[j].facts.each(func(g *Term, w bool) bool {
				kept = kept || w && g.op == OLV && g.k == L.id
				return true
			})
			if !lostBy(j) && !kept && t.args[j+1].op != OLV && t.args[j+1] != tFalse {
				return true // it may come back
			}
		}
		if lostBy(i) || t.args[i+1] == tFalse {
			never = true
		} else if u := t.args[i+1]; u != tTrue && u.op != OLV {
			*all = (*all).with(u, true)
		}
		return true
	})
	return never
}

func (x *c21) treeAgrees(o *cmp) []string {
	f := o.st.facts
	item := func(t *Term) *Term { return mk(OCall, "Tree.Item", 0, x.itemT, t) }
	set := x.p.method0(x.treeT, "Components")
	parts := func(t *Term) *Term { return mk(OC0, "", 0, set, mk(OCall, "Tree.Components", 0, set, t)) }
	why := x.itemDiff(f, item(o.a), item(o.b), "item's ")
	ca, cb := parts(o.a), parts(o.b)
	if !counted(f, ca, cb) && !counted(f, keysOf(ca), keysOf(cb)) {
		why = append(why, "the number of components")
	}
	if f.eval(mkEmpty(ca)) == 1 || f.eval(mkEmpty(keysOf(ca))) == 1 {
		return why
	}
	for _, w := range x.everyRound(o, keysOf(ca), keysOf(cb), x.treeT, func(lp *LoopPath, all *Facts, p, q *Term) []string {
		if x.said(all, "tree", p, q) || x.paired(all, p, q) {
			return nil
		}
		return []string{"the components"}
	}) {
		why = append(why, w)
	}
	return why
}

// paired: the component was compared with one that was looked for among those of the other side.
func (x *c21) paired(f *Facts, p, q *Term) bool {
	ok := false
	f.each(func(t *Term, v bool) bool {
		if v && t.op == OCall && x.names[t.s] == "tree" && len(t.args) >= 2 {
			for i, y := range t.args[:2] {
				if z := t.args[1-i]; y == p && (z.op == OKey || z.op == OElem) && len(z.args) == 1 && z.args[0] == q.args[0] {
					ok = true
				}
			}
		}
		return !ok
	})
	return ok
}

// pairing: lists in no fixed order are sorted on both sides before elements are compared by their place.
func (x *c21) pairing(o *cmp, what, name string) {
	r := x.r
	ord := newOrders(&c15{r: r, p: x.p}, o.in, o.st)
	var terms []*Term
	o.st.facts.each(func(t *Term, v bool) bool { terms = append(terms, t); return true })
	flat(o.st.trace, func(e *Ev, _ []*Loop) {
		if e.kind == "loop" {
			for _, lp := range e.loop.paths {
				lp.facts.each(func(t *Term, v bool) bool { terms = append(terms, t); return true })
			}
		}
	})
	flat(o.st.trace, func(e *Ev, _ []*Loop) {
		if e.kind != "loop" || e.loop.coll == nil || e.loop.isMap {
			return
		}
		L := e.loop
		c := strip(L.coll)
		other := map[*Term]bool{}
		for _, t := range terms {
			anyTerm(t, func(y *Term) bool {
				if (y.op == OKey || y.op == OElem) && y.k == L.id && len(y.args) == 1 {
					l := y.args[0]
					if y.op == OKey {
						l = keysOf(l)
					}
					if l != c {
						other[l] = true
					}
				}
				return false
			})
		}
		for l := range other {
			at := ord.loop[L.id]
			for _, z := range []*Term{c, l} {
				sorted, why := ord.sorted(z, at)
				if z.op == OCall && z.s == "keys" {
					if why != "" {
						why = ": " + why
					}
					r.must(sorted, "order in "+name, L.pos, "comparing %s pairs elements by their place in %s, which is in no fixed order%s", what, cut(z.String(), 100), why)
				}
			}
			// put in another order on one side only
			one, _ := x.touched(ord, c, at)
			two, _ := x.touched(ord, l, at)
			r.must(one == two, "order in "+name, L.pos, "comparing %s sorts %s, but not in the same way what it is compared with", what, cut(c.String(), 100))
		}
	})
}

// touched: how often a list was sorted before a point.
func (x *c21) touched(ord *orders, l *Term, at int) (int, string) {
	n := 0
	for _, s := range ord.sorts {
		if s.at < at && len(s.e.raw) > 0 && s.e.raw[0] == l {
			n++
		}
	}
	return n, ""
}

func (x *c21) worldAgrees(o *cmp, worldT types.Type) []string {
	f := o.st.facts
	var why []string
	call := func(w *Term, name string, t types.Type, args ...*Term) *Term {
		return mk(OCall, "World."+name, 0, t, append([]*Term{w}, args...)...)
	}
	ms := types.NewMethodSet(worldT)
	heads := 0
	for i := 0; i < ms.Len(); i++ {
		m := ms.At(i).Obj().(*types.Func)
		sig := m.Type().(*types.Signature)
		if sig.Params().Len() != 0 || sig.Results().Len() != 1 || m.Name() == "String" {
			continue
		}
		if _, ok := sig.Results().At(0).Type().Underlying().(*types.Basic); !ok {
			continue
		}
		heads++
		t := sig.Results().At(0).Type()
		if f.eval(mkEq(call(o.a, m.Name(), t), call(o.b, m.Name(), t))) != 1 {
			why = append(why, "the "+m.Name())
		}
	}
	if heads < 4 {
		why = append(why, "the headers (not found)")
	}
	str := types.Typ[types.String]
	items := func(w *Term) *Term { return call(w, "ItemList", types.NewSlice(x.itemT), cInt(0)) }
	rels := func(w *Term) *Term { return call(w, "RelList", types.NewSlice(x.relT), cInt(0)) }
	ia, ib, ra, rb := items(o.a), items(o.b), rels(o.a), rels(o.b)
	if !counted(f, ia, ib) && !x.whole(f, ia, ib) {
		why = append(why, "the number of items")
	}
	if !counted(f, ra, rb) && !x.whole(f, ra, rb) {
		why = append(why, "the number of relationships")
	}
	why = append(why, x.everyRound(o, ia, ib, x.itemT, func(lp *LoopPath, all *Facts, p, q *Term) []string {
		return x.itemDiff(all, p, q, "items' ")
	})...)
	why = append(why, x.everyRound(o, ia, ib, x.itemT, func(lp *LoopPath, all *Facts, p, q *Term) []string {
		for _, id := range []*Term{mkField(p, "Id", str), mkField(q, "Id", str)} {
			for _, id2 := range []*Term{mkField(p, "Id", str), mkField(q, "Id", str)} {
				for _, m := range []string{"Parent", "ItemParent"} {
					pa, pb := mkExtract(call(o.a, m, nil, id), 0, str), mkExtract(call(o.b, m, nil, id2), 0, str)
					if x.sameResult(all, "World."+m, o.a, o.b, id, id2) || all.eval(mkEq(pa, pb)) == 1 {
						return nil
					}
				}
				if x.sameComponents(lp, all, o, id, id2) {
					return nil
				}
			}
		}
		return []string{"the nesting"}
	})...)
	why = append(why, x.everyRound(o, ra, rb, x.relT, func(lp *LoopPath, all *Facts, p, q *Term) []string {
		return x.relDiff(all, p, q, "relationships' ")
	})...)
	return why
}

// sameResult: the two worlds gave the same answer to a question about an item.
func (x *c21) sameResult(f *Facts, name string, a, b, id, id2 *Term) bool {
	ok := false
	first := func(t, w, id *Term) bool {
		return t.op == OExtract && t.k == 0 && t.args[0].op == OCall && t.args[0].s == name && len(t.args[0].args) > 1 && t.args[0].args[0] == w && t.args[0].args[1] == id
	}
	f.each(func(t *Term, v bool) bool {
		if v && t.op == OEq && (first(t.args[0], a, id) && first(t.args[1], b, id2) || first(t.args[1], a, id) && first(t.args[0], b, id2)) {
			ok = true
		}
		return !ok
	})
	return ok
}

// sameComponents: the components of an item were compared one by one.
func (x *c21) sameComponents(lp *LoopPath, all *Facts, o *cmp, id, id2 *Term) bool {
	is := func(t, w, id *Term) bool {
		t = strip(t)
		return t.op == OExtract && t.k == 0 && t.args[0].op == OCall && t.args[0].s == "World.Components" && len(t.args[0].args) > 1 && t.args[0].args[0] == w && t.args[0].args[1] == id
	}
	ok := false
	all.each(func(t *Term, v bool) bool {
		if v && t.op == OCall && t.s == "slices.Equal" && len(t.args) == 2 && (is(t.args[0], o.a, id) && is(t.args[1], o.b, id2) || is(t.args[1], o.a, id) && is(t.args[0], o.b, id2)) {
			ok = true
		}
		return !ok
	})
	if ok {
		return true
	}
	var la, lb *Term
	all.each(func(t *Term, v bool) bool {
		anyTerm(t, func(y *Term) bool {
			if is(y, o.a, id) {
				la = y
			}
			if is(y, o.b, id2) {
				lb = y
			}
			return false
		})
		return true
	})
	if la == nil || lb == nil || !counted(all, la, lb) {
		return false
	}
	for _, e := range lp.trace {
		if e.kind != "loop" || !e.loop.natural {
			continue
		}
		p, q, found := elems(e.loop, la, lb, types.Typ[types.String])
		if !found {
			continue
		}
		good := true
		for _, in := range e.loop.paths {
			if in.facts.eval(mkEq(p, q)) != 1 {
				good = false
			}
		}
		if good {
			return true
		}
	}
	return false
}

// method0 is the type of the first result of a method.
func (p *Prog) method0(t types.Type, name string) types.Type {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if f, ok := ms.At(i).Obj().(*types.Func); ok && f.Name() == name {
			if res := f.Type().(*types.Signature).Results(); res.Len() > 0 {
				return res.At(0).Type()
			}
		}
	}
	return nil
}
