package main

// The tree of a world: one node at a time. What an operation says about or does to the nodes below
// is taken from the same operation on them (induction over the height of the tree).

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type treeShape struct {
	r                   *Run
	t                   types.Type
	item, comps, parent *types.Var
	itemT               types.Type
	analysed            map[*ssa.Function]bool
}

func (r *Run) treeShape() *treeShape {
	p := r.prog()
	x := &treeShape{r: r, t: p.implOf("pkg/world", "Tree"), itemT: p.typ("pkg/world", "Item"), analysed: map[*ssa.Function]bool{}}
	treeT := p.typ("pkg/world", "Tree")
	if x.t == nil || x.itemT == nil {
		r.missing("the implementation of Tree")
		return nil
	}
	one := func(what string, f func(t types.Type) bool) *types.Var {
		vs := fieldsWhere(x.t, func(v *types.Var) bool { return f(v.Type()) })
		if len(vs) != 1 {
			r.missing(what + " of a tree node")
			return nil
		}
		return vs[0]
	}
	x.item = one("the item", func(t types.Type) bool { return types.Identical(t, types.NewPointer(x.itemT)) })
	x.parent = one("the parent", func(t types.Type) bool { return types.Identical(t, x.t) || types.Identical(t, treeT) })
	x.comps = one("the components", func(t types.Type) bool {
		n, ok := t.(*types.Named)
		return ok && strings.HasPrefix(n.String(), setPath)
	})
	if x.item == nil || x.parent == nil || x.comps == nil {
		return nil
	}
	return x
}

func (x *treeShape) fn(name string) *ssa.Function {
	fn := x.r.p.method(x.t, name)
	if fn == nil {
		x.r.missing("Tree." + name)
		return nil
	}
	for f := range x.r.p.closureOf(fn) {
		x.analysed[f] = true
	}
	return fn
}

func (x *treeShape) node(n *Term) *Term { return mk(ODeref, "", 0, ptrElem(x.t), n) }

func (x *treeShape) f(n *Term, f *types.Var) *Term { return mkField(x.node(n), f.Name(), f.Type()) }

// idOf is the identifier of the item of a node that has one.
func (x *treeShape) idOf(n *Term) *Term {
	return mkField(mk(ODeref, "", 0, x.itemT, x.f(n, x.item)), "Id", types.Typ[types.String])
}

type tOut struct {
	x    *treeShape
	fn   *ssa.Function
	name string
	o    Outcome
	st   *State
	in   *Interp
	t    *Term
	args []*Term
	set  *Term // the components of t before
}

func (x *treeShape) run(name string, opaque map[string]byte) []*tOut {
	fn := x.fn(name)
	if fn == nil {
		return nil
	}
	args := paramSyms(fn)
	outs, in := x.r.exec(withOpaque(treePolicy(x.r.p), opaque), fn, newState(), args...)
	var res []*tOut
	for _, o := range outs {
		if o.panic {
			continue
		}
		// only a node that is the root has no item, and only the root has no parent
		if x.impossible(o.st) {
			continue
		}
		res = append(res, &tOut{x: x, fn: fn, name: name, o: o, st: o.st, in: in, t: args[0], args: args,
			set: in.mapContent(newState(), x.f(args[0], x.comps))})
	}
	return res
}

// found recognises a node that a search has found: the node searched and the identifier.
func found(n *Term) (from, id *Term, ok bool) {
	if n.op == OExtract && n.k == 0 && n.args[0].op == OCall && n.args[0].s == "Tree.Find" {
		return n.args[0].args[0], n.args[0].args[1], true
	}
	return nil, nil, false
}

func foundOk(n *Term) *Term { return mkExtract(n.args[0], 1, types.Typ[types.Bool]) }

// impossible: a node with an item found by its identifier is not the root.
func (x *treeShape) impossible(st *State) bool {
	bad := false
	st.facts.each(func(a *Term, v bool) bool {
		if v && a.op == OEq {
			for i := range a.args {
				n, o := a.args[i], a.args[1-i]
				if o != tNil || n.op != OField || n.args[0].op != ODeref {
					continue
				}
				node := n.args[0].args[0]
				if _, _, ok := found(node); ok && st.facts.eval(foundOk(node)) == 1 && (n.s == x.parent.Name() || n.s == x.item.Name()) {
					bad = true
				}
				if node.op == OKey && n.s == x.item.Name() {
					bad = true // a component has an item
				}
			}
		}
		return !bad
	})
	if bad {
		return true
	}
	// what has been found by an identifier has it
	var ids [][2]*Term
	st.facts.each(func(a *Term, v bool) bool {
		if v && a.op == OExtract && a.k == 1 {
			if n := mkExtract(a.args[0], 0, nil); n != nil {
				if _, id, ok := found(n); ok {
					ids = append(ids, [2]*Term{x.idOf(n), id})
				}
			}
		}
		return true
	})
	st = st.clone()
	for _, e := range ids {
		if !st.assume(mkEq(e[0], e[1]), true) {
			return true
		}
	}
	return st.contradiction()
}

func (q *tOut) must(ids string, cond bool, key string, pos token.Pos, f string, a ...any) bool {
	return q.x.must(ids, cond, key, pos, f, a...)
}

func (x *treeShape) must(ids string, cond bool, key string, pos token.Pos, f string, a ...any) bool {
	if !strings.Contains(" "+ids+" ", " "+x.r.c.id+" ") {
		return cond
	}
	return x.r.must(cond, key, pos, f, a...)
}

// pure: nothing is written.
func (q *tOut) pure(ids string) {
	flat(q.o.st.trace, func(e *Ev, _ []*Loop) {
		bad := e.kind == "store" || e.kind == "mput" || e.kind == "mdel" || e.kind == "call" && treeKind(e.name) == 'm'
		q.must(ids, !bad, q.name+":changes nothing", e.pos, "%s changes the tree: %s %s", q.name, e.kind, e.name)
	})
	q.must(ids, true, q.name+":changes nothing", q.fn.Pos(), "")
}

// isComponent: k is one of the components of t.
func (q *tOut) isComponent(st *State, k *Term) bool {
	return st.facts.eval(mkLookupOk(q.set, k)) == 1
}

// exists: a component of which pred is known to hold.
func (q *tOut) exists(st *State, pred func(a *Term, v bool) *Term) *Term {
	var r *Term
	st.facts.each(func(a *Term, v bool) bool {
		if k := pred(a, v); k != nil && q.isComponent(st, k) {
			r = k
		}
		return r == nil
	})
	return r
}

// overComponents: the loop runs over all the components of the node with the given set.
func overComponents(L *Loop, set *Term) bool {
	if L == nil || L.coll == nil {
		return false
	}
	c := strip(L.coll)
	return L.isMap && c == set || c.op == OCall && c.s == "keys" && c.args[0] == set
}

// all: a loop has gone through all the components and on every way through its body pred is known.
func (q *tOut) all(st *State, pred func(a *Term, v bool) *Term) bool {
	if st.facts.eval(mkEmpty(q.set)) == 1 {
		return true
	}
	for _, e := range q.o.st.trace {
		if e.kind != "loop" || !e.loop.natural || !overComponents(e.loop, q.set) {
			continue
		}
		ok := len(e.loop.paths) > 0
		for _, lp := range e.loop.paths {
			s := newState()
			s.facts = lp.facts
			if q.x.impossible(s) {
				continue
			}
			here := false
			lp.facts.each(func(a *Term, v bool) bool {
				if k := pred(a, v); k != nil && k.op == OKey && k.k == e.loop.id {
					here = true
				}
				return !here
			})
			ok = ok && here
		}
		if ok {
			return true
		}
	}
	return false
}

// within: the atom says whether id is at or below a node.
func within(id *Term, want bool) func(a *Term, v bool) *Term {
	return func(a *Term, v bool) *Term {
		if v != want {
			return nil
		}
		if a.op == OCall && a.s == "Tree.Has" && a.args[1] == id && a.args[2] == tFalse {
			return a.args[0]
		}
		if a.op == OExtract && a.k == 1 && a.args[0].op == OCall && a.args[0].s == "Tree.Find" && a.args[0].args[1] == id {
			return a.args[0].args[0]
		}
		return nil
	}
}

func (x *treeShape) queries() {
	const ids = "C14 C06"
	n := 0
	for _, q := range x.run("Has", map[string]byte{"Tree.Has": 'g'}) {
		n++
		q.pure(ids + " C05")
		id, strict := q.args[1], q.args[2]
		noItem := mkEq(x.f(q.t, x.item), tNil)
		isId := mkEq(x.idOf(q.t), id)
		for _, s := range splitAll(q.st, strict, mkEmpty(id), noItem, isId, q.o.rets[0]) {
			got := s.facts.eval(q.o.rets[0])
			self := s.facts.eval(noItem) == -1 && s.facts.eval(isId) == 1
			isStrict := s.facts.eval(strict) == 1
			switch {
			case s.facts.eval(mkEmpty(id)) == 1:
				q.must(ids, got == -1, "Has:empty", q.fn.Pos(), "Has says %d for the empty identifier", got)
			case self:
				q.must(ids, got == 1, "Has:itself", q.fn.Pos(), "Has denies the item of the node when [%s]", s.facts)
			case isStrict:
				q.must(ids, got == -1, "Has:strict", q.fn.Pos(), "Has finds something else in strict mode when [%s]", s.facts)
			case got == 1:
				q.must(ids, q.exists(s, within(id, true)) != nil, "Has:below:sound", q.fn.Pos(), "Has answers yes without having found it in a component when [%s]", s.facts)
			default:
				q.must(ids, q.all(s, within(id, false)), "Has:below:complete", q.fn.Pos(), "Has answers no without having looked into every component when [%s]", s.facts)
			}
		}
	}
	x.need(ids, "partitions of Has", n, 3)
	n = 0
	for _, q := range x.run("Find", map[string]byte{"Tree.Find": 'g'}) {
		n++
		q.pure(ids + " C05")
		id := q.args[1]
		noItem := mkEq(x.f(q.t, x.item), tNil)
		isId := mkEq(x.idOf(q.t), id)
		for _, s := range splitAll(q.st, mkEmpty(id), noItem, isId, q.o.rets[1]) {
			got := s.facts.eval(q.o.rets[1])
			node := strip2(q.in.val(q.o.st, q.o.rets[0]))
			self := s.facts.eval(noItem) == -1 && s.facts.eval(isId) == 1
			switch {
			case s.facts.eval(mkEmpty(id)) == 1:
				q.must(ids, got == -1, "Find:empty", q.fn.Pos(), "Find says %d for the empty identifier", got)
			case self:
				q.must(ids, got == 1 && node == q.t, "Find:itself", q.fn.Pos(), "Find answers %v for the item of the node", node)
			case got == 1:
				from, i, ok := found(node)
				q.must(ids, ok && i == id && q.isComponent(s, from) && s.facts.eval(foundOk(node)) == 1, "Find:below:sound", q.fn.Pos(), "Find answers %v when [%s]", node, s.facts)
			default:
				q.must(ids, q.all(s, within(id, false)), "Find:below:complete", q.fn.Pos(), "Find answers no without having looked into every component when [%s]", s.facts)
			}
		}
	}
	x.need(ids, "partitions of Find", n, 3)
	x.descendants()
	x.accessors()
}

func (x *treeShape) need(ids, what string, n, min int) {
	if strings.Contains(" "+ids+" ", " "+x.r.c.id+" ") {
		x.r.need(what, n, min)
	}
}

func (x *treeShape) descendants() {
	const ids = "C14"
	n := 0
	for _, q := range x.run("GetDescendantIds", map[string]byte{"Tree.Find": 'g', "Tree.Has": 'g', "Tree.GetDescendantIds": 'g'}) {
		q.pure(ids + " C05")
		id := q.args[1]
		res := canonIn(q.st, q.in.snap(q.o.st, q.in.val(q.o.st, q.o.rets[0]), 0))
		ep := mk(OEpoch, "0:obj:Tree", 0, nil)
		find := mk(OCall, "Tree.Find", 0, nil, q.t, id, ep)
		node, ok := mkExtract(find, 0, nil), mkExtract(find, 1, types.Typ[types.Bool])
		for _, s := range splitAll(q.st, mkEmpty(id), ok) {
			if s.facts.eval(mkEmpty(id)) == 1 || s.facts.eval(ok) == -1 {
				q.must(ids, emptySeq(res), "GetDescendantIds:absent", q.fn.Pos(), "GetDescendantIds lists %v for an item that is not there", res)
				continue
			}
			n++
			set := q.in.mapContent(newState(), x.f(node, x.comps))
			x.listsDescendants(q, s, res, node, set)
		}
	}
	x.need(ids, "partitions of GetDescendantIds", n, 1)
}

// listsDescendants: for every component its identifier and its descendants, each once.
func (x *treeShape) listsDescendants(q *tOut, s *State, res, node, set *Term) {
	const ids = "C14"
	if s.facts.eval(mkEmpty(set)) == 1 && emptySeq(res) {
		return
	}
	kinds := [2]int{}
	ok := true
	why := ""
	for _, p := range seqParts(res) {
		L := (*Loop)(nil)
		if p.op == OEach {
			L = loops[p.k]
		}
		if L == nil || !overComponents(L, set) {
			ok, why = false, "a part does not come from the components: "+p.String()
			continue
		}
		key := mkKey(L.id, set, nil)
		first := true
		var sum [2]int
		inc := map[int]*Term{}
		for i, ix := range strings.Split(p.s, ",") {
			n, _ := strconv.Atoi(ix)
			inc[n] = p.args[i]
		}
		for i, lp := range L.paths {
			ps := newState()
			ps.facts = lp.facts
			if x.impossible(ps) {
				continue
			}
			var here [2]int
			if inc[i] != nil {
				for _, u := range inc[i].args {
					switch {
					case u.op == OOne && u.args[0] == x.idOf(key):
						here[0]++
					case u.op == OCall && u.s == "Tree.GetDescendantIds" && u.args[1] == x.idOf(key) && (u.args[0] == key || u.args[0] == node || u.args[0] == q.t):
						here[1]++
					default:
						ok, why = false, "it lists "+u.String()
					}
				}
			}
			if first {
				sum, first = here, false
			} else if sum != here {
				ok, why = false, "not for every component"
			}
		}
		for i := range kinds {
			kinds[i] += sum[i]
		}
	}
	q.must(ids, ok, "GetDescendantIds:only descendants", q.fn.Pos(), "GetDescendantIds: %s", why)
	q.must(ids, kinds[0] == 1, "GetDescendantIds:components", q.fn.Pos(), "GetDescendantIds lists the identifier of a component %d times", kinds[0])
	q.must(ids, kinds[1] == 1, "GetDescendantIds:their descendants", q.fn.Pos(), "GetDescendantIds lists the descendants of a component %d times", kinds[1])
}

func (x *treeShape) accessors() {
	const ids = "C06 C08 C14"
	for _, q := range x.run("Item", nil) {
		q.pure(ids)
		noItem := mkEq(x.f(q.t, x.item), tNil)
		for _, s := range splitAll(q.st, noItem) {
			got := q.in.snap(q.o.st, q.o.rets[0], 0)
			want := mk(ODeref, "", 0, x.itemT, x.f(q.t, x.item))
			if s.facts.eval(noItem) == 1 {
				want = mk(OZero, "", 0, x.itemT)
			}
			q.must(ids, same(s, got, want), "Item", q.fn.Pos(), "Item answers %v when [%s]", got, s.facts)
		}
	}
	for _, q := range x.run("Components", nil) {
		q.pure("C06 C14")
		q.must("C06 C14", strip2(q.in.val(q.o.st, q.o.rets[0])) == x.f(q.t, x.comps), "Components", q.fn.Pos(), "Components answers %v", q.o.rets[0])
	}
	none := mkEq(x.f(sym("t", x.t), x.parent), tNil)
	_ = none
	for _, q := range x.run("Parent", nil) {
		q.pure("C06")
		noParent := mkEq(x.f(q.t, x.parent), tNil)
		for _, s := range splitAll(q.st, noParent) {
			got := strip2(q.in.val(q.o.st, q.o.rets[0]))
			if s.facts.eval(noParent) == 1 {
				q.must("C06", got != q.t && !contains(got, x.f(q.t, x.comps)), "Parent:of the root", q.fn.Pos(), "Parent of a node without one answers %v", got)
				continue
			}
			q.must("C06", got == x.f(q.t, x.parent), "Parent", q.fn.Pos(), "Parent answers %v", got)
		}
	}
	for _, q := range x.run("Root", map[string]byte{"Tree.Root": 'g'}) {
		q.pure("C06")
		noParent := mkEq(x.f(q.t, x.parent), tNil)
		for _, s := range splitAll(q.st, noParent) {
			got := strip2(q.in.val(q.o.st, q.o.rets[0]))
			ok := false
			switch {
			case s.facts.eval(noParent) == 1 && got == q.t:
				ok = true
			case s.facts.eval(noParent) == -1 && got.op == OCall && got.s == "Tree.Root" && got.args[0] == x.f(q.t, x.parent):
				ok = true
			case got.op == OFold && len(got.args) == 2 && got.args[0] == q.t:
				// climbing in a loop
				L := loops[got.k]
				u := got.args[1]
				ok = L != nil && u.op == OField && u.s == x.parent.Name() && u.args[0].op == ODeref && u.args[0].args[0].op == OLV &&
					s.facts.eval(mkEq(x.f(got, x.parent), tNil)) == 1
			}
			q.must("C06", ok, "Root", q.fn.Pos(), "Root answers %v when [%s]", got, s.facts)
		}
	}
}

// update: the node with the identifier gets the item, and nothing else changes.
func (x *treeShape) update() {
	const ids = "C08"
	n := 0
	for _, q := range x.run("Update", map[string]byte{"Tree.Update": 'm', "Tree.Has": 'g', "Tree.Find": 'g'}) {
		n++
		item := q.args[1]
		id := mkField(item, "Id", types.Typ[types.String])
		noItem := mkEq(x.f(q.t, x.item), tNil)
		isId := mkEq(x.idOf(q.t), id)
		find := mk(OCall, "Tree.Find", 0, nil, q.t, id, mk(OEpoch, "0:obj:Tree", 0, nil))
		for _, s := range splitAll(q.st, noItem, isId, mkEmpty(id)) {
			if s.facts.eval(mkEmpty(id)) == 1 {
				continue // items have identifiers (C20)
			}
			self := s.facts.eval(noItem) == -1 && s.facts.eval(isId) == 1
			if self && s.facts.eval(mkExtract(find, 1, types.Typ[types.Bool])) == -1 {
				continue // by Find
			}
			updSelf, updFound, updAll := false, false, false
			flat(q.o.st.trace, func(e *Ev, in []*Loop) {
				switch {
				case e.kind == "store":
					p := e.raw[0]
					val := e.args[1]
					okVal := val.op == OAddr && same(s, val.args[0], item)
					okAt := p.op == OFieldP && p.s == x.item.Name()
					owner := (*Term)(nil)
					if okAt {
						owner = strip2(p.args[0])
					}
					isFound := owner != nil && owner == mkExtract(find, 0, nil) && s.facts.eval(mkExtract(find, 1, types.Typ[types.Bool])) == 1
					q.must(ids, okVal && okAt && (owner == q.t && self || isFound), "Tree.Update:what", e.pos, "Update writes %v = %v", p, val)
					updSelf = updSelf || owner == q.t
					updFound = updFound || isFound
				case e.kind == "call" && e.name == "Tree.Update":
					ok := e.args[0].op == OKey && same(s, e.args[1], item)
					q.must(ids, ok, "Tree.Update:passed on", e.pos, "Update passes on %v to %v", e.args[1], e.args[0])
				case e.kind == "mput", e.kind == "mdel", e.kind == "call" && treeKind(e.name) == 'm':
					q.must(ids, false, "Tree.Update:changes the items only", e.pos, "Update does %s %s", e.kind, e.name)
				}
			})
			for _, e := range q.o.st.trace {
				if e.kind != "loop" || !overComponents(e.loop, q.set) {
					continue
				}
				all := len(e.loop.paths) > 0 && e.loop.natural
				for _, lp := range e.loop.paths {
					up := false
					for _, c := range lp.trace {
						up = up || c.kind == "call" && c.name == "Tree.Update" && c.args[0].op == OKey && c.args[0].k == e.loop.id
					}
					lp.facts.each(func(a *Term, v bool) bool {
						if k := within(id, false)(a, v); k != nil && k.op == OKey && k.k == e.loop.id {
							up = true
						}
						return true
					})
					all = all && up
				}
				if !e.loop.natural {
					// stopping is right when the item has been found in a component
					all = q.exists(s, within(id, true)) != nil
				}
				updAll = updAll || all
			}
			if s.facts.eval(mkEmpty(q.set)) == 1 || s.facts.eval(mkExtract(find, 1, types.Typ[types.Bool])) == -1 {
				updAll = true
			}
			if self {
				q.must(ids, updSelf || updFound, "Tree.Update:own item", q.fn.Pos(), "Update leaves the item of the node as it was when [%s]", s.facts)
			} else {
				q.must(ids, updFound || updAll, "Tree.Update:components", q.fn.Pos(), "Update does not reach every component when [%s]", s.facts)
			}
		}
	}
	x.need(ids, "partitions of Update", n, 2)
}

// --- changes of the shape ---

// setOp is an update of the components of owner.
type setOp struct {
	add         bool
	owner, node *Term
	pos         token.Pos
	loop        *Loop
}

// owner of a set of components: the node whose field it is.
func (x *treeShape) ownerOf(in *Interp, set *Term) *Term {
	if set.op == OField && set.s == x.comps.Name() && set.args[0].op == ODeref {
		return strip2(set.args[0].args[0])
	}
	return nil
}

// shape lists the updates of the components and the parents of nodes.
func (x *treeShape) shape(q *tOut, ids string) (ops []setOp, parents []setOp, ok bool) {
	ok = true
	flat(q.o.st.trace, func(e *Ev, in []*Loop) {
		var L *Loop
		if len(in) == 1 {
			L = in[0]
		} else if len(in) > 1 {
			ok = q.must(ids, false, q.name+":nested loops", e.pos, "%s changes the tree in nested loops", q.name)
			return
		}
		switch {
		case e.kind == "mput" || e.kind == "mdel":
			o := x.ownerOf(q.in, e.raw[0])
			if o == nil {
				ok = q.must(ids, false, q.name+":owner", e.pos, "%s changes the set %v", q.name, e.raw[0]) && ok
				return
			}
			ops = append(ops, setOp{e.kind == "mput", o, strip2(e.raw[1]), e.pos, L})
		case e.kind == "store":
			p := e.raw[0]
			if p.op == OFieldP && p.s == x.parent.Name() {
				parents = append(parents, setOp{true, strip2(e.raw[1]), strip2(p.args[0]), e.pos, L})
				return
			}
			ok = q.must(ids, false, q.name+":writes", e.pos, "%s writes %v", q.name, p) && ok
		case e.kind == "call" && treeKind(e.name) != 'g' && strings.HasPrefix(e.name, "Tree."):
			ok = q.must(ids, false, q.name+":calls", e.pos, "%s calls %s", q.name, e.name) && ok
		}
	})
	return
}

var searchOps = map[string]byte{"Tree.Find": 'g', "Tree.Has": 'g', "Tree.Root": 'g', "Tree.GetDescendantIds": 'g', "Tree.Update": 'm'}

// member: is n among the components of owner at the end, when a and b are the same or not?
func member(ops []setOp, initial bool, owner, n *Term, eq func(a, b *Term) bool) bool {
	in := initial
	for _, o := range ops {
		if eq(o.owner, owner) && eq(o.node, n) {
			in = o.add
		}
	}
	return in
}

func (x *treeShape) mutators() {
	const ids = "C06"
	ep := mk(OEpoch, "0:obj:Tree", 0, nil)
	moved, added := 0, 0
	for _, q := range x.run("AddOrMove", searchOps) {
		item := q.args[1]
		id := mkField(mk(ODeref, "", 0, x.itemT, item), "Id", types.Typ[types.String])
		noItem := mkEq(x.f(q.t, x.item), tNil)
		isId := mkEq(x.idOf(q.t), id)
		hasSelf := mk(OCall, "Tree.Has", 0, types.Typ[types.Bool], q.t, id, tTrue, ep)
		root := mk(OCall, "Tree.Root", 0, nil, q.t, ep)
		find := mk(OCall, "Tree.Find", 0, nil, root, id, ep)
		node, ok := mkExtract(find, 0, nil), mkExtract(find, 1, types.Typ[types.Bool])
		below := mk(OCall, "Tree.Has", 0, types.Typ[types.Bool], node, x.idOf(q.t), tFalse, ep)
		err := q.in.snap(q.o.st, q.o.rets[0], 0)
		ops, parents, okShape := x.shape(q, ids)
		if !okShape {
			continue
		}
		changed := len(ops)+len(parents) > 0
		base := q.st.clone()
		if !base.assume(mkEq(item, tNil), false) {
			q.must(ids, errStatus(q.st, err) == -1 && !changed, "AddOrMove:no item", q.fn.Pos(), "AddOrMove(nil) changes the tree or succeeds")
			continue
		}
		for _, s := range splitAll(q.st, mkEq(item, tNil), mkEmpty(id), noItem, isId, hasSelf, ok, below, mkEq(err, tNil)) {
			if s.facts.eval(mkEq(item, tNil)) == 1 {
				q.must(ids, errStatus(s, err) == -1 && !changed, "AddOrMove:no item", q.fn.Pos(), "AddOrMove(nil) changes the tree or succeeds")
				continue
			}
			if s.facts.eval(mkEmpty(id)) == 1 {
				continue // items have identifiers (C20)
			}
			self := s.facts.eval(noItem) == -1 && s.facts.eval(isId) == 1
			if (s.facts.eval(hasSelf) == 1) != self {
				continue // by Has
			}
			there := s.facts.eval(ok) == 1
			if self && !there {
				continue // by Find and Root
			}
			under := there && (s.facts.eval(noItem) == -1 && s.facts.eval(below) == 1)
			if there && !self && s.facts.eval(noItem) == 1 && s.facts.eval(below) == 1 {
				continue // a node without item is the root, which is not below another
			}
			if x.impossible(s) {
				continue
			}
			fails := errStatus(s, err) == -1
			switch {
			case self:
				q.must(ids, !changed, "AddOrMove:into itself", q.fn.Pos(), "adding an item to its own node changes the tree")
			case under:
				q.must(ids, fails && !changed, "AddOrMove:cycle", q.fn.Pos(), "an item is moved below itself when [%s]", s.facts)
			case fails:
				q.must(ids, false, "AddOrMove:refused", q.fn.Pos(), "AddOrMove fails without need when [%s]", s.facts)
			case there:
				moved++
				old := x.f(node, x.parent)
				for _, sameParent := range []bool{true, false} {
					h := s.clone()
					if old == q.t {
						continue
					}
					eq := func(a, b *Term) bool {
						sub := func(t *Term) *Term {
							if sameParent && t == old {
								return q.t
							}
							return t
						}
						return sub(a) == sub(b) || same(h, sub(a), sub(b))
					}
					for _, o := range ops {
						q.must(ids, eq(o.node, node) && (eq(o.owner, q.t) || eq(o.owner, old)) && o.loop == nil, "AddOrMove:moves only the node", o.pos, "moving an item changes the components of %v by %v", o.owner, o.node)
					}
					q.must(ids, member(ops, sameParent, q.t, node, eq), "AddOrMove:arrives", q.fn.Pos(), "the moved node is not among the components of its new parent (moved within its parent: %v)", sameParent)
					if !sameParent {
						q.must(ids, !member(ops, true, old, node, eq), "AddOrMove:leaves", q.fn.Pos(), "the moved node stays among the components of its old parent")
					}
					par := sameParent
					for _, p := range parents {
						q.must(ids, eq(p.node, node) && p.loop == nil, "AddOrMove:only its parent", p.pos, "moving an item sets the parent of %v", p.node)
						par = eq(p.owner, q.t)
					}
					q.must(ids, par, "AddOrMove:parent", q.fn.Pos(), "the moved node does not get its new parent")
				}
			default:
				added++
				if !q.must(ids, len(ops) == 1 && ops[0].add && ops[0].owner == q.t && ops[0].loop == nil && len(parents) == 0, "AddOrMove:adds one", q.fn.Pos(), "adding an item updates %d sets of components, when [%s]", len(ops), s.facts) {
					continue
				}
				n := ops[0].node
				q.must(ids, n.op == OPtr, "AddOrMove:adds a new node", q.fn.Pos(), "adding an item adds %v", n)
				q.must("C06 C08", strip2(q.in.get(q.o.st, n, x.item)) == item || x.sameItem(q, s, q.in.get(q.o.st, n, x.item), item), "AddOrMove:item of the new node", q.fn.Pos(), "the new node has the item %v", q.in.get(q.o.st, n, x.item))
				q.must(ids, strip2(q.in.get(q.o.st, n, x.parent)) == q.t, "AddOrMove:parent of the new node", q.fn.Pos(), "the new node has the parent %v", q.in.get(q.o.st, n, x.parent))
				c := q.in.mapContent(q.o.st, strip2(q.in.get(q.o.st, n, x.comps)))
				q.must(ids, c.op == ONil || emptySeq(c), "AddOrMove:components of the new node", q.fn.Pos(), "the new node has the components %v", c)
			}
		}
	}
	x.need(ids, "partitions of AddOrMove that move", moved, 1)
	x.need(ids, "partitions of AddOrMove that add", added, 1)
	x.deletes()
}

func (x *treeShape) sameItem(q *tOut, s *State, a, item *Term) bool {
	a = q.in.snap(q.o.st, a, 0)
	return a.op == OAddr && same(s, a.args[0], mk(ODeref, "", 0, x.itemT, item))
}

func (x *treeShape) deletes() {
	const ids = "C06"
	ep := mk(OEpoch, "0:obj:Tree", 0, nil)
	n := 0
	for _, q := range x.run("Delete", searchOps) {
		id := q.args[1]
		ops, parents, okShape := x.shape(q, ids)
		if !okShape {
			continue
		}
		changed := len(ops)+len(parents) > 0
		find := mk(OCall, "Tree.Find", 0, nil, q.t, id, ep)
		node, ok := mkExtract(find, 0, nil), mkExtract(find, 1, types.Typ[types.Bool])
		for _, s := range splitAll(q.st, mkEmpty(id), ok) {
			if s.facts.eval(mkEmpty(id)) == 1 || s.facts.eval(ok) == -1 {
				q.must(ids, !changed, "Delete:absent", q.fn.Pos(), "deleting an item that is not there changes the tree")
				continue
			}
			if x.impossible(s) || s.facts.eval(mkEq(node, tNil)) == 1 || asserted(s, node) {
				continue
			}
			n++
			set := q.in.mapContent(newState(), x.f(node, x.comps))
			old := x.f(node, x.parent)
			gone := false
			for _, o := range ops {
				if o.node == node {
					q.must(ids, !o.add && o.owner == old && o.loop == nil, "Delete:removes", o.pos, "deleting an item updates the components of %v", o.owner)
					gone = gone || !o.add && o.owner == old
					continue
				}
				okk := o.loop != nil && o.node.op == OKey && o.node.k == o.loop.id && overComponents(o.loop, set)
				okk = okk && (o.add && o.owner == old || !o.add && o.owner == node)
				q.must(ids, okk, "Delete:transfers", o.pos, "deleting an item puts %v into the components of %v", o.node, o.owner)
			}
			for _, p := range parents {
				okk := p.node == node || p.loop != nil && p.node.op == OKey && p.node.k == p.loop.id && overComponents(p.loop, set) && p.owner == old
				q.must(ids, okk, "Delete:sets the parent", p.pos, "deleting an item sets the parent of %v to %v", p.node, p.owner)
			}
			q.must(ids, gone, "Delete:gone", q.fn.Pos(), "the deleted node stays among the components of its parent when [%s]", s.facts)
			addedAll, parentAll := false, false
			if s.facts.eval(mkEmpty(set)) == 1 {
				addedAll, parentAll = true, true
			}
			for _, e := range q.o.st.trace {
				if e.kind != "loop" || !e.loop.natural || !overComponents(e.loop, set) {
					continue
				}
				a, pp := len(e.loop.paths) > 0, len(e.loop.paths) > 0
				for _, lp := range e.loop.paths {
					ps := newState()
					ps.facts = lp.facts
					if x.impossible(ps) || neverNil(ps) {
						continue
					}
					a1, p1 := false, false
					for _, ev := range lp.trace {
						switch {
						case ev.kind == "mput" && x.ownerOf(q.in, ev.raw[0]) == old && isKeyOf(strip2(ev.raw[1]), e.loop):
							a1 = true
						case ev.kind == "mdel" && x.ownerOf(q.in, ev.raw[0]) == old && isKeyOf(strip2(ev.raw[1]), e.loop):
							a1 = false
						case ev.kind == "store" && ev.raw[0].op == OFieldP && ev.raw[0].s == x.parent.Name() && isKeyOf(strip2(ev.raw[0].args[0]), e.loop):
							p1 = strip2(ev.raw[1]) == old
						}
					}
					a, pp = a && a1, pp && p1
				}
				addedAll, parentAll = addedAll || a, parentAll || pp
			}
			q.must(ids, addedAll, "Delete:components are kept", q.fn.Pos(), "not every component of the deleted node goes to its parent when [%s]", s.facts)
			q.must(ids, parentAll, "Delete:components get their parent", q.fn.Pos(), "not every component of the deleted node gets its new parent when [%s]", s.facts)
		}
	}
	x.need(ids, "partitions of Delete that delete", n, 1)
}

func isKeyOf(t *Term, L *Loop) bool { return t.op == OKey && t.k == L.id }

// asserted: the state says that the node has not the type of a node.
func asserted(s *State, node *Term) bool {
	bad := false
	s.facts.each(func(a *Term, v bool) bool {
		if a.op == OEq && v && (a.args[0] == node && a.args[1] == tNil || a.args[1] == node && a.args[0] == tNil) {
			bad = true
		}
		return !bad
	})
	return bad
}

// neverNil: the path supposes that a component is nil.
func neverNil(s *State) bool {
	bad := false
	s.facts.each(func(a *Term, v bool) bool {
		if v && a.op == OEq && (a.args[0].op == OKey && a.args[1] == tNil || a.args[1].op == OKey && a.args[0] == tNil) {
			bad = true
		}
		return !bad
	})
	return bad
}

// writers: the shape of a tree is changed by its operations and by loading only.
func (x *treeShape) writers() {
	p := x.r.p
	n := 0
	for _, fn := range p.repoFuncs() {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				switch v := i.(type) {
				case *ssa.Store:
					fa, ok := v.Addr.(*ssa.FieldAddr)
					if !ok || !types.Identical(fa.X.Type(), x.t) {
						continue
					}
					n++
					_, fresh := fa.X.(*ssa.Alloc)
					x.r.must(fresh || x.analysed[fn], "writer:"+p.canon(fn)+":"+structOf(fa.X.Type()).Field(fa.Field).Name(), i.Pos(), "%s changes a node outside the operations of the tree", p.canon(fn))
				case ssa.CallInstruction:
					c := v.Common()
					if !c.IsInvoke() || !types.Identical(c.Value.Type(), x.comps.Type()) {
						continue
					}
					switch c.Method.Name() {
					case "Add", "Append", "Remove", "RemoveAll", "Clear", "Pop", "UnmarshalJSON":
						n++
						x.r.must(x.analysed[fn], "writer:"+p.canon(fn)+":"+c.Method.Name(), i.Pos(), "%s changes components outside the operations of the tree", p.canon(fn))
					}
				}
			}
		}
	}
	x.r.need("writes to nodes", n, 4)
}

// loading: the tree read from text is a forest of distinct items.
func (x *treeShape) loading() {
	const ids = "C06"
	p := x.r.p
	var conv *ssa.Function
	nodeT := p.typ("pkg/grammar", "Node")
	for _, fn := range p.repoFuncs() {
		sig := fn.Signature
		if sig.Recv() != nil || sig.Results().Len() == 0 || !types.Identical(sig.Results().At(0).Type(), x.t) {
			continue
		}
		for i := 0; i < sig.Params().Len(); i++ {
			if nodeT != nil && types.Identical(sig.Params().At(i).Type(), nodeT) {
				conv = fn
			}
		}
	}
	if conv == nil {
		x.r.missing("the function that makes a tree of a parsed node")
		return
	}
	for f := range p.closureOf(conv) {
		x.analysed[f] = true
	}
	name := p.canon(conv)
	args := paramSyms(conv)
	var node, items, parent *Term
	for _, a := range args {
		switch {
		case types.Identical(a.typ, nodeT):
			node = a
		case types.Identical(a.typ, x.t):
			parent = a
		default:
			if m, ok := a.typ.Underlying().(*types.Map); ok && types.Identical(m.Elem(), x.itemT) {
				items = a
			}
		}
	}
	if node == nil || items == nil || parent == nil {
		x.r.missing("the node, the items and the parent that " + name + " takes")
		return
	}
	outs, in := x.r.exec(withOpaque(treePolicy(p), map[string]byte{name: 'p'}), conv, newState(), args...)
	id := mkField(node, "Id", types.Typ[types.String])
	n := 0
	for _, o := range outs {
		if o.panic {
			continue
		}
		q := &tOut{x: x, fn: conv, name: "loading", o: o, st: o.st, in: in, t: parent, args: args}
		err := o.rets[len(o.rets)-1]
		for _, s := range splitAll(o.st, mkEq(err, tNil), mkEq(parent, tNil)) {
			if errStatus(s, err) == -1 {
				continue
			}
			n++
			t := strip2(o.rets[0])
			q.must(ids, t.op == OPtr, "load:node", conv.Pos(), "%s answers %v", name, t)
			q.must(ids, strip2(in.get(o.st, t, x.parent)) == parent, "load:parent", conv.Pos(), "the node made has the parent %v", in.get(o.st, t, x.parent))
			m0 := in.mapContent(newState(), items)
			if s.facts.eval(mkEq(parent, tNil)) == -1 {
				it := in.snap(o.st, in.get(o.st, t, x.item), 0)
				q.must(ids, s.facts.eval(mkLookupOk(m0, id)) == 1 && it.op == OAddr && same(s, it.args[0], mkLookup(m0, id, x.itemT)), "load:item", conv.Pos(), "the node made has the item %v when [%s]", it, s.facts)
				// the item is used up before the nodes below are made
				used := false
				for _, e := range o.st.trace {
					if e.kind == "mdel" && strip2(e.raw[0]) == items && e.raw[1] == id {
						used = true
					}
					calls := false
					flat([]*Ev{e}, func(e *Ev, _ []*Loop) { calls = calls || e.kind == "call" && e.name == name })
					if e.kind == "loop" {
						for _, lp := range e.loop.paths {
							for _, u := range lp.upd {
								calls = calls || anyTerm(u, func(y *Term) bool { return y.op == OCall && y.s == name })
							}
						}
					}
					if calls {
						break
					}
				}
				q.must(ids, used, "load:each item once", conv.Pos(), "an item can be placed twice: it is still available when the nodes below are made")
			}
			// the components are the nodes made of the children
			kids := mkField(node, "Children", nil)
			c := in.mapContent(o.st, strip2(in.get(o.st, t, x.comps)))
			ok := false
			switch {
			case c.op == OFold && c.args[0].op == ONil && len(c.args) == 2:
				L := loops[c.k]
				u := c.args[1]
				ok = L != nil && !strings.HasPrefix(c.s, "part:") && L.coll != nil && strip(L.coll) == kids && u.op == OMPut && u.args[0].op == OLV &&
					madeOf(strip2(u.args[1]), name, L, kids, t, parentIndex(args, parent), nodeIndex(args, node))
			case c.op == ONil:
				ok = s.facts.eval(mkEmpty(kids)) == 1
			}
			q.must(ids, ok, "load:components", conv.Pos(), "the components of the node made are %v when [%s]", c, s.facts)
		}
	}
	x.need(ids, "partitions of "+name+" that make a node", n, 1)
}

func parentIndex(args []*Term, p *Term) int { return nodeIndex(args, p) }

func nodeIndex(args []*Term, p *Term) int {
	for i, a := range args {
		if a == p {
			return i
		}
	}
	return -1
}

// madeOf: the node made of a child, with the new node as its parent.
func madeOf(v *Term, name string, L *Loop, kids, t *Term, pi, ni int) bool {
	if v.op != OExtract || v.k != 0 {
		return false
	}
	c := v.args[0]
	if c.op != OCall || c.s != name {
		return false
	}
	n := c.args[ni]
	okNode := n.op == OElem && n.k == L.id && n.args[0] == kids
	par := c.args[pi]
	return okNode && (par == t || par.op == OAddr)
}

func init() {
	register(&Check{
		id:   "C06",
		rule: "On every trace partition of the operations of a tree node the updates of components and parents, evaluated in order under both aliasings of old and new parent, keep parents and components converse, move exactly one node, refuse to move a node below itself and transfer every component of a deleted node; searches are decided by induction over the height (yes only if a component says yes, no only after all said no); a world places each item exactly once and the containment queries answer from there; loading uses each item up before the nodes below are made.",
		assumptions: []string{
			"induction over the height of the tree: what Has, Find, Root and GetDescendantIds answer for other nodes is what this check decides about them",
			"items have non-empty identifiers, which C20 establishes",
		},
		run: runForest,
	})
}

func runForest(r *Run) {
	x := r.treeShape()
	if x == nil {
		return
	}
	x.queries()
	x.mutators()
	x.loading()
	x.fn("Update")
	x.writers()
	w := r.worldShape()
	if w == nil {
		return
	}
	w.findKey()
	w.itemCreate()
	w.itemDelete()
	w.nest()
	w.free()
	w.queries()
}

func (r *Run) treeQueries() {
	if x := r.treeShape(); x != nil {
		x.queries()
	}
}

func (r *Run) treeUpdate() {
	if x := r.treeShape(); x != nil {
		x.update()
		x.accessors()
		x.mutators()
	}
}
