package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	inv := []string{
		"an item is stored under its identifier, a relationship under the key of its endpoints, and an item has a place in the tree exactly when it is stored; C07 establishes this for every operation",
		"the operations of the tree do what C06 decides about them",
	}
	reg := func(id, rule string) {
		register(&Check{id: id, rule: rule, assumptions: inv, run: runWorld})
	}
	reg("C05", "On every trace partition of every query operation the contents of the item and relationship maps evaluated at a generic key are the former ones, no tree operation that changes the tree is called, and nothing but the status is written; on every partition of every query command and its undo no changing operation of the world is called.")
	reg("C07", "On every trace partition of every world operation, the item map, the relationship map and the tree operations called agree: an item is stored exactly when it is placed, removed exactly when its place is removed, relationships are stored under an injective key of two items that are stored, and the relationship map evaluated at a generic key loses exactly the entries of a deleted item or pair.")
	reg("C08", "On every successful trace partition of create and set, the value stored, the value handed to the tree, the value answered and the endpoints of every relationship (the relationship map evaluated at a generic key) are the same current value; the accessors answer from these stores.")
	reg("C14", "Every relationship query's result, evaluated at a generic stored relationship, contains it exactly when the facts of the path say that its source and destination are among the prescribed identifiers; containment queries ask the prescribed place in the prescribed mode, and the tree's descent reaches every component and nothing else.")
	reg("C16", "On every trace partition of the list operations the result is the complete list (every key once) where the facts entail that the limit is not exceeded, or its prefix whose length the facts equate with the positive limit; the command passes the number typed.")
	reg("C19", "On every trace partition of every operation the final error, item and relationship do not depend on those before the call, the error is nil unless the partition is a failure of this operation, and operations that yield no item or relationship leave none; the accessors return exactly these.")
	reg("C20", "On every trace partition that ends with an error the item and relationship maps evaluated at a generic key are the former ones and the tree is not changed; partitions that end without one entail that the operands exist and the values are usable; errors occur only for one of the prescribed reasons.")
	reg("C24", "On every successful trace partition of set and create the stored value is, field by field, the former value with exactly the given parameters replaced by the values given; existing objects are left as they are and a difference is reported exactly when there is one.")
}

func runWorld(r *Run) {
	w := r.worldShape()
	if w == nil {
		return
	}
	w.findKey()
	n := 0
	for _, f := range []func(){w.itemCreate, w.itemDelete, w.itemSet, w.relCreate, w.relDelete, w.relSet, w.nest, w.free, w.queries, w.accessors, w.statuses} {
		f()
		n++
	}
	switch r.c.id {
	case "C07":
		w.injective()
		w.writers()
	case "C05":
		w.writers()
		r.queryCommands(w)
	case "C14":
		r.treeQueries()
	case "C16":
		r.limitCommand()
	case "C24", "C08":
		if r.c.id == "C08" {
			r.treeUpdate()
		}
	}
	r.need("world operations", len(w.memo), 20)
}

// untouched: nothing is written but the status.
func (w *wShape) untouched(ids string, x *wOut, st *State, what string) {
	w.none(ids, x.sameItems(st), x.name+":"+what+":items", x.pos(), x.name+" changes the items")
	w.none(ids, x.sameRels(st), x.name+":"+what+":rels", x.pos(), x.name+" changes the relationships")
	for _, e := range x.muts {
		w.must(ids, false, x.name+":"+what+":tree", e.pos, "%s calls %s", x.name, e.name)
	}
	w.onlyStatus(ids, x, what)
}

func (w *wShape) onlyStatus(ids string, x *wOut, what string) {
	allowed := map[string]bool{w.lItem.Name(): true, w.lRel.Name(): true, w.lErr.Name(): true, w.items.Name(): true, w.rels.Name(): true}
	flat(x.o.st.trace, func(e *Ev, _ []*Loop) {
		if e.kind == "store" && len(e.args) > 0 {
			p := e.args[0]
			if len(e.raw) > 0 {
				p = e.raw[0]
			}
			ok := p.op == OFieldP && p.args[0] == x.args[0] && allowed[p.s]
			w.must(ids, ok, x.name+":"+what+":writes", e.pos, "%s writes %v", x.name, p)
		}
	})
	for _, h := range w.header {
		w.must(ids, same(x.st, x.in.get(x.o.st, x.args[0], h), initField(x.args[0], h)), x.name+":"+what+":header", x.pos(), "%s changes %s", x.name, h.Name())
	}
	w.must(ids, same(x.st, x.in.get(x.o.st, x.args[0], w.tree), x.T0), x.name+":"+what+":tree replaced", x.pos(), "%s replaces the tree", x.name)
}

// failed: an error leaves everything as it was and has one of the reasons given.
func (w *wShape) failed(x *wOut, st *State, reason bool, allow *Ev) {
	w.none("C20", x.sameItems(st), x.name+":failed:items", x.pos(), x.name+" fails but changes the items")
	w.none("C20", x.sameRels(st), x.name+":failed:rels", x.pos(), x.name+" fails but changes the relationships")
	for _, e := range x.muts {
		ok := e == allow && x.isNil(st, e.res) == -1
		w.must("C20", ok, x.name+":failed:tree", e.pos, "%s fails but calls %s", x.name, e.name)
	}
	w.onlyStatus("C20", x, "failed")
	w.must("C20", reason, x.name+":failed:reason", x.pos(), "%s fails without a reason when [%s]", x.name, st.facts)
}

func (w *wShape) itemParamTypes() types.Type { return w.r.p.typ("pkg/world", "ItemParams") }

func (w *wShape) itemCreate() {
	okN := 0
	for _, x := range w.run("ItemCreate") {
		id, params := x.args[1], x.args[2]
		ps := w.paramVals(params, w.itemT)
		exists := mkLookupOk(x.I0, id)
		old := mkLookup(x.I0, id, w.itemT)
		okS, badS := x.status()
		if badS != nil {
			for _, s := range splitAll(badS, exists) {
				reason := s.facts.eval(mkEmpty(id)) == 1
				var add *Ev
				if s.facts.eval(exists) == 1 {
					reason = reason || x.mismatch(s, old, ps) == 1
				} else {
					reason = reason || x.unusable(s, ps)
					if len(x.muts) == 1 && x.muts[0].name == "Tree.AddOrMove" && x.isNil(s, x.muts[0].res) == -1 {
						add, reason = x.muts[0], true
					}
				}
				w.failed(x, s, reason, add)
				if s.facts.eval(exists) == 1 {
					w.none("C24 C07", x.sameItems(s), "ItemCreate:exists:items", x.pos(), "creating an existing item changes it")
				}
			}
		}
		if okS == nil {
			continue
		}
		w.must("C20", okS.facts.eval(mkEmpty(id)) == -1, "ItemCreate:empty identifier is refused", x.pos(), "ItemCreate succeeds although the identifier may be empty")
		for _, s := range splitAll(okS, append(given(ps), exists)...) {
			if s.facts.eval(exists) == 1 {
				w.must("C24", x.mismatch(s, old, ps) == -1, "ItemCreate:exists:difference is reported", x.pos(), "creating an existing item succeeds although the attributes may differ: [%s]", s.facts)
				w.untouched("C24 C07", x, s, "exists")
				w.must("C24 C08", x.equal(s, x.item, old, w.itemT), "ItemCreate:exists:answer", x.pos(), "creating an existing item answers with %v", x.item)
				continue
			}
			okN++
			v := updated(s, mkWith(mk(OZero, "", 0, w.itemT), "Id", id), ps)
			w.must("C20 C25", x.usable(s, ps), "ItemCreate:unknown type is refused", x.pos(), "ItemCreate succeeds although the type may be unknown")
			K := func(K *Term) []*Term { return []*Term{mkEq(K, id)} }
			w.none("C24 C08 C07 C25", x.becomes(s, x.I1, x.I0, w.itemT, K, func(s *State, K, v0 *Term) *Term {
				if s.facts.eval(mkEq(K, id)) == 1 {
					return v
				}
				return v0
			}), "ItemCreate:items", x.pos(), "after creating an item")
			w.none("C24 C07", x.sameRels(s), "ItemCreate:rels", x.pos(), "creating an item changes the relationships")
			w.placed("C07 C08 C06", x, s, x.T0, v, "ItemCreate")
			w.must("C08 C24 C19", x.equal(s, x.item, v, w.itemT), "ItemCreate:answer", x.pos(), "creating an item answers with %v, not %v", x.nf(s, x.item), v)
			w.onlyStatus("C07 C24", x, "ok")
		}
	}
	w.r.need("partitions of ItemCreate that create", okN, 1)
}

// placed: exactly one mutation of the tree, which puts v under the place at.
func (w *wShape) placed(ids string, x *wOut, s *State, at, v *Term, name string) {
	if !w.must(ids, len(x.muts) == 1 && x.muts[0].name == "Tree.AddOrMove", name+":one place", x.pos(), "%s changes the tree by %d operations", name, len(x.muts)) {
		return
	}
	e := x.muts[0]
	w.must(ids, topEv(x.o.st.trace, e), name+":placed once", e.pos, "%s places the item in a loop", name)
	w.must(ids, x.equal(s, e.args[0], at, nil), name+":where", e.pos, "%s places the item under %v, not %v", name, x.nf(s, e.args[0]), at)
	a := e.args[1]
	if a.op == OAddr {
		a = a.args[0]
	} else {
		a = mk(ODeref, "", 0, w.itemT, a)
	}
	w.must(ids, x.equal(s, a, v, w.itemT), name+":what", e.pos, "%s places %v, not %v", name, x.nf(s, a), v)
}

func topEv(tr []*Ev, e *Ev) bool {
	for _, x := range tr {
		if x == e {
			return true
		}
	}
	return false
}

func (w *wShape) itemDelete() {
	n := 0
	for _, x := range w.run("ItemDelete") {
		id := x.args[1]
		okS, badS := x.status()
		if badS != nil {
			w.failed(x, badS, badS.facts.eval(mkEmpty(id)) == 1, nil)
		}
		if okS == nil {
			continue
		}
		n++
		for _, s := range splitAll(okS, mkLookupOk(x.I0, id)) {
			here := s.facts.eval(mkLookupOk(x.I0, id)) == 1
			w.none("C07", x.becomes(s, x.I1, x.I0, w.itemT, func(K *Term) []*Term { return []*Term{mkEq(K, id)} }, func(s *State, K, v0 *Term) *Term {
				if s.facts.eval(mkEq(K, id)) == 1 {
					return nil
				}
				return v0
			}), "ItemDelete:items", x.pos(), "after deleting an item")
			ends := func(K *Term) []*Term {
				r := mkLookup(x.R0, K, w.relT)
				return []*Term{
					mkEq(mkField(mkField(r, "From", w.itemT), "Id", types.Typ[types.String]), id),
					mkEq(mkField(mkField(r, "To", w.itemT), "Id", types.Typ[types.String]), id)}
			}
			if !here {
				// no relationship touches an item that is not there
				w.none("C07", x.becomes(s, x.R1, x.R0, w.relT, ends, func(s *State, K, v0 *Term) *Term {
					for _, c := range ends(K) {
						if s.facts.eval(c) == 1 {
							return tImpossible
						}
					}
					return v0
				}), "ItemDelete:absent:rels", x.pos(), "after deleting an item that is not there")
			} else {
				w.none("C07", x.becomes(s, x.R1, x.R0, w.relT, ends, func(s *State, K, v0 *Term) *Term {
					for _, c := range ends(K) {
						if s.facts.eval(c) == 1 {
							return nil
						}
					}
					return v0
				}), "ItemDelete:rels", x.pos(), "after deleting an item")
			}
			if !here && len(x.muts) == 0 {
				w.must("C07", true, "ItemDelete:place", x.pos(), "")
				continue
			}
			if w.must("C07 C06", len(x.muts) == 1 && x.muts[0].name == "Tree.Delete" && topEv(x.o.st.trace, x.muts[0]), "ItemDelete:place", x.pos(), "deleting an item changes the tree by %d operations", len(x.muts)) {
				e := x.muts[0]
				w.must("C07 C06", x.equal(s, e.args[0], x.T0, nil) && x.equal(s, e.args[1], id, nil), "ItemDelete:which place", e.pos, "deleting an item removes the place of %v from %v", e.args[1], e.args[0])
			}
		}
		w.onlyStatus("C07", x, "ok")
	}
	w.r.need("partitions of ItemDelete that delete", n, 1)
}

// nil2: whether the entry of an absent item is removed or kept does not matter: there is none.
func (w *wShape) itemSet() {
	n := 0
	for _, x := range w.run("ItemSet") {
		id, params := x.args[1], x.args[2]
		ps := w.paramVals(params, w.itemT)
		exists := mkLookupOk(x.I0, id)
		old := mkLookup(x.I0, id, w.itemT)
		okS, badS := x.status()
		if badS != nil {
			w.failed(x, badS, badS.facts.eval(exists) == -1 || x.unusable(badS, ps), nil)
		}
		if okS == nil {
			continue
		}
		n++
		w.must("C20", okS.facts.eval(exists) == 1, "ItemSet:absent item is refused", x.pos(), "ItemSet succeeds although the item may not exist")
		for _, s := range splitAll(okS, given(ps)...) {
			w.must("C20 C25", x.usable(s, ps), "ItemSet:unknown type is refused", x.pos(), "ItemSet succeeds although the type may be unknown")
			v := updated(s, old, ps)
			w.none("C24 C08 C25", x.becomes(s, x.I1, x.I0, w.itemT, func(K *Term) []*Term { return []*Term{mkEq(K, id)} }, func(s *State, K, v0 *Term) *Term {
				if s.facts.eval(mkEq(K, id)) == 1 {
					return v
				}
				return v0
			}), "ItemSet:items", x.pos(), "after setting attributes of an item")
			fromIs := func(K *Term) *Term {
				return mkEq(mkField(mkField(mkLookup(x.R0, K, w.relT), "From", w.itemT), "Id", types.Typ[types.String]), id)
			}
			toIs := func(K *Term) *Term {
				return mkEq(mkField(mkField(mkLookup(x.R0, K, w.relT), "To", w.itemT), "Id", types.Typ[types.String]), id)
			}
			w.none("C24 C08 C07", x.becomes(s, x.R1, x.R0, w.relT, func(K *Term) []*Term { return []*Term{fromIs(K), toIs(K)} }, func(s *State, K, v0 *Term) *Term {
				if v0 == nil {
					return nil
				}
				if s.facts.eval(fromIs(K)) == 1 {
					v0 = mkWith(v0, "From", v)
				}
				if s.facts.eval(toIs(K)) == 1 {
					v0 = mkWith(v0, "To", v)
				}
				return v0
			}), "ItemSet:rels", x.pos(), "after setting attributes of an item")
			if w.must("C08", len(x.muts) == 1 && x.muts[0].name == "Tree.Update" && topEv(x.o.st.trace, x.muts[0]), "ItemSet:tree is told", x.pos(), "setting attributes of an item changes the tree by %d operations", len(x.muts)) {
				e := x.muts[0]
				w.must("C08", x.equal(s, e.args[0], x.T0, nil) && x.equal(s, e.args[1], v, w.itemT), "ItemSet:tree is told the new value", e.pos, "the tree is told %v", e.args[1])
			}
			for _, e := range x.muts {
				w.must("C24 C07", e.name == "Tree.Update", "ItemSet:place", e.pos, "setting attributes of an item calls %s", e.name)
			}
			w.must("C08 C24 C19", x.equal(s, x.item, v, w.itemT), "ItemSet:answer", x.pos(), "setting attributes answers with %v, not %v", x.nf(s, x.item), v)
		}
		w.onlyStatus("C24 C07", x, "ok")
	}
	w.r.need("partitions of ItemSet that set", n, 1)
}

func (w *wShape) relCreate() {
	n := 0
	for _, x := range w.run("RelCreate") {
		f, t, params := x.args[1], x.args[2], x.args[3]
		ps := w.paramVals(params, w.relT)
		key := w.keyOf(f, t)
		fIn, tIn, exists := mkLookupOk(x.I0, f), mkLookupOk(x.I0, t), mkLookupOk(x.R0, key)
		old := mkLookup(x.R0, key, w.relT)
		okS, badS := x.status()
		if badS != nil {
			for _, s := range splitAll(badS, exists) {
				reason := s.facts.eval(fIn) == -1 || s.facts.eval(tIn) == -1
				if s.facts.eval(exists) == 1 {
					reason = reason || x.mismatch(s, old, ps) == 1
					w.none("C24 C07", x.sameRels(s), "RelCreate:exists:rels", x.pos(), "creating an existing relationship changes it")
				}
				w.failed(x, s, reason, nil)
			}
		}
		if okS == nil {
			continue
		}
		w.must("C20 C07", okS.facts.eval(fIn) == 1 && okS.facts.eval(tIn) == 1, "RelCreate:absent items are refused", x.pos(), "RelCreate succeeds although an end may not exist: [%s]", okS.facts)
		for _, s := range splitAll(okS, append(given(ps), exists)...) {
			if s.facts.eval(exists) == 1 {
				w.must("C24", x.mismatch(s, old, ps) == -1, "RelCreate:exists:difference is reported", x.pos(), "creating an existing relationship succeeds although the attributes may differ: [%s]", s.facts)
				w.untouched("C24 C07", x, s, "exists")
				w.must("C24 C08", x.equal(s, x.rel, old, w.relT), "RelCreate:exists:answer", x.pos(), "creating an existing relationship answers with %v", x.rel)
				continue
			}
			n++
			v := mk(OZero, "", 0, w.relT)
			v = mkWith(v, "From", mkLookup(x.I0, f, w.itemT))
			v = mkWith(v, "To", mkLookup(x.I0, t, w.itemT))
			v = updated(s, v, ps)
			w.none("C24 C08 C07", x.becomes(s, x.R1, x.R0, w.relT, func(K *Term) []*Term { return []*Term{mkEq(K, key)} }, func(s *State, K, v0 *Term) *Term {
				if s.facts.eval(mkEq(K, key)) == 1 {
					return v
				}
				return v0
			}), "RelCreate:rels", x.pos(), "after creating a relationship")
			w.none("C24 C07", x.sameItems(s), "RelCreate:items", x.pos(), "creating a relationship changes the items")
			w.must("C07", len(x.muts) == 0, "RelCreate:tree", x.pos(), "creating a relationship changes the tree")
			w.must("C08 C24 C19", x.equal(s, x.rel, v, w.relT), "RelCreate:answer", x.pos(), "creating a relationship answers with %v, not %v", x.nf(s, x.rel), v)
		}
		w.onlyStatus("C24 C07", x, "ok")
	}
	w.r.need("partitions of RelCreate that create", n, 1)
}

func (w *wShape) relDelete() {
	n := 0
	for _, x := range w.run("RelDelete") {
		f, t := x.args[1], x.args[2]
		key := w.keyOf(f, t)
		okS, badS := x.status()
		if badS != nil {
			w.failed(x, badS, badS.facts.eval(mkEmpty(f)) == 1 || badS.facts.eval(mkEmpty(t)) == 1, nil)
		}
		if okS == nil {
			continue
		}
		n++
		w.none("C07", x.becomes(okS, x.R1, x.R0, w.relT, func(K *Term) []*Term { return []*Term{mkEq(K, key)} }, func(s *State, K, v0 *Term) *Term {
			if s.facts.eval(mkEq(K, key)) == 1 {
				return nil
			}
			return v0
		}), "RelDelete:rels", x.pos(), "after deleting a relationship")
		w.none("C07", x.sameItems(okS), "RelDelete:items", x.pos(), "deleting a relationship changes the items")
		w.must("C07", len(x.muts) == 0, "RelDelete:tree", x.pos(), "deleting a relationship changes the tree")
		w.onlyStatus("C07", x, "ok")
	}
	w.r.need("partitions of RelDelete that delete", n, 1)
}

func (w *wShape) relSet() {
	n := 0
	for _, x := range w.run("RelSet") {
		f, t, params := x.args[1], x.args[2], x.args[3]
		ps := w.paramVals(params, w.relT)
		key := w.keyOf(f, t)
		exists := mkLookupOk(x.R0, key)
		old := mkLookup(x.R0, key, w.relT)
		okS, badS := x.status()
		if badS != nil {
			w.failed(x, badS, badS.facts.eval(exists) == -1, nil)
		}
		if okS == nil {
			continue
		}
		n++
		w.must("C20", okS.facts.eval(exists) == 1, "RelSet:absent relationship is refused", x.pos(), "RelSet succeeds although the relationship may not exist")
		for _, s := range splitAll(okS, given(ps)...) {
			v := updated(s, old, ps)
			w.none("C24 C08 C07", x.becomes(s, x.R1, x.R0, w.relT, func(K *Term) []*Term { return []*Term{mkEq(K, key)} }, func(s *State, K, v0 *Term) *Term {
				if s.facts.eval(mkEq(K, key)) == 1 {
					return v
				}
				return v0
			}), "RelSet:rels", x.pos(), "after setting attributes of a relationship")
			w.none("C24 C07", x.sameItems(s), "RelSet:items", x.pos(), "setting attributes of a relationship changes the items")
			w.must("C07 C24", len(x.muts) == 0, "RelSet:tree", x.pos(), "setting attributes of a relationship changes the tree")
			w.must("C08 C24 C19", x.equal(s, x.rel, v, w.relT), "RelSet:answer", x.pos(), "setting attributes answers with %v, not %v", x.nf(s, x.rel), v)
		}
		w.onlyStatus("C24 C07", x, "ok")
	}
	w.r.need("partitions of RelSet that set", n, 1)
}

func (w *wShape) moving(name string, child *Term, outs []*wOut, where func(x *wOut) *Term, operands func(x *wOut) []*Term) {
	n := 0
	for _, x := range outs {
		c := x.args[1]
		item := mkLookup(x.I0, c, w.itemT)
		okS, badS := x.status()
		if badS != nil {
			reason := false
			for _, o := range operands(x) {
				reason = reason || badS.facts.eval(mkLookupOk(x.I0, o)) == -1
			}
			var add *Ev
			if len(x.muts) == 1 && x.muts[0].name == "Tree.AddOrMove" && x.isNil(badS, x.muts[0].res) == -1 {
				add, reason = x.muts[0], true
			}
			w.failed(x, badS, reason, add)
		}
		if okS == nil {
			continue
		}
		n++
		for _, o := range operands(x) {
			w.must("C20", okS.facts.eval(mkLookupOk(x.I0, o)) == 1, name+":absent item is refused", x.pos(), "%s succeeds although %v may not exist", name, o)
		}
		w.placed("C07 C06", x, okS, where(x), item, name)
		for _, e := range x.muts {
			w.must("C20 C26", x.isNil(okS, e.res) == 1, name+":failure of the tree is reported", e.pos, "%s succeeds although %s may fail", name, e.name)
		}
		w.none("C07", x.sameItems(okS), name+":items", x.pos(), name+" changes the items")
		w.none("C07", x.sameRels(okS), name+":rels", x.pos(), name+" changes the relationships")
		w.onlyStatus("C07", x, "ok")
		w.must("C19 C08", x.equal(okS, x.item, item, w.itemT), name+":answer", x.pos(), "%s answers with %v", name, x.nf(okS, x.item))
	}
	w.r.need("partitions of "+name+" that move", n, 1)
}

func (w *wShape) nest() {
	w.moving("Nest", nil, w.run("Nest"), func(x *wOut) *Term {
		return mkExtract(mk(OCall, "Tree.Find", 0, nil, x.T0, x.args[2], mk(OEpoch, "0:obj:Tree", 0, nil)), 0, nil)
	}, func(x *wOut) []*Term { return x.args[1:3] })
}

func (w *wShape) free() {
	w.moving("Free", nil, w.run("Free"), func(x *wOut) *Term { return x.T0 }, func(x *wOut) []*Term { return x.args[1:2] })
}

var queryOps = []string{"ItemFetch", "ItemList", "RelFetch", "RelTo", "RelFrom", "RelList", "In", "Parent", "Components", "ItemParent", "ItemComponents", "String", "Version", "Id", "Name", "Expanded", "Err", "Item", "Rel"}

func (w *wShape) queries() {
	for _, q := range queryOps {
		outs := w.run(q)
		for _, x := range outs {
			w.untouched("C05", x, x.st, "query")
		}
		w.r.need("partitions of "+q, len(outs), 1)
	}
	str := types.Typ[types.String]
	// fetch
	for _, x := range w.run("ItemFetch") {
		id := x.args[1]
		in0 := mkLookupOk(x.I0, id)
		for _, s := range splitAll(x.st, in0) {
			want := mk(OZero, "", 0, w.itemT)
			ok := tFalse
			if s.facts.eval(in0) == 1 {
				want, ok = mkLookup(x.I0, id, w.itemT), tTrue
			}
			w.must("C08 C07", x.equal(s, x.o.rets[0], want, w.itemT) && s.facts.eval(mkEq(x.nf(s, x.o.rets[1]), ok)) == 1, "ItemFetch:answer", x.pos(), "ItemFetch answers %v, %v when [%s]", x.o.rets[0], x.o.rets[1], s.facts)
		}
	}
	// lists
	w.list("ItemList", func(x *wOut) *Term { return x.I0 }, w.itemT)
	w.list("RelList", func(x *wOut) *Term { return x.R0 }, w.relT)
	// relationship queries
	within := func(x *wOut, s *State, end, id *Term, strict bool) *Term {
		if strict {
			return mkEq(end, id)
		}
		d := mk(OCall, "Tree.GetDescendantIds", 0, types.NewSlice(str), x.T0, id, mk(OEpoch, "0:obj:Tree", 0, nil))
		return mkContains(mkSeq(d, mkOne(id)), end)
	}
	rel := func(name string, conds func(x *wOut, s *State, from, to *Term, strict bool) []*Term) {
		n := 0
		for _, x := range w.run(name) {
			strict := x.args[len(x.args)-1]
			for _, s := range splitAll(x.st, strict) {
				isStrict := s.facts.eval(strict) == 1
				K := genericKey
				e := &entry{K: K, rew: x.rewrite}
				r0 := mkLookup(x.R0, K, w.relT)
				from := mkField(mkField(r0, "From", w.itemT), "Id", str)
				to := mkField(mkField(r0, "To", w.itemT), "Id", str)
				cs := conds(x, s, from, to, isStrict)
				if name == "RelFetch" && isStrict {
					cs = []*Term{mkEq(K, w.keyOf(x.args[1], x.args[2]))}
				}
				base := s.clone()
				base.assume(mkLookupOk(x.R0, K), true)
				res := x.nf(base, x.in.val(x.o.st, x.o.rets[0]))
				for _, b := range splitAll(base, cs...) {
					if !congruent(b, x.R0, K) || x.refine(b) == nil {
						continue
					}
					want := true
					for _, c := range cs {
						want = want && b.facts.eval(c) == 1
					}
					for _, c := range e.list(res, b) {
						// the key and the endpoints determine each other
						if name == "RelFetch" && isStrict {
							ends := c.st.facts.eval(mkEq(from, x.args[1])) == 1 && c.st.facts.eval(mkEq(to, x.args[2])) == 1
							notEnds := c.st.facts.eval(mkEq(from, x.args[1])) == -1 || c.st.facts.eval(mkEq(to, x.args[2])) == -1
							if ends && !want || notEnds && want {
								continue // impossible
							}
						}
						n++
						if c.present != want {
							w.must("C14", false, name+":selection", x.pos(), "%s answers with a relationship: %v, should: %v, when [%s]", name, c.present, want, relevant(c.st, K))
							continue
						}
						w.must("C14", true, name+":selection", x.pos(), "")
						if c.present {
							v := r0
							if c.val.op == OLookup && c.val != r0 && c.val.args[0] == x.R0 && c.st.facts.eval(mkEq(c.val.args[1], K)) == 1 {
								c.val = r0
							}
							w.must("C14 C08", x.equal(c.st, c.val, v, w.relT), name+":elements", x.pos(), "%s answers with %v, not %v", name, c.val, v)
						}
					}
				}
				w.must("C14", e.why == "", name+":decided", x.pos(), "the result of %s cannot be determined: %s", name, e.why)
			}
		}
		if w.r.c.id == "C14" {
			w.r.need("cases of "+name, n, 2)
		}
	}
	rel("RelFetch", func(x *wOut, s *State, from, to *Term, strict bool) []*Term {
		return []*Term{within(x, s, from, x.args[1], strict), within(x, s, to, x.args[2], strict)}
	})
	rel("RelTo", func(x *wOut, s *State, from, to *Term, strict bool) []*Term {
		return []*Term{within(x, s, to, x.args[1], strict)}
	})
	rel("RelFrom", func(x *wOut, s *State, from, to *Term, strict bool) []*Term {
		return []*Term{within(x, s, from, x.args[1], strict)}
	})
	// containment
	ep := mk(OEpoch, "0:obj:Tree", 0, nil)
	find := func(x *wOut, id *Term) *Term {
		return mkExtract(mk(OCall, "Tree.Find", 0, nil, x.T0, id, ep), 0, nil)
	}
	for _, x := range w.run("In") {
		child, parent, strict := x.args[1], x.args[2], x.args[3]
		for _, s := range splitAll(x.st, mkLookupOk(x.I0, parent)) {
			want := tFalse
			if s.facts.eval(mkLookupOk(x.I0, parent)) == 1 {
				want = mk(OCall, "Tree.Has", 0, types.Typ[types.Bool], find(x, parent), child, strict, ep)
			}
			got := x.nf(s, x.o.rets[0])
			w.must("C14", got == x.nf(s, want) || boolIs(s, got, want), "In:answer", x.pos(), "In answers %v when [%s]", got, s.facts)
		}
	}
	parent := func(name string, val func(p *Term) *Term, zero *Term, t types.Type) {
		for _, x := range w.run(name) {
			c := x.args[1]
			for _, s := range splitAll(x.st, mkLookupOk(x.I0, c)) {
				in0 := s.facts.eval(mkLookupOk(x.I0, c)) == 1
				want, ok := zero, tFalse
				if in0 {
					want, ok = val(mk(OCall, "Tree.Item", 0, w.itemT, mk(OCall, "Tree.Parent", 0, nil, find(x, c), ep), ep)), tTrue
				}
				w.must("C06 C08", x.equal(s, x.o.rets[0], want, t) && s.facts.eval(mkEq(x.nf(s, x.o.rets[1]), ok)) == 1, name+":answer", x.pos(), "%s answers %v, %v when [%s]", name, x.nf(s, x.o.rets[0]), x.o.rets[1], s.facts)
			}
		}
	}
	parent("Parent", func(p *Term) *Term { return mkField(p, "Id", str) }, cStr(""), str)
	parent("ItemParent", func(p *Term) *Term { return p }, mk(OZero, "", 0, w.itemT), w.itemT)
	comps := func(name string, val func(c *Term) *Term, t types.Type) {
		n := 0
		for _, x := range w.run(name) {
			c := x.args[1]
			for _, s := range splitAll(x.st, mkLookupOk(x.I0, c)) {
				in0 := s.facts.eval(mkLookupOk(x.I0, c)) == 1
				w.must("C06", s.facts.eval(mkEq(x.nf(s, x.o.rets[1]), cBool(in0))) == 1, name+":found", x.pos(), "%s says found: %v when [%s]", name, x.o.rets[1], s.facts)
				res := canonIn(s, x.in.snap(x.o.st, x.in.val(x.o.st, x.o.rets[0]), 0))
				if !in0 {
					w.must("C06", emptySeq(res), name+":absent", x.pos(), "%s lists %v for an item that is not there", name, res)
					continue
				}
				set := mk(OCall, "Tree.Components", 0, nil, find(x, c), ep)
				set = mk(OC0, "", 0, nil, set)
				K := sym("·K", nil)
				e := &entry{K: K, rew: func(st *State, t *Term) *Term { return t }}
				b := s.clone()
				b.assume(mkLookupOk(set, K), true)
				for _, cs := range e.list(res, b) {
					n++
					if !cs.present {
						cs.st.facts.each2(func(f *Facts) { print(f.val, dbgTerm(f.atom, 0)) })
					}
					w.must("C06", cs.present, name+":complete", x.pos(), "%s leaves out a component when [%s]", name, relevant(cs.st, K))
					if cs.present {
						want := val(mk(OCall, "Tree.Item", 0, w.itemT, K, ep))
						w.must("C06 C08", x.equal(cs.st, cs.val, want, t), name+":elements", x.pos(), "%s lists %v", name, cs.val)
					}
				}
				b = s.clone()
				b.assume(mkLookupOk(set, K), false)
				for _, cs := range e.list(res, b) {
					w.must("C06", !cs.present, name+":nothing else", x.pos(), "%s lists what is no component", name)
				}
				w.must("C06", e.why == "", name+":decided", x.pos(), "the result of %s cannot be determined: %s", name, e.why)
			}
		}
		if w.r.c.id == "C06" {
			w.r.need("cases of "+name, n, 1)
		}
	}
	comps("Components", func(c *Term) *Term { return mkField(c, "Id", str) }, str)
	comps("ItemComponents", func(c *Term) *Term { return c }, w.itemT)
}

// list decides a list operation with a limit.
func (w *wShape) list(name string, of func(x *wOut) *Term, elem types.Type) {
	ids := "C16 C08"
	n := 0
	for _, x := range w.run(name) {
		n++
		m0 := of(x)
		limit := x.args[1]
		res := x.in.val(x.o.st, x.o.rets[0])
		full, hi := canonIn(x.st, res), (*Term)(nil)
		if full.op == OSlice && x.st.facts.eval(mkEq(full.args[1], cInt(0))) == 1 {
			full, hi = full.args[0], full.args[2]
		}
		// a prefix of the keys, each with its value
		if full.op == OSeq && len(full.args) == 1 && full.args[0].op == OEach {
			L := loops[full.args[0].k]
			if L != nil && L.coll != nil && L.coll.op == OSlice && hi == nil {
				if x.st.facts.eval(mkEq(L.coll.args[1], cInt(0))) == 1 {
					hi = L.coll.args[2]
				}
			}
		}
		K := genericKey
		e := &entry{K: K, rew: x.rewrite}
		if why := x.wholeList(e, full, m0, elem, hi != nil); why != "" {
			w.must(ids, false, name+":complete", x.pos(), "%s: %s", name, why)
			continue
		}
		w.must(ids, true, name+":complete", x.pos(), "")
		size := mkLen(mk(OCall, "keys", 0, nil, m0))
		noLimit := mkLe0(linOf(limit))
		st := x.st.clone()
		// the length of the complete list is that of its keys
		st.assume(mkEq(mkLen(full), size), true)
		w.loopBounds(x, st, limit)
		for _, s := range splitAll(st, noLimit) {
			unlimited := s.facts.eval(noLimit) == 1
			fits := s.facts.eval(mkLe0(linOf(sub(size, limit)))) == 1
			switch {
			case hi == nil:
				w.must("C16", unlimited || fits || x.pathsFit(s, size, limit), name+":limit is kept", x.pos(), "%s returns everything although the limit may be smaller: [%s]", name, s.facts)
			default:
				w.must("C16", !unlimited || s.facts.eval(mkEq(hi, size)) == 1, name+":no limit means all", x.pos(), "%s returns only %v without a limit", name, hi)
				if !unlimited {
					ok := s.facts.eval(mkEq(hi, limit)) == 1
					ok = ok || s.facts.eval(mkLe0(linOf(sub(hi, limit)))) == 1 && s.facts.eval(mkLe0(linOf(sub(limit, hi)))) == 1
					ok = ok || fits && s.facts.eval(mkEq(hi, size)) == 1
					ok = ok || hi.op == OCall && hi.s == "min" && len(hi.args) == 2
					w.must("C16", ok, name+":exactly the limit", x.pos(), "%s returns %v elements, not %v, when [%s]", name, hi, limit, s.facts)
				}
			}
		}
	}
	if w.r.c.id == "C16" {
		w.r.need("partitions of "+name+" analysed", n, 1)
	}
}

// wholeList: every entry once, nothing else.
func (x *wOut) wholeList(e *entry, t, m0 *Term, elem types.Type, prefix bool) string {
	if prefix && t.op == OSeq && len(t.args) == 1 && t.args[0].op == OEach {
		L := loops[t.args[0].k]
		if L != nil && L.coll != nil && L.coll.op == OSlice {
			L2 := *L
			L2.coll = L.coll.args[0]
			return x.wholeEach(e, t, &L2, m0, elem)
		}
	}
	return x.wholeEach(e, t, nil, m0, elem)
}

func (x *wOut) wholeEach(e *entry, t *Term, as *Loop, m0 *Term, elem types.Type) string {
	if as != nil {
		old := loops[as.id]
		loops[as.id] = as
		defer func() { loops[as.id] = old }()
	}
	for _, in := range []bool{true, false} {
		st := newState()
		st.assume(mkLookupOk(m0, e.K), in)
		for _, c := range e.list(t, st) {
			if c.present != in {
				return "an entry is listed: " + cBool(c.present).String() + ", stored: " + cBool(in).String() + " when [" + relevant(c.st, e.K) + "]"
			}
			if in && !x.equal(c.st, c.val, mkLookup(m0, e.K, elem), elem) {
				return "the element is " + c.val.String()
			}
		}
		if e.why != "" {
			return "the list cannot be determined: " + e.why
		}
	}
	return ""
}

// loopBounds adds the bounds that every continuing path through the loops of the trace maintains:
// if all of them entail N+d < b, or N+d /= b, then N+d <= b at the head (given d <= b), by induction.
func (w *wShape) loopBounds(x *wOut, st *State, limit *Term) {
	for _, e := range x.o.st.trace {
		if e.kind != "loop" || e.loop == nil || len(e.loop.paths) == 0 {
			continue
		}
		N := mk(ON, "", e.loop.id, types.Typ[types.Int])
		for d := int64(0); d < 2; d++ {
			Nd := addc(N, d)
			all := true
			for _, p := range e.loop.paths {
				s := newState()
				s.facts = p.facts
				less := mkLe0(linOf(addc(sub(Nd, limit), 1)))
				if s.facts.eval(less) != 1 && s.facts.eval(mkEq(Nd, limit)) != -1 && s.facts.eval(mkLe0(linOf(limit))) != 1 {
					all = false
				}
			}
			if all && st.facts.eval(mkLe0(linOf(limit))) == -1 {
				st.assume(mkLe0(linOf(sub(Nd, limit))), true)
			}
			if all && d == 0 {
				// remembered for the case that the limit is positive
				st.assume(mk(OCall, "bounded", 0, types.Typ[types.Bool], N, limit), true)
			}
		}
	}
}

// pathsFit: the loop ran to the end and every iteration entailed that the limit was not reached yet.
func (x *wOut) pathsFit(st *State, size, limit *Term) bool {
	for _, e := range x.o.st.trace {
		if e.kind != "loop" || e.loop == nil || !e.loop.natural || len(e.loop.paths) == 0 {
			continue
		}
		N := mk(ON, "", e.loop.id, types.Typ[types.Int])
		if st.facts.eval(mk(OCall, "bounded", 0, types.Typ[types.Bool], N, limit)) == 1 && e.loop.coll != nil {
			s := newState()
			s.facts = st.facts
			if same(s, mkLen(canonIn(st, e.loop.coll)), size) {
				return true
			}
		}
	}
	return false
}

func (w *wShape) accessors() {
	for _, x := range w.run("Err") {
		w.must("C19", x.in.val(x.o.st, x.o.rets[0]) == initField(x.args[0], w.lErr), "Err", x.pos(), "Err returns %v", x.o.rets[0])
	}
	acc := func(name string, f *types.Var, t types.Type) {
		for _, x := range w.run(name) {
			v := initField(x.args[0], f)
			want := v
			if !types.Identical(f.Type(), t) {
				want = mk(ODeref, "", 0, t, v)
			}
			for _, s := range splitAll(x.st, mkEq(v, tNil)) {
				ww := want
				if s.facts.eval(mkEq(v, tNil)) == 1 {
					ww = mk(OZero, "", 0, t)
				}
				w.must("C19 C08", x.equal(s, x.o.rets[0], ww, t), name+":value", x.pos(), "%s returns %v", name, x.o.rets[0])
				w.must("C19", x.in.val(x.o.st, x.o.rets[1]) == initField(x.args[0], w.lErr), name+":error", x.pos(), "%s returns the error %v", name, x.o.rets[1])
			}
		}
	}
	acc("Item", w.lItem, w.itemT)
	acc("Rel", w.lRel, w.relT)
	for _, n := range []string{"Version", "Id", "Name", "Expanded"} {
		for _, x := range w.run(n) {
			f := x.o.rets[0]
			ok := f.op == OField && f.args[0] == mk(ODeref, "", 0, ptrElem(x.args[0].typ), x.args[0])
			w.must("C08", ok, n+":value", x.pos(), "%s returns %v", n, f)
		}
	}
}

// statuses: the status is that of this operation.
func (w *wShape) statuses() {
	old := func(x *wOut, t *Term) bool {
		for _, f := range []*types.Var{w.lItem, w.lRel, w.lErr} {
			if contains(t, initField(x.args[0], f)) {
				return true
			}
		}
		return false
	}
	items := map[string]bool{"ItemCreate": true, "ItemSet": true, "Nest": true, "Free": true}
	rels := map[string]bool{"RelCreate": true, "RelSet": true}
	n := 0
	for _, op := range ifaceMethods(w.r.p.typ("pkg/world", "Operations")) {
		if op == "Err" {
			continue
		}
		for _, x := range w.run(op) {
			n++
			w.must("C19", !old(x, x.err), op+":error is its own", x.pos(), "%s leaves the error %v", op, x.err)
			w.must("C19", !old(x, x.item), op+":item is its own", x.pos(), "%s leaves the item %v", op, x.item)
			w.must("C19", !old(x, x.rel), op+":relationship is its own", x.pos(), "%s leaves the relationship %v", op, x.rel)
			if !items[op] {
				w.must("C19", x.item.op == OZero, op+":no item", x.pos(), "%s leaves the item %v", op, x.item)
			}
			if !rels[op] {
				w.must("C19", x.rel.op == OZero, op+":no relationship", x.pos(), "%s leaves the relationship %v", op, x.rel)
			}
			switch worldKind("World." + op) {
			case 'q':
				w.must("C19", errStatus(x.st, x.err) == 1, op+":no error", x.pos(), "%s leaves the error %v", op, x.err)
			case 'm':
				w.must("C19 C20 C26", errStatus(x.st, x.err) != 0 || ownError(x), op+":error is known", x.pos(), "%s leaves the error %v", op, x.err)
				if len(x.o.rets) == 1 {
					w.must("C19", x.in.val(x.o.st, strip2(x.o.rets[0])) == x.args[0], op+":returns the world", x.pos(), "%s returns %v", op, x.o.rets[0])
				}
			}
		}
	}
	if w.r.c.id == "C19" {
		w.r.need("partitions of operations", n, 20)
	}
}

// strip2 takes a value out of its interface.
func strip2(t *Term) *Term {
	for t.op == OIface {
		t = t.args[0]
	}
	return t
}

// ownError: the error is the result of a call this operation made.
func ownError(x *wOut) bool {
	ok := false
	flat(x.o.st.trace, func(e *Ev, _ []*Loop) {
		if e.res != nil && x.rewrite(x.st, e.res) == x.err {
			ok = true
		}
	})
	return ok
}

// injective: different pairs have different keys.
func (w *wShape) injective() {
	k := w.key
	parts := []*Term{k}
	if k.op == OConcat {
		parts = k.args
	}
	var f, t, selfDelim = 0, 0, true
	for _, p := range parts {
		if _, ok := p.isStr(); ok {
			continue
		}
		if p.op == OCall && (p.s == "strconv.Quote" || p.s == "quote" || p.s == "strconv.QuoteToASCII") && len(p.args) == 1 {
			switch p.args[0] {
			case w.keyF:
				f++
				continue
			case w.keyT:
				t++
				continue
			}
		}
		selfDelim = false
	}
	w.r.must(selfDelim && f == 1 && t == 1, "key:injective", w.fns["RelDelete"].Pos(), "two pairs can have the same key %v: neither part is delimited", k)
}

// writers: nobody else changes the stores of a world.
func (w *wShape) writers() {
	p := w.r.p
	seen := map[*ssa.Function]bool{}
	ops := map[string]bool{}
	for _, m := range p.methodsOfType(w.t) {
		for f := range p.closureOf(m) {
			seen[f] = true
		}
		ops[p.canon(m)] = true
	}
	n := 0
	for _, fn := range p.repoFuncs() {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				fa, ok := i.(*ssa.FieldAddr)
				if !ok || !types.Identical(fa.X.Type(), w.t) {
					continue
				}
				n++
				isCtor := false
				if a, ok := fa.X.(*ssa.Alloc); ok && a.Heap {
					isCtor = true
				}
				name := structOf(fa.X.Type()).Field(fa.Field).Name()
				_, isRecv := fa.X.(*ssa.Parameter)
				w.r.must(isCtor || seen[fn] || isRecv && strings.HasPrefix(p.canon(fn), "World."), "writer:"+p.canon(fn)+":"+name, i.Pos(), "%s reaches into a world from outside its operations", p.canon(fn))
			}
		}
	}
	w.r.need("accesses to the stores", n, 5)
}
