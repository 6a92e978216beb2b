package main

// Undo: what undoing a command does, given what executing it did.

import (
	"go/token"
	"go/types"
)

func init() {
	register(&Check{id: "C03", run: runC03,
		rule:        "For every operation, on every trace partition of Execute followed by Undo of the same command (and of Execute and Undo again after that): the changes that Undo makes to the world are exactly the inverse of those that Execute made, on the operands and with the values that Execute read from the world before its change; nothing when Execute changed nothing.",
		assumptions: []string{"the operations of a world and the answers of its queries are those that C02-C08, C14, C20 and C24 decide", "between a command and its undoing the world is not changed by others"}})
}

func runC03(r *Run) {
	c := r.capp()
	if c == nil {
		return
	}
	n := 0
	for _, o := range operations {
		chs := c.chains(o)
		for i, ch := range chs {
			n += ch.checkUndo()
			if r.tier == "thorough" || i < 4 || i >= len(chs)-4 {
				for _, d := range c.again(ch) {
					d.checkUndo()
				}
			}
		}
	}
	r.need("partitions of an undo", n, 40)
}

// step is a change that an undo makes, with the state in which it makes it.
func (ch *chain) checkUndo() int {
	c, r, o := ch.c, ch.c.r, ch.op
	k := o.String() + ": undo: "
	if ch.redone {
		k = o.String() + ": undo again: "
	}
	ms := muts(ch.evs)
	E := ch.exists()
	n := 0
	for _, u := range ch.undo {
		n++
		us := muts(u.evs)
		if len(ms) == 0 {
			r.tag("C03 C05", len(us) == 0, k+"nothing was changed", u.pos, "undoing %q changes the world although it changed nothing", o)
			r.tag("C03", errStatus(u.st, u.err) == 1, k+"no failure", u.pos, "undoing %q fails although there is nothing to undo", o)
			continue
		}
		c.swallowed(o.String()+": undo", u.st, u.evs, u.err, u.pos)
		if o.verb == "nest" || o.verb == "free" {
			ch.undoMoves(k, ms, u, us)
			continue
		}
		if len(ms) != 1 || ms[0].kind != "call" {
			r.tag("C03", false, k+"known change", ch.pos, "%q makes %d changes: not decided how to undo them", o, len(ms))
			continue
		}
		e := ms[0]
		if c.failed(u.st, e) == 1 && len(us) == 0 {
			continue // it changed nothing
		}
		one := func(name string, operands ...*Term) *Ev {
			if !r.tag("C03", len(us) == 1 && us[0].kind == "call" && us[0].name == "World."+name, k+"inverse", u.pos, "undoing %q makes %s, not one %s", o, evList(us), name) {
				return nil
			}
			for i, t := range operands {
				r.tag("C03", same(u.st, us[0].args[i+1], t), k+"operands", us[0].pos, "undoing %q performs %s on %v, not %v", o, name, us[0].args[i+1], t)
			}
			return us[0]
		}
		switch e.name {
		case "World.ItemCreate":
			r.tag("C03", E == -1, k+"knows it is new", ch.pos, "%q creates without looking whether it exists: undo would delete what was there", o)
			one("ItemDelete", c.id)
		case "World.RelCreate":
			r.tag("C03", E == -1, k+"knows it is new", ch.pos, "%q creates without looking whether it exists: undo would delete what was there", o)
			one("RelDelete", c.id, c.to)
		case "World.ItemSet", "World.RelSet":
			rel := e.name == "World.RelSet"
			old := ch.formerValue()
			if !r.tag("C03", old != nil, k+"reads what it changes", ch.pos, "%q does not read the former attributes before it changes them", o) {
				continue
			}
			ops := []*Term{c.id}
			name := "ItemSet"
			if rel {
				ops, name = append(ops, c.to), "RelSet"
			}
			if x := one(name, ops...); x != nil {
				kept := func(f string) bool { return mkField(e.args[len(e.args)-1], f, nil).op == ONil }
				d := c.former(u.st, x.args[len(x.args)-1], old, rel, kept)
				r.tag("C03", d == "", k+"former attributes", x.pos, "undoing %q: %s", o, d)
			}
		case "World.RelDelete":
			old := ch.formerValue()
			if !r.tag("C03", old != nil, k+"reads what it changes", ch.pos, "%q does not read the former attributes before it changes them", o) {
				continue
			}
			if x := one("RelCreate", c.id, c.to); x != nil {
				d := c.former(u.st, x.args[len(x.args)-1], old, true, nil)
				r.tag("C03", d == "", k+"former attributes", x.pos, "undoing %q: %s", o, d)
			}
		case "World.ItemDelete":
			ch.undoDelete(k, u, us)
		default:
			r.tag("C03", false, k+"known change", e.pos, "%q performs %s: not decided how to undo it", o, evName(e))
		}
	}
	return n
}

func evList(us []*Ev) string {
	s := ""
	for _, u := range us {
		s += " " + evName(u)
	}
	if s == "" {
		return "no change"
	}
	return s[1:]
}

// formerValue is the item or relationship that was read before the first change.
func (ch *chain) formerValue() *Term {
	for _, e := range before(ch.evs) {
		switch {
		case e.name == "World.ItemFetch" && ch.op.ty == "item" && e.args[1] == ch.c.id:
			return mkExtract(e.res, 0, ch.c.itemT)
		case e.name == "World.RelFetch" && ch.op.ty == "rel" && e.args[1] == ch.c.id && e.args[2] == ch.c.to && e.args[3] == tTrue:
			return mkIndex(e.res, cInt(0), ch.c.relT)
		}
	}
	return nil
}

// undoDelete: the item comes back with its attributes, its place, its components and its relationships.
func (ch *chain) undoDelete(k string, u *undone, us []*Ev) {
	c, r := ch.c, ch.c.r
	old := ch.formerValue()
	if !r.tag("C03", old != nil, k+"reads what it changes", ch.pos, "the attributes of the item are not read before it is deleted") {
		return
	}
	var parent *Term
	need := map[*Term]string{} // collections that have to be gone over
	part := map[string]*Term{}
	for _, e := range before(ch.evs) {
		switch {
		case e.name == "World.Parent" && e.args[1] == c.id:
			parent = mkExtract(e.res, 0, types.Typ[types.String])
		case e.name == "World.Components" && e.args[1] == c.id:
			t := mkExtract(e.res, 0, nil)
			need[t], part["components"] = "components", t
		case e.name == "World.RelFrom" && e.args[1] == c.id && e.args[2] == tTrue:
			need[e.res], part["from"] = "from", e.res
		case e.name == "World.RelTo" && e.args[1] == c.id && e.args[2] == tTrue:
			need[e.res], part["to"] = "to", e.res
		}
	}
	ok := r.tag("C03", parent != nil, k+"reads the place", ch.pos, "the parent of the item is not read before it is deleted")
	for _, n := range []string{"components", "from", "to"} {
		ok = r.tag("C03", part[n] != nil, k+"reads the "+n, ch.pos, "what was %s the item is not read before it is deleted", n) && ok
	}
	if !ok {
		return
	}
	// the steps, in order
	created, placed := false, u.st.facts.eval(mkEmpty(parent)) == 1
	done := map[string]bool{}
	stopped := false
	relArgs := func(st *State, e *Ev, el *Term, from string) bool {
		f := mkField(mkField(el, "From", c.itemT), "Id", types.Typ[types.String])
		t := mkField(mkField(el, "To", c.itemT), "Id", types.Typ[types.String])
		okF := same(st, e.args[1], f) || from == "from" && e.args[1] == c.id
		okT := same(st, e.args[2], t) || from == "to" && e.args[2] == c.id
		return okF && okT && c.former(st, e.args[3], el, true, nil) == ""
	}
	match := func(e *Ev, L *Loop, st *State, parts []string) bool {
		if e.kind != "call" {
			return false
		}
		isElem := func(t *Term) bool { return t.op == OElem && t.k == L.id && t.args[0] == L.coll }
		el := mk(OElem, "", L.id, nil, L.coll)
		for _, n := range parts {
			switch n {
			case "components":
				if e.name != "World.Nest" || !isElem(e.args[1]) || !same(st, e.args[2], c.id) {
					return false
				}
			default:
				if e.name != "World.RelCreate" {
					return false
				}
				for _, a := range []*Term{e.args[1], e.args[2], e.args[3]} {
					subst(a, func(x *Term) *Term {
						if isElem(x) {
							el = x
						}
						return nil
					}, map[*Term]*Term{})
				}
				if !relArgs(st, e, el, n) {
					return false
				}
			}
		}
		return true
	}
	var last *Loop
	for _, e := range us {
		if stopped {
			r.tag("C03", false, k+"stops at a failure", e.pos, "undoing goes on with %s after it stopped", evName(e))
		}
		if e.kind == "loop" {
			L := e.loop
			var parts []string
			known := L.coll != nil
			if known {
				for _, p := range seqParts(canonIn(u.st, L.coll)) {
					if need[p] == "" {
						known = false
					}
					parts = append(parts, need[p])
				}
			}
			if !r.tag("C03", known && created, k+"loop", L.pos, "undoing the deletion goes over %v", L.coll) {
				return
			}
			for _, p := range L.paths {
				pm := muts(p.trace)
				r.tag("C03", len(pm) == 1 && match(pm[0], L, p.st, parts), k+"each of "+join(parts), L.pos, "undoing the deletion performs %s for each of the %s in %v", evArgs(pm), join(parts), L.coll)
			}
			last = L
			if L.natural {
				for _, n := range parts {
					done[n] = true
				}
			}
			continue
		}
		failed := c.failed(u.st, e) == 1
		switch {
		case last != nil && !last.natural:
			r.tag("C03", failed, k+"the rest of a loop", e.pos, "undoing performs %s%v after a loop", evName(e), e.args)
			stopped = true
		case e.name == "World.ItemCreate" && !created:
			created = true
			r.tag("C03", same(u.st, e.args[1], c.id), k+"operands", e.pos, "undoing the deletion creates %v", e.args[1])
			d := c.former(u.st, e.args[2], old, false, nil)
			r.tag("C03", d == "", k+"former attributes", e.pos, "undoing the deletion: %s", d)
			stopped = failed
		case e.name == "World.Nest" && created && !placed:
			r.tag("C03", same(u.st, e.args[1], c.id) && same(u.st, e.args[2], parent), k+"place", e.pos, "undoing the deletion nests %v in %v", e.args[1], e.args[2])
			r.tag("C03", u.st.facts.eval(mkEmpty(parent)) == -1, k+"place unless it had none", e.pos, "undoing the deletion nests an item that may have had no parent")
			placed = true
			stopped = failed
		default:
			r.tag("C03", false, k+"inverse", e.pos, "undoing the deletion also performs %s%v", evName(e), e.args)
		}
	}
	if stopped {
		r.tag("C03", errStatus(u.st, u.err) == -1, k+"a failure is reported", u.pos, "undoing the deletion stops without an error")
		return
	}
	r.tag("C03", created, k+"creates", u.pos, "undoing the deletion does not create the item")
	r.tag("C03", placed, k+"place", u.pos, "undoing the deletion does not put the item back where it was")
	for _, n := range []string{"components", "from", "to"} {
		okd := done[n] || u.st.facts.eval(mkEmpty(part[n])) == 1
		r.tag("C03", okd, k+"restores "+n, u.pos, "undoing the deletion does not restore the %s", n)
	}
}

func join(s []string) string {
	out := ""
	for i, x := range s {
		if i > 0 {
			out += "+"
		}
		out += x
	}
	return out
}

func evArgs(us []*Ev) string {
	s := ""
	for _, u := range us {
		s += " " + evName(u)
		for _, a := range u.args {
			s += " " + a.String()
		}
	}
	return cut(s, 300)
}

// undoMoves: what was moved goes back to where it was.
func (ch *chain) undoMoves(k string, ms []*Ev, u *undone, us []*Ev) {
	c, r, o := ch.c, ch.c.r, ch.op
	var E *Loop
	for _, e := range ms {
		if e.kind == "loop" {
			E = e.loop
		}
	}
	if E == nil {
		r.tag("C03", false, k+"known change", ch.pos, "%q does not move items one after the other", o)
		return
	}
	// what has to be recorded
	type rec struct{ item, parent *Term }
	want := map[int]rec{}
	distinct := true
	for i, p := range E.paths {
		pm := muts(p.trace)
		if len(pm) != 1 {
			continue
		}
		if c.failed(p.st, pm[0]) == 1 {
			continue
		}
		var par *Term
		for _, e := range before(p.trace) {
			if e.name == "World.Parent" && same(p.st, e.args[1], pm[0].args[1]) {
				par = mkExtract(e.res, 0, types.Typ[types.String])
			}
		}
		if !r.tag("C03", par != nil, k+"reads the place", pm[0].pos, "%q does not read the parent of an item before it moves it", o) {
			return
		}
		want[i] = rec{pm[0].args[1], par}
		// an item that is named twice has its last move recorded with the new parent
		if o.verb == "nest" {
			distinct = distinct && p.st.facts.eval(mkEq(par, c.to)) == -1
		} else {
			distinct = distinct && p.st.facts.eval(mkEmpty(par)) == -1
		}
	}
	var U *Loop
	for _, e := range us {
		if e.kind == "loop" && U == nil {
			U = e.loop
			continue
		}
		rest := U != nil && !U.natural && e.kind == "call" && c.failed(u.st, e) == 1 && errStatus(u.st, u.err) == -1
		r.tag("C03", rest, k+"inverse", e.pos, "undoing %q performs %s%v", o, evName(e), e.args)
	}
	if U == nil {
		// nothing was moved: the list is known to be empty
		ok := len(want) == 0
		for i := range want {
			ok = ruledOut(u.st, E, E.paths[i])
			if !ok {
				break
			}
		}
		r.tag("C03", ok, k+"moves back", u.pos, "undoing %q does not move the items back", o)
		return
	}
	r.tag("C03", distinct || U.rev, k+"order", U.pos, "undoing %q moves items that may be named twice back in the order in which they were moved", o)
	if !r.tag("C03", U.coll != nil && !U.isMap, k+"over what was moved", U.pos, "undoing %q goes over %v", o, U.coll) {
		return
	}
	got := map[int]bool{}
	for _, part := range seqParts(canonIn(u.st, U.coll)) {
		if !r.tag("C03", part.op == OEach && part.k == E.id, k+"over what was moved", U.pos, "undoing %q goes over %v, which is not what executing it moved", o, part) {
			return
		}
		for i, n := range eachPaths(part) {
			for _, one := range seqParts(part.args[i]) {
				if !r.tag("C03", one.op == OOne, k+"over what was moved", U.pos, "undoing %q goes over %v", o, part) {
					return
				}
				got[n] = true
				w, known := want[n]
				for _, p := range U.paths {
					ch.moveBack(k, U, p, E, one.args[0], w.item, w.parent, known, E.paths[n].st)
				}
			}
		}
	}
	for i := range want {
		r.tag("C03", got[i], k+"records every move", E.pos, "%q moves an item without recording where it was", o)
	}
}

// moveBack checks one iteration of an undo for one kind of recorded move.
func (ch *chain) moveBack(k string, U *Loop, p *LoopPath, E *Loop, val, item, parent *Term, known bool, es *State) {
	c, r, o := ch.c, ch.c.r, ch.op
	// the element that is moved back is the generic one that was moved
	in := func(t *Term) *Term {
		t = subst(t, func(x *Term) *Term {
			if x.op == OElem && x.k == U.id && x.args[0] == U.coll {
				return val
			}
			return nil
		}, map[*Term]*Term{})
		return substLoop(t, U.id, E.id)
	}
	pm := muts(p.trace)
	if !known {
		r.tag("C03", len(pm) == 0, k+"nothing was changed", U.pos, "undoing %q moves an item that was not moved", o)
		return
	}
	// what is known on this path of this kind of move
	st := es.clone()
	feasible := true
	p.facts.each(func(a *Term, v bool) bool {
		if !st.assume(in(a), v) {
			feasible = false
		}
		return feasible
	})
	if !feasible || st.contradiction() {
		return
	}
	if !r.tag("C03", len(pm) == 1 && pm[0].kind == "call", k+"moves back", U.pos, "undoing %q performs %s for an item that was moved", o, evList(pm)) {
		return
	}
	e := pm[0]
	pos := e.pos
	ok := same(st, in(e.args[1]), item)
	switch e.name {
	case "World.Nest":
		ok = ok && same(st, in(e.args[2]), parent) && st.facts.eval(mkEmpty(parent)) == -1
	case "World.Free":
		ok = ok && st.facts.eval(mkEmpty(parent)) == 1
	default:
		ok = false
	}
	r.tag("C03", ok, k+"moves back", pos, "undoing %q performs %s%v for an item %v that was in %v when [%s]", o, evName(e), e.args[1:], item, parent, cut(deltaString(p), 300))
	_ = c
}

// swallowed: every failure of a change that an undo or a command makes reaches its result.
func (c *capp) swallowed(k string, st *State, evs []*Ev, ret *Term, pos token.Pos) {
	r := c.r
	if r.c.id != "C26" {
		return
	}
	status := errStatus(st, ret)
	var rec func(evs []*Ev, L *Loop, p *LoopPath, pst *State)
	rec = func(evs []*Ev, L *Loop, p *LoopPath, pst *State) {
		for _, e := range evs {
			if e.kind == "loop" {
				for _, q := range e.loop.paths {
					rec(q.trace, e.loop, q, q.st)
				}
				continue
			}
			if !isMut(e) || worldKind(e.name) != 'm' {
				continue
			}
			f := c.failed(pst, e)
			if f == 0 && L == nil {
				f = c.failed(st, e)
			}
			ok := f == -1 || status == -1 || contains(ret, c.opErr(e))
			if !ok && L != nil && f == 1 && ruledOut(st, L, p) {
				ok = true // that failure did not happen here
			}
			r.must(ok, k+": failure of "+evName(e), e.pos, "a failure of %s is not reported: the result is %v", evName(e), ret)
		}
	}
	rec(evs, nil, nil, st)
}
