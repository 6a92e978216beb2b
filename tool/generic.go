package main

// What a map or list has become, told entry by entry: the content is evaluated at a generic key.

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
)

// mcase is one case of the evaluation of a map at a key, or of a list at the entry it takes from that key.
type mcase struct {
	st      *State
	present bool
	val     *Term
}

// entry evaluates contents at the generic key K.
type entry struct {
	K   *Term
	rew func(st *State, t *Term) *Term // invariants of the data, as rewriting
	why string
}

func (e *entry) fail(f string, a ...any) []mcase {
	if e.why == "" {
		e.why = fmt.Sprintf(f, a...)
	}
	return nil
}

func (e *entry) norm(st *State, t *Term) *Term {
	if e.rew == nil {
		return t
	}
	return e.rew(st, t)
}

// split gives the states in which c holds and does not hold.
func (e *entry) split(st *State, c *Term) (yes, no *State) {
	c = e.norm(st, c)
	switch st.facts.eval(c) {
	case 1:
		return st, nil
	case -1:
		return nil, st
	}
	y, n := st.clone(), st.clone()
	if !y.assume(c, true) || y.contradiction() {
		y = nil
	}
	if !n.assume(c, false) || n.contradiction() {
		n = nil
	}
	return y, n
}

// at evaluates the map content m.
func (e *entry) at(m *Term, st *State) []mcase {
	if e.why != "" {
		return nil
	}
	switch m.op {
	case OCopy, OClip:
		return e.at(m.args[0], st)
	case ONil:
		return []mcase{{st, false, nil}}
	case OMPut, OMDel:
		y, n := e.split(st, mkEq(m.args[1], e.K))
		var out []mcase
		if y != nil {
			if m.op == OMPut {
				out = append(out, mcase{y, true, m.args[2]})
			} else {
				out = append(out, mcase{y, false, nil})
			}
		}
		if n != nil {
			out = append(out, e.at(m.args[0], n)...)
		}
		return out
	case OFold:
		return e.fold(m, st)
	case OC0, OSym, OField, OLookup, OCall, OExtract:
		if m.op == OCall && m.s == "zeroSeq" {
			break
		}
		y, n := e.split(st, mkLookupOk(m, e.K))
		var out []mcase
		if y != nil {
			out = append(out, mcase{y, true, mkLookup(m, e.K, mapElem(m.typ))})
		}
		if n != nil {
			out = append(out, mcase{n, false, nil})
		}
		return out
	}
	return e.fail("the content %v is not understood", m)
}

func mapElem(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if m, ok := t.Underlying().(*types.Map); ok {
		return m.Elem()
	}
	return nil
}

// visits tells in which cases the loop has an iteration for the key; val is the element it runs over.
func (e *entry) visits(L *Loop, st *State) []mcase {
	c := L.coll
	if c == nil {
		return e.fail("the loop at %v has no collection", L.fn)
	}
	if L.isMap {
		return e.at(c, st)
	}
	return e.list(c, st)
}

// inIteration rewrites a term of the body of L to the iteration for the key.
func (e *entry) inIteration(L *Loop, elem *Term, t *Term) *Term {
	return subst(t, func(x *Term) *Term {
		if x.k != L.id {
			return nil
		}
		switch x.op {
		case OKey:
			return e.K
		case OElem:
			if x.args[0] == L.coll || strip(x.args[0]) == strip(L.coll) {
				return elem
			}
		}
		return nil
	}, map[*Term]*Term{})
}

// assumePath adds the facts of a path through the body.
func (e *entry) assumePath(L *Loop, lp *LoopPath, elem *Term, st *State, more func(*Term) *Term) *State {
	s := st.clone()
	var fs []*Facts
	lp.facts.each2(func(f *Facts) { fs = append(fs, f) })
	for i := len(fs) - 1; i >= 0; i-- {
		if fs[i].atom.op == OMore {
			continue
		}
		a := e.inIteration(L, elem, fs[i].atom)
		if more != nil {
			a = more(a)
		}
		if anyTerm(a, func(x *Term) bool { return x.op == ON && x.k == L.id || x.op == OLV && x.k == L.id }) {
			continue
		}
		if !s.assume(e.norm(s, a), fs[i].val) {
			return nil
		}
	}
	if s.contradiction() {
		return nil
	}
	return s
}

func (e *entry) fold(m *Term, st *State) []mcase {
	if strings.HasPrefix(m.s, "part:") {
		return e.fail("the loop may stop before the last entry")
	}
	L := loops[m.k]
	if L == nil || len(m.args)-1 != len(L.paths) {
		return e.fail("the loop behind %v is not known", m)
	}
	var out []mcase
	for _, ic := range e.at(m.args[0], st) {
		for _, v := range e.visits(L, ic.st) {
			if !v.present {
				out = append(out, mcase{v.st, ic.present, ic.val})
				continue
			}
			for i, lp := range L.paths {
				u := m.args[i+1]
				lv := u
				for lv.op == OMPut || lv.op == OMDel {
					lv = lv.args[0]
				}
				own := func(t *Term) *Term {
					return subst(t, func(x *Term) *Term {
						if (x.op == OLookup || x.op == OLookupOk) && x.args[0] == lv && x.args[1] == e.K {
							if x.op == OLookupOk {
								return cBool(ic.present)
							}
							if ic.present {
								return ic.val
							}
						}
						return nil
					}, map[*Term]*Term{})
				}
				s := e.assumePath(L, lp, v.val, v.st, own)
				if s == nil {
					continue
				}
				out = append(out, e.chain(L, u, v.val, ic, s, own)...)
			}
		}
	}
	return out
}

func (e *entry) chain(L *Loop, u, elem *Term, ic mcase, st *State, own func(*Term) *Term) []mcase {
	switch u.op {
	case OLV:
		return []mcase{{st, ic.present, ic.val}}
	case OMPut, OMDel:
		k := e.norm(st, own(e.inIteration(L, elem, u.args[1])))
		if k != e.K && st.facts.eval(mkEq(k, e.K)) != 1 {
			return e.fail("an iteration updates the entry %v of another key", u.args[1])
		}
		if u.op == OMDel {
			return []mcase{{st, false, nil}}
		}
		return []mcase{{st, true, own(e.inIteration(L, elem, u.args[2]))}}
	}
	return e.fail("the update %v is not understood", u)
}

// list evaluates a list at the key: whether an element comes from it, and which.
func (e *entry) list(t *Term, st *State) []mcase {
	if e.why != "" {
		return nil
	}
	switch t.op {
	case OCopy, OClip:
		return e.list(t.args[0], st)
	case ONil:
		return []mcase{{st, false, nil}}
	case OCall:
		if t.s == "keys" {
			var out []mcase
			for _, c := range e.at(t.args[0], st) {
				c.val = e.K
				out = append(out, c)
			}
			return out
		}
	case OSeq:
		cur := []mcase{{st, false, nil}}
		for _, p := range t.args {
			var next []mcase
			for _, c := range cur {
				for _, d := range e.part(p, c.st) {
					if c.present && d.present {
						return e.fail("an entry is listed twice")
					}
					if c.present {
						d.present, d.val = true, c.val
					}
					next = append(next, d)
				}
			}
			cur = next
		}
		return cur
	}
	return e.part(t, st)
}

func (e *entry) part(p *Term, st *State) []mcase {
	if e.why != "" {
		return nil
	}
	switch p.op {
	case OOne:
		x := p.args[0]
		if x.op == OLookup {
			y, n := e.split(st, mkEq(x.args[1], e.K))
			var out []mcase
			if y != nil {
				out = append(out, mcase{y, true, x})
			}
			if n != nil {
				out = append(out, mcase{n, false, nil})
			}
			return out
		}
		return e.fail("the element %v is not taken from an entry", x)
	case OEach:
		L := loops[p.k]
		if L == nil {
			return e.fail("the loop behind %v is not known", p)
		}
		inc := map[int]*Term{}
		for i, s := range strings.Split(p.s, ",") {
			n, _ := strconv.Atoi(s)
			inc[n] = p.args[i]
		}
		var out []mcase
		for _, v := range e.visits(L, st) {
			if !v.present {
				out = append(out, v)
				continue
			}
			for i, lp := range L.paths {
				s := e.assumePath(L, lp, v.val, v.st, nil)
				if s == nil {
					continue
				}
				q := inc[i]
				if q == nil {
					out = append(out, mcase{s, false, nil})
					continue
				}
				if q.op != OSeq || len(q.args) != 1 || q.args[0].op != OOne {
					return e.fail("an iteration lists %v", q)
				}
				out = append(out, mcase{s, true, e.inIteration(L, v.val, q.args[0].args[0])})
			}
		}
		return out
	}
	if p.op == OSeq || p.op == ONil || p.op == OCall && p.s == "keys" {
		return e.list(p, st)
	}
	return e.fail("the list %v is not understood", p)
}
