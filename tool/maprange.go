package main

// Going through a map whose keys are known constants (a constant table), or whose keys the loop tells apart by
// comparing them with constants: every such key is a round of its own. That is only done where the order of the rounds
// cannot matter, which is shown from the rounds themselves.

import (
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func (in *Interp) unrollMap(fr *frame, reg *region, nl *natLoop, from *ssa.BasicBlock, p *path) ([]exit, bool) {
	var x *ssa.Next
	for _, i := range nl.header.Instrs {
		if n, ok := i.(*ssa.Next); ok && !n.IsString {
			x = n
		}
	}
	if x == nil {
		return nil, false
	}
	if _, ok := nl.header.Instrs[len(nl.header.Instrs)-1].(*ssa.If); !ok {
		return nil, false
	}
	it := in.value(fr, p, x.Iter)
	if it.op != OTuple || it.s != "range" || it.args[0].op == ONil {
		return nil, false
	}
	c := it.args[0]
	mt, ok := it.typ.Underlying().(*types.Map)
	if !ok {
		return nil, false
	}
	keys := tableKeys(c)
	whole := len(keys) > 0
	if whole {
		for i, j := 0, len(keys)-1; i < j; i, j = i+1, j-1 {
			keys[i], keys[j] = keys[j], keys[i]
		}
	} else {
		keys = comparedKeys(nl, x)
	}
	if len(keys) == 0 || len(keys) > 40 || !whole && len(keys) > 8 {
		return nil, false
	}
	mark := len(in.log)
	fail := func() ([]exit, bool) {
		in.log = in.log[:mark]
		return nil, false
	}
	// one round, from what the head of the loop finds
	round := func(q *path, more, key *Term) ([]exit, bool) {
		t := mk(OTuple, "", 0, nil, more, zeroOf(mt.Key()), zeroOf(mt.Elem()))
		if more == tTrue {
			t = mk(OTuple, "", 0, nil, more, key, in.lookup(q.st, c, key, mt.Elem()))
		}
		r := &region{blocks: nl.blocks, header: nl.header, unroll: true, forced: t}
		es := in.exec(fr, r, nl.header, numPhis(nl.header), q)
		return es, !r.undecided
	}
	n := numPhis(nl.header)
	phi := func(i int) *ssa.Phi { return nl.header.Instrs[i].(*ssa.Phi) }
	baseObj := in.objN
	// what a round changes: header values and fields of objects that were there before
	changes := func(head *path, e *exit) (map[locKey]*Term, bool) {
		out := map[locKey]*Term{}
		k := predIndex(nl.header, e.from)
		for i := 0; i < n; i++ {
			if v := in.value(fr, e.p, phi(i).Edges[k]); v != head.env[phi(i)] {
				out[locKey{nil, phi(i).Name()}] = v
			}
		}
		for root, v := range e.p.st.mem {
			hv, known := head.st.mem[root]
			if !known {
				if (root.op == OPtr || root.op == OMake) && root.k > baseObj {
					continue
				}
				hv = in.initial(head.st, root)
			}
			if v == hv {
				continue
			}
			fs, ok := diffFields(hv, v)
			if !ok {
				return nil, false
			}
			for _, f := range fs {
				out[locKey{root, f}] = mkField(v, f, fieldType(ptrElem(root.typ), f))
			}
		}
		return out, true
	}
	start := p.clone()
	in.phis(fr, from, nl.header, start)
	// every round for itself
	owner := map[locKey]*Term{}
	var leaves [][]exit
	updates := false
	probe := func(head *path, k *Term, first bool) bool {
		q := head.clone()
		if !whole && !q.st.assume(mkLookupOk(c, k), true) {
			return true
		}
		base := len(q.st.trace)
		facts := q.st.facts
		es, ok := round(q, tTrue, k)
		if !ok || len(es) > 32 {
			return false
		}
		var out []exit
		for i := range es {
			e := &es[i]
			if e.kind != 3 {
				if len(e.p.st.trace) != base && first {
					return false
				}
				out = append(out, *e)
				continue
			}
			if len(e.p.st.trace) != base {
				return false
			}
			ch, ok := changes(head, e)
			if !ok {
				return false
			}
			for l, v := range ch {
				if first {
					updates = true
					if o := owner[l]; o != nil && o != k {
						return false // two rounds change the same
					}
					owner[l] = k
				} else if anyTerm(v, func(y *Term) bool { return y.op == OLV && y.s == "probe" }) {
					return false // what a round stores depends on what another stored
				}
			}
			if !first {
				for _, f := range e.p.st.facts.since(facts) {
					if anyTerm(f.atom, func(y *Term) bool { return y.op == OLV && y.s == "probe" }) {
						return false // which way a round takes depends on what another stored
					}
				}
			}
		}
		if first {
			leaves = append(leaves, out)
		}
		return true
	}
	for _, k := range keys {
		if !probe(start, k, true) {
			return fail()
		}
	}
	anyLeaves := false
	for i := range leaves {
		anyLeaves = anyLeaves || len(leaves[i]) > 0
		for j := range leaves[:i] {
			for a := range leaves[i] {
				for b := range leaves[j] {
					// two rounds that both leave the loop must exclude each other
					st := leaves[i][a].p.st.clone()
					both := true
					ds := leaves[j][b].p.st.facts.since(start.st.facts)
					for d := len(ds) - 1; d >= 0; d-- {
						if both = st.assume(ds[d].atom, ds[d].val); !both {
							break
						}
					}
					if both {
						return fail()
					}
				}
			}
		}
	}
	if anyLeaves && updates {
		return fail()
	}
	if updates {
		// again, with everything that rounds change unknown
		s := start.clone()
		for l := range owner {
			if l.root == nil {
				for i := 0; i < n; i++ {
					if phi(i).Name() == l.field {
						s.env[phi(i)] = mk(OLV, "probe", -1-i, phi(i).Type())
					}
				}
				continue
			}
			lv := mk(OLV, "probe", -100-l.root.id, fieldType(ptrElem(l.root.typ), l.field))
			s.st.mem[l.root] = mkWith(in.content(s.st, l.root), l.field, lv)
		}
		for _, k := range keys {
			if !probe(s, k, false) {
				return fail()
			}
		}
	}
	if !whole {
		// any other key changes nothing
		q := start.clone()
		other := mk(OSym, "·other"+x.Name(), 0, mt.Key())
		for _, k := range keys {
			q.st.assume(mkEq(other, k), false)
		}
		q.st.assume(mkLookupOk(c, other), true)
		base := len(q.st.trace)
		es, ok := round(q, tTrue, other)
		if !ok {
			return fail()
		}
		for i := range es {
			if es[i].kind != 3 || len(es[i].p.st.trace) != base {
				return fail()
			}
			if ch, ok := changes(start, &es[i]); !ok || len(ch) > 0 {
				return fail()
			}
		}
	}
	in.log = in.log[:mark]
	// one round after another
	cur := []*path{start}
	var done []exit
	for _, k := range keys {
		var next []*path
		for _, q := range cur {
			if !whole {
				miss := q.clone()
				if miss.st.assume(mkLookupOk(c, k), false) {
					next = append(next, miss)
				}
				if !q.st.assume(mkLookupOk(c, k), true) {
					continue
				}
			}
			es, ok := round(q, tTrue, k)
			if !ok {
				return fail()
			}
			for i := range es {
				if es[i].kind != 3 {
					done = append(done, es[i])
					continue
				}
				in.phis(fr, es[i].from, nl.header, es[i].p)
				next = append(next, es[i].p)
			}
		}
		cur = next
		if len(cur) > 300 {
			return fail()
		}
	}
	for _, q := range cur {
		es, ok := round(q, tFalse, nil)
		if !ok {
			return fail()
		}
		done = append(done, es...)
	}
	var outs []exit
	for _, e := range done {
		if e.kind == 2 {
			outs = append(outs, in.enter(fr, reg, e.from, e.to, e.p)...)
		} else {
			outs = append(outs, e)
		}
	}
	return outs, true
}

// comparedKeys are the constants that a loop compares the key of the round with.
func comparedKeys(nl *natLoop, x *ssa.Next) []*Term {
	set := map[*Term]bool{}
	var key ssa.Value
	for _, u := range *x.Referrers() {
		if e, ok := u.(*ssa.Extract); ok && e.Index == 1 {
			key = e
		}
	}
	if key == nil {
		return nil
	}
	for b := range nl.blocks {
		for _, i := range b.Instrs {
			o, ok := i.(*ssa.BinOp)
			if !ok || o.Op != token.EQL && o.Op != token.NEQ {
				continue
			}
			k := o.Y
			if o.Y == key {
				k = o.X
			} else if o.X != key {
				continue
			}
			if c, ok := k.(*ssa.Const); ok && c.Value != nil {
				set[constTerm(c)] = true
			}
		}
	}
	var out []*Term
	for k := range set {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].s < out[j].s })
	return out
}
