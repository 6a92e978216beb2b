package main

// Loop summaries: one generic iteration from a header state in which everything that the loop
// changes is unknown; then what happened to it is written back as accumulations and folds.

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type natLoop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

// naturalLoops finds the natural loops of fn by their back edges.
func naturalLoops(fn *ssa.Function) map[*ssa.BasicBlock]*natLoop {
	out := map[*ssa.BasicBlock]*natLoop{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				continue
			}
			nl := out[s]
			if nl == nil {
				nl = &natLoop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
				out[s] = nl
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if nl.blocks[x] {
					continue
				}
				nl.blocks[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	return out
}

func (in *Interp) loop(fr *frame, reg *region, nl *natLoop, from *ssa.BasicBlock, p *path) []exit {
	if outs, ok := in.unroll(fr, reg, nl, from, p); ok {
		return outs
	}
	if outs, ok := in.unrollMap(fr, reg, nl, from, p); ok {
		return outs
	}
	n := numPhis(nl.header)
	b := &loopBody{fr: fr, fn: fr.fn, pos: headerPos(nl)}
	k := predIndex(nl.header, from)
	var outs []exit
	g := guardOf(nl)
	quiet := &region{blocks: nl.blocks, header: nl.header}
	if g != nil {
		q := p.clone()
		in.phis(fr, from, nl.header, q)
		c := g.look(in, fr, quiet, q)
		if in.eval(p.st, c) != 1 {
			if q.st.assume(c, false) {
				outs = append(outs, in.enter(fr, reg, g.test.Block(), g.exit, q)...)
			}
			if !p.st.assume(c, true) {
				return outs
			}
		}
	}
	for i := 0; i < n; i++ {
		phi := nl.header.Instrs[i].(*ssa.Phi)
		b.phis = append(b.phis, phi)
		b.init = append(b.init, in.val(p.st, in.value(fr, p, phi.Edges[k])))
	}
	b.run = func(q *path, L *Loop) []exit {
		r := &region{blocks: nl.blocks, header: nl.header, loop: L}
		if g == nil {
			return in.exec(fr, r, nl.header, n, q)
		}
		if !q.st.assume(g.look(in, fr, quiet, q.clone()), true) {
			return nil
		}
		var es []exit
		for _, e := range in.exec(fr, r, nl.header, n, q) {
			if e.kind != 3 {
				es = append(es, e)
				continue
			}
			q := e.p.clone()
			in.phis(fr, e.from, nl.header, q)
			c := g.look(in, fr, quiet, q)
			if in.eval(q.st, c) != 1 && q.st.assume(c, false) {
				es = append(es, exit{p: q, kind: 2, from: g.test.Block(), to: g.exit, pos: g.test.Pos()})
			}
			if e.p.st.assume(c, true) {
				es = append(es, e)
			}
		}
		return es
	}
	b.upd = func(e *exit, i int) *Term {
		return in.value(fr, e.p, b.phis[i].Edges[predIndex(nl.header, e.from)])
	}
	b.natural = func(e *exit) bool {
		if g != nil {
			return e.from == g.count
		}
		return e.from == nl.header
	}
	for _, e := range in.summarise(b, p) {
		if e.kind == 2 {
			outs = append(outs, in.enter(fr, reg, e.from, e.to, e.p)...)
		} else {
			outs = append(outs, e)
		}
	}
	return outs
}

func headerPos(nl *natLoop) token.Pos {
	for _, i := range nl.header.Instrs {
		if i.Pos() != token.NoPos {
			return i.Pos()
		}
	}
	for b := range nl.blocks {
		for _, i := range b.Instrs {
			if i.Pos() != token.NoPos {
				return i.Pos()
			}
		}
	}
	return token.NoPos
}

// unroll runs a loop whose head is decided on every iteration.
func (in *Interp) unroll(fr *frame, reg *region, nl *natLoop, from *ssa.BasicBlock, p *path) ([]exit, bool) {
	type edge struct {
		from *ssa.BasicBlock
		p    *path
	}
	if _, ok := nl.header.Instrs[len(nl.header.Instrs)-1].(*ssa.If); !ok {
		return nil, false
	}
	mark := len(in.log)
	cur := []edge{{from, p.clone()}}
	var done []exit
	for it := 0; len(cur) > 0; it++ {
		if it > max(12, in.pol.iterations) || len(cur) > 128 {
			in.log = in.log[:mark]
			return nil, false
		}
		var next []edge
		for _, e := range cur {
			in.phis(fr, e.from, nl.header, e.p)
			r := &region{blocks: nl.blocks, header: nl.header, unroll: true}
			es := in.exec(fr, r, nl.header, numPhis(nl.header), e.p)
			if r.undecided {
				in.log = in.log[:mark]
				return nil, false
			}
			for _, x := range es {
				if x.kind == 3 {
					next = append(next, edge{x.from, x.p})
				} else {
					done = append(done, x)
				}
			}
		}
		cur = next
	}
	var outs []exit
	for _, e := range done {
		if e.kind == 2 {
			outs = append(outs, in.enter(fr, reg, e.from, e.to, e.p)...)
		} else {
			outs = append(outs, e)
		}
	}
	return outs, true
}

type loopBody struct {
	fr      *frame
	fn      *ssa.Function
	pos     token.Pos
	phis    []*ssa.Phi
	init    []*Term
	run     func(q *path, L *Loop) []exit
	upd     func(e *exit, i int) *Term
	natural func(e *exit) bool
}

type locKey struct {
	root  *Term
	field string
}

type lvar struct {
	name string
	phi  *ssa.Phi
	i    int
	loc  locKey
	typ  types.Type
	init *Term
	lv   *Term
	cur  *Term // value at the head
	mode int   // 0 unknown, 1 invariant, 2 induction
	step int64
	bad  bool
	upds []*Term
}

func (in *Interp) summarise(b *loopBody, p *path) []exit {
	loopN++
	L := &Loop{id: loopN, fn: b.fn, pos: b.pos}
	loops[L.id] = L
	N := mk(ON, "", L.id, types.Typ[types.Int])
	var vars []*lvar
	locs := map[locKey]*lvar{}
	for i, phi := range b.phis {
		name := phi.Comment
		if name == "" {
			name = phi.Name()
		}
		v := &lvar{name: name, phi: phi, i: i, init: b.init[i], typ: phi.Type()}
		v.lv = mk(OLV, "p:"+phi.Name(), L.id, phi.Type())
		v.cur = v.lv
		vars = append(vars, v)
	}
	baseObj := in.objN
	var backs, outs []exit
	var head *path
	mark := len(in.log)
	for round := 0; ; round++ {
		in.log = in.log[:mark] // what earlier rounds assumed does not count
		if round > 14 {
			panic(Undecided{"loop in " + b.fn.String() + " does not stabilise"})
		}
		q := p.clone()
		for _, v := range vars {
			if v.phi != nil {
				q.env[v.phi] = v.cur
			} else if v.loc.field == "" {
				q.st.mem[v.loc.root] = v.cur
			} else {
				q.st.mem[v.loc.root] = mkWith(in.content(q.st, v.loc.root), v.loc.field, v.cur)
			}
		}
		head = q.clone()
		L.coll, L.isMap, L.bound, L.paths = nil, false, nil, nil
		es := b.run(q, L)
		backs, outs = nil, nil
		for _, e := range es {
			if e.kind == 3 {
				backs = append(backs, e)
			} else {
				outs = append(outs, e)
			}
		}
		// what does an iteration change?
		changed := false
		for i := range backs {
			e := &backs[i]
			for root, c := range e.p.st.mem {
				hc, known := head.st.mem[root]
				if !known {
					if (root.op == OPtr || root.op == OMake) && root.k > baseObj {
						continue
					}
					if mentionsLoop(root, L.id) {
						continue
					}
					hc = in.initial(head.st, root)
				}
				if c == hc {
					continue
				}
				fs, ok := diffFields(hc, c)
				if !ok {
					fs = []string{""}
				}
				for _, f := range fs {
					key := locKey{root, f}
					if locs[key] != nil || locs[locKey{root, ""}] != nil {
						continue
					}
					var init *Term
					var typ types.Type
					if f == "" {
						init = hc
						if pi, ok := p.st.mem[root]; ok {
							init = pi
						}
						typ = ptrElem(root.typ)
						if root.op == OMake {
							typ = root.typ
						}
					} else {
						base := hc
						if pi, ok := p.st.mem[root]; ok {
							base = pi
						}
						typ = fieldType(ptrElem(root.typ), f)
						init = mkField(base, f, typ)
					}
					v := &lvar{name: locLabel(root, f), loc: key, init: init, typ: typ}
					v.lv = mk(OLV, fmt.Sprintf("m:%d.%s", root.id, f), L.id, typ)
					v.cur = v.lv
					locs[key] = v
					vars = append(vars, v)
					changed = true
				}
				if !ok {
					// the whole object is unknown: forget its fields
					var keep []*lvar
					for _, v := range vars {
						if v.phi == nil && v.loc.root == root && v.loc.field != "" {
							delete(locs, v.loc)
							continue
						}
						keep = append(keep, v)
					}
					vars = keep
				}
			}
		}
		if changed {
			continue
		}
		// collect the updates
		for _, v := range vars {
			v.upds = nil
			for i := range backs {
				e := &backs[i]
				v.upds = append(v.upds, in.updateOf(b, v, e))
			}
		}
		// check what was assumed, and look for invariants and inductions
		for _, v := range vars {
			switch v.mode {
			case 1:
				for _, u := range v.upds {
					if u != v.cur {
						v.bad = true
					}
				}
			case 2:
				for _, u := range v.upds {
					if u != addc(v.cur, v.step) {
						v.bad = true
					}
				}
			}
			if v.bad && v.mode != 0 {
				v.mode, v.cur = 0, v.lv
				changed = true
			}
		}
		if changed {
			continue
		}
		for _, v := range vars {
			if v.mode != 0 || v.bad || len(v.upds) == 0 {
				continue
			}
			inv := true
			for _, u := range v.upds {
				if u != v.lv {
					inv = false
				}
			}
			if inv && v.phi != nil {
				v.mode, v.cur = 1, v.init
				changed = true
				continue
			}
			if isIntType(v.typ) {
				l := linAdd(linOf(v.upds[0]), linOf(v.lv), -1)
				if len(l.vars()) == 0 && l.c != 0 {
					same := true
					for _, u := range v.upds {
						if u != addc(v.lv, l.c) {
							same = false
						}
					}
					if same {
						v.mode, v.step = 2, l.c
						v.cur = linAdd(linOf(v.init), linOf(N), l.c).term()
						changed = true
						continue
					}
				}
			}
			// a list that grows by the same number of elements on every iteration
			if lvLen[v.lv] == nil {
				n := int64(-1)
				for _, u := range v.upds {
					k := grows(u, v.lv)
					if n >= 0 && k != n {
						k = -1
					}
					n = k
					if k < 0 {
						break
					}
				}
				if n > 0 {
					lvLen[v.lv] = linAdd(linOf(mkLen(v.init)), linOf(N), n).term()
					changed = true
				}
			}
			// updates of a map at the key of the iteration only
			if v.phi == nil && lvInit[v.lv] == nil {
				var key *Term
				ok := true
				for _, u := range v.upds {
					for u != v.lv {
						if (u.op != OMPut && u.op != OMDel) || (key != nil && u.args[1] != key) {
							ok = false
							break
						}
						key = u.args[1]
						u = u.args[0]
					}
				}
				if ok && key != nil && distinctIn(key, L.id) {
					lvInit[v.lv] = &lvKey{v.init, key}
					changed = true
				}
			}
		}
		if !changed {
			break
		}
	}
	for i := range backs {
		e := &backs[i]
		lp := &LoopPath{facts: deltaFacts(e.p.st.facts, p.st.facts), trace: e.p.st.trace[len(p.st.trace):], upd: map[string]*Term{}, st: e.p.st}
		for _, v := range vars {
			if v.mode != 1 {
				lp.upd[v.name] = v.upds[i]
			}
		}
		L.paths = append(L.paths, lp)
	}
	var res []exit
	for i := range outs {
		e := outs[i]
		nat := e.kind == 2 && b.natural(&e)
		if !nat {
			L.exits++
		}
		L2 := *L
		L2.natural = nat
		if in.leave(b, L, &L2, vars, N, p, &e, nat) {
			res = append(res, e)
		}
	}
	return res
}

// initial is the content that root has before anything is written to it.
func (in *Interp) initial(st *State, root *Term) *Term {
	if root.typ != nil {
		switch root.typ.Underlying().(type) {
		case *types.Pointer:
			return in.content(st, root)
		}
	}
	if root.op == OEpoch {
		return root
	}
	return in.mapContent(st, root)
}

func locLabel(root *Term, f string) string {
	s := root.String()
	if f != "" {
		s += "." + f
	}
	return s
}

func isIntType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

var lvLen = map[*Term]*Term{}

// grows tells how many elements u has more than the list lv, or -1.
func grows(u, lv *Term) int64 {
	if u.op != OSeq || len(u.args) < 2 || strip(u.args[0]) != lv {
		return -1
	}
	for _, p := range u.args[1:] {
		if p.op != OOne {
			return -1
		}
	}
	return int64(len(u.args) - 1)
}

type lvKey struct{ init, key *Term }

var lvInit = map[*Term]*lvKey{}

// distinctIn reports whether key has a different value on every iteration of loop L.
func distinctIn(key *Term, L int) bool {
	switch key.op {
	case ON:
		return key.k == L
	case OKey:
		return key.k == L
	}
	return false
}

func mentionsLoop(t *Term, L int) bool {
	return anyTerm(t, func(x *Term) bool {
		return x.k == L && (x.op == ON || x.op == OKey || x.op == OElem || x.op == OLV)
	})
}

func (in *Interp) updateOf(b *loopBody, v *lvar, e *exit) *Term {
	st := e.p.st
	if v.phi != nil {
		return in.snap(st, in.val(st, b.upd(e, v.i)), 0)
	}
	c := st.mem[v.loc.root]
	if v.loc.field != "" {
		c = mkField(c, v.loc.field, v.typ)
	}
	if c.op == OMPut || c.op == OMDel {
		return in.snapMap(st, c)
	}
	return in.snap(st, in.val(st, c), 0)
}

func (in *Interp) snapMap(st *State, c *Term) *Term {
	if c.op == OMPut {
		return mk(OMPut, "", 0, nil, in.snapMap(st, c.args[0]), in.snap(st, c.args[1], 0), in.snap(st, c.args[2], 0))
	}
	if c.op == OMDel {
		return mk(OMDel, "", 0, nil, in.snapMap(st, c.args[0]), in.snap(st, c.args[1], 0))
	}
	return c
}

func deltaFacts(f, base *Facts) *Facts {
	var out *Facts
	d := f.since(base)
	for i := len(d) - 1; i >= 0; i-- {
		out = out.with(d[i].atom, d[i].val)
	}
	return out
}

// diffFields names the fields in which two versions of a struct differ.
func diffFields(a, b *Term) ([]string, bool) {
	base := func(t *Term) *Term {
		if t.op == OWith {
			return t.args[0]
		}
		return t
	}
	if base(a) != base(b) {
		return nil, false
	}
	if a.op != OWith && b.op != OWith {
		return nil, false
	}
	set := map[string]bool{}
	var out []string
	for _, t := range []*Term{a, b} {
		if t.op != OWith {
			continue
		}
		for _, f := range strings.Split(t.s, ",") {
			if !set[f] {
				set[f] = true
				ft := t.args[0].typ
				if mkField(a, f, fieldType(ft, f)) != mkField(b, f, fieldType(ft, f)) {
					out = append(out, f)
				}
			}
		}
	}
	return out, len(out) > 0
}

// leave rewrites the state of an exit: loop variables become what the loop made of them.
func (in *Interp) leave(b *loopBody, L, ev *Loop, vars []*lvar, N *Term, p *path, e *exit, nat bool) bool {
	res := map[*Term]*Term{}
	for _, v := range vars {
		res[v.lv] = in.resolve(L, v, nat)
	}
	lenColl := (*Term)(nil)
	if nat && L.coll != nil && !L.isMap {
		lenColl = mkLen(L.coll)
	}
	if nat && L.bound != nil {
		lenColl = nil
		if p.st.facts.eval(mkLe0(linAdd(lin{}, linOf(L.bound), -1))) == 1 {
			lenColl = L.bound
		}
	}
	if !in.lastRound(L, p.st, e.p.st, N) {
		return false
	}
	if lenColl == nil && !nat {
		lenColl = rounds(L, e.p.st, N)
	}
	memo := map[*Term]*Term{}
	var rep func(x *Term) *Term
	rep = func(x *Term) *Term {
		if x.op == OLV && x.k == L.id {
			if r, ok := res[x]; ok {
				if !nat && lenColl != nil {
					return subst(r, func(y *Term) *Term {
						if y == N {
							return lenColl
						}
						if y.op == OFold || y.op == OEach || y.op == OEachS {
							return y
						}
						return nil
					}, map[*Term]*Term{})
				}
				return r
			}
		}
		if x == N && lenColl != nil {
			return lenColl
		}
		if x.op == OFold && x.k == L.id || x.op == OEach && x.k == L.id || x.op == OEachS && x.k == L.id {
			return x
		}
		return nil
	}
	sub := func(t *Term) *Term {
		if t == nil {
			return nil
		}
		return subst(t, rep, memo)
	}
	for k, v := range e.p.env {
		e.p.env[k] = sub(v)
	}
	for k, v := range e.p.st.mem {
		if root := k; (root.op == OPtr || root.op == OMake) || p.st.mem[k] != v {
			e.p.st.mem[k] = sub(v)
		}
	}
	for _, v := range vars {
		// slices filled by index
		if v.phi == nil && v.loc.root.op == OMake && isSliceT(v.loc.root.typ) && nat {
			if s := filled(L, v); s != nil {
				e.p.st.mem[v.loc.root] = s
			}
		}
	}
	for i := range e.rets {
		e.rets[i] = sub(e.rets[i])
	}
	for i := range e.p.defers {
		d := &e.p.defers[i]
		if d.fn != nil {
			d.fn = sub(d.fn)
		}
		for j := range d.args {
			d.args[j] = sub(d.args[j])
		}
	}
	// facts
	delta := e.p.st.facts.since(p.st.facts)
	e.p.st.facts = p.st.facts
	for i := len(delta) - 1; i >= 0; i-- {
		a := sub(delta[i].atom)
		if !e.p.st.assume(a, delta[i].val) {
			return false
		}
	}
	if L.coll != nil && !L.isMap {
		in.searched(L, e.p.st, delta, nat)
	}
	// trace
	tr := e.p.st.trace[len(p.st.trace):]
	nt := append([]*Ev{}, p.st.trace...)
	nt = append(nt, &Ev{kind: "loop", loop: ev, pos: L.pos, fn: b.fn, facts: p.st.facts})
	for _, x := range tr {
		nt = append(nt, substEv(x, sub))
	}
	e.p.st.trace = nt
	return true
}

// lastRound adds what the round before the last one established about its number: a condition on the counter that
// every completed round satisfied holds for the round before, if there was one, and is added if it holds for none too.
func (in *Interp) lastRound(L *Loop, before, st *State, N *Term) bool {
	if len(L.paths) == 0 {
		return true
	}
	var common [][]lin
	for _, lp := range L.paths {
		common = append(common, lp.facts.lins())
	}
	for _, l := range common[0] {
		k := l.m[N]
		if k == 0 {
			continue
		}
		rest := false
		for v := range l.m {
			rest = rest || v != N && l.m[v] != 0 && mentionsLoop(v, L.id)
		}
		if rest {
			continue
		}
		for _, ls := range common[1:] {
			found := false
			for _, m := range ls {
				found = found || linAdd(m, l, -1).term() == cInt(0)
			}
			rest = rest || !found
		}
		if rest {
			continue
		}
		// the same for the round before
		prev := linAdd(l, lin{c: -k, m: map[*Term]int64{}}, 1)
		none := linAdd(prev, linOf(N), -k)
		if before.facts.evalLin(none) != 1 {
			continue
		}
		if !st.assume(mkLe0(prev), true) {
			return false
		}
	}
	return true
}

// rounds is the number of completed rounds where the conditions determine it.
func rounds(L *Loop, st *State, N *Term) *Term {
	for _, l := range st.facts.lins() {
		if l.m[N] != 1 && l.m[N] != -1 {
			continue
		}
		val := linAdd(l, linOf(N), -l.m[N])
		if l.m[N] == 1 {
			val = val.neg()
		}
		if t := val.term(); !mentionsLoop(t, L.id) && st.facts.evalLin(l.neg()) == 1 {
			return t
		}
	}
	return nil
}

// searched turns what a search through a list has found into membership in the list.
func (in *Interp) searched(L *Loop, st *State, delta []*Facts, nat bool) {
	coll := strip(L.coll)
	sought := func(f *Facts, v bool) *Term {
		if f.val != v || f.atom.op != OEq {
			return nil
		}
		a, b := f.atom.args[0], f.atom.args[1]
		if b.op == OElem && b.k == L.id {
			a, b = b, a
		}
		if a.op != OElem || a.k != L.id || a.args[0] != coll || mentionsLoop(b, L.id) {
			return nil
		}
		return b
	}
	if !nat {
		for _, f := range delta {
			if x := sought(f, true); x != nil {
				st.assume(mkContains(coll, x), true)
			}
		}
		return
	}
	if len(L.paths) == 0 {
		return
	}
	L.paths[0].facts.each2(func(f *Facts) {
		x := sought(f, false)
		if x == nil {
			return
		}
		for _, lp := range L.paths[1:] {
			ok := false
			lp.facts.each2(func(g *Facts) { ok = ok || sought(g, false) == x })
			if !ok {
				return
			}
		}
		st.assume(mkContains(coll, x), false)
	})
}

func substEv(x *Ev, sub func(*Term) *Term) *Ev {
	y := *x
	y.args = make([]*Term, len(x.args))
	for i, a := range x.args {
		y.args[i] = sub(a)
	}
	y.raw = make([]*Term, len(x.raw))
	for i, a := range x.raw {
		y.raw[i] = sub(a)
	}
	if x.res != nil {
		y.res = sub(x.res)
	}
	return &y
}

// filled recognises make([]T, len(coll)) with every element set.
func filled(L *Loop, v *lvar) *Term {
	if v.init.op != OCall || v.init.s != "zeroSeq" || len(v.init.args) > 1 || L.coll == nil || v.init.args[0] != mkLen(L.coll) || len(v.upds) == 0 {
		return nil
	}
	var parts []*Term
	var ps []string
	for i, u := range v.upds {
		if u.op != OMPut || u.args[0] != v.lv || u.args[1].op != ON || u.args[1].k != L.id {
			return nil
		}
		parts = append(parts, mk(OSeq, "", 0, nil, mkOne(u.args[2])))
		ps = append(ps, strconv.Itoa(i))
	}
	return mkSeq(mkEach(L, ps, parts))
}

// mkEach builds the accumulation of parts over a loop, or the collection itself for a copy of it.
func mkEach(L *Loop, ps []string, parts []*Term) *Term {
	if len(parts) == len(L.paths0()) || true {
		same := true
		for _, x := range parts {
			if x != parts[0] {
				same = false
			}
		}
		if same && len(parts) == L.nPaths && len(parts[0].args) == 1 && parts[0].args[0].op == OOne && !L.rev {
			x := parts[0].args[0].args[0]
			if x.op == OElem && x.k == L.id && L.coll != nil && x.args[0] == L.coll && !L.isMap && !orderTags {
				return fresh(L.coll)
			}
			if x.op == OKey && x.k == L.id && len(x.args) == 1 {
				if L.isMap && x.args[0] == L.coll {
					return orderOf(keysOf(x.args[0]), L.id)
				}
				if orderTags {
					return mk(OEach, strings.Join(ps, ","), L.id, nil, parts...)
				}
				if L.coll == keysOf(x.args[0]) {
					return L.coll
				}
			}
		}
	}
	return mk(OEach, strings.Join(ps, ","), L.id, nil, parts...)
}

func (L *Loop) paths0() []*LoopPath { return L.paths }

// freshTags makes a copy of a list a list of its own.
var freshTags bool

// orderTags makes every listing of a map or a set a list of its own, since each comes in an order of its own.
var orderTags bool
var orderN = 1 << 30

func orderOf(keys *Term, n int) *Term {
	if !orderTags || keys.op != OCall {
		return keys
	}
	return mk(OCall, "keys", n, nil, keys.args...)
}

func keysOf(c *Term) *Term {
	for c.op == OCopy {
		c = c.args[0]
	}
	if c.op == ONil {
		return tEmptySeq
	}
	return mk(OCall, "keys", 0, nil, c)
}

func (in *Interp) resolve(L *Loop, v *lvar, nat bool) *Term {
	L.nPaths = len(v.upds)
	var parts []*Term
	var ps []string
	acc, str, any := true, true, false
	for i, u := range v.upds {
		if u == v.lv {
			continue
		}
		any = true
		ok := false
		if u.op == OSeq && len(u.args) > 1 && strip(u.args[0]) == v.lv {
			rest := mk(OSeq, "", 0, nil, u.args[1:]...)
			if !contains(rest, v.lv) {
				ok = true
				parts = append(parts, rest)
				ps = append(ps, strconv.Itoa(i))
			}
		}
		acc = acc && ok
		ok = false
		if u.op == OConcat && len(u.args) > 1 && u.args[0] == v.lv {
			rest := mkConcat(u.args[1:]...)
			if !contains(rest, v.lv) {
				ok = true
				parts = append(parts, rest)
				ps = append(ps, strconv.Itoa(i))
			}
		}
		str = str && ok
	}
	if !any {
		return v.init
	}
	if nat && acc {
		return mkSeq(v.init, mkEach(L, ps, parts))
	}
	if !nat && acc && lvLen[v.lv] != nil {
		return mkSlice(mkSeq(v.init, mkEach(L, ps, parts)), cInt(0), lvLen[v.lv])
	}
	if nat && str {
		return mkConcat(v.init, mk(OEachS, strings.Join(ps, ","), L.id, types.Typ[types.String], parts...))
	}
	name := v.name
	if !nat {
		name = "part:" + name
	}
	return mk(OFold, name, L.id, v.typ, append([]*Term{v.init}, v.upds...)...)
}

func mentionsLV(t *Term, L int) bool {
	return anyTerm(t, func(x *Term) bool { return x.op == OLV && x.k == L })
}

// loopCond looks at the condition at the head of a loop to find the collection it runs over.
func (in *Interp) loopCond(reg *region, c *Term) {
	L := reg.loop
	if c.op == ONot {
		c = c.args[0]
	}
	if c.op != OLe0 && c.op != OEq {
		return
	}
	l := linOf(c.args[0])
	if c.op == OEq {
		l = linAdd(l, linOf(c.args[1]), -1)
	}
	var n, ln *Term
	lens := 0
	for _, v := range l.vars() {
		if v.op == OLen {
			lens++
		}
	}
	for _, v := range l.vars() {
		switch {
		case v.op == ON && v.k == L.id:
			n = v
		case v.op == OLen && lens == 1:
			ln = v
		case mentionsLoop(v, L.id):
			return
		default:
			// counting up to a number
			if n == nil {
				for _, w := range l.vars() {
					if w.op == ON && w.k == L.id {
						n = w
					}
				}
			}
			if n != nil && L.coll == nil && L.bound == nil {
				if b := boundOf(l, n, c.op); b != nil && !mentionsLoop(b, L.id) {
					L.bound = b
				}
			}
			return
		}
	}
	if n != nil && ln != nil && L.coll == nil && l.m[n] == -l.m[ln] {
		L.coll = ln.args[0]
	}
}

// boundOf gives B of the condition N < B, or its negation.
func boundOf(l lin, n *Term, op Op) *Term {
	b := linAdd(l, linOf(n), -l.m[n])
	switch {
	case op == OEq && l.m[n] == -1: // B - N == 0
		return b.term()
	case op == OEq && l.m[n] == 1:
		return linAdd(lin{}, b, -1).term()
	case op == OLe0 && l.m[n] == 1: // N - B + 1 <= 0
		b.c--
		return linAdd(lin{}, b, -1).term()
	case op == OLe0 && l.m[n] == -1: // B - N <= 0
		return b.term()
	}
	return nil
}

func (in *Interp) noteColl(id int, a *Term) {
	L := loops[id]
	if L == nil || L.coll != nil {
		return
	}
	L.coll = strip(a)
	if L.bound != nil && L.bound != mkLen(L.coll) {
		L.coll = mkSlice(L.coll, cInt(0), L.bound)
	}
}

// assumeElem adds what is known about every element of the collection of a loop.
func (in *Interp) assumeElem(st *State, L *Loop) bool {
	if L.coll == nil {
		return true
	}
	c := strip(L.coll)
	for c.op == OSlice && c.args[1] == cInt(0) {
		c = strip(c.args[0])
	}
	if L.isMap {
		st.assume(mkLookupOk(c, mkKey(L.id, c, nil)), true)
		return true
	}
	if c.op == OCall && c.s == "keys" {
		st.assume(mkLookupOk(c.args[0], mkKey(L.id, c.args[0], nil)), true)
		return true
	}
	if _, ok := soleElem(c); ok && len(c.args[0].args) == 1 {
		from := loops[c.args[0].k]
		i, err := strconv.Atoi(c.args[0].s)
		if from != nil && err == nil && i < len(from.paths) {
			var fs []*Facts
			from.paths[i].facts.each2(func(f *Facts) { fs = append(fs, f) })
			for j := len(fs) - 1; j >= 0; j-- {
				a := substLoop(fs[j].atom, from.id, L.id)
				if mentionsLV(a, from.id) || a.op == OMore {
					continue
				}
				if !st.assume(a, fs[j].val) {
					return false
				}
			}
		}
	}
	return true
}

func mkKey(L int, c *Term, typ types.Type) *Term { return mk(OKey, "", L, typ, c) }
