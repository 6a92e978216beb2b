package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Ev is an observable event of a trace.
type Ev struct {
	kind  string // "call" opaque call, "store" write to an object that existed before, "mput","mdel" map/set updates, "loop", "panic", "sort", "ret"
	name  string
	args  []*Term // snapshots
	raw   []*Term // the values themselves
	res   *Term
	pos   token.Pos
	fn    *ssa.Function
	loop  *Loop
	facts *Facts // facts known when it happened
	last  *Term
	rt    types.Type // type of what a call returns
}

// Loop describes a summarised loop.
type Loop struct {
	id      int
	fn      *ssa.Function
	pos     token.Pos
	coll    *Term // collection iterated over, or nil
	isMap   bool
	steady  bool  // a table that is not added to meanwhile
	bound   *Term // number of iterations, if the loop counts to it
	rev     bool  // from the last element to the first
	fwd     bool
	paths   []*LoopPath // the ways through the body that go on with the next iteration
	exits   int         // number of ways to leave other than running out of elements
	nPaths  int
	natural bool // this trace left it by running out of elements
}

type LoopPath struct {
	facts *Facts // facts added since the head of the loop
	trace []*Ev
	upd   map[string]*Term // loop-carried values at the end of the iteration
	st    *State
}

var loops = map[int]*Loop{}
var loopN int

// Facts is a conjunction of normalised conditions.
type Facts struct {
	parent *Facts
	atom   *Term
	val    bool
	n      int
}

func (f *Facts) with(a *Term, v bool) *Facts {
	n := 1
	if f != nil {
		n = f.n + 1
	}
	return &Facts{f, a, v, n}
}

func (f *Facts) each(fn func(a *Term, v bool) bool) {
	for x := f; x != nil; x = x.parent {
		if !fn(x.atom, x.val) {
			return
		}
	}
}

func (f *Facts) each2(fn func(x *Facts)) {
	for x := f; x != nil; x = x.parent {
		fn(x)
	}
}

func (f *Facts) since(base *Facts) []*Facts {
	var out []*Facts
	for x := f; x != nil && x != base; x = x.parent {
		out = append(out, x)
	}
	return out
}

func (f *Facts) String() string {
	var out []string
	f.each(func(a *Term, v bool) bool {
		if v {
			out = append(out, a.String())
		} else {
			out = append(out, "!"+a.String())
		}
		return true
	})
	sort.Strings(out)
	return strings.Join(out, " & ")
}

// constOf finds a constant that the facts equate t with.
func (f *Facts) constOf(t *Term) *Term {
	var r *Term
	f.each(func(a *Term, v bool) bool {
		if v && a.op == OEq {
			if a.args[0] == t && a.args[1].op == OConst {
				r = a.args[1]
			} else if a.args[1] == t && a.args[0].op == OConst {
				r = a.args[0]
			}
		}
		if v && a.op == OEmpty && a.args[0] == t && t.typ != nil {
			if b, ok := t.typ.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				r = cStr("")
			}
		}
		return r == nil
	})
	return r
}

// eval decides a condition from the facts: 1 true, -1 false, 0 unknown.
func (f *Facts) eval(c *Term) int {
	if b, ok := c.isBool(); ok {
		if b {
			return 1
		}
		return -1
	}
	if c.op == ONot {
		return -f.eval(c.args[0])
	}
	r := 0
	f.each(func(a *Term, v bool) bool {
		if a == c {
			if v {
				r = 1
			} else {
				r = -1
			}
			return false
		}
		return true
	})
	if r != 0 {
		return r
	}
	switch c.op {
	case OEq:
		a, b := c.args[0], c.args[1]
		ca, cb := a, b
		if ca.op != OConst {
			if k := f.constOf(a); k != nil {
				ca = k
			}
		}
		if cb.op != OConst {
			if k := f.constOf(b); k != nil {
				cb = k
			}
		}
		if ca.op == OConst && cb.op == OConst {
			if ca.s == cb.s {
				return 1
			}
			return -1
		}
		if a.op == OLin || b.op == OLin || a.op == OConst || b.op == OConst {
			if _, ok := b.isInt(); ok {
				l := linAdd(linOf(a), linOf(b), -1)
				lo := f.eval(mkLe0(l))
				hi := f.eval(mkLe0(l.neg()))
				if lo == 1 && hi == 1 {
					return 1
				}
				if lo == -1 || hi == -1 {
					return -1
				}
			}
		}
		// equality through facts a==x, b==x
		if f.same(a, b) {
			return 1
		}
		// nil-ness of something known equal to something else
		if b.op == ONil {
			if e := f.nonNil(a); e {
				return -1
			}
		}
	case OEmpty:
		if k := f.constOf(c.args[0]); k != nil {
			if s, ok := k.isStr(); ok {
				if s == "" {
					return 1
				}
				return -1
			}
		}
		return f.evalLin(linOf(mkLenRaw(c.args[0])))
	case OLe0:
		return f.evalLin(linOf(c.args[0]))
	case OLookupOk:
		m := c.args[0]
		if m.op == OMPut && f.eval(mkEq(m.args[1], c.args[1])) == 1 {
			return 1
		}
		if m.op == OMDel && f.eval(mkEq(m.args[1], c.args[1])) == 1 {
			return -1
		}
		if (m.op == OMPut || m.op == OMDel) && f.eval(mkEq(m.args[1], c.args[1])) == -1 {
			return f.eval(mkLookupOk(m.args[0], c.args[1]))
		}
	}
	return 0
}

func mkLenRaw(x *Term) *Term { return mk(OLen, "", 0, types.Typ[types.Int], x) }

func (f *Facts) nonNil(t *Term) bool { return false }

// same reports whether facts make a and b equal (one step of congruence through equalities).
func (f *Facts) same(a, b *Term) bool {
	if a == b {
		return true
	}
	cls := map[*Term]bool{a: true}
	for changed := true; changed; {
		changed = false
		f.each(func(x *Term, v bool) bool {
			if v && x.op == OEq && x.args[0].op != OLin {
				p, q := x.args[0], x.args[1]
				if cls[p] && !cls[q] {
					cls[q] = true
					changed = true
				} else if cls[q] && !cls[p] {
					cls[p] = true
					changed = true
				}
			}
			return true
		})
	}
	if cls[b] {
		return true
	}
	// congruence for fields
	if a.op == OField && b.op == OField && a.s == b.s {
		return f.same(a.args[0], b.args[0])
	}
	return false
}

// linear facts as a list of l with l <= 0.
func (f *Facts) lins() []lin {
	var out []lin
	f.each(func(a *Term, v bool) bool {
		switch a.op {
		case OLe0:
			l := linOf(a.args[0])
			if v {
				out = append(out, l)
			} else {
				n := l.neg()
				n.c++
				out = append(out, n)
			}
		case OEmpty:
			l := linOf(mkLenRaw(a.args[0]))
			if v {
				out = append(out, l)
			} else {
				n := l.neg()
				n.c++
				out = append(out, n)
			}
		case OEq:
			if n, ok := a.args[1].isInt(); ok && v {
				l := linOf(a.args[0])
				l = linAdd(l, lin{c: n, m: map[*Term]int64{}}, -1)
				out = append(out, l, l.neg())
			} else if v && isIntT(a.args[0]) && isIntT(a.args[1]) {
				l := linAdd(linOf(a.args[0]), linOf(a.args[1]), -1)
				out = append(out, l, l.neg())
			}
		}
		return true
	})
	return out
}

func isIntT(t *Term) bool {
	if t.op == OLin || t.op == OLen || t.op == ON {
		return true
	}
	if t.typ != nil {
		if b, ok := t.typ.Underlying().(*types.Basic); ok {
			return b.Info()&types.IsInteger != 0
		}
	}
	return false
}

func (f *Facts) evalLin(l lin) int {
	ls := f.lins()
	if f.impliesLe(ls, l) {
		return 1
	}
	n := l.neg()
	n.c++
	if f.impliesLe(ls, n) {
		return -1
	}
	return 0
}

// impliesLe: do the linear facts (one of them, or the sum of two) imply l <= 0?
func (f *Facts) impliesLe(ls []lin, l lin) bool {
	nonneg := func(d lin) bool { // is d >= 0 for sure: constant plus lengths and counters
		if d.c < 0 {
			return false
		}
		for v, c := range d.m {
			if c == 0 {
				continue
			}
			if c > 0 && (v.op == OLen || v.op == ON) {
				continue
			}
			return false
		}
		return true
	}
	if nonneg(l.neg()) {
		return true
	}
	for _, m := range ls {
		if nonneg(linAdd(m, l, -1)) {
			return true
		}
	}
	if len(ls) > 40 {
		return false
	}
	for i, m := range ls {
		for j := i; j < len(ls); j++ {
			if nonneg(linAdd(linAdd(m, ls[j], 1), l, -1)) {
				return true
			}
		}
	}
	return false
}

// State is the abstract state on one partition.
type State struct {
	mem   map[*Term]*Term // object -> content
	facts *Facts
	trace []*Ev
	nEv   int
}

func newState() *State { return &State{mem: map[*Term]*Term{}} }

func (s *State) clone() *State {
	m := make(map[*Term]*Term, len(s.mem)+4)
	for k, v := range s.mem {
		m[k] = v
	}
	return &State{mem: m, facts: s.facts, trace: s.trace[:len(s.trace):len(s.trace)]}
}

func (s *State) assume(c *Term, v bool) bool {
	if c.op == ONot {
		return s.assume(c.args[0], !v)
	}
	e := s.facts.eval(c)
	if e == 1 {
		return v
	}
	if e == -1 {
		return !v
	}
	s.facts = s.facts.with(c, v)
	return true
}

func (s *State) event(e *Ev) {
	e.facts = s.facts
	s.trace = append(s.trace, e)
}

// Outcome of running a function on one partition.
type Outcome struct {
	st    *State
	rets  []*Term
	panic bool
	pos   token.Pos
}

func traceString(tr []*Ev, ind string, fset *token.FileSet) string {
	var b strings.Builder
	for _, e := range tr {
		switch e.kind {
		case "loop":
			l := e.loop
			fmt.Fprintf(&b, "%sloop L%d over %v map=%v natural=%v exits=%d\n", ind, l.id, l.coll, l.isMap, l.natural, l.exits)
			for i, p := range l.paths {
				fmt.Fprintf(&b, "%s path %d: [%s]\n", ind, i, p.facts)
				var ks []string
				for k := range p.upd {
					ks = append(ks, k)
				}
				sort.Strings(ks)
				for _, k := range ks {
					fmt.Fprintf(&b, "%s   %s' = %v\n", ind, k, p.upd[k])
				}
				b.WriteString(traceString(p.trace, ind+"   ", fset))
			}
		default:
			fmt.Fprintf(&b, "%s%s %s(", ind, e.kind, e.name)
			for i, a := range e.args {
				if i > 0 {
					b.WriteString(", ")
				}
				b.WriteString(a.String())
			}
			b.WriteString(")")
			if e.res != nil {
				fmt.Fprintf(&b, " = %v", e.res)
			}
			b.WriteString("\n")
		}
	}
	return b.String()
}
