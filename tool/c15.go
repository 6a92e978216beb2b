package main

// C15: the same world always gives the same text.

import (
	"regexp"

	"go/token"
	"go/types"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{id: "C15", run: runC15,
		rule:        "Every listing of a map or of a set counts as a list in an order of its own until it is sorted by a comparison under which only equal elements tie. On every trace partition of every operation of worlds, trees, items, relationships, commands and persistence, no text, list or chosen element that is returned or handed on is built from a listing that was not sorted before it was gone through, or from part of a listing that was not; nothing but commuting changes is done in the order of such a listing; and nothing asks for the time, a random number, an address or the schedule of goroutines. Every function that lists a map or a set is among those analysed.",
		assumptions: []string{"an identifier is that of at most one element of a tree, and a key that of one entry (C06, C07)", "a directory is listed in the order of the names (os.ReadDir)"}})
}

type c15 struct {
	r    *Run
	p    *Prog
	seen map[*ssa.Function]bool
	n    int
}

func runC15(r *Run) {
	p := r.prog()
	orderTags = true
	defer func() { orderTags = false }()
	c := &c15{r: r, p: p, seen: map[*ssa.Function]bool{}}
	worldT, treeT := p.implOf("pkg/world", "World"), p.implOf("pkg/world", "Tree")
	if worldT == nil || treeT == nil {
		r.missing("the implementations of World and Tree")
		return
	}
	roots := 0
	listing, chance := 0, 0
	for _, fn := range p.repoFuncs() {
		file := filepath.ToSlash(p.fset.Position(fn.Pos()).Filename)
		if strings.HasSuffix(file, ".peg.go") || strings.HasSuffix(file, "_test.go") {
			continue
		}
		chance += c.chance(fn, file)
	}
	for _, fn := range p.repoFuncs() {
		if !declared(fn) || fn.Origin() != nil && fn.Origin() != fn || fn.TypeParams().Len() > 0 {
			continue
		}
		file := filepath.ToSlash(p.fset.Position(fn.Pos()).Filename)
		if strings.HasSuffix(file, ".peg.go") || strings.HasSuffix(file, "_test.go") || strings.Contains(file, "/pkg/errors/") || strings.Contains(file, "/cmd/") {
			continue
		}
		if !c.root(fn) || !c.relevant(fn, map[*ssa.Function]bool{}) {
			continue
		}
		pol := appPolicy(p)
		if rv := fn.Signature.Recv(); rv != nil {
			switch {
			case structIs(derefT(rv.Type()), worldT):
				pol = worldPolicy(p)
			case structIs(derefT(rv.Type()), treeT):
				pol = treePolicy(p)
			}
		} else if strings.HasSuffix(fnPkg(fn).Path(), "/world") {
			pol = worldPolicy(p)
		}
		op := pol.opaque
		pol.opaque = func(n string, f *ssa.Function) bool { return f != fn && op(n, f) }
		roots++
		c.analyse(fn, pol)
	}
	for _, fn := range p.repoFuncs() {
		file := filepath.ToSlash(p.fset.Position(fn.Pos()).Filename)
		if strings.HasSuffix(file, ".peg.go") || strings.HasSuffix(file, "_test.go") || strings.Contains(file, "/cmd/") || fn.Origin() != nil && fn.TypeParams().Len() > 0 && len(fn.TypeArgs()) == 0 || fn.TypeParams().Len() > 0 && len(fn.TypeArgs()) == 0 {
			continue
		}
		pos := lists(fn)
		if pos == token.NoPos || fn.Pkg == nil && fn.Origin() == nil && fn.Parent() == nil {
			continue
		}
		listing++
		r.must(c.seen[fn], "listing in "+p.canon(fn), pos, "%s lists a map or a set, but no operation that was analysed leads to it", p.canon(fn))
	}
	r.need("operations analysed", roots, 12)
	r.need("functions that list a map or a set", listing, 3)
	r.need("partitions", c.n, 40)
}

// root: the function can be asked for from elsewhere.
func (c *c15) root(fn *ssa.Function) bool {
	if fn.Parent() != nil || fn.Synthetic != "" {
		return false
	}
	return token.IsExported(fn.Name()) || fn.Signature.Recv() != nil
}

// relevant: the function, or one that it leads to, lists a map or a set.
func (c *c15) relevant(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[fn] || fn == nil {
		return false
	}
	seen[fn] = true
	if lists(fn) != token.NoPos {
		return true
	}
	for _, a := range fn.AnonFuncs {
		if c.relevant(a, seen) {
			return true
		}
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if call, ok := i.(ssa.CallInstruction); ok {
				if f := call.Common().StaticCallee(); f != nil && f.Pkg != nil && c.p.repoPkg(f.Pkg.Pkg) || f != nil && f.Origin() != nil && fnPkg(f) != nil && c.p.repoPkg(fnPkg(f)) {
					if !strings.HasSuffix(fnPkg(f).Path(), "/grammar") && c.relevant(f, seen) {
						return true
					}
				}
			}
		}
	}
	return false
}

// lists: where a function goes through a map or a set.
func lists(fn *ssa.Function) token.Pos {
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.Range:
				if _, ok := x.X.Type().Underlying().(*types.Map); ok {
					return x.Pos()
				}
			case ssa.CallInstruction:
				name := calleeName(x.Common())
				for _, s := range []string{".ToSlice", ".Iter", ".Iterator", ".Each", ".Pop", ".PopN"} {
					if strings.HasSuffix(name, s) && strings.Contains(name, "golang-set") {
						return x.Pos()
					}
				}
				if name == "maps.Keys" || name == "maps.Values" || name == "maps.All" || strings.HasSuffix(name, "reflect.Value).MapKeys") || strings.HasSuffix(name, "reflect.Value).MapRange") || strings.HasSuffix(name, "sync.Map).Range") {
					return x.Pos()
				}
			}
		}
	}
	return token.NoPos
}

// calleeName is the full name of what a call calls, as far as it is known.
func calleeName(c *ssa.CallCommon) string {
	if c.Method != nil {
		return c.Method.FullName()
	}
	if f := c.StaticCallee(); f != nil {
		if o := f.Origin(); o != nil {
			f = o
		}
		if ob := f.Object(); ob != nil {
			return ob.(*types.Func).FullName()
		}
		return f.String()
	}
	return ""
}

// chance: nothing depends on time, chance, addresses or schedules.
func (c *c15) chance(fn *ssa.Function, file string) int {
	if strings.Contains(file, "/cmd/") {
		return 0
	}
	n := 0
	name := c.p.canon(fn)
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			n++
			switch x := i.(type) {
			case *ssa.Go:
				c.r.bad("schedule in "+name, x.Pos(), "%s starts a goroutine", name)
			case *ssa.Select:
				c.r.bad("schedule in "+name, x.Pos(), "%s waits for one of several channels", name)
			case ssa.CallInstruction:
				q := calleeName(x.Common())
				for _, s := range []string{"time.Now", "time.Since", "time.Until", "math/rand.", "math/rand/v2.", "crypto/rand.", "os.Getpid", "os.Getppid", "os.Hostname", "runtime.NumGoroutine", "hash/maphash.", "unsafe."} {
					if q == s || strings.HasSuffix(s, ".") && (strings.HasPrefix(q, s) || strings.HasPrefix(q, "(*"+s)) {
						c.r.bad("chance in "+name, x.Pos(), "%s asks %s, which differs from run to run", name, q)
					}
				}
				for _, a := range x.Common().Args {
					if k, ok := a.(*ssa.Const); ok && k.Value != nil && k.Value.Kind().String() == "String" && strings.Contains(k.Value.ExactString(), "%p") {
						c.r.bad("address in "+name, x.Pos(), "%s prints an address", name)
					}
				}
			}
		}
	}
	c.r.ok("chance")
	return n
}

func (c *c15) analyse(fn *ssa.Function, pol Policy) {
	r := c.r
	in := NewInterp(c.p, pol)
	name := c.p.canon(fn)
	outs := r.execIn(in, fn, newState(), paramSyms(fn)...)
	for f := range in.fnsSeen {
		c.seen[f] = true
	}
	for _, o := range outs {
		c.n++
		if o.panic {
			continue
		}
		x := newOrders(c, in, o.st)
		for i, v := range o.rets {
			if why := x.free(in.snap(o.st, v, 6), nil); why != "" {
				r.bad("result of "+name, fn.Pos(), "result %d of %s depends on the order of a map or a set: %s", i, name, why)
			} else {
				r.ok("result of " + name)
			}
		}
		for _, e := range x.evs {
			if why := x.effect(e); why != "" {
				r.bad("effects of "+name, e.e.pos, "what %s does depends on the order of a map or a set: %s", name, why)
			} else {
				r.ok("effects of " + name)
			}
		}
	}
}

// orders knows which lists of a trace are in a fixed order.
type orders struct {
	c     *c15
	in    *Interp
	st    *State
	evs   []oev
	loop  map[int]int // where a loop was run
	sorts []oev
	ls    map[int]*Loop
	memo  map[*Term]string
}

type oev struct {
	e  *Ev
	in []*Loop
	at int
}

func newOrders(c *c15, in *Interp, st *State) *orders {
	x := &orders{c: c, in: in, st: st, loop: map[int]int{}, ls: map[int]*Loop{}, memo: map[*Term]string{}}
	n := 0
	flat(st.trace, func(e *Ev, ins []*Loop) {
		n++
		v := oev{e, ins, n}
		x.evs = append(x.evs, v)
		switch e.kind {
		case "loop":
			x.loop[e.loop.id] = n
			x.ls[e.loop.id] = e.loop
		case "sort":
			x.sorts = append(x.sorts, v)
		}
	})
	return x
}

// sorted: the list was put in an order that its elements determine, before a point in the trace.
func (x *orders) sorted(t *Term, before int) (bool, string) {
	why := ""
	for _, s := range x.sorts {
		if s.at >= before {
			continue
		}
		if len(s.e.args) == 0 || s.e.args[0] != t && s.e.raw[0] != t {
			continue
		}
		if w := x.total(s.e); w != "" {
			why = w
			continue
		}
		return true, ""
	}
	return false, why
}

// unordered: a loop goes through its elements in an order of chance.
func (x *orders) unordered(id int) string {
	L := x.ls[id]
	at := x.loop[id]
	if L == nil {
		L = loops[id]
		at = 1 << 30
	}
	if L == nil || L.coll == nil {
		return ""
	}
	if L.isMap {
		return "it goes through " + cut(L.coll.String(), 120)
	}
	return x.list(L.coll, at)
}

// list: why the order of a list is one of chance.
func (x *orders) list(t *Term, before int) string {
	ok, why := x.sorted(t, before)
	if why != "" {
		why = " (" + why + ")"
	}
	switch t.op {
	case OCall:
		if t.s == "keys" {
			if ok {
				return ""
			}
			return "the listing of " + cut(t.args[0].String(), 120) + " is not sorted" + why
		}
		if (t.s == "slices.Sorted" || t.s == "slices.SortedFunc") && len(t.args) > 0 {
			return ""
		}
	case OCopy, OClip:
		if ok {
			return ""
		}
		return x.list(t.args[0], before)
	case OSlice:
		return x.list(t.args[0], before) // part of a list: which part depends on its order before
	case OSeq:
		for _, p := range t.args {
			switch p.op {
			case OEach:
				if w := x.unordered(p.k); w != "" {
					L := x.ls[p.k]
					if ok && L != nil && L.natural {
						continue // all of it, sorted afterwards
					}
					return w + why
				}
			}
		}
	}
	return ""
}

// free: why a value depends on the order of a listing. inside are the loops whose elements may be used.
func (x *orders) free(t *Term, inside map[int]bool) string {
	if t == nil {
		return ""
	}
	if len(inside) == 0 {
		if w, ok := x.memo[t]; ok {
			return w
		}
	}
	w := x.free0(t, inside)
	if len(inside) == 0 {
		x.memo[t] = w
	}
	return w
}

func (x *orders) free0(t *Term, inside map[int]bool) string {
	with := func(id int) map[int]bool {
		m := map[int]bool{id: true}
		for k := range inside {
			m[k] = true
		}
		return m
	}
	switch t.op {
	case OSeq:
		if w := x.list(t, 1<<30); w != "" {
			return w
		}
	case OEach:
		for _, a := range t.args {
			if w := x.free(a, with(t.k)); w != "" {
				return w
			}
		}
		return ""
	case OEachS:
		if w := x.unordered(t.k); w != "" {
			return "a text is put together while " + w
		}
		for _, a := range t.args {
			if w := x.free(a, with(t.k)); w != "" {
				return w
			}
		}
		return ""
	case OFold:
		if w := x.unordered(t.k); w != "" && !x.commutes(t) {
			return "a value is carried along while " + w
		}
		for _, a := range t.args {
			if w := x.free(a, with(t.k)); w != "" {
				return w
			}
		}
		return ""
	case OKey, OElem, ON, OLV:
		if inside[t.k] {
			return ""
		}
		if w := x.unordered(t.k); w != "" && !x.unique(t.k) {
			return "one of several elements is chosen while " + w
		}
		return ""
	case OCall:
		switch t.s {
		case "keys":
			return x.list(t, 1<<30)
		case "sorted":
			return ""
		case "slices.Contains", "len":
			return ""
		}
	case OLen:
		return ""
	case OMPut, OMDel, OLookup, OLookupOk, ODeref, OC0:
		// maps have no order; what is put in may
	case OSlice:
		if w := x.list(t, 1<<30); w != "" {
			return w
		}
	}
	for _, a := range t.args {
		if w := x.free(a, inside); w != "" {
			return w
		}
	}
	return ""
}

// ofLoop: the term depends on the element that a loop is at.
func ofLoop(t *Term, id int) bool {
	return anyTerm(t, func(y *Term) bool {
		return (y.op == OKey || y.op == OElem || y.op == ON || y.op == OLV) && y.k == id
	})
}

// commutes: the value carried along does not depend on the order: it counts, or only ever becomes one thing.
func (x *orders) commutes(t *Term) bool {
	var one, lv *Term
	for _, u := range t.args[1:] {
		if u.op == OLV && u.k == t.k && u.s == t.s {
			continue
		}
		if u.op == OConst {
			if one != nil && one != u {
				return false
			}
			one = u
			continue
		}
		if u.op == OLin {
			d := sub(u, mk(OLV, t.s, t.k, u.typ))
			if _, ok := d.isInt(); ok {
				continue
			}
			for _, v := range linOf(u).vars() {
				if v.op == OLV && v.s == t.s && v.k == t.k && linOf(u).m[v] == 1 {
					d = nil
				}
			}
			if d == nil {
				continue
			}
		}
		if u.op == OMPut || u.op == OMDel || u.op == OLV && u.k == t.k {
			base, ok := u, true
			for base.op == OMPut || base.op == OMDel {
				if base.op == OMPut {
					ok = ok && ((base.args[1].op == OKey || base.args[1].op == OElem) && base.args[1].k == t.k || !ofLoop(base.args[2], t.k))
				}
				base = base.args[0]
			}
			if ok && base.op == OLV && base.k == t.k && (lv == nil || lv == base) {
				lv = base
				continue // entries of a map, each under its own key
			}
		}
		return false
	}
	return true
}

// unique: the loop was left at an element that its identifier determines.
func (x *orders) unique(id int) bool {
	found := false
	key := func(t *Term) bool {
		for t.op == OConv || t.op == OIface {
			t = t.args[0]
		}
		return (t.op == OKey || t.op == OElem) && t.k == id
	}
	free := func(t *Term) bool { return !ofLoop(t, id) }
	idOf := func(t *Term) bool {
		if t.op == OField && t.s == "Id" && t.args[0].op == OLookup && key(t.args[0].args[1]) {
			return true
		}
		p, ok := partOf(t, key, false)
		return ok && (p == "" || ownId.MatchString(p))
	}
	x.st.facts.each(func(a *Term, v bool) bool {
		switch {
		case a.op == OEq && v:
			p, q := a.args[0], a.args[1]
			if idOf(p) && free(q) || idOf(q) && free(p) {
				found = true
			}
		case v && a.op == OExtract && a.args[0].op == OCall && strings.HasPrefix(a.args[0].s, "Tree.Find"):
			if c := a.args[0]; len(c.args) > 1 && ofLoop(c.args[0], id) && free(c.args[1]) {
				found = true
			}
		case v && a.op == OCall && strings.HasPrefix(a.s, "Tree.Has"):
			if len(a.args) > 1 && ofLoop(a.args[0], id) && free(a.args[1]) {
				found = true
			}
		}
		return !found
	})
	return found
}

// effect: why what is done depends on the order of a listing.
func (x *orders) effect(v oev) string {
	e := v.e
	in := map[int]bool{}
	chance := ""
	id := 0
	for _, L := range v.in {
		in[L.id] = true
		if w := x.unordered(L.id); w != "" {
			chance, id = w, L.id
		}
	}
	switch e.kind {
	case "loop", "sort", "mclear", "ret":
		return ""
	}
	for _, a := range e.args {
		if w := x.free(a, in); w != "" {
			return w
		}
	}
	if chance == "" {
		return ""
	}
	ofElem := func(t *Term) bool {
		return anyTerm(t, func(y *Term) bool { return (y.op == OKey || y.op == OElem) && y.k == id })
	}
	switch e.kind {
	case "store":
		to, val := e.args[0], e.args[len(e.args)-1]
		if len(e.raw) > 0 {
			to = e.raw[0]
		}
		if ofElem(val) && !ofElem(to) {
			return "the last of several values stays in " + cut(to.String(), 100) + " while " + chance
		}
	case "call":
		for _, s := range []string{"fmt.Fprint", "fmt.Print", "Write", "log."} {
			if strings.Contains(e.name, s) {
				return e.name + " is called while " + chance
			}
		}
	}
	return ""
}

// total: why two different elements can tie under the comparison of a sort, or "".
func (x *orders) total(e *Ev) string {
	if len(e.raw) < 2 || e.raw[1] == nil {
		return "" // the natural order of texts and numbers, in which only equal elements tie
	}
	f := e.raw[1]
	for f.op == OConv || f.op == OIface {
		f = f.args[0]
	}
	fn, _ := f.fn.(*ssa.Function)
	if fn == nil || len(fn.Params) != 2 {
		return "the comparison of " + e.name + " is not known"
	}
	in := NewInterp(x.c.p, x.in.pol)
	byIndex := types.Identical(fn.Params[0].Type(), types.Typ[types.Int]) && strings.HasPrefix(e.name, "sort.Slice")
	a, b := sym("a", fn.Params[0].Type()), sym("b", fn.Params[1].Type())
	run := func(p, q *Term, st *State) []*State {
		outs, err := in.RunClosure(fn, f.args, st, p, q)
		if err != nil {
			return nil
		}
		var ss []*State
		for _, o := range outs {
			if o.panic || len(o.rets) != 1 {
				continue
			}
			s := o.st.clone()
			tie := o.rets[0]
			if isBasic(fn.Signature.Results().At(0).Type(), types.IsInteger) {
				if !s.assume(mkEq(tie, cInt(0)), true) {
					continue
				}
			} else if !s.assume(tie, false) {
				continue
			}
			ss = append(ss, s)
		}
		return ss
	}
	begin := x.st.clone()
	for i, v := range f.args {
		if len(e.raw) > i+2 && v.op == OPtr {
			if byIndex && e.raw[i+2] == e.raw[0] {
				begin.mem[v] = sym("the list", ptrElem(v.typ))
			} else {
				begin.mem[v] = e.raw[i+2]
			}
		}
	}
	first := run(a, b, begin)
	if first == nil {
		return "the comparison of " + e.name + " cannot be followed"
	}
	for _, s1 := range first {
		second := run(b, a, s1)
		for _, s := range second {
			if !x.pinned(s, e, a, b, byIndex) {
				return "different elements can tie when sorted by " + x.c.p.canon(fn)
			}
		}
	}
	return ""
}

// ownId: the path from an element to its identifier: its own, that of its item, or that of an item it keeps.
var ownId = regexp.MustCompile(`^#?(\.[a-z]\w*)?\.Id$`)

// partOf: which part of an element a term is.
func partOf(t *Term, elem func(*Term) bool, byIndex bool) (string, bool) {
	path := ""
	for {
		switch {
		case elem(t):
			return path, true
		case t.op == OField:
			path = "." + t.s + path
			t = t.args[0]
		case t.op == OCall && t.s == "Tree.Item" && len(t.args) > 0:
			path = "#" + path
			t = t.args[0]
		case (t.op == OIndex || t.op == OElem) && len(t.args) == 2 && byIndex && elem(t.args[1]):
			return path, true
		case t.op == OConv || t.op == OIface || t.op == ODeref || t.op == OAddr:
			t = t.args[0]
		default:
			return "", false
		}
	}
}

// pinned: in a state in which two elements tie, they are the same element.
func (x *orders) pinned(s *State, e *Ev, a, b *Term, byIndex bool) bool {
	have := map[string]bool{}
	see0 := func(t, e *Term) {
		if p, ok := partOf(t, func(y *Term) bool { return y == e }, byIndex); ok {
			have[p] = true
		}
	}
	see := func(p, q *Term) {
		if p != q && subst(p, func(t *Term) *Term {
			if t == a {
				return b
			}
			return nil
		}, map[*Term]*Term{}) == q {
			see0(p, a)
		}
	}
	lt := map[[2]*Term]bool{}
	// an element without an item has the empty identifier
	noItem := map[*Term]bool{}
	has := func(t, e *Term) bool { return anyTerm(t, func(y *Term) bool { return y == e }) }
	itemT := x.c.p.typ("pkg/world", "Item")
	s.facts.each(func(f *Term, v bool) bool {
		if f.op == OEq && v && f.args[1] == tNil && f.args[0].typ != nil && ptrElem(f.args[0].typ) == itemT {
			noItem[a] = noItem[a] || has(f.args[0], a)
			noItem[b] = noItem[b] || has(f.args[0], b)
		}
		if f.op == OEmpty && v {
			for _, e := range []*Term{a, b} {
				if p, ok := partOf(f.args[0], func(y *Term) bool { return y == e }, byIndex); ok && (p == "" || ownId.MatchString(p)) {
					noItem[e] = true
				}
			}
		}
		return true
	})
	if noItem[a] && noItem[b] {
		return true
	}
	same := func(p, q *Term) {
		if p == cStr("") && noItem[a] != noItem[b] {
			q = subst(q, func(t *Term) *Term {
				if t == a {
					return b
				}
				return nil
			}, map[*Term]*Term{})
			see0(q, b)
			return
		}
		see(p, q)
	}
	s.facts.each(func(f *Term, v bool) bool {
		switch {
		case f.op == OEq && v:
			p, q := f.args[0], f.args[1]
			for i := 0; i < 2; i++ {
				if n, ok := q.isInt(); ok && n == 0 && p.op == OCall && p.s == "compare" {
					see(p.args[0], p.args[1])
					see(p.args[1], p.args[0])
				}
				same(p, q)
				p, q = q, p
			}
		case f.op == OBin && f.s == "<" && !v:
			lt[[2]*Term{f.args[0], f.args[1]}] = true
		}
		return true
	})
	for k := range lt {
		if lt[[2]*Term{k[1], k[0]}] && s.facts.eval(mkEq(k[0], k[1])) == -1 {
			return true // cannot be
		}
		if lt[[2]*Term{k[1], k[0]}] {
			same(k[0], k[1])
			same(k[1], k[0])
		}
	}
	for p := range have {
		if ownId.MatchString(p) {
			return true
		}
	}
	return have[""] || have[".From.Id"] && have[".To.Id"]
}

// derefT is the type that a pointer points to, or the type itself.
func derefT(t types.Type) types.Type {
	if e := ptrElem(t); e != nil {
		return e
	}
	return t
}
