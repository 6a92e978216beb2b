package main

// C10: the printed text of a world is read back as that world, and nothing else is taken for a world.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{id: "C10", run: runC10,
		rule:        "For worlds of every small shape (trees up to three levels and four items, up to two relationships; items and relationships with no attribute or with all of them; header texts, identifiers and attributes unknown), the text that String gives is followed through the grammar, the actions of the parser and FromString: on every way through that reports no error, the operations carried out on the new world, taken together, give the version, identifier, name and description, every item with its attributes, every nesting and every relationship with its attributes. Texts of every other kind of statement, world texts with something before or after them, and world texts that name an item twice, are answered with an error on every way through.",
		assumptions: []string{"the operations of a world do what C06, C07, C08 and C24 say", "larger trees are read as the small ones are: neither the printer nor the reader looks at more than a node and its children at a time", "texts are over the characters that the grammar allows in a quoted text"}})
}

// wmodel is a world of known shape.
type wmodel struct {
	x      *wShape
	tx     *treeShape
	items  []*mitem
	rels   []*mrel
	header map[string]*Term // by accessor
	ptr    *Term
	texts  []*Term // every unknown text in it
	ids    []*Term
	ver    []*Term
}

type mitem struct {
	id     *Term
	val    *Term
	parent *mitem
	node   *Term
}

type mrel struct {
	from, to *mitem
	val      *Term
}

// wspec describes a shape: the parent of each item (-1: the root), the ends of each relationship, and whether attributes are set.
type wspec struct {
	name  string
	par   []int
	rels  [][2]int
	attrs bool
}

func (s wspec) String() string {
	return fmt.Sprintf("items with parents %v, relationships %v, attributes %v", s.par, s.rels, s.attrs)
}

// full is a record with every attribute set to something unknown, or with none.
func (m *wmodel) full(typ types.Type, name string, attrs bool, types0 []int64) *Term {
	v := zeroOf(typ)
	s := structOf(typ)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if f.Name() == "Id" || !attrs {
			continue
		}
		switch {
		case isBasic(f.Type(), types.IsString):
			x := sym(name+"."+f.Name(), f.Type())
			m.texts = append(m.texts, x)
			v = mkWith(v, f.Name(), x)
		case isBasic(f.Type(), types.IsBoolean):
			v = mkWith(v, f.Name(), tTrue)
		case isBasic(f.Type(), types.IsInteger) && len(types0) > 0:
			v = mkWith(v, f.Name(), cInt(types0[len(name)%len(types0)]))
		}
	}
	return v
}

// build lays the world out in memory.
func (r *Run) buildWorld(in *Interp, st *State, x *wShape, tx *treeShape, sp wspec) *wmodel {
	p := r.prog()
	m := &wmodel{x: x, tx: tx, header: map[string]*Term{}}
	str := types.Typ[types.String]
	types0 := itemTypes(p, p.typ("pkg/world", "ItemType"))
	treeT := p.typ("pkg/world", "Tree")
	node := func(it *mitem) *Term {
		n := in.fresh(tx.t)
		v := zeroOf(ptrElem(tx.t))
		set := in.freshRef(tx.comps.Type())
		st.mem[set] = tNil
		v = mkWith(v, tx.comps.Name(), set)
		if it != nil {
			ip := in.fresh(tx.item.Type())
			st.mem[ip] = it.val
			v = mkWith(v, tx.item.Name(), ip)
		} else {
			v = mkWith(v, tx.item.Name(), zeroOf(tx.item.Type()))
			v = mkWith(v, tx.parent.Name(), zeroOf(tx.parent.Type()))
		}
		st.mem[n] = v
		return n
	}
	asTree := func(n *Term) *Term { return p.mkIface(n, tx.t, treeT) }
	root := node(nil)
	under := func(n, par *Term) {
		v := st.mem[n]
		pv := par
		if types.Identical(tx.parent.Type(), treeT) {
			pv = asTree(par)
		}
		st.mem[n] = mkWith(v, tx.parent.Name(), pv)
		set := mkField(st.mem[par], tx.comps.Name(), tx.comps.Type())
		st.mem[set] = mk(OMPut, "", 0, nil, st.mem[set], asTree(n), tTrue)
	}
	items := in.freshRef(x.items.Type())
	st.mem[items] = tNil
	for i, pi := range sp.par {
		it := &mitem{id: sym(fmt.Sprintf("id%d", i+1), str)}
		m.ids = append(m.ids, it.id)
		it.val = mkWith(m.full(x.itemT, fmt.Sprintf("item%d", i+1), sp.attrs, types0), "Id", it.id)
		it.node = node(it)
		if pi >= 0 {
			it.parent = m.items[pi]
			under(it.node, it.parent.node)
		} else {
			under(it.node, root)
		}
		st.mem[items] = mk(OMPut, "", 0, nil, st.mem[items], it.id, it.val)
		m.items = append(m.items, it)
	}
	for i, a := range m.ids {
		for _, b := range m.ids[:i] {
			st.assume(mkEq(a, b), false)
		}
	}
	rels := in.freshRef(x.rels.Type())
	st.mem[rels] = tNil
	for i, e := range sp.rels {
		l := &mrel{from: m.items[e[0]], to: m.items[e[1]]}
		l.val = m.full(x.relT, fmt.Sprintf("rel%d", i+1), sp.attrs, nil)
		s := structOf(x.relT)
		n := 0
		for j := 0; j < s.NumFields(); j++ {
			if types.Identical(s.Field(j).Type(), x.itemT) {
				end := l.from
				if n > 0 {
					end = l.to
				}
				l.val = mkWith(l.val, s.Field(j).Name(), end.val)
				n++
			}
		}
		st.mem[rels] = mk(OMPut, "", 0, nil, st.mem[rels], cStr(fmt.Sprintf("key%d", i)), l.val)
		m.rels = append(m.rels, l)
	}
	w := in.fresh(x.t)
	v := zeroOf(ptrElem(x.t))
	for _, h := range x.header {
		y := sym("world."+h.Name(), h.Type())
		v = mkWith(v, h.Name(), y)
		if isBasic(h.Type(), types.IsString) {
			m.texts = append(m.texts, y)
		} else {
			m.ver = append(m.ver, mk(OCall, "itoa", 0, str, y))
		}
	}
	v = mkWith(v, x.items.Name(), items)
	v = mkWith(v, x.rels.Name(), rels)
	v = mkWith(v, x.tree.Name(), asTree(root))
	st.mem[w] = v
	m.ptr = w
	return m
}

// unknowns declares the unknown texts of the world.
func (m *wmodel) unknowns(class charset) *tenv {
	e := newTenv()
	for _, x := range m.texts {
		e.unknown(x, class, !strings.HasPrefix(x.s, "world."))
	}
	for _, x := range m.ids {
		e.unknown(x, class, true)
	}
	for _, x := range m.ver {
		e.unknown(x, charset{{'0', '9'}}, true)
	}
	return e
}

func shapesOf(tier string) []wspec {
	s := []wspec{
		{"empty", nil, nil, false},
		{"one", []int{-1}, nil, true},
		{"one bare", []int{-1}, nil, false},
		{"two", []int{-1, -1}, [][2]int{{0, 1}}, false},
		{"two full", []int{-1, -1}, [][2]int{{1, 0}}, true},
		{"nested", []int{-1, 0}, [][2]int{{0, 1}, {1, 0}}, false},
		{"nested full", []int{-1, 0}, [][2]int{{0, 0}}, true},
		{"two in one", []int{-1, 0, 0}, nil, false},
		{"chain", []int{-1, 0, 1}, [][2]int{{2, 0}, {0, 1}}, false},
		{"beside a nested one", []int{-1, 0, -1}, nil, false},
		{"fork below", []int{-1, 0, 1, 1}, nil, false},
		{"before a nested one", []int{-1, -1, 1}, nil, false},
	}
	if tier == "thorough" {
		s = append(s,
			wspec{"chain full", []int{-1, 0, 1}, [][2]int{{2, 0}, {0, 1}}, true},
			wspec{"long chain", []int{-1, 0, 1, 2}, nil, false},
			wspec{"two pairs", []int{-1, 0, -1, 2}, [][2]int{{1, 3}}, false},
			wspec{"three in one", []int{-1, 0, 0, 0}, nil, false},
			wspec{"three rels", []int{-1, -1, -1}, [][2]int{{0, 1}, {1, 2}, {2, 0}}, false},
		)
	}
	return s
}

// printed gives the text of a world of a shape, and the state in which it has it.
func (r *Run) printed(t *tmpl, x *wShape, tx *treeShape, sp wspec) (*wmodel, *Term, *State) {
	p := r.prog()
	str := p.method(x.t, "String")
	if str == nil {
		r.missing("World.String")
		return nil, nil, nil
	}
	in := NewInterp(p, Policy{shapes: true, iterations: 40})
	st := newState()
	m := r.buildWorld(in, st, x, tx, sp)
	for _, a := range m.texts {
		if !strings.HasPrefix(a.s, "world.") {
			st.assume(mkEq(a, cStr("")), false)
		}
	}
	for _, a := range m.ids {
		st.assume(mkEq(a, cStr("")), false)
	}
	outs := r.execIn(in, str, st, m.ptr)
	var text *Term
	for _, o := range outs {
		if o.panic {
			r.bad("printing of "+sp.name, str.Pos(), "printing a world (%v) panics", sp)
			return nil, nil, nil
		}
		if text != nil && o.rets[0] != text {
			r.bad("printing of "+sp.name, str.Pos(), "a world (%v) has more than one text: %s and %s", sp, cut(text.String(), 300), cut(o.rets[0].String(), 300))
			return nil, nil, nil
		}
		text = o.rets[0]
	}
	if text == nil {
		return nil, nil, nil
	}
	s2 := newState()
	for i, a := range m.ids {
		for _, b := range m.ids[:i] {
			s2.assume(mkEq(a, b), false)
		}
	}
	return m, text, s2
}

// replay is a world as the operations carried out on it make it.
type replay struct {
	header map[string]*Term
	items  []*ritem
	rels   []*rrel
	bad    string
}

type ritem struct {
	id     *Term
	attrs  map[string]*Term
	parent *Term
}

type rrel struct {
	from, to *Term
	attrs    map[string]*Term
}

func (q *replay) item(st *State, id *Term) *ritem {
	for _, it := range q.items {
		if same(st, it.id, id) {
			return it
		}
	}
	return nil
}

// endId is the identifier a term stands for: an item that was fetched has the identifier it was fetched by.
func endId(st *State, t *Term) *Term {
	t = canonIn(st, t)
	if t.op == OField && t.s == "Id" && t.args[0].op == OExtract && t.args[0].args[0].op == OCall && t.args[0].args[0].s == "World.ItemFetch" {
		return canonIn(st, t.args[0].args[0].args[1])
	}
	return t
}

// params are the attributes in a record of optional ones.
func optionals(st *State, v *Term, typ types.Type, out map[string]*Term) string {
	s := structOf(typ)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		x := mkField(v, f.Name(), f.Type())
		switch {
		case x.op == OAddr:
			out[f.Name()] = canonIn(st, x.args[0])
		case x.op == ONil || x.op == OZero || st.facts.eval(mkEq(x, tNil)) == 1:
		default:
			return fmt.Sprintf("the attribute %s given is %v", f.Name(), x)
		}
	}
	return ""
}

func (r *Run) replayed(st *State, items, rels types.Type) *replay {
	q := &replay{header: map[string]*Term{}}
	fail := func(f string, a ...any) {
		if q.bad == "" {
			q.bad = fmt.Sprintf(f, a...)
		}
	}
	flat(st.trace, func(e *Ev, loops []*Loop) {
		name, ok := strings.CutPrefix(e.name, "World.")
		if e.name == "world.CreateWorld" && len(e.args) > 0 {
			q.header["Name"] = canonIn(st, e.args[0])
			return
		}
		if !ok || e.kind != "call" {
			return
		}
		switch worldKind(e.name) {
		case 'm', 'w':
		default:
			return
		}
		if len(loops) > 0 {
			fail("%s is called in a loop that is not followed", e.name)
			return
		}
		a := e.args[1:]
		switch name {
		case "SetVersion", "SetId", "SetName", "SetExpanded":
			q.header[strings.TrimPrefix(name, "Set")] = canonIn(st, a[0])
		case "ItemCreate":
			it := &ritem{id: endId(st, a[0]), attrs: map[string]*Term{}}
			if why := optionals(st, a[1], items, it.attrs); why != "" {
				fail("%s", why)
			}
			q.items = append(q.items, it)
		case "ItemSet":
			it := q.item(st, endId(st, a[0]))
			if it == nil {
				fail("ItemSet of an item that was not created")
				return
			}
			if why := optionals(st, a[1], items, it.attrs); why != "" {
				fail("%s", why)
			}
		case "Nest":
			it := q.item(st, endId(st, a[0]))
			if it == nil {
				fail("Nest of %v, which was not created", a[0])
				return
			}
			it.parent = endId(st, a[1])
		case "Free":
			if it := q.item(st, endId(st, a[0])); it != nil {
				it.parent = nil
			}
		case "RelCreate", "RelSet":
			var l *rrel
			for _, o := range q.rels {
				if same(st, o.from, endId(st, a[0])) && same(st, o.to, endId(st, a[1])) {
					l = o
				}
			}
			if l == nil || name == "RelCreate" {
				l = &rrel{from: endId(st, a[0]), to: endId(st, a[1]), attrs: map[string]*Term{}}
				q.rels = append(q.rels, l)
			}
			if why := optionals(st, a[2], rels, l.attrs); why != "" {
				fail("%s", why)
			}
		default:
			fail("%s is called", e.name)
		}
	})
	return q
}

func runC10(r *Run) {
	t := r.newTmpl()
	if t == nil {
		return
	}
	x := r.worldShape()
	tx := r.treeShape()
	p := r.prog()
	from := p.fn("pkg/world", "FromString")
	items, rels := p.typ("pkg/world", "ItemParams"), p.typ("pkg/world", "RelParams")
	if x == nil || tx == nil {
		return
	}
	if from == nil || items == nil || rels == nil {
		r.missing("world.FromString and the parameters of items and relationships")
		return
	}
	class := t.quotedClass()
	pol := r.readerPolicy(t)
	good := 0
	for _, sp := range shapesOf(r.tier) {
		m, text, s0 := r.printed(t, x, tx, sp)
		if m == nil {
			continue
		}
		env := m.unknowns(class)
		t.env = env
		if _, ok := t.toks(text); !ok {
			r.bad("printing of "+sp.name, from.Pos(), "the text of a world (%v) is not made of its parts: %s", sp, cut(text.String(), 500))
			continue
		}
		t.guard("reading of "+sp.name, from, func() {
			t.explore(env, func() {
				s2 := s0.clone()
				if !t.env.assume(s2) {
					return
				}
				n := 0
				for _, q := range r.execIn(NewInterp(p, pol), from, s2, text) {
					if q.panic || len(q.rets) != 2 {
						r.bad("reading of "+sp.name, from.Pos(), "reading the text of a world (%v) panics when [%s]", sp, cut(q.st.facts.String(), 300))
						continue
					}
					if errStatus(q.st, q.rets[1]) == -1 {
						continue
					}
					n++
					r.compareWorld(sp, m, q.st, items, rels, from, text)
				}
				if r.must(n > 0, "reading of "+sp.name, from.Pos(), "no way of reading the text of a world (%v) succeeds: %s", sp, cut(text.String(), 500)) {
					good++
				}
			})
		})
	}
	r.need("shapes read back", good, 8)
	r.notWorlds(t, x, tx, from, pol, class)
	r.sizeFree()
	t.finish()
}

// readerPolicy: the readers and the parser are followed, the operations of the world are not.
func (r *Run) readerPolicy(t *tmpl) Policy {
	p := r.prog()
	pol := t.policy(appPolicy(p))
	pol.shapes = true
	op, kind := pol.opaque, pol.kind
	pol.opaque = func(n string, fn *ssa.Function) bool { return n == "world.CreateWorld" || op(n, fn) }
	pol.kind = kind
	return pol
}

func (r *Run) compareWorld(sp wspec, m *wmodel, st *State, items, rels types.Type, from *ssa.Function, text *Term) {
	q := r.replayed(st, items, rels)
	where := fmt.Sprintf("from the text of a world (%v)", sp)
	pos := from.Pos()
	if q.bad != "" {
		r.bad("operations while loading", pos, "%s %s", q.bad, where)
		return
	}
	for _, h := range m.x.header {
		name := strings.TrimSuffix(h.Name(), "_")
		for _, acc := range []string{"Version", "Id", "Name", "Expanded"} {
			if strings.EqualFold(acc, name) {
				name = acc
			}
		}
		want := sym("world."+h.Name(), h.Type())
		got := q.header[name]
		r.must(got != nil && same(st, got, want), "header "+name, pos, "%s of the loaded world is %v %s", name, got, where)
	}
	is := structOf(items)
	r.must(len(q.items) == len(m.items), "items restored", pos, "%d items are created %s", len(q.items), where)
	for _, it := range m.items {
		got := q.item(st, it.id)
		if !r.must(got != nil, "items restored", pos, "the item %v is not created %s", it.id, where) {
			continue
		}
		for i := 0; i < is.NumFields(); i++ {
			f := is.Field(i)
			r.sameAttr(st, got.attrs[f.Name()], mkField(it.val, f.Name(), fieldType(m.x.itemT, f.Name())), "Item."+f.Name(), pos, where)
		}
		switch {
		case it.parent == nil:
			r.must(got.parent == nil || st.facts.eval(mkEq(got.parent, cStr(""))) == 1, "nesting restored", pos, "an item at the root is nested in %v %s", got.parent, where)
		default:
			r.must(got.parent != nil && same(st, got.parent, it.parent.id), "nesting restored", pos, "the item %v in %v is nested in %v %s", it.id, it.parent.id, got.parent, where)
		}
	}
	rs := structOf(rels)
	r.must(len(q.rels) == len(m.rels), "relationships restored", pos, "%d relationships are created %s", len(q.rels), where)
	for _, l := range m.rels {
		var got *rrel
		for _, o := range q.rels {
			if same(st, o.from, l.from.id) && same(st, o.to, l.to.id) {
				got = o
			}
		}
		if !r.must(got != nil, "relationships restored", pos, "the relationship from %v to %v is not created %s", l.from.id, l.to.id, where) {
			continue
		}
		for i := 0; i < rs.NumFields(); i++ {
			f := rs.Field(i)
			r.sameAttr(st, got.attrs[f.Name()], mkField(l.val, f.Name(), fieldType(m.x.relT, f.Name())), "Rel."+f.Name(), pos, where)
		}
	}
}

// sameAttr compares an attribute given to an operation with the one of the record.
func (r *Run) sameAttr(st *State, got, want *Term, what string, pos token.Pos, where string) {
	if want.op == OZero || want == cStr("") || want == tFalse || want == cInt(0) {
		ok := got == nil || got == cStr("") || got == tFalse || st.facts.eval(mkEmpty(got)) == 1 || got.typ != nil && isBasic(got.typ, types.IsBoolean) && st.facts.eval(got) == -1
		r.must(ok, what+" restored", pos, "%s is %v and not empty %s", what, got, where)
		return
	}
	if n, ok := want.isInt(); ok { // the type of an item goes by its name
		name := r.typeNames()[n]
		s, ok := "", false
		if got != nil {
			s, ok = got.isStr()
		}
		r.must(ok && s == name && s != "", what+" restored", pos, "%s is %v where the type %d is named %q %s", what, got, n, name, where)
		return
	}
	r.must(got != nil && (same(st, got, want) || sameBool(st, got, want) || want == tTrue && st.facts.eval(got) == 1), what+" restored", pos, "%s is %v where it was %v %s", what, got, want, where)
}

// notWorlds: whatever is not the text of one world is answered with an error.
func (r *Run) notWorlds(t *tmpl, x *wShape, tx *treeShape, from *ssa.Function, pol Policy, class charset) {
	p := r.prog()
	str := types.Typ[types.String]
	a, b := sym("some", str), sym("other", str)
	base := func() *tenv {
		e := newTenv()
		e.unknown(a, class, true)
		e.unknown(b, class, true)
		return e
	}
	type txt struct {
		what string
		env  *tenv
		text *Term
		dup  *Term
	}
	q := func(parts ...any) *Term {
		var ts []*Term
		for _, x := range parts {
			switch x := x.(type) {
			case string:
				ts = append(ts, cStr(x))
			case *Term:
				ts = append(ts, x)
			}
		}
		return mkConcat(ts...)
	}
	var all []txt
	add := func(what string, parts ...any) { all = append(all, txt{what: what, env: base(), text: q(parts...)}) }
	add("an empty text", "")
	add("a query", "world")
	add("a listing", "item list")
	add("a command", `item create "`, a, `" name="`, b, `"`)
	add("an item", `item "`, a, `"`)
	add("an empty tree", "tree{nil::[]}")
	add("a tree", `tree{nil::[tree{item "`, a, `"::[]}]}`)
	add("a status", `200 ok `)
	add("an error status", `400 error "`, a, `"`)
	add("a reply", `"`, a, `"`, "\n$$$$\n200 ok ")
	add("a quoted text", `"`, a, `"`)
	for _, sp := range []wspec{{"one", []int{-1}, nil, true}, {"two", []int{-1, -1}, [][2]int{{0, 1}}, false}} {
		m, text, _ := r.printed(t, x, tx, sp)
		if m == nil {
			continue
		}
		w := func(what string, dup *Term, text *Term) {
			e := m.unknowns(class)
			e.unknown(a, class, true)
			all = append(all, txt{what: what, env: e, text: text, dup: dup})
		}
		w("a world in a reply", nil, q(text, "\n$$$$\n200 ok "))
		w("a world with an item after it", nil, q(text, `item "`, a, `"`))
		w("a world with a text after it", nil, q(text, ` "`, a, `"`))
		w("a world after a text", nil, q(`"`, a, `" `, text))
		w("two worlds", nil, q(text, "\n", text))
		if parts := flatText(text); len(parts) > 0 {
			if s, ok := parts[len(parts)-1].isStr(); ok {
				for _, n := range []int{1, 2, 10} {
					if len(s) > n {
						w(fmt.Sprintf("a world without its last %d characters", n), nil, mkConcat(append(append([]*Term{}, parts[:len(parts)-1]...), cStr(s[:len(s)-n]))...))
					}
				}
			}
		}
		if len(m.items) > 1 {
			twice := subst(text, func(x *Term) *Term {
				if x == m.ids[1] {
					return m.ids[0]
				}
				return nil
			}, map[*Term]*Term{})
			w("a world with an item twice", m.ids[0], twice)
		}
	}
	n := 0
	for _, c := range all {
		key := "not a world: " + c.what
		t.guard(key, from, func() {
			t.explore(c.env, func() {
				st := newState()
				if !t.env.assume(st) {
					return
				}
				for _, o := range r.execIn(NewInterp(p, pol), from, st, c.text) {
					n++
					if o.panic || len(o.rets) != 2 {
						r.bad(key, from.Pos(), "reading %s panics: %s", c.what, cut(c.text.String(), 300))
						continue
					}
					if c.dup != nil && knownAbsent(o.st, c.dup) {
						continue
					}
					es := errStatus(o.st, o.rets[1])
					r.must(es == -1, key, from.Pos(), "%s is loaded as a world: %s when [%s]", c.what, cut(c.text.String(), 300), cut(o.st.facts.String(), 300))
				}
			})
		})
	}
	r.need("texts that are not worlds", n, 15)
}

// knownAbsent: the item is known not to be there after it was created, which cannot be.
func knownAbsent(st *State, id *Term) bool {
	res := false
	st.facts.each(func(a *Term, v bool) bool {
		if !v && a.op == OExtract && a.k == 1 && a.args[0].op == OCall && a.args[0].s == "World.ItemFetch" && same(st, a.args[0].args[1], id) {
			subst(a.args[0].args[len(a.args[0].args)-1], func(x *Term) *Term {
				if x.op == OCall && x.s == "World.ItemCreate" && same(st, endId(st, x.args[1]), id) {
					res = true
				}
				return nil
			}, map[*Term]*Term{})
		}
		return true
	})
	return res
}

// typeNames are the names that the values of the item type are printed by.
func (r *Run) typeNames() map[int64]string {
	p := r.prog()
	out := map[int64]string{}
	fn := p.fn("pkg/world", "StringFromItemType")
	typ := p.typ("pkg/world", "ItemType")
	if fn == nil || typ == nil {
		r.missing("world.StringFromItemType")
		return out
	}
	for _, v := range itemTypes(p, typ) {
		outs := r.execIn(NewInterp(p, Policy{}), fn, newState(), cInt(v))
		if len(outs) == 1 && !outs[0].panic {
			if s, ok := outs[0].rets[0].isStr(); ok {
				out[v] = s
			}
		}
	}
	return out
}
