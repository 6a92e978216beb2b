package main

// The commands of the application: for each operation the grammar can name, the chain from the
// parsed attributes to the command, to what the command does to a world, to what undoing it does.

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type capp struct {
	r               *Run
	fn              *ssa.Function
	it, worldT      types.Type
	itemT, relT     types.Type
	w, id, to       *Term
	params, content *Term
	flags, ids      *Term
	items, rels     types.Type // their parameters
}

// operation is one of the operations a command text can name.
type operation struct {
	ty, verb string
	in       bool // `item in x`
}

func (o operation) String() string {
	if o.in {
		return o.ty + " in"
	}
	return o.ty + " " + o.verb
}

var operations = []operation{
	{"item", "create", false}, {"item", "set", false}, {"item", "clear", false}, {"item", "delete", false},
	{"item", "fetch", false}, {"item", "exists", false}, {"item", "list", false}, {"item", "list", true},
	{"item", "create-or-fetch", false}, {"item", "create-or-set", false},
	{"item", "nest", false}, {"item", "free", false}, {"item", "in?", false},
	{"rel", "create", false}, {"rel", "set", false}, {"rel", "clear", false}, {"rel", "delete", false},
	{"rel", "fetch", false}, {"rel", "exists", false}, {"rel", "list", false},
	{"rel", "create-or-fetch", false}, {"rel", "create-or-set", false},
	{"rel", "to?", false}, {"rel", "from?", false},
	{"world", "fetch", false},
}

// operands says which identifiers an operation takes.
func (o operation) operands() (id, to, ids bool) {
	switch {
	case o.verb == "nest":
		return false, true, true
	case o.verb == "free":
		return false, false, true
	case o.in, o.verb == "to?", o.verb == "from?":
		return true, false, false
	case o.verb == "list", o.ty == "world":
		return false, false, false
	case o.ty == "rel", o.verb == "in?":
		return true, true, false
	}
	return true, false, false
}

func (o operation) query() bool {
	switch o.verb {
	case "fetch", "exists", "list", "in?", "to?", "from?":
		return true
	}
	return false
}

type chain struct {
	c      *capp
	op     operation
	in     *Interp
	cmdT   types.Type
	cmd    *Term
	st     *State
	pos    token.Pos
	evs    []*Ev
	ret    *Term
	err    *Term
	retT   types.Type
	undo   []*undone
	redone bool
}

type undone struct {
	st  *State
	evs []*Ev
	err *Term
	pos token.Pos
	ret Outcome
}

func (r *Run) capp() *capp {
	p := r.prog()
	c := &capp{r: r, fn: p.fn("pkg/app", "InputToCommand"), worldT: p.typ("pkg/world", "World"),
		itemT: p.typ("pkg/world", "Item"), relT: p.typ("pkg/world", "Rel"), items: p.typ("pkg/world", "ItemParams"), rels: p.typ("pkg/world", "RelParams")}
	if c.fn == nil || len(c.fn.Params) != 1 || c.worldT == nil || c.itemT == nil || c.relT == nil || c.items == nil || c.rels == nil {
		r.missing("InputToCommand and the types of the world")
		return nil
	}
	c.it = c.fn.Params[0].Type()
	for _, f := range []string{"ResourceType", "ResourceId", "ResourceIds", "SecondaryIds", "Verb", "Params", "Flags"} {
		if fieldType(c.it, f) == nil {
			r.missing("InputAttributes." + f)
			return nil
		}
	}
	str := types.Typ[types.String]
	in := sym("input", c.it)
	c.w, c.id, c.to = sym("w", c.worldT), sym("id", str), sym("to", str)
	c.params = mkField(in, "Params", fieldType(c.it, "Params"))
	c.flags = mkField(in, "Flags", fieldType(c.it, "Flags"))
	c.ids = mkField(in, "ResourceIds", fieldType(c.it, "ResourceIds"))
	c.content = NewInterp(p, Policy{}).mapContent(newState(), c.params)
	return c
}

// input is what the parser hands over for an operation.
func (c *capp) input(o operation) *Term {
	id, to, ids := o.operands()
	v := sym("input", c.it)
	v = mkWith(v, "ResourceType", cStr(o.ty))
	v = mkWith(v, "Verb", cStr(o.verb))
	if fieldType(c.it, "InItem") != nil {
		v = mkWith(v, "InItem", cBool(o.in))
	}
	if id {
		v = mkWith(v, "ResourceId", c.id)
	} else {
		v = mkWith(v, "ResourceId", cStr(""))
	}
	if to {
		v = mkWith(v, "SecondaryIds", mkSeq(mkOne(c.to)))
	} else {
		v = mkWith(v, "SecondaryIds", tEmptySeq)
	}
	if !ids {
		v = mkWith(v, "ResourceIds", tEmptySeq)
	}
	return v
}

// chains analyses an operation from the parsed attributes to its undoing.
func (c *capp) chains(o operation) []*chain {
	r := c.r
	in := NewInterp(r.p, appPolicy(r.p))
	outs := r.execIn(in, c.fn, newState(), c.input(o))
	var out []*chain
	for _, x := range outs {
		if x.panic {
			r.bad("handled:"+o.String(), x.pos, "converting %q panics", o)
			continue
		}
		cmd := in.val(x.st, x.rets[0])
		if cmd.op != OIface || errStatus(x.st, x.rets[1]) != 1 {
			r.bad("handled:"+o.String(), x.pos, "no command for %q when [%s]", o, cut(x.st.facts.String(), 300))
			continue
		}
		ex, un := r.p.method(cmd.typ, "Execute"), r.p.method(cmd.typ, "Undo")
		if ex == nil || un == nil {
			r.missing("Execute and Undo of " + cmd.typ.String())
			continue
		}
		r.ok("handled:" + o.String())
		out = append(out, c.exec(o, in, x.st, cmd, ex, un)...)
	}
	r.need("partitions of "+o.String(), len(out), 1)
	return out
}

func (c *capp) exec(o operation, in *Interp, st *State, cmd *Term, ex, un *ssa.Function) []*chain {
	r := c.r
	var out []*chain
	n0 := len(st.trace)
	for _, y := range r.execIn(in, ex, st, cmd.args[0], c.w) {
		if y.panic {
			r.bad("handled:"+o.String(), y.pos, "executing %q panics when [%s]", o, cut(y.st.facts.String(), 300))
			continue
		}
		ch := &chain{c: c, op: o, in: in, cmdT: cmd.typ, cmd: cmd.args[0], st: y.st, pos: y.pos, evs: y.st.trace[n0:]}
		ch.ret = in.snap(y.st, in.val(y.st, y.rets[0]), 0)
		if ch.ret.op == OIface {
			ch.retT = ch.ret.typ
			ch.ret = ch.ret.args[0]
		}
		for ch.ret.op == OConv {
			ch.ret = ch.ret.args[0]
		}
		ch.err = normErr(in.snap(y.st, in.val(y.st, y.rets[1]), 0))
		n1 := len(y.st.trace)
		for _, z := range r.execIn(in, un, y.st, cmd.args[0], c.w) {
			if z.panic {
				r.bad("handled:"+o.String(), z.pos, "undoing %q panics", o)
				continue
			}
			ch.undo = append(ch.undo, &undone{st: z.st, evs: z.st.trace[n1:], err: normErr(in.snap(z.st, in.val(z.st, z.rets[0]), 0)), pos: z.pos, ret: z})
		}
		out = append(out, ch)
	}
	return out
}

// again re-executes the commands that have been undone, from the state their undoing left.
func (c *capp) again(ch *chain) []*chain {
	ex, un := c.r.p.method(ch.cmdT, "Execute"), c.r.p.method(ch.cmdT, "Undo")
	var out []*chain
	for _, u := range ch.undo {
		if errStatus(u.st, u.err) == -1 {
			continue
		}
		for _, d := range c.exec(ch.op, ch.in, u.st, mk(OIface, "", 0, ch.cmdT, ch.cmd), ex, un) {
			// the world is the one it was
			if d.exists() == ch.exists() {
				d.redone = true
				out = append(out, d)
			}
		}
	}
	return out
}

func (r *Run) tag(ids string, cond bool, key string, pos token.Pos, f string, a ...any) bool {
	if strings.Contains(ids, r.c.id) {
		r.must(cond, key, pos, f, a...)
	}
	return cond
}

// normErr makes the ways of asking for the error of the last operation one.
func normErr(t *Term) *Term {
	return subst(t, func(x *Term) *Term {
		if x.op == OExtract && x.k == 1 && x.args[0].op == OCall && (x.args[0].s == "World.Item" || x.args[0].s == "World.Rel") {
			return mk(OCall, "World.Err", 0, types.Universe.Lookup("error").Type(), x.args[0].args...)
		}
		return nil
	}, map[*Term]*Term{})
}

// opErr is the error of an operation of the world.
func (c *capp) opErr(e *Ev) *Term {
	return mk(OCall, "World.Err", 0, types.Universe.Lookup("error").Type(), c.w, e.res)
}

// failed: 1 an operation failed, -1 it did not, 0 not looked at.
func (c *capp) failed(st *State, e *Ev) int {
	if s := errStatus(st, c.opErr(e)); s != 0 {
		return -s
	}
	for _, n := range []string{"World.Item", "World.Rel"} {
		x := mk(OCall, n, 0, nil, c.w, e.res)
		if s := errStatus(st, mkExtract(x, 1, nil)); s != 0 {
			return -s
		}
	}
	return 0
}

func isMut(e *Ev) bool {
	return e.kind == "call" && strings.HasPrefix(e.name, "World.") && (worldKind(e.name) == 'm' || worldKind(e.name) == 'w')
}

func hasMut(l *Loop) bool {
	for _, p := range l.paths {
		found := false
		flat(p.trace, func(e *Ev, _ []*Loop) { found = found || isMut(e) })
		if found {
			return true
		}
	}
	return false
}

// muts lists the changes to a world, and the loops that make some.
func muts(evs []*Ev) (out []*Ev) {
	for _, e := range evs {
		if isMut(e) || e.kind == "loop" && hasMut(e.loop) {
			out = append(out, e)
		}
	}
	return out
}

// before lists the queries made before the first change.
func before(evs []*Ev) (out []*Ev) {
	for _, e := range evs {
		if isMut(e) || e.kind == "loop" && hasMut(e.loop) {
			break
		}
		if e.kind == "call" && strings.HasPrefix(e.name, "World.") {
			out = append(out, e)
		}
	}
	return out
}

// known finds what the chain looked up before it changed anything.
func (ch *chain) known() (q *Ev, cond *Term) {
	c := ch.c
	for _, e := range before(ch.evs) {
		switch e.name {
		case "World.ItemFetch", "World.Parent", "World.ItemParent", "World.Components", "World.ItemComponents":
			if ch.op.ty == "item" && len(e.args) > 1 && e.args[1] == c.id {
				return e, mkExtract(e.res, 1, types.Typ[types.Bool])
			}
		case "World.RelFetch":
			if ch.op.ty == "rel" && len(e.args) > 3 && e.args[1] == c.id && e.args[2] == c.to && (e.args[3] == tTrue || ch.op.verb == "fetch") {
				return e, mkNot(mkEmpty(e.res))
			}
		}
	}
	return nil, nil
}

// exists: 1 what the command names exists, -1 it does not, 0 the command did not look.
func (ch *chain) exists() int {
	_, cond := ch.known()
	if cond == nil {
		return 0
	}
	return ch.st.facts.eval(cond)
}

// old gives the value that the command found.
func (ch *chain) old(e *Ev) *Term {
	switch e.name {
	case "World.ItemFetch":
		return mkExtract(e.res, 0, ch.c.itemT)
	case "World.RelFetch":
		return mkIndex(e.res, cInt(0), ch.c.relT)
	}
	return nil
}

// given reports how the parameters of an operation differ from those that were typed.
func (ch *chain) given(got *Term) string {
	t := ch.c.items
	if ch.op.ty == "rel" {
		t = ch.c.rels
	}
	s := structOf(t)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		key := cStr(strings.ToLower(f.Name()))
		has := ch.st.facts.eval(mkLookupOk(ch.c.content, key))
		v := mkField(got, f.Name(), f.Type())
		if ch.op.verb == "create-or-fetch" && v.op == ONil {
			continue // The grammar has no such command with attributes.
		}
		switch has {
		case 1:
			if v.op != OAddr {
				return fmt.Sprintf("%s was typed but %v is passed", f.Name(), v)
			}
			val := mkLookup(ch.c.content, key, types.Typ[types.String])
			x := v.args[0]
			if isBasic(ptrElem(f.Type()), types.IsBoolean) {
				if !boolIs(ch.st, x, mkEq(val, cStr("true"))) && !(ch.op.verb == "clear" && x == tFalse) {
					return fmt.Sprintf("%s is %v", f.Name(), x)
				}
			} else if !same(ch.st, x, val) && !(ch.op.verb == "clear" && x == cStr("")) {
				return fmt.Sprintf("%s is %v", f.Name(), x)
			}
		case -1:
			if v.op != ONil {
				return fmt.Sprintf("%s was not typed but %v is passed", f.Name(), v)
			}
		default:
			return fmt.Sprintf("%s is passed as %v without looking at what was typed", f.Name(), v)
		}
	}
	return ""
}

// former reports how parameters differ from the attributes something had.
func (c *capp) former(st *State, got *Term, old *Term, rel bool, kept func(f string) bool) string {
	t := c.items
	if rel {
		t = c.rels
	}
	s := structOf(t)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		v := mkField(got, f.Name(), f.Type())
		if v.op == ONil && kept != nil && kept(f.Name()) {
			continue
		}
		if v.op != OAddr {
			return fmt.Sprintf("%s is %v, not the former value", f.Name(), v)
		}
		ot := c.itemT
		if rel {
			ot = c.relT
		}
		ft := fieldType(ot, f.Name())
		if ft == nil {
			return "there is no attribute " + f.Name()
		}
		want := mkField(old, f.Name(), ft)
		if b, ok := ft.(*types.Named); ok && b.Obj().Name() == "ItemType" {
			want = mk(OCall, "world.StringFromItemType", 0, types.Typ[types.String], want)
		}
		if !same(st, v.args[0], want) {
			return fmt.Sprintf("%s is %v, not the former value %v", f.Name(), v.args[0], want)
		}
	}
	return ""
}

// resultOf reports whether a value is the item or relationship an operation answered with.
func (ch *chain) resultOf(e *Ev, v *Term) bool {
	name := "World.Item"
	if ch.op.ty == "rel" {
		name = "World.Rel"
	}
	if v.op == OExtract && v.k == 0 && v.args[0].op == OCall && v.args[0].s == name && v.args[0].args[1] == e.res {
		return true
	}
	after := false
	for _, q := range ch.evs {
		if q == e {
			after = true
			continue
		}
		if !after || q.kind != "call" {
			continue
		}
		if isMut(q) {
			after = false
		}
		if q.name == "World.ItemFetch" && ch.op.ty == "item" && q.args[1] == ch.c.id && v == mkExtract(q.res, 0, ch.c.itemT) {
			return true
		}
		if q.name == "World.RelFetch" && ch.op.ty == "rel" && q.args[1] == ch.c.id && q.args[2] == ch.c.to && q.args[3] == tTrue && v == mkIndex(q.res, cInt(0), ch.c.relT) {
			return true
		}
	}
	return false
}

// strict is the condition that the strict flag was typed.
func (c *capp) strict() *Term { return mkContains(c.flags, cStr("strict")) }

// call checks that a change is the given operation on the given operands.
func (ch *chain) call(e *Ev, name string, params bool, operands ...*Term) bool {
	r := ch.c.r
	k := ch.op.String() + ": "
	if !r.tag("C02", e.kind == "call" && e.name == "World."+name, k+"operation", e.pos, "%q performs %s, not %s", ch.op, evName(e), name) {
		return false
	}
	ok := true
	for i, o := range operands {
		ok = r.tag("C02", same(ch.st, e.args[i+1], o), k+"operands", e.pos, "%q performs %s on %v as operand %d, not %v", ch.op, name, e.args[i+1], i+1, o) && ok
	}
	if params {
		d := ch.given(e.args[len(e.args)-1])
		ok = r.tag("C02", d == "", k+"parameters", e.pos, "%q passes other parameters than those typed: %s", ch.op, d) && ok
	}
	return ok
}

func evName(e *Ev) string {
	if e.kind == "loop" {
		return "a loop of changes"
	}
	return strings.TrimPrefix(e.name, "World.")
}

// check compares what a command does with its operation.
func (ch *chain) check() {
	c, r, o := ch.c, ch.c.r, ch.op
	k := o.String() + ": "
	ms := muts(ch.evs)
	E := ch.exists()
	q, _ := ch.known()
	errs := errStatus(ch.st, ch.err)
	if ch.redone {
		k += "again: "
	}
	operands := []*Term{c.id}
	kind := "Item"
	if o.ty == "rel" {
		operands = append(operands, c.to)
		kind = "Rel"
	}
	if o.query() {
		r.tag("C02 C05", len(ms) == 0, k+"a query changes nothing", ch.pos, "%q changes the world", o)
	}
	// one change of the thing that is named, answered with it
	change := func(name string, params, answer bool) {
		if !r.tag("C02", len(ms) == 1, k+"operation", ch.pos, "%q makes %d changes, not one %s", o, len(ms), name) {
			return
		}
		if !ch.call(ms[0], name, params, operands...) {
			return
		}
		if answer && errs != -1 {
			r.tag("C02", ch.resultOf(ms[0], ch.ret), k+"result", ch.pos, "%q answers with %v", o, ch.ret)
		}
		if c.failed(ch.st, ms[0]) == -1 {
			r.tag("C02", errs == 1, k+"success", ch.pos, "%q fails although the operation succeeds", o)
		} else if errs == -1 {
			r.tag("C02", c.failed(ch.st, ms[0]) == 1, k+"success", ch.pos, "%q fails without looking at the operation", o)
		} else {
			r.tag("C02 C26", ch.err == c.opErr(ms[0]), k+"failure", ch.pos, "%q does not answer with the error of the operation but with %v", o, ch.err)
		}
	}
	absent := func() {
		r.tag("C02", len(ms) == 0, k+"nothing to change", ch.pos, "%q makes a change although what it names does not exist", o)
		r.tag("C02 C26", errs == -1, k+"absent", ch.pos, "%q does not fail although what it names does not exist", o)
	}
	value := func(want *Term, t types.Type) {
		if errs != -1 {
			r.tag("C02", same(ch.st, ch.ret, want), k+"result", ch.pos, "%q answers with %v, not %v", o, ch.ret, want)
		}
		r.tag("C02", errs == 1, k+"success", ch.pos, "%q fails", o)
	}
	// the query whose result is the answer
	asked := func(name string, args ...*Term) *Ev {
		for _, e := range before(ch.evs) {
			if e.name == "World."+name && len(e.args) == len(args)+1 {
				ok := true
				for i, a := range args {
					if isBasic(a.typ, types.IsBoolean) {
						ok = ok && boolIs(ch.st, e.args[i+1], a)
					} else {
						ok = ok && same(ch.st, e.args[i+1], a)
					}
				}
				if ok {
					return e
				}
			}
		}
		var have []string
		for _, e := range before(ch.evs) {
			have = append(have, fmt.Sprint(e.name, e.args[1:]))
		}
		r.tag("C02", false, k+"query", ch.pos, "%q does not ask for %s%v but for %v", o, name, args, have)
		return nil
	}
	switch o.verb {
	case "create":
		if E == 1 {
			if len(ms) > 0 {
				change("Create"[:0]+kind+"Create", true, false)
			} else {
				r.ok(k + "existing")
			}
		} else {
			change(kind+"Create", true, true)
		}
	case "create-or-fetch":
		if E == 1 {
			r.tag("C02", len(ms) == 0, k+"existing is fetched", ch.pos, "%q changes what exists", o)
			if old := ch.old(q); r.tag("C02", old != nil, k+"result", ch.pos, "%q does not fetch what exists", o) {
				value(old, nil)
			}
		} else if r.tag("C02", E == -1, k+"looks", ch.pos, "%q does not look whether what it names exists", o) {
			change(kind+"Create", true, true)
		}
	case "create-or-set":
		if E == 1 {
			change(kind+"Set", true, true)
		} else if r.tag("C02", E == -1, k+"looks", ch.pos, "%q does not look whether what it names exists", o) {
			change(kind+"Create", true, true)
		}
	case "set", "clear":
		if E == -1 {
			absent()
		} else {
			change(kind+"Set", true, true)
		}
	case "delete":
		if E == -1 {
			r.tag("C02", len(ms) == 0, k+"nothing to change", ch.pos, "%q makes a change although what it names does not exist", o)
			r.tag("C02", errs == 1, k+"absent", ch.pos, "%q fails although there is nothing to delete", o)
		} else {
			change(kind+"Delete", false, false)
		}
	case "fetch":
		switch {
		case o.ty == "world":
			value(c.w, nil)
		case o.ty == "rel":
			if e := asked("RelFetch", c.id, c.to, c.strict()); e != nil {
				switch ch.st.facts.eval(mkEmpty(e.res)) {
				case 1:
					absent()
				case -1:
					value(mkIndex(e.res, cInt(0), c.relT), nil)
				default:
					r.tag("C02", false, k+"looks", ch.pos, "%q does not look whether what it names exists", o)
				}
			}
		default:
			if e := asked("ItemFetch", c.id); e != nil {
				switch ch.st.facts.eval(mkExtract(e.res, 1, nil)) {
				case -1:
					absent()
				case 1:
					value(mkExtract(e.res, 0, c.itemT), nil)
				default:
					r.tag("C02", false, k+"looks", ch.pos, "%q does not look whether what it names exists", o)
				}
			}
		}
	case "exists":
		q, cond := ch.known()
		if r.tag("C02", q != nil, k+"looks", ch.pos, "%q does not look whether what it names exists", o) {
			r.tag("C02", boolIs(ch.st, ch.ret, cond), k+"result", ch.pos, "%q answers %v, not %v", o, ch.ret, cond)
			r.tag("C02", errs == 1, k+"success", ch.pos, "%q fails", o)
		}
	case "list":
		if o.in {
			if e := asked("ItemComponents", c.id); e != nil {
				switch ch.st.facts.eval(mkExtract(e.res, 1, nil)) {
				case -1:
					absent()
				case 1:
					value(mkExtract(e.res, 0, nil), nil)
				default:
					r.tag("C02", false, k+"looks", ch.pos, "%q does not look whether what it names exists", o)
				}
			}
			return
		}
		var lists []*Ev
		for _, e := range before(ch.evs) {
			if e.name == "World."+kind+"List" {
				lists = append(lists, e)
			}
		}
		if r.tag("C02 C16", len(lists) == 1, k+"query", ch.pos, "%q asks for %d lists", o, len(lists)) {
			value(lists[0].res, nil)
			ch.limit(lists[0])
		}
	case "in?":
		if e := asked("In", c.id, c.to, c.strict()); e != nil {
			r.tag("C02", boolIs(ch.st, ch.ret, e.res), k+"result", ch.pos, "%q answers %v, not %v", o, ch.ret, e.res)
			r.tag("C02", errs == 1, k+"success", ch.pos, "%q fails", o)
		}
	case "to?", "from?":
		name := "RelTo"
		if o.verb == "from?" {
			name = "RelFrom"
		}
		if e := asked(name, c.id, c.strict()); e != nil {
			value(e.res, nil)
		}
	case "nest", "free":
		ch.moves(k, ms, errs)
	default:
		r.bad("rule:"+o.String(), ch.pos, "no rule for %q", o)
	}
}

// limit: the number that was typed is the limit of the list, and without one there is none.
func (ch *chain) limit(e *Ev) {
	r, k := ch.c.r, ch.op.String()+": limit"
	ok := mkLookupOk(ch.c.content, cStr("limit"))
	got := e.args[1]
	switch ch.st.facts.eval(ok) {
	case -1:
		r.tag("C02 C16", same(ch.st, got, cInt(0)), k, e.pos, "without a limit %v is passed", got)
	default:
		// reading the number of a limit that is not there fails, and gives 0
		num := mk(OCall, "strconv.Atoi", 0, nil, mkLookup(ch.c.content, cStr("limit"), types.Typ[types.String]))
		n, err := mkExtract(num, 0, types.Typ[types.Int]), mkExtract(num, 1, nil)
		switch ch.st.facts.eval(mkEq(err, tNil)) {
		case 1:
			r.tag("C02 C16", same(ch.st, got, n), k, e.pos, "the limit passed is %v, not %v", got, n)
		case -1:
			r.tag("C02 C16", same(ch.st, got, cInt(0)) || same(ch.st, got, n), k, e.pos, "for a number that is too large %v is passed", got)
		default:
			r.tag("C02 C16", same(ch.st, got, n), k, e.pos, "the limit passed is %v, not %v", got, n)
		}
	}
}

// moves: every item that is named is moved, unless it is there already or cannot be.
func (ch *chain) moves(k string, ms []*Ev, errs int) {
	c, r, o := ch.c, ch.c.r, ch.op
	name := "Nest"
	if o.verb == "free" {
		name = "Free"
	}
	var L *Loop
	for _, e := range ms {
		if e.kind == "loop" && L == nil {
			L = e.loop
			continue
		}
		// the rest of a loop that was left early
		last := L != nil && !L.natural && e.kind == "call" && e.name == "World."+name && c.failed(ch.st, e) == 1 && errs == -1
		r.tag("C02", last, k+"operation", e.pos, "%q also performs %s", o, evName(e))
	}
	if L == nil {
		// no item is left to move, or none may be moved
		any := false
		for _, e := range ch.evs {
			any = any || e.kind == "loop" && e.loop.coll != nil && same(ch.st, e.loop.coll, c.ids)
		}
		r.tag("C02", errs == -1 || any || ch.st.facts.eval(mkEmpty(c.ids)) == 1, k+"operation", ch.pos, "%q moves nothing", o)
		return
	}
	if !r.tag("C02", L.coll != nil && same(ch.st, L.coll, c.ids) && !L.isMap, k+"operands", L.pos, "%q goes over %v, not over the items named", o, L.coll) {
		return
	}
	r.tag("C02", L.natural || errs == -1, k+"all", L.pos, "%q stops before the last item without an error", o)
	for _, p := range L.paths {
		pm := muts(p.trace)
		isElem := func(t *Term) bool { return t.op == OElem && t.k == L.id && t.args[0] == L.coll }
		if len(pm) == 0 {
			why := 0
			for _, e := range p.trace {
				if e.kind != "call" || len(e.args) < 2 || !isElem(e.args[1]) {
					continue
				}
				switch e.name {
				case "World.Parent", "World.ItemFetch", "World.ItemParent":
					if p.st.facts.eval(mkExtract(e.res, 1, nil)) == -1 {
						why = 1
					}
				}
				if e.name == "World.Parent" {
					old := mkExtract(e.res, 0, types.Typ[types.String])
					if name == "Nest" && same(p.st, old, c.to) && p.st.facts.eval(mkEmpty(c.to)) == -1 {
						why = 2
					}
					if name == "Free" && p.st.facts.eval(mkEmpty(old)) == 1 {
						why = 2
					}
				}
			}
			r.tag("C02", why > 0, k+"every item", L.pos, "%q leaves out an item when [%s]", o, cut(deltaString(p), 300))
			if why == 1 {
				r.tag("C02 C26", ch.ruledOut(L, p) || errs != 1, k+"absent", L.pos, "%q succeeds although an item it names does not exist", o)
			}
			continue
		}
		for i, e := range pm {
			ok := e.kind == "call" && e.name == "World."+name && i == 0 && isElem(e.args[1]) && (name == "Free" || same(p.st, e.args[2], c.to))
			r.tag("C02", ok, k+"operands", e.pos, "%q performs %s%v for an item", o, evName(e), e.args)
		}
	}
	if errs != -1 {
		r.tag("C02", boolIs(ch.st, ch.ret, tTrue), k+"result", ch.pos, "%q answers %v after success", o, ch.ret)
	}
	if errs == -1 && L.natural {
		// some item was not found or not moved
		ok := true
		for _, p := range L.paths {
			bad := false
			for _, e := range p.trace {
				if isMut(e) && c.failed(p.st, e) != -1 {
					bad = true
				}
				if e.kind == "call" && e.name == "World.Parent" && p.st.facts.eval(mkExtract(e.res, 1, nil)) != 1 {
					bad = true
				}
			}
			if !bad && ch.caused(L, p) {
				ok = false
			}
		}
		r.tag("C02", ok, k+"success", ch.pos, "%q fails although every item was moved", o)
	}
}

func deltaString(p *LoopPath) string { return p.facts.String() }

// partsOf lists the parts that a path of a loop contributed to a sequence.
func partsOf(t *Term, f func(loop, path int, x *Term)) {
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OEach {
			for i, n := range eachPaths(t) {
				f(t.k, n, t.args[i])
			}
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(t)
}

// ruledOut: a path of a loop was never taken, because a list it adds to is empty.
func (ch *chain) ruledOut(L *Loop, p *LoopPath) bool { return ruledOut(ch.st, L, p) }

func ruledOut(st *State, L *Loop, p *LoopPath) bool {
	n := -1
	for i, x := range L.paths {
		if x == p {
			n = i
		}
	}
	out := false
	st.facts.each(func(a *Term, v bool) bool {
		if a.op == OEmpty && v {
			for _, part := range seqParts(a.args[0]) {
				if part.op != OEach || part.k != L.id {
					continue
				}
				for i, m := range eachPaths(part) {
					if m == n && mkEmpty(part.args[i]) == tFalse {
						out = true
					}
				}
			}
		}
		return !out
	})
	return out
}

// caused: the path is one of those that make a list of failures non-empty.
func (ch *chain) caused(L *Loop, p *LoopPath) bool {
	n := -1
	for i, x := range L.paths {
		if x == p {
			n = i
		}
	}
	out := false
	ch.st.facts.each(func(a *Term, v bool) bool {
		if a.op == OEmpty && !v {
			for _, part := range seqParts(a.args[0]) {
				if part.op == OEach && part.k == L.id {
					for _, m := range eachPaths(part) {
						out = out || m == n
					}
				}
			}
		}
		return !out
	})
	return out
}

func runC02(r *Run) {
	r.grammarCommands()
	c := r.capp()
	if c == nil {
		return
	}
	for _, o := range operations {
		for _, ch := range c.chains(o) {
			ch.check()
		}
	}
}

func init() {
	register(&Check{id: "C02", run: runC02,
		rule:        "Every command text that the grammar derives (every alternative, every option taken and left, repetitions of none, one and two, texts bare and quoted and of unknown content) is read as the operation, identifiers, parameters and flags that its words name. For each of the 25 operations (type, verb and whether `in` was given), on every trace partition of InputToCommand followed by Execute: the events that reach the world are those prescribed for the operation, in order, with the parsed identifiers and parameters as operands and the flags as their conditions; the result is the prescribed answer of the world; and a failure is returned on the partitions where the world or the operands refuse.",
		assumptions: []string{"the operations and queries of a world mean what C05-C08, C14, C16, C19, C20 and C24 decide", "the parser hands over the attributes that C01 and the actions of the grammar prescribe"}})
}

// eachPaths lists the paths of the loop that contribute to an accumulation.
func eachPaths(t *Term) []int {
	var out []int
	if t.s == "" {
		return nil
	}
	for _, s := range strings.Split(t.s, ",") {
		n, _ := strconv.Atoi(s)
		out = append(out, n)
	}
	return out
}
