package main

// C09: what is printed for an item or a relationship is read back as it was.

import (
	"fmt"
	"go/constant"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{id: "C09", run: runC09,
		rule:        "For every way of printing an item or a relationship, with each attribute set or not and of unknown content over the characters that the grammar allows in a quoted text: every attribute that has a value stands in the text under its own key; the grammar, matched against that text with its unknown stretches, accepts it; and the parser's actions and the reading function, interpreted on that match, give back the same record, field by field, with the ends of a relationship in their roles. The shipped parser is shown to follow the grammar for every rule that is used.",
		assumptions: []string{"the content of an attribute is over the characters that the grammar allows in a quoted text, since nothing else can be typed", "the type of an item is one of the declared ones (C25)"}})
}

// typedClass is the set of characters that a quoted text of the grammar can hold.
func (t *tmpl) quotedClass() charset {
	e := t.g.rules["QuotedText"]
	if e == nil {
		t.r.missing("rule QuotedText")
		return nil
	}
	var out charset
	t.g.each(e, func(x *pexp) {
		if x.op == pStar {
			if s, ok := t.g.oneOf(x.kids[0], 0); ok {
				out = s
			}
		}
	})
	if out.empty() {
		t.r.missing("characters of a quoted text")
	}
	return out
}

// known declares the string fields of a record as unknown texts, as far as a state says about them.
func (t *tmpl) record(e *tenv, st *State, rec *Term, typ types.Type, class charset, ids ...string) {
	s := structOf(typ)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if !isBasic(f.Type(), types.IsString) {
			continue
		}
		x := mkField(rec, f.Name(), f.Type())
		must := false
		for _, id := range ids {
			must = must || id == f.Name()
		}
		switch st.facts.eval(mkEq(x, cStr(""))) {
		case 1:
			e.set(x, nil)
		case -1:
			e.unknown(x, class, true)
		default:
			e.unknown(x, class, must)
		}
	}
}

func runC09(r *Run) {
	t := r.newTmpl()
	if t == nil {
		return
	}
	class := t.quotedClass()
	r.roundTrip(t, class, "Item")
	r.roundTrip(t, class, "Rel")
	t.finish()
}

// finish reports the rules that were relied on although the shipped parser does not follow them.
func (t *tmpl) finish() {
	for name := range t.used {
		if !t.broken[name] {
			t.r.ok("parser of rule " + name)
			continue
		}
		for _, o := range pegCache.bad {
			if o.key == "rule:"+name {
				t.r.put("parser of rule "+name, "the texts of this property go through the rule "+name+", which the shipped parser does not follow: "+o.detail, o.pos, false)
			}
		}
	}
	t.r.counts["cases of unknown texts"] = t.splits
}

// attrKey is the key of a field: the name of the field in its JSON form.
func attrKey(s *types.Struct, i int) string {
	k, _, _ := strings.Cut(reflect.StructTag(s.Tag(i)).Get("json"), ",")
	if k == "" {
		k = strings.ToLower(s.Field(i).Name())
	}
	return k
}

// roundTrip: what is printed for a record reads back as that record.
func (r *Run) roundTrip(t *tmpl, class charset, kind string) {
	p := r.prog()
	typ := p.typ("pkg/world", kind)
	if typ == nil {
		r.missing("world." + kind)
		return
	}
	str := p.method(typ, "String")
	read := p.fn("pkg/world", kind+"FromString")
	itemT, typeT := p.typ("pkg/world", "Item"), p.typ("pkg/world", "ItemType")
	if str == nil || read == nil || itemT == nil || typeT == nil {
		r.missing(kind + ".String or " + kind + "FromString")
		return
	}
	rec := sym(strings.ToLower(kind), typ)
	st := structOf(typ)
	pol := t.policy(appPolicy(p))
	op := pol.opaque
	pol.opaque = func(n string, fn *ssa.Function) bool { return fn != str && fn != read && op(n, fn) }
	types0 := itemTypes(p, typeT)
	forms, reads := 0, 0
	s0 := newState()
	if tf := fieldOfType(typ, typeT); tf != "" {
		s0.assume(mkLe0(linOf(mkField(rec, tf, typeT)).neg()), true)
	}
	for _, o := range r.execIn(NewInterp(p, pol), str, s0, rec) {
		if o.panic {
			r.bad("printing "+kind, str.Pos(), "printing a %s panics when [%s]", kind, o.st.facts)
			continue
		}
		form := o.st.facts.String()
		// nothing but the types of the vocabulary is ever stored
		tf := fieldOfType(typ, typeT)
		if tf != "" {
			x := mkField(rec, tf, typeT)
			known := o.st.facts.eval(mkEq(x, cInt(0))) == 1 || o.st.facts.eval(mkLe0(linOf(x))) == 1
			for _, v := range types0 {
				known = known || o.st.facts.eval(mkEq(x, cInt(v))) != -1
			}
			if !known {
				continue
			}
		}
		forms++
		text := knownBools(o.st, canonIn(o.st, o.rets[0]))
		env := newTenv()
		t.record(env, o.st, rec, typ, class)
		var ends []*Term // the identifiers of the ends of a relationship
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if types.Identical(f.Type(), itemT) {
				id := mkField(mkField(rec, f.Name(), itemT), "Id", types.Typ[types.String])
				ends = append(ends, id)
				env.unknown(id, class, false)
			}
		}
		t.env = env
		if _, ok := t.toks(text); !ok {
			r.bad("printed "+kind, str.Pos(), "the text of a %s is not made of its attributes: %s when [%s]", kind, cut(text.String(), 400), cut(form, 300))
			continue
		}
		// every attribute that has a value is there under its own key
		parts := flatText(text)
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			x := mkField(rec, f.Name(), f.Type())
			key := attrKey(st, i)
			if f.Name() == "Id" {
				continue
			}
			found := -1
			switch {
			case isBasic(f.Type(), types.IsString):
				for j, q := range parts {
					if q == x {
						found = j
					}
				}
				if found >= 0 {
					pre := ""
					if found > 0 {
						pre, _ = parts[found-1].isStr()
					}
					r.must(strings.HasSuffix(pre, " "+key+`="`), "key of "+kind+"."+f.Name(), str.Pos(), "%s.%s is printed after %q and not under its own key %s: %s", kind, f.Name(), pre, key, cut(text.String(), 400))
				}
				r.must(found >= 0 || o.st.facts.eval(mkEq(x, cStr(""))) == 1, "printing of "+kind+"."+f.Name(), str.Pos(), "%s.%s is not printed though it may have a value: %s when [%s]", kind, f.Name(), cut(text.String(), 400), cut(form, 400))
			case isBasic(f.Type(), types.IsBoolean):
				has := hasWord(parts, key+"=true")
				r.must(has || o.st.facts.eval(x) == -1, "printing of "+kind+"."+f.Name(), str.Pos(), "%s.%s is not printed though it may be set: %s when [%s]", kind, f.Name(), cut(text.String(), 400), cut(form, 400))
				r.must(!has || o.st.facts.eval(x) == 1, "printing of "+kind+"."+f.Name(), str.Pos(), "%s.%s is printed though it may not be set: %s when [%s]", kind, f.Name(), cut(text.String(), 400), cut(form, 400))
			case types.Identical(f.Type(), typeT):
				for _, v := range types0 {
					if o.st.facts.eval(mkEq(x, cInt(v))) != -1 {
						r.must(hasWordPrefix(parts, key+"="), "printing of "+kind+"."+f.Name(), str.Pos(), "%s.%s is not printed though it may be %d: %s when [%s]", kind, f.Name(), v, cut(text.String(), 400), cut(form, 400))
					}
				}
			}
		}
		t.guard("reading "+kind, read, func() {
			t.explore(env, func() {
				s2 := o.st.clone()
				if !t.env.assume(s2) {
					return
				}
				in := NewInterp(p, pol)
				args := paramSyms(read)
				args[len(args)-1] = text
				var w *Term
				if len(args) == 2 {
					w = args[0]
				}
				outs := r.execIn(in, read, s2, args...)
				good := 0
				for _, q := range outs {
					reads++
					where := fmt.Sprintf("%s when [%s]", cut(text.String(), 300), cut(q.st.facts.String(), 400))
					if q.panic || len(q.rets) != 2 {
						r.bad("reading "+kind, read.Pos(), "reading %s panics", where)
						continue
					}
					unknownEnd := false
					for _, id := range ends {
						unknownEnd = unknownEnd || fetched(q.st, w, id) == -1
					}
					es := errStatus(q.st, q.rets[1])
					if unknownEnd {
						r.must(es == -1, "reading "+kind+" of unknown items", read.Pos(), "reading a relationship of items that do not exist reports no error: %s", where)
						continue
					}
					if !r.must(es == 1, "reading "+kind, read.Pos(), "the printed text is not read back: %s gives the error %v", where, cut(canonIn(q.st, q.rets[1]).String(), 200)) {
						continue
					}
					good++
					got := in.val(q.st, q.rets[0])
					e := 0
					for i := 0; i < st.NumFields(); i++ {
						f := st.Field(i)
						a := canonIn(q.st, mkField(got, f.Name(), f.Type()))
						b := mkField(rec, f.Name(), f.Type())
						ok := false
						if types.Identical(f.Type(), itemT) && e < len(ends) {
							ok = isFetched(q.st, a, w, ends[e])
							e++
						} else {
							ok = same(q.st, a, b) || sameBool(q.st, a, b)
						}
						r.must(ok, kind+"."+f.Name()+" read back", read.Pos(), "%s.%s reads back as %s from %s", kind, f.Name(), cut(a.String(), 200), where)
					}
				}
				r.must(good > 0, "reading "+kind, read.Pos(), "no way of reading %s succeeds", cut(text.String(), 300))
			})
		})
	}
	r.need("printed forms of "+kind, forms, 16)
	r.need("readings of "+kind, reads, 16)
}

// knownBools replaces the texts of truth values that are known.
func knownBools(st *State, t *Term) *Term {
	return subst(t, func(x *Term) *Term {
		if x.op == OCall && x.s == "fmtbool" {
			switch st.facts.eval(x.args[0]) {
			case 1:
				return cStr("true")
			case -1:
				return cStr("false")
			}
		}
		return nil
	}, map[*Term]*Term{})
}

// guard turns an analysis that cannot be completed into a failed obligation.
func (t *tmpl) guard(key string, fn *ssa.Function, f func()) {
	defer func() {
		if x := recover(); x != nil {
			if u, ok := x.(Undecided); ok {
				t.r.bad("decided: "+key, fn.Pos(), "%s cannot be decided: %s", key, u.why)
				return
			}
			panic(x)
		}
	}()
	f()
}

func sameBool(st *State, a, b *Term) bool {
	v, ok := a.isBool()
	if !ok {
		return false
	}
	e := st.facts.eval(b)
	return v && e == 1 || !v && e == -1
}

// fetched tells whether the item with an identifier exists, as far as a state knows.
func fetched(st *State, w, id *Term) int {
	res := 0
	flat(st.trace, func(e *Ev, _ []*Loop) {
		if e.name == "World.ItemFetch" && len(e.raw) > 1 && same(st, e.raw[1], id) && e.res != nil {
			if v := st.facts.eval(mkExtract(e.res, 1, types.Typ[types.Bool])); v != 0 {
				res = v
			}
		}
	})
	if res != 0 {
		return res
	}
	st.facts.each(func(a *Term, v bool) bool {
		if a.op == OExtract && a.k == 1 && a.args[0].op == OCall && a.args[0].s == "World.ItemFetch" && same(st, a.args[0].args[1], id) {
			if v {
				res = 1
			} else {
				res = -1
			}
		}
		return true
	})
	return res
}

func isFetched(st *State, a, w, id *Term) bool {
	return a.op == OExtract && a.k == 0 && a.args[0].op == OCall && a.args[0].s == "World.ItemFetch" && same(st, a.args[0].args[1], id)
}

func fieldOfType(t, ft types.Type) string {
	s := structOf(t)
	for i := 0; i < s.NumFields(); i++ {
		if types.Identical(s.Field(i).Type(), ft) {
			return s.Field(i).Name()
		}
	}
	return ""
}

// itemTypes are the declared values of the item type.
func itemTypes(p *Prog, t types.Type) (out []int64) {
	tn := typeName(t)
	sc := tn.Pkg().Scope()
	for _, n := range sc.Names() {
		if c, ok := sc.Lookup(n).(*types.Const); ok && types.Identical(c.Type(), t) {
			if v, ok := constant.Int64Val(c.Val()); ok && v != 0 {
				out = append(out, v)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return
}

func flatText(t *Term) []*Term {
	if t.op == OConcat {
		return t.args
	}
	return []*Term{t}
}

func hasWordPrefix(parts []*Term, w string) bool {
	for _, p := range parts {
		if s, ok := p.isStr(); ok && (strings.Contains(s, " "+w)) {
			return true
		}
	}
	return false
}

func hasWord(parts []*Term, w string) bool {
	for i, p := range parts {
		if s, ok := p.isStr(); ok {
			if strings.Contains(s, " "+w+" ") || strings.HasSuffix(s, " "+w) && i == len(parts)-1 {
				return true
			}
		}
	}
	return false
}
