package main

// C25: the item types are one vocabulary.

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{id: "C25", run: runC25,
		rule:        "For every declared item type: its name is not empty and no other type has it, the reading function translates the name to the type, and an item of that type prints the name and is read back with the type. On every partition of the reading function a text that is no type's name gives no type. The grammar, matched against a command and an item with an unknown word for the type, accepts exactly the names, and hands each to the parameters as it is. On every partition of creating and setting an item the type stored is the one given, and one that is not known is refused.",
		assumptions: []string{"C01: the shipped parser follows the grammar file, except for the rules used here, for which it is shown again", "an item is stored under its identifier (C07)"}})
}

func runC25(r *Run) {
	t := r.newTmpl()
	if t == nil {
		return
	}
	p := r.prog()
	str := types.Typ[types.String]
	typeT, itemT := p.typ("pkg/world", "ItemType"), p.typ("pkg/world", "Item")
	fromS, read, print := p.fn("pkg/world", "ItemTypeFromString"), p.fn("pkg/world", "ItemFromString"), p.fn("pkg/world", "StringFromItemType")
	parse, params := p.fn("pkg/grammar", "Parse"), p.fn("pkg/world", "ItemParamsFromInput")
	parserT := p.typ("pkg/grammar", "Parser")
	if typeT == nil || itemT == nil || fromS == nil || read == nil || print == nil || parse == nil || params == nil || parserT == nil {
		r.missing("the functions of the item types")
		return
	}
	str0 := p.method(itemT, "String")
	tf := fieldOfType(itemT, typeT)
	if str0 == nil || tf == "" {
		r.missing("Item.String and the type of an item")
		return
	}
	// the two tables
	names := r.typeNames()
	byName := map[string]int64{}
	var words []string
	for _, v := range itemTypes(p, typeT) {
		n := names[v]
		if !r.must(n != "", "name of a type", print.Pos(), "the type %d has no name", v) {
			continue
		}
		w, dup := byName[n]
		r.must(!dup, "name of a type", print.Pos(), "the types %d and %d are both named %q", w, v, n)
		byName[n] = v
		words = append(words, n)
		outs := r.execIn(NewInterp(p, Policy{}), fromS, newState(), cStr(n))
		for _, o := range outs {
			got, ok := int64(-1), false
			if !o.panic {
				got, ok = o.rets[0].isInt()
			}
			r.must(ok && got == v, "type of the name "+n, fromS.Pos(), "the name %q of the type %d is translated to %d", n, v, got)
		}
	}
	r.need("item types", len(words), 2)
	s := sym("word", str)
	for _, o := range r.execIn(NewInterp(p, Policy{}), fromS, newState(), s) {
		if o.panic {
			r.bad("type of any other text", fromS.Pos(), "translating a text to a type panics")
			continue
		}
		got, ok := o.rets[0].isInt()
		if !r.must(ok, "type of any other text", fromS.Pos(), "a text is translated to %v when [%s]", o.rets[0], cut(o.st.facts.String(), 300)) {
			continue
		}
		if got != 0 {
			r.must(names[got] != "" && o.st.facts.eval(mkEq(s, cStr(names[got]))) == 1, "type of any other text", fromS.Pos(), "a text that need not be %q is translated to the type %d when [%s]", names[got], got, cut(o.st.facts.String(), 300))
		}
	}
	// printed and read back
	id := sym("id", str)
	class := t.quotedClass()
	pol := t.policy(appPolicy(p))
	op := pol.opaque
	pol.opaque = func(n string, fn *ssa.Function) bool { return fn != str0 && fn != read && fn != params && op(n, fn) }
	for n, v := range byName {
		it := mkWith(mkWith(zeroOf(itemT), "Id", id), tf, cInt(v))
		for _, o := range r.execIn(NewInterp(p, pol), str0, newState(), it) {
			if o.panic || len(o.rets) != 1 {
				r.bad("item of the type "+n, str0.Pos(), "printing an item of the type %d panics", v)
				continue
			}
			text := canonIn(o.st, o.rets[0])
			env := newTenv()
			env.unknown(id, class, true)
			r.readType(t, "item of the type "+n, read, env, text, pol, tf, typeT, v)
		}
	}
	// what can be typed
	u := sym("typed", str)
	letters := charset{{'0', '9'}, {'A', 'Z'}, {'_', '_'}, {'a', 'z'}}
	for _, head := range []string{`item set x type=`, `item create x type=`} {
		env := newTenv()
		env.unknown(u, letters, true)
		found := map[string]bool{}
		text := mkConcat(cStr(head), u)
		pol := t.policy(appPolicy(p))
		t.guard("words for a type", parse, func() {
			t.explore(env, func() {
				st := newState()
				if !t.env.assume(st) {
					return
				}
				in := NewInterp(p, pol)
				for _, o := range r.execIn(in, parse, st, text) {
					if o.panic || len(o.rets) != 2 || errStatus(o.st, o.rets[1]) != 1 {
						continue
					}
					ps := in.load(o.st, o.rets[0])
					ia := mkField(ps, "InputAttributes", fieldType(parserT, "InputAttributes"))
					for _, q := range r.execIn(in, params, o.st, ia) {
						w, ok := "", false
						if !q.panic && len(q.rets) == 1 {
							tp := mkField(q.rets[0], "Type", nil)
							val := canonIn(q.st, in.load(q.st, tp))
							if w, ok = val.isStr(); val == u {
								w, ok = t.env.known(u)
							}
						}
						typed, ok2 := t.env.known(u)
						if !r.must(ok && ok2 && w == typed, "words for a type", parse.Pos(), "the type in %q followed by %s reaches the parameters as %q", head, toksString(t.env.pieces[u]), w) {
							continue
						}
						found[w] = true
						r.must(byName[w] != 0, "words for a type", parse.Pos(), "the grammar accepts %q for a type, which no type is named", w)
					}
				}
			})
		})
		for _, w := range words {
			r.must(found[w], "type "+w+" can be typed", parse.Pos(), "the grammar does not accept %q after %q", w, head)
		}
		r.need("words for a type", len(found), 2)
	}
	// what is stored
	if w := r.worldShape(); w != nil {
		w.proj = tf
		w.findKey()
		w.itemCreate()
		w.itemSet()
	}
	t.finish()
	sort.Strings(words)
	r.ok("vocabulary", strings.Join(words, " "))
}

// readType: the text is read as an item of the given type.
func (r *Run) readType(t *tmpl, key string, read *ssa.Function, env *tenv, text *Term, pol Policy, tf string, typeT types.Type, v int64) {
	t.guard(key, read, func() {
		t.env = env
		if _, ok := t.toks(text); !ok {
			r.bad(key, read.Pos(), "the text is not made of its parts: %s", cut(text.String(), 300))
			return
		}
		t.explore(env, func() {
			st := newState()
			if !t.env.assume(st) {
				return
			}
			in := NewInterp(r.prog(), pol)
			args := paramSyms(read)
			args[len(args)-1] = text
			for _, o := range r.execIn(in, read, st, args...) {
				if o.panic || len(o.rets) != 2 {
					r.bad(key, read.Pos(), "reading %s panics", cut(text.String(), 300))
					continue
				}
				if errStatus(o.st, o.rets[1]) == -1 {
					r.bad(key, read.Pos(), "reading %s fails although %d is a type", toksString(t.mustToks(text)), v)
					continue
				}
				got, ok := canonIn(o.st, mkField(in.val(o.st, o.rets[0]), tf, typeT)).isInt()
				r.must(ok && got == v && v > 0, key, read.Pos(), "the type read from %s is %v, not %d", toksString(t.mustToks(text)), mkField(in.val(o.st, o.rets[0]), tf, typeT), v)
			}
		})
	})
}

func (t *tmpl) mustToks(x *Term) []ttok { ts, _ := t.toks(x); return ts }
