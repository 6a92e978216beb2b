package main

// C17: every reply is a well-formed and truthful status.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{id: "C17", run: runC17,
		rule:        "Every partition of App.Exec: where the text parsed as a command, became a command and was executed without an error, the reply is the text of the result and a status 200; on every other partition it is a status text with a fixed code that is not 200. Every error reply, with the unknown texts in it reduced to the characters that the error's printing lets through, is accepted by the grammar as a status with that code. A reply of success built from the text of every kind of result that a command returns, in every small shape, is accepted as a response with the code 200.",
		assumptions: []string{"the attributes in a result are over the characters that can be typed", "longer lists and larger worlds are replied as the small ones are"}})
}

// errText is the string a reply is made of, for the parser: unknown texts go through a Map with a known image.
func (r *Run) textClasses(t *tmpl, x *Term, env *tenv) (*Term, string) {
	why := ""
	known := func(set charset) *Term {
		u := sym(fmt.Sprintf("shown%d", len(env.pieces)), types.Typ[types.String])
		env.unknown(u, set, false)
		return u
	}
	y := subst(x, func(x *Term) *Term {
		if x.op == OCall && x.s == "strconv.Quote" && len(x.args) == 1 {
			// a text that has nothing in it to be escaped
			if set, ok := r.textSet(x.args[0]); ok && plainSet(set) {
				return mkConcat(cStr("\""), known(set), cStr("\""))
			}
			return nil
		}
		if x.op == OEachS {
			if set, ok := r.textSet(x); ok {
				return known(set)
			}
			return nil
		}
		if x.op == OCall && x.s == "strings.Map" && len(x.args) == 2 {
			f := x.args[0]
			if _, ok := f.fn.(*ssa.Function); !ok {
				why = "the function that strings.Map applies is not known"
				return nil
			}
			set, err := r.image(f)
			if err != "" {
				why = err
				return nil
			}
			u := sym(fmt.Sprintf("shown%d", len(env.pieces)), types.Typ[types.String])
			if _, ok := env.pieces[u]; !ok {
				env.unknown(u, set, false)
			}
			return u
		}
		return nil
	}, map[*Term]*Term{})
	return y, why
}

// textSet is the set of characters that a text is made of.
func (r *Run) textSet(x *Term) (charset, bool) {
	if s, ok := x.isStr(); ok {
		var set charset
		for _, c := range s {
			set = set.or(single(int(c)))
		}
		return set, true
	}
	switch {
	case x.op == OConcat:
		var set charset
		for _, a := range x.args {
			s, ok := r.textSet(a)
			if !ok {
				return nil, false
			}
			set = set.or(s)
		}
		return set.norm(), true
	case x.op == OCall && x.s == "strings.Map" && len(x.args) == 2:
		if _, ok := x.args[0].fn.(*ssa.Function); !ok {
			return nil, false
		}
		set, err := r.image(x.args[0])
		return set, err == ""
	case x.op == OEachS:
		L := loops[x.k]
		if L == nil {
			return nil, false
		}
		var set charset
		for i, m := range eachPaths(x) {
			a := x.args[i]
			if a.op == OConv && len(a.args) == 1 && a.args[0].op == OElem && a.args[0].k == L.id && m < len(L.paths) {
				set = set.or(factSet(L.paths[m].st.facts, a.args[0]))
				continue
			}
			s, ok := r.textSet(a)
			if !ok {
				return nil, false
			}
			set = set.or(s)
		}
		return set.norm(), true
	}
	return nil, false
}

// plainSet: only characters that are written as they are when a text is quoted.
func plainSet(set charset) bool {
	for _, q := range set.norm() {
		if q[0] < 0x20 || q[1] > 0x7e {
			return false
		}
	}
	return len(set.and(single('"'))) == 0 && len(set.and(single('\\'))) == 0
}

// factSet is the set of characters that what is known of one leaves.
func factSet(f *Facts, c *Term) charset {
	set := charset{{0, 0x10FFFF}}
	f.each(func(a *Term, b bool) bool {
		if s, ok := condSet(a, c); ok {
			if !b {
				s = s.not().and(charset{{0, 0x10FFFF}})
			}
			set = set.and(s)
		}
		return true
	})
	return set
}

// image is the set of characters that a function on characters can give.
func (r *Run) image(f *Term) (charset, string) {
	fn, _ := f.fn.(*ssa.Function)
	if len(fn.Params) != 1 {
		return nil, "strings.Map applies a function of another form"
	}
	c := sym("rune", fn.Params[0].Type())
	in := NewInterp(r.p, Policy{})
	outs, err := in.RunClosure(fn, f.args, newState(), c)
	if err != nil {
		return nil, "the function that strings.Map applies: " + err.Error()
	}
	var out charset
	for _, o := range outs {
		if o.panic {
			continue
		}
		v := canonIn(o.st, o.rets[0])
		if n, ok := v.isInt(); ok {
			if n >= 0 {
				out = out.or(single(int(n)))
			}
			continue
		}
		if v != c {
			return allChars.and(charset{{0, 0x10FFFF}}), ""
		}
		out = out.or(factSet(o.st.facts, c))
	}
	return out.norm(), ""
}

// condSet is the set of characters for which a condition on a character holds.
func condSet(a, c *Term) (charset, bool) {
	switch a.op {
	case OCall:
		if (a.s == "strings.ContainsRune" || a.s == "strings.IndexRune") && len(a.args) == 2 && a.args[1] == c {
			if s, ok := a.args[0].isStr(); ok && a.s == "strings.ContainsRune" {
				var set charset
				for _, r := range s {
					set = set.or(single(int(r)))
				}
				return set, true
			}
		}
		return nil, false
	case OLe0:
		// strings.IndexRune(texts, c) >= 0
		if l := linOf(a.args[0]); len(l.vars()) == 1 {
			if v := l.vars()[0]; v.op == OCall && v.s == "strings.IndexRune" && len(v.args) == 2 && v.args[1] == c {
				if s, ok := v.args[0].isStr(); ok {
					var set charset
					for _, r := range s {
						set = set.or(single(int(r)))
					}
					switch {
					case l.m[v] == -1 && l.c == 0:
						return set, true
					case l.m[v] == 1 && l.c == 1:
						return set.not().and(charset{{0, 0x10FFFF}}), true
					}
				}
				return nil, false
			}
		}
	case OEq:
	default:
		return nil, false
	}
	// a comparison with constants: find the boundaries by probing the linear form
	l, ok := charBound(a, c)
	return l, ok
}

// charBound solves c <= k, c >= k and c == k.
func charBound(a, c *Term) (charset, bool) {
	top := 0x10FFFF
	if a.op == OEq {
		for i := range a.args {
			if a.args[i] == c {
				if n, ok := a.args[1-i].isInt(); ok {
					return single(int(n)), true
				}
			}
		}
		if a.args[0] == cInt(0) || a.args[1] == cInt(0) {
			x := a.args[0]
			if x == cInt(0) {
				x = a.args[1]
			}
			l := linOf(x)
			if k, coef, ok := l.single(c); ok && (coef == 1 || coef == -1) {
				return single(int(-k * coef)), true
			}
		}
		return nil, false
	}
	k, coef, ok := linOf(a.args[0]).single(c)
	if !ok {
		return nil, false
	}
	switch coef { // coef*c + k <= 0
	case 1:
		return charset{{0, int(-k)}}, true
	case -1:
		return charset{{int(k), top}}, true
	}
	return nil, false
}

// single: the form is const + coef*v.
func (l lin) single(v *Term) (int64, int64, bool) {
	vs := l.vars()
	if len(vs) != 1 || vs[0] != v {
		return 0, 0, false
	}
	return l.c, l.m[v], true
}

func runC17(r *Run) {
	t := r.newTmpl()
	if t == nil {
		return
	}
	p := r.prog()
	appT := p.implOf("pkg/app", "App")
	if appT == nil {
		r.missing("the implementation of App")
		return
	}
	fn := p.method(appT, "Exec")
	parse := p.fn("pkg/grammar", "Parse")
	parserT := p.typ("pkg/grammar", "Parser")
	if fn == nil || parse == nil || parserT == nil || len(fn.Params) != 2 {
		r.missing("App.Exec and grammar.Parse")
		return
	}
	pol := appPolicy(p)
	ok, k := pol.opaque, pol.kind
	pol.opaque = func(n string, f *ssa.Function) bool {
		return n == "app.InputToCommand" || ok(n, f) && k(n) == 0 && !strings.HasPrefix(n, "TopolithError.") || strings.HasPrefix(n, "World.")
	}
	in := NewInterp(p, pol)
	args := paramSyms(fn)
	s := args[1]
	str := types.Typ[types.String]
	var okReply, result *Term
	nOk, nErr := 0, 0
	for _, o := range r.execIn(in, fn, newState(), args...) {
		if o.panic || len(o.rets) != 1 {
			r.bad("reply", o.pos, "answering panics when [%s]", cut(o.st.facts.String(), 400))
			continue
		}
		st := o.st
		reply := canonIn(st, in.snapAll(st, o.rets)[0])
		cond := cut(st.facts.String(), 500)
		// what is known of the text, of the command and of its execution
		parsed, command, made, ran := 0, 0, 0, 0
		var res *Term
		reparsed := 0
		see := func(a *Term, v bool) {
			if a.op != OEq {
				return
			}
			for i := range a.args {
				x, y := a.args[i], a.args[1-i]
				if y == tNil && x.op == OExtract && x.k == 1 && x.args[0].op == OCall {
					c := x.args[0]
					b := -1
					if v {
						b = 1
					}
					switch {
					case c.s == "grammar.Parse" && c.args[0] == s:
						parsed = b
					case c.s == "app.InputToCommand":
						made = b
					case strings.HasSuffix(c.s, ".Execute"):
						ran = b
						res = c
					case c.s == "grammar.Parse":
						if b == -1 {
							reparsed = -1
						}
					}
				}
				if word, ok := x.isStr(); ok && stmtType(y) != nil {
					if stmtType(y).args[0] == s {
						if word == "Command" {
							command = -1
							if v {
								command = 1
							}
						}
					} else if word == "Response" && !v {
						reparsed = -1
					}
				}
			}
		}
		st.facts.each(func(a *Term, v bool) bool { see(a, v); return true })
		valid := parsed == 1 && command == 1
		succeeded := valid && made == 1 && ran == 1 && reparsed != -1
		code, isStatus := statusCode(reply)
		switch {
		case succeeded:
			nOk++
			head := ""
			var body *Term
			for _, q := range flatText(reply) {
				if w, ok := q.isStr(); ok && body != nil {
					head += w
				} else if q.op == OCall && (q.s == "text" || q.s == "fmt.Stringer.String") && body == nil {
					body = q
				} else {
					body = tNil
				}
			}
			okBody := body != nil && body != tNil && res != nil && len(body.args) > 0 && contains(body.args[0], res)
			r.must(okBody, "reply of a command that succeeded", fn.Pos(), "the reply %s is not the result of the command followed by a status, when [%s]", cut(reply.String(), 300), cond)
			if okBody {
				okReply, result = reply, body
			}
		default:
			nErr++
			what := "reply to a text that is no command"
			if valid {
				what = "reply to a command that failed"
			}
			if !r.must(isStatus && code != 200, what, fn.Pos(), "the reply is %s when [%s]", cut(reply.String(), 300), cond) {
				continue
			}
			env := newTenv()
			text, why := r.textClasses(t, reply, env)
			if why != "" {
				r.bad(what+" parses", fn.Pos(), "%s", why)
				continue
			}
			t.env = env
			if _, ok := t.toks(text); !ok {
				r.bad(what+" parses", fn.Pos(), "the reply %s holds a text of any content, so that the grammar need not accept it, when [%s]", cut(reply.String(), 400), cond)
				continue
			}
			r.parses(t, what+" parses", parse, parserT, env, text, "Status", code, cond)
		}
	}
	r.need("replies of success", nOk, 1)
	r.need("replies of failure", nErr, 3)
	r.executed(appT)
	if okReply == nil {
		return
	}
	// what a command can return, and what the grammar makes of it
	n := 0
	for name, rt := range r.resultTypes() {
		for _, v := range r.resultValues(t, rt) {
			text := subst(okReply, func(x *Term) *Term {
				if x == result {
					return v.text
				}
				return nil
			}, map[*Term]*Term{})
			n++
			t.env = v.env
			if _, ok := t.toks(text); !ok {
				r.bad("reply with "+name, fn.Pos(), "the text of %s is not made of its parts: %s", v.what, cut(text.String(), 300))
				continue
			}
			r.parses(t, "reply with "+name, parse, parserT, v.env, text, "Response", 200, v.what)
		}
	}
	r.need("results replied", n, 12)
	_ = str
	r.sizeFree()
	t.finish()
}

// stmtType recognises the kind of statement that a parser found.
func stmtType(x *Term) *Term {
	if x.op == OField && x.s == "StmtType" && x.args[0].op == ODeref {
		x = x.args[0].args[0]
		if x.op == OExtract && x.k == 0 && x.args[0].op == OCall && x.args[0].s == "grammar.Parse" {
			return x.args[0]
		}
	}
	return nil
}

// statusCode is the number a text begins with.
func statusCode(x *Term) (int64, bool) {
	parts := flatText(x)
	if len(parts) == 0 {
		return 0, false
	}
	h := parts[0]
	if h.op == OCall && h.s == "itoa" {
		n, ok := h.args[0].isInt()
		return n, ok
	}
	if w, ok := h.isStr(); ok {
		var n int64
		i := 0
		for i < len(w) && w[i] >= '0' && w[i] <= '9' {
			n = n*10 + int64(w[i]-'0')
			i++
		}
		return n, i > 0 && i < 10
	}
	return 0, false
}

// parses: the grammar takes a text for a statement of the given kind with the given status.
func (r *Run) parses(t *tmpl, key string, parse *ssa.Function, parserT types.Type, env *tenv, text *Term, kind string, code int64, when string) {
	p := r.prog()
	pol := t.policy(Policy{})
	t.guard(key, parse, func() {
		t.explore(env, func() {
			st := newState()
			if !t.env.assume(st) {
				return
			}
			in := NewInterp(p, pol)
			for _, o := range r.execIn(in, parse, st, text) {
				if o.panic || len(o.rets) != 2 {
					r.bad(key, parse.Pos(), "parsing the reply %s panics", cut(text.String(), 300))
					continue
				}
				if !r.must(errStatus(o.st, o.rets[1]) == 1, key, parse.Pos(), "the grammar does not accept the reply %s (%s)", cut(text.String(), 400), when) {
					continue
				}
				ps := in.load(o.st, o.rets[0])
				got, _ := mkField(ps, "StmtType", types.Typ[types.String]).isStr()
				r.must(got == kind, key, parse.Pos(), "the grammar takes the reply %s for a %q, not a %s (%s)", cut(text.String(), 400), got, kind, when)
				resp := mkField(ps, "Response", fieldType(parserT, "Response"))
				status := mkField(resp, "Status", fieldType(fieldType(parserT, "Response"), "Status"))
				n, ok := mkField(status, "Code", types.Typ[types.Int]).isInt()
				r.must(ok && n == code, key, parse.Pos(), "the code read from the reply %s is %v, not %d (%s)", cut(text.String(), 400), mkField(status, "Code", types.Typ[types.Int]), code, when)
			}
		})
	})
}

// executed: what App.exec answers is what the command answered.
func (r *Run) executed(appT types.Type) {
	p := r.prog()
	fn := p.method(appT, "exec")
	if fn == nil {
		return // then Exec itself was followed down to the command
	}
	pol := appPolicy(p)
	in := NewInterp(p, pol)
	for _, o := range r.execIn(in, fn, newState(), paramSyms(fn)...) {
		if o.panic || len(o.rets) != 2 {
			continue
		}
		ok := o.rets[0].op == OExtract && o.rets[1].op == OExtract && o.rets[0].k == 0 && o.rets[1].k == 1 && o.rets[0].args[0] == o.rets[1].args[0] &&
			strings.HasSuffix(o.rets[0].args[0].s, ".Execute")
		if !ok && o.rets[1].op == OExtract && strings.HasSuffix(o.rets[1].args[0].s, ".Execute") && errStatus(o.st, o.rets[1]) == -1 {
			ok = true
		}
		r.must(ok, "result of a command", fn.Pos(), "executing gives %v, %v and not what the command answered", cut(o.rets[0].String(), 200), cut(o.rets[1].String(), 200))
	}
}

// resultTypes are the types of the results of all operations.
func (r *Run) resultTypes() map[string]types.Type {
	out := map[string]types.Type{}
	sub := &Run{c: r.c, tier: r.tier, p: r.prog(), byKey: map[string]*obligation{}, fns: r.fns, counts: map[string]int{}}
	c := sub.capp()
	if c == nil {
		r.missing("InputToCommand")
		return out
	}
	for _, o := range operations {
		n := 0
		for _, ch := range c.chains(o) {
			if errStatus(ch.st, ch.err) == -1 {
				continue
			}
			n++
			if ch.retT == nil {
				if ch.ret.typ == nil || ch.ret.op == ONil || ch.ret.op == OZero && ch.ret.typ == nil {
					r.bad("result of "+o.String(), ch.pos, "the result of %q is %v, which has no text", o, cut(ch.ret.String(), 200))
					continue
				}
				out[shortType(ch.ret.typ)] = ch.ret.typ
				continue
			}
			out[shortType(ch.retT)] = ch.retT
		}
		r.must(n > 0, "result of "+o.String(), c.fn.Pos(), "%q never succeeds", o)
	}
	r.need("kinds of results", len(out), 4)
	return out
}

type resultVal struct {
	what string
	text *Term
	env  *tenv
}

// resultValues are the texts of the values of a type, in small shapes.
func (r *Run) resultValues(t *tmpl, rt types.Type) []resultVal {
	p := r.prog()
	var out []resultVal
	class := t.quotedClass()
	x, tx := r.worldShape(), r.treeShape()
	if x == nil || tx == nil {
		return nil
	}
	types0 := itemTypes(p, p.typ("pkg/world", "ItemType"))
	if n := p.soleImpl(rt); n != nil && types.Identical(n, x.t) || types.Identical(rt, x.t) {
		for _, sp := range shapesOf(r.tier) {
			m, text, _ := r.printed(t, x, tx, sp)
			if m != nil {
				out = append(out, resultVal{fmt.Sprintf("a world (%v)", sp), text, m.unknowns(class)})
			}
		}
		return out
	}
	fn := p.method(rt, "String")
	if fn == nil {
		r.bad("text of "+shortType(rt), token.NoPos, "the result type %s has no String method that can be followed", rt)
		return nil
	}
	type variant struct {
		what string
		v    *Term
		m    *wmodel
	}
	var values func(typ types.Type, name string) []variant
	values = func(typ types.Type, name string) []variant {
		switch {
		case types.Identical(typ, x.itemT), types.Identical(typ, x.relT):
			var vs []variant
			for _, attrs := range []bool{false, true} {
				m := &wmodel{x: x, tx: tx}
				v := m.full(typ, name, attrs, types0)
				id := func(n string) *Term {
					y := sym(n, types.Typ[types.String])
					m.ids = append(m.ids, y)
					return y
				}
				if types.Identical(typ, x.itemT) {
					v = mkWith(v, "Id", id(name+".Id"))
				} else {
					s := structOf(typ)
					for j := 0; j < s.NumFields(); j++ {
						if types.Identical(s.Field(j).Type(), x.itemT) {
							v = mkWith(v, s.Field(j).Name(), mkWith(zeroOf(x.itemT), "Id", id(name+"."+s.Field(j).Name())))
						}
					}
				}
				vs = append(vs, variant{fmt.Sprintf("a %s (attributes %v)", shortType(typ), attrs), v, m})
			}
			if types.Identical(typ, x.itemT) {
				vs = append(vs, variant{"an empty item", zeroOf(typ), &wmodel{}})
			}
			return vs
		}
		switch u := typ.Underlying().(type) {
		case *types.Basic:
			if u.Info()&types.IsBoolean != 0 {
				return []variant{{"true", tTrue, &wmodel{}}, {"false", tFalse, &wmodel{}}}
			}
			if u.Info()&types.IsString != 0 {
				y := sym(name, typ)
				return []variant{{"a text", y, &wmodel{ids: []*Term{y}}}}
			}
			if u.Info()&types.IsInteger != 0 {
				y := sym(name, typ)
				return []variant{{"a number", y, &wmodel{ver: []*Term{mk(OCall, "itoa", 0, types.Typ[types.String], y)}}}}
			}
		case *types.Slice:
			vs := []variant{{"an empty list", tEmptySeq, &wmodel{}}}
			a := values(u.Elem(), name+"1")
			b := values(u.Elem(), name+"2")
			for i := range a {
				vs = append(vs, variant{"a list of " + a[i].what, mkSeq(mkOne(a[i].v)), a[i].m})
				if i < len(b) {
					m := &wmodel{texts: append(append([]*Term{}, a[i].m.texts...), b[i].m.texts...), ids: append(append([]*Term{}, a[i].m.ids...), b[i].m.ids...), ver: append(append([]*Term{}, a[i].m.ver...), b[i].m.ver...)}
					vs = append(vs, variant{"a list of two of " + a[i].what, mkSeq(mkOne(a[i].v), mkOne(b[i].v)), m})
				}
			}
			return vs
		}
		return nil
	}
	vs := values(rt, "result")
	if len(vs) == 0 {
		r.bad("text of "+shortType(rt), fn.Pos(), "results of the type %s cannot be laid out", rt)
	}
	for _, v := range vs {
		st := newState()
		for _, a := range append(append([]*Term{}, v.m.texts...), v.m.ids...) {
			st.assume(mkEq(a, cStr("")), false)
		}
		in := NewInterp(p, Policy{shapes: true, iterations: 40})
		var text *Term
		for _, o := range r.execIn(in, fn, st, v.v) {
			if o.panic || text != nil && text != o.rets[0] {
				r.bad("text of "+shortType(rt), fn.Pos(), "%s has no single text", v.what)
				continue
			}
			text = knownBools(o.st, o.rets[0])
		}
		if text != nil {
			out = append(out, resultVal{v.what, text, v.m.unknowns(class)})
		}
	}
	return out
}
