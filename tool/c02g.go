package main

// C02, first half: what the grammar accepts as a command is read as the operation and the operands
// that its words name.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// leaf is a part of a text that a grammar derives: known characters, or a run over a set.
type leaf struct {
	lit   string
	run   charset
	some  bool // the run is not empty
	space bool
}

type deriver struct {
	g     *Grammar
	mode  int // which of the ways of writing a text is used
	depth int
	n     int
	over  bool
}

const maxDerivations = 4000

var blank = charset{{'\t', '\n'}, {'\r', '\r'}, {' ', ' '}}

func (d *deriver) deref(e *pexp) *pexp {
	for i := 0; i < 20; i++ {
		switch {
		case e.op == pRef:
			e = d.g.rules[e.ref]
		case e.op == pCap:
			e = e.kids[0]
		case e.op == pSeq && len(e.kids) == 1:
			e = e.kids[0]
		default:
			return e
		}
	}
	return e
}

// textual: the expression is a run of characters, perhaps within quotes.
func (d *deriver) textual(e *pexp, depth int) bool {
	if depth > 8 {
		return false
	}
	e = d.deref(e)
	switch e.op {
	case pStar:
		if s, ok := d.g.oneOf(e.kids[0], 0); ok && !s.within(blank) {
			return true
		}
	case pSeq:
		for _, k := range e.kids {
			if d.textual(k, depth+1) {
				return true
			}
		}
	}
	return false
}

// gen lists the texts that an expression derives: every alternative, every option taken and left, and repetitions of none, one and two.
func (d *deriver) gen(e *pexp) [][]leaf {
	d.depth++
	defer func() { d.depth-- }()
	if d.depth > 60 || d.over {
		d.over = true
		return nil
	}
	if s, ok := d.g.oneOf(e, 0); ok && len(s) == 1 && s[0][0] == s[0][1] {
		return [][]leaf{{{lit: string(rune(s[0][0]))}}}
	}
	switch e.op {
	case pChar:
		if e.set.within(blank) {
			return [][]leaf{{{space: true}}}
		}
		if len(e.set) == 1 && e.set[0][0] == e.set[0][1] {
			return [][]leaf{{{lit: string(rune(e.set[0][0]))}}}
		}
		lower := e.set.and(charset{{'a', 'z'}})
		if !lower.empty() && bothCases(lower).norm().String() == e.set.norm().String() && len(lower) == 1 && lower[0][0] == lower[0][1] {
			return [][]leaf{{{lit: string(rune(lower[0][0]))}}}
		}
		return [][]leaf{{{run: e.set, some: true}}} // one character of a set: a run stands for it
	case pRef:
		return d.gen(d.g.rules[e.ref])
	case pCap:
		return d.gen(e.kids[0])
	case pAct, pAnd, pNot:
		return [][]leaf{nil}
	case pOpt:
		return append([][]leaf{nil}, d.gen(e.kids[0])...)
	case pStar:
		_, first := d.g.nf(e.kids[0])
		if first.within(blank) {
			return [][]leaf{{{space: true}}}
		}
		if s, ok := d.g.oneOf(e.kids[0], 0); ok {
			return [][]leaf{{{run: s}}}
		}
		ks := d.gen(e.kids[0])
		out := append([][]leaf{nil}, ks...)
		for i := range ks {
			if len(ks) > 1 || i == 0 {
				out = append(out, joinLeaves(ks[i], ks[(i+1)%len(ks)]))
			}
		}
		return out
	case pAlt:
		var text []*pexp
		var out [][]leaf
		for _, k := range e.kids {
			if d.textual(k, 0) {
				text = append(text, k)
				continue
			}
			out = append(out, d.gen(k)...)
		}
		if len(text) > 1 && len(text) == len(e.kids) {
			return d.gen(text[d.mode%len(text)])
		}
		for _, k := range text {
			out = append(out, d.gen(k)...)
		}
		return out
	case pSeq:
		// a run of at least one
		if len(e.kids) == 2 && e.kids[1].op == pStar && e.kids[1].kids[0] == e.kids[0] {
			if s, ok := d.g.oneOf(e.kids[0], 0); ok {
				return [][]leaf{{{run: s, some: true}}}
			}
			ks := d.gen(e.kids[0])
			out := append([][]leaf{}, ks...)
			for i := range ks {
				if len(ks) > 1 || i == 0 {
					out = append(out, joinLeaves(ks[i], ks[(i+1)%len(ks)]))
				}
			}
			return append(out, joinLeaves(joinLeaves(ks[0], ks[len(ks)/2]), ks[len(ks)-1]))
		}
		out := [][]leaf{nil}
		for _, k := range e.kids {
			ks := d.gen(k)
			var next [][]leaf
			for i, a := range out {
				if len(out)*len(ks) > 300 && len(out) > 1 && len(ks) > 2 {
					// too many to go through: without, and each of the others in turn
					next = append(next, joinLeaves(a, ks[0]), joinLeaves(a, ks[1+i%(len(ks)-1)]))
					continue
				}
				for _, b := range ks {
					next = append(next, joinLeaves(a, b))
				}
			}
			out = next
			if len(out) > maxDerivations {
				d.over = true
				return nil
			}
		}
		return out
	}
	return [][]leaf{nil}
}

func joinLeaves(a, b []leaf) []leaf { return append(append([]leaf{}, a...), b...) }

// word is a part of a command between blanks.
type word struct {
	lit  string // "name=", "create", "--strict"
	val  *Term  // an unknown text after it
	text string
}

// meaning is what the words of a command say.
type meaning struct {
	op     operation
	id     *Term
	ids    []*Term
	second []*Term
	params map[string]*Term
	flags  []string
	ok     bool
}

// words cuts a derived text into words and lays it out.
func (r *Run) words(ls []leaf, env *tenv, safe bool) (ws []word, text *Term) {
	var parts []*Term
	cur := word{}
	has := false
	flush := func() {
		if has {
			ws = append(ws, cur)
		}
		cur, has = word{}, false
	}
	n := 0
	for _, l := range ls {
		switch {
		case l.space:
			flush()
			parts = append(parts, cStr(" "))
		case l.run != nil:
			n++
			u := sym(fmt.Sprintf("u%d", n), types.Typ[types.String])
			set := l.run
			if safe && l.some {
				// the first character is none that a keyword can begin with
				first := set.and(charset{{'0', '9'}, {'A', 'Z'}, {'_', '_'}})
				env.set(u, []ttok{{set: first}, {set: set, many: true}})
			} else {
				env.unknown(u, set, l.some)
			}
			parts = append(parts, u)
			cur.val, has = u, true
		default:
			parts = append(parts, cStr(l.lit))
			has = true
			if l.lit != `"` {
				cur.lit += l.lit
			}
		}
	}
	flush()
	return ws, mkConcat(parts...)
}

// mean reads the words: this is the language of commands as it is documented.
func mean(ws []word) meaning {
	m := meaning{params: map[string]*Term{}}
	var rest []word
	for _, w := range ws {
		if w.val == nil && strings.HasPrefix(w.lit, "-") {
			m.flags = append(m.flags, strings.TrimLeft(w.lit, "-"))
			continue
		}
		rest = append(rest, w)
	}
	if len(rest) == 0 || rest[0].val != nil {
		return m
	}
	var ids []*Term
	operand := func(ws []word) []word {
		for len(ws) > 0 && ws[0].val != nil && ws[0].lit == "" {
			ids = append(ids, ws[0].val)
			ws = ws[1:]
		}
		return ws
	}
	one := func() bool {
		if len(ids) > 0 {
			m.id = ids[0]
		}
		return len(ids) == 1
	}
	two := func() bool {
		if len(ids) > 1 {
			m.id, m.second = ids[0], ids[1:]
		}
		return len(ids) == 2
	}
	params := func(ws []word) bool {
		for _, w := range ws {
			k, v, ok := strings.Cut(w.lit, "=")
			if !ok {
				return false
			}
			if w.val != nil {
				m.params[k] = w.val
			} else {
				m.params[k] = cStr(v)
			}
		}
		return true
	}
	ty := strings.TrimSuffix(rest[0].lit, "s")
	switch rest[0].lit {
	case "world":
		m.op = operation{"world", "fetch", false}
		m.ok = len(rest) == 1
		return m
	case "item?", "rel?":
		m.op = operation{strings.TrimSuffix(rest[0].lit, "?"), "exists", false}
		rest = operand(rest[1:])
		m.ok = len(rest) == 0 && (m.op.ty == "item" && one() || m.op.ty == "rel" && two())
		return m
	case "in?":
		m.op = operation{"item", "in?", false}
		rest = operand(rest[1:])
		m.ok = len(rest) == 0 && two()
		return m
	case "to?", "from?":
		m.op = operation{"rel", rest[0].lit, false}
		rest = operand(rest[1:])
		m.ok = len(rest) == 0 && one()
		return m
	case "nest", "free":
		m.op = operation{"item", rest[0].lit, false}
		rest = operand(rest[1:])
		m.ids = ids
		if m.op.verb == "nest" {
			if len(rest) != 2 || rest[0].lit != "in" || rest[1].val == nil {
				return m
			}
			m.second = []*Term{rest[1].val}
			rest = nil
		}
		m.ok = len(ids) > 0 && len(rest) == 0
		return m
	}
	if ty != "item" && ty != "rel" {
		return m
	}
	rest = rest[1:]
	dual := func() bool { return ty == "item" && one() || ty == "rel" && two() }
	if len(rest) > 0 && rest[0].val == nil {
		verb := rest[0].lit
		rest = rest[1:]
		if verb == "in" {
			m.op = operation{ty, "list", true}
			rest = operand(rest)
			m.ok = len(rest) == 0 && one()
			return m
		}
		m.op = operation{ty, verb, false}
		switch verb {
		case "create", "set":
			rest = operand(rest)
			m.ok = dual() && params(rest)
		case "clear":
			rest = operand(rest)
			m.ok = dual()
			for _, w := range rest {
				m.params[w.lit] = cStr("")
				m.ok = m.ok && w.val == nil
			}
		case "delete", "fetch", "exists":
			rest = operand(rest)
			m.ok = dual() && len(rest) == 0
		case "list":
			rest = operand(rest)
			if len(ids) == 1 {
				m.params["limit"] = ids[0]
			}
			m.ok = len(ids) <= 1 && len(rest) == 0
		}
		return m
	}
	rest = operand(rest)
	m.op = operation{ty, "create-or-fetch", false}
	if len(rest) > 0 {
		m.op.verb = "create-or-set"
	}
	m.ok = dual() && params(rest)
	return m
}

// grammarCommands: every command that the grammar derives is read as what its words mean.
func (r *Run) grammarCommands() {
	t := r.newTmpl()
	if t == nil {
		return
	}
	p := r.prog()
	parse, parserT := p.fn("pkg/grammar", "Parse"), p.typ("pkg/grammar", "Parser")
	if parse == nil || parserT == nil || t.g.rules["Command"] == nil {
		r.missing("grammar.Parse and the rule Command")
		return
	}
	iaT := fieldType(parserT, "InputAttributes")
	if iaT == nil {
		r.missing("Parser.InputAttributes")
		return
	}
	seen := map[operation]int{}
	total, accepted := 0, 0
	done := map[string]bool{}
	verbs := map[[2]string]bool{}
	for mode := 0; mode < 2; mode++ {
		d := &deriver{g: t.g, mode: mode}
		ds := d.gen(t.g.rules["Command"])
		if d.over {
			r.bad("decided:commands", parse.Pos(), "the grammar derives commands in more ways than are gone through")
			return
		}
		for _, ls := range ds {
			env := newTenv()
			ws, text := r.words(ls, env, true)
			if done[text.String()+fmt.Sprint(mode)] {
				continue
			}
			done[text.String()+fmt.Sprint(mode)] = true
			total++
			key := "command " + shapeOf(ws)
			m := mean(ws)
			if len(ws) > 1 && ws[1].val == nil && !strings.HasPrefix(ws[1].lit, "-") && (ws[0].lit == "item" || ws[0].lit == "rel") {
				verbs[[2]string{ws[0].lit, ws[1].lit}] = true
			}
			if !r.must(m.ok, key, parse.Pos(), "the grammar derives the command %s, which means nothing", cut(text.String(), 300)) {
				continue
			}
			if r.readCommand(t, key, env, text, m, iaT, parserT) {
				accepted++
				seen[m.op]++
			}
		}
	}
	for _, o := range operations {
		r.must(seen[o] > 0, "text of "+o.String(), parse.Pos(), "no text is read as %q", o)
	}
	// an identifier may begin with the letters of a word of the language
	var vs [][2]string
	for v := range verbs {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i][0]+vs[i][1] < vs[j][0]+vs[j][1] })
	for _, v := range vs {
		a, b := sym("rest", types.Typ[types.String]), sym("second", types.Typ[types.String])
		env := newTenv()
		env.unknown(a, charset{{'0', '9'}, {'A', 'Z'}, {'_', '_'}, {'a', 'z'}}, true)
		env.unknown(b, charset{{'A', 'Z'}}, true)
		text := mkConcat(cStr(v[0]+" "+v[1]), a)
		m := meaning{op: operation{v[0], "create-or-fetch", false}, id: mkConcat(cStr(v[1]), a)}
		if v[0] == "rel" {
			text = mkConcat(text, cStr(" "), b)
			m.second = []*Term{b}
		}
		sub := &Run{c: r.c, tier: r.tier, p: r.p, byKey: map[string]*obligation{}, fns: r.fns, counts: map[string]int{}}
		ts := sub.newTmpl()
		if ts == nil {
			continue
		}
		sub.readCommand(ts, "command", env, text, m, iaT, parserT)
		why := ""
		for _, o := range sub.obl {
			if !o.ok && why == "" {
				why = o.detail
			}
		}
		r.must(why == "", "identifier of "+v[0]+" that begins with "+v[1], parse.Pos(), "%s", why)
	}
	r.need("words that an identifier can begin with", len(vs), 10)
	r.counts["commands derived"] = total
	r.counts["commands accepted"] = accepted
	t.finish()
}

// shapeOf names a kind of command: without the parameters.
func shapeOf(ws []word) string {
	var out []string
	for _, w := range ws {
		switch {
		case strings.Contains(w.lit, "="), strings.HasPrefix(w.lit, "-"):
		case w.val != nil:
			out = append(out, "X")
		default:
			out = append(out, w.lit)
		}
	}
	return strings.Join(out, " ")
}

// sameText: two texts have the same parts.
func (t *tmpl) sameText(a, b *Term) bool {
	if a == b {
		return true
	}
	x, ok1 := t.toks(a)
	y, ok2 := t.toks(b)
	if !ok1 || !ok2 || len(x) != len(y) {
		return false
	}
	for i := range x {
		single := len(x[i].set) == 1 && x[i].set[0][0] == x[i].set[0][1]
		if x[i].many != y[i].many || x[i].set.String() != y[i].set.String() {
			return false
		}
		if (x[i].many || !single) && (x[i].src != y[i].src || x[i].pi != y[i].pi) {
			return false
		}
	}
	return true
}

// readCommand parses a text and compares what was read with its meaning; it says whether the text is accepted in any case.
func (r *Run) readCommand(t *tmpl, key string, env *tenv, text *Term, m meaning, iaT, parserT types.Type) bool {
	p := r.prog()
	parse := p.fn("pkg/grammar", "Parse")
	pol := t.policy(Policy{})
	str := types.Typ[types.String]
	any := false
	t.guard(key, parse, func() {
		t.explore(env, func() {
			st := newState()
			if !t.env.assume(st) {
				return
			}
			in := NewInterp(p, pol)
			for _, o := range r.execIn(in, parse, st, text) {
				if o.panic || len(o.rets) != 2 {
					r.bad(key, parse.Pos(), "parsing %s panics", cut(text.String(), 300))
					continue
				}
				if errStatus(o.st, o.rets[1]) != 1 {
					continue
				}
				any = true
				ps := in.load(o.st, o.rets[0])
				ia := mkField(ps, "InputAttributes", iaT)
				where := toksString(t.mustToks(text))
				get := func(f string) *Term { return canonIn(o.st, mkField(ia, f, fieldType(iaT, f))) }
				text1 := func(f, want string) {
					s, ok := get(f).isStr()
					r.must(ok && s == want, key+": "+f, parse.Pos(), "%s is read with %s %v, not %q", where, f, get(f), want)
				}
				kind, _ := mkField(ps, "StmtType", str).isStr()
				r.must(kind == "Command", key+": statement", parse.Pos(), "%s is read as a %q", where, kind)
				text1("ResourceType", m.op.ty)
				text1("Verb", m.op.verb)
				inItem := get("InItem")
				r.must(inItem == cBool(m.op.in), key+": InItem", parse.Pos(), "%s is read with InItem %v", where, inItem)
				id := m.id
				if id == nil {
					id = cStr("")
				}
				r.must(t.sameText(get("ResourceId"), id), key+": identifier", parse.Pos(), "%s is read with the identifier %v, not %v", where, get("ResourceId"), id)
				list := func(f string, want []*Term) {
					got, ok := in.texts(o.st, get(f))
					same := ok && len(got) == len(want)
					for i := range want {
						same = same && t.sameText(canonIn(o.st, got[i]), want[i])
					}
					r.must(same, key+": "+f, parse.Pos(), "%s is read with %s %v, not %v", where, f, cut(in.val(o.st, get(f)).String(), 200), want)
				}
				list("ResourceIds", m.ids)
				list("SecondaryIds", m.second)
				flags := []*Term{}
				for _, f := range m.flags {
					flags = append(flags, cStr(f))
				}
				list("Flags", flags)
				// the parameters
				c := in.mapContent(o.st, get("Params"))
				k := sym("any key", str)
				s := o.st.clone()
				var names []string
				for n := range m.params {
					names = append(names, n)
				}
				sort.Strings(names)
				for _, n := range names {
					has := o.st.facts.eval(mkLookupOk(c, cStr(n))) == 1 || mkLookupOk(c, cStr(n)) == tTrue
					v := canonIn(o.st, mkLookup(c, cStr(n), str))
					r.must(has && t.sameText(v, m.params[n]), key+": parameter "+n, parse.Pos(), "%s is read with the parameter %s as %v, not %v", where, n, v, m.params[n])
					s.assume(mkEq(k, cStr(n)), false)
				}
				other := mkLookupOk(c, k)
				r.must(other == tFalse || s.facts.eval(other) == -1, key+": other parameters", parse.Pos(), "%s is read with parameters it does not give: %s", where, cut(c.String(), 300))
			}
		})
	})
	return any
}

// texts are the elements of a list that is known element by element.
func (in *Interp) texts(st *State, l *Term) ([]*Term, bool) {
	v := in.val(st, l)
	if v.op == OZero || v.op == ONil || v == tEmptySeq {
		return nil, true
	}
	if v.op != OSeq {
		return nil, false
	}
	var out []*Term
	for _, a := range v.args {
		if a.op != OOne {
			return nil, false
		}
		out = append(out, a.args[0])
	}
	return out, true
}
