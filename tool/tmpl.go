package main

// Texts of unknown content: a text is a row of characters and stretches, each over a set of
// characters. The grammar is matched against such texts, splitting a stretch where the match
// depends on it, and the parser's own code runs on what was matched. Nothing of the program is
// executed: both are abstract interpretations over sets of characters.

import (
	"fmt"
	"go/types"
	"regexp/syntax"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ttok is a character, or a stretch of any number of characters, of a set.
type ttok struct {
	set  charset
	many bool
	src  *Term // the unknown text it is part of
	pi   int   // which part
}

func (t ttok) String() string {
	s := "[" + t.set.String() + "]"
	if len(t.set) == 1 && t.set[0][0] == t.set[0][1] {
		s = string(rune(t.set[0][0]))
	}
	if t.many {
		s += "*"
	}
	return s
}

func toksString(ts []ttok) string {
	var b strings.Builder
	for _, t := range ts {
		if t.src != nil && !t.many && t.pi == 0 {
			b.WriteString("<" + cut(t.src.String(), 30) + ">")
		}
		b.WriteString(t.String())
	}
	return b.String()
}

// tenv says what is known of the unknown texts.
type tenv struct {
	pieces map[*Term][]ttok
	alias  map[*Term]*Term // other texts put together from known ones
}

func newTenv() *tenv { return &tenv{pieces: map[*Term][]ttok{}} }

func (e *tenv) clone() *tenv {
	n := newTenv()
	for k, v := range e.pieces {
		n.pieces[k] = v
	}
	return n
}

// unknown declares a text over a set of characters.
func (e *tenv) unknown(t *Term, set charset, nonEmpty bool) {
	ps := []ttok{{set: set, many: true}}
	if nonEmpty {
		ps = []ttok{{set: set}, {set: set, many: true}}
	}
	e.set(t, ps)
}

func (e *tenv) set(t *Term, ps []ttok) {
	out := make([]ttok, len(ps))
	for i, p := range ps {
		p.src, p.pi = t, i
		out[i] = p
	}
	e.pieces[t] = out
}

// known is the text itself, if all of it is known.
func (e *tenv) known(x *Term) (string, bool) {
	var b strings.Builder
	for _, p := range e.pieces[x] {
		if p.many || len(p.set) != 1 || p.set[0][0] != p.set[0][1] {
			return "", false
		}
		b.WriteRune(rune(p.set[0][0]))
	}
	return b.String(), true
}

// assume puts what is known of the unknown texts into a state.
func (e *tenv) assume(st *State) bool {
	for t, ps := range e.pieces {
		if t.op == OCall {
			continue
		}
		if len(ps) == 0 {
			if !st.assume(mkEq(t, cStr("")), true) {
				return false
			}
			continue
		}
		if w, ok := e.known(t); ok {
			if !st.assume(mkEq(t, cStr(w)), true) {
				return false
			}
			continue
		}
		for _, p := range ps {
			if !p.many {
				if !st.assume(mkEq(t, cStr("")), false) {
					return false
				}
				break
			}
		}
	}
	return true
}

// splitReq asks to distinguish cases of an unknown text.
type splitReq struct {
	src  *Term
	alts [][]ttok
}

func splitPiece(t ttok, ps []ttok, alts ...[]ttok) {
	if t.src == nil {
		panic(Undecided{"a known character is not decided"})
	}
	var out [][]ttok
	for _, a := range alts {
		n := append([]ttok{}, ps[:t.pi]...)
		n = append(n, a...)
		n = append(n, ps[t.pi+1:]...)
		out = append(out, n)
	}
	panic(splitReq{t.src, out})
}

// tmpl is one analysis of the parser on texts of unknown content.
type tmpl struct {
	r       *Run
	p       *Prog
	g       *Grammar
	env     *tenv
	matches []*tmatch
	actions map[*pexp]int64
	capNum  int64
	tokT    types.Type
	broken  map[string]bool // rules that the shipped parser does not follow
	used    map[string]bool
	splits  int
	budget  int
	start   time.Time
	visits  map[string]bool
}

type tmatch struct {
	toks []ttok
	ok   bool
	evs  []tev
	end  int
}

type tev struct {
	cap        bool
	begin, end int
	act        *pexp
}

// newTmpl ties the grammar to the shipped parser.
func (r *Run) newTmpl() *tmpl {
	if pegCache == nil {
		sub := &Run{c: r.c, tier: r.tier, p: r.prog(), byKey: map[string]*obligation{}, fns: map[string]bool{}, counts: map[string]int{}}
		pegCache = &pegLink{m: sub.parserLink(), broken: map[string]bool{}}
		for _, o := range sub.obl {
			if !o.ok {
				pegCache.bad = append(pegCache.bad, o)
				pegCache.broken[strings.TrimPrefix(o.key, "rule:")] = true
			}
		}
	}
	if pegCache.m == nil {
		for _, o := range pegCache.bad {
			r.put("parser: "+o.key, o.detail, o.pos, false)
		}
		return nil
	}
	m := pegCache.m
	t := &tmpl{r: r, p: r.prog(), g: m.g, actions: map[*pexp]int64{}, broken: pegCache.broken, used: map[string]bool{}, budget: 4000, start: time.Now(), visits: map[string]bool{}}
	nums := map[string]int64{}
	for v, n := range m.consts {
		nums[n] = v
	}
	for n, a := range m.actions {
		t.actions[a] = nums[n]
	}
	t.capNum = nums["PegText"]
	t.tokT = t.p.typ("pkg/grammar", "token32")
	if t.tokT == nil || t.capNum == 0 {
		r.missing("grammar.token32")
		return nil
	}
	for _, o := range pegCache.bad {
		if !strings.HasPrefix(o.key, "rule:") {
			r.put("parser: "+o.key, "the shipped parser does not follow the grammar: "+o.detail, o.pos, false)
		}
	}
	return t
}

type pegLink struct {
	m      *pegMachine
	bad    []*obligation
	broken map[string]bool
}

var pegCache *pegLink

// explore runs f for every case of the unknown texts that has to be distinguished.
func (t *tmpl) explore(e *tenv, f func()) {
	old := t.env
	defer func() { t.env = old }()
	n := 0
	var rec func(e *tenv)
	rec = func(e *tenv) {
		n++
		if n > 300 && t.r.failing() {
			return // the verdict is known
		}
		if n > t.budget || time.Since(t.start) > 240*time.Second {
			panic(Undecided{"too many cases of unknown texts"})
		}
		var req *splitReq
		func() {
			defer func() {
				if x := recover(); x != nil {
					if s, ok := x.(splitReq); ok {
						req = &s
						return
					}
					panic(x)
				}
			}()
			t.env = e
			t.matches = nil
			f()
		}()
		if req == nil {
			return
		}
		t.splits++
		for _, a := range req.alts {
			d := e.clone()
			d.set(req.src, a)
			rec(d)
		}
	}
	rec(e)
}

// toks is a text as a row of characters and stretches.
func (t *tmpl) toks(x *Term) ([]ttok, bool) {
	if ps, ok := t.env.pieces[x]; ok {
		return ps, true
	}
	if s, ok := x.isStr(); ok {
		var out []ttok
		for _, r := range s {
			out = append(out, ttok{set: single(int(r))})
		}
		return out, true
	}
	switch x.op {
	case OConcat:
		var out []ttok
		for _, a := range x.args {
			ts, ok := t.toks(a)
			if !ok {
				return nil, false
			}
			out = append(out, ts...)
		}
		return out, true
	case OCall:
		switch x.s {
		case "itoa":
			if n, ok := x.args[0].isInt(); ok {
				return t.toks(cStr(strconv.FormatInt(n, 10)))
			}
		case "fmtbool":
			if b, ok := x.args[0].isBool(); ok {
				return t.toks(cStr(strconv.FormatBool(b)))
			}
		}
	case OConv:
		if x.s == "string" || x.s == "bytes" {
			return t.toks(x.args[0])
		}
	}
	return nil, false
}

// term is the text that a row of characters and stretches stands for.
func (t *tmpl) term(ts []ttok) *Term {
	var parts []*Term
	for i := 0; i < len(ts); {
		k := ts[i]
		if k.src == nil {
			parts = append(parts, cStr(string(rune(k.set[0][0]))))
			i++
			continue
		}
		ps := t.env.pieces[k.src]
		if k.pi == 0 && i+len(ps) <= len(ts) {
			whole := true
			for j := range ps {
				if ts[i+j].src != k.src || ts[i+j].pi != j {
					whole = false
				}
			}
			if whole {
				parts = append(parts, k.src)
				i += len(ps)
				continue
			}
		}
		parts = append(parts, mk(OCall, "part", k.pi, types.Typ[types.String], k.src))
		i++
	}
	return mkConcat(parts...)
}

// --- matching ---

type tmatcher struct {
	t    *tmpl
	toks []ttok
	evs  []tev
	n    int
}

// test decides whether the character at pos is of the set: 1 yes, -1 no, 0 it depends.
func (m *tmatcher) test(pos int, set charset) int {
	yes, no := false, false
	for ; ; pos++ {
		if pos >= len(m.toks) {
			if set.has(endRune) {
				yes = true
			} else {
				no = true
			}
			break
		}
		k := m.toks[pos]
		if !k.set.and(set).empty() {
			yes = true
		}
		if !k.set.within(set) {
			no = true
		}
		if !k.many {
			break
		}
	}
	switch {
	case yes && no:
		return 0
	case yes:
		return 1
	}
	return -1
}

// split distinguishes the cases on which the character at pos depends.
func (m *tmatcher) split(pos int, set charset) {
	k := m.toks[pos]
	ps := m.t.env.pieces[k.src]
	in, out := k.set.and(set), k.set.and(set.not())
	if !k.many {
		splitPiece(k, ps, []ttok{{set: in}}, []ttok{{set: out}})
	}
	alts := [][]ttok{nil}
	for _, h := range []charset{in, out} {
		if !h.empty() {
			alts = append(alts, []ttok{{set: h}, {set: k.set, many: true}})
		}
	}
	splitPiece(k, ps, alts...)
}

// char takes one character of the set.
func (m *tmatcher) char(pos int, set charset) (int, bool) {
	switch m.test(pos, set) {
	case -1:
		return pos, false
	case 0:
		m.split(pos, set)
	}
	if pos >= len(m.toks) {
		panic(Undecided{"the grammar takes a character after the end"})
	}
	if m.toks[pos].many {
		m.split(pos, set)
	}
	return pos + 1, true
}

// one is the set of characters that an expression takes one of, if that is all it does.
func (g *Grammar) oneOf(e *pexp, d int) (charset, bool) {
	if d > 6 {
		return nil, false
	}
	switch e.op {
	case pChar:
		return e.set, true
	case pSeq:
		if len(e.kids) == 1 {
			return g.oneOf(e.kids[0], d+1)
		}
	case pRef:
		return g.oneOf(g.rules[e.ref], d+1)
	case pAlt:
		var out charset
		for _, k := range e.kids {
			s, ok := g.oneOf(k, d+1)
			if !ok {
				return nil, false
			}
			out = out.or(s)
		}
		return out, true
	}
	return nil, false
}

func (m *tmatcher) match(e *pexp, pos int) (int, bool) {
	m.n++
	if m.n > 400000 {
		panic(Undecided{"matching a text takes too long"})
	}
	switch e.op {
	case pChar:
		return m.char(pos, e.set)
	case pSeq:
		p := pos
		for _, k := range e.kids {
			q, ok := m.match(k, p)
			if !ok {
				return pos, false
			}
			p = q
		}
		return p, true
	case pAlt:
		for _, k := range e.kids {
			n := len(m.evs)
			if q, ok := m.match(k, pos); ok {
				return q, true
			}
			m.evs = m.evs[:n]
		}
		return pos, false
	case pOpt:
		n := len(m.evs)
		if q, ok := m.match(e.kids[0], pos); ok {
			return q, true
		}
		m.evs = m.evs[:n]
		return pos, true
	case pStar:
		if set, ok := m.t.g.oneOf(e.kids[0], 0); ok {
			return m.stretch(pos, set), true
		}
		for {
			n := len(m.evs)
			q, ok := m.match(e.kids[0], pos)
			if !ok {
				m.evs = m.evs[:n]
				return pos, true
			}
			if q == pos {
				panic(Undecided{"a repetition in the grammar takes nothing"})
			}
			pos = q
		}
	case pAnd, pNot:
		n := len(m.evs)
		_, ok := m.match(e.kids[0], pos)
		m.evs = m.evs[:n]
		return pos, ok == (e.op == pAnd)
	case pRef:
		m.t.used[e.ref] = true
		if f := m.t.g.first[e.ref]; !m.t.g.null[e.ref] && m.test(pos, f) == -1 {
			return pos, false
		}
		return m.match(m.t.g.rules[e.ref], pos)
	case pAct:
		m.evs = append(m.evs, tev{act: e})
		return pos, true
	case pCap:
		q, ok := m.match(e.kids[0], pos)
		if !ok {
			return pos, false
		}
		m.evs = append(m.evs, tev{cap: true, begin: pos, end: q})
		return q, true
	}
	panic(Undecided{"unknown expression in the grammar"})
}

// stretch takes as many characters of the set as there are.
func (m *tmatcher) stretch(pos int, set charset) int {
	for pos < len(m.toks) {
		k := m.toks[pos]
		if k.set.within(set) {
			pos++
			continue
		}
		if k.set.and(set).empty() {
			if !k.many {
				return pos
			}
			switch m.test(pos, set) {
			case -1:
				return pos
			}
			m.split(pos, set)
		}
		if !k.many {
			m.split(pos, set)
		}
		in, out := k.set.and(set), k.set.and(set.not())
		splitPiece(k, m.t.env.pieces[k.src], []ttok{{set: in, many: true}}, []ttok{{set: in, many: true}, {set: out}, {set: k.set, many: true}})
	}
	return pos
}

// matchRule applies a rule to a text.
func (t *tmpl) matchRule(name string, ts []ttok) *tmatch {
	e := t.g.rules[name]
	if e == nil {
		panic(Undecided{"no rule " + name + " in the grammar"})
	}
	m := &tmatcher{t: t, toks: ts}
	t.used[name] = true
	end, ok := m.match(e, 0)
	return &tmatch{toks: ts, ok: ok, evs: m.evs, end: end}
}

// parse applies the whole grammar to a text.
func (t *tmpl) parse(ts []ttok) *tmatch { return t.matchRule(t.g.order[0], ts) }

// --- the parser's own code on a match ---

func (t *tmpl) policy(base Policy) Policy {
	pol := base
	op := pol.opaque
	pol.opaque = func(n string, fn *ssa.Function) bool {
		switch n {
		case "grammar.Parse", "Parser.Execute", "grammar.cleanString", "grammar.splitIds", "world.ItemTypeFromString", "world.StringFromItemType":
			return false
		}
		if fn.Pkg != nil && strings.HasSuffix(fn.Pkg.Pkg.Path(), "pkg/grammar") {
			return false
		}
		return op != nil && op(n, fn)
	}
	pol.iterations = 400
	pol.cells = true
	pol.conv = t.conv
	pol.hook = t.hook
	return pol
}

func (t *tmpl) conv(a *Term, to types.Type) *Term {
	b, ok := to.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsString == 0 {
		return nil
	}
	if a == tEmptySeq {
		return cStr("")
	}
	if a.op == OSlice && a.args[0].op == OSym && a.args[0].s == "$buffer" {
		lo, ok1 := a.args[1].isInt()
		hi, ok2 := a.args[2].isInt()
		m := t.matches[a.args[0].k]
		if ok1 && ok2 && 0 <= lo && lo <= hi && int(hi) <= len(m.toks) {
			return t.term(m.toks[lo:hi])
		}
	}
	return nil
}

func ptrTo(recv *Term, field string, ft types.Type) *Term {
	return mk(OFieldP, field, 0, types.NewPointer(ft), recv)
}

var parseErr = mk(OIface, "", 0, errorfType, mk(OCall, "grammar: the text does not match", 0, nil))

func (t *tmpl) hook(in *Interp, c *callCtx) []callRes {
	st := c.p.st
	switch c.name {
	case "Parser.Init":
		return one(c.p, tNil)
	case "Parser.Parse":
		p := c.args[0]
		buf := in.load(st, ptrTo(p, "Buffer", types.Typ[types.String]))
		ts, ok := t.toks(buf)
		if !ok {
			panic(Undecided{"the text that is parsed is not known: " + cut(buf.String(), 300)})
		}
		m := t.parse(ts)
		if !m.ok {
			return one(c.p, parseErr)
		}
		t.matches = append(t.matches, m)
		k := len(t.matches) - 1
		rt := types.NewSlice(types.Typ[types.Rune])
		in.store(c.fr, st, ptrTo(p, "buffer", rt), mk(OSym, "$buffer", k, rt), c.pos)
		in.store(c.fr, st, ptrTo(p, "$match", types.Typ[types.Int]), cInt(int64(k+1)), c.pos)
		return one(c.p, tNil)
	case "tokens32.Tokens":
		p := c.args[0]
		if p.op != OFieldP {
			return nil
		}
		p = p.args[0]
		k, ok := in.load(st, ptrTo(p, "$match", types.Typ[types.Int])).isInt()
		if !ok || k < 1 {
			panic(Undecided{"the actions of the parser run without a match"})
		}
		var parts []*Term
		for _, e := range t.matches[k-1].evs {
			x := zeroOf(t.tokT)
			if e.cap {
				x = mkWith(x, "pegRule", cInt(t.capNum))
				x = mkWith(x, "begin", cInt(int64(e.begin)))
				x = mkWith(x, "end", cInt(int64(e.end)))
			} else {
				n, ok := t.actions[e.act]
				if !ok {
					panic(Undecided{"an action of the grammar is not in the shipped parser"})
				}
				x = mkWith(x, "pegRule", cInt(n))
			}
			parts = append(parts, mkOne(x))
		}
		if len(parts) == 0 {
			return one(c.p, tEmptySeq)
		}
		return one(c.p, mkSeq(parts...))
	case "Parser.PrintSyntaxTree", "tokens32.PrintSyntaxTree":
		return one(c.p, nil)
	case "strings.TrimSpace", "strings.Trim", "strings.TrimLeft", "strings.TrimRight", "strings.TrimPrefix", "strings.TrimSuffix":
		if _, ok := c.args[0].isStr(); ok && c.name == "strings.TrimSpace" {
			return nil
		}
		ts, ok := t.toks(c.args[0])
		if !ok {
			return nil
		}
		if c.name == "strings.TrimSpace" {
			return one(c.p, t.term(t.trim(ts, spaces, true, true)))
		}
		arg, ok := c.args[1].isStr()
		if !ok {
			return nil
		}
		var set charset
		for _, r := range arg {
			set = set.or(single(int(r)))
		}
		switch c.name {
		case "strings.Trim":
			ts = t.trim(ts, set, true, true)
		case "strings.TrimLeft":
			ts = t.trim(ts, set, true, false)
		case "strings.TrimRight":
			ts = t.trim(ts, set, false, true)
		case "strings.TrimPrefix":
			if n, ok := t.prefix(ts, arg); ok {
				ts = ts[n:]
			}
		default:
			if n, ok := t.suffix(ts, arg); ok {
				ts = ts[:n]
			}
		}
		return one(c.p, t.term(ts))
	case "strings.HasPrefix", "strings.HasSuffix":
		ts, ok := t.toks(c.args[0])
		arg, ok2 := c.args[1].isStr()
		if !ok || !ok2 {
			return nil
		}
		if c.name == "strings.HasPrefix" {
			_, ok = t.prefix(ts, arg)
		} else {
			_, ok = t.suffix(ts, arg)
		}
		return one(c.p, cBool(ok))
	case "strconv.Atoi":
		ts, ok := t.toks(c.args[0])
		if !ok {
			return nil
		}
		x := t.term(ts)
		if s, ok := x.isStr(); ok {
			n, err := strconv.Atoi(s)
			if err == nil {
				return one(c.p, mk(OTuple, "", 0, nil, cInt(int64(n)), tNil))
			}
			return one(c.p, mk(OTuple, "", 0, nil, cInt(0), parseErr))
		}
		if x.op == OCall && x.s == "itoa" {
			return one(c.p, mk(OTuple, "", 0, nil, x.args[0], tNil))
		}
		if t.env.pieces[x] != nil { // a number that was typed
			return one(c.p, mk(OTuple, "", 0, nil, mk(OCall, "number", 0, types.Typ[types.Int], x), tNil))
		}
	case "regexp.Regexp.FindAllString":
		ts, ok := t.toks(c.args[1])
		if !ok {
			return nil
		}
		if n, ok := c.args[2].isInt(); !ok || n >= 0 {
			return nil
		}
		pat := t.pattern(c.args[0])
		if pat == "" {
			return nil
		}
		var parts []*Term
		for _, f := range t.findAll(ts, pat) {
			parts = append(parts, mkOne(t.term(f)))
		}
		if len(parts) == 0 {
			return one(c.p, tNil)
		}
		return one(c.p, mkSeq(parts...))
	case "strings.Fields":
		if ts, ok := t.toks(c.args[0]); ok {
			var parts []*Term
			for _, f := range t.findAll(ts, `\S+`) {
				parts = append(parts, mkOne(t.term(f)))
			}
			if len(parts) == 0 {
				return one(c.p, tEmptySeq)
			}
			return one(c.p, mkSeq(parts...))
		}
	}
	return nil
}

var spaces = charset{{'\t', '\r'}, {' ', ' '}, {0x85, 0x85}, {0xA0, 0xA0}}

// trim takes the characters of the set from the ends of a text.
func (t *tmpl) trim(ts []ttok, set charset, left, right bool) []ttok {
	m := &tmatcher{t: t, toks: ts}
	if left {
		for len(m.toks) > 0 {
			k := m.toks[0]
			if k.set.within(set) {
				m.toks = m.toks[1:]
				continue
			}
			if k.set.and(set).empty() {
				if m.test(0, set) == -1 || !k.many {
					break
				}
				m.split(0, set)
			}
			if !k.many {
				m.split(0, set)
			}
			in, out := k.set.and(set), k.set.and(set.not())
			splitPiece(k, t.env.pieces[k.src], []ttok{{set: in, many: true}}, []ttok{{set: in, many: true}, {set: out}, {set: k.set, many: true}})
		}
	}
	ts = m.toks
	if right {
		for len(ts) > 0 {
			i := len(ts) - 1
			k := ts[i]
			if k.set.within(set) {
				ts = ts[:i]
				continue
			}
			if !k.many {
				if k.set.and(set).empty() {
					break
				}
				m.toks = ts
				m.split(i, set)
			}
			in, out := k.set.and(set), k.set.and(set.not())
			if in.empty() {
				if i == 0 || !ts[i-1].many && ts[i-1].set.and(set).empty() {
					break
				}
				splitPiece(k, t.env.pieces[k.src], nil, []ttok{{set: k.set, many: true}, {set: k.set}})
			}
			splitPiece(k, t.env.pieces[k.src], []ttok{{set: in, many: true}}, []ttok{{set: k.set, many: true}, {set: out}, {set: in, many: true}})
		}
	}
	return ts
}

func (t *tmpl) prefix(ts []ttok, arg string) (int, bool) {
	m := &tmatcher{t: t, toks: ts}
	pos := 0
	for _, r := range arg {
		q, ok := m.char(pos, single(int(r)))
		if !ok {
			return 0, false
		}
		pos = q
	}
	return pos, true
}

func (t *tmpl) suffix(ts []ttok, arg string) (int, bool) {
	rs := []rune(arg)
	i := len(ts)
	for j := len(rs) - 1; j >= 0; j-- {
		set := single(int(rs[j]))
		for i > 0 && ts[i-1].many {
			k := ts[i-1]
			ps := t.env.pieces[k.src]
			alts := [][]ttok{nil}
			for _, h := range []charset{k.set.and(set), k.set.and(set.not())} {
				if !h.empty() {
					alts = append(alts, []ttok{{set: k.set, many: true}, {set: h}})
				}
			}
			splitPiece(k, ps, alts...)
		}
		if i == 0 || ts[i-1].set.and(set).empty() {
			return 0, false
		}
		if !ts[i-1].set.within(set) {
			m := &tmatcher{t: t, toks: ts}
			m.split(i-1, set)
		}
		i--
	}
	return i, true
}

// pattern is the text of a regular expression in a package variable.
func (t *tmpl) pattern(x *Term) string {
	g := x
	if g.op == ODeref {
		g = g.args[0]
	}
	if g.op != OGlobal {
		return ""
	}
	for _, sp := range t.p.spkgs {
		for _, mem := range sp.Members {
			v, ok := mem.(*ssa.Global)
			if !ok || v.String() != g.s {
				continue
			}
			initFn := sp.Func("init")
			for _, b := range initFn.Blocks {
				for _, i := range b.Instrs {
					s, ok := i.(*ssa.Store)
					if !ok || s.Addr != v {
						continue
					}
					if call, ok := s.Val.(*ssa.Call); ok && len(call.Call.Args) == 1 {
						if k, ok := call.Call.Args[0].(*ssa.Const); ok && strings.HasSuffix(call.Call.Value.String(), "MustCompile") {
							str, _ := constTerm(k).isStr()
							return str
						}
					}
				}
			}
		}
	}
	return ""
}

// findAll finds the matches of a regular expression whose choices are decided by the next character.
func (t *tmpl) findAll(ts []ttok, pat string) [][]ttok {
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		panic(Undecided{"regular expression: " + err.Error()})
	}
	e := t.fromRegexp(re.Simplify())
	m := &tmatcher{t: t, toks: ts}
	var out [][]ttok
	for pos := 0; pos < len(ts); {
		q, ok := m.match(e, pos)
		if !ok {
			if ts[pos].many {
				m.split(pos, ts[pos].set)
			}
			pos++
			continue
		}
		if q == pos {
			panic(Undecided{"a regular expression matches the empty text"})
		}
		out = append(out, ts[pos:q])
		pos = q
	}
	return out
}

func (t *tmpl) fromRegexp(re *syntax.Regexp) *pexp {
	chars := func(rs []rune) *pexp {
		var set charset
		for i := 0; i+1 < len(rs); i += 2 {
			set = set.or(charset{{int(rs[i]), int(rs[i+1])}})
		}
		return &pexp{op: pChar, set: set.and(single(endRune).not())}
	}
	sub := func() (out []*pexp) {
		for _, s := range re.Sub {
			out = append(out, t.fromRegexp(s))
		}
		return
	}
	g := t.g
	// the repetition must not be able to give back what follows needs
	checked := func(kids []*pexp) []*pexp {
		for i, k := range kids {
			var set charset
			switch k.op {
			case pStar, pOpt:
				_, set = g.nf(k.kids[0])
			case pSeq:
				if len(k.kids) == 2 && k.kids[1].op == pStar {
					_, set = g.nf(k.kids[1].kids[0])
				}
			}
			for j := i + 1; j < len(kids) && !set.empty(); j++ {
				nl, f := g.nf(kids[j])
				if !f.and(set).empty() {
					panic(Undecided{"a regular expression whose repetitions are not decided by the next character"})
				}
				if !nl {
					break
				}
			}
		}
		return kids
	}
	switch re.Op {
	case syntax.OpLiteral:
		var ks []*pexp
		for _, r := range re.Rune {
			ks = append(ks, &pexp{op: pChar, set: single(int(r))})
		}
		return &pexp{op: pSeq, kids: ks}
	case syntax.OpCharClass:
		return chars(re.Rune)
	case syntax.OpAnyChar, syntax.OpAnyCharNotNL:
		set := single(endRune).not()
		if re.Op == syntax.OpAnyCharNotNL {
			set = set.and(single('\n').not())
		}
		return &pexp{op: pChar, set: set}
	case syntax.OpConcat:
		return &pexp{op: pSeq, kids: checked(sub())}
	case syntax.OpAlternate:
		return &pexp{op: pAlt, kids: sub()}
	case syntax.OpStar:
		if re.Flags&syntax.NonGreedy == 0 {
			return &pexp{op: pStar, kids: sub()}
		}
	case syntax.OpPlus:
		if re.Flags&syntax.NonGreedy == 0 {
			k := sub()[0]
			return &pexp{op: pSeq, kids: []*pexp{k, {op: pStar, kids: []*pexp{k}}}}
		}
	case syntax.OpQuest:
		return &pexp{op: pOpt, kids: sub()}
	case syntax.OpCapture:
		return t.fromRegexp(re.Sub[0])
	}
	panic(Undecided{fmt.Sprintf("regular expression %v", re)})
}
