package main

// The published grammar: reading grammar.peg.

import (
	"fmt"
	"sort"
	"strings"
)

const endRune = 1114112

// charset is a set of characters as sorted disjoint ranges.
type charset [][2]int

var allChars = charset{{0, endRune}}

func (a charset) and(b charset) charset {
	var out charset
	for _, x := range a {
		for _, y := range b {
			lo, hi := max(x[0], y[0]), min(x[1], y[1])
			if lo <= hi {
				out = append(out, [2]int{lo, hi})
			}
		}
	}
	return out.norm()
}

func (a charset) or(b charset) charset {
	return append(append(charset{}, a...), b...).norm()
}

func (a charset) not() charset {
	var out charset
	lo := 0
	for _, x := range a {
		if x[0] > lo {
			out = append(out, [2]int{lo, x[0] - 1})
		}
		lo = x[1] + 1
	}
	if lo <= endRune {
		out = append(out, [2]int{lo, endRune})
	}
	return out
}

func (a charset) norm() charset {
	sort.Slice(a, func(i, j int) bool { return a[i][0] < a[j][0] })
	var out charset
	for _, x := range a {
		if n := len(out); n > 0 && x[0] <= out[n-1][1]+1 {
			out[n-1][1] = max(out[n-1][1], x[1])
			continue
		}
		out = append(out, x)
	}
	return out
}

func (a charset) empty() bool           { return len(a) == 0 }
func (a charset) within(b charset) bool { return a.and(b.not()).empty() }
func (a charset) has(r int) bool        { return !a.and(charset{{r, r}}).empty() }
func single(r int) charset              { return charset{{r, r}} }
func (a charset) String() string {
	var b strings.Builder
	for _, x := range a {
		switch {
		case x[1] == endRune && x[0] == endRune:
			b.WriteString("<end>")
		case x[0] == x[1]:
			fmt.Fprintf(&b, "%q", rune(x[0]))
		default:
			fmt.Fprintf(&b, "%q-%q", rune(x[0]), rune(x[1]))
		}
	}
	return b.String()
}

type pop int

const (
	pSeq pop = iota
	pAlt
	pStar
	pOpt
	pAnd
	pNot
	pChar
	pRef
	pAct
	pCap
)

type pexp struct {
	op   pop
	kids []*pexp
	set  charset
	ref  string
	act  string
	id   int
	line int
	nact int // index of the action in the file
}

type Grammar struct {
	header  string
	rules   map[string]*pexp
	order   []string
	lines   map[string]int
	actions []*pexp
	null    map[string]bool
	first   map[string]charset
	left    map[string]map[string]bool
	n       int
}

// leftmost are the rules that may be applied before anything is consumed when a rule is applied.
func (g *Grammar) leftmost(name string) map[string]bool {
	if l := g.left[name]; l != nil {
		return l
	}
	if g.left == nil {
		g.left = map[string]map[string]bool{}
	}
	out := map[string]bool{}
	g.left[name] = out
	var rec func(e *pexp)
	var rule func(n string)
	rule = func(n string) {
		if !out[n] {
			out[n] = true
			rec(g.rules[n])
		}
	}
	rec = func(e *pexp) {
		switch e.op {
		case pRef:
			rule(e.ref)
		case pSeq:
			for _, k := range e.kids {
				rec(k)
				if null, _ := g.nf(k); !null {
					return
				}
			}
		default:
			for _, k := range e.kids {
				rec(k)
			}
		}
	}
	rule(name)
	return out
}

type pegReader struct {
	g    *Grammar
	s    []rune
	i    int
	line int
}

type pegError struct{ msg string }

func (r *pegReader) fail(f string, a ...any) {
	panic(pegError{fmt.Sprintf("line %d: ", r.line) + fmt.Sprintf(f, a...)})
}

func (r *pegReader) peek(k int) rune {
	if r.i+k < len(r.s) {
		return r.s[r.i+k]
	}
	return 0
}

func (r *pegReader) next() rune {
	c := r.peek(0)
	if c == '\n' {
		r.line++
	}
	r.i++
	return c
}

func (r *pegReader) space() {
	for r.i < len(r.s) {
		switch c := r.peek(0); {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			r.next()
		case c == '#', c == '/' && r.peek(1) == '/':
			for r.i < len(r.s) && r.peek(0) != '\n' {
				r.next()
			}
		default:
			return
		}
	}
}

func identStart(c rune) bool {
	return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

func (r *pegReader) ident() string {
	j := r.i
	for identStart(r.peek(0)) || r.i > j && r.peek(0) >= '0' && r.peek(0) <= '9' {
		r.next()
	}
	return string(r.s[j:r.i])
}

// readGrammar parses the text of a .peg file.
func readGrammar(text string) (g *Grammar, err error) {
	defer func() {
		if x := recover(); x != nil {
			e, ok := x.(pegError)
			if !ok {
				panic(x)
			}
			g, err = nil, fmt.Errorf("grammar.peg: %s", e.msg)
		}
	}()
	r := &pegReader{g: &Grammar{rules: map[string]*pexp{}, lines: map[string]int{}}, s: []rune(text), line: 1}
	// header up to the end of the type declaration
	i := strings.Index(text, " Peg ")
	if i < 0 {
		r.fail("no parser type")
	}
	open := strings.Index(text[i:], "{")
	if open < 0 {
		r.fail("no parser type")
	}
	r.i = len([]rune(text[:i+open]))
	r.line = 1 + strings.Count(text[:i+open], "\n")
	r.braces()
	r.g.header = string(r.s[:r.i])
	r.space()
	for r.i < len(r.s) {
		line := r.line
		name := r.ident()
		if name == "" {
			r.fail("a rule name is expected at %q", string(r.peek(0)))
		}
		r.space()
		r.arrow()
		r.space()
		if r.g.rules[name] != nil {
			r.fail("rule %s is defined twice", name)
		}
		r.g.lines[name] = line
		r.g.order = append(r.g.order, name)
		r.g.rules[name] = r.alt()
		r.space()
	}
	for _, name := range r.g.order {
		r.g.each(r.g.rules[name], func(e *pexp) {
			if e.op == pRef && r.g.rules[e.ref] == nil {
				r.fail("rule %s is not defined", e.ref)
			}
		})
	}
	r.g.sets()
	return r.g, nil
}

func (g *Grammar) each(e *pexp, f func(*pexp)) {
	f(e)
	for _, k := range e.kids {
		g.each(k, f)
	}
}

func (r *pegReader) arrow() {
	switch {
	case r.peek(0) == '<' && r.peek(1) == '-':
		r.i += 2
	case r.peek(0) == '←':
		r.i++
	default:
		r.fail("<- is expected")
	}
}

// braces skips a Go block, and returns what is in it.
func (r *pegReader) braces() string {
	if r.next() != '{' {
		r.fail("{ is expected")
	}
	j, depth := r.i, 1
	for depth > 0 {
		if r.i >= len(r.s) {
			r.fail("unclosed block")
		}
		switch c := r.next(); c {
		case '{':
			depth++
		case '}':
			depth--
		case '"', '\'', '`':
			for r.i < len(r.s) && r.peek(0) != c {
				if r.peek(0) == '\\' && c != '`' {
					r.next()
				}
				r.next()
			}
			r.next()
		case '/':
			if r.peek(0) == '/' {
				for r.i < len(r.s) && r.peek(0) != '\n' {
					r.next()
				}
			}
		}
	}
	return string(r.s[j : r.i-1])
}

func (r *pegReader) mk(op pop, kids ...*pexp) *pexp {
	r.g.n++
	return &pexp{op: op, kids: kids, id: r.g.n, line: r.line, nact: -1}
}

func (r *pegReader) alt() *pexp {
	var as []*pexp
	for {
		as = append(as, r.seq())
		r.space()
		if r.peek(0) != '/' {
			break
		}
		r.next()
		r.space()
	}
	if len(as) == 1 {
		return as[0]
	}
	return r.mk(pAlt, as...)
}

func (r *pegReader) seq() *pexp {
	var es []*pexp
	for {
		r.space()
		e := r.prefix()
		if e == nil {
			break
		}
		es = append(es, e)
	}
	if len(es) == 1 {
		return es[0]
	}
	return r.mk(pSeq, es...)
}

func (r *pegReader) prefix() *pexp {
	switch r.peek(0) {
	case '&', '!':
		c := r.next()
		r.space()
		if r.peek(0) == '{' {
			r.fail("predicates in Go are not supported")
		}
		e := r.suffix()
		if e == nil {
			r.fail("an expression is expected after %c", c)
		}
		if c == '&' {
			return r.mk(pAnd, e)
		}
		return r.mk(pNot, e)
	}
	return r.suffix()
}

func (r *pegReader) suffix() *pexp {
	e := r.primary()
	if e == nil {
		return nil
	}
	r.space()
	switch r.peek(0) {
	case '?':
		r.next()
		return r.mk(pOpt, e)
	case '*':
		r.next()
		return r.mk(pStar, e)
	case '+':
		r.next()
		return r.mk(pSeq, e, r.mk(pStar, e))
	}
	return e
}

func (r *pegReader) primary() *pexp {
	c := r.peek(0)
	switch {
	case identStart(c):
		i, line := r.i, r.line
		name := r.ident()
		r.space()
		if r.peek(0) == '<' && r.peek(1) == '-' || r.peek(0) == '←' {
			r.i, r.line = i, line // the next rule
			return nil
		}
		e := r.mk(pRef)
		e.ref = name
		return e
	case c == '(':
		r.next()
		r.space()
		e := r.alt()
		r.space()
		if r.next() != ')' {
			r.fail(") is expected")
		}
		return r.mk(pSeq, e)
	case c == '<':
		r.next()
		r.space()
		e := r.alt()
		r.space()
		if r.next() != '>' {
			r.fail("> is expected")
		}
		return r.mk(pCap, e)
	case c == '{':
		e := r.mk(pAct)
		e.act = r.braces()
		e.nact = len(r.g.actions)
		r.g.actions = append(r.g.actions, e)
		return e
	case c == '.':
		r.next()
		e := r.mk(pChar)
		e.set = single(endRune).not()
		return e
	case c == '\'', c == '"':
		r.next()
		var es []*pexp
		for r.peek(0) != c {
			if r.i >= len(r.s) {
				r.fail("unclosed literal")
			}
			x := int(r.char())
			e := r.mk(pChar)
			e.set = single(x)
			if c == '"' {
				e.set = bothCases(e.set)
			}
			es = append(es, e)
		}
		r.next()
		if len(es) == 1 {
			return es[0]
		}
		return r.mk(pSeq, es...)
	case c == '[':
		r.next()
		fold := r.peek(0) == '['
		if fold {
			r.next()
		}
		neg := r.peek(0) == '^'
		if neg {
			r.next()
		}
		var set charset
		for r.peek(0) != ']' {
			if r.i >= len(r.s) {
				r.fail("unclosed class")
			}
			a := int(r.char())
			b := a
			if r.peek(0) == '-' && r.peek(1) != ']' {
				r.next()
				b = int(r.char())
			}
			if b < a {
				r.fail("the range %q-%q is empty", rune(a), rune(b))
			}
			set = set.or(charset{{a, b}})
		}
		r.next()
		if fold {
			if r.next() != ']' {
				r.fail("]] is expected")
			}
			set = bothCases(set)
		}
		if neg {
			set = set.or(single(endRune)).not()
		}
		e := r.mk(pChar)
		e.set = set
		return e
	}
	return nil
}

func bothCases(s charset) charset {
	out := s
	lower := s.and(charset{{'a', 'z'}})
	upper := s.and(charset{{'A', 'Z'}})
	for _, x := range lower {
		out = out.or(charset{{x[0] - 32, x[1] - 32}})
	}
	for _, x := range upper {
		out = out.or(charset{{x[0] + 32, x[1] + 32}})
	}
	return out
}

func (r *pegReader) char() rune {
	c := r.next()
	if c != '\\' {
		return c
	}
	switch c = r.next(); c {
	case 'n':
		return '\n'
	case 'r':
		return '\r'
	case 't':
		return '\t'
	case 'a':
		return '\a'
	case 'b':
		return '\b'
	case 'f':
		return '\f'
	case 'v':
		return '\v'
	case 'e':
		return 27
	case '0', '1', '2', '3':
		n := c - '0'
		for k := 0; k < 2 && r.peek(0) >= '0' && r.peek(0) <= '7'; k++ {
			n = n*8 + (r.next() - '0')
		}
		return n
	}
	return c
}

// sets computes which rules match the empty text, and with what characters a match can begin.
func (g *Grammar) sets() {
	g.null, g.first = map[string]bool{}, map[string]charset{}
	for changed := true; changed; {
		changed = false
		for _, n := range g.order {
			nl, f := g.nf(g.rules[n])
			if nl != g.null[n] || !f.within(g.first[n]) {
				g.null[n], g.first[n] = nl, f.or(g.first[n])
				changed = true
			}
		}
	}
}

func (g *Grammar) nf(e *pexp) (bool, charset) {
	switch e.op {
	case pChar:
		return false, e.set
	case pRef:
		return g.null[e.ref], g.first[e.ref]
	case pAct:
		return true, nil
	case pCap:
		return g.nf(e.kids[0])
	case pStar, pOpt:
		_, f := g.nf(e.kids[0])
		return true, f
	case pAnd, pNot:
		return true, nil
	case pAlt:
		nl, f := false, charset(nil)
		for _, k := range e.kids {
			a, b := g.nf(k)
			nl, f = nl || a, f.or(b)
		}
		return nl, f
	case pSeq:
		var f charset
		for _, k := range e.kids {
			a, b := g.nf(k)
			f = f.or(b)
			if !a {
				return false, f
			}
		}
		return true, f
	}
	return true, allChars
}
