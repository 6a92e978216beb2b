package main

// C01: the shipped parser against the published grammar. Every rule function of the generated
// parser and the rule of the grammar are run side by side as abstract machines whose positions and
// characters are symbolic; they have to consume, call, record and answer the same at every point.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type cval struct {
	kind string // pos, inc, tok, rune, cond, int, bool, rule, buf, fn
	sym  int
	set  charset
	n    int64
	s    string
}

type knowns map[int]charset

func (k knowns) of(s int) charset {
	if c, ok := k[s]; ok {
		return c
	}
	return allChars
}

func (k knowns) with(s int, c charset) knowns {
	out := knowns{}
	for a, b := range k {
		out[a] = b
	}
	out[s] = c
	return out
}

type gk struct {
	kind string // exp, alt, end, cap, commit, loop, notfail, andback
	e    *pexp
	i    int
	name string
	sym  int
	next *gk
}

type gb struct {
	and      bool
	k        *gk
	pos, tok int
	next     *gb
}

type gstate struct {
	k        *gk
	b        *gb
	cur, tok int
}

type cstate struct {
	blk, prev *ssa.BasicBlock
	ip        int
	env       map[ssa.Value]cval
	cur, tok  int
}

type pevent struct {
	kind string // adv, call, ref, add, ret
	name string
	sym  int
	ok   bool
	val  ssa.Value
	act  *pexp
	pos  token.Pos
}

func (e pevent) String() string {
	switch e.kind {
	case "adv":
		return "takes a character"
	case "call":
		return "applies the rule " + e.name
	case "ref":
		return "refers to the rule " + e.name
	case "add":
		return "records " + e.name
	case "ret":
		if e.ok {
			return "succeeds"
		}
		return "fails"
	}
	return e.kind
}

// peg is the correspondence of a generated parser and a grammar.
type pegMachine struct {
	r       *Run
	p       *Prog
	g       *Grammar
	pkg     *ssa.Package
	init    *ssa.Function
	consts  map[int64]string // rule numbers by name, without the prefix
	fns     map[string]*ssa.Function
	role    map[*ssa.Function]map[ssa.Value]string
	actions map[string]*pexp // recorded name -> action
	live    map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool
	states  int
	where   token.Pos
}

type pegMismatch struct {
	msg string
	pos token.Pos
}

func (m *pegMachine) differ(pos token.Pos, f string, a ...any) {
	if pos == token.NoPos {
		pos = m.where
	}
	panic(pegMismatch{fmt.Sprintf(f, a...), pos})
}

func (r *Run) grammar() *Grammar {
	b, err := os.ReadFile(filepath.Join(repoDir, "pkg/grammar/grammar.peg"))
	if err != nil {
		r.missing("pkg/grammar/grammar.peg")
		return nil
	}
	g, err := readGrammar(string(b))
	if err != nil {
		r.bad("grammar", token.NoPos, "%v", err)
		return nil
	}
	return g
}

func (r *Run) pegMachine() *pegMachine {
	g := r.grammar()
	if g == nil {
		return nil
	}
	p := r.prog()
	m := &pegMachine{r: r, p: p, g: g, consts: map[int64]string{}, fns: map[string]*ssa.Function{}, role: map[*ssa.Function]map[ssa.Value]string{}, actions: map[string]*pexp{}, live: map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool{}}
	pt := p.typ("pkg/grammar", "Parser")
	if pt == nil {
		r.missing("grammar.Parser")
		return nil
	}
	m.init = p.method(types.NewPointer(pt), "Init")
	if m.init == nil {
		r.missing("Parser.Init")
		return nil
	}
	m.pkg = m.init.Pkg
	sc := m.pkg.Pkg.Scope()
	for _, n := range sc.Names() {
		c, ok := sc.Lookup(n).(*types.Const)
		if !ok || !strings.HasPrefix(n, "rule") {
			continue
		}
		if nt, ok := c.Type().(*types.Named); !ok || nt.Obj().Name() != "pegRule" {
			continue
		}
		v, _ := constant.Int64Val(c.Val())
		m.consts[v] = n[4:]
	}
	if !m.table() {
		return nil
	}
	return m
}

// table finds the function of every rule, and what the captured variables of each closure are.
func (m *pegMachine) table() bool {
	name := map[ssa.Value]string{}
	for _, b := range m.init.Blocks {
		for _, i := range b.Instrs {
			if a, ok := i.(*ssa.Alloc); ok {
				name[a] = a.Comment
			}
		}
	}
	closure := func(v ssa.Value) *ssa.Function {
		for {
			switch x := v.(type) {
			case *ssa.MakeClosure:
				fn := x.Fn.(*ssa.Function)
				if m.role[fn] == nil {
					m.role[fn] = map[ssa.Value]string{}
					for i, b := range x.Bindings {
						m.role[fn][fn.FreeVars[i]] = name[b]
					}
				}
				return fn
			case *ssa.Function:
				return x
			case *ssa.ChangeType:
				v = x.X
			default:
				return nil
			}
		}
	}
	dup := false
	var arrays []ssa.Value
	for _, b := range m.init.Blocks {
		for _, i := range b.Instrs {
			st, ok := i.(*ssa.Store)
			if !ok {
				continue
			}
			if fn := closure(st.Val); fn != nil {
				if ia, ok := st.Addr.(*ssa.IndexAddr); ok {
					c, ok := ia.Index.(*ssa.Const)
					if !ok {
						continue
					}
					n := m.consts[c.Int64()]
					if m.fns[n] != nil || n == "" {
						dup = true
					}
					m.fns[n] = fn
					arrays = append(arrays, ia.X)
				} else if a, ok := st.Addr.(*ssa.Alloc); ok {
					if m.fns["="+a.Comment] != nil {
						dup = true
					}
					m.fns["="+a.Comment] = fn
				} else if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
					f := structOf(fa.X.Type()).Field(fa.Field).Name()
					if m.fns["."+f] != nil {
						dup = true
					}
					m.fns["."+f] = fn
				}
			}
		}
	}
	for _, a := range arrays {
		if a != arrays[0] {
			dup = true
		}
	}
	m.r.must(!dup, "table:one", m.init.Pos(), "the table of rules is filled more than once")
	for _, n := range []string{"=add", "=matchDot", ".parse", ".reset"} {
		if m.fns[n] == nil && n != "=matchDot" {
			m.r.missing("the parser function " + n[1:])
			return false
		}
	}
	return true
}

func (g *gstate) fail() (*gstate, bool) {
	for b := g.b; b != nil; b = b.next {
		if !b.and {
			return &gstate{b.k, b.next, b.pos, b.tok}, true
		}
	}
	return &gstate{nil, nil, 0, 0}, false
}

// split is one way a machine can go on.
type gsplit struct {
	g  *gstate
	kn knowns
	ev pevent
}

// gram runs the grammar up to its next event.
func (m *pegMachine) gram(g *gstate, kn knowns) []gsplit {
	for n := 0; ; n++ {
		if n > 10000 {
			m.differ(token.NoPos, "the grammar does not come to an end")
		}
		k := g.k
		if k == nil {
			return []gsplit{{g, kn, pevent{kind: "ret", ok: true}}}
		}
		switch k.kind {
		case "alt":
			rest := k.e.kids[k.i:]
			if len(rest) == 1 {
				g = &gstate{&gk{kind: "exp", e: rest[0], next: k.next}, g.b, g.cur, g.tok}
			} else {
				g = &gstate{&gk{kind: "exp", e: rest[0], next: &gk{kind: "commit", next: k.next}},
					&gb{k: &gk{kind: "alt", e: k.e, i: k.i + 1, next: k.next}, pos: g.cur, tok: g.tok, next: g.b}, g.cur, g.tok}
			}
		case "commit":
			g = &gstate{k.next, g.b.next, g.cur, g.tok}
		case "loop":
			g = &gstate{&gk{kind: "exp", e: k.e, next: k.next}, g.b.next, g.cur, g.tok}
		case "notfail":
			f, ok := (&gstate{nil, g.b.next, 0, 0}).fail()
			if !ok {
				return []gsplit{{f, kn, pevent{kind: "ret"}}}
			}
			g = f
		case "andback":
			g = &gstate{k.next, g.b.next, g.b.pos, g.b.tok}
		case "end":
			return []gsplit{{g, kn, pevent{kind: "add", name: k.name, sym: k.sym}}}
		case "exp":
			e := k.e
			switch e.op {
			case pSeq:
				nk := k.next
				for i := len(e.kids) - 1; i >= 0; i-- {
					nk = &gk{kind: "exp", e: e.kids[i], next: nk}
				}
				g = &gstate{nk, g.b, g.cur, g.tok}
			case pAlt:
				g = &gstate{&gk{kind: "alt", e: e, next: k.next}, g.b, g.cur, g.tok}
			case pStar:
				g = &gstate{&gk{kind: "exp", e: e.kids[0], next: &gk{kind: "loop", e: e, next: k.next}}, &gb{k: k.next, pos: g.cur, tok: g.tok, next: g.b}, g.cur, g.tok}
			case pOpt:
				g = &gstate{&gk{kind: "exp", e: e.kids[0], next: &gk{kind: "commit", next: k.next}}, &gb{k: k.next, pos: g.cur, tok: g.tok, next: g.b}, g.cur, g.tok}
			case pNot:
				g = &gstate{&gk{kind: "exp", e: e.kids[0], next: &gk{kind: "notfail"}}, &gb{k: k.next, pos: g.cur, tok: g.tok, next: g.b}, g.cur, g.tok}
			case pAnd:
				g = &gstate{&gk{kind: "exp", e: e.kids[0], next: &gk{kind: "andback", next: k.next}}, &gb{and: true, pos: g.cur, tok: g.tok, next: g.b}, g.cur, g.tok}
			case pCap:
				g = &gstate{&gk{kind: "exp", e: e.kids[0], next: &gk{kind: "end", name: "PegText", sym: g.cur, next: k.next}}, g.b, g.cur, g.tok}
			case pAct:
				return []gsplit{{g, kn, pevent{kind: "add", name: "an action", sym: g.cur, act: e}}}
			case pRef:
				return []gsplit{{g, kn, pevent{kind: "ref", name: e.ref}}}
			case pChar:
				c := kn.of(g.cur)
				in, out := c.and(e.set), c.and(e.set.not())
				var res []gsplit
				if !in.empty() {
					res = append(res, gsplit{g, kn.with(g.cur, in), pevent{kind: "adv"}})
				}
				if !out.empty() {
					kn2 := kn.with(g.cur, out)
					f, ok := g.fail()
					if !ok {
						res = append(res, gsplit{f, kn2, pevent{kind: "ret"}})
					} else {
						res = append(res, m.gram(f, kn2)...)
					}
				}
				return res
			}
		}
	}
}

type csplit struct {
	c  *cstate
	kn knowns
	ev pevent
}

func (c *cstate) clone() *cstate {
	d := *c
	d.env = map[ssa.Value]cval{}
	for k, v := range c.env {
		d.env[k] = v
	}
	return &d
}

func (m *pegMachine) cvalue(c *cstate, roles map[ssa.Value]string, v ssa.Value) cval {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return cval{kind: "nil"}
		}
		switch x.Value.Kind() {
		case constant.Bool:
			n := int64(0)
			if constant.BoolVal(x.Value) {
				n = 1
			}
			return cval{kind: "bool", n: n}
		case constant.Int:
			return cval{kind: "int", n: x.Int64()}
		}
		return cval{kind: "?"}
	case *ssa.FreeVar:
		return cval{kind: "var", s: roles[x]}
	}
	if r, ok := c.env[v]; ok {
		return r
	}
	return cval{kind: "?"}
}

func flip(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.GTR:
		return token.LSS
	case token.LEQ:
		return token.GEQ
	case token.GEQ:
		return token.LEQ
	}
	return op
}

func cmpSet(op token.Token, n int) (charset, bool) {
	rng := func(a, b int) charset {
		a, b = max(a, 0), min(b, endRune)
		if a > b {
			return nil
		}
		return charset{{a, b}}
	}
	switch op {
	case token.EQL:
		return rng(n, n), true
	case token.NEQ:
		return rng(n, n).not(), true
	case token.LSS:
		return rng(0, n-1), true
	case token.LEQ:
		return rng(0, n), true
	case token.GTR:
		return rng(n+1, endRune), true
	case token.GEQ:
		return rng(n, endRune), true
	}
	return nil, false
}

// code runs a rule function up to its next event.
func (m *pegMachine) code(c *cstate, kn knowns) []csplit {
	fn := c.blk.Parent()
	roles := m.role[fn]
	c = c.clone()
	for n := 0; ; n++ {
		if n > 20000 {
			m.differ(token.NoPos, "the function does not come to an end")
		}
		ins := c.blk.Instrs[c.ip]
		if ins.Pos() != token.NoPos {
			m.where = ins.Pos()
		}
		val := func(v ssa.Value) cval { return m.cvalue(c, roles, v) }
		jump := func(to *ssa.BasicBlock) {
			from := c.blk
			k := predIndex(to, from)
			var vs []cval
			for _, i := range to.Instrs {
				phi, ok := i.(*ssa.Phi)
				if !ok {
					break
				}
				vs = append(vs, m.cvalue(c, roles, phi.Edges[k]))
			}
			for i, v := range vs {
				c.env[to.Instrs[i].(*ssa.Phi)] = v
			}
			c.prev, c.blk, c.ip = from, to, len(vs)
		}
		switch x := ins.(type) {
		case *ssa.DebugRef:
			c.ip++
		case *ssa.Jump:
			jump(c.blk.Succs[0])
		case *ssa.If:
			v := val(x.Cond)
			switch v.kind {
			case "bool":
				jump(c.blk.Succs[1-v.n])
			case "cond":
				k := kn.of(v.sym)
				in, out := k.and(v.set), k.and(v.set.not())
				switch {
				case out.empty():
					jump(c.blk.Succs[0])
				case in.empty():
					jump(c.blk.Succs[1])
				default:
					c2 := c.clone()
					jump(c.blk.Succs[0])
					res := m.code(c, kn.with(v.sym, in))
					c = c2
					jump(c.blk.Succs[1])
					return append(res, m.code(c, kn.with(v.sym, out))...)
				}
			default:
				m.differ(x.Pos(), "the function branches on something else than the text")
			}
		case *ssa.Return:
			if len(x.Results) != 1 {
				m.differ(x.Pos(), "the function has no result")
			}
			v := val(x.Results[0])
			if v.kind != "bool" {
				m.differ(x.Pos(), "the result of the function is not known")
			}
			return []csplit{{c, kn, pevent{kind: "ret", ok: v.n == 1, pos: x.Pos()}}}
		case *ssa.Store:
			a, v := val(x.Addr), val(x.Val)
			switch {
			case a.kind == "var" && a.s == "position" && v.kind == "pos":
				c.cur = v.sym
				c.ip++
			case a.kind == "var" && a.s == "position" && v.kind == "inc" && v.sym == c.cur:
				c.ip++
				if kn.of(c.cur).has(endRune) {
					m.differ(x.Pos(), "the function goes on without having looked at the character")
				}
				return []csplit{{c, kn, pevent{kind: "adv", pos: x.Pos()}}}
			case a.kind == "var" && a.s == "tokenIndex" && v.kind == "tok":
				c.tok = v.sym
				c.ip++
			default:
				m.differ(x.Pos(), "the function changes something else than its position")
			}
		case *ssa.UnOp:
			v := val(x.X)
			switch {
			case x.Op == token.MUL && v.kind == "var":
				switch v.s {
				case "position":
					c.env[x] = cval{kind: "pos", sym: c.cur}
				case "tokenIndex":
					c.env[x] = cval{kind: "tok", sym: c.tok}
				case "buffer", "add", "matchDot", "_rules":
					c.env[x] = cval{kind: v.s}
				default:
					c.env[x] = cval{kind: "?"}
				}
			case x.Op == token.MUL && v.kind == "at":
				c.env[x] = cval{kind: "rune", sym: v.sym}
			case x.Op == token.MUL && v.kind == "ruleat":
				c.env[x] = cval{kind: "rule", n: v.n}
			case x.Op == token.NOT && v.kind == "cond":
				c.env[x] = cval{kind: "cond", sym: v.sym, set: v.set.not()}
			case x.Op == token.NOT && v.kind == "bool":
				c.env[x] = cval{kind: "bool", n: 1 - v.n}
			default:
				c.env[x] = cval{kind: "?"}
			}
			c.ip++
		case *ssa.Convert:
			c.env[x] = val(x.X)
			c.ip++
		case *ssa.ChangeType:
			c.env[x] = val(x.X)
			c.ip++
		case *ssa.IndexAddr:
			b, i := val(x.X), val(x.Index)
			switch {
			case b.kind == "buffer" && i.kind == "pos":
				c.env[x] = cval{kind: "at", sym: i.sym}
			case (b.kind == "var" && b.s == "_rules" || b.kind == "_rules") && i.kind == "int":
				c.env[x] = cval{kind: "ruleat", n: i.n}
			default:
				m.differ(x.Pos(), "the function reads something else than the text at its position")
			}
			c.ip++
		case *ssa.BinOp:
			a, b := val(x.X), val(x.Y)
			op := x.Op
			if a.kind == "int" && b.kind == "rune" {
				a, b, op = b, a, flip(op)
			}
			switch {
			case a.kind == "rune" && b.kind == "int":
				if s, ok := cmpSet(op, int(b.n)); ok {
					c.env[x] = cval{kind: "cond", sym: a.sym, set: s}
				} else {
					c.env[x] = cval{kind: "?"}
				}
			case a.kind == "pos" && b.kind == "int" && b.n == 1 && op == token.ADD:
				c.env[x] = cval{kind: "inc", sym: a.sym}
			case a.kind == "int" && b.kind == "int":
				s, ok := cmpSet(op, int(b.n))
				if ok {
					n := int64(0)
					if s.has(int(a.n)) {
						n = 1
					}
					c.env[x] = cval{kind: "bool", n: n}
				} else {
					c.env[x] = cval{kind: "?"}
				}
			default:
				c.env[x] = cval{kind: "?"}
			}
			c.ip++
		case *ssa.Call:
			f := val(x.Call.Value)
			switch f.kind {
			case "rule":
				c.ip++
				return []csplit{{c, kn, pevent{kind: "call", name: m.consts[f.n], val: x, pos: x.Pos()}}}
			case "add":
				a, b := val(x.Call.Args[0]), val(x.Call.Args[1])
				if a.kind != "int" || b.kind != "pos" {
					m.differ(x.Pos(), "the function records something that is not known")
				}
				c.ip++
				return []csplit{{c, kn, pevent{kind: "add", name: m.consts[a.n], sym: b.sym, pos: x.Pos()}}}
			case "matchDot":
				c.ip++
				k := kn.of(c.cur)
				in, out := k.and(single(endRune).not()), k.and(single(endRune))
				var res []csplit
				if !in.empty() {
					d := c.clone()
					d.env[x] = cval{kind: "bool", n: 1}
					res = append(res, csplit{d, kn.with(c.cur, in), pevent{kind: "adv", pos: x.Pos()}})
				}
				if !out.empty() {
					d := c.clone()
					d.env[x] = cval{kind: "bool", n: 0}
					res = append(res, m.code(d, kn.with(c.cur, out))...)
				}
				return res
			default:
				m.differ(x.Pos(), "the function calls something else than a rule")
			}
		default:
			if v, ok := ins.(ssa.Value); ok {
				c.env[v] = cval{kind: "?"}
				c.ip++
				continue
			}
			m.differ(ins.Pos(), "the function contains %s", ins)
		}
	}
}

// liveness of the values of a function at the beginning of its blocks.
func (m *pegMachine) liveIn(fn *ssa.Function) map[*ssa.BasicBlock]map[ssa.Value]bool {
	if l := m.live[fn]; l != nil {
		return l
	}
	l := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		l[b] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for _, b := range fn.Blocks {
			for v := range m.liveAt(l, b, 0) {
				if !l[b][v] {
					l[b][v] = true
					changed = true
				}
			}
		}
	}
	m.live[fn] = l
	return l
}

func (m *pegMachine) liveAt(l map[*ssa.BasicBlock]map[ssa.Value]bool, b *ssa.BasicBlock, ip int) map[ssa.Value]bool {
	out := map[ssa.Value]bool{}
	for _, s := range b.Succs {
		k := predIndex(s, b)
		phis := map[ssa.Value]bool{}
		for _, i := range s.Instrs {
			if phi, ok := i.(*ssa.Phi); ok {
				phis[phi] = true
				out[phi.Edges[k]] = true
			}
		}
		for v := range l[s] {
			if !phis[v] {
				out[v] = true
			}
		}
	}
	for i := len(b.Instrs) - 1; i >= ip; i-- {
		ins := b.Instrs[i]
		if v, ok := ins.(ssa.Value); ok {
			delete(out, v)
		}
		if _, ok := ins.(*ssa.Phi); ok {
			continue
		}
		for _, o := range ins.Operands(nil) {
			if *o != nil {
				out[*o] = true
			}
		}
	}
	return out
}

type pair struct {
	c  *cstate
	g  *gstate
	kn knowns
}

// canon renames the symbols of a pair in the order in which they occur, and gives its key.
func (m *pegMachine) canon(p *pair) (*pair, string) {
	ren := map[int]int{0: 0, 1: 1} // the position and the token index at the beginning
	nm := func(s int) int {
		if r, ok := ren[s]; ok {
			return r
		}
		ren[s] = len(ren)
		return ren[s]
	}
	var key strings.Builder
	live := m.liveAt(m.liveIn(p.c.blk.Parent()), p.c.blk, p.c.ip)
	c := &cstate{blk: p.c.blk, prev: nil, ip: p.c.ip, env: map[ssa.Value]cval{}}
	c.cur, c.tok = nm(p.c.cur), nm(p.c.tok)
	fmt.Fprintf(&key, "%d.%d|%d.%d|", c.blk.Index, c.ip, c.cur, c.tok)
	var vs []ssa.Value
	for v := range p.c.env {
		if live[v] {
			vs = append(vs, v)
		}
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
	for _, v := range vs {
		x := p.c.env[v]
		switch x.kind {
		case "pos", "tok", "inc", "rune", "cond", "at":
			x.sym = nm(x.sym)
		}
		c.env[v] = x
		fmt.Fprintf(&key, "%s=%s.%d.%d.%v;", v.Name(), x.kind, x.sym, x.n, x.set)
	}
	g := &gstate{cur: nm(p.g.cur), tok: nm(p.g.tok)}
	fmt.Fprintf(&key, "|%d.%d|", g.cur, g.tok)
	var cont func(k *gk) *gk
	cont = func(k *gk) *gk {
		if k == nil {
			key.WriteString("$")
			return nil
		}
		n := *k
		if k.kind == "end" {
			n.sym = nm(k.sym)
		}
		id := 0
		if k.e != nil {
			id = k.e.id
		}
		fmt.Fprintf(&key, "%s%d.%d.%s.%d,", k.kind, id, k.i, k.name, n.sym)
		n.next = cont(k.next)
		return &n
	}
	g.k = cont(p.g.k)
	var back func(b *gb) *gb
	back = func(b *gb) *gb {
		if b == nil {
			return nil
		}
		n := *b
		n.pos, n.tok = nm(b.pos), nm(b.tok)
		fmt.Fprintf(&key, "/%v.%d.%d:", b.and, n.pos, n.tok)
		n.k = cont(b.k)
		n.next = back(b.next)
		return &n
	}
	g.b = back(p.g.b)
	kn := knowns{}
	var ks []int
	for s, set := range p.kn {
		if r, ok := ren[s]; ok {
			kn[r] = set
			ks = append(ks, r)
		}
	}
	sort.Ints(ks)
	for _, k := range ks {
		fmt.Fprintf(&key, "!%d%v", k, [][2]int(kn[k]))
	}
	return &pair{c, g, kn}, key.String()
}

func maxSym(p *pair) int {
	n := 0
	up := func(s int) { n = max(n, s) }
	up(p.c.cur)
	up(p.c.tok)
	for _, v := range p.c.env {
		up(v.sym)
	}
	up(p.g.cur)
	up(p.g.tok)
	var cont func(k *gk)
	cont = func(k *gk) {
		for ; k != nil; k = k.next {
			up(k.sym)
		}
	}
	cont(p.g.k)
	for b := p.g.b; b != nil; b = b.next {
		up(b.pos)
		up(b.tok)
		cont(b.k)
	}
	for s := range p.kn {
		up(s)
	}
	return n
}

// compare runs the function of a rule against the rule.
func (m *pegMachine) compare(name string, fn *ssa.Function) (states int, mis *pegMismatch) {
	defer func() {
		if x := recover(); x != nil {
			e, ok := x.(pegMismatch)
			if !ok {
				panic(x)
			}
			mis = &e
		}
	}()
	// symbols: 0 is the position at the beginning, 1 the token index
	start := &pair{
		c:  &cstate{blk: fn.Blocks[0], env: map[ssa.Value]cval{}, tok: 1},
		g:  &gstate{k: &gk{kind: "exp", e: m.g.rules[name], next: &gk{kind: "end", name: name}}, tok: 1},
		kn: knowns{},
	}
	seen := map[string]bool{}
	work := []*pair{start}
	for len(work) > 0 {
		p := work[len(work)-1]
		work = work[:len(work)-1]
		if states > 200000 {
			m.differ(fn.Pos(), "the comparison of the rule does not come to an end")
		}
		entryTok := 1
		for _, cs := range m.code(p.c, p.kn) {
			for _, np := range m.match(cs, p.g, cs.kn, entryTok, 0) {
				q, key := m.canon(np)
				if !seen[key] {
					seen[key] = true
					states++
					work = append(work, q)
				}
			}
		}
	}
	return states, nil
}

// surelyFails: the rule cannot match here.
func (m *pegMachine) surelyFails(name string, kn knowns, cur int) bool {
	return !m.g.null[name] && m.g.first[name].and(kn.of(cur)).empty()
}

// match lets the code's event and the grammar meet.
func (m *pegMachine) match(cs csplit, g *gstate, kn knowns, entryTok, depth int) []*pair {
	if depth > 300 {
		m.differ(cs.ev.pos, "the function %s where the grammar goes on and on", cs.ev)
	}
	var out []*pair
	again := func(c csplit, g *gstate, kn knowns) { out = append(out, m.match(c, g, kn, entryTok, depth+1)...) }
	for _, gs := range m.gram(g, kn) {
		c, ge, ce, kn := cs.c, gs.ev, cs.ev, gs.kn
		g := gs.g
		fresh := maxSym(&pair{c, g, kn}) + 2
		codeFails := func() {
			d := c.clone()
			d.env[ce.val] = cval{kind: "bool", n: 0}
			for _, n := range m.code(d, kn) {
				again(n, g, n.kn)
			}
		}
		at := func() {
			if c.cur != g.cur {
				m.differ(ce.pos, "the function %s at another position than the grammar: it has not gone back to where it was", ce)
			}
			if c.tok != g.tok {
				m.differ(ce.pos, "the function %s with records left of something that did not match", ce)
			}
		}
		gramFails := func(c *cstate) {
			f, ok := g.fail()
			if ok {
				out = append(out, &pair{c, f, kn})
				return
			}
			// the grammar fails: the function must fail as well
			for _, n := range m.code(c, kn) {
				m.mustFail(n, kn, entryTok, 0)
			}
		}
		if ge.kind == "ref" {
			switch {
			case ce.kind == "call" && ce.name == ge.name:
				at()
				if m.fns[ce.name] == nil {
					m.differ(ce.pos, "the function applies the rule %s, which has no function", ce.name)
				}
				s := c.clone()
				s.env[ce.val] = cval{kind: "bool", n: 1}
				s.cur, s.tok = fresh, fresh+1
				out = append(out, &pair{s, &gstate{g.k.next, g.b, fresh, fresh + 1}, kn})
				f := c.clone()
				f.env[ce.val] = cval{kind: "bool", n: 0}
				gramFails(f)
			case !(ce.kind == "call" && m.g.leftmost(ge.name)[ce.name]) && m.surelyFails(ge.name, kn, g.cur):
				f, ok := g.fail()
				if ok {
					again(csplit{c, kn, ce}, f, kn)
				} else {
					m.mustFail(csplit{c, kn, ce}, kn, entryTok, 0)
				}
			case ce.kind == "call" && !m.g.leftmost(ge.name)[ce.name] && m.surelyFails(ce.name, kn, c.cur):
				codeFails()
			default:
				parts := []charset{kn.of(g.cur)}
				cut := func(name string, cur int) {
					if m.g.null[name] || cur != g.cur {
						return
					}
					var ps []charset
					for _, p := range parts {
						for _, h := range []charset{p.and(m.g.first[name]), p.and(m.g.first[name].not())} {
							if !h.empty() {
								ps = append(ps, h)
							}
						}
					}
					parts = ps
				}
				if ce.kind == "call" && !m.g.leftmost(ge.name)[ce.name] {
					cut(ge.name, g.cur)
					cut(ce.name, c.cur)
				}
				if len(parts) > 1 {
					for _, h := range parts {
						again(csplit{c, kn, ce}, g, kn.with(g.cur, h))
					}
					continue
				}
				again(csplit{c, kn, ce}, &gstate{&gk{kind: "exp", e: m.g.rules[ge.name], next: &gk{kind: "end", name: ge.name, sym: g.cur, next: g.k.next}}, g.b, g.cur, g.tok}, kn)
			}
			continue
		}
		if ce.kind == "call" && m.surelyFails(ce.name, kn, c.cur) {
			codeFails()
			continue
		}
		if ce.kind != ge.kind {
			m.differ(ce.pos, "the function %s where the grammar %s, before %v", ce, ge, kn.of(g.cur))
		}
		switch ce.kind {
		case "adv":
			at()
			d := c.clone()
			d.cur = fresh
			out = append(out, &pair{d, &gstate{g.k.next, g.b, fresh, g.tok}, kn})
		case "add":
			at()
			if ge.act != nil {
				if !strings.HasPrefix(ce.name, "Action") {
					m.differ(ce.pos, "the function records %s where the grammar runs an action", ce.name)
				}
				if a := m.actions[ce.name]; a != nil && a != ge.act {
					m.differ(ce.pos, "the function records %s for two actions of the grammar", ce.name)
				}
				m.actions[ce.name] = ge.act
			} else if ce.name != ge.name {
				m.differ(ce.pos, "the function records %s where the grammar has %s", ce.name, ge.name)
			}
			if ce.sym != ge.sym {
				m.differ(ce.pos, "the function records %s from another position than the grammar", ce.name)
			}
			d := c.clone()
			d.tok = fresh
			out = append(out, &pair{d, &gstate{g.k.next, g.b, g.cur, fresh}, kn})
		case "ret":
			if ce.ok != ge.ok {
				m.differ(ce.pos, "the function %s where the grammar %s, before %v", ce, ge, kn.of(c.cur))
			}
			if ce.ok {
				at()
			} else if c.cur != 0 || c.tok != entryTok {
				m.differ(ce.pos, "the function fails without going back to where it began")
			}
		}
	}
	return out
}

// mustFail: the grammar has failed, and the function may only fail.
func (m *pegMachine) mustFail(cs csplit, kn knowns, entryTok, depth int) {
	ce := cs.ev
	switch {
	case ce.kind == "ret" && !ce.ok:
		if cs.c.cur != 0 || cs.c.tok != entryTok {
			m.differ(ce.pos, "the function fails without going back to where it began")
		}
	case ce.kind == "call" && m.surelyFails(ce.name, cs.kn, cs.c.cur) && depth < 200:
		d := cs.c.clone()
		d.env[ce.val] = cval{kind: "bool", n: 0}
		for _, n := range m.code(d, cs.kn) {
			m.mustFail(n, n.kn, entryTok, depth+1)
		}
	default:
		m.differ(ce.pos, "the function %s where the grammar fails", ce)
	}
}

func init() {
	register(&Check{id: "C01", rule: "every rule function of the generated parser simulates the rule of grammar.peg and is simulated by it", run: runC01})
}

func runC01(r *Run) {
	r.parserLink()
}

// parserLink compares the shipped parser with the published grammar.
func (r *Run) parserLink() *pegMachine {
	m := r.pegMachine()
	if m == nil {
		return nil
	}
	n := 0
	for _, name := range m.g.order {
		fn := m.fns[name]
		if fn == nil {
			continue
		}
		n++
		r.fns[r.p.canon(fn)] = true
		states, mis := m.compare(name, fn)
		r.paths += states
		if mis != nil {
			r.bad("rule:"+name, mis.pos, "rule %s: %s", name, mis.msg)
		} else {
			r.ok("rule:"+name, states, " states")
		}
	}
	r.need("rule functions", n, 10)
	m.parseFunc()
	m.around()
	return m
}
