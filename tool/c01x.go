package main

// The parts of the generated parser around the rule functions, compared with the parser
// generator's own text for them and with the actions written in grammar.peg. Both sides are
// interpreted; a reference is added to the package in memory only.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// pegHelpers is what the parser generator emits around the rule functions.
const pegHelpers = `
func (t *tokens32) verifTrim(length uint32) {
	t.tree = t.tree[:length]
}

func (t *tokens32) verifAdd(rule pegRule, begin, end, index uint32) {
	tree, i := t.tree, int(index)
	if i >= len(tree) {
		t.tree = append(tree, token32{pegRule: rule, begin: begin, end: end})
		return
	}
	tree[i] = token32{pegRule: rule, begin: begin, end: end}
}

func (t *tokens32) verifTokens() []token32 {
	return t.tree
}

func (p *Parser) verifParse(rule ...int) error {
	return p.parse(rule...)
}

func (p *Parser) verifReset() {
	p.reset()
}

func (p *Parser) verifInit(options ...func(*Parser) error) error {
	var (
		max                  token32
		position, tokenIndex uint32
		buffer               []rune
	)
	for _, option := range options {
		err := option(p)
		if err != nil {
			return err
		}
	}
	p.reset = func() {
		max = token32{}
		position, tokenIndex = 0, 0

		p.buffer = []rune(p.Buffer)
		if len(p.buffer) == 0 || p.buffer[len(p.buffer)-1] != endSymbol {
			p.buffer = append(p.buffer, endSymbol)
		}
		buffer = p.buffer
	}
	p.reset()

	_rules := p.rules
	tree := p.tokens32
	p.parse = func(rule ...int) error {
		r := 1
		if len(rule) > 0 {
			r = rule[0]
		}
		matches := p.rules[r]()
		p.tokens32 = tree
		if matches {
			p.Trim(tokenIndex)
			return nil
		}
		return &parseError{p, max}
	}

	add := func(rule pegRule, begin uint32) {
		tree.Add(rule, begin, position, tokenIndex)
		tokenIndex++
		if begin != position && position > max.end {
			max = token32{rule, begin, position}
		}
	}

	matchDot := func() bool {
		if buffer[position] != endSymbol {
			position++
			return true
		}
		return false
	}
	_rules[0] = matchDot
	add(0, 0)
	p.rules = _rules
	return nil
}
`

// reference loads the package with the reference added.
func (m *pegMachine) reference() (*Prog, *ssa.Package) {
	dir := filepath.Join(repoDir, "pkg/grammar")
	var b strings.Builder
	var names []string
	for n := range m.actions {
		names = append(names, n)
	}
	sort.Slice(names, func(i, j int) bool {
		a, _ := strconv.Atoi(names[i][6:])
		b, _ := strconv.Atoi(names[j][6:])
		return a < b
	})
	b.WriteString("\nfunc (p *Parser) verifExecute() {\n\tbuffer, _buffer, text, begin, end := p.Buffer, p.buffer, \"\", 0, 0\n\tfor _, token := range p.Tokens() {\n\t\tswitch token.pegRule {\n\t\tcase rulePegText:\n\t\t\tbegin, end = int(token.begin), int(token.end)\n\t\t\ttext = string(_buffer[begin:end])\n")
	for _, n := range names {
		fmt.Fprintf(&b, "\t\tcase rule%s:\n\t\t\t%s\n", n, m.actions[n].act)
	}
	b.WriteString("\t\t}\n\t}\n\t_, _, _, _, _ = buffer, _buffer, text, begin, end\n}\n")
	body := b.String() + pegHelpers
	var src strings.Builder
	src.WriteString("package grammar\n")
	for _, f := range m.p.byPath[m.pkg.Pkg.Path()].Syntax {
		if !strings.HasSuffix(m.p.fset.Position(f.Pos()).Filename, "grammar.peg.go") {
			continue
		}
		for _, im := range f.Imports {
			if im.Name == nil && strings.Contains(body, importBase(im)+".") {
				fmt.Fprintf(&src, "import %s\n", im.Path.Value)
			}
		}
	}
	src.WriteString(body)
	file := filepath.Join(dir, "zz_verif_reference.go")
	if _, err := os.Stat(file); err == nil {
		m.r.bad("reference", token.NoPos, "%s exists", file)
		return nil, nil
	}
	p, err := loadOverlay(repoDir, nil, map[string][]byte{file: []byte(src.String())}, "./pkg/grammar")
	if err != nil {
		m.r.bad("reference", m.init.Pos(), "the actions of grammar.peg do not compile in the package of the shipped parser: %v", err)
		return nil, nil
	}
	for path, sp := range p.spkgs {
		if strings.HasSuffix(path, "pkg/grammar") {
			return p, sp
		}
	}
	return nil, nil
}

func importBase(im *ast.ImportSpec) string {
	s, _ := strconv.Unquote(im.Path.Value)
	return s[strings.LastIndex(s, "/")+1:]
}

// around compares everything around the rule functions.
func (m *pegMachine) around() {
	r := m.r
	p, sp := m.reference()
	if p == nil || sp == nil {
		return
	}
	pol := Policy{opaque: func(n string, fn *ssa.Function) bool {
		return n == "grammar.cleanString" || n == "grammar.splitIds" || n == "Parser.Parse" || n == "Parser.Init"
	}, kind: func(string) byte { return 'p' }}
	pt := sp.Type("Parser")
	tt := sp.Type("tokens32")
	if pt == nil || tt == nil {
		r.missing("grammar.Parser or tokens32")
		return
	}
	meth := func(t *ssa.Type, n string) *ssa.Function { return p.method(types.NewPointer(t.Type()), n) }
	m.executes(p, pol, meth(pt, "Execute"), meth(pt, "verifExecute"))
	for _, n := range []string{"Trim", "Add", "Tokens"} {
		m.sameBehaviour(p, Policy{}, "tokens32."+n, meth(tt, n), meth(tt, "verif"+n))
	}
	for _, n := range []string{"Parse", "Reset"} {
		m.sameBehaviour(p, Policy{}, "Parser."+n, meth(pt, n), meth(pt, "verif"+n))
	}
	init, ref := meth(pt, "Init"), meth(pt, "verifInit")
	if init == nil || ref == nil {
		r.missing("Parser.Init")
		return
	}
	a, b := initClosures(init), initClosures(ref)
	for _, n := range []string{".parse", ".reset", "=add", "=matchDot"} {
		if a[n] == nil {
			if n == "=matchDot" {
				continue // it is used only where a rule has a dot
			}
			r.missing("the parser function " + n[1:])
			continue
		}
		m.sameBehaviour(p, Policy{opaque: func(c string, fn *ssa.Function) bool {
			return strings.HasPrefix(c, "tokens32.")
		}}, "closure "+n[1:], a[n], b[n])
	}
	m.initOrder(init)
}

// initClosures finds the functions that Init makes, by the variable or field they are put in.
func initClosures(init *ssa.Function) map[string]*ssa.Function {
	out := map[string]*ssa.Function{}
	for _, b := range init.Blocks {
		for _, i := range b.Instrs {
			switch st := i.(type) {
			case *ssa.Store:
				mc, ok := st.Val.(*ssa.MakeClosure)
				if !ok {
					continue
				}
				switch a := st.Addr.(type) {
				case *ssa.Alloc:
					out["="+a.Comment] = mc.Fn.(*ssa.Function)
				case *ssa.FieldAddr:
					out["."+structOf(a.X.Type()).Field(a.Field).Name()] = mc.Fn.(*ssa.Function)
				case *ssa.IndexAddr:
					if c, ok := a.Index.(*ssa.Const); ok && c.Int64() == 0 && out["=matchDot"] == nil {
						out["=matchDot"] = mc.Fn.(*ssa.Function)
					}
				}
			case *ssa.Call:
				if mc, ok := st.Call.Value.(*ssa.MakeClosure); ok && out["=add"] == nil && len(st.Call.Args) == 2 {
					out["=add"] = mc.Fn.(*ssa.Function)
				}
			}
		}
	}
	return out
}

// sameBehaviour compares what two functions do on every partition.
func (m *pegMachine) sameBehaviour(p *Prog, pol Policy, what string, fn, ref *ssa.Function) {
	r := m.r
	if fn == nil || ref == nil {
		r.missing("the parser function " + what)
		return
	}
	a, err1 := behaviour(p, pol, fn)
	b, err2 := behaviour(p, pol, ref)
	if err1 != nil || err2 != nil {
		r.bad("around:"+what, m.posOf(fn), "the analysis cannot be completed: %v %v", err1, err2)
		return
	}
	r.fns[what] = true
	r.paths += len(a)
	x, y := strings.Join(a, "\n"), strings.Join(b, "\n")
	r.must(x == y, "around:"+what, m.posOf(fn), "%s does not do what the parser generator's code does:\n%s\n-- instead of --\n%s", what, x, y)
}

// behaviour describes the partitions of a function: conditions, effects, results.
func behaviour(p *Prog, pol Policy, fn *ssa.Function) ([]string, error) {
	in := NewInterp(p, pol)
	st := newState()
	var free []*Term
	for _, f := range fn.FreeVars {
		free = append(free, sym("free:"+f.Name(), f.Type()))
	}
	var args []*Term
	for i, prm := range fn.Params {
		args = append(args, sym(fmt.Sprintf("arg%d", i), prm.Type()))
	}
	var outs []Outcome
	var err error
	func() {
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(Undecided); ok {
					err = fmt.Errorf("undecided: %s", u.why)
					return
				}
				panic(r)
			}
		}()
		outs = in.call(fn, free, st, args)
	}()
	if err != nil {
		return nil, err
	}
	var res []string
	for _, o := range outs {
		var l []string
		o.st.facts.each(func(a *Term, v bool) bool {
			l = append(l, fmt.Sprintf("  if %v = %v", a, v))
			return true
		})
		sort.Strings(l)
		var ev []string
		for _, e := range o.st.trace {
			if e.kind != "store" {
				ev = append(ev, "  does "+e.kind+" "+e.name+fmt.Sprint(e.args))
			}
		}
		var mem []string
		for k, v := range o.st.mem {
			if k.op == OPtr {
				continue
			}
			w := in.snap(o.st, v, 0)
			if w.op == ODeref && w.args[0] == k {
				continue // as it was
			}
			mem = append(mem, fmt.Sprintf("  sets %v = %v", k, w))
		}
		sort.Strings(mem)
		s := strings.Join(l, "\n") + "\n" + strings.Join(ev, "\n") + "\n" + strings.Join(mem, "\n") + fmt.Sprintf("\n  panic %v, answers %v", o.panic, in.snapAll(o.st, o.rets))
		res = append(res, normIds(s))
	}
	sort.Strings(res)
	return res, nil
}

var loopIdRe = regexp.MustCompile(`\b(L|obj|t)\d+\b`)

// normIds renames loops, objects and registers in the order in which they appear.
func normIds(s string) string {
	seen := map[string]string{}
	n := map[string]int{}
	return loopIdRe.ReplaceAllStringFunc(s, func(x string) string {
		if y, ok := seen[x]; ok {
			return y
		}
		k := strings.TrimRight(x, "0123456789")
		n[k]++
		seen[x] = fmt.Sprintf("%s#%d", k, n[k])
		return seen[x]
	})
}

// executes compares the loop over the tokens in Execute with the actions of grammar.peg.
func (m *pegMachine) executes(p *Prog, pol Policy, fn, ref *ssa.Function) {
	r := m.r
	if fn == nil || ref == nil {
		r.missing("Parser.Execute")
		return
	}
	a, oka := m.perRule(p, pol, fn)
	b, okb := m.perRule(p, pol, ref)
	if !oka || !okb {
		return
	}
	r.fns["Parser.Execute"] = true
	n := 0
	for k, want := range b {
		got := a[k]
		n++
		r.paths += len(want)
		r.must(strings.Join(got, "\n--\n") == strings.Join(want, "\n--\n"), "action:"+k, m.posOf(fn),
			"what the parser does for %s is not what grammar.peg says; it does\n%s\n-- instead of --\n%s", k, strings.Join(got, "\n--\n"), strings.Join(want, "\n--\n"))
	}
	for k := range a {
		if b[k] == nil {
			r.bad("action:"+k, m.posOf(fn), "the parser does something for %s, for which grammar.peg has no action", k)
		}
	}
	r.need("actions", n, 10)
}

// perRule describes what one round of the loop of Execute does, by the rule of the token.
func (m *pegMachine) perRule(p *Prog, pol Policy, fn *ssa.Function) (map[string][]string, bool) {
	r := m.r
	in := NewInterp(p, pol)
	outs, err := in.Run(fn, newState(), paramSyms(fn)...)
	if err != nil {
		r.bad("execute:decided", m.posOf(fn), "the analysis of %s cannot be completed: %v", fn.Name(), err)
		return nil, false
	}
	var loop *Loop
	for _, o := range outs {
		if o.panic {
			r.bad("execute:panic", m.posOf(fn), "%s may panic", fn.Name())
			return nil, false
		}
		for _, e := range o.st.trace {
			if e.kind != "loop" || loop != nil && loop != e.loop {
				r.bad("execute:shape", e.pos, "%s does more than one round over the tokens", fn.Name())
				return nil, false
			}
			loop = e.loop
		}
	}
	if loop == nil || loop.coll == nil || len(outs) != 1 || loop.exits != 0 || loop.rev {
		r.bad("execute:shape", m.posOf(fn), "%s is not a loop over all tokens in order", fn.Name())
		return nil, false
	}
	// the identity of what is carried from round to round: the value that most rounds leave
	count := map[string]map[*Term]int{}
	for _, lp := range loop.paths {
		for k, v := range lp.upd {
			if count[k] == nil {
				count[k] = map[*Term]int{}
			}
			count[k][v]++
		}
	}
	ident := map[string]*Term{}
	carried := regexp.MustCompile(`^L\d+\.[mp]:[\w.]*$`)
	ren := map[string]string{}
	for k, c := range count {
		var best *Term
		for v, n := range c {
			if carried.MatchString(v.String()) && (best == nil || n > c[best]) {
				best = v
			}
		}
		if best != nil {
			ident[k] = best
			ren[best.String()] = "‹" + k + "›"
		}
	}
	var olds []string
	for o := range ren {
		olds = append(olds, o)
	}
	sort.Slice(olds, func(i, j int) bool { return len(olds[i]) > len(olds[j]) })
	tail := regexp.MustCompile(`^[\w]`)
	name := func(s string) string {
		for _, o := range olds {
			for i := 0; ; {
				j := strings.Index(s[i:], o)
				if j < 0 {
					break
				}
				j += i
				if tail.MatchString(s[j+len(o):]) {
					i = j + len(o)
					continue
				}
				s = s[:j] + ren[o] + s[j+len(o):]
				i = j + len(ren[o])
			}
		}
		return normIds(s)
	}
	own := fmt.Sprintf("L%d", loop.id)
	res := map[string][]string{}
	for _, lp := range loop.paths {
		rule := ""
		var l []string
		lp.facts.each(func(a *Term, v bool) bool {
			s := a.String()
			if strings.Contains(s, ".pegRule") {
				if v {
					for c, n := range m.consts {
						if mt := regexp.MustCompile(`\.pegRule-(\d+)\)==0|\.pegRule==(\d+)`).FindStringSubmatch(s); mt != nil && (mt[1] == fmt.Sprint(c) || mt[2] == fmt.Sprint(c)) {
							rule = n
						}
					}
				}
				return true
			}
			if strings.Contains(s, "N<"+own+">") {
				return true
			}
			l = append(l, name(fmt.Sprintf("  if %v = %v", a, v)))
			return true
		})
		for k, v := range lp.upd {
			if k == "rangeindex" || v == ident[k] || strings.HasPrefix(v.String(), "N<"+own) {
				continue
			}
			l = append(l, name(fmt.Sprintf("  %s becomes %v", k, v)))
		}
		sort.Strings(l)
		var ev []string
		for _, e := range lp.trace {
			switch e.kind {
			case "store", "append":
			case "loop":
				ev = append(ev, name(traceString([]*Ev{e}, "  ", p.fset)))
			default:
				ev = append(ev, name("  does "+e.kind+" "+e.name+fmt.Sprint(e.args)))
			}
		}
		s := strings.Join(append(l, ev...), "\n")
		if rule == "" {
			rule = "any other rule"
		}
		res[rule] = append(res[rule], s)
	}
	for k, v := range res {
		sort.Strings(v)
		if k != "any other rule" && len(v) == 1 && v[0] == "" {
			delete(res, k)
		}
	}
	return res, true
}

// posOf is the place of a function of the reference program in the program under check.
func (m *pegMachine) posOf(fn *ssa.Function) token.Pos {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if recv := fn.Signature.Recv(); recv != nil {
		if tn := typeName(recv.Type()); tn != nil {
			if t := m.pkg.Type(tn.Name()); t != nil {
				if g := m.p.method(types.NewPointer(t.Type()), fn.Name()); g != nil {
					return g.Pos()
				}
			}
		}
	}
	return m.init.Pos()
}

// initOrder: Init resets the parser, keeps the table it fills and answers no error.
func (m *pegMachine) initOrder(init *ssa.Function) {
	r := m.r
	reset, kept := false, false
	for _, b := range init.Blocks {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.Call:
				if u, ok := x.Call.Value.(*ssa.UnOp); ok {
					if fa, ok := u.X.(*ssa.FieldAddr); ok && structOf(fa.X.Type()).Field(fa.Field).Name() == "reset" {
						reset = true
					}
				}
				if fn := x.Call.StaticCallee(); fn != nil && fn.Name() == "Reset" {
					reset = true
				}
			case *ssa.Store:
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok && structOf(fa.X.Type()).Field(fa.Field).Name() == "rules" {
					if u, ok := x.Val.(*ssa.UnOp); ok {
						if a, ok := u.X.(*ssa.Alloc); ok && a.Comment == "_rules" {
							kept = true
						}
					}
				}
			}
		}
	}
	r.must(reset, "init:reset", init.Pos(), "Init does not reset the parser")
	r.must(kept, "init:rules", init.Pos(), "Init does not keep the table of rules")
}

// parsePolicy: the methods of the generated parser stay uninterpreted.
func parsePolicy() Policy {
	kind := map[string]byte{"Parser.Init": 0, "Parser.Parse": 'm', "Parser.Execute": 'm', "Parser.Reset": 'm'}
	return Policy{
		opaque: func(n string, fn *ssa.Function) bool { _, ok := kind[n]; return ok },
		kind:   func(n string) byte { return kind[n] },
	}
}

// parseFunc: grammar.Parse reads exactly the text given, with a fresh parser, and runs the
// actions if and only if the text was accepted.
func (m *pegMachine) parseFunc() {
	r := m.r
	fn := m.p.fn("pkg/grammar", "Parse")
	if fn == nil {
		r.missing("grammar.Parse")
		return
	}
	outs, in := r.exec(parsePolicy(), fn, newState(), paramSyms(fn)...)
	text := sym(fn.Params[0].Name(), fn.Params[0].Type())
	runs := 0
	for _, o := range outs {
		if !r.must(!o.panic && len(o.rets) == 2, "parse:answers", fn.Pos(), "Parse may panic") {
			continue
		}
		var seq []*Ev
		for _, e := range o.st.trace {
			if e.kind == "call" && strings.HasPrefix(e.name, "Parser.") {
				seq = append(seq, e)
			} else if e.kind == "loop" {
				r.bad("parse:shape", e.pos, "Parse has a loop around the parser")
			}
		}
		err := in.val(o.st, o.rets[1])
		var names []string
		for _, e := range seq {
			names = append(names, strings.TrimPrefix(e.name, "Parser."))
			r.must(strip2(e.raw[0]) == strip2(o.rets[0]), "parse:one parser", e.pos, "Parse uses another parser than it returns")
		}
		order := strings.Join(names, " ")
		failed := -2
		for i, e := range seq {
			if e.name == "Parser.Execute" {
				continue
			}
			switch errStatus(o.st, e.res) {
			case 1:
			default:
				failed = i
				r.must(i == len(seq)-1 && (same(o.st, err, e.res) || errStatus(o.st, err) == -1), "parse:error of "+e.name, e.pos, "Parse goes on after a failure of %s, or answers %v", e.name, err)
			}
		}
		if failed == -2 {
			runs++
			r.must(order == "Init Parse Execute" && errStatus(o.st, err) == 1, "parse:runs the actions of an accepted text", fn.Pos(), "an accepted text is handled by %s and answered with the error %v", order, err)
		} else {
			r.must(order == "Init" || order == "Init Parse", "parse:no action for a rejected text", fn.Pos(), "a rejected text is handled by %s", order)
			r.must(errStatus(o.st, err) == -1, "parse:rejected text is an error", fn.Pos(), "a rejected text is answered with the error %v", err)
		}
		if len(seq) == 0 {
			continue
		}
		get := func(fs ...string) *Term {
			at := strip2(seq[0].raw[0])
			for _, n := range fs {
				at = mk(OFieldP, n, 0, nil, at)
			}
			return in.val(o.st, in.load(o.st, at))
		}
		before := seq[0].args[0]
		if before.op == OAddr {
			before = mkField(before.args[0], "Buffer", nil)
		}
		r.must(before == text && get("Buffer") == text, "parse:text", seq[0].pos, "the parser reads %v", before)
		for _, f := range []string{"StmtType", "TreeString", "currentId", "text"} {
			v := get(f)
			r.must(v.op == OConst && v.s == "" || v.op == ONil || v.String() == `""`, "parse:fresh "+f, seq[0].pos, "the parser starts with %s = %v", f, v)
		}
		for _, f := range []string{"ItemStrings", "RelStrings", "nodeStack"} {
			v := get(f)
			r.must(emptySeq(strip2(v)), "parse:fresh "+f, seq[0].pos, "the parser starts with %s = %v", f, v)
		}
		for _, f := range []string{"Flags", "ResourceIds", "SecondaryIds"} {
			v := get("InputAttributes", f)
			r.must(emptySeq(strip2(v)), "parse:fresh "+f, seq[0].pos, "the parser starts with %s = %v", f, v)
		}
		for _, f := range [][]string{{"InputAttributes", "Params"}, {"WorldParams"}} {
			v := get(f...)
			r.must(v.op == OMake && (emptySeq(in.mapContent(o.st, v)) || in.mapContent(o.st, v).op == OZero), "parse:fresh "+f[len(f)-1], seq[0].pos, "the parser starts with %s = %v %v", f[len(f)-1], v, in.mapContent(o.st, v))
		}
	}
	r.need("partitions of Parse that run the actions", runs, 1)
}
