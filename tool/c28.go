package main

// C28: what the console offers and the README lists can be typed, and what is typed is executed.

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{id: "C28", run: runC28,
		rule:        "The completion of the console is analysed for every document: each text that it can offer is collected as a constant. A text is discharged by a derivation of the grammar file that begins with it, whose text the generated parser reads on some partition as the operation that its words name, and which InputToCommand turns into a command on every partition. The verbs of the README's table are discharged by an operation of their kind of thing that is derived, read and handled. On every partition of the console's executor, a text that is not blank and parses is executed once, as it was typed but for blanks around it, and the reply is printed.",
		assumptions: []string{"functions of go-prompt that filter suggestions return some of those they are given", "the table of verbs in README.md has the columns Verb, item and rel"}})
}

// derivation is a command as the grammar derives it.
type derivation struct {
	leaves []leaf
	m      meaning
}

// derivations lists the commands that the grammar derives and that mean something.
func (r *Run) derivations(t *tmpl) []derivation {
	var out []derivation
	d := &deriver{g: t.g}
	ds := d.gen(t.g.rules["Command"])
	if d.over {
		r.missing("the commands that the grammar derives")
		return nil
	}
	for _, ls := range ds {
		ws, _ := r.words(ls, newTenv(), true)
		if m := mean(ws); m.ok {
			out = append(out, derivation{ls, m})
		}
	}
	return out
}

// begin puts a text in the place of the beginning of a derivation, if that begins with the same letters.
func (d derivation) begin(s string) ([]leaf, bool) {
	ls := d.leaves
	for len(ls) > 0 && ls[0].space {
		ls = ls[1:]
	}
	rest := strings.ToLower(s)
	for i, l := range ls {
		if rest == "" {
			return append(cutLeaves(s), ls[i:]...), true
		}
		x := l.lit
		if l.space {
			x = " "
		}
		if l.run != nil || x == "" {
			return nil, false
		}
		if strings.HasPrefix(x, rest) {
			return append(append(cutLeaves(s+x[len(rest):]), ls[i+1:]...)), true
		}
		if !strings.HasPrefix(rest, x) {
			return nil, false
		}
		rest = rest[len(x):]
	}
	return cutLeaves(s), rest == ""
}

// cutLeaves makes known characters and blanks of a text.
func cutLeaves(s string) []leaf {
	var out []leaf
	for _, c := range s {
		if blank.has(int(c)) {
			out = append(out, leaf{space: true})
		} else {
			out = append(out, leaf{lit: string(c)})
		}
	}
	return out
}

// typed decides whether a text is read as what its words say on some partition, and in no other way.
func (r *Run) typed(ls []leaf) string {
	p := r.p
	parserT := p.typ("pkg/grammar", "Parser")
	iaT := fieldType(parserT, "InputAttributes")
	sub := &Run{c: r.c, tier: r.tier, p: p, byKey: map[string]*obligation{}, fns: r.fns, counts: map[string]int{}}
	t := sub.newTmpl()
	if t == nil {
		return "the grammar cannot be read"
	}
	env := newTenv()
	ws, text := sub.words(ls, env, true)
	m := mean(ws)
	if !m.ok {
		return "it means nothing"
	}
	any := sub.readCommand(t, "command", env, text, m, iaT, parserT)
	r.paths += sub.paths
	for _, o := range sub.obl {
		if !o.ok {
			return o.detail
		}
	}
	if !any {
		return cut(text.String(), 200) + " is not accepted"
	}
	return ""
}

// handled decides whether an operation becomes a command.
func (c *capp) handled(o operation) string {
	in := NewInterp(c.r.p, appPolicy(c.r.p))
	n := 0
	for _, x := range c.r.execIn(in, c.fn, newState(), c.input(o)) {
		if x.panic {
			return "converting it panics"
		}
		if in.val(x.st, x.rets[0]).op != OIface || errStatus(x.st, x.rets[1]) != 1 {
			return "the application does not handle it when " + cut(x.st.facts.String(), 200)
		}
		n++
	}
	if n == 0 {
		return "the application does not handle it"
	}
	return ""
}

func runC28(r *Run) {
	p := r.prog()
	t := r.newTmpl()
	c := r.capp()
	if t == nil || c == nil {
		return
	}
	parserT := p.typ("pkg/grammar", "Parser")
	if p.fn("pkg/grammar", "Parse") == nil || parserT == nil || fieldType(parserT, "InputAttributes") == nil || t.g.rules["Command"] == nil {
		r.missing("the parser of commands")
		return
	}
	ds := r.derivations(t)
	r.need("commands derived", len(ds), 50)
	handled := map[operation]string{}
	ask := func(o operation) string {
		s, ok := handled[o]
		if !ok {
			s = c.handled(o)
			handled[o] = s
		}
		return s
	}
	// a text that derivations begin with
	begins := func(s string, want func(d derivation) bool) string {
		why, tried := "no command of the grammar begins with it", 0
		for _, d := range ds {
			if want != nil && !want(d) {
				continue
			}
			ls, ok := d.begin(s)
			if !ok {
				continue
			}
			if tried++; tried > 40 {
				break
			}
			w := r.typed(ls)
			if w == "" {
				w = ask(d.m.op)
			}
			if w == "" {
				return ""
			}
			why = w
		}
		return why
	}
	sugg := r.suggestions()
	r.need("texts that the console offers", len(sugg), 1)
	for _, s := range sugg {
		why := begins(s, nil)
		r.must(why == "", "suggestion "+s, p.pkg("cmd/cli").Pkg.Scope().Lookup("main").Pos(), "the console offers %q, but no command that begins so is accepted and handled: %s", s, why)
	}
	rows := r.readmeVerbs()
	r.need("verbs that the README lists", len(rows), 10)
	for _, o := range rows {
		why := begins("", func(d derivation) bool { return d.m.op.ty == o.ty && d.m.op.verb == o.verb })
		r.must(why == "", "documented "+o.String(), c.fn.Pos(), "the README lists %q for %ss, but no command for that is accepted and handled: %s", o.verb, o.ty, why)
	}
	r.console()
	t.finish()
}

// readmeVerbs reads the table of verbs of the README.
func (r *Run) readmeVerbs() []operation {
	b, err := os.ReadFile(filepath.Join(r.p.dir, "README.md"))
	if err != nil {
		r.missing("README.md")
		return nil
	}
	var out []operation
	in := false
	cols := map[string]int{}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "|") {
			in = false
			continue
		}
		cells := strings.Split(strings.Trim(l, "|"), "|")
		for i := range cells {
			cells[i] = strings.Trim(strings.TrimSpace(cells[i]), "`")
		}
		if !in {
			cols = map[string]int{}
			for i, c := range cells {
				cols[strings.ToLower(c)] = i
			}
			_, v := cols["verb"]
			in = v
			continue
		}
		if strings.HasPrefix(cells[0], "-") {
			continue
		}
		for _, ty := range []string{"item", "rel"} {
			i, ok := cols[ty]
			if ok && i < len(cells) && cells[i] != "" {
				out = append(out, operation{ty, strings.Fields(cells[cols["verb"]] + " ?")[0], false})
			}
		}
	}
	return out
}

// cliFuncs lists the functions of the console with a signature that satisfies a predicate.
func (r *Run) cliFuncs(f func(s *types.Signature) bool) []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range r.p.repoFuncs() {
		if pk := fnPkg(fn); pk == nil || !strings.HasSuffix(pk.Path(), "/cmd/cli") || !declared(fn) && fn.Parent() == nil {
			continue
		}
		if fn.Signature.Recv() == nil && f(fn.Signature) {
			out = append(out, fn)
		}
	}
	return out
}

func isPrompt(t types.Type, name string) bool {
	tn := typeName(t)
	return tn != nil && tn.Pkg() != nil && strings.HasSuffix(tn.Pkg().Path(), "go-prompt") && tn.Name() == name
}

func isSuggestions(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isPrompt(s.Elem(), "Suggest")
}

// made is a closure as its maker makes it.
type made struct {
	st   *State
	free []*Term
}

// makings lists the ways in which the maker of a closure makes it.
func (r *Run) makings(fn *ssa.Function, pol Policy) (*Interp, []made) {
	in := NewInterp(r.p, pol)
	par := fn.Parent()
	if par != nil && par.Parent() == nil && declared(par) {
		outs, err := in.Run(par, newState(), paramSyms(par)...)
		var out []made
		for _, o := range outs {
			for _, v := range o.rets {
				if v = in.val(o.st, v); v.op == OClosure && v.fn == fn {
					out = append(out, made{o.st, v.args})
				}
			}
		}
		if err == nil && len(out) > 0 {
			return in, out
		}
	}
	return in, []made{{newState(), freeSyms(fn)}}
}

// freeSyms stands for what a closure captures.
func freeSyms(fn *ssa.Function) []*Term {
	var out []*Term
	for _, f := range fn.FreeVars {
		out = append(out, sym("captured "+f.Name(), f.Type()))
	}
	return out
}

// suggestions collects every text that the completion of the console can offer.
func (r *Run) suggestions() []string {
	p := r.p
	fns := r.cliFuncs(func(s *types.Signature) bool {
		return s.Params().Len() == 1 && isPrompt(s.Params().At(0).Type(), "Document") && s.Results().Len() == 1 && isSuggestions(s.Results().At(0).Type())
	})
	if len(fns) == 0 {
		r.missing("the completion of the console")
		return nil
	}
	set := map[string]bool{}
	for _, fn := range fns {
		pol := appPolicy(p)
		pol.shapes = true
		k := pol.kind
		pol.kind = func(n string) byte {
			if strings.Contains(n, "go-prompt.") {
				return 'p'
			}
			return k(n)
		}
		in, ways := r.makings(fn, pol)
		args := paramSyms(fn)
		var outs []Outcome
		var err error
		for _, w := range ways {
			os, e := in.RunClosure(fn, w.free, w.st, args...)
			outs = append(outs, os...)
			if e != nil {
				err = e
			}
		}
		if err != nil {
			r.bad("decided:completion", fn.Pos(), "the analysis of the completion cannot be completed: %v", err)
			continue
		}
		r.fns[p.canon(fn)] = true
		r.paths += len(outs)
		for _, o := range outs {
			if o.panic {
				continue
			}
			if why := in.offered(o.st, o.rets[0], set, 0); why != "" {
				r.bad("known texts", o.pos, "what the console offers cannot be told: %s", why)
			}
		}
	}
	var out []string
	for s := range set {
		out = append(out, s)
	}
	sort.Strings(out)
	return out
}

// offered adds the texts of a list of suggestions.
func (in *Interp) offered(st *State, t *Term, set map[string]bool, d int) string {
	if d > 8 {
		return "nested too deeply"
	}
	t = in.val(st, t)
	text := func(x *Term) string {
		s := mkField(in.val(st, x), "Text", types.Typ[types.String])
		if v, ok := in.val(st, s).isStr(); ok {
			set[v] = true
			return ""
		}
		return cut(s.String(), 200)
	}
	switch t.op {
	case ONil:
		return ""
	case OClip, OCopy:
		return in.offered(st, t.args[0], set, d+1)
	case OSeq:
		for _, x := range t.args {
			var why string
			if x.op == OOne {
				why = text(x.args[0])
			} else {
				why = in.offered(st, x, set, d+1)
			}
			if why != "" {
				return why
			}
		}
		return ""
	case OEach:
		// one for each element that is taken: what they are taken from bounds them
		for _, x := range t.args {
			if why := in.offered(st, x, set, d+1); why != "" {
				return why
			}
		}
		return ""
	case OCall:
		if strings.Contains(t.s, "go-prompt.") {
			n := 0
			for _, a := range t.args {
				if a.typ != nil && isSuggestions(a.typ) || a.op == OSeq || a.op == ONil {
					n++
					if why := in.offered(st, a, set, d+1); why != "" {
						return why
					}
				}
			}
			if n > 0 {
				return ""
			}
		}
	}
	return cut(t.String(), 300)
}

// console: what is typed is executed.
func (r *Run) console() {
	p := r.p
	fns := r.cliFuncs(func(s *types.Signature) bool {
		return s.Params().Len() == 1 && isBasic(s.Params().At(0).Type(), types.IsString) && s.Results().Len() == 0
	})
	n := 0
	for _, fn := range fns {
		if !p.invokes(fn, "App", "Exec") {
			continue
		}
		n++
		pol := withOpaque(appPolicy(p), map[string]byte{"App.Exec": 0, "App.History": 0, "grammar.Parse": 'p'})
		in, ways := r.makings(fn, pol)
		args := paramSyms(fn)
		var outs []Outcome
		var err error
		for _, w := range ways {
			os, e := in.RunClosure(fn, w.free, w.st, args...)
			outs = append(outs, os...)
			if e != nil {
				err = e
			}
		}
		if err != nil {
			r.bad("decided:console", fn.Pos(), "the analysis of the console cannot be completed: %v", err)
			continue
		}
		r.fns[p.canon(fn)] = true
		r.paths += len(outs)
		ran := 0
		for _, o := range outs {
			if o.panic {
				r.bad("console panics", o.pos, "the console panics when %s", o.st.facts)
				continue
			}
			var ex []*Ev
			var printed []*Ev
			flat(o.st.trace, func(e *Ev, in []*Loop) {
				switch {
				case e.kind != "call":
				case e.name == "App.Exec":
					ex = append(ex, e)
					if len(in) > 0 {
						ex = append(ex, e)
					}
				case strings.HasPrefix(e.name, "fmt.Print") || strings.HasPrefix(e.name, "fmt.Fprint") || strings.HasPrefix(e.name, "os.File.Write"):
					printed = append(printed, e)
				}
			})
			when := cut(o.st.facts.String(), 300)
			if len(ex) == 0 {
				r.must(idle(in, o.st, args[0]), "executes what is typed", fn.Pos(), "a text is not executed although it is not blank and parses, when %s", when)
				continue
			}
			ran++
			if !r.must(len(ex) == 1, "executes once", ex[0].pos, "a text is executed %d times when %s", len(ex), when) {
				continue
			}
			cmd := in.val(o.st, ex[0].raw[len(ex[0].raw)-1])
			r.must(untrim(cmd) == args[0], "executes it as typed", ex[0].pos, "what is executed is %s, not what was typed, when %s", cmd, when)
			shown := false
			for _, e := range printed {
				for _, a := range e.args {
					shown = shown || contains(a, ex[0].res)
				}
			}
			r.must(shown, "prints the reply", ex[0].pos, "the reply is not printed when %s", when)
		}
		r.need("partitions that execute", ran, 1)
	}
	r.need("executors of the console", n, 1)
}

// untrim leaves the removal of blanks around a text.
func untrim(t *Term) *Term {
	for t.op == OCall && len(t.args) > 0 && (t.s == "strings.TrimSpace" || (t.s == "strings.Trim" || t.s == "strings.TrimRight" || t.s == "strings.TrimLeft") && len(t.args) == 2 && blankSet(t.args[1])) {
		t = t.args[0]
	}
	return t
}

func blankSet(t *Term) bool {
	s, ok := t.isStr()
	return ok && strings.Trim(s, " \t\r\n\v\f") == ""
}

// idle: the text is blank, or does not parse.
func idle(in *Interp, st *State, text *Term) bool {
	found := false
	st.facts.each(func(a *Term, v bool) bool {
		switch {
		case a.op == OEq && !v:
			for i := 0; i < 2; i++ {
				x := a.args[i]
				if a.args[1-i] == tNil && x.op == OExtract && x.args[0].op == OCall && x.args[0].s == "grammar.Parse" && untrim(x.args[0].args[0]) == text {
					found = true
				}
			}
		case a.op == OEq && v:
			for i := 0; i < 2; i++ {
				if s, ok := a.args[1-i].isStr(); ok && s == "" && untrim(a.args[i]) == text {
					found = true
				}
			}
		case a.op == OEmpty && v && untrim(a.args[0]) == text:
			found = true
		}
		return !found
	})
	return found
}

var _ = fmt.Sprint
