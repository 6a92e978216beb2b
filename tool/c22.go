package main

// C22: error values are immutable and keep what they are given.

import (
	"go/constant"
	"go/types"
	"path/filepath"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{id: "C22", run: runC22,
		rule:        "On every trace partition of every function that derives an error from another, each field of the result is compared as a term with its prescription: the one that is replaced or added to, and every other as it was. No partition of any function of the package writes to an error, list or table that existed before, or appends to a list whose array another error or the caller may hold. The description that goes with a code is the one in the constant table for each declared code, and every declared code has one; the first cause is unwrapped; joining keeps each cause that is not nil.",
		assumptions: []string{"slices.Clip leaves no room, so that appending makes a new array"}})
}

// listOf takes a list apart: what it is made of, in order. A part is "all" of a list, "some" (all that are not nil), or "one" value.
type listPart struct {
	kind string
	t    *Term
	raw  bool // the array is not a new one
}

func (in *Interp) listOf(st *State, t *Term) ([]listPart, bool) {
	t = in.val(st, t)
	switch t.op {
	case ONil:
		return nil, true
	case OClip, OCopy:
		ps, ok := in.listOf(st, t.args[0])
		for i := range ps {
			ps[i].raw = false
		}
		return ps, ok
	case OSeq:
		var out []listPart
		for i, p := range t.args {
			switch p.op {
			case OOne:
				out = append(out, listPart{kind: "one", t: p.args[0]})
			case OEach:
				ps, ok := in.eachOf(st, p)
				if !ok {
					return nil, false
				}
				out = append(out, ps...)
			default:
				ps, ok := in.listOf(st, p)
				if !ok {
					return nil, false
				}
				if len(t.args) > 1 && i > 0 {
					for j := range ps {
						ps[j].raw = false
					}
				}
				out = append(out, ps...)
			}
		}
		return out, true
	case OFold:
		// begun with a list, and added to
		ps, ok := in.listOf(st, t.args[0])
		if !ok {
			return nil, false
		}
		L := loopIn(st, t.k)
		if L == nil || !L.natural || len(L.paths) != len(t.args)-1 {
			return nil, false
		}
		more, ok := in.grown(st, L, t.args[1:])
		return append(ps, more...), ok
	case OSlice:
		if t.args[1] == cInt(0) && t.args[2] == mkLen(t.args[0]) {
			return in.listOf(st, t.args[0])
		}
		if t.args[1] == t.args[2] {
			return nil, true
		}
	}
	if st.facts.eval(mkEmpty(t)) == 1 {
		return nil, true
	}
	if t.op == OTop || t.op == OMake {
		return nil, false
	}
	return []listPart{{kind: "all", t: t, raw: true}}, true
}

// loopIn is a loop as it was run on the trace of a state.
func loopIn(st *State, id int) *Loop {
	var L *Loop
	flat(st.trace, func(e *Ev, _ []*Loop) {
		if e.kind == "loop" && e.loop.id == id {
			L = e.loop
		}
	})
	return L
}

// eachOf: what a loop gathers, when it is all of a list, or all that is not nil.
func (in *Interp) eachOf(st *State, p *Term) ([]listPart, bool) {
	L := loopIn(st, p.k)
	if L == nil || !L.natural || L.isMap || L.coll == nil || L.rev {
		return nil, false
	}
	var adds []*Term
	names := strings.Split(p.s, ",")
	for i := 0; i < len(L.paths); i++ {
		var x *Term
		for j, n := range names {
			if n == strconv.Itoa(i) {
				x = p.args[j]
			}
		}
		adds = append(adds, x)
	}
	kind := "all"
	for i, x := range adds {
		switch {
		case x == nil || x == tEmptySeq:
			if !skipsNil(L, i) {
				return nil, false
			}
			kind = "some"
		case x.op == OSeq && len(x.args) == 1 && x.args[0].op == OOne && isElem(x.args[0].args[0], L):
		default:
			return nil, false
		}
	}
	return in.through(st, kind, L.coll)
}

// through: all, or some, of a list that was itself put together.
func (in *Interp) through(st *State, kind string, coll *Term) ([]listPart, bool) {
	ps, ok := in.listOf(st, coll)
	if !ok {
		return nil, false
	}
	for i := range ps {
		ps[i].raw = false
		if kind == "some" {
			if ps[i].kind == "one" {
				return nil, false
			}
			ps[i].kind = kind
		}
	}
	return ps, true
}

// isElem: the element that a loop is at.
func isElem(x *Term, L *Loop) bool {
	coll := strip(L.coll)
	if x.op == OElem && x.k == L.id && x.args[0] == coll {
		return true
	}
	if e, ok := soleElem(coll); ok { // of a list that another loop put together
		return substLoop(e, coll.args[0].k, L.id) == x
	}
	return false
}

// skipsNil: on a path of the loop the element is nil.
func skipsNil(L *Loop, i int) bool {
	nil0 := false
	L.paths[i].facts.each(func(a *Term, v bool) bool {
		if a.op == OEq && v && a.args[1] == tNil && isElem(a.args[0], L) {
			nil0 = true
		}
		return true
	})
	return nil0
}

// grown: what each round of a loop adds to a list it carries along.
func (in *Interp) grown(st *State, L *Loop, upds []*Term) ([]listPart, bool) {
	if L.isMap || L.coll == nil || L.rev {
		return nil, false
	}
	kind := "all"
	for i, u := range upds {
		for u.op == OClip || u.op == OCopy {
			u = u.args[0]
		}
		if carried(u, L.id) {
			if !skipsNil(L, i) {
				return nil, false
			}
			kind = "some"
			continue
		}
		if u.op != OSeq || len(u.args) != 2 || u.args[1].op != OOne || !isElem(u.args[1].args[0], L) {
			return nil, false
		}
		b := u.args[0]
		if b.op != OClip && b.op != OCopy && !carried(b, L.id) {
			return nil, false
		}
		if !carried(strip(b), L.id) {
			return nil, false
		}
	}
	return in.through(st, kind, L.coll)
}

// carried: the term is what a loop carries along, or a field of it.
func carried(t *Term, id int) bool {
	for t.op == OField || t.op == OClip || t.op == OCopy {
		t = t.args[0]
	}
	return t.op == OLV && t.k == id
}

func runC22(r *Run) {
	p := r.prog()
	freshTags = true
	defer func() { freshTags = false }()
	errT := p.typ("pkg/errors", "TopolithError")
	codeT := p.typ("pkg/errors", "TopolithErrorCode")
	if errT == nil || codeT == nil {
		r.missing("the error type")
		return
	}
	st := structOf(errT)
	codeF, dataF, errsF := "", "", ""
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		switch {
		case types.Identical(f.Type(), codeT):
			codeF = f.Name()
		case f.Type().String() == "[]error":
			errsF = f.Name()
		case strings.HasPrefix(f.Type().String(), "[]"):
			dataF = f.Name()
		}
	}
	if codeF == "" || dataF == "" || errsF == "" {
		r.missing("the fields of the error type")
		return
	}
	x := &c22{r: r, p: p, st: st, codeF: codeF, dataF: dataF, errsF: errsF, desc: map[int64]string{}}
	x.table(codeT)
	// every function of the package writes to nothing that was there before
	fns := 0
	for _, fn := range p.repoFuncs() {
		file := filepath.ToSlash(p.fset.Position(fn.Pos()).Filename)
		if !strings.Contains(file, "/pkg/errors/") || strings.HasSuffix(file, "_test.go") || !declared(fn) || fn.Parent() != nil || fn.TypeParams().Len() > 0 {
			continue
		}
		if fn.Name() == "init" {
			continue
		}
		fns++
		name := p.canon(fn)
		in := NewInterp(p, Policy{})
		for _, o := range r.execIn(in, fn, newState(), paramSyms(fn)...) {
			x.pure(in, o, fn, name)
		}
	}
	r.need("functions of the package", fns, 6)
	for _, fn := range p.repoFuncs() {
		if n, f := x.mutates(fn, errT); n != nil {
			r.bad("writer of errors in "+p.canon(fn), n.Pos(), "%s writes to the field %s of an error that it was given", p.canon(fn), f)
		}
	}
	r.ok("writers of errors")
	x.builders(errT, codeT)
}

type c22 struct {
	r                   *Run
	p                   *Prog
	st                  *types.Struct
	codeF, dataF, errsF string
	desc                map[int64]string
}

// table: the declared codes and their descriptions.
func (x *c22) table(codeT types.Type) {
	r, p := x.r, x.p
	pk := p.pkg("pkg/errors")
	fn := p.method(p.typ("pkg/errors", "TopolithError"), "UseCode")
	if fn == nil {
		r.missing("TopolithError.UseCode")
		return
	}
	n := 0
	for _, name := range pk.Pkg.Scope().Names() {
		k, ok := pk.Pkg.Scope().Lookup(name).(*types.Const)
		if !ok || !strings.HasPrefix(name, "TopolithError") {
			continue
		}
		v, ok := constInt(k)
		if !ok {
			continue
		}
		n++
		_, dup := x.desc[v]
		r.must(!dup, "code "+name, k.Pos(), "the code %d of %s is that of another error too", v, name)
		in := NewInterp(p, Policy{})
		e := sym("e", fn.Params[0].Type())
		for _, o := range r.execIn(in, fn, newState(), e, cInt(v)) {
			if o.panic || len(o.rets) != 1 {
				r.bad("description of "+name, fn.Pos(), "using the code %s panics", name)
				continue
			}
			d, ok := mkField(in.snap(o.st, o.rets[0], 4), "Description", types.Typ[types.String]).isStr()
			if r.must(ok && d != "", "description of "+name, fn.Pos(), "an error with the code %s gets no description of its own", name) {
				x.desc[v] = d
			}
		}
	}
	r.need("codes", n, 3)
	byText := map[string]int64{}
	for c, d := range x.desc {
		if w, dup := byText[d]; dup {
			r.bad("descriptions", fn.Pos(), "the codes %d and %d have the same description", c, w)
		}
		byText[d] = c
	}
}

// mutates: a store into the field of an error by a function that was handed a pointer to it.
func (x *c22) mutates(fn *ssa.Function, errT types.Type) (ssa.Instruction, string) {
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			s, ok := i.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := s.Addr.(*ssa.FieldAddr)
			if !ok || !types.Identical(derefT(fa.X.Type()), errT) {
				continue
			}
			root := ssa.Value(fa.X)
			for {
				if f, ok := root.(*ssa.FieldAddr); ok {
					root = f.X
					continue
				}
				break
			}
			if _, ok := root.(*ssa.Alloc); ok {
				continue
			}
			if fv, ok := root.(*ssa.FreeVar); ok && fv != nil {
				continue // judged with the function around it
			}
			return i, x.st.Field(fa.Field).Name()
		}
	}
	return nil, ""
}

// pure: nothing that existed before is written to.
func (x *c22) pure(in *Interp, o Outcome, fn *ssa.Function, name string) {
	r := x.r
	flat(o.st.trace, func(e *Ev, _ []*Loop) {
		switch e.kind {
		case "store", "mput", "mdel", "mclear":
			r.bad("writes of "+name, e.pos, "%s writes to %v, which existed before", name, cut(in.snap(o.st, e.raw[0], 3).String(), 120))
		case "append":
			r.bad("writes of "+name, e.pos, "%s appends to %s, whose array another error may hold", name, cut(e.args[0].String(), 120))
		case "sort":
			if shared(e.args[0]) {
				r.bad("writes of "+name, e.pos, "%s sorts %s in place, which another error may hold", name, cut(e.args[0].String(), 120))
			}
		case "go":
			r.bad("writes of "+name, e.pos, "%s starts a goroutine", name)
		}
	})
	r.ok("writes of " + name)
}

type want map[string]func(in *Interp, st *State, got *Term) string

func (x *c22) builders(errT, codeT types.Type) {
	r, p := x.r, x.p
	is := func(w *Term) func(in *Interp, st *State, got *Term) string {
		return func(in *Interp, st *State, got *Term) string {
			if got == w || same(st, got, w) {
				return ""
			}
			return "is " + cut(got.String(), 160) + " instead of " + w.String()
		}
	}
	list := func(ws ...listPart) func(in *Interp, st *State, got *Term) string {
		return func(in *Interp, st *State, got *Term) string {
			ps, ok := in.listOf(st, got)
			if !ok {
				return "is " + cut(got.String(), 160) + ", which is not known to keep everything"
			}
			var left []listPart
			for _, w := range ws {
				if st.facts.eval(mkEmpty(w.t)) != 1 {
					left = append(left, w)
				}
			}
			bad := len(ps) != len(left)
			for i := 0; !bad && i < len(ps); i++ {
				bad = ps[i].t != left[i].t || ps[i].kind != left[i].kind && !(left[i].kind == "any" && ps[i].kind != "one")
			}
			if bad {
				return "is " + cut(got.String(), 160)
			}
			for i, q := range ps {
				if q.raw && len(ps) > 1 {
					return "is made by appending to " + cut(ps[i].t.String(), 100) + ", whose array another error may hold"
				}
				if q.raw && q.t.op == OSym {
					return "is the list of the caller itself"
				}
			}
			return ""
		}
	}
	str := types.Typ[types.String]
	of := func(base *Term, f string) *Term {
		for i := 0; i < x.st.NumFields(); i++ {
			if x.st.Field(i).Name() == f {
				return mkField(base, f, x.st.Field(i).Type())
			}
		}
		return nil
	}
	check := func(name string, fn *ssa.Function, args []*Term, base *Term, ws want) {
		if fn == nil {
			r.missing(name)
			return
		}
		in := NewInterp(p, Policy{})
		n := 0
		for _, o := range r.execIn(in, fn, newState(), args...) {
			n++
			if o.panic || len(o.rets) != 1 {
				r.bad("result of "+name, fn.Pos(), "%s panics when [%s]", name, cut(o.st.facts.String(), 200))
				continue
			}
			res := in.snap(o.st, o.rets[0], 4)
			if types.Identical(derefT(fn.Signature.Results().At(0).Type()), fn.Signature.Results().At(0).Type()) == false {
				res = in.snap(o.st, in.load(o.st, o.rets[0]), 4)
			}
			for i := 0; i < x.st.NumFields(); i++ {
				f := x.st.Field(i)
				w := ws[f.Name()]
				if w == nil {
					if base == nil {
						continue
					}
					w = is(of(base, f.Name()))
					if f.Name() == x.dataF || f.Name() == x.errsF {
						w = list(listPart{kind: "all", t: of(base, f.Name())})
					}
				}
				why := w(in, o.st, fieldThrough(res, f.Name(), f.Type()))
				r.must(why == "", f.Name()+" after "+name, fn.Pos(), "the %s of the result of %s %s, when [%s]", f.Name(), name, why, cut(o.st.facts.String(), 200))
			}
		}
		r.need("partitions of "+name, n, 1)
	}
	m := func(n string) *ssa.Function { return p.method(errT, n) }
	recv := func(fn *ssa.Function) *Term {
		if fn == nil {
			return nil
		}
		return sym("e", fn.Params[0].Type())
	}
	base := func(fn *ssa.Function) *Term {
		if fn == nil {
			return nil
		}
		e := recv(fn)
		if el := ptrElem(e.typ); el != nil {
			return mk(ODeref, "", 0, el, e)
		}
		return e
	}
	params := func(fn *ssa.Function) []*Term {
		if fn == nil {
			return nil
		}
		out := []*Term{recv(fn)}
		for _, q := range fn.Params[1:] {
			out = append(out, sym(q.Name(), q.Type()))
		}
		return out
	}
	arg := func(fn *ssa.Function, i int) *Term {
		if fn == nil || len(fn.Params) <= i {
			return tNil
		}
		return sym(fn.Params[i].Name(), fn.Params[i].Type())
	}
	// UseCode
	fn := m("UseCode")
	for c, d := range x.desc {
		check("UseCode", fn, []*Term{recv(fn), cInt(c)}, base(fn), want{x.codeF: is(cInt(c)), "Description": is(cStr(d))})
	}
	check("UseCode", fn, params(fn), base(fn), want{x.codeF: is(arg(fn, 1)), "Description": func(in *Interp, st *State, got *Term) string {
		for c, d := range x.desc {
			if st.facts.eval(mkEq(arg(fn, 1), cInt(c))) == 1 && got != cStr(d) {
				return "is " + got.String() + " for the code " + strconv.FormatInt(c, 10)
			}
		}
		if s, ok := got.isStr(); ok {
			for c, d := range x.desc {
				if d == s && st.facts.eval(mkEq(arg(fn, 1), cInt(c))) == 1 {
					return ""
				}
			}
			return "is " + got.String() + " for another code"
		}
		if got == of(base(fn), "Description") {
			return ""
		}
		return "is " + cut(got.String(), 100)
	}})
	fn = m("WithDescription")
	check("WithDescription", fn, params(fn), base(fn), want{"Description": is(arg(fn, 1))})
	fn = m("WithData")
	check("WithData", fn, params(fn), base(fn), want{x.dataF: list(listPart{kind: "all", t: of(base(fn), x.dataF)}, listPart{kind: "all", t: arg(fn, 1)})})
	fn = m("ClearData")
	check("ClearData", fn, params(fn), base(fn), want{x.dataF: list()})
	fn = m("WithError")
	check("WithError", fn, params(fn), base(fn), want{x.errsF: list(listPart{kind: "all", t: of(base(fn), x.errsF)}, listPart{kind: "any", t: arg(fn, 1)})})
	// New
	fn = p.fn("pkg/errors", "New")
	if fn != nil {
		text := sym(fn.Params[0].Name(), str)
		var code int64
		check("New", fn, []*Term{text}, nil, want{"Message": is(text), x.dataF: list(), x.errsF: list(),
			x.codeF: func(in *Interp, st *State, got *Term) string {
				c, ok := got.isInt()
				if _, known := x.desc[c]; !ok || !known {
					return "is " + got.String() + ", which is no code"
				}
				code = c
				return ""
			}})
		check("New", fn, []*Term{text}, nil, want{"Description": func(in *Interp, st *State, got *Term) string { return is(cStr(x.desc[code]))(in, st, got) }})
	} else {
		r.missing("errors.New")
	}
	// Join
	fn = p.fn("pkg/errors", "Join")
	if fn != nil {
		multi := int64(-1)
		if k, ok := p.pkg("pkg/errors").Pkg.Scope().Lookup("TopolithErrorMultiple").(*types.Const); ok {
			multi, _ = constInt(k)
		}
		errs := sym(fn.Params[0].Name(), fn.Params[0].Type())
		check("Join", fn, []*Term{errs}, nil, want{x.codeF: is(cInt(multi)), "Description": is(cStr(x.desc[multi])),
			x.dataF: list(), x.errsF: list(listPart{kind: "some", t: errs})})
	} else {
		r.missing("errors.Join")
	}
	// Unwrap
	fn = m("Unwrap")
	if fn != nil {
		in := NewInterp(p, Policy{})
		list := of(base(fn), x.errsF)
		n := 0
		for _, o := range r.execIn(in, fn, newState(), recv(fn)) {
			if o.panic {
				r.bad("result of Unwrap", fn.Pos(), "Unwrap panics when [%s]", cut(o.st.facts.String(), 200))
				continue
			}
			n++
			got := in.val(o.st, o.rets[0])
			switch o.st.facts.eval(mkEmpty(list)) {
			case 1:
				r.must(got == tNil, "result of Unwrap", fn.Pos(), "an error without a cause is unwrapped to %v", got)
			case -1:
				r.must(got == mkIndex(list, cInt(0), got.typ) || got.op == OIndex && got.args[0] == list && got.args[1] == cInt(0) || got.op == OField && got.s == "0" && got.args[0] == list,
					"result of Unwrap", fn.Pos(), "an error with causes is unwrapped to %v", got)
			default:
				r.bad("result of Unwrap", fn.Pos(), "Unwrap gives %v without asking whether there is a cause", got)
			}
		}
		r.need("partitions of Unwrap", n, 1)
	} else {
		r.missing("TopolithError.Unwrap")
	}
}

// fieldThrough is a field of a value that a loop may have carried along.
func fieldThrough(t *Term, f string, ft types.Type) *Term {
	if t.op == OFold {
		args := make([]*Term, len(t.args))
		same := true
		for i, a := range t.args {
			args[i] = fieldThrough(a, f, ft)
			if i > 0 && !carriedField(args[i], t.k, f) {
				same = false
			}
		}
		if same {
			return args[0]
		}
		return mk(OFold, t.s, t.k, ft, args...)
	}
	return mkField(t, f, ft)
}

// carriedField: the very field that a loop carries along, unchanged.
func carriedField(t *Term, id int, f string) bool {
	return t.op == OField && t.s == f && t.args[0].op == OLV && t.args[0].k == id
}

func constInt(k *types.Const) (int64, bool) {
	v := constant.ToInt(k.Val())
	if v.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(v)
}
