package main

// C27: the bridge to JavaScript hands over the reply of the application.

import (
	"go/token"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{id: "C27", run: runC27,
		rule:        "cmd/wasm is type-checked for js/wasm. On every trace partition of its main function that goes on to serve, a function is set as topolithSend of the global object and main waits for ever. On every partition of that function for one argument, the application executes exactly that text once; what is returned is the JSON of a record whose JSON fields status, data, error and raw are, as terms: the status code of the parsed reply, the parsed reply with its result object, an error with code and message of that status, present exactly on the partitions where the status is not 200, and the complete reply; where the reply does not parse, status 500 and an error. Every exported field of the parsed reply that is handed over is encoded under a name of its own.",
		assumptions: []string{"js.FuncOf, js.ValueOf, js.Value.String and json.Marshal do what they document", "the JavaScript side (web/src) shows what it is given; it is not analysed"}})
}

// wasmProg holds the program as it is built for the browser.
var wasmCache = map[string]*Prog{}

func (r *Run) wasm() *Prog {
	if p := wasmCache[repoDir]; p != nil {
		return p
	}
	p, err := Load(repoDir, []string{"GOOS=js", "GOARCH=wasm"}, "./cmd/wasm", "./pkg/...")
	if err != nil {
		panic(Undecided{"the program for the browser cannot be loaded: " + err.Error()})
	}
	wasmCache[repoDir] = p
	return p
}

func runC27(r *Run) {
	p := r.wasm()
	r.p = p
	main := p.fn("cmd/wasm", "main")
	respT := p.typ("pkg/grammar", "Response")
	if main == nil || respT == nil {
		r.missing("main of cmd/wasm, or the parsed reply")
		return
	}
	pol := withOpaque(appPolicy(p), map[string]byte{"App.Exec": 0, "App.History": 0, "app.NewApp": 'p', "world.CreateWorld": 'p', "grammar.Parse": 'p'})
	k := pol.kind
	pol.kind = func(n string) byte {
		if strings.HasPrefix(n, "syscall/js.") && n != "syscall/js.Value.Set" && n != "syscall/js.Value.Call" {
			return 'p'
		}
		return k(n)
	}
	in := NewInterp(p, pol)
	outs := r.execIn(in, main, newState())
	served := 0
	for _, o := range outs {
		var sets []*Ev
		blocked, gaveUp := false, false
		flat(o.st.trace, func(e *Ev, _ []*Loop) {
			switch {
			case e.kind == "call" && e.name == "syscall/js.Value.Set" && len(e.raw) == 3:
				sets = append(sets, e)
			case e.kind == "block":
				blocked = true
			}
		})
		// a start that fails is told by a panic or the end of the program
		if len(sets) == 0 {
			flat(o.st.trace, func(e *Ev, _ []*Loop) {
				if e.kind == "panic" {
					gaveUp = true
				}
			})
			failed := in.startFailed(o.st)
			r.must(failed, "serve", main.Pos(), "main ends or goes on without setting topolithSend although the application started (panic: %v): %s", gaveUp, o.st.facts)
			continue
		}
		served++
		r.must(blocked, "wait", main.Pos(), "main returns after setting topolithSend: the program ends and the function with it")
		var f *Term
		for _, e := range sets {
			name, _ := in.val(o.st, e.raw[1]).isStr()
			glob := in.val(o.st, e.raw[0])
			if name == "topolithSend" && glob.op == OCall && glob.s == "syscall/js.Global" {
				f = in.handler(o.st, e.raw[2])
				r.must(f != nil, "handler", e.pos, "what is set as topolithSend is not a function of this program: %s", e.raw[2])
			}
		}
		if !r.must(f != nil, "topolithSend", main.Pos(), "no function is set as topolithSend of the global object") {
			continue
		}
		r.bridge(in, o.st, f)
	}
	r.need("ways to serve", served, 1)
}

// startFailed: some error of the start is known not to be nil.
func (in *Interp) startFailed(st *State) bool {
	found := false
	st.facts.each(func(e *Term, v bool) bool {
		if !v && e.op == OEq {
			for i := 0; i < 2; i++ {
				if e.args[i] == tNil && isErrorTerm(e.args[1-i]) {
					found = true
				}
			}
		}
		return !found
	})
	return found
}

func isErrorTerm(t *Term) bool { return t.typ != nil && isErrorType(t.typ) }

// handler finds the function behind a value for JavaScript.
func (in *Interp) handler(st *State, t *Term) *Term {
	t = in.val(st, t)
	for {
		switch {
		case t.op == OClosure || t.op == OFunc:
			return t
		case t.op == OIface:
			t = in.val(st, t.args[0])
		case t.op == OField && len(t.args) == 1:
			t = in.val(st, t.args[0])
		case t.op == OCall && (t.s == "syscall/js.FuncOf" || t.s == "syscall/js.ValueOf") && len(t.args) == 1:
			t = in.val(st, t.args[0])
		default:
			return nil
		}
	}
}

func (r *Run) bridge(in *Interp, st *State, f *Term) {
	fn, ok := f.fn.(*ssa.Function)
	if !ok {
		r.missing("the body of topolithSend")
		return
	}
	var free []*Term
	if f.op == OClosure {
		free = f.args
	}
	args := paramSyms(fn)
	if len(args) != 2 {
		r.missing("the parameters of topolithSend")
		return
	}
	list := args[1]
	st = st.clone()
	base := len(st.trace)
	one := st.clone()
	if !one.assume(mkEq(mkLen(list), cInt(1)), true) {
		r.missing("a call with one argument")
		return
	}
	outs, err := in.RunClosure(fn, free, one, args...)
	if err != nil {
		r.bad("decided:topolithSend", fn.Pos(), "the analysis of topolithSend cannot be completed: %v", err)
		return
	}
	for g := range in.fnsSeen {
		r.fns[r.p.canon(g)] = true
	}
	r.paths += len(outs)
	failed, refused, done := 0, 0, 0
	for _, o := range outs {
		if o.panic {
			r.bad("panics", o.pos, "topolithSend panics when %s", o.st.facts)
			continue
		}
		var execs []*Ev
		flat(o.st.trace[base:], func(e *Ev, in []*Loop) {
			if e.kind == "call" && e.name == "App.Exec" {
				execs = append(execs, e)
				if len(in) > 0 {
					execs = append(execs, e)
				}
			}
		})
		when := o.st.facts.String()
		if !r.must(len(execs) == 1, "executed once", fn.Pos(), "the application executes %d commands for one call of topolithSend when %s", len(execs), when) {
			continue
		}
		e := execs[0]
		cmd := in.val(o.st, e.raw[len(e.raw)-1])
		elem := cmd
		if cmd.op == OCall && cmd.s == "syscall/js.Value.String" && len(cmd.args) == 1 {
			elem = cmd.args[0]
		}
		r.must(elem != cmd && (elem.op == OIndex && elem.args[0] == list && isConst(elem.args[1], 0)), "the command", e.pos, "what is executed is not the text of the argument: %s", cmd)
		v := in.val(o.st, o.rets[0])
		for v.op == OIface {
			v = in.val(o.st, v.args[0])
		}
		if v.op == OCall && v.s == "syscall/js.ValueOf" && len(v.args) == 1 {
			v = v.args[0]
			for v.op == OIface {
				v = in.val(o.st, v.args[0])
			}
		}
		v = unString(v)
		rec := marshalled(v)
		if !r.must(rec != nil, "encoded", fn.Pos(), "what topolithSend returns is not the JSON of a record: %s", cut(v.String(), 300)) {
			continue
		}
		kind := r.relayed(in, o.st, rec, e.res, when)
		switch kind {
		case 1:
			failed++
		case 2:
			refused++
		case 3:
			done++
		}
	}
	r.need("partitions for a reply that does not parse", failed, 1)
	r.need("partitions for a refusal", refused, 1)
	r.need("partitions for success", done, 1)
}

func isConst(t *Term, n int64) bool { k, ok := t.isInt(); return ok && k == n }

// unString leaves a conversion of bytes to a string.
func unString(v *Term) *Term {
	for v.op == OConv && len(v.args) == 1 {
		v = v.args[0]
	}
	return v
}

// marshalled is what a text is the JSON of.
func marshalled(v *Term) *Term {
	for v.op == OTuple || v.op == OExtract {
		if len(v.args) == 0 {
			return nil
		}
		v = v.args[0]
	}
	if v.op != OCall || v.s != "encoding/json.Marshal" || len(v.args) != 1 {
		return nil
	}
	x := v.args[0]
	for x.op == OIface || x.op == OAddr {
		x = x.args[0]
	}
	return x
}

// jsonField finds the field of a struct type that is encoded under a name.
func jsonField(t types.Type, name string) (*types.Var, bool) {
	s := structOf(t)
	if s == nil {
		return nil, false
	}
	var found *types.Var
	n := 0
	omit := false
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if !f.Exported() {
			continue
		}
		tag := reflect.StructTag(s.Tag(i)).Get("json")
		parts := strings.Split(tag, ",")
		if tag == "-" {
			continue
		}
		key := parts[0]
		if key == "" {
			key = f.Name()
		}
		if key == name {
			found = f
			n++
			for _, o := range parts[1:] {
				if o == "omitempty" || o == "omitzero" || o == "string" {
					omit = true
				}
			}
		}
	}
	if n != 1 {
		return nil, false
	}
	return found, omit
}

// relayed compares the record that is handed over with the reply. It tells which case it was.
func (r *Run) relayed(in *Interp, st *State, rec, reply *Term, when string) int {
	recT := rec.typ
	if recT == nil || structOf(recT) == nil {
		r.bad("record", token.NoPos, "what is handed over is not a record: %s", cut(rec.String(), 300))
		return 0
	}
	field := func(t types.Type, v *Term, name string) *Term {
		f, omit := jsonField(t, name)
		if !r.must(f != nil, "json:"+name, token.NoPos, "%s is encoded without a field %q of its own", t, name) {
			return nil
		}
		_ = omit
		return in.val(st, mkField(v, f.Name(), f.Type()))
	}
	status, data, errs, raw := field(recT, rec, "status"), field(recT, rec, "data"), field(recT, rec, "error"), field(recT, rec, "raw")
	if status == nil || data == nil || errs == nil || raw == nil {
		return 0
	}
	pos := token.NoPos
	r.must(same(st, raw, reply), "raw", pos, "the complete text of the reply is not handed over, but %s, when %s", cut(raw.String(), 200), when)
	// the parsed reply
	var parse *Term
	seen := map[*Term]bool{}
	find := func(t *Term) {
		anyTerm(t, func(x *Term) bool {
			if x.op == OCall && x.s == "grammar.Parse" && !seen[x] {
				seen[x] = true
				if len(x.args) == 1 && same(st, x.args[0], reply) {
					parse = x
				} else {
					r.bad("parsed text", pos, "what is parsed is not the reply but %s", cut(x.String(), 200))
				}
			}
			return false
		})
	}
	st.facts.each(func(a *Term, _ bool) bool { find(a); return true })
	find(status)
	find(data)
	if !r.must(parse != nil, "parsed", pos, "the reply is handed over without being parsed when %s", when) {
		return 0
	}
	sig := r.p.fn("pkg/grammar", "Parse").Signature.Results()
	parser := mkExtract(parse, 0, sig.At(0).Type())
	perr := mkExtract(parse, 1, sig.At(1).Type())
	respT := r.p.typ("pkg/grammar", "Response")
	var respF *types.Var
	for _, f := range fieldsWhere(ptrElem(parser.typ), func(v *types.Var) bool { return types.Identical(v.Type(), respT) }) {
		respF = f
	}
	if respF == nil {
		r.missing("the parsed reply in the parser")
		return 0
	}
	resp := in.get(st, parser, respF)
	sub := func(v *Term, t types.Type, name string) (*Term, types.Type) {
		f, omit := jsonField(t, name)
		if !r.must(f != nil && !omit, "json:"+t.String()+"."+name, pos, "%s is not always encoded with a field %q of its own", t, name) {
			return nil, nil
		}
		return in.val(st, mkField(v, f.Name(), f.Type())), f.Type()
	}
	stv, stT := sub(resp, respT, "status")
	obj, objT := sub(resp, respT, "object")
	if stv == nil || obj == nil {
		return 0
	}
	code, _ := sub(stv, stT, "code")
	msg, _ := sub(stv, stT, "message")
	sub(obj, objT, "type")
	sub(obj, objT, "repr")
	if code == nil || msg == nil {
		return 0
	}
	entry := func(k string) *Term {
		m := in.mapContent(st, errs)
		if errs.op == OMPut || errs.op == ONil {
			m = errs
		}
		ok := in.eval(st, mkLookupOk(m, cStr(k)))
		if ok == -1 {
			return tNil
		}
		if ok == 1 {
			return in.val(st, in.lookup(st, m, cStr(k), types.Typ[types.String]))
		}
		return nil
	}
	ec, em := entry("code"), entry("message")
	if ec == nil || em == nil {
		r.bad("error record", pos, "whether the error has a code and a message cannot be told: %s when %s", cut(errs.String(), 200), when)
		return 0
	}
	perrKnown := errStatus(st, perr)
	switch {
	case perrKnown == 0:
		r.bad("parse failure", pos, "the reply is handed over without looking whether it could be parsed: %s", when)
		return 0
	case perrKnown == -1:
		r.must(isConst(status, 500), "status of a reply that does not parse", pos, "the status is %s, not 500", status)
		s, isC := ec.isStr()
		r.must(isC && s == "500", "error code of a reply that does not parse", pos, "the error code is %s, not 500", ec)
		r.must(em != tNil && em != cStr(""), "error message of a reply that does not parse", pos, "there is no error message")
		return 1
	}
	r.must(same(st, status, code), "status", pos, "the status handed over is %s instead of the one of the reply, when %s", status, when)
	r.must(r.sameRecord(in, st, data, resp, objT), "data", pos, "the result object handed over is not the one of the reply but %s, when %s", cut(data.String(), 200), when)
	is200 := in.eval(st, mkEq(code, cInt(200)))
	switch is200 {
	case 1:
		r.must(ec == tNil && em == tNil, "no error on success", pos, "an error (%s, %s) is handed over with status 200", ec, em)
		return 3
	case -1:
		want := mk(OCall, "itoa", 0, types.Typ[types.String], code)
		r.must(same(st, ec, want), "error code", pos, "the error code is %s instead of the status of the reply, when %s", ec, when)
		r.must(same(st, em, msg), "error message", pos, "the error message is %s instead of the one of the reply, when %s", em, when)
		return 2
	}
	r.bad("error exactly when refused", pos, "whether there is an error does not depend on the status being 200: (%s, %s) when %s", ec, em, when)
	return 0
}

// sameRecord: the reply as parsed, or at least its result object under its name.
func (r *Run) sameRecord(in *Interp, st *State, data, resp *Term, objT types.Type) bool {
	if same(st, data, resp) {
		return true
	}
	if data.typ == nil || structOf(data.typ) == nil {
		return false
	}
	f, omit := jsonField(data.typ, "object")
	g, _ := jsonField(resp.typ, "object")
	if f == nil || g == nil || omit || !types.Identical(f.Type(), objT) {
		return false
	}
	a, b := in.val(st, mkField(data, f.Name(), f.Type())), in.val(st, mkField(resp, g.Name(), g.Type()))
	if same(st, a, b) {
		return true
	}
	for _, q := range []string{"type", "repr"} {
		h, _ := jsonField(objT, q)
		if h == nil || !same(st, in.val(st, mkField(a, h.Name(), h.Type())), in.val(st, mkField(b, h.Name(), h.Type()))) {
			return false
		}
	}
	return true
}
