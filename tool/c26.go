package main

// Failures: no error is dropped, overwritten or replaced by success.

import (
	"go/token"
	"go/types"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{id: "C26", run: runC26,
		rule:        "Every function of the application, world, persistence, parser front end and programs is analysed for itself, with the functions it calls that return an error left uninterpreted: on every trace partition, for every call whose error result is not known to be nil there, the error that the function reports (a result, or the tracker of the world) is not nil or is that error; a function that reports none passes it on in what it prints or returns. Commands and their undoing are analysed as wholes against the operations of a world, whose failures they must report.",
		assumptions: []string{"a clean-up that fails after the outcome is settled (removing a temporary file, closing a file that was only read) is no failure of the operation", "asking whether a file exists may be answered by an error", "a failure to write to standard output cannot be reported there", "encoding an item or its parameters for the text of an error, a number of the grammar that is too large for a limit, and the reply for JavaScript cannot fail in a way that matters: those conversions are total on what they are given"}})
}

func runC26(r *Run) {
	if c := r.capp(); c != nil {
		n := 0
		for _, o := range operations {
			for _, ch := range c.chains(o) {
				n++
				ch.check()
				c.swallowed(o.String(), ch.st, ch.evs, ch.err, ch.pos)
				ch.checkUndo()
			}
		}
		r.need("partitions of commands", n, 60)
	}
	r.errorFlow(r.prog(), 15, 25)
	main := r.p
	r.p = r.wasm()
	r.errorFlow(r.p, 2, 2)
	r.p = main
}

// errorFlow decides each function on its own.
func (r *Run) errorFlow(p *Prog, minFns, minCalls int) {
	wasm := p == wasmCache[repoDir]
	worldT, treeT := p.implOf("pkg/world", "World"), p.implOf("pkg/world", "Tree")
	fns, calls := 0, 0
	at := ""
	if wasm {
		at = " of the program for the browser"
	}
	for _, fn := range p.repoFuncs() {
		if !declared(fn) || fn.Origin() != nil && fn.Origin() != fn || fn.TypeParams().Len() > 0 {
			continue
		}
		file := filepath.ToSlash(p.fset.Position(fn.Pos()).Filename)
		if strings.HasSuffix(file, ".peg.go") || strings.HasSuffix(file, "_test.go") || strings.Contains(file, "/pkg/errors/") {
			continue
		}
		if wasm && !strings.Contains(file, "/cmd/wasm/") || !mayFail(p, fn) || runsWithin(fn) {
			continue
		}
		fns++
		calls += r.errorsOf(fn, worldT, treeT)
	}
	r.need("functions with fallible calls"+at, fns, minFns)
	r.need("fallible calls"+at, calls, minCalls)
}

// mayFail: the function, or a closure in it, calls something that returns an error or an operation of a world.
func mayFail(p *Prog, fn *ssa.Function) bool {
	for _, a := range fn.AnonFuncs {
		if runsWithin(a) && mayFail(p, a) {
			return true
		}
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			c, ok := i.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if errIndex(c.Common().Signature().Results()) >= 0 {
				return true
			}
			if m := c.Common().Method; m != nil {
				if k := worldKind("World." + m.Name()); k == 'm' {
					return true
				}
			}
		}
	}
	return false
}

// runsWithin: a function within another one that only that one runs, so that what it does is seen there.
func runsWithin(fn *ssa.Function) bool {
	if fn.Parent() == nil {
		return false
	}
	used := false
	called := func(v ssa.Value) bool {
		if v.Referrers() == nil {
			return false
		}
		for _, r := range *v.Referrers() {
			switch c := r.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.Call:
				if c.Call.Value == v && !among(v, c.Call.Args) {
					continue
				}
			case *ssa.Defer:
				if c.Call.Value == v && !among(v, c.Call.Args) {
					continue
				}
			}
			return false
		}
		return true
	}
	for _, b := range fn.Parent().Blocks {
		for _, ins := range b.Instrs {
			if mc, ok := ins.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(fn) {
				if !called(mc) {
					return false
				}
				used = true
				continue
			}
			for i, op := range ins.Operands(nil) {
				if *op != ssa.Value(fn) {
					continue
				}
				_, ok := ins.(ssa.CallInstruction)
				if _, isGo := ins.(*ssa.Go); !ok || isGo || i > 0 {
					return false
				}
				used = true
			}
		}
	}
	return used
}

func among(v ssa.Value, vs []ssa.Value) bool {
	for _, x := range vs {
		if x == v {
			return true
		}
	}
	return false
}

// errorsOf decides one function.
func (r *Run) errorsOf(fn *ssa.Function, worldT, treeT types.Type) int {
	p := r.p
	name := p.canon(fn)
	var pol Policy
	var tracker []*types.Var
	recv := fn.Signature.Recv()
	switch {
	case recv != nil && worldT != nil && types.Identical(recv.Type(), worldT):
		pol = worldPolicy(p)
		tracker = fieldsWhere(worldT, func(v *types.Var) bool { return isErrorType(v.Type()) })
	case recv != nil && treeT != nil && types.Identical(recv.Type(), treeT):
		pol = treePolicy(p)
	default:
		pol = appPolicy(p)
	}
	o := pol.opaque
	pol.opaque = func(n string, f *ssa.Function) bool {
		return f != fn && errIndex(f.Signature.Results()) >= 0 || n == "world.CreateWorld" || o(n, f)
	}
	k := pol.kind
	pol.kind = func(n string) byte {
		if n == "world.CreateWorld" {
			return 'p'
		}
		return k(n)
	}
	pol.pureErrs = true
	in := NewInterp(p, pol)
	args := paramSyms(fn)
	st := newState()
	outs := r.execIn(in, fn, st, args...)
	seen := map[token.Pos]bool{}
	for _, o := range outs {
		var rets []*Term
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			if isErrorType(fn.Signature.Results().At(i).Type()) && i < len(o.rets) {
				rets = append(rets, in.val(o.st, o.rets[i]))
			}
		}
		for _, f := range tracker {
			rets = append(rets, in.get(o.st, args[0], f))
		}
		r.reported(in, name, o, rets, seen)
	}
	return len(seen)
}

// reported: every failure of a call on a partition is reported by the function.
func (r *Run) reported(in *Interp, name string, o Outcome, rets []*Term, seen map[token.Pos]bool) {
	status := 1
	for _, t := range rets {
		if errStatus(o.st, t) == -1 {
			status = -1
		}
	}
	all := map[*Term]bool{}
	passed := func(x *Term) bool { // the failure is part of what the function gives away
		for _, t := range append(append([]*Term{}, rets...), in.snapAll(o.st, o.rets)...) {
			if contains(t, x) {
				return true
			}
		}
		return false
	}
	var evs []*Ev
	flat(o.st.trace, func(e *Ev, _ []*Loop) { evs = append(evs, e) })
	var rec func(evs []*Ev, L *Loop, p *LoopPath, st *State)
	rec = func(tr []*Ev, L *Loop, p *LoopPath, st *State) {
		for _, e := range tr {
			if e.kind == "loop" {
				for _, q := range e.loop.paths {
					rec(q.trace, e.loop, q, q.st)
				}
				continue
			}
			errs := errsOfEvent(e)
			if len(errs) == 0 || all[e.res] && L == nil {
				continue
			}
			seen[e.pos] = true
			s := failStatus(st, errs)
			if s == 0 && L == nil {
				s = failStatus(o.st, errs)
			}
			ok := s == -1 || status == -1 || o.panic
			for _, x := range errs {
				ok = ok || passed(x)
			}
			if !ok && L != nil && s == 1 {
				ok = ruledOut(o.st, L, p)
			}
			if !ok && len(rets) == 0 {
				// nothing to report it with but what is printed
				for _, f := range evs {
					if f != e && strings.HasPrefix(f.name, "fmt.Print") || strings.HasPrefix(f.name, "fmt.Fprint") || strings.HasPrefix(f.name, "log.") {
						for _, x := range errs {
							for _, a := range f.args {
								ok = ok || contains(a, x)
							}
						}
					}
				}
			}
			ok = ok || excused(e, evs, errs[0], o.st, name)
			r.must(ok, "error of "+e.name+" in "+name, e.pos, "%s: a failure of %s is not reported: it returns %v when [%s]", name, e.name, rets, cut(o.st.facts.String(), 500))
		}
	}
	rec(o.st.trace, nil, nil, o.st)
}

// errsOfEvent lists the terms that tell whether a call failed.
func errsOfEvent(e *Ev) []*Term {
	if e.kind != "call" && e.kind != "perr" {
		return nil
	}
	if strings.HasPrefix(e.name, "World.") {
		if worldKind(e.name) != 'm' {
			return nil
		}
		errT := types.Universe.Lookup("error").Type()
		out := []*Term{mk(OCall, "World.Err", 0, errT, e.args[0], e.res)}
		for _, n := range []string{"World.Item", "World.Rel"} {
			out = append(out, mkExtract(mk(OCall, n, 0, nil, e.args[0], e.res), 1, nil))
		}
		return out
	}
	if e.rt == nil {
		return nil
	}
	i := errIndex(e.rt)
	if i < 0 {
		return nil
	}
	for _, n := range []string{"errors.", "fmt.", "topoerrors.", "TopolithError."} {
		if strings.HasPrefix(e.name, n) {
			return nil // makes an error, or only prints
		}
	}
	if tp, ok := e.rt.(*types.Tuple); ok && tp.Len() > 1 {
		return []*Term{mkExtract(e.res, i, nil)}
	}
	return []*Term{e.res}
}

// failStatus: 1 known to have failed, -1 known not to.
func failStatus(st *State, errs []*Term) int {
	for _, x := range errs {
		if s := errStatus(st, x); s != 0 {
			return -s
		}
	}
	return 0
}

// excused lists the failures that are answers or have no consequence.
func excused(e *Ev, evs []*Ev, err *Term, st *State, name string) bool {
	has := func(t *Term, call string) bool {
		return findTerm(t, func(x *Term) bool { return x.op == OCall && strings.HasPrefix(x.s, call) }) != nil
	}
	later := func(f func(g *Ev) bool) bool {
		after := false
		for _, g := range evs {
			if g == e {
				after = true
			} else if after && f(g) {
				return true
			}
		}
		return false
	}
	switch {
	case e.name == "os.Remove" || e.name == "os.RemoveAll":
		return has(e.args[0], "os.CreateTemp") // cleaning up
	case strings.HasSuffix(e.name, ".Close") && strings.HasPrefix(e.name, "os."):
		if has(e.args[0], "os.Open") && !has(e.args[0], "os.OpenFile") {
			return true // was only read
		}
		first := true
		for _, g := range evs {
			if g == e {
				break
			}
			if g.name == e.name && len(g.args) > 0 && g.args[0] == e.args[0] {
				first = false // closed again
			}
		}
		return !first
	case e.name == "os.ReadFile" || e.name == "os.Open" || e.name == "os.Stat" || e.name == "os.Lstat":
		// a file that isn't there, and another one is read
		absent := false
		st.facts.each(func(a *Term, v bool) bool {
			if v && a.op == OCall && (a.s == "os.IsNotExist" || a.s == "errors.Is") && len(a.args) > 0 && contains(a, err) {
				absent = true
			}
			return !absent
		})
		return absent && later(func(g *Ev) bool { return g.name == "os.ReadFile" || g.name == "os.Open" })
	case e.name == "encoding/json.Marshal":
		return true // of records of texts, numbers and truth values
	case strings.HasPrefix(e.name, "net/url.") && strings.Contains(e.name, "Unescape") && len(evs) > 0:
		// tells which files are those of saved worlds
		return has(e.args[0], "os.DirEntry.Name") || has(e.args[0], "io/fs.DirEntry.Name") || has(e.args[0], "io/fs.FileInfo.Name")
	case strings.HasPrefix(e.name, "strconv."):
		// a limit that is too large is no limit
		return contains(e.args[0], cStr("limit"))
	}
	return false
}

// findTerm returns a part of a term that satisfies a predicate.
func findTerm(t *Term, f func(*Term) bool) *Term {
	if t == nil {
		return nil
	}
	var found *Term
	subst(t, func(x *Term) *Term {
		if found == nil && f(x) {
			found = x
		}
		if found != nil {
			return x
		}
		return nil
	}, map[*Term]*Term{})
	return found
}
