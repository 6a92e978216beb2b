package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{id: "C04", run: runC04,
		rule:        "On every trace partition of the application's methods, the command list and the cursor after the call are the terms the cursor discipline prescribes (exec: list[:cursor+1]+[c], cursor+1; undo/redo: list unchanged, cursor-1/+1; failed: empty, -1), the command at the cursor is the one undone or redone, exactly once, on the application's world, and the reporting methods return exactly the prescribed conditions.",
		assumptions: []string{"the cursor is at least -1 and below the length of the list on entry, which the rule itself re-establishes on exit of every method and of the constructor"}})
}

type appShape struct {
	t               types.Type
	cmds, idx, wrld *types.Var
}

func (r *Run) appShape() *appShape {
	p := r.prog()
	t := p.implOf("pkg/app", "App")
	if t == nil {
		r.missing("the implementation of App")
		return nil
	}
	cmdT := p.typ("pkg/app", "Command")
	worldT := p.typ("pkg/world", "World")
	if cmdT == nil || worldT == nil {
		r.missing("types Command and World")
		return nil
	}
	cs := fieldsWhere(t, func(v *types.Var) bool {
		return isSliceT(v.Type()) && types.Identical(sliceElem(v.Type()), cmdT)
	})
	is := fieldsWhere(t, func(v *types.Var) bool { return isBasic(v.Type(), types.IsInteger) })
	ws := fieldsWhere(t, func(v *types.Var) bool { return types.Identical(v.Type(), worldT) })
	if len(cs) != 1 || len(is) != 1 || len(ws) != 1 {
		r.missing("the command list, cursor and world of the application")
		return nil
	}
	return &appShape{t, cs[0], is[0], ws[0]}
}

func runC04(r *Run) {
	p := r.prog()
	a := r.appShape()
	if a == nil {
		return
	}
	pol := withOpaque(appPolicy(p), map[string]byte{"app.InputToCommand": 'p'})
	seen := map[*ssa.Function]bool{}
	L0 := func(recv *Term) (*Term, *Term, *Term) {
		base := mk(ODeref, "", 0, ptrElem(recv.typ), recv)
		return mkField(base, a.cmds.Name(), a.cmds.Type()), mkField(base, a.idx.Name(), a.idx.Type()), mkField(base, a.wrld.Name(), a.wrld.Type())
	}
	start := func(recv *Term) *State {
		st := newState()
		l, i, _ := L0(recv)
		st.assume(mkLe0(linOf(sub(cInt(-1), i))), true)
		st.assume(mkLe0(linOf(addc(sub(i, mkLen(l)), 1))), true)
		return st
	}
	run := func(fn *ssa.Function) ([]Outcome, *Interp, *Term) {
		args := paramSyms(fn)
		outs, in := r.exec(pol, fn, start(args[0]), args...)
		for f := range in.fnsSeen {
			seen[f] = true
		}
		for _, o := range outs {
			flat(o.st.trace, func(e *Ev, _ []*Loop) {
				if e.kind == "store" && len(e.args) > 0 && e.args[0].op == OIndexP && e.args[0].typ != nil {
					if types.Identical(ptrElem(e.args[0].typ), p.typ("pkg/app", "Command")) {
						r.bad("inplace:"+p.canon(fn), e.pos, "%s writes into the command list in place", p.canon(fn))
					}
				}
			})
		}
		return outs, in, args[0]
	}
	unchanged := func(in *Interp, o Outcome, recv *Term) bool {
		l, i, _ := L0(recv)
		return same(o.st, in.get(o.st, recv, a.cmds), l) && same(o.st, in.get(o.st, recv, a.idx), i)
	}
	cleared := func(in *Interp, o Outcome, recv *Term) bool {
		return o.st.facts.eval(mkEmpty(canonIn(o.st, in.get(o.st, recv, a.cmds)))) == 1 && same(o.st, in.get(o.st, recv, a.idx), cInt(-1))
	}

	// Exec and whatever else executes new commands
	var execs, undos, redos []*ssa.Function
	exported := map[string]bool{}
	for _, m := range ifaceMethods(p.typ("pkg/app", "App")) {
		exported[m] = true
	}
	execFn := p.method(a.t, "Exec")
	if execFn == nil {
		r.missing("App.Exec")
		return
	}
	inExec := p.closureOf(execFn)
	for _, m := range p.methodsOfType(a.t) {
		switch {
		case p.invokes(m, "Command", "Undo"):
			undos = append(undos, m)
		case inExec[m] && p.invokes(m, "Command", "Execute"):
			execs = append(execs, m)
		case p.invokes(m, "Command", "Execute"):
			redos = append(redos, m)
		}
	}
	r.need("method that executes a new command", len(execs), 1)
	r.need("method that undoes", len(undos), 1)
	r.need("method that redoes", len(redos), 1)

	for _, fn := range execs {
		if fn != execFn {
			continue // analysed as part of Exec
		}
		n := 0
		outs, in, recv := run(fn)
		l, i, w := L0(recv)
		for _, o := range outs {
			if o.panic {
				continue
			}
			ev := callsOf(o.st.trace, "Command.Execute")
			switch len(ev) {
			case 0:
				r.must(unchanged(in, o, recv), "exec:rejected input leaves the history alone", o.pos, "a rejected input changes the history to %v at %v", in.get(o.st, recv, a.cmds), in.get(o.st, recv, a.idx))
			case 1:
				n++
				c := ev[0].args[0]
				want := mkSeq(mkSlice(l, cInt(0), addc(i, 1)), mkOne(c))
				got := in.get(o.st, recv, a.cmds)
				r.must(same(o.st, got, want), "exec:list", ev[0].pos, "after executing a command the history is %v, not %v", norm(got), want)
				r.must(same(o.st, in.get(o.st, recv, a.idx), addc(i, 1)), "exec:cursor", ev[0].pos, "after executing a command the cursor is %v, not %v", in.get(o.st, recv, a.idx), addc(i, 1))
				r.must(same(o.st, ev[0].args[1], w), "exec:world", ev[0].pos, "the command is executed on %v", ev[0].args[1])
			default:
				r.bad("exec:once", ev[1].pos, "a command is executed %d times", len(ev))
			}
		}
		r.need("partitions of Exec that execute a command", n, 1)
	}

	for _, fn := range undos {
		n, m := 0, 0
		outs, in, recv := run(fn)
		l, i, w := L0(recv)
		can := mkLe0(linOf(i).neg())
		for _, o := range outs {
			if o.panic {
				continue
			}
			ev := callsOf(o.st.trace, "Command.Undo")
			if len(ev) == 0 {
				m++
				r.must(o.st.facts.eval(can) == -1, "undo:only refused when there is nothing to undo", o.pos, "undo does nothing although [%s]", o.st.facts)
				r.must(unchanged(in, o, recv), "undo:nothing to undo changes nothing", o.pos, "undo changes the history without undoing")
				r.must(noError(r, fn, o), "undo:nothing to undo is no failure", o.pos, "undo fails with nothing to undo")
				continue
			}
			if !r.must(len(ev) == 1, "undo:once", ev[0].pos, "undo undoes %d commands", len(ev)) {
				continue
			}
			e := ev[0]
			r.must(e.facts.eval(can) == 1, "undo:guard", e.pos, "undo runs although the cursor may be -1")
			r.must(same(o.st, e.args[0], mkIndex(l, i, nil)), "undo:latest", e.pos, "undo reverses %v, not the command at the cursor", e.args[0])
			r.must(same(o.st, e.args[1], w), "undo:world", e.pos, "undo runs on %v", e.args[1])
			switch errStatus(o.st, e.res) {
			case 1:
				n++
				r.must(same(o.st, in.get(o.st, recv, a.cmds), l), "undo:list", e.pos, "undo changes the list to %v", in.get(o.st, recv, a.cmds))
				r.must(same(o.st, in.get(o.st, recv, a.idx), addc(i, -1)), "undo:cursor", e.pos, "after undo the cursor is %v, not %v", in.get(o.st, recv, a.idx), addc(i, -1))
				r.must(noError(r, fn, o), "undo:success is reported", o.pos, "undo reports an error after success")
			case -1:
				r.must(cleared(in, o, recv), "undo:failure empties", e.pos, "after a failed undo the history is %v at %v", in.get(o.st, recv, a.cmds), in.get(o.st, recv, a.idx))
				r.must(isError(r, fn, o), "undo:failure is reported", o.pos, "a failed undo reports no error")
			default:
				r.bad("undo:outcome is looked at", e.pos, "the result of undo is not distinguished")
			}
		}
		r.need("partitions of undo that succeed", n, 1)
		r.need("partitions of undo with nothing to undo", m, 1)
	}

	for _, fn := range redos {
		n, m := 0, 0
		outs, in, recv := run(fn)
		l, i, w := L0(recv)
		can := mkLe0(linOf(addc(sub(i, mkLen(l)), 2)))
		for _, o := range outs {
			if o.panic {
				continue
			}
			ev := callsOf(o.st.trace, "Command.Execute")
			if len(ev) == 0 {
				m++
				r.must(o.st.facts.eval(can) == -1, "redo:only refused when there is nothing to redo", o.pos, "redo does nothing although [%s]", o.st.facts)
				r.must(unchanged(in, o, recv), "redo:nothing to redo changes nothing", o.pos, "redo changes the history without redoing")
				r.must(noError(r, fn, o), "redo:nothing to redo is no failure", o.pos, "redo fails with nothing to redo")
				continue
			}
			if !r.must(len(ev) == 1, "redo:once", ev[0].pos, "redo executes %d commands", len(ev)) {
				continue
			}
			e := ev[0]
			r.must(e.facts.eval(can) == 1, "redo:guard", e.pos, "redo runs although nothing may be left to redo")
			r.must(same(o.st, e.args[0], mkIndex(l, addc(i, 1), nil)), "redo:next", e.pos, "redo executes %v, not the command after the cursor", e.args[0])
			r.must(same(o.st, e.args[1], w), "redo:world", e.pos, "redo runs on %v", e.args[1])
			switch errStatus(o.st, mkExtract(e.res, 1, nil)) {
			case 1:
				n++
				r.must(same(o.st, in.get(o.st, recv, a.cmds), l), "redo:list", e.pos, "redo changes the list to %v", in.get(o.st, recv, a.cmds))
				r.must(same(o.st, in.get(o.st, recv, a.idx), addc(i, 1)), "redo:cursor", e.pos, "after redo the cursor is %v, not %v", in.get(o.st, recv, a.idx), addc(i, 1))
				r.must(noError(r, fn, o), "redo:success is reported", o.pos, "redo reports an error after success")
			case -1:
				r.must(cleared(in, o, recv), "redo:failure empties", e.pos, "after a failed redo the history is %v at %v", in.get(o.st, recv, a.cmds), in.get(o.st, recv, a.idx))
				r.must(isError(r, fn, o), "redo:failure is reported", o.pos, "a failed redo reports no error")
			default:
				r.bad("redo:outcome is looked at", e.pos, "the result of redo is not distinguished")
			}
		}
		r.need("partitions of redo that succeed", n, 1)
		r.need("partitions of redo with nothing to redo", m, 1)
	}

	// reports
	report := func(name string, f func(o Outcome, in *Interp, recv, ret *Term)) {
		fn := p.method(a.t, name)
		if fn == nil {
			r.missing("App." + name)
			return
		}
		outs, in, recv := run(fn)
		for _, o := range outs {
			if o.panic {
				continue
			}
			r.must(unchanged(in, o, recv), "report:"+name+" changes nothing", o.pos, "%s changes the history", name)
			if f != nil && len(o.rets) == 1 {
				f(o, in, recv, in.val(o.st, o.rets[0]))
			}
		}
	}
	report("CanUndo", func(o Outcome, in *Interp, recv, ret *Term) {
		_, i, _ := L0(recv)
		r.must(boolIs(o.st, ret, mkLe0(linOf(i).neg())), "report:CanUndo", o.pos, "CanUndo is %v when [%s]", ret, o.st.facts)
	})
	report("CanRedo", func(o Outcome, in *Interp, recv, ret *Term) {
		l, i, _ := L0(recv)
		r.must(boolIs(o.st, ret, mkLe0(linOf(addc(sub(i, mkLen(l)), 2)))), "report:CanRedo", o.pos, "CanRedo is %v when [%s]", ret, o.st.facts)
	})
	report("History", func(o Outcome, in *Interp, recv, ret *Term) {
		l, i, _ := L0(recv)
		want := mkSlice(l, cInt(0), addc(i, 1))
		r.must(same(o.st, ret, want), "report:History", o.pos, "History is %v, not %v", norm(ret), want)
	})
	for m := range exported {
		switch m {
		case "CanUndo", "CanRedo", "History", "Exec":
		default:
			if fn := p.method(a.t, m); fn != nil && !p.invokes(fn, "Command", "Undo") && !p.invokes(fn, "Command", "Execute") {
				report(m, nil)
			}
		}
	}

	// the constructor
	ctor := p.fn("pkg/app", "NewApp")
	if ctor == nil {
		r.missing("NewApp")
		return
	}
	outs, in := r.exec(pol, ctor, newState(), paramSyms(ctor)...)
	for f := range in.fnsSeen {
		seen[f] = true
	}
	n := 0
	for _, o := range outs {
		if len(o.rets) != 2 || o.rets[0].op != OPtr {
			continue
		}
		n++
		r.must(cleared(in, o, o.rets[0]), "new:empty history", o.pos, "a new application starts with %v at %v", in.get(o.st, o.rets[0], a.cmds), in.get(o.st, o.rets[0], a.idx))
	}
	r.need("constructed applications", n, 1)

	// nobody else
	for _, fn := range p.repoFuncs() {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				fa, ok := i.(*ssa.FieldAddr)
				if !ok || !types.Identical(fa.X.Type(), a.t) {
					continue
				}
				name := structOf(fa.X.Type()).Field(fa.Field).Name()
				if name != a.cmds.Name() && name != a.idx.Name() {
					continue
				}
				for _, ref := range *fa.Referrers() {
					if u, ok := ref.(*ssa.UnOp); ok && u.Op == token.MUL {
						continue
					}
					r.must(seen[fn], "writer:"+p.canon(fn), i.Pos(), "%s writes the history outside of the analysed operations", p.canon(fn))
				}
			}
		}
	}
}

// errResult finds the result of type error.
func errResult(fn *ssa.Function) int {
	res := fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		if types.Identical(res.At(i).Type(), types.Universe.Lookup("error").Type()) {
			return i
		}
	}
	return -1
}

func noError(r *Run, fn *ssa.Function, o Outcome) bool {
	i := errResult(fn)
	return i < 0 || errStatus(o.st, o.rets[i]) == 1
}

func isError(r *Run, fn *ssa.Function, o Outcome) bool {
	i := errResult(fn)
	return i < 0 || errStatus(o.st, o.rets[i]) == -1
}
