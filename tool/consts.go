package main

// Package-level tables: variables that only the initialisation of their package writes, and that the rest of the
// program only reads. Their content is found by interpreting the initialiser, and a reading of such a table with an
// unknown key is followed for every key it has.

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type constTables struct {
	vals map[string]*Term // what the variable holds
	mem  map[*Term]*Term  // what the objects it refers to hold
}

// tables finds the constant tables of the repository.
func (p *Prog) tables() *constTables {
	if p.consts != nil {
		return p.consts
	}
	ct := &constTables{vals: map[string]*Term{}, mem: map[*Term]*Term{}}
	p.consts = ct
	cand := map[*ssa.Global]bool{}
	for _, sp := range p.spkgs {
		if !p.repoPkg(sp.Pkg) {
			continue
		}
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok && tableType(ptrElem(g.Type())) {
				cand[g] = true
			}
		}
	}
	if len(cand) == 0 {
		return ct
	}
	inits := map[*ssa.Package]*ssa.Function{}
	for _, sp := range p.spkgs {
		if f := sp.Func("init"); f != nil {
			inits[sp] = f
		}
	}
	for fn := range ssautil.AllFunctions(p.prog) {
		if !p.repoPkg(fnPkg(fn)) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok || !cand[g] {
						continue
					}
					if st, ok := ins.(*ssa.Store); ok && st.Addr == g && fn == inits[g.Pkg] {
						continue
					}
					if !p.readOnly(ins) {
						delete(cand, g)
					}
				}
			}
		}
	}
	n := -1 << 30
	for sp, fn := range inits {
		var gs []*ssa.Global
		for g := range cand {
			if g.Pkg == sp {
				gs = append(gs, g)
			}
		}
		if len(gs) == 0 {
			continue
		}
		func() {
			defer func() {
				if x := recover(); x != nil {
					if _, ok := x.(Undecided); !ok {
						panic(x)
					}
				}
			}()
			in := NewInterp(p, Policy{
				opaque: func(n string, f *ssa.Function) bool { return true },
				kind:   func(n string) byte { return 'p' },
				hook: func(in *Interp, c *callCtx) []callRes {
					if c.fn != nil && c.fn.Name() == "init" && c.fn.Synthetic != "" {
						return one(c.p, mk(OTuple, "", 0, nil)) // another package's
					}
					return nil
				},
			})
			in.objN = n
			st := newState()
			guard := mk(ODeref, "", 0, types.Typ[types.Bool], mk(OGlobal, sp.Pkg.Path()+".init$guard", 0, sp.Var("init$guard").Type()))
			if !st.assume(guard, false) {
				return
			}
			outs := in.call(fn, nil, st, nil)
			n = in.objN + 1
			for _, g := range gs {
				var v *Term
				var mem map[*Term]*Term
				first := true
				for _, o := range outs {
					if o.panic {
						continue // the program does not start
					}
					m := o.st.mem
					w := m[mk(OGlobal, sp.Pkg.Path()+"."+g.Name(), 0, g.Type())]
					if !first && (w != v || v != nil && m[v] != mem[v]) {
						w = nil
					}
					v, mem, first = w, m, false
					if v == nil {
						break
					}
				}
				if v != nil && plainTable(v, mem, ct, 0) {
					ct.vals[sp.Pkg.Path()+"."+g.Name()] = v
				}
			}
		}()
	}
	return ct
}

func tableType(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Map, *types.Slice:
		return true
	case *types.Array:
		return u.Len() <= 64
	}
	return false
}

// plainTable reports whether a value is made of constants only, and keeps the objects it refers to.
func plainTable(v *Term, mem map[*Term]*Term, ct *constTables, d int) bool {
	if d > 400 {
		return false
	}
	switch v.op {
	case OConst, OZero, ONil, OFunc:
		return true
	case OMake, OPtr:
		c, ok := mem[v]
		if !ok || !plainTable(c, mem, ct, d+1) {
			return false
		}
		if v.op == OMake {
			ct.mem[v] = c
			return true
		}
		return false // the object behind a pointer may be written to
	case OMPut, OSeq, OOne, OWith, OTuple, OClosure, OConcat:
		for _, a := range v.args {
			if !plainTable(a, mem, ct, d+1) {
				return false
			}
		}
		return true
	}
	return false
}

// readOnly reports whether an instruction that uses a table, or a value loaded from it, only reads it.
func (p *Prog) readOnly(ins ssa.Instruction) bool {
	all := func(v ssa.Value, ok func(ssa.Instruction) bool) bool {
		for _, r := range *v.Referrers() {
			if !ok(r) {
				return false
			}
		}
		return true
	}
	var value func(v ssa.Value) func(r ssa.Instruction) bool
	value = func(v ssa.Value) func(r ssa.Instruction) bool {
		return func(r ssa.Instruction) bool {
			switch r := r.(type) {
			case *ssa.DebugRef, *ssa.Lookup, *ssa.Range, *ssa.Index, *ssa.BinOp:
				return true
			case *ssa.IndexAddr:
				return r.X == v && all(r, p.readOnly)
			case *ssa.ChangeType:
				return all(r, value(r))
			case *ssa.Call:
				if b, ok := r.Call.Value.(*ssa.Builtin); ok {
					return b.Name() == "len"
				}
				if f := r.Call.StaticCallee(); f != nil {
					switch p.canon(f) {
					case "github.com/c-bata/go-prompt.FilterHasPrefix", "github.com/c-bata/go-prompt.FilterHasSuffix", "github.com/c-bata/go-prompt.FilterContains", "github.com/c-bata/go-prompt.FilterFuzzy":
						return true
					case "slices.Contains", "slices.Index", "slices.ContainsFunc", "slices.IndexFunc", "strings.Join":
						return true
					}
				}
			}
			return false
		}
	}
	switch x := ins.(type) {
	case *ssa.DebugRef:
		return true
	case *ssa.UnOp:
		if tableType(x.Type()) {
			if a, ok := x.Type().Underlying().(*types.Array); ok {
				if _, ok := a.Elem().Underlying().(*types.Basic); ok {
					return true // a copy
				}
			}
			return all(x, value(x))
		}
		return true // a loaded element
	case *ssa.FieldAddr:
		return all(x, p.readOnly)
	case *ssa.IndexAddr:
		return all(x, p.readOnly)
	}
	return false
}

// tableKeys are the keys of a table with constant keys only.
func tableKeys(c *Term) []*Term {
	var ks []*Term
	for c.op == OMPut {
		k := c.args[1]
		if k.op != OConst {
			return nil
		}
		dup := false
		for _, o := range ks {
			dup = dup || o == k
		}
		if !dup {
			ks = append(ks, k)
		}
		c = c.args[0]
	}
	if c.op != ONil && c.op != OZero {
		return nil
	}
	return ks
}

// tableLookup follows a reading of a table with an unknown key for every key it has, and for none of them.
func (in *Interp) tableLookup(fr *frame, p *path, x *ssa.Lookup) []callRes {
	mt, ok := x.X.Type().Underlying().(*types.Map)
	if !ok {
		return nil
	}
	k := in.value(fr, p, x.Index)
	if k.op == OConst {
		return nil
	}
	c := in.mapContent(p.st, in.value(fr, p, x.X))
	ks := tableKeys(c)
	if len(ks) == 0 || len(ks) > 64 {
		return nil
	}
	ret := func(v *Term, ok *Term) *Term {
		if x.CommaOk {
			return mk(OTuple, "", 0, nil, v, ok)
		}
		return v
	}
	var out []callRes
	for _, key := range ks {
		eq := mkEq(k, key)
		e := in.eval(p.st, eq)
		if e == -1 {
			continue
		}
		q := p
		if e == 0 {
			q = p.clone()
			if !q.st.assume(eq, true) {
				continue
			}
		}
		out = append(out, callRes{p: q, val: ret(mkLookup(c, key, mt.Elem()), tTrue)})
		if e == 1 {
			return out
		}
		if !p.st.assume(eq, false) {
			return out
		}
	}
	return append(out, callRes{p: p, val: ret(zeroOf(mt.Elem()), tFalse)})
}

// indexTable follows a reading of a list of constants at an unknown index for every index it has.
func (in *Interp) indexTable(fr *frame, p *path, x *ssa.UnOp) []callRes {
	ia, ok := x.X.(*ssa.IndexAddr)
	if !ok {
		return nil
	}
	a := in.value(fr, p, x.X)
	if a.op != OIndexP {
		return nil
	}
	base, idx := a.args[0], a.args[1]
	if idx.op == OConst {
		return nil
	}
	if _, ok := iterIndex(base, idx); ok {
		return nil
	}
	var n int64
	switch u := ia.X.Type().Underlying().(type) {
	case *types.Slice:
		n, ok = in.lenOf(p.st, base).isInt()
	case *types.Pointer:
		var t *types.Array
		if t, ok = u.Elem().Underlying().(*types.Array); ok {
			n = t.Len()
		}
	default:
		return nil
	}
	if !ok || n < 1 || n > 64 {
		return nil
	}
	vals := make([]*Term, n)
	for k := range vals {
		v := in.load(p.st, mk(OIndexP, "", 0, a.typ, base, cInt(int64(k))))
		if v.op == OZero {
			if z := zeroOf(v.typ); z.op == OConst {
				v = z
			}
		}
		if v.op != OConst {
			return nil
		}
		vals[k] = v
	}
	var out []callRes
	for k, v := range vals {
		eq := mkEq(idx, cInt(int64(k)))
		e := in.eval(p.st, eq)
		if e == -1 {
			continue
		}
		q := p
		if e == 0 {
			q = p.clone()
			if !q.st.assume(eq, true) {
				continue
			}
		}
		out = append(out, callRes{p: q, val: v})
		if e == 1 {
			return out
		}
		if !p.st.assume(eq, false) {
			break
		}
	}
	return out
}

// structEqual follows a comparison of two structs for every field that may differ first.
func (in *Interp) structEqual(fr *frame, p *path, x *ssa.BinOp) []callRes {
	if x.Op != token.EQL && x.Op != token.NEQ {
		return nil
	}
	s, ok := x.X.Type().Underlying().(*types.Struct)
	if !ok || s.NumFields() == 0 || s.NumFields() > 16 {
		return nil
	}
	a, b := in.value(fr, p, x.X), in.value(fr, p, x.Y)
	if a == b {
		return nil
	}
	var out []callRes
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if f.Name() == "_" {
			continue
		}
		eq := mkEq(mkField(a, f.Name(), f.Type()), mkField(b, f.Name(), f.Type()))
		switch in.eval(p.st, eq) {
		case 1:
			continue
		case -1:
			return append(out, callRes{p: p, val: cBool(x.Op == token.NEQ)})
		}
		q := p.clone()
		if q.st.assume(eq, false) {
			out = append(out, callRes{p: q, val: cBool(x.Op == token.NEQ)})
		}
		if !p.st.assume(eq, true) {
			return out
		}
	}
	return append(out, callRes{p: p, val: cBool(x.Op == token.EQL)})
}
