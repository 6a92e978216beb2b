package main

// Calls: inlining, uninterpreted operations with state versions, and models of library functions.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type callRes struct {
	p     *path
	val   *Term
	panic bool
}

func one(p *path, v *Term) []callRes { return []callRes{{p: p, val: v}} }

// callCtx is what a call looks like to a model.
type callCtx struct {
	fr   *frame
	p    *path
	name string
	args []*Term
	typs []types.Type // static types of the arguments
	ret  types.Type
	pos  token.Pos
	fn   *ssa.Function
}

func (in *Interp) doCall(fr *frame, p *path, cc *ssa.CallCommon, ins ssa.Instruction, ret types.Type) []callRes {
	f := in.value(fr, p, cc.Value)
	args := make([]*Term, len(cc.Args))
	for i, a := range cc.Args {
		args[i] = in.value(fr, p, a)
	}
	return in.doCallT(fr, p, cc, f, args, ins, ret)
}

func (in *Interp) doCallT(fr *frame, p *path, cc *ssa.CallCommon, f *Term, args []*Term, ins ssa.Instruction, ret types.Type) []callRes {
	if ret == nil {
		ret = cc.Signature().Results()
	}
	typs := make([]types.Type, len(cc.Args))
	for i, a := range cc.Args {
		typs[i] = a.Type()
	}
	if cc.IsInvoke() {
		if in.checkPanics && f.op != OPtr && f.op != OIface {
			in.site("nil", fr.fn, ins.Pos(), in.nonNil(p.st, f), "method call on "+f.String()+" which may be nil")
		}
		return in.invoke(fr, p, f, cc.Value.Type(), cc.Method, args, typs, ret, ins.Pos())
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return in.builtin(fr, p, b.Name(), args, typs, ret, ins)
	}
	return in.callValue(fr, p, f, args, typs, ret, ins.Pos())
}

// callValue calls a function value.
func (in *Interp) callValue(fr *frame, p *path, f *Term, args []*Term, typs []types.Type, ret types.Type, pos token.Pos) []callRes {
	switch f.op {
	case OFunc, OClosure:
		if fn, ok := f.fn.(*ssa.Function); ok {
			var free []*Term
			if f.op == OClosure {
				free = f.args
			}
			return in.callFn(fr, p, fn, free, args, typs, ret, pos)
		}
	case OCall:
		if f.s == "maps.Keys" && len(args) == 1 {
			panic(Undecided{"range over an iterator function in " + fr.fn.String()})
		}
	}
	if in.checkPanics {
		in.site("nil", fr.fn, pos, in.nonNil(p.st, f), "call of "+f.String()+" which may be nil")
	}
	return in.effect(&callCtx{fr: fr, p: p, name: "dynamic call", args: append([]*Term{f}, args...), ret: ret, pos: pos})
}

func (in *Interp) nonNil(st *State, a *Term) bool {
	switch a.op {
	case OPtr, OFieldP, OIndexP, OGlobal, OAddr, OMake, OIface, OFunc, OClosure:
		return true
	}
	return in.eval(st, mkEq(a, tNil)) == -1
}

func (in *Interp) invoke(fr *frame, p *path, recv *Term, it types.Type, m *types.Func, args []*Term, typs []types.Type, ret types.Type, pos token.Pos) []callRes {
	var conc types.Type
	rv := recv
	if recv.op == OIface {
		conc = recv.typ
		rv = recv.args[0]
	} else if s := in.w.soleImpl(it); s != nil {
		conc = s
	}
	targs := append([]*Term{rv}, args...)
	if conc != nil {
		fn := in.w.prog.LookupMethod(conc, m.Pkg(), m.Name())
		if fn != nil {
			ctyps := append([]types.Type{conc}, typs...)
			return in.callFn(fr, p, fn, nil, targs, ctyps, ret, pos)
		}
	}
	tn := typeName(it)
	name := m.Name()
	if tn != nil {
		if in.w.repoPkg(tn.Pkg()) {
			name = tn.Name() + "." + name
		} else if tn.Pkg() != nil {
			name = tn.Pkg().Path() + "." + tn.Name() + "." + name
		} else {
			name = tn.Name() + "." + name
		}
	}
	c := &callCtx{fr: fr, p: p, name: name, args: targs, typs: append([]types.Type{it}, typs...), ret: ret, pos: pos}
	return in.special(c, nil)
}

// callFn calls a known function.
func (in *Interp) callFn(fr *frame, p *path, fn *ssa.Function, free, args []*Term, typs []types.Type, ret types.Type, pos token.Pos) []callRes {
	name := in.w.canon(fn)
	c := &callCtx{fr: fr, p: p, name: name, args: args, typs: typs, ret: ret, pos: pos, fn: fn}
	if in.pol.hook != nil {
		if rs := in.pol.hook(in, c); rs != nil {
			return rs
		}
	}
	repo := in.w.repoPkg(fnPkg(fn)) && len(fn.Blocks) > 0
	bound := strings.HasPrefix(fn.Synthetic, "bound method wrapper") && len(fn.Blocks) == 1
	if !repo && !bound {
		return in.special(c, fn)
	}
	// unwrap synthetic wrappers and thunks by running them
	if !bound && (fn.Synthetic == "" || fn.Origin() != nil) {
		if in.pol.opaque != nil && in.pol.opaque(name, fn) {
			return in.special(c, fn)
		}
		depth := 0
		for _, s := range in.stack {
			if s != fn {
				continue
			}
			if depth++; depth > 12 || !in.pol.shapes {
				in.note("recursive call of %s", name)
				return in.special(c, fn)
			}
		}
	}
	outs := in.call(fn, free, p.st, args)
	var rs []callRes
	for _, o := range outs {
		q := p
		if len(outs) > 1 {
			q = p.clone()
		}
		q.st = o.st
		r := callRes{p: q, panic: o.panic}
		if len(o.rets) == 1 {
			r.val = in.val(o.st, o.rets[0])
			if r.val.op == OMake {
				r.val = o.rets[0]
			}
		} else if len(o.rets) > 1 {
			vs := make([]*Term, len(o.rets))
			for i, x := range o.rets {
				vs[i] = in.val(o.st, x)
			}
			r.val = mk(OTuple, "", 0, nil, vs...)
		}
		rs = append(rs, r)
	}
	return rs
}

// special handles everything that is not inlined.
func (in *Interp) special(c *callCtx, fn *ssa.Function) []callRes {
	if m, ok := models[c.name]; ok {
		if rs := m(in, c); rs != nil {
			return rs
		}
	}
	kind := byte(0)
	if in.pol.kind != nil {
		kind = in.pol.kind(c.name)
	}
	if kind == 0 {
		kind = defaultKind(c.name, in.w, fn)
	}
	switch kind {
	case 'p':
		return one(c.p, in.pure(c))
	case 'q', 'm', 's', 'g', 'w':
		return in.stateOp(c, kind)
	}
	return in.effect(c)
}

var purePkgs = []string{"strings.", "strconv.", "unicode.", "unicode/utf8.", "path.", "path/filepath.", "net/url.", "math.", "bytes.", "cmp.", "regexp.",
	"encoding/json.Marshal", "fmt.Sprint", "errors.", "slices.", "maps.", "html.", "os.IsNotExist", "os.IsExist", "os.IsPermission", "text.", "runtime.", "io/fs.DirEntry.", "io/fs.FileInfo.", "os.DirEntry.", "sort.Search", "encoding/hex.", "encoding/base64.", "hash/", "crypto/", "math/bits."}

func defaultKind(name string, w *Prog, fn *ssa.Function) byte {
	if fn != nil && w.repoPkg(fnPkg(fn)) {
		if pk := fnPkg(fn); strings.HasSuffix(pk.Path(), "/pkg/errors") {
			return 'p'
		}
		return 'e'
	}
	switch name {
	case "path/filepath.Walk", "path/filepath.WalkDir", "path/filepath.Glob", "path/filepath.Abs", "path/filepath.EvalSymlinks":
		return 'e'
	case "error.Error", "fmt.Stringer.String":
		return 'p'
	}
	for _, p := range purePkgs {
		if strings.HasPrefix(name, p) {
			return 'p'
		}
	}
	return 'e'
}

func (in *Interp) snapAll(st *State, as []*Term) []*Term {
	out := make([]*Term, len(as))
	for i, a := range as {
		out[i] = in.snap(st, in.val(st, a), 0)
	}
	return out
}

func resType(t types.Type) types.Type {
	if tp, ok := t.(*types.Tuple); ok {
		if tp.Len() == 1 {
			return tp.At(0).Type()
		}
	}
	return t
}

func (in *Interp) pure(c *callCtx) *Term {
	res := mk(OCall, c.name, 0, resType(c.ret), in.snapAll(c.p.st, c.args)...)
	if in.pol.pureErrs && errIndex(c.ret) >= 0 {
		c.p.st.event(&Ev{kind: "perr", name: c.name, args: res.args, raw: c.args, res: res, pos: c.pos, fn: c.fr.fn, rt: c.ret})
	}
	return res
}

// errIndex is the place of the error among the results, or -1.
func errIndex(t types.Type) int {
	if tp, ok := t.(*types.Tuple); ok {
		for i := 0; i < tp.Len(); i++ {
			if isErrorType(tp.At(i).Type()) {
				return i
			}
		}
		return -1
	}
	if t != nil && isErrorType(t) {
		return 0
	}
	return -1
}

func isErrorType(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }

// effect is a call whose effect and result are unknown; it is an event of its own.
func (in *Interp) effect(c *callCtx) []callRes {
	in.evN++
	st := c.p.st
	snaps := in.snapAll(st, c.args)
	res := mk(OCall, c.name, in.evN, resType(c.ret), snaps...)
	st.event(&Ev{kind: "call", name: c.name, args: snaps, raw: c.args, res: res, pos: c.pos, fn: c.fr.fn, rt: c.ret})
	// what the callee can reach through pointers to local objects is unknown afterwards
	if c.fn == nil || !in.w.repoPkg(fnPkg(c.fn)) {
		for _, a := range c.args {
			for _, part := range seqParts(a) {
				if part.op == OOne {
					part = part.args[0]
				}
				if part.op == OIface {
					part = part.args[0]
				}
				root, _ := in.rootOf(part)
				if root.op == OPtr {
					st.mem[root] = top(ptrElem(root.typ), "written by "+c.name)
				}
			}
		}
	}
	return one(c.p, res)
}

func epochKey(role string, recv *Term) *Term {
	if recv == nil {
		return mk(OEpoch, "obj:"+role, 0, nil)
	}
	return mk(OEpoch, "obj:"+role, 0, nil, recv)
}

func lastKey(role string, recv *Term) *Term { return mk(OEpoch, "last:"+role, 0, nil, recv) }

func (in *Interp) epoch(st *State, key *Term) *Term {
	if e, ok := st.mem[key]; ok {
		return e
	}
	return mk(OEpoch, "0:"+key.s, 0, nil)
}

// stateOp is an uninterpreted operation on a stateful object.
// q: query, m: changes the state, s: status of the last operation, g: getter, w: setter that isn't an operation
func (in *Interp) stateOp(c *callCtx, kind byte) []callRes {
	st := c.p.st
	role := c.name[:strings.Index(c.name+".", ".")]
	recv := c.args[0]
	var key *Term
	if in.pol.perRecv != nil && in.pol.perRecv(role) {
		key = epochKey(role, recv)
	} else {
		key = epochKey(role, nil)
	}
	snaps := in.snapAll(st, c.args)
	snaps[0] = recv
	if recv.op != OPtr {
		snaps[0] = in.snap(st, recv, 0)
	}
	rt := resType(c.ret)
	ep := in.epoch(st, key)
	switch kind {
	case 's':
		last, ok := st.mem[lastKey(role, recv)]
		if !ok {
			last = mk(OEpoch, "last0", 0, nil)
		}
		return one(c.p, mk(OCall, c.name, 0, rt, append(snaps, last)...))
	case 'g':
		return one(c.p, mk(OCall, c.name, 0, rt, append(snaps, ep)...))
	}
	res := mk(OCall, c.name, 0, rt, append(snaps, ep)...)
	ev := &Ev{kind: "call", name: c.name, args: snaps, raw: c.args, res: res, pos: c.pos, fn: c.fr.fn, rt: c.ret}
	st.event(ev)
	if kind != 'w' {
		st.mem[lastKey(role, recv)] = res
	}
	if kind == 'm' || kind == 'w' {
		st.mem[key] = mk(OEpoch, "after", 0, nil, res)
	}
	if in.pol.returnsRecv != nil && in.pol.returnsRecv(c.name) {
		return one(c.p, recv)
	}
	return one(c.p, res)
}

// --- builtins ---

func (in *Interp) builtin(fr *frame, p *path, name string, args []*Term, typs []types.Type, ret types.Type, ins ssa.Instruction) []callRes {
	st := p.st
	switch name {
	case "append":
		a := in.val(st, args[0])
		b := in.val(st, args[1])
		if sb, ok := typs[1].Underlying().(*types.Basic); ok && sb.Info()&types.IsString != 0 {
			b = mk(OConv, "bytes", 0, typs[0], b)
		}
		if shared(a) {
			st.event(&Ev{kind: "append", name: "append", args: []*Term{a, in.snap(st, b, 0)}, raw: []*Term{a, b}, pos: ins.Pos(), fn: fr.fn})
		}
		if isByteSlice(typs[0]) && (b.op == OConv || a.op == OConv) {
			str := func(t *Term) *Term {
				if t.op == OConv && t.s == "bytes" {
					return t.args[0]
				}
				if t.op == ONil || t == tEmptySeq {
					return cStr("")
				}
				return mk(OConv, "string", 0, types.Typ[types.String], t)
			}
			return one(p, mk(OConv, "bytes", 0, typs[0], mkConcat(str(a), str(b))))
		}
		if a == tEmptySeq || a.op == ONil || a.op == OMake || a.op == OCall && a.s == "zeroSeq" {
			b = fresh(b)
		}
		return one(p, mkSeq(a, b))
	case "len":
		a := in.val(st, args[0])
		if _, ok := typs[0].Underlying().(*types.Map); ok {
			a = in.mapContent(st, a)
		}
		if at, ok := typs[0].Underlying().(*types.Array); ok {
			return one(p, cInt(at.Len()))
		}
		return one(p, in.lenOf(st, a))
	case "cap":
		return one(p, mk(OCall, "cap", 0, types.Typ[types.Int], in.val(st, args[0])))
	case "delete":
		in.mapDel(fr, st, args[0], args[1], ins.Pos())
		return one(p, nil)
	case "clear":
		if _, ok := typs[0].Underlying().(*types.Map); ok {
			st.mem[args[0]] = tNil
			st.event(&Ev{kind: "mclear", name: refName(args[0]), args: []*Term{m0(args[0])}, raw: args, pos: ins.Pos(), fn: fr.fn})
			return one(p, nil)
		}
	case "copy":
		d, s := args[0], in.val(st, args[1])
		if d.op == OMake && in.lenOf(st, d) == mkLen(s) {
			st.mem[d] = mkSeq(fresh(s))
			if st.mem[d].op != OSeq {
				st.mem[d] = mk(OSeq, "", 0, nil, st.mem[d])
			}
			return one(p, mkLen(s))
		}
		if d.op == OMake {
			if n := in.lenOf(st, d); n.op != OTop && st.facts.eval(mkLe0(linOf(sub(n, mkLen(s))))) == 1 {
				// a list that is no longer is filled with the beginning
				st.mem[d] = mkSeq(fresh(mkSlice(s, cInt(0), n)))
				if st.mem[d].op != OSeq {
					st.mem[d] = mk(OSeq, "", 0, nil, st.mem[d])
				}
				return one(p, n)
			}
		}
		// a new list filled part by part
		if o, lo := d, cInt(0); d.op == OMake || d.op == OSlice && d.args[0].op == OMake && d.args[2] == in.lenOf(st, d.args[0]) {
			if d.op == OSlice {
				o, lo = d.args[0], d.args[1]
			}
			if z := st.mem[o]; z != nil && z.op == OCall && z.s == "zeroSeq" {
				done := tEmptySeq
				if len(z.args) > 1 {
					done = z.args[1]
				}
				if mkLen(done) == lo {
					done = mkSeq(done, fresh(s))
					if done.op != OSeq {
						done = mk(OSeq, "", 0, nil, done)
					}
					rest := linOf(sub(z.args[0], mkLen(done)))
					if rest.c == 0 && len(rest.vars()) == 0 {
						st.mem[o] = done
					} else if rest.c < 0 {
						st.mem[o] = mk(OSeq, "", 0, nil, top(typs[0], "copied"))
					} else {
						st.mem[o] = mk(OCall, "zeroSeq", 0, nil, z.args[0], done)
					}
					return one(p, mkLen(s))
				}
			}
			if d.op == OSlice {
				st.mem[o] = mk(OSeq, "", 0, nil, top(typs[0], "copied"))
				return one(p, mk(OCall, "copy", 0, types.Typ[types.Int], d, s))
			}
		}
		if d.op != OMake {
			st.event(&Ev{kind: "store", name: "copy into " + shortType(typs[0]), args: []*Term{d, s}, raw: args, pos: ins.Pos(), fn: fr.fn})
		} else {
			st.mem[d] = mk(OSeq, "", 0, nil, top(typs[0], "copied"))
		}
		return one(p, mk(OCall, "copy", 0, types.Typ[types.Int], d, s))
	case "min", "max":
		if isIntType(typs[0]) {
			rs := one(p, args[0])
			for _, b := range args[1:] {
				var next []callRes
				for _, r := range rs {
					a := r.val
					c := mkLe0(linOf(sub(a, b)))
					x, y := a, b
					if name == "max" {
						x, y = b, a
					}
					switch in.eval(r.p.st, c) {
					case 1:
						next = append(next, callRes{p: r.p, val: x})
					case -1:
						next = append(next, callRes{p: r.p, val: y})
					default:
						q := r.p.clone()
						if q.st.assume(c, true) {
							next = append(next, callRes{p: q, val: x})
						}
						if r.p.st.assume(c, false) {
							next = append(next, callRes{p: r.p, val: y})
						}
					}
				}
				rs = next
			}
			return rs
		}
	case "print", "println":
		return in.effect(&callCtx{fr: fr, p: p, name: "builtin." + name, args: args, ret: ret, pos: ins.Pos()})
	case "close":
		return one(p, nil)
	case "recover":
		in.note("recover in %s", fr.fn)
		return one(p, top(ret, "recover"))
	case "ssa:wrapnilchk":
		in.site("nil", fr.fn, ins.Pos(), in.nonNil(st, args[0]), "method value of nil pointer")
		return one(p, args[0])
	case "panic":
		return []callRes{{p: p, panic: true}}
	}
	return one(p, mk(OCall, "builtin."+name, 0, resType(ret), args...))
}

// fresh marks a list that was copied into a new array, when that is to be told apart.
func fresh(s *Term) *Term {
	if !freshTags || s.op == OSeq || s.op == ONil || s.op == OCopy {
		return s
	}
	return mk(OCopy, "", 0, s.typ, s)
}

// shared reports whether the slice may have been made by someone else.
func shared(a *Term) bool {
	switch a.op {
	case OSeq:
		for _, p := range a.args {
			if p.op != OOne && p.op != OEach {
				return false // an append made it: a new array or the one that append already reported
			}
		}
		return false
	case ONil, OMake, OClip, OCopy, OConst, OLV, OTop:
		return false
	case OCall:
		switch a.s {
		case "keys", "strings.Split", "strings.Fields":
			return false
		}
		return strings.HasPrefix(a.s, "slices.") == false
	case OFold:
		return false
	}
	return true
}

// --- models ---

type model func(in *Interp, c *callCtx) []callRes

var models map[string]model

const setPath = "github.com/deckarep/golang-set/v2."

func init() {
	models = map[string]model{}
	reg := func(f model, names ...string) {
		for _, n := range names {
			models[n] = f
		}
	}
	reg(mSprintf, "fmt.Sprintf")
	reg(func(in *Interp, c *callCtx) []callRes {
		vs := in.snapAll(c.p.st, c.args)
		return one(c.p, mk(OIface, "", 0, errorfType, mk(OCall, "fmt.Errorf", 0, nil, vs...)))
	}, "fmt.Errorf", "errors.New")
	reg(func(in *Interp, c *callCtx) []callRes {
		return one(c.p, mkJoin(in.val(c.p.st, c.args[0]), c.args[1]))
	}, "strings.Join")
	reg(func(in *Interp, c *callCtx) []callRes {
		return one(c.p, itoa(c.args[0]))
	}, "strconv.Itoa")
	reg(func(in *Interp, c *callCtx) []callRes {
		return one(c.p, mk(OCall, "fmtbool", 0, types.Typ[types.String], c.args[0]))
	}, "strconv.FormatBool")
	reg(func(in *Interp, c *callCtx) []callRes {
		if n, ok := c.args[1].isInt(); ok && n == 10 {
			return one(c.p, itoa(c.args[0]))
		}
		return nil
	}, "strconv.FormatInt")
	// slices
	reg(func(in *Interp, c *callCtx) []callRes {
		s, x := in.val(c.p.st, c.args[0]), c.args[1]
		return one(c.p, mkContains(s, x))
	}, "slices.Contains")
	reg(func(in *Interp, c *callCtx) []callRes {
		return one(c.p, mk(OCopy, "", 0, c.args[0].typ, in.val(c.p.st, c.args[0])))
	}, "slices.Clone")
	reg(func(in *Interp, c *callCtx) []callRes {
		s := in.val(c.p.st, c.args[0])
		if s.op == OSeq || s.op == ONil {
			return one(c.p, s)
		}
		return one(c.p, mk(OClip, "", 0, c.args[0].typ, s))
	}, "slices.Clip")
	reg(func(in *Interp, c *callCtx) []callRes {
		return one(c.p, mk(OCall, "compare", 0, types.Typ[types.Int], c.args[0], c.args[1]))
	}, "strings.Compare", "cmp.Compare")
	reg(mSort, "sort.Strings", "sort.Ints", "slices.Sort", "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc", "sort.Sort", "sort.Stable")
	reg(func(in *Interp, c *callCtx) []callRes {
		s := in.val(c.p.st, c.args[0])
		sortedFact(in, c, s, nil)
		return one(c.p, s)
	}, "slices.Sorted")
	reg(func(in *Interp, c *callCtx) []callRes {
		return one(c.p, in.val(c.p.st, c.args[0]))
	}, "slices.Collect", "slices.Values")
	reg(func(in *Interp, c *callCtx) []callRes {
		parts := in.val(c.p.st, c.args[0])
		var out []*Term
		for _, x := range seqParts(parts) {
			if x.op != OOne {
				return nil
			}
			out = append(out, fresh(in.val(c.p.st, x.args[0])))
		}
		return one(c.p, mkSeq(out...))
	}, "slices.Concat")
	reg(func(in *Interp, c *callCtx) []callRes {
		return one(c.p, in.keys(c.p.st, in.mapContent(c.p.st, c.args[0])))
	}, "maps.Keys")
	reg(func(in *Interp, c *callCtx) []callRes {
		m := c.args[0]
		content := in.mapContent(c.p.st, m)
		o := in.freshRef(m.typ)
		c.p.st.mem[o] = content
		return one(c.p, o)
	}, "maps.Clone")
	reg(mDeleteFunc, "maps.DeleteFunc")
	reg(mAny, "slices.ContainsFunc", "slices.IndexFunc")
	// strings.Builder and bytes.Buffer as strings in memory
	for _, b := range []string{"strings.Builder.", "bytes.Buffer."} {
		reg(func(in *Interp, c *callCtx) []callRes { return bufWrite(in, c, c.args[1]) }, b+"WriteString")
		reg(func(in *Interp, c *callCtx) []callRes {
			if n, ok := c.args[1].isInt(); ok {
				return bufWrite(in, c, cStr(string(rune(n))))
			}
			return bufWrite(in, c, mk(OConv, "string", 0, types.Typ[types.String], c.args[1]))
		}, b+"WriteByte", b+"WriteRune")
		reg(func(in *Interp, c *callCtx) []callRes {
			return bufWrite(in, c, in.convert(c.args[1], c.typs[1], types.Typ[types.String]))
		}, b+"Write")
		reg(func(in *Interp, c *callCtx) []callRes { return one(c.p, bufText(in, c)) }, b+"String")
		reg(func(in *Interp, c *callCtx) []callRes { return one(c.p, mkLen(bufText(in, c))) }, b+"Len")
		reg(func(in *Interp, c *callCtx) []callRes {
			in.store(c.fr, c.p.st, mk(OFieldP, "$text", 0, types.NewPointer(types.Typ[types.String]), c.args[0]), cStr(""), c.pos)
			return one(c.p, nil)
		}, b+"Reset")
		reg(func(in *Interp, c *callCtx) []callRes { return one(c.p, nil) }, b+"Grow")
	}
	reg(func(in *Interp, c *callCtx) []callRes {
		w := c.args[0]
		if w.op == OIface {
			w = w.args[0]
		}
		tn := typeName(c.argType0())
		_ = tn
		root, _ := in.rootOf(w)
		if root.op != OPtr {
			return nil
		}
		c2 := *c
		c2.args = c.args[1:]
		c2.typs = c.typs[1:]
		rs := mSprintf(in, &c2)
		if rs == nil {
			return nil
		}
		var out []callRes
		for _, r := range rs {
			c3 := *c
			c3.p = r.p
			c3.args = []*Term{w, r.val}
			out = append(out, bufWrite(in, &c3, r.val)...)
		}
		return out
	}, "fmt.Fprintf")
	reg(func(in *Interp, c *callCtx) []callRes {
		if k := in.val(c.p.st, c.args[0]); k.op == OSeq {
			var parts []*Term
			for _, x := range k.args {
				if x.op != OOne || x.args[0].op != OIface {
					return nil
				}
				if _, ok := x.args[0].typ.Underlying().(*types.Basic); !ok || len(k.args) > 1 {
					return nil
				}
				t, ok := fmtVerb('v', x.args[0])
				if !ok {
					return nil
				}
				parts = append(parts, t)
			}
			return one(c.p, mkConcat(parts...))
		}
		return nil
	}, "fmt.Sprint")
	// strings
	reg(func(in *Interp, c *callCtx) []callRes {
		a, ok1 := c.args[0].isStr()
		b, ok2 := c.args[1].isStr()
		if ok1 && ok2 {
			return one(c.p, cBool(strings.HasPrefix(a, b)))
		}
		return nil
	}, "strings.HasPrefix")
	reg(func(in *Interp, c *callCtx) []callRes {
		a, b := c.args[0], c.args[1]
		has := mk(OCall, "strings.HasSuffix", 0, types.Typ[types.Bool], a, b)
		cut := mk(OCall, "strings.TrimSuffix", 0, types.Typ[types.String], a, b)
		if x, ok := a.isStr(); ok {
			if y, ok := b.isStr(); ok {
				has, cut = cBool(strings.HasSuffix(x, y)), cStr(strings.TrimSuffix(x, y))
			}
		}
		return one(c.p, mk(OTuple, "", 0, nil, cut, has))
	}, "strings.CutSuffix")
	constStr := func(name string, f func(string) string) {
		reg(func(in *Interp, c *callCtx) []callRes {
			if s, ok := c.args[0].isStr(); ok {
				return one(c.p, cStr(f(s)))
			}
			return nil
		}, name)
	}
	constStr("strings.TrimSpace", strings.TrimSpace)
	constStr("strings.ToLower", strings.ToLower)
	constStr("strings.ToUpper", strings.ToUpper)
	// sets
	reg(func(in *Interp, c *callCtx) []callRes {
		o := in.freshRef(resType(c.ret))
		cont := tNil
		for _, x := range seqParts(argOr(in, c, 0)) {
			if x.op != OOne {
				cont = mk(OMPut, "", 0, nil, cont, x, tTrue)
				continue
			}
			cont = mk(OMPut, "", 0, nil, cont, x.args[0], tTrue)
		}
		c.p.st.mem[o] = cont
		return one(c.p, o)
	}, setPath+"NewSet", setPath+"NewThreadUnsafeSet", setPath+"NewSetWithSize", setPath+"NewThreadUnsafeSetWithSize")
	reg(func(in *Interp, c *callCtx) []callRes {
		was := mkLookupOk(in.mapContent(c.p.st, c.args[0]), c.args[1])
		in.mapPut(c.fr, c.p.st, c.args[0], c.args[1], tTrue, c.pos)
		return one(c.p, mkNot(was))
	}, setPath+"Set.Add")
	reg(func(in *Interp, c *callCtx) []callRes {
		in.mapDel(c.fr, c.p.st, c.args[0], c.args[1], c.pos)
		return one(c.p, nil)
	}, setPath+"Set.Remove")
	reg(func(in *Interp, c *callCtx) []callRes {
		s := in.val(c.p.st, c.args[1])
		if s.op == OSeq && len(s.args) == 1 && s.args[0].op == OOne {
			return one(c.p, mkLookupOk(in.mapContent(c.p.st, c.args[0]), s.args[0].args[0]))
		}
		return nil
	}, setPath+"Set.Contains")
	reg(func(in *Interp, c *callCtx) []callRes {
		return one(c.p, mkLookupOk(in.mapContent(c.p.st, c.args[0]), c.args[1]))
	}, setPath+"Set.ContainsOne")
	reg(func(in *Interp, c *callCtx) []callRes {
		return one(c.p, in.lenOf(c.p.st, in.mapContent(c.p.st, c.args[0])))
	}, setPath+"Set.Cardinality")
	reg(func(in *Interp, c *callCtx) []callRes {
		if ks, ok := in.shapeKeys(c.p.st, in.mapContent(c.p.st, c.args[0])); ok {
			return one(c.p, cBool(len(ks) == 0))
		}
		return one(c.p, mkEmpty(in.mapContent(c.p.st, c.args[0])))
	}, setPath+"Set.IsEmpty")
	reg(func(in *Interp, c *callCtx) []callRes {
		return one(c.p, in.keys(c.p.st, in.mapContent(c.p.st, c.args[0])))
	}, setPath+"Set.ToSlice", setPath+"Set.Iter")
	reg(func(in *Interp, c *callCtx) []callRes {
		o := in.freshRef(c.args[0].typ)
		c.p.st.mem[o] = in.mapContent(c.p.st, c.args[0])
		return one(c.p, o)
	}, setPath+"Set.Clone")
	reg(func(in *Interp, c *callCtx) []callRes {
		c.p.st.mem[c.args[0]] = tNil
		c.p.st.event(&Ev{kind: "mclear", name: refName(c.args[0]), args: []*Term{m0(c.args[0])}, raw: c.args, pos: c.pos, fn: c.fr.fn})
		return one(c.p, nil)
	}, setPath+"Set.Clear")
	reg(func(in *Interp, c *callCtx) []callRes {
		s := in.val(c.p.st, c.args[1])
		for _, x := range seqParts(s) {
			if x.op != OOne {
				return nil
			}
			in.mapPut(c.fr, c.p.st, c.args[0], x.args[0], tTrue, c.pos)
		}
		return one(c.p, top(types.Typ[types.Int], "added"))
	}, setPath+"Set.Append")
	reg(mSetEach, setPath+"Set.Each")
}

func argOr(in *Interp, c *callCtx, i int) *Term {
	if i < len(c.args) && isSliceT(c.typs[i]) {
		return in.val(c.p.st, c.args[i])
	}
	return tEmptySeq
}

func (c *callCtx) argType0() types.Type {
	if len(c.typs) > 0 {
		return c.typs[0]
	}
	return nil
}

var errorfType = types.NewNamed(types.NewTypeName(token.NoPos, nil, "errorf", nil), types.NewStruct(nil, nil), nil)

func bufText(in *Interp, c *callCtx) *Term {
	return in.load(c.p.st, mk(OFieldP, "$text", 0, types.NewPointer(types.Typ[types.String]), c.args[0]))
}

func bufWrite(in *Interp, c *callCtx, s *Term) []callRes {
	ptr := mk(OFieldP, "$text", 0, types.NewPointer(types.Typ[types.String]), c.args[0])
	in.store(c.fr, c.p.st, ptr, mkConcat(in.load(c.p.st, ptr), s), c.pos)
	return one(c.p, mk(OTuple, "", 0, nil, mkLen(s), tNil))
}

func sortedFact(in *Interp, c *callCtx, s, less *Term) {
	raw := []*Term{s, less}
	if less != nil && less.op == OClosure {
		for _, b := range less.args { // what the comparison finds in its variables
			v := b
			if b.op == OPtr {
				v = in.load(c.p.st, b)
			}
			raw = append(raw, v)
		}
	}
	c.p.st.event(&Ev{kind: "sort", name: c.name, args: []*Term{s}, raw: raw, pos: c.pos, fn: c.fr.fn})
	c.p.st.assume(mk(OCall, "sorted", 0, types.Typ[types.Bool], s), true)
}

func mSort(in *Interp, c *callCtx) []callRes {
	s := c.args[0]
	if s.op == OIface {
		s = s.args[0]
	}
	s = in.val(c.p.st, s)
	var less *Term
	if len(c.args) > 1 {
		less = c.args[1]
	}
	sortedFact(in, c, s, less)
	return one(c.p, nil)
}

// fmtVerb formats a value held in an interface.
// itoa is the decimal text of a number.
func itoa(n *Term) *Term {
	if k, ok := n.isInt(); ok {
		return cStr(strconv.FormatInt(k, 10))
	}
	return mk(OCall, "itoa", 0, types.Typ[types.String], n)
}

func fmtVerb(verb byte, v *Term) (*Term, bool) {
	x := v
	var t types.Type = v.typ
	if v.op == OIface {
		x = v.args[0]
	}
	basic := func() *types.Basic {
		if v.op != OIface || t == nil {
			return nil
		}
		b, _ := t.Underlying().(*types.Basic)
		return b
	}
	hasText := false
	if v.op == OIface && t != nil {
		ms := types.NewMethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			if n := ms.At(i).Obj().Name(); n == "String" || n == "Error" {
				hasText = true
			}
		}
	}
	b := basic()
	switch verb {
	case 's', 'v', 'w':
		if b != nil && !hasText {
			switch {
			case b.Info()&types.IsString != 0:
				return x, true
			case b.Info()&types.IsInteger != 0 && verb == 'v':
				return itoa(x), true
			case b.Info()&types.IsBoolean != 0 && verb == 'v':
				return mk(OCall, "fmtbool", 0, types.Typ[types.String], x), true
			}
			return nil, false
		}
		return mk(OCall, "text", 0, types.Typ[types.String], v), true
	case 'd':
		if b != nil && b.Info()&types.IsInteger != 0 {
			return itoa(x), true
		}
	case 't':
		if b != nil && b.Info()&types.IsBoolean != 0 {
			return mk(OCall, "fmtbool", 0, types.Typ[types.String], x), true
		}
	case 'q':
		if b != nil && b.Info()&types.IsString != 0 && !hasText {
			return mk(OCall, "strconv.Quote", 0, types.Typ[types.String], x), true
		}
	}
	return nil, false
}

func mSprintf(in *Interp, c *callCtx) []callRes {
	f, ok := c.args[0].isStr()
	if !ok {
		return nil
	}
	vals := in.val(c.p.st, c.args[1])
	var args []*Term
	for _, x := range seqParts(vals) {
		if x.op != OOne {
			return nil
		}
		args = append(args, x.args[0])
	}
	type piece struct {
		lit  string
		verb byte
		arg  *Term
	}
	var ps []piece
	n := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			ps = append(ps, piece{lit: string(f[i])})
			continue
		}
		i++
		if i >= len(f) {
			return nil
		}
		if f[i] == '%' {
			ps = append(ps, piece{lit: "%"})
			continue
		}
		if n >= len(args) {
			return nil
		}
		ps = append(ps, piece{verb: f[i], arg: args[n]})
		n++
	}
	if n != len(args) {
		return nil
	}
	type cur struct {
		p     *path
		parts []*Term
	}
	cs := []cur{{c.p, nil}}
	for _, pc := range ps {
		if pc.verb == 0 {
			for i := range cs {
				cs[i].parts = append(cs[i].parts, cStr(pc.lit))
			}
			continue
		}
		// texts of values of the repository: run their String method
		if fn := in.textMethod(pc.arg); fn != nil && (pc.verb == 's' || pc.verb == 'v' || pc.verb == 'w') {
			var next []cur
			x := pc.arg
			if x.op == OIface {
				x = x.args[0]
			}
			for _, k := range cs {
				for _, r := range in.callFn(c.fr, k.p, fn, nil, []*Term{x}, []types.Type{pc.arg.typ}, types.Typ[types.String], c.pos) {
					if r.panic {
						continue
					}
					next = append(next, cur{r.p, append(append([]*Term{}, k.parts...), r.val)})
				}
			}
			cs = next
			continue
		}
		t, ok := fmtVerb(pc.verb, pc.arg)
		if !ok {
			return nil
		}
		for i := range cs {
			cs[i].parts = append(cs[i].parts, t)
		}
	}
	var out []callRes
	for _, k := range cs {
		out = append(out, callRes{p: k.p, val: mkConcat(k.parts...)})
	}
	return out
}

// textMethod finds the String or Error method of a value of the repository.
func (in *Interp) textMethod(v *Term) *ssa.Function {
	var t types.Type
	if v.op == OIface {
		t = v.typ
	} else if v.typ != nil {
		t = v.typ
		if s := in.w.soleImpl(t); s != nil {
			t = s
		}
	}
	if t == nil {
		return nil
	}
	tn := typeName(t)
	if tn == nil || !in.w.repoPkg(tn.Pkg()) {
		return nil
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		return nil
	}
	for _, n := range []string{"Error", "String"} {
		if f := in.w.method(t, n); f != nil {
			return f
		}
	}
	return nil
}

// closureLoop summarises the calls of a function for the elements of a collection.
// stop tells whether a result ends the loop.
func (in *Interp) closureLoop(c *callCtx, coll *Term, isMap bool, elems func(L *Loop) []*Term, f *Term, each func(q *path, L *Loop, r *Term) *path, stop func(q *path, r *Term) int) []exit {
	b := &loopBody{fr: c.fr, fn: c.fr.fn, pos: c.pos}
	b.run = func(q *path, L *Loop) []exit {
		L.coll, L.isMap = coll, isMap
		more := mk(OMore, "", L.id, types.Typ[types.Bool], coll)
		none := q.clone()
		none.st.assume(more, false)
		out := []exit{{p: none, kind: 2}}
		q.st.assume(more, true)
		if !in.assumeElem(q.st, L) {
			return out
		}
		for _, r := range in.callValue(c.fr, q, f, elems(L), nil, types.Typ[types.Bool], c.pos) {
			if r.panic {
				out = append(out, exit{p: r.p, kind: 1, pos: c.pos})
				continue
			}
			if each != nil {
				qs := each(r.p, L, r.val)
				if qs == nil {
					continue
				}
				r.p = qs
			}
			if stop == nil {
				out = append(out, exit{p: r.p, kind: 3})
				continue
			}
			res := r.val
			s := in.eval(r.p.st, res)
			if s != -1 {
				k := r.p
				if s == 0 {
					k = r.p.clone()
				}
				if k.st.assume(res, true) {
					out = append(out, exit{p: k, kind: 2, rets: []*Term{tTrue}})
				}
			}
			if s != 1 && r.p.st.assume(res, false) {
				out = append(out, exit{p: r.p, kind: 3})
			}
		}
		return out
	}
	b.natural = func(e *exit) bool { return len(e.rets) == 0 }
	return in.summarise(b, c.p)
}

func mSetEach(in *Interp, c *callCtx) []callRes {
	content := in.mapContent(c.p.st, c.args[0])
	if ks, ok := in.shapeKeys(c.p.st, content); ok {
		return in.eachKey(c, ks, c.args[1])
	}
	es := in.closureLoop(c, content, true, func(L *Loop) []*Term { return []*Term{mkKey(L.id, content, nil)} }, c.args[1], nil,
		func(q *path, r *Term) int { return 0 })
	var out []callRes
	for _, e := range es {
		out = append(out, callRes{p: e.p, panic: e.kind == 1})
	}
	return out
}

func mDeleteFunc(in *Interp, c *callCtx) []callRes {
	m := c.args[0]
	content := in.mapContent(c.p.st, m)
	vt := types.Type(nil)
	if mt, ok := c.typs[0].Underlying().(*types.Map); ok {
		vt = mt.Elem()
	}
	// on the paths where the predicate holds, the entry is deleted
	b := &loopBody{fr: c.fr, fn: c.fr.fn, pos: c.pos}
	b.run = func(q *path, L *Loop) []exit {
		L.coll, L.isMap = content, true
		key := mkKey(L.id, content, nil)
		more := mk(OMore, "", L.id, types.Typ[types.Bool], content)
		none := q.clone()
		none.st.assume(more, false)
		out := []exit{{p: none, kind: 2}}
		q.st.assume(more, true)
		in.assumeElem(q.st, L)
		for _, r := range in.callValue(c.fr, q, c.args[1], []*Term{key, mkLookup(content, key, vt)}, nil, types.Typ[types.Bool], c.pos) {
			if r.panic {
				out = append(out, exit{p: r.p, kind: 1, pos: c.pos})
				continue
			}
			s := in.eval(r.p.st, r.val)
			if s != -1 {
				k := r.p
				if s == 0 {
					k = r.p.clone()
				}
				if k.st.assume(r.val, true) {
					in.mapDel(c.fr, k.st, m, key, c.pos)
					out = append(out, exit{p: k, kind: 3})
				}
			}
			if s != 1 && r.p.st.assume(r.val, false) {
				out = append(out, exit{p: r.p, kind: 3})
			}
		}
		return out
	}
	b.natural = func(e *exit) bool { return true }
	var out []callRes
	for _, e := range in.summarise(b, c.p) {
		out = append(out, callRes{p: e.p, panic: e.kind == 1})
	}
	return out
}

func mAny(in *Interp, c *callCtx) []callRes {
	s := in.val(c.p.st, c.args[0])
	et := sliceElem(c.typs[0])
	es := in.closureLoop(c, s, false, func(L *Loop) []*Term {
		return []*Term{mkIndex(s, mk(ON, "", L.id, types.Typ[types.Int]), et)}
	}, c.args[1], nil, func(q *path, r *Term) int { return 0 })
	var out []callRes
	for _, e := range es {
		v := cBool(len(e.rets) > 0)
		if strings.HasSuffix(c.name, "IndexFunc") {
			if len(e.rets) > 0 {
				v = top(types.Typ[types.Int], "index")
			} else {
				v = cInt(-1)
			}
		}
		out = append(out, callRes{p: e.p, val: v, panic: e.kind == 1})
	}
	return out
}

var _ = constant.MakeBool
var _ = fmt.Sprint
