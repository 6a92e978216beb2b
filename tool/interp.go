package main

// The abstract interpreter: a forward dataflow analysis over go/ssa with trace partitioning.
// Every function is analysed from an unknown caller state; loops are summarised by one generic
// iteration from a header state in which everything the loop changes is unknown.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Undecided struct{ why string }

type Policy struct {
	opaque      func(name string, fn *ssa.Function) bool // treat as an uninterpreted operation
	kind        func(name string) byte                   // what an uninterpreted operation is; see stateOp
	perRecv     func(role string) bool                   // is there a state per receiver
	returnsRecv func(name string) bool                   // operations that return their receiver
	inv         func(t *Term) int                        // invariants: decides a condition
	pureErrs    bool                                     // record calls without effect that may fail
	hook        func(in *Interp, c *callCtx) []callRes   // takes calls over
	conv        func(a *Term, to types.Type) *Term       // takes conversions over
	iterations  int                                      // how far a decided loop is followed
	shapes      bool                                     // maps and sets with known keys are gone through key by key
	cells       bool                                     // elements of slices of local objects may be assigned to
}

type env map[ssa.Value]*Term

type frame struct {
	fn    *ssa.Function
	loops map[*ssa.BasicBlock]*natLoop
	free  []*Term
	depth int
}

type deferred struct {
	call *ssa.CallCommon
	args []*Term
	fn   *Term
	ins  *ssa.Defer
}

type path struct {
	st     *State
	env    env
	defers []deferred
}

func (p *path) clone() *path {
	e := make(env, len(p.env)+8)
	for k, v := range p.env {
		e[k] = v
	}
	return &path{p.st.clone(), e, p.defers[:len(p.defers):len(p.defers)]}
}

type exit struct {
	p        *path
	kind     int // 0 return, 1 panic, 2 edge, 3 back edge
	rets     []*Term
	from, to *ssa.BasicBlock
	pos      token.Pos
}

type region struct {
	blocks    map[*ssa.BasicBlock]bool // nil: all
	header    *ssa.BasicBlock
	loop      *Loop
	unroll    bool // the head must decide by itself whether to go on
	undecided bool
	forced    *Term // what the head's step through a map gives
}

// Site is a place that could panic at run time.
type Site struct {
	key    string
	kind   string
	fn     *ssa.Function
	pos    token.Pos
	proven bool
	seen   int
	detail string
}

type Interp struct {
	w           *Prog
	pol         Policy
	objN        int
	evN         int
	steps       int
	stack       []*ssa.Function
	notes       map[string]bool
	least       func(st *State, list *Term) (int, bool) // how long a list is at least
	madeLen     map[*Term]*Term                         // the lengths of the slices that were made
	log         []Site                                  // what was seen at the places that could panic
	checkPanics bool
	cur         *region
	fnsSeen     map[*ssa.Function]bool
}

func NewInterp(w *Prog, pol Policy) *Interp {
	return &Interp{w: w, pol: pol, notes: map[string]bool{}, fnsSeen: map[*ssa.Function]bool{}}
}

func (in *Interp) note(f string, a ...any) { in.notes[fmt.Sprintf(f, a...)] = true }

func (in *Interp) fresh(typ types.Type) *Term {
	in.objN++
	return mk(OPtr, "", in.objN, typ)
}

func (in *Interp) freshRef(typ types.Type) *Term {
	in.objN++
	return mk(OMake, "", in.objN, typ)
}

// Run analyses fn on the given arguments.
func (in *Interp) Run(fn *ssa.Function, st *State, args ...*Term) (outs []Outcome, err error) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(Undecided); ok {
				err = fmt.Errorf("undecided: %s", u.why)
				return
			}
			panic(r)
		}
	}()
	return in.call(fn, nil, st, args), nil
}

// RunClosure analyses a function literal with the values it has captured.
func (in *Interp) RunClosure(fn *ssa.Function, free []*Term, st *State, args ...*Term) (outs []Outcome, err error) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(Undecided); ok {
				err = fmt.Errorf("undecided: %s", u.why)
				return
			}
			panic(r)
		}
	}()
	return in.call(fn, free, st, args), nil
}

// eval decides a condition in a state.
func (in *Interp) eval(st *State, c *Term) int {
	if r := st.facts.eval(c); r != 0 {
		return r
	}
	if in.pol.inv != nil {
		if c.op == ONot {
			return -in.eval(st, c.args[0])
		}
		return in.pol.inv(c)
	}
	return 0
}

func (in *Interp) call(fn *ssa.Function, free []*Term, st *State, args []*Term) []Outcome {
	if len(fn.Blocks) == 0 {
		panic(Undecided{"no body for " + fn.String()})
	}
	if len(in.stack) > 60 {
		panic(Undecided{"call depth in " + fn.String()})
	}
	in.fnsSeen[fn] = true
	in.stack = append(in.stack, fn)
	saved := in.cur
	defer func() { in.stack = in.stack[:len(in.stack)-1]; in.cur = saved }()
	fr := &frame{fn: fn, loops: in.w.loopsOf(fn), free: free}
	p := &path{st: st.clone(), env: env{}}
	for i, prm := range fn.Params {
		if i < len(args) {
			p.env[prm] = args[i]
		} else {
			p.env[prm] = sym(fn.Name()+"."+prm.Name(), prm.Type())
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(free) {
			p.env[fv] = free[i]
		} else {
			p.env[fv] = sym(fn.Name()+"^"+fv.Name(), fv.Type())
		}
	}
	var outs []Outcome
	for _, e := range in.enter(fr, &region{}, nil, fn.Blocks[0], p) {
		switch e.kind {
		case 0:
			outs = append(outs, Outcome{st: e.p.st, rets: e.rets, pos: e.pos})
		case 1:
			outs = append(outs, Outcome{st: e.p.st, panic: true, pos: e.pos})
		default:
			panic(Undecided{"stray edge in " + fn.String()})
		}
	}
	if len(outs) > 60000 {
		panic(Undecided{"too many partitions in " + fn.String()})
	}
	return outs
}

// enter goes from block from to block to.
func (in *Interp) enter(fr *frame, reg *region, from, to *ssa.BasicBlock, p *path) []exit {
	if to == reg.header {
		return []exit{{p: p, kind: 3, from: from, to: to}}
	}
	if reg.blocks != nil && !reg.blocks[to] {
		return []exit{{p: p, kind: 2, from: from, to: to}}
	}
	if nl := fr.loops[to]; nl != nil {
		return in.loop(fr, reg, nl, from, p)
	}
	in.phis(fr, from, to, p)
	return in.exec(fr, reg, to, numPhis(to), p)
}

func numPhis(b *ssa.BasicBlock) int {
	n := 0
	for _, i := range b.Instrs {
		if _, ok := i.(*ssa.Phi); !ok {
			break
		}
		n++
	}
	return n
}

func predIndex(b, from *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == from {
			return i
		}
	}
	return -1
}

func (in *Interp) phis(fr *frame, from, to *ssa.BasicBlock, p *path) {
	n := numPhis(to)
	if n == 0 {
		return
	}
	k := predIndex(to, from)
	vals := make([]*Term, n)
	for i := 0; i < n; i++ {
		vals[i] = in.value(fr, p, to.Instrs[i].(*ssa.Phi).Edges[k])
	}
	for i := 0; i < n; i++ {
		p.env[to.Instrs[i].(*ssa.Phi)] = vals[i]
	}
}

func (in *Interp) value(fr *frame, p *path, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		return constTerm(v)
	case *ssa.Global:
		return mk(OGlobal, v.Pkg.Pkg.Path()+"."+v.Name(), 0, v.Type())
	case *ssa.Function:
		t := mk(OFunc, v.String(), 0, v.Type())
		t.fn = v
		return t
	case *ssa.Builtin:
		return mk(OFunc, "builtin."+v.Name(), 0, nil)
	}
	if t, ok := p.env[v]; ok {
		return t
	}
	panic(Undecided{"value " + v.Name() + " not available in " + fr.fn.String()})
}

func constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		return zeroOf(c.Type())
	}
	switch c.Value.Kind() {
	case constant.String:
		return cStr(constant.StringVal(c.Value))
	case constant.Bool:
		return cBool(constant.BoolVal(c.Value))
	case constant.Int:
		n, ok := constant.Int64Val(c.Value)
		if ok {
			return cInt(n)
		}
	}
	return mk(OConst, "o:"+c.Value.ExactString(), 0, c.Type())
}

// exec runs the instructions of b from index i on.
func (in *Interp) exec(fr *frame, reg *region, b *ssa.BasicBlock, i int, p *path) []exit {
	for ; i < len(b.Instrs); i++ {
		in.steps++
		if in.steps > 12000000 {
			panic(Undecided{"analysis budget in " + fr.fn.String()})
		}
		switch ins := b.Instrs[i].(type) {
		case *ssa.If:
			c := in.value(fr, p, ins.Cond)
			if reg.header == b && reg.loop != nil {
				in.loopCond(reg, c)
			}
			r := in.eval(p.st, c)
			if reg.header == b && reg.unroll && r == 0 {
				reg.undecided = true
			}
			if reg.undecided {
				return nil
			}
			var out []exit
			if r != -1 {
				q := p
				if r == 0 {
					q = p.clone()
					if !q.st.assume(c, true) {
						goto no
					}
				}
				if reg.header == b && reg.loop != nil && !in.assumeElem(q.st, reg.loop) {
					goto no
				}
				out = append(out, in.enter(fr, reg, b, b.Succs[0], q)...)
			}
		no:
			if r != 1 {
				if r == 0 && !p.st.assume(c, false) {
					return out
				}
				out = append(out, in.enter(fr, reg, b, b.Succs[1], p)...)
			}
			return out
		case *ssa.Jump:
			return in.enter(fr, reg, b, b.Succs[0], p)
		case *ssa.Return:
			rets := make([]*Term, len(ins.Results))
			for j, r := range ins.Results {
				rets[j] = in.value(fr, p, r)
			}
			return []exit{{p: p, kind: 0, rets: rets, pos: ins.Pos()}}
		case *ssa.Panic:
			p.st.event(&Ev{kind: "panic", args: []*Term{in.value(fr, p, ins.X)}, pos: ins.Pos(), fn: fr.fn})
			in.site("panic", fr.fn, ins.Pos(), false, "explicit panic")
			return []exit{{p: p, kind: 1, pos: ins.Pos()}}
		case *ssa.Call:
			rs := in.doCall(fr, p, &ins.Call, ins, ins.Type())
			return in.cont(fr, reg, b, i, rs, ins)
		case *ssa.RunDefers:
			if len(p.defers) == 0 {
				continue
			}
			ps := []*path{p}
			ds := p.defers
			for j := len(ds) - 1; j >= 0; j-- {
				var next []*path
				for _, q := range ps {
					q.defers = nil
					for _, r := range in.doCallT(fr, q, ds[j].call, ds[j].fn, ds[j].args, ds[j].ins, nil) {
						if r.panic {
							continue
						}
						next = append(next, r.p)
					}
				}
				ps = next
			}
			var out []exit
			for _, q := range ps {
				out = append(out, in.exec(fr, reg, b, i+1, q)...)
			}
			return out
		case *ssa.Lookup:
			if rs := in.tableLookup(fr, p, ins); rs != nil {
				return in.cont(fr, reg, b, i, rs, ins)
			}
			in.instr(fr, reg, p, b.Instrs[i])
		case *ssa.UnOp:
			if ins.Op == token.MUL {
				if rs := in.indexTable(fr, p, ins); rs != nil {
					return in.cont(fr, reg, b, i, rs, ins)
				}
			}
			in.instr(fr, reg, p, b.Instrs[i])
		case *ssa.BinOp:
			if rs := in.structEqual(fr, p, ins); rs != nil {
				return in.cont(fr, reg, b, i, rs, ins)
			}
			in.instr(fr, reg, p, b.Instrs[i])
		default:
			in.instr(fr, reg, p, b.Instrs[i])
		}
	}
	panic(Undecided{"fell off block in " + fr.fn.String()})
}

func (in *Interp) cont(fr *frame, reg *region, b *ssa.BasicBlock, i int, rs []callRes, v ssa.Value) []exit {
	var out []exit
	for _, r := range rs {
		if r.panic {
			out = append(out, exit{p: r.p, kind: 1, pos: v.Pos()})
			continue
		}
		if v != nil && r.val != nil {
			r.p.env[v] = r.val
		}
		out = append(out, in.exec(fr, reg, b, i+1, r.p)...)
	}
	return out
}

func (in *Interp) site(kind string, fn *ssa.Function, pos token.Pos, proven bool, detail string) {
	if !in.checkPanics {
		return
	}
	in.log = append(in.log, Site{kind: kind, fn: fn, pos: pos, proven: proven, detail: detail})
}

// siteKey names a place that could panic.
func siteKey(kind string, fn *ssa.Function, pos token.Pos) string {
	return kind + "@" + fn.String() + "@" + strconv.Itoa(int(pos))
}

// collect sums up what was seen at each place.
func (in *Interp) collect() map[string]*Site {
	out := map[string]*Site{}
	for _, o := range in.log {
		key := siteKey(o.kind, o.fn, o.pos)
		s := out[key]
		if s == nil {
			s = &Site{key: key, kind: o.kind, fn: o.fn, pos: o.pos, proven: true}
			out[key] = s
		}
		s.seen++
		if !o.proven {
			s.proven, s.detail = false, o.detail
		}
	}
	return out
}

// --- memory ---

func (in *Interp) rootOf(t *Term) (*Term, []*Term) {
	// chain of OFieldP/OIndexP down to a root pointer; steps outermost last
	var steps []*Term
	for {
		switch t.op {
		case OFieldP:
			steps = append([]*Term{t}, steps...)
			t = t.args[0]
			continue
		case OIndexP:
			base := t.args[0]
			if base.op == OPtr || base.op == OFieldP || (base.typ != nil && isArrayPtr(base.typ)) {
				steps = append([]*Term{t}, steps...)
				t = base
				continue
			}
		}
		return t, steps
	}
}

func isArrayPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	_, ok = p.Elem().Underlying().(*types.Array)
	return ok
}

func ptrElem(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

func (in *Interp) content(st *State, root *Term) *Term {
	if v, ok := st.mem[root]; ok {
		return v
	}
	switch root.op {
	case OAddr:
		return root.args[0]
	case OGlobal:
		if v, ok := in.w.tables().vals[root.s]; ok {
			return v
		}
	case OIndexP:
		// element of a slice value
		s := root.args[0]
		if s.op == OMake {
			return in.indexMake(st, s, root.args[1], ptrElem(root.typ))
		}
		return mkIndex(s, root.args[1], ptrElem(root.typ))
	}
	return mk(ODeref, "", 0, ptrElem(root.typ), root)
}

func (in *Interp) indexMake(st *State, s, idx *Term, et types.Type) *Term {
	c := st.mem[s]
	if c == nil && s.k < 0 {
		c = in.w.tables().mem[s]
	}
	if c == nil {
		return mkIndex(s, idx, et)
	}
	if c.op == OSeq {
		return mkIndex(c, idx, et)
	}
	for c.op == OMPut {
		if c.args[1] == idx {
			return c.args[2]
		}
		if mkEq(c.args[1], idx) != tFalse {
			return mk(OLookup, "", 0, et, c, idx)
		}
		c = c.args[0]
	}
	if c.op == OCall && c.s == "zeroSeq" && len(c.args) == 1 && et != nil {
		return zeroOf(et)
	}
	return mk(OLookup, "", 0, et, c, idx)
}

func (in *Interp) load(st *State, ptr *Term) *Term {
	root, steps := in.rootOf(ptr)
	v := in.content(st, root)
	for _, s := range steps {
		if s.op == OFieldP {
			v = mkField(v, s.s, ptrElem(s.typ))
		} else {
			v = in.readIdx(v, s.args[1], ptrElem(s.typ))
		}
	}
	return v
}

func (in *Interp) readIdx(v, idx *Term, et types.Type) *Term {
	if n, ok := idx.isInt(); ok {
		return mkField(v, strconv.FormatInt(n, 10), et)
	}
	if v.op == OZero && et != nil {
		return zeroOf(et)
	}
	return mk(OIndex, "", 0, et, v, idx)
}

func (in *Interp) store(fr *frame, st *State, ptr, val *Term, pos token.Pos) {
	root, steps := in.rootOf(ptr)
	cur := in.content(st, root)
	if in.pol.cells && root.op == OIndexP && in.storeCell(st, root, in.update(cur, steps, val)) {
		return
	}
	st.mem[root] = in.update(cur, steps, val)
	if root.op == OIndexP && root.args[0].op == OMake {
		s := root.args[0]
		c := st.mem[s]
		st.mem[s] = mk(OMPut, "", 0, nil, c, root.args[1], st.mem[root])
		delete(st.mem, root)
	}
	if root.op != OPtr && !(root.op == OIndexP && root.args[0].op == OMake) {
		st.event(&Ev{kind: "store", name: locName(ptr), args: []*Term{ptr, in.snap(st, val, 0)}, raw: []*Term{ptr, val}, pos: pos, fn: fr.fn})
	}
}

// storeCell assigns to an element of a slice with known elements, which local objects hold.
func (in *Interp) storeCell(st *State, root, val *Term) bool {
	s := root.args[0]
	n, ok := root.args[1].isInt()
	if s.op != OSeq || !ok || n < 0 || int(n) >= len(s.args) {
		return false
	}
	parts := append([]*Term{}, s.args...)
	for _, p := range parts[:n+1] {
		if p.op != OOne {
			return false
		}
	}
	parts[n] = mkOne(val)
	t := mkSeq(parts...)
	var roots []*Term
	for r, v := range st.mem {
		if contains(v, s) {
			roots = append(roots, r)
		}
	}
	for _, r := range roots {
		st.mem[r] = subst(st.mem[r], func(x *Term) *Term {
			if x == s {
				return t
			}
			return nil
		}, map[*Term]*Term{})
	}
	return len(roots) > 0
}

func (in *Interp) update(cur *Term, steps []*Term, val *Term) *Term {
	if len(steps) == 0 {
		return val
	}
	s := steps[0]
	if s.op == OFieldP {
		return mkWith(cur, s.s, in.update(mkField(cur, s.s, ptrElem(s.typ)), steps[1:], val))
	}
	if n, ok := s.args[1].isInt(); ok {
		f := strconv.FormatInt(n, 10)
		return mkWith(cur, f, in.update(mkField(cur, f, ptrElem(s.typ)), steps[1:], val))
	}
	return mk(OMPut, "", 0, nil, cur, s.args[1], in.update(in.readIdx(cur, s.args[1], ptrElem(s.typ)), steps[1:], val))
}

// locName names a location by the type and field it belongs to.
func locName(ptr *Term) string {
	switch ptr.op {
	case OFieldP:
		return shortType(ptrElem(ptr.args[0].typ)) + "." + ptr.s
	case OIndexP:
		return "element of " + shortType(ptr.args[0].typ)
	case OGlobal:
		return "variable " + ptr.s
	}
	return "*" + shortType(ptrElem(ptr.typ))
}

func (in *Interp) mapContent(st *State, ref *Term) *Term {
	if v, ok := st.mem[ref]; ok {
		return v
	}
	if ref.op == ONil {
		return tNil
	}
	if ref.op == OCopy {
		return in.mapContent(st, ref.args[0])
	}
	if ref.op == OMake && ref.k < 0 {
		if v, ok := in.w.tables().mem[ref]; ok {
			return v
		}
	}
	return mk(OC0, "", 0, ref.typ, ref)
}

// val resolves references to fresh slices into their contents.
func (in *Interp) val(st *State, t *Term) *Term {
	if t.op == OMake {
		if c, ok := st.mem[t]; ok && c.op == OSeq {
			return c
		}
		if c, ok := st.mem[t]; ok && isSliceT(t.typ) {
			// all indices constant?
			n := in.lenOf(st, t)
			if k, ok := n.isInt(); ok && k <= 32 {
				var parts []*Term
				et := sliceElem(t.typ)
				for i := int64(0); i < k; i++ {
					parts = append(parts, mkOne(in.indexMake(st, t, cInt(i), et)))
				}
				return mkSeq(parts...)
			}
			_ = c
		}
	}
	return t
}

func isSliceT(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

func sliceElem(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return sliceElem(u.Elem())
	}
	return nil
}

func (in *Interp) lenOf(st *State, t *Term) *Term {
	if in.pol.shapes && (t.op == OMPut || t.op == OMDel) {
		if ks, ok := in.shapeKeys(st, t); ok {
			return cInt(int64(len(ks)))
		}
	}
	if t.op == OMake {
		c := st.mem[t]
		for c != nil && (c.op == OMPut) && isSliceT(t.typ) {
			c = c.args[0]
		}
		if c != nil && c.op == OCall && c.s == "zeroSeq" {
			return c.args[0]
		}
		if c != nil {
			if c.op == OLV && isSliceT(t.typ) {
				return mkLen(t)
			}
			return mkLen(c)
		}
	}
	return mkLen(t)
}

// snap makes a value self-contained: pointers to fresh objects become the objects' contents.
func (in *Interp) snap(st *State, t *Term, d int) *Term {
	if d > 6 {
		return t
	}
	return in.snapM(st, t, d, map[*Term]*Term{})
}

func (in *Interp) snapM(st *State, t *Term, d int, memo map[*Term]*Term) *Term {
	return subst(t, func(x *Term) *Term {
		switch x.op {
		case OPtr:
			if c, ok := st.mem[x]; ok && d < 6 {
				r := mk(OAddr, "", 0, x.typ, in.snapM(st, c, d+1, map[*Term]*Term{}))
				return r
			}
		case OMake:
			if c, ok := st.mem[x]; ok && d < 6 {
				v := in.val(st, x)
				if v != x {
					return in.snapM(st, v, d+1, map[*Term]*Term{})
				}
				return in.snapM(st, c, d+1, map[*Term]*Term{})
			}
		case OFieldP, OIndexP:
			root, _ := in.rootOf(x)
			if root.op == OPtr {
				return mk(OAddr, "", 0, x.typ, in.snapM(st, in.load(st, x), d+1, map[*Term]*Term{}))
			}
		}
		return nil
	}, memo)
}

// --- instructions ---

func (in *Interp) instr(fr *frame, reg *region, p *path, ins ssa.Instruction) {
	st := p.st
	val := func(v ssa.Value) *Term { return in.value(fr, p, v) }
	switch x := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		o := in.fresh(x.Type())
		st.mem[o] = zeroOf(ptrElem(x.Type()))
		p.env[x] = o
	case *ssa.BinOp:
		p.env[x] = in.binop(st, x, val(x.X), val(x.Y))
	case *ssa.UnOp:
		a := val(x.X)
		switch x.Op {
		case token.MUL:
			in.nilSite(fr, st, a, x)
			p.env[x] = in.load(st, a)
		case token.NOT:
			p.env[x] = mkNot(a)
		case token.SUB:
			p.env[x] = sub(cInt(0), a)
		case token.ARROW:
			if a.op == OCall && a.s == "keys" && x.CommaOk && reg.loop != nil {
				// the elements of a set that is iterated over
				L := reg.loop
				L.coll, L.isMap = a.args[0], true
				et := x.Type().(*types.Tuple).At(0).Type()
				p.env[x] = mk(OTuple, "", 0, nil, mkKey(L.id, L.coll, et), mk(OMore, "", L.id, types.Typ[types.Bool], L.coll))
				break
			}
			if a.op == OMake && !x.CommaOk {
				// a channel of this function that is not handed on: nothing is ever received
				st.event(&Ev{kind: "block", name: "block", pos: x.Pos(), fn: fr.fn, args: []*Term{a}})
			}
			in.evN++
			r := mk(OCall, "recv", in.evN, x.Type(), a)
			p.env[x] = r
		default:
			p.env[x] = mk(OBin, x.Op.String(), 0, x.Type(), a)
		}
	case *ssa.ChangeInterface:
		p.env[x] = val(x.X)
	case *ssa.ChangeType:
		p.env[x] = val(x.X)
	case *ssa.Convert:
		p.env[x] = in.convert(val(x.X), x.X.Type(), x.Type())
	case *ssa.MultiConvert:
		p.env[x] = in.convert(val(x.X), x.X.Type(), x.Type())
	case *ssa.SliceToArrayPointer:
		p.env[x] = mk(OConv, "", 0, x.Type(), val(x.X))
	case *ssa.Extract:
		t := val(x.Tuple)
		p.env[x] = mkExtract(t, x.Index, x.Type())
	case *ssa.Field:
		s := structOf(x.X.Type())
		p.env[x] = mkField(val(x.X), s.Field(x.Field).Name(), x.Type())
	case *ssa.FieldAddr:
		a := val(x.X)
		in.nilSite(fr, st, a, x)
		s := structOf(x.X.Type())
		p.env[x] = mk(OFieldP, s.Field(x.Field).Name(), 0, x.Type(), a)
	case *ssa.Index:
		a, i := val(x.X), val(x.Index)
		in.indexSite(fr, st, a, i, x.X.Type(), x)
		if isArrayT(x.X.Type()) {
			p.env[x] = in.readIdx(a, i, x.Type())
		} else {
			p.env[x] = mkIndex(a, i, x.Type())
		}
	case *ssa.IndexAddr:
		a, i := val(x.X), val(x.Index)
		in.indexSite(fr, st, a, i, x.X.Type(), x)
		if a.op != OMake {
			a = strip(a)
		}
		p.env[x] = mk(OIndexP, "", 0, x.Type(), a, i)
		if isSliceT(x.X.Type()) && a.op == OMake {
			if v := in.val(st, a); v != a {
				p.env[x] = mk(OIndexP, "", 0, x.Type(), v, i)
				if _, ok := i.isInt(); ok {
					p.env[x] = mk(OIndexP, "", 0, x.Type(), a, i)
				}
			}
		}
		if L, ok := iterIndex(a, i); ok {
			in.noteColl(L, a)
		}
	case *ssa.Lookup:
		a, k := val(x.X), val(x.Index)
		if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
			in.indexSite(fr, st, a, k, x.X.Type(), x)
			p.env[x] = mkIndex(a, k, x.Type())
			return
		}
		c := in.mapContent(st, a)
		vt := x.X.Type().Underlying().(*types.Map).Elem()
		v := in.lookup(st, c, k, vt)
		if x.CommaOk {
			p.env[x] = mk(OTuple, "", 0, nil, v, mkLookupOk(c, k))
		} else {
			p.env[x] = v
		}
	case *ssa.MakeChan:
		p.env[x] = in.freshRef(x.Type())
	case *ssa.MakeClosure:
		f := x.Fn.(*ssa.Function)
		args := make([]*Term, len(x.Bindings))
		for i, b := range x.Bindings {
			args[i] = val(b)
		}
		t := mk(OClosure, f.String(), 0, x.Type(), args...)
		t.fn = f
		p.env[x] = t
	case *ssa.MakeInterface:
		p.env[x] = in.w.mkIface(val(x.X), x.X.Type(), x.Type())
	case *ssa.MakeMap:
		o := in.freshRef(x.Type())
		st.mem[o] = tNil
		p.env[x] = o
	case *ssa.MakeSlice:
		n := val(x.Len)
		if k, ok := n.isInt(); ok && k == 0 {
			if sz := val(x.Cap); siteKind(x) != "" {
				in.site("makeslice", fr.fn, x.Pos(), sz.op == OLen || sz.op == OConst || in.eval(st, mkLe0(linOf(sz).neg())) == 1, "room of make may be negative")
			}
			p.env[x] = tEmptySeq
			return
		}
		o := in.freshRef(x.Type())
		st.mem[o] = mk(OCall, "zeroSeq", 0, nil, n)
		p.env[x] = o
		if in.madeLen == nil {
			in.madeLen = map[*Term]*Term{}
		}
		in.madeLen[o] = n
		in.site("makeslice", fr.fn, x.Pos(), n.op == OLen || n.op == OConst || in.eval(st, mkLe0(linOf(n).neg())) == 1, "length of make may be negative")
	case *ssa.MapUpdate:
		m := val(x.Map)
		k, v := val(x.Key), val(x.Value)
		in.site("nilmap", fr.fn, x.Pos(), in.nonNilMap(st, m), "write to a map that may be nil: "+m.String())
		in.mapPut(fr, st, m, k, v, x.Pos())
	case *ssa.Range:
		a := val(x.X)
		if ks, ok := in.shapeKeys(st, in.mapContent(st, a)); ok {
			at := in.fresh(types.NewPointer(types.Typ[types.Int]))
			st.mem[at] = cInt(0)
			p.env[x] = mk(OTuple, "rangekeys", 0, x.X.Type(), append([]*Term{in.mapContent(st, a), at}, ks...)...)
		} else if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			p.env[x] = mk(OTuple, "range", 0, x.X.Type(), in.mapContent(st, a), a)
		} else {
			p.env[x] = mk(OTuple, "rangestr", 0, x.X.Type(), a)
		}
	case *ssa.Next:
		in.next(fr, reg, p, x)
	case *ssa.Slice:
		in.slice(fr, p, x)
	case *ssa.Store:
		a := val(x.Addr)
		in.nilSite(fr, st, a, x)
		in.store(fr, st, a, val(x.Val), x.Pos())
	case *ssa.TypeAssert:
		in.typeAssert(fr, p, x)
	case *ssa.Defer:
		d := deferred{call: &x.Call, ins: x}
		if !x.Call.IsInvoke() {
			d.fn = val(x.Call.Value)
		} else {
			d.fn = val(x.Call.Value)
		}
		for _, a := range x.Call.Args {
			d.args = append(d.args, val(a))
		}
		p.defers = append(p.defers, d)
	case *ssa.Go:
		in.note("go statement in %s", fr.fn)
		st.event(&Ev{kind: "go", name: "go", pos: x.Pos(), fn: fr.fn})
	case *ssa.Send:
		st.event(&Ev{kind: "send", name: "send", pos: x.Pos(), fn: fr.fn})
	case *ssa.Select:
		if x.Blocking && len(x.States) == 0 {
			st.event(&Ev{kind: "block", name: "block", pos: x.Pos(), fn: fr.fn})
		}
		p.env[x] = top(x.Type(), "select")
	default:
		panic(Undecided{fmt.Sprintf("instruction %T in %s", ins, fr.fn)})
	}
}

func isArrayT(t types.Type) bool {
	_, ok := t.Underlying().(*types.Array)
	return ok
}

func mkExtract(t *Term, i int, typ types.Type) *Term {
	if t.op == OTuple && i < len(t.args) {
		return t.args[i]
	}
	return mk(OExtract, "", i, typ, t)
}

func (in *Interp) lookup(st *State, c, k *Term, vt types.Type) *Term {
	// facts may separate or identify keys
	for c.op == OMPut || c.op == OMDel {
		e := in.eval(st, mkEq(c.args[1], k))
		if e == 1 {
			if c.op == OMPut {
				return c.args[2]
			}
			return zeroOf(vt)
		}
		if e == -1 {
			c = c.args[0]
			continue
		}
		break
	}
	return mkLookup(c, k, vt)
}

func (in *Interp) mapPut(fr *frame, st *State, m, k, v *Term, pos token.Pos) {
	st.mem[m] = mk(OMPut, "", 0, nil, in.mapContent(st, m), k, v)
	st.event(&Ev{kind: "mput", name: refName(m), args: []*Term{in.snap(st, m0(m), 0), in.snap(st, k, 0), in.snap(st, v, 0)}, raw: []*Term{m, k, v}, pos: pos, fn: fr.fn})
}

func (in *Interp) mapDel(fr *frame, st *State, m, k *Term, pos token.Pos) {
	st.mem[m] = mk(OMDel, "", 0, nil, in.mapContent(st, m), k)
	st.event(&Ev{kind: "mdel", name: refName(m), args: []*Term{m0(m), in.snap(st, k, 0)}, raw: []*Term{m, k}, pos: pos, fn: fr.fn})
}

// m0 keeps references from being replaced by their contents in events.
func m0(m *Term) *Term {
	if m.op == OMake {
		return sym(fmt.Sprintf("new%d", m.k), m.typ)
	}
	return m
}

// refName names the map, set or slice a reference denotes: Type.field, or "fresh".
func refName(m *Term) string {
	switch m.op {
	case OMake, OPtr:
		return "fresh"
	case OField:
		return shortType(m.args[0].typ) + "." + m.s
	case OSym:
		return m.s
	case ODeref:
		return m.args[0].String()
	}
	return m.String()
}

func (in *Interp) nonNilMap(st *State, m *Term) bool {
	if m.op == OMake || m.op == OCopy {
		return true
	}
	return in.eval(st, mkEq(m, tNil)) == -1
}

func (in *Interp) nilSite(fr *frame, st *State, a *Term, ins ssa.Instruction) {
	if !in.checkPanics {
		return
	}
	ok := false
	switch a.op {
	case OPtr, OFieldP, OIndexP, OGlobal, OAddr, OMake:
		ok = true
	default:
		ok = in.eval(st, mkEq(a, tNil)) == -1
	}
	pos := ins.Pos()
	in.site("nil", fr.fn, pos, ok, "use of "+a.String()+" which may be nil")
}

func (in *Interp) indexSite(fr *frame, st *State, a, i *Term, t types.Type, ins ssa.Instruction) {
	if !in.checkPanics {
		return
	}
	if isArrayT(t) || isArrayPtr(t) {
		if _, ok := i.isInt(); ok {
			return
		}
	}
	n := in.lenOf(st, a)
	if m := in.madeLen[a]; m != nil {
		n = m
	}
	st = in.withAxioms(st, i, n)
	ok := in.below(st, cInt(0), i) && in.below(st, addc(i, 1), n)
	in.site("index", fr.fn, ins.Pos(), ok, "index "+i.String()+" of "+a.String()+" may be out of range")
}

// below reports that a <= b follows from what is known, adding up at most six known inequalities.
func (in *Interp) below(st *State, a, b *Term) bool {
	goal := mkLe0(linOf(sub(a, b)))
	switch in.eval(st, goal) {
	case 1:
		return true
	case -1:
		return false
	}
	ls := st.facts.lins()
	bad := func(d lin) (*Term, int64) { // a variable that keeps d from being at least 0 for sure
		for v, c := range d.m {
			if c < 0 || c > 0 && v.op != OLen && v.op != ON {
				return v, c
			}
		}
		return nil, 0
	}
	var from func(d lin, depth int) bool
	from = func(d lin, depth int) bool {
		v, c := bad(d)
		if v == nil && d.c >= 0 {
			return true
		}
		if v == nil || depth == 0 {
			return false
		}
		for _, l := range ls {
			if k := l.m[v]; c < 0 && k > 0 || c > 0 && k < 0 {
				if from(linAdd(d, l, 1), depth-1) {
					return true
				}
			}
		}
		return false
	}
	return from(linOf(sub(a, b)).neg(), 6)
}

// keepsTables: nothing in these blocks can add to a table.
func keepsTables(blocks map[*ssa.BasicBlock]bool) bool {
	for b := range blocks {
		for _, ins := range b.Instrs {
			switch i := ins.(type) {
			case *ssa.MapUpdate, *ssa.Defer, *ssa.Go:
				return false
			case *ssa.Call:
				if _, ok := i.Call.Value.(*ssa.Builtin); !ok {
					return false
				}
			}
		}
	}
	return len(blocks) > 0
}

// withAxioms adds what library functions guarantee about the lengths and places they give.
func (in *Interp) withAxioms(st *State, ts ...*Term) *State {
	out := st.clone()
	le := func(a, b *Term) { out.assume(mkLe0(linOf(sub(a, b))), true) }
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		switch {
		case t.op == OLen && t.args[0].op == OCall && len(t.args[0].args) > 0:
			c := t.args[0]
			switch c.s {
			case "keys":
				le(t, mkLen(c.args[0]))
				le(mkLen(c.args[0]), t)
			case "path/filepath.Ext", "path.Ext", "strings.TrimSpace", "strings.Trim", "strings.TrimLeft", "strings.TrimRight", "strings.TrimPrefix", "strings.TrimSuffix", "strings.TrimFunc":
				le(t, mkLen(c.args[0]))
			}
		case t.op == OLen && in.least != nil && t.args[0].op == OField:
			if k, ok := in.least(st, t.args[0]); ok {
				le(cInt(int64(k)), t)
			}
		case t.op == ON && loops[t.k] != nil && loops[t.k].steady:
			le(addc(t, 1), mkLen(loops[t.k].coll))
		case t.op == OCall && len(t.args) > 0:
			switch t.s {
			case "strings.Index", "strings.LastIndex":
				le(cInt(-1), t)
				le(add(t, mkLen(t.args[1])), mkLen(t.args[0]))
			case "strings.IndexByte", "strings.IndexRune", "strings.IndexAny", "strings.LastIndexByte", "strings.LastIndexAny", "strings.IndexFunc", "strings.LastIndexFunc", "slices.Index", "slices.IndexFunc":
				le(cInt(-1), t)
				le(addc(t, 1), mkLen(t.args[0]))
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, t := range ts {
		walk(t)
	}
	for _, l := range st.facts.lins() {
		for v := range l.m {
			walk(v)
		}
	}
	// what is known to begin or end with a text is not shorter
	st.facts.each(func(a *Term, v bool) bool {
		if v && a.op == OEq {
			for _, q := range [][2]*Term{{a.args[0], a.args[1]}, {a.args[1], a.args[0]}} {
				if q[0].op == OCall && (q[0].s == "path/filepath.Ext" || q[0].s == "path.Ext") {
					le(mkLen(q[1]), mkLen(q[0].args[0]))
				}
			}
		}
		if v && a.op == OCall && (a.s == "strings.HasPrefix" || a.s == "strings.HasSuffix" || a.s == "strings.Contains") && len(a.args) >= 2 {
			le(mkLen(a.args[1]), mkLen(a.args[0]))
		}
		return true
	})
	return out
}

func (in *Interp) binop(st *State, x *ssa.BinOp, a, b *Term) *Term {
	t := x.X.Type().Underlying()
	bt, _ := t.(*types.Basic)
	isInt := bt != nil && bt.Info()&types.IsInteger != 0
	isStr := bt != nil && bt.Info()&types.IsString != 0
	switch x.Op {
	case token.EQL:
		return in.mkEqS(st, a, b)
	case token.NEQ:
		return mkNot(in.mkEqS(st, a, b))
	case token.ADD:
		if isStr {
			return mkConcat(a, b)
		}
		if isInt {
			return add(a, b)
		}
	case token.SUB:
		if isInt {
			return sub(a, b)
		}
	case token.MUL:
		if isInt {
			if n, ok := a.isInt(); ok {
				return linAdd(lin{m: map[*Term]int64{}}, linOf(b), n).term()
			}
			if n, ok := b.isInt(); ok {
				return linAdd(lin{m: map[*Term]int64{}}, linOf(a), n).term()
			}
		}
	case token.QUO, token.REM:
		if isInt {
			n, ok := b.isInt()
			in.site("div", x.Parent(), x.Pos(), ok && n != 0, "division by "+b.String())
		}
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if isInt {
			switch x.Op {
			case token.LSS:
				return mkLe0(linOf(addc(sub(a, b), 1)))
			case token.LEQ:
				return mkLe0(linOf(sub(a, b)))
			case token.GTR:
				return mkLe0(linOf(addc(sub(b, a), 1)))
			default:
				return mkLe0(linOf(sub(b, a)))
			}
		}
		lt := func(p, q *Term) *Term { return mk(OBin, "<", 0, types.Typ[types.Bool], p, q) }
		switch x.Op {
		case token.LSS:
			return lt(a, b)
		case token.GTR:
			return lt(b, a)
		case token.LEQ:
			return mkNot(lt(b, a))
		default:
			return mkNot(lt(a, b))
		}
	}
	return mk(OBin, x.Op.String(), 0, x.Type(), a, b)
}

// mkEqS compares in a state: fresh slices with nil, interfaces with concrete values.
func (in *Interp) mkEqS(st *State, a, b *Term) *Term {
	if a.op == OIface && b.op == OIface {
		if a.typ != nil && b.typ != nil && !types.Identical(a.typ, b.typ) {
			return tFalse
		}
		return mkEq(a.args[0], b.args[0])
	}
	return mkEq(a, b)
}

func (in *Interp) convert(a *Term, from, to types.Type) *Term {
	if in.pol.conv != nil {
		if x := in.pol.conv(a, to); x != nil {
			return x
		}
	}
	fu, tu := from.Underlying(), to.Underlying()
	fb, fok := fu.(*types.Basic)
	tb, tok := tu.(*types.Basic)
	if fok && tok {
		switch {
		case fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
			return a
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
			return a
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0:
			if n, ok := a.isInt(); ok {
				return cStr(string(rune(n)))
			}
		}
	}
	// []byte(s), string(b): same text
	if fok && fb.Info()&types.IsString != 0 && isByteSlice(to) {
		return mk(OConv, "bytes", 0, to, a)
	}
	if tok && tb.Info()&types.IsString != 0 && isByteSlice(from) {
		if a.op == OConv && a.s == "bytes" {
			return a.args[0]
		}
		return mk(OConv, "string", 0, to, a)
	}
	return mk(OConv, "", 0, to, a)
}

func isByteSlice(t types.Type) bool {
	e := sliceElem(t)
	if e == nil {
		return false
	}
	b, ok := e.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Byte
}

func (in *Interp) next(fr *frame, reg *region, p *path, x *ssa.Next) {
	if reg.forced != nil && x.Block() == reg.header {
		p.env[x] = reg.forced
		return
	}
	it := in.value(fr, p, x.Iter)
	if it.op == OTuple && it.s == "rangekeys" {
		n, ok := p.st.mem[it.args[1]].isInt()
		if !ok {
			panic(Undecided{"a map of known shape is gone through in a loop that is not followed in " + fr.fn.String()})
		}
		mt := it.typ.Underlying().(*types.Map)
		ks := it.args[2:]
		if int(n) >= len(ks) {
			p.env[x] = mk(OTuple, "", 0, nil, tFalse, zeroOf(mt.Key()), zeroOf(mt.Elem()))
			return
		}
		p.st.mem[it.args[1]] = cInt(n + 1)
		p.env[x] = mk(OTuple, "", 0, nil, tTrue, ks[n], in.lookup(p.st, it.args[0], ks[n], mt.Elem()))
		return
	}
	if it.op == OTuple && it.s == "range" && (it.args[0].op == ONil || reg.loop == nil) {
		mt := it.typ.Underlying().(*types.Map)
		more := tFalse
		if it.args[0].op != ONil {
			more = mk(OMore, "", 0, types.Typ[types.Bool], it.args[0])
		}
		p.env[x] = mk(OTuple, "", 0, nil, more, top(mt.Key(), "key"), top(mt.Elem(), "val"))
		return
	}
	if it.op == OTuple && it.s == "range" {
		L := reg.loop
		content := it.args[0]
		L.coll = content
		L.isMap = true
		L.steady = in.checkPanics && keepsTables(reg.blocks)
		mt := it.typ.Underlying().(*types.Map)
		key := mkKey(L.id, content, mt.Key())
		var v *Term
		if content.op == OFold || content.op == OTop {
			v = mk(OLookup, "", 0, mt.Elem(), content, key)
		} else {
			v = mkLookup(content, key, mt.Elem())
		}
		more := mk(OMore, "", L.id, types.Typ[types.Bool], content)
		p.env[x] = mk(OTuple, "", 0, nil, more, key, v)
		return
	}
	L := 0
	if reg.loop != nil {
		L = reg.loop.id
		reg.loop.coll = it.args[0]
	}
	more := mk(OMore, "", L, types.Typ[types.Bool], it.args[0])
	p.env[x] = mk(OTuple, "", 0, nil, more, mk(ON, "", L, types.Typ[types.Int]), mk(OElem, "", L, types.Typ[types.Rune], it.args[0]))
}

func (in *Interp) slice(fr *frame, p *path, x *ssa.Slice) {
	st := p.st
	a := in.value(fr, p, x.X)
	if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		arr := pt.Elem().Underlying().(*types.Array)
		c := in.load(st, a)
		if x.Low == nil && x.High == nil {
			if arr.Len() <= 64 {
				var parts []*Term
				for i := int64(0); i < arr.Len(); i++ {
					parts = append(parts, mkOne(mkField(c, strconv.FormatInt(i, 10), arr.Elem())))
				}
				p.env[x] = mkSeq(parts...)
				if len(parts) == 0 {
					p.env[x] = tEmptySeq
				}
				return
			}
		} else if x.Low == nil {
			// make([]T, n, cap) with constant capacity
			n := in.value(fr, p, x.High)
			if k, ok := n.isInt(); ok && k == 0 {
				p.env[x] = tEmptySeq
				return
			}
			o := in.freshRef(x.Type())
			st.mem[o] = mk(OCall, "zeroSeq", 0, nil, n)
			p.env[x] = o
			return
		}
		p.env[x] = top(x.Type(), "arrayslice")
		return
	}
	a = in.val(st, a)
	n := in.lenOf(st, a)
	lo, hi := cInt(0), n
	clip := func() {
		if x.Max != nil && x.High != nil && in.value(fr, p, x.Max) == in.value(fr, p, x.High) && p.env[x].op != OSeq && p.env[x].op != ONil {
			p.env[x] = mk(OClip, "", 0, x.Type(), p.env[x]) // no room is left
		}
	}
	defer clip()
	if x.Low != nil {
		lo = in.value(fr, p, x.Low)
	}
	if x.High != nil {
		hi = in.value(fr, p, x.High)
	}
	if in.checkPanics {
		m := n
		if k := in.madeLen[a]; k != nil {
			m = k
		}
		st := in.withAxioms(st, lo, hi, m)
		ok := in.below(st, cInt(0), lo) && in.below(st, lo, hi) && in.below(st, hi, m)
		in.site("slice", fr.fn, x.Pos(), ok, fmt.Sprintf("bounds [%v:%v] of %v", lo, hi, a))
	}
	if a.op == OMake {
		p.env[x] = mk(OSlice, "", 0, x.Type(), a, lo, hi)
		if lo == cInt(0) && hi == n {
			p.env[x] = a
		}
		return
	}
	if a.typ == nil && a.op == OConcat {
		a.typ = types.Typ[types.String]
	}
	r := mkSlice(a, lo, hi)
	if in.eval(st, mkEq(lo, cInt(0))) == 1 && in.eval(st, mkEq(hi, n)) == 1 {
		r = a
	}
	p.env[x] = r
}

func (in *Interp) typeAssert(fr *frame, p *path, x *ssa.TypeAssert) {
	a := in.value(fr, p, x.X)
	var v, ok *Term
	_, toIface := x.AssertedType.Underlying().(*types.Interface)
	switch {
	case a.op == ONil:
		v, ok = zeroOf(x.AssertedType), tFalse
	case a.op == OIface && !toIface:
		if types.Identical(a.typ, x.AssertedType) {
			v, ok = a.args[0], tTrue
		} else {
			v, ok = zeroOf(x.AssertedType), tFalse
		}
	case a.op == OIface && toIface:
		v, ok = a, cBool(types.Implements(a.typ, x.AssertedType.Underlying().(*types.Interface)))
	case in.w.soleImpl(x.X.Type()) != nil && types.Identical(in.w.soleImpl(x.X.Type()), x.AssertedType):
		v, ok = a, mkNot(mkEq(a, tNil))
		if a.op == OCall || a.op == OExtract || a.op == OElem || a.op == OKey {
			ok = tTrue
		}
	case in.w.soleImpl(x.X.Type()) != nil && toIface:
		v, ok = a, tTrue
	default:
		v = mk(OConv, "assert", 0, x.AssertedType, a)
		ok = mk(OCall, "is:"+shortType(x.AssertedType), 0, types.Typ[types.Bool], a)
	}
	if x.CommaOk {
		p.env[x] = mk(OTuple, "", 0, nil, v, ok)
	} else {
		in.site("assert", fr.fn, x.Pos(), in.eval(p.st, ok) == 1, "type assertion of "+a.String())
		p.env[x] = v
	}
}

var _ = sort.Strings
var _ = strings.Join
