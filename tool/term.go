package main

// Terms: hash-consed symbolic values. A term is a normal form for "where a value comes from".
// The abstract interpreter (interp.go) maps SSA values to terms; two syntactically different
// computations of the same thing get the same term.

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

type Op uint8

const (
	OConst    Op = iota // s = kind-prefixed literal: "s:..." "i:..." "b:true" "o:.."
	ONil                // nil of any type
	OZero               // zero value of struct/array type (typ)
	OSym                // s = name: an unknown input
	OField              // s = field name; args[0] struct value
	OWith               // args[0] base, args[1..] values; s = comma separated fields
	OPtr                // pointer to fresh object; k = object id
	OFieldP             // pointer to field s of args[0] (pointer)
	OIndexP             // pointer to element args[1] of args[0]
	OGlobal             // pointer to package variable s
	ODeref              // initial content of symbolic pointer args[0]
	OC0                 // initial content of symbolic reference (map/set) args[0]
	OMPut               // map content update: args c,k,v
	OMDel               // map content delete: args c,k
	OLookup             // args content,key
	OLookupOk           // args content,key (bool)
	OCall               // s = name; args; last arg may be epoch
	OExtract            // k = index; args[0] tuple call
	OBin                // s = operator
	ONot                //
	OLin                // linear integer: s = "c;c1,c2.." args = vars
	OLe0                // bool: lin <= 0
	OEmpty              // bool: len(x)==0 / x==""
	OEq                 // bool
	OLen                //
	OIndex              // args seq/string, idx
	OSlice              // args seq, lo, hi
	OSeq                // slice value: args are parts
	OOne                // part: one element
	OEach               // part: k = loop id; s = contributing path numbers; args[i] = parts appended on path i
	OConcat             // string concat parts
	OJoin               // strings.Join(args[0], args[1])
	OEachS              // string part: per iteration of loop k: args[0] string
	OConv               // conversion, s=type
	OClosure            // fn, bindings
	OIface              // concrete value in interface; typ concrete type
	OTuple              //
	OLV                 // loop variable; k=loop id; s = phi/loc name
	ON                  // iteration counter of loop k
	OKey                // key of current map iteration in loop k
	OElem               // element of seq args[0] at the current iteration of loop k
	OMore               // loop k has a further iteration (bool); args[0] collection
	OFold               // loop-carried value: k loop; s name; args[0] init, rest update values
	OCopy               // fresh copy of a slice/map value
	OClip               // slices.Clip
	OEpoch              // state version
	OAddr               // snapshot of a pointer: address of value args[0] (fresh object)
	OMake               // fresh map/set/slice object reference; k = object id
	OFunc               // function value
	OTop                // unknown; k unique
)

var opNames = map[Op]string{}

type Term struct {
	id   int
	op   Op
	s    string
	k    int
	args []*Term
	typ  types.Type
	fn   any // *ssa.Function for OClosure/OFunc
}

type interner struct {
	m    map[string]*Term
	next int
}

var tt = &interner{m: map[string]*Term{}}

func mk(op Op, s string, k int, typ types.Type, args ...*Term) *Term {
	var b strings.Builder
	b.WriteByte(byte(op))
	b.WriteString(strconv.Itoa(k))
	b.WriteByte('|')
	b.WriteString(s)
	b.WriteByte('|')
	if (op == OZero || op == OIface || op == OConv || op == OSym || op == OPtr || op == OMake) && typ != nil {
		b.WriteString(types.TypeString(typ, nil))
		b.WriteByte('|')
	}
	for _, a := range args {
		b.WriteString(strconv.Itoa(a.id))
		b.WriteByte(',')
	}
	key := b.String()
	if t, ok := tt.m[key]; ok {
		return t
	}
	tt.next++
	t := &Term{id: tt.next, op: op, s: s, k: k, args: args, typ: typ}
	tt.m[key] = t
	return t
}

// --- constants ---

func cStr(s string) *Term { return mk(OConst, "s:"+s, 0, types.Typ[types.String]) }
func cInt(n int64) *Term  { return mk(OConst, "i:"+strconv.FormatInt(n, 10), 0, types.Typ[types.Int]) }
func cBool(b bool) *Term {
	return mk(OConst, "b:"+strconv.FormatBool(b), 0, types.Typ[types.Bool])
}

var tNil = mk(ONil, "", 0, nil)
var tTrue = cBool(true)
var tFalse = cBool(false)
var tEmptySeq = mk(OSeq, "", 0, nil)

func (t *Term) isStr() (string, bool) {
	if t.op == OConst && strings.HasPrefix(t.s, "s:") {
		return t.s[2:], true
	}
	return "", false
}
func (t *Term) isInt() (int64, bool) {
	if t.op == OConst && strings.HasPrefix(t.s, "i:") {
		n, err := strconv.ParseInt(t.s[2:], 10, 64)
		return n, err == nil
	}
	return 0, false
}
func (t *Term) isBool() (bool, bool) {
	if t == tTrue {
		return true, true
	}
	if t == tFalse {
		return false, true
	}
	return false, false
}

func sym(name string, typ types.Type) *Term { return mk(OSym, name, 0, typ) }

var topN int

func top(typ types.Type, why string) *Term {
	topN++
	return mk(OTop, why, topN, typ)
}

// zeroOf gives the zero value of a type.
func zeroOf(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return cStr("")
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsInteger != 0:
			return cInt(0)
		}
		return mk(OConst, "o:0", 0, t)
	case *types.Struct, *types.Array:
		return mk(OZero, "", 0, t)
	}
	return tNil
}

func structOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func fieldType(t types.Type, name string) types.Type {
	s := structOf(t)
	if s == nil {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return s.Field(i).Type()
		}
	}
	return nil
}

// --- struct values ---

func mkField(x *Term, name string, ft types.Type) *Term {
	switch x.op {
	case OWith:
		for i, f := range strings.Split(x.s, ",") {
			if f == name {
				return x.args[i+1]
			}
		}
		return mkField(x.args[0], name, ft)
	case OZero:
		if name == "$text" {
			return cStr("") // nothing was written yet
		}
		if t := fieldType(x.typ, name); t != nil {
			return zeroOf(t)
		}
		if ft != nil {
			return zeroOf(ft)
		}
	}
	return mk(OField, name, 0, ft, x)
}

func mkWith(x *Term, name string, v *Term) *Term {
	m := map[string]*Term{}
	base := x
	if x.op == OWith {
		base = x.args[0]
		for i, f := range strings.Split(x.s, ",") {
			m[f] = x.args[i+1]
		}
	}
	m[name] = v
	if mkField(base, name, v.typ) == v {
		delete(m, name)
	}
	if len(m) == 0 {
		return base
	}
	names := make([]string, 0, len(m))
	for n := range m {
		names = append(names, n)
	}
	sort.Strings(names)
	args := []*Term{base}
	for _, n := range names {
		args = append(args, m[n])
	}
	return mk(OWith, strings.Join(names, ","), 0, x.typ, args...)
}

// --- sequences and strings ---

func mkOne(x *Term) *Term { return mk(OOne, "", 0, nil, x) }

// seqParts gives the parts of a slice value.
func seqParts(x *Term) []*Term {
	switch x.op {
	case OSeq:
		return x.args
	case ONil:
		return nil
	}
	return []*Term{x}
}

func mkSeq(parts ...*Term) *Term {
	var out []*Term
	for i, p := range parts {
		if p.op == OOne && i > 0 && len(out) > 0 && out[len(out)-1].op == OSlice {
			// a prefix extended by the element of the current iteration
			sl := out[len(out)-1]
			if e, ok := soleElem(sl.args[0]); ok && sl.args[1] == cInt(0) && e == p.args[0] && sl.args[2].op == ON && sl.args[2].k == sl.args[0].args[0].k {
				if L := loops[sl.args[2].k]; L != nil && len(sl.args[0].args[0].args) == L.nPaths {
					out[len(out)-1] = mkSlice(sl.args[0], cInt(0), addc(sl.args[2], 1))
					continue
				}
			}
		}
		if p.op == OSeq {
			out = append(out, p.args...)
		} else if p.op == ONil {
			continue
		} else {
			out = append(out, p)
		}
	}
	if len(out) == 1 && out[0].op != OOne && out[0].op != OEach {
		return out[0]
	}
	return mk(OSeq, "", 0, nil, out...)
}

func mkConcat(parts ...*Term) *Term {
	var out []*Term
	for _, p := range parts {
		var ps []*Term
		if p.op == OConcat {
			ps = p.args
		} else {
			ps = []*Term{p}
		}
		for _, q := range ps {
			s, ok := q.isStr()
			if ok && s == "" {
				continue
			}
			if ok && len(out) > 0 {
				if prev, ok2 := out[len(out)-1].isStr(); ok2 {
					out[len(out)-1] = cStr(prev + s)
					continue
				}
			}
			out = append(out, q)
		}
	}
	if len(out) == 0 {
		return cStr("")
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk(OConcat, "", 0, types.Typ[types.String], out...)
}

func mkJoin(seq, sep *Term) *Term {
	parts := seqParts(seq)
	all := true
	for _, p := range parts {
		if p.op != OOne {
			all = false
		}
	}
	if all {
		var out []*Term
		for i, p := range parts {
			if i > 0 {
				out = append(out, sep)
			}
			out = append(out, p.args[0])
		}
		return mkConcat(out...)
	}
	return mk(OJoin, "", 0, types.Typ[types.String], seq, sep)
}

// --- linear integers ---

type lin struct {
	c int64
	m map[*Term]int64
}

func linOf(t *Term) lin {
	if n, ok := t.isInt(); ok {
		return lin{c: n, m: map[*Term]int64{}}
	}
	if t.op == OLin {
		ps := strings.Split(t.s, ";")
		c, _ := strconv.ParseInt(ps[0], 10, 64)
		l := lin{c: c, m: map[*Term]int64{}}
		for i, cs := range strings.Split(ps[1], ",") {
			v, _ := strconv.ParseInt(cs, 10, 64)
			l.m[t.args[i]] = v
		}
		return l
	}
	return lin{m: map[*Term]int64{t: 1}}
}

func (l lin) vars() []*Term {
	var vs []*Term
	for v, c := range l.m {
		if c != 0 {
			vs = append(vs, v)
		}
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].id < vs[j].id })
	return vs
}

func (l lin) term() *Term {
	vs := l.vars()
	if len(vs) == 0 {
		return cInt(l.c)
	}
	if len(vs) == 1 && l.c == 0 && l.m[vs[0]] == 1 {
		return vs[0]
	}
	var cs []string
	for _, v := range vs {
		cs = append(cs, strconv.FormatInt(l.m[v], 10))
	}
	return mk(OLin, strconv.FormatInt(l.c, 10)+";"+strings.Join(cs, ","), 0, types.Typ[types.Int], vs...)
}

func linAdd(a, b lin, k int64) lin {
	r := lin{c: a.c + k*b.c, m: map[*Term]int64{}}
	for v, c := range a.m {
		r.m[v] += c
	}
	for v, c := range b.m {
		r.m[v] += k * c
	}
	return r
}

func add(a, b *Term) *Term        { return linAdd(linOf(a), linOf(b), 1).term() }
func sub(a, b *Term) *Term        { return linAdd(linOf(a), linOf(b), -1).term() }
func addc(a *Term, n int64) *Term { return add(a, cInt(n)) }

func (l lin) neg() lin { return linAdd(lin{m: map[*Term]int64{}}, l, -1) }

// mkLe0 builds the condition l <= 0 in a canonical polarity.
// mkLess: a comes before b, both texts.
func mkLess(a, b *Term) *Term { return mk(OBin, "<", 0, types.Typ[types.Bool], a, b) }

func mkLe0(l lin) *Term {
	vs := l.vars()
	if len(vs) == 0 {
		return cBool(l.c <= 0)
	}
	if len(vs) == 1 && vs[0].op == OCall && vs[0].s == "compare" && l.c >= 0 && l.c <= 1 {
		p, q, n := vs[0].args[0], vs[0].args[1], l.m[vs[0]]
		switch {
		case n == 1 && l.c == 1:
			return mkLess(p, q)
		case n == 1:
			return mkNot(mkLess(q, p))
		case n == -1 && l.c == 1:
			return mkLess(q, p)
		case n == -1:
			return mkNot(mkLess(p, q))
		}
	}
	if len(vs) == 1 && (vs[0].op == OLen) {
		v := vs[0]
		c := l.m[v]
		// c*len + k <= 0
		if c > 0 {
			// len <= -k/c
			b := floorDiv(-l.c, c)
			if b < 0 {
				return tFalse
			}
			if b == 0 {
				return mkEmpty(v.args[0])
			}
		} else {
			// len >= k/(-c)
			b := ceilDiv(l.c, -c)
			if b <= 0 {
				return tTrue
			}
			if b == 1 {
				return mkNot(mkEmpty(v.args[0]))
			}
		}
	}
	if l.m[vs[0]] < 0 {
		n := l.neg()
		n.c++
		return mkNot(mk(OLe0, "", 0, types.Typ[types.Bool], n.term()))
	}
	return mk(OLe0, "", 0, types.Typ[types.Bool], l.term())
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}
func ceilDiv(a, b int64) int64 { return -floorDiv(-a, b) }

func mkNot(t *Term) *Term {
	if b, ok := t.isBool(); ok {
		return cBool(!b)
	}
	if t.op == ONot {
		return t.args[0]
	}
	return mk(ONot, "", 0, types.Typ[types.Bool], t)
}

func mkEmpty(x *Term) *Term {
	if s, ok := x.isStr(); ok {
		return cBool(s == "")
	}
	switch x.op {
	case ONil:
		return tTrue
	case OSeq:
		if len(x.args) == 0 {
			return tTrue
		}
		for _, p := range x.args {
			if p.op == OOne {
				return tFalse
			}
		}
		// a splice only is empty iff all are; keep opaque when more than one
		if len(x.args) == 1 && x.args[0].op != OEach {
			return mkEmpty(x.args[0])
		}
	case OConcat:
		for _, p := range x.args {
			if s, ok := p.isStr(); ok && s != "" {
				return tFalse
			}
		}
	case OCopy, OClip:
		return mkEmpty(x.args[0])
	case OZero:
		return tTrue
	}
	return mk(OEmpty, "", 0, types.Typ[types.Bool], x)
}

func mkLen(x *Term) *Term {
	if s, ok := x.isStr(); ok {
		return cInt(int64(len(s)))
	}
	switch x.op {
	case ONil:
		return cInt(0)
	case OSeq:
		l := lin{m: map[*Term]int64{}}
		for _, p := range x.args {
			switch p.op {
			case OOne:
				l.c++
			case OEach:
				l.m[mk(OLen, "", 0, types.Typ[types.Int], mk(OSeq, "", 0, nil, p))]++
			default:
				l = linAdd(l, linOf(mkLen(p)), 1)
			}
		}
		return l.term()
	case OCopy, OClip:
		return mkLen(x.args[0])
	case OSlice:
		return sub(x.args[2], x.args[1])
	case OLV:
		if l := lvLen[x]; l != nil {
			return l
		}
	}
	return mk(OLen, "", 0, types.Typ[types.Int], x)
}

func mkEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.op == OConst && b.op == OConst {
		return cBool(a.s == b.s)
	}
	if s, ok := a.isStr(); ok && s == "" {
		return mkEmpty(b)
	}
	if s, ok := b.isStr(); ok && s == "" {
		return mkEmpty(a)
	}
	if x, ok := a.isBool(); ok {
		if x {
			return b
		}
		return mkNot(b)
	}
	if x, ok := b.isBool(); ok {
		if x {
			return a
		}
		return mkNot(a)
	}
	isNum := func(t *Term) bool {
		if _, ok := t.isInt(); ok {
			return true
		}
		return t.op == OLin || t.op == OLen || t.op == ON
	}
	if isNum(a) || isNum(b) {
		l := linAdd(linOf(a), linOf(b), -1)
		vs := l.vars()
		if len(vs) == 0 {
			return cBool(l.c == 0)
		}
		if len(vs) == 1 && vs[0].op == OLen && l.c == 0 {
			return mkEmpty(vs[0].args[0])
		}
		if l.m[vs[0]] < 0 {
			l = l.neg()
		}
		if c := vs[0]; len(vs) == 1 && c.op == OCall && c.s == "compare" && l.m[c] == 1 {
			switch l.c {
			case 0:
				return mkEq(c.args[0], c.args[1])
			case 1:
				return mkLess(c.args[0], c.args[1])
			case -1:
				return mkLess(c.args[1], c.args[0])
			}
		}
		return mk(OEq, "", 0, types.Typ[types.Bool], l.term(), cInt(0))
	}
	if a.op == ONil || b.op == ONil {
		x := a
		if a.op == ONil {
			x = b
		}
		switch x.op {
		case OPtr, OMake, OFieldP, OIndexP, OGlobal, OIface, OClosure, OFunc, OAddr, OCopy:
			return tFalse
		case OSeq:
			if len(x.args) > 0 {
				return tFalse
			}
		}
		return mk(OEq, "", 0, types.Typ[types.Bool], x, tNil)
	}
	if (a.op == OPtr || a.op == OMake) && (b.op == OPtr || b.op == OMake || isSymbolicRef(b)) {
		return tFalse
	}
	if (b.op == OPtr || b.op == OMake) && isSymbolicRef(a) {
		return tFalse
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OEq, "", 0, types.Typ[types.Bool], a, b)
}

// isSymbolicRef reports whether t is a reference that existed before the analysed call.
func isSymbolicRef(t *Term) bool {
	switch t.op {
	case OSym, OGlobal:
		return true
	case OField, ODeref:
		return isSymbolicRef(t.args[0])
	}
	return false
}

func strip(t *Term) *Term {
	for t.op == OCopy || t.op == OClip {
		t = t.args[0]
	}
	return t
}

// subst replaces terms bottom-up.
func subst(t *Term, f func(*Term) *Term, memo map[*Term]*Term) *Term {
	if r, ok := memo[t]; ok {
		return r
	}
	if r := f(t); r != nil {
		memo[t] = r
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	changed := false
	args := make([]*Term, len(t.args))
	for i, a := range t.args {
		args[i] = subst(a, f, memo)
		if args[i] != a {
			changed = true
		}
	}
	r := t
	if changed {
		r = rebuild(t, args)
	}
	memo[t] = r
	return r
}

func rebuild(t *Term, args []*Term) *Term {
	switch t.op {
	case OField:
		return mkField(args[0], t.s, t.typ)
	case OWith:
		r := args[0]
		for i, f := range strings.Split(t.s, ",") {
			r = mkWith(r, f, args[i+1])
		}
		return r
	case OSeq:
		return mkSeq(args...)
	case OConcat:
		return mkConcat(args...)
	case OJoin:
		return mkJoin(args[0], args[1])
	case OLin:
		l := linOf(t)
		r := lin{c: l.c, m: map[*Term]int64{}}
		for i, v := range t.args {
			r = linAdd(r, linOf(args[i]), l.m[v])
		}
		return r.term()
	case OLe0:
		return mkLe0(linOf(args[0]))
	case OEmpty:
		return mkEmpty(args[0])
	case OLen:
		return mkLen(args[0])
	case ONot:
		return mkNot(args[0])
	case OEq:
		return mkEq(args[0], args[1])
	case OIndex:
		return mkIndex(args[0], args[1], t.typ)
	case OLookup:
		return mkLookup(args[0], args[1], t.typ)
	case OLookupOk:
		return mkLookupOk(args[0], args[1])
	case OSlice:
		return mkSlice(args[0], args[1], args[2])
	case OCall:
		if t.s == "slices.Contains" {
			return mkContains(args[0], args[1])
		}
	}
	r := mk(t.op, t.s, t.k, t.typ, args...)
	r.fn = t.fn
	return r
}

// mkContains is membership in a list; the order of the list does not matter.
func mkContains(s, x *Term) *Term {
	s = strip(s)
	ps := append([]*Term{}, seqParts(s)...)
	if len(ps) == 0 {
		return tFalse
	}
	if len(ps) == 1 && ps[0].op == OOne {
		return mkEq(ps[0].args[0], x)
	}
	for i, p := range ps {
		ps[i] = strip(p)
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].id < ps[j].id })
	if len(ps) > 1 || ps[0].op == OEach {
		s = mk(OSeq, "", 0, nil, ps...)
	} else {
		s = ps[0]
	}
	return mk(OCall, "slices.Contains", 0, types.Typ[types.Bool], s, x)
}

func mkLookup(c, k *Term, vt types.Type) *Term {
	for {
		switch c.op {
		case OMPut:
			if c.args[1] == k {
				return c.args[2]
			}
			if mkEq(c.args[1], k) == tFalse {
				c = c.args[0]
				continue
			}
		case OMDel:
			if mkEq(c.args[1], k) == tFalse {
				c = c.args[0]
				continue
			}
		case OCopy:
			c = c.args[0]
			continue
		case OLV:
			if i := lvInit[c]; i != nil && i.key == k {
				c = i.init
				continue
			}
		case ONil:
			if vt != nil {
				return zeroOf(vt)
			}
		case OFold:
			if l, v, ok := setOf(c); ok && isBoolT(vt) && v {
				return mkContains(l, k)
			}
		}
		break
	}
	return mk(OLookup, "", 0, vt, c, k)
}

func isBoolT(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// setOf recognises a map filled with the elements of a list: what it contains, and whether its
// values are all true.
func setOf(c *Term) (list *Term, allTrue, ok bool) {
	allTrue = true
	var parts []*Term
	for c.op != ONil {
		switch c.op {
		case OMPut:
			parts = append(parts, mkOne(c.args[1]))
			allTrue = allTrue && c.args[2] == tTrue
			c = c.args[0]
		case OFold:
			L := loops[c.k]
			if L == nil || L.coll == nil || L.isMap || strings.HasPrefix(c.s, "part:") || len(c.args) != 2 {
				return nil, false, false
			}
			u := c.args[1]
			coll := strip(L.coll)
			if u.op != OMPut || u.args[0].op != OLV || u.args[1].op != OElem || u.args[1].k != L.id || u.args[1].args[0] != coll {
				return nil, false, false
			}
			parts = append(parts, coll)
			allTrue = allTrue && u.args[2] == tTrue
			c = c.args[0]
		default:
			return nil, false, false
		}
	}
	return mkSeq(parts...), allTrue, true
}

func mkLookupOk(c, k *Term) *Term {
	for {
		switch c.op {
		case OMPut:
			if c.args[1] == k {
				return tTrue
			}
			if mkEq(c.args[1], k) == tFalse {
				c = c.args[0]
				continue
			}
		case OMDel:
			if c.args[1] == k {
				return tFalse
			}
			if mkEq(c.args[1], k) == tFalse {
				c = c.args[0]
				continue
			}
		case OCopy:
			c = c.args[0]
			continue
		case OLV:
			if i := lvInit[c]; i != nil && i.key == k {
				c = i.init
				continue
			}
		case ONil:
			return tFalse
		case OFold:
			if l, _, ok := setOf(c); ok {
				return mkContains(l, k)
			}
		}
		break
	}
	return mk(OLookupOk, "", 0, types.Typ[types.Bool], c, k)
}

func mkIndex(s, i *Term, et types.Type) *Term {
	s = strip(s)
	if n, ok := i.isInt(); ok && s.op == OSeq {
		pos := int64(0)
		for _, p := range s.args {
			if p.op != OOne {
				break
			}
			if pos == n {
				return p.args[0]
			}
			pos++
		}
	}
	if n, ok := i.isInt(); ok && s.op == OWith {
		return mkField(s, strconv.FormatInt(n, 10), et)
	}
	// generic iteration element
	if s.op == OSeq || true {
		if L, ok := iterIndex(s, i); ok {
			if e, ok := soleElem(s); ok {
				// iterating over something built by another loop: the element of that loop's body
				return substLoop(e, s.args[0].k, L)
			}
			if s.op == OSlice && s.args[1] == cInt(0) && i.op == ON {
				return mkIndex(s.args[0], i, et) // of a prefix
			}
			if s.op == OCall && s.s == "keys" {
				return mk(OKey, "", L, et, s.args[0])
			}
			return mk(OElem, "", L, et, s)
		}
	}
	if s.op == OSlice {
		return mkIndex(s.args[0], add(s.args[1], i), et)
	}
	// last element of an append
	if s.op == OSeq && len(s.args) > 0 && s.args[len(s.args)-1].op == OOne {
		if add(i, cInt(1)) == mkLen(s) {
			return s.args[len(s.args)-1].args[0]
		}
	}
	return mk(OIndex, "", 0, et, s, i)
}

// soleElem returns the element appended by the only accumulation that makes up s.
func soleElem(s *Term) (*Term, bool) {
	if s.op != OSeq || len(s.args) != 1 || s.args[0].op != OEach {
		return nil, false
	}
	var e *Term
	for _, a := range s.args[0].args {
		if len(a.args) != 1 || a.args[0].op != OOne {
			return nil, false
		}
		x := a.args[0].args[0]
		if e != nil && e != x {
			return nil, false
		}
		e = x
	}
	return e, e != nil
}

// iterIndex reports whether i is the generic index of an iteration over s.
func iterIndex(s, i *Term) (int, bool) {
	if i.op == ON {
		if L := loops[i.k]; L != nil {
			L.fwd = true
			if L.rev {
				panic(Undecided{"a loop goes over a collection from both ends"})
			}
		}
		return i.k, true
	}
	// len(s)-1-N
	l := linOf(i)
	var n *Term
	for v, c := range l.m {
		if v.op == ON && c == -1 {
			n = v
		}
	}
	if n != nil && add(add(i, n), cInt(1)) == mkLen(s) {
		if L := loops[n.k]; L != nil {
			L.rev = true
			if L.fwd {
				panic(Undecided{"a loop goes over a collection from both ends"})
			}
		}
		return n.k, true
	}
	return 0, false
}

// substLoop renames the iteration of loop a into the iteration of loop b.
func substLoop(t *Term, a, b int) *Term {
	return subst(t, func(x *Term) *Term {
		if x.k == a {
			switch x.op {
			case ON:
				return mk(x.op, x.s, b, x.typ)
			case OKey:
				return mk(OKey, "", b, x.typ, substLoop(x.args[0], a, b))
			case OElem:
				return mk(OElem, "", b, x.typ, substLoop(x.args[0], a, b))
			}
		}
		return nil
	}, map[*Term]*Term{})
}

func mkSlice(s, lo, hi *Term) *Term {
	if n, ok := lo.isInt(); ok && n == 0 && hi == mkLen(s) {
		return s
	}
	if s.op == OSlice {
		return mkSlice(s.args[0], add(s.args[1], lo), add(s.args[1], hi))
	}
	if s.op == OSeq {
		// constant prefix of known parts
		if n, ok := lo.isInt(); ok && n == 0 {
			for i := len(s.args); i >= 0; i-- {
				p := mkSeq(s.args[:i]...)
				if mkLen(p) == hi {
					return p
				}
			}
		}
		for i := 0; i <= len(s.args); i++ {
			if mkLen(mkSeq(s.args[:i]...)) == lo && hi == mkLen(s) {
				return mkSeq(s.args[i:]...)
			}
		}
	}
	if x, ok := s.isStr(); ok {
		a, ok1 := lo.isInt()
		b, ok2 := hi.isInt()
		if ok1 && ok2 && 0 <= a && a <= b && b <= int64(len(x)) {
			return cStr(x[a:b])
		}
	}
	if lo == hi {
		if s.typ != nil {
			if b, ok := s.typ.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				return cStr("")
			}
		}
		return tEmptySeq
	}
	return mk(OSlice, "", 0, s.typ, s, lo, hi)
}

// --- printing ---

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if d > 25 {
		return "…"
	}
	as := func() string {
		var out []string
		for _, a := range t.args {
			out = append(out, a.str(d+1))
		}
		return strings.Join(out, ", ")
	}
	a := func(i int) string { return t.args[i].str(d + 1) }
	switch t.op {
	case OConst:
		if s, ok := t.isStr(); ok {
			return strconv.Quote(s)
		}
		return t.s[2:]
	case ONil:
		return "nil"
	case OZero:
		return "zero(" + shortType(t.typ) + ")"
	case OSym:
		return t.s
	case OField:
		return a(0) + "." + t.s
	case OWith:
		out := a(0) + "{"
		for i, f := range strings.Split(t.s, ",") {
			if i > 0 {
				out += ", "
			}
			out += f + ":" + a(i+1)
		}
		return out + "}"
	case OPtr:
		return fmt.Sprintf("&obj%d", t.k)
	case OMake:
		return fmt.Sprintf("new%d", t.k)
	case OFieldP:
		return "&" + a(0) + "." + t.s
	case OIndexP:
		return "&" + a(0) + "[" + a(1) + "]"
	case OGlobal:
		return "&" + t.s
	case ODeref:
		return "*" + a(0)
	case OC0:
		return a(0)
	case OMPut:
		return a(0) + "[" + a(1) + ":=" + a(2) + "]"
	case OMDel:
		return a(0) + "[-" + a(1) + "]"
	case OLookup:
		return a(0) + "[" + a(1) + "]"
	case OLookupOk:
		return a(1) + " in " + a(0)
	case OCall:
		return t.s + "(" + as() + ")"
	case OExtract:
		return fmt.Sprintf("%s#%d", a(0), t.k)
	case OBin:
		return "(" + a(0) + t.s + a(1) + ")"
	case ONot:
		return "!" + a(0)
	case OLin:
		l := linOf(t)
		var out []string
		for _, v := range l.vars() {
			c := l.m[v]
			switch c {
			case 1:
				out = append(out, "+"+v.str(d+1))
			case -1:
				out = append(out, "-"+v.str(d+1))
			default:
				out = append(out, fmt.Sprintf("%+d*%s", c, v.str(d+1)))
			}
		}
		sort.Strings(out)
		if l.c != 0 {
			out = append(out, fmt.Sprintf("%+d", l.c))
		}
		return "(" + strings.TrimPrefix(strings.Join(out, ""), "+") + ")"
	case OLe0:
		return a(0) + "<=0"
	case OEmpty:
		return "empty(" + a(0) + ")"
	case OEq:
		x, y := a(0), a(1)
		if x > y {
			x, y = y, x
		}
		return "(" + x + "==" + y + ")"
	case OLen:
		return "len(" + a(0) + ")"
	case OIndex:
		return a(0) + "[" + a(1) + "]"
	case OSlice:
		return a(0) + "[" + a(1) + ":" + a(2) + "]"
	case OSeq:
		return "[" + as() + "]"
	case OOne:
		return a(0)
	case OEach:
		return fmt.Sprintf("each<L%d> %s", t.k, as())
	case OConcat:
		var out []string
		for _, x := range t.args {
			out = append(out, x.str(d+1))
		}
		return strings.Join(out, "+")
	case OJoin:
		return "join(" + as() + ")"
	case OEachS:
		return fmt.Sprintf("eachS<L%d> %s", t.k, as())
	case OConv:
		return shortType(t.typ) + "(" + as() + ")"
	case OClosure:
		return "func " + t.s + "(" + as() + ")"
	case OFunc:
		return "func " + t.s
	case OIface:
		return as() + ":" + shortType(t.typ)
	case OTuple:
		return "(" + as() + ")"
	case OLV:
		return fmt.Sprintf("L%d.%s", t.k, t.s)
	case ON:
		return fmt.Sprintf("N<L%d>", t.k)
	case OKey:
		return fmt.Sprintf("key<L%d>(%s)", t.k, as())
	case OElem:
		return fmt.Sprintf("elem<L%d>(%s)", t.k, as())
	case OMore:
		return fmt.Sprintf("more<L%d>", t.k)
	case OFold:
		return fmt.Sprintf("fold<L%d.%s>(%s)", t.k, t.s, as())
	case OCopy:
		return "copy(" + as() + ")"
	case OClip:
		return "clip(" + as() + ")"
	case OEpoch:
		return fmt.Sprintf("@%s%d", t.s, t.k)
	case OAddr:
		return "&{" + as() + "}"
	case OTop:
		return fmt.Sprintf("?%s%d", t.s, t.k)
	}
	return fmt.Sprintf("op%d(%s)", t.op, as())
}

func shortType(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// contains reports whether u occurs in t.
func contains(t, u *Term) bool {
	return anyTerm(t, func(x *Term) bool { return x == u })
}

func anyTerm(t *Term, f func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var rec func(x *Term) bool
	rec = func(x *Term) bool {
		if seen[x] {
			return false
		}
		seen[x] = true
		if f(x) {
			return true
		}
		for _, a := range x.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func dbgTerm(t *Term, d int) string {
	s := strings.Repeat(" ", d) + fmt.Sprintf("%d op%d s=%q k=%d typ=%v\n", t.id, t.op, t.s, t.k, t.typ)
	for _, a := range t.args {
		s += dbgTerm(a, d+1)
	}
	return s
}
