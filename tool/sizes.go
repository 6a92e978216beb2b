package main

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// What a check finds on values of known small shapes is true of larger ones only where the code does not look at the
// size: a comparison of a size, of a count or of a depth with a number larger than those shapes is one that the check
// has not seen the other side of.

const sizeBound = 3 // the shapes have up to so many parts beside each other and levels

// sizeFree reports the comparisons of sizes with larger numbers in the functions that were followed on known shapes.
func (r *Run) sizeFree() {
	n := 0
	for _, fn := range r.p.repoFuncs() {
		if !r.shaped[fn] || !handWritten(r.p, fn) {
			continue
		}
		n++
		key := "sizes in " + r.p.canon(fn)
		good := true
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				x, ok := i.(*ssa.BinOp)
				if !ok {
					continue
				}
				switch x.Op {
				case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
				default:
					continue
				}
				for k, side := range []ssa.Value{x.X, x.Y} {
					c, ok := []ssa.Value{x.Y, x.X}[k].(*ssa.Const)
					if !ok || c.Value == nil || c.Value.Kind() != constant.Int || c.Int64() <= sizeBound {
						continue
					}
					if b.Comment == "rangeindex.loop" || !sizeOf(fn, side, map[ssa.Value]bool{}) {
						continue
					}
					good = false
					r.bad(key, x.Pos(), "%s compares a size, a count or a depth with %d: what it does with more than that is not among the shapes that are followed", r.p.canon(fn), c.Int64())
				}
			}
		}
		if good {
			r.ok(key, "no comparison of a size with a number beyond the shapes")
		}
	}
	r.need("functions followed on known shapes", n, 3)
}

// sizeOf: the value is the number of parts of something, counts the rounds of a loop or the levels of a recursion.
func sizeOf(fn *ssa.Function, v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	if b, ok := v.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 || b.Kind() == types.Uint8 || b.Kind() == types.Int32 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Call:
		c := x.Common()
		if b, ok := c.Value.(*ssa.Builtin); ok {
			if b.Name() != "len" {
				for _, a := range c.Args {
					if sizeOf(fn, a, seen) {
						return true
					}
				}
				return false
			}
			switch c.Args[0].Type().Underlying().(type) {
			case *types.Slice, *types.Map, *types.Chan:
				return true
			}
			return false
		}
		name := ""
		if c.IsInvoke() {
			name = c.Method.Name()
		} else if f := c.StaticCallee(); f != nil && f.Signature.Recv() != nil {
			name = f.Name()
		}
		switch name {
		case "Cardinality", "Len", "Size", "Count":
			return true
		}
		return false
	case *ssa.BinOp:
		switch x.Op {
		case token.ADD, token.SUB, token.MUL, token.QUO, token.REM:
			return sizeOf(fn, x.X, seen) || sizeOf(fn, x.Y, seen)
		}
	case *ssa.Convert:
		return sizeOf(fn, x.X, seen)
	case *ssa.ChangeType:
		return sizeOf(fn, x.X, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if steps(e, x) {
				return true
			}
		}
		for _, e := range x.Edges {
			if sizeOf(fn, e, seen) {
				return true
			}
		}
	case *ssa.UnOp:
		// a counter that is kept in a variable that closures share
		if x.Op != token.MUL || x.X.Referrers() == nil {
			return false
		}
		switch x.X.(type) {
		case *ssa.Alloc, *ssa.FreeVar:
		default:
			return false
		}
		for _, i := range *x.X.Referrers() {
			s, ok := i.(*ssa.Store)
			if !ok || s.Addr != x.X {
				continue
			}
			if b, ok := s.Val.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) {
				if l, ok := b.X.(*ssa.UnOp); ok && l.Op == token.MUL && l.X == x.X {
					return true
				}
			}
			if sizeOf(fn, s.Val, seen) {
				return true
			}
		}
	case *ssa.Parameter:
		// the depth of a recursion
		at := -1
		for i, p := range fn.Params {
			if p == x {
				at = i
			}
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				c, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				com := c.Common()
				args := com.Args
				if com.IsInvoke() {
					if com.Method.Name() != fn.Name() {
						continue
					}
					args = append([]ssa.Value{com.Value}, args...)
				} else if com.StaticCallee() != fn && com.StaticCallee() != nil {
					continue
				}
				if at >= 0 && at < len(args) && steps(args[at], x) {
					return true
				}
			}
		}
	}
	return false
}

// steps: one more or one less than another.
func steps(v, of ssa.Value) bool {
	b, ok := v.(*ssa.BinOp)
	return ok && (b.Op == token.ADD || b.Op == token.SUB) && (b.X == of || b.Y == of)
}
