package main

// Loops that go on only while something carried from one iteration to the next holds, beside the test that counts
// them (for i := 0; err == nil && i < n; i++): what is carried is looked at when it is set, at the end of the
// iteration, so that leaving for this reason is leaving from within the iteration that is the reason.

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type loopGuard struct {
	chain []*ssa.BasicBlock // the blocks up to the one with the test
	test  *ssa.If
	stay  bool // the value of the test that goes on
	exit  *ssa.BasicBlock
	count *ssa.BasicBlock // where the other test is
}

// guardOf finds the test of what is carried.
func guardOf(nl *natLoop) *loopGuard {
	tests := func(b *ssa.BasicBlock) (*ssa.If, *ssa.BasicBlock, *ssa.BasicBlock, bool) {
		i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			return nil, nil, nil, false
		}
		in0, in1 := nl.blocks[b.Succs[0]], nl.blocks[b.Succs[1]]
		if in0 == in1 {
			return nil, nil, nil, false
		}
		if in0 {
			return i, b.Succs[0], b.Succs[1], true
		}
		return i, b.Succs[1], b.Succs[0], false
	}
	h := nl.header
	i0, next, out, stay0 := tests(h)
	if i0 == nil || len(next.Preds) != 1 || next == h || numPhis(next) > 0 || !plainBlock(h) {
		return nil
	}
	i1, _, out1, stay1 := tests(next)
	if i1 == nil || out1 != out || !samePhis(out, h, next) {
		return nil
	}
	c0, c1 := carriedTest(i0.Cond), carriedTest(i1.Cond)
	switch {
	case c0 && !c1:
		return &loopGuard{[]*ssa.BasicBlock{h}, i0, stay0, out, next}
	case c1 && !c0 && plainBlock(next):
		return &loopGuard{[]*ssa.BasicBlock{h, next}, i1, stay1, out, h}
	}
	return nil
}

// plainBlock: nothing happens in the block but looking at values.
func plainBlock(b *ssa.BasicBlock) bool {
	for _, ins := range b.Instrs {
		switch i := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef, *ssa.If:
		case *ssa.BinOp:
			if i.Op == token.QUO || i.Op == token.REM {
				return false
			}
		case *ssa.UnOp:
			if i.Op == token.ARROW {
				return false
			}
			if _, ok := i.X.(*ssa.Alloc); i.Op == token.MUL && !ok {
				return false
			}
		case *ssa.Call:
			if bi, ok := i.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// samePhis: it does not matter from which of two blocks a third is reached.
func samePhis(to, a, b *ssa.BasicBlock) bool {
	for i := 0; i < numPhis(to); i++ {
		phi := to.Instrs[i].(*ssa.Phi)
		if phi.Edges[predIndex(to, a)] != phi.Edges[predIndex(to, b)] {
			return false
		}
	}
	return true
}

// carriedTest: whether something is nil, or a truth value.
func carriedTest(c ssa.Value) bool {
	switch x := c.(type) {
	case *ssa.Phi:
		return types.Identical(x.Type().Underlying(), types.Typ[types.Bool])
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return carriedTest(x.X)
		}
		return x.Op == token.MUL
	case *ssa.BinOp:
		if x.Op != token.EQL && x.Op != token.NEQ {
			return false
		}
		for _, q := range []ssa.Value{x.X, x.Y} {
			if k, ok := q.(*ssa.Const); ok && k.Value == nil && isErrorType(k.Type()) {
				return true
			}
		}
	}
	return false
}

// look evaluates the test where the loop is about to go round, and gives the ways it leaves and stays.
func (g *loopGuard) look(in *Interp, fr *frame, reg *region, p *path) *Term {
	for _, b := range g.chain {
		for _, ins := range b.Instrs[numPhis(b) : len(b.Instrs)-1] {
			in.instr(fr, reg, p, ins)
		}
	}
	c := in.value(fr, p, g.test.Cond)
	if !g.stay {
		c = mkNot(c)
	}
	return c
}
