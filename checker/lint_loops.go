package main

// Rules about the loops that save and load lists (C22): every element is visited, and nothing is left out
// except empty lists and after an error.

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (s *State) listLoops() {
	n := 0
	for f := range s.wr {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s.saves(in) && isLoopBlock(b) {
					n++
					s.wholeLoop(f, in, "saved")
				}
			}
		}
	}
	for f := range s.rd {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if a, ok := s.restores(in); ok && isLoopBlock(b) {
					_ = a
					n++
					s.wholeLoop(f, in, "restored")
				}
			}
		}
	}
	s.l.atLeast("C22", "list-loops", n, 4)
}

// saves: a write to the output, a number encoded into a buffer, or a block handed to the writers
func (s *State) saves(in ssa.Instruction) bool {
	switch c := in.(type) {
	case *ssa.Call:
		if s.isWrite(c) {
			return true
		}
		g := callee(c)
		if g == nil || g.Pkg == nil {
			return false
		}
		if g.Pkg.Pkg.Path() == "encoding/binary" && (strings.HasPrefix(g.Name(), "Put") || strings.HasPrefix(g.Name(), "Append")) {
			return true
		}
		return g.Pkg == s.p.ssa && s.wr[g] && s.reachesWrite(g)
	case *ssa.Send:
		return true
	}
	return false
}

func (s *State) reachesWrite(f *ssa.Function) bool {
	for g := range s.m.reachOf(f) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok && s.isWrite(c) {
					return true
				}
			}
		}
	}
	return false
}

// restores: an element appended to a list of the tree
func (s *State) restores(in ssa.Instruction) (ssa.Value, bool) {
	c, ok := in.(*ssa.Call)
	if !ok {
		return nil, false
	}
	if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
		if sl, ok := c.Type().Underlying().(*types.Slice); ok {
			if n, ok := sl.Elem().(*types.Named); ok && n.Obj().Pkg() == s.p.pkg.Types {
				return c, true
			}
		}
	}
	return nil, false
}

func (s *State) wholeLoop(f *ssa.Function, in ssa.Instruction, what string) {
	b := in.Block()
	h := loopHeader(b)
	// the range of the counter
	for _, x := range h.Instrs {
		v, ok := x.(ssa.Value)
		if !ok {
			continue
		}
		if _, isphi := v.(*ssa.Phi); !isphi {
			if bo, isb := v.(*ssa.BinOp); !isb || bo.Op != token.ADD {
				continue
			}
		}
		from, bound, step, good := countingLoop(v, b)
		if !good {
			continue
		}
		s.l.chk("C22,C19", "whole-list", fnName(f), in.Pos(), from == 0 && step == 1, "the loop runs from %d in steps of %d: not everything is %s", from, step, what)
		if c, ok := strip(bound).(*ssa.Call); ok {
			if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				sl, isSl := c.Call.Args[0].(*ssa.Slice)
				s.l.chk("C22,C19", "whole-list", fnName(f), in.Pos(), !isSl || sl.Low == nil || isZeroConst(sl.Low), "the beginning of a list is not %s", what)
			}
		}
		if bo, ok := strip(bound).(*ssa.BinOp); ok && (bo.Op == token.SUB || bo.Op == token.ADD) {
			_, isc := bo.Y.(*ssa.Const)
			s.l.chk("C22,C19", "whole-list", fnName(f), in.Pos(), !isc, "the loop ends before or after the last element")
		}
	}
	// edges that leave the element out
	reach := map[*ssa.BasicBlock]bool{} // from which the write is still reached in this iteration
	reach[b] = true
	for again := true; again; {
		again = false
		for _, x := range f.Blocks {
			if reach[x] || !inLoop(h, x) || x == h && x != b {
				continue
			}
			for _, y := range x.Succs {
				if y != h && reach[y] {
					reach[x], again = true, true
				}
			}
		}
	}
	for _, y := range h.Succs {
		if reach[y] && inLoop(h, y) {
			reach[h] = true
		}
	}
	for x := range reach {
		if x == b {
			continue
		}
		iff, ok := x.Instrs[len(x.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		for k, y := range x.Succs {
			if y != h && reach[y] || !inLoop(h, y) && y != h {
				continue // reached later, or leaves the loop
			}
			if x == h && !inLoop(h, y) {
				continue
			}
			s.l.chk("C22,C19", "nothing-skipped", fnName(f), in.Pos(), s.skipOK(iff.Cond, k == 0), "on the branch at %s an element is left out for another reason than being empty or an earlier error", s.p.pos(lastPos(x)))
		}
	}
	// leaving the loop early
	for x := range reach {
		iff, ok := x.Instrs[len(x.Instrs)-1].(*ssa.If)
		if !ok || x == h {
			continue
		}
		for k, y := range x.Succs {
			if inLoop(h, y) || y == h {
				continue
			}
			if cmp, isb := iff.Cond.(*ssa.BinOp); isb && isCounter(cmp.X, h) {
				continue
			}
			s.l.chk("C22,C19", "not-cut-short", fnName(f), in.Pos(), s.errEdge(iff.Cond, k == 0) || errorOnly(y), "the loop is left early at %s without an error", s.p.pos(lastPos(x)))
		}
	}
}

func isCounter(v ssa.Value, h *ssa.BasicBlock) bool {
	v = strip(v)
	if bo, ok := v.(*ssa.BinOp); ok {
		v = strip(bo.X)
	}
	ph, ok := v.(*ssa.Phi)
	return ok && ph.Block() == h
}

func isZeroConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value != nil && constant.Sign(c.Value) == 0
}

// errEdge: the edge is taken when an error is not nil
func (s *State) errEdge(c ssa.Value, t bool) bool {
	if u, ok := c.(*ssa.UnOp); ok && u.Op == token.NOT {
		return s.errEdge(u.X, !t)
	}
	cmp, ok := c.(*ssa.BinOp)
	if !ok || !isErrorType(cmp.X.Type()) {
		return false
	}
	return cmp.Op == token.NEQ && t || cmp.Op == token.EQL && !t
}

func isErrorType(t interface{ String() string }) bool { return t.String() == "error" }

// skipOK: the edge means an error happened, or a list is empty
func (s *State) skipOK(c ssa.Value, t bool) bool {
	if s.errEdge(c, t) {
		return true
	}
	if u, ok := c.(*ssa.UnOp); ok && u.Op == token.NOT {
		return s.skipOK(u.X, !t)
	}
	if e, ok := c.(*ssa.Extract); ok {
		// v, ok := <-ch
		if u, isu := e.Tuple.(*ssa.UnOp); isu && u.Op == token.ARROW {
			return !t
		}
	}
	cmp, ok := c.(*ssa.BinOp)
	if !ok {
		return false
	}
	lenOf := func(v ssa.Value) bool {
		c, ok := strip(v).(*ssa.Call)
		if !ok {
			return false
		}
		b, ok := c.Call.Value.(*ssa.Builtin)
		return ok && b.Name() == "len"
	}
	k, isk := cmp.Y.(*ssa.Const)
	if !isk || k.Value == nil || k.Value.Kind() != constant.Int || !lenOf(cmp.X) {
		return false
	}
	v := k.Int64()
	switch cmp.Op {
	case token.EQL:
		return t && v == 0
	case token.NEQ, token.GTR:
		return !t && v == 0
	case token.LSS:
		return t && v == 1
	case token.LEQ:
		return t && v == 0
	case token.GEQ:
		return !t && v == 1
	}
	return false
}
