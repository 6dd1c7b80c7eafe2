package main

// C29: data blocks are handed out once, by one goroutine, after they were created.

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func (s *State) blockRules() {
	l := s.l
	q := &cfgCheck{p: s.p, a: s.a, l: l}
	ch := map[*Cell]bool{}
	tf := s.p.named("Tree")
	for c := range s.a.cont[s.a.fieldCell(tf, fieldIndex(tf, "newBlocks"))] {
		ch[c] = true
	}
	done := map[*Cell]bool{}
	for c := range s.a.cont[s.a.fieldCell(tf, fieldIndex(tf, "done"))] {
		done[c] = true
	}
	if !l.chk("C29", "channel-found", "-", token.NoPos, len(ch) > 0 && len(done) > 0, "the channel handing out blocks, or the one ending it, was not found") {
		return
	}
	// where blocks are sent and received
	type send struct {
		in  ssa.Instruction
		val ssa.Value
		sel *ssa.Select
		idx int
	}
	var sends []send
	recvs := 0
	for _, f := range s.p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Send:
					if meet(s.chanOf(x.Chan), ch) {
						sends = append(sends, send{in, x.X, nil, -1})
					}
				case *ssa.Select:
					for i, st := range x.States {
						if st.Send != nil && meet(s.chanOf(st.Chan), ch) {
							sends = append(sends, send{in, st.Send, x, i})
						}
						if st.Send == nil && meet(s.chanOf(st.Chan), ch) {
							recvs++
						}
					}
				case *ssa.UnOp:
					if x.Op == token.ARROW && meet(s.chanOf(x.X), ch) {
						recvs++
						ok := false
						for _, a := range s.a.acc {
							if a.write && a.val != nil && len(a.cells) == 1 {
								for c := range a.cells {
									if c.key == "Allocator.block" {
										for _, y := range q.sources(a.val, map[ssa.Value]bool{}) {
											if y == ssa.Value(x) {
												ok = true
											}
										}
									}
								}
							}
						}
						l.chk("C29", "received-block-recorded", fnName(f), x.Pos(), ok, "the block received is not recorded as the allocator's block")
					}
				}
			}
		}
	}
	if !l.chk("C29", "one-sender", "-", token.NoPos, len(sends) == 1, "blocks are handed out at %d places", len(sends)) {
		return
	}
	l.atLeast("C29", "receivers", recvs, 1)
	sd := sends[0]
	P := sd.in.Parent()
	pos := sd.in.Pos()
	if sd.sel != nil {
		pos = sd.val.Pos()
		for _, st := range sd.sel.States {
			pos = st.Pos
		}
	}
	name := fnName(P)
	// lift: the instruction of P during which in is executed
	lift := func(in ssa.Instruction) []ssa.Instruction {
		var r []ssa.Instruction
		seen := map[ssa.Instruction]bool{}
		var w func(in ssa.Instruction)
		w = func(in ssa.Instruction) {
			if seen[in] {
				return
			}
			seen[in] = true
			if in.Parent() == P {
				r = append(r, in)
				return
			}
			for _, c := range s.a.callers[in.Parent()] {
				if _, isGo := c.(*ssa.Go); !isGo {
					w(c)
				}
			}
		}
		w(in)
		return r
	}
	// started once per tree, after everything is loaded
	s.startedOnce(P)
	// the number sent: next free block, then one more each time
	h := loopHeader(sd.in.Block())
	if !l.chk("C29", "sent-in-a-loop", name, pos, h != nil, "blocks are not handed out in a loop") {
		return
	}
	var phi *ssa.Phi
	base := func(v ssa.Value) (*ssa.Phi, int64, bool) {
		k := int64(0)
		for i := 0; i < 8; i++ {
			v = strip(v)
			switch x := v.(type) {
			case *ssa.Phi:
				if x.Block() == h {
					return x, k, true
				}
				return nil, 0, false
			case *ssa.BinOp:
				c, ok := constOf(x.Y)
				if ok && x.Op == token.ADD {
					k += c
				} else if ok && x.Op == token.SUB {
					k -= c
				} else {
					return nil, 0, false
				}
				v = x.X
			case *ssa.Parameter:
				ss := q.sources(x, map[ssa.Value]bool{})
				if len(ss) != 1 {
					return nil, 0, false
				}
				v = ss[0]
			default:
				return nil, 0, false
			}
		}
		return nil, 0, false
	}
	ph, ks, ok := base(sd.val)
	if !l.chk("C29", "sent-number-counts-up", name, pos, ok, "the block sent is not a counter of the loop") {
		return
	}
	phi = ph
	startOff := int64(0)
	for i, p := range h.Preds {
		e := phi.Edges[i]
		if h.Dominates(p) {
			ph2, k, ok := base(e)
			l.chk("C29", "each-block-once", name, pos, ok && ph2 == phi && k == 1, "from one block handed out to the next the number does not increase by exactly one")
			continue
		}
		okStart := false
		v := strip(e)
		if bo, isb := v.(*ssa.BinOp); isb {
			if c, isc := constOf(bo.Y); isc && bo.Op == token.SUB {
				startOff = -c
				v = strip(bo.X)
			} else if isc && bo.Op == token.ADD {
				startOff = c
				v = strip(bo.X)
			}
		}
		for _, o := range s.origins(v) {
			if o == "Tree.nextFreeBlock" {
				okStart = true
			}
		}
		l.chk("C29", "starts-with-first-free", name, pos, okStart && startOff+ks == 0, "handing out does not start with the first free block")
	}
	// created and made visible before it is sent
	created, visible := false, false
	for _, a := range s.a.acc {
		if !a.write {
			continue
		}
		for c := range a.cells {
			if c.key == "Tree.blocks[]" && !s.rd[a.fn] || c.key == "Tree.blocks[]" && s.m.reachOf(P)[a.fn] {
				var ia *ssa.IndexAddr
				if st, ok := a.in.(*ssa.Store); ok {
					ia, _ = st.Addr.(*ssa.IndexAddr)
				}
				in := s.m.reachOf(P)[a.fn]
				l.chk("C29", "blocks-created-by-sender", fnName(a.fn), a.in.Pos(), in, "a block is replaced by other code than the one handing them out")
				if ia == nil || !in {
					continue
				}
				p2, k, ok := base(ia.Index)
				good := ok && p2 == phi && k == ks
				l.chk("C29", "created-block-is-the-one-sent", fnName(a.fn), a.in.Pos(), good, "the block created is not the one handed out")
				for _, x := range lift(a.in) {
					if good && loopHeader(x.Block()) == h && x.Block().Dominates(sd.in.Block()) && (x.Block() != sd.in.Block() || indexIn(x) < indexIn(sd.in)) {
						created = true
					}
				}
			}
			if c.key == "Tree.nextFreeBlock" && s.m.reachOf(P)[a.fn] && a.val != nil {
				p2, k, ok := base(a.val)
				good := ok && p2 == phi && (k == ks || k == ks+1)
				l.chk("C29", "visible-number", fnName(a.fn), a.in.Pos(), good, "the number of blocks made visible is not that of the block handed out")
				for _, x := range lift(a.in) {
					if good && loopHeader(x.Block()) == h && x.Block().Dominates(sd.in.Block()) && (x.Block() != sd.in.Block() || indexIn(x) < indexIn(sd.in)) {
						visible = true
					}
				}
			}
		}
	}
	l.chk("C29", "created-before-sent", name, pos, created, "a block is handed out without having been created before in the same round")
	l.chk("C29", "visible-before-sent", name, pos, visible, "a block is handed out before the tree knows that it exists")
	// ends when closed
	ends := false
	if sd.sel != nil && sd.sel.Blocking {
		for i, st := range sd.sel.States {
			if st.Send == nil && meet(s.chanOf(st.Chan), done) {
				ends = s.selectReturns(sd.sel, i)
			}
		}
	}
	l.chk("C29", "ends-when-closed", name, pos, ends, "the goroutine handing out blocks does not end when the tree is closed")
	closed := false
	for f := range s.m.reachOf(s.m.methods("Tree", "Close")...) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if bi, ok := c.Common().Value.(*ssa.Builtin); ok && bi.Name() == "close" && meet(s.chanOf(c.Common().Args[0]), done) {
						closed = true
					}
				}
			}
		}
	}
	l.chk("C29", "close-ends-it", "Close", token.NoPos, closed, "Close does not end the goroutine handing out blocks")
}

// selectReturns: when case i of the select is chosen the function returns without another send
func (s *State) selectReturns(sel *ssa.Select, i int) bool {
	// the dispatch: index == i
	for _, r := range *sel.Referrers() {
		ex, ok := r.(*ssa.Extract)
		if !ok || ex.Index != 0 {
			continue
		}
		for _, u := range *ex.Referrers() {
			cmp, ok := u.(*ssa.BinOp)
			if !ok || cmp.Op != token.EQL {
				continue
			}
			c, isc := constOf(cmp.Y)
			if !isc {
				continue
			}
			for _, v := range *cmp.Referrers() {
				iff, ok := v.(*ssa.If)
				if !ok {
					continue
				}
				b := iff.Block()
				t := b.Succs[0]
				if int(c) == i {
					return onlyReturns(t, sel.Block())
				}
				if len(sel.States) == 2 && int(c) == 1-i {
					return onlyReturns(b.Succs[1], sel.Block())
				}
			}
		}
	}
	return false
}

// onlyReturns: from b every path returns without coming back to x
func onlyReturns(b, x *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var w func(b *ssa.BasicBlock) bool
	w = func(b *ssa.BasicBlock) bool {
		if b == x {
			return false
		}
		if seen[b] {
			return true
		}
		seen[b] = true
		for _, y := range b.Succs {
			if !w(y) {
				return false
			}
		}
		return true
	}
	return w(b)
}

// startedOnce: every constructor starts the goroutine exactly once, outside loops, after the last write to the block table
func (s *State) startedOnce(P *ssa.Function) {
	l := s.l
	starts := map[ssa.Instruction]bool{}
	for _, f := range s.p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if g, ok := in.(*ssa.Go); ok {
					c := g.Call.StaticCallee()
					if c == nil {
						if mc, ok := g.Call.Value.(*ssa.MakeClosure); ok {
							c = mc.Fn.(*ssa.Function)
						}
					}
					if c != nil && s.m.reachOf(c)[P] {
						starts[in] = true
					}
				}
			}
		}
	}
	// called directly, not as a goroutine
	for _, c := range s.a.callers[P] {
		if _, isGo := c.(*ssa.Go); !isGo && !s.a.goFns[c.Parent()] {
			l.chk("C29", "runs-as-goroutine", fnName(c.Parent()), c.Pos(), false, "the function handing out blocks is called directly")
		}
	}
	// number of starts executed by a call of f
	var count func(f *ssa.Function, seen map[*ssa.Function]bool) (n int, loop bool, at []ssa.Instruction)
	count = func(f *ssa.Function, seen map[*ssa.Function]bool) (n int, loop bool, at []ssa.Instruction) {
		if seen[f] {
			return
		}
		seen[f] = true
		defer delete(seen, f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				k := 0
				if starts[in] {
					k = 1
				} else if c, ok := in.(*ssa.Call); ok {
					if g := callee(c); g != nil && g.Pkg == s.p.ssa {
						var lp bool
						k, lp, _ = count(g, seen)
						loop = loop || lp
					}
				} else if d, ok := in.(*ssa.Defer); ok {
					if g := d.Call.StaticCallee(); g != nil && g.Pkg == s.p.ssa {
						k, _, _ = count(g, seen)
					}
				}
				if k > 0 {
					n += k
					at = append(at, in)
					if isLoopBlock(b) {
						loop = true
					}
				}
			}
		}
		return
	}
	ctors := 0
	for _, f := range s.p.funcs {
		if f.Object() == nil || !f.Object().Exported() && f.Signature.Recv() == nil {
			if len(s.a.callers[f]) > 0 || f.Parent() != nil {
				continue
			}
		}
		if f.Parent() != nil || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		n, loop, at := count(f, map[*ssa.Function]bool{})
		isCtor := f.Signature.Recv() == nil && f.Signature.Results().Len() > 0 && types.Identical(deref(f.Signature.Results().At(0).Type()), s.p.named("Tree"))
		if !isCtor {
			l.chk("C29", "started-by-constructors-only", fnName(f), f.Pos(), n == 0, "the goroutine handing out blocks is started by another function than a constructor")
			continue
		}
		ctors++
		pos := f.Pos()
		if len(at) > 0 {
			pos = at[0].Pos()
		}
		l.chk("C29", "started-once", fnName(f), pos, n == 1 && !loop, "the goroutine handing out blocks is started %d times by %s (in a loop: %v)", n, fnName(f), loop)
		if n != 1 {
			continue
		}
		// not before the tables are loaded
		late := ""
		after := s.executedAfter(at[0])
		for _, a := range s.a.acc {
			if !a.write || !after[a.fn] && !(a.fn == f && afterInstr(at[0], a.in)) {
				continue
			}
			if s.m.reachOf(P)[a.fn] && !s.rd[a.fn] {
				continue
			}
			for c := range a.cells {
				if c.key == "Tree.blocks[]" || c.key == "Tree.nextFreeBlock" {
					late = c.key + " at " + s.p.pos(a.in.Pos())
				}
			}
		}
		l.chk("C29", "started-after-loading", fnName(f), pos, late == "", "after the goroutine was started %s is still being set up", late)
		// on every successful return it has been started
		ok := true
		for _, b := range f.Blocks {
			rt, isr := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !isr {
				continue
			}
			c, isc := rt.Results[0].(*ssa.Const)
			if isc && c.IsNil() {
				continue
			}
			if !at[0].Block().Dominates(b) {
				if len(rt.Results) == 2 && definiteErr(rt.Results[1], map[interface{}]bool{}) {
					continue
				}
				ok = false
			}
		}
		l.chk("C29", "started-before-use", fnName(f), pos, ok, "a tree is returned without the goroutine handing out blocks")
	}
	l.atLeast("C29", "constructors", ctors, 2)
}

func afterInstr(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		return indexIn(a) < indexIn(b)
	}
	return reaches(a.Block(), b.Block())
}

// executedAfter: functions called by the same function after the instruction
func (s *State) executedAfter(in ssa.Instruction) map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	for _, b := range in.Parent().Blocks {
		for _, x := range b.Instrs {
			c, ok := x.(*ssa.Call)
			if !ok || x == in || !afterInstr(in, x) {
				continue
			}
			if g := callee(c); g != nil && g.Pkg == s.p.ssa {
				for f := range s.m.reachOf(g) {
					r[f] = true
				}
			}
		}
	}
	return r
}
