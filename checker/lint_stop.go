package main

// C23: typestate of Stop / Start / Len / Close. The state is (stopLock held, stopped flag, all allocators
// withdrawn); outside the lock "withdrawn" and "stopped" are equal. Loops taking or giving back every allocator
// are recognised and applied as a whole.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type tri int8 // 0 unknown, 1 true, 2 false

type stopState struct {
	lock     bool
	stopped  tri
	wd       tri
	old      tri // stopped when the lock was taken
	ever     bool
	closed   bool
	env      map[ssa.Value]bool
	deferred []*deferCall
}

type deferCall struct {
	in *ssa.Defer
}

func (s stopState) clone() stopState {
	n := s
	n.env = map[ssa.Value]bool{}
	for k, v := range s.env {
		n.env[k] = v
	}
	n.deferred = append([]*deferCall(nil), s.deferred...)
	return n
}

func (s stopState) key() string {
	e := ""
	for k, v := range s.env {
		e += fmt.Sprintf("%s%v;", k.Name(), v)
	}
	d := ""
	for _, x := range s.deferred {
		d += fmt.Sprintf("%p", x.in)
	}
	// map order: sort by rebuilding
	parts := strings.Split(e, ";")
	sortStrings(parts)
	return fmt.Sprint(s.lock, s.stopped, s.wd, s.old, s.ever, s.closed, strings.Join(parts, ";"), d)
}

func sortStrings(a []string) {
	for i := range a {
		for j := i + 1; j < len(a); j++ {
			if a[j] < a[i] {
				a[i], a[j] = a[j], a[i]
			}
		}
	}
}

type stopCheck struct {
	s       *State
	l       *Lint
	get     map[*ssa.Function]bool
	put     map[*ssa.Function]bool
	touch   map[*ssa.Function]bool
	entry   string
	visited map[ssa.Instruction]bool
	lockF   map[string]bool
}

func (s *State) stopRules() {
	q := s.newStop()
	if q == nil {
		s.l.chk("C23", "handout-found", "-", token.NoPos, false, "the handout of allocators was not found")
		return
	}
	q.rules()
}

// newStop finds the functions handing out single allocators
func (s *State) newStop() *stopCheck {
	q := &stopCheck{s: s, l: s.l, get: map[*ssa.Function]bool{}, put: map[*ssa.Function]bool{}, touch: map[*ssa.Function]bool{}, visited: map[ssa.Instruction]bool{}}
	tree := s.p.named("Tree")
	qt, _ := fieldTypeOf(tree, "allocatorQueue").(*types.Pointer)
	if qt == nil {
		return nil
	}
	for _, f := range s.p.funcs {
		if f.Signature.Recv() == nil || !types.Identical(deref(f.Signature.Recv().Type()), qt.Elem()) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok {
					if g := callee(c); g != nil && g.Pkg != nil && g.Pkg.Pkg.Path() == "sync/atomic" {
						if strings.HasPrefix(g.Name(), "CompareAndSwap") {
							q.get[f] = true
						}
						if strings.HasPrefix(g.Name(), "Store") {
							q.put[f] = true
						}
					}
				}
			}
		}
	}
	return q
}

func (q *stopCheck) rules() {
	s := q.s
	tree := s.p.named("Tree")
	if !s.l.chk("C23", "handout-found", "-", token.NoPos, len(q.get) >= 1 && len(q.put) >= 1, "the functions taking and giving back an allocator were not found") {
		return
	}
	// functions worth following
	for again := true; again; {
		again = false
		for _, f := range s.p.funcs {
			if q.touch[f] || q.get[f] || q.put[f] {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if q.interesting(in) {
						q.touch[f], again = true, true
					}
				}
			}
		}
	}
	n := 0
	for _, f := range s.p.funcs {
		if f.Object() == nil || !f.Object().Exported() || f.Signature.Recv() == nil || !types.Identical(deref(f.Signature.Recv().Type()), tree) {
			continue
		}
		if !q.locks(f) {
			continue
		}
		n++
		q.runEntry(f)
	}
	s.l.atLeast("C23", "methods", n, 4)
	// every place that withdraws or releases in a loop was seen under the rules above
	for _, f := range s.p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || !isLoopBlock(b) {
					continue
				}
				g := callee(c)
				if g != nil && (q.get[g] || q.put[g]) && !q.get[f] && !q.put[f] {
					if q.oneByOne(c) {
						continue
					}
					s.l.chk("C23", "loops-under-lock", fnName(f), in.Pos(), q.visited[in], "allocators are taken or given back in a loop that is not part of stopping or starting the tree")
				}
			}
		}
	}
	// the flag is accessed under the lock only
	for _, a := range s.a.acc {
		for c := range a.cells {
			if c.key == "Tree.stopped" {
				s.l.chk("C23", "flag-under-lock", fnName(a.fn), a.in.Pos(), q.visited[a.in], "the stopped flag is used outside the methods stopping and starting the tree")
			}
		}
	}
}

// oneByOne: the loop takes and gives back an allocator in the same round
func (q *stopCheck) oneByOne(c *ssa.Call) bool {
	h := loopHeader(c.Block())
	gets, puts := 0, 0
	for _, b := range c.Parent().Blocks {
		if !inLoop(h, b) {
			continue
		}
		for _, in := range b.Instrs {
			if x, ok := in.(*ssa.Call); ok {
				if g := callee(x); g != nil {
					if q.get[g] {
						gets++
					}
					if q.put[g] {
						puts++
					}
				}
			}
		}
	}
	return gets > 0 && puts > 0
}

func fieldTypeOf(n *types.Named, name string) types.Type {
	i := fieldIndex(n, name)
	if i < 0 {
		return nil
	}
	return n.Underlying().(*types.Struct).Field(i).Type()
}

func (q *stopCheck) mutex(c *ssa.CallCommon) string {
	g := c.StaticCallee()
	if g == nil || g.Pkg == nil || g.Pkg.Pkg.Path() != "sync" || len(c.Args) == 0 {
		return ""
	}
	fa, ok := c.Args[0].(*ssa.FieldAddr)
	if !ok || !types.Identical(deref(fa.X.Type()), q.s.p.named("Tree")) || typeName(deref(fa.Type())) == "" {
		return ""
	}
	if fieldName(fa) != "stopLock" {
		return ""
	}
	return g.Name()
}

func fieldName(fa *ssa.FieldAddr) string {
	return deref(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field).Name()
}

func (q *stopCheck) interesting(in ssa.Instruction) bool {
	if c, ok := in.(ssa.CallInstruction); ok {
		cc := c.Common()
		if q.mutex(cc) != "" {
			return true
		}
		g := cc.StaticCallee()
		if g == nil {
			if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
				g = mc.Fn.(*ssa.Function)
			}
		}
		if g != nil && (q.get[g] || q.put[g] || q.touch[g]) {
			return true
		}
		if b, ok := cc.Value.(*ssa.Builtin); ok && b.Name() == "close" {
			return true
		}
	}
	switch x := in.(type) {
	case *ssa.FieldAddr:
		if types.Identical(deref(x.X.Type()), q.s.p.named("Tree")) && fieldName(x) == "stopped" {
			return true
		}
		if types.Identical(deref(x.X.Type()), q.s.p.named("Allocator")) && fieldName(x) == "itemCounter" {
			return true
		}
	}
	return false
}

// locks: f or something it calls takes stopLock
func (q *stopCheck) locks(f *ssa.Function) bool {
	for g := range q.s.m.reachOf(f) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && q.mutex(c.Common()) == "Lock" {
					return true
				}
			}
		}
	}
	return false
}

func (q *stopCheck) chk(rule string, in ssa.Instruction, ok bool, format string, a ...interface{}) bool {
	return q.l.chk("C23", rule, fnName(in.Parent()), in.Pos(), ok, q.entry+": "+format, a...)
}

func (q *stopCheck) runEntry(f *ssa.Function) {
	name := f.Name()
	q.entry = name
	st := stopState{env: map[ssa.Value]bool{}}
	outs := q.call(f, st, 0)
	q.l.chk("C23", "returns", fnName(f), f.Pos(), len(outs) > 0, "%s never returns", name)
	for _, o := range outs {
		q.l.chk("C23", "lock-released", fnName(f), f.Pos(), !o.lock, "%s returns with the lock held", name)
		switch name {
		case "Stop":
			q.l.chk("C23", "stopped-when-it-returns", fnName(f), f.Pos(), o.stopped == 1, "%s returns while the tree is not stopped", name)
		case "Close":
			q.l.chk("C23", "stopped-when-it-returns", fnName(f), f.Pos(), o.stopped == 1 && o.closed, "%s returns while the tree is not stopped or its goroutine not ended", name)
		case "Start":
			q.l.chk("C23", "started-when-it-returns", fnName(f), f.Pos(), o.stopped == 2, "%s returns while the tree is stopped", name)
		case "Len":
			q.l.chk("C23", "unchanged-when-it-returns", fnName(f), f.Pos(), !o.ever || o.stopped == o.old, "%s leaves a stopped tree started or a started one stopped", name)
		}
	}
}

// call interprets f and returns the states at its end
func (q *stopCheck) call(f *ssa.Function, in stopState, depth int) []stopState {
	if len(f.Blocks) == 0 || depth > 8 {
		return []stopState{in}
	}
	saved := in.deferred
	in = in.clone()
	in.deferred = nil
	var outs []stopState
	seen := map[string]bool{}
	type item struct {
		b    *ssa.BasicBlock
		from *ssa.BasicBlock
		st   stopState
	}
	work := []item{{f.Blocks[0], nil, in}}
	steps := 0
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		k := fmt.Sprint(it.b.Index, "|", it.st.key())
		if it.from != nil {
			k += fmt.Sprint("|", it.from.Index)
		}
		if seen[k] {
			continue
		}
		seen[k] = true
		if steps++; steps > 5000 {
			q.l.chk("C23", "analysed", fnName(f), f.Pos(), false, "too many states")
			return outs
		}
		st := it.st
		// phis of booleans
		if it.from != nil {
			vals := map[ssa.Value]bool{}
			for _, x := range it.b.Instrs {
				ph, ok := x.(*ssa.Phi)
				if !ok {
					break
				}
				for i, p := range it.b.Preds {
					if p == it.from {
						if v, ok := q.boolOf(ph.Edges[i], st); ok {
							vals[ph] = v
						}
					}
				}
			}
			st = st.clone()
			for _, x := range it.b.Instrs {
				if ph, ok := x.(*ssa.Phi); ok {
					delete(st.env, ph)
				}
			}
			for k, v := range vals {
				st.env[k] = v
			}
		}
		// a loop over all allocators
		if isHeader(it.b) && !(it.from != nil && it.b.Dominates(it.from)) {
			if kind, site, exit := q.loop(it.b); kind != "" {
				q.visited[site] = true
				st = st.clone()
				switch kind {
				case "withdraw":
					q.chk("withdraw-under-lock", site, st.lock, "all allocators are withdrawn without holding the lock, so several callers can each get a part of them and wait forever")
					q.chk("withdraw-once", site, st.wd == 2, "all allocators are withdrawn although they may be withdrawn already: this waits forever")
					st.wd = 1
				case "release":
					q.chk("release-under-lock", site, st.lock, "all allocators are released without holding the lock")
					q.chk("release-only-withdrawn", site, st.wd == 1, "all allocators are released although they were not withdrawn: an allocator in use gets a second user")
					st.wd = 2
				case "bad":
					q.chk("all-allocators", site, false, "the loop does not cover every allocator exactly once")
				}
				work = append(work, item{exit, it.b, st})
				continue
			}
		}
		states := []stopState{st}
		for _, x := range it.b.Instrs {
			var next []stopState
			for _, s := range states {
				next = append(next, q.instr(f, x, s, depth)...)
			}
			states = next
		}
		last := it.b.Instrs[len(it.b.Instrs)-1]
		for _, s := range states {
			switch x := last.(type) {
			case *ssa.If:
				v, known := q.boolOf(x.Cond, s)
				if !known || v {
					work = append(work, item{it.b.Succs[0], it.b, s})
				}
				if !known || !v {
					work = append(work, item{it.b.Succs[1], it.b, s})
				}
			case *ssa.Return:
				o := s.clone()
				o.deferred = saved
				o.env = in.env
				outs = append(outs, o)
			case *ssa.Panic:
			default:
				for _, y := range it.b.Succs {
					work = append(work, item{y, it.b, s})
				}
			}
		}
	}
	return outs
}

func (q *stopCheck) boolOf(v ssa.Value, s stopState) (bool, bool) {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Bool {
			return constant.BoolVal(x.Value), true
		}
	case *ssa.UnOp:
		if x.Op == token.NOT {
			b, ok := q.boolOf(x.X, s)
			return !b, ok
		}
	case *ssa.BinOp:
		if x.Op == token.EQL || x.Op == token.NEQ {
			a, ok1 := q.boolOf(x.X, s)
			b, ok2 := q.boolOf(x.Y, s)
			if ok1 && ok2 {
				return (a == b) == (x.Op == token.EQL), true
			}
		}
	}
	b, ok := s.env[v]
	return b, ok
}

func (q *stopCheck) stoppedField(v ssa.Value) bool {
	fa, ok := v.(*ssa.FieldAddr)
	return ok && types.Identical(deref(fa.X.Type()), q.s.p.named("Tree")) && fieldName(fa) == "stopped"
}

func (q *stopCheck) instr(f *ssa.Function, in ssa.Instruction, s stopState, depth int) []stopState {
	one := func(s stopState) []stopState { return []stopState{s} }
	switch x := in.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL && q.stoppedField(x.X) {
			q.visited[in] = true
			q.chk("flag-under-lock", in, s.lock, "the stopped flag is read without holding the lock")
			var r []stopState
			for _, v := range []tri{1, 2} {
				if s.stopped == v || s.stopped == 0 {
					n := s.clone()
					if n.stopped == 0 {
						n.stopped, n.wd, n.old = v, v, v
					}
					n.env[x] = v == 1
					r = append(r, n)
				}
			}
			return r
		}
		if x.Op == token.MUL {
			if fa, ok := x.X.(*ssa.FieldAddr); ok && types.Identical(deref(fa.X.Type()), q.s.p.named("Allocator")) && fieldName(fa) == "itemCounter" && q.entry == "Len" {
				q.chk("counters-read-when-still", in, s.wd == 1, "the private counters of the allocators are read while operations may be running")
			}
		}
	case *ssa.Store:
		if q.stoppedField(x.Addr) {
			q.visited[in] = true
			q.chk("flag-under-lock", in, s.lock, "the stopped flag is written without holding the lock")
			v, ok := q.boolOf(x.Val, s)
			if q.chk("flag-known", in, ok, "the stopped flag is set to an unknown value") {
				s = s.clone()
				if s.stopped == 0 {
					q.chk("flag-checked-first", in, false, "the stopped flag is overwritten without having been checked")
				}
				s.stopped = 2
				if v {
					s.stopped = 1
				}
			}
			return one(s)
		}
	case *ssa.Defer:
		s = s.clone()
		s.deferred = append(s.deferred, &deferCall{x})
		return one(s)
	case *ssa.RunDefers:
		states := []stopState{s}
		for i := len(s.deferred) - 1; i >= 0; i-- {
			d := s.deferred[i]
			var next []stopState
			for _, t := range states {
				next = append(next, q.doCall(d.in, &d.in.Call, t, depth)...)
			}
			states = next
		}
		for i := range states {
			states[i].deferred = nil
		}
		return states
	case *ssa.Call:
		return q.doCall(in, &x.Call, s, depth)
	}
	return one(s)
}

func (q *stopCheck) doCall(in ssa.Instruction, cc *ssa.CallCommon, s stopState, depth int) []stopState {
	switch m := q.mutex(cc); m {
	case "Lock":
		q.chk("lock-not-taken-twice", in, !s.lock, "the lock is taken by its holder: this waits forever")
		s = s.clone()
		s.lock, s.ever = true, true
		s.stopped, s.wd = 0, 0
		return []stopState{s}
	case "Unlock":
		q.chk("lock-released-by-holder", in, s.lock, "the lock is released without being held")
		q.chk("flag-tells-the-truth", in, s.stopped == s.wd, "the lock is released while the stopped flag (%v) does not tell whether the allocators are withdrawn (%v)", s.stopped, s.wd)
		s = s.clone()
		s.lock = false
		return []stopState{s}
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok && b.Name() == "close" {
		if q.entry == "Close" {
			q.chk("goroutine-ended-when-still", in, s.stopped == 1, "the goroutine preparing memory is ended while operations may be running that wait for it")
		}
		s = s.clone()
		s.closed = true
		return []stopState{s}
	}
	g := cc.StaticCallee()
	if g == nil {
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			g = mc.Fn.(*ssa.Function)
		}
	}
	if g == nil {
		return []stopState{s}
	}
	if q.get[g] {
		q.chk("no-single-get-while-stopped", in, !(s.lock && s.wd == 1), "an allocator is requested while all of them are withdrawn: this waits forever")
		return []stopState{s}
	}
	if q.put[g] {
		return []stopState{s}
	}
	if g.Pkg == q.s.p.ssa && q.touch[g] {
		return q.call(g, s, depth+1)
	}
	return []stopState{s}
}

// loop recognises a loop that takes or gives back all allocators
func (q *stopCheck) loop(h *ssa.BasicBlock) (kind string, site ssa.Instruction, exit *ssa.BasicBlock) {
	f := h.Parent()
	var calls []*ssa.Call
	for _, b := range f.Blocks {
		if !inLoop(h, b) {
			continue
		}
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if g := callee(c); g != nil && (q.get[g] || q.put[g]) {
					calls = append(calls, c)
				}
			}
		}
	}
	if len(calls) == 0 {
		return "", nil, nil
	}
	c := calls[0]
	if q.oneByOne(c) {
		return "", nil, nil
	}
	for _, b := range f.Blocks {
		if inLoop(h, b) {
			for _, y := range b.Succs {
				if !inLoop(h, y) {
					exit = y
				}
			}
		}
	}
	if exit == nil {
		return "", nil, nil
	}
	bad := func() (string, ssa.Instruction, *ssa.BasicBlock) { return "bad", c, exit }
	if len(calls) != 1 || loopHeader(c.Block()) != h {
		return bad()
	}
	// executed in every round
	for _, p := range h.Preds {
		if h.Dominates(p) && !c.Block().Dominates(p) {
			return bad()
		}
	}
	// counter from 0 to the number of allocators
	ok := false
	var counters []ssa.Value
	for _, b := range f.Blocks {
		if !inLoop(h, b) {
			continue
		}
		for _, in := range b.Instrs {
			v, isv := in.(ssa.Value)
			if !isv || !isInteger(v.Type()) {
				continue
			}
			from, bound, step, good := countingLoop(v, c.Block())
			if !good {
				continue
			}
			o := " " + strings.Join(q.s.origins(bound), " ") + " "
			if strings.Contains(o, "len(") && (strings.Contains(o, "Tree.allocators") || strings.Contains(o, "slots.slots") || strings.Contains(o, "made")) && !strings.Contains(o, "const:") && step == 1 && from == 0 {
				ok = true
				counters = append(counters, v)
			}
		}
	}
	if !ok {
		// counting down: for i := len(x); i > 0; i--  or  i >= 0
		if q.countsDown(h, c) {
			ok = true
		}
	}
	if !ok {
		return bad()
	}
	if q.get[callee(c)] {
		return "withdraw", c, exit
	}
	arg := strip(c.Call.Args[len(c.Call.Args)-1])
	for _, v := range counters {
		if strip(v) == arg {
			return "release", c, exit
		}
	}
	for _, o := range q.s.origins(arg) {
		if o == "Allocator.id" {
			return "release", c, exit
		}
	}
	if q.downCounter(h, arg) {
		return "release", c, exit
	}
	return bad()
}

// countsDown: i := len(allocators) (or -1); i > 0 (or >= 0); i--
func (q *stopCheck) countsDown(h *ssa.BasicBlock, c *ssa.Call) bool {
	for _, in := range h.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok || !isInteger(ph.Type()) {
			continue
		}
		if q.downPhi(h, ph) {
			return true
		}
	}
	return false
}

func (q *stopCheck) downPhi(h *ssa.BasicBlock, ph *ssa.Phi) bool {
	start, stepOK := int64(99), false
	for i, p := range h.Preds {
		e := strip(ph.Edges[i])
		if h.Dominates(p) {
			bo, ok := e.(*ssa.BinOp)
			if !ok || bo.Op != token.SUB && bo.Op != token.ADD || strip(bo.X) != ssa.Value(ph) {
				return false
			}
			c, isc := constOf(bo.Y)
			if !isc || bo.Op == token.SUB && c != 1 || bo.Op == token.ADD && c != -1 {
				return false
			}
			stepOK = true
			continue
		}
		k := int64(0)
		if bo, ok := e.(*ssa.BinOp); ok && (bo.Op == token.SUB || bo.Op == token.ADD) {
			c, isc := constOf(bo.Y)
			if !isc {
				return false
			}
			k = c
			if bo.Op == token.SUB {
				k = -c
			}
			e = strip(bo.X)
		}
		o := " " + strings.Join(q.s.origins(e), " ") + " "
		if !strings.Contains(o, "len(") || !strings.Contains(o, "Tree.allocators") {
			return false
		}
		start = k
	}
	if !stepOK {
		return false
	}
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok || strip(cmp.X) != ssa.Value(ph) {
		return false
	}
	c, isc := constOf(cmp.Y)
	if !isc || !inLoop(h, h.Succs[0]) {
		return false
	}
	lowest := c // smallest value inside the loop
	if cmp.Op == token.GTR {
		lowest = c + 1
	} else if cmp.Op != token.GEQ {
		return false
	}
	return start == 0 && lowest == 1 || start == -1 && lowest == 0
}

func (q *stopCheck) downCounter(h *ssa.BasicBlock, v ssa.Value) bool {
	if ph, ok := v.(*ssa.Phi); ok && ph.Block() == h {
		// indices start-1 .. 0
		return q.downPhi(h, ph)
	}
	if bo, ok := v.(*ssa.BinOp); ok && bo.Op == token.SUB {
		if ph, ok := strip(bo.X).(*ssa.Phi); ok && ph.Block() == h {
			return q.downPhi(h, ph)
		}
	}
	return false
}
