package main

// Error discipline, termination and input validation of the state code (C20, C21).

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var errorType = types.Universe.Lookup("error").Type()

func isError(t types.Type) bool { return types.Identical(t, errorType) }

// errResult is the SSA value of the error result of a call (nil when dropped), ok if the call returns an error
func errResult(c *ssa.Call) (ssa.Value, bool) {
	switch t := c.Type().(type) {
	case *types.Tuple:
		for i := 0; i < t.Len(); i++ {
			if isError(t.At(i).Type()) {
				for _, r := range *c.Referrers() {
					if e, ok := r.(*ssa.Extract); ok && e.Index == i {
						return e, true
					}
				}
				return nil, true
			}
		}
	default:
		if isError(t) {
			return c, true
		}
	}
	return nil, false
}

func extractOf(c ssa.Value, i int) ssa.Value {
	for _, r := range *c.Referrers() {
		if e, ok := r.(*ssa.Extract); ok && e.Index == i {
			return e
		}
	}
	return nil
}

// pathWalk follows all paths from an instruction, tracking which values and variables carry a tracked value
type pathWalk struct {
	s       *State
	nonnil  bool // tracked values are known non-nil errors: tests of them are decided
	errVal  ssa.Value
	okOnly  bool // follow only paths on which errVal is nil
	onRet   func(r *ssa.Return, carry map[interface{}]bool, path *walkState)
	onSend  func(sd *ssa.Send, carry map[interface{}]bool) bool // true: done
	onInstr func(in ssa.Instruction, carry map[interface{}]bool, path *walkState) bool
	addProp bool // sums of tracked values are tracked
	steps   int
	seen    map[string]bool
	over    bool
}

type walkState struct {
	carry map[interface{}]bool
	facts map[string]bool // expr == const
	eof   bool
	lenOK bool
	ids   map[interface{}]int
}

func (w *walkState) clone() *walkState {
	n := &walkState{carry: map[interface{}]bool{}, facts: map[string]bool{}, eof: w.eof, lenOK: w.lenOK}
	for k, v := range w.carry {
		n.carry[k] = v
	}
	for k, v := range w.facts {
		n.facts[k] = v
	}
	return n
}

func (w *walkState) key() string {
	var l []string
	for k := range w.carry {
		if v, ok := k.(ssa.Value); ok {
			l = append(l, v.Name())
		} else {
			l = append(l, fmt.Sprint(k))
		}
	}
	for k, v := range w.facts {
		l = append(l, fmt.Sprintf("%s=%v", k, v))
	}
	sort.Strings(l)
	return strings.Join(l, ",") + fmt.Sprint(w.eof, w.lenOK)
}

// exprKey is a structural name of a pure expression
func exprKey(v ssa.Value, depth int) string {
	if depth > 6 {
		return v.Name()
	}
	switch x := v.(type) {
	case *ssa.Const:
		return "c:" + x.Name()
	case *ssa.Convert:
		return "conv(" + exprKey(x.X, depth+1) + ")"
	case *ssa.ChangeType:
		return exprKey(x.X, depth+1)
	case *ssa.Slice:
		k := "slice(" + exprKey(x.X, depth+1)
		for _, o := range []ssa.Value{x.Low, x.High} {
			if o == nil {
				k += ",_"
			} else {
				k += "," + exprKey(o, depth+1)
			}
		}
		return k + ")"
	case *ssa.BinOp:
		return "(" + exprKey(x.X, depth+1) + x.Op.String() + exprKey(x.Y, depth+1) + ")"
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return "len(" + exprKey(x.Call.Args[0], depth+1) + ")"
		}
	}
	return v.Name()
}

func (p *pathWalk) run(b *ssa.BasicBlock, i int, st *walkState) {
	if p.seen == nil {
		p.seen = map[string]bool{}
	}
	for ; i < len(b.Instrs); i++ {
		p.steps++
		if p.steps > 400000 {
			p.over = true
			return
		}
		in := b.Instrs[i]
		if p.onInstr != nil && p.onInstr(in, st.carry, st) {
			return
		}
		switch x := in.(type) {
		case *ssa.Store:
			for c := range p.s.a.of(x.Addr) {
				if c.kind != CObj && c.kind != CField {
					continue
				}
				if st.carry[x.Val] {
					st.carry[c] = true
				} else {
					delete(st.carry, c)
				}
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				delete(st.carry, x)
				for c := range p.s.a.of(x.X) {
					if st.carry[c] {
						st.carry[x] = true
					}
				}
			}
		case *ssa.MakeInterface:
			p.copyTo(st, x, x.X)
		case *ssa.ChangeInterface:
			p.copyTo(st, x, x.X)
		case *ssa.Convert:
			p.copyTo(st, x, x.X)
		case *ssa.Extract:
			// results of calls are new values
		case *ssa.BinOp:
			if p.addProp && x.Op == token.ADD {
				delete(st.carry, x)
				if st.carry[x.X] || st.carry[x.Y] {
					st.carry[x] = true
				}
			}
		case *ssa.Call:
			delete(st.carry, x)
			if g := callee(x); g != nil && g.Pkg != nil && (g.Pkg.Pkg.Path() == "fmt" || g.Pkg.Pkg.Path() == "errors") && isError(x.Type()) {
				st.carry[x] = true // definitely not nil
			} else if g != nil && g.Pkg == p.s.p.ssa {
				for _, a := range x.Call.Args {
					if st.carry[a] && isError(x.Type()) {
						st.carry[x] = true
					}
				}
			}
		case *ssa.Send:
			if p.onSend != nil && p.onSend(x, st.carry) {
				return
			}
		case *ssa.Return:
			if p.onRet != nil {
				p.onRet(x, st.carry, st)
			}
			return
		case *ssa.Panic:
			return
		case *ssa.If:
			t, f := p.decide(x.Cond, st)
			if t != nil {
				p.edge(b, b.Succs[0], 0, t)
			}
			if f != nil {
				p.edge(b, b.Succs[1], 1, f)
			}
			return
		case *ssa.Jump:
			p.edge(b, b.Succs[0], 0, st.clone())
			return
		}
	}
}

func (p *pathWalk) copyTo(st *walkState, to, from ssa.Value) {
	if st.carry[from] {
		st.carry[to] = true
	} else {
		delete(st.carry, to)
	}
}

func (p *pathWalk) edge(from, to *ssa.BasicBlock, succ int, st *walkState) {
	pi := predIndex(from, to, succ)
	upd := map[ssa.Value]bool{}
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		upd[ph] = st.carry[ph.Edges[pi]]
	}
	for k, v := range upd {
		if v {
			st.carry[k] = true
		} else {
			delete(st.carry, k)
		}
	}
	k := fmt.Sprintf("%d|%s", to.Index, st.key())
	if p.seen[k] {
		return
	}
	p.seen[k] = true
	p.run(to, 0, st)
}

// decide splits on a condition; nil means the branch is not taken
func (p *pathWalk) decide(c ssa.Value, st *walkState) (t, f *walkState) {
	neg := false
	for {
		u, ok := c.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		neg = !neg
		c = u.X
	}
	t, f = st.clone(), st.clone()
	if bo, ok := c.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) {
		eq, ne := t, f
		if bo.Op == token.NEQ {
			eq, ne = f, t
		}
		x, y := bo.X, bo.Y
		if k, ok := x.(*ssa.Const); ok && k.IsNil() {
			x, y = y, x
		}
		kill := func(s *walkState) {
			if s == t {
				t = nil
			} else {
				f = nil
			}
		}
		if k, ok := y.(*ssa.Const); ok && k.IsNil() && isError(x.Type()) {
			if p.nonnil && st.carry[x] {
				kill(eq)
			}
			if p.okOnly && x == p.errVal {
				kill(ne)
			}
		} else if isError(x.Type()) && (st.carry[x] || st.carry[y]) {
			// compared with a known error, like io.EOF
			eq.eof = true
		} else if k, ok := y.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
			e := exprKey(x, 0) + "=="
			v := constant.StringVal(k.Value)
			if known, ok := st.facts[e+v]; ok {
				if known {
					kill(ne)
				} else {
					kill(eq)
				}
			} else {
				other := false
				for fk, fv := range st.facts {
					if fv && strings.HasPrefix(fk, e) {
						other = true
					}
				}
				if other {
					kill(eq)
				} else {
					eq.facts[e+v] = true
					ne.facts[e+v] = false
				}
			}
		}
	}
	if st.eof || (t != nil && t.eof) || (f != nil && f.eof) {
		if bo, ok := c.(*ssa.BinOp); ok && st.eof {
			for _, o := range []ssa.Value{bo.X, bo.Y} {
				if ca, ok := o.(*ssa.Call); ok {
					if b, ok := ca.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
						if t != nil {
							t.lenOK = true
						}
						if f != nil {
							f.lenOK = true
						}
					}
				}
			}
		}
	}
	if neg {
		t, f = f, t
	}
	return
}

func indexIn(in ssa.Instruction) int {
	for i, x := range in.Block().Instrs {
		if x == in {
			return i
		}
	}
	return 0
}

// retErr is the error operand of a return, nil if the function returns no error
func retErr(r *ssa.Return) ssa.Value {
	for _, v := range r.Results {
		if isError(v.Type()) {
			return v
		}
	}
	return nil
}

// definiteErr: the value cannot be nil
func definiteErr(v ssa.Value, carry map[interface{}]bool) bool {
	if carry[v] {
		return true
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL && isError(deref(g.Type())) {
			return true
		}
	case *ssa.Call:
		g := callee(x)
		return g != nil && g.Pkg != nil && (g.Pkg.Pkg.Path() == "fmt" || g.Pkg.Pkg.Path() == "errors")
	case *ssa.MakeInterface:
		return true
	case *ssa.Phi:
		return false
	}
	return false
}

// writes are the calls that write to the user's writer
func (s *State) isWrite(c *ssa.Call) bool {
	cc := c.Common()
	if cc.IsInvoke() {
		return cc.Method.Name() == "Write" || cc.Method.Name() == "WriteString" || cc.Method.Name() == "WriteByte"
	}
	g := callee(c)
	if g == nil || g.Pkg == nil || g.Pkg == s.p.ssa {
		return false
	}
	switch g.Pkg.Pkg.Path() {
	case "fmt":
		return strings.HasPrefix(g.Name(), "Fprint")
	case "io":
		return g.Name() == "WriteString" || strings.HasPrefix(g.Name(), "Copy")
	case "bufio":
		return g.Name() == "Flush" || strings.HasPrefix(g.Name(), "Write")
	case "encoding/binary":
		return g.Name() == "Write"
	}
	return false
}

func (s *State) errorRules() {
	nw := 0
	for f := range s.wr {
		for _, b := range f.Blocks {
			for i, in := range b.Instrs {
				// an error received from another goroutine counts as well
				if u, ok := in.(*ssa.UnOp); ok && u.Op == token.ARROW && isError(u.Type()) {
					s.followErr("C20", f, b, i, u, "an error received from another goroutine")
					continue
				}
				c, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				g := callee(c)
				own := g != nil && g.Pkg == s.p.ssa
				w := s.isWrite(c)
				if !own && !w {
					continue
				}
				ev, has := errResult(c)
				if !has {
					continue
				}
				if w {
					nw++
				}
				what := "the error of a write"
				if own {
					what = "the error of " + fnName(g)
				}
				if ev == nil {
					s.l.chk("C20", "error-kept", fnName(f), in.Pos(), false, "%s is ignored", what)
					continue
				}
				s.followErr("C20", f, b, i, ev, what)
				s.followCount(f, b, i, c, ev)
			}
		}
	}
	s.l.atLeast("C20", "writes", nw, 7)
	s.l.n["C20"] += nw
	s.goroutines()
}

// followErr: on every path on which the error is not nil, it is returned or handed on
func (s *State) followErr(prop string, f *ssa.Function, b *ssa.BasicBlock, i int, ev ssa.Value, what string) {
	pw := &pathWalk{s: s, nonnil: true}
	start := indexIn(ev.(ssa.Instruction)) + 1
	blk := ev.(ssa.Instruction).Block()
	bad := ""
	pw.onRet = func(r *ssa.Return, carry map[interface{}]bool, st *walkState) {
		e := retErr(r)
		if e == nil {
			// a goroutine or a function without error result: a captured variable may carry it
			for k := range carry {
				if c, ok := k.(*Cell); ok && (c.kind == CField || s.outlives(c, f)) {
					return
				}
			}
			bad = "the function returns at " + s.p.pos(r.Pos()) + " without handing it on"
			return
		}
		if !definiteErr(e, carry) {
			bad = "success is reported at " + s.p.pos(r.Pos())
		}
	}
	pw.onSend = func(sd *ssa.Send, carry map[interface{}]bool) bool { return carry[sd.X] }
	st := &walkState{carry: map[interface{}]bool{ev: true}, facts: map[string]bool{}}
	pw.run(blk, start, st)
	if pw.over {
		bad = "too many paths to decide"
	}
	s.l.n[prop]++
	s.l.chk(prop, "error-kept", fnName(f), ev.Pos(), bad == "", "%s is lost: %s", what, bad)
}

// outlives: a variable of an enclosing function
func (s *State) outlives(c *Cell, f *ssa.Function) bool {
	return c.kind == CObj && c.site.Parent() != f
}

// followCount: the number of bytes of every successful write becomes part of the returned count
func (s *State) followCount(f *ssa.Function, b *ssa.BasicBlock, i int, c *ssa.Call, ev ssa.Value) {
	t, ok := c.Type().(*types.Tuple)
	if !ok {
		return
	}
	ni := -1
	for k := 0; k < t.Len(); k++ {
		if isInteger(t.At(k).Type()) {
			ni = k
		}
	}
	if ni < 0 {
		return
	}
	n := extractOf(c, ni)
	bad := ""
	if n == nil {
		bad = "it is ignored"
	} else {
		pw := &pathWalk{s: s, okOnly: true, errVal: ev, addProp: true}
		pw.onRet = func(r *ssa.Return, carry map[interface{}]bool, st *walkState) {
			for _, v := range r.Results {
				if isInteger(v.Type()) {
					if carry[v] {
						return
					}
					// an error return later on may leave out the count
					if e := retErr(r); e != nil {
						if k, ok := e.(*ssa.Const); !ok || !k.IsNil() {
							if definiteErr(e, carry) || e != ev {
								if _, isphi := e.(*ssa.Phi); !isphi {
									return
								}
							}
						}
					}
					bad = "it is missing from the count returned at " + s.p.pos(r.Pos())
					return
				}
			}
			for k := range carry {
				if c, ok := k.(*Cell); ok && (c.kind == CField || s.outlives(c, f)) {
					return
				}
			}
			bad = "it is not counted when the function returns at " + s.p.pos(r.Pos())
		}
		st := &walkState{carry: map[interface{}]bool{n: true}, facts: map[string]bool{}}
		in := n.(ssa.Instruction)
		pw.run(in.Block(), indexIn(in)+1, st)
	}
	s.l.chk("C20", "bytes-counted", fnName(f), c.Pos(), bad == "", "the number of bytes of a successful write is lost: %s", bad)
}

// chanCells: the channels a value may be
func (s *State) chanOf(v ssa.Value) map[*Cell]bool {
	r := map[*Cell]bool{}
	for c := range s.a.of(v) {
		r[c] = true
	}
	return r
}

func meet(a, b map[*Cell]bool) bool {
	for c := range a {
		if b[c] {
			return true
		}
	}
	return false
}

// goroutines: consumers drain, producers close, completion is awaited (C20: WriteState always returns)
func (s *State) goroutines() {
	type goSite struct {
		in *ssa.Go
		fn *ssa.Function // body
		f  *ssa.Function // starter
	}
	var gos []goSite
	for f := range s.wr {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				g, ok := in.(*ssa.Go)
				if !ok {
					continue
				}
				body := callee(g)
				if s.l.chk("C20", "goroutine-known", fnName(f), in.Pos(), body != nil && body.Pkg == s.p.ssa, "a goroutine whose code is unknown is started") {
					gos = append(gos, goSite{g, body, f})
				}
			}
		}
	}
	s.l.n["C20"] += len(gos)
	for _, g := range gos {
		body := s.p.reach(g.fn)
		for x := range body {
			for _, b := range x.Blocks {
				for _, in := range b.Instrs {
					switch u := in.(type) {
					case *ssa.UnOp:
						if u.Op != token.ARROW || !u.CommaOk && !isLoopBlock(b) {
							continue
						}
						h := loopHeader(b)
						if h == nil {
							continue
						}
						// a consumer loop: it is left only when the channel is closed
						exits := 0
						bad := ""
						for _, y := range x.Blocks {
							if !inLoop(h, y) {
								continue
							}
							for k, su := range y.Succs {
								if inLoop(h, su) {
									continue
								}
								if s.closedExit(y, k, u) {
									exits++
									continue
								}
								if panicOnly(x)[su] {
									continue
								}
								bad = s.p.pos(lastPos(y))
							}
							if _, isret := y.Instrs[len(y.Instrs)-1].(*ssa.Return); isret {
								bad = s.p.pos(lastPos(y))
							}
						}
						s.l.chk("C20", "consumer-drains", fnName(x), u.Pos(), bad == "", "the goroutine stops receiving before the channel is closed (%s): the senders would block forever", bad)
						ch := s.chanOf(u.X)
						// the starter closes it on every path
						ok := s.mustAfter(g.in, func(in ssa.Instruction) bool {
							c, isc := in.(ssa.CallInstruction)
							if !isc {
								return false
							}
							bi, isb := c.Common().Value.(*ssa.Builtin)
							return isb && bi.Name() == "close" && meet(s.chanOf(c.Common().Args[0]), ch)
						})
						s.l.chk("C20", "channel-closed", fnName(g.f), g.in.Pos(), ok, "the channel the goroutine receives from is not closed on every path: it would never end")
					case *ssa.Send:
						ch := s.chanOf(u.Chan)
						if isLoopBlock(b) {
							// somebody else receives in a loop, and closing waits for this goroutine
							found := false
							for _, o := range gos {
								if o.fn == g.fn {
									continue
								}
								for y := range s.p.reach(o.fn) {
									for _, b2 := range y.Blocks {
										for _, in2 := range b2.Instrs {
											if u2, ok := in2.(*ssa.UnOp); ok && u2.Op == token.ARROW && meet(s.chanOf(u2.X), ch) && isLoopBlock(b2) {
												found = true
											}
										}
									}
								}
							}
							if !found {
								// the starter itself may receive
								for _, b2 := range g.f.Blocks {
									for _, in2 := range b2.Instrs {
										if u2, ok := in2.(*ssa.UnOp); ok && u2.Op == token.ARROW && meet(s.chanOf(u2.X), ch) && isLoopBlock(b2) {
											found = true
										}
									}
								}
							}
							s.l.chk("C20", "send-received", fnName(x), u.Pos(), found, "nobody keeps receiving what the goroutine sends")
							s.waited(g.f, g.in, g.fn, ch)
						} else {
							ok := s.mustAfter(g.in, func(in ssa.Instruction) bool {
								r, isr := in.(*ssa.UnOp)
								return isr && r.Op == token.ARROW && meet(s.chanOf(r.X), ch)
							}) || s.buffered(ch)
							s.l.chk("C20", "result-received", fnName(x), u.Pos(), ok, "the result of the goroutine is not received on every path: it would block forever")
							// and sent on every path of the goroutine
							ok2 := s.mustOnAllPaths(x, func(in ssa.Instruction) bool {
								sd, iss := in.(*ssa.Send)
								return iss && meet(s.chanOf(sd.Chan), ch)
							})
							s.l.chk("C20", "result-sent", fnName(x), u.Pos(), ok2, "the goroutine can end without sending its result: the receiver would block forever")
						}
					}
				}
			}
		}
	}
	s.l.atLeast("C20", "goroutines", len(gos), 2)
}

func (s *State) buffered(ch map[*Cell]bool) bool {
	for c := range ch {
		if c.kind != CObj {
			return false
		}
		m, ok := c.site.(*ssa.MakeChan)
		if !ok {
			return false
		}
		k, ok := m.Size.(*ssa.Const)
		if !ok || k.Int64() < 1 {
			return false
		}
	}
	return len(ch) > 0
}

// waited: closing a channel the workers send to comes after waiting for them, and each worker reports its end
func (s *State) waited(f *ssa.Function, g *ssa.Go, body *ssa.Function, ch map[*Cell]bool) {
	isWG := func(in ssa.Instruction, name string) bool {
		c, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		x := callee(c)
		return x != nil && x.Pkg != nil && x.Pkg.Pkg.Path() == "sync" && x.Name() == name
	}
	var closes, waits []ssa.Instruction
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if bi, isb := c.Common().Value.(*ssa.Builtin); isb && bi.Name() == "close" && meet(s.chanOf(c.Common().Args[0]), ch) {
					closes = append(closes, in)
				}
			}
			if isWG(in, "Wait") {
				waits = append(waits, in)
			}
		}
	}
	for _, c := range closes {
		ok := false
		for _, w := range waits {
			if before(w, c) {
				ok = true
			}
		}
		s.l.chk("C20", "close-after-wait", fnName(f), c.Pos(), ok, "the channel is closed before the goroutines sending to it have ended")
	}
	if len(waits) == 0 {
		return
	}
	done := s.mustOnAllPaths(body, func(in ssa.Instruction) bool { return isWG(in, "Done") })
	s.l.chk("C20", "worker-done", fnName(body), body.Pos(), done, "a goroutine can end without reporting it: Wait would block forever")
	added := false
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if isWG(in, "Add") && before(in, g) {
				// once per goroutine: in the same loop, or with the number of iterations
				hg, ha := loopHeader(g.Block()), loopHeader(in.Block())
				c := in.(ssa.CallInstruction).Common()
				k, isc := c.Args[len(c.Args)-1].(*ssa.Const)
				if hg == ha && isc && k.Int64() == 1 {
					added = true
				}
				if hg != nil && ha != hg {
					if bound := loopBound(hg); bound != nil && exprKey(strip(bound), 0) == exprKey(strip(c.Args[len(c.Args)-1]), 0) {
						added = true
					}
				}
			}
		}
	}
	s.l.chk("C20", "worker-added", fnName(f), g.Pos(), added, "the number of goroutines waited for is not the number started")
}

// loopBounds: everything compared when leaving the loop
func loopBounds(h *ssa.BasicBlock) []ssa.Value {
	var r []ssa.Value
	for _, x := range h.Parent().Blocks {
		if !inLoop(h, x) || len(x.Instrs) == 0 {
			continue
		}
		iff, ok := x.Instrs[len(x.Instrs)-1].(*ssa.If)
		if !ok || inLoop(h, x.Succs[0]) && inLoop(h, x.Succs[1]) {
			continue
		}
		if c, ok := iff.Cond.(*ssa.BinOp); ok {
			r = append(r, c.X, c.Y)
		}
	}
	return r
}

// loopBound: the value a counter is compared with when leaving the loop
func loopBound(h *ssa.BasicBlock) ssa.Value {
	for _, x := range h.Parent().Blocks {
		if !inLoop(h, x) || len(x.Instrs) == 0 {
			continue
		}
		iff, ok := x.Instrs[len(x.Instrs)-1].(*ssa.If)
		if !ok || inLoop(h, x.Succs[0]) && inLoop(h, x.Succs[1]) {
			continue
		}
		if c, ok := iff.Cond.(*ssa.BinOp); ok {
			if _, isphi := strip(c.X).(*ssa.Phi); isphi {
				return c.Y
			}
			return c.Y
		}
	}
	return nil
}

func lastPos(b *ssa.BasicBlock) token.Pos {
	for i := len(b.Instrs) - 1; i >= 0; i-- {
		if b.Instrs[i].Pos().IsValid() {
			return b.Instrs[i].Pos()
		}
	}
	return token.NoPos
}

func loopHeader(b *ssa.BasicBlock) *ssa.BasicBlock {
	for h := b; h != nil; h = h.Idom() {
		if isHeader(h) && inLoop(h, b) {
			return h
		}
	}
	return nil
}

func isLoopBlock(b *ssa.BasicBlock) bool { return loopHeader(b) != nil }

// closedExit: the edge is taken when the receive reports a closed channel
func (s *State) closedExit(y *ssa.BasicBlock, k int, u *ssa.UnOp) bool {
	iff, ok := y.Instrs[len(y.Instrs)-1].(*ssa.If)
	if !ok || !u.CommaOk {
		return false
	}
	c := iff.Cond
	want := 1
	if n, ok := c.(*ssa.UnOp); ok && n.Op == token.NOT {
		c = n.X
		want = 0
	}
	e, ok := c.(*ssa.Extract)
	return ok && e.Tuple == u && e.Index == 1 && k == want
}

// mustAfter: every path from in to a return executes an instruction satisfying pred
func (s *State) mustAfter(in ssa.Instruction, pred func(ssa.Instruction) bool) bool {
	f := in.Parent()
	if f.Recover == nil || true {
		// deferred calls count for every return
		for _, b := range f.Blocks {
			for _, x := range b.Instrs {
				if d, ok := x.(*ssa.Defer); ok && pred(d) && before(d, in) {
					return true
				}
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var w func(b *ssa.BasicBlock, i int) bool
	w = func(b *ssa.BasicBlock, i int) bool {
		for ; i < len(b.Instrs); i++ {
			if pred(b.Instrs[i]) {
				return true
			}
			switch b.Instrs[i].(type) {
			case *ssa.Return:
				return false
			case *ssa.Panic:
				return true
			}
		}
		for _, su := range b.Succs {
			if seen[su] {
				continue
			}
			seen[su] = true
			if !w(su, 0) {
				return false
			}
		}
		return true
	}
	return w(in.Block(), indexIn(in)+1)
}

func (s *State) mustOnAllPaths(f *ssa.Function, pred func(ssa.Instruction) bool) bool {
	if len(f.Blocks) == 0 {
		return false
	}
	for _, b := range f.Blocks {
		for _, x := range b.Instrs {
			if d, ok := x.(*ssa.Defer); ok && pred(d) && b.Dominates(b) && (b.Index == 0 || f.Blocks[0].Dominates(b) && len(b.Preds) <= 1) {
				return true
			}
		}
	}
	if pred(f.Blocks[0].Instrs[0]) {
		return true
	}
	return s.mustAfter(f.Blocks[0].Instrs[0], pred)
}

// ---- C21 ----

func (s *State) loadRules() {
	l := s.l
	n := 0
	for f := range s.rd {
		for _, b := range f.Blocks {
			for i, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				g := callee(c)
				if g == nil && !c.Call.IsInvoke() {
					continue
				}
				ev, has := errResult(c)
				if !has {
					continue
				}
				pkg := ""
				if g != nil && g.Pkg != nil {
					pkg = g.Pkg.Pkg.Path()
				}
				if pkg == "fmt" || pkg == "errors" {
					continue
				}
				n++
				if ev == nil {
					l.chk("C21", "error-used", fnName(f), in.Pos(), false, "the error of %s is ignored when loading", calleeName(c))
					continue
				}
				s.followLoadErr(f, b, i, c, ev, pkg)
			}
		}
		s.sizes(f)
	}
	l.atLeast("C21", "reads and conversions", n, 10)
	s.complete()
}

func calleeName(c ssa.CallInstruction) string {
	if g := callee(c); g != nil {
		return g.String()
	}
	if c.Common().IsInvoke() {
		return c.Common().Method.FullName()
	}
	return "a call"
}

// followLoadErr: after a failed read, conversion or decoding, loading fails; a value whose conversion failed is not used
func (s *State) followLoadErr(f *ssa.Function, b *ssa.BasicBlock, i int, c *ssa.Call, ev ssa.Value, pkg string) {
	bad := ""
	val := ssa.Value(nil)
	if pkg == "strconv" {
		val = extractOf(c, 0)
	}
	conv := map[ssa.Value]bool{}
	if val != nil {
		conv[val] = true
	}
	pw := &pathWalk{s: s, nonnil: true}
	back := c.Block()
	pw.onInstr = func(in ssa.Instruction, carry map[interface{}]bool, st *walkState) bool {
		if in == ssa.Instruction(c) {
			// the next input is read: for a conversion, the failed value was not used
			if val == nil && bad == "" {
				bad = "loading goes on with the next input"
			}
			return true
		}
		if val == nil {
			return false
		}
		if u, ok := in.(*ssa.Convert); ok && conv[u.X] {
			conv[u] = true
			return false
		}
		if _, ok := in.(*ssa.Phi); ok {
			return false
		}
		for _, op := range in.Operands(nil) {
			if *op == nil || !conv[*op] {
				continue
			}
			switch in.(type) {
			case *ssa.MakeInterface, *ssa.BinOp, *ssa.DebugRef:
				// printing or testing it
			case *ssa.Return:
			default:
				if bad == "" {
					bad = "the value of a failed conversion is used at " + s.p.pos(in.Pos())
				}
			}
		}
		return false
	}
	pw.onRet = func(r *ssa.Return, carry map[interface{}]bool, st *walkState) {
		e := retErr(r)
		if e == nil {
			bad = "the function cannot report it"
			return
		}
		if definiteErr(e, carry) {
			return
		}
		if val != nil {
			return // not used on this path
		}
		if st.eof && st.lenOK {
			return // the regular end of the input
		}
		if st.eof {
			bad = "the end of the input is accepted in the middle of a line (" + s.p.pos(r.Pos()) + ")"
			return
		}
		bad = "success is reported at " + s.p.pos(r.Pos())
	}
	st := &walkState{carry: map[interface{}]bool{ev: true}, facts: map[string]bool{}}
	ei := ev.(ssa.Instruction)
	pw.run(ei.Block(), indexIn(ei)+1, st)
	_ = back
	if pw.over {
		bad = "too many paths to decide"
	}
	s.l.n["C21"]++
	s.l.chk("C21", "error-used", fnName(f), c.Pos(), bad == "", "the error of %s is lost when loading: %s", calleeName(c), bad)
}

// errorOnly: every path from b returns a definite error (or panics)
func errorOnly(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var w func(b *ssa.BasicBlock) bool
	w = func(b *ssa.BasicBlock) bool {
		if seen[b] {
			return true
		}
		seen[b] = true
		switch x := b.Instrs[len(b.Instrs)-1].(type) {
		case *ssa.Return:
			e := retErr(x)
			if e == nil {
				return false
			}
			if k, ok := e.(*ssa.Const); ok && k.IsNil() {
				return false
			}
			return true
		case *ssa.Panic:
			return true
		}
		for _, su := range b.Succs {
			if !w(su) {
				return false
			}
		}
		return true
	}
	return w(b)
}

// tainted: numbers parsed from the input
func (s *State) tainted(f *ssa.Function) map[ssa.Value]bool {
	t := map[ssa.Value]bool{}
	for changed := true; changed; {
		changed = false
		add := func(v ssa.Value) {
			if !t[v] {
				t[v] = true
				changed = true
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Extract:
					if c, ok := x.Tuple.(*ssa.Call); ok {
						if g := callee(c); g != nil && g.Pkg != nil && g.Pkg.Pkg.Path() == "strconv" && x.Index == 0 {
							add(x)
						}
					}
				case *ssa.Convert:
					if t[x.X] && isInteger(x.Type()) {
						add(x)
					}
				case *ssa.Phi:
					for _, e := range x.Edges {
						if t[e] && isInteger(x.Type()) {
							add(x)
						}
					}
				case *ssa.BinOp:
					if isInteger(x.Type()) && (t[x.X] || t[x.Y]) {
						add(x)
					}
				case *ssa.UnOp:
					// a variable
					if x.Op == token.MUL && isInteger(x.Type()) {
						for c := range s.a.of(x.X) {
							if c.kind != CObj {
								continue
							}
							for _, a := range s.a.acc {
								if a.write && a.val != nil && a.cells[c] && t[a.val] {
									add(x)
								}
							}
						}
					}
				}
			}
		}
	}
	return t
}

// guard: on every path to b, v was compared such that too large (upper) or negative (lower) values end in an error
func (s *State) guard(v ssa.Value, b *ssa.BasicBlock, upper bool) bool {
	vs := strip(v)
	for d := b; d != nil; d = d.Idom() {
		p := d.Idom()
		if p == nil {
			break
		}
		iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cmp, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		l, r := strip(cmp.X), strip(cmp.Y)
		op := cmp.Op
		if exprKey(l, 0) != exprKey(vs, 0) {
			if exprKey(r, 0) != exprKey(vs, 0) {
				continue
			}
			l, r = r, l
			switch op {
			case token.LSS:
				op = token.GTR
			case token.GTR:
				op = token.LSS
			case token.LEQ:
				op = token.GEQ
			case token.GEQ:
				op = token.LEQ
			}
		}
		// the edge to d
		for k, su := range p.Succs {
			if !(su == d || su.Dominates(d)) || len(su.Preds) != 1 && su != d {
				continue
			}
			other := p.Succs[1-k]
			if other == su {
				continue
			}
			eff := op
			if k == 1 {
				switch op {
				case token.LSS:
					eff = token.GEQ
				case token.GEQ:
					eff = token.LSS
				case token.GTR:
					eff = token.LEQ
				case token.LEQ:
					eff = token.GTR
				case token.EQL:
					eff = token.NEQ
				case token.NEQ:
					eff = token.EQL
				}
			}
			if upper && (eff == token.LSS || eff == token.LEQ || eff == token.EQL) {
				return true
			}
			if !upper && (eff == token.GEQ || eff == token.GTR || eff == token.EQL) {
				return true
			}
		}
	}
	return false
}

// bounded: v cannot be out of range at block b because of unchecked input
func (s *State) bounded(v ssa.Value, b *ssa.BasicBlock, t map[ssa.Value]bool, upper bool, seen map[ssa.Value]bool) bool {
	if c, ok := v.(*ssa.Const); ok {
		return upper || c.Value == nil || c.Int64() >= 0
	}
	if !t[v] || seen[v] {
		return true
	}
	seen[v] = true
	if s.guard(v, b, upper) {
		return true
	}
	if !upper && isUnsigned(strip(v).Type()) {
		// converted from an unsigned number: negative only when huge
		return s.guard(v, b, true)
	}
	switch x := v.(type) {
	case *ssa.Convert:
		return s.bounded(x.X, b, t, upper, seen)
	case *ssa.Phi:
		for i, e := range x.Edges {
			if !s.bounded(e, x.Block().Preds[i], t, upper, seen) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return false
		}
		for c := range s.a.of(x.X) {
			for _, a := range s.a.acc {
				if a.write && a.val != nil && a.cells[c] && !s.bounded(a.val, a.in.Block(), t, upper, seen) {
					return false
				}
			}
		}
		return true
	}
	return false
}

func (s *State) sizes(f *ssa.Function) {
	t := s.tainted(f)
	if len(t) == 0 {
		return
	}
	check := func(in ssa.Instruction, v ssa.Value, what string, lower bool) {
		if v == nil || !t[v] {
			return
		}
		s.l.n["C21"]++
		ok := s.bounded(v, in.Block(), t, true, map[ssa.Value]bool{})
		s.l.chk("C21", "checked-number", fnName(f), in.Pos(), ok, "a number from the input is used as %s without an upper limit", what)
		if ok && lower && !isUnsigned(v.Type()) {
			ok = s.bounded(v, in.Block(), t, false, map[ssa.Value]bool{})
			s.l.chk("C21", "checked-sign", fnName(f), in.Pos(), ok, "a number from the input is used as %s without excluding negative ones", what)
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.MakeSlice:
				check(in, x.Len, "a size", true)
				check(in, x.Cap, "a size", true)
			case *ssa.IndexAddr:
				check(in, x.Index, "an index", true)
			case *ssa.Index:
				check(in, x.Index, "an index", true)
			case *ssa.Slice:
				check(in, x.Low, "a slice bound", true)
				check(in, x.High, "a slice bound", true)
			case *ssa.MakeChan:
				check(in, x.Size, "a size", true)
			case *ssa.Store:
				// a field used as bound or index by the loader
				for c := range s.a.of(x.Addr) {
					if c.key == "Tree.nextFreeBlock" {
						check(in, x.Val, "the number of blocks", false)
					}
				}
			case *ssa.Call:
				if g := callee(x); g != nil && g.Pkg == s.p.ssa {
					for i, a := range x.Call.Args {
						if t[a] && i < len(g.Params) && s.paramSink(g, g.Params[i]) {
							check(in, a, "a size in "+fnName(g), true)
						}
					}
				}
			case *ssa.FieldAddr:
				// a part of the tree that exists only after another header was read
				u, ok := x.X.(*ssa.UnOp)
				if !ok || u.Op != token.MUL {
					continue
				}
				fa, ok := u.X.(*ssa.FieldAddr)
				if !ok || typeName(deref(fa.X.Type())) != "Tree" {
					continue
				}
				if _, isptr := u.Type().Underlying().(*types.Pointer); !isptr {
					continue
				}
				key := s.a.fieldCell(deref(fa.X.Type()), fa.Field).key
				s.l.chk("C21", "header-order", fnName(f), in.Pos(), s.nilGuard(f, key, in), "%s is used while loading without checking that the header creating it was read", key)
			}
		}
	}
}

// paramSink: the parameter is used as a size or index in the function
func (s *State) paramSink(g *ssa.Function, p *ssa.Parameter) bool {
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			var ops []ssa.Value
			switch x := in.(type) {
			case *ssa.MakeSlice:
				ops = []ssa.Value{x.Len, x.Cap}
			case *ssa.IndexAddr:
				ops = []ssa.Value{x.Index}
			case *ssa.Slice:
				ops = []ssa.Value{x.Low, x.High}
			case *ssa.MakeChan:
				ops = []ssa.Value{x.Size}
			}
			for _, o := range ops {
				if o != nil && strip(o) == ssa.Value(p) {
					return true
				}
			}
		}
	}
	return false
}

// nilGuard: the field was compared with nil (error otherwise) or stored before
func (s *State) nilGuard(f *ssa.Function, key string, in ssa.Instruction) bool {
	for d := in.Block(); d != nil; d = d.Idom() {
		p := d.Idom()
		if p != nil {
			if iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok {
				if cmp, ok := iff.Cond.(*ssa.BinOp); ok && (cmp.Op == token.EQL || cmp.Op == token.NEQ) {
					for _, o := range s.origins(cmp.X) {
						if o == key {
							k := 0
							if cmp.Op == token.EQL {
								k = 1
							}
							if p.Succs[k] == d || p.Succs[k].Dominates(d) {
								return true
							}
						}
					}
				}
			}
		}
	}
	for _, a := range s.a.acc {
		if a.write && a.fn == f && before(a.in, in) {
			for c := range a.cells {
				if c.key == key {
					return true
				}
			}
		}
	}
	return false
}

// complete: before reporting success the loader checks that everything announced was read
func (s *State) complete() {
	type chk struct {
		name string
		a, b string // both sides of the comparison stem from these
		nilc bool
	}
	found := map[string]bool{}
	for f := range s.rd {
		for _, b := range f.Blocks {
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			cmp, ok := iff.Cond.(*ssa.BinOp)
			if !ok {
				continue
			}
			okErr := errorOnly(b.Succs[0]) != errorOnly(b.Succs[1])
			if !okErr {
				continue
			}
			ox := strings.Join(s.origins(cmp.X), " ") + " "
			oy := strings.Join(s.origins(cmp.Y), " ") + " "
			both := func(p, q string) bool {
				return strings.Contains(ox, p) && strings.Contains(oy, q) || strings.Contains(ox, q) && strings.Contains(oy, p)
			}
			if strings.Contains(ox+oy, "len(Tree.allocators)") && !loopCond(b) && afterLoop(b) {
				found["all allocators were read"] = true
			}
			if k, isk := cmp.Y.(*ssa.Const); isk && k.IsNil() && strings.Contains(ox, "Tree.blocks[]") && isLoopBlock(b) {
				if h := loopHeader(b); h != nil {
					bo := ""
					for _, lb := range loopBounds(h) {
						bo += strings.Join(s.origins(lb), " ") + " "
					}
					if strings.Contains(bo, "Tree.nextFreeBlock") || strings.Contains(bo, "len(Tree.blocks) ") {
						found["all blocks were read"] = true
					}
				}
			}
			if both("Allocator.block ", "Tree.nextFreeBlock ") {
				found["the blocks of the allocators exist"] = true
			}
			if strings.Contains(ox+oy, "call:DecodedLen") {
				found["blocks have the right size"] = true
			}
		}
	}
	for _, c := range []string{"all allocators were read", "all blocks were read", "the blocks of the allocators exist", "blocks have the right size"} {
		s.l.n["C21"]++
		s.l.chk("C21", "complete", c, token.NoPos, found[c], "a state is accepted without checking that %s", c)
	}
}

func loopCond(b *ssa.BasicBlock) bool {
	h := loopHeader(b)
	if h == nil {
		return false
	}
	return inLoop(h, b.Succs[0]) != inLoop(h, b.Succs[1])
}

// afterLoop: b is not part of the loop reading the input
func afterLoop(b *ssa.BasicBlock) bool {
	h := loopHeader(b)
	return h == nil
}
