package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Ctx is one analysis of the program under one build configuration.
type Ctx struct {
	p *Prog
	e *Engine
	d *Domain

	shard, shards, exits int
}

func (p *Prog) constInt(name string) (int64, bool) {
	c, ok := p.pkg.Types.Scope().Lookup(name).(*types.Const)
	if !ok {
		return 0, false
	}
	v := constant.ToInt(c.Val())
	return constant.Int64Val(v)
}

// blockSlots is the size of the array made for a block
func (p *Prog) blockSlots() (int64, error) {
	nb := p.named("nodeBlock")
	if nb == nil {
		return 0, fmt.Errorf("type nodeBlock not found")
	}
	fi := fieldIndex(nb, "data")
	sizes := map[int64]bool{}
	for _, fn := range p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || fa.Field != fi || !types.Identical(deref(fa.X.Type()), nb) {
					continue
				}
				switch v := st.Val.(type) {
				case *ssa.MakeSlice:
					if c, ok := v.Len.(*ssa.Const); ok {
						sizes[c.Int64()] = true
					}
				case *ssa.Slice:
					if a, ok := deref(v.X.Type()).Underlying().(*types.Array); ok {
						sizes[a.Len()] = true
					}
				}
			}
		}
	}
	if len(sizes) != 1 {
		return 0, fmt.Errorf("the size of a data block is not unique: %v", sizes)
	}
	for s := range sizes {
		return s, nil
	}
	return 0, nil
}

func newCtx(p *Prog) (*Ctx, error) {
	n, err := p.blockSlots()
	if err != nil {
		return nil, err
	}
	S, ok := pow2(n)
	if !ok {
		return nil, fmt.Errorf("block of %d slots", n)
	}
	e := newEngine(p)
	d := newDomain(e, S)
	e.d = d
	c := &Ctx{p: p, e: e, d: d}
	return c, c.setupPrims()
}

// callees of fn inside the package (static)
func (p *Prog) callees(fn *ssa.Function) []*ssa.Function {
	var l []*ssa.Function
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if f := c.Common().StaticCallee(); f != nil && f.Pkg == p.ssa {
					l = append(l, f)
				}
			}
		}
	}
	for _, a := range fn.AnonFuncs {
		l = append(l, a)
	}
	return l
}

func (p *Prog) reach(fn *ssa.Function) map[*ssa.Function]bool {
	m := map[*ssa.Function]bool{}
	var w func(f *ssa.Function)
	w = func(f *ssa.Function) {
		if m[f] {
			return
		}
		m[f] = true
		for _, c := range p.callees(f) {
			w(c)
		}
	}
	w(fn)
	return m
}

// touches reports whether fn itself writes (or takes the address of and stores to) field name of type typ
func (p *Prog) touches(fn *ssa.Function, typ, name string, write bool) bool {
	n := p.named(typ)
	if n == nil {
		return false
	}
	fi := fieldIndex(n, name)
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			fa, ok := in.(*ssa.FieldAddr)
			if !ok || fa.Field != fi || !types.Identical(deref(fa.X.Type()), n) {
				continue
			}
			if !write {
				return true
			}
			for _, r := range *fa.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == fa {
					return true
				}
			}
		}
	}
	return false
}

func (p *Prog) reachTouches(fn *ssa.Function, typ, name string, write bool) bool {
	for f := range p.reach(fn) {
		if p.touches(f, typ, name, write) {
			return true
		}
	}
	return false
}

// allocFn is the function handing out node memory: the lowest one that reaches both the recycled nodes and the bump pointer
func (p *Prog) allocFn() *ssa.Function {
	ok := func(f *ssa.Function) bool {
		s := f.Signature
		return s.Results().Len() == 1 && basicKind(s.Results().At(0).Type()) == types.Uint64 && s.Params().Len() == 1 && isInteger(s.Params().At(0).Type()) &&
			p.reachTouches(f, "Allocator", "nextFree", true) && p.reachTouches(f, "Allocator", "recycler", false)
	}
	for _, f := range p.funcs {
		if !ok(f) {
			continue
		}
		low := true
		for g := range p.reach(f) {
			if g != f && ok(g) {
				low = false
			}
		}
		if low {
			return f
		}
	}
	return nil
}

func (c *Ctx) setupPrims() error {
	af := c.p.allocFn()
	if af == nil {
		return fmt.Errorf("the function handing out node memory was not found")
	}
	c.e.prims[af] = func(e *Engine, fr *Frame, fs *FS, in ssa.Instruction, args []*Term) []callRes {
		st := fs.st
		d := e.d
		d.noLocksExceptOwn(fr, fs, in)
		n := mkSym(Sym{name: "new", kind: SNew, frame: fr, instr: in, nonN: true, max: 1<<34 - 1})
		node := mk(Term{op: ONode, args: []*Term{n}})
		st.setSegs(node, nil)
		for _, f := range st.ex {
			if f.str == "new" && f.args[0] == n {
				e.fail(fr, in, "a new node is allocated again before the last one is used")
			}
		}
		size := args[len(args)-1]
		st.addFact(mkNot(mkEq0(n)))
		st.exAdd(facet("new", n, size))
		d.chk(fr, in, "C01", "reservation-held", len(st.exAll("sess")) > 0, "a node is allocated without an epoch reservation")
		d.events["alloc"]++
		return []callRes{{st, n}}
	}
	return nil
}

func (d *Domain) noLocksExceptOwn(fr *Frame, fs *FS, in ssa.Instruction) {}

func (c *Ctx) newState() *St {
	return newSt()
}

func keySlice(name string) (*Term, *Term) {
	s := mkSym(Sym{name: name, kind: SParam, ptr: true})
	l := mkSym(Sym{name: name + ".len", kind: SLen, nonN: true, max: 1 << 40})
	cp := mkSym(Sym{name: name + ".cap", kind: SLen, nonN: true, max: 1 << 40})
	o := mkObj(s)
	return o, mkSlice(o, tZero, l, cp)
}

func (c *Ctx) run(fn *ssa.Function, st *St, args []*Term, tag string) (ex []Exit, err error) {
	defer func() {
		if r := recover(); r != nil {
			if x, ok := r.(engErr); ok {
				err = fmt.Errorf("%s", x.msg)
				return
			}
			if os.Getenv("DBGPANIC") != "" {
				panic(r)
			}
			err = fmt.Errorf("internal error: %v", r)
		}
	}()
	fr := c.e.frame(nil, nil, fn, tag)
	return c.e.run(fr, st, args, nil), nil
}

func (c *Ctx) opField(op *Term, typ, name string) *Term {
	return mkField(op, fieldIndex(c.p.named(typ), name), name)
}

// recvs returns the two entry points of an operation with their receivers
func (c *Ctx) entry(method string) []struct {
	fn   *ssa.Function
	recv *Term
	name string
} {
	type ep = struct {
		fn   *ssa.Function
		recv *Term
		name string
	}
	var l []ep
	if f := c.p.method("Tree", method); f != nil {
		l = append(l, ep{f, c.e.tree, "Tree." + method})
	}
	if f := c.p.method("Allocator", method); f != nil {
		l = append(l, ep{f, c.allocParam(), "Allocator." + method})
	}
	return l
}

func (c *Ctx) allocParam() *Term {
	return mkObj(mkSym(Sym{name: "ALLOC", kind: SParam, ptr: true}))
}

func dbg(format string, a ...interface{}) {
	if os.Getenv("DBG") != "" {
		fmt.Fprintf(os.Stderr, format+"\n", a...)
	}
}

var _ = strings.Join
