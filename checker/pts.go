package main

// A flow-insensitive points-to and access analysis of the whole package: which memory (struct fields by
// type, arrays by allocation site, memory passed in by callers of the exported API) every address may
// denote, and where each of them is read, written or accessed atomically.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type CellKind int

const (
	CField CellKind = iota // field T.f of any object of type T
	CElem                  // element of the array denoted by of
	CObj                   // object created at site
	CParam                 // memory passed by the user of the exported API
	CGlobal
	CExt // result of a function outside the package
)

type Cell struct {
	kind CellKind
	typ  string
	f    int
	name string
	of   *Cell
	site ssa.Value
	fn   *ssa.Function
	strc *types.Struct
	key  string
	t    types.Type // type stored in the cell, where known
}

func (c *Cell) String() string { return c.key }

type cellSet map[*Cell]bool

type Access struct {
	cells  cellSet
	atomic bool
	write  bool
	in     ssa.Instruction
	fn     *ssa.Function
	val    ssa.Value // value written, if known
	how    string
}

type Pts struct {
	p       *Prog
	cells   map[string]*Cell
	v       map[ssa.Value]cellSet
	tup     map[ssa.Value][]cellSet // components of tuples
	cont    map[*Cell]cellSet
	acc     []*Access
	changed bool
	reachFn map[*ssa.Function]bool // reachable from the exported API
	goFns   map[*ssa.Function]bool // started with go
	callers map[*ssa.Function][]ssa.CallInstruction
}

func (a *Pts) cell(c Cell) *Cell {
	switch c.kind {
	case CField:
		c.key = c.typ + "." + c.name
	case CElem:
		c.key = c.of.key + "[]"
	case CObj:
		c.key = fmt.Sprintf("obj(%s@%s:%s)", fnName(c.site.Parent()), a.p.pos(c.site.Pos()), c.site.Name())
	case CParam:
		c.key = fmt.Sprintf("arg(%s.%s)", fnName(c.fn), c.name)
	case CGlobal:
		c.key = "var(" + c.name + ")"
	case CExt:
		c.key = "ext(" + c.name + ")"
	}
	if x, ok := a.cells[c.key]; ok {
		return x
	}
	n := c
	a.cells[c.key] = &n
	return &n
}

func (a *Pts) set(v ssa.Value, s cellSet) {
	if len(s) == 0 {
		return
	}
	m := a.v[v]
	if m == nil {
		m = cellSet{}
		a.v[v] = m
	}
	for c := range s {
		if !m[c] {
			m[c] = true
			a.changed = true
		}
	}
}

func (a *Pts) setTup(v ssa.Value, i int, s cellSet) {
	t := a.tup[v]
	for len(t) <= i {
		t = append(t, cellSet{})
	}
	a.tup[v] = t
	for c := range s {
		if !t[i][c] {
			t[i][c] = true
			a.changed = true
		}
	}
}

func (a *Pts) put(c *Cell, s cellSet) {
	m := a.cont[c]
	if m == nil {
		m = cellSet{}
		a.cont[c] = m
	}
	for x := range s {
		if !m[x] {
			m[x] = true
			a.changed = true
		}
	}
}

func one(c *Cell) cellSet { return cellSet{c: true} }

func typeName(t types.Type) string {
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		if n.Obj().Pkg() != nil && n.Obj().Pkg().Name() != "radix" {
			return n.Obj().Pkg().Name() + "." + n.Obj().Name()
		}
		return n.Obj().Name()
	}
	return t.String()
}

func (a *Pts) fieldCell(structT types.Type, i int) *Cell {
	st := structT.Underlying().(*types.Struct)
	return a.cell(Cell{kind: CField, typ: typeName(structT), f: i, name: st.Field(i).Name(), strc: st, t: st.Field(i).Type()})
}

func (a *Pts) elems(s cellSet) cellSet {
	r := cellSet{}
	for c := range s {
		var et types.Type
		if c.t != nil {
			switch u := c.t.Underlying().(type) {
			case *types.Array:
				et = u.Elem()
			case *types.Slice:
				et = u.Elem()
			}
		}
		if c.kind == CElem && strings.HasSuffix(c.key, "[][][]") {
			r[c] = true // depth limit
			continue
		}
		r[a.cell(Cell{kind: CElem, of: c, t: et})] = true
	}
	return r
}

// addrs are the cells an address value denotes
func (a *Pts) of(v ssa.Value) cellSet {
	switch x := v.(type) {
	case *ssa.Const:
		return nil
	case *ssa.Global:
		return one(a.cell(Cell{kind: CGlobal, name: x.Name(), t: deref(x.Type())}))
	case *ssa.Function:
		return nil
	}
	return a.v[v]
}

// load contents of the cells, including fields of struct values
func (a *Pts) contents(s cellSet, t types.Type) cellSet {
	r := cellSet{}
	for c := range s {
		for x := range a.cont[c] {
			r[x] = true
		}
		if st, ok := t.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				for x := range a.cont[a.fieldCell(t, i)] {
					r[x] = true
				}
			}
		}
		// contents of memory we do not know is more memory of that kind
		if (c.kind == CExt || c.kind == CParam || (c.kind == CElem && (c.of.kind == CExt || c.of.kind == CParam))) && pointerLike(t) {
			r[c] = true
		}
	}
	return r
}

func pointerLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Interface, *types.Signature:
		return true
	}
	return false
}

func (a *Pts) storeTo(s cellSet, v ssa.Value, t types.Type) {
	vs := a.of(v)
	if len(vs) == 0 {
		return
	}
	for c := range s {
		a.put(c, vs)
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			a.put(a.fieldCell(t, i), vs)
		}
	}
}

func exported(f *ssa.Function) bool {
	if f.Object() == nil || !f.Object().Exported() || f.Parent() != nil {
		return false
	}
	if r := f.Signature.Recv(); r != nil {
		n, ok := deref(r.Type()).(*types.Named)
		return ok && n.Obj().Exported()
	}
	return true
}

func newPts(p *Prog) *Pts {
	a := &Pts{p: p, cells: map[string]*Cell{}, v: map[ssa.Value]cellSet{}, tup: map[ssa.Value][]cellSet{}, cont: map[*Cell]cellSet{}, reachFn: map[*ssa.Function]bool{}, goFns: map[*ssa.Function]bool{}, callers: map[*ssa.Function][]ssa.CallInstruction{}}
	var w func(f *ssa.Function)
	w = func(f *ssa.Function) {
		if a.reachFn[f] {
			return
		}
		a.reachFn[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if g, ok := in.(*ssa.Go); ok {
					if c := g.Call.StaticCallee(); c != nil {
						a.goFns[c] = true
					} else if mc, ok := g.Call.Value.(*ssa.MakeClosure); ok {
						a.goFns[mc.Fn.(*ssa.Function)] = true
					}
				}
				// functions used as values
				for _, op := range in.Operands(nil) {
					if *op == nil {
						continue
					}
					if fn, ok := (*op).(*ssa.Function); ok && fn.Pkg == p.ssa {
						w(fn)
					}
				}
			}
		}
		for _, c := range p.callees(f) {
			w(c)
		}
	}
	for _, f := range p.funcs {
		if exported(f) || f.Name() == "init" {
			w(f)
		}
	}
	if f := p.ssa.Func("init"); f != nil {
		w(f)
	}
	for f := range a.reachFn {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := callee(c); g != nil {
						a.callers[g] = append(a.callers[g], c)
					}
				}
			}
		}
	}
	// parameters of the exported API are memory of the user, except objects of our own types
	for f := range a.reachFn {
		if !exported(f) {
			continue
		}
		for _, pr := range f.Params {
			if !pointerLike(pr.Type()) {
				continue
			}
			if n, ok := deref(pr.Type()).(*types.Named); ok && n.Obj().Pkg() == p.pkg.Types {
				continue
			}
			a.set(pr, one(a.cell(Cell{kind: CParam, fn: f, name: pr.Name(), t: pr.Type()})))
		}
	}
	for i := 0; i < 50; i++ {
		a.changed = false
		for _, f := range p.funcs {
			if a.reachFn[f] {
				a.pass(f)
			}
		}
		if f := p.ssa.Func("init"); f != nil {
			a.pass(f)
		}
		if !a.changed {
			break
		}
	}
	a.collect()
	return a
}

// callee resolves static calls, closures called directly, and interface calls stay nil
func callee(c ssa.CallInstruction) *ssa.Function {
	cc := c.Common()
	if f := cc.StaticCallee(); f != nil {
		return f
	}
	if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
		return mc.Fn.(*ssa.Function)
	}
	return nil
}

func (a *Pts) pass(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			a.instr(f, in)
		}
	}
}

func (a *Pts) instr(f *ssa.Function, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Alloc:
		a.set(x, one(a.cell(Cell{kind: CObj, site: x, t: deref(x.Type())})))
	case *ssa.MakeSlice:
		a.set(x, one(a.cell(Cell{kind: CObj, site: x, t: x.Type()})))
	case *ssa.MakeMap:
		a.set(x, one(a.cell(Cell{kind: CObj, site: x, t: x.Type()})))
	case *ssa.MakeChan:
		a.set(x, one(a.cell(Cell{kind: CObj, site: x, t: x.Type()})))
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		for i, b := range x.Bindings {
			a.set(fn.FreeVars[i], a.of(b))
		}
	case *ssa.MakeInterface:
		a.set(x, a.of(x.X))
	case *ssa.ChangeInterface:
		a.set(x, a.of(x.X))
	case *ssa.ChangeType:
		a.set(x, a.of(x.X))
	case *ssa.Convert:
		a.set(x, a.of(x.X))
	case *ssa.TypeAssert:
		a.set(x, a.of(x.X))
	case *ssa.Extract:
		if t := a.tup[x.Tuple]; x.Index < len(t) {
			a.set(x, t[x.Index])
		} else if mayPoint(x.Type()) {
			a.set(x, a.of(x.Tuple))
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			a.set(x, a.of(e))
		}
	case *ssa.BinOp:
		switch x.Op {
		case token.ADD, token.SUB, token.OR, token.AND, token.SHL, token.SHR, token.XOR, token.AND_NOT, token.MUL:
			// a pointer hidden in a number
			if isInteger(x.Type()) {
				a.set(x, a.of(x.X))
				a.set(x, a.of(x.Y))
			}
		}
	case *ssa.FieldAddr:
		a.set(x, one(a.fieldCell(deref(x.X.Type()), x.Field)))
	case *ssa.Field:
		a.set(x, a.of(x.X))
		a.set(x, a.cont[a.fieldCell(x.X.Type(), x.Field)])
	case *ssa.IndexAddr:
		s := a.of(x.X)
		a.set(x, a.elems(s))
		// elements that are structs: their fields are found by type
	case *ssa.Index:
		a.set(x, a.contents(a.elems(a.of(x.X)), x.Type()))
	case *ssa.Slice:
		a.set(x, a.of(x.X))
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			a.set(x, a.contents(a.of(x.X), x.Type()))
			// memory of a slice built from a header
			for c := range a.of(x.X) {
				if c.kind == CObj && c.t != nil {
					if st, ok := c.t.Underlying().(*types.Struct); ok {
						for i := 0; i < st.NumFields(); i++ {
							a.set(x, a.cont[a.fieldCell(c.t, i)])
						}
					}
				}
			}
		case token.ARROW:
			a.set(x, a.contents(a.elems(a.of(x.X)), x.Type()))
		}
	case *ssa.Store:
		a.storeTo(a.of(x.Addr), x.Val, x.Val.Type())
	case *ssa.Send:
		a.storeTo(a.elems(a.of(x.Chan)), x.X, x.X.Type())
	case *ssa.Select:
		for _, s := range x.States {
			if s.Dir == types.SendOnly {
				a.storeTo(a.elems(a.of(s.Chan)), s.Send, s.Send.Type())
			} else {
				a.set(x, a.contents(a.elems(a.of(s.Chan)), s.Chan.Type().Underlying().(*types.Chan).Elem()))
			}
		}
	case *ssa.MapUpdate:
		a.storeTo(a.elems(a.of(x.Map)), x.Value, x.Value.Type())
	case *ssa.Lookup:
		a.set(x, a.contents(a.elems(a.of(x.X)), x.Type()))
	case *ssa.Range:
		a.set(x, a.of(x.X))
	case *ssa.Next:
		a.set(x, a.of(x.Iter))
	case *ssa.Return:
		// results flow to the callers, see calls
		for _, c := range a.callers[f] {
			v, ok := c.(*ssa.Call)
			if !ok {
				continue
			}
			if len(x.Results) == 1 {
				a.set(v, a.of(x.Results[0]))
				continue
			}
			for i, r := range x.Results {
				a.setTup(v, i, a.of(r))
			}
		}
	case ssa.CallInstruction:
		a.call(x)
	}
}

func (a *Pts) call(x ssa.CallInstruction) {
	cc := x.Common()
	v, _ := x.(*ssa.Call)
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			if v != nil {
				a.set(v, a.of(cc.Args[0]))
				o := one(a.cell(Cell{kind: CObj, site: v, t: v.Type()}))
				a.set(v, o)
				if len(cc.Args) > 1 {
					et := v.Type().Underlying().(*types.Slice).Elem()
					src := a.contents(a.elems(a.of(cc.Args[1])), et)
					for c := range a.elems(a.of(v)) {
						a.put(c, src)
					}
				}
			}
		case "copy":
			if s, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok {
				src := a.contents(a.elems(a.of(cc.Args[1])), s.Elem())
				for c := range a.elems(a.of(cc.Args[0])) {
					a.put(c, src)
				}
			}
		}
		return
	}
	if f := callee(x); f != nil && f.Pkg == a.p.ssa && len(f.Blocks) > 0 {
		args := cc.Args
		for i, p := range f.Params {
			if i < len(args) {
				a.set(p, a.of(args[i]))
			}
		}
		return
	}
	if v == nil || !mayPoint(v.Type()) {
		return
	}
	name := "call"
	if f := callee(x); f != nil {
		name = f.String()
	} else if cc.IsInvoke() {
		name = cc.Method.FullName()
	} else {
		// call of a function value: its own closure or stored function; arguments flow through
		for _, g := range a.p.funcs {
			if a.reachFn[g] && g.Parent() != nil && types.Identical(g.Signature, cc.Signature()) {
				for i, p := range g.Params {
					a.set(p, a.of(cc.Args[i]))
				}
			}
		}
	}
	// atomics returning pointers, append-like helpers: the result may be any argument
	for _, arg := range cc.Args {
		if _, ok := arg.Type().Underlying().(*types.Slice); ok {
			a.set(v, a.of(arg))
		}
	}
	if f := callee(x); f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "sync/atomic" {
		a.set(v, a.contents(a.of(cc.Args[0]), v.Type()))
		return
	}
	a.set(v, one(a.cell(Cell{kind: CExt, name: name + "@" + a.p.pos(x.Pos())})))
}

func mayPoint(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer || u.Kind() == types.Uintptr
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if mayPoint(u.At(i).Type()) {
				return true
			}
		}
		return false
	case *types.Struct:
		return true
	}
	return pointerLike(t)
}

// collect records every access to memory
func (a *Pts) collect() {
	add := func(f *ssa.Function, in ssa.Instruction, s cellSet, write, atomic bool, val ssa.Value, how string) {
		a.acc = append(a.acc, &Access{s, atomic, write, in, f, val, how})
	}
	for _, f := range a.p.funcs {
		if !a.reachFn[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					s := cellSet{}
					for c := range a.of(x.Addr) {
						s[c] = true
					}
					if st, ok := x.Val.Type().Underlying().(*types.Struct); ok {
						for i := 0; i < st.NumFields(); i++ {
							s[a.fieldCell(x.Val.Type(), i)] = true
						}
					}
					add(f, in, s, true, false, x.Val, "store")
				case *ssa.UnOp:
					if x.Op == token.MUL {
						s := cellSet{}
						for c := range a.of(x.X) {
							s[c] = true
						}
						if st, ok := x.Type().Underlying().(*types.Struct); ok {
							for i := 0; i < st.NumFields(); i++ {
								s[a.fieldCell(x.Type(), i)] = true
							}
						}
						add(f, in, s, false, false, nil, "load")
					}
				case *ssa.MapUpdate:
					add(f, in, a.elems(a.of(x.Map)), true, false, x.Value, "map update")
				case ssa.CallInstruction:
					cc := x.Common()
					if b, ok := cc.Value.(*ssa.Builtin); ok {
						switch b.Name() {
						case "append":
							if len(cc.Args) > 1 {
								add(f, in, a.elems(a.of(cc.Args[0])), true, false, nil, "append")
								add(f, in, a.elems(a.of(cc.Args[1])), false, false, nil, "append")
							}
						case "copy":
							add(f, in, a.elems(a.of(cc.Args[0])), true, false, nil, "copy")
							add(f, in, a.elems(a.of(cc.Args[1])), false, false, nil, "copy")
						case "delete", "clear":
							add(f, in, a.elems(a.of(cc.Args[0])), true, false, nil, b.Name())
						}
						continue
					}
					g := callee(x)
					if g == nil {
						continue
					}
					if g.Pkg != nil && g.Pkg.Pkg.Path() == "sync/atomic" && len(cc.Args) > 0 {
						w := !strings.HasPrefix(g.Name(), "Load")
						var v ssa.Value
						if len(cc.Args) > 1 {
							v = cc.Args[len(cc.Args)-1]
						}
						add(f, in, a.of(cc.Args[0]), w, true, v, g.Name())
						continue
					}
					if len(g.Blocks) == 0 && g.Pkg == a.p.ssa {
						// the linked memmove
						add(f, in, a.of(cc.Args[0]), true, false, nil, g.Name())
						if len(cc.Args) > 1 {
							add(f, in, a.of(cc.Args[1]), false, false, nil, g.Name())
						}
						continue
					}
					if g.Pkg != a.p.ssa {
						// outside code may write into slices it is given, if it is known to
						if n, ok := extWrites(g); ok && n < len(cc.Args) {
							add(f, in, a.elems(a.of(cc.Args[n])), true, false, nil, g.Name())
						}
					}
				}
			}
		}
	}
}

// extWrites tells which argument a function outside the package writes into
func extWrites(g *ssa.Function) (int, bool) {
	if g.Pkg == nil {
		return 0, false
	}
	p, n := g.Pkg.Pkg.Path(), g.Name()
	switch {
	case p == "io" && (n == "ReadFull" || n == "ReadAtLeast"):
		return 1, true
	case p == "encoding/binary" && strings.HasPrefix(n, "Put"):
		if g.Signature.Recv() != nil {
			return 1, true
		}
		return 0, true
	case p == "encoding/binary" && strings.HasPrefix(n, "Append"):
		return 1, true
	case strings.HasSuffix(p, "snappy") && (n == "Encode" || n == "Decode"):
		return 0, true
	case (p == "sort" || p == "slices") && (strings.HasPrefix(n, "Sort") || n == "Reverse" || n == "Slice" || n == "Strings"):
		return 0, true
	case p == "strconv" && strings.HasPrefix(n, "Append"):
		return 0, true
	case p == "crypto/rand" && n == "Read":
		return 0, true
	}
	return 0, false
}

func (s cellSet) names() []string {
	var l []string
	for c := range s {
		l = append(l, c.key)
	}
	sort.Strings(l)
	return l
}

// any reports whether pred holds for a cell of s
func (s cellSet) any(pred func(*Cell) bool) bool {
	for c := range s {
		if pred(c) {
			return true
		}
	}
	return false
}

// rootOf strips element steps
func rootOf(c *Cell) *Cell {
	for c.kind == CElem {
		c = c.of
	}
	return c
}
