package main

// How the parts of a tree are put together: every allocator has a number of its own, the reservation slot and
// handout flag of that number, and there are as many slots and flags as allocators (C01, C02, C04).

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type frameRef struct {
	fn   *ssa.Function
	args []ssa.Value
	up   *frameRef
	id   string
}

type wiring struct {
	l *Lint
	p *Prog
}

// stored returns what is stored into field i of the object v points to, if that happens at one place only
func (w *wiring) stored(v ssa.Value, i int) ssa.Value {
	refs := v.Referrers()
	if refs == nil {
		return nil
	}
	var val ssa.Value
	n := 0
	for _, r := range *refs {
		fa, ok := r.(*ssa.FieldAddr)
		if !ok || fa.Field != i || fa.X != v {
			continue
		}
		for _, q := range *fa.Referrers() {
			if st, ok := q.(*ssa.Store); ok && st.Addr == fa {
				n++
				val = st.Val
			}
		}
	}
	if n != 1 {
		return nil
	}
	return val
}

// param is what a call passes for a parameter
func (w *wiring) param(x *ssa.Parameter, fr *frameRef) (ssa.Value, *frameRef) {
	if fr == nil || fr.args == nil {
		return nil, nil
	}
	for i, p := range fr.fn.Params {
		if p == x && i < len(fr.args) {
			return fr.args[i], fr.up
		}
	}
	return nil, nil
}

// find follows v to the value it is: through parameters, loads of fields stored once, and results of calls
func (w *wiring) find(v ssa.Value, fr *frameRef, depth int) (ssa.Value, *frameRef) {
	for ; depth < 24; depth++ {
		switch x := v.(type) {
		case *ssa.Parameter:
			y, yf := w.param(x, fr)
			if y == nil {
				return v, fr
			}
			v, fr = y, yf
			continue
		case *ssa.Convert:
			if isInteger(x.Type()) && isInteger(x.X.Type()) {
				v = x.X
				continue
			}
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.UnOp:
			if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
				b, bf := w.find(fa.X, fr, depth+1)
				if s := w.stored(b, fa.Field); s != nil {
					v, fr = s, bf
					continue
				}
			}
		case *ssa.Call:
			g := callee(x)
			if g != nil && g.Pkg == w.p.ssa && len(g.Blocks) > 0 {
				var ret *ssa.Return
				n := 0
				for _, b := range g.Blocks {
					if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
						ret, n = r, n+1
					}
				}
				if n == 1 && len(ret.Results) == 1 {
					nf := &frameRef{fn: g, args: x.Call.Args, up: fr, id: x.Name()}
					v, fr = ret.Results[0], nf
					continue
				}
			}
		}
		return v, fr
	}
	return v, fr
}

// name describes a value so that equal names mean equal values; "?" if it is not understood
func (w *wiring) name(v ssa.Value, fr *frameRef, depth int) string {
	if depth > 24 {
		return "?"
	}
	v, fr = w.find(v, fr, 0)
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Int {
			return x.Value.ExactString()
		}
		return "?"
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return "?"
		}
		switch a := x.X.(type) {
		case *ssa.FieldAddr:
			return w.name(a.X, fr, depth+1) + "." + fieldName(a)
		case *ssa.IndexAddr:
			return w.name(a.X, fr, depth+1) + "[" + w.name(a.Index, fr, depth+1) + "]"
		}
		return "?"
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			y, yf := w.find(x.Call.Args[0], fr, 0)
			if m, ok := y.(*ssa.MakeSlice); ok {
				return w.name(m.Len, yf, depth+1)
			}
			return "len(" + w.name(y, yf, depth+1) + ")"
		}
		return "?"
	case *ssa.BinOp:
		a, b := w.name(x.X, fr, depth+1), w.name(x.Y, fr, depth+1)
		if x.Op == token.ADD && b < a {
			a, b = b, a
		}
		return "(" + a + x.Op.String() + b + ")"
	case *ssa.Parameter, *ssa.Phi, *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeChan, *ssa.Extract:
		id := ""
		for f := fr; f != nil; f = f.up {
			id += "/" + f.id
		}
		return fmt.Sprintf("%s:%s%s", v.Parent().Name(), v.Name(), id)
	}
	return "?"
}

func (w *wiring) run() {
	alloc := w.p.named("Allocator")
	if alloc == nil {
		return
	}
	n, m := 0, 0
	for _, f := range w.p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				ia, ok := st.Addr.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				if types.Identical(st.Val.Type(), types.NewPointer(alloc)) {
					n++
					w.allocatorStored(f, st, ia)
				}
				if pt, ok := st.Val.Type().(*types.Pointer); ok && types.Identical(pt.Elem(), types.Typ[types.Uint64]) {
					m++
					w.slotStored(f, st, ia)
				}
			}
		}
	}
	w.l.note("C04", fmt.Sprintf("%d places storing an allocator, %d storing a reservation slot", n, m))
}

func (l *Lint) note(prop, s string) { l.notes[prop] = append(l.notes[prop], s) }

func unknown(s string) bool { return strings.Contains(s, "?") }

// allocatorStored: a new allocator becomes one of a tree
func (w *wiring) allocatorStored(f *ssa.Function, st *ssa.Store, ia *ssa.IndexAddr) {
	root := &frameRef{fn: f}
	i := w.name(ia.Index, root, 0)
	a, fr := w.find(st.Val, root, 0)
	if _, ok := a.(*ssa.Alloc); !ok || unknown(i) {
		return
	}
	get := func(field string) string {
		k := fieldIndex(w.p.named("Allocator"), field)
		if k < 0 {
			return "?"
		}
		v := w.stored(a, k)
		if v == nil {
			return "?"
		}
		return w.name(v, fr, 0)
	}
	at := ia.Pos()
	if at == token.NoPos {
		at = st.Pos()
	}
	fn := fnName(f)
	if id := get("id"); !unknown(id) {
		w.l.chk("C04", "allocator-has-its-number", fn, at, id == i, "the allocator at position %s gets the number %s: giving it back makes another one available", i, id)
	}
	if r := get("reserveSlot"); !unknown(r) && strings.HasSuffix(r, "]") {
		k := strings.LastIndex(r, "[")
		depth := 0
		for j := len(r) - 1; j >= 0; j-- {
			if r[j] == ']' {
				depth++
			} else if r[j] == '[' {
				if depth--; depth == 0 {
					k = j
					break
				}
			}
		}
		w.l.chk("C01,C02,C04", "allocator-has-its-reservation-slot", fn, at, r[k+1:len(r)-1] == i, "the allocator at position %s gets the reservation slot at position %s: two allocators may share one", i, r[k+1:len(r)-1])
	}
	// the reservations and the epoch are those of the manager that is asked before memory is reused
	owner := func(field string) string {
		k := fieldIndex(w.p.named("Allocator"), field)
		if k < 0 {
			return "?"
		}
		v := w.stored(a, k)
		vf := fr
		for n := 0; v != nil && n < 6; n++ {
			switch x := v.(type) {
			case *ssa.Parameter:
				v, vf = w.param(x, vf)
				continue
			case *ssa.Alloc:
				return "a new object"
			case *ssa.UnOp:
				switch y := x.X.(type) {
				case *ssa.IndexAddr:
					v = y.X
					continue
				case *ssa.FieldAddr:
					return w.name(y.X, vf, 0)
				}
			}
			return "?"
		}
		return "?"
	}
	if m := get("manager"); !unknown(m) {
		for _, fld := range []string{"reserveSlot", "globalEpoch"} {
			if o := owner(fld); !unknown(o) {
				w.l.chk("C01,C02", "one-manager-for-all", fn, at, o == m, "%s is taken from %s, but before memory is reused %s is asked", fld, o, m)
			}
		}
	}
	// as many flags and reservation slots as allocators
	ld, ok := ia.X.(*ssa.UnOp)
	if !ok {
		return
	}
	fa, ok := ld.X.(*ssa.FieldAddr)
	if !ok {
		return
	}
	sl, slf := w.find(ld, root, 0)
	ms, ok := sl.(*ssa.MakeSlice)
	if !ok {
		return
	}
	count := w.name(ms.Len, slf, 0)
	tree := fa.X
	for _, fld := range []struct{ name, what, rule, props string }{{"allocatorQueue", "handout flags", "one-flag-per-allocator", "C04"}, {"manager", "reservation slots", "one-reservation-slot-per-allocator", "C01,C04"}} {
		k := fieldIndex(w.p.named("Tree"), fld.name)
		if k < 0 {
			continue
		}
		b, bf := w.find(tree, root, 0)
		v := w.stored(b, k)
		if v == nil {
			continue
		}
		o, of := w.find(v, bf, 0)
		str, ok := deref(o.Type()).Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for j := 0; j < str.NumFields(); j++ {
			if _, ok := str.Field(j).Type().Underlying().(*types.Slice); !ok {
				continue
			}
			s := w.stored(o, j)
			if s == nil {
				continue
			}
			y, yf := w.find(s, of, 0)
			if mk, ok := y.(*ssa.MakeSlice); ok {
				if n := w.name(mk.Len, yf, 0); !unknown(n) && !unknown(count) {
					w.l.chk(fld.props, fld.rule, fn, at, n == count || fld.name == "manager" && strings.HasSuffix(n, "+"+count+")"), "there are %s %s for %s allocators", n, fld.what, count)
				}
			}
		}
	}
}

// slotStored: a reservation slot is put into the list of all of them
func (w *wiring) slotStored(f *ssa.Function, st *ssa.Store, ia *ssa.IndexAddr) {
	root := &frameRef{fn: f}
	i := w.name(ia.Index, root, 0)
	v, fr := w.find(st.Val, root, 0)
	at := ia.Pos()
	if at == token.NoPos {
		at = st.Pos()
	}
	h := loopHeader(st.Block())
	for depth := 0; depth < 6; depth++ {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v, fr = w.find(x.X, fr, 0)
			continue
		case *ssa.UnOp:
			if ix, ok := x.X.(*ssa.IndexAddr); ok && x.Op == token.MUL {
				v = ix
				continue
			}
		case *ssa.IndexAddr:
			j := w.name(x.Index, fr, 0)
			if !unknown(i) && !unknown(j) {
				w.l.chk("C01,C02,C04", "reservation-slots-are-different", fnName(f), at, i == j, "the reservation slot at position %s is put at position %s too", j, i)
			}
			return
		case *ssa.Alloc:
			// made anew for every position
			ok := x.Parent() != f || h != nil && inLoop(h, x.Block()) || h == nil
			w.l.chk("C01,C02,C04", "reservation-slots-are-different", fnName(f), at, ok, "the same reservation slot is put at every position")
			return
		}
		return
	}
}
