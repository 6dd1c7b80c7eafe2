package main

// Rules over the points-to analysis: atomic discipline and alignment (C08), read-only queries (C24, C30),
// the caller's bytes (C26), pointer-free storage (C27).

import (
	"go/constant"
	"go/token"
	"go/types"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Mem struct {
	p        *Prog
	a        *Pts
	l        *Lint
	nodeData cellSet // elements of the data arrays of blocks
}

func newMem(p *Prog, l *Lint) *Mem {
	m := &Mem{p: p, a: newPts(p), l: l, nodeData: cellSet{}}
	if nb := p.named("nodeBlock"); nb != nil {
		if fi := fieldIndex(nb, "data"); fi >= 0 {
			m.nodeData = m.a.elems(m.a.cont[m.a.fieldCell(nb, fi)])
		}
	}
	return m
}

// onlyFrom is the set of functions that can be reached only through functions in roots
func (m *Mem) onlyFrom(roots map[*ssa.Function]bool) map[*ssa.Function]bool {
	set := map[*ssa.Function]bool{}
	for f := range roots {
		set[f] = true
	}
	for changed := true; changed; {
		changed = false
		for f := range m.a.reachFn {
			if set[f] || exported(f) || m.a.goFns[f] {
				continue
			}
			cs := m.a.callers[f]
			par := f.Parent()
			if len(cs) == 0 && par == nil {
				continue
			}
			ok := true
			for _, c := range cs {
				if !set[c.Parent()] {
					ok = false
				}
			}
			if par != nil && !set[par] {
				ok = false
			}
			if ok {
				set[f] = true
				changed = true
			}
		}
	}
	return set
}

func (m *Mem) reachOf(fs ...*ssa.Function) map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	for _, f := range fs {
		if f == nil {
			continue
		}
		for g := range m.p.reach(f) {
			r[g] = true
		}
	}
	return r
}

// constructors: exported functions returning a *Tree
func (m *Mem) constructors() map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	t := m.p.named("Tree")
	for f := range m.a.reachFn {
		if !exported(f) || f.Signature.Recv() != nil {
			continue
		}
		rs := f.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			if t != nil && types.Identical(rs.At(i).Type(), types.NewPointer(t)) {
				r[f] = true
			}
		}
	}
	return r
}

// lockDominated reports whether in is executed only after Lock of the mutex field of Tree in the same function
func (m *Mem) lockDominated(in ssa.Instruction, field string) bool {
	f := in.Parent()
	for _, b := range f.Blocks {
		for i, x := range b.Instrs {
			c, ok := x.(*ssa.Call)
			if !ok {
				continue
			}
			g := callee(c)
			if g == nil || g.Name() != "Lock" || len(c.Call.Args) == 0 {
				continue
			}
			hit := m.a.of(c.Call.Args[0]).any(func(c *Cell) bool { return c.key == "Tree."+field })
			if !hit {
				continue
			}
			if b == in.Block() {
				for j, y := range b.Instrs {
					if y == in {
						return i < j
					}
				}
			} else if b.Dominates(in.Block()) {
				return true
			}
		}
	}
	return false
}

func (m *Mem) atomicRules() {
	l := m.l
	shared := cellSet{}
	for _, x := range m.a.acc {
		if x.atomic {
			for c := range x.cells {
				shared[c] = true
			}
			l.n["C08"]++
		}
	}
	kinds := map[string]bool{}
	for c := range shared {
		kinds[m.kindOf(c)] = true
	}
	for _, k := range []string{"Tree.root", "Tree.nextFreeBlock", "Tree.liveObjects", "Tree.rootLeafLock", "locks", "node data", "reserveSlot.r", "epoch", "item.v"} {
		l.chk("C08", "atomic-cells", k, token.NoPos, kinds[k], "%s is shared between goroutines but never accessed atomically", k)
	}
	cons := m.onlyFrom(m.constructors())
	underLock := map[*ssa.Function]bool{}
	for f := range m.a.reachFn {
		if exported(f) || m.a.goFns[f] || len(m.a.callers[f]) == 0 {
			continue
		}
		all := true
		for _, c := range m.a.callers[f] {
			if !m.lockDominated(c, "stopLock") {
				all = false
			}
		}
		if all {
			underLock[f] = true
		}
	}
	// reads outside the phase in which an operation holds its locks
	fin := map[*ssa.Function]bool{}
	for _, t := range []string{"UpdateOperation", "DeleteOperation"} {
		if f := m.p.method(t, "Finalize"); f != nil {
			fin[f] = true
		}
	}
	finOnly := m.onlyFrom(fin)
	for _, x := range m.a.acc {
		if x.atomic || cons[x.fn] {
			continue
		}
		for c := range x.cells {
			if !shared[c] {
				continue
			}
			k := m.kindOf(c)
			if k == "" {
				continue
			}
			l.n["C08"]++
			if k == "node data" {
				if x.write || finOnly[x.fn] {
					continue // decided with the paths of the writers
				}
				u, ok := x.in.(*ssa.UnOp)
				if !ok || len(*u.Referrers()) == 0 {
					continue // memmove of a prefix, or a bounds check
				}
				if ia, ok := u.X.(*ssa.IndexAddr); ok {
					_, isc := ia.Index.(*ssa.Const)
					l.chk("C08", "atomic-child-read", fnName(x.fn), x.in.Pos(), isc, "a child link of a node that can be written concurrently is read without an atomic load")
				}
				continue
			}
			ok := underLock[x.fn] || m.lockDominated(x.in, "stopLock")
			l.chk("C08", "atomic-access "+k, fnName(x.fn), x.in.Pos(), ok, "plain %s of %s, which other goroutines access atomically at the same time", x.how, k)
		}
	}
}

// kindOf names the shared memory a cell belongs to, independent of how it is reached
func (m *Mem) kindOf(c *Cell) string {
	if m.nodeData[c] {
		return "node data"
	}
	if c.kind == CElem && c.of.key == "nodeBlock.locks" {
		return "locks"
	}
	if c.kind == CField {
		return c.key
	}
	// the epoch is an object the manager and the allocators point to
	for _, f := range []string{"epochManager.globalEpoch", "Allocator.globalEpoch"} {
		for x := range m.a.cells {
			if x == f && m.a.cont[m.a.cells[x]][c] {
				return "epoch"
			}
		}
	}
	return ""
}

// alignment of every 64-bit atomic on 32-bit platforms
func (m *Mem) alignRules() {
	sizes := types.SizesFor("gc", "386")
	n := 0
	for _, x := range m.a.acc {
		if !x.atomic || !strings.HasSuffix(x.how, "64") {
			continue
		}
		n++
		for c := range x.cells {
			ok, why := m.aligned(sizes, c)
			m.l.chk("C08", "alignment "+shortCell(c), fnName(x.fn), x.in.Pos(), ok, "64-bit atomic access to %s, which is not 64-bit aligned on 32-bit platforms: %s", shortCell(c), why)
		}
	}
	m.l.atLeast("C08", "alignment", n, 20)
}

func shortCell(c *Cell) string {
	if c.kind == CField {
		return c.key
	}
	if c.kind == CElem {
		return shortCell(c.of) + "[]"
	}
	if c.kind == CObj {
		return "object made in " + fnName(c.site.Parent())
	}
	return c.key
}

func (m *Mem) aligned(sz types.Sizes, c *Cell) (bool, string) {
	switch c.kind {
	case CField:
		var fs []*types.Var
		for i := 0; i < c.strc.NumFields(); i++ {
			fs = append(fs, c.strc.Field(i))
		}
		off := sz.Offsetsof(fs)[c.f]
		if off%8 != 0 {
			return false, "it is at offset " + strconv.FormatInt(off, 10) + " of " + c.typ
		}
		// the struct must itself start aligned wherever it is embedded by value
		return m.structAligned(sz, c.typ)
	case CElem:
		if c.of.kind == CField {
			if ok, why := m.aligned(sz, c.of); !ok {
				return ok, why
			}
		}
		return true, ""
	}
	return true, ""
}

// structAligned: values of the named struct type are allocated on their own, or embedded at aligned offsets
func (m *Mem) structAligned(sz types.Sizes, name string) (bool, string) {
	for _, n := range m.p.pkg.Types.Scope().Names() {
		tn, ok := m.p.pkg.Types.Scope().Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		st, ok := tn.Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		var fs []*types.Var
		for i := 0; i < st.NumFields(); i++ {
			fs = append(fs, st.Field(i))
		}
		offs := sz.Offsetsof(fs)
		for i, f := range fs {
			t := f.Type()
			if a, ok := t.Underlying().(*types.Array); ok {
				t = a.Elem()
			}
			if s, ok := t.Underlying().(*types.Slice); ok {
				if typeName(s.Elem()) == name && sz.Sizeof(s.Elem())%8 != 0 {
					return false, "elements of " + tn.Name() + "." + f.Name() + " have a size that is no multiple of 8"
				}
				continue
			}
			if typeName(t) == name {
				if _, ptr := t.Underlying().(*types.Pointer); ptr {
					continue
				}
				if offs[i]%8 != 0 || sz.Sizeof(t)%8 != 0 {
					return false, name + " is embedded in " + tn.Name() + " at an offset that is no multiple of 8"
				}
			}
		}
	}
	return true, ""
}

func (m *Mem) methods(typ string, names ...string) []*ssa.Function {
	var r []*ssa.Function
	for _, n := range names {
		if f := m.p.method(typ, n); f != nil {
			r = append(r, f)
		}
	}
	return r
}

func (m *Mem) queries() []*ssa.Function {
	r := m.methods("Tree", "Lookup", "MinKey", "MaxKey", "Count", "NewIterator", "Stats")
	r = append(r, m.methods("Allocator", "Lookup")...)
	r = append(r, m.methods("Iterator", "Next", "Value", "Reset", "Close")...)
	r = append(r, m.methods("Counter", "Count")...)
	for _, n := range []string{"NewIterator", "NewCounter"} {
		if f := m.p.fn(n); f != nil {
			r = append(r, f)
		}
	}
	return r
}

func (m *Mem) diagnostics() []*ssa.Function {
	r := m.methods("Tree", "Admin", "Stats")
	r = append(r, m.methods("UpdateOperation", "String")...)
	return append(r, m.methods("DeleteOperation", "String")...)
}

// readOnly: no function reachable from roots writes to the tree
func (m *Mem) readOnly(prop string, roots []*ssa.Function, min int) {
	m.l.atLeast(prop, "entry points", len(roots), min)
	for _, root := range roots {
		reach := m.reachOf(root)
		for _, x := range m.a.acc {
			if !reach[x.fn] {
				continue
			}
			m.l.n[prop]++
			if !x.write {
				continue
			}
			bad := ""
			for c := range x.cells {
				if k := m.treeState(c); k != "" {
					bad = k
				}
			}
			m.l.chk(prop, "read-only "+fnName(root), fnName(x.fn), x.in.Pos(), bad == "", "%s reaches a write (%s) to %s", fnName(root), x.how, bad)
		}
	}
}

// treeState names the part of the tree a cell belongs to, "" for private memory, pools, handout and reservations
func (m *Mem) treeState(c *Cell) string {
	if m.nodeData[c] {
		return "node data"
	}
	r := rootOf(c)
	if r.kind == CField {
		switch r.typ {
		case "Tree", "nodeBlock", "Allocator", "recycledItem", "epochManager", "UpdateOperation", "DeleteOperation":
			if r.key == "Tree.stopped" || r.key == "Tree.stopLock" || r.key == "Tree.blockMapLock" {
				return ""
			}
			return r.key
		}
	}
	if k := m.kindOf(c); k == "epoch" || k == "locks" {
		return k
	}
	return ""
}

// callerBytes: memory passed in by the user is never written nor kept
func (m *Mem) callerBytes() {
	isKey := func(c *Cell) bool {
		if c.kind != CParam || c.t == nil {
			return false
		}
		s, ok := c.t.Underlying().(*types.Slice)
		return ok && basicKind(s.Elem()) == types.Uint8
	}
	nparams := 0
	for _, c := range m.a.cells {
		if isKey(c) {
			nparams++
		}
	}
	m.l.atLeast("C26", "key parameters", nparams, 10)
	for _, x := range m.a.acc {
		if x.write {
			m.l.n["C26"]++
			bad := ""
			for c := range x.cells {
				if c.kind == CElem && isKey(c.of) {
					bad = c.of.key
				}
			}
			m.l.chk("C26", "never-written", fnName(x.fn), x.in.Pos(), bad == "", "%s may write into the bytes passed as %s", x.how, bad)
		}
	}
	for c, s := range m.a.cont {
		keeper := ""
		switch c.kind {
		case CField:
			if c.key == "UpdateOperation.Key" || strings.HasPrefix(c.key, "reflect.") {
				continue
			}
			if n := m.p.named(c.typ); n == nil {
				continue
			}
			if !m.longLived(c.typ) {
				continue
			}
			keeper = c.key
		case CGlobal:
			keeper = c.key
		case CElem:
			if r := rootOf(c); r.kind == CField && m.p.named(r.typ) != nil || r.kind == CGlobal {
				keeper = c.key
			} else if r.kind == CObj && m.heldBy(r) {
				keeper = c.key
			}
		}
		if keeper == "" {
			continue
		}
		bad := ""
		for x := range s {
			if isKey(x) {
				bad = x.key
			}
		}
		m.l.n["C26"]++
		m.l.chk("C26", "never-kept", keeper, token.NoPos, bad == "", "%s keeps a reference to the bytes passed as %s", keeper, bad)
	}
	// results handed to the user
	for f := range m.a.reachFn {
		if !exported(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if r, ok := in.(*ssa.Return); ok {
					for _, v := range r.Results {
						if s, ok := v.Type().Underlying().(*types.Slice); ok && basicKind(s.Elem()) == types.Uint8 {
							m.l.chk("C26", "never-returned", fnName(f), in.Pos(), !m.a.of(v).any(isKey), "the bytes passed in are returned to the caller")
						}
					}
				}
			}
		}
	}
}

// longLived: objects of the type are referenced by the tree, a pool or the user; the others are locals
func (m *Mem) longLived(typ string) bool {
	n := m.p.named(typ)
	if n == nil {
		return false
	}
	if n.Obj().Exported() {
		return true
	}
	for c, s := range m.a.cont {
		_ = c
		if c.kind == CObj {
			continue
		}
		for x := range s {
			if x.kind == CObj && x.t != nil && typeName(x.t) == typ {
				return true
			}
		}
	}
	return false
}

// heldBy: an array is referenced from a field of a long-lived object
func (m *Mem) heldBy(o *Cell) bool {
	for c, s := range m.a.cont {
		if s[o] && (c.kind == CField && m.longLived(c.typ) || c.kind == CGlobal) {
			return true
		}
	}
	return false
}

func hasPointers(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.String || u.Kind() == types.UnsafePointer || u.Kind() == types.Uintptr
	case *types.Array:
		return hasPointers(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPointers(u.Field(i).Type()) {
				return true
			}
		}
		return false
	}
	return true
}

func (m *Mem) pointerFree() {
	l := m.l
	n := 0
	arr := func(typ, field string, levels int) {
		nt := m.p.named(typ)
		if nt == nil || fieldIndex(nt, field) < 0 {
			l.chk("C27", "storage-type", typ+"."+field, token.NoPos, false, "%s.%s was not found", typ, field)
			return
		}
		f := nt.Underlying().(*types.Struct).Field(fieldIndex(nt, field))
		t := f.Type()
		for i := 0; i < levels; i++ {
			switch u := t.Underlying().(type) {
			case *types.Slice:
				t = u.Elem()
			case *types.Array:
				t = u.Elem()
			}
		}
		n++
		l.chk("C27", "storage-type", typ+"."+field, f.Pos(), !hasPointers(t), "the elements of %s.%s (%s) contain pointers", typ, field, t)
	}
	arr("nodeBlock", "data", 1)
	arr("nodeBlock", "locks", 1)
	arr("Allocator", "recycler", 2)
	if nt := m.p.named("Tree"); nt != nil {
		f := nt.Underlying().(*types.Struct).Field(fieldIndex(nt, "root"))
		l.chk("C27", "storage-type", "Tree.root", f.Pos(), !hasPointers(f.Type()), "the root word is not a plain number")
	}
	l.chk("C27", "storage-known", "nodeBlock.data", token.NoPos, len(m.nodeData) > 0, "no array is stored in nodeBlock.data")
	// no number made from a pointer is stored as tree data
	for _, x := range m.a.acc {
		if !x.write {
			continue
		}
		tree := ""
		for c := range x.cells {
			r := rootOf(c)
			if m.nodeData[c] || c.key == "Tree.root" || r.typ == "recycledItem" || r.typ == "Allocator" && isInteger(fieldType(r)) {
				tree = shortCell(c)
			}
		}
		if tree == "" {
			continue
		}
		l.n["C27"]++
		bad := false
		if x.val != nil && isInteger(x.val.Type()) {
			bad = len(m.a.of(x.val)) > 0
		}
		if call, ok := x.in.(ssa.CallInstruction); ok && x.val != nil {
			for _, arg := range call.Common().Args[1:] {
				if isInteger(arg.Type()) && len(m.a.of(arg)) > 0 {
					bad = true
				}
			}
		}
		l.chk("C27", "no-hidden-pointer", fnName(x.fn), x.in.Pos(), !bad, "a number made from a pointer is stored in %s", tree)
	}
	for c, s := range m.a.cont {
		if m.nodeData[c] {
			l.chk("C27", "no-hidden-pointer", "node data", token.NoPos, len(s) == 0, "node data may contain the address of %v", s.names())
		}
	}
}

func fieldType(c *Cell) types.Type {
	if c.kind == CField && c.t != nil {
		return c.t
	}
	return types.Typ[types.Invalid]
}

// panicOnly: blocks from which every path panics
func panicOnly(f *ssa.Function) map[*ssa.BasicBlock]bool {
	r := map[*ssa.BasicBlock]bool{}
	for changed := true; changed; {
		changed = false
		for _, b := range f.Blocks {
			if r[b] || len(b.Instrs) == 0 {
				continue
			}
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Panic); ok {
				r[b] = true
				changed = true
				continue
			}
			if len(b.Succs) == 0 {
				continue
			}
			all := true
			for _, s := range b.Succs {
				if !r[s] {
					all = false
				}
			}
			if all {
				r[b] = true
				changed = true
			}
		}
	}
	return r
}

// noAlloc: the lookups allocate nothing; candidates from the SSA form, confirmed by the compiler's escape analysis
func (m *Mem) noAlloc() {
	roots := append(m.methods("Tree", "Lookup"), m.methods("Allocator", "Lookup")...)
	m.l.atLeast("C24", "lookups", len(roots), 2)
	esc := m.escapes()
	for f := range m.reachOf(roots...) {
		po := panicOnly(f)
		for _, b := range f.Blocks {
			if po[b] {
				continue
			}
			for _, in := range b.Instrs {
				what, sure := "", false
				switch x := in.(type) {
				case *ssa.MakeSlice:
					what = "a slice"
				case *ssa.Alloc:
					if x.Heap {
						what = "a variable"
					}
				case *ssa.MakeMap, *ssa.MakeChan:
					what, sure = "a map or channel", true
				case *ssa.MakeClosure:
					what = "a closure"
				case *ssa.Go:
					what, sure = "a goroutine", true
				case *ssa.MakeInterface:
					if _, ok := x.X.(*ssa.Const); !ok {
						what = "an interface value"
					}
				case *ssa.Convert:
					_, s1 := x.Type().Underlying().(*types.Slice)
					_, s2 := x.X.Type().Underlying().(*types.Slice)
					if s1 != s2 && (basicKind(x.Type()) == types.String || basicKind(x.X.Type()) == types.String) {
						what = "a string conversion"
					}
				case *ssa.BinOp:
					if x.Op == token.ADD && basicKind(x.Type()) == types.String {
						what, sure = "a string", true
					}
				case *ssa.MapUpdate:
					what, sure = "a map update", true
				case ssa.CallInstruction:
					cc := x.Common()
					if bi, ok := cc.Value.(*ssa.Builtin); ok {
						if bi.Name() == "append" {
							what, sure = "append", true
						}
						break
					}
					g := callee(x)
					if g == nil {
						what, sure = "a dynamic call", true
						break
					}
					if g.Pkg == m.p.ssa {
						break
					}
					if g.Pkg != nil {
						switch g.Pkg.Pkg.Path() {
						case "sync/atomic", "runtime", "math/bits", "bytes", "sync", "encoding/binary", "unsafe":
							break
						default:
							what, sure = "a call of "+g.String(), true
						}
					}
				}
				m.l.n["C24"]++
				if what == "" {
					m.l.chk("C24", "no-allocation", fnName(f), f.Pos(), true, "")
					continue
				}
				bad := sure || esc[m.p.pos(in.Pos())]
				m.l.chk("C24", "no-allocation", fnName(f), in.Pos(), !bad, "a lookup allocates memory: %s", what)
			}
		}
	}
}

// escapes: the positions at which the compiler decided to allocate on the heap
func (m *Mem) escapes() map[string]bool {
	r := map[string]bool{}
	cmd := exec.Command("go", "build", "-gcflags=-m", "-o", "/dev/null", ".")
	cmd.Dir = m.p.dir
	out, _ := cmd.CombinedOutput()
	for _, ln := range strings.Split(string(out), "\n") {
		if !strings.Contains(ln, "escapes to heap") && !strings.Contains(ln, "moved to heap") {
			continue
		}
		f := strings.SplitN(ln, ":", 3)
		if len(f) == 3 {
			r[filepath.Base(f[0])+":"+f[1]] = true
		}
	}
	return r
}

var _ = constant.Int64Val
