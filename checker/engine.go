package main

// Abstract interpreter over the SSA form: every call into the package is analysed in its calling
// context, control-flow joins merge states that agree on memory and typestate (facts are intersected),
// loops are solved by anti-unification to a fixpoint (loops.go).

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Frame struct {
	id     int
	parent *Frame
	call   ssa.Instruction
	fn     *ssa.Function
	depth  int
	deferd bool
}

type FS struct {
	st     *St
	env    map[ssa.Value]*Term
	defers []*Term
}

func (f *FS) clone() *FS {
	n := &FS{st: f.st.clone(), env: make(map[ssa.Value]*Term, len(f.env)), defers: f.defers}
	for k, v := range f.env {
		n.env[k] = v
	}
	return n
}

type Exit struct {
	st  *St
	ret []*Term
}

type engErr struct{ msg string }

type Engine struct {
	p       *Prog
	frames  map[string]*Frame
	silent  int // >0: transient loop passes, nothing is recorded
	closure map[string]*ssa.Function
	defCall map[string]*ssa.CallCommon
	info    map[*ssa.Function]*fnInfo
	prims   map[*ssa.Function]func(e *Engine, fr *Frame, fs *FS, in ssa.Instruction, args []*Term) []callRes
	tree    *Term
	mgr     *Term
	d       *Domain
	visited map[*ssa.Function]bool
	nstates int
	steps   int
	budget  int
}

type callRes struct {
	st  *St
	val *Term
}

func newEngine(p *Prog) *Engine {
	e := &Engine{p: p, frames: map[string]*Frame{}, closure: map[string]*ssa.Function{}, defCall: map[string]*ssa.CallCommon{}, info: map[*ssa.Function]*fnInfo{}, visited: map[*ssa.Function]bool{}}
	e.prims = map[*ssa.Function]func(e *Engine, fr *Frame, fs *FS, in ssa.Instruction, args []*Term) []callRes{}
	e.tree = mkObj(mkSym(Sym{name: "TREE", kind: SParam, ptr: true}))
	e.mgr = mkObj(mkSym(Sym{name: "MGR", kind: SParam, ptr: true}))
	e.budget = 40000000
	return e
}

func (e *Engine) fail(fr *Frame, in ssa.Instruction, format string, a ...interface{}) {
	pos := "-"
	if in != nil {
		pos = e.p.pos(in.Pos())
	}
	panic(engErr{fmt.Sprintf("%s (%s): %s", fnName(fr.fn), pos, fmt.Sprintf(format, a...))})
}

func (e *Engine) frame(parent *Frame, call ssa.Instruction, fn *ssa.Function, tag string) *Frame {
	pid := 0
	depth := 0
	if parent != nil {
		pid, depth = parent.id, parent.depth+1
	}
	cid := 0
	if call != nil {
		cid = instrID(call)
	}
	k := fmt.Sprintf("%d|%d|%p|%s", pid, cid, fn, tag)
	if f, ok := e.frames[k]; ok {
		return f
	}
	f := &Frame{id: len(e.frames) + 1, parent: parent, call: call, fn: fn, depth: depth}
	e.frames[k] = f
	return f
}

func (f *Frame) onStack(fn *ssa.Function) bool {
	for g := f; g != nil; g = g.parent {
		if g.fn == fn {
			return true
		}
	}
	return false
}

func (f *Frame) trace(p *Prog) string {
	var s []string
	for g := f; g != nil; g = g.parent {
		n := fnName(g.fn)
		if g.call != nil {
			n += "@" + p.pos(g.call.Pos())
		}
		s = append([]string{n}, s...)
	}
	return strings.Join(s, " > ")
}

// ---- types ----

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func isNamed(t types.Type, name string) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Name() == "radix"
}

func basicKind(t types.Type) types.BasicKind {
	if b, ok := t.Underlying().(*types.Basic); ok {
		return b.Kind()
	}
	return types.Invalid
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// unknown returns an unknown value of type t named by the symbol template
func (e *Engine) unknown(t types.Type, s Sym) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			s.bol = true
		case u.Kind() == types.Uint8:
			s.byt = true
			s.nonN = true
		case u.Info()&types.IsUnsigned != 0:
			s.nonN = true
			if u.Kind() == types.UnsafePointer {
				s.ptr = true
			}
		case u.Kind() == types.UnsafePointer, u.Kind() == types.String, u.Kind() == types.UntypedNil:
			s.ptr = true
		}
		return mkSym(s)
	case *types.Pointer:
		if isNamed(u.Elem(), "Tree") {
			return e.tree
		}
		if isNamed(u.Elem(), "epochManager") {
			return e.mgr
		}
		s.ptr = true
		return mkObj(mkSym(s))
	case *types.Slice:
		s.ptr = true
		b := mkSym(s)
		l := mkSym(Sym{name: s.name + ".len", kind: SLen, frame: s.frame, instr: s.instr, loc: s.loc, nonN: true, max: 1 << 48, stale: s.stale})
		c := mkSym(Sym{name: s.name + ".cap", kind: SLen, frame: s.frame, instr: s.instr, loc: s.loc, nonN: true, max: 1 << 48})
		return mkSlice(mkObj(b), tZero, l, c)
	case *types.Struct:
		args := make([]*Term, u.NumFields())
		for i := range args {
			f := s
			f.name = s.name + "." + u.Field(i).Name()
			if u.Field(i).Name() == "_" {
				f.name += strconv.Itoa(i)
			}
			args[i] = e.unknown(u.Field(i).Type(), f)
		}
		return mk(Term{op: OStruct, args: args})
	case *types.Tuple:
		args := make([]*Term, u.Len())
		for i := range args {
			f := s
			f.name = s.name + "." + strconv.Itoa(i)
			args[i] = e.unknown(u.At(i).Type(), f)
		}
		return mk(Term{op: OTuple, args: args})
	}
	s.ptr = true
	return mkSym(s)
}

func (e *Engine) zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsString != 0:
			return KStr("")
		case u.Kind() == types.UnsafePointer:
			return tNil
		}
		return tZero
	case *types.Slice:
		return mkSlice(tNil, tZero, tZero, tZero)
	case *types.Struct:
		args := make([]*Term, u.NumFields())
		for i := range args {
			args[i] = e.zero(u.Field(i).Type())
		}
		return mk(Term{op: OStruct, args: args})
	case *types.Array:
		return mk(Term{op: OBin, str: "zeroarray"})
	}
	return tNil
}

// ---- memory ----

func rootObj(a *Term) *Term {
	for a.op == OField || a.op == OIdx {
		a = a.args[0]
	}
	return a
}

func (e *Engine) load(fr *Frame, fs *FS, in ssa.Instruction, addr *Term, t types.Type) *Term {
	st := fs.st
	if v, ok := st.mem[addr]; ok {
		return v
	}
	if u, ok := t.Underlying().(*types.Struct); ok {
		if e.isContElem(addr) {
			return e.contLoad(fr, fs, in, addr, t)
		}
		args := make([]*Term, u.NumFields())
		for i := range args {
			args[i] = e.load(fr, fs, in, mkField(addr, i, u.Field(i).Name()), u.Field(i).Type())
		}
		return mk(Term{op: OStruct, args: args})
	}
	if v := e.d.loadSpecial(e, fr, fs, in, addr, t); v != nil {
		return v
	}
	// element of an array
	if addr.op == OIdx {
		return e.elemAt(st, addr.args[0], addr.args[1], t)
	}
	if addr.op == OField && addr.args[0].op == OIdx && e.isContElem(addr.args[0]) {
		s := e.contField(fr, fs, in, addr.args[0])
		if s != nil && int(addr.c) < len(s.args) {
			return s.args[addr.c]
		}
	}
	return e.initVal(addr, t)
}

// initVal is the content of a cell never written during the analysed operation
func (e *Engine) initVal(addr *Term, t types.Type) *Term {
	r := rootObj(addr)
	if r.op == OObj && r.args[0].op == OSym {
		switch r.args[0].sym.kind {
		case SAlloc:
			return e.zero(t)
		case SStale:
			return e.unknown(t, Sym{name: "stale." + addr.str, kind: SStale, loc: addr, stale: true})
		}
	}
	n := addr.str
	if n == "" {
		n = "mem"
	}
	v := e.unknown(t, Sym{name: n, kind: SInit, loc: addr})
	if v.op == OSym && (n == "globalEpoch" || n == "nextFree") {
		return v
	}
	return v
}

// elemAt resolves the content of array base at index i
func (e *Engine) elemAt(st *St, base, i *Term, t types.Type) *Term {
	if v := e.resolveElem(st, base, i); v != nil {
		if v == tTop {
			return e.unknown(t, Sym{name: "elem", kind: SOpaque, loc: mkIdx(base, i)})
		}
		return v
	}
	return e.defaultElem(base, i, t)
}

func (e *Engine) defaultElem(base, i *Term, t types.Type) *Term {
	if base.op == OObj && base.args[0].op == OSym && base.args[0].sym.kind == SAlloc && base.args[0].sym.name != "append" {
		return e.zero(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Kind() == types.Uint8 {
			return mk(Term{op: OElem, str: "b", args: []*Term{base, i}})
		}
		if u.Info()&types.IsInteger != 0 {
			return mk(Term{op: OWord, args: []*Term{base, i}})
		}
	case *types.Pointer:
		if isNamed(u.Elem(), "Tree") {
			return e.tree
		}
		return mkObj(mk(Term{op: OElem, str: "p", args: []*Term{base, i}}))
	}
	return e.unknown(t, Sym{name: "elem", kind: SInit, loc: mkIdx(base, i)})
}

func regionKey(base *Term) *Term { return mk(Term{op: ORegion, args: []*Term{base}}) }

func (st *St) segs(base *Term) []*Term {
	if r, ok := st.mem[regionKey(base)]; ok {
		return r.args
	}
	return nil
}

func (st *St) setSegs(base *Term, l []*Term) {
	if len(l) == 0 {
		delete(st.mem, regionKey(base))
		return
	}
	st.mem[regionKey(base)] = mk(Term{op: OSegs, args: l})
}

func (st *St) addSeg(base, s *Term) {
	old := st.segs(base)
	// drop an overwritten single cell
	var l []*Term
	for _, o := range old {
		if s.str == "word" && o.str == "word" && o.args[0] == s.args[0] {
			continue
		}
		l = append(l, o)
	}
	st.setSegs(base, append(l, s))
}

// segRange returns the index range covered by a segment
func segRange(s *Term) (off, ln *Term) {
	switch s.str {
	case "word":
		return s.args[0], K(1)
	case "copy", "fill":
		return s.args[0], s.args[1]
	case "bytes": // slot offset, byte length
		return s.args[0], extract(addc(s.args[1], 7), 3, 61)
	}
	return nil, nil
}

// resolveElem: nil = default content, tTop = unknown
func (e *Engine) resolveElem(st *St, base, i *Term) *Term {
	l := st.segs(base)
	for k := len(l) - 1; k >= 0; k-- {
		s := l[k]
		off, ln := segRange(s)
		if off == nil {
			return tTop
		}
		if st.leq(off, i) && st.lt(i, add(off, ln)) {
			switch s.str {
			case "word":
				return s.args[1]
			case "fill":
				return s.args[2]
			case "copy":
				src := s.args[2]
				idx := add(s.args[3], sub(i, off))
				return e.srcElem(src, idx, s.args[4])
			}
			return tTop
		}
		if st.lt(i, off) || st.leq(add(off, ln), i) {
			continue
		}
		return tTop
	}
	return nil
}

// srcElem is an element of an immutable source array, kind "b" or "w"
func (e *Engine) srcElem(base, i, kind *Term) *Term {
	if kind.str == "b" {
		return mk(Term{op: OElem, str: "b", args: []*Term{base, i}})
	}
	return mk(Term{op: OWord, args: []*Term{base, i}})
}

// content resolves [off,off+ln) of array base into pieces relative to 0
func (e *Engine) content(st *St, base, off, ln *Term, kind string) []*Term {
	kt := KStr(kind)
	l := st.segs(base)
	if len(l) == 0 {
		return []*Term{seg("copy", tZero, ln, base, off, kt)}
	}
	if c, ok := st.norm(ln).isConst(); ok && c == 0 {
		return nil
	}
	var out []*Term
	lo, hi := off, add(off, ln)
	for iter := 0; iter < 12; iter++ {
		if st.eqv(lo, hi) {
			return out
		}
		found := false
		for k := len(l) - 1; k >= 0; k-- {
			s := l[k]
			so, sl := segRange(s)
			if so == nil {
				return []*Term{seg("unknown", tZero, ln)}
			}
			se := add(so, sl)
			if st.leq(so, lo) && st.lt(lo, se) {
				end := se
				if st.leq(hi, se) {
					end = hi
				} else if !st.leq(se, hi) {
					return []*Term{seg("unknown", tZero, ln)}
				}
				// later segments must not overlap the piece
				for m := k + 1; m < len(l); m++ {
					mo, ml := segRange(l[m])
					if mo == nil {
						return []*Term{seg("unknown", tZero, ln)}
					}
					if st.leq(end, mo) || st.leq(add(mo, ml), lo) {
						continue
					}
					if st.leq(lo, mo) {
						end = mo // clip
						continue
					}
					return []*Term{seg("unknown", tZero, ln)}
				}
				rel := sub(lo, off)
				switch s.str {
				case "word":
					out = append(out, seg("word", rel, s.args[1]))
				case "fill":
					out = append(out, seg("fill", rel, sub(end, lo), s.args[2]))
				case "copy":
					out = append(out, seg("copy", rel, sub(end, lo), s.args[2], add(s.args[3], sub(lo, so)), s.args[4]))
				default:
					return []*Term{seg("unknown", tZero, ln)}
				}
				lo = end
				found = true
				break
			}
			if st.lt(lo, so) || st.leq(se, lo) {
				continue
			}
			return []*Term{seg("unknown", tZero, ln)}
		}
		if !found {
			// default content up to hi, if nothing overlaps
			for _, s := range l {
				so, sl := segRange(s)
				if so == nil || !(st.leq(hi, so) || st.leq(add(so, sl), lo)) {
					return []*Term{seg("unknown", tZero, ln)}
				}
			}
			out = append(out, seg("copy", sub(lo, off), sub(hi, lo), base, lo, kt))
			return out
		}
	}
	return []*Term{seg("unknown", tZero, ln)}
}

func shiftSeg(s, d *Term) *Term {
	a := append([]*Term(nil), s.args...)
	a[0] = add(a[0], d)
	return seg(s.str, a...)
}

func (e *Engine) store(fr *Frame, fs *FS, in ssa.Instruction, addr, v *Term, t types.Type) {
	st := fs.st
	if u, ok := t.Underlying().(*types.Struct); ok && v.op == OStruct {
		for i := 0; i < u.NumFields() && i < len(v.args); i++ {
			e.store(fr, fs, in, mkField(addr, i, u.Field(i).Name()), v.args[i], u.Field(i).Type())
		}
		return
	}
	if e.d.storeSpecial(e, fr, fs, in, addr, v, t) {
		return
	}
	if addr.op == OIdx {
		st.addSeg(addr.args[0], seg("word", addr.args[1], v))
		return
	}
	st.mem[addr] = v
}

// slices of structs are summarised: facts that hold for all elements
func (e *Engine) isContElem(addr *Term) bool {
	if addr.op != OIdx || addr.args[0].op != OObj {
		return false
	}
	s := addr.args[0].args[0]
	return isContSym(s)
}

func ph(i int) *Term { return mk(Term{op: OBin, str: "ph", c: int64(i), beta: true}) }

func (e *Engine) contLoad(fr *Frame, fs *FS, in ssa.Instruction, addr *Term, t types.Type) *Term {
	if t == nil {
		return nil
	}
	v := e.unknown(t, Sym{name: "pop", kind: SPlain, frame: fr, instr: in})
	if e.d.walk != "" {
		e.d.popPos(fr, fs, in, addr, v, t.String())
		return v
	}
	m := map[*Term]*Term{}
	for i, a := range v.args {
		m[ph(i)] = a
	}
	for _, f := range fs.st.named("tmpl") {
		if f.args[0] == addr.args[0] {
			fs.st.addFact(substF(f.args[1], m))
		}
	}
	return v
}

// contField reads a field of an element of a summarised slice: the whole element is taken as read
func (e *Engine) contField(fr *Frame, fs *FS, in ssa.Instruction, el *Term) *Term {
	u, ok := in.(*ssa.UnOp)
	if !ok || e.d.walk == "" {
		return nil
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok {
		return nil
	}
	st := fs.st
	for _, f := range st.exAll("peeked") {
		if f.args[0] == el.args[0] && st.eqv(f.args[1], el.args[1]) {
			return f.args[2]
		}
	}
	v := e.contLoad(fr, fs, in, el, deref(fa.X.Type()))
	if v.op == OStruct {
		for _, f := range st.exAll("peeked") {
			st.exReplace(f, nil)
		}
		st.exAdd(facet("peeked", el.args[0], el.args[1], v))
	}
	return v
}

func substF(t *Term, m map[*Term]*Term) *Term { return subst(t, m, map[*Term]*Term{}) }

// contAppend appends struct elements to a summarised slice
func (e *Engine) contAppend(fr *Frame, fs *FS, in ssa.Instruction, cc *ssa.CallCommon, old *Term, elems []*Term, known bool) *Term {
	st := fs.st
	nb := mkObj(mkSym(Sym{name: "cont", kind: SOpaque, frame: fr, instr: in, ptr: true}))
	ob := old.args[0]
	if e.d.walk != "" {
		if len(elems) != 1 || !known {
			e.fail(fr, in, "unknown positions on a stack")
		}
		e.d.pushed(fr, in, st, old, elems[0], nb, cc.Args[0].Type().Underlying().(*types.Slice).Elem().String())
		return mkSlice(nb, tZero, addc(old.args[2], 1), mkSym(Sym{name: "cap", kind: SOpaque, frame: fr, instr: in, nonN: true}))
	}
	_, lenc := st.norm(old.args[2]).isConst()
	empty := st.facts[fact("emptyc", ob)] || (lenc && st.norm(old.args[2]).c == 0)
	var keep []*Term
	if known {
		var cand []*Term
		if empty {
			for k, el := range elems {
				var cs []*Term
				rev := map[*Term]*Term{}
				for i, a := range el.args {
					if a.op == OSym || a.op == OLin {
						if _, dup := rev[a]; !dup {
							rev[a] = ph(i)
						}
					}
				}
				for f := range st.facts {
					if f.op == OFact && (f.str == "tmpl" || f.str == "emptyc") {
						continue
					}
					g := substF(f, rev)
					if g != f && g.beta && (f.op == OFact || len(g.syms) == 0) {
						cs = append(cs, g)
					}
				}
				// an interval bound between fields
				for i, a := range el.args {
					if isIntTerm(a) {
						if st.geq(a, 0) {
							cs = append(cs, mkLe0(mulc(ph(i), -1)))
						}
					}
				}
				if k == 0 {
					cand = cs
				}
			}
		} else {
			for _, f := range st.named("tmpl") {
				if f.args[0] == ob {
					cand = append(cand, f.args[1])
				}
			}
		}
		for _, c := range cand {
			ok := true
			for _, el := range elems {
				m := map[*Term]*Term{}
				for i, a := range el.args {
					m[ph(i)] = a
				}
				if !st.prove(substF(c, m)) {
					ok = false
				}
			}
			if ok {
				keep = append(keep, c)
			}
		}
	}
	st.delFacts(func(f *Term) bool {
		return f.op == OFact && (f.str == "tmpl" || f.str == "emptyc") && f.args[0] == nb
	})
	for _, c := range keep {
		st.addFact(fact("tmpl", nb, c))
	}
	return mkSlice(nb, tZero, add(old.args[2], K(int64(len(elems)))), mkSym(Sym{name: "cap", kind: SOpaque, frame: fr, instr: in, nonN: true}))
}

// ---- values ----

func (e *Engine) val(fr *Frame, fs *FS, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constant(x)
	case *ssa.Global:
		return mk(Term{op: OGlobal, str: x.Name()})
	case *ssa.Function:
		e.closure[fnKey(x)] = x
		return mk(Term{op: OFunc, str: fnKey(x)})
	case *ssa.Builtin:
		return mk(Term{op: OFunc, str: "builtin:" + x.Name()})
	}
	if t, ok := fs.env[v]; ok {
		return t
	}
	// a value not set on this path (pruned): opaque
	if in, ok := v.(ssa.Instruction); ok {
		return e.unknown(v.Type(), Sym{name: v.Name(), kind: SOpaque, frame: fr, instr: in})
	}
	return e.unknown(v.Type(), Sym{name: v.Name(), kind: SOpaque, frame: fr})
}

func fnKey(f *ssa.Function) string {
	return fmt.Sprintf("%s@%d", f.String(), f.Pos())
}

func (e *Engine) constant(x *ssa.Const) *Term {
	if x.Value == nil {
		return e.zero(x.Type())
	}
	switch x.Value.Kind() {
	case constant.Bool:
		return KBool(constant.BoolVal(x.Value))
	case constant.String:
		return KStr(constant.StringVal(x.Value))
	case constant.Int:
		if i, ok := constant.Int64Val(x.Value); ok {
			return K(i)
		}
		return mk(Term{op: OBig, str: x.Value.ExactString()})
	}
	if i := constant.ToInt(x.Value); i.Kind() == constant.Int {
		if n, ok := constant.Int64Val(i); ok && isInteger(x.Type()) {
			return K(n)
		}
	}
	return mk(Term{op: OStr, str: "const:" + x.Value.ExactString()})
}

// ---- function analysis ----

// run analyses fn from one state; args include free variables after the parameters
func (e *Engine) run(fr *Frame, st *St, args []*Term, free []*Term) []Exit {
	e.visited[fr.fn] = true
	fn := fr.fn
	if len(fn.Blocks) == 0 {
		e.fail(fr, fr.call, "no body for %s", fn.Name())
	}
	inf := e.fnInfo(fn)
	if inf.irreducible {
		e.fail(fr, nil, "irreducible control flow")
	}
	fs := &FS{st: st.clone(), env: map[ssa.Value]*Term{}}
	for i, p := range fn.Params {
		fs.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		if i < len(free) {
			fs.env[p] = free[i]
		}
	}
	r := &runner{e: e, fr: fr, inf: inf}
	out, _ := r.walk(inf.root, []*FS{fs})
	for t := range out {
		if len(out[t]) > 0 {
			e.fail(fr, nil, "edge outside function")
		}
	}
	ex := r.exits
	return e.mergeExits(fr, ex, args)
}

func (e *Engine) mergeExits(fr *Frame, ex []Exit, args []*Term) []Exit {
	by := map[string]int{}
	var out []Exit
	for _, x := range ex {
		e.gcLocals(fr, x)
		e.d.answers(x.st)
		var b strings.Builder
		for _, r := range x.ret {
			fmt.Fprintf(&b, "%d,", r.id)
		}
		b.WriteString(x.st.sig())
		fmt.Fprintf(&b, "|%d", x.st.tag)
		k := b.String()
		if os.Getenv("DBGEX") == fr.fn.Name() {
			fmt.Println("--- raw exit", fr.fn.Name(), x.ret)
			fmt.Println(x.st.dump())
		}
		if i, ok := by[k]; ok {
			out[i].st.intersect(x.st)
			continue
		}
		by[k] = len(out)
		out = append(out, x)
	}
	return out
}

// gcLocals drops the memory of local variables of a returned frame that cannot be reached any more
func (e *Engine) gcLocals(fr *Frame, x Exit) {
	local := map[*Term]bool{}
	for k := range x.st.mem {
		r := rootObj(k)
		if k.op == ORegion {
			r = rootObj(k.args[0])
		}
		if r.op == OObj && r.args[0].op == OSym && r.args[0].sym.kind == SAlloc && r.args[0].sym.frame == fr {
			local[r] = true
		}
	}
	if len(local) == 0 {
		return
	}
	reach := map[*Term]bool{}
	var mark func(t *Term)
	mark = func(t *Term) {
		if len(t.syms) == 0 || reach[t] {
			return
		}
		reach[t] = true
		for _, a := range t.args {
			mark(a)
		}
	}
	for _, r := range x.ret {
		mark(r)
	}
	for _, f := range x.st.ex {
		mark(f)
	}
	for ch := true; ch; {
		ch = false
		n := len(reach)
		for k, v := range x.st.mem {
			r := rootObj(k)
			if k.op == ORegion {
				r = rootObj(k.args[0])
			}
			if !local[r] || reach[r] {
				mark(v)
			}
		}
		ch = len(reach) != n
	}
	for k := range x.st.mem {
		r := rootObj(k)
		if k.op == ORegion {
			r = rootObj(k.args[0])
		}
		if local[r] && !reach[r] {
			delete(x.st.mem, k)
		}
	}
}

func (s *St) sig() string {
	keys := make([]*Term, 0, len(s.mem))
	for k := range s.mem {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].id < keys[j].id })
	b := make([]byte, 0, 16*len(keys))
	b = append(b, '{')
	for _, k := range keys {
		b = strconv.AppendInt(b, int64(k.id), 36)
		b = append(b, '=')
		b = strconv.AppendInt(b, int64(s.mem[k].id), 36)
		b = append(b, ';')
	}
	b = append(b, '}')
	ids := make([]int, len(s.ex))
	for i, f := range s.ex {
		ids[i] = f.id
	}
	sort.Ints(ids)
	for _, i := range ids {
		b = strconv.AppendInt(b, int64(i), 36)
		b = append(b, ',')
	}
	if held := len(s.exAll("held")); held > 0 {
		for _, i := range s.aliasPairs() {
			b = strconv.AppendInt(b, int64(i), 36)
			b = append(b, '~')
		}
	}
	return string(b)
}

// aliasPairs are the pairs of words known to agree in two bit fields, i.e. nodes known to share a lock
func (s *St) aliasPairs() []int {
	n := map[[2]*Term]int{}
	var out []int
	for f := range s.facts {
		if f.op != OEq0 || f.args[0].op != OLin || f.args[0].c != 0 || len(f.args[0].args) != 2 {
			continue
		}
		l := f.args[0]
		a, b := l.args[0], l.args[1]
		if a.op != OExtract || b.op != OExtract || l.coef[0]+l.coef[1] != 0 || a.lo != b.lo || a.w != b.w {
			continue
		}
		k := [2]*Term{a.args[0], b.args[0]}
		if k[0].id > k[1].id {
			k[0], k[1] = k[1], k[0]
		}
		n[k]++
		if n[k] == 2 {
			out = append(out, k[0].id<<20^k[1].id)
		}
	}
	sort.Ints(out)
	return out
}

func (s *St) intersect(o *St) {
	for f := range s.facts {
		if !o.facts[f] {
			if (f.op == OLe0 || f.op == OEq0 || f.op == ONot) && o.prove(f) {
				continue
			}
			delete(s.facts, f)
			s.dirty()
		}
	}
	var extra []*Term
	for f := range o.facts {
		if !s.facts[f] && (f.op == OLe0) {
			extra = append(extra, f)
		}
	}
	_ = extra
}

func (fs *FS) sig(inf *fnInfo, b *ssa.BasicBlock) string {
	var sb strings.Builder
	for _, v := range inf.liveIn[b] {
		if t, ok := fs.env[v]; ok {
			fmt.Fprintf(&sb, "%d,", t.id)
		} else {
			sb.WriteString("-,")
		}
	}
	sb.WriteByte('|')
	for _, d := range fs.defers {
		fmt.Fprintf(&sb, "%d,", d.id)
	}
	sb.WriteString(fs.st.sig())
	return sb.String()
}

func (r *runner) merge(b *ssa.BasicBlock, l []*FS) []*FS {
	if len(l) <= 1 {
		return l
	}
	by := map[string]*FS{}
	var out []*FS
	for _, f := range l {
		if len(l) > 1 {
			r.e.d.answers(f.st)
		}
		k := f.sig(r.inf, b)
		if r.e.d.mode == "admin" {
			k += f.st.decided()
		}
		if r.inf.headers[b] {
			f.st.tag = 0
		} else if f.st.tag != 0 {
			// the ways out of a loop stay apart
			k += fmt.Sprintf("|%d", f.st.tag)
		}
		if len(l) > 1 {
			if os.Getenv("DBGMG") == fmt.Sprint(r.fr.fn.Name(), b.Index) {
				fmt.Println("--- merged at", b.Index, b.Comment)
				fmt.Println(f.st.dump())
			}
		}
		if g, ok := by[k]; ok {
			g.st.intersect(f.st)
			continue
		}
		by[k] = f
		out = append(out, f)
	}
	if len(out) > 4000 {
		r.e.fail(r.fr, b.Instrs[0], "too many partitions (%d)", len(out))
	}
	return out
}

func hasPart(t *Term) bool {
	if t.op == OExtract {
		return true
	}
	for _, a := range t.args {
		if hasPart(a) {
			return true
		}
	}
	return false
}

// decided lists the decisions made about parts of words
func (st *St) decided() string {
	var l []int
	for f := range st.facts {
		g := f
		if f.op == ONot {
			g = f.args[0]
		}
		if g.op != OEq0 {
			continue
		}
		if hasPart(g) {
			l = append(l, int(f.id))
		}
	}
	sort.Ints(l)
	return fmt.Sprint(l)
}

type runner struct {
	e     *Engine
	fr    *Frame
	inf   *fnInfo
	exits []Exit
}

// walk propagates states through a region (the function body or one iteration of a loop)
func (r *runner) walk(rg *region, in []*FS) (out map[*ssa.BasicBlock][]*FS, back []*FS) {
	out = map[*ssa.BasicBlock][]*FS{}
	pending := map[*ssa.BasicBlock][]*FS{rg.header: in}
	route := func(to *ssa.BasicBlock, fs *FS) {
		if rg.loop && to == rg.header {
			back = append(back, fs)
		} else if rg.blocks[to] {
			pending[to] = append(pending[to], fs)
		} else {
			out[to] = append(out[to], fs)
		}
	}
	for _, it := range rg.items {
		if it.sub != nil {
			if it.sub.header == rg.header {
				r.e.fail(r.fr, nil, "loop nest with shared header")
			}
			l := r.merge(it.sub.header, pending[it.sub.header])
			delete(pending, it.sub.header)
			if len(l) == 0 {
				continue
			}
			o := r.solve(it.sub, l)
			// deterministic order
			for _, b := range r.inf.rpo {
				for _, fs := range o[b] {
					route(b, fs)
				}
			}
			continue
		}
		l := pending[it.block]
		if !(rg.loop && it.block == rg.header) {
			l = r.merge(it.block, l)
		}
		delete(pending, it.block)
		for _, fs := range l {
			r.block(it.block, fs, route)
		}
	}
	return
}

func (r *runner) edge(from, to *ssa.BasicBlock, idx int, fs *FS, route func(*ssa.BasicBlock, *FS)) {
	// idx: position of from among the preds of to
	var vals []*Term
	var phis []*ssa.Phi
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		vals = append(vals, r.e.val(r.fr, fs, p.Edges[idx]))
	}
	env := make(map[ssa.Value]*Term, len(r.inf.liveIn[to]))
	for _, v := range r.inf.liveIn[to] {
		if t, ok := fs.env[v]; ok {
			env[v] = t
		}
	}
	for i, p := range phis {
		env[p] = vals[i]
	}
	fs.env = env
	if rg := r.inf.inner[from]; rg != nil && rg.loop && !rg.blocks[to] {
		fs.st.tag = from.Index + 1
	}
	route(to, fs)
}

func predIndex(from, to *ssa.BasicBlock, succIdx int) int {
	// handle duplicate edges
	n := 0
	for i := 0; i < succIdx; i++ {
		if from.Succs[i] == to {
			n++
		}
	}
	for i, p := range to.Preds {
		if p == from {
			if n == 0 {
				return i
			}
			n--
		}
	}
	return 0
}

func (r *runner) block(b *ssa.BasicBlock, fs *FS, route func(*ssa.BasicBlock, *FS)) {
	e := r.e
	cur := []*FS{fs}
	for _, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		e.steps += len(cur)
		if e.steps > e.budget {
			e.fail(r.fr, in, "analysis budget exceeded")
		}
		switch x := in.(type) {
		case *ssa.Jump:
			for _, f := range cur {
				r.edge(b, b.Succs[0], predIndex(b, b.Succs[0], 0), f, route)
			}
			return
		case *ssa.If:
			for _, f := range cur {
				c := e.val(r.fr, f, x.Cond)
				t, u := f, f.clone()
				if e.assume(r.fr, t, x, c) {
					r.edge(b, b.Succs[0], predIndex(b, b.Succs[0], 0), t, route)
				}
				if e.assume(r.fr, u, x, mkNot(c)) {
					r.edge(b, b.Succs[1], predIndex(b, b.Succs[1], 1), u, route)
				}
			}
			return
		case *ssa.Return:
			for _, f := range cur {
				var ret []*Term
				for _, v := range x.Results {
					ret = append(ret, e.val(r.fr, f, v))
				}
				r.exits = append(r.exits, Exit{f.st, ret})
			}
			return
		case *ssa.Panic:
			for _, f := range cur {
				e.d.onPanic(e, r.fr, f, x)
			}
			return
		case *ssa.RunDefers:
			var nxt []*FS
			for _, f := range cur {
				nxt = append(nxt, r.runDefers(f, x)...)
			}
			cur = nxt
		default:
			var nxt []*FS
			for _, f := range cur {
				nxt = append(nxt, r.exec(f, in)...)
			}
			cur = nxt
		}
		if len(cur) == 0 {
			return
		}
	}
}

func (r *runner) runDefers(f *FS, in ssa.Instruction) []*FS {
	cur := []*FS{f}
	for n := len(f.defers) - 1; n >= 0; n-- {
		d := f.defers[n]
		cc := r.e.defCall[d.str]
		var nxt []*FS
		for _, g := range cur {
			for _, res := range r.e.call(r.fr, g, in, cc, d.args, d.str) {
				h := g.clone()
				h.st = res.st
				nxt = append(nxt, h)
			}
		}
		cur = nxt
	}
	for _, g := range cur {
		g.defers = nil
	}
	return cur
}

// assume adds a condition; false if it cannot hold
func (e *Engine) assume(fr *Frame, fs *FS, in ssa.Instruction, c *Term) bool {
	st := fs.st
	switch c.op {
	case OTrue:
		return true
	case OFalse:
		return false
	}
	if st.prove(mkNot(c)) {
		return false
	}
	if st.facts[c] {
		return true
	}
	st.addFact(c)
	// x != y with x <= y gives x < y
	if c.op == ONot && c.args[0].op == OEq0 {
		l := c.args[0].args[0]
		if st.prove(mkLe0(l)) {
			st.addFact(mkLe0(addc(l, 1)))
		} else if st.prove(mkLe0(mulc(l, -1))) {
			st.addFact(mkLe0(addc(mulc(l, -1), 1)))
		}
	} else if c.op == OLe0 {
		l := c.args[0]
		for f := range st.facts {
			if f.op == ONot && f.args[0].op == OEq0 {
				m := f.args[0].args[0]
				if m == l || mulc(m, -1) == l {
					st.addFact(mkLe0(addc(l, 1)))
					break
				}
			}
		}
	}
	return e.d.onAssume(e, fr, fs, in, c)
}

func (r *runner) exec(fs *FS, in ssa.Instruction) []*FS {
	e, fr := r.e, r.fr
	one := []*FS{fs}
	set := func(v ssa.Value, t *Term) []*FS {
		fs.env[v] = t
		return one
	}
	switch x := in.(type) {
	case *ssa.DebugRef:
		return one
	case *ssa.Alloc:
		o := mkObj(mkSym(Sym{name: "local", kind: SAlloc, frame: fr, instr: in, ptr: true}))
		for k := range fs.st.mem {
			ro := rootObj(k)
			if k.op == ORegion {
				ro = rootObj(k.args[0])
			}
			if ro == o {
				delete(fs.st.mem, k)
			}
		}
		return set(x, o)
	case *ssa.BinOp:
		if e.d.mode == "admin" && (x.Op == token.ADD || x.Op == token.MUL || x.Op == token.SHL) && isInteger(x.Type()) {
			e.d.noWrap(fr, fs, in, e.val(fr, fs, x.X), e.val(fr, fs, x.Y))
		}
		if x.Op == token.EQL || x.Op == token.NEQ {
			if cs := sameParts(e.val(fr, fs, x.X), e.val(fr, fs, x.Y)); cs != nil {
				return e.equalParts(fr, fs, x, cs)
			}
		}
		return set(x, e.binop(x.Op, e.val(fr, fs, x.X), e.val(fr, fs, x.Y), x.X.Type(), x.Y.Type()))
	case *ssa.UnOp:
		v := e.val(fr, fs, x.X)
		switch x.Op {
		case token.MUL:
			if x.Referrers() != nil && len(*x.Referrers()) == 0 && v.op == OIdx {
				return one // a bounds check: the value is not used
			}
			return set(x, e.load(fr, fs, in, v, x.Type()))
		case token.NOT:
			return set(x, mkNot(v))
		case token.SUB:
			return set(x, mulc(v, -1))
		case token.XOR:
			return set(x, mk(Term{op: OBin, str: "compl", args: []*Term{v}}))
		case token.ARROW:
			return e.d.onRecv(e, fr, fs, x, v)
		}
	case *ssa.Phi:
		return one
	case *ssa.ChangeType:
		return set(x, e.val(fr, fs, x.X))
	case *ssa.ChangeInterface:
		return set(x, e.val(fr, fs, x.X))
	case *ssa.MakeInterface:
		return set(x, mk(Term{op: OIface, args: []*Term{e.val(fr, fs, x.X)}}))
	case *ssa.Convert:
		return set(x, e.convert(fr, fs, x))
	case *ssa.MultiConvert, *ssa.SliceToArrayPointer:
		return set(in.(ssa.Value), e.unknown(in.(ssa.Value).Type(), Sym{name: "conv", kind: SOpaque, frame: fr, instr: in}))
	case *ssa.MakeClosure:
		var args []*Term
		for _, b := range x.Bindings {
			args = append(args, e.val(fr, fs, b))
		}
		f := x.Fn.(*ssa.Function)
		e.closure[fnKey(f)] = f
		return set(x, mk(Term{op: OClosure, str: fnKey(f), args: args}))
	case *ssa.MakeMap, *ssa.MakeChan:
		return set(in.(ssa.Value), mkObj(mkSym(Sym{name: "make", kind: SOpaque, frame: fr, instr: in, ptr: true})))
	case *ssa.MakeSlice:
		b := mkObj(mkSym(Sym{name: "make", kind: SAlloc, frame: fr, instr: in, ptr: true}))
		fs.st.setSegs(b, nil)
		ln, cp := e.val(fr, fs, x.Len), e.val(fr, fs, x.Cap)
		el := x.Type().Underlying().(*types.Slice).Elem()
		if _, isStruct := el.Underlying().(*types.Struct); isStruct {
			b = mkObj(mkSym(Sym{name: "cont", kind: SOpaque, frame: fr, instr: in, ptr: true}))
		} else if isInteger(el) {
			fs.st.addSeg(b, seg("fill", tZero, ln, tZero))
		}
		return set(x, mkSlice(b, tZero, ln, cp))
	case *ssa.Slice:
		return set(x, e.slice(fr, fs, x))
	case *ssa.FieldAddr:
		b := e.val(fr, fs, x.X)
		st := deref(x.X.Type()).Underlying().(*types.Struct)
		if b.op == OBlk {
			e.d.onBlock(fr, fs, in, b)
		}
		return set(x, mkField(b, x.Field, st.Field(x.Field).Name()))
	case *ssa.Field:
		v := e.val(fr, fs, x.X)
		if v.op == OStruct {
			return set(x, v.args[x.Field])
		}
		return set(x, e.unknown(x.Type(), Sym{name: "field", kind: SOpaque, frame: fr, instr: in, loc: v}))
	case *ssa.IndexAddr:
		b := e.val(fr, fs, x.X)
		i := e.val(fr, fs, x.Index)
		var a *Term
		if b.op == OSlice {
			if !e.d.onIndex(e, fr, fs, in, b, i) {
				return nil
			}
			a = e.d.normAddr(b.args[0], add(b.args[1], i))
		} else {
			a = mkIdx(b, i)
			if arr, ok := deref(x.X.Type()).Underlying().(*types.Array); ok {
				e.d.onIndexArray(e, fr, fs, in, b, i, arr.Len())
			}
		}
		return set(x, a)
	case *ssa.Index:
		v := e.val(fr, fs, x.X)
		i := e.val(fr, fs, x.Index)
		return set(x, e.unknown(x.Type(), Sym{name: "index", kind: SOpaque, frame: fr, instr: in, loc: mkIdx(v, i)}))
	case *ssa.Lookup:
		v := e.val(fr, fs, x.X)
		i := e.val(fr, fs, x.Index)
		return set(x, e.unknown(x.Type(), Sym{name: "lookup", kind: SOpaque, frame: fr, instr: in, loc: mkIdx(v, i)}))
	case *ssa.TypeAssert:
		v := e.val(fr, fs, x.X)
		var r *Term
		if v.op == OIface {
			r = v.args[0]
		} else {
			t := x.AssertedType
			r = e.unknown(t, Sym{name: "pooled", kind: SStale, loc: v, stale: true})
		}
		if x.CommaOk {
			ok := e.unknown(types.Typ[types.Bool], Sym{name: "ok", kind: SOpaque, frame: fr, instr: in})
			return set(x, mk(Term{op: OTuple, args: []*Term{r, ok}}))
		}
		return set(x, r)
	case *ssa.Extract:
		v := e.val(fr, fs, x.Tuple)
		if v.op == OTuple && x.Index < len(v.args) {
			return set(x, v.args[x.Index])
		}
		return set(x, e.unknown(x.Type(), Sym{name: "extract", kind: SOpaque, frame: fr, instr: in, loc: v}))
	case *ssa.Range, *ssa.Next, *ssa.Select:
		if s, ok := in.(*ssa.Select); ok {
			e.d.onSelect(e, fr, fs, s)
		}
		return set(in.(ssa.Value), e.unknown(in.(ssa.Value).Type(), Sym{name: "next", kind: SOpaque, frame: fr, instr: in}))
	case *ssa.Store:
		a := e.val(fr, fs, x.Addr)
		v := e.val(fr, fs, x.Val)
		e.store(fr, fs, in, a, v, x.Val.Type())
		return one
	case *ssa.MapUpdate, *ssa.Send:
		e.d.onSend(e, fr, fs, in)
		return one
	case *ssa.Go:
		return one
	case *ssa.Defer:
		var args []*Term
		cc := &x.Call
		args = e.callArgs(fr, fs, cc)
		k := fmt.Sprintf("d%d", instrID(in))
		e.defCall[k] = cc
		d := mk(Term{op: OFunc, str: k, args: args})
		for _, o := range fs.defers {
			if o.str == k {
				e.fail(fr, in, "defer in a loop")
			}
		}
		fs.defers = append(fs.defers[:len(fs.defers):len(fs.defers)], d)
		return one
	case *ssa.Call:
		var out []*FS
		args := e.callArgs(fr, fs, &x.Call)
		res := e.call(fr, fs, in, &x.Call, args, "")
		for i, c := range res {
			f := fs
			if i < len(res)-1 {
				f = &FS{env: make(map[ssa.Value]*Term, len(fs.env)+1), defers: fs.defers}
				for k, v := range fs.env {
					f.env[k] = v
				}
			}
			f.st = c.st
			if c.val != nil {
				f.env[x] = c.val
			}
			out = append(out, f)
		}
		return out
	}
	e.fail(fr, in, "unsupported instruction %T", in)
	return nil
}

// callArgs evaluates receiver/closure value first, then the arguments
func (e *Engine) callArgs(fr *Frame, fs *FS, cc *ssa.CallCommon) []*Term {
	args := []*Term{e.val(fr, fs, cc.Value)}
	for _, a := range cc.Args {
		args = append(args, e.val(fr, fs, a))
	}
	return args
}

func (e *Engine) call(fr *Frame, fs *FS, in ssa.Instruction, cc *ssa.CallCommon, args []*Term, tag string) []callRes {
	fv := args[0]
	a := args[1:]
	if cc.IsInvoke() {
		return e.d.external(e, fr, fs, in, cc, nil, args)
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return e.builtin(fr, fs, in, b.Name(), cc, a)
	}
	var fn *ssa.Function
	var free []*Term
	if f := cc.StaticCallee(); f != nil {
		fn = f
	}
	if fv.op == OClosure || fv.op == OFunc {
		if f, ok := e.closure[fv.str]; ok {
			fn = f
			free = fv.args
		}
	}
	if fn == nil {
		return e.d.external(e, fr, fs, in, cc, nil, args)
	}
	// a thunk or wrapper of the package
	if h, ok := e.prims[fn]; ok {
		return h(e, fr, fs, in, a)
	}
	if fn.Pkg != e.p.ssa && !(fn.Pkg == nil && len(fn.Blocks) > 0 && fn.Synthetic != "" && fn.Object() != nil && fn.Object().Pkg() == e.p.pkg.Types) || len(fn.Blocks) == 0 {
		return e.d.external(e, fr, fs, in, cc, fn, args)
	}
	if r := e.d.inductive(fr, fs, in, fn, a); r != nil {
		return r
	}
	if fr.onStack(fn) {
		return e.d.recursive(e, fr, fs, in, fn, a)
	}
	nf := e.frame(fr, in, fn, tag)
	if nf.depth > 40 {
		e.fail(fr, in, "call depth")
	}
	var out []callRes
	for _, x := range e.run(nf, fs.st, a, free) {
		var v *Term
		switch len(x.ret) {
		case 0:
		case 1:
			v = x.ret[0]
		default:
			v = mk(Term{op: OTuple, args: x.ret})
		}
		out = append(out, callRes{x.st, v})
	}
	return out
}

// elemKind classifies slice elements: "b" bytes, "w" integers, "s" structs, "?" other
func elemKind(t types.Type) (string, types.Type) {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		t = u.Elem()
	case *types.Basic:
		return "str", nil
	default:
		return "?", nil
	}
	if _, ok := t.Underlying().(*types.Struct); ok {
		return "s", t
	}
	if basicKind(t) == types.Uint8 {
		return "b", t
	}
	if isInteger(t) {
		return "w", t
	}
	return "?", t
}

func (e *Engine) builtin(fr *Frame, fs *FS, in ssa.Instruction, name string, cc *ssa.CallCommon, a []*Term) []callRes {
	st := fs.st
	ret := func(t *Term) []callRes { return []callRes{{st, t}} }
	switch name {
	case "len", "cap":
		v := a[0]
		if v.op == OSlice {
			if name == "len" {
				return ret(v.args[2])
			}
			return ret(v.args[3])
		}
		if v.op == OStr {
			return ret(K(int64(len(v.str))))
		}
		return ret(mkSym(Sym{name: "len", kind: SLen, loc: v, nonN: true, max: 1 << 48}))
	case "copy":
		dst, src := a[0], a[1]
		k, _ := elemKind(cc.Args[0].Type())
		if dst.op != OSlice || src.op != OSlice || k == "?" {
			return ret(mkSym(Sym{name: "copied", kind: SOpaque, frame: fr, instr: in, nonN: true}))
		}
		n := e.minLen(fr, fs, in, dst, src)
		e.copyArr(fr, fs, in, dst.args[0], dst.args[1], src.args[0], src.args[1], n, k)
		return ret(n)
	case "append":
		return ret(e.append(fr, fs, in, cc, a))
	case "min", "max":
		r := a[0]
		for _, b := range a[1:] {
			if name == "min" && st.leq(r, b) || name == "max" && st.leq(b, r) {
				continue
			}
			if name == "min" && st.leq(b, r) || name == "max" && st.leq(r, b) {
				r = b
				continue
			}
			r = mk(Term{op: OBin, str: name, args: []*Term{r, b}})
		}
		return ret(r)
	case "clear":
		if v := a[0]; v.op == OSlice {
			e.fill(fr, fs, in, v.args[0], v.args[1], v.args[2], tZero)
		}
		return ret(nil)
	case "close":
		e.d.onClose(e, fr, fs, in, a[0])
		return ret(nil)
	case "ssa:wrapnilchk":
		return ret(a[0])
	case "print", "println", "delete":
		return ret(nil)
	case "recover":
		return ret(tNil)
	case "panic":
		return nil
	}
	var t types.Type
	if v, ok := in.(ssa.Value); ok {
		t = v.Type()
		return ret(e.unknown(t, Sym{name: name, kind: SOpaque, frame: fr, instr: in}))
	}
	return ret(nil)
}

// minLen is the number of elements copied
func (e *Engine) minLen(fr *Frame, fs *FS, in ssa.Instruction, dst, src *Term) *Term {
	st := fs.st
	dl, sl := dst.args[2], src.args[2]
	if st.leq(sl, dl) {
		return sl
	}
	if st.leq(dl, sl) {
		return dl
	}
	if n := e.d.copyLen(e, fr, fs, in, dst, src); n != nil {
		return n
	}
	return mk(Term{op: OBin, str: "min", args: []*Term{dl, sl}})
}

func (e *Engine) copyArr(fr *Frame, fs *FS, in ssa.Instruction, db, do, sb, so, n *Term, kind string) {
	st := fs.st
	if c, ok := n.isConst(); ok && c == 0 {
		return
	}
	e.d.onRead(e, fr, fs, in, sb, so, n)
	pieces := e.content(st, sb, so, n, kind)
	if !e.d.onWrite(e, fr, fs, in, db, do, n) {
		return
	}
	for _, p := range pieces {
		st.addSeg(db, shiftSeg(p, do))
	}
	if kind == "b" && e.d.walk == "iter" {
		e.d.savedCopy(st, db, do, sb, so, n)
	}
}

func (e *Engine) fill(fr *Frame, fs *FS, in ssa.Instruction, db, do, n, v *Term) {
	if !e.d.onWrite(e, fr, fs, in, db, do, n) {
		return
	}
	fs.st.addSeg(db, seg("fill", do, n, v))
}

func (e *Engine) append(fr *Frame, fs *FS, in ssa.Instruction, cc *ssa.CallCommon, a []*Term) *Term {
	st := fs.st
	k, _ := elemKind(cc.Args[0].Type())
	old, src := a[0], a[1]
	if old.op != OSlice || src.op != OSlice {
		if k == "b" && src.op == OStr && old.op == OSlice {
			ln := add(old.args[2], K(int64(len(src.str))))
			return mkSlice(mkObj(mkSym(Sym{name: "append", kind: SOpaque, frame: fr, instr: in, ptr: true})), tZero, ln, ln)
		}
		return e.unknown(cc.Args[0].Type(), Sym{name: "append", kind: SOpaque, frame: fr, instr: in})
	}
	e.d.onAppend(e, fr, fs, in, cc, old, src)
	if k == "s" {
		var elems []*Term
		known := false
		if c, ok := src.args[2].isConst(); ok && c < 8 {
			known = true
			for i := int64(0); i < c; i++ {
				el := e.load(fr, fs, in, mkIdx(src.args[0], add(src.args[1], K(i))), cc.Args[0].Type().Underlying().(*types.Slice).Elem())
				if el.op != OStruct {
					known = false
				}
				elems = append(elems, el)
			}
		}
		r := e.contAppend(fr, fs, in, cc, old, elems, known)
		e.d.onAppendItems(e, fr, fs, in, cc, old, r, elems, known)
		return r
	}
	nb := mkObj(mkSym(Sym{name: "append", kind: SAlloc, frame: fr, instr: in, ptr: true}))
	ln := add(old.args[2], src.args[2])
	if k == "b" && e.d.walk == "iter" {
		e.d.savedAppend(st, nb, old.args[0], old.args[1], old.args[2], src.args[0], src.args[1], src.args[2])
	}
	if k == "w" && e.d.walk == "iter" {
		e.d.listed(st, old, nb, ln)
	}
	cp := mkSym(Sym{name: "cap", kind: SLen, frame: fr, instr: in, nonN: true, max: 1 << 48})
	// the capacity depends on this append
	st.delFacts(func(f *Term) bool { return occurs(cp, f) })
	st.addFact(mkLe0(sub(ln, cp)))
	if k == "b" || k == "w" {
		var l []*Term
		if c, ok := st.norm(old.args[2]).isConst(); !ok || c != 0 {
			l = append(l, e.content(st, old.args[0], old.args[1], old.args[2], k)...)
		}
		if c, ok := st.norm(src.args[2]).isConst(); !ok || c != 0 {
			e.d.onRead(e, fr, fs, in, src.args[0], src.args[1], src.args[2])
			for _, p := range e.content(st, src.args[0], src.args[1], src.args[2], k) {
				l = append(l, shiftSeg(p, old.args[2]))
			}
		}
		st.setSegs(nb, l)
	} else {
		st.setSegs(nb, nil)
	}
	return mkSlice(nb, tZero, ln, cp)
}

func (e *Engine) slice(fr *Frame, fs *FS, x *ssa.Slice) *Term {
	v := e.val(fr, fs, x.X)
	st := fs.st
	lo := tZero
	if x.Low != nil {
		lo = e.val(fr, fs, x.Low)
	}
	var hi, mx *Term
	if x.High != nil {
		hi = e.val(fr, fs, x.High)
	}
	if x.Max != nil {
		mx = e.val(fr, fs, x.Max)
	}
	if v.op != OSlice {
		// pointer to array
		if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			if at, ok := pt.Elem().Underlying().(*types.Array); ok {
				n := K(at.Len())
				if hi == nil {
					hi = n
				}
				return mkSlice(v, lo, sub(hi, lo), sub(n, lo))
			}
		}
		if v.op == OStr || basicKind(x.X.Type()) == types.String {
			return mk(Term{op: OBin, str: "substr", args: []*Term{v, lo}})
		}
		return e.unknown(x.Type(), Sym{name: "slice", kind: SOpaque, frame: fr, instr: x})
	}
	e.d.onReslice(e, fr, fs, x, v, lo, hi)
	if hi == nil {
		hi = v.args[2]
	}
	cp := sub(v.args[3], lo)
	if mx != nil {
		cp = sub(mx, lo)
	}
	base, off := v.args[0], add(v.args[1], lo)
	k, _ := elemKind(x.X.Type())
	if k == "s" && e.d.walk != "" && !(lo == tZero && hi == tZero) {
		e.d.cutPos(fr, x, st, v, lo, hi)
		return mkSlice(base, off, sub(hi, lo), cp)
	}
	if c, ok := st.norm(sub(hi, lo)).isConst(); ok && c == 0 && k == "s" {
		nb := mkObj(mkSym(Sym{name: "cont.empty", kind: SOpaque, frame: fr, instr: x, ptr: true}))
		st.delFacts(func(f *Term) bool { return f.op == OFact && f.str == "tmpl" && f.args[0] == nb })
		st.addFact(fact("emptyc", nb))
		if e.d.walk != "" {
			for _, f := range st.exAll("stk") {
				st.exReplace(f, nil)
			}
			st.exAdd(facet("stk", nb))
		}
		return mkSlice(nb, tZero, tZero, cp)
	}
	if k == "w" && e.d.walk == "iter" && base.op == OObj && st.leq(hi, lo) {
		st.exDrop("list")
		st.exAdd(facet("list", base, tZero))
	}
	return e.d.normSlice(base, off, sub(hi, lo), cp)
}

func pow2(c int64) (int, bool) {
	if c <= 0 || c&(c-1) != 0 {
		return 0, false
	}
	n := 0
	for c > 1 {
		c >>= 1
		n++
	}
	return n, true
}

func bigBits(t *Term) (uint64, bool) {
	switch t.op {
	case OConst:
		return uint64(t.c), true
	case OBig:
		u, err := strconv.ParseUint(t.str, 10, 64)
		return u, err == nil
	}
	return 0, false
}

func (e *Engine) and(a, b *Term) *Term {
	ua, oka := bigBits(a)
	ub, okb := bigBits(b)
	if oka && okb {
		return fromU64(ua & ub)
	}
	if oka {
		a, b, ub, okb = b, a, ua, true
	}
	if okb {
		if ub == 0 {
			return tZero
		}
		lo := 0
		for ub&(1<<uint(lo)) == 0 {
			lo++
		}
		w := 0
		for lo+w < 64 && ub&(1<<uint(lo+w)) != 0 {
			w++
		}
		if lo+w == 64 || ub>>uint(lo+w) == 0 {
			x := extract(a, lo, w)
			if lo == 0 {
				return x
			}
			if lo < 62 {
				return mulc(x, int64(1)<<uint(lo))
			}
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(Term{op: OBin, str: "&", args: []*Term{a, b}})
}

func fromU64(u uint64) *Term {
	if u > 1<<62 {
		return mk(Term{op: OBig, str: strconv.FormatUint(u, 10)})
	}
	return K(int64(u))
}

func (e *Engine) binop(op token.Token, a, b *Term, ta, tb types.Type) *Term {
	intOp := isInteger(ta)
	switch op {
	case token.EQL, token.NEQ:
		var r *Term
		if intOp && isIntTerm(a) && isIntTerm(b) {
			r = mkEq0(sub(a, b))
		} else if basicKind(ta) == types.Bool || basicKind(ta) == types.UntypedBool {
			switch {
			case b == tTrue:
				r = a
			case b == tFalse:
				r = mkNot(a)
			case a == tTrue:
				r = b
			case a == tFalse:
				r = mkNot(b)
			default:
				r = mkEq(a, b)
			}
		} else {
			// slices are compared to nil
			if a.op == OSlice {
				a = a.args[0]
			}
			if b.op == OSlice {
				b = b.args[0]
			}
			if a.op == OBlk && b == tNil || b.op == OBlk && a == tNil {
				r = mkEq(a, b)
			} else {
				r = mkEq(a, b)
			}
		}
		if op == token.NEQ {
			return mkNot(r)
		}
		return r
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if !(intOp && isIntTerm(a) && isIntTerm(b)) {
			return mk(Term{op: OBin, str: "b:" + op.String(), args: []*Term{a, b}})
		}
		switch op {
		case token.LSS:
			return mkLe0(addc(sub(a, b), 1))
		case token.LEQ:
			return mkLe0(sub(a, b))
		case token.GTR:
			return mkLe0(addc(sub(b, a), 1))
		}
		return mkLe0(sub(b, a))
	}
	if !intOp || !isIntTerm(a) || !isIntTerm(b) {
		return mk(Term{op: OBin, str: "x" + op.String(), args: []*Term{a, b}})
	}
	trunc := func(t *Term) *Term {
		if basicKind(ta) == types.Uint8 {
			return maskLow(t, 8)
		}
		return t
	}
	switch op {
	case token.ADD:
		if a.op == OOr || b.op == OOr {
			if ma, ok := bitmask(a); ok {
				if mb, ok := bitmask(b); ok && ma&mb == 0 {
					return mkOr(a, b)
				}
			}
		}
		return trunc(add(a, b))
	case token.XOR:
		if ma, ok := bitmask(a); ok {
			if mb, ok := bitmask(b); ok && ma&mb == 0 {
				return mkOr(a, b)
			}
		}
	case token.SUB:
		return trunc(sub(a, b))
	case token.MUL:
		if c, ok := a.isConst(); ok {
			return trunc(mulc(b, c))
		}
		if c, ok := b.isConst(); ok {
			return trunc(mulc(a, c))
		}
	case token.QUO:
		if c, ok := b.isConst(); ok {
			if n, ok := pow2(c); ok {
				return extract(a, n, 64-n)
			}
		}
	case token.REM:
		if c, ok := b.isConst(); ok {
			if n, ok := pow2(c); ok {
				return extract(a, 0, n)
			}
		}
	case token.AND:
		return e.and(a, b)
	case token.OR:
		return mkOr(a, b)
	case token.AND_NOT:
		if u, ok := bigBits(b); ok {
			return e.and(a, fromU64(^u))
		}
	case token.SHL:
		if c, ok := b.isConst(); ok && c < 62 {
			return trunc(mulc(a, int64(1)<<uint(c)))
		}
	case token.SHR:
		if c, ok := b.isConst(); ok && c < 64 {
			return extract(a, int(c), 64-int(c))
		}
	}
	return mk(Term{op: OBin, str: op.String(), args: []*Term{a, b}})
}

func (e *Engine) convert(fr *Frame, fs *FS, x *ssa.Convert) *Term {
	v := e.val(fr, fs, x.X)
	from, to := x.X.Type(), x.Type()
	if isInteger(from) && isInteger(to) && isIntTerm(v) {
		switch basicKind(to) {
		case types.Uint8:
			return extract(v, 0, 8)
		case types.Uint16:
			return extract(v, 0, 16)
		case types.Uint32:
			return extract(v, 0, 32)
		}
		return v
	}
	// unsafe pointers keep the address
	fp := basicKind(from) == types.UnsafePointer || basicKind(to) == types.UnsafePointer
	if fp {
		return v
	}
	if basicKind(to) == types.String || basicKind(from) == types.String {
		return e.unknown(to, Sym{name: "conv", kind: SOpaque, frame: fr, instr: x})
	}
	return e.unknown(to, Sym{name: "conv", kind: SOpaque, frame: fr, instr: x})
}

// sameParts gives the conditions under which two addresses in data blocks, or two structs, are the same
func sameParts(a, b *Term) []*Term {
	if a == b || a.op != b.op {
		return nil
	}
	var cs []*Term
	parts := func(x, y *Term) bool {
		switch {
		case x == y:
		case isIntTerm(x) && isIntTerm(y):
			cs = append(cs, mkEq0(sub(x, y)))
		default:
			return false
		}
		return true
	}
	switch a.op {
	case OIdx:
		x, y := a.args[0], b.args[0]
		if x.op != OField || y.op != OField || x.c != y.c || x.args[0].op != OBlk || y.args[0].op != OBlk {
			return nil
		}
		if !parts(x.args[0].args[0], y.args[0].args[0]) || !parts(a.args[1], b.args[1]) {
			return nil
		}
	case OStruct:
		if len(a.args) != len(b.args) {
			return nil
		}
		for i := range a.args {
			if !parts(a.args[i], b.args[i]) {
				return nil
			}
		}
	default:
		return nil
	}
	return cs
}

// equalParts splits the state on which of the conditions, all needed for equality, is the first not to hold
func (e *Engine) equalParts(fr *Frame, fs *FS, x *ssa.BinOp, cs []*Term) (out []*FS) {
	for _, c := range cs {
		u := fs.clone()
		if e.assume(fr, u, x, mkNot(c)) {
			u.env[x] = KBool(x.Op == token.NEQ)
			out = append(out, u)
		}
		if !e.assume(fr, fs, x, c) {
			return out
		}
	}
	fs.env[x] = KBool(x.Op == token.EQL)
	return append(out, fs)
}
