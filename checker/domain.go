package main

// The abstract domain of the tree: which addresses are tree words, locks, reservations, the epoch and the
// handout flags, what an atomic access to each of them means, and which rules every access has to obey.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Rep struct {
	Prop  string `json:"property"`
	Rule  string `json:"rule"`
	Where string `json:"where"`
	Fn    string `json:"function"`
	Ok    int    `json:"paths_ok"`
	Bad   int    `json:"paths_bad"`
	Msg   string `json:"message,omitempty"`
	Trace string `json:"trace,omitempty"`
}

type Domain struct {
	e          *Engine
	S          int   // log2 of the slots of a block
	slots      int64 // slots per block
	lockBits   int   // log2 of the locks of a block (from the first lock address seen)
	key        *Term // array of the key passed by the caller
	keyLen     *Term
	fetched    *Term // array of the key fetched by the caller
	op         *Term // the operation object
	opType     string
	mode       string
	walk       string // kind of traversal
	res        *Term  // resume position of an iterator
	keepBounds bool   // the program goes on only after an index was in range
	resLen     *Term
	summed     map[*ssa.Function]bool // recursive functions, taken as verified
	wfr        *Frame
	win        ssa.Instruction
	conts      map[string]*contShape
	scope      string // queries below a prefix: "prefix"
	driver     string
	value      *Term // value passed to Finalize
	reps       map[string]*Rep
	fieldBad   map[string]bool
	events     map[string]int
	words      map[ssa.Instruction]bool
}

func newDomain(e *Engine, S int) *Domain {
	return &Domain{e: e, conts: map[string]*contShape{}, summed: map[*ssa.Function]bool{}, S: S, slots: 1 << uint(S), reps: map[string]*Rep{}, events: map[string]int{}, words: map[ssa.Instruction]bool{}}
}

// chk records one obligation for the properties in props (comma separated)
func (d *Domain) chk(fr *Frame, in ssa.Instruction, props, rule string, ok bool, format string, a ...interface{}) bool {
	if d.e.silent > 0 {
		return ok
	}
	pos, fn := "-", "-"
	if in != nil {
		p := in.Pos()
		for f := fr; !p.IsValid() && f != nil && f.call != nil; f = f.parent {
			p = f.call.Pos()
		}
		pos = d.e.p.pos(p)
		fn = fnName(in.Parent())
	} else if fr != nil {
		fn = fnName(fr.fn)
		pos = d.e.p.pos(fr.fn.Pos())
	}
	for _, p := range strings.Split(props, ",") {
		k := p + "|" + rule + "|" + pos + "|" + fn
		r := d.reps[k]
		if r == nil {
			r = &Rep{Prop: p, Rule: rule, Where: pos, Fn: fn}
			d.reps[k] = r
		}
		if ok {
			r.Ok++
		} else {
			r.Bad++
			if dbgBad != "" && strings.HasPrefix(rule, dbgBad) && dbgSt != nil {
				fmt.Println("BAD", rule, fmt.Sprintf(format, a...))
				fmt.Println(dbgSt.dump())
				for k, v := range dbgSt.eq {
					fmt.Println("  eq", k, "=", v)
				}
			}
			if r.Msg == "" {
				r.Msg = fmt.Sprintf(format, a...)
				r.Trace = d.driver
				if fr != nil {
					r.Trace += ": " + fr.trace(d.e.p)
				}
			}
		}
	}
	return ok
}

func (d *Domain) sorted() []*Rep {
	var l []*Rep
	for _, r := range d.reps {
		l = append(l, r)
	}
	sort.Slice(l, func(i, j int) bool {
		if l[i].Prop != l[j].Prop {
			return l[i].Prop < l[j].Prop
		}
		if l[i].Where != l[j].Where {
			return l[i].Where < l[j].Where
		}
		return l[i].Rule < l[j].Rule
	})
	return l
}

// ---- addresses ----

// chain lists the terms an address was reached through
func chain(t *Term) []*Term {
	var l []*Term
	for i := 0; t != nil && i < 40; i++ {
		l = append(l, t)
		switch t.op {
		case OField, OIdx, OSlice, OElem:
			t = t.args[0]
		case OObj:
			t = t.args[0]
		case OSym:
			t = t.sym.loc
		default:
			t = nil
		}
	}
	return l
}

func viaField(t *Term, name string) bool {
	for _, x := range chain(t) {
		if x.op == OField && x.str == name {
			return true
		}
	}
	return false
}

func (d *Domain) class(a *Term) string {
	t := d.e.tree
	switch a.op {
	case OField:
		if a.args[0] == t {
			switch a.str {
			case "root":
				return "root"
			case "rootLeafLock":
				return "rootlock"
			case "liveObjects":
				return "live"
			case "nextFreeBlock":
				return "nextblock"
			}
			return "treefield"
		}
		if a.str == "v" || a.args[0].op == OIdx {
			if viaField(a, "allocatorQueue") {
				return "hand"
			}
		}
		if viaField(a, "slots") && (viaField(a, "manager") || a.str == "r") || rootObj(a) == d.e.mgr {
			return "resv"
		}
	case OIdx:
		if a.args[0].op == OField && a.args[0].str == "locks" && a.args[0].args[0].op == OBlk {
			return "lock"
		}
		if a.args[0].op == ONode || a.args[0].op == OBData {
			return "slot"
		}
		if viaField(a, "allocatorQueue") {
			return "hand"
		}
	case OObj:
		s := a.args[0]
		if viaField(s, "reserveSlot") || viaField(s, "reservations") {
			return "resv"
		}
		if viaField(s, "globalEpoch") {
			return "epoch"
		}
	}
	if a.op != OGlobal && rootObj(a) == d.e.mgr {
		return "mgr"
	}
	return ""
}

// lockOf is the lock address of node n as the code computes it
func (d *Domain) lockOf(n *Term) *Term {
	b := extract(n, d.S, 64-d.S)
	l := extract(n, 0, d.lockBits)
	tf := mkField(mk(Term{op: OBlk, args: []*Term{b}}), d.lockField(), "locks")
	return mkIdx(tf, l)
}

func (d *Domain) lockField() int {
	return fieldIndex(d.e.p.named("nodeBlock"), "locks")
}

// sameLock: the lock l is the lock of node n
func (d *Domain) sameAddr(st *St, a, b *Term) bool {
	if a == b {
		return true
	}
	if a.op != b.op || len(a.args) != len(b.args) {
		return false
	}
	switch a.op {
	case OIdx:
		if a.args[0].op == OField && a.args[0].args[0].op == OBlk && b.args[0].op == OField && b.args[0].args[0].op == OBlk {
			return a.args[0].str == b.args[0].str && st.eqv(a.args[0].args[0].args[0], b.args[0].args[0].args[0]) && st.eqv(a.args[1], b.args[1])
		}
		if a.args[0].op == ONode && b.args[0].op == ONode {
			return d.sameNode(st, a.args[0].args[0], b.args[0].args[0]) && st.eqv(a.args[1], b.args[1])
		}
	}
	return st.norm(a) == st.norm(b)
}

func (d *Domain) sameNode(st *St, a, b *Term) bool { return a == b || st.eqv(a, b) }

// nodeAddr recognises the pair (block, offset) of a node
func (d *Domain) nodeOf(b, off *Term) (n, rest *Term) {
	b0 := b
	_, atoms, co := linOf(off)
	for i, o := range atoms {
		if co[i] != 1 {
			continue
		}
		// o = y[k:k+S], b = y[k+S:..]
		if o.op == OExtract && b0.op == OExtract && o.args[0] == b0.args[0] && o.w == d.S && b0.lo == o.lo+d.S {
			return extract(o.args[0], o.lo, d.S+b0.w), sub(off, o)
		}
		// narrower offset: the symbol itself is smaller than a block
	}
	return nil, nil
}

func (d *Domain) normAddr(base, off *Term) *Term {
	if base.op == OBData {
		if n, rest := d.nodeOf(base.args[0], off); n != nil {
			return mkIdx(mk(Term{op: ONode, args: []*Term{n}}), rest)
		}
	}
	return mkIdx(base, off)
}

func (d *Domain) normSlice(base, off, ln, cp *Term) *Term {
	if base.op == OBData {
		if n, rest := d.nodeOf(base.args[0], off); n != nil {
			return mkSlice(mk(Term{op: ONode, args: []*Term{n}}), rest, ln, cp)
		}
	}
	return mkSlice(base, off, ln, cp)
}

// wordOf returns the word a node address was taken from: n = w[9:48]
func wordOf(n *Term) *Term {
	if n.op == OExtract && n.lo == 9 && n.w == 39 {
		return n.args[0]
	}
	return nil
}

func isNewSym(n *Term) bool { return n.op == OSym && n.sym.kind == SNew }

// ---- loads and stores ----

func (d *Domain) loadSpecial(e *Engine, fr *Frame, fs *FS, in ssa.Instruction, a *Term, t types.Type) *Term {
	d.touch(fr, fs, in, a)
	if a.op == OIdx {
		if b := a.args[0]; b.op == OField && b.str == "blocks" && b.args[0] == e.tree {
			return mk(Term{op: OBlk, args: []*Term{a.args[1]}})
		}
		if a.args[0].op == ONode || a.args[0].op == OBData {
			return d.plainRead(fr, fs, in, a, t)
		}
	}
	if a.op == OField {
		b := a.args[0]
		if b.op == OBlk {
			switch a.str {
			case "data":
				return mkSlice(mk(Term{op: OBData, args: []*Term{b.args[0]}}), tZero, K(d.slots), K(d.slots))
			}
		}
		if a.str == "id" && b.op == OObj {
			if el := b.args[0]; el.op == OElem && viaField(el.args[0], "allocators") {
				return el.args[1]
			}
		}
		if b == e.tree {
			switch a.str {
			case "root", "rootLeafLock":
				// the key of the checks is the current value: an unordered read of a shared word
				d.chk(fr, in, "C08", "shared-word-read-atomically", false, "%s is read without synchronisation", a.str)
				return d.atomicLoad(fr, fs, in, a, t)
			case "liveObjects":
				if d.mode == "sums" {
					return d.sumLoad(fr, fs, in, a)
				}
				return nil
			}
		}
		if d.mode == "sums" && d.ofAllocator(a) != nil {
			return d.sumLoad(fr, fs, in, a)
		}
		if a.str == "nextFree" || a.str == "offset" {
			v := mkSym(Sym{name: a.str, kind: SInit, loc: a, nonN: true, max: 1 << 48})
			return v
		}
	}
	if a.op == OObj && d.class(a) != "" {
		d.chk(fr, in, "C08", "shared-word-read-atomically", false, "%s is read without synchronisation", a)
		return d.atomicLoad(fr, fs, in, a, t)
	}
	return nil
}

func (d *Domain) storeSpecial(e *Engine, fr *Frame, fs *FS, in ssa.Instruction, a, v *Term, t types.Type) bool {
	d.touch(fr, fs, in, a)
	st := fs.st
	if d.mode == "sums" && d.sumStore(fr, fs, in, a, v) {
		return true
	}
	switch c := d.class(a); c {
	case "root", "rootlock", "lock", "resv", "epoch", "live", "nextblock", "hand":
		d.chk(fr, in, "C08", "shared-word-written-atomically", false, "%s is written without synchronisation", a)
		d.atomicStore(fr, fs, in, a, v)
		return true
	case "slot":
		n := a.args[0].args[0]
		if a.args[0].op == ONode && isNewSym(n) {
			if f := d.newFacet(st, n); f != nil {
				d.chk(fr, in, "C15", "write-inside-new-node", st.geq(a.args[1], 0) && st.lt(a.args[1], f.args[1]), "slot %s of a new node with %s slots is written", a.args[1], f.args[1])
				st.addSeg(a.args[0], seg("word", a.args[1], v))
				return true
			}
			d.chk(fr, in, "C07,C08", "no-plain-write-to-published-node", false, "a slot of a published node is written without synchronisation")
			return true
		}
		d.chk(fr, in, "C07,C08", "no-plain-write-to-published-node", false, "a slot of node %s, which is not private, is written without synchronisation", n)
		return true
	case "treefield", "mgr":
		d.effect(fr, fs, in, a, c)
	}
	if a.op == OIdx && v.op == OSlice && viaField(a, "recycler") {
		d.retire(fr, fs, in, a.args[1], v.args[0])
	}
	if a.op == OIdx && a.args[0] == d.key && d.key != nil || a.op == OIdx && d.fetched != nil && a.args[0] == d.fetched {
		d.chk(fr, in, "C26", "caller-bytes-not-written", false, "a byte of a slice passed by the caller is written")
	}
	d.effect(fr, fs, in, a, "")
	return false
}

// touch: any access through a pointer to an object given back to its pool
func (d *Domain) touch(fr *Frame, fs *FS, in ssa.Instruction, a *Term) {
	if len(fs.st.ex) == 0 {
		return
	}
	r := rootObj(a)
	for _, f := range fs.st.ex {
		if f.str == "put" && f.args[0] == r {
			d.chk(fr, in, "C25,C04", "no-use-after-put", false, "field %s of an object is used after it was given back to its pool", a.str)
		}
		if f.str == "gone" && r.op == OObj && a.op == OField && a.str != "id" && a.str != "idx" && r.args[0].op == OElem && viaField(r.args[0].args[0], "allocators") && r.args[0].args[1] == f.args[0] {
			d.chk(fr, in, "C04", "no-use-after-release", false, "field %s of an allocator is used after it was released", a.str)
		}
	}
}

// plainRead is an unordered read of a slot
func (d *Domain) plainRead(fr *Frame, fs *FS, in ssa.Instruction, a *Term, t types.Type) *Term {
	st := fs.st
	base, off := a.args[0], a.args[1]
	if base.op == ONode && isNewSym(base.args[0]) && d.newFacet(st, base.args[0]) != nil {
		v := d.e.resolveElem(st, base, off)
		if v == nil || v == tTop {
			return d.e.unknown(t, Sym{name: "garbage", kind: SPlain, frame: fr, instr: in, stale: true})
		}
		return v
	}
	if base.op == OBData {
		d.deref(fr, fs, in, nil, base)
		return d.e.unknown(t, Sym{name: "raw", kind: SPlain, frame: fr, instr: in})
	}
	d.deref(fr, fs, in, base.args[0], base)
	n := base.args[0]
	w := wordOf(n)
	// the length slot of a long prefix
	if c, ok := st.norm(off).isConst(); ok && c == 0 && w != nil && st.prove(mkEq0(addc(extract(w, 48, 8), -255))) {
		v := mk(Term{op: OWord, args: []*Term{base, tZero}})
		if d.mode != "admin" {
			st.addFact(mkLe0(sub(K(255), v)))
			st.addFact(mkLe0(addc(v, -(d.slots * 8))))
		}
		return v
	}
	d.childRead(fr, fs, in, base, off, K(1))
	return mk(Term{op: OWord, args: []*Term{base, off}})
}

// childRead: unordered reads of child slots are only right while the node is locked
func (d *Domain) childRead(fr *Frame, fs *FS, in ssa.Instruction, base, off, n *Term) {
	st := fs.st
	node := base.args[0]
	ok := d.lockHeld(st, node) != nil
	if d.mode == "admin" && !ok {
		return
	}
	d.chk(fr, in, "C08,C14", "plain-read-of-slots-under-lock", ok, "slots of node %s are read without synchronisation and without holding its lock, or the first slot is taken for a prefix length when the prefix is short", node)
}

// deref: node memory is reached; needs an epoch reservation and a word read under it
func (d *Domain) deref(fr *Frame, fs *FS, in ssa.Instruction, n, base *Term) {
	st := fs.st
	if n != nil && isNewSym(n) {
		return
	}
	d.events["deref"]++
	sess := len(st.exAll("sess")) > 0
	d.chk(fr, in, "C01", "reservation-held", sess, "node memory is accessed without an epoch reservation")
	if d.mode == "admin" {
		return
	}
	var w *Term
	if n != nil {
		w = wordOf(n)
	}
	ok := w != nil && st.facts[fact("insess", w)]
	if !ok && w != nil {
		ok = st.prove(fact("insess", w))
	}
	if !ok && n != nil {
		// another name of the same node
		for _, f := range st.named("insess") {
			if st.eqv(extract(f.args[0], 9, 39), n) {
				ok = true
				break
			}
		}
	}
	what := "unknown position"
	if n != nil {
		what = n.String()
	}
	if sess {
		d.chk(fr, in, "C01", "position-read-under-reservation", ok, "node %s was not read from the tree under the current epoch reservation", what)
	}
	if w != nil {
		d.wordAxioms(st, w)
	}
}

// wordAxioms are the invariants of a word that points to a node (established where words are published)
func (d *Domain) wordAxioms(st *St, w *Term) {
	st.addFact(mkNot(mkEq0(extract(w, 9, 39))))
	st.addFact(mkNot(mkEq0(w)))
	st.addFact(mkEq0(extract(w, 8, 1)))
	c := extract(w, 56, 8)
	st.addFact(mkLe0(sub(K(1), c)))
	d.countAxiom(st, w)
}

// a node has 2..127 or 256 children
func (d *Domain) countAxiom(st *St, w *Term) {
	c := extract(w, 56, 8)
	if st.prove(mkLe0(sub(K(127), c))) {
		st.addFact(mkEq0(addc(c, -255)))
	} else if st.prove(mkLe0(addc(c, -254))) {
		st.addFact(mkLe0(addc(c, -126)))
	}
}

func (d *Domain) newFacet(st *St, n *Term) *Term {
	for _, f := range st.ex {
		if f.str == "new" && f.args[0] == n {
			return f
		}
	}
	return nil
}

// lockHeld returns the facet of the lock protecting node n
func (d *Domain) lockHeld(st *St, n *Term) *Term {
	if d.lockBits == 0 {
		return nil
	}
	l := d.lockOf(n)
	for _, f := range st.ex {
		if f.str == "held" && d.sameAddr(st, f.args[0], l) {
			return f
		}
	}
	return nil
}

// effect records writes to anything but private objects
func (d *Domain) effect(fr *Frame, fs *FS, in ssa.Instruction, a *Term, cls string) {
	if d.mode != "query" && d.mode != "admin" {
		return
	}
	r := rootObj(a)
	if a.op == OIdx && (a.args[0] == d.key) {
		return
	}
	shared := r == d.e.tree || r == d.e.mgr || r.op == OGlobal || a.op == OGlobal || r.op == OBlk || r.op == ONode || r.op == OBData
	if r.op == OObj && !shared {
		// objects reached from the tree
		for _, x := range chain(r) {
			if x == d.e.tree || x == d.e.mgr {
				shared = true
			}
		}
	}
	if shared {
		d.chk(fr, in, "C24,C30", "query-has-no-effect", false, "a query writes %s", a)
	}
}

// ---- atomics ----

func (d *Domain) atomicLoad(fr *Frame, fs *FS, in ssa.Instruction, a *Term, t types.Type) *Term {
	st := fs.st
	d.touch(fr, fs, in, a)
	cls := d.class(a)
	d.events["load."+cls]++
	if cls == "live" && d.mode == "sums" {
		return d.sumLoad(fr, fs, in, a)
	}
	if cls == "slot" {
		base := a.args[0]
		if base.op == ONode {
			if isNewSym(base.args[0]) && d.newFacet(st, base.args[0]) != nil {
				return d.plainRead(fr, fs, in, a, t)
			}
			d.deref(fr, fs, in, base.args[0], base)
			d.childSlot(fr, in, st, base.args[0], a.args[1])
		} else {
			d.deref(fr, fs, in, nil, base)
		}
	}
	v := d.e.unknown(t, Sym{name: loadName(cls), kind: SLoad, frame: fr, instr: in, loc: a})
	// a new execution of the same load
	st.delFacts(func(f *Term) bool {
		for _, s := range f.syms {
			if s == v {
				return true
			}
		}
		return false
	})
	switch cls {
	case "resv":
		if d.mode == "alloc" {
			d.seenReservation(fr, in, st, a, v)
		}
	case "root", "slot":
		d.readHeld(fr, fs, in, a)
		st.addFact(fact("at", a, v))
		if cls == "root" {
			st.addFact(fact("depth", v, tZero))
			st.addFact(fact("path", v, tZero))
		}
		if len(st.exAll("sess")) > 0 {
			st.addFact(fact("insess", v))
		}
		for _, g := range st.named("gen") {
			st.addFact(fact("before", g.args[0], v))
		}
		if cls == "root" && len(st.exAll("heldroot")) > 0 {
			st.addFact(fact("underroot", v))
		}
		// slots of a locked node do not change
		if cls == "slot" && a.args[0].op == ONode && d.lockHeld(st, a.args[0].args[0]) != nil {
			st.addFact(fact("underlock", v))
		}
		if cls == "slot" && d.walk != "" {
			// the tree does not change
			for _, f := range st.named("at") {
				if f.args[1] != v && st.eqv(f.args[0], a) {
					st.addFact(mkEq0(sub(v, f.args[1])))
				}
			}
			d.walkLoad(fr, in, st, a, v)
		}
	case "lock":
		d.lockShape(fr, in, a)
		for _, g := range st.named("gen") {
			st.addFact(fact("before", g.args[0], v))
		}
		st.addFact(fact("gen", v, a))
		if d.mode == "update" || d.mode == "delete" {
			for _, f := range st.named("at") {
				st.addFact(fact("wbefore", f.args[1], v))
			}
		}
	case "epoch":
		for _, u := range st.exAll("unlinked") {
			st.addFact(fact("after", v, u.args[0]))
		}
	}
	return v
}

// childSlot: a slot read as a child is not a part of the prefix
func (d *Domain) childSlot(fr *Frame, in ssa.Instruction, st *St, n, off *Term) {
	w := wordOf(n)
	if w == nil || d.mode == "admin" {
		return
	}
	_, ps, _ := d.prefixOf(st, w)
	if ps == nil {
		return
	}
	i := sub(off, ps)
	if !shareSym(off, w) || !shareSym(i, w) {
		return // computed without the prefix length, or from where the children start
	}
	d.chk(fr, in, "C14,C16", "slot-read-is-child", st.geq(i, 0), "slot %s of node %s is read as a child: the prefix takes %s slots, followed by %s children", off, w, ps, d.countOf(w))
}

func shareSym(a, b *Term) bool {
	for _, x := range a.syms {
		for _, y := range b.syms {
			if x == y {
				return true
			}
		}
	}
	return false
}

func loadName(c string) string {
	switch c {
	case "root":
		return "root"
	case "slot":
		return "w"
	case "lock":
		return "gen"
	case "":
		return "ld"
	}
	return c
}

func (d *Domain) readHeld(fr *Frame, fs *FS, in ssa.Instruction, a *Term) {}

// lockShape learns how the code maps nodes to locks, and requires one mapping for all of them
func (d *Domain) lockShape(fr *Frame, in ssa.Instruction, a *Term) *Term {
	b, l := a.args[0].args[0].args[0], a.args[1]
	bits, ok := 0, false
	var n *Term
	switch {
	case l.op == OExtract && b.op == OExtract && l.args[0] == b.args[0] && b.lo == l.lo+d.S && l.w <= d.S:
		bits, ok = l.w, true
		n = extract(l.args[0], l.lo, d.S+b.w)
	}
	if ok && d.lockBits == 0 {
		d.lockBits = bits
	}
	d.chk(fr, in, "C05,C03", "one-lock-per-node", ok && bits == d.lockBits, "the lock %s is not the lock every other place uses for that node", a)
	if !ok {
		return nil
	}
	return n
}

func (d *Domain) atomicStore(fr *Frame, fs *FS, in ssa.Instruction, a, v *Term) {
	st := fs.st
	cls := d.class(a)
	d.events["store."+cls]++
	switch cls {
	case "resv":
		d.reservation(fr, fs, in, a, v)
	case "root", "slot":
		d.queryEffect(fr, in, cls)
		d.publish(fr, fs, in, a, nil, v, false)
	case "rootlock":
		d.queryEffect(fr, in, cls)
		h := st.exAll("heldroot")
		c, isc := v.isConst()
		if d.chk(fr, in, "C03", "root-lock-released-by-holder", len(h) > 0 && isc && c == 0, "the lock of the root is stored without holding it") {
			st.exDel(h[0])
		}
	case "lock":
		d.queryEffect(fr, in, cls)
		d.chk(fr, in, "C03,C05", "locks-change-by-cas-and-add", false, "a lock generation is overwritten")
	case "epoch":
		d.chk(fr, in, "C02", "epoch-monotone", false, "the epoch is overwritten")
	case "live":
		d.queryEffect(fr, in, cls)
		d.chk(fr, in, "C11", "item-count-added", false, "the item count is overwritten")
	case "hand":
		c, ok := v.isConst()
		if d.chk(fr, in, "C04", "handout-flag", ok && c == 0, "a handout flag is set to %s", v) {
			d.giveBack(fr, fs, in, a)
		}
	default:
		st.mem[a] = v
		d.effect(fr, fs, in, a, cls)
	}
}

// giveBack: the flag of an allocator is cleared
func (d *Domain) giveBack(fr *Frame, fs *FS, in ssa.Instruction, a *Term) {
	st := fs.st
	for _, f := range st.exAll("hand") {
		if d.sameAddr(st, f.args[0], a) {
			st.exDel(f)
			d.chk(fr, in, "C01,C04", "reservation-cleared-before-release", len(st.exAll("sess")) == 0, "an allocator is released while its epoch reservation is still in use")
			d.chk(fr, in, "C02,C04", "retired-before-release", d.unretired(st) == nil && len(st.exAll("retiring")) == 0, "an allocator is released before the replaced nodes are retired through it")
			d.chk(fr, in, "C03,C04", "locks-released-before-release", len(st.exAll("held"))+len(st.exAll("heldroot")) == 0, "an allocator is released while locks are held")
			if i := handIndex(a); i != nil {
				st.exAdd(facet("gone", i))
			}
			return
		}
	}
	d.chk(fr, in, "C04", "released-allocator-is-held", false, "an allocator is released that is not held: %s", a)
}

// handIndex is the index of an allocator in the handout
func handIndex(a *Term) *Term {
	for a.op == OField {
		a = a.args[0]
	}
	if a.op == OIdx {
		return a.args[1]
	}
	return nil
}

func (d *Domain) queryEffect(fr *Frame, in ssa.Instruction, what string) {
	if d.mode == "query" || d.mode == "admin" {
		d.chk(fr, in, "C24,C30", "query-has-no-effect", false, "a query modifies a %s", what)
	}
}

// reservation: a store to a reservation slot starts or ends the session of an allocator
func (d *Domain) reservation(fr *Frame, fs *FS, in ssa.Instruction, a, v *Term) {
	st := fs.st
	who := a
	cur := st.exAll("sess")
	if v == tMaxU64 {
		if d.chk(fr, in, "C01", "reservation-ended-once", len(cur) > 0 && d.sameResv(st, cur[0].args[0], who), "an epoch reservation is cleared that is not held") {
			st.exDel(cur[0])
		}
		d.chk(fr, in, "C01,C03", "locks-released-before-reservation", len(st.exAll("held"))+len(st.exAll("heldroot")) == 0, "the epoch reservation is cleared while locks are held")
		st.delFacts(func(f *Term) bool {
			return f.op == OFact && (f.str == "insess" || f.str == "valid" || f.str == "gen" || f.str == "before" || f.str == "at" || f.str == "depth" || f.str == "path" || f.str == "tmpl" && hasFact(f, "insess"))
		})
		return
	}
	good := v.op == OSym && v.sym.kind == SLoad && d.class(v.sym.loc) == "epoch"
	d.chk(fr, in, "C01,C02", "reserve-current-epoch", good, "the reserved epoch %s is not the current epoch just read", v)
	if !d.chk(fr, in, "C01", "one-reservation-at-a-time", len(cur) == 0, "a reservation is replaced while the first one is still needed") {
		return
	}
	st.exAdd(facet("sess", who))
}

func hasFact(t *Term, name string) bool {
	if t.op == OFact && t.str == name {
		return true
	}
	for _, a := range t.args {
		if hasFact(a, name) {
			return true
		}
	}
	return false
}

func (d *Domain) sameResv(st *St, a, b *Term) bool { return a == b || st.norm(a) == st.norm(b) }

func (d *Domain) cas(fr *Frame, fs *FS, in ssa.Instruction, a, old, nv *Term) []callRes {
	st := fs.st
	d.touch(fr, fs, in, a)
	cls := d.class(a)
	d.events["cas."+cls]++
	fail := st.clone()
	var out []callRes
	switch cls {
	case "lock":
		d.queryEffect(fr, in, cls)
		d.lockShape(fr, in, a)
		d.chk(fr, in, "C03,C05", "lock-from-unlocked-generation", st.prove(mkEq0(extract(old, 0, 1))), "a lock is taken from a generation that is not known to be even, i.e. unlocked")
		d.chk(fr, in, "C03,C05", "lock-increments-generation", st.eqv(nv, addc(old, 1)), "a lock is taken without increasing its generation by one")
		// a lock already held is odd: the swap cannot succeed
		for _, f := range st.exAll("held") {
			if d.sameAddr(st, f.args[0], a) {
				return []callRes{{fail, tFalse}}
			}
		}
		for _, f := range st.exAll("held") {
			st.addFact(fact("ne", f.args[0], a))
		}
		for _, g := range st.named("gen") {
			st.addFact(fact("beforelk", g.args[0], a))
		}
		st.exAdd(facet("held", a, old))
		out = append(out, callRes{st, tTrue})
	case "rootlock":
		d.queryEffect(fr, in, cls)
		c, ok := old.isConst()
		c2, ok2 := nv.isConst()
		d.chk(fr, in, "C03,C05", "root-lock-taken-when-free", ok && ok2 && c == 0 && c2 == 1, "the lock of the root is taken from state %s to %s", old, nv)
		if len(st.exAll("heldroot")) > 0 {
			return []callRes{{fail, tFalse}}
		}
		st.exAdd(facet("heldroot"))
		out = append(out, callRes{st, tTrue})
	case "root", "slot":
		d.queryEffect(fr, in, cls)
		d.publish(fr, fs, in, a, old, nv, true)
		out = append(out, callRes{fs.st, tTrue})
	case "hand":
		c, ok := old.isConst()
		c2, ok2 := nv.isConst()
		d.chk(fr, in, "C04", "handout-flag", ok && ok2 && c == 0 && c2 != 0, "an allocator is handed out by changing its flag from %s to %s", old, nv)
		for _, f := range st.exAll("hand") {
			if f.args[0] == a {
				return []callRes{{fail, tFalse}}
			}
		}
		st.exAdd(facet("hand", a))
		out = append(out, callRes{st, tTrue})
	default:
		d.effect(fr, fs, in, a, cls)
		r := mkSym(Sym{name: "cas", kind: SCas, frame: fr, instr: in, bol: true})
		return []callRes{{st, r}}
	}
	return append(out, callRes{fail, tFalse})
}

func (d *Domain) add(fr *Frame, fs *FS, in ssa.Instruction, a, delta *Term, t types.Type) *Term {
	st := fs.st
	d.touch(fr, fs, in, a)
	cls := d.class(a)
	d.events["add."+cls]++
	c, isc := delta.isConst()
	if delta.op == OBig && delta.str == "18446744073709551615" {
		c, isc = -1, true
	}
	unk := d.e.unknown(t, Sym{name: "added", kind: SOpaque, frame: fr, instr: in})
	switch cls {
	case "lock":
		d.queryEffect(fr, in, cls)
		d.lockShape(fr, in, a)
		for _, f := range st.exAll("held") {
			if d.sameAddr(st, f.args[0], a) {
				st.exDel(f)
				if isc && c == 1 {
					return addc(f.args[1], 2)
				}
				if isc && c == -1 {
					d.chk(fr, in, "C05,C06", "no-rollback-after-change", len(st.exAll("pub")) == 0, "the generation of a lock is rolled back after the tree was changed, so others do not see the change")
					return f.args[1]
				}
				d.chk(fr, in, "C03", "lock-released-by-one", false, "a lock generation is changed by %s", delta)
				return unk
			}
		}
		d.chk(fr, in, "C03", "released-lock-is-held", false, "a lock is released that is not held: %s", a)
		return unk
	case "rootlock":
		d.queryEffect(fr, in, cls)
		h := st.exAll("heldroot")
		if d.chk(fr, in, "C03", "root-lock-released-by-holder", len(h) > 0 && isc && c == -1, "the lock of the root is released but not held, or by %s", delta) {
			st.exDel(h[0])
		}
		return unk
	case "epoch":
		d.chk(fr, in, "C02", "epoch-monotone", isc && c > 0 && c < 1000, "the epoch is changed by %s", delta)
		return unk
	case "live":
		if d.mode == "query" {
			d.queryEffect(fr, in, cls)
		}
		if d.mode == "sums" {
			d.sumAdd(st, "live", delta)
			return d.sumLoad(fr, fs, in, a)
		}
		st.exAdd(facet("live", delta))
		return unk
	case "root", "slot":
		d.chk(fr, in, "C05,C07", "tree-words-replaced-whole", false, "a tree word is changed by addition")
		return unk
	}
	d.effect(fr, fs, in, a, cls)
	return unk
}

// ---- hooks ----

func (d *Domain) onPanic(e *Engine, fr *Frame, f *FS, x *ssa.Panic) {
	ok := false
	if d.mode == "update" && f.st.last != nil && d.mentionsKeys(f.st.last) {
		ok = true // documented: a key may not be the prefix of another key
	}
	d.chk(fr, x, "C18,C03,C30", "no-panic", ok, "an explicit panic is reachable")
}

func (d *Domain) mentionsKeys(t *Term) bool {
	for _, s := range t.syms {
		if s == d.keyLen || d.key != nil && s == d.key.args[0] || d.fetched != nil && s == d.fetched.args[0] || s.sym.name == "fetched.len" {
			return true
		}
	}
	return false
}

func (d *Domain) onRecv(e *Engine, fr *Frame, fs *FS, x *ssa.UnOp, ch *Term) []*FS {
	st := fs.st
	d.chk(fr, x, "C03", "no-wait-with-locks-held", len(st.exAll("held"))+len(st.exAll("heldroot")) == 0, "waiting for a channel while holding locks")
	v := e.unknown(x.Type(), Sym{name: "recv", kind: SOpaque, frame: fr, instr: x, nonN: true, max: 65535})
	fs.env[x] = v
	if d.mode == "alloc" && isInteger(x.Type()) {
		st.exAdd(facet("recv", v))
	}
	return []*FS{fs}
}

func (d *Domain) onSend(e *Engine, fr *Frame, fs *FS, in ssa.Instruction)            {}
func (d *Domain) onClose(e *Engine, fr *Frame, fs *FS, in ssa.Instruction, ch *Term) {}
func (d *Domain) onSelect(e *Engine, fr *Frame, fs *FS, s *ssa.Select)               {}
func (d *Domain) onAppend(e *Engine, fr *Frame, fs *FS, in ssa.Instruction, cc *ssa.CallCommon, old, src *Term) {
	if d.key != nil && old.args[0] == d.key {
		z, ok := fs.st.norm(old.args[3]).isConst()
		d.chk(fr, in, "C26", "caller-bytes-not-written", ok && z == 0, "append to a slice passed by the caller may overwrite the caller's bytes")
	}
	if k, _ := elemKind(cc.Args[0].Type()); k == "w" && d.walk == "iter" {
		d.delivered(fr, in, fs.st, old, src)
	}
}

// onAppendItems: an item is added to a list of nodes that may be reused
func (d *Domain) onAppendItems(e *Engine, fr *Frame, fs *FS, in ssa.Instruction, cc *ssa.CallCommon, old, nw *Term, elems []*Term, known bool) {
	sl, ok := cc.Args[0].Type().Underlying().(*types.Slice)
	if !ok || e.p.named("recycledItem") == nil || !types.Identical(sl.Elem(), e.p.named("recycledItem")) {
		return
	}
	if !known {
		e.fail(fr, in, "unknown items are added to the nodes for reuse")
	}
	for _, el := range elems {
		n := el.args[fieldIndex(e.p.named("recycledItem"), "n")]
		ep := el.args[fieldIndex(e.p.named("recycledItem"), "e")]
		fs.st.exAdd(facet("retiring", nw.args[0], n, ep))
	}
}

// retire: a list of reusable nodes is stored, with the items appended to it
func (d *Domain) retire(fr *Frame, fs *FS, in ssa.Instruction, idx, list *Term) {
	st := fs.st
	for _, f := range st.exAll("retiring") {
		if f.args[0] != list {
			continue
		}
		st.exDel(f)
		n, ep := f.args[1], f.args[2]
		if d.mode == "alloc" {
			st.exAdd(facet("rest", n, idx))
			continue
		}
		var u *Term
		for _, g := range st.exAll("unlinked") {
			if d.sameNode(st, g.args[0], n) {
				u = g
				break
			}
		}
		if d.e.silent > 0 {
			continue
		}
		if !d.chk(fr, in, "C02", "retired-after-unlinked-once", u != nil, "node %s is given back for reuse, but it was not unlinked from the tree before, or is given back twice", n) {
			continue
		}
		st.exDel(u)
		d.chk(fr, in, "C02,C15", "retired-with-its-size", st.eqv(idx, u.args[1]), "a node of %s slots is given back for reuse as one of %s slots", u.args[1], idx)
		d.chk(fr, in, "C02", "retired-with-epoch-after-unlink", st.facts[fact("after", ep, u.args[0])], "the epoch %s recorded for node %s was not read after the node was unlinked", ep, n)
	}
}

// notReused: an unlinked node too large to be reused
func (d *Domain) tooLarge(st *St, u *Term) bool {
	for f := range st.facts {
		for _, s := range f.syms {
			if s.op == OSym && s.sym.name == "recycler.len" && st.leq(s, u.args[1]) {
				return true
			}
		}
	}
	return false
}

func (d *Domain) unretired(st *St) *Term {
	for _, u := range st.exAll("unlinked") {
		if !d.tooLarge(st, u) {
			return u
		}
	}
	return nil
}

func (d *Domain) onAssume(e *Engine, fr *Frame, fs *FS, in ssa.Instruction, c *Term) bool {
	st := fs.st
	st.last = c
	if d.mode != "" && tainted(c) && e.silent == 0 {
		d.chk(fr, in, "C25", "decision-on-initialised-fields", false, "a decision depends on %s, left in a pooled object by its previous use", c)
	}
	// alias contradictions
	for _, f := range st.named("ne") {
		if d.sameAddr(st, f.args[0], f.args[1]) {
			return false
		}
	}
	if c.op == OEq && (c.args[0].op == OBlk || c.args[1].op == OBlk) && (c.args[0] == tNil || c.args[1] == tNil) {
		b := c.args[0]
		if b == tNil {
			b = c.args[1]
		}
		// blocks of nodes reached through the tree exist
		if i := b.args[0]; i.op == OExtract {
			for _, f := range st.named("insess") {
				if i == extract(f.args[0], 9+d.S, 39-d.S) {
					return false
				}
			}
			if isNewSym(i.args[0]) {
				return false
			}
		}
	}
	if c.op == OEq0 {
		// a node is in one place only: the word at the root is in no slot
		_, at, co := linOf(c.args[0])
		if len(at) == 2 && co[0]*co[1] == -1 && c.args[0].c == 0 || len(at) == 2 && co[0]*co[1] == -1 && c.args[0].op == OLin && c.args[0].c == 0 {
			if d.rootAndSlot(st, at[0], at[1]) || d.rootAndSlot(st, at[1], at[0]) {
				return false
			}
		}
	}
	if !d.lengthAxiom(st, c, 0) {
		return false
	}
	// the number of children
	for _, s := range c.syms {
		if d.isTreeWord(st, s) && st.facts[mkNot(mkEq0(extract(s, 9, 39)))] {
			d.countAxiom(st, s)
		}
	}
	if d.mode == "alloc" {
		d.lowest(st)
	}
	if d.mode == "query" {
		if c.op == OEq0 && c.args[0].op == OSym {
			// the empty word is no leaf
			w := c.args[0]
			d.saturate(st)
			if st.facts[mkNot(c)] || st.prove(mkNot(mkEq0(extract(w, 8, 1)))) || st.prove(mkLe0(sub(K(1), extract(w, 8, 1)))) {
				return false
			}
		}
		if d.walk != "" && !st.exHas(facet("started")) {
			d.answers(st)
		}
		d.wfr, d.win = fr, in
		if !d.keyOfSlot(st) {
			return false
		}
		d.walkStep(st)
	}
	return true
}

// keyOfSlot: a child in a node with a slot for every key byte has the key byte of its slot
func (d *Domain) keyOfSlot(st *St) bool {
	for _, p := range st.exAll("pend") {
		w, k, a := p.args[0], p.args[1], p.args[2]
		if !d.is256(st, w) || !st.facts[mkNot(mkEq0(a))] {
			continue
		}
		c := mkEq0(sub(extract(a, 0, 8), k))
		if c == tTrue || st.facts[c] {
			continue
		}
		if c == tFalse || st.prove(mkNot(c)) {
			return false
		}
		st.addFact(c)
	}
	return true
}

// lengthAxiom: the first slot of a node with a long prefix is a length of at least 255
func (d *Domain) lengthAxiom(st *St, t *Term, depth int) bool {
	if t.op == OWord && t.args[1] == tZero && t.args[0].op == ONode {
		if w := wordOf(t.args[0].args[0]); w != nil && st.prove(mkEq0(addc(extract(w, 48, 8), -255))) {
			if st.prove(mkLe0(addc(t, -254))) {
				return false
			}
			st.addFact(mkLe0(sub(K(255), t)))
		}
		return true
	}
	if depth > 6 {
		return true
	}
	for _, a := range t.args {
		if !d.lengthAxiom(st, a, depth+1) {
			return false
		}
	}
	return true
}

func (d *Domain) rootAndSlot(st *St, r, s *Term) bool {
	if !st.facts[mkNot(mkEq0(extract(r, 9, 39)))] || !st.facts[mkNot(mkEq0(extract(s, 9, 39)))] {
		return false
	}
	ra, sa := false, false
	for _, f := range st.named("at") {
		if d.class(f.args[0]) == "root" && (f.args[1] == r || st.eqv(f.args[1], r)) {
			ra = true
		}
		if d.class(f.args[0]) == "slot" && (f.args[1] == s || st.eqv(f.args[1], s)) {
			sa = true
		}
	}
	return ra && sa
}

func (d *Domain) isTreeWord(st *St, s *Term) bool {
	if s.op != OSym {
		return false
	}
	if s.sym.kind == SLoad && s.sym.loc != nil {
		c := d.class(s.sym.loc)
		return c == "root" || c == "slot"
	}
	return s.sym.kind == SVar && st.facts[fact("insess", s)]
}

// onIndex: indexing a slice
func (d *Domain) onIndex(e *Engine, fr *Frame, fs *FS, in ssa.Instruction, b, i *Term) bool {
	st := fs.st
	if d.mode == "admin" {
		dbgSt = st
		// one flag for every allocator (checked where a tree is made), of which there is at least one
		if viaField(b.args[0], "slots") {
			st.addFact(mkLe0(sub(K(1), b.args[2])))
		}
		d.chk(fr, in, "C30", "index-in-range", viaField(b.args[0], "allocators") || st.geq(i, 0) && st.lt(i, b.args[2]), "index %s may be out of range (length %s)", i, b.args[2])
	}
	if b.args[0].op == ONode || b.args[0].op == OBData {
		return true
	}
	if viaField(b.args[0], "recycler") && b.args[0].op == OObj && b.args[0].args[0].op == OSym && b.args[0].args[0].sym.loc != nil && b.args[0].args[0].sym.loc.op == OField {
		d.chk(fr, in, "C15", "recycler-index-in-range", st.geq(i, 0) && st.lt(i, b.args[2]), "the list of reusable nodes of size %s may not exist", i)
	}
	if tainted(i) {
		d.chk(fr, in, "C25", "decision-on-initialised-fields", false, "an index depends on %s, left in a pooled object by its previous use", i)
	}
	if d.key != nil && b.args[0] == d.key && d.mode != "update" {
		ok := st.geq(i, 0) && st.lt(i, b.args[2])
		d.chk(fr, in, "C18", "key-index-in-range", ok, "key byte %s is read, but the key may be shorter", i)
	}
	if d.mode == "update" && d.key != nil && (b.args[0] == d.key || d.fetched != nil && b.args[0] == d.fetched) {
		// a key may not be a prefix of another one: documented to panic here
		if st.leq(b.args[2], i) {
			return false
		}
		if d.keepBounds {
			st.addFact(mkLe0(addc(sub(i, b.args[2]), 1)))
		}
	}
	return true
}

// noWrap: numbers found in memory that may not be a node are bounded before they are added to anything
func (d *Domain) noWrap(fr *Frame, fs *FS, in ssa.Instruction, l ...*Term) {
	for _, t := range l {
		if t.op == OWord {
			d.chk(fr, in, "C30", "number-bounded-before-use", fs.st.leq(t, K(1<<40)), "%s may be anything, so the sum may wrap around and pass the checks", t)
		}
	}
}

// onBlock: a pointer to a data block is followed; blocks named by the user may not exist
func (d *Domain) onBlock(fr *Frame, fs *FS, in ssa.Instruction, b *Term) {
	if d.mode == "admin" {
		d.chk(fr, in, "C30", "block-exists", fs.st.prove(mkNot(mkEq(tNil, b))) || fs.st.prove(mkNot(mkEq(b, tNil))), "block %s may not exist", b.args[0])
	}
}

func (d *Domain) onIndexArray(e *Engine, fr *Frame, fs *FS, in ssa.Instruction, b, i *Term, n int64) {
	st := fs.st
	if b.op == OField && b.str == "blocks" && d.mode == "admin" {
		ok := st.geq(i, 0) && st.prove(mkLe0(addc(i, 1-n)))
		d.chk(fr, in, "C30", "block-index-in-range", ok, "block %s is accessed without checking that it exists", i)
	}
}

func (d *Domain) onReslice(e *Engine, fr *Frame, fs *FS, x *ssa.Slice, v, lo, hi *Term) {
	st := fs.st
	dbgSt = st
	if d.mode == "admin" {
		h := hi
		if h == nil {
			h = v.args[2]
		}
		ok := st.geq(lo, 0) && st.leq(lo, h) && (hi == nil || st.leq(h, v.args[3]) || st.leq(h, v.args[2]))
		d.chk(fr, x, "C30", "slice-in-range", ok, "the slice from %s to %s may be out of range (length %s)", lo, h, v.args[2])
	}
	if d.key != nil && v.args[0] == d.key && d.mode != "update" && d.mode != "admin" {
		h := hi
		if h == nil {
			h = v.args[2]
		}
		ok := st.geq(lo, 0) && st.leq(lo, h) && (hi == nil || st.leq(h, v.args[3]) || st.leq(h, v.args[2]))
		dbgSt = st
		d.chk(fr, x, "C18", "key-slice-in-range", ok, "the key is sliced from %s to %s", lo, h)
	}
	if d.keepBounds && d.key != nil && v.args[0] == d.key {
		if hi != nil {
			st.addFact(mkLe0(sub(hi, v.args[2])))
			st.addFact(mkLe0(sub(lo, hi)))
		} else {
			st.addFact(mkLe0(sub(lo, v.args[2])))
		}
	}
}

// copyLen: the destination is a new node, made large enough
func (d *Domain) copyLen(e *Engine, fr *Frame, fs *FS, in ssa.Instruction, dst, src *Term) *Term {
	if b := dst.args[0]; b.op == ONode && isNewSym(b.args[0]) {
		return src.args[2]
	}
	return nil
}

func (d *Domain) onRead(e *Engine, fr *Frame, fs *FS, in ssa.Instruction, sb, so, n *Term) {
	if sb.op == ONode && !isNewSym(sb.args[0]) {
		d.deref(fr, fs, in, sb.args[0], sb)
		d.childRead(fr, fs, in, sb, so, n)
	} else if sb.op == OBData {
		d.deref(fr, fs, in, nil, sb)
	}
}

func (d *Domain) onWrite(e *Engine, fr *Frame, fs *FS, in ssa.Instruction, db, do, n *Term) bool {
	st := fs.st
	if db.op == ONode || db.op == OBData {
		if db.op == ONode && isNewSym(db.args[0]) {
			if f := d.newFacet(st, db.args[0]); f != nil {
				d.chk(fr, in, "C15", "write-inside-new-node", st.geq(do, 0) && st.leq(add(do, n), f.args[1]), "slots %s+%s of a new node with %s slots are written", do, n, f.args[1])
				return true
			}
		}
		d.chk(fr, in, "C07,C08", "no-plain-write-to-published-node", false, "slots of a node that is not private are written without synchronisation")
		return false
	}
	if d.key != nil && db == d.key || d.fetched != nil && db == d.fetched {
		d.chk(fr, in, "C26", "caller-bytes-not-written", false, "bytes of a slice passed by the caller are written")
	}
	return true
}

// recursive: a call of a function already being analysed
func (d *Domain) recursive(e *Engine, fr *Frame, fs *FS, in ssa.Instruction, fn *ssa.Function, a []*Term) []callRes {
	e.fail(fr, in, "recursive call of %s", fnName(fn))
	return nil
}

// ---- external calls ----

func (d *Domain) external(e *Engine, fr *Frame, fs *FS, in ssa.Instruction, cc *ssa.CallCommon, fn *ssa.Function, args []*Term) []callRes {
	st := fs.st
	a := args[1:]
	var rt types.Type
	if v, ok := in.(ssa.Value); ok {
		rt = v.Type()
	} else if cc.Signature().Results().Len() == 1 {
		rt = cc.Signature().Results().At(0).Type()
	} else {
		rt = cc.Signature().Results()
	}
	ret := func(t *Term) []callRes { return []callRes{{st, t}} }
	unknown := func() []callRes {
		if rt == nil {
			return ret(nil)
		}
		if tp, ok := rt.(*types.Tuple); ok && tp.Len() == 0 {
			return ret(nil)
		}
		return ret(e.unknown(rt, Sym{name: "call", kind: SOpaque, frame: fr, instr: in}))
	}
	if fn == nil {
		d.noLocks(fr, fs, in, "calling out")
		return unknown()
	}
	pkg := ""
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		pkg = fn.Object().Pkg().Path()
	}
	name := fn.Name()
	switch pkg {
	case "sync/atomic":
		var pt types.Type
		if len(cc.Args) > 0 {
			pt = deref(cc.Args[0].Type())
		}
		switch {
		case strings.HasPrefix(name, "Load"):
			return ret(d.atomicLoad(fr, fs, in, a[0], rt))
		case strings.HasPrefix(name, "Store"):
			d.atomicStore(fr, fs, in, a[0], a[1])
			return ret(nil)
		case strings.HasPrefix(name, "CompareAndSwap"):
			return d.cas(fr, fs, in, a[0], a[1], a[2])
		case strings.HasPrefix(name, "Add"):
			return ret(d.add(fr, fs, in, a[0], a[1], pt))
		case strings.HasPrefix(name, "Swap"):
			v := d.atomicLoad(fr, fs, in, a[0], rt)
			d.atomicStore(fr, fs, in, a[0], a[1])
			return ret(v)
		}
		e.fail(fr, in, "unsupported atomic operation %s", name)
	case "runtime":
		if name == "Gosched" {
			d.noLocks(fr, fs, in, "giving up the processor")
			return ret(nil)
		}
	case "sync":
		switch name {
		case "Get":
			d.events["pool.get"]++
			o := mkSym(Sym{name: "poolget", kind: SOpaque, frame: fr, instr: in, ptr: true, loc: a[0]})
			for st.exDel(facet("put", o)) {
			}
			return ret(o)
		case "Put":
			d.events["pool.put"]++
			if len(a) > 1 && a[1].op == OIface {
				o := a[1].args[0]
				d.chk(fr, in, "C04,C25", "object-given-back-once", !st.exHas(facet("put", o)), "an object is given back to its pool although it was given back already")
				st.exAdd(facet("put", o))
			}
			return ret(nil)
		case "Lock", "RLock":
			d.noLocks(fr, fs, in, "waiting for a mutex")
			for _, f := range st.exAll("mu") {
				d.chk(fr, in, "C23", "mutex-not-locked-twice", f.args[0] != a[0], "a mutex is locked twice")
			}
			st.exAdd(facet("mu", a[0]))
			return ret(nil)
		case "Unlock", "RUnlock":
			f := facet("mu", a[0])
			d.chk(fr, in, "C23", "mutex-unlocked-once", st.exDel(f), "a mutex is unlocked that is not locked")
			return ret(nil)
		}
	case "bytes":
		if name == "Compare" || name == "Equal" {
			return d.bytesCompare(fr, fs, in, name, a, rt)
		}
	case e.p.pkg.PkgPath:
		sig := fn.Signature
		if sig.Params().Len() == 3 && basicKind(sig.Params().At(0).Type()) == types.UnsafePointer && basicKind(sig.Params().At(1).Type()) == types.UnsafePointer {
			d.memmove(fr, fs, in, a[0], a[1], a[2])
			return ret(nil)
		}
	}
	if pkg != "fmt" && pkg != "time" {
		d.noLocks(fr, fs, in, "calling "+name)
	}
	return unknown()
}

func (d *Domain) bytesCompare(fr *Frame, fs *FS, in ssa.Instruction, name string, a []*Term, rt types.Type) []callRes {
	st := fs.st
	if a[0].op != OSlice || a[1].op != OSlice {
		return []callRes{{st, d.e.unknown(rt, Sym{name: "cmp", kind: SOpaque, frame: fr, instr: in})}}
	}
	// forked by result, the equal case carries the equality of the bytes
	mk3 := func(v *Term, eq bool) callRes {
		s := st.clone()
		if eq {
			s.addFact(mkEq0(sub(a[0].args[2], a[1].args[2])))
			s.addFact(fact("same", a[0].args[0], a[0].args[1], a[1].args[0], a[1].args[1], a[0].args[2]))
		}
		return callRes{s, v}
	}
	if name == "Equal" {
		return []callRes{mk3(tTrue, true), mk3(tFalse, false)}
	}
	l := []callRes{mk3(K(-1), false), mk3(K(0), true), mk3(K(1), false)}
	if d.walk != "" {
		l[0].st.addFact(fact("less", a[0].args[0], a[0].args[1], a[0].args[2], a[1].args[0], a[1].args[1], a[1].args[2]))
		l[2].st.addFact(fact("less", a[1].args[0], a[1].args[1], a[1].args[2], a[0].args[0], a[0].args[1], a[0].args[2]))
		for _, r := range l {
			d.walkStep(r.st)
		}
	}
	return l
}

func (d *Domain) noLocks(fr *Frame, fs *FS, in ssa.Instruction, what string) {
	st := fs.st
	n := len(st.exAll("held")) + len(st.exAll("heldroot"))
	d.chk(fr, in, "C03", "no-wait-with-locks-held", n == 0, "%s while holding locks", what)
}

// memmove moves bytes between arrays
func (d *Domain) memmove(fr *Frame, fs *FS, in ssa.Instruction, dst, src, n *Term) {
	st := fs.st
	e := d.e
	db, do, dw := byteArr(dst)
	sb, so, sw := byteArr(src)
	if db == nil || sb == nil {
		e.fail(fr, in, "memmove between unknown arrays %s %s", dst, src)
	}
	d.events["memmove"]++
	// source content
	var content []*Term
	if sw {
		if sb.op == ONode {
			if isNewSym(sb.args[0]) {
				content = []*Term{seg("unknown", tZero, n)}
			} else {
				d.deref(fr, fs, in, sb.args[0], sb)
				c, okc := st.norm(so).isConst()
				w := wordOf(sb.args[0])
				good := false
				if okc && w != nil {
					f := extract(w, 48, 8)
					long := st.prove(mkEq0(addc(f, -255)))
					short := st.prove(mkLe0(addc(f, -254)))
					if c == 0 && short {
						good = st.leq(n, f)
					} else if c == 1 && long {
						good = st.leq(n, mk(Term{op: OWord, args: []*Term{sb, tZero}}))
					}
					if d.mode == "admin" {
						good = good || long || short
					}
				}
				d.chk(fr, in, "C14", "prefix-read-where-it-is-stored", good, "%s bytes are read as prefix from slot %s of node %s", n, so, sb.args[0])
				content = []*Term{seg("copy", tZero, n, mkField(sb, -1, "bytes"), mulc(so, 8), KStr("b"))}
			}
		} else {
			content = []*Term{seg("unknown", tZero, n)}
		}
	} else {
		content = e.content(st, sb, so, n, "b")
	}
	if dw {
		// bytes into slots
		slots := extract(addc(n, 7), 3, 61)
		if !d.onWrite(e, fr, fs, in, db, do, slots) {
			return
		}
		st.addSeg(db, seg("bytes", do, n, mk(Term{op: OSegs, args: content})))
		return
	}
	if !d.onWrite(e, fr, fs, in, db, do, n) {
		return
	}
	for _, p := range content {
		st.addSeg(db, shiftSeg(p, do))
	}
	if d.walk == "iter" {
		d.savedNorm(st)
		if f := d.savedAt(st, db, do); f != nil {
			d.savedBytes(st, db, do, f, content, n)
		}
	}
}

// byteArr splits the address of an element
func byteArr(a *Term) (base, off *Term, words bool) {
	if a.op != OIdx {
		return nil, nil, false
	}
	b := a.args[0]
	return b, a.args[1], b.op == ONode || b.op == OBData
}

var _ = token.ADD
