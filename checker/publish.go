package main

// Publishing: every store or exchange of a tree word is compared with the changes of a radix tree that keep
// all other keys: what was there before (under which lock and generation it is known), what the new word
// and the new nodes behind it contain, and whether that is exactly the old content plus or minus one key.

import (
	"fmt"
	"os"

	"golang.org/x/tools/go/ssa"
)

type pubCtx struct {
	d     *Domain
	fr    *Frame
	st    *St
	in    ssa.Instruction
	x     *Term // address of the link
	w0    *Term // word before
	nv    *Term // word after
	owner *Term // node containing the link, nil for the root
	off   *Term // slot in owner
	wP    *Term // word of the owner
	isCAS bool
}

// newNodeInfo describes a node made by the current operation
type newNodeInfo struct {
	n, size, c, L, ps, ds *Term
}

func (p *pubCtx) chk(props, rule string, ok bool, format string, a ...interface{}) bool {
	r := p.d.chk(p.fr, p.in, props, rule, ok, format, a...)
	p.dbg(rule, ok)
	return r
}

func (d *Domain) publish(fr *Frame, fs *FS, in ssa.Instruction, x, old, nv *Term, isCAS bool) {
	st := fs.st
	if os.Getenv("DBGPUB") != "" && d.e.silent == 0 {
		d.dumpPublish(st, in, x, old, nv)
	}
	if d.mode != "update" && d.mode != "delete" {
		d.chk(fr, in, "C05,C24", "tree-changed-by-updates-only", false, "the tree is changed outside an update or delete")
		return
	}
	if d.e.silent > 0 {
		// transient: keep the shape only
		st.exAdd(facet("pub", KStr("?")))
		return
	}
	d.saturate(st)
	d.stableReads(st)
	p := &pubCtx{d: d, fr: fr, st: st, in: in, x: x, nv: nv, isCAS: isCAS}
	if d.class(x) != "root" {
		p.owner, p.off = slotOf(x)
		if p.owner == nil || wordOf(p.owner) == nil {
			p.chk("C05", "link-of-known-node", false, "the address %s is not a slot of a node reached through the tree", x)
			return
		}
		p.wP = wordOf(p.owner)
	}
	p.chk("C25", "published-word-from-this-operation", !tainted(nv) && !tainted(x), "the word published depends on what the previous use of the operation left: %s", nv)
	p.locks(old)
	if p.w0 == nil {
		return
	}
	delta, kind := p.change()
	for _, f := range st.exAll("pub") {
		p.chk("C09,C12", "one-change-per-operation", false, "the tree is changed twice by one operation (%s)", f)
	}
	st.exAdd(facet("pub", KStr(kind), K(delta)))
}

// stableReads: what was read twice from a slot of a node whose lock is held since is the same
func (d *Domain) stableReads(st *St) {
	ats := st.named("at")
	for i, f := range ats {
		for _, g := range ats[:i] {
			if f.args[1] == g.args[1] || f.args[0].op != g.args[0].op || !d.sameAddr(st, f.args[0], g.args[0]) {
				continue
			}
			n, _ := slotOf(f.args[0])
			if n == nil {
				continue
			}
			if d.freshRead(st, n, f.args[1]) && d.freshRead(st, n, g.args[1]) {
				st.addFact(mkEq0(sub(f.args[1], g.args[1])))
			}
		}
	}
}

func (d *Domain) dumpPublish(st *St, in ssa.Instruction, x, old, nv *Term) {
	fmt.Fprintf(os.Stderr, "PUBLISH %s %s\n  x=%s\n  old=%v\n  new=%s\n", fnName(in.Parent()), d.e.p.pos(in.Pos()), x, old, nv)
	for _, f := range st.ex {
		fmt.Fprintf(os.Stderr, "  ! %s\n", f)
		if f.str == "new" {
			for _, s := range st.segs(nodeTerm(f.args[0])) {
				fmt.Fprintf(os.Stderr, "      seg %s\n", s)
			}
		}
	}
	if os.Getenv("DBGPUB") == "2" {
		fmt.Fprintln(os.Stderr, st.dump())
	}
}

// ---- what is there before ----

func (d *Domain) wkind(st *St, w *Term) string {
	if st.eqv(w, tZero) {
		return "zero"
	}
	b := extract(w, 8, 1)
	if c, ok := b.isConst(); ok && c == 1 || st.prove(mkNot(mkEq0(b))) {
		return "leaf"
	}
	if st.prove(mkEq0(b)) && (st.prove(mkNot(mkEq0(w))) || st.prove(mkNot(mkEq0(extract(w, 9, 39))))) {
		return "node"
	}
	return ""
}

// freshRead: y was read from a slot (or link) after the generation was taken from which the lock of n is held now
func (d *Domain) freshRead(st *St, n, y *Term) bool {
	held, valid, gen := d.lockOK(st, n)
	if !held || !valid {
		return false
	}
	l := d.lockOf(n)
	for _, g := range st.named("gen") {
		if d.sameAddr(st, g.args[1], l) && st.eqv(g.args[0], gen) && d.before(st, g.args[0], y) {
			return true
		}
	}
	return st.facts[fact("underlock", y)]
}

func (p *pubCtx) locks(old *Term) {
	d, st := p.d, p.st
	root := p.owner == nil
	if !root {
		held, valid, _ := d.lockOK(st, p.owner)
		if !p.chk("C05", "link-changed-under-lock", held, "a link in node %s is changed without holding the lock of that node", p.owner) {
			return
		}
		if !p.chk("C06", "link-owner-reachable-when-locked", valid, "the lock of node %s was taken from a generation at which the node is not known to be part of the tree", p.owner) {
			return
		}
	}
	pick := func(w *Term) {
		if p.w0 == nil || w.id < p.w0.id {
			p.w0 = w
		}
	}
	if p.isCAS {
		p.w0 = old
		for _, f := range st.named("insess") {
			if w := f.args[0]; w.id < p.w0.id && old.op == OSym && st.eqv(w, old) {
				p.w0 = w
			}
		}
	} else {
		// the current content of the link is known from a read
		for _, f := range st.named("at") {
			y := f.args[1]
			if !d.sameAddr(st, f.args[0], p.x) {
				continue
			}
			if !root {
				if d.freshRead(st, p.owner, y) {
					pick(y)
				}
				continue
			}
			if len(st.exAll("heldroot")) > 0 && st.facts[fact("underroot", y)] {
				pick(y)
			} else if d.wkind(st, y) == "node" && d.freshRead(st, extract(y, 9, 39), y) {
				pick(y)
			}
		}
		if p.w0 != nil {
			for _, f := range st.named("insess") {
				if w := f.args[0]; w.id < p.w0.id && st.eqv(w, p.w0) {
					p.w0 = w
				}
			}
		}
		if !p.chk("C05,C06", "replaced-word-known", p.w0 != nil, "the word at %s is overwritten, but what it contains now is not known: it was not read after the generation from which the lock is held", p.x) {
			return
		}
	}
	k := d.wkind(st, p.w0)
	if root && k != "node" {
		if !p.chk("C05", "root-changed-under-lock", len(st.exAll("heldroot")) > 0, "an empty root or single key at the root is replaced without holding the lock of the root") {
			p.w0 = nil
			return
		}
	}
	if k == "node" {
		if !p.lockedNode(extract(p.w0, 9, 39), "replaced") {
			p.w0 = nil
			return
		}
	}
}

func (p *pubCtx) lockedNode(n *Term, what string) bool {
	held, valid, _ := p.d.lockOK(p.st, n)
	if !p.chk("C05", what+"-node-locked", held, "node %s is %s without holding its lock", n, what) {
		return false
	}
	return p.chk("C06", what+"-node-reachable-when-locked", valid, "the lock of node %s, which is %s, was taken from a generation at which the node is not known to be part of the tree", n, what)
}

// ---- what changes ----

func (p *pubCtx) change() (int64, string) {
	d, st := p.d, p.st
	k0, k1 := d.wkind(st, p.w0), d.wkind(st, p.nv)
	up := d.mode == "update"
	switch {
	case up && k0 == "zero" && k1 == "leaf":
		p.insertLeaf()
		return 1, "insert"
	case up && k0 == "leaf" && k1 == "leaf":
		p.replaceValue()
		return 0, "replace"
	case up && k0 == "leaf" && k1 == "node":
		p.splitLeaf()
		return 1, "split-leaf"
	case up && k0 == "node" && k1 == "node":
		p.growNode()
		return 1, "grow"
	case !up && k0 == "leaf" && k1 == "zero":
		p.removeLeaf()
		return -1, "remove"
	case !up && k0 == "node" && k1 == "node":
		p.shrinkNode()
		return -1, "shrink"
	case !up && k0 == "node" && k1 == "leaf":
		p.collapse()
		return -1, "collapse"
	}
	p.chk("C09,C06", "recognised-change", false, "a word that is %s is replaced by %s (%s), which is no step of an %s", name(k0), name(k1), p.nv, d.mode)
	if up {
		return 1, "?"
	}
	return -1, "?"
}

func name(k string) string {
	switch k {
	case "":
		return "a word of unknown kind"
	case "zero":
		return "empty"
	}
	return "a " + k
}

func (p *pubCtx) match() string {
	for _, f := range p.st.exAll("match") {
		if f.args[0] == tTrue {
			return "true"
		}
		return "false"
	}
	return ""
}

func (p *pubCtx) keyAt(i *Term) *Term { return p.d.keyAt(p.st, i) }

// newLeaf: t is a leaf with the value given by the caller for the key byte at position i
func (p *pubCtx) newLeaf(t, i *Term) bool {
	st := p.st
	ok := p.d.wkind(st, t) == "leaf"
	ok = p.chk("C09", "new-leaf-has-key-byte", ok && st.eqv(extract(t, 0, 8), p.keyAt(i)), "the new leaf %s does not carry the key byte at position %s", t, i) && ok
	return p.chk("C09", "new-leaf-has-value", ok && st.eqv(extract(t, 9, 55), extract(p.d.value, 0, 55)), "the new leaf %s does not carry the value given to Finalize", t)
}

// exposed: the value shown to the caller is the one of leaf w
func (p *pubCtx) exposed(w *Term) {
	v := p.d.opValue(p.st)
	p.chk("C09,C12", "change-of-the-key-shown", v != nil && p.st.eqv(v, extract(w, 9, 55)), "the key changed or removed is not the one whose value was shown to the caller: leaf %s, shown %v", w, v)
}

func (d *Domain) opValue(st *St) *Term {
	if d.op == nil {
		return nil
	}
	return st.mem[mkField(d.op, fieldIndex(d.e.p.named(d.opType), "Value"), "Value")]
}

// reached: the link holding w0 is the one for the key, all prefixes above compared; returns the depth of w0
func (p *pubCtx) reached() *Term {
	d, st := p.d, p.st
	if p.owner == nil {
		return tZero
	}
	// an empty link has no facts of its own
	var D *Term
	if k := d.wkind(st, p.w0); k == "zero" {
		D = d.onPath(st, p.wP, p.off, p.w0)
	} else {
		D = d.lookupFact(st, "depth", p.w0)
		if D == nil {
			D = d.onPath(st, p.wP, p.off, p.w0)
		}
	}
	if !p.chk("C09,C16", "link-selected-by-key-byte", D != nil, "the link at %s is not known to be the one for the key byte at its depth", p.x) {
		return nil
	}
	if d.mode == "update" {
		ok := d.lookupFact(st, "path", p.w0) != nil
		if !ok {
			dP := d.lookupFact(st, "depth", p.wP)
			L, _, _ := d.prefixOf(st, p.wP)
			ok = dP != nil && L != nil && d.lookupFact(st, "path", p.wP) != nil && d.prefixMatch(st, p.wP, dP, L)
		}
		if !p.chk("C09,C16", "prefixes-compared-on-the-way", ok, "the prefixes of the nodes above %s were not all compared with the key", p.x) {
			return nil
		}
	}
	return D
}

func (p *pubCtx) insertLeaf() {
	d, st := p.d, p.st
	p.chk("C12", "insert-when-nothing-found", p.match() == "", "a key is inserted although one was found")
	if p.owner == nil {
		p.newLeaf(p.nv, tZero)
		return
	}
	if !p.chk("C10", "empty-links-in-full-nodes-only", d.is256(st, p.wP), "a leaf is put into an empty slot of a node that may not be indexed by key byte") {
		return
	}
	D := p.reached()
	if D == nil {
		return
	}
	p.newLeaf(p.nv, addc(D, -1))
}

func (p *pubCtx) replaceValue() {
	st := p.st
	p.chk("C12", "overwrite-only-when-matched", p.match() == "true", "the value of a key is replaced although the caller did not report a match")
	p.chk("C05", "value-exchanged", p.isCAS, "a value is replaced without comparing it with the value observed before")
	p.chk("C09,C10", "key-byte-kept", st.eqv(extract(p.nv, 0, 8), extract(p.w0, 0, 8)), "replacing a value changes the key byte")
	p.chk("C09", "new-leaf-has-value", st.eqv(extract(p.nv, 9, 55), extract(p.d.value, 0, 55)), "the leaf does not carry the value given to Finalize: %s", p.nv)
	p.exposed(p.w0)
	p.reached()
	if p.owner == nil {
		p.chk("C09,C16", "link-selected-by-key-byte", st.eqv(extract(p.w0, 0, 8), p.keyAt(tZero)), "the single key at the root was not compared with the first key byte")
	}
}

func (p *pubCtx) removeLeaf() {
	d, st := p.d, p.st
	p.exposed(p.w0)
	if p.owner == nil {
		p.chk("C09,C16", "link-selected-by-key-byte", st.eqv(extract(p.w0, 0, 8), p.keyAt(tZero)), "the single key at the root was not compared with the first key byte")
		return
	}
	p.chk("C10", "empty-links-in-full-nodes-only", d.is256(st, p.wP), "a link is emptied in a node that may not be indexed by key byte")
	p.reached()
}

// node: the new node behind word w, with its allocation and prefix layout; nil if it is none
func (p *pubCtx) node(w *Term) *newNodeInfo {
	d, st := p.d, p.st
	n := st.field(w, 9, 39)
	if !isNewSym(n) {
		n = st.norm(n)
	}
	f := d.newFacet(st, n)
	if !p.chk("C09,C07", "link-to-new-node", isNewSym(n) && f != nil, "the new word %s does not point to a node allocated by this operation and not published yet", w) {
		return nil
	}
	r := &newNodeInfo{n: n, size: f.args[1], c: addc(st.field(w, 56, 8), 1)}
	pf := st.unmask(st.field(w, 48, 8))
	sl := st.segs(nodeTerm(n))
	for _, s := range sl {
		if s.str == "loopdirty" {
			d.e.fail(p.fr, p.in, "the content of a new node is written in a loop that is not understood")
		}
	}
	switch {
	case st.prove(mkLe0(pf)):
		r.L, r.ps, r.ds = tZero, tZero, tZero
	case st.prove(mkEq0(addc(pf, -255))):
		r.ds = K(1)
		L := p.slot0(n)
		if !p.chk("C14,C07", "long-prefix-length-stored", L != nil && st.geq(L, 255), "the word says that the length of the prefix is stored in the first slot, but %v is there", L) {
			return nil
		}
		r.L = L
		r.ps = extract(addc(L, 15), 3, 61)
	case st.prove(mkLe0(addc(pf, -254))):
		r.L, r.ds = st.unmask(pf), tZero
		r.ps = extract(addc(r.L, 7), 3, 61)
	default:
		p.chk("C14,C13", "prefix-length-encoded", false, "the prefix length %s in the new word is neither known to be at least 255 nor less", pf)
		return nil
	}
	p.chk("C15,C14", "node-size-exact", st.eqv(r.size, add(r.ps, r.c)), "%s slots are allocated for a node of %s prefix slots and %s children", r.size, r.ps, r.c)
	return r
}

// field: bits of a word composed of parts, using what is known about the range of the parts
func (s *St) field(w *Term, lo, n int) *Term {
	if w.op != OOr {
		return extract(w, lo, n)
	}
	r := tZero
	for _, a := range w.args {
		c, atoms, co := linOf(a)
		g := c
		for _, k := range co {
			g = gcd(g, k)
		}
		sh := 0
		for g != 0 && g%2 == 0 {
			g /= 2
			sh++
		}
		if sh > 0 && len(atoms) > 0 {
			x := K(c >> uint(sh))
			for i, t := range atoms {
				x = linAdd(x, 1, t, co[i]>>uint(sh))
			}
			if sh >= lo+n {
				continue
			}
			if m := lo - sh; m > 0 && m < 62 && s.geq(x, 0) && s.prove(mkLe0(addc(x, -(int64(1)<<uint(m)-1)))) {
				continue
			}
		}
		r = mkOr(r, extract(a, lo, n))
	}
	return r
}

// slot0: the value in the first slot of a new node
func (p *pubCtx) slot0(n *Term) *Term {
	st := p.st
	l := st.segs(nodeTerm(n))
	for k := len(l) - 1; k >= 0; k-- {
		s := l[k]
		if s.str == "loop" && p.scatterAbove(s, K(1)) {
			continue
		}
		so, sn := segRange(s)
		if so == nil {
			return nil
		}
		if st.eqv(so, tZero) {
			switch s.str {
			case "word":
				return s.args[1]
			case "copy":
				if st.lt(tZero, sn) {
					return p.d.e.srcElem(s.args[2], s.args[3], s.args[4])
				}
			}
			return nil
		}
		if !st.lt(tZero, so) {
			return nil
		}
	}
	return nil
}

// pieces lists what is in the slots [lo,hi) of a new node, in order
func (p *pubCtx) pieces(n, lo, hi *Term) []*Term {
	st := p.st
	l := st.segs(nodeTerm(n))
	var out []*Term
	if st.leq(hi, lo) {
		return out
	}
	for it := 0; it < 16; it++ {
		if st.eqv(lo, hi) {
			return out
		}
		var got *Term
		at := -1
		for k := len(l) - 1; k >= 0; k-- {
			s := l[k]
			so, sn := segRange(s)
			if so == nil {
				return nil
			}
			se := add(so, sn)
			if used(out, s) {
				continue
			}
			if st.eqv(so, lo) && st.leq(lo, se) || st.leq(so, lo) && st.lt(lo, se) {
				got, at = s, k
				break
			}
			if st.lt(lo, so) || st.leq(se, lo) {
				continue
			}
			return nil
		}
		if got == nil {
			return append(out, seg("unknown", lo, hi))
		}
		so, sn := segRange(got)
		end := add(so, sn)
		if st.leq(hi, end) {
			end = hi
		} else if !st.leq(end, hi) {
			return nil
		}
		for m := at + 1; m < len(l); m++ {
			mo, mn := segRange(l[m])
			if mo == nil {
				return nil
			}
			if st.leq(end, mo) || st.leq(add(mo, mn), lo) {
				continue
			}
			if st.leq(lo, mo) {
				end = mo
				continue
			}
			return nil
		}
		switch got.str {
		case "word":
			out = append(out, seg("word", lo, got.args[1], got))
		case "fill":
			out = append(out, seg("fill", lo, sub(end, lo), got.args[2], got))
		case "copy":
			out = append(out, seg("copy", lo, sub(end, lo), got.args[2], add(got.args[3], sub(lo, so)), got))
		default:
			return append(out, seg("unknown", lo, hi))
		}
		lo = end
	}
	return nil
}

// used: a segment that may be empty is looked at once
func used(out []*Term, s *Term) bool {
	for _, o := range out {
		if o.args[len(o.args)-1] == s && (s.str == "copy" || s.str == "fill") {
			return true
		}
	}
	return false
}

func (p *pubCtx) children(r *newNodeInfo) []*Term {
	l := p.pieces(r.n, r.ps, add(r.ps, r.c))
	for _, s := range l {
		if s.str == "unknown" {
			return nil
		}
	}
	return l
}

// prefixBytes lists what the prefix of a new node consists of
func (p *pubCtx) prefixBytes(r *newNodeInfo) ([]*Term, bool) {
	st := p.st
	if st.leq(r.L, tZero) {
		return nil, true
	}
	l := st.segs(nodeTerm(r.n))
	for k := len(l) - 1; k >= 0; k-- {
		s := l[k]
		so, sn := segRange(s)
		if s.str == "loop" {
			// scattered children
			if p.scatterAbove(s, r.ps) {
				continue
			}
			return nil, false
		}
		if so == nil {
			return nil, false
		}
		if st.eqv(so, r.ds) && s.str == "bytes" {
			if !st.eqv(s.args[1], r.L) {
				return nil, false
			}
			return s.args[2].args, true
		}
		if st.leq(r.ps, so) || st.leq(add(so, sn), r.ds) {
			continue
		}
		if s.str == "copy" && st.leq(so, r.ds) && st.leq(r.ps, add(so, sn)) {
			from := add(s.args[3], sub(r.ds, so))
			return []*Term{seg("copy", tZero, r.L, mkField(s.args[2], -1, "bytes"), mulc(from, 8), KStr("b"))}, true
		}
		if s.str == "word" && st.eqv(so, tZero) && st.eqv(r.ds, K(1)) {
			continue
		}
		return nil, false
	}
	return nil, false
}

func (p *pubCtx) scatterAbove(s, ps *Term) bool {
	// the smallest offset: parts that are not negative
	d := p.st.norm(sub(s.args[2], ps))
	lo, _ := rng(d)
	return lo >= 0
}

// byteRun is a run of n bytes of an array, or one value
type byteRun struct {
	base, off, n *Term
	val          *Term
}

// sameBytes: the pieces are exactly the expected runs
func (p *pubCtx) sameBytes(got []*Term, exp []byteRun) bool {
	st := p.st
	gi, ei := 0, 0
	gd, ed := tZero, tZero // consumed of the current ones
	for {
		for ei < len(exp) && exp[ei].val == nil && st.leq(exp[ei].n, ed) {
			ei, ed = ei+1, tZero
		}
		for gi < len(got) && got[gi].str == "copy" && st.leq(got[gi].args[1], gd) {
			gi, gd = gi+1, tZero
		}
		if gi == len(got) || ei == len(exp) {
			return gi == len(got) && ei == len(exp)
		}
		g, e := got[gi], exp[ei]
		switch g.str {
		case "word":
			v := e.val
			if v == nil {
				v = p.byteAt(e.base, add(e.off, ed))
			}
			if !st.eqv(g.args[1], v) {
				return false
			}
			gi++
			ed = addc(ed, 1)
			if e.val != nil {
				ei, ed = ei+1, tZero
			}
		case "copy":
			gl := sub(g.args[1], gd)
			if e.val != nil {
				if !st.geq(gl, 1) || !st.eqv(p.byteAt(g.args[2], add(g.args[3], gd)), e.val) {
					return false
				}
				ei, ed = ei+1, tZero
				gd = addc(gd, 1)
				continue
			}
			el := sub(e.n, ed)
			m := gl
			switch {
			case st.eqv(gl, el):
			case st.leq(el, gl):
				m = el
			case !st.leq(gl, el):
				return false
			}
			if !p.equalRuns(g.args[2], add(g.args[3], gd), e.base, add(e.off, ed), m) {
				return false
			}
			gd, ed = add(gd, m), add(ed, m)
			if m == gl {
				gi, gd = gi+1, tZero
			}
			if st.eqv(ed, e.n) {
				ei, ed = ei+1, tZero
			}
		default:
			return false
		}
	}
}

func (p *pubCtx) byteAt(base, i *Term) *Term { return p.d.e.elemAt(p.st, base, i, byteType) }

// equalRuns: n bytes of two arrays are the same
func (p *pubCtx) equalRuns(b1, o1, b2, o2, n *Term) bool {
	st := p.st
	if st.leq(n, tZero) {
		return true
	}
	if p.sameBase(b1, b2) && st.eqv(o1, o2) {
		return true
	}
	q := mkEq0(sub(p.rawByte(b1, add(o1, tBeta)), p.rawByte(b2, add(o2, tBeta))))
	if p.d.all(st, tZero, n, q) {
		return true
	}
	// the loop may have counted from the position itself
	q = mkEq0(sub(p.rawByte(b1, tBeta), p.rawByte(b2, add(sub(o2, o1), tBeta))))
	return p.d.all(st, o1, add(o1, n), q)
}

func (p *pubCtx) rawByte(base, i *Term) *Term {
	if base.op == OField && base.str == "bytes" && base.args[0].op == ONode {
		return mk(Term{op: OElem, str: "b", args: []*Term{base, i}})
	}
	return p.d.e.defaultElem(base, i, byteType)
}

func (p *pubCtx) sameBase(a, b *Term) bool {
	if a == b {
		return true
	}
	if a.op == OField && b.op == OField && a.str == b.str && a.args[0].op == ONode && b.args[0].op == ONode {
		return p.d.sameNode(p.st, a.args[0].args[0], b.args[0].args[0])
	}
	return p.st.norm(a) == p.st.norm(b)
}

func (p *pubCtx) prefixRun(w *Term, from, n *Term) byteRun {
	_, _, ds := p.d.prefixOf(p.st, w)
	if ds == nil {
		ds = tZero
	}
	return byteRun{base: mkField(nodeTerm(extract(w, 9, 39)), -1, "bytes"), off: add(mulc(ds, 8), from), n: n}
}

// hasPrefix checks the prefix of a new node
func (p *pubCtx) hasPrefix(r *newNodeInfo, exp []byteRun, what string) bool {
	n := tZero
	for _, e := range exp {
		if e.val != nil {
			n = addc(n, 1)
		} else {
			n = add(n, e.n)
		}
	}
	if !p.chk("C14,C09", "prefix-length-right", p.st.eqv(n, r.L), "the prefix of the new node is %s bytes long, it should be %s: %s", r.L, n, what) {
		return false
	}
	got, ok := p.prefixBytes(r)
	return p.chk("C14,C09", "prefix-bytes-right", ok && p.sameBytes(got, exp), "the prefix of the new node is not %s: %v", what, got)
}

func (p *pubCtx) sorted2(a, b *Term) bool {
	return p.chk("C10", "children-in-order", p.st.lt(extract(a, 0, 8), extract(b, 0, 8)), "the two children of the new node are not known to be in order: %s, %s", a, b)
}

// two words of a new node-2
func (p *pubCtx) pair(r *newNodeInfo) (a, b *Term) {
	l := p.children(r)
	if !p.chk("C09,C07", "children-complete", len(l) == 2 && l[0].str == "word" && l[1].str == "word", "the new node does not have its two children: %v", l) {
		return nil, nil
	}
	if !p.sorted2(l[0].args[1], l[1].args[1]) {
		return nil, nil
	}
	return l[0].args[1], l[1].args[1]
}

func (p *pubCtx) splitLeaf() {
	d, st := p.d, p.st
	D := p.reached()
	if D == nil {
		return
	}
	r := p.node(p.nv)
	if r == nil {
		return
	}
	m := p.match()
	if m == "" {
		// no key was found: the single key at the root starts with another byte
		p.chk("C12", "split-without-fetched-key", p.owner == nil && st.prove(mkNot(mkEq0(sub(extract(p.w0, 0, 8), p.keyAt(tZero))))), "a leaf is replaced although no key was found, and its byte may equal that of the key")
	} else {
		p.chk("C12", "split-only-when-not-matched", m == "false", "a matched key is not replaced")
		p.exposed(p.w0)
	}
	if p.owner != nil {
		p.chk("C09,C10", "key-byte-kept", st.eqv(extract(p.nv, 0, 8), extract(p.w0, 0, 8)), "the new node does not get the key byte of the leaf it replaces")
	}
	if !p.chk("C09,C10", "two-children", st.eqv(r.c, K(2)), "a leaf is replaced by a node of %s children", r.c) {
		return
	}
	if !p.hasPrefix(r, []byteRun{{base: d.key, off: D, n: r.L}}, "the bytes the two keys have in common") {
		return
	}
	if m != "" && !p.chk("C09", "common-prefix-compared", p.equalRuns(d.key, D, d.fetched, D, r.L), "the prefix of the new node is not known to be common to both keys") {
		return
	}
	a, b := p.pair(r)
	if a == nil {
		return
	}
	isOld := func(t *Term) bool {
		return d.wkind(st, t) == "leaf" && st.eqv(extract(t, 9, 55), extract(p.w0, 9, 55))
	}
	if !isOld(a) {
		a, b = b, a
	}
	if !p.chk("C09", "old-leaf-kept", isOld(a), "the key that was there before is not a child of the new node") {
		return
	}
	pos := add(D, r.L)
	if m == "" {
		p.chk("C09", "old-leaf-has-its-byte", st.leq(r.L, tZero) && st.eqv(extract(a, 0, 8), extract(p.w0, 0, 8)), "the key that was there before is not found under its byte")
	} else {
		p.chk("C09", "old-leaf-has-its-byte", st.eqv(extract(a, 0, 8), d.e.elemAt(st, d.fetched, pos, byteType)), "the key that was there before is not found under its byte at position %s", pos)
	}
	p.newLeaf(b, pos)
	p.consume(r)
}

// consume: the node is part of the tree now
func (p *pubCtx) consume(r *newNodeInfo) {
	if f := p.d.newFacet(p.st, r.n); f != nil {
		p.st.exDel(f)
	}
	p.noStale(r)
}

func (p *pubCtx) noStale(r *newNodeInfo) {
	for _, s := range p.st.segs(nodeTerm(r.n)) {
		for _, y := range s.syms {
			if y.sym.kind == SPlain && y.sym.stale || y.sym.stale && s.str == "word" {
				p.chk("C25,C07", "published-word-from-this-operation", false, "the new node contains %s, left in a pooled object by its previous use", y)
				return
			}
		}
	}
	p.chk("C07", "node-complete-when-published", true, "")
}

func (p *pubCtx) unlinked(w *Term) {
	L, ps, _ := p.d.prefixOf(p.st, w)
	if L == nil {
		return
	}
	p.st.exAdd(facet("unlinked", extract(w, 9, 39), addc(add(ps, extract(w, 56, 8)), 1)))
}

func (p *pubCtx) growNode() {
	d, st := p.d, p.st
	w0 := p.w0
	p.chk("C12", "insert-when-nothing-found", p.match() == "", "a node is replaced by an insert although a key was found")
	D := p.reached()
	r := p.node(p.nv)
	if r == nil || D == nil {
		return
	}
	if p.owner == nil {
		D = tZero
	} else {
		p.chk("C09,C10", "key-byte-kept", st.eqv(extract(p.nv, 0, 8), extract(w0, 0, 8)), "the new node does not get the key byte of the node it replaces")
	}
	L0, ps0, _ := d.prefixOf(st, w0)
	if !p.chk("C14", "prefix-length-distinguished", L0 != nil, "the prefix of node %s is used without telling short and long prefixes apart", w0) {
		return
	}
	c0 := addc(extract(w0, 56, 8), 1)
	if st.eqv(r.c, K(2)) {
		p.splitPrefix(r, D, L0, ps0, c0)
		return
	}
	if !p.chk("C09,C16", "prefix-compared", d.prefixMatch(st, w0, D, L0), "the prefix of the node was not compared with the key") {
		return
	}
	if !p.hasPrefix(r, []byteRun{p.prefixRun(w0, tZero, L0)}, "the prefix of the node it replaces") {
		return
	}
	if !p.chk("C10", "variable-node-grows", d.isVariable(st, w0), "a node indexed by key byte is copied as a sorted one") {
		return
	}
	kpos := add(D, L0)
	k := p.keyAt(kpos)
	M := extract(w0, 9, 39)
	if d.is256(st, p.nv) || st.eqv(r.c, K(256)) {
		p.spread(r, w0, M, ps0, c0, kpos)
		p.consume(r)
		p.unlinked(w0)
		return
	}
	p.chk("C10", "sorted-node-stays-small", st.leq(r.c, K(127)) && st.eqv(r.c, addc(c0, 1)), "a sorted node of %s children becomes one of %s children", c0, r.c)
	l := p.children(r)
	if !p.chk("C07,C09", "children-complete", len(l) > 0, "the children of the new node are not all written: %v", st.segs(nodeTerm(r.n))) {
		return
	}
	cur := tZero
	var pos, leaf *Term
	ok := true
	for _, s := range l {
		switch {
		case s.str == "word" && leaf == nil:
			leaf, pos = s.args[1], cur
		case s.str == "copy" && p.isNode(s.args[2], M) && st.eqv(s.args[3], add(ps0, cur)):
			cur = add(cur, s.args[1])
		default:
			ok = false
		}
	}
	if !p.chk("C09", "children-kept", ok && leaf != nil && st.eqv(cur, c0), "the new node does not contain all children of the old one and the new leaf: %v", l) {
		return
	}
	p.newLeaf(leaf, kpos)
	p.order(M, ps0, c0, pos, k)
	p.consume(r)
	p.unlinked(w0)
}

func (p *pubCtx) isNode(base, n *Term) bool {
	return base.op == ONode && p.d.sameNode(p.st, base.args[0], n)
}

// order: the children before pos have smaller bytes than k, the one at pos a larger one
func (p *pubCtx) order(M, ps0, c0, pos, k *Term) {
	d, st := p.d, p.st
	tpl := mkLe0(addc(sub(extract(mkAny(mkIdx(nodeTerm(M), add(ps0, tBeta))), 0, 8), k), 1))
	left := d.all(st, tZero, pos, tpl)
	right := st.leq(c0, pos)
	for _, f := range st.named("at") {
		if right {
			break
		}
		if n, off := slotOf(f.args[0]); n != nil && d.sameNode(st, n, M) && st.eqv(off, add(ps0, pos)) {
			right = st.lt(k, extract(f.args[1], 0, 8))
		}
	}
	p.chk("C10", "children-in-order", left && right, "the new leaf is not known to be at its place in the order of the children (position %s)", pos)
}

// spread: the children of a sorted node are distributed over a node indexed by key byte
func (p *pubCtx) spread(r *newNodeInfo, w0, M, ps0, c0, kpos *Term) {
	d, st := p.d, p.st
	k := p.keyAt(kpos)
	l := st.segs(nodeTerm(r.n))
	end := add(r.ps, r.c)
	filled, leaf, all := false, false, false
	bad := ""
	for _, s := range l {
		if s.str == "loop" {
			off, val := s.args[2], s.args[3]
			lo, hi := s.args[0], s.args[1]
			src := sub(val.argOr(1), tBeta)
			ok := val.op == OWord && p.isNode(val.args[0], M) && !src.beta && st.eqv(add(src, lo), ps0) && st.eqv(sub(hi, lo), c0)
			if !ok {
				bad = fmt.Sprintf("not all children are copied: slots %s..%s get %s", lo, hi, val)
				break
			}
			if st.norm(sub(off, r.ps)) != st.norm(extract(val, 0, 8)) {
				bad = fmt.Sprintf("child %s is put at %s", val, off)
				break
			}
			if !filled {
				bad = "the children are written before the node is cleared"
				break
			}
			all = true
			continue
		}
		so, sn := segRange(s)
		if so == nil {
			bad = "content not understood: " + s.String()
			break
		}
		if st.leq(add(so, sn), r.ps) {
			continue
		}
		switch {
		case s.str == "fill" && st.eqv(s.args[2], tZero):
			if st.leq(so, r.ps) && st.leq(end, add(so, sn)) {
				filled, leaf, all = true, false, false
			} else {
				bad = fmt.Sprintf("slots %s+%s are cleared", so, sn)
			}
		case s.str == "word":
			if !filled {
				bad = "a slot is written before the node is cleared"
				break
			}
			if leaf || !st.eqv(sub(so, r.ps), k) {
				bad = fmt.Sprintf("the new leaf is put at %s", so)
				break
			}
			p.newLeaf(s.args[1], kpos)
			leaf = true
		default:
			bad = "unexpected content " + s.String()
		}
	}
	p.chk("C07", "node-complete-when-published", filled, "not every slot of the new node is written before it is published")
	p.chk("C09,C10", "children-spread-by-byte", bad == "" && filled && leaf && all, "the node indexed by key byte does not contain exactly the old children and the new leaf at their bytes: %s", bad)
	// the key byte is not taken yet
	tpl := mkLe0(addc(sub(extract(mkAny(mkIdx(nodeTerm(M), add(ps0, tBeta))), 0, 8), k), 1))
	free := d.all(st, tZero, c0, tpl)
	for _, f := range st.named("at") {
		if free {
			break
		}
		if n, off := slotOf(f.args[0]); n != nil && d.sameNode(st, n, M) {
			pos := sub(off, ps0)
			if st.geq(pos, 0) && st.lt(pos, c0) && st.lt(k, extract(f.args[1], 0, 8)) && d.all(st, tZero, pos, tpl) {
				free = true
			}
		}
	}
	p.chk("C09,C10", "new-byte-not-taken", free, "the byte of the new leaf may belong to an existing child")
}

func (t *Term) argOr(i int) *Term {
	if i < len(t.args) {
		return t.args[i]
	}
	return tZero
}

func (p *pubCtx) splitPrefix(r *newNodeInfo, D, L0, ps0, c0 *Term) {
	d, st := p.d, p.st
	w0 := p.w0
	M := extract(w0, 9, 39)
	i := r.L
	if !p.chk("C09,C16", "prefix-compared", st.geq(i, 0) && st.lt(i, L0) && d.prefixMatch(st, w0, D, i), "the prefix is split at %s, but the bytes before are not known to match the key", i) {
		return
	}
	pb := p.prefixRun(w0, i, K(1))
	mb := p.rawByte(pb.base, pb.off)
	kpos := add(D, i)
	p.chk("C09", "prefix-split-at-difference", st.prove(mkNot(mkEq0(sub(p.keyAt(kpos), mb)))), "the key is not known to differ from the prefix at the position where it is split")
	got, ok := p.prefixBytes(r)
	p.chk("C14,C09", "prefix-bytes-right", ok && (p.sameBytes(got, []byteRun{{base: d.key, off: D, n: i}}) || p.sameBytes(got, []byteRun{p.prefixRun(w0, tZero, i)})), "the prefix of the upper node is not the first part of the old prefix: %v", got)
	a, b := p.pair(r)
	if a == nil {
		return
	}
	if d.wkind(st, a) != "leaf" {
		a, b = b, a
	}
	p.newLeaf(a, kpos)
	if !p.chk("C09", "rest-of-node-kept", d.wkind(st, b) == "node", "the rest of the node is not a child of the new one: %s", b) {
		return
	}
	p.chk("C09", "rest-of-node-has-its-byte", st.eqv(extract(b, 0, 8), mb), "the rest of the node is not found under its prefix byte")
	q := p.node(b)
	if q == nil {
		return
	}
	p.chk("C09", "children-kept", st.eqv(q.c, c0), "the copy of the node has %s children instead of %s", q.c, c0)
	p.hasPrefix(q, []byteRun{p.prefixRun(w0, addc(i, 1), sub(addc(L0, -1), i))}, "the rest of the old prefix")
	p.wholeCopy(q, M, ps0, c0)
	p.consume(q)
	p.consume(r)
	p.unlinked(w0)
}

// wholeCopy: the children of q are those of node M
func (p *pubCtx) wholeCopy(q *newNodeInfo, M, ps0, c0 *Term) bool {
	st := p.st
	l := p.children(q)
	cur := tZero
	ok := len(l) > 0
	for _, s := range l {
		if s.str == "copy" && p.isNode(s.args[2], M) && st.eqv(s.args[3], add(ps0, cur)) {
			cur = add(cur, s.args[1])
		} else {
			ok = false
		}
	}
	return p.chk("C09,C07", "children-kept", ok && st.eqv(cur, c0), "the new node does not contain all children of the node it replaces: %v", st.segs(nodeTerm(q.n)))
}

// removed: the child at slot off of the locked node w0 is the leaf to delete
func (p *pubCtx) removed(off *Term) *Term {
	d, st := p.d, p.st
	M := extract(p.w0, 9, 39)
	for _, f := range st.named("at") {
		n, o := slotOf(f.args[0])
		if n == nil || !d.sameNode(st, n, M) || !st.eqv(o, off) {
			continue
		}
		y := f.args[1]
		if d.wkind(st, y) == "leaf" && d.freshRead(st, M, y) && d.onPath(st, p.w0, off, y) != nil {
			return y
		}
	}
	return nil
}

func (p *pubCtx) shrinkNode() {
	d, st := p.d, p.st
	w0 := p.w0
	D := p.reached()
	r := p.node(p.nv)
	if r == nil || D == nil {
		return
	}
	if p.owner != nil {
		p.chk("C09,C10", "key-byte-kept", st.eqv(extract(p.nv, 0, 8), extract(w0, 0, 8)), "the new node does not get the key byte of the node it replaces")
	}
	L0, ps0, _ := d.prefixOf(st, w0)
	if !p.chk("C14", "prefix-length-distinguished", L0 != nil, "the prefix of node %s is used without telling short and long prefixes apart", w0) {
		return
	}
	if !p.chk("C10", "variable-node-shrinks", d.isVariable(st, w0), "a node indexed by key byte is copied as a sorted one") {
		return
	}
	c0 := addc(extract(w0, 56, 8), 1)
	M := extract(w0, 9, 39)
	if st.eqv(c0, K(2)) {
		p.merge(r, L0, ps0)
		return
	}
	p.chk("C10,C09", "node-keeps-two-children", st.geq(r.c, 2) && st.eqv(r.c, addc(c0, -1)), "a node of %s children becomes one of %s children", c0, r.c)
	if !p.hasPrefix(r, []byteRun{p.prefixRun(w0, tZero, L0)}, "the prefix of the node it replaces") {
		return
	}
	l := p.children(r)
	cur := tZero
	var gap *Term
	ok := len(l) > 0
	for _, s := range l {
		switch {
		case s.str == "copy" && p.isNode(s.args[2], M) && st.eqv(s.args[3], add(ps0, cur)):
			cur = add(cur, s.args[1])
		case s.str == "copy" && p.isNode(s.args[2], M) && gap == nil && st.eqv(s.args[3], addc(add(ps0, cur), 1)):
			gap = cur
			cur = addc(add(cur, s.args[1]), 1)
		default:
			ok = false
		}
	}
	if ok && gap == nil && st.eqv(addc(cur, 1), c0) {
		gap = cur
		cur = addc(cur, 1)
	}
	if !p.chk("C09,C07", "children-kept", ok && gap != nil && st.eqv(cur, c0), "the new node does not contain all children of the old one but one: %v", st.segs(nodeTerm(r.n))) {
		return
	}
	y := p.removed(add(ps0, gap))
	if p.chk("C09,C16", "removed-leaf-is-the-key", y != nil, "the child left out (position %s) is not known to be the leaf for the key, read after the generation from which the node is locked", gap) {
		p.exposed(y)
	}
	p.consume(r)
	p.unlinked(w0)
}

// others: for a node with two children, the leaf to delete and the other child
func (p *pubCtx) others(ps0 *Term) (del, other *Term) {
	d, st := p.d, p.st
	M := extract(p.w0, 9, 39)
	for i := int64(0); i < 2; i++ {
		y := p.removed(addc(ps0, i))
		if y == nil {
			continue
		}
		v := d.opValue(st)
		if v != nil && !st.eqv(v, extract(y, 9, 55)) {
			continue
		}
		for _, f := range st.named("at") {
			n, o := slotOf(f.args[0])
			if n != nil && d.sameNode(st, n, M) && st.eqv(o, addc(ps0, 1-i)) && d.freshRead(st, M, f.args[1]) {
				if other == nil || f.args[1].id < other.id {
					del, other = y, f.args[1]
				}
			}
		}
	}
	return
}

func (p *pubCtx) merge(r *newNodeInfo, L0, ps0 *Term) {
	d, st := p.d, p.st
	w0 := p.w0
	del, c := p.others(ps0)
	if !p.chk("C09,C16,C06", "removed-leaf-is-the-key", del != nil && c != nil, "the node is replaced, but its children are not known to be the leaf for the key and another one, read after the generation from which the node is locked") {
		return
	}
	p.exposed(del)
	if !p.chk("C09", "other-child-kept", d.wkind(st, c) == "node", "a node is replaced by another one although its other child %s is not a node", c) {
		return
	}
	C := extract(c, 9, 39)
	if !p.lockedNode(C, "merged") {
		return
	}
	Lc, psc, _ := d.prefixOf(st, c)
	if !p.chk("C14", "prefix-length-distinguished", Lc != nil, "the prefix of node %s is used without telling short and long prefixes apart", c) {
		return
	}
	cc := addc(extract(c, 56, 8), 1)
	p.chk("C09", "children-kept", st.eqv(r.c, cc), "the merged node has %s children instead of %s", r.c, cc)
	exp := []byteRun{p.prefixRun(w0, tZero, L0), {val: extract(c, 0, 8)}, p.prefixRun(c, tZero, Lc)}
	p.hasPrefix(r, exp, "the prefix of the node, the byte of its child and the prefix of the child")
	p.wholeCopy(r, C, psc, cc)
	p.consume(r)
	p.unlinked(w0)
	p.unlinked(c)
}

func (p *pubCtx) collapse() {
	d, st := p.d, p.st
	w0 := p.w0
	D := p.reached()
	if D == nil {
		return
	}
	L0, ps0, _ := d.prefixOf(st, w0)
	if !p.chk("C14", "prefix-length-distinguished", L0 != nil, "the prefix of node %s is used without telling short and long prefixes apart", w0) {
		return
	}
	c0 := addc(extract(w0, 56, 8), 1)
	if !p.chk("C09", "collapse-of-two-children", st.eqv(c0, K(2)), "a node of %s children is replaced by a leaf", c0) {
		return
	}
	del, l := p.others(ps0)
	if !p.chk("C09,C16,C06", "removed-leaf-is-the-key", del != nil && l != nil, "the node is replaced, but its children are not known to be the leaf for the key and another one, read after the generation from which the node is locked") {
		return
	}
	p.exposed(del)
	p.chk("C09", "other-child-kept", d.wkind(st, l) == "leaf" && st.eqv(extract(p.nv, 9, 55), extract(l, 9, 55)), "the node is not replaced by its other child %s: %s", l, p.nv)
	b := extract(p.nv, 0, 8)
	switch {
	case p.owner != nil:
		p.chk("C09,C10", "key-byte-kept", st.eqv(b, extract(w0, 0, 8)), "the leaf does not get the key byte of the node it replaces: %s", p.nv)
	case st.leq(L0, tZero):
		p.chk("C09,C10", "key-byte-kept", st.eqv(b, extract(l, 0, 8)), "the single key left at the root does not keep its first byte: %s", p.nv)
	default:
		pb := p.prefixRun(w0, tZero, K(1))
		p.chk("C09,C10", "key-byte-kept", st.geq(L0, 1) && (st.eqv(b, p.keyAt(tZero)) || st.eqv(b, p.rawByte(pb.base, pb.off))), "the single key left at the root does not get the first byte of the common prefix: %s", p.nv)
	}
	p.unlinked(w0)
}
