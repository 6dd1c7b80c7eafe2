package main

// The key an iteration goes on from: the part of the prefix searched for that leads to the first node of the
// stack, then for every position on the stack the key byte of its node (but for the first) and its prefix, and
// the byte of the next child of the last. Facets, while it is put together:
//   saved(b, n, j, phase)  bytes [0,n) of b cover the positions below j (phase 1: and the key byte of j)
//   elem(s, j, w, k, more) the position read last from stack s
//   live(s, j)             position j of stack s has children left
//   nextkey(b, n)          bytes [0,n) of b are the key

import "go/types"

// savedStart: bytes are put into an array, in which nothing is known yet
func (d *Domain) savedAt(st *St, b, n *Term) *Term {
	for _, f := range st.exAll("saved") {
		if f.args[0] == b && st.eqv(f.args[1], n) {
			return f
		}
	}
	if st.leq(n, tZero) {
		for _, r := range st.exAll("scanroot") {
			if st.leq(r.args[0], tZero) && len(st.exAll("elem")) > 0 {
				return facet("saved", b, tZero, tZero, tZero)
			}
		}
	}
	return nil
}

func (d *Domain) savedSet(st *St, b, n, j, phase *Term) {
	st.exDrop("saved")
	st.exDrop("nextkey")
	st.exAdd(facet("saved", b, n, j, phase))
	d.savedNorm(st)
}

func (d *Domain) elemIs(st *St, j *Term) *Term {
	for _, e := range st.exAll("elem") {
		if st.eqv(e.args[1], j) {
			return e
		}
	}
	return nil
}

// savedNorm: a position of a node without a prefix is complete with its key byte
func (d *Domain) savedNorm(st *St) {
	for _, f := range st.exAll("saved") {
		if f.args[3] != K(1) && !st.eqv(f.args[2], tZero) {
			continue
		}
		if e := d.elemIs(st, f.args[2]); e != nil && st.prove(mkEq0(extract(e.args[2], 48, 8))) {
			st.exReplace(f, facet("saved", f.args[0], f.args[1], addc(f.args[2], 1), tZero))
		}
	}
}

// savedAppend: nb is ob[:on] with the bytes sb[so:so+sn] added
func (d *Domain) savedAppend(st *St, nb, ob, oo, on, sb, so, sn *Term) {
	if !st.eqv(oo, tZero) {
		return
	}
	if st.leq(on, tZero) && sb == d.key && st.eqv(so, tZero) {
		for _, r := range st.exAll("scanroot") {
			if st.eqv(r.args[0], sn) {
				d.savedSet(st, nb, sn, tZero, tZero)
				return
			}
		}
	}
	d.savedNorm(st)
	f := d.savedAt(st, ob, on)
	if f == nil {
		return
	}
	j, phase := f.args[2], f.args[3]
	if st.leq(sn, tZero) {
		d.savedSet(st, nb, on, j, phase)
		return
	}
	if c, ok := st.norm(sn).isConst(); ok && c == 1 {
		x := d.e.elemAt(st, sb, so, byteType)
		if e := d.elemIs(st, j); e != nil && phase == tZero && st.geq(j, 1) && st.eqv(x, extract(e.args[2], 0, 8)) {
			d.savedSet(st, nb, addc(on, 1), j, K(1))
			return
		}
		if e := d.elemIs(st, addc(j, -1)); e != nil && phase == tZero && d.isNextChild(st, e, x) {
			st.exDrop("saved")
			st.exDrop("nextkey")
			st.exAdd(facet("nextkey", nb, addc(on, 1)))
			return
		}
	}
	d.savedBytes(st, nb, on, f, d.e.content(st, sb, so, sn, "b"), sn)
}

// savedBytes: content is put behind the n bytes known of f
func (d *Domain) savedBytes(st *St, nb, n, f *Term, content []*Term, cn *Term) {
	j, phase := f.args[2], f.args[3]
	if len(content) != 1 || content[0].str != "copy" || phase == tZero && !st.leq(j, tZero) {
		return
	}
	e := d.elemIs(st, j)
	if e == nil {
		return
	}
	w := e.args[2]
	L, _, ds := d.prefixOf(st, w)
	by := mkField(nodeTerm(extract(w, 9, 39)), -1, "bytes")
	p := content[0]
	if L != nil && st.eqv(cn, L) && (p.args[2] == by || st.norm(p.args[2]) == st.norm(by)) && st.eqv(p.args[3], mulc(ds, 8)) {
		d.savedSet(st, nb, add(n, L), addc(j, 1), tZero)
	}
}

// savedCopy: the start of an array was copied
func (d *Domain) savedCopy(st *St, db, do, sb, so, n *Term) {
	if !st.eqv(do, tZero) || !st.eqv(so, tZero) {
		return
	}
	for _, f := range st.exAll("saved") {
		if f.args[0] == sb && st.eqv(f.args[1], n) {
			st.exReplace(f, facet("saved", db, f.args[1], f.args[2], f.args[3]))
		}
	}
}

// isNextChild: x is the key byte of the next child of position e, which is the last on the stack
func (d *Domain) isNextChild(st *St, e, x *Term) bool {
	s, j, w, k, more := e.args[0], e.args[1], e.args[2], e.args[3], e.args[4]
	if !d.isTop(st, mkIdx(s, j)) {
		return false
	}
	d.trimmed(st)
	left := st.lt(k, d.countOf(w)) || st.prove(more)
	for _, l := range st.exAll("live") {
		left = left || l.args[0] == s && st.eqv(l.args[1], j)
	}
	if !left {
		return false
	}
	if d.is256(st, w) {
		return st.eqv(x, k) || st.eqv(x, extract(k, 0, 8))
	}
	_, ps, _ := d.prefixOf(st, w)
	if ps == nil {
		return false
	}
	for _, f := range st.named("at") {
		if n, off := slotOf(f.args[0]); n != nil && st.eqv(n, extract(w, 9, 39)) && st.eqv(off, add(ps, k)) && st.eqv(x, extract(f.args[1], 0, 8)) {
			return true
		}
	}
	return false
}

// elemRead: the position of stack s at j was read
func (d *Domain) elemRead(st *St, s, j, w, k, more *Term) {
	st.exDrop("elem")
	st.exAdd(facet("elem", s, j, w, k, more))
}

var _ = types.Typ
