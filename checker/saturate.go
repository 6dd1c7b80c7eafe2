package main

// Derived facts: where in the key a node is reached (depth), that all prefixes above it were compared with
// the key (path), and that a node was part of the tree when its generation was read (valid).

import (
	"go/types"
)

var byteType = types.Typ[types.Uint8]

func nodeTerm(n *Term) *Term { return mk(Term{op: ONode, args: []*Term{n}}) }

func (d *Domain) keyAt(st *St, i *Term) *Term { return d.e.elemAt(st, d.key, i, byteType) }

func (d *Domain) keyByte(st *St, key, i *Term) *Term { return d.e.elemAt(st, key, i, byteType) }

// prefixOf: length, slots and first data slot of the prefix of the node that word w points to
func (d *Domain) prefixOf(st *St, w *Term) (L, ps, ds *Term) {
	f := extract(w, 48, 8)
	if st.prove(mkLe0(f)) {
		return tZero, tZero, tZero
	}
	if st.prove(mkEq0(addc(f, -255))) {
		L = mk(Term{op: OWord, args: []*Term{nodeTerm(extract(w, 9, 39)), tZero}})
		return L, extract(addc(L, 15), 3, 61), K(1)
	}
	if st.prove(mkLe0(addc(f, -254))) {
		return f, extract(addc(f, 7), 3, 61), tZero
	}
	return nil, nil, nil
}

func (d *Domain) is256(st *St, w *Term) bool {
	return st.prove(mkLe0(sub(K(127), extract(w, 56, 8))))
}

func (d *Domain) isVariable(st *St, w *Term) bool {
	return st.prove(mkLe0(addc(extract(w, 56, 8), -126)))
}

func (d *Domain) lookupFact(st *St, name string, w *Term) *Term {
	for _, f := range st.named(name) {
		if f.args[0] == w {
			return f.args[1]
		}
	}
	for _, f := range st.named(name) {
		if st.eqv(f.args[0], w) {
			return f.args[1]
		}
	}
	return nil
}

// slotOf splits the address of a slot of a published node: node and offset
func slotOf(x *Term) (n, off *Term) {
	if x.op == OIdx && x.args[0].op == ONode && !isNewSym(x.args[0].args[0]) {
		return x.args[0].args[0], x.args[1]
	}
	return nil, nil
}

// onPath: the word w read at slot off of the node of wP is the child for the key byte at depth dP+L
func (d *Domain) onPath(st *St, wP, off, w *Term) (next *Term) {
	if d.key == nil {
		return nil
	}
	dP := d.lookupFact(st, "depth", wP)
	if dP == nil {
		return nil
	}
	L, ps, _ := d.prefixOf(st, wP)
	if L == nil {
		return nil
	}
	k := d.keyAt(st, add(dP, L))
	if d.is256(st, wP) {
		if st.eqv(sub(off, ps), k) {
			return addc(add(dP, L), 1)
		}
		return nil
	}
	if d.isVariable(st, wP) && st.eqv(extract(w, 0, 8), k) {
		return addc(add(dP, L), 1)
	}
	return nil
}

// all proves tpl for all β in [a,b)
func (d *Domain) all(st *St, a, b, tpl *Term) bool {
	if st.leq(b, a) {
		return true
	}
	for s := int64(-1); s <= 1; s++ {
		t := tpl
		if s != 0 {
			t = substF(tpl, map[*Term]*Term{tBeta: addc(tBeta, s)})
		}
		tn := st.norm(t)
		for _, f := range st.named("forall") {
			if f.args[2] != t && st.norm(f.args[2]) != tn {
				continue
			}
			lo, hi := addc(f.args[0], s), addc(f.args[1], s)
			if !st.leq(lo, a) {
				continue
			}
			if st.leq(b, hi) {
				return true
			}
			// the last one is known by itself
			if st.leq(addc(b, -1), hi) && holdsAt(st, tpl, addc(b, -1)) {
				return true
			}
		}
	}
	if st.eqv(addc(a, 1), b) {
		return holdsAt(st, tpl, a)
	}
	return false
}

// prefixMatch: the first n bytes of the prefix of w equal the key from dP on
func (d *Domain) prefixMatch(st *St, w, dP, n *Term) bool {
	return d.prefixMatchKey(st, w, dP, n, d.key)
}

func (d *Domain) prefixMatchKey(st *St, w, dP, n, key *Term) bool {
	if st.leq(n, tZero) {
		return true
	}
	_, _, ds := d.prefixOf(st, w)
	if ds == nil {
		return false
	}
	by := mkField(nodeTerm(extract(w, 9, 39)), -1, "bytes")
	a := mk(Term{op: OElem, str: "b", args: []*Term{by, add(mulc(ds, 8), tBeta)}})
	q := mkEq0(sub(a, d.keyByte(st, key, add(dP, tBeta))))
	if d.all(st, tZero, n, q) {
		return true
	}
	for _, f := range st.named("same") {
		// same(b1,o1,b2,o2,len)
		for t := 0; t < 2; t++ {
			b1, o1, b2, o2 := f.args[2*t], f.args[2*t+1], f.args[2-2*t], f.args[3-2*t]
			if b1 != key || !st.eqv(o1, dP) || !st.leq(n, f.args[4]) {
				continue
			}
			ct := d.e.content(st, b2, o2, n, "b")
			if len(ct) == 1 && ct[0].str == "copy" && ct[0].args[2] == by && st.eqv(ct[0].args[3], mulc(ds, 8)) {
				return true
			}
		}
	}
	return false
}

func (d *Domain) saturate(st *St) {
	if d.mode == "admin" || d.mode == "" {
		return
	}
	ats := st.named("at")
	for round := 0; round < 4; round++ {
		ch := false
		for _, f := range ats {
			x, w := f.args[0], f.args[1]
			n, off := slotOf(x)
			if n == nil {
				continue
			}
			wP := wordOf(n)
			if wP == nil {
				continue
			}
			if d.mode == "query" && !st.facts[mkNot(mkEq0(w))] && d.used(st, wP, off) {
				st.addFact(mkNot(mkEq0(w)))
				ch = true
			}
			if d.key != nil && !hasDepth(st, w) {
				if nx := d.onPath(st, wP, off, w); nx != nil {
					st.addFact(fact("depth", w, nx))
					ch = true
					if d.is256(st, wP) && st.prove(mkNot(mkEq0(w))) {
						st.addFact(mkEq0(sub(extract(w, 0, 8), d.keyAt(st, addc(nx, -1)))))
					}
				}
			}
			if (d.mode == "update" || d.scope != "") && hasDepth(st, w) && d.lookupFact(st, "path", w) == nil && d.lookupFact(st, "path", wP) != nil {
				dP := d.lookupFact(st, "depth", wP)
				if L, _, _ := d.prefixOf(st, wP); L != nil && dP != nil && d.prefixMatch(st, wP, dP, L) && d.onPath(st, wP, off, w) != nil {
					st.addFact(fact("path", w, tZero))
					ch = true
				}
			}
		}
		if d.saturateValid(st, ats) {
			ch = true
		}
		if !ch {
			break
		}
	}
}

func hasDepth(st *St, w *Term) bool {
	for f := range st.facts {
		if f.op == OFact && f.str == "depth" && f.args[0] == w {
			return true
		}
	}
	return false
}

func (d *Domain) even(st *St, g *Term) bool { return st.prove(mkEq0(extract(g, 0, 1))) }

func (d *Domain) before(st *St, g, v *Term) bool { return st.facts[fact("before", g, v)] }

func (d *Domain) saturateValid(st *St, ats []*Term) bool {
	if d.mode != "update" && d.mode != "delete" || d.lockBits == 0 {
		return false
	}
	ch := false
	gens := st.named("gen")
	names := st.named("insess")
	addValid := func(y, g *Term) bool {
		c := false
		for _, f := range names {
			w := f.args[0]
			if w == y || st.eqv(w, y) {
				v := fact("valid", extract(w, 9, 39), g)
				if !st.facts[v] {
					st.addFact(v)
					c = true
				}
			}
		}
		return c
	}
	for _, gf := range gens {
		g, l := gf.args[0], gf.args[1]
		for _, f := range ats {
			x, y := f.args[0], f.args[1]
			if !d.before(st, g, y) || !st.prove(mkEq0(extract(y, 8, 1))) {
				continue
			}
			n := extract(y, 9, 39)
			v := fact("valid", n, g)
			if st.facts[v] || !d.sameAddr(st, d.lockOf(n), l) {
				continue
			}
			if d.class(x) == "root" {
				st.addFact(v)
				addValid(y, g)
				ch = true
				continue
			}
			nP, _ := slotOf(x)
			if nP == nil {
				continue
			}
			lP := d.lockOf(nP)
			ok := false
			for _, vf := range st.named("valid") {
				gP := vf.args[1]
				if !d.sameNode(st, vf.args[0], nP) || !d.even(st, gP) || !d.before(st, gP, y) {
					continue
				}
				for _, hf := range gens {
					h := hf.args[0]
					if st.eqv(h, gP) && d.sameAddr(st, hf.args[1], lP) && st.facts[fact("wbefore", y, h)] && (h == g || d.before(st, g, h)) {
						ok = true
					}
				}
				// or the node containing the link is still locked from that generation
				for _, hl := range st.exAll("held") {
					if st.eqv(hl.args[1], gP) && d.sameAddr(st, hl.args[0], lP) {
						ok = true
					}
				}
			}
			if ok {
				st.addFact(v)
				addValid(y, g)
				ch = true
			}
		}
	}
	return ch
}

// lockOK: the lock of n is held, taken from a generation at which n was part of the tree
func (d *Domain) lockOK(st *St, n *Term) (held, valid bool, gen *Term) {
	if d.lockBits == 0 {
		return false, false, nil
	}
	l := d.lockOf(n)
	for _, h := range st.exAll("held") {
		if !d.sameAddr(st, h.args[0], l) {
			continue
		}
		held = true
		gen = h.args[1]
		for _, v := range st.named("valid") {
			if st.eqv(v.args[1], gen) && d.sameNode(st, v.args[0], n) {
				return true, true, v.args[1]
			}
		}
	}
	return held, false, gen
}

// used: the slot is one for a child of a sorted node, which are never empty
func (d *Domain) used(st *St, wP, off *Term) bool {
	if !d.isVariable(st, wP) {
		return false
	}
	_, ps, _ := d.prefixOf(st, wP)
	return ps != nil && st.geq(sub(off, ps), 0) && st.lt(sub(off, ps), addc(extract(wP, 56, 8), 1))
}
