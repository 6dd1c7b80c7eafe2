package main

// Rules for queries: what the result of a search has to be, given the words read on the way.

import (
	"fmt"
	"go/types"
	"os"

	"golang.org/x/tools/go/ssa"
)

// byteTpl: the key byte of child β of node M is smaller than k
func byteTpl(M, ps0, k *Term) *Term {
	return mkLe0(addc(sub(extract(mkAny(mkIdx(nodeTerm(M), add(ps0, tBeta))), 0, 8), k), 1))
}

// absent: no child of the variable node of w has the key byte k
func (d *Domain) absent(st *St, w, k *Term) bool {
	M := extract(w, 9, 39)
	_, ps, _ := d.prefixOf(st, w)
	if ps == nil {
		return false
	}
	tpl := byteTpl(M, ps, k)
	c := addc(extract(w, 56, 8), 1)
	if d.all(st, tZero, c, tpl) {
		return true
	}
	for _, f := range st.named("at") {
		n, off := slotOf(f.args[0])
		if n == nil || !d.sameNode(st, n, M) {
			continue
		}
		pos := sub(off, ps)
		b := extract(f.args[1], 0, 8)
		if st.lt(k, b) && d.all(st, tZero, pos, tpl) {
			return true
		}
		// the last one
		if st.lt(b, k) && st.eqv(addc(pos, 1), c) {
			return true
		}
	}
	return false
}

// answers derives what the words read so far say about the key: answer(w) is the leaf the key leads to,
// missing() means that there is none
func (d *Domain) answers(st *St) {
	if d.mode == "alloc" {
		d.lowest(st)
	}
	if d.mode != "query" || d.key == nil {
		return
	}
	d.saturate(st)
	zero := func(t *Term) bool { return st.prove(mkEq0(t)) }
	leaf := func(w *Term) bool { return st.prove(mkEq0(addc(extract(w, 8, 1), -1))) }
	miss := func() { st.addFact(fact("missing")) }
	for _, f := range st.named("at") {
		x, w := f.args[0], f.args[1]
		if d.class(x) == "root" {
			if zero(w) || leaf(w) && st.leq(d.keyLen, tZero) && d.scope == "" {
				miss()
				continue
			}
			if leaf(w) {
				if st.leq(d.keyLen, tZero) {
					d.target(st, w) // everything below the root
					continue
				}
				k := d.keyAt(st, tZero)
				if st.eqv(extract(w, 0, 8), k) {
					d.target(st, w)
				} else if st.prove(mkNot(mkEq0(sub(extract(w, 0, 8), k)))) {
					miss()
				}
			}
			continue
		}
		n, off := slotOf(x)
		if n == nil {
			continue
		}
		wP := wordOf(n)
		if wP == nil {
			continue
		}
		if d.scope != "" && d.lookupFact(st, "path", wP) == nil {
			continue
		}
		if d.onPath(st, wP, off, w) != nil {
			if d.scope != "" && !d.matched(st, wP) {
				continue
			}
			if zero(w) {
				miss()
			} else if leaf(w) {
				d.target(st, w)
			}
		}
	}
	for _, f := range st.named("depth") {
		d.below(st, f.args[0], miss)
	}
	for _, f := range st.named("target") {
		d.target(st, f.args[0])
	}
	if d.walk == "count" || d.walk == "iter" || d.walk != "" && st.exHas(facet("body")) {
		d.begin(st)
	}
}

// begin: the search is over, a node was found
func (d *Domain) begin(st *St) {
	if st.exHas(facet("started")) {
		return
	}
	if st.facts[fact("missing")] {
		st.exAdd(facet("started"))
		st.exAdd(facet("visited", tZero, tZero))
		return
	}
	for _, f := range st.named("answer") {
		w := f.args[0]
		switch {
		case d.isNodeWord(st, w):
			d.startWalk(st, w)
			return
		case d.isLeafWord(st, w):
			st.exAdd(facet("started"))
			st.exAdd(facet("visited", tZero, K(1)))
			if d.walk == "iter" {
				st.exAdd(facet("single", w))
			}
			return
		}
	}
}

// target: the search ends at word w
func (d *Domain) target(st *St, w *Term) {
	st.addFact(fact("target", w))
	if st.prove(mkEq0(w)) {
		st.addFact(fact("missing"))
	} else if st.prove(mkNot(mkEq0(w))) || d.isLeafWord(st, w) {
		st.addFact(fact("answer", w))
	}
}

// matched: the prefix of the node of w, on the path, was compared with the key
func (d *Domain) matched(st *St, w *Term) bool {
	dP := d.lookupFact(st, "depth", w)
	L, _, _ := d.prefixOf(st, w)
	return dP != nil && L != nil && d.prefixMatch(st, w, dP, L)
}

// below: what is known about the key below the node of w
func (d *Domain) below(st *St, w *Term, miss func()) {
	dP := d.lookupFact(st, "depth", w)
	if dP == nil {
		return
	}
	if d.scope != "" && dP == tZero && st.leq(d.keyLen, tZero) {
		d.target(st, w)
		return
	}
	if !st.prove(mkEq0(extract(w, 8, 1))) {
		return
	}
	if d.scope != "" {
		if d.lookupFact(st, "path", w) == nil {
			return
		}
		if st.leq(d.keyLen, dP) {
			d.target(st, w)
			return
		}
	}
	L, _, _ := d.prefixOf(st, w)
	if L == nil {
		return
	}
	if st.leq(d.keyLen, add(dP, L)) {
		if d.scope == "" {
			miss()
		} else if d.prefixMatch(st, w, dP, sub(d.keyLen, dP)) {
			d.target(st, w)
		}
		return
	}
	if d.scope != "" && !d.matched(st, w) {
		if d.mismatch(st, w, dP, L) {
			miss()
		}
		return
	}
	if d.isVariable(st, w) && d.absent(st, w, d.keyAt(st, add(dP, L))) {
		miss()
	}
}

// mismatch: some byte of the prefix of w differs from the key
func (d *Domain) mismatch(st *St, w, dP, L *Term) bool {
	_, _, ds := d.prefixOf(st, w)
	by := mkField(nodeTerm(extract(w, 9, 39)), -1, "bytes")
	for f := range st.facts {
		if f.op != ONot || f.args[0].op != OEq0 {
			continue
		}
		_, at, co := linOf(st.norm(f.args[0].args[0]))
		if len(at) != 2 || co[0]*co[1] != -1 {
			continue
		}
		for t := 0; t < 2; t++ {
			a, k := at[t], at[1-t]
			if a.op != OElem || k.op != OElem || st.norm(by) != a.args[0] && by != a.args[0] || k.args[0] != d.key {
				continue
			}
			i := sub(a.args[1], mulc(ds, 8))
			if st.eqv(k.args[1], add(dP, i)) && st.geq(i, 0) && st.lt(i, L) {
				return true
			}
		}
	}
	return false
}

func (c *Ctx) lookupDriver(typ string) error {
	ep, err := c.entryOf(typ, "Lookup")
	if err != nil {
		return err
	}
	c.d.mode = "query"
	c.d.driver = ep.name
	ks := c.setKey()
	exits, err := c.run(ep.fn, newSt(), []*Term{ep.recv, ks}, ep.name)
	if err != nil {
		return err
	}
	fr := c.frameOf(ep.fn)
	for i, x := range exits {
		c.exits++
		c.closed(fr, x, nil)
		if len(x.ret) != 2 {
			return fmt.Errorf("Lookup returns %d values", len(x.ret))
		}
		if os.Getenv("DUMPX") != "" {
			fmt.Println("--- exit", i, x.ret)
			fmt.Println(x.st.dump())
		}
		v, found := x.ret[0], x.ret[1]
		switch {
		case found == tTrue || x.st.prove(found):
			ok := false
			for _, f := range x.st.named("answer") {
				if x.st.eqv(v, extract(f.args[0], 9, 55)) {
					ok = true
				}
			}
			c.d.chk(fr, nil, "C16,C13", "lookup-returns-value-of-key-path", ok, "%s is returned, which is not known to be the value of the leaf the key leads to", v)
		case found == tFalse || x.st.prove(mkNot(found)):
			c.d.chk(fr, nil, "C16", "lookup-misses-only-missing", x.st.facts[fact("missing")], "nothing is found, but the key is not known to be missing")
		default:
			return fmt.Errorf("Lookup returns %s", found)
		}
	}
	return nil
}

// ---- traversals ----
//
// What is left to visit is kept in facets:
//   owed(w, k)    the children of w from k on (min: upwards, max: downwards), nothing else comes first
//   later(w, k)   the same, after everything owed
//   pend(w, k, a) a was read from child slot k of w, which is next
//   visited(n, l) the numbers of nodes and leaves visited
//   deliver(a)    leaf a was reached and is to be put into the result next
//   stk(b)        the slice b holds the positions to return to, all of this operation
//   popped(b)     the last element of b was taken and has to be cut off
//   chain(w)      (iterators) the stack is the path from the first node to the parent of w

type contShape struct{ w, k, more int }

func (d *Domain) ways(st *St) []*Term {
	var l []*Term
	for _, f := range st.ex {
		if f.str == "owed" || f.str == "later" {
			l = append(l, f)
		}
	}
	return l
}

func (st *St) exReplace(old, nw *Term) {
	l := append([]*Term(nil), st.ex...)
	for i, f := range l {
		if f == old {
			if nw == nil {
				l = append(l[:i:i], l[i+1:]...)
			} else {
				l[i] = nw
			}
			break
		}
	}
	st.ex = l
}

func (d *Domain) countOf(w *Term) *Term { return addc(extract(w, 56, 8), 1) }

func (d *Domain) isZero(st *St, t *Term) bool { return st.prove(mkEq0(t)) }
func (d *Domain) isLeafWord(st *St, w *Term) bool {
	return st.prove(mkEq0(addc(extract(w, 8, 1), -1)))
}
func (d *Domain) isNodeWord(st *St, w *Term) bool {
	return st.prove(mkEq0(extract(w, 8, 1))) && st.prove(mkNot(mkEq0(w)))
}

// startWalk: the children of w are the first to be visited
func (d *Domain) startWalk(st *St, w *Term) {
	first := tZero
	if d.walk == "max" {
		first = addc(d.countOf(w), -1)
	}
	st.exAdd(facet("started"))
	st.exAdd(facet("visited", K(1), tZero))
	st.exAdd(facet("owed", w, first))
	if d.walk == "iter" {
		st.exAdd(facet("chain", w))
		if dP := d.lookupFact(st, "depth", w); dP != nil {
			st.exAdd(facet("scanroot", dP))
			if d.res != nil {
				st.exAdd(facet("front", w, dP))
			}
		}
	}
}

func (st *St) exDrop(name string) {
	for _, f := range st.exAll(name) {
		st.exReplace(f, nil)
	}
}

func (d *Domain) walkLoad(fr *Frame, in ssa.Instruction, st *St, a, v *Term) {
	d.wfr, d.win = fr, in
	n, off := slotOf(a)
	if n == nil {
		return
	}
	w := wordOf(n)
	if w == nil {
		return
	}
	_, ps, _ := d.prefixOf(st, w)
	if ps == nil {
		return
	}
	if !st.exHas(facet("started")) {
		d.answers(st)
		if !st.exHas(facet("started")) {
			return // still searching
		}
	}
	idx := sub(off, ps)
	if f := d.frontOf(st, w); f != nil && d.is256(st, w) {
		// the children before the position to resume at need not be read
		L, _, _ := d.prefixOf(st, w)
		if d.prefixMatchKey(st, w, f.args[1], L, d.res) && st.lt(add(f.args[1], L), d.resLen) && st.eqv(idx, d.keyByte(st, d.res, add(f.args[1], L))) {
			for _, o := range d.ways(st) {
				if st.eqv(o.args[0], w) && o.args[1] == tZero {
					st.exReplace(o, facet(o.str, o.args[0], idx))
				}
			}
		}
	}
	for _, f := range d.ways(st) {
		if !st.eqv(f.args[0], w) || !st.eqv(f.args[1], idx) {
			continue
		}
		for _, p := range st.exAll("pend") {
			if p.args[0] == f.args[0] {
				st.exReplace(p, nil)
			}
		}
		st.exAdd(facet("pend", f.args[0], f.args[1], v))
	}
	d.walkStep(st)
}

func (d *Domain) visit(st *St, dn, dl int64) {
	for _, f := range st.exAll("visited") {
		st.exReplace(f, facet("visited", addc(f.args[0], dn), addc(f.args[1], dl)))
		return
	}
}

func (d *Domain) walkStep(st *St) {
	if d.walk == "" || len(st.ex) == 0 {
		return
	}
	d.pastPosition(st)
	step := int64(1)
	if d.walk == "max" {
		step = -1
	}
	for _, p := range st.exAll("pend") {
		w, k, a := p.args[0], p.args[1], p.args[2]
		var way *Term
		for _, f := range d.ways(st) {
			if f.args[0] == w {
				way = f
			}
		}
		if way == nil {
			st.exReplace(p, nil)
			continue
		}
		next := facet(way.str, w, addc(k, step))
		switch {
		case d.isZero(st, a) || st.facts[fact("noleaf", a)]:
			st.exReplace(p, nil)
			st.exReplace(way, next)
		case way.str == "later" || d.walk == "min" || d.walk == "max":
		case d.frontOf(st, w) != nil && !d.isNodeWord(st, a):
			// may be before the position to resume at
		case d.isLeafWord(st, a):
			st.exReplace(p, nil)
			st.exReplace(way, next)
			d.visit(st, 0, 1)
			if d.walk == "iter" {
				st.exAdd(facet("deliver", a))
			}
		case d.isNodeWord(st, a):
			if f := d.frontOf(st, w); f != nil {
				if !d.atPosition(st, f, a) {
					continue
				}
				L, _, _ := d.prefixOf(st, w)
				st.exReplace(f, facet("front", a, addc(add(f.args[1], L), 1)))
			}
			d.noLater(st)
			st.exReplace(p, nil)
			st.exReplace(way, facet("later", w, addc(k, step)))
			d.visit(st, 1, 0)
			st.exAdd(facet("owed", a, tZero))
		}
	}
	for _, f := range d.ways(st) {
		done := false
		if d.walk == "max" {
			done = st.leq(f.args[1], K(-1))
		} else {
			done = st.leq(d.countOf(f.args[0]), f.args[1])
		}
		if done {
			st.exReplace(f, nil)
		}
	}
}

// noLater: what was to be visited later is on the stack before going further down
func (d *Domain) noLater(st *St) {
	for _, f := range st.exAll("later") {
		d.chk(d.wfr, d.win, "C17", "rest-of-node-kept", false, "the traversal goes down again, but the children of node %s from %s on are not on the stack", f.args[0], f.args[1])
		st.exReplace(f, nil)
	}
}

// frontOf: the position to resume at is below w, in what is owed there
func (d *Domain) frontOf(st *St, w *Term) *Term {
	for _, f := range st.exAll("front") {
		if f.args[0] == w || st.eqv(f.args[0], w) {
			return f
		}
	}
	return nil
}

// atPosition: child a is the one the position to resume at goes through
func (d *Domain) atPosition(st *St, f, a *Term) bool {
	w, dk := f.args[0], f.args[1]
	L, _, _ := d.prefixOf(st, w)
	if L == nil || !d.prefixMatchKey(st, w, dk, L, d.res) {
		return false
	}
	return st.eqv(extract(a, 0, 8), d.keyByte(st, d.res, add(dk, L)))
}

// pastPosition drops what comes before the position to resume at
func (d *Domain) pastPosition(st *St) {
	for _, f := range st.exAll("front") {
		w, dk := f.args[0], f.args[1]
		var way *Term
		for _, o := range d.ways(st) {
			if o.str == "owed" && st.eqv(o.args[0], w) {
				way = o
			}
		}
		if way == nil {
			st.exReplace(f, nil)
			continue
		}
		if st.leq(d.resLen, dk) {
			st.exReplace(f, nil)
			continue
		}
		L, _, _ := d.prefixOf(st, w)
		if L == nil {
			continue
		}
		if !d.prefixMatchKey(st, w, dk, L, d.res) {
			switch d.prefixOrder(st, w, dk, L) {
			case "after":
				st.exReplace(f, nil)
			case "before":
				st.exReplace(f, nil)
				st.exReplace(way, nil)
			}
			continue
		}
		if st.leq(d.resLen, add(dk, L)) {
			st.exReplace(f, nil)
			continue
		}
		if !st.lt(add(dk, L), d.resLen) {
			continue
		}
		ch := d.keyByte(st, d.res, add(dk, L))
		for _, p := range st.exAll("pend") {
			if p.args[0] != way.args[0] {
				continue
			}
			k, a := p.args[1], p.args[2]
			b := extract(a, 0, 8)
			if d.is256(st, w) {
				b = k
			}
			switch {
			case st.lt(b, ch):
				st.exReplace(p, nil)
				st.exReplace(way, facet(way.str, way.args[0], addc(k, 1)))
			case st.lt(ch, b):
				st.exReplace(f, nil)
				st.exReplace(p, nil)
			case st.leq(ch, b) && (d.isZero(st, a) || d.isLeafWord(st, a)) || st.eqv(b, ch) && (d.isNodeWord(st, a) && st.leq(d.resLen, addc(add(dk, L), 1))):
				// the scan goes on from here, and reads this child again
				st.exReplace(f, nil)
				st.exReplace(p, nil)
			}
		}
	}
}

// prefixOrder compares the prefix of w with the position to resume at
func (d *Domain) prefixOrder(st *St, w, dk, L *Term) string {
	_, _, ds := d.prefixOf(st, w)
	by := mkField(nodeTerm(extract(w, 9, 39)), -1, "bytes")
	isPrefix := func(b, o, n *Term) bool {
		if !st.eqv(n, L) {
			return false
		}
		ct := d.e.content(st, b, o, n, "b")
		return len(ct) == 1 && ct[0].str == "copy" && (ct[0].args[2] == by || st.norm(ct[0].args[2]) == st.norm(by)) && st.eqv(ct[0].args[3], mulc(ds, 8))
	}
	isPos := func(b, o, n *Term) bool {
		return b == d.res && st.eqv(o, dk) && (st.eqv(n, L) || st.leq(n, L) && st.eqv(add(o, n), d.resLen))
	}
	for _, f := range st.named("less") {
		x := f.args
		switch {
		case isPrefix(x[0], x[1], x[2]) && isPos(x[3], x[4], x[5]):
			return "before"
		case isPos(x[0], x[1], x[2]) && isPrefix(x[3], x[4], x[5]):
			return "after"
		}
	}
	return ""
}

// pushed: a position is put on the stack
func (d *Domain) pushed(fr *Frame, in ssa.Instruction, st *St, old *Term, el *Term, nb *Term, typ string) {
	if el.op != OStruct {
		d.e.fail(fr, in, "unknown position on the stack")
	}
	for _, f := range st.exAll("stk") {
		if st.eqv(f.args[0], old.args[0]) {
			st.exReplace(f, facet("stk", nb))
			goto ok
		}
	}
	d.chk(fr, in, "C17,C01", "stack-starts-empty", false, "positions are added to a stack that may hold some of a previous operation")
	return
ok:
	d.chk(fr, in, "C17", "position-taken-once", len(st.exAll("popped")) == 0, "a position taken from the stack is still on it")
	// which fields are the word and the index
	sh := d.conts[typ]
	if sh == nil {
		sh = &contShape{-1, -1, -1}
		for i, a := range el.args {
			switch {
			case isBoolTerm(a):
				sh.more = i
			case st.facts[fact("insess", a)] || st.prove(fact("insess", a)):
				sh.w = i
			case isIntTerm(a) && sh.k < 0:
				sh.k = i
			}
		}
		if sh.w < 0 || sh.k < 0 {
			d.chk(fr, in, "C17", "position-complete", false, "a position is put on the stack without its node or index: %s", el)
			return
		}
		d.conts[typ] = sh
	}
	w, k := el.args[sh.w], el.args[sh.k]
	d.chk(fr, in, "C01", "position-read-under-reservation", st.prove(fact("insess", w)), "the node of position %s was not read under the current reservation", el)
	d.chk(fr, in, "C17,C18", "position-is-node", d.isNodeWord(st, w), "the position %s is not one in a node", el)
	cnt := d.countOf(w)
	var way *Term
	for _, f := range d.ways(st) {
		if st.eqv(f.args[0], w) {
			way = f
		}
	}
	switch {
	case way != nil && way.str == "later":
		d.chk(fr, in, "C17", "rest-of-node-kept", st.eqv(way.args[1], k), "the children of the node from %s on are left, but the position put on the stack is %s", way.args[1], k)
		st.exReplace(way, nil)
		for _, p := range st.exAll("pend") {
			if p.args[0] == way.args[0] {
				st.exReplace(p, nil)
			}
		}
	default:
		d.chk(fr, in, "C17", "rest-of-node-kept", st.leq(cnt, k), "position %s is put on the stack, but nothing is left to be visited there", el)
	}
	for _, f := range st.exAll("later") {
		st.exReplace(f, nil)
	}
	if sh.more >= 0 {
		m := el.args[sh.more]
		more := mkLe0(addc(sub(k, cnt), 1))
		good := m == more || st.prove(m) && st.prove(more) || st.prove(mkNot(m)) && st.prove(mkNot(more))
		d.chk(fr, in, "C17", "more-flag-right", good, "the flag %s of a position does not tell whether children are left: %s", m, more)
	}
	if d.walk == "iter" {
		good := false
		ch := st.exAll("chain")
		var owed *Term
		for _, f := range st.exAll("owed") {
			owed = f
		}
		if len(ch) == 1 && st.eqv(ch[0].args[0], w) && owed != nil {
			good = true
			st.exReplace(ch[0], facet("chain", owed.args[0]))
		}
		d.chk(fr, in, "C17", "stack-is-path", good, "the stack is no longer the path to the current node")
	}
}

// isTop: addr is the last element of the stack
func (d *Domain) isTop(st *St, addr *Term) bool {
	for _, m := range st.mem {
		if m.op == OSlice && m.args[0] == addr.args[0] && st.eqv(addc(add(m.args[1], m.args[2]), -1), addr.args[1]) {
			return true
		}
	}
	return false
}

// peekPos: some position is read, but stays on the stack
func (d *Domain) peekPos(st *St, addr, v *Term, typ string) {
	sh := d.conts[typ]
	if sh == nil {
		return
	}
	w, k := v.args[sh.w], v.args[sh.k]
	d.trimmed(st)
	st.exDrop("peek")
	st.delFacts(func(f *Term) bool {
		return occurs(w, f) || occurs(k, f) || sh.more >= 0 && occurs(v.args[sh.more], f)
	})
	st.addFact(fact("insess", w))
	d.wordAxioms(st, w)
	st.addFact(mkLe0(mulc(k, -1)))
	st.addFact(mkLe0(sub(k, d.countOf(w))))
	more := tTrue
	if sh.more >= 0 {
		more = v.args[sh.more]
		st.exAdd(facet("peek", addr.args[0], addr.args[1], more))
	}
	if d.walk == "iter" {
		d.elemRead(st, addr.args[0], addr.args[1], w, k, more)
	}
}

// trimmed: from which position on no position on the stack has children left
func (d *Domain) trimmed(st *St) {
	for _, p := range st.exAll("peek") {
		if st.prove(p.args[2]) && d.walk == "iter" {
			st.exDrop("live")
			st.exAdd(facet("live", p.args[0], p.args[1]))
		}
		if !st.prove(mkNot(p.args[2])) {
			continue
		}
		st.exReplace(p, nil)
		done := false
		for _, t := range st.exAll("trim") {
			if t.args[0] == p.args[0] && st.eqv(t.args[1], addc(p.args[1], 1)) {
				st.exReplace(t, facet("trim", p.args[0], p.args[1]))
				done = true
			}
		}
		if !done && d.isTop(st, mk(Term{op: OIdx, args: []*Term{p.args[0], p.args[1]}})) {
			st.exAdd(facet("trim", p.args[0], p.args[1]))
		}
	}
}

// popPos: the position at addr is read from the stack
func (d *Domain) popPos(fr *Frame, fs *FS, in ssa.Instruction, addr *Term, v *Term, typ string) {
	st := fs.st
	if d.walk == "iter" {
		// taken off only when the stack is cut
		d.peekPos(st, addr, v, typ)
		st.exDrop("top")
		if d.isTop(st, addr) && d.conts[typ] != nil {
			st.exAdd(facet("top", addr.args[0], addr.args[1], v, KStr(typ)))
		}
		return
	}
	d.popped(fr, in, st, addr, v, typ)
}

// popped: the position at addr is what is visited next
func (d *Domain) popped(fr *Frame, in ssa.Instruction, st *St, addr *Term, v *Term, typ string) {
	mine := false
	for _, f := range st.exAll("stk") {
		if st.eqv(f.args[0], addr.args[0]) {
			mine = true
		}
	}
	d.chk(fr, in, "C17,C01", "stack-of-this-operation", mine, "a position is taken from a stack that may be from a previous operation")
	sh := d.conts[typ]
	if os.Getenv("DBGPOP") != "" {
		fmt.Println("POP", mine, sh, typ, addr, d.conts)
	}
	if !mine || sh == nil {
		return
	}
	w, k := v.args[sh.w], v.args[sh.k]
	// a new execution of the same read
	if d.walk != "iter" {
		st.delFacts(func(f *Term) bool { return occurs(w, f) || occurs(k, f) })
		st.addFact(fact("insess", w))
		d.wordAxioms(st, w)
		st.addFact(mkLe0(mulc(k, -1)))
		st.addFact(mkLe0(sub(k, d.countOf(w))))
	}
	if d.e.silent == 0 {
		d.chk(fr, in, "C17", "last-position-first", d.isTop(st, addr), "the position taken from the stack is not the last one")
		d.chk(fr, in, "C17", "position-taken-once", len(st.exAll("popped")) == 0, "a position is taken from the stack twice")
		d.chk(fr, in, "C17", "children-before-siblings", len(d.ways(st)) == 0, "the next position is taken from the stack although %v is not visited", d.ways(st))
		d.chk(fr, in, "C17", "leaf-delivered", len(st.exAll("deliver")) == 0, "a leaf is not put into the result")
	}
	for _, f := range d.ways(st) {
		st.exReplace(f, nil)
	}
	st.exAdd(facet("popped", addr.args[0]))
	st.exDrop("elem")
	st.exDrop("live")
	st.exAdd(facet("owed", w, k))
	if d.walk == "iter" {
		for _, f := range st.exAll("chain") {
			st.exReplace(f, nil)
		}
		st.exAdd(facet("chain", w))
	}
	d.walkStep(st)
}

// cutPos: the stack is shortened
func (d *Domain) cutPos(fr *Frame, in ssa.Instruction, st *St, v, lo, hi *Term) {
	if d.walk == "iter" {
		d.trimmed(st)
		for _, f := range st.exAll("top") {
			x := f.args[2]
			sh := d.conts[f.args[3].str]
			if f.args[0] == v.args[0] && sh != nil && st.eqv(lo, tZero) && st.eqv(hi, addc(v.args[2], -1)) && st.eqv(addc(add(v.args[1], v.args[2]), -1), f.args[1]) {
				st.exReplace(f, nil)
				if sh.more < 0 || !st.prove(mkNot(x.args[sh.more])) {
					d.popped(fr, in, st, mk(Term{op: OIdx, args: []*Term{f.args[0], f.args[1]}}), x, f.args[3].str)
				}
			}
		}
		st.exDrop("top")
	}
	for _, f := range st.exAll("popped") {
		if st.eqv(f.args[0], v.args[0]) {
			d.chk(fr, in, "C17", "position-taken-once", st.eqv(hi, addc(v.args[2], -1)) && st.eqv(lo, tZero), "after taking the last position the stack is cut to %s:%s", lo, hi)
			st.exReplace(f, nil)
			return
		}
	}
	d.trimmed(st)
	keep := st.leq(v.args[2], hi)
	for _, t := range st.exAll("trim") {
		if st.eqv(t.args[0], v.args[0]) && st.leq(t.args[1], hi) {
			keep = true
		}
	}
	d.chk(fr, in, "C17", "positions-not-dropped", st.eqv(lo, tZero) && keep, "positions are dropped from the stack")
	st.exDrop("trim")
	st.exDrop("peeked")
}

// restEmpty: nothing is left to be visited
func (d *Domain) restEmpty(fr *Frame, st *St) bool {
	ok := d.chk(fr, nil, "C17", "all-children-visited", len(d.ways(st)) == 0, "the traversal ends although %v is not visited", d.ways(st))
	ok = d.chk(fr, nil, "C17", "leaf-delivered", len(st.exAll("deliver")) == 0, "a leaf reached is not put into the result") && ok
	for _, f := range st.exAll("stk") {
		empty := false
		for _, m := range st.mem {
			if m.op == OSlice && st.eqv(m.args[0], f.args[0]) && st.leq(m.args[2], tZero) {
				empty = true
			}
		}
		if f.args[0].args[0].op == OSym && f.args[0].args[0].sym.name == "cont.empty" {
			empty = true
		}
		ok = d.chk(fr, nil, "C17", "all-positions-visited", empty, "the traversal ends although positions are left on the stack") && ok
	}
	return ok
}

// countDriver: Count of a tree, or of a counter that was used before
func (c *Ctx) countDriver(typ string) error {
	f := c.p.method(typ, "Count")
	if f == nil {
		return fmt.Errorf("%s.Count not found", typ)
	}
	c.d.mode, c.d.scope, c.d.walk = "query", "prefix", "count"
	c.d.driver = typ + ".Count"
	ks := c.setKey()
	recv := c.e.tree
	if typ != "Tree" {
		recv = mkObj(mkSym(Sym{name: "COUNTER", kind: SParam, ptr: true}))
	}
	exits, err := c.run(f, newSt(), []*Term{recv, ks}, "count")
	if err != nil {
		return err
	}
	fr := c.frameOf(f)
	for i, x := range exits {
		c.exits++
		c.closed(fr, x, nil)
		if len(x.ret) != 2 {
			return fmt.Errorf("Count returns %d values", len(x.ret))
		}
		st := x.st
		if os.Getenv("DUMPX") != "" {
			fmt.Println("--- exit", i, x.ret)
			fmt.Println(x.st.dump())
		}
		if st.exHas(facet("started")) {
			c.d.restEmpty(fr, st)
			v := st.exAll("visited")[0]
			c.d.chk(fr, nil, "C17", "count-is-number-visited", st.eqv(x.ret[0], v.args[0]) && st.eqv(x.ret[1], v.args[1]), "%s nodes and %s leaves are counted, but %s and %s visited", x.ret[0], x.ret[1], v.args[0], v.args[1])
			continue
		}
		c.d.chk(fr, nil, "C17,C16", "prefix-search-decided", false, "the count ends at %s without having visited the part of the tree below the prefix", x.ret)
	}
	return nil
}

// ---- recursive searches ----

// selfCalling: fn may call itself
func selfCalling(fn *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function) bool
	visit = func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := c.Common().StaticCallee()
				if g == nil || g.Pkg != fn.Pkg {
					continue
				}
				if g == fn {
					return true
				}
				if !seen[g] {
					seen[g] = true
					if visit(g) {
						return true
					}
				}
			}
		}
		return false
	}
	return visit(fn)
}

// wordParam: the parameter of a recursive search that is the word to search below
func wordParam(fn *ssa.Function) int {
	r := fn.Signature.Results()
	if r.Len() != 2 || r.At(0).Type() != types.Typ[types.Uint64] || r.At(1).Type() != types.Typ[types.Bool] {
		return -1
	}
	w := -1
	for i, p := range fn.Params {
		if p.Type() == types.Typ[types.Uint64] {
			if w >= 0 {
				return -1
			}
			w = i
		}
	}
	return w
}

// inductive: a recursive search is taken to return the first (last) leaf below a word, or that there is
// none; its body is verified under that assumption
func (d *Domain) inductive(fr *Frame, fs *FS, in ssa.Instruction, fn *ssa.Function, a []*Term) []callRes {
	if d.walk != "min" && d.walk != "max" {
		return nil
	}
	i := wordParam(fn)
	if i < 0 || !selfCalling(fn) {
		return nil
	}
	d.summed[fn] = true
	w := a[i]
	st := fs.st
	if !d.isZero(st, w) && !d.chk(fr, in, "C01,C17", "search-below-word-read", st.prove(fact("insess", w)) || st.facts[fact("target", w)], "the search goes on below %s, which was not read from the tree under the current reservation", w) {
		d.e.fail(fr, in, "search below an unknown word")
	}
	v := mkSym(Sym{name: "found", kind: SOpaque, frame: fr, instr: in, nonN: true})
	del := func(s *St) { s.delFacts(func(f *Term) bool { return occurs(v, f) }) }
	var out []callRes
	d.answers(st)
	top := false // the answer of the whole query
	for _, f := range st.named("target") {
		top = top || !st.exHas(facet("body")) && st.eqv(f.args[0], w)
	}
	if !st.exHas(facet("body")) && d.isZero(st, w) && st.facts[fact("missing")] {
		top = true
	}
	yes := st.clone()
	del(yes)
	if top {
		yes.exAdd(facet("found", v))
	}
	if !d.isZero(yes, w) {
		yes.addFact(fact("leafof", v, w))
		yes.addFact(mkNot(mkEq0(w)))
		out = append(out, callRes{yes, mk(Term{op: OTuple, args: []*Term{v, tTrue}})})
	}
	no := st.clone()
	del(no)
	no.addFact(fact("noleaf", w))
	if top {
		no.exAdd(facet("nothing"))
	}
	d.wfr, d.win = fr, in
	d.walkStep(no)
	out = append(out, callRes{no, mk(Term{op: OTuple, args: []*Term{v, tFalse}})})
	return out
}

// extreme: v is the value of the first (last) leaf below w
func (d *Domain) extreme(st *St, v, w *Term) bool {
	if d.isLeafWord(st, w) && st.eqv(v, extract(w, 9, 55)) {
		return true
	}
	for _, f := range st.named("leafof") {
		if st.eqv(f.args[0], v) && st.eqv(f.args[1], w) {
			return true
		}
	}
	for _, p := range st.exAll("pend") {
		if !st.eqv(p.args[0], w) {
			continue
		}
		way := false
		for _, f := range st.exAll("owed") {
			way = way || st.eqv(f.args[0], w) && st.eqv(f.args[1], p.args[1])
		}
		if way && d.extreme(st, v, p.args[2]) {
			return true
		}
	}
	return false
}

func (d *Domain) hasNone(st *St, w *Term) bool {
	if d.isZero(st, w) || st.facts[fact("noleaf", w)] {
		return true
	}
	return st.exHas(facet("started")) && d.isNodeWord(st, w) && len(d.ways(st)) == 0
}

func (c *Ctx) extremeDriver(method, walk string) error {
	f := c.p.method("Tree", method)
	if f == nil {
		return fmt.Errorf("Tree.%s not found", method)
	}
	d := c.d
	d.mode, d.scope, d.walk = "query", "prefix", walk
	d.driver = "Tree." + method
	ks := c.setKey()
	exits, err := c.run(f, newSt(), []*Term{c.e.tree, ks}, method)
	if err != nil {
		return err
	}
	fr := c.frameOf(f)
	which := map[string]string{"min": "first", "max": "last"}[walk]
	for i, x := range exits {
		c.exits++
		c.closed(fr, x, nil)
		if len(x.ret) != 2 {
			return fmt.Errorf("%s returns %d values", method, len(x.ret))
		}
		if os.Getenv("DUMPX") != "" {
			fmt.Println("--- exit", i, x.ret)
			fmt.Println(x.st.dump())
		}
		st, ok := x.st, false
		switch r := x.ret[1]; {
		case r == tTrue || st.prove(r):
			for _, f := range st.exAll("found") {
				ok = ok || st.eqv(x.ret[0], f.args[0])
			}
			for _, a := range st.named("target") {
				ok = ok || d.extreme(st, x.ret[0], a.args[0])
			}
			d.chk(fr, nil, "C17,C16", "extreme-leaf-returned", ok, "%s is returned, which is not known to be the value of the %s key below the prefix", x.ret[0], which)
		case r == tFalse || st.prove(mkNot(r)):
			ok = st.facts[fact("missing")] || st.exHas(facet("nothing"))
			for _, a := range st.named("target") {
				ok = ok || d.hasNone(st, a.args[0])
			}
			d.chk(fr, nil, "C17,C16", "none-reported-if-none", ok, "no key is reported, but there may be one below the prefix")
		default:
			return fmt.Errorf("%s returns %s", method, r)
		}
	}
	// the recursive searches used
	done := map[*ssa.Function]bool{}
	for again := true; again; {
		again = false
		for g := range d.summed {
			if done[g] {
				continue
			}
			done[g], again = true, true
			if err := c.searchBody(g, which); err != nil {
				return err
			}
		}
	}
	return nil
}

// searchBody verifies one call of a recursive search under the assumption that the inner calls are right
func (c *Ctx) searchBody(g *ssa.Function, which string) error {
	d := c.d
	d.driver = fnName(g)
	wi := wordParam(g)
	st := newSt()
	w := mkSym(Sym{name: "WORD", kind: SLoad, nonN: true})
	st.addFact(fact("insess", w))
	st.addFact(fact("target", w))
	st.exAdd(facet("body"))
	st.exAdd(facet("sess", mkObj(mkSym(Sym{name: "RESERVATION", kind: SParam, ptr: true}))))
	args := make([]*Term, len(g.Params))
	for i, p := range g.Params {
		if i == wi {
			args[i] = w
			continue
		}
		args[i] = c.e.unknown(p.Type(), Sym{name: "arg", kind: SParam})
	}
	fr := c.frameOf(g)
	exits, err := c.run(g, st, args, "body")
	if err != nil {
		return err
	}
	for i, x := range exits {
		c.exits++
		s := x.st
		if os.Getenv("DUMPX") != "" {
			fmt.Println("--- body exit", i, x.ret)
			fmt.Println(s.dump())
		}
		d.chk(fr, nil, "C01", "reservation-kept", len(s.exAll("sess")) == 1, "the reservation is withdrawn during the search")
		switch r := x.ret[1]; {
		case r == tTrue || s.prove(r):
			d.chk(fr, nil, "C17", "extreme-leaf-returned", d.extreme(s, x.ret[0], w), "%s is returned, which is not known to be the value of the %s leaf below the word", x.ret[0], which)
		case r == tFalse || s.prove(mkNot(r)):
			d.chk(fr, nil, "C17", "none-reported-if-none", d.hasNone(s, w), "no leaf is reported, but %v may be left", d.ways(s))
		default:
			return fmt.Errorf("%s returns %s", fnName(g), r)
		}
	}
	return nil
}

// ---- iterators ----

// delivered: leaves are added to the list of values in the order they are reached
func (d *Domain) delivered(fr *Frame, in ssa.Instruction, st *St, old, src *Term) {
	list := st.exAll("list")
	if len(list) == 0 && st.leq(old.args[2], tZero) {
		st.exAdd(facet("list", old.args[0], tZero))
		list = st.exAll("list")
	}
	good := len(list) == 1 && st.eqv(old.args[0], list[0].args[0]) && st.eqv(old.args[2], list[0].args[1])
	d.chk(fr, in, "C17", "values-added-at-the-end", good, "a value is not added at the end of the list of this round")
	c, ok := st.norm(src.args[2]).isConst()
	if !ok || c > 8 {
		d.e.fail(fr, in, "unknown values are added to a list")
	}
	for i := int64(0); i < c; i++ {
		v := d.e.elemAt(st, src.args[0], addc(src.args[1], i), types.Typ[types.Uint64])
		found := false
		for _, f := range st.exAll("deliver") {
			if st.eqv(v, extract(f.args[0], 9, 55)) {
				st.exReplace(f, nil)
				found = true
				break
			}
		}
		d.chk(fr, in, "C17", "only-leaves-reached-delivered", found, "%s is added to the list of values, but is not the value of the leaf just reached: %v", v, st.exAll("deliver"))
	}
}

// listed: the list of values is now the one at nb
func (d *Domain) listed(st *St, old, nb, ln *Term) {
	st.exDrop("list")
	st.exAdd(facet("list", nb, ln))
}

func (c *Ctx) iterField(it *Term, name string) *Term { return c.opField(it, "Iterator", name) }

func (c *Ctx) nextDriver(kind string) error {
	f := c.p.method("Iterator", "Next")
	if f == nil {
		return fmt.Errorf("Iterator.Next not found")
	}
	d := c.d
	d.mode, d.scope, d.walk = "query", "prefix", "iter"
	d.driver = "Iterator.Next (" + kind + ")"
	ks := c.setKey()
	it := mkObj(mkSym(Sym{name: "ITER", kind: SParam, ptr: true}))
	for _, n := range []string{"value", "stack", "prefetched", "pp", "searchPrefix", "resumeAt", "done"} {
		if fieldIndex(c.p.named("Iterator"), n) < 0 {
			return fmt.Errorf("Iterator.%s not found", n)
		}
	}
	st := newSt()
	set := func(n string, v *Term) { st.mem[c.iterField(it, n)] = v }
	pb := mkObj(mkSym(Sym{name: "PRE", kind: SParam, ptr: true}))
	pl := mkSym(Sym{name: "PRE.len", kind: SLen, nonN: true, max: 1 << 40})
	pp := mkSym(Sym{name: "PP", kind: SParam, nonN: true})
	pre := mkSlice(pb, tZero, pl, mkSym(Sym{name: "PRE.cap", kind: SLen, nonN: true, max: 1 << 40}))
	set("searchPrefix", ks)
	set("prefetched", pre)
	set("pp", pp)
	set("done", tFalse)
	st.addFact(mkLe0(sub(pp, pl)))
	rb, rs := keySlice("RES")
	switch kind {
	case "cached":
		set("done", mkSym(Sym{name: "DONE", kind: SParam, bol: true}))
		st.addFact(mkLe0(addc(sub(pp, pl), 1)))
		set("resumeAt", rs)
	case "finished":
		set("done", tTrue)
		st.addFact(mkLe0(sub(pl, pp)))
		set("resumeAt", rs)
	case "first":
		st.addFact(mkLe0(sub(pl, pp)))
		set("resumeAt", mkSlice(rb, tZero, tZero, rs.args[3]))
	case "resume":
		st.addFact(mkLe0(sub(pl, pp)))
		st.addFact(mkLe0(sub(K(1), rs.args[2])))
		set("resumeAt", rs)
		d.res, d.resLen = rb, rs.args[2]
	}
	start := st.clone()
	exits, err := c.run(f, st, []*Term{it}, "next")
	if err != nil {
		return err
	}
	fr := c.frameOf(f)
	for i, x := range exits {
		c.exits++
		c.closed(fr, x, nil)
		s := x.st
		if os.Getenv("DUMPX") != "" {
			fmt.Println("--- exit", i, x.ret)
			fmt.Println(s.dump())
		}
		get := func(n string) *Term { return s.mem[c.iterField(it, n)] }
		if v := get("stack"); v != nil && v.op == OSlice && s.lt(v.args[2], tZero) {
			continue // no slice is that short
		}
		was := func(n string) *Term { return start.mem[c.iterField(it, n)] }
		same := func(names ...string) bool {
			for _, n := range names {
				if get(n) != was(n) {
					return false
				}
			}
			return true
		}
		truth := func(t *Term) string {
			switch {
			case t == tTrue || s.prove(t):
				return "true"
			case t == tFalse || s.prove(mkNot(t)):
				return "false"
			}
			return "?"
		}
		if len(x.ret) != 1 || get("prefetched").op != OSlice {
			return fmt.Errorf("unexpected result of Next")
		}
		r := truth(x.ret[0])
		d.chk(fr, nil, "C17", "next-tells-result", r != "?", "Next returns %s", x.ret[0])
		list := get("prefetched")
		elem := func(i *Term) *Term { return c.e.elemAt(s, list.args[0], add(list.args[1], i), types.Typ[types.Uint64]) }
		d.chk(fr, nil, "C17,C26", "prefix-kept", same("searchPrefix"), "Next changes the prefix to iterate below")
		switch kind {
		case "cached":
			d.chk(fr, nil, "C17", "prefetched-value-next", r == "true" && get("value") != nil && s.eqv(get("value"), elem(pp)) && s.eqv(get("pp"), addc(pp, 1)), "Next does not return the next prefetched value: returns %s, value %s, position %s", r, get("value"), get("pp"))
			d.chk(fr, nil, "C17", "prefetched-values-kept", same("prefetched", "resumeAt", "done"), "Next changes the list of prefetched values, or where to resume, while there are some left")
			continue
		case "finished":
			d.chk(fr, nil, "C17", "stops-after-last", r == "false" && same("done") && s.leq(get("prefetched").args[2], get("pp")), "Next goes on after the last value")
			continue
		}
		done := truth(get("done"))
		d.chk(fr, nil, "C17", "done-known", done != "?", "whether the iteration is finished depends on %s", get("done"))
		if !d.chk(fr, nil, "C17,C16", "prefix-search-decided", s.exHas(facet("started")), "Next returns without having found out what is below the prefix") {
			continue
		}
		if l := s.exAll("single"); len(l) == 1 {
			if kind == "resume" {
				continue // there was more than one key when this started
			}
			d.chk(fr, nil, "C17", "single-key-returned", r == "true" && done == "true" && get("value") != nil && s.eqv(get("value"), extract(l[0].args[0], 9, 55)) && s.leq(list.args[2], get("pp")), "the only key below the prefix is not returned once: returns %s, value %s, finished %s, %s of %s", r, get("value"), done, get("pp"), list.args[2])
			continue
		}
		if done == "true" {
			d.restEmpty(fr, s)
		} else {
			d.chk(fr, nil, "C17", "rest-is-on-stack", len(d.ways(s)) == 0, "the round ends, but %v is not on the stack", d.ways(s))
			d.chk(fr, nil, "C17", "leaf-delivered", len(s.exAll("deliver")) == 0, "a leaf reached is not put into the result")
			good := false
			ra := get("resumeAt")
			for _, f := range s.exAll("nextkey") {
				good = good || ra != nil && ra.op == OSlice && ra.args[0] == f.args[0] && s.eqv(ra.args[1], tZero) && s.eqv(ra.args[2], f.args[1])
			}
			d.chk(fr, nil, "C17", "resumes-at-next-child", good, "the key the iteration is to go on from is not that of the next child: %s, %v %v", ra, s.exAll("nextkey"), s.exAll("saved"))
		}
		n := tZero
		ll := s.exAll("list")
		if len(ll) == 1 {
			n = ll[0].args[1]
			d.chk(fr, nil, "C17", "list-complete", s.eqv(list.args[0], ll[0].args[0]) && s.eqv(list.args[1], tZero) && s.eqv(list.args[2], n), "the list of values of this round is not the one kept")
		} else {
			d.chk(fr, nil, "C17", "list-complete", s.leq(list.args[2], get("pp")), "values of the last round are kept")
		}
		switch r {
		case "true":
			d.chk(fr, nil, "C17", "first-value-next", get("value") != nil && s.geq(n, 1) && s.eqv(get("value"), elem(tZero)) && s.eqv(get("pp"), K(1)), "Next does not return the first value of the round: value %s, position %s, %s values", get("value"), get("pp"), n)
		case "false":
			d.chk(fr, nil, "C17", "false-only-at-end", done == "true" && s.leq(n, tZero) && s.leq(list.args[2], get("pp")), "false is returned with %s values, finished %s", n, done)
		}
	}
	return nil
}

// iterDriver: whatever an iterator was used for before, an iteration starts as with a fresh one
func (c *Ctx) iterDriver(kind string) error {
	d := c.d
	d.mode = "query"
	ks := c.setKey()
	var f *ssa.Function
	var args []*Term
	it := mkObj(mkSym(Sym{name: "ITER", kind: SParam, ptr: true}))
	switch kind {
	case "Reset":
		f, args = c.p.method("Iterator", "Reset"), []*Term{it, ks}
	default:
		f, args = c.p.fn("NewIterator"), []*Term{c.e.tree, ks}
		if t := c.p.method("Tree", "NewIterator"); t != nil {
			f = t // it calls the function
		}
	}
	if f == nil {
		return fmt.Errorf("%s of Iterator not found", kind)
	}
	d.driver = "Iterator: " + kind
	exits, err := c.run(f, newSt(), args, "iter")
	if err != nil {
		return err
	}
	fr := c.frameOf(f)
	for i, x := range exits {
		c.exits++
		c.closed(fr, x, nil)
		s := x.st
		if os.Getenv("DUMPX") != "" {
			fmt.Println("--- exit", i, x.ret)
			fmt.Println(s.dump())
		}
		if kind != "Reset" {
			if len(x.ret) != 1 {
				return fmt.Errorf("NewIterator returns %d values", len(x.ret))
			}
			it = x.ret[0]
			d.chk(fr, nil, "C04,C25", "operation-not-in-pool", !s.exHas(facet("put", it)) && it != tNil, "an iterator is returned that was given back to the pool")
			d.chk(fr, nil, "C25,C17", "iteration-starts-fresh", s.mem[c.iterField(it, "idx")] == c.e.tree, "the iterator returned works on %s", s.mem[c.iterField(it, "idx")])
		}
		get := func(n string) *Term { return s.mem[c.iterField(it, n)] }
		chk := func(ok bool, format string, a ...interface{}) {
			d.chk(fr, nil, "C25,C17", "iteration-starts-fresh", ok, format, a...)
		}
		empty := func(v *Term) bool { return v != nil && (v == tNil || v.op == OSlice && s.leq(v.args[2], tZero)) }
		chk(empty(get("resumeAt")), "the key to resume at is left from the last iteration: %s", get("resumeAt"))
		pre, pp := get("prefetched"), get("pp")
		if pre == nil {
			pre = c.e.load(fr, &FS{st: s}, f.Blocks[0].Instrs[0], c.iterField(it, "prefetched"), types.NewSlice(types.Typ[types.Uint64]))
		}
		chk(empty(pre) && pp != nil && s.geq(pp, 0) || pre != nil && pre.op == OSlice && pp != nil && s.leq(pre.args[2], pp), "values prefetched by the last iteration are left: %s, position %s", pre, pp)
		chk(get("done") == tFalse || get("done") != nil && s.prove(mkNot(get("done"))), "the iterator may count as finished: %s", get("done"))
		sp := get("searchPrefix")
		chk(sp != nil && (sp == tNil && s.leq(d.keyLen, tZero) || sp.op == OSlice && s.eqv(sp.args[2], d.keyLen)), "the prefix iterated is not the one given: %s", sp)
		if sp != nil && sp.op == OSlice && !s.leq(d.keyLen, tZero) {
			k := mkSym(Sym{name: "k", kind: SParam, nonN: true})
			t := s.clone()
			t.addFact(mkLe0(addc(sub(k, d.keyLen), 1)))
			b := types.Typ[types.Byte]
			got, want := c.e.elemAt(t, sp.args[0], add(sp.args[1], k), b), c.e.elemAt(t, d.key, k, b)
			if sp.args[0].op == OObj && isLoopVar(sp.args[0].args[0]) {
				continue // built in a loop, the bytes are not followed
			}
			chk(t.eqv(got, want), "byte %s of the prefix iterated is %s, not that of the one given", k, got)
		}
	}
	return nil
}
