package main

// Handing out node memory: what the allocation function returns is free, large enough, and not handed out twice.

import (
	"fmt"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// seenReservation: a reservation was read; lb(x) says that x is at most every reservation read so far, up(n) that
// those with an index below n were read, down(n) that those from n on were read
func (d *Domain) seenReservation(fr *Frame, in ssa.Instruction, st *St, a, v *Term) {
	i := reservationIndex(a)
	if i == nil {
		d.e.fail(fr, in, "a reservation is read through %s", a)
	}
	if l := st.exAll("up"); len(l) > 0 && st.eqv(i, l[0].args[0]) {
		st.exDel(l[0])
		st.exAdd(facet("up", addc(i, 1)))
	} else if len(l) == 0 && st.eqv(i, tZero) {
		st.exAdd(facet("up", K(1)))
	}
	if l := st.exAll("down"); len(l) > 0 && st.eqv(addc(i, 1), l[0].args[0]) {
		st.exDel(l[0])
		st.exAdd(facet("down", i))
	} else if len(l) == 0 {
		for _, f := range d.reservationLens(st, a) {
			if st.eqv(addc(i, 1), f) {
				st.exAdd(facet("down", i))
			}
		}
	}
	if len(st.exAll("obs")) > 0 {
		// two candidates, and nothing is known about which one is lower
		st.exDrop("obs")
		if len(st.exAll("lbfail")) == 0 {
			st.exAdd(facet("lbfail"))
		}
	}
	st.exAdd(facet("obs", v))
	d.lowest(st)
}

// reservationIndex: the index of the reservation at address a
func reservationIndex(a *Term) *Term {
	var found *Term
	var w func(t *Term)
	w = func(t *Term) {
		if found != nil {
			return
		}
		if t.op == OIdx || t.op == OElem {
			found = t.args[1]
			return
		}
		if t.op == OSym && t.sym.loc != nil {
			w(t.sym.loc)
		}
		for _, x := range t.args {
			w(x)
		}
	}
	w(a)
	return found
}

func (d *Domain) reservationLensOf(st *St, name string) []*Term {
	var l []*Term
	seen := map[*Term]bool{}
	for f := range st.facts {
		for _, s := range f.syms {
			if s.op == OSym && s.sym.name == name+".len" && !seen[s] {
				seen[s] = true
				l = append(l, s)
			}
		}
	}
	return l
}

func (d *Domain) reservationLens(st *St, a *Term) []*Term {
	var l []*Term
	seen := map[*Term]bool{}
	for f := range st.facts {
		for _, s := range f.syms {
			if s.op == OSym && strings.HasSuffix(s.sym.name, ".len") && (strings.HasPrefix(s.sym.name, "reservations") || strings.HasPrefix(s.sym.name, "slots")) && !seen[s] {
				seen[s] = true
				l = append(l, s)
			}
		}
	}
	return l
}

// lowest brings the lower bound up to date
func (d *Domain) lowest(st *St) {
	for _, o := range st.exAll("obs") {
		v := o.args[0]
		lb := st.exAll("lb")
		if len(lb) == 0 {
			st.exDel(o)
			st.exAdd(facet("lb", v))
			continue
		}
		x := lb[0].args[0]
		switch {
		case x == v || st.leq(x, v):
			st.exDel(o)
		case st.leq(v, x):
			st.exDel(o)
			st.exDel(lb[0])
			st.exAdd(facet("lb", v))
		}
	}
}

// allocDriver: the function handing out node memory, called with a number of slots by an allocator in any state
func (c *Ctx) allocDriver() error {
	fn := c.p.allocFn()
	delete(c.e.prims, fn)
	d := c.d
	d.mode = "alloc"
	d.driver = fnName(fn)
	st := newSt()
	size := mkSym(Sym{name: "SIZE", kind: SParam, nonN: true, max: 1 << 20})
	st.addFact(mkLe0(sub(K(2), size)))
	recv := c.allocParam()
	al := c.p.named("Allocator")
	field := func(n string) *Term {
		fi := fieldIndex(al, n)
		if fi < 0 {
			return nil
		}
		return mkField(recv, fi, n)
	}
	fo, fn2 := field("offset"), field("nextFree")
	if fo == nil || fn2 == nil {
		return fmt.Errorf("the fields describing the free part of a block were not found")
	}
	// both are multiples of eight; kept by every way out
	blockBytes := d.slots * 8
	O := mulc(mkSym(Sym{name: "OFFSET", kind: SParam, nonN: true, max: 1 << 45}), 8)
	F := mulc(mkSym(Sym{name: "NEXTFREE", kind: SParam, nonN: true, max: 1 << 30}), 8)
	st.mem[fo], st.mem[fn2] = O, F
	st.exAdd(facet("lb", mk(Term{op: OBig, str: "18446744073709551615"})))
	exits, err := c.run(fn, st, []*Term{recv, size}, d.driver)
	if err != nil {
		return err
	}
	fr := c.frameOf(fn)
	for i, x := range exits {
		s := x.st
		d.lowest(s)
		dbgSt = s
		if os.Getenv("DUMPX") != "" {
			fmt.Println("--- exit", i, x.ret)
			fmt.Println(s.dump())
		}
		if len(x.ret) != 1 {
			return fmt.Errorf("%s returns %d values", fnName(fn), len(x.ret))
		}
		R := s.norm(x.ret[0])
		O2, F2 := s.mem[fo], s.mem[fn2]
		if R.op == OSym && R.sym.loc != nil && R.sym.loc.op == OField && R.sym.loc.str == "n" {
			if err := c.reused(fr, s, R, size, O2 == O && F2 == F); err != nil {
				return err
			}
			continue
		}
		d.chk(fr, nil, "C02", "lists-kept", len(s.exAll("retiring"))+len(s.exAll("rest")) == 0, "nodes are added to the list of reusable nodes although none was taken from it")
		d.chk(fr, nil, "C15", "free-part-starts-behind-node", s.eqv(mulc(add(R, size), 8), add(O2, F2)), "node at slot %s of %s slots is handed out, but the free part of the block starts at byte %s", R, size, s.norm(add(O2, F2)))
		d.chk(fr, nil, "C15", "whole-slots", mod8(s.norm(O2)) && mod8(s.norm(F2)), "the free part of the block starts inside a slot")
		var blk *Term
		for _, f := range s.exAll("recv") {
			blk = f.args[0]
		}
		if blk == nil {
			d.chk(fr, nil, "C15", "node-from-free-part", s.leq(add(O, F), mulc(R, 8)), "slot %s is handed out, but memory is only free from byte %s on", R, add(O, F))
			d.chk(fr, nil, "C15", "same-block", s.eqv(O, O2), "the block is changed to %s without taking a new one", O2)
			d.chk(fr, nil, "C15", "fits-in-block", s.leq(F2, K(blockBytes-8)), "a node ending at byte %s of a block of %d bytes may not fit", s.norm(F2), blockBytes)
			continue
		}
		start := s.norm(mulc(blk, blockBytes))
		d.chk(fr, nil, "C15", "node-in-new-block", s.leq(start, mulc(R, 8)) && s.leq(start, O2), "slot %s is handed out, but the new block starts at byte %s", R, start)
		d.chk(fr, nil, "C15", "slot-zero-not-used", s.leq(K(1), R), "slot %s is handed out, but slot 0 stands for no node", R)
		d.chk(fr, nil, "C15", "new-block-from-start", s.leq(mulc(R, 8), addc(start, 8)), "the first node of a new block is put at slot %s", R)
		d.chk(fr, nil, "C15", "offset-is-block", s.eqv(O2, start) || s.eqv(start, tZero) && s.leq(O2, K(8)), "the offset becomes %s for the block at byte %s", O2, start)
	}
	return nil
}

// mod8: a multiple of eight
func mod8(t *Term) bool {
	if c, ok := t.isConst(); ok {
		return c%8 == 0
	}
	c, _, coef := linOf(t)
	for _, m := range coef {
		if m%8 != 0 {
			return false
		}
	}
	return c%8 == 0
}

// reused: a node is taken from the lists of reusable ones
func (c *Ctx) reused(fr *Frame, s *St, n, size *Term, untouched bool) error {
	d := c.d
	el := n.sym.loc.args[0] // the item
	if el.op != OIdx || el.args[0].op != OObj || el.args[0].args[0].op != OSym || el.args[0].args[0].sym.loc == nil {
		return fmt.Errorf("the node comes from %s", el)
	}
	list, i := el.args[0], el.args[1]
	ll := list.args[0].sym.loc
	if ll.op != OIdx {
		return fmt.Errorf("the list of the node is %s", ll)
	}
	outer, t := ll.args[0], ll.args[1]
	d.chk(fr, nil, "C15", "free-part-kept", untouched, "the free part of the block changes although a node is reused")
	d.chk(fr, nil, "C15,C02", "reused-node-large-enough", s.leq(size, t), "a node of %s slots is handed out for %s", t, size)
	// the epoch of the item
	var ep *Term
	for f := range s.facts {
		for _, y := range f.syms {
			if y.op == OSym && y.sym.loc != nil && y.sym.loc.op == OField && y.sym.loc.str == "e" && y.sym.loc.args[0] == el {
				ep = y
			}
		}
	}
	lb := s.exAll("lb")
	all := false
	for _, ln := range d.reservationLens(s, nil) {
		if s.leq(ln, tZero) {
			all = true
		}
		if u := s.exAll("up"); len(u) > 0 && s.leq(ln, u[0].args[0]) {
			all = true
		}
		if u := s.exAll("down"); len(u) > 0 && s.leq(u[0].args[0], tZero) {
			all = true
		}
	}
	d.chk(fr, nil, "C02", "all-reservations-considered", all, "a node is reused without looking at the reservations of all allocators: %v %v", s.exAll("up"), s.exAll("down"))
	d.chk(fr, nil, "C02", "lowest-reservation-found", len(s.exAll("obs"))+len(s.exAll("lbfail")) == 0 && len(lb) == 1, "the lowest reservation is not determined: %v", s.exAll("obs"))
	d.chk(fr, nil, "C02", "reused-only-if-unreserved", len(lb) == 1 && ep != nil && s.lt(ep, lb[0].args[0]), "a node is reused although somebody may have reserved the epoch it was removed in")
	// what is left
	rest := s.exAll("rest")
	d.chk(fr, nil, "C02", "rest-given-back-once", len(rest) <= 1 && len(s.exAll("retiring")) == 0, "the unused part of a reused node is given back %d times", len(rest))
	for _, r := range rest {
		m, k := r.args[0], r.args[1]
		d.chk(fr, nil, "C02,C15", "rest-inside-node", s.leq(add(n, size), m) && s.leq(add(m, k), add(n, t)), "slots %s to %s are kept for reuse after handing out %s slots of the node at %s with %s slots", m, add(m, k), size, n, t)
		d.chk(fr, nil, "C15", "rest-complete", s.eqv(add(n, size), m) && s.eqv(add(m, k), add(n, t)), "slots %s to %s are kept for reuse after handing out %s slots of the node at %s with %s slots", m, add(m, k), size, n, t)
	}
	if len(rest) == 0 {
		d.chk(fr, nil, "C15", "rest-complete", s.leq(t, addc(size, 1)), "a node of %s slots is handed out for %s and the rest is lost", t, size)
	}
	// taken out of its list
	var now *Term
	for _, g := range s.segs(outer) {
		if g.str == "word" && s.eqv(g.args[0], t) {
			now = g.args[1]
		}
	}
	if now == nil || now.op != OSlice {
		d.chk(fr, nil, "C02", "reused-node-leaves-list", false, "a node is handed out, but stays in the list of reusable nodes")
		return nil
	}
	L := c.listLen(s, list)
	if L == nil {
		return fmt.Errorf("the length of %s is unknown", list)
	}
	if now.args[0] != list {
		return fmt.Errorf("the list of reusable nodes is rebuilt as %s", now)
	}
	off, ln := now.args[1], now.args[2]
	d.chk(fr, nil, "C02", "reused-node-leaves-list", s.eqv(ln, addc(L, -1)), "the list of reusable nodes has %s items after taking one of %s", ln, L)
	// the item that is cut off takes the place of the one handed out
	cut := addc(L, -1)
	if s.eqv(off, K(1)) {
		cut = tZero
	} else if !s.eqv(off, tZero) {
		return fmt.Errorf("the list of reusable nodes starts at %s", off)
	}
	moved := s.eqv(i, cut)
	if !moved {
		moved = true
		for k, nm := range []string{"n", "e"} {
			_ = k
			v := s.mem[mkField(el, fieldIndex(c.p.named("recycledItem"), nm), nm)]
			ok := v != nil && v.op == OSym && v.sym.loc != nil && v.sym.loc.op == OField && v.sym.loc.str == nm && v.sym.loc.args[0].op == OIdx && v.sym.loc.args[0].args[0] == list && s.eqv(v.sym.loc.args[0].args[1], cut)
			moved = moved && ok
		}
		if !moved {
			for _, g := range s.segs(list) {
				if g.str == "copy" {
					return fmt.Errorf("items of the list of reusable nodes are moved: %s", g)
				}
			}
		}
	}
	d.chk(fr, nil, "C02", "list-keeps-other-nodes", moved, "item %s of the list is handed out, but item %s is removed from it", i, cut)
	return nil
}

// listLen: the length symbol of a list
func (c *Ctx) listLen(s *St, list *Term) *Term {
	for f := range s.facts {
		for _, y := range f.syms {
			if y.op == OSym && y.sym.kind == SLen && y.sym.loc == list.args[0].sym.loc && strings.HasSuffix(y.sym.name, ".len") {
				return y
			}
		}
	}
	return nil
}
