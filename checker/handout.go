package main

// C11: the number of keys as the sum of the shared counter and the private counters of all allocators.
// C04: what GetAllocator and ReleaseAllocator do to the handout.

import (
	"fmt"
	"go/types"
	"os"

	"golang.org/x/tools/go/ssa"
)

// sumTo is the sum of the private counters of the allocators before position i
func sumTo(of, i *Term) *Term {
	if i == tZero {
		return tZero
	}
	return mk(Term{op: OElem, str: "sum", args: []*Term{of, i}})
}

// ofAllocator: the position of the allocator whose private counter a is
func (d *Domain) ofAllocator(a *Term) *Term {
	if a.op != OField || a.str != "itemCounter" || a.args[0].op != OObj {
		return nil
	}
	if el := a.args[0].args[0]; el.op == OElem && viaField(el.args[0], "allocators") {
		return el.args[1]
	}
	return nil
}

func (d *Domain) sumAdd(st *St, what string, t *Term) {
	for _, f := range st.exAll(what) {
		st.exDel(f)
		t = add(f.args[0], t)
	}
	st.exAdd(facet(what, st.norm(t)))
}

func (d *Domain) sumLoad(fr *Frame, fs *FS, in ssa.Instruction, a *Term) *Term {
	st := fs.st
	if i := d.ofAllocator(a); i != nil {
		if d.e.silent == 0 {
			d.chk(fr, in, "C11,C23", "counters-read-when-still", len(st.exAll("withdrawn")) > 0 || st.stoppedNow(d.e), "the private counter of an allocator is read while it may be in use")
		}
		of := mk(Term{op: OObj, args: []*Term{KStr("COUNTS")}})
		return sub(sumTo(of, addc(i, 1)), sumTo(of, i))
	}
	t := mkSym(Sym{name: "SHARED", kind: SInit})
	for _, f := range st.exAll("live") {
		t = add(t, f.args[0])
	}
	return t
}

// stoppedNow: the tree was found stopped
func (st *St) stoppedNow(e *Engine) bool {
	for f := range st.facts {
		if f.op == OSym && f.sym.bol && f.sym.loc != nil && f.sym.loc.op == OField && f.sym.loc.str == "stopped" {
			return true
		}
	}
	return false
}

// sumStore: a private counter is changed: what it loses must be added to the shared one
func (d *Domain) sumStore(fr *Frame, fs *FS, in ssa.Instruction, a, v *Term) bool {
	st := fs.st
	switch {
	case a.op == OField && a.str == "liveObjects":
		d.sumAdd(st, "live", sub(v, d.sumLoad(fr, fs, in, a)))
		return true
	case d.ofAllocator(a) != nil:
		old := st.mem[a]
		if old == nil {
			old = d.sumLoad(fr, fs, in, a)
		}
		st.mem[a] = v
		d.sumAdd(st, "moved", sub(old, v))
		return true
	}
	return false
}

func (c *Ctx) sumsDriver(typ, method string) error {
	ep, err := c.entryOf(typ, method)
	if err != nil {
		return err
	}
	d := c.d
	d.mode = "sums"
	d.driver = ep.name
	c.withdrawPrims()
	if typ == "Allocator" {
		// an allocator the caller holds
		delete(c.e.prims, ep.fn)
	}
	exits, err := c.run(ep.fn, newSt(), []*Term{ep.recv}, ep.name)
	if err != nil {
		return err
	}
	fr := c.frameOf(ep.fn)
	for _, x := range exits {
		s := x.st
		dbgSt = s
		if os.Getenv("DUMPX") != "" {
			fmt.Println("--- exit", x.ret)
			fmt.Println(s.dump())
		}
		live, moved := tZero, tZero
		for _, f := range s.exAll("live") {
			live = add(live, f.args[0])
		}
		for _, f := range s.exAll("moved") {
			moved = add(moved, f.args[0])
		}
		if typ == "Allocator" {
			al := c.p.named("Allocator")
			fi := fieldIndex(al, "itemCounter")
			a := mkField(ep.recv, fi, "itemCounter")
			old := c.e.initVal(a, types.Typ[types.Int64])
			v, ok := s.mem[a]
			if !ok {
				v = old
			}
			d.chk(fr, nil, "C11", "counts-moved-completely", s.eqv(v, tZero), "the private counter becomes %s", v)
			w := s.norm(live)
			d.chk(fr, nil, "C11", "counts-moved-completely", s.eqv(w, old), "the private counter is reset, but %s is added to the shared one", w)
			continue
		}
		d.chk(fr, nil, "C11", "counts-moved-completely", s.eqv(live, moved), "%s is added to the shared counter and %s taken from the private ones", live, moved)
		if len(x.ret) != 1 {
			return fmt.Errorf("%s returns %d values", ep.name, len(x.ret))
		}
		ok, known, got := c.sumComplete(s, sub(x.ret[0], mkSym(Sym{name: "SHARED", kind: SInit})))
		if !ok && !known {
			return fmt.Errorf("how the result %s is added up was not understood", x.ret[0])
		}
		d.chk(fr, nil, "C11", "all-counters-included", ok, "the number of keys is the shared counter plus %s", got)
		for _, f := range []string{"sess", "hand", "mu", "withdrawn"} {
			l := s.exAll(f)
			d.chk(fr, nil, "C23", "leaves-nothing-behind", len(l) == 0, "%s ends, but leaves behind: %v", ep.name, l)
		}
	}
	return nil
}

// sumComplete: t is the sum of the private counters of all allocators; known if it is a sum of some of them at all
func (c *Ctx) sumComplete(s *St, t *Term) (ok, known bool, got string) {
	t = s.norm(t)
	got = t.String()
	cands := []*Term{t}
	for n := 0; n < 3; n++ {
		for _, y := range append([]*Term{}, cands...) {
			for f := range s.facts {
				if f.op == OEq0 && len(cands) < 500 {
					cands = append(cands, sub(y, f.args[0]), add(y, f.args[0]))
				}
			}
		}
	}
	best := 1 << 30
	for _, x := range cands {
		k, args, coef := linOf(x)
		sums, rest := tZero, K(k)
		for i, a := range args {
			if a.op != OElem || a.str != "sum" {
				rest = add(rest, mulc(a, coef[i]))
				continue
			}
			if s.eqv(a.args[1], tZero) {
				continue
			}
			sums = add(sums, mulc(sumTo(a.args[0], s.canonPos(c, a.args[1])), coef[i]))
		}
		if rest != tZero {
			if shared(rest) {
				known = true
			}
			continue
		}
		known = true
		if n := len(sums.String()); n < best {
			best, got = n, sums.String()
		}
		if sums.op == OElem && sums.args[1].op == OSym && sums.args[1].sym.name == "allocators.len" {
			return true, true, got
		}
		if sums == tZero {
			for _, n := range c.d.reservationLensOf(s, "allocators") {
				if s.leq(n, tZero) {
					return true, true, got
				}
			}
		}
	}
	return false, known, got
}

// shared: only constants and the shared counter, which is then counted wrongly
func shared(t *Term) bool {
	_, args, _ := linOf(t)
	for _, a := range args {
		if a.op != OSym || a.sym.name != "SHARED" {
			return false
		}
	}
	return true
}

// canonPos: the number of allocators if that is what i is
func (s *St) canonPos(c *Ctx, i *Term) *Term {
	for _, n := range c.d.reservationLensOf(s, "allocators") {
		if s.eqv(i, n) || s.leq(i, n) && s.leq(n, i) {
			return n
		}
	}
	return i
}

// handoutDriver: taking one allocator and giving one back
func (c *Ctx) handoutDriver() error {
	d := c.d
	get, err := c.entryOf("Tree", "GetAllocator")
	if err != nil {
		return err
	}
	put, err := c.entryOf("Tree", "ReleaseAllocator")
	if err != nil {
		return err
	}
	d.mode = "handout"
	d.driver = get.name
	exits, err := c.run(get.fn, newSt(), []*Term{get.recv}, get.name)
	if err != nil {
		return err
	}
	for _, x := range exits {
		s := x.st
		fr := c.frameOf(get.fn)
		if os.Getenv("DUMPX") != "" {
			fmt.Println("--- exit", x.ret)
			fmt.Println(s.dump())
		}
		h := s.exAll("hand")
		if !d.chk(fr, nil, "C04", "one-allocator-taken", len(h) == 1 && len(x.ret) == 1, "%d allocators are taken out of the handout: %v", len(h), h) {
			continue
		}
		i := handIndex(h[0].args[0])
		a := x.ret[0]
		ok := i != nil && a.op == OObj && a.args[0].op == OElem && viaField(a.args[0].args[0], "allocators") && s.eqv(a.args[0].args[1], i)
		d.chk(fr, nil, "C04", "allocator-belongs-to-flag", ok, "allocator %s is returned for the flag %s", a, h[0].args[0])
		d.chk(fr, nil, "C01,C04", "nothing-else-held", len(s.exAll("sess")) == 0, "an allocator is handed out with a reservation")
		if !ok {
			continue
		}
		d.driver = get.name + " > " + put.name
		ys, err := c.run(put.fn, s.clone(), []*Term{put.recv, a}, d.driver)
		if err != nil {
			return err
		}
		for _, y := range ys {
			d.chk(c.frameOf(put.fn), nil, "C04", "given-back-once", len(y.st.exAll("hand")) == 0, "an allocator given back stays taken: %v", y.st.exAll("hand"))
		}
	}
	return nil
}
